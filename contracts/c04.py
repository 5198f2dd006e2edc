"""C04: what the SQL built from a plan statement means.

Meaning of an expression, in SQL's three-valued logic, for a choice of one row (or the row of nulls)
for each source of the FROM clause: T (true) and F (false).  A statement over a table keeps a row of
that table if there is a choice of rows with that row, allowed by the FROM clause, for which its
WHERE clause is true.
"""
import ast
import re

from contracts.lib import *
from pydv.state import PyRaise
from subsetter import plan_model as P
import sqlalchemy as sa

# ------------------------------------------------------------ rows, sources, expressions
ROWS = z3.DeclareSort("TableRow")
DBV = z3.DeclareSort("DbValue")
TUPLE = z3.DeclareSort("RowTuple")
TSRC = TEnt("Source", None)          # a table, an alias of one, or a join
CHOICE = z3.ArraySort(TSRC.sort, ROWS)
TCOLUMN = TEnt("Column", None)
TEXPR = TEnt("Expr", None)
TCTX = TEnt("Context", None)
TBUILT = TEnt("BuiltStatement", None)
TRANDOM = TEnt("RandomFraction", None)
B = z3.BoolSort()
T = z3.Function("true_for", TEXPR.sort, CHOICE, B)
F = z3.Function("false_for", TEXPR.sort, CHOICE, B)
NULLROW = z3.Const("row_of_nulls", ROWS)
cell = z3.Function("cell", ROWS, V.STR_S, DBV)
isnull = z3.Function("is_null", DBV, B)
col_of = z3.Function("column_of", TSRC.sort, V.STR_S, TCOLUMN.sort)
col_src = z3.Function("source_of_column", TCOLUMN.sort, TSRC.sort)
col_name = z3.Function("name_of_column", TCOLUMN.sort, V.STR_S)
has_row = z3.Function("has_row", TSRC.sort, ROWS, B)
# comparisons: with another value of the database, with a value given in the plan
EQ = z3.Function("equal", DBV, DBV, B)
OPS = {ast.Lt: "<", ast.Gt: ">", ast.Eq: "=", ast.NotEq: "<>"}
CMPT = z3.Function("compares_true", V.STR_S, DBV, V.VAL_S, B)
CMPF = z3.Function("compares_false", V.STR_S, DBV, V.VAL_S, B)
eqx = z3.Function("equal_expr", TCOLUMN.sort, TCOLUMN.sort, TEXPR.sort)
cmpx = z3.Function("compare_expr", V.STR_S, TCOLUMN.sort, V.VAL_S, TEXPR.sort)
nnx = z3.Function("is_not_null_expr", TCOLUMN.sort, TEXPR.sort)
draw = z3.Function("draw", CHOICE, z3.RealSort())


def val(col, c):
    return cell(z3.Select(c, col_src(col)), col_name(col))


def expr_axioms():
    s, n, x, y, c = (z3.Const("ea_s", TSRC.sort), z3.Const("ea_n", V.STR_S), z3.Const(
        "ea_x", TCOLUMN.sort), z3.Const("ea_y", TCOLUMN.sort), z3.Const("ea_c", CHOICE))
    o, v, d, e = (z3.Const("ea_o", V.STR_S), z3.Const("ea_v", V.VAL_S), z3.Const("ea_d", DBV),
                  z3.Const("ea_e", DBV))
    fa = z3.ForAll
    return [
        fa([s, n], And(col_src(col_of(s, n)) == s, col_name(col_of(s, n)) == n),
           patterns=[col_of(s, n)]),
        fa([x, y, c], T(eqx(x, y), c) == EQ(val(x, c), val(y, c)), patterns=[T(eqx(x, y), c)]),
        fa([o, x, v, c], And(T(cmpx(o, x, v), c) == CMPT(o, val(x, c), v), F(cmpx(
            o, x, v), c) == CMPF(o, val(x, c), v)), patterns=[T(cmpx(o, x, v), c)]),
        fa([o, x, v, c], F(cmpx(o, x, v), c) == CMPF(o, val(x, c), v),
           patterns=[F(cmpx(o, x, v), c)]),
        fa([x, c], T(nnx(x), c) == Not(isnull(val(x, c))), patterns=[T(nnx(x), c)]),
        fa([d, e], Implies(EQ(d, e), And(Not(isnull(d)), Not(isnull(e)))), patterns=[EQ(d, e)]),
        fa([n], isnull(cell(NULLROW, n)), patterns=[cell(NULLROW, n)]),
    ] + TVALUES.tag_facts() + TCLAUSE.tag_facts()


def forall_choice(it, fn):
    c = z3.Const(it.fresh_name("choice"), CHOICE)
    return it.forall([c], lambda: to_z3b(fn(c)))


def new_expr(it, t, f=None, name="expr"):
    """an expression with this meaning"""
    e = it.make(TEXPR, name)
    it._addfacts([forall_choice(it, lambda c: T(e.t, c) == t(c))] + ([] if f is None else [
        forall_choice(it, lambda c: F(e.t, c) == f(c))]))
    return e


TCOLS = TEnt("Columns", None, fields={"of": TSRC})


def column(it, a, kw):
    return Sym(TCOLUMN, col_of(it.getattr(a[0], "of").t, V.term(a[1], STR)))


TCOLS.methods["__getitem__"] = column
TPK = TEnt("PrimaryKey", None, fields={"columns": TSeq(TCOLUMN)},
           truth=lambda it, v: slen(it, it.getattr(v, "columns")) > 0)


def src_columns(it, v):
    c = Sym(TCOLS, z3.Function("columns_of", TSRC.sort, TCOLS.sort)(v.t))
    it._addfacts([eq(it, it.getattr(c, "of"), v)])
    return c


TSRC.fields.update({"c": src_columns, "columns": src_columns, "primary_key": TPK})


def col_compare(it, op, a, b):
    if type(op) not in OPS:
        raise Unsupported("comparison of columns")
    if isinstance(a, Sym) and a.ty is TCOLUMN and isinstance(b, Sym) and b.ty is TCOLUMN:
        if not isinstance(op, ast.Eq):
            raise Unsupported("comparison of two columns")
        return Sym(TEXPR, eqx(a.t, b.t))
    if isinstance(b, Sym) and b.ty is TCOLUMN:  # Python swaps the operands
        a, b, op = b, a, {ast.Lt: ast.Gt, ast.Gt: ast.Lt}.get(type(op), type(op))()
    return Sym(TEXPR, cmpx(V.term(OPS[type(op)], STR), a.t, V.term(b, VAL)))


def like(it, a, kw):
    if kw or len(a) != 2:
        raise Unsupported("like")
    return Sym(TEXPR, cmpx(V.term("like", STR), a[0].t, V.term(a[1], VAL)))


def is_not(it, a, kw):
    if kw or len(a) != 2 or a[1] is not None:
        raise Unsupported("is_not")
    return Sym(TEXPR, nnx(a[0].t))


TCOLUMN.methods.update({"__compare__": col_compare, "like": like, "is_not": is_not})
TCOLUMN.methods["isnot"] = is_not


def pieces_of(it, args):
    return it.star_pieces(args)


def some_args(it, args, what):
    s = VSeq(it.star_pieces(args))
    it.oblige(f"{what} of at least one condition", slen(it, s) >= 1)
    return it.star_pieces(args)


def and_(it, args, kw):
    ps = some_args(it, args, "conjunction")
    return new_expr(it, lambda c: it.forall_elem(ps, lambda e: T(e.t, c)),
                    lambda c: it.exists_elem(ps, lambda e: F(e.t, c)), "and")


def or_(it, args, kw):
    ps = some_args(it, args, "disjunction")
    return new_expr(it, lambda c: it.exists_elem(ps, lambda e: T(e.t, c)),
                    lambda c: it.forall_elem(ps, lambda e: F(e.t, c)), "or")


def not_(it, args, kw):
    e = args[0]
    return new_expr(it, lambda c: F(e.t, c), lambda c: T(e.t, c), "not")


def constant(b):
    return lambda it, a, kw: new_expr(it, lambda c: z3.BoolVal(b), lambda c: z3.BoolVal(
        not b), "constant")


# ------------------------------------------------------------ rows of lists and statements
has_v = z3.Function("values_have", z3.DeclareSort("Values"), TUPLE, B)
has_b = z3.Function("statement_has", TBUILT.sort, TUPLE, B)
has_s = z3.Function("plan_statement_has", z3.DeclareSort("PlanSelect"), TUPLE, B)
comp = z3.Function("component", TUPLE, z3.IntSort(), V.VAL_S)
limited = z3.Function("is_limited", TBUILT.sort, B)


def built_rows(it, has):
    """the statement built has these rows"""
    b = it.make(TBUILT, "built")
    y = z3.Const(it.fresh_name("tup"), TUPLE)
    it._addfacts([it.forall([y], lambda: has_b(b.t, y) == has(y))])
    return b


def in_context(it, a):
    it.oblige("built in the context given", eq(it, a[1], it.args.context))


def values_build(it, a, kw):
    in_context(it, a)
    it.oblige("values that are a statement", Not(is_list(a[0])))
    return built_rows(it, lambda y: has_v(a[0].t, y))


TVALUES = TEnt("Values", None, classes=[list, P.SQLStatementSelect, P.SQLStatementUnion],
               methods={"build": values_build})
TTUPLE = TEnt("ColumnTuple", None)


def is_list(v):
    return TVALUES.tag(v.t) == 0


def tuple_(it, args, kw):
    t = it.make(TTUPLE, "tuple")
    it.ghost["tuples"][t.t.get_id()] = (t, VSeq(it.star_pieces(args)))
    return t


def row_is(cols, it, c, y, f=False):
    """the values of the columns are those of a tuple: true, or false"""
    n = slen(it, cols)
    o = V.term("=", STR)
    if f:
        return exists_int(it, lambda k: CMPF(o, val(at(it, cols, k).t, c), comp(y, k)), 0, n)
    return forall_int(it, lambda k: CMPT(o, val(at(it, cols, k).t, c), comp(y, k)), 0, n)


def in_meaning(it, cols, has):
    def t(c):
        y = z3.Const(it.fresh_name("tup"), TUPLE)
        return it.exists([y], lambda: And(has(y), row_is(cols, it, c, y)))

    def f(c):
        y = z3.Const(it.fresh_name("tup"), TUPLE)
        return it.forall([y], lambda: Implies(has(y), row_is(cols, it, c, y, True)))
    return t, f


def in_(it, a, kw):
    cols, v = it.ghost["tuples"][a[0].t.get_id()][1], a[1]
    if v.ty is TBUILT:
        return new_expr(it, *in_meaning(it, cols, lambda y: has_b(v.t, y)), name="in")
    it.oblige("a list of values", is_list(v))
    return new_expr(it, *in_meaning(it, cols, lambda y: has_v(v.t, y)), name="in")


TTUPLE.methods["in_"] = in_

# ------------------------------------------------------------ conditions of the plan
TCLAUSE = TEnt("Clause", None, truth=lambda it, v: V.TRUE, classes=[
    P.SQLWhereClauseOperator, P.SQLWhereClauseIn, P.SQLWhereClauseAnd, P.SQLWhereClauseOr,
    P.SQLWhereClauseRandom, P.SQLWhereClauseSQL, P.SQLWhereClauseTrue, P.SQLWhereClauseFalse])
CT = z3.Function("condition_true", TCLAUSE.sort, ROWS, B)
CF = z3.Function("condition_false", TCLAUSE.sort, ROWS, B)
clause_expr = z3.Function("built_condition", TCLAUSE.sort, TSRC.sort, TEXPR.sort)


def clause_axioms():
    x, s, c = (z3.Const("ca_x", TCLAUSE.sort), z3.Const("ca_s", TSRC.sort), z3.Const(
        "ca_c", CHOICE))
    return [z3.ForAll([x, s, c], And(T(clause_expr(x, s), c) == CT(x, z3.Select(c, s)), F(
        clause_expr(x, s), c) == CF(x, z3.Select(c, s))), patterns=[p(clause_expr(x, s), c)])
        for p in (T, F)]


def clause_build(it, a, kw):
    """the meaning of the condition for the row of the table (this property, by induction)"""
    in_context(it, a)
    return Sym(TEXPR, clause_expr(a[0].t, a[2].t))


TCLAUSE.methods["build"] = clause_build


def cond_setup(cls, **fields):
    def setup(it):
        it.ghost["tuples"] = {}
        return {"self": VObj(cls, {"type_": "x", **{
            k: it.make(ty, k) for k, ty in fields.items()}}),
            "context": it.make(TCTX, "context"), "table_obj": it.make(TSRC, "table")}
    return setup


def means(it, a, r, t, f):
    """true and false for the same rows of the table"""
    row = lambda c: z3.Select(c, a.table_obj.t)
    return {"true for the right rows": forall_choice(it, lambda c: T(r.t, c) == t(row(c), c)),
            "false for the right rows": forall_choice(it, lambda c: F(r.t, c) == f(row(c), c))}


def op_post(it, a, r):
    f = a.self.fields
    v, o, n = V.term(f["value"], VAL), f["operator"], V.term(f["column"], STR)

    def of(fn, swapped):
        def meaning(row, c):
            d = cell(row, n)
            m = V.FALSE
            for text, op, neg in (("<", "<", False), (">", ">", False), ("=", "=", False), (
                    "<>", "<>", False), ("!=", "<>", False), ("like", "like", False), (
                    "not like", "like", True)):
                m = z3.If(eq(it, o, text), (swapped if neg else fn)(V.term(op, STR), d, v), m)
            return m
        return meaning
    return means(it, a, r, of(CMPT, CMPF), of(CMPF, CMPT))


def known_operator(it, a):
    return {"a known operator": Or(*[eq(it, a.self.fields["operator"], o) for o in (
        "<", ">", "=", "<>", "!=", "like", "not like")])}


OPERATOR = Contract("subsetter.plan_model:SQLWhereClauseOperator.build", setup=cond_setup(
    P.SQLWhereClauseOperator, operator=STR, column=STR, value=VAL), requires=known_operator,
    ensures=op_post)


def in_post(it, a, r):
    f = a.self.fields

    def rows(row, y, fls=False):
        o, n = V.term("=", STR), slen(it, f["columns"])
        g = CMPF if fls else CMPT
        return (exists_int if fls else forall_int)(it, lambda k: g(o, cell(row, V.term(at(
            it, f["columns"], k), STR)), comp(y, k)), 0, n)

    def t(row, c):
        y = z3.Const(it.fresh_name("tup"), TUPLE)
        return it.exists([y], lambda: And(has_v(f["values"].t, y), rows(row, y)))

    def fl(row, c):
        y = z3.Const(it.fresh_name("tup"), TUPLE)
        return it.forall([y], lambda: Implies(has_v(f["values"].t, y), rows(row, y, True)))
    neg = V.term(f["negated"], BOOL)
    return means(it, a, r, lambda w, c: z3.If(neg, fl(w, c), t(w, c)), lambda w, c: z3.If(
        neg, t(w, c), fl(w, c)))


IN = Contract("subsetter.plan_model:SQLWhereClauseIn.build", setup=cond_setup(
    P.SQLWhereClauseIn, columns=TSeq(STR), values=TVALUES, negated=BOOL), ensures=in_post)


def nary(cls, conj):
    def post(it, a, r):
        cs = a.self.fields["conditions"]

        def every(fn):
            return lambda w, c: idx(it, lambda k: fn(at(it, cs, k).t, w), cs)

        def some(fn):
            return lambda w, c: exidx(it, lambda k: fn(at(it, cs, k).t, w), cs)
        return means(it, a, r, *((every(CT), some(CF)) if conj else (some(CT), every(CF))))
    return Contract(f"subsetter.plan_model:{cls.__name__}.build", setup=cond_setup(
        cls, conditions=TSeq(TCLAUSE)), ensures=post)


def const_post(b):
    return lambda it, a, r: means(it, a, r, lambda w, c: z3.BoolVal(b), lambda w, c: z3.BoolVal(
        not b))


def random_compare(it, op, a, b):
    if not isinstance(a, Sym) or a.ty is not TRANDOM or not isinstance(op, ast.Lt):
        raise Unsupported("comparison of a random fraction")
    return new_expr(it, lambda c: draw(c) < V.term(b, REAL), lambda c: Not(draw(
        c) < V.term(b, REAL)), "random")


TRANDOM.methods["__compare__"] = random_compare


def random_post(it, a, r):
    th = V.term(a.self.fields["threshold"], REAL)
    return means(it, a, r, lambda w, c: draw(c) < th, lambda w, c: Not(draw(c) < th))


# what the database calls random(): a fraction on all databases but sqlite
TDBRANDOM = TEnt("DatabaseRandom", None)
db_draw = z3.Function("database_random", CHOICE, z3.RealSort())


def db_random_compare(it, op, a, b):
    if not isinstance(a, Sym) or a.ty is not TDBRANDOM or not isinstance(op, ast.Lt):
        raise Unsupported("comparison of random()")
    lt = lambda c: db_draw(c) < V.term(b, REAL)
    return new_expr(it, lt, lambda c: Not(lt(c)), "random")


TDBRANDOM.methods["__compare__"] = db_random_compare
TCOMPILED = TEnt("CompiledText", None)
RENDERED = Sym(TCOMPILED, z3.Const("random_of_the_database", TCOMPILED.sort))


def render(it, a, kw):
    it.oblige("renders random() of the database", z3.BoolVal(
        len(a) == 2 and isinstance(a[1], Sym) and a[1].ty is TDBRANDOM))
    return RENDERED


TCOMPILER = TEnt("SQLCompiler", None, methods={"process": render})


def rendering(fn, post):
    def setup(it):
        return {"*args": [it.make(TRANDOM, "element"), it.make(TCOMPILER, "compiler")]}
    return Contract(f"subsetter.plan_model:{fn}", setup=setup, ensures=post)


def sqlite_value(text):
    """the value of a text of arithmetic over random() in sqlite, whose random() is the 64-bit
    integer r; division of integers is not considered"""
    r = z3.Int("sqlite_random")

    def value(n):
        if isinstance(n, ast.BinOp):
            (x, fx), (y, fy) = value(n.left), value(n.right)
            real = fx or fy
            if isinstance(n.op, ast.Div) and not real or not isinstance(
                    n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
                raise Unsupported("arithmetic in SQL text")
            if not real:
                raise Unsupported("integer arithmetic in SQL text")  # may overflow
            return {ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y,
                    ast.Div: lambda: x / y}[type(n.op)](), True
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            # as exact as the text says, not as a binary fraction
            return z3.RealVal(ast.get_source_segment(text, n)), isinstance(n.value, float)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.UAdd)):
            x, fx = value(n.operand)
            return (-x if isinstance(n.op, ast.USub) else x), fx
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id.lower() == "random" and not n.args and not n.keywords:
            return z3.ToReal(r), False
        raise Unsupported("SQL text")
    try:
        return r, value(ast.parse(text, mode="eval").body)[0]
    except SyntaxError:
        raise Unsupported("SQL text")


def sqlite_post(it, a, r):
    if not isinstance(r, str):
        raise Unsupported("SQL text")
    k, v = sqlite_value(r)
    after = z3.substitute(v, (k, k + 1))
    step = z3.RealVal(1) / z3.RealVal(2 ** 64)
    rng = lambda hi: And(k >= -2 ** 63, k < hi)
    return {"between 0 and 1": z3.ForAll([k], Implies(rng(2 ** 63), And(v >= 0, v <= 1))),
            "evenly spread": z3.ForAll([k], Implies(rng(2 ** 63 - 1), Or(
                after - v == step, v - after == step)))}


# raw SQL: a text with parameters
TTEXT = TEnt("Text", None, fields={"sql": STR, "params": TDict(STR, VAL), "unique": BOOL})
TBIND = TEnt("BindParam", None, fields={"name": STR, "value": VAL, "unique": BOOL})
wrapped = z3.Function("in_parentheses", V.STR_S, V.STR_S)
bindx = z3.Function("bindparam", V.STR_S, V.VAL_S, TBIND.sort)


def bindparam(it, a, kw):
    if len(a) != 2 or kw != {"unique": True}:
        raise Unsupported("bindparam")
    n, v = V.term(a[0], STR), V.term(a[1], VAL)
    b = Sym(TBIND, bindx(n, v))
    bind_facts(it)
    return b


def bind_facts(it):
    n, v = z3.Const(it.fresh_name("n"), V.STR_S), z3.Const(it.fresh_name("v"), V.VAL_S)
    b = Sym(TBIND, bindx(n, v))
    it._addfacts([ForAll([n, v], And(V.term(it.getattr(b, "name"), STR) == n, V.term(it.getattr(
        b, "value"), VAL) == v))])


def text(it, a, kw):
    if kw or len(a) != 1:
        raise Unsupported("text")
    t = it.make(TTEXT, "text")
    p = it._cont(it.getattr(t, "params"))
    it._addfacts([eq(it, it.getattr(t, "sql"), a[0]), forall_ty(
        it, STR, lambda n: Not(mem(it, p, n)))])
    return t


def bindparams(it, a, kw):
    """the text with the parameters given by name, or as bind parameters"""
    t, star = a[0], VSeq(it.star_pieces(a[1:]))
    old_p = it._cont(it.getattr(t, "params"))
    r = it.make(TTEXT, "bound_text")
    p = it._cont(it.getattr(r, "params"))
    if set(kw) == {"**"}:
        given = it._cont(kw["**"].val if isinstance(kw["**"], SymOpt) else kw["**"])
        has = lambda n: mem(it, given, n)
        is_ = lambda n, v: eq(it, it.dict_get(given, n), v)
    elif kw:
        raise Unsupported("bindparams")
    else:
        ps = star.pieces
        has = lambda n: it.exists_elem(ps, lambda b: eq(it, it.getattr(b, "name"), n))
        is_ = lambda n, v: it.exists_elem(ps, lambda b: And(eq(it, it.getattr(
            b, "name"), n), eq(it, it.getattr(b, "value"), v)))
    it._addfacts([eq(it, it.getattr(r, "sql"), it.getattr(t, "sql")), forall_ty(
        it, STR, lambda n: And(mem(it, p, n) == Or(has(n), mem(it, old_p, n)), Implies(has(
            n), is_(n, it.dict_get(p, n))), Implies(And(Not(has(n)), mem(it, old_p, n)), eq(
                it, it.dict_get(p, n), it.dict_get(old_p, n)))))])
    return r


TTEXT.methods["bindparams"] = bindparams


def text_is(it, r, sql, params):
    n, d = (V.TRUE, None) if params is None else (V.FALSE, params)
    if isinstance(params, SymOpt):
        n, d = params.isnone, params.val
    p = it._cont(it.getattr(r, "params"))
    return {"its own text": eq(it, it.getattr(r, "sql"), sql),
            "its own parameters": forall_ty(it, STR, lambda k: And(
                mem(it, p, k) == And(Not(n), mem(it, d, k)), Implies(And(Not(n), mem(
                    it, d, k)), eq(it, it.dict_get(p, k), it.dict_get(it._cont(d), k)))))}


PARAMS = TOpt(TDict(STR, VAL))
SQL = Contract(
    "subsetter.plan_model:SQLWhereClauseSQL.build", setup=cond_setup(
        P.SQLWhereClauseSQL, sql=STR, sql_params=PARAMS),
    models={sa.text: text, sa.bindparam: bindparam, ("fstr", "({})"): lambda it, v: Sym(
        STR, wrapped(V.term(v[0], STR)))},
    ensures=lambda it, a, r: text_is(it, r, Sym(STR, wrapped(V.term(
        a.self.fields["sql"], STR))), a.self.fields["sql_params"]))

# ------------------------------------------------------------ statements
TIDENT = TEnt("TableId", P.SQLTableIdentifier)
TJOIN = TEnt("Join", P.SQLLeftJoin, fields={
    "right": TIDENT, "left_columns": TSeq(STR), "right_columns": TSeq(STR), "half_unique": BOOL})
of_table = z3.Function("table_has_row", TIDENT.sort, ROWS, B)
MATCH = z3.Function("rows_match", TJOIN.sort, ROWS, ROWS, B)
FILLED = z3.Function("some_column_is_filled", TJOIN.sort, ROWS, B)
HIT = z3.Function("some_row_matches", TJOIN.sort, ROWS, B)
has_from = z3.Function("from_allows", TSRC.sort, CHOICE, B)
WH = z3.Function("where_true", z3.DeclareSort("SaSelect"), CHOICE, B)
TSTMT = TEnt("SaSelect", None, fields={
    "cols": TSeq(TCOLUMN), "all": BOOL, "all_of": TSRC, "from_": TSRC, "limited": BOOL,
    "limit_": INT, "grouped": BOOL})


def ident_build(it, a, kw):
    in_context(it, a)
    s = it.make(TSRC, "table")
    r = z3.Const(it.fresh_name("row"), ROWS)
    it._addfacts([ForAll([r], has_row(s.t, r) == of_table(a[0].t, r)), forall_choice(
        it, lambda c: has_from(s.t, c) == has_row(s.t, z3.Select(c, s.t)))])
    it.ghost.setdefault("tables", []).append(s)
    return s


TIDENT.methods["build"] = ident_build


def aliases(it):
    return it.args._aliases


def base(it):
    return it.ghost["tables"][0]


def this_join(it, alias):
    """the join of the plan an alias was made for: the newest alias only"""
    n = it.seq_len(it._cont(aliases(it)))
    k = V.term(n, INT) - 1
    it.oblige("the newest alias is used", eq(it, at(it, aliases(it), k), alias))
    js = it.args.self.fields["joins"]
    return at(it, js.val if isinstance(js, SymOpt) else js, k)


JOIN_NAME = z3.Function("join_name", z3.IntSort(), V.STR_S)  # a reserved beginning + number


def alias_name(it, parts):
    """names that begin as no table of a plan does, and end in a number: one name for each number"""
    if len(parts) == 2 and isinstance(parts[0], str) and re.fullmatch("_sbsttr[a-z]+_", parts[
            0]) and isinstance(parts[1], tuple) and parts[1][2] == -1 and isinstance(
                parts[1][1], Sym) and parts[1][1].ty is INT:
        return Sym(STR, JOIN_NAME(parts[1][1].t))
    return None


def int_consts(t):
    if z3.is_const(t):
        return [t] if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else []
    return [x for y in t.children() for x in int_consts(y)]


def first_number(it, t):
    """what the number of a join exceeds its index by: a constant, the same wherever one is named"""
    zs = [(x, z3.IntVal(0)) for x in int_consts(t)]
    c = z3.simplify(z3.substitute(t, *zs) if zs else t)
    if not z3.is_int_value(c) or it.ghost.setdefault("first_number", c.as_long()) != c.as_long():
        raise Unsupported("numbers of joins")
    return c


def alias(it, a, kw):
    """a source of its own, with the rows of the table; a name that the database made up for it
    (name_1) could be that of another table of the statement"""
    if set(kw) - {"name"} or len(a) + len(kw) > 2:
        raise Unsupported("alias")
    given = kw.get("name", a[1] if len(a) > 1 else None)
    if given is not None and not (isinstance(given, Sym) and given.t.decl().eq(JOIN_NAME)):
        raise Unsupported("name of an alias")
    it.oblige("an alias has a name that no other source has", given is not None and given.t.arg(
        0) == slen(it, aliases(it)) + first_number(it, given.t.arg(0)))
    s = it.make(TSRC, "alias")
    r = z3.Const(it.fresh_name("row"), ROWS)
    it._addfacts([ForAll([r], has_row(s.t, r) == has_row(a[0].t, r)), s.t != base(it).t, Not(mem(
        it, aliases(it), s))])
    it.append(aliases(it), s)
    return s


def pairs_true(it, j, e, s):
    """the condition says that the rows match"""
    it.oblige("each left column is compared with its own right column", forall_choice(
        it, lambda c: Implies(has_row(s.t, z3.Select(c, s.t)), T(e.t, c) == MATCH(
            j.t, z3.Select(c, base(it).t), z3.Select(c, s.t)))))


def join(it, a, kw):
    kw = dict(kw)
    f, s = a[0], a[1]
    on = a[2] if len(a) > 2 else kw.pop("onclause", None)
    outer = a[3] if len(a) > 3 else kw.pop("isouter", False)
    if kw or on is None:
        raise Unsupported("join")
    j = this_join(it, s)
    pairs_true(it, j, on, s)
    outer = V.term(outer, BOOL)
    r = it.make(TSRC, "joined")
    it._addfacts([Not(mem(it, aliases(it), r)), r.t != base(it).t, forall_choice(
        it, lambda c: has_from(r.t, c) == And(has_from(f.t, c), Or(And(has_row(
            s.t, z3.Select(c, s.t)), MATCH(j.t, z3.Select(c, base(it).t), z3.Select(
                c, s.t))), And(outer, z3.Select(c, s.t) == NULLROW, Not(HIT(
                    j.t, z3.Select(c, base(it).t)))))))])
    return r


TSRC.methods.update({"alias": alias, "join": join})
TEXISTS = TEnt("Exists", None)


def exists_where(it, a, kw):
    """some row of the newest alias for which the conditions hold, the row of the table given"""
    ps = some_args(it, a[1:], "existence")
    n = it.seq_len(it._cont(aliases(it)))
    s = at(it, aliases(it), V.term(n, INT) - 1)
    j = this_join(it, s)
    e = new_expr(it, lambda c: it.forall_elem(ps, lambda x: T(x.t, c)))
    pairs_true(it, j, e, s)
    return new_expr(it, lambda c: HIT(j.t, z3.Select(c, base(it).t)), name="exists")


TEXISTS.methods["where"] = exists_where


def flag(it, s, n):
    return V.term(it.getattr(s, n), BOOL)


def derived(it, s, **ch):
    n = it.make(TSTMT, "stmt")
    fs = [seq_same(it, it.getattr(n, "cols"), it.getattr(s, "cols"))]
    for f in ("all", "limited", "grouped"):
        fs.append(flag(it, n, f) == ch.get(f, flag(it, s, f)))
    for f in ("all_of", "from_", "limit_"):
        fs.append(eq(it, it.getattr(n, f), ch.get(f, it.getattr(s, f))))
    fs.append(forall_choice(it, lambda c: WH(n.t, c) == And(WH(s.t, c), *[T(
        e.t, c) for e in ch.get("where", ())])))
    it._addfacts(fs)
    return n


def seq_same(it, x, y):
    return And(slen(it, x) == slen(it, y), idx(it, lambda k: eq(it, at(it, x, k), at(
        it, y, k)), x))


def select(it, args, kw):
    if kw:
        raise Unsupported("select")
    if len(args) == 1 and isinstance(args[0], Sym) and args[0].ty is TSUB:
        return built_rows(it, lambda y: has_b(it.getattr(args[0], "of").t, y))
    s = it.make(TSTMT, "stmt")
    whole = len(args) == 1 and isinstance(args[0], Sym) and args[0].ty is TSRC
    fs = [flag(it, s, "all") == whole, Not(flag(it, s, "limited")), Not(flag(it, s, "grouped")),
          forall_choice(it, lambda c: WH(s.t, c))]
    if whole:
        fs += [eq(it, it.getattr(s, x), args[0]) for x in ("all_of", "from_")]
    else:
        cols = VSeq(it.star_pieces(args))
        it.oblige("columns of the table", idx(it, lambda k: col_src(at(it, cols, k).t) == base(
            it).t, cols))
        fs += [seq_same(it, it.getattr(s, "cols"), cols), eq(it, it.getattr(s, "from_"), base(it))]
    it._addfacts(fs)
    return s


def stmt_where(it, a, kw):
    return derived(it, a[0], where=tuple(a[1:]))


def group_by(it, a, kw):
    pk = it.getattr(it.getattr(base(it), "primary_key"), "columns")
    it.oblige("grouped by the primary key of the table", And(slen(it, pk) >= 1, seq_same(
        it, VSeq(it.star_pieces(a[1:])), pk)))
    return derived(it, a[0], grouped=V.TRUE)


def stmt_limit(it, a, kw):
    it.oblige("limited once", Not(flag(it, a[0], "limited")))
    return derived(it, a[0], limited=V.TRUE, limit_=a[1])


TSTMT.methods.update({
    "where": stmt_where, "group_by": group_by, "limit": stmt_limit,
    "order_by": lambda it, a, kw: derived(it, a[0]),
    "select_from": lambda it, a, kw: derived(it, a[0], from_=a[1])})
SELECT_FIELDS = {"columns": TOpt(TSeq(STR)), "from_": TIDENT, "where": TOpt(TCLAUSE), "limit": TOpt(
    INT), "joins": TOpt(TSeq(TJOIN)), "joins_outer": BOOL}


def sel_setup(it):
    return {"self": VObj(P.SQLStatementSelect, {"type_": "select", **{
        k: it.make(ty, k) for k, ty in SELECT_FIELDS.items()}}),
        "context": it.make(TCTX, "context"), "_aliases": it.alloc(VSeq([]))}


def joins_of(it, a):
    """(there are joins, the joins)"""
    j = a.self.fields["joins"]
    return And(Not(j.isnone), slen(it, j.val) > 0), j.val


def names(it, j, f, k):
    return V.term(at(it, it.getattr(j, f), k), STR)


def sel_requires(it, a):
    _, js = joins_of(it, a)
    j = Sym(TJOIN, z3.Const(it.fresh_name("j"), TJOIN.sort))
    t, r = z3.Const(it.fresh_name("t"), ROWS), z3.Const(it.fresh_name("r"), ROWS)
    L, R = it.getattr(j, "left_columns"), it.getattr(j, "right_columns")
    return {
        "as many left columns as right columns": it.forall([j.t], lambda: And(slen(
            it, L) == slen(it, R), slen(it, L) >= 1)),
        # what it is for two rows to match, and for a row to have a match
        "matching rows": it.forall([j.t, t, r], lambda: MATCH(j.t, t, r) == And(of_table(
            it.getattr(j, "right").t, r), forall_int(it, lambda k: EQ(cell(t, names(
                it, j, "left_columns", k)), cell(r, names(it, j, "right_columns", k))), 0, slen(
                    it, L)))),
        "rows with a value": it.forall([j.t, r], lambda: FILLED(j.t, r) == exists_int(
            it, lambda k: Not(isnull(cell(r, names(it, j, "right_columns", k)))), 0, slen(it, R))),
        "rows with a match": it.forall([j.t, t], lambda: HIT(j.t, t) == it.exists(
            [r], lambda: MATCH(j.t, t, r))),
    }


def direct(it, a, j):
    """this join is joined, not tested for existence"""
    return And(V.term(it.getattr(j, "half_unique"), BOOL), slen(it, it.getattr(it.getattr(base(
        it), "primary_key"), "columns")) > 0)


def alias_at(it, k):
    if it.seq_len(it._cont(aliases(it))) == 0:  # none yet: there is no such k
        return z3.Const("no_alias", TSRC.sort)
    return at(it, aliases(it), k).t


def row_of(it, c, k):
    return z3.Select(c, alias_at(it, k))


def joins_inv(it, old_st, i):
    a = it.args
    js = joins_of(it, a)[1]
    outer = V.term(a.self.fields["joins_outer"], BOOL)
    joined, cols, exc = (it.lookup(x) for x in ("joined", "joined_cols", "exists_constraints"))
    b = base(it).t
    i = i.t
    d = lambda k: direct(it, a, at(it, js, k))
    hit = lambda k, c: HIT(at(it, js, k).t, z3.Select(c, b))
    match = lambda k, c: MATCH(at(it, js, k).t, z3.Select(c, b), row_of(it, c, k))
    filled = lambda c: it.exists_elem(it.iter_pieces(cols), lambda x: Not(isnull(val(x.t, c))))
    some_k = lambda fn: exists_int(it, fn, 0, i)
    every_k = lambda fn: forall_int(it, fn, 0, i)
    return {
        "an alias for each join": slen(it, aliases(it)) == i,
        "aliases are sources of their own": forall_int(it, lambda k: And(alias_at(
            it, k) != b, forall_int(it, lambda l: alias_at(it, l) != alias_at(
                it, k), 0, k)), 0, i),
        "the table alone, or joined": (joined.t == b) == every_k(lambda k: Not(d(k))),
        "rows allowed by the joins": forall_choice(it, lambda c: has_from(joined.t, c) == And(
            has_row(b, z3.Select(c, b)), every_k(lambda k: Implies(d(k), Or(match(k, c), And(
                outer, row_of(it, c, k) == NULLROW, Not(hit(k, c)))))))),
        "the other joins have a match": forall_choice(it, lambda c: it.forall_elem(
            it.iter_pieces(exc), lambda x: T(x.t, c)) == every_k(lambda k: Implies(Not(d(k)), hit(k, c)))),
        "one of the other joins has a match": forall_choice(it, lambda c: it.exists_elem(
            it.iter_pieces(exc), lambda x: T(x.t, c)) == some_k(lambda k: And(
                Not(d(k)), hit(k, c)))),
        "columns of the joined tables have a value": forall_choice(it, lambda c: Implies(filled(
            c), some_k(lambda k: And(d(k), FILLED(at(it, js, k).t, row_of(it, c, k)))))),
        "values of the joined tables": forall_choice(it, lambda c: every_k(lambda k: Implies(And(
            d(k), FILLED(at(it, js, k).t, row_of(it, c, k))), filled(c)))),
        "some join is there": Implies(i > 0, slen(it, exc) + slen(it, cols) > 0),
    }


def keeps(it, a, t):
    """the plan's statement keeps row t of its table"""
    some, js = joins_of(it, a)
    hit = lambda k: HIT(at(it, js, k).t, t)
    w = a.self.fields["where"]
    return And(of_table(a.self.fields["from_"].t, t), Implies(some, z3.If(V.term(
        a.self.fields["joins_outer"], BOOL), exidx(it, hit, js), idx(it, hit, js))), Or(
            w.isnone, CT(w.val.t, t)))


wit = z3.Function("a_choice_with", ROWS, CHOICE)


def sel_run(it, a, fn):
    r = it.call_py(fn, [a.self, a.context], {})
    b, al, js = base(it).t, aliases(it), joins_of(it, a)[1]
    j, t, w = (z3.Const(it.fresh_name(x), y) for x, y in (("j", TJOIN.sort), ("t", ROWS), (
        "w", ROWS)))
    it.oblige("rows that match have a value", it.forall([j, t, w], lambda: Implies(MATCH(
        j, t, w), FILLED(j, w))))
    # a choice of rows with a given row of the table and, where there is one, a matching row for
    # each alias: it exists as the aliases are different sources
    it.oblige("one alias each", idx(it, lambda k: And(alias_at(it, k) != b, forall_int(
        it, lambda l: alias_at(it, l) != alias_at(it, k), 0, k)), al))
    t = z3.Const(it.fresh_name("row"), ROWS)
    it._addfacts([it.forall([t], lambda: And(z3.Select(wit(t), b) == t, idx(it, lambda k: z3.If(
        HIT(at(it, js, k).t, t), MATCH(at(it, js, k).t, t, row_of(it, wit(t), k)), row_of(
            it, wit(t), k) == NULLROW), al)))])
    return r


def sel_post(it, a, r):
    b, f = base(it), a.self.fields
    body = lambda c: And(has_from(it.getattr(r, "from_").t, c), WH(r.t, c))
    t = z3.Const(it.fresh_name("row"), ROWS)
    cs = f["columns"]
    chosen = And(Not(cs.isnone), slen(it, cs.val) > 0)
    rc = it.getattr(r, "cols")
    return {
        "no other rows": forall_choice(it, lambda c: Implies(body(c), keeps(it, a, z3.Select(
            c, b.t)))),
        "all the rows": it.forall([t], lambda: Implies(keeps(it, a, t), body(wit(t)))),
        "no row twice": Or(flag(it, r, "grouped"), it.getattr(r, "from_").t == b.t),
        "the columns chosen": z3.If(chosen, And(Not(flag(it, r, "all")), slen(it, rc) == slen(
            it, cs.val), idx(it, lambda k: at(it, rc, k).t == col_of(b.t, V.term(at(
                it, cs.val, k), STR)), cs.val)), And(flag(it, r, "all"), eq(it, it.getattr(
                    r, "all_of"), b))),
        "the limit": And(flag(it, r, "limited") == Not(f["limit"].isnone), Implies(Not(f[
            "limit"].isnone), num(it.getattr(r, "limit_")) == V.term(f["limit"].val, INT))),
    }


SELECT = Contract(
    "subsetter.plan_model:SQLStatementSelect.build", setup=sel_setup, requires=sel_requires,
    run=sel_run, ensures=sel_post,
    loops={0: LoopSpec(name="joins", done="index", inv=joins_inv, types={
        "joined": TSRC, "join": TJOIN, "right": TSRC},
        cells={"joined_cols": TSeq(TCOLUMN), "exists_constraints": TSeq(TEXPR), (
            lambda it: aliases(it)): TSeq(TSRC)})}, models={("fstr", "*"): alias_name})

# ------------------------------------------------------------ unions and queries
TSUB = TEnt("Subquery", None, fields={"of": TBUILT})
built_of = z3.Function("built_select", z3.DeclareSort("PlanSelect"), TBUILT.sort)
sub_of = z3.Function("subquery_of", TBUILT.sort, TSUB.sort)
wrap_of = z3.Function("select_of", TSUB.sort, TBUILT.sort)


def select_sub(it, args, kw):
    if kw or len(args) != 1 or not isinstance(args[0], Sym) or args[0].ty is not TSUB:
        raise Unsupported("select")
    return Sym(TBUILT, wrap_of(args[0].t))


def plan_build(it, a, kw):
    in_context(it, a)
    return Sym(TBUILT, built_of(a[0].t))


TPSEL = TEnt("PlanSelect", P.SQLStatementSelect, fields={"limit": TOpt(INT)},
             methods={"build": plan_build})
TBUILT.methods["subquery"] = lambda it, a, kw: Sym(TSUB, sub_of(a[0].t))
TUNION = TEnt("PlanUnion", None)


def union_axioms():
    s, b, y = (z3.Const("ua_s", TPSEL.sort), z3.Const("ua_b", TBUILT.sort), z3.Const(
        "ua_y", TUPLE))
    lim = TPSEL.fields["limit"].make("PlanSelect.limit", [s])
    return [
        z3.ForAll([s, y], has_b(built_of(s), y) == has_s(s, y), patterns=[has_b(built_of(s), y)]),
        z3.ForAll([s], limited(built_of(s)) == Not(lim.isnone), patterns=[built_of(s)]),
        z3.ForAll([b, y], has_b(wrap_of(sub_of(b)), y) == has_b(b, y), patterns=[has_b(wrap_of(
            sub_of(b)), y)]),
        z3.ForAll([b], Not(limited(wrap_of(sub_of(b)))), patterns=[wrap_of(sub_of(b))]),
    ]


def union(it, args, kw):
    ps = some_args(it, args, "union")
    it.oblige("no limit directly within the union", it.forall_elem(ps, lambda b: Not(limited(
        b.t))))
    return built_rows(it, lambda y: it.exists_elem(ps, lambda b: has_b(b.t, y)))


def union_setup(it):
    return {"self": VObj(P.SQLStatementUnion, {"type_": "union", "statements": it.make(TSeq(
        TPSEL), "statements")}), "context": it.make(TCTX, "context")}


def union_post(it, a, r):
    ss = a.self.fields["statements"]
    y = z3.Const(it.fresh_name("tup"), TUPLE)
    return {"the rows of all its statements": it.forall([y], lambda: has_b(r.t, y) == exidx(
        it, lambda k: has_s(at(it, ss, k).t, y), ss))}


UNION = Contract("subsetter.plan_model:SQLStatementUnion.build", setup=union_setup,
                 requires=lambda it, a: {"at least one statement": slen(it, a.self.fields[
                     "statements"]) >= 1},
                 ensures=union_post, models={sa.union: union, sa.select: select_sub})


def query_setup(it):
    return {"self": VObj(P.SQLTableQuery, {"sql": it.make(TOpt(STR), "sql"), "sql_params": it.make(
        PARAMS, "sql_params"), "statement": it.make(TOpt(TPSEL), "statement")}),
        "context": it.make(TCTX, "context")}


def query_post(it, a, r):
    f = a.self.fields
    if isinstance(r, Sym) and r.ty is TTEXT:
        return {"raw SQL is given": Not(f["sql"].isnone), **text_is(
            it, r, f["sql"].val, f["sql_params"])}
    y = z3.Const(it.fresh_name("tup"), TUPLE)
    return {"no raw SQL is given": And(f["sql"].isnone, Not(f["statement"].isnone)),
            "the rows of the statement": it.forall([y], lambda: has_b(r.t, y) == has_s(f[
                "statement"].val.t, y))}


QUERY = Contract("subsetter.plan_model:SQLTableQuery.build", setup=query_setup, ensures=query_post,
                 models={sa.text: text}, raises={ValueError: lambda it, a, e: {
                     "nothing is given": And(a.self.fields["sql"].isnone, a.self.fields[
                         "statement"].isnone)}}, covers=("return", "ValueError"))
IDENT = Contract("subsetter.plan_model:SQLTableIdentifier.build", setup=lambda it: {
    "self": it.make(TIDENT, "self"), "context": it.make(TEnt("ContextFn", None, methods={
        "__call__": lambda it, a, kw: found_table(it, a)}), "context")},
    ensures=lambda it, a, r: {"the table the context has for it": r.t == in_ctx(a.self.t)})
in_ctx = z3.Function("table_in_context", TIDENT.sort, TSRC.sort)


def found_table(it, a):
    if len(a) != 2:
        raise Unsupported("call of the context")
    return Sym(TSRC, in_ctx(a[1].t))


MODELS = {
    sa.and_: and_, sa.or_: or_, sa.not_: not_, sa.true: constant(True), sa.false: constant(False),
    sa.tuple_: tuple_, sa.select: select, P._RandomFraction: lambda it, a, kw: it.make(
        TRANDOM, "random"), sa.exists: lambda it, a, kw: it.make(TEXISTS, "exists"),
    ("attr", id(sa.func), "random"): V.Native(lambda it, a, kw: it.make(TDBRANDOM, "random"), "random")}
AXIOMS = [expr_axioms, clause_axioms, union_axioms]
CONTRACTS = [
    OPERATOR, IN, nary(P.SQLWhereClauseAnd, True), nary(P.SQLWhereClauseOr, False),
    Contract("subsetter.plan_model:SQLWhereClauseTrue.build", setup=cond_setup(
        P.SQLWhereClauseTrue), ensures=const_post(True)),
    Contract("subsetter.plan_model:SQLWhereClauseFalse.build", setup=cond_setup(
        P.SQLWhereClauseFalse), ensures=const_post(False)),
    Contract("subsetter.plan_model:SQLWhereClauseRandom.build", setup=cond_setup(
        P.SQLWhereClauseRandom, threshold=REAL), ensures=random_post),
    SQL, IDENT, SELECT, UNION, QUERY,
    rendering("_compile_random_fraction", lambda it, a, r: {"nothing else": eq(it, r, RENDERED)}),
    rendering("_compile_random_fraction_sqlite", sqlite_post)]
ALL = []
ASSUMPTIONS = [
    "SQLAlchemy: comparisons, like, and_, or_, not_, tuple_().in_, exists().where, join, group_by, "
    "limit, union and subquery denote what SQL says they do, in three-valued logic; an existence "
    "test is correlated with the table of the statement",
    "alias() makes a source different from all others, with the rows of its table, where its name "
    "is that of no other; tables of the database have no names like _sbsttrjoin_1 (temporary "
    "tables begin with _sbsttr_)",
    "a statement grouped by the primary key of its table has one row for each row of the table",
    "a join compares at least one column, and as many left columns as right columns",
    "build() of nested conditions and statements meets this contract (structural induction on "
    "nesting depth)",
    "raw SQL means what its text says; next to joins it names columns unqualified (out of scope)"]
TRUSTED = ["sqlalchemy.sql", "random() of the databases: a 64-bit integer on sqlite, else a fraction "
           "(rt/c04 measures the share of rows on sqlite)"]
