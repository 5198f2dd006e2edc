"""C03: the query planned for a table selects the rows the configuration asks for.

A planned statement is read through the meaning that C04 proves for it, and simplify() is used by
the contract that C05 proves.  Rows, draws and raw SQL are abstract: every contents is covered.
"""
import sqlalchemy as sa

from contracts.lib import *
from contracts.meta import (KEY, LEFT, RIGHT, DOT, PARSE, NAME_MODELS, name_axioms, hasdot, nodot,
                            key_name, STRS)
from subsetter import config_model as CF
from subsetter import metadata as MD
from subsetter import plan_model as P
from subsetter import planner as PL

ROW = z3.DeclareSort("Row3")            # rows of the table planned
SROW = z3.DeclareSort("SampledRow3")    # sampled rows of any table

TFK = TEnt("FK3", MD.ForeignKey, fields={"columns": STRS, "dst_schema": STR, "dst_table": STR,
                                         "dst_columns": STRS})
TCOLS = TEnt("Columns3", None)
hascol = z3.Function("has_column", TCOLS.sort, V.STR_S, z3.BoolSort())
TCOLS.methods["__contains__"] = lambda it, a, kw: Sym(BOOL, hascol(a[0].t, V.term(a[1], STR)))
TCOL = TEnt("Column3", sa.Column, fields={"name": STR})
TCONS = TEnt("Constraint3", None, fields={"columns": TSeq(TCOL)}, classes=[
    sa.PrimaryKeyConstraint, sa.UniqueConstraint, sa.ForeignKeyConstraint])
TOBJ = TEnt("TableObj3", sa.Table, fields={"columns": TCOLS, "c": TCOLS, "constraints": TSet(
    TCONS)})
TTABLE = TEnt("Table3", MD.TableMetadata, fields={
    "schema": STR, "name": STR, "table_obj": TOBJ, "foreign_keys": TSeq(TFK),
    "rev_foreign_keys": TSeq(TFK)}, mutable=("foreign_keys", "rev_foreign_keys"))
KEYS_OF = TDict(TTABLE, TSeq(TFK))
TTABLES = TDict(KEY, TTABLE)
TRULE = TEnt("Rule3", None, fields={"column": STR, "operator": STR, "value": VAL})
TTARGET = TEnt("Target3", None, fields={
    "all_": BOOL, "percent": TOpt(REAL), "amount": TOpt(INT), "like": TDict(STR, TSeq(STR)),
    "in_": TDict(STR, TSeq(VAL)), "sql": TOpt(STR)})
TCONF = TEnt("Config3", None, fields={
    "table_constraints": TDict(STR, TSeq(TRULE)), "targets": TDict(STR, TTARGET),
    "infer_foreign_keys": STR, "include_dependencies": BOOL})
TSTMT = TEnt("Statement3", None)

# ------------------------------------------------------------ what statements mean (C04)
cmpt = z3.Function("compares", V.STR_S, ROW, V.STR_S, V.VAL_S, z3.BoolSort())
isin = z3.Function("equals_value", ROW, V.STR_S, V.VAL_S, z3.BoolSort())
draw = z3.Function("draw3", ROW, z3.RealSort())
raw = z3.Function("raw_sql", V.STR_S, ROW, z3.BoolSort())
pair = z3.Function("equal_columns", ROW, V.STR_S, SROW, V.STR_S, z3.BoolSort())
sample_of = z3.Function("sample_of", V.STR_S, V.STR_S, SROW, z3.BoolSort())
whole_of = z3.Function("whole_of", V.STR_S, V.STR_S, SROW, z3.BoolSort())


def opt(v):
    if v is None:
        return V.TRUE, None
    if isinstance(v, SymOpt):
        return v.isnone, v.val
    return V.FALSE, v


def frozen(it, v):
    return it.freeze(v) if isinstance(v, Ref) else v


def true_of(it, c, w):
    """the condition is true of row w"""
    n, c = opt(frozen(it, c))
    if c is None:
        return V.TRUE
    f = c.fields
    if c.cls is P.SQLWhereClauseAnd:
        r = it.forall_elem(it.iter_pieces(f["conditions"]), lambda e: true_of(it, e, w))
    elif c.cls is P.SQLWhereClauseOr:
        r = it.exists_elem(it.iter_pieces(f["conditions"]), lambda e: true_of(it, e, w))
    elif c.cls is P.SQLWhereClauseTrue:
        r = V.TRUE
    elif c.cls is P.SQLWhereClauseFalse:
        r = V.FALSE
    elif c.cls is P.SQLWhereClauseOperator:
        r = cmpt(V.term(f["operator"], STR), w, V.term(f["column"], STR), V.term(f["value"], VAL))
    elif c.cls is P.SQLWhereClauseRandom:
        n1, th = opt(f["threshold"])
        r = And(Not(n1), draw(w) < V.term(th, REAL))
    elif c.cls is P.SQLWhereClauseSQL:
        if f.get("sql_params") is not None:
            raise Unsupported("raw SQL with parameters")
        n1, sql = opt(f["sql"])
        r = And(Not(n1), raw(V.term(sql, STR), w))
    elif c.cls is P.SQLWhereClauseIn:
        cols = V.all_elems(it.iter_pieces(f["columns"]))
        if cols is None or len(cols) != 1 or f["negated"] is not False:
            raise Unsupported("membership of several columns")

        def is_(e):
            vs = V.all_elems(it.iter_pieces(e))
            if vs is None or len(vs) != 1:
                raise Unsupported("membership of several columns")
            return isin(w, V.term(cols[0], STR), V.term(vs[0], VAL))
        r = it.exists_elem(it.iter_pieces(f["values"]), is_)
    else:
        raise Unsupported(f"meaning of {c.cls.__name__}")
    return Or(n, r)


def hits(it, w, schema, table, left, right, rows=sample_of):
    """row w refers to a sampled row of the table by these columns"""
    s = z3.Const(it.fresh_name("s"), SROW)
    return it.exists([s], lambda: And(rows(V.term(schema, STR), V.term(
        table, STR), s), idx(it, lambda k: pair(w, V.term(at(it, left, k), STR), s, V.term(at(
            it, right, k), STR)), left)))


def join_hits(it, j, w):
    j = frozen(it, j)
    r = j.fields["right"].fields
    return hits(it, w, r["table_schema"], r["table_name"], j.fields["left_columns"],
                j.fields["right_columns"], sample_of if r["sampled"] is True else whole_of)


def key_hits(it, f, w):
    return hits(it, w, *[it.getattr(f, n) for n in (
        "dst_schema", "dst_table", "columns", "dst_columns")])


def keeps(it, s, w):
    """the select, of the table planned, keeps row w"""
    f = s.fields
    n, js = opt(f["joins"])
    none = n
    if js is not None:
        ps = it.iter_pieces(js)
        outer = V.term(f["joins_outer"], BOOL)
        j = z3.If(outer, it.exists_elem(ps, lambda e: join_hits(it, e, w)), it.forall_elem(
            ps, lambda e: join_hits(it, e, w)))
        none = Or(n, Not(it.exists_elem(ps, lambda e: V.TRUE)), j)
    return And(none, true_of(it, f["where"], w))


# a simplified statement: the rows its unlimited selects keep, and those its limited one keeps
free_rows = z3.Function("unlimited_rows", TSTMT.sort, ROW, z3.BoolSort())
lim_rows = z3.Function("limited_rows", TSTMT.sort, ROW, z3.BoolSort())
limit = z3.Function("limits", TSTMT.sort, z3.IntSort(), z3.BoolSort())
one_limited = z3.Function("one_limited", TSTMT.sort, z3.BoolSort())


def simplified(it, args, kw):
    """what simplify() keeps of a union (C05), in terms of what its parts mean (C04)"""
    u = frozen(it, args[0])
    a = it.args
    ps = it.iter_pieces(u.fields["statements"])
    for nm, ok in {
            "at least one statement": it.exists_elem(ps, lambda s: V.TRUE),
            "selects of the table planned": it.forall_elem(ps, lambda s: of_table(it, a, s)),
    }.items():
        it.oblige(f"the union: {nm}", ok)
    r = it.make(TSTMT, "statement")
    w, n = z3.Const(it.fresh_name("w"), ROW), z3.Int(it.fresh_name("n"))

    def lim(s):
        return opt(frozen(it, s).fields["limit"])
    it._addfacts([
        it.forall([w], lambda: free_rows(r.t, w) == it.exists_elem(ps, lambda s: And(lim(
            s)[0], keeps(it, frozen(it, s), w)))),
        it.forall([w], lambda: lim_rows(r.t, w) == it.exists_elem(ps, lambda s: And(Not(lim(
            s)[0]), keeps(it, frozen(it, s), w)))),
        it.forall([n], lambda: limit(r.t, n) == it.exists_elem(ps, lambda s: And(
            Not(lim(s)[0]), V.TRUE if lim(s)[1] is None else V.term(lim(s)[1], INT) == n))),
        one_limited(r.t) == it.forall_elem(ps, lambda s: it.forall_elem(ps, lambda x: Or(
            lim(s)[0], lim(x)[0], it.forall([w], lambda: keeps(it, frozen(
                it, s), w) == keeps(it, frozen(it, x), w)))))])
    return r


def of_table(it, a, s):
    s = frozen(it, s)
    f, fr = s.fields, s.fields["from_"].fields
    n, cols = opt(f["columns"])
    return And(eq(it, fr["table_schema"], it.getattr(a.table, "schema")), eq(
        it, fr["table_name"], it.getattr(a.table, "name")), to_z3b(fr["sampled"] is False), n,
        to_z3b(s.cls is P.SQLStatementSelect))


# ------------------------------------------------------------ what the configuration asks for
def make_planner(it):
    it.setup_fieldmap(TTABLE, "foreign_keys")
    it.setup_fieldmap(TTABLE, "rev_foreign_keys")
    tables = it.alloc(it.make(TTABLES, "tables"))
    return it.alloc(VInst(PL.Planner, {
        "meta": it.alloc(VInst(MD.DatabaseMetadata, {"tables": tables})),
        "ignore_tables": it.alloc(it.make(TSet(KEY), "ignore")),
        "passthrough_tables": it.alloc(it.make(TSet(KEY), "passthrough")),
        "config": it.make(TCONF, "config")}))


def pt_setup(it):
    return {
        "self": make_planner(it),
        "table": it.make(TTABLE, "table"), "processed": it.alloc(it.make(TSet(
            KEY), "processed")), "target": it.make(TOpt(TTARGET), "target")}


def fk_dst(it, f):
    return VTup([it.getattr(f, "dst_schema"), it.getattr(f, "dst_table")])


def some_key(it, a, which, fn=lambda f: V.TRUE):
    """some of the table's keys, to or from a table already sampled"""
    ks = it.getattr(a.table, which)
    return exidx(it, lambda j: And(mem(it, a.processed, fk_dst(it, at(it, ks, j))), fn(at(
        it, ks, j))), ks)


def every_key(it, a, which, fn):
    ks = it.getattr(a.table, which)
    return idx(it, lambda j: Implies(mem(it, a.processed, fk_dst(it, at(it, ks, j))), fn(at(
        it, ks, j))), ks)


FWD, REV = "foreign_keys", "rev_foreign_keys"


def is_target(a):
    return Not(opt(a.target)[0])


def pt_requires(it, a):
    ts = field(it, field(it, a.self, "meta"), "tables")
    return {
        "sampled tables are known": forall_ty(it, KEY, lambda k: Implies(mem(
            it, a.processed, k), mem(it, ts, k))),
        "not both referring and referred": Not(And(some_key(it, a, FWD), some_key(it, a, REV))),
        "a target or connected": Or(is_target(a), some_key(it, a, FWD), some_key(it, a, REV)),
        "a target refers to none sampled": Implies(is_target(a), Not(some_key(it, a, FWD))),
    }


def rules(it, a):
    d = it._cont(it.getattr(field(it, a.self, "config"), "table_constraints"))
    k = key_name(it, VTup([it.getattr(a.table, "schema"), it.getattr(a.table, "name")]))
    return mem(it, d, k), it.dict_get(d, k)


def allowed(it, a, w):
    """row w satisfies the table's configured constraints"""
    has, rs = rules(it, a)
    return Implies(has, idx(it, lambda j: cmpt(V.term(it.getattr(at(
        it, rs, j), "operator"), STR), w, V.term(it.getattr(at(it, rs, j), "column"), STR), V.term(
            it.getattr(at(it, rs, j), "value"), VAL)), rs))


def any_rule(it, a, fn=lambda r: V.TRUE):
    has, rs = rules(it, a)
    return And(has, exidx(it, lambda j: fn(at(it, rs, j)), rs))


def wanted(it, a, w):
    """row w matches every condition of the target"""
    t = opt(a.target)[1]
    pn, p = opt(it.getattr(t, "percent"))
    sn, s = opt(it.getattr(t, "sql"))
    like, in_ = it.getattr(t, "like"), it.getattr(t, "in_")

    def of(d, c, fn):
        return Implies(mem(it, d, c), fn(it.dict_get(it._cont(d), c)))
    return Or(V.term(it.getattr(t, "all_"), BOOL), And(
        Or(pn, draw(w) < V.term(p, REAL) / 100),
        Or(sn, raw(V.term(s, STR), w)),
        forall_ty(it, STR, lambda c: of(like, c, lambda ps: idx(it, lambda k: cmpt(V.term(
            "like", STR), w, c.t, V.term(at(it, ps, k), VAL)), ps))),
        forall_ty(it, STR, lambda c: of(in_, c, lambda vs: exidx(it, lambda k: isin(
            w, c.t, V.term(at(it, vs, k), VAL)), vs)))))


def asked(it, a, w):
    """(row w is to be selected without regard to the amount, w may be selected up to it)"""
    any_rev = some_key(it, a, REV, lambda f: key_hits(it, f, w))
    t = opt(a.target)[1]
    no_lim = Or(V.term(it.getattr(t, "all_"), BOOL), opt(it.getattr(t, "amount"))[0])
    match = And(wanted(it, a, w), allowed(it, a, w))
    is_t = is_target(a)
    through = And(every_key(it, a, FWD, lambda f: key_hits(it, f, w)), allowed(it, a, w))
    return (z3.If(is_t, Or(And(no_lim, match), any_rev), z3.If(some_key(
        it, a, FWD), through, any_rev)), And(is_t, Not(no_lim), match))


def pt_post(it, a, r):
    s = it.freeze(r).fields["statement"] if isinstance(r, Ref) else r.fields["statement"]
    w, n = z3.Const(it.fresh_name("w"), ROW), z3.Int(it.fresh_name("n"))
    t = opt(a.target)[1]
    ln, lv = opt(it.getattr(t, "amount"))
    limited = And(is_target(a), Not(V.term(it.getattr(t, "all_"), BOOL)), Not(ln))
    return {
        "rows selected are asked for": it.forall([w], lambda: Implies(free_rows(s.t, w), asked(
            it, a, w)[0])),
        "rows asked for are selected": it.forall([w], lambda: Implies(asked(it, a, w)[
            0], free_rows(s.t, w))),
        "an amount is of the rows matching": it.forall([w], lambda: Implies(
            limited, lim_rows(s.t, w) == asked(it, a, w)[1])),
        "the amount asked for": it.forall([n], lambda: limit(s.t, n) == And(
            limited, V.term(lv, INT) == n)),
        "one amount": one_limited(s.t),
        "no constraint is dropped": Not(cannot(it, a)),
    }


def cannot(it, a):
    """constraints that cannot be honoured"""
    cols = it.getattr(it.getattr(a.table, "table_obj"), "columns")
    return Or(And(any_rule(it, a), some_key(it, a, REV)), any_rule(it, a, lambda r: Not(hascol(
        cols.t, V.term(it.getattr(r, "column"), STR)))))


def any_order(it, a, kw):
    """sorted: the same elements in some order"""
    ps = it.iter_pieces(a[0])
    r = it.alloc(it.make(TSeq(TFK), "sorted"))
    it._addfacts([idx(it, lambda j: it.exists_elem(ps, lambda e: eq(it, e, at(it, r, j))), r),
                  it.forall_elem(ps, lambda e: mem(it, r, e))])
    return r


PLAN_TABLE = Contract(
    "subsetter.planner:Planner._plan_table", setup=pt_setup, requires=pt_requires,
    ensures=pt_post, raises={ValueError: lambda it, a, e: {
        "only constraints that cannot be honoured": cannot(it, a)}},
    models={(P.SQLStatementUnion, "simplify"): simplified, sorted: any_order,
            ("nested", "_is_distinct"): lambda it, a, kw: it.make(BOOL, "distinct")},
    covers=("return", "ValueError"))

# ------------------------------------------------------------ the whole plan
TQUERY = TEnt("Query3", None)
full_copy = z3.Function("full_copy", TQUERY.sort, V.STR_S, V.STR_S, z3.BoolSort())
planned = z3.Function("planned_as", TQUERY.sort, V.STR_S, z3.BoolSort())


def tables_(it, a):
    return field(it, field(it, a.self, "meta"), "tables")


def tab(it, a, k):
    return it.dict_get(it._cont(tables_(it, a)), k)


def each_table(it, a, fn):
    return forall_ty(it, KEY, lambda k: Implies(mem(it, tables_(it, a), k), to_z3b(fn(k, tab(
        it, a, k)))))


def name_key(s):
    return VTup([Sym(STR, LEFT(s.t)), Sym(STR, RIGHT(s.t))])


def keys(it, t, which=FWD):
    return it.getattr(t, which)


def meta_inv(it, a):
    return {"tables are keyed by their schema and name": each_table(it, a, lambda k, t: And(
        eq(it, it.getattr(t, "schema"), k.items[0]), eq(it, it.getattr(t, "name"), k.items[1]),
        nodot(k.items[0].t)))}


def changes_keys(name):
    return Contract(name, modular=True, raises={ValueError: None}, modifies=lambda it, a: [
        (it.fieldmap(TTABLE, FWD), KEYS_OF)])


STEPS = [changes_keys("subsetter.planner:Planner._remove_ignore_fks"),
         changes_keys("subsetter.planner:Planner._add_extra_fks"),
         changes_keys("subsetter.metadata:DatabaseMetadata.infer_missing_foreign_keys"),
         Contract("subsetter.planner:Planner._check_ignore_tables", modular=True,
                  raises={ValueError: None})]


def through_post(it, a, r):
    was = old(it, lambda: it.freeze(field(it, a.self, "passthrough_tables")))
    return {"those that exist": forall_ty(it, KEY, lambda k: mem(it, field(
        it, a.self, "passthrough_tables"), k) == And(it.set_mem(was, k), mem(it, tables_(
            it, a), k)))}


CHECK_PASS = Contract(
    "subsetter.planner:Planner._check_passthrough_tables", modular=True,
    raises={ValueError: None}, ensures=through_post,
    modifies=lambda it, a: [(field(it, a.self, "passthrough_tables"), TSet(KEY))])


def refers(it, a, u, v):
    """table u has a key into table v"""
    ks = keys(it, tab(it, a, u))
    return And(mem(it, tables_(it, a), u), exidx(it, lambda j: eq(it, fk_dst(it, at(
        it, ks, j)), v), ks))


def rev_post(it, a, r):
    m = it.args
    return {
        "reverse keys are of keys": each_table(it, m, lambda d, t: idx(it, lambda i: refers(
            it, m, fk_dst(it, at(it, keys(it, t, REV), i)), d), keys(it, t, REV))),
        "every key has its reverse": each_table(it, m, lambda d, t: forall_ty(
            it, KEY, lambda u: Implies(refers(it, m, u, d), exidx(it, lambda i: eq(
                it, fk_dst(it, at(it, keys(it, t, REV), i)), u), keys(it, t, REV))))),
    }


REVERSE = Contract("subsetter.metadata:DatabaseMetadata.compute_reverse_keys", modular=True,
                   ensures=rev_post, modifies=lambda it, a: [(it.fieldmap(TTABLE, REV), KEYS_OF)])


def order_post(it, a, r):
    """what C01 proves of the order"""
    it.ghost["order"] = it.freeze(r)

    def tk(k):
        return name_key(at(it, r, k))

    def e(k, j):
        return refers(it, a, tk(k), tk(j))

    def target(k):
        return mem(it, it.getattr(field(it, a.self, "config"), "targets"), at(it, r, k))

    def connected(k, up):
        return exists_int(it, lambda j: e(k, j) if up else e(j, k), 0, k)

    def none(k, up):
        return forall_int(it, lambda j: Not(e(k, j) if up else e(j, k)), 0, k)
    return {
        "each table once": idx(it, lambda j: forall_int(it, lambda i: Not(eq(
            it, at(it, r, i), at(it, r, j))), 0, j), r),
        "tables to be sampled": idx(it, lambda k: And(hasdot(at(it, r, k).t), mem(
            it, tables_(it, a), tk(k)), Not(mem(it, field(it, a.self, "passthrough_tables"), tk(
                k)))), r),
        "a target refers to no earlier table": idx(it, lambda k: Implies(target(k), none(
            k, True)), r),
        "others are connected to an earlier table": idx(it, lambda k: Or(target(k), connected(
            k, True), connected(k, False)), r),
        "earlier tables are all referenced or all refer": idx(it, lambda k: Or(
            none(k, True), none(k, False)), r),
        "no table refers to itself": idx(it, lambda k: Not(e(k, k)), r),
    }


SOLVE = Contract("subsetter.planner:Planner._solve_order", modular=True, returns=TSeq(STR),
                 raises={ValueError: None}, ensures=order_post)


def upto(it, i, k, strict=False):
    """k is the key of one of the first tables of the order"""
    o = it.ghost["order"]
    return exists_int(it, lambda j: eq(it, name_key(at(it, o, j)), k), 0, i if strict else i + 1)


def step_requires(it, b):
    a, i = it.args, it.ghost["i"]
    n = at(it, it.ghost["order"], i)
    d = it._cont(it.getattr(field(it, a.self, "config"), "targets"))
    none, t = opt(b.target)
    return {
        "the table of the order": eq(it, b.table, tab(it, a, name_key(n))),
        "sampled are the tables before, and it": forall_ty(it, KEY, lambda k: mem(
            it, b.processed, k) == upto(it, i, k)),
        "a target if configured": none == Not(mem(it, d, n)),
        "its own target": Or(none, V.TRUE if t is None else eq(it, t, it.dict_get(d, n))),
        **pt_requires(it, b)}


def step_post(it, b, r):
    return {"planned": planned(it.freeze(r).t if isinstance(r, Ref) else r.t, at(
        it, it.ghost["order"], it.ghost["i"]).t)}


STEP = Contract("subsetter.planner:Planner._plan_table", modular=True, returns=TQUERY,
                requires=step_requires, ensures=step_post, raises={ValueError: None})


def new_query(it, cls, f):
    s = frozen(it, f["statement"])
    q = it.make(TQUERY, "query")
    g = s.fields if isinstance(s, VObj) and s.cls is P.SQLStatementSelect else {}
    if g and f.get("sql") is None and g["from_"].fields["sampled"] is False:
        fr = g["from_"].fields
        plain = And(*[opt(g[n])[0] for n in ("columns", "where", "limit", "joins")])
        it._addfacts([Implies(plain, full_copy(q.t, V.term(fr["table_schema"], STR), V.term(
            fr["table_name"], STR)))])
    return q


def is_full(it, d, k):
    n = key_name(it, k)
    return And(mem(it, d, n), full_copy(it.dict_get(it._cont(d), n).t, V.term(
        k.items[0], STR), V.term(k.items[1], STR)))


def through(it, k):
    return mem(it, field(it, it.args.self, "passthrough_tables"), k)


def pass_inv(it, old_st, D):
    q = it.lookup("queries")
    if empty_dict(it, q):
        return {"none yet": V.TRUE}
    return {
        "passthrough tables are copied in full": forall_ty(it, KEY, lambda k: Implies(
            it.set_mem(D, k), is_full(it, q, k))),
        "no other tables": forall_ty(it, STR, lambda n: Implies(mem(it, q, n), exists_ty(
            it, KEY, lambda k: And(it.set_mem(D, k), eq(it, key_name(it, k), n))))),
    }


def order_inv(it, old_st, i):
    it.ghost["i"] = i.t
    q, o = it.lookup("queries"), it.ghost["order"]
    return {
        "passthrough tables are copied in full": forall_ty(it, KEY, lambda k: Implies(
            through(it, k), is_full(it, q, k))),
        "tables so far are planned": forall_int(it, lambda j: And(mem(it, q, at(
            it, o, j)), planned(it.dict_get(it._cont(q), at(it, o, j)).t, at(
                it, o, j).t)), 0, i.t),
        "no other tables": forall_ty(it, STR, lambda n: Implies(mem(it, q, n), Or(
            exists_ty(it, KEY, lambda k: And(through(it, k), eq(it, key_name(it, k), n))),
            exists_int(it, lambda j: eq(it, at(it, o, j), n), 0, i.t)))),
        "sampled tables": forall_ty(it, KEY, lambda k: mem(it, it.lookup(
            "processed"), k) == upto(it, i.t, k, True)),
    }


def plan_post(it, a, r):
    f = frozen(it, r).fields
    q, o, ps = f["queries"], it.ghost["order"], f["passthrough"]
    return {
        "passthrough tables are planned as full copies": forall_ty(it, KEY, lambda k: Implies(
            through(it, k), is_full(it, q, k))),
        "the tables in order are planned": idx(it, lambda j: And(mem(it, q, at(
            it, o, j)), planned(it.dict_get(it._cont(q), at(it, o, j)).t, at(it, o, j).t)), o),
        "no other tables": forall_ty(it, STR, lambda n: Implies(mem(it, q, n), Or(
            exists_ty(it, KEY, lambda k: And(through(it, k), eq(it, key_name(it, k), n))),
            exidx(it, lambda j: eq(it, at(it, o, j), n), o)))),
        "passthrough tables are marked": forall_ty(it, KEY, lambda k: Implies(through(
            it, k), mem(it, ps, key_name(it, k)))),
        "no other table is": it.forall_elem(it.iter_pieces(ps), lambda n: exists_ty(
            it, KEY, lambda k: And(through(it, k), eq(it, key_name(it, k), n)))),
    }


QUERIES = TDict(STR, TQUERY)
PLAN = Contract(
    "subsetter.planner:Planner._plan_internal", setup=lambda it: {"self": make_planner(it)},
    requires=lambda it, a: {**meta_inv(it, a), "passthrough tables have names without dots in "
                            "the schema": forall_ty(it, KEY, lambda k: Implies(mem(it, field(
                                it, a.self, "passthrough_tables"), k), nodot(k.items[0].t)))},
    ensures=plan_post, raises={ValueError: None}, covers=("return", "ValueError"),
    models={(P.SQLTableQuery, "__construct__"): new_query},
    loops={0: LoopSpec(name="passthrough", done="set", key=KEY, inv=pass_inv, types={
               "schema": STR, "table_name": STR}, cells={"queries": QUERIES}),
           1: LoopSpec(name="order", done="index", inv=order_inv, types={
               "table": STR, "schema": STR, "table_name": STR},
               cells={"queries": QUERIES, "processed": TSet(KEY)})})

MODELS = {**NAME_MODELS}
AXIOMS = [name_axioms]
CONTRACTS = [PLAN_TABLE, PLAN]
ALL = [PARSE, REVERSE, CHECK_PASS, SOLVE, STEP] + STEPS
ASSUMPTIONS = [
    "a condition means what C04 proves its SQL to mean; rows, draws and raw SQL are arbitrary",
    "simplify() selects the rows of the statement it is given (C05, used modularly)",
    "half_unique may be anything: SQLStatementSelect.build selects each row once in either case "
    "(C04)",
    "the order of the tables is as C01 proves it for _solve_order (here its clauses for every "
    "cycle of one table: no table refers to itself); reverse keys as C13 proves them for "
    "compute_reverse_keys; keys name their tables by a schema without a dot (C13, C14)",
    "the steps before the order change foreign keys of tables in any way, and nothing else (C13)"]
TRUSTED = ["sorted (a permutation)", "pydantic: a model holds the values it is given"]
