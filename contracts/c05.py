"""C05: simplify() preserves the meaning of conditions and statements.

Meaning of a condition for a row is SQL's three-valued logic, given by two predicates: tv_true and
tv_false (unknown is neither).  Conditions below the one being simplified are abstract; calling
simplify() on them uses this very contract (induction on nesting).
"""
from contracts.lib import *
from pydv.state import PyRaise
from subsetter import plan_model as P

Row = z3.DeclareSort("Row")
TUPLE = z3.DeclareSort("RowTuple")
CLASSES = [P.SQLWhereClauseOperator, P.SQLWhereClauseIn, P.SQLWhereClauseAnd, P.SQLWhereClauseOr,
           P.SQLWhereClauseRandom, P.SQLWhereClauseSQL, P.SQLWhereClauseTrue,
           P.SQLWhereClauseFalse]


def clause_simplify(it, args, kw):
    me = args[0]
    r = it.make(TCLAUSE, "simp")
    row = z3.Const(it.fresh_name("row"), Row)
    it._addfacts([ForAll([row], And(T(r.t, row) == T(me.t, row), F(r.t, row) == F(me.t, row)))])
    return r


TROWSRC = TEnt("RowSource", None, classes=[list, P.SQLStatementSelect, P.SQLStatementUnion])
TCLAUSE = TEnt("Clause", None, classes=CLASSES, methods={"simplify": clause_simplify},
               fields={"threshold": REAL})
TCLAUSE.fields["conditions"] = TSeq(TCLAUSE)
TROWSRC.methods["simplify"] = lambda it, a, kw: source_simplify(it, a[0])
C = TCLAUSE.sort
T = z3.Function("tv_true", C, Row, z3.BoolSort())
F = z3.Function("tv_false", C, Row, z3.BoolSort())
src_has = z3.Function("src_has", TROWSRC.sort, TUPLE, z3.BoolSort())


def source_simplify(it, me):
    r = it.make(TROWSRC, "simpsrc")
    y = z3.Const(it.fresh_name("tup"), TUPLE)
    it._addfacts([ForAll([y], src_has(r.t, y) == src_has(me.t, y)), TROWSRC.tag(r.t) != 0])
    return r


def is_(c, cls):
    return TCLAUSE.tag(c) == CLASSES.index(cls)


def conds(it, c):
    return TCLAUSE.fields["conditions"].make("Clause.conditions", [c])


class _It:
    pass


def axioms():
    """the meaning of the conditions below the simplified one"""
    c, row, k = z3.Const("ax_c", C), z3.Const("ax_row", Row), z3.Int("ax_k")
    seq = TCLAUSE.fields["conditions"].make("Clause.conditions", [c])
    n, at_ = seq.pieces[0].n, lambda i: seq.pieces[0].at(i).t
    rng = z3.And(k >= 0, k < n)
    A, O = P.SQLWhereClauseAnd, P.SQLWhereClauseOr
    fa = lambda body: z3.ForAll([k], z3.Implies(rng, body), patterns=[at_(k)])
    ex = lambda body: z3.Exists([k], z3.And(rng, body))
    ax = [
        z3.ForAll([c], n >= 0, patterns=[n]),
        z3.ForAll([c, row], z3.Implies(is_(c, A), T(c, row) == fa(T(at_(k), row))),
                  patterns=[T(c, row)]),
        z3.ForAll([c, row], z3.Implies(is_(c, A), F(c, row) == ex(F(at_(k), row))),
                  patterns=[F(c, row)]),
        z3.ForAll([c, row], z3.Implies(is_(c, O), T(c, row) == ex(T(at_(k), row))),
                  patterns=[T(c, row)]),
        z3.ForAll([c, row], z3.Implies(is_(c, O), F(c, row) == fa(F(at_(k), row))),
                  patterns=[F(c, row)]),
        z3.ForAll([c, row], z3.Not(z3.And(T(c, row), F(c, row))), patterns=[T(c, row)]),
        z3.ForAll([c, row], z3.Implies(is_(c, P.SQLWhereClauseTrue), T(c, row)),
                  patterns=[T(c, row)]),
        z3.ForAll([c, row], z3.Implies(is_(c, P.SQLWhereClauseFalse), F(c, row)),
                  patterns=[F(c, row)]),
        z3.ForAll([c, row], z3.Implies(is_(c, P.SQLWhereClauseFalse), z3.Not(T(c, row))),
                  patterns=[T(c, row)]),
    ]
    ax += TCLAUSE.tag_facts() + TROWSRC.tag_facts() + TSEL.tag_facts()
    return ax


def tv(it, c, row):
    """(true, false) of a condition for a row"""
    if c is None:
        return V.TRUE, V.FALSE
    if isinstance(c, SymOpt):
        t, f = tv(it, c.val, row)
        return Or(c.isnone, t), And(Not(c.isnone), f)
    if isinstance(c, Sym):
        return T(c.t, row), F(c.t, row)
    if isinstance(c, Ref):
        c = it.freeze(c)
    if c.cls is P.SQLWhereClauseTrue:
        return V.TRUE, V.FALSE
    if c.cls is P.SQLWhereClauseFalse:
        return V.FALSE, V.TRUE
    if c.cls in (P.SQLWhereClauseAnd, P.SQLWhereClauseOr):
        ps = it.iter_pieces(c.fields["conditions"])
        allT = it.forall_elem(ps, lambda e: tv(it, e, row)[0])
        anyT = it.exists_elem(ps, lambda e: tv(it, e, row)[0])
        allF = it.forall_elem(ps, lambda e: tv(it, e, row)[1])
        anyF = it.exists_elem(ps, lambda e: tv(it, e, row)[1])
        return (allT, anyF) if c.cls is P.SQLWhereClauseAnd else (anyT, allF)
    if c.cls is P.SQLWhereClauseRandom:
        # one draw in [0, 1) per row
        d = z3.Function("draw", Row, z3.RealSort())(row)
        it._addfacts([And(d >= 0, d < 1)])
        th = V.term(c.fields["threshold"], REAL)
        return d < th, Not(d < th)
    raise Unsupported(f"meaning of {c.cls.__name__}")


def same_meaning(it, a, r):
    row = z3.Const(it.fresh_name("row"), Row)
    return {f"{nm} for the same rows": it.forall([row], lambda: tv(it, a.self, row)[k] == tv(
        it, r, row)[k]) for k, nm in enumerate(("true", "false"))}


def nary(cls):
    return Contract(f"subsetter.plan_model:{cls.__name__}.simplify", setup=lambda it: {
        "self": VObj(cls, {"type_": "x", "conditions": it.make(TSeq(TCLAUSE), "conditions")})},
        ensures=same_meaning)


def random_setup(it):
    return {"self": VObj(P.SQLWhereClauseRandom, {"type_": "random",
                                                  "threshold": it.make(REAL, "threshold")})}


def identity(cls):
    def setup(it):
        c = it.make(TCLAUSE, "self")
        it.fact(is_(c.t, cls))
        return {"self": c}
    return Contract(f"subsetter.plan_model:{cls.__name__}.simplify", setup=setup,
                    ensures=same_meaning)


def in_setup(it):
    return {"self": VObj(P.SQLWhereClauseIn, {
        "type_": "in", "columns": it.make(TSeq(STR), "columns"),
        "values": it.make(TROWSRC, "values"), "negated": it.make(BOOL, "negated")})}


def in_post(it, a, r):
    r = it.freeze(r)
    if r is a.self:
        return {"unchanged": V.TRUE}
    y = z3.Const(it.fresh_name("tup"), TUPLE)
    f, g = a.self.fields, r.fields
    lf, lg = it.make(TSeq(STR), "x"), None
    cols = And(slen(it, g["columns"]) == slen(it, f["columns"]), idx(it, lambda k: eq(
        it, at(it, g["columns"], k), at(it, f["columns"], k)), f["columns"]))
    return {"still a membership test": V.TRUE if r.cls is P.SQLWhereClauseIn else V.FALSE,
            "same columns in order": cols,
            "same value rows": ForAll([y], src_has(g["values"].t, y) == src_has(
                f["values"].t, y)),
            "same polarity": eq(it, g["negated"], f["negated"])}


# ------------------------------------------------------------ statements
TTABLE = TEnt("TableId", P.SQLTableIdentifier)
TCOLS = TEnt("Cols", list, truth=lambda it, v: z3.Function(
    "cols_nonempty", z3.DeclareSort("Cols"), z3.BoolSort())(v.t))
TJOINS = TEnt("Joins", list, truth=lambda it, v: z3.Function(
    "joins_nonempty", z3.DeclareSort("Joins"), z3.BoolSort())(v.t))
SEL_FIELDS = {"from_": TTABLE, "columns": TOpt(TCOLS), "where": TOpt(TCLAUSE), "limit": TOpt(INT),
              "joins": TOpt(TJOINS), "joins_outer": BOOL}
joinok = z3.Function("joinok", TTABLE.sort, TJOINS.sort, z3.BoolSort(), Row, z3.BoolSort())
intable = z3.Function("intable", TTABLE.sort, Row, z3.BoolSort())
proj = z3.Function("proj", TCOLS.sort, Row, TUPLE)
proj_all = z3.Function("proj_all", TTABLE.sort, Row, TUPLE)
nonempty = z3.Function("joins_nonempty", TJOINS.sort, z3.BoolSort())


def sel_field(it, s, f):
    if isinstance(s, Sym):
        return it.get_field(s, f)
    return (it.freeze(s) if isinstance(s, Ref) else s).fields[f]


def opt(v):
    """(is None, value or None)"""
    if v is None:
        return V.TRUE, None
    if isinstance(v, SymOpt):
        return v.isnone, v.val
    return V.FALSE, v


def join_part(it, s, row):
    n, j = opt(sel_field(it, s, "joins"))
    if j is None:
        return V.TRUE
    outer = V.term(sel_field(it, s, "joins_outer"), BOOL)
    return Or(n, Not(nonempty(j.t)), joinok(sel_field(it, s, "from_").t, j.t, outer, row))


def projected(it, s, row):
    frm = sel_field(it, s, "from_").t
    n, c = opt(sel_field(it, s, "columns"))
    if c is None:
        return proj_all(frm, row)
    ne = z3.Function("cols_nonempty", TCOLS.sort, z3.BoolSort())(c.t)
    return z3.If(And(Not(n), ne), proj(c.t, row), proj_all(frm, row))


def selects(it, s, row):
    """the select keeps this row of its table"""
    return And(intable(sel_field(it, s, "from_").t, row), join_part(it, s, row),
               tv(it, sel_field(it, s, "where"), row)[0])


def same_select(it, x, y):
    """every ingredient of the meaning of x and y agrees; the condition row by row"""
    row = z3.Const(it.fresh_name("row"), Row)
    d = {"same table": eq(it, sel_field(it, x, "from_"), sel_field(it, y, "from_")),
         "same limit": eq(it, sel_field(it, x, "limit"), sel_field(it, y, "limit")),
         "same columns": projected_same(it, x, y),
         "same rows kept": it.forall([row], lambda: selects(it, x, row) == selects(it, y, row))}
    return d


def projected_same(it, x, y):
    row = z3.Const(it.fresh_name("row"), Row)
    return it.forall([row], lambda: projected(it, x, row) == projected(it, y, row))


mem_lim = z3.Function("limited_has", z3.DeclareSort("Select"), TUPLE, z3.BoolSort())


def sel_simplify(it, args, kw):
    me = args[0]
    r = it.make(TSEL, "simpsel")
    d = same_select(it, me, r)
    y = z3.Const(it.fresh_name("tup"), TUPLE)
    # a limited select is a function of the ingredients just proved equal
    it._addfacts(list(d.values()) + [ForAll([y], mem_lim(r.t, y) == mem_lim(me.t, y))])
    return r


TSEL = TEnt("Select", P.SQLStatementSelect, fields=SEL_FIELDS, methods={"simplify": sel_simplify})


def member(it, s, y):
    """tuple y is among the rows of statement s (select or union)"""
    if isinstance(s, VObj) and s.cls is P.SQLStatementUnion:
        return it.exists_elem(it.iter_pieces(s.fields["statements"]), lambda e: member(it, e, y))
    row = z3.Const(it.fresh_name("row"), Row)
    un = it.exists([row], lambda: And(selects(it, s, row), projected(it, s, row) == y))
    n, lim = opt(sel_field(it, s, "limit"))
    if lim is None:
        return un
    if not isinstance(s, Sym):
        raise Unsupported("meaning of a rebuilt limited select")
    some = it.exists([row], lambda: selects(it, s, row))
    return z3.If(n, un, And(some, mem_lim(s.t, y)))


def sel_setup(it):
    return {"self": VObj(P.SQLStatementSelect, {
        "type_": "select", **{f: it.make(ty, f) for f, ty in SEL_FIELDS.items()}})}


def sel_apply(it, a):
    """Select.simplify used on a statement built by the code: its own contract"""
    r = it.make(TSEL, "simpsel")
    d = same_select(it, a.self, r)
    it._addfacts(list(d.values()))
    return r


SEL = Contract("subsetter.plan_model:SQLStatementSelect.simplify", setup=sel_setup, modular=True,
               apply=sel_apply, ensures=lambda it, a, r: same_select(it, a.self, r))


def union_setup(it):
    return {"self": VObj(P.SQLStatementUnion, {"type_": "union",
                                               "statements": it.make(TSeq(TSEL), "statements")})}


def union_post(it, a, r):
    y = z3.Const(it.fresh_name("tup"), TUPLE)
    r = it.freeze(r)
    return {"selects the same rows": it.forall([y], lambda: member(
        it, r, y) == member(it, a.self, y))}


AXIOMS = [axioms]
CONTRACTS = [
    nary(P.SQLWhereClauseAnd), nary(P.SQLWhereClauseOr),
    Contract("subsetter.plan_model:SQLWhereClauseRandom.simplify", setup=random_setup,
             ensures=same_meaning),
    Contract("subsetter.plan_model:SQLWhereClauseIn.simplify", setup=in_setup, ensures=in_post),
    SEL,
    Contract("subsetter.plan_model:SQLStatementUnion.simplify", setup=union_setup,
             requires=lambda it, a: {"at least one statement": slen(
                 it, a.self.fields["statements"]) >= 1}, ensures=union_post),
] + [identity(c) for c in (P.SQLWhereClauseOperator, P.SQLWhereClauseSQL, P.SQLWhereClauseTrue,
                           P.SQLWhereClauseFalse)]
ASSUMPTIONS = ["a union has at least one statement",
               "simplify() of nested conditions and statements meets this contract (structural "
               "induction on nesting depth)",
               "a limited select is an unspecified function of its table, columns, joins, limit "
               "and kept rows"]
