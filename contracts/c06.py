"""C06: filters change only the columns they name."""
from datetime import datetime

import contracts.meta as M
from contracts.lib import *
from pydv.state import PyRaise
from subsetter import filters as F
from subsetter import metadata as MD
from subsetter import sampler as SA

TSTR = TSeq(STR, "tuple")
TINT = TSeq(INT, "tuple")
TVAL = TSeq(VAL, "tuple")


def seq_eq(it, a, b):
    """equal sequences, element by element"""
    return And(slen(it, a) == slen(it, b),
               idx(it, lambda k: eq(it, at(it, a, k), at(it, b, k)), b))


# ------------------------------------------------------------ index computation
def vi_post(it, a, r):
    return {
        "one index per column": slen(it, r) == slen(it, a.columns_act),
        "at least one column": slen(it, r) >= 1,
        "each index is the position of its column": idx(it, lambda k: And(
            num(at(it, r, k)) >= 0, num(at(it, r, k)) < slen(it, a.columns_in),
            eq(it, at(it, a.columns_in, num(at(it, r, k))), at(it, a.columns_act, k))),
            a.columns_act),
        "no column is repeated": idx(it, lambda k: idx(it, lambda l: Implies(
            k != l, Not(eq(it, at(it, a.columns_act, k), at(it, a.columns_act, l)))),
            a.columns_act), a.columns_act)}


def bad_columns(it, cin, act):
    return Or(
        slen(it, act) == 0,
        exidx(it, lambda k: exidx(it, lambda l: And(k != l, eq(
            it, at(it, act, k), at(it, act, l))), act), act),
        exidx(it, lambda k: Not(exidx(it, lambda j: eq(
            it, at(it, cin, j), at(it, act, k)), cin)), act))


VALIDATE = Contract(
    "subsetter.filters:_validate_and_index", modular=True, returns=TINT,
    params={"filter_name": STR, "columns_in": TSTR, "columns_act": TSTR},
    ensures=vi_post,
    raises={ValueError: lambda it, a, e: {
        "only for an empty, repeated or missing column":
            bad_columns(it, a.columns_in, a.columns_act)}},
    covers=("return", "ValueError"))


# ------------------------------------------------------------ column filters
def inv_columns(it, a_self):
    """class invariant of column filters, established by the constructor"""
    cin, act, ix = (field(it, a_self, f) for f in ("columns_in", "columns_act",
                                                   "column_act_indices"))
    n = slen(it, act)
    return {
        "as many indices as columns": slen(it, ix) == n,
        "at least one column": n >= 1,
        "indices name the configured columns": idx(it, lambda k: And(
            num(at(it, ix, k)) >= 0, num(at(it, ix, k)) < slen(it, cin),
            eq(it, at(it, cin, num(at(it, ix, k))), at(it, act, k))), act),
        "columns distinct": idx(it, lambda k: forall_int(it, lambda l: Implies(
            And(k < l), Not(eq(it, at(it, act, k), at(it, act, l)))), 0, n), act),
    }


def ctor_params(cls, **extra):
    def setup(it):
        d = {"self": it.alloc(VInst(cls, {})), "columns_in": it.make(TSTR, "columns_in"),
             "columns_act": it.make(TSTR, "columns_act")}
        for k, ty in extra.items():
            d[k] = it.make(ty, k) if isinstance(ty, V.Ty) else ty
        return d
    return setup


def columns_ctor_post(it, a, r):
    d = dict(inv_columns(it, a.self))
    d["input columns kept"] = seq_eq(it, field(it, a.self, "columns_in"), a.columns_in)
    d["output columns are the input columns"] = seq_eq(
        it, field(it, a.self, "columns_out"), a.columns_in)
    d["acts on the configured columns in order"] = seq_eq(
        it, field(it, a.self, "columns_act"), a.columns_act)
    return d


CTOR_RAISES = {ValueError: lambda it, a, e: {
    "only for an empty, repeated or missing column": bad_columns(it, a.columns_in, a.columns_act)}}


def fv_model(it, args, kw):
    """the filter's own values: as many as it was given (contract of filter_values below)"""
    me, vals = args
    r = it.make(TSeq(VAL), "fv")
    it.fact(slen(it, r) == slen(it, vals))
    it.fvcall = (it.freeze(vals), r)
    return r


def fc_setup(it):
    me = it.alloc(VInst(F.FilterColumns, {
        "columns_in": it.make(TSTR, "cin"), "columns_out": it.make(TSTR, "cout"),
        "columns_act": it.make(TSTR, "act"), "column_act_indices": it.make(TINT, "ix")}))
    return {"self": me, "values": it.make(TVAL, "values")}


def fc_requires(it, a):
    d = inv_columns(it, a.self)
    d["one value per column"] = slen(it, a.values) == slen(it, field(it, a.self, "columns_in"))
    return d


def fc_ensures(it, a, r):
    ix = field(it, a.self, "column_act_indices")
    passed, fv = it.fvcall
    return {
        "as many values as output columns": slen(it, r) == slen(it, a.values),
        "the filter receives exactly the named columns in order": And(
            slen(it, passed) == slen(it, ix),
            idx(it, lambda k: eq(it, at(it, passed, k), at(it, a.values, at(it, ix, k).t)), ix)),
        "named columns get the filter's values in order": idx(it, lambda k: eq(
            it, at(it, r, at(it, ix, k).t), at(it, fv, k)), ix),
        "other columns unchanged": idx(it, lambda j: Implies(
            Not(exidx(it, lambda k: at(it, ix, k).t == j, ix)),
            eq(it, at(it, r, j), at(it, a.values, j))), a.values),
    }


# ------------------------------------------------------------ the simple filters' own values
def own(cls, post, fields=None, raises=None, models=None, target=None, requires=None, covers=None):
    def setup(it):
        f = {k: (it.make(ty, k) if isinstance(ty, V.Ty) else ty)
             for k, ty in (fields or {}).items()}
        return {"self": it.alloc(VInst(cls, f)), "values": it.alloc(it.make(TSeq(VAL), "values"))}
    return Contract(target or f"subsetter.filters:{cls.__qualname__}.filter_values", setup=setup,
                    ensures=post, raises=raises or {}, models=models or {}, requires=requires,
                    covers=covers or ("return",), name=f"{cls.__name__}.filter_values")


def same_len(it, a, r):
    return {"one value per column": slen(it, r) == slen(it, a.values)}


def val_is(it, v, pyconst):
    return eq(it, v, pyconst)


def zero_of(it, v, z):
    t = v.t
    e = z.t if isinstance(z, Sym) and z.ty is VAL else None
    return And(
        Implies(t == V.Val_none, eq(it, z, None)),
        Implies(V.Val_isstr(t), eq(it, z, "")),
        Implies(And(V.Val_isint(t)), eq(it, z, 0)))


def zero_post(it, a, r):
    d = same_len(it, a, r)
    d["null, empty string or zero according to the type"] = idx(
        it, lambda k: zero_of(it, at(it, a.values, k), at(it, r, k)), a.values)
    return d


def epoch_replace(it, args, kw):
    return Sym(VAL, z3.Function("epoch_with", V.VAL_S, V.VAL_S)(it.fresh("tz", V.VAL_S)))


TRNG = TEnt("Rng", None, methods={
    "randint": lambda it, a, kw: Sym(INT, it.fresh("randint", z3.IntSort())),
    "uniform": lambda it, a, kw: Sym(REAL, it.fresh("uniform", z3.RealSort())),
    "choices": lambda it, a, kw: it.make(TSeq(STR), "choices")})


def rnd_model(lo_hi, sort, mk):
    def m(it, a, kw):
        x = it.fresh("rnd", sort)
        lo, hi = V.term(a[1], lo_hi), V.term(a[2], lo_hi)
        it.fact(Implies(lo <= hi, And(x >= lo, x <= hi)))
        return Sym(lo_hi, x)
    return m


TRNGI = TEnt("RngI", None, methods={"randint": rnd_model(INT, z3.IntSort(), None),
                                    "uniform": rnd_model(REAL, z3.RealSort(), None)})


def rng_post(it, a, r):
    d = same_len(it, a, r)
    lo, hi = field(it, a.self, "low"), field(it, a.self, "high")
    ty = lo.ty
    d["within the configured bounds"] = Implies(lo.t <= hi.t, idx(it, lambda k: And(
        V.term(at(it, r, k), ty) >= lo.t, V.term(at(it, r, k), ty) <= hi.t), a.values))
    return d


# ------------------------------------------------------------ omit
def omit_setup(it):
    return {"self": it.alloc(VInst(F.FilterOmit, {})), "columns_in": it.make(TSTR, "columns_in"),
            "columns_act": it.make(TSTR, "columns_act")}


def distinct(it, s):
    return idx(it, lambda k: idx(it, lambda l: Implies(
        k != l, Not(eq(it, at(it, s, k), at(it, s, l)))), s), s)


def omit_post(it, a, r):
    out = field(it, a.self, "columns_out")
    ix = field(it, a.self, "columns_out_indices")
    return {
        "input columns kept": seq_eq(it, field(it, a.self, "columns_in"), a.columns_in),
        "one index per output column": slen(it, ix) == slen(it, out),
        "each index is the position of its output column": idx(it, lambda k: And(
            num(at(it, ix, k)) >= 0, num(at(it, ix, k)) < slen(it, a.columns_in),
            eq(it, at(it, a.columns_in, num(at(it, ix, k))), at(it, out, k))), out),
        "no output column is an omitted one": idx(it, lambda k: Not(mem(
            it, a.columns_act, at(it, out, k))), out),
        "every other input column is an output column": idx(it, lambda j: Implies(
            Not(mem(it, a.columns_act, at(it, a.columns_in, j))),
            exidx(it, lambda k: num(at(it, ix, k)) == j, out)), a.columns_in),
        "column order kept": idx(it, lambda k: idx(it, lambda l: Implies(
            k < l, num(at(it, ix, k)) < num(at(it, ix, l))), out), out),
        "the output columns are the input columns not omitted": forall_ty(
            it, STR, lambda s: mem(it, out, s) == And(
                mem(it, a.columns_in, s), Not(mem(it, a.columns_act, s)))),
    }


def omitv_setup(it):
    me = it.alloc(VInst(F.FilterOmit, {
        "columns_in": it.make(TSTR, "cin"), "columns_out": it.make(TSTR, "cout"),
        "columns_act": it.make(TSTR, "act"), "columns_out_indices": it.alloc(
            it.make(TSeq(INT), "ix"))}))
    return {"self": me, "values": it.make(TVAL, "values")}


def omitv_req(it, a):
    ix = field(it, a.self, "columns_out_indices")
    return {
        "one index per output column": slen(it, ix) == slen(it, field(it, a.self, "columns_out")),
        "indices in range": idx(it, lambda k: And(
            at(it, ix, k).t >= 0,
            at(it, ix, k).t < slen(it, field(it, a.self, "columns_in"))), ix),
        "one value per column": slen(it, a.values) == slen(it, field(it, a.self, "columns_in"))}


def omitv_post(it, a, r):
    ix = field(it, a.self, "columns_out_indices")
    return {"as many values as output columns": slen(it, r) == slen(
                it, field(it, a.self, "columns_out")),
            "each kept column has its own value": idx(it, lambda k: eq(
                it, at(it, r, k), at(it, a.values, at(it, ix, k).t)), ix)}


# ------------------------------------------------------------ chain
# the k-th filter of a chain maps the k-th intermediate row to the (k+1)-th
fold_len = z3.Function("fold_len", z3.IntSort(), z3.IntSort())
fold_at = z3.Function("fold_at", z3.IntSort(), z3.IntSort(), V.VAL_S)
view_pos = z3.Function("view_pos", z3.DeclareSort("View"), z3.IntSort())


def fold_row(k, kind="list"):
    k = k.t if isinstance(k, Sym) else k
    return VSeq([BaseP(fold_len(k), lambda i: Sym(VAL, fold_at(k, i)))], kind)


def chain_apply(it, args, kw):
    me, vals = args
    k = view_pos(me.t)
    it.oblige("chain: each filter receives the previous filter's row",
              seq_eq(it, vals, fold_row(k)))
    it._addfacts([fold_len(k + 1) >= 0])
    return it.alloc(fold_row(k + 1))


TVIEW = TEnt("View", F.FilterView, fields={"columns_out": TSTR}, methods={
    "filter_view": chain_apply})


def chain_setup(it):
    me = it.alloc(VInst(F.FilterViewChain, {
        "columns_in": it.make(TSTR, "cin"), "columns_out": it.make(TSTR, "cout"),
        "filter_views": it.alloc(it.make(TSeq(TVIEW), "views"))}))
    return {"self": me, "values": it.make(TVAL, "values")}


def chain_req(it, a):
    vs = field(it, a.self, "filter_views")
    return {"positions": idx(it, lambda k: view_pos(at(it, vs, k).t) == k, vs),
            "the first filter gets the row": seq_eq(it, fold_row(z3.IntVal(0)), a.values),
            "lengths": forall_int(it, lambda k: fold_len(k) >= 0)}


def chain_post(it, a, r):
    n = slen(it, field(it, a.self, "filter_views"))
    return {"result of applying every filter in order": seq_eq(it, r, fold_row(n))}


CHAIN_LOOP = {0: LoopSpec(
    name="filters", done="index", types={"result": TSeq(VAL)},
    inv=lambda it, old, i: {"row so far": seq_eq(it, it.lookup("result"), fold_row(i.t))})}


# columns through a chain
cols_len = z3.Function("cols_len", z3.IntSort(), z3.IntSort())
cols_at = z3.Function("cols_at", z3.IntSort(), z3.IntSort(), V.STR_S)
fcfg_pos = z3.Function("fcfg_pos", z3.DeclareSort("FilterCfg"), z3.IntSort())
view_of = z3.Function("view_of", z3.IntSort(), z3.DeclareSort("CView"))
TCVIEW = TEnt("CView", F.FilterView, fields={"columns_out": lambda it, v: cols_row(
    z3.Function("cview_pos", z3.DeclareSort("CView"), z3.IntSort())(v.t))})


def cols_row(k):
    return VSeq([BaseP(cols_len(k), lambda i: Sym(STR, cols_at(k, i)))], "tuple")


def cfg_construct(it, args, kw):
    me, cols = args[0], args[1]
    k = fcfg_pos(me.t)
    it.oblige("chain: each filter is built for the previous filter's output columns",
              seq_eq(it, cols, cols_row(k)))
    v = Sym(TCVIEW, view_of(k))
    it._addfacts([z3.Function("cview_pos", z3.DeclareSort("CView"), z3.IntSort())(
        view_of(k)) == k + 1, cols_len(k + 1) >= 0])
    return v


TFCFG = TEnt("FilterCfg", F.SingleFilterConfig, methods={"construct_filter": cfg_construct})


def cc_setup(it):
    return {"cls": F.FilterViewChain, "columns_in": it.make(TSTR, "columns_in"),
            "filter_configs": it.alloc(it.make(TSeq(TFCFG), "configs"))}


def cc_req(it, a):
    return {"positions": idx(it, lambda k: fcfg_pos(at(it, a.filter_configs, k).t) == k,
                             a.filter_configs),
            "the first filter gets the chain's columns": seq_eq(
                it, cols_row(z3.IntVal(0)), a.columns_in)}


def cc_post(it, a, r):
    n = slen(it, a.filter_configs)
    fv = field(it, r, "filter_views")
    return {"chain takes the given columns": seq_eq(it, field(it, r, "columns_in"), a.columns_in),
            "chain yields the last filter's columns": seq_eq(
                it, field(it, r, "columns_out"), cols_row(n)),
            "one filter per configuration": slen(it, fv) == n,
            "the filters built, in order": idx(
                it, lambda k: at(it, fv, k).t == view_of(k), a.filter_configs)}


CC_LOOP = {0: LoopSpec(
    name="configs", done="index", types={"cols_out": TSTR, "filter_view": TCVIEW},
    cells={"filter_views": TSeq(TCVIEW)},
    inv=lambda it, old, i: {
        "columns so far": seq_eq(it, it.lookup("cols_out"), cols_row(i.t)),
        "one filter per configuration so far": slen(it, it.lookup("filter_views")) == i.t,
        "filters so far": idx(it, lambda k: at(it, it.lookup("filter_views"), k).t == view_of(k),
                              it.lookup("filter_views"))})}


# ------------------------------------------------------------ multiplex
TCOND = TEnt("MCond", F.MultiplexCondition, methods={
    "match": lambda it, a, kw: Sym(BOOL, matches(a[0].t, V.term(a[1], VAL)))})
matches = z3.Function("cond_matches", z3.DeclareSort("MCond"), V.VAL_S, z3.BoolSort())
mv_len = z3.Function("mv_len", z3.DeclareSort("MView"), z3.IntSort())
mv_at = z3.Function("mv_at", z3.DeclareSort("MView"), z3.IntSort(), V.VAL_S)


def mv_apply(it, args, kw):
    me, vals = args
    it.oblige("multiplex: the filter receives the whole row",
              seq_eq(it, vals, it.args.values))
    return it.alloc(VSeq([BaseP(mv_len(me.t), lambda i: Sym(VAL, mv_at(me.t, i)))]))


TMVIEW = TEnt("MView", F.FilterView, fields={"columns_out": TSTR},
              methods={"filter_view": mv_apply})


def mx_setup(it):
    me = it.alloc(VInst(F.FilterMultiplex, {
        "columns_in": it.make(TSTR, "cin"), "columns_out": it.make(TSTR, "cout"),
        "op": "multiplex", "column": it.make(STR, "column"),
        "column_index": it.make(INT, "ci"), "conditions": it.make(TSeq(TCOND, "tuple"), "conds"),
        "condition_filters": it.make(TSeq(TMVIEW, "tuple"), "cfs")}))
    return {"self": me, "values": it.make(TVAL, "values")}


def mx_req(it, a):
    ci = field(it, a.self, "column_index").t
    return {"index in range": And(ci >= 0, ci < slen(it, a.values)),
            "one filter per condition": slen(it, field(it, a.self, "conditions")) == slen(
                it, field(it, a.self, "condition_filters"))}


def mx_post(it, a, r):
    cs, fs = field(it, a.self, "conditions"), field(it, a.self, "condition_filters")
    v = at(it, a.values, field(it, a.self, "column_index").t).t
    first = lambda k: And(matches(at(it, cs, k).t, v), forall_int(
        it, lambda j: Not(matches(at(it, cs, j).t, v)), 0, k))
    out = lambda k: VSeq([BaseP(mv_len(at(it, fs, k).t),
                                lambda i: Sym(VAL, mv_at(at(it, fs, k).t, i)))])
    return {"the first matching condition's filter is applied": idx(
                it, lambda k: Implies(first(k), seq_eq(it, r, out(k))), cs),
            "unchanged when no condition matches": Implies(
                Not(exidx(it, lambda k: matches(at(it, cs, k).t, v), cs)),
                seq_eq(it, r, a.values))}


cond_view = z3.Function("cond_view", z3.DeclareSort("ACfg"), z3.DeclareSort("XView"))
TXVIEW = TEnt("XView", F.FilterView, fields={"columns_out": TSTR})


def acfg_construct(it, args, kw):
    it.oblige("multiplex: each filter is built for the row's columns",
              seq_eq(it, args[1], it.args.columns_in))
    return Sym(TXVIEW, cond_view(args[0].t))


TACFG = TEnt("ACfg", F.SingleFilterConfig, methods={"construct_filter": acfg_construct})
TMXC = TEnt("MxCond", F.MultiplexCondition, fields={"apply": TACFG})


def mi_setup(it):
    return {"self": it.alloc(VInst(F.FilterMultiplex, {})),
            "columns_in": it.make(TSTR, "columns_in"), "op": "multiplex",
            "column": it.make(STR, "column"),
            "conditions": it.alloc(it.make(TSeq(TMXC), "conditions"))}


def mi_view(it, a, k):
    c = at(it, a.conditions, k)
    return Sym(TXVIEW, cond_view(it.get_field(c, "apply").t))


def mi_post(it, a, r):
    ci = field(it, a.self, "column_index")
    cs, fs = field(it, a.self, "conditions"), field(it, a.self, "condition_filters")
    return {
        "tests the configured column": And(num(ci) >= 0, num(ci) < slen(it, a.columns_in), eq(
            it, at(it, a.columns_in, num(ci)), a.column)),
        "conditions kept in order": seq_eq(it, cs, a.conditions),
        "one filter per condition": slen(it, fs) == slen(it, a.conditions),
        "each condition has its own filter": idx(it, lambda k: at(it, fs, k).t == mi_view(
            it, a, k).t, a.conditions),
        "output columns are the input columns": seq_eq(
            it, field(it, a.self, "columns_out"), a.columns_in),
        "no filter changes the columns": idx(it, lambda k: seq_eq(
            it, it.get_field(at(it, fs, k), "columns_out"), a.columns_in), a.conditions)}


MI_RAISES = {ValueError: lambda it, a, e: {
    "only for a missing column or a filter that changes the columns": Or(
        Not(mem(it, a.columns_in, a.column)),
        exidx(it, lambda k: Not(seq_eq(it, it.get_field(mi_view(it, a, k), "columns_out"),
                                       a.columns_in)), a.conditions))}}


# ------------------------------------------------------------ condition operators
py_lt = z3.Function("py_lt", V.VAL_S, V.VAL_S, z3.BoolSort())
py_le = z3.Function("py_le", V.VAL_S, V.VAL_S, z3.BoolSort())
py_in = z3.Function("py_in", V.VAL_S, V.VAL_S, z3.BoolSort())
py_match = z3.Function("py_fnmatch", V.VAL_S, V.VAL_S, z3.BoolSort())
OPS = ("is", "is not", "in", "not in", "=", "!=", "<", ">", "<=", ">=", "matches")


def cell_compare(it, op, a, b):
    import ast
    x, y = a.t, b.t
    return {ast.Lt: py_lt(x, y), ast.Gt: py_lt(y, x), ast.LtE: py_le(x, y), ast.GtE: py_le(y, x),
            ast.Eq: x == y, ast.NotEq: x != y, ast.Is: x == y, ast.IsNot: x != y,
            ast.In: py_in(x, y), ast.NotIn: Not(py_in(x, y))}[type(op)]


TCELL = TEnt("Cell", None, methods={
    "__compare__": lambda it, op, a, b: Sym(BOOL, cell_compare(it, op, a, b)),
    "__contains__": lambda it, a, kw: Sym(BOOL, py_in(a[1].t, a[0].t))})
py_lt = z3.Function("py_lt", TCELL.sort, TCELL.sort, z3.BoolSort())
py_le = z3.Function("py_le", TCELL.sort, TCELL.sort, z3.BoolSort())
py_in = z3.Function("py_in", TCELL.sort, TCELL.sort, z3.BoolSort())
py_match = z3.Function("py_fnmatch", TCELL.sort, TCELL.sort, z3.BoolSort())


def match_contract(op):
    def setup(it):
        return {"self": it.alloc(VInst(F.MultiplexCondition, {
            "op": op, "value": it.make(TCELL, "cv")})), "value": it.make(TCELL, "value")}

    def post(it, a, r):
        x, y = a.value.t, field(it, a.self, "value").t
        want = {"is": x == y, "is not": x != y, "=": x == y, "!=": x != y, "in": py_in(x, y),
                "not in": Not(py_in(x, y)), "<": py_lt(x, y), ">": py_lt(y, x),
                "<=": py_le(x, y), ">=": py_le(y, x), "matches": py_match(x, y)}[op]
        return {f"condition {op!r} means {op!r}": to_z3b(it.truth(r)) == want}
    from fnmatch import fnmatch
    return Contract(f"subsetter.filters:MultiplexCondition.match#{op}", setup=setup, ensures=post,
                    models={fnmatch: lambda it, a, kw: Sym(BOOL, py_match(a[0].t, a[1].t))},
                    name=f"MultiplexCondition.match[{op}]")


# what each fake filter is named after: the provider of Faker its values come from
PROVIDERS = {
    "FilterFakeEmail": "email", "FilterFakeFirstName": "first_name",
    "FilterFakeLastName": "last_name", "FilterFakeName": "name",
    "FilterFakePhoneNumber": "phone_number", "FilterFakeVin": "vin",
    "FilterFakeAddress": "address", "FilterFakeBuildingNumber": "building_number",
    "FilterFakeCity": "city", "FilterFakeState": "state", "FilterFakeStateAbbr": "state_abbr",
    "FilterFakeCountry": "country", "FilterFakeCountryCode": "country_code",
    "FilterFakePostalCode": "postcode", "FilterFakeStreetAddress": "street_address",
    "FilterFakeStreetName": "street_name", "FilterFakeLatitude": "latitude",
    "FilterFakeLongitude": "longitude"}
FAKER_METHODS = sorted(n for n in dir(F.Faker()) if not n.startswith("_") and n != "unique")
provider = z3.Function("faker_provider", V.VAL_S, z3.IntSort())


def fake(n):
    def model(it, a, kw):
        v = it.fresh("fake", V.VAL_S)
        it.fact(provider(v) == FAKER_METHODS.index(n))
        return Sym(VAL, v)
    return model


TFAKER = TEnt("Faker", None, methods={n: fake(n) for n in FAKER_METHODS})
TFAKER.fields["unique"] = TFAKER
FAKES = sorted(n for n, c in vars(F).items() if n.startswith("FilterFake") and
               isinstance(c, type) and "filter_values" in vars(c) and n != "FilterFakeLicensePlate")


def fake_post(n):
    def post(it, a, r):
        d = same_len(it, a, r)
        if n in PROVIDERS:
            d["values of the kind it is named after"] = idx(it, lambda k: provider(V.term(
                at(it, r, k), VAL)) == FAKER_METHODS.index(PROVIDERS[n]), a.values)
        return d
    return post


# ------------------------------------------------------------ filters made from a configuration
ALPHABETS = {
    "alnum": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789",
    "hex": "0123456789abcdef", "hex_lower": "0123456789abcdef", "hex_upper": "0123456789ABCDEF",
    "digit": "0123456789", "alpha": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ",
    "alpha_lower": "abcdefghijklmnopqrstuvwxyz", "alpha_upper": "ABCDEFGHIJKLMNOPQRSTUVWXYZ"}


def built(cls, fields=None, same=(), post=None, raises=None, name=None, models=None):
    """Config.construct_filter makes this filter, for the configured columns and settings"""
    def setup(it):
        f = {"op": "op", "columns": it.make(TSeq(STR), "columns")}
        for k, ty in (fields or {}).items():
            f[k] = it.make(ty, k) if isinstance(ty, V.Ty) else ty
        ctx = it.alloc(VInst(F.FilterContext, {"random": it.make(TOpt(TRNG), "random"),
                                               "faker": it.make(TOpt(TFAKER), "faker")}))
        return {"self": it.alloc(VInst(cls.Config, f)), "columns_in": it.make(TSTR, "columns_in"),
                "filter_context": ctx}

    def ensures(it, a, r):
        if not isinstance(r, Ref) or it.content(r).cls is not cls:
            return {"a filter of its own kind": V.FALSE}
        d = {"for the configured columns in order": seq_eq(it, field(
                 it, r, "columns_act"), field(it, a.self, "columns")),
             "of the columns there are": seq_eq(it, field(it, r, "columns_in"), a.columns_in)}
        for k in same:
            d[f"configured {k}"] = eq(it, field(it, r, k), field(it, a.self, k))
        if post is not None:
            d.update(post(it, a, r))
        return d
    rs = {ValueError: lambda it, a, e: {"only for an empty, repeated or missing column": Or(
        bad_columns(it, a.columns_in, field(it, a.self, "columns")),
        *([raises(it, a)] if raises else []))}}
    q = name or cls.__qualname__
    return Contract(f"subsetter.filters:{q}.Config.construct_filter", setup=setup,
                    ensures=ensures, raises=rs, covers=("return", "ValueError"), models={
                        F.Random: lambda it, a, kw: it.make(TRNG, "new_random"),
                        F.Faker: lambda it, a, kw: it.make(TFAKER, "new_faker"),
                        **(models or {})})


def alphabet_setup(k):
    return built(F.FilterRandomString, {
        "length": INT, "alphabet": k, "custom_alphabet": TOpt(STR)}, ("length",),
        post=lambda it, a, r: {**shared(it, a, r), "the alphabet it is named after": same_alphabet(
            it, field(it, r, "alphabet"), ALPHABETS[k]) if k in ALPHABETS else eq(
                it, field(it, r, "alphabet"), field(it, a.self, "custom_alphabet"))},
        raises=lambda it, a: V.FALSE if k in ALPHABETS else Or(
            field(it, a.self, "custom_alphabet").isnone,
            field(it, a.self, "custom_alphabet").val.t == V.str_lit("")))


def same_alphabet(it, v, want):
    if isinstance(v, str):
        return z3.BoolVal(sorted(v) == sorted(want))
    return eq(it, v, want)


def string_contract(k):
    c = alphabet_setup(k)
    c.name = f"FilterRandomString.Config.construct_filter[{k}]"
    c.target += "#" + k
    return c


def shared(it, a, r):
    """draws from the shared generator when there is one"""
    g = field(it, a.filter_context, "random")
    return {"the generator given": Implies(Not(g.isnone), eq(it, field(it, r, "rng"), g)),
            "a generator in any case": there(field(it, r, "rng"))}


def there(v):
    return Not(v.isnone) if hasattr(v, "isnone") else z3.BoolVal(v is not None)


def fake_built(it, a, r):
    g = field(it, a.filter_context, "faker")
    return {"the generator given": Implies(Not(g.isnone), eq(it, field(it, r, "faker"), z3_unique(
        it, a, g))), "a generator in any case": there(field(it, r, "faker"))}


def z3_unique(it, a, g):
    u = V.term(field(it, a.self, "unique"), BOOL)
    return Sym(TFAKER, z3.If(u, it.getattr(g.val, "unique").t, g.val.t))


BUILT = [
    built(F.FilterZero), built(F.FilterOmit), built(F.FilterNull), built(F.FilterUuid),
    built(F.FilterRandomInt, {"low": INT, "high": INT}, ("low", "high"), shared),
    built(F.FilterRandomFloat, {"low": REAL, "high": REAL}, ("low", "high"), shared),
    built(F.FilterConstant, {"values": TSeq(VAL)}, (), lambda it, a, r: {
        "configured values in order": seq_eq(it, field(it, r, "values"), field(
            it, a.self, "values"))}, lambda it, a: slen(it, field(
                it, a.self, "values")) != slen(it, field(it, a.self, "columns"))),
] + [string_contract(k) for k in [*ALPHABETS, "custom"]] + [
    built(getattr(F, n), {"unique": BOOL}, (), fake_built, name=n) for n in FAKES]


def picks(it, a, kw):
    """random.choices: k single characters of the alphabet"""
    r = it.make(TSeq(STR), "choices")
    it.oblige("characters of the configured alphabet", eq(it, a[1], field(
        it, it.args.self, "alphabet")))
    it.oblige("as many as configured", eq(it, kw.get("k", 1), field(it, it.args.self, "length")))
    return r


def string_post(it, a, r):
    # looking at the values is what draws them, with the obligations of picks
    return {**same_len(it, a, r), "every value is drawn": idx(it, lambda k: z3.BoolVal(
        at(it, r, k) is not None), a.values)}


def any_text(it, a, kw):
    from pydv import models
    if len(a) == 1 and isinstance(a[0], Sym) and a[0].ty is VAL:
        return Sym(STR, it.fresh("text", V.STR_S))
    return models.m_str(it, a, kw)


# ------------------------------------------------------------ filters are checked when loaded
THE = lambda ty, n: Sym(ty, z3.Const(n, ty.sort))
wrong_filters = z3.Function("wrong_filters", V.STR_S, z3.BoolSort())
TFLT = TEnt("FilterConfig6", None)
TCHECKED = TEnt("CheckedTable", None, fields={"table_obj": TEnt("CheckedTableObj", None, fields={
    "columns": TSeq(TEnt("CheckedColumn", None, fields={"name": STR}))})})
TCHECKCONF = TEnt("CheckedConfig", None, fields={"filters": TDict(STR, TSeq(TFLT))})


def vf_setup(it):
    meta = it.alloc(VInst(MD.DatabaseMetadata, {"tables": it.alloc(it.make(
        TDict(M.KEY, TCHECKED), "tables"))}))
    conf = it.make(TCHECKCONF, "config")
    fs = it.getattr(conf, "filters")
    it._addfacts([forall_ty(it, STR, lambda t: slen(it, it.dict_get(it._cont(fs), t)) >= 0)])
    return {"self": it.alloc(VInst(SA.Sampler, {"config": conf})), "meta": meta}


def vf_parts(it, a, t):
    """filters of table t, whether it is a table of the source, its metadata"""
    fs = it.getattr(field(it, a.self, "config"), "filters")
    k = VTup([Sym(STR, M.LEFT(t.t)), Sym(STR, M.RIGHT(t.t))])
    ts = field(it, a.meta, "tables")
    return it.dict_get(it._cont(fs), t), mem(it, ts, k), it.dict_get(it._cont(ts), k)


def vf_construct(it, a, kw):
    """the chain of a table's filters: refused when one of them does not fit the columns"""
    if kw or len(a) != 3:
        raise Unsupported("construct_filter")
    t = it.lookup("table")
    f, known, tm = vf_parts(it, it.args, t)
    cols = it.getattr(it.getattr(tm, "table_obj"), "columns")
    it.oblige("only of a table that exists", known)
    it.oblige("all filters of the table", seq_eq(it, a[2], f))
    it.oblige("for the columns of the table", And(slen(it, a[1]) == slen(it, cols), idx(
        it, lambda j: eq(it, at(it, a[1], j), it.getattr(at(it, cols, j), "name")), cols)))
    if it.decide(And(slen(it, f) > 0, wrong_filters(t.t))):
        raise PyRaise(Exc(ValueError, ("filters",)))
    return it.make(TVIEW, "chain")


def vf_wrong(it, a, t):
    f, known, _ = vf_parts(it, a, t)
    return And(slen(it, f) > 0, Or(Not(M.hasdot(t.t)), And(known, wrong_filters(t.t))))


def vf_refused(it, a, e):
    """a table's filters do not fit, or the table is not named with its schema"""
    fs = it.getattr(field(it, a.self, "config"), "filters")

    def bad(t):
        return And(mem(it, fs, t), Or(Not(M.hasdot(t.t)), vf_wrong(it, a, t)))
    return {"only for filters that do not fit": exists_ty(it, STR, bad)}


VALIDATE_FILTERS = Contract(
    "subsetter.sampler:Sampler._validate_filters", setup=vf_setup,
    ensures=lambda it, a, r: {"every filter of every table fits": forall_ty(
        it, STR, lambda t: Implies(mem(it, it.getattr(field(it, a.self, "config"), "filters"), t),
                                   Not(vf_wrong(it, a, t))))},
    raises={ValueError: vf_refused},
    covers=("return", "ValueError"),
    models={F.FilterViewChain.construct_filter.__func__: vf_construct, **M.NAME_MODELS},
    loops={0: LoopSpec(name="tables", done="keys", types={
        "schema": STR, "table_name": STR, "tbl": TOpt(TCHECKED)}, inv=lambda it, old, D: {
        "fits so far": forall_ty(it, STR, lambda t: Implies(it.set_mem(D, t), Not(vf_wrong(
            it, it.args, t))))})})

# ------------------------------------------------------------ filters made of other things


def mc_setup(it):
    ctx = it.alloc(VInst(F.FilterContext, {"random": it.make(TOpt(TRNG), "random"),
                                           "faker": it.make(TOpt(TFAKER), "faker")}))
    return {"self": it.alloc(VInst(F.FilterMultiplex.Config, {
                "op": "multiplex", "column": it.make(STR, "column"),
                "conditions": it.alloc(it.make(TSeq(TMXC), "conditions"))})),
            "columns_in": it.make(TSTR, "columns_in"), "filter_context": ctx}


def mc_args(it, a):
    class A:
        columns_in, self = a.columns_in, a.self
        column, conditions = field(it, a.self, "column"), field(it, a.self, "conditions")
    return A


def mc_post(it, a, r):
    x = mc_args(it, a)
    x.self = r
    return mi_post(it, x, None)


MULTIPLEX_BUILT = Contract(
    "subsetter.filters:FilterMultiplex.Config.construct_filter", setup=mc_setup, ensures=mc_post,
    raises={ValueError: lambda it, a, e: MI_RAISES[ValueError](it, mc_args(it, a), e)},
    covers=("return", "ValueError"))

TMODULE = TEnt("PluginModule", None)
TPLUGIN = TEnt("Plugin", None)
TPKW = TEnt("PluginKwargs", None)
module_of = z3.Function("module_of", V.STR_S, TMODULE.sort)
fails = {n: z3.Bool(f"plugin_{n}") for n in ("import", "attribute", "make", "interrupt")}


def import_plugin(it, a, kw):
    if kw or len(a) != 1:
        raise Unsupported("import_module")
    if it.decide(fails["import"]):
        raise PyRaise(Exc(ImportError, ("no module",)))
    return Sym(TMODULE, module_of(V.term(a[0], STR)))


def plugin_class(it, a, kw):
    if len(a) != 2 or not (isinstance(a[0], Sym) and a[0].ty is TMODULE):
        from pydv import models
        return models.m_getattr(it, a, kw)
    if it.decide(fails["attribute"]):
        raise PyRaise(Exc(AttributeError, ("no attribute",)))
    cfg = it.args.self
    it.oblige("the configured class of the configured module", And(
        eq(it, a[1], field(it, cfg, "clazz")),
        a[0].t == module_of(V.term(field(it, cfg, "module"), STR))))
    return THE(TPCLASS, "plugin_class")


def plugin_made(it, a, kw):
    if len(a) != 1 or set(kw) != {"**"}:
        it.oblige("made with the configured arguments only", V.FALSE)
        raise Unsupported("arguments of a plugin")
    it.oblige("made with the configured arguments", kw["**"].t == field(
        it, it.args.self, "kwargs").t if isinstance(kw["**"], Sym) else V.FALSE)
    if it.decide(fails["interrupt"]):
        raise PyRaise(Exc(KeyboardInterrupt, ()))
    if it.decide(fails["make"]):
        raise PyRaise(Exc(BaseException, ("anything",)))
    return THE(TPLUGIN, "the_plugin")


TPCLASS = TEnt("PluginClass", None, methods={"__call__": plugin_made})


def plugin_setup(it):
    return {"self": it.alloc(VInst(F.FilterPlugin.Config, {
                "op": "plugin", "columns": it.make(TSeq(STR), "columns"),
                "module": it.make(STR, "module"), "clazz": it.make(STR, "class"),
                "kwargs": it.make(TPKW, "kwargs")})),
            "columns_in": it.make(TSTR, "columns_in")}


PLUGIN_BUILT = Contract(
    "subsetter.filters:FilterPlugin.Config.construct_filter", setup=plugin_setup,
    ensures=lambda it, a, r: {
        "for the configured columns in order": seq_eq(it, field(
            it, r, "columns_act"), field(it, a.self, "columns")),
        "of the columns there are": seq_eq(it, field(it, r, "columns_in"), a.columns_in),
        "the plugin of the configuration": eq(it, field(it, r, "plugin"), THE(
            TPLUGIN, "the_plugin"))},
    raises={ValueError: lambda it, a, e: {"only for a plugin that cannot be made or bad columns": Or(
        fails["import"], fails["attribute"], fails["make"], bad_columns(it, a.columns_in, field(
            it, a.self, "columns")))},
        KeyboardInterrupt: lambda it, a, e: {"only when interrupted": fails["interrupt"]}},
    covers=("return", "ValueError"), models={F.import_module: import_plugin, getattr: plugin_class})

own_values = z3.Function("plugin_value", z3.IntSort(), V.VAL_S)


def plugin_call(it, a, kw):
    if kw or len(a) != 2:
        raise Unsupported("call of a plugin")
    it.oblige("the plugin gets the values of its columns", seq_eq(it, a[1], it.args.values))
    n = slen(it, a[1])
    return VSeq([BaseP(n, lambda i: Sym(VAL, own_values(i)))])


PLUGIN_VALUES = own(
    F.FilterPlugin, lambda it, a, r: {**same_len(it, a, r), "the plugin's values, in order": idx(
        it, lambda k: eq(it, at(it, r, k), Sym(VAL, own_values(k))), a.values)},
    {"plugin": TEnt("CallablePlugin", None, methods={"__call__": plugin_call})})

TRNGS = TEnt("RngS", None, methods={"choices": picks})

CONTRACTS = [
    VALIDATE,
    Contract("subsetter.filters:FilterColumns.__init__", setup=ctor_params(F.FilterColumns),
             ensures=columns_ctor_post, raises=CTOR_RAISES, covers=("return", "ValueError")),
    Contract("subsetter.filters:FilterColumns.filter_view", setup=fc_setup, requires=fc_requires,
             ensures=fc_ensures, models={(F.FilterColumns, "filter_values"): fv_model}),
    own(F.FilterZero, zero_post, raises={ValueError: lambda it, a, e: {
        "only for a value of unknown type": exidx(it, lambda k: Not(Or(
            at(it, a.values, k).t == V.Val_none, V.Val_isstr(at(it, a.values, k).t),
            V.Val_isint(at(it, a.values, k).t), V.Val_isfloat(at(it, a.values, k).t),
            V.Val_isdt(at(it, a.values, k).t))), a.values)}},
        models={("attr", id(F.EPOCH), "replace"): Native(epoch_replace), ("valattr", "tzinfo"):
                lambda it, v: Sym(VAL, z3.Function("tzinfo", V.VAL_S, V.VAL_S)(v.t))}),
    own(F.FilterNull, lambda it, a, r: {**same_len(it, a, r), "all null": idx(
        it, lambda k: eq(it, at(it, r, k), None), a.values)}),
    own(F.FilterRandomInt, rng_post, {"rng": TRNGI, "low": INT, "high": INT}),
    own(F.FilterRandomFloat, rng_post, {"rng": TRNGI, "low": REAL, "high": REAL}),
    own(F.FilterRandomString, string_post, {"rng": TRNGS, "length": INT, "alphabet": STR}),
    own(F.FilterUuid, same_len, models={F.uuid4: lambda it, a, kw: Sym(VAL, it.fresh(
        "uuid", V.VAL_S)), str: any_text}),
    own(F.FilterConstant, lambda it, a, r: {"the configured values": seq_eq(
        it, r, field(it, a.self, "values"))}, {"values": TVAL}),
    Contract("subsetter.filters:FilterConstant.__init__", setup=ctor_params(
        F.FilterConstant, values=TVAL), ensures=lambda it, a, r: {
            **columns_ctor_post(it, a, r),
            "one value per column": slen(it, field(it, a.self, "values")) == slen(
                it, a.columns_act),
            "configured values in order": seq_eq(it, field(it, a.self, "values"), a.values)},
        raises={ValueError: lambda it, a, e: {"only for bad columns or a wrong number of values":
                Or(bad_columns(it, a.columns_in, a.columns_act),
                   slen(it, a.values) != slen(it, a.columns_act))}},
        covers=("return", "ValueError")),
    Contract("subsetter.filters:FilterOmit.__init__", setup=omit_setup,
             requires=lambda it, a: {"column names are distinct": distinct(it, a.columns_in)},
             ensures=omit_post, raises=CTOR_RAISES, covers=("return", "ValueError")),
    Contract("subsetter.filters:FilterOmit.filter_view", setup=omitv_setup, requires=omitv_req,
             ensures=omitv_post),
    Contract("subsetter.filters:FilterViewChain.filter_view", setup=chain_setup,
             requires=chain_req, ensures=chain_post, loops=CHAIN_LOOP),
    Contract("subsetter.filters:FilterViewChain.construct_filter", setup=cc_setup, requires=cc_req,
             ensures=cc_post, loops=CC_LOOP),
    Contract("subsetter.filters:FilterMultiplex.filter_view", setup=mx_setup, requires=mx_req,
             ensures=mx_post),
    Contract("subsetter.filters:FilterMultiplex.__init__", setup=mi_setup, ensures=mi_post,
             raises=MI_RAISES, covers=("return", "ValueError")),
    VALIDATE_FILTERS, MULTIPLEX_BUILT, PLUGIN_BUILT, PLUGIN_VALUES,
] + BUILT + [own(getattr(F, n), fake_post(n), {"faker": TFAKER}, target=f"subsetter.filters:{n}.filter_values")
     for n in FAKES] + [match_contract(op) for op in OPS]
AXIOMS = [M.name_axioms]
ASSUMPTIONS = [
    "Faker's providers return values of their kind; random.choices, randint and uniform draw from "
    "the characters or the range they are given",
    "a plugin returns one value for each column it acts on",
    "configurations hold what pydantic validated them to be",
]
TRUSTED = ["Faker", "random.Random", "uuid.uuid4", "fnmatch.fnmatch", "datetime.replace"]
