"""C13: the relationships used for planning."""
import sqlalchemy as sa

from contracts.lib import *
from contracts.meta import (KEY, LEFT, RIGHT, DOT, PARSE, NAME_MODELS, name_axioms, hasdot, nodot,
                            key_name)
from pydv import models as M
from subsetter import metadata as MD
from subsetter import planner as PL
from subsetter import config_model as CF


class TNames(TEnt):
    """a tuple of column names, as a value; one-element tuples are made of their element"""

    def coerce_term(self, v):
        items = v.items if isinstance(v, VTup) else v if isinstance(v, tuple) else None
        if items is None and isinstance(v, VSeq):
            items = V.all_elems(v.pieces)
        if items is not None and len(items) == 1:
            return alone(V.term(items[0], STR))
        return None


TNAMES = TNames("Names", None, truth=lambda it, v: num_names(v.t) > 0)
alone = z3.Function("names_of_one", V.STR_S, TNAMES.sort)
sole = z3.Function("the_one_name", TNAMES.sort, V.STR_S)
num_names = z3.Function("number_of_names", TNAMES.sort, z3.IntSort())
TNLIST = TEnt("NameList", None, fields={"items": TSeq(STR)})
TNLIST.iter_ = lambda it, v: it._cont(it.getattr(v, "items"))
names_of = z3.Function("names_of_list", TNLIST.sort, TNAMES.sort)

# a foreign key is the value of its four parts
TFK = TEnt("FKey", MD.ForeignKey)
mkfk = z3.Function("mkfk", TNAMES.sort, V.STR_S, V.STR_S, TNAMES.sort, TFK.sort)
fk_cols = z3.Function("fk_columns", TFK.sort, TNAMES.sort)
fk_schema = z3.Function("fk_schema", TFK.sort, V.STR_S)
fk_table = z3.Function("fk_table", TFK.sort, V.STR_S)
fk_dcols = z3.Function("fk_dst_columns", TFK.sort, TNAMES.sort)
TFK.fields.update({
    "columns": lambda it, v: Sym(TNAMES, fk_cols(v.t)),
    "dst_schema": lambda it, v: Sym(STR, fk_schema(v.t)),
    "dst_table": lambda it, v: Sym(STR, fk_table(v.t)),
    "dst_columns": lambda it, v: Sym(TNAMES, fk_dcols(v.t))})


def value_axioms():
    s = z3.Const("va_s", V.STR_S)
    m, n = z3.Const("va_m", TNAMES.sort), z3.Const("va_n", TNAMES.sort)
    a, b = z3.Const("va_a", V.STR_S), z3.Const("va_b", V.STR_S)
    f = z3.Const("va_f", TFK.sort)
    k = mkfk(m, a, b, n)
    return [
        z3.ForAll([s], z3.And(sole(alone(s)) == s, num_names(alone(s)) == 1),
                  patterns=[alone(s)]),
        z3.ForAll([m, a, b, n], z3.And(fk_cols(k) == m, fk_schema(k) == a, fk_table(k) == b,
                                       fk_dcols(k) == n), patterns=[k]),
        z3.ForAll([f], mkfk(fk_cols(f), fk_schema(f), fk_table(f), fk_dcols(f)) == f,
                  patterns=[fk_cols(f)]),
    ]


def new_fk(it, a, kw):
    ns = ["columns", "dst_schema", "dst_table", "dst_columns"]
    d = {**dict(zip(ns, a)), **kw}
    if set(d) != set(ns):
        raise Unsupported("ForeignKey")
    return Sym(TFK, mkfk(*[V.term(it.freeze(d[n]), ty) for n, ty in zip(
        ns, (TNAMES, STR, STR, TNAMES))]))


def tuple_of(it, a, kw):
    if a and isinstance(a[0], Sym) and a[0].ty is TNLIST:
        return Sym(TNAMES, names_of(a[0].t))
    return M.builtin_models()[tuple](it, a, kw)


TCOL = TEnt("Column13", sa.Column, fields={"name": STR})
TCOLS = TEnt("Columns13", None, fields={"list": TSeq(TCOL)})
TCOLS.iter_ = lambda it, v: it._cont(it.getattr(v, "list"))
TOBJ = TEnt("Table13", sa.Table, fields={"columns": TCOLS, "c": TCOLS})
TTABLE = TEnt("TableMeta13", MD.TableMetadata, fields={
    "schema": STR, "name": STR, "primary_key": TNAMES, "table_obj": TOBJ,
    "foreign_keys": TSeq(TFK), "rev_foreign_keys": TSeq(TFK)},
    mutable=("foreign_keys", "rev_foreign_keys"))
TTABLES = TDict(KEY, TTABLE)
KEYS_OF = TDict(TTABLE, TSeq(TFK))


def has_col(it, t, c):
    cols = it.getattr(it.getattr(it.getattr(t, "table_obj"), "columns"), "list")
    return exidx(it, lambda j: it.getattr(at(it, cols, j), "name").t == c, cols)


def cols_contain(it, a, kw):
    cols = it.getattr(a[0], "list")
    return Sym(BOOL, exidx(it, lambda j: eq(it, it.getattr(at(it, cols, j), "name"), a[1]), cols))


TCOLS.methods["__contains__"] = cols_contain


def make_meta(it):
    it.setup_fieldmap(TTABLE, "foreign_keys")
    it.setup_fieldmap(TTABLE, "rev_foreign_keys")
    return it.alloc(VInst(MD.DatabaseMetadata, {"tables": it.alloc(it.make(TTABLES, "tables"))}))


def tables(it, a):
    m = a.self if it.content(a.self).cls is MD.DatabaseMetadata else field(it, a.self, "meta")
    return field(it, m, "tables")


def tab(it, a, k):
    return it.dict_get(it._cont(tables(it, a)), k)


def each_table(it, a, fn):
    return forall_ty(it, KEY, lambda k: Implies(mem(it, tables(it, a), k), to_z3b(fn(k, tab(
        it, a, k)))))


def some_table(it, a, fn):
    return exists_ty(it, KEY, lambda k: And(mem(it, tables(it, a), k), to_z3b(fn(k, tab(
        it, a, k)))))


def inv(it, a):
    return {"tables are keyed by their schema and name": each_table(it, a, lambda k, t: And(
        eq(it, it.getattr(t, "schema"), k.items[0]), eq(it, it.getattr(t, "name"), k.items[1]),
        nodot(k.items[0].t)))}


def keys_now(it, t, name="foreign_keys"):
    return it.freeze(it.getattr(t, name))


def keys_before(it, t, name="foreign_keys"):
    return old(it, lambda: keys_now(it, t, name))


def dst(f):
    return VTup([Sym(STR, fk_schema(f)), Sym(STR, fk_table(f))])


def f_at(it, s, i):
    return at(it, s, i).t


def distinct(it, s):
    return idx(it, lambda j: forall_int(it, lambda i: f_at(it, s, i) != f_at(
        it, s, j), 0, j), s)


def member(it, s, f):
    return mem(it, s, Sym(TFK, f))


def forall_fk(it, fn):
    return forall_ty(it, TFK, lambda f: fn(f.t))


# ------------------------------------------------------------ reverse relationships
def meta_setup(it):
    return {"self": make_meta(it)}


def mirror(t, f):
    """the key f of table t seen from the table it refers to"""
    k, tt = t
    return mkfk(fk_dcols(f), V.term(k.items[0], STR), V.term(k.items[1], STR), fk_cols(f))


def from_tables(it, a, among, d, f):
    """f mirrors a key, of a table in among, that refers to table d"""
    return some_table(it, a, lambda k, t: And(among(k), mirrors(it, k, t, d, f)))


def mirrors(it, k, t, d, f, upto=None):
    ks = keys_now(it, t)
    n = slen(it, ks) if upto is None else upto
    return exists_int(it, lambda j: And(eq(it, dst(f_at(it, ks, j)), d), f == mirror(
        (k, t), f_at(it, ks, j))), 0, n)


RK = "rev_foreign_keys"


def rev_is(it, a, sel):
    return {
        "every reverse key mirrors a key": each_table(it, a, lambda d, t: forall_fk(
            it, lambda f: Implies(member(it, keys_now(it, t, RK), f), sel(d, f)))),
        "every key is mirrored": each_table(it, a, lambda d, t: forall_fk(
            it, lambda f: Implies(sel(d, f), member(it, keys_now(it, t, RK), f)))),
        "each key mirrored once": Implies(each_table(it, a, lambda d, t: distinct(
            it, keys_now(it, t))), each_table(it, a, lambda d, t: distinct(
                it, keys_now(it, t, RK)))),
    }


def rev_tables_inv(it, old_st, D):
    it.ghost["rev_done"] = D
    return rev_is(it, it.args, lambda d, f: from_tables(
        it, it.args, lambda k: it.set_mem(D, k), d, f))


def rev_keys_inv(it, old_st, i):
    D, t = it.ghost["rev_done"], it.lookup("table")
    k = VTup([it.getattr(t, "schema"), it.getattr(t, "name")])
    return rev_is(it, it.args, lambda d, f: Or(from_tables(
        it, it.args, lambda k: it.set_mem(D, k), d, f), mirrors(it, k, t, d, f, i.t)))


def rev_modified(it, a):
    return [(it.fieldmap(TTABLE, RK), KEYS_OF)]


def rev_requires(it, a):
    return {**inv(it, a), "no reverse keys yet": each_table(it, a, lambda k, t: slen(
        it, keys_now(it, t, RK)) == 0)}


REV_CELL = {(lambda it: it.fieldmap(TTABLE, RK)): KEYS_OF}
REV = Contract("subsetter.metadata:DatabaseMetadata.compute_reverse_keys", setup=meta_setup,
               requires=rev_requires, modular=True, modifies=rev_modified,
               ensures=lambda it, a, r: rev_is(it, a, lambda d, f: from_tables(
                   it, a, lambda k: V.TRUE, d, f)),
               loops={0: LoopSpec(name="tables", done="set", key=KEY, types={"table": TTABLE},
                                  cells=REV_CELL, inv=rev_tables_inv),
                      1: LoopSpec(name="keys", done="index", types={"fk": TFK}, cells=REV_CELL,
                                  inv=rev_keys_inv)})

# ------------------------------------------------------------ ignored and passthrough tables
TKEYSET = TSet(KEY)


def planner_setup(it):
    return {"self": it.alloc(VInst(PL.Planner, {
        "meta": make_meta(it), "ignore_tables": it.alloc(it.make(TKEYSET, "ignore")),
        "passthrough_tables": it.alloc(it.make(TKEYSET, "passthrough")),
        "config": it.make(TCONF, "config")}))}


TIGN = TEnt("IgnoreFK", CF.PlannerConfig.IgnoreFKConfig, fields={"src_table": STR, "dst_table": STR})
TTARGET = TEnt("TargetConf", None)
TEXTRA = TEnt("ExtraFK", CF.PlannerConfig.ExtraFKConfig, fields={
    "src_table": STR, "dst_table": STR, "src_columns": TNLIST, "dst_columns": TNLIST})
TCONF = TEnt("PlannerConf", None, fields={
    "ignore_fks": TSeq(TIGN), "extra_fks": TSeq(TEXTRA), "infer_foreign_keys": STR,
    "include_dependencies": BOOL, "targets": TDict(STR, TTARGET)})


def pset(it, a, name):
    return field(it, a.self, name)


def into_ignored(it, a):
    """a key from a table that is processed into one that is ignored"""
    ig = pset(it, a, "ignore_tables")
    return some_table(it, a, lambda k, t: And(Not(mem(it, ig, k)), exidx(
        it, lambda j: mem(it, ig, dst(f_at(it, keys_now(it, t), j))), keys_now(it, t))))


CHECK_IGNORE = Contract(
    "subsetter.planner:Planner._check_ignore_tables", setup=planner_setup, requires=inv,
    modular=True,
    ensures=lambda it, a, r: {"no key into an ignored table": Not(into_ignored(it, a))},
    raises={ValueError: lambda it, a, e: {"some key into an ignored table": into_ignored(it, a)}},
    covers=("return", "ValueError"))


def out_of_passthrough(it, a, was):
    return some_table(it, a, lambda k, t: And(was(k), exidx(it, lambda j: Not(was(dst(f_at(
        it, keys_now(it, t), j)))), keys_now(it, t))))


def was_through(it, a):
    s = old(it, lambda: it.freeze(pset(it, a, "passthrough_tables")))
    return lambda k: it.set_mem(s, k)


def pass_post(it, a, r):
    was = was_through(it, a)
    return {
        "no key out of the passthrough tables": Not(out_of_passthrough(it, a, was)),
        "passthrough tables that exist remain, no others": forall_ty(it, KEY, lambda k: mem(
            it, pset(it, a, "passthrough_tables"), k) == And(was(k), mem(it, tables(it, a), k))),
    }


CHECK_PASS = Contract(
    "subsetter.planner:Planner._check_passthrough_tables", setup=planner_setup, requires=inv,
    modular=True, modifies=lambda it, a: [(pset(it, a, "passthrough_tables"), TKEYSET)],
    ensures=pass_post, covers=("return", "ValueError"),
    raises={ValueError: lambda it, a, e: {
        "some key out of the passthrough tables": out_of_passthrough(it, a, was_through(it, a))}})


# ------------------------------------------------------------ inferred keys
def not_empty(it, t):
    return num_names(it.getattr(t, "primary_key").t) > 0


def near(it, a, k, d):
    """tables in whose primary key a column may be recognised"""
    return Or(wide(it, a), eq(it, k.items[0], d.items[0]))


def inferring(it, a):
    """whether keys are inferred: as told, or as the planner's configuration tells"""
    return V.TRUE if not is_planner(it, a) else Not(eq(it, conf(
        it, a, "infer_foreign_keys"), "none"))


def is_planner(it, a):
    return it.content(a.self).cls is PL.Planner


def candidate(it, a, k, d, c, among=None):
    return And(among(d) if among else mem(it, tables(it, a), d), near(it, a, k, d),
               it.getattr(tab(it, a, d), "primary_key").t == alone(c))


def only_candidate(it, a, k, d, c):
    return And(candidate(it, a, k, d, c), forall_ty(it, KEY, lambda e: Implies(candidate(
        it, a, k, e, c), eq(it, e, d))))


def inferred_from(it, a, k, c, f):
    """f is the key that column c of table k gets, other than to itself"""
    return exists_ty(it, KEY, lambda d: And(only_candidate(it, a, k, d, c), Not(eq(it, d, k)),
                                            f == mkfk(alone(c), d.items[0].t, d.items[1].t,
                                                      alone(c))))


def wide(it, a):
    """whether a column may be recognised in any schema"""
    if is_planner(it, a):
        return eq(it, conf(it, a, "infer_foreign_keys"), "all")
    return V.term(a.infer_all, BOOL)


def whole(fn):
    """A predicate of a table and a key.  Where the steps of planning are put together it is an
    arbitrary predicate (it reads nothing that planning changes), so the proof there holds for
    the one defined here; in infer_missing_foreign_keys it is a symbol with this definition."""
    atom = z3.Function("whole_" + fn.__name__, V.STR_S, V.STR_S, TFK.sort, z3.BoolSort(),
                       z3.BoolSort())

    def app(it, a, k, f):
        return atom(V.term(k.items[0], STR), V.term(k.items[1], STR), f, wide(
            it, a) if fn.__name__ == "inferred" else V.TRUE)

    def pred(it, a, k, f, upto=None):
        if upto is None and (it.current is PLAN or "infer_all" in it.ghost):
            return app(it, a, k, f)
        return fn(it, a, k, f, upto)
    pred.definition = lambda it, a: forall_ty(it, KEY, lambda k: forall_fk(
        it, lambda f: app(it, a, k, f) == fn(it, a, k, f)))
    return pred


@whole
def inferred(it, a, k, f, upto=None):
    cols = columns(it, tab(it, a, k))
    n = slen(it, cols) if upto is None else upto
    return exists_int(it, lambda j: inferred_from(it, a, k, it.getattr(at(
        it, cols, j), "name").t, f), 0, n)


def columns(it, t):
    return it.getattr(it.getattr(it.getattr(t, "table_obj"), "columns"), "list")


def names_once(it, t):
    cols = columns(it, t)
    return idx(it, lambda j: forall_int(it, lambda i: Not(eq(it, it.getattr(at(
        it, cols, i), "name"), it.getattr(at(it, cols, j), "name"))), 0, j), cols)


def with_inferred(it, a, k, t, extra):
    """the keys of t are those before and those in extra; none twice unless before"""
    return {
        "every key was there or is inferred": forall_fk(it, lambda f: Implies(member(
            it, keys_now(it, t), f), Or(member(it, keys_before(it, t), f), extra(f)))),
        "every key remains": forall_fk(it, lambda f: Implies(member(
            it, keys_before(it, t), f), member(it, keys_now(it, t), f))),
        "every inferred key is there": forall_fk(it, lambda f: Implies(extra(f), member(
            it, keys_now(it, t), f))),
        "no key is duplicated": Implies(distinct(it, keys_before(it, t)), distinct(
            it, keys_now(it, t))),
    }


def keeps(it, t):
    """the keys before stay in front"""
    x, y = keys_before(it, t), keys_now(it, t)
    return And(slen(it, x) <= slen(it, y), idx(it, lambda j: f_at(it, x, j) == f_at(
        it, y, j), x))


def during(it, a, k, t, extra):
    """what with_inferred says, as it is kept by the loops"""
    d = with_inferred(it, a, k, t, extra)
    d["every key remains"] = keeps(it, t)
    return d


def per_table(it, a, fn, only=None):
    out = {}
    for nm in with_inferred(it, a, *_any_table(it, a), lambda f: V.TRUE):
        out[nm] = each_table(it, a, lambda k, t: Implies(only(k) if only else V.TRUE, fn(
            k, t)[nm]))
    return out


def _any_table(it, a):
    k = it.make(KEY, "anykey")
    return k, tab(it, a, k)


def infer_post(it, a, r):
    return per_table(it, a, lambda k, t: with_inferred(it, a, k, t, lambda f: inferred(
        it, a, k, f)))


def map_key(it, a, k, t):
    """how the map of primary keys is keyed"""
    pk = it.getattr(t, "primary_key")
    return pk if it.ghost["infer_all"] else VTup([k.items[0], pk])


def map_type(it):
    return TNAMES if it.ghost["infer_all"] else TTup(STR, TNAMES)


def pk_inv(it, old_st, D):
    a, m = it.args, it.lookup("pk_map")
    if empty_dict(it, m):
        return {"empty": V.TRUE}

    def val(k, t):
        return it.dict_get(it._cont(m), map_key(it, a, k, t))

    def same(k, t, d, u):
        return And(not_empty(it, u), eq(it, map_key(it, a, k, t), map_key(it, a, d, u)))

    def done(fn):
        return each_table(it, a, lambda k, t: Implies(it.set_mem(D, k), to_z3b(fn(k, t))))
    return {
        "the key of every table is known": done(lambda k, t: Implies(not_empty(it, t), mem(
            it, m, map_key(it, a, k, t)))),
        "known keys are of tables": forall_ty(it, map_type(it), lambda K: Implies(mem(
            it, m, K), some_table(it, a, lambda k, t: And(it.set_mem(D, k), not_empty(
                it, t), eq(it, map_key(it, a, k, t), K))))),
        "several tables of a key": done(lambda k, t: done(lambda d, u: Implies(
            And(not_empty(it, t), same(k, t, d, u), Not(eq(it, k, d))), val(k, t).isnone))),
        "no table of a key only for several": done(lambda k, t: Implies(
            And(not_empty(it, t), val(k, t).isnone), some_table(it, a, lambda d, u: And(
                it.set_mem(D, d), same(k, t, d, u), Not(eq(it, d, k)))))),
        "the table of a key": done(lambda k, t: Implies(
            And(not_empty(it, t), Not(val(k, t).isnone)), eq(it, val(k, t).val, t))),
    }


def infer_tables_inv(it, old_st, D):
    a = it.args
    it.ghost["done_tables"] = D
    return {**per_table(it, a, lambda k, t: during(it, a, k, t, lambda f: inferred(
        it, a, k, f)), lambda k: it.set_mem(D, k)), **rest_unchanged(it, a, lambda k: Not(
            it.set_mem(D, k)))}


def rest_unchanged(it, a, other):
    return {"keys of other tables unchanged": each_table(it, a, lambda k, t: Implies(
        other(k), same_keys(it, t)))}


def same_keys(it, t):
    x, y = keys_before(it, t), keys_now(it, t)
    return And(slen(it, x) == slen(it, y), idx(it, lambda j: f_at(it, x, j) == f_at(
        it, y, j), y), forall_fk(it, lambda f: member(it, x, f) == member(it, y, f)))


def cur_key(it):
    t = it.lookup("table")
    return VTup([it.getattr(t, "schema"), it.getattr(t, "name")])


def infer_cols_inv(it, old_st, i):
    a, D = it.args, it.ghost["done_tables"]
    k, t = cur_key(it), it.lookup("table")
    out = {**per_table(it, a, lambda k, t: during(it, a, k, t, lambda f: inferred(
        it, a, k, f)), lambda k: it.set_mem(D, k)),
        **rest_unchanged(it, a, lambda d: And(Not(it.set_mem(D, d)), Not(eq(it, d, k))))}
    out.update({f"{n} (this table)": c for n, c in during(
        it, a, k, t, lambda f: inferred(it, a, k, f, i.t)).items()})
    return out


FK_CELL = {(lambda it: it.fieldmap(TTABLE, "foreign_keys")): KEYS_OF}


def fk_modified(it, a):
    return [(it.fieldmap(TTABLE, "foreign_keys"), KEYS_OF)]


def infer_setup(all_):
    def setup(it):
        it.ghost["infer_all"] = all_
        return {**meta_setup(it), "infer_all": all_}
    return setup


def infer_requires(it, a):
    return {**inv(it, a), "columns have names of their own": each_table(
        it, a, lambda k, t: names_once(it, t))}


def infer(all_):
    kt = TNAMES if all_ else TTup(STR, TNAMES)
    return Contract(
        "subsetter.metadata:DatabaseMetadata.infer_missing_foreign_keys" + (
            "#all" if all_ else "#schema"),
        name="infer_missing_foreign_keys" + ("_all" if all_ else "_schema"),
        setup=infer_setup(all_), ensures=infer_post, requires=lambda it, a: {
            **infer_requires(it, a), "definition": inferred.definition(it, a)},
        loops={0: LoopSpec(name="primary keys", done="set", key=KEY, inv=pk_inv,
                           types={"table": TTABLE, "map_key": kt},
                           cells={"pk_map": TDict(kt, TOpt(TTABLE))}),
               1: LoopSpec(name="tables", done="set", key=KEY, types={
                   "table": TTABLE, "fks": TSet(TFK), "col": TCOL, "dst_table": TOpt(TTABLE),
                   "fk": TFK}, cells=FK_CELL, inv=infer_tables_inv),
               2: LoopSpec(name="columns", done="index", types={
                   "col": TCOL, "dst_table": TOpt(TTABLE), "fk": TFK}, cells=FK_CELL,
                   inv=infer_cols_inv)})



# ------------------------------------------------------------ ignored and extra keys
def conf(it, a, name):
    return it.getattr(field(it, a.self, "config"), name)


def name_key(s):
    return VTup([Sym(STR, LEFT(s.t)), Sym(STR, RIGHT(s.t))])


def is_between(it, e, k, d):
    """the entry e of the configuration is about keys of table k into table d"""
    return And(eq(it, name_key(it.getattr(e, "src_table")), k), eq(it, name_key(it.getattr(
        e, "dst_table")), d))


@whole
def ignored_key(it, a, k, f, upto=None):
    es = conf(it, a, "ignore_fks")
    n = slen(it, es) if upto is None else upto
    return exists_int(it, lambda j: is_between(it, at(it, es, j), k, dst(f)), 0, n)


def without_ignored(it, a, k, t, ign):
    return {
        "a key remains unless ignored": forall_fk(it, lambda f: Implies(And(member(
            it, keys_before(it, t), f), Not(ign(f))), member(it, keys_now(it, t), f))),
        "no key is added": forall_fk(it, lambda f: Implies(member(it, keys_now(
            it, t), f), member(it, keys_before(it, t), f))),
        "no ignored key remains": forall_fk(it, lambda f: Implies(member(
            it, keys_now(it, t), f), Not(ign(f)))),
        "none is duplicated": Implies(distinct(it, keys_before(it, t)), distinct(
            it, keys_now(it, t))),
    }


def all_tables(it, a, fn):
    k0, t0 = _any_table(it, a)
    return {nm: each_table(it, a, lambda k, t: fn(k, t)[nm]) for nm in fn(k0, t0)}


def ignore_post(it, a, r=None, upto=None):
    return all_tables(it, a, lambda k, t: without_ignored(it, a, k, t, lambda f: ignored_key(
        it, a, k, f, upto)))


def bad_name(which):
    def cond(it, a, e):
        es = conf(it, a, which)
        return {"only for a name without a dot": exidx(it, lambda j: Or(Not(hasdot(it.getattr(
            at(it, es, j), "src_table").t)), Not(hasdot(it.getattr(at(
                it, es, j), "dst_table").t))), es)}
    return cond


REMOVE = Contract(
    "subsetter.planner:Planner._remove_ignore_fks", setup=planner_setup, requires=inv,
    modular=True, modifies=fk_modified, ensures=ignore_post,
    raises={ValueError: bad_name("ignore_fks")}, covers=("return", "ValueError"),
    loops={0: LoopSpec(name="ignored", done="index", cells=FK_CELL, types={
        "ignore_fk": TIGN, "src_schema": STR, "src_table_name": STR, "dst_schema": STR,
        "dst_table_name": STR, "table": TOpt(TTABLE)},
        inv=lambda it, old_st, i: ignore_post(it, it.args, upto=i.t))})


def extra_of(it, e):
    """the key that an entry asks for"""
    d = name_key(it.getattr(e, "dst_table"))
    return mkfk(names_of(it.getattr(e, "src_columns").t), d.items[0].t, d.items[1].t, names_of(
        it.getattr(e, "dst_columns").t))


def exist(it, ns, t):
    items = it.getattr(ns, "items")
    return idx(it, lambda j: has_col(it, t, at(it, items, j).t), items)


def asked(it, a, e, k):
    """the entry e adds a key to table k"""
    d = name_key(it.getattr(e, "dst_table"))
    return And(eq(it, name_key(it.getattr(e, "src_table")), k), mem(it, tables(it, a), d),
               exist(it, it.getattr(e, "src_columns"), tab(it, a, k)),
               exist(it, it.getattr(e, "dst_columns"), tab(it, a, d)))


@whole
def extra_key(it, a, k, f, upto=None):
    es = conf(it, a, "extra_fks")
    n = slen(it, es) if upto is None else upto
    return exists_int(it, lambda j: And(asked(it, a, at(it, es, j), k), f == extra_of(it, at(
        it, es, j))), 0, n)


def with_extra(it, a, k, t, upto=None):
    es = conf(it, a, "extra_fks")
    i = slen(it, es) if upto is None else upto
    x, y = keys_before(it, t), keys_now(it, t)
    return {
        "keys before and valid extra keys, no others": forall_fk(it, lambda f: Implies(member(
            it, y, f), Or(member(it, x, f), extra_key(it, a, k, f, upto)))),
        "every key remains": forall_fk(it, lambda f: Implies(member(it, x, f), member(it, y, f))),
        "every valid extra key is there": forall_fk(it, lambda f: Implies(extra_key(
            it, a, k, f, upto), member(it, y, f))),
        "each entry adds at most one key": And(slen(it, y) >= slen(it, x), slen(
            it, y) <= slen(it, x) + i),
    }


def extra_post(it, a, r=None, upto=None):
    return all_tables(it, a, lambda k, t: with_extra(it, a, k, t, upto))


EXTRA = Contract(
    "subsetter.planner:Planner._add_extra_fks", setup=planner_setup, requires=inv,
    modular=True, modifies=fk_modified, ensures=extra_post,
    raises={ValueError: bad_name("extra_fks")}, covers=("return", "ValueError"),
    loops={0: LoopSpec(name="extra", done="index", cells=FK_CELL, types={
        "extra_fk": TEXTRA, "src_schema": STR, "src_table_name": STR, "dst_schema": STR,
        "index": INT, "dst_table_name": STR, "table": TOpt(TTABLE), "dst_table": TOpt(TTABLE),
        "src_missing_cols": TSet(STR), "dst_missing_cols": TSet(STR)},
        inv=lambda it, old_st, i: extra_post(it, it.args, upto=i.t))})

# ------------------------------------------------------------ all of it, in order
def wanted_key(it, a, k, f):
    """f is one of the relationships of table k, given those of the schema"""
    t = tab(it, a, k)
    return Or(And(Or(member(it, keys_before(it, t), f), And(inferring(it, a), inferred(
        it, a, k, f))), Not(ignored_key(it, a, k, f))), extra_key(it, a, k, f))


def as_configured(it, a):
    return {
        "only configured relationships": each_table(it, a, lambda k, t: forall_fk(
            it, lambda f: Implies(member(it, keys_now(it, t), f), wanted_key(it, a, k, f)))),
        "every configured relationship": each_table(it, a, lambda k, t: forall_fk(
            it, lambda f: Implies(wanted_key(it, a, k, f), member(it, keys_now(it, t), f)))),
    }


SOLVE = Contract(
    "subsetter.planner:Planner._solve_order", modular=True, returns=TSeq(STR),
    requires=lambda it, b: {**as_configured(it, it.args), **refused(it, it.args)},
    raises={ValueError: None},
    ensures=lambda it, b, r: {"tables in order": idx(it, lambda j: And(hasdot(at(
        it, r, j).t), mem(it, tables(it, b), name_key(at(it, r, j)))), r)})


def plan_table_requires(it, b):
    return {**as_configured(it, it.args), **refused(it, it.args),
            **rev_is(it, it.args, lambda d, f: from_tables(it, it.args, lambda k: V.TRUE, d, f))}


TQUERY = TEnt("TableQuery", None)
PLAN_TABLE = Contract("subsetter.planner:Planner._plan_table", modular=True, returns=TQUERY,
                      requires=plan_table_requires, raises={ValueError: None})


def refused(it, a):
    return {"no key into an ignored table": Implies(V.term(conf(
        it, a, "include_dependencies"), BOOL), Not(into_ignored(it, a))),
        "no key out of the passthrough tables": Not(out_of_passthrough(
            it, a, was_through(it, a)))}


# callers of infer_missing_foreign_keys see the contract proved for either setting
INFER = Contract("subsetter.metadata:DatabaseMetadata.infer_missing_foreign_keys", modular=True,
                 requires=infer_requires, modifies=fk_modified, ensures=infer_post)


def plan_requires(it, a):
    return {**infer_requires(it, a), "no reverse keys yet": each_table(it, a, lambda k, t: slen(
        it, keys_now(it, t, RK)) == 0)}


PLAN = Contract(
    "subsetter.planner:Planner._plan_internal", setup=planner_setup, requires=plan_requires,
    raises={ValueError: None}, ensures=lambda it, a, r: {**as_configured(it, a), **refused(it, a)},
    models={PL.SQLTableIdentifier: lambda it, a, kw: it.make(TQUERY, "ident"),
            PL.SQLStatementSelect: lambda it, a, kw: it.make(TQUERY, "select"),
            PL.SQLTableQuery: lambda it, a, kw: it.make(TQUERY, "query"),
            PL.SubsetPlan: lambda it, a, kw: it.make(TQUERY, "plan")},
    covers=("return", "ValueError"))

# ------------------------------------------------------------ which extra keys can be configured
def distinct(it, s):
    return idx(it, lambda k: idx(it, lambda l: Implies(k < l, Not(eq(
        it, at(it, s, k), at(it, s, l)))), s), s)


def set_of(it, a, kw):
    """the set of a sequence is smaller than the sequence unless its elements are distinct"""
    r = M.m_set(it, a, kw)
    if a and isinstance(it._cont(a[0]), VSeq):
        n = V.term(M.card(it, it._cont(r)), INT)
        it._addfacts([n <= slen(it, a[0]), (n == slen(it, a[0])) == distinct(it, a[0])])
    return r


def extra_cols(it, a):
    return field(it, a.self, "src_columns"), field(it, a.self, "dst_columns")


def well_formed(it, a):
    s, d = extra_cols(it, a)
    return And(slen(it, s) > 0, slen(it, s) == slen(it, d), distinct(it, s), distinct(it, d))


MATCHING = Contract(
    "subsetter.config_model:PlannerConfig.ExtraFKConfig.check_columns_match", setup=lambda it: {
        "self": it.alloc(VInst(CF.PlannerConfig.ExtraFKConfig, {
            "src_table": it.make(STR, "src_table"), "dst_table": it.make(STR, "dst_table"),
            "src_columns": it.alloc(it.make(TSeq(STR), "src_columns")),
            "dst_columns": it.alloc(it.make(TSeq(STR), "dst_columns"))}))},
    ensures=lambda it, a, r: {
        "accepted only with columns paired one to one": well_formed(it, a),
        "as configured": z3.BoolVal(isinstance(r, Ref) and r.id == a.self.id)},
    raises={ValueError: lambda it, a, e: {"refused only otherwise": Not(well_formed(it, a))}},
    covers=("return", "ValueError"), models={set: set_of})

MODELS = {**NAME_MODELS, MD.ForeignKey: new_fk, tuple: tuple_of}
AXIOMS = [name_axioms, value_axioms]
CONTRACTS = [REV, CHECK_IGNORE, CHECK_PASS, infer(True), infer(False), REMOVE, EXTRA, PLAN,
             MATCHING]
ALL = [PARSE, REV, CHECK_IGNORE, CHECK_PASS, INFER, REMOVE, EXTRA, SOLVE, PLAN_TABLE]
ASSUMPTIONS = [
    "SQLAlchemy: the columns of a table have names of their own",
    "a foreign key is a value: equal exactly if its four parts are (a frozen dataclass)",
    "DatabaseMetadata: tables are keyed by their schema and name, no reverse keys yet (proved for "
    "from_engine and TableMetadata under C14)",
    "_solve_order returns names of tables (C01)"]
TRUSTED = ["str.split", "dataclasses"]
