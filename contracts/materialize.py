"""_materialize_tables: the temporary tables of a run (C02, C09, C12)."""
import collections

from contracts.copying import *
from contracts import matorder as c02

TDATA = TEnt("PlanPart", None, classes=[PM.SQLLeftJoin, PM.SQLTableQuery],
             fields={"right": c02.TIDENT, "right_columns": STRS})
TJOINCOLS = TEnt("JoinColumns", None, methods={"add": lambda it, a, kw: None})
TJOINED = TEnt("Joined", None, methods={
    "__getitem__": lambda it, a, kw: it.make(TJOINCOLS, "joined"), "__contains__":
    lambda it, a, kw: Sym(BOOL, it.fresh("joined", z3.BoolSort()))})
TCREATOR = TEnt("Creator", SA.TempTableCreator)
TTEMP.fields.update({"stmt": TSTMT})
TSTMT.fields["whole"] = BOOL
# ghost: the name of a temporary table, letter case removed
tname = z3.Function("folded_name", TTEMP.sort, V.STR_S)
copy_of = z3.Function("copy_of", TTEMP.sort, TTEMP.sort)


def any_sequence(it, a, kw):
    """which columns get an index does not matter"""
    return it.make(STRS, "tuple")


def select_ids(it, a, kw):
    """one expression, and all columns of a relation"""
    e, rel = a
    s = it.make(TSTMT, "with_ids")
    ex = it.getattr(s, "exprs")
    it._addfacts([slen(it, ex) == 1, eq(it, at(it, ex, 0), e), V.term(it.getattr(
        s, "whole"), BOOL), eq(it, it.getattr(s, "from_"), rel)])
    return s


def with_ids(it, st):
    ex = it.getattr(st, "exprs")
    return And(V.term(it.getattr(st, "whole"), BOOL), slen(it, ex) >= 1, eq(it, it.getattr(at(
        it, ex, 0), "label_"), SA.SUBSETTER_COMPACT_COLUMN))


def create(it, a, kw):
    """a table with the rows of the statement (contract of TempTableCreator.create)"""
    me, conn, schema, stmt = a
    if set(kw) != {"name", "primary_key", "indexes"}:
        raise Unsupported("create")
    t = it.make(TTEMP, "temp")
    it._addfacts([eq(it, it.getattr(t, "stmt"), stmt), has_ids(selected(t.t)) == with_ids(
        it, stmt), Not(it.set_mem(it._cont(it.args._issued), Sym(STR, tname(t.t))))])
    it.set_add(it.args._issued, Sym(STR, tname(t.t)))
    return VTup([t, it.make(INT, "rowcount")])


TCREATOR.methods["create"] = create


def temps(it):
    return field(it, it.args.meta, "temp_tables")


def temp_key(k, x):
    return VTup([k.items[0], k.items[1], x])


def building(it, q, ctx):
    """every sample the query reads exists, in as many copies as it is read"""
    reopen = V.term(field(it, it.args.meta, "supports_temp_reopen"), BOOL)
    it.oblige("samples exist before they are read", forall_ty(it, KEY, lambda k: Implies(
        c02.reads_sample(it, q, k), mem(it, temps(it), temp_key(k, 0)))))
    it.oblige("as many copies as reads", Implies(Not(reopen), forall_ty(it, KEY, lambda k: Implies(
        c02.reads_sample(it, q, k), forall_int(it, lambda x: mem(it, temps(it), temp_key(k, Sym(
            INT, x))), 0, c02.total(it, q, k))))))
    return Sym(TSTMT, built(q.t))


def mt_setup(it):
    me = it.alloc(VInst(SA.Sampler, {
        "config": it.make(TCONF, "config"), "temp_tables": it.make(TCREATOR, "creator"),
        "compact_columns": it.alloc(it.make(TDict(KEY, TSet(STR)), "compact")),
        "cached_table_sizes": it.alloc(it.make(TDict(KEY, INT), "sizes"))}))
    it.ghost["build"] = building
    meta = make_meta(it, temp_tables=it.alloc(VDict(TTEMPKEY, TTEMP, None, [])),
                     supports_temp_reopen=it.make(BOOL, "reopen"))
    return {"self": me, "meta": meta, "conn": it.make(TCONN, "conn"),
            "plan": it.make(c02.TPLAN, "plan"), "_issued": it.alloc(it.make(TSet(STR), "names"))}


def mt_req(it, a):
    d = c02.mo_req(it, a)
    qs = it.getattr(a.plan, "queries")
    d["renumbered tables are planned"] = forall_ty(it, KEY, lambda k: Implies(exists_ty(
        it, STR, lambda c: compacted(it, a, k, c)), And(nodot(k.items[0].t), mem(
            it, qs, key_name(it, k)))))
    return d


def row_of(it, order, l):
    r = at(it, order, l)
    return VTup(r.items[:2]), V.term(r.items[2], INT)


def made(it, a, k):
    """the table of key k holds what it should"""
    st = it.getattr(it.dict_get(it._cont(temps(it)), temp_key(k, 0)), "stmt")
    q = it.dict_get(it._cont(it.getattr(a.plan, "queries")), key_name(it, k))
    plain = built(q.t)
    sub = Sym(TREL, sub_of(plain))
    start = num(attr(it, field(it, a.self, "config"), "compact", "start_key"))
    renumbered = exists_ty(it, STR, lambda c: compacted(it, a, k, c))
    # an entry without columns counts as renumbered in the code; either way the rows are the same
    entry = mem(it, field(it, a.self, "compact_columns"), k)
    ids = And(with_ids(it, st), slen(it, it.getattr(st, "exprs")) == 1, eq(it, it.getattr(
        st, "from_"), sub), numbered(it, at(it, it.getattr(st, "exprs"), 0), sub, k, start))
    return And(Implies(renumbered, And(ids, has_ids(selected(it.dict_get(
        it._cont(temps(it)), temp_key(k, 0)).t)))), Implies(Not(entry), st.t == plain), Or(
        st.t == plain, ids))


def copies(it, order, l, upto=None):
    """which copies of the table at position l of the order there are"""
    k, cnt = row_of(it, order, l)
    reopen = V.term(field(it, it.args.meta, "supports_temp_reopen"), BOOL)
    return k, lambda x: Or(x == 0, And(Not(reopen), x >= 1, x < (cnt if upto is None else upto)))


def copy_made(it, k, x):
    d = it._cont(temps(it))
    st = it.getattr(it.dict_get(d, temp_key(k, Sym(INT, x))), "stmt")
    return st.t == selected(it.dict_get(d, temp_key(k, 0)).t)


def exactly(it, order, i, extra=lambda k, x: V.FALSE):
    """the temporary tables are those of the first i tables (and extra ones)"""
    if empty_dict(it, temps(it)):
        def here(k, x):
            return V.FALSE
    else:
        def here(k, x):
            return mem(it, temps(it), temp_key(k, Sym(INT, x)))

    def want(k, x):
        def body(l):
            kl, has_ = copies(it, order, l)
            return And(eq(it, kl, k), has_(x))
        return Or(exists_int(it, body, 0, i), extra(k, x))
    return forall_ty(it, KEY, lambda k: forall_int(it, lambda x: here(k, x) == want(k, x)))


def contents(it, order, i):
    def body(l):
        kl, has_ = copies(it, order, l)
        return And(made(it, it.args, kl), forall_int(it, lambda x: Implies(And(
            x >= 1, has_(x)), copy_made(it, kl, x))))
    if empty_dict(it, temps(it)):
        return V.TRUE
    return forall_int(it, body, 0, i)


def names_given(it):
    return it.args._issued


def own_names(it):
    """each temporary table has a name of its own"""
    if empty_dict(it, temps(it)):
        return {}
    d = it._cont(temps(it))
    key = lambda k, x: temp_key(k, Sym(INT, x))
    nm = lambda k, x: tname(it.dict_get(d, key(k, x)).t)

    def apart(k, x, l, y):
        return Implies(And(mem(it, temps(it), key(k, x)), mem(it, temps(it), key(l, y)), nm(
            k, x) == nm(l, y)), And(eq(it, k, l), x == y))
    return {
        "names of temporary tables have been given": forall_ty(it, KEY, lambda k: forall_int(
            it, lambda x: Implies(mem(it, temps(it), key(k, x)), mem(it, it.args._issued, Sym(
                STR, nm(k, x)))))),
        "no two temporary tables share a name": forall_ty(it, KEY, lambda k: forall_ty(
            it, KEY, lambda l: forall_int(it, lambda x: forall_int(it, lambda y: apart(
                k, x, l, y))))),
    }


def order_inv(it, old, i):
    order = it.lookup("materialization_order")
    it.ghost["order"] = it.freeze(order)
    return {"temporary tables so far": exactly(it, order, i.t),
            "their contents": contents(it, order, i.t), **own_names(it)}


def copies_loop(it, old, j):
    a, order = it.args, it.lookup("materialization_order")
    k = VTup([it.lookup("schema"), it.lookup("table_name")])
    d, d0 = it._cont(temps(it)), at_state(it, old, lambda: it.freeze(temps(it)))
    kk = lambda y, x: temp_key(y, Sym(INT, x))
    return {
        "copies so far": forall_ty(it, KEY, lambda y: forall_int(it, lambda x: mem(it, temps(
            it), kk(y, x)) == Or(it.dict_dom(d0, kk(y, x)), And(
                eq(it, y, k), x >= 1, x < 1 + j.t)))),
        "earlier tables kept": forall_ty(it, KEY, lambda y: forall_int(it, lambda x: Implies(And(
            it.dict_dom(d0, kk(y, x)), Not(And(eq(it, y, k), x >= 1))), eq(
                it, it.dict_get(d, kk(y, x)), it.dict_get(d0, kk(y, x)))))),
        "their contents": forall_int(it, lambda x: copy_made(it, k, x), 1, 1 + j.t),
        **own_names(it),
    }


def mt_post(it, a, r):
    order = it.ghost["order"]
    n = slen(it, order)
    d = {"a table for each sample in order, with its copies": exactly(it, order, n),
         "each holds the rows of its query, numbered where its keys are": contents(it, order, n)}
    if not empty_dict(it, temps(it)):
        d.update(ids_ready(it, a))
        d.update(own_names(it))
    return d


MATERIALIZE = Contract(
    "subsetter.sampler:Sampler._materialize_tables", setup=mt_setup, requires=mt_req,
    ensures=mt_post, raises={ValueError: None},
    models={SA.pydantic_search: lambda it, a, kw: it.make(TSeq(TDATA), "parts"),
            collections.defaultdict: lambda it, a, kw: it.make(TJOINED, "joined_columns"),
            tuple: any_sequence, sa.select: select_ids,
            ("attr", id(sa.func), "row_number"): V.Native(
                lambda it, a, kw: it.make(TROWNUM, "rn"), "row_number"),
            (MD.DatabaseMetadata, "sql_build_context"): lambda it, a, kw: V.Native(
                build_ctx, "build context")},
    loops={0: LoopSpec(name="joins", done="index", types={}, inv=lambda it, old, i: {}),
           1: LoopSpec(name="order", done="index", types={}, cells={
               temps: TDict(TTEMPKEY, TTEMP), names_given: TSet(STR), (lambda it: field(
                   it, it.args.self, "cached_table_sizes")): TDict(KEY, INT)}, inv=order_inv),
           2: LoopSpec(name="copies", done="index", types={"index": INT}, cells={
               temps: TDict(TTEMPKEY, TTEMP), names_given: TSet(STR)}, inv=copies_loop)})
