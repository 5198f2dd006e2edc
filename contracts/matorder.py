"""_materialization_order: which samples need temporary tables, in which order."""
from contracts.graphs import *
from contracts.meta import *
from subsetter import plan_model as PM
from subsetter import sampler as SA

TGRAPHK = TDict(KEY, TSet(KEY))

TIDENT = TEnt("Ident", PM.SQLTableIdentifier, fields={
    "table_schema": STR, "table_name": STR, "sampled": BOOL})
TQUERY = TEnt("Query", PM.SQLTableQuery, fields={"idents": TSeq(TIDENT)})
TPLAN = TEnt("Plan", PM.SubsetPlan, fields={"queries": TDict(STR, TQUERY)})
# ghost: references to the sample of table K among the first i identifiers of a query
nref = z3.Function("nref", TQUERY.sort, z3.IntSort(), V.STR_S, V.STR_S, z3.IntSort())
# ghost: compacted columns reached by a foreign key; the same added up over the first i keys of a
# table, for one referenced table
njoin = z3.Function("njoin", TFK.sort, z3.IntSort())
nfk = z3.Function("nfk", TTABLE.sort, z3.IntSort(), V.STR_S, V.STR_S, z3.IntSort())


def ikey(it, i):
    return VTup([it.getattr(i, "table_schema"), it.getattr(i, "table_name")])


def kt(k):
    return [V.term(x, STR) for x in k.items]


def ident_is(it, q, i, k):
    """identifier i of query q reads the sample of table k"""
    x = at(it, it.getattr(q, "idents"), i)
    return And(V.term(it.getattr(x, "sampled"), BOOL), eq(it, ikey(it, x), k))


def reads_sample(it, q, k):
    return exidx(it, lambda i: ident_is(it, q, i, k), it.getattr(q, "idents"))


def total(it, q, k):
    return nref(q.t, slen(it, it.getattr(q, "idents")), *kt(k))


def total_fk(it, t, k):
    return nfk(t.t, slen(it, fks(it, t)), *kt(k))


def count_step(it, q, i):
    """definition of nref, at position i"""
    it._addfacts([forall_ty(it, KEY, lambda k: And(
        nref(q.t, 0, *kt(k)) == 0, nref(q.t, i + 1, *kt(k)) == nref(q.t, i, *kt(k)) + z3.If(
            ident_is(it, q, i, k), 1, 0)))])


def fk_step(it, t, i):
    fk = at(it, fks(it, t), i)
    it._addfacts([forall_ty(it, KEY, lambda k: And(
        nfk(t.t, 0, *kt(k)) == 0, nfk(t.t, i + 1, *kt(k)) == nfk(t.t, i, *kt(k)) + z3.If(
            eq(it, fk_dst(it, fk), k), njoin(fk.t), 0)))])


def counts(it, d, k):
    if empty_dict(it, d):
        return z3.IntVal(0)
    return V.term(it.dict_get(it._cont(d), k), INT)


def query_build(it, args, kw):
    """SQLTableQuery.build asks the context once for each table identifier of the query"""
    q, ctx = args[:2]
    if "build" in it.ghost:
        return it.ghost["build"](it, q, ctx)
    counter = it.lookup("counter")
    it.ghost["counter"] = counter

    def inv(it, old, i):
        i = i.t
        count_step(it, q, i.arg(0) if z3.is_add(i) else i)
        return {
            "counted tables": forall_ty(it, KEY, lambda k: mem(it, counter, k) == exists_int(
                it, lambda j: ident_is(it, q, j, k), 0, i)),
            "counts": forall_ty(it, KEY, lambda k: Implies(mem(it, counter, k), counts(
                it, counter, k) == nref(q.t, i, *kt(k)))),
            "none uncounted": forall_ty(it, KEY, lambda k: Implies(
                Not(mem(it, counter, k)), nref(q.t, i, *kt(k)) == 0)),
            "counts are positive": forall_ty(it, KEY, lambda k: Implies(
                mem(it, counter, k), counts(it, counter, k) >= 1)),
        }
    ghost_call(it, "def build(idents, context):\n for ident in idents:\n  context(ident)",
               [it.getattr(q, "idents"), ctx],
               {0: LoopSpec(name="identifiers of the query", done="index",
                            types={"ident": TIDENT},
                            cells={(lambda it: counter): TDict(KEY, INT)}, inv=inv)})
    return None


TQUERY.methods["build"] = query_build


def mo_queries(it):
    return it.getattr(it.args.plan, "queries")


def mo_key(it, n):
    return VTup([Sym(STR, LEFT(n.t)), Sym(STR, RIGHT(n.t))])


def mo_table(it, n):
    return it.dict_get(it._cont(tables_of(it, it.args.meta)), mo_key(it, n))


def covered(it, mrc, n, q):
    """the copies counted so far suffice for a query and for copying its table"""
    return forall_ty(it, KEY, lambda k: And(
        Implies(reads_sample(it, q, k), And(mem(it, mrc, k), counts(it, mrc, k) >= total(
            it, q, k))),
        Implies(total_fk(it, mo_table(it, n), k) > 0, And(
            mem(it, mrc, k), counts(it, mrc, k) >= total_fk(it, mo_table(it, n), k) + z3.If(
                eq(it, mo_key(it, n), k), 1, 0)))))


def looks_up(it, fk):
    """a column the key refers to is renumbered"""
    cc = field(it, it.args.self, "compact_columns")
    d, cols = fk_dst(it, fk), it.getattr(fk, "dst_columns")
    return And(mem(it, cc, d), exidx(it, lambda p: mem(it, it.dict_get(it._cont(
        cc), d), at(it, cols, p)), cols))


def lookups_in(it, m, n, upto=None):
    """every renumbered table that table n refers to is in m"""
    ks = fks(it, mo_table(it, n))
    return forall_int(it, lambda j: Implies(looks_up(it, at(it, ks, j)), mem(it, m, fk_dst(
        it, at(it, ks, j)))), 0, slen(it, ks) if upto is None else upto)


def mo_outer(it, old, D):
    g, mrc = it.lookup("dep_graph"), it.lookup("max_ref_counts")
    qs = mo_queries(it)
    return {
        "a node for each query so far": forall_ty(it, KEY, lambda k: mem(it, g, k) == And(
            nodot(k.items[0].t), mem(it, qs, key_name(it, k)), mem(it, D, VTup(
                [key_name(it, k), it.dict_get(it._cont(qs), key_name(it, k))])))),
        "an edge for each sample it reads": forall_ty(it, KEY, lambda k: forall_ty(
            it, KEY, lambda k2: Implies(mem(it, g, k), edge(it, g, k, k2) == reads_sample(
                it, it.dict_get(it._cont(qs), key_name(it, k)), k2)))),
        "enough copies": forall_ty(it, STR, lambda n: Implies(
            And(mem(it, qs, n), mem(it, D, VTup([n, it.dict_get(it._cont(qs), n)]))),
            covered(it, mrc, n, it.dict_get(it._cont(qs), n)))),
        "renumbered tables looked up": forall_ty(it, STR, lambda n: Implies(And(
            mem(it, qs, n), mem(it, D, VTup([n, it.dict_get(it._cont(qs), n)]))), lookups_in(
                it, mrc, n))),
    }


def mo_fk(it, old, i):
    q, n, counter = it.lookup("query"), it.lookup("table"), it.lookup("counter")
    t = mo_table(it, n)
    i = i.t
    it.ghost["n"] = n
    fk_step(it, t, i.arg(0) if z3.is_add(i) else i)
    f = lambda k: nfk(t.t, i, *kt(k))
    return {
        "reads still counted": forall_ty(it, KEY, lambda k: Implies(reads_sample(it, q, k), And(
            mem(it, counter, k), counts(it, counter, k) >= total(it, q, k) + f(k)))),
        "joins so far counted": forall_ty(it, KEY, lambda k: And(f(k) >= 0, Implies(
            f(k) > 0, And(mem(it, counter, k), counts(it, counter, k) >= f(k))))),
        "renumbered tables looked up": lookups_in(it, counter, n, i),
        "counts are positive": forall_ty(it, KEY, lambda k: Implies(
            mem(it, counter, k), counts(it, counter, k) >= 1)),
    }


def mo_max(it, old, D):
    mrc, counter = it.lookup("max_ref_counts"), it.lookup("counter")
    om = at_state(it, old, lambda: it.freeze(mrc))
    was = lambda k: it.dict_dom(om, k)
    return {
        "copies never reduced": forall_ty(it, KEY, lambda k: Implies(was(k), And(
            mem(it, mrc, k), counts(it, mrc, k) >= V.term(it.dict_get(om, k), INT)))),
        "copies for the tables so far": forall_ty(it, KEY, lambda k: Implies(And(
            mem(it, counter, k), mem(it, D, VTup([k, it.dict_get(it._cont(counter), k)]))), And(
                mem(it, mrc, k), counts(it, mrc, k) >= counts(it, counter, k)))),
    }


def single_index(it, ps):
    """pieces with one element for each index i with P(i): i, P(i), the element"""
    if len(ps) != 1:
        return None
    p, g = ps[0], []
    if isinstance(p, BaseP):
        i = z3.Int(it.fresh_name("ci"))
        return i, And(i >= 0, i < p.n), p.at(i)
    if not isinstance(p, Gen) or len(p.binders) != 1 or not z3.is_int(p.binders[0]):
        return None
    i, g, sub = p.binders[0], [p.guard], p.sub
    while len(sub) == 1 and isinstance(sub[0], Cond):
        g.append(sub[0].g)
        sub = sub[0].sub
    if len(sub) != 1 or not isinstance(sub[0], Elem):
        return None
    return i, And(*g), sub[0].v


def count_joins(it, c, value):
    """the number of indices with P(i) is njoin: those of the renumbered columns referred to"""
    fk = it.lookup("fk")
    r = single_index(it, tuple(it.iter_pieces(c)))
    if r is None:
        raise Unsupported("counting in a way that is not recognised")
    i, p, v = r
    if value:
        if isinstance(v, Sym) and v.ty is BOOL:
            p = And(p, v.t)
        elif not (type(v) is int and v == 1):
            raise Unsupported("sum of numbers")
    cols, cc = it.getattr(fk, "dst_columns"), field(it, it.args.self, "compact_columns")
    d = fk_dst(it, fk)
    want = lambda j: And(j >= 0, j < slen(it, cols), mem(it, cc, d), mem(it, it.dict_get(
        it._cont(cc), d), at(it, cols, j)))
    it.oblige("counts the renumbered columns the key refers to", it.forall([i], lambda: p == want(
        i)))
    t = njoin(fk.t)
    it._addfacts([t >= 0, (t == 0) == Not(exists_int(it, want))])
    return Sym(INT, t)


def joins_sum(it, args, kw):
    """how many of the referenced columns are compacted"""
    if kw or len(args) != 1:
        raise Unsupported("sum")
    return count_joins(it, args[0], True)


def joins_len(it, args, kw):
    from pydv import models
    try:
        it.lookup("fk")
    except Exception:
        return models.m_len(it, args, kw)
    c = it._cont(args[0])
    if not isinstance(c, VSeq):
        raise Unsupported("counting in a way that is not recognised")
    return count_joins(it, args[0], False)


def mo_setup(it):
    me = it.alloc(VInst(SA.Sampler, {"compact_columns": it.alloc(it.make(
        TDict(KEY, TSet(STR)), "compact"))}))
    return {"self": me, "meta": make_meta(it), "plan": it.make(TPLAN, "plan")}


def mo_req(it, a):
    d = meta_inv(it, a.meta)
    qs = it.getattr(a.plan, "queries")
    ts = tables_of(it, a.meta)
    d["planned tables are known"] = forall_ty(it, STR, lambda n: Implies(mem(it, qs, n), And(
        hasdot(n.t), mem(it, ts, mo_key(it, n)))))
    d["only samples of planned tables are read"] = forall_ty(it, STR, lambda n: Implies(
        mem(it, qs, n), forall_ty(it, KEY, lambda k: Implies(reads_sample(
            it, it.dict_get(it._cont(qs), n), k), And(
                mem(it, qs, key_name(it, k)), nodot(k.items[0].t))))))
    d["identifiers name known tables"] = forall_ty(it, TIDENT, lambda x: mem(
        it, ts, ikey(it, x)))
    return d


def mo_post(it, a, r):
    qs = it.getattr(a.plan, "queries")
    key = lambda j: VTup(at(it, r, j).items[:2])
    cnt = lambda j: V.term(at(it, r, j).items[2], INT)
    query = lambda n: it.dict_get(it._cont(qs), n)
    return {
        "only planned tables": idx(it, lambda j: And(mem(it, qs, key_name(it, key(j))), eq(
            it, mo_key(it, key_name(it, key(j))), key(j))), r),
        "each once": idx(it, lambda j: idx(it, lambda l: Implies(j < l, Not(eq(
            it, key(j), key(l)))), r), r),
        "every sample a query reads, in enough copies": forall_ty(it, STR, lambda n: Implies(
            mem(it, qs, n), forall_ty(it, KEY, lambda k: Implies(reads_sample(
                it, query(n), k), exidx(it, lambda j: And(eq(it, key(j), k), cnt(j) >= total(
                    it, query(n), k)), r))))),
        "after every sample its own query reads": idx(it, lambda j: forall_ty(
            it, KEY, lambda k: Implies(reads_sample(it, query(key_name(it, key(j))), k), exists_int(
                it, lambda l: eq(it, key(l), k), 0, j))), r),
        "enough copies for looking up renumbered keys": forall_ty(it, STR, lambda n: Implies(
            mem(it, qs, n), forall_ty(it, KEY, lambda k: idx(it, lambda j: Implies(
                And(eq(it, key(j), k), total_fk(it, mo_table(it, n), k) > 0),
                cnt(j) >= total_fk(it, mo_table(it, n), k) + z3.If(eq(it, mo_key(
                    it, n), k), 1, 0)), r)))),
        "every renumbered table a planned table refers to": forall_ty(it, STR, lambda n: Implies(
            mem(it, qs, n), forall_ty(it, KEY, lambda k: Implies(And(nodot(
                k.items[0].t), mem(it, qs, key_name(it, k)), refers_renumbered(
                    it, n, k)), exidx(it, lambda j: eq(it, key(j), k), r))))),
    }


def refers_renumbered(it, n, k):
    ks = fks(it, mo_table(it, n))
    return exidx(it, lambda j: And(eq(it, fk_dst(it, at(it, ks, j)), k), looks_up(
        it, at(it, ks, j))), ks)


MAT_ORDER = Contract(
    "subsetter.sampler:Sampler._materialization_order", modular=True,
    returns=TSeq(TTup(STR, STR, INT)), setup=mo_setup, requires=mo_req,
    ensures=mo_post, raises={ValueError: None}, models={sum: joins_sum, len: joins_len},
    loops={0: LoopSpec(name="queries", done="set", types={"table": STR, "query": TQUERY},
                       cells={"dep_graph": TGRAPHK, "max_ref_counts": TDict(KEY, INT)},
                       inv=mo_outer),
           1: LoopSpec(name="foreign keys", done="index", types={"fk": TFK},
                       cells={"counter": TDict(KEY, INT)}, inv=mo_fk),
           2: LoopSpec(name="maximum", done="set", types={"key": KEY, "count": INT},
                       cells={"max_ref_counts": TDict(KEY, INT)}, inv=mo_max)})
