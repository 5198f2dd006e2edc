"""C01: the order in which tables are sampled."""
from contracts.graphs import *
from contracts.meta import *
from contracts.c14 import AS_GRAPH
from pydv.state import PyRaise
from subsetter import planner as PL

# an arbitrary set of nodes, closed as stated in the preconditions: what is reached lies in it
bound = z3.Function("any_closed_set", V.STR_S, z3.BoolSort())

# ------------------------------------------------------------ iterators over a set
TITER = TEnt("SetIterator", None, fields={"done": TSet(NODE)}, mutable=("done",))
yields = z3.Function("iterator_over", TITER.sort, V.STR_S, z3.BoolSort())


def setup_iters(it):
    it.setup_fieldmap(TITER, "done")
    it.ghost["iterators"] = it.alloc(VSet(TITER))


def new_iter(it, a, kw):
    c = it._cont(a[0])
    if not isinstance(c, VSet):
        raise Unsupported("iter() of something other than a set")
    x = Sym(TITER, it.fresh("iterator", TITER.sort))
    used = it.ghost["iterators"]
    it._addfacts([Not(mem(it, used, x)), forall_ty(it, NODE, lambda v: And(yields(
        x.t, v.t) == it.set_mem(c, v), Not(mem(it, it.getattr(x, "done"), v))))])
    it.set_add(used, x)
    return x


def iter_next(it, a, kw):
    x = a[0]
    done = it.getattr(x, "done")
    if not it.decide(it.fresh("more", z3.BoolSort()), prune=False):
        it.fact(forall_ty(it, NODE, lambda v: Implies(yields(x.t, v.t), mem(it, done, v))))
        raise PyRaise(Exc(StopIteration, ()))
    v = it.make(NODE, "next")
    it.fact(And(yields(x.t, v.t), Not(mem(it, done, v))))
    it.set_add(done, v)
    return v


TITER.methods["__next__"] = iter_next

# ------------------------------------------------------------ toposort_reachable
TSTACK = TSeq(TTup(NODE, TITER))
TWEIGHT = TDict(NODE, INT)


def tr_setup(it):
    setup_iters(it)
    return {"G": it.alloc(it.make(TGRAPH, "G")), "sources": it.alloc(it.make(TSeq(NODE), "sources")),
            "ignore": it.alloc(it.make(TSet(NODE), "ignore"))}


def forall_node(it, fn):
    return forall_ty(it, NODE, fn)


def new_edge(it, a, u, v):
    """an edge that does not lead to a node to ignore"""
    return And(edge(it, a.G, u, v), Not(mem(it, a.ignore, v)))


def tr_requires(it, a):
    return {
        "edges stay in the graph": closed_graph(it, a.G),
        "sources are nodes, and ignored": idx(it, lambda j: And(mem(it, a.G, at(
            it, a.sources, j)), mem(it, a.ignore, at(it, a.sources, j))), a.sources),
        "the set contains what sources lead to": idx(it, lambda j: forall_node(
            it, lambda v: Implies(new_edge(it, a, at(it, a.sources, j), v), bound(v.t))),
            a.sources),
        "the set is closed": forall_node(it, lambda u: forall_node(it, lambda v: Implies(And(
            bound(u.t), mem(it, a.G, u), new_edge(it, a, u, v)), bound(v.t)))),
    }


def wt(it, v):
    return V.term(it.dict_get(it._cont(it.lookup("weight")), v), INT)


def in_w(it, v):
    return mem(it, it.lookup("weight"), v)


def weights(it, a, finished):
    """what always holds of the nodes found so far"""
    return {
        "nodes found": forall_node(it, lambda v: Implies(in_w(it, v), And(
            wt(it, v) >= 1, mem(it, a.G, v), Not(mem(it, a.ignore, v)), bound(v.t)))),
        "each is led to": forall_node(it, lambda v: Implies(in_w(it, v), exists_ty(
            it, NODE, lambda p: And(Or(mem(it, a.sources, p), in_w(it, p)), edge(
                it, a.G, p, v))))),
        "finished nodes weigh more than what they lead to": forall_node(
            it, lambda u: Implies(finished(u), forall_node(it, lambda v: Implies(
                new_edge(it, a, u, v), And(finished(v), wt(it, u) > wt(it, v)))))),
    }


def explored(it, a, i):
    return {"what earlier sources lead to is found": forall_int(it, lambda k: forall_node(
        it, lambda v: Implies(new_edge(it, a, at(it, a.sources, k), v), in_w(it, v))), 0, i)}


def sources_inv(it, old_st, i):
    a = it.args
    it.ghost["source_no"], it.ghost["weight"] = i.t, it.lookup("weight")
    if empty_dict(it, it.lookup("weight")):
        return {"nothing found yet": V.TRUE}
    return {**weights(it, a, lambda u: in_w(it, u)), **explored(it, a, i.t)}


def children_inv(it, old_st, D):
    a = it.args
    it.ghost["children"] = D
    return {**weights(it, a, lambda u: in_w(it, u)), **explored(it, a, it.ghost["source_no"]),
            "what this source leads to": forall_node(it, lambda v: Implies(And(
                it.set_mem(D, v), Not(mem(it, a.ignore, v))), in_w(it, v)))}


def stack_node(it, i):
    return at(it, it.lookup("stk"), i).items[0]


def stack_iter(it, i):
    return at(it, it.lookup("stk"), i).items[1]


def search_inv(it, old_st):
    a, D = it.args, it.ghost["children"]
    stk, on = it.lookup("stk"), it.lookup("on_stk")
    n = slen(it, stk)
    u0 = at_state(it, old_st, lambda: it.lookup("u"))

    def finished(u):
        return And(in_w(it, u), Not(mem(it, on, u)))

    def done(i, v):
        return mem(it, it.getattr(stack_iter(it, i), "done"), v)
    return {
        **weights(it, a, finished), **explored(it, a, it.ghost["source_no"]),
        "what this source leads to": forall_node(it, lambda v: Implies(And(Or(it.set_mem(
            D, v), eq(it, v, u0)), Not(mem(it, a.ignore, v))), in_w(it, v))),
        "nodes on the stack": forall_node(it, lambda v: mem(it, on, v) == exidx(
            it, lambda i: eq(it, stack_node(it, i), v), stk)),
        "nodes on the stack are found": idx(it, lambda i: in_w(it, stack_node(it, i)), stk),
        "each node is on the stack once": idx(it, lambda j: forall_int(it, lambda i: And(
            Not(eq(it, stack_node(it, i), stack_node(it, j))),
            Not(eq(it, stack_iter(it, i), stack_iter(it, j)))), 0, j), stk),
        "iterators of the stack": idx(it, lambda i: And(mem(it, it.ghost[
            "iterators"], stack_iter(it, i)), forall_node(it, lambda v: And(
                yields(stack_iter(it, i).t, v.t) == edge(it, a.G, stack_node(it, i), v),
                Implies(done(i, v), yields(stack_iter(it, i).t, v.t))))), stk),
        "each node leads to the next": forall_int(it, lambda i: edge(
            it, a.G, stack_node(it, i), stack_node(it, i + 1)), 0, n - 1),
        "what was visited": idx(it, lambda i: forall_node(it, lambda v: Implies(And(done(
            i, v), Not(mem(it, a.ignore, v))), Or(
                And(finished(v), wt(it, stack_node(it, i)) > wt(it, v)),
                And(i + 1 < n, eq(it, v, stack_node(it, i + 1)))))), stk),
    }


def cycle_inv(it, old_st, i):
    cyc, stk, v = it.lookup("cyc"), it.lookup("stk"), it.lookup("v")
    n = slen(it, stk)
    return {"the stack from its top": And(slen(it, cyc) == i.t, idx(it, lambda k: And(
        eq(it, at(it, cyc, k), stack_node(it, n - 1 - k))), cyc)),
        "not down to the repeated node yet": forall_int(it, lambda m: Not(eq(
            it, stack_node(it, m), v)), n - i.t, n)}


def tr_post(it, a, r):
    return {
        "each node once": idx(it, lambda j: forall_int(it, lambda i: Not(eq(
            it, at(it, r, i), at(it, r, j))), 0, j), r),
        "nodes led to, not ignored": idx(it, lambda j: And(mem(it, a.G, at(it, r, j)), Not(mem(
            it, a.ignore, at(it, r, j))), bound(at(it, r, j).t)), r),
        "everything that sources lead to": idx(it, lambda j: forall_node(it, lambda v: Implies(
            new_edge(it, a, at(it, a.sources, j), v), mem(it, r, v))), a.sources),
        "everything that these lead to": idx(it, lambda j: forall_node(it, lambda v: Implies(
            new_edge(it, a, at(it, r, j), v), mem(it, r, v))), r),
        "before what it leads to": idx(it, lambda i: idx(it, lambda j: Implies(edge(
            it, a.G, at(it, r, i), at(it, r, j)), i < j), r), r),
        "each is led to from a source or earlier": idx(it, lambda j: Or(exidx(it, lambda i: edge(
            it, a.G, at(it, a.sources, i), at(it, r, j)), a.sources), exists_int(
                it, lambda i: edge(it, a.G, at(it, r, i), at(it, r, j)), 0, j)), r),
    }


def tr_run(it, a, fn):
    r = it.call_py(fn, [a.G, a.sources, a.ignore], {})
    w = it.ghost["weight"]
    it.oblige("the nodes found are returned", And(idx(it, lambda j: mem(it, w, at(
        it, r, j)), r), forall_node(it, lambda v: mem(it, r, v) == mem(it, w, v))))
    return r


def cycle_facts(it, G, c, ok):
    n = slen(it, c)
    return {
        "a real cycle": And(n >= 1, forall_int(it, lambda k: edge(it, G, at(it, c, k), at(
            it, c, k + 1)), 0, n - 1), edge(it, G, at(it, c, n - 1), at(it, c, 0))),
        "of nodes led to": idx(it, lambda k: And(mem(it, G, at(it, c, k)), ok(at(it, c, k))), c),
    }


def tr_raise(it, a, e):
    if "cycle" not in e.fields:
        e.fields["cycle"] = it.alloc(it.make(TSeq(NODE), "cycle"))
    return cycle_facts(it, a.G, e.fields["cycle"], lambda v: And(Not(mem(
        it, a.ignore, v)), bound(v.t)))


def own_iters(it, a):
    """iterators made here are known nowhere else"""
    return [] if "iterators" not in it.ghost else [
        (it.fieldmap(TITER, "done"), TDict(TITER, TSet(NODE))),
        (it.ghost["iterators"], TSet(TITER))]


ITER_CELL = {(lambda it: it.fieldmap(TITER, "done")): TDict(TITER, TSet(NODE)),
             (lambda it: it.ghost["iterators"]): TSet(TITER)}
VARS = {"u": NODE, "v": NODE, "it": TITER, "w": NODE, "on_stk": TSet(NODE), "stk": TSTACK,
        "cyc": TSeq(NODE)}
REACH = Contract(
    "subsetter.solver:toposort_reachable", modular=True, returns=TSeq(NODE), setup=tr_setup, run=tr_run,
    requires=tr_requires, ensures=tr_post, raises={S.CycleException: tr_raise},
    covers=("return", "CycleException"), modifies=own_iters, models={"iter_hook": new_iter},
    loops={0: LoopSpec(name="sources", done="index", inv=sources_inv, types={
        "source_u": NODE, **VARS}, cells={"weight": TWEIGHT, **ITER_CELL}),
        1: LoopSpec(name="children", done="set", inv=children_inv, types=VARS,
                    cells={"weight": TWEIGHT, **ITER_CELL}),
        2: LoopSpec(name="search", inv=search_inv, types={k: v for k, v in VARS.items() if k not in (
            "on_stk", "stk")}, cells={"weight": TWEIGHT, "on_stk": TSet(NODE), "stk": TSTACK,
                                      **ITER_CELL}),
        3: LoopSpec(name="cycle", done="index", inv=cycle_inv, types={"w": NODE},
                    cells={"cyc": TSeq(NODE)})})

# ------------------------------------------------------------ order_graph
def og_setup(it):
    return {"G": it.alloc(it.make(TGRAPH, "G")), "source": it.make(NODE, "source"),
            "_cycle": it.alloc(it.make(TSeq(NODE), "any_cycle"))}


def leads(it, g, u, v):
    """g has both nodes, and an edge between them"""
    return And(mem(it, g, u), edge(it, g, u, v))


def one_way(it, g, s):
    """s only leads to nodes, or is only led to"""
    return Or(forall_node(it, lambda v: Not(leads(it, g, s, v))),
              forall_node(it, lambda v: Not(leads(it, g, v, s))))


def og_requires(it, a):
    return {
        "edges stay in the graph": closed_graph(it, a.G),
        "the source is a node": mem(it, a.G, a.source),
        "the source has edges in one direction only": one_way(it, a.G, a.source),
        # an arbitrary set of nodes that contains the source and what is connected to it
        "the set contains the source": bound(V.term(a.source, STR)),
        "the set contains what is connected": forall_node(it, lambda u: forall_node(
            it, lambda v: Implies(leads(it, a.G, u, v), bound(u.t) == bound(v.t)))),
    }


def direction(it, r, k, e, last=None):
    """the k-th has an earlier neighbour, and those lead to it or it to them, not both"""
    u = at(it, r, k)

    def near(v):
        return Or(e(v, u), e(u, v))
    if last is None:
        some = exists_int(it, lambda j: near(at(it, r, j)), 0, k)
    else:  # the same, said apart of the last nodes of r, which are those of a list of their own
        n0 = slen(it, r) - slen(it, last)
        some = Or(exists_int(it, lambda j: And(j < k, near(at(it, r, j))), 0, n0), exidx(
            it, lambda i: And(n0 + i < k, near(at(it, last, i))), last))
    return (some,
            forall_int(it, lambda i: forall_int(it, lambda j: Not(And(e(at(it, r, i), u), e(
                u, at(it, r, j)))), 0, k), 0, k))


def ordered(it, g, r, n, last=None):
    def e(u, v):
        return leads(it, g, u, v)
    return {"each has an earlier neighbour": forall_int(it, lambda k: direction(
        it, r, k, e, last)[0], 1, n),
        "in one direction": forall_int(it, lambda k: direction(it, r, k, e)[1], 1, n)}


def og_inv(it, old_st):
    a, G, RG, H = it.args, it.lookup("G"), it.lookup("RG"), it.lookup("H")
    r, vis = it.lookup("result"), it.lookup("vis")
    n = slen(it, r)
    return {
        "the graph and its reverse": And(
            forall_node(it, lambda u: And(mem(it, G, u) == mem(it, a.G, u), mem(
                it, RG, u) == mem(it, a.G, u))),
            forall_node(it, lambda u: forall_node(it, lambda v: leads(it, G, u, v) == leads(
                it, RG, v, u))), closed_graph(it, G), closed_graph(it, RG),
            Or(same_edges(it, G, a.G), same_edges(it, RG, a.G))),
        "the source comes first": And(n >= 1, eq(it, at(it, r, 0), a.source)),
        **og_nodes(it, a, r),
        "nodes visited": forall_node(it, lambda v: mem(it, vis, v) == mem(it, r, v)),
        "the last nodes": And(slen(it, H) <= n, idx(it, lambda j: eq(it, at(it, H, j), at(
            it, r, n - slen(it, H) + j)), H)),
        **ordered(it, G, r, n, H),
        "nothing leads to itself": idx(it, lambda k: Not(leads(it, G, at(it, r, k), at(
            it, r, k))), r),
        "neighbours of earlier nodes": forall_node(it, lambda u: forall_node(
            it, lambda v: Implies(And(mem(it, vis, u), Not(mem(it, H, u)), Or(leads(
                it, G, u, v), leads(it, RG, u, v))), mem(it, vis, v)))),
        "what led from the last nodes": forall_node(it, lambda u: forall_node(
            it, lambda v: Implies(And(mem(it, H, u), leads(it, RG, u, v)), mem(it, vis, v)))),
    }


def og_nodes(it, a, r):
    return {"each node once": idx(it, lambda j: forall_int(it, lambda i: Not(eq(
        it, at(it, r, i), at(it, r, j))), 0, j), r),
        "nodes connected to the source": idx(it, lambda j: And(mem(it, a.G, at(
            it, r, j)), bound(at(it, r, j).t)), r)}


def same_edges(it, g, h):
    return forall_node(it, lambda u: forall_node(it, lambda v: leads(it, g, u, v) == leads(
        it, h, u, v)))


def is_cycle(it, g, c):
    n = slen(it, c)
    return And(n >= 1, forall_int(it, lambda k: leads(it, g, at(it, c, k), at(
        it, c, k + 1)), 0, n - 1), leads(it, g, at(it, c, n - 1), at(it, c, 0)))


place = z3.Function("place_in_order", V.STR_S, z3.IntSort())
LAST = """
def last(cycle, place):
    best = 0
    for i in range(len(cycle)):
        if place(cycle[i]) > place(cycle[best]):
            best = i
    return best
"""


def og_run(it, a, fn):
    r = it.call_py(fn, [a.G, a.source], {})
    c, n = a._cycle, slen(it, a._cycle)
    # lemma: no cycle among the nodes in the order; else consider its last node in the order
    if not it.decide(is_cycle_in(it, a, r)):
        return r
    it._addfacts([idx(it, lambda k: place(at(it, r, k).t) == k, r)])

    def inv(it, old_st, i):
        b = V.term(it.lookup("best"), INT)
        return {"last so far": And(b >= 0, Or(b < i.t, b == 0), forall_int(it, lambda k: place(at(
            it, c, k).t) <= place(at(it, c, b).t), 0, i.t))}
    b = ghost_call(it, LAST, [c, Native(lambda it, a, kw: Sym(INT, place(
        a[0].t)), "place")], {0: LoopSpec(name="cycle", done="index", inv=inv, types={
        "i": INT, "best": INT})})
    b = V.term(b, INT)
    x = at(it, c, b)
    p = at(it, c, n - 1 if it.decide(b == 0) else b - 1)
    s = at(it, c, z3.IntVal(0) if it.decide(b == n - 1) else b + 1)
    it.oblige("the last node of a cycle and its neighbours", And(leads(it, a.G, p, x), leads(
        it, a.G, x, s), *[And(0 <= place(y.t), place(y.t) < slen(it, r), eq(it, at(it, r, place(
            y.t)), y)) for y in (x, p, s)]))
    it.oblige("no cycle among the nodes in the order", V.FALSE)
    return r


def og_post(it, a, r):
    return {
        "the source comes first": And(slen(it, r) >= 1, eq(it, at(it, r, 0), a.source)),
        **og_nodes(it, a, r),
        "everything connected": forall_node(it, lambda u: forall_node(it, lambda v: Implies(
            And(mem(it, r, u), Or(leads(it, a.G, u, v), leads(it, a.G, v, u))), mem(it, r, v)))),
        **ordered(it, a.G, r, slen(it, r)),
        "no cycle": Not(is_cycle_in(it, a, r)),
    }


def is_cycle_in(it, a, r):
    """an arbitrary sequence of nodes, the caller's where there is one, is a cycle among r"""
    c = it.args._cycle
    return And(is_cycle(it, a.G, c), idx(it, lambda k: mem(it, r, at(it, c, k)), c))


def og_raise(it, a, e):
    if "cycle" not in e.fields:
        e.fields["cycle"] = it.alloc(it.make(TSeq(NODE), "cycle"))
    c = e.fields["cycle"]
    n = slen(it, c)
    back = And(n >= 1, forall_int(it, lambda k: leads(it, a.G, at(it, c, k + 1), at(
        it, c, k)), 0, n - 1), leads(it, a.G, at(it, c, 0), at(it, c, n - 1)))
    return {"a real cycle": Or(is_cycle(it, a.G, c), back),
            "of nodes connected to the source": idx(it, lambda k: And(mem(it, a.G, at(
                it, c, k)), bound(at(it, c, k).t)), c)}


ORDER = Contract(
    "subsetter.solver:order_graph", modular=True, setup=og_setup, requires=og_requires,
    returns=TSeq(NODE), ensures=og_post, raises={S.CycleException: og_raise}, run=og_run,
    covers=("return", "CycleException"),
    loops={0: LoopSpec(name="steps", inv=og_inv, types={
        "H": TSeq(NODE), "G": TGRAPH, "RG": TGRAPH},
        cells={"vis": TSet(NODE), "result": TSeq(NODE)})})

# ------------------------------------------------------------ the order of the tables
TTARGET = TEnt("Target1", None)
TCONF = TEnt("Config1", None, fields={"targets": TDict(STR, TTARGET)})


def so_setup(it):
    it._addfacts([Not(hasdot(V.term("", STR)))])
    return {"self": it.alloc(VInst(PL.Planner, {
        "meta": make_meta(it), "ignore_tables": it.alloc(it.make(TSet(KEY), "ignore")),
        "passthrough_tables": it.alloc(it.make(TSet(KEY), "passthrough")),
        "config": it.make(TCONF, "config")})),
        "_cycle": it.alloc(it.make(TSeq(NODE), "any_cycle"))}


def so_tables(it, a):
    return tables_of(it, field(it, a.self, "meta"))


def name_key(n):
    return VTup([Sym(STR, LEFT(n.t)), Sym(STR, RIGHT(n.t))])


def sampled_key(it, a, k):
    return And(mem(it, so_tables(it, a), k), Not(mem(it, field(it, a.self, "ignore_tables"), k)),
               Not(mem(it, field(it, a.self, "passthrough_tables"), k)))


# the tables to order and the references between them, as symbols with definitions: the argument
# after the graph is made needs no definition
smp = z3.Function("sampled_table", V.STR_S, z3.BoolSort())
ref = z3.Function("refers_to", V.STR_S, V.STR_S, z3.BoolSort())


def sampled(it, a, n):
    return smp(n.t)


def refers(it, a, u, v):
    return ref(u.t, v.t)


def definitions(it, a):
    return {"the tables": forall_node(it, lambda n: smp(n.t) == is_sampled(it, a, n)),
            "their references": forall_node(it, lambda u: forall_node(it, lambda v: ref(
                u.t, v.t) == does_refer(it, a, u, v)))}


def is_sampled(it, a, n):
    """n names a table that is neither ignored nor copied as a whole"""
    return And(hasdot(n.t), sampled_key(it, a, name_key(n)))


def does_refer(it, a, u, v):
    """the table named u has a key into the table named v"""
    t = it.dict_get(it._cont(so_tables(it, a)), name_key(u))
    return And(smp(u.t), smp(v.t), exidx(it, lambda j: eq(
        it, key_name(it, fk_dst(it, at(it, fks(it, t), j))), v), fks(it, t)))


def is_target(it, a, n):
    return mem(it, it.getattr(field(it, a.self, "config"), "targets"), n)


def so_requires(it, a):
    ts = so_tables(it, a)
    return {
        **meta_inv(it, field(it, a.self, "meta")), **definitions(it, a),
        "keys refer to tables by schema and name": forall_table(it, ts, lambda k, t: idx(
            it, lambda j: nodot(fk_schema(it, t, j)), fks(it, t))),
        # an arbitrary set that contains the targets and what is connected to them
        "the set contains the targets": forall_node(it, lambda n: Implies(is_target(
            it, a, n), bound(n.t))),
        "the set contains what is connected": forall_node(it, lambda u: forall_node(
            it, lambda v: Implies(refers(it, a, u, v), bound(u.t) == bound(v.t)))),
        "targets have names": Not(is_target(it, a, Sym(STR, V.term("", STR)))),
        "the set contains the source": bound(V.term("", STR)),
    }


def fk_schema(it, t, j):
    return V.term(it.getattr(at(it, fks(it, t), j), "dst_schema"), STR)


def cycle_of(it, a, c, n, fwd=True):
    e = (lambda u, v: refers(it, a, u, v)) if fwd else (lambda u, v: refers(it, a, v, u))
    return And(n >= 1, forall_int(it, lambda k: e(at(it, c, k), at(it, c, k + 1)), 0, n - 1), e(
        at(it, c, n - 1), at(it, c, 0)))


def so_post(it, a, r):
    def e(u, v):
        return refers(it, a, u, v)

    def among(k):
        return Not(is_target(it, a, at(it, r, k)))
    c = a._cycle
    return {
        "each table once": idx(it, lambda j: forall_int(it, lambda i: Not(eq(
            it, at(it, r, i), at(it, r, j))), 0, j), r),
        "tables connected to a target, no others": idx(it, lambda j: And(sampled(it, a, at(
            it, r, j)), bound(at(it, r, j).t)), r),
        "every target": forall_node(it, lambda n: Implies(is_target(it, a, n), mem(it, r, n))),
        "every table connected": forall_node(it, lambda u: forall_node(it, lambda v: Implies(
            refers(it, a, u, v), mem(it, r, u) == mem(it, r, v)))),
        "a target refers to no earlier table": idx(it, lambda k: forall_int(it, lambda j: Not(And(
            is_target(it, a, at(it, r, k)), e(at(it, r, k), at(it, r, j)))), 0, k), r),
        "others are connected to an earlier table": idx(it, lambda k: Implies(among(
            k), direction(it, r, k, e)[0]), r),
        "earlier tables are all referenced or all refer": idx(it, lambda k: Implies(among(
            k), direction(it, r, k, e)[1]), r),
        "no cycle among the tables": Not(And(cycle_of(it, a, c, slen(it, c)), idx(
            it, lambda k: mem(it, r, at(it, c, k)), c))),
    }


def so_raise(it, a, e):
    joined = it.ghost.get(("names", e.args[0].t.get_id())) if e.args and isinstance(
        e.args[0], Sym) else None
    if joined is None:
        return {"some target is no table to be sampled": exists_ty(it, NODE, lambda n: And(
            is_target(it, a, n), Not(sampled(it, a, n))))}
    n = slen(it, joined) - 1
    return {"the tables named form a cycle": And(eq(it, at(it, joined, n), at(
        it, joined, 0)), Or(cycle_of(it, a, joined, n), cycle_of(it, a, joined, n, False))),
        "connected to the targets": idx(it, lambda k: And(sampled(it, a, at(
            it, joined, k)), bound(at(it, joined, k).t)), joined)}


def join_names(it, a, kw):
    s = it.make(STR, "joined")
    it.ghost[("names", s.t.get_id())] = it.freeze(a[1]) if isinstance(a[1], Ref) else a[1]
    it.ghost.setdefault("joined", []).append(s)  # keeps the term
    return s


def text(it, parts):
    for p in parts:
        if isinstance(p, tuple) and isinstance(p[1], Sym) and p[2] == -1 and (
                "names", p[1].t.get_id()) in it.ghost:
            s = it.make(STR, "message")
            it.ghost[("names", s.t.get_id())] = it.ghost[("names", p[1].t.get_id())]
            it.ghost["joined"].append(s)
            return s
    return None


def ordering(it, args, kw):
    """order_graph by its contract, after what its graph has to be"""
    a, g = it.args, args[0] if args else kw["G"]
    source = args[1] if len(args) > 1 else kw["source"]
    src = Sym(STR, V.term(source, STR))
    facts = {
        "its nodes are the source and the tables": forall_node(it, lambda n: mem(
            it, g, n) == Or(eq(it, n, src), sampled(it, a, n))),
        "the source is no table": Not(sampled(it, a, src)),
        "only tables refer": forall_node(it, lambda u: forall_node(it, lambda v: Implies(refers(
            it, a, u, v), And(sampled(it, a, u), sampled(it, a, v))))),
        "the targets are tables": forall_node(it, lambda n: Implies(is_target(
            it, a, n), sampled(it, a, n))),
        "an edge for each target and reference": forall_node(it, lambda u: Implies(mem(
            it, g, u), forall_node(it, lambda v: edge(it, g, u, v) == z3.If(eq(
                it, u, src), is_target(it, a, v), refers(it, a, u, v))))),
        **{k: v for k, v in so_requires(it, a).items() if k.startswith("the set")},
    }
    for nm, f in facts.items():
        it.oblige(f"the graph: {nm}", f)
    # the rest of the argument needs only these: drop the other hypotheses
    keep = {f.get_id() for f in facts.values()}
    it.st.pc[:] = [(k, f if f.get_id() in keep else V.TRUE) for k, f in it.st.pc]
    h = it.alloc(it.make(TGRAPH, "graph"))
    it._addfacts([
        forall_node(it, lambda n: mem(it, h, n) == Or(eq(it, n, src), sampled(it, a, n))),
        forall_node(it, lambda u: forall_node(it, lambda v: edge(it, h, u, v) == z3.If(eq(
            it, u, src), is_target(it, a, v), refers(it, a, u, v))))])
    r = it.apply_contract(ORDER, S.order_graph, [h, source], {})
    it.oblige("the order: every table connected", forall_node(it, lambda u: forall_node(
        it, lambda v: Implies(refers(it, a, u, v), mem(it, r, u) == mem(it, r, v)))))
    it.oblige("the order: its tables", forall_node(it, lambda u: Implies(Not(eq(it, u, src)), mem(
        it, r, u) == exists_int(it, lambda i: eq(it, at(it, r, i + 1), u), 0, slen(it, r) - 1))))
    return r


SOLVE = Contract(
    "subsetter.planner:Planner._solve_order", setup=so_setup, requires=so_requires,
    ensures=so_post, raises={ValueError: so_raise}, covers=("return", "ValueError"),
    models={("fstr", "*"): text, (str, "join"): join_names, S.order_graph: ordering})

MODELS = NAME_MODELS
AXIOMS = [name_axioms]
CONTRACTS = [REACH, ORDER, SOLVE]
ALL = [REACH, REVERSE, ORDER, AS_GRAPH, PARSE]
ASSUMPTIONS = [
    "an iterator over a set yields each of its elements once, in any order, then stops",
    "foreign keys name the table they refer to by a schema without a dot (as reflected; C14)",
    "no target is named by the empty string",
    "the metadata is what DatabaseMetadata holds (proved for from_engine under C14)"]
TRUSTED = ["str.join of names is read back as these names (texts of error messages)", "sorted"]
