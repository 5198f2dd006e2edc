"""Shared vocabulary of the graph contracts (C01, C02): a graph is a dict of node -> node set."""
from contracts.lib import *
from pydv import models as M
from subsetter import solver as S

NODE = STR
TGRAPH = TDict(NODE, TSet(NODE))


def gdom(it, g, u):
    return mem(it, g, u)


def dict_of(it, g):
    """content of a graph parameter or value"""
    return it._cont(g)


def edge(it, g, u, v):
    """v is a successor of u in g"""
    if empty_dict(it, g):
        return V.FALSE
    c = it._cont(g)
    return it.set_mem(it._cont(it.dict_get(c, u)), v)


def node_type(it, g):
    return it._cont(g).kty


def closed_graph(it, g):
    """every edge stays among the graph's nodes"""
    NODE = node_type(it, g)
    return forall_ty(it, NODE, lambda u: forall_ty(it, NODE, lambda v: Implies(
        And(mem(it, g, u), edge(it, g, u, v)), mem(it, g, v))))


def rg_edge(it, g, u, v, union):
    e = And(mem(it, g, v), edge(it, g, v, u))
    un = V.term(union, BOOL)
    return Or(e, And(un, edge(it, g, u, v)))


def rg_post(it, a, r):
    NODE = node_type(it, a.G)
    return {
        "same nodes": forall_ty(it, NODE, lambda u: mem(it, r, u) == mem(it, a.G, u)),
        "an edge exactly for each reversed edge": forall_ty(it, NODE, lambda u: forall_ty(
            it, NODE, lambda v: Implies(mem(it, a.G, u), edge(it, r, u, v) == rg_edge(
                it, a.G, u, v, a.union)))),
    }


REVERSE = Contract("subsetter.solver:reverse_graph", modular=True,
                   returns=lambda it, a: TDict(node_type(it, a.G), TSet(node_type(it, a.G))),
                   params={"G": TGRAPH, "union": BOOL},
                   requires=lambda it, a: {"edges stay in the graph": closed_graph(it, a.G)},
                   ensures=rg_post)


# ------------------------------------------------------------ toposort
# Ghost: A = array of the nodes already processed; left(A, v) = number of successors of v in G
# not yet processed (a natural number: the graph is finite).
ARR = z3.ArraySort(V.STR_S, z3.BoolSort())


def left(it):
    return z3.Function("left", ARR, V.STR_S, z3.IntSort())


def left_facts(it, A, B=None, x=None):
    """facts of finite counting for A, and for B = A with x added"""
    g = it.args.G
    L = left(it)
    v, y = z3.Const(it.fresh_name("v"), V.STR_S), z3.Const(it.fresh_name("y"), V.STR_S)
    sv, sy = Sym(STR, v), Sym(STR, y)
    fs = [it.forall([v], lambda: And(
        L(A, v) >= 0,
        Implies(mem(it, g, sv), (L(A, v) == 0) == it.forall([y], lambda: Implies(
            edge(it, g, sv, sy), z3.Select(A, y))))))]
    if B is not None:
        fs.append(it.forall([v], lambda: Implies(mem(it, g, sv), L(B, v) == L(A, v) - z3.If(And(
            edge(it, g, sv, Sym(STR, x)), Not(z3.Select(A, x))), 1, 0))))
    it._addfacts(fs)


def processed(it, A, q, i):
    y = z3.Const(it.fresh_name("y"), V.STR_S)
    return it.forall([y], lambda: z3.Select(A, y) == exists_int(
        it, lambda k: eq(it, at(it, q, k), Sym(STR, y)), 0, i))


def q_facts(it, g, q):
    """what holds of the queue whenever it is looked at"""
    return {
        "nodes queued once": idx(it, lambda k: idx(it, lambda l: Implies(
            k < l, Not(eq(it, at(it, q, k), at(it, q, l)))), q), q),
        "only nodes queued": idx(it, lambda k: mem(it, g, at(it, q, k)), q),
        "dependencies queued earlier": idx(it, lambda k: forall_ty(it, NODE, lambda v: Implies(
            edge(it, g, at(it, q, k), v), exists_int(
                it, lambda j: eq(it, at(it, q, j), v), 0, k))), q),
    }


def inq(it, q, v):
    return mem(it, q, v)


def deg_of(it, deg, v):
    return V.term(it.dict_get(it._cont(deg), v), INT)


def outer_inv(it, old, i):
    g, q, deg = it.args.G, it.lookup("q"), it.lookup("deg")
    it.ghost["q"] = q
    L = left(it)
    i = i.t
    if z3.is_add(i):
        A0, x = it.ghost[("A", i.arg(0).get_id())], at(it, q, i.arg(0)).t
        A = z3.Store(A0, x, True)
        left_facts(it, A0, A, x)
    elif z3.is_int_value(i):
        A = z3.K(V.STR_S, z3.BoolVal(False))
        left_facts(it, A)
        # an empty processed set leaves every successor
        n = z3.Function("degree", V.STR_S, z3.IntSort())
        v = z3.Const(it.fresh_name("v"), V.STR_S)
        it._addfacts([ForAll([v], L(A, v) == n(v))])
    else:
        A = it.fresh("A", ARR)
        it.ghost[("A", i.get_id())] = A
        left_facts(it, A)
    it.ghost["cur"] = A
    d = q_facts(it, g, q)
    d["processed nodes are the first of the queue"] = processed(it, A, q, i)
    d["counters"] = forall_ty(it, NODE, lambda v: And(
        mem(it, deg, v) == mem(it, g, v),
        Implies(mem(it, g, v), deg_of(it, deg, v) == L(A, v.t))))
    d.update(ready(it, g, q, deg))
    return d


def ready(it, g, q, deg):
    return {
        "queued only when nothing is left": idx(it, lambda k: deg_of(it, deg, at(
            it, q, k)) == 0, q),
        "queued once nothing is left": forall_ty(it, NODE, lambda v: Implies(And(mem(
            it, g, v), deg_of(it, deg, v) == 0), inq(it, q, v)))}


def inner_inv(it, old, D):
    g, q, deg, u = it.args.G, it.lookup("q"), it.lookup("deg"), it.lookup("u")
    A = it.ghost["cur"]
    L = left(it)
    B = z3.Store(A, u.t, True)
    left_facts(it, A, B, u.t)
    left_facts(it, B)
    oq = _in(it, old, lambda: it.freeze(q))
    n0 = slen(it, oq)
    d = q_facts(it, g, q)
    d["the node is being processed for the first time"] = Not(z3.Select(A, u.t))
    d["dependants wait for the node"] = forall_ty(it, NODE, lambda v: Implies(
        And(mem(it, g, v), edge(it, g, v, u)), L(A, v.t) >= 1))
    d["queue only grows"] = And(slen(it, q) >= n0, forall_int(
        it, lambda k: eq(it, at(it, q, k), at(it, oq, k)), 0, n0))
    d["counters"] = forall_ty(it, NODE, lambda v: And(
        mem(it, deg, v) == mem(it, g, v),
        Implies(mem(it, g, v), deg_of(it, deg, v) == L(A, v.t) - z3.If(mem(it, D, v), 1, 0))))
    d.update(ready(it, g, q, deg))
    return d


def _in(it, st0, fn):
    cur = it.st
    st = st0.copy()
    st.binders = cur.binders
    it.st = st
    try:
        return fn()
    finally:
        it.st = cur


def m_len(it, a, kw):
    """len() with the facts of finite counting used by the argument"""
    c = it._cont(a[0])
    r = M.m_len(it, a, kw)
    if isinstance(c, VSet) and it.st.binders:
        # the degree of a node
        n = z3.Function("degree", V.STR_S, z3.IntSort())
        u = z3.Const(it.fresh_name("u"), V.STR_S)
        y = z3.Const(it.fresh_name("y"), V.STR_S)
        it._addfacts([it.forall([u], lambda: Implies(And(mem(it, it.args.G, Sym(STR, u)), it.forall(
            [y], lambda: it.set_mem(c, Sym(STR, y)) == edge(it, it.args.G, Sym(STR, u), Sym(
                STR, y)))), r.t == n(u)))])
    elif isinstance(c, VSeq):
        it.ghost["seq"] = c
    elif isinstance(c, VDict) and "seq" in it.ghost:
        q = it.ghost["seq"]
        n = slen(it, q)
        it._addfacts([Implies(And(
            idx(it, lambda k: mem(it, c, at(it, q, k)), q),
            idx(it, lambda k: idx(it, lambda l: Implies(
                k < l, Not(eq(it, at(it, q, k), at(it, q, l)))), q), q)),
            And(n <= r.t, (n == r.t) == forall_ty(it, NODE, lambda v: Implies(
                mem(it, c, v), inq(it, q, v)))))])
    return r


def topo_post(it, a, r):
    g = a.G
    NODE = node_type(it, g)
    return {
        "each node once": And(
            forall_ty(it, NODE, lambda v: Implies(mem(it, g, v), inq(it, r, v))),
            idx(it, lambda k: mem(it, g, at(it, r, k)), r),
            idx(it, lambda k: idx(it, lambda l: Implies(
                k < l, Not(eq(it, at(it, r, k), at(it, r, l)))), r), r)),
        "every node after all nodes it depends on": idx(it, lambda k: forall_ty(
            it, NODE, lambda v: Implies(edge(it, g, at(it, r, k), v), exists_int(
                it, lambda j: eq(it, at(it, r, j), v), 0, k))), r),
    }


def topo_raise(it, a, e):
    """the unsorted nodes: a nonempty set in which every node has a successor in the set"""
    g = a.G
    NODE = node_type(it, g)
    q = it.ghost.get("q") if isinstance(a, type(it.args)) and a is it.args else None
    if q is None or it.current is not TOPO:
        s = it.make(TSet(NODE), "stuck")
        out = lambda v: it.set_mem(s, v)
        it.ghost["stuck"] = s
    else:
        out = lambda v: Not(inq(it, q, v))
    return {
        "some nodes cannot be ordered": exists_ty(it, NODE, lambda v: And(
            mem(it, g, v), out(v))),
        "each of them depends on another of them": forall_ty(it, NODE, lambda u: Implies(
            And(mem(it, g, u), out(u)), exists_ty(it, NODE, lambda v: And(
                edge(it, g, u, v), mem(it, g, v), out(v))))),
    }


TOPO = Contract("subsetter.solver:toposort", modular=True,
                returns=lambda it, a: TSeq(node_type(it, a.G)),
                params={"G": TGRAPH},
                requires=lambda it, a: {"edges stay in the graph": closed_graph(it, a.G)},
                ensures=topo_post, raises={ValueError: topo_raise}, covers=("return", "ValueError"),
                models={len: m_len},
                loops={1: LoopSpec(name="queue", done="index",
                                   types={"u": NODE, "v": NODE},
                                   cells={"q": TSeq(NODE), "deg": TDict(NODE, INT)},
                                   inv=outer_inv),
                       2: LoopSpec(name="dependants", types={"v": NODE},
                                   cells={"q": TSeq(NODE), "deg": TDict(NODE, INT)},
                                   inv=inner_inv)})
