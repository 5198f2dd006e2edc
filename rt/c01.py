"""C01: orders produced by the solver and by the planner, against a brute-force reading."""
import re

from rt import e2e
from rt.runner import Suite


def closure(adj, src):
    seen, todo = {src}, [src]
    while todo:
        for v in adj[todo.pop()]:
            if v not in seen:
                seen.add(v)
                todo.append(v)
    return seen


def cyclic(G, within):
    within = set(within)
    while True:
        leaf = [u for u in within if not (set(G[u]) & within)]
        if not leaf:
            return bool(within)
        within -= set(leaf)


def real_cycle(G, cyc):
    if not cyc:
        return False
    k = len(cyc)
    return (all(cyc[(i + 1) % k] in G.get(cyc[i], ()) for i in range(k)) or
            all(cyc[i] in G.get(cyc[(i + 1) % k], ()) for i in range(k)))


def judge(G, source, targets, order=None, cyc=None, refused=None):
    """G: edges among tables (source excluded); order: without the source"""
    und = {u: set(G[u]) | {w for w in G if u in G[w]} for u in G}
    und[source] = set(targets)
    conn = closure(und, source) - {source}
    bad = cyclic(G, conn)
    if refused is not None:
        if not bad:
            return "refused", f"refused ({refused}) though {G} has no cycle near {targets}"
        if cyc is not None and not real_cycle(G, cyc):
            return "cycle-named", f"named cycle {cyc} is not a cycle of {G}"
        if cyc is not None and not set(cyc) <= conn:
            return "cycle-named", f"named cycle {cyc} is not connected to {targets} in {G}"
        return None
    if bad:
        return "accepted", f"order {order} given although {G} has a cycle near {targets}"
    if len(set(order)) != len(order) or set(order) != conn:
        return "tables", f"order {order} of {G} from {targets}: expected exactly {sorted(conn)}"
    seen = set()
    for u in order:
        f = {v for v in seen if v in G[u]}
        b = {v for v in seen if u in G[v]}
        if u in targets:
            if f:
                return "target", f"target {u} after referenced {f} in {order} of {G}"
        elif bool(f) == bool(b):
            return "direction", f"{u} in {order} of {G}: references {f}, referenced by {b}"
        seen.add(u)
    return None


def gen(rng, i):
    n = rng.choice([2, 3, 4, 5, 6, 7])
    names = ["abcdefgh"[k] for k in range(n)]
    p = rng.choice([.1, .2, .35])
    dag = rng.random() < .75
    perm = list(names)
    rng.shuffle(perm)
    G = {u: [v for v in names if (u != v or rng.random() < .1) and rng.random() < p and
             (not dag or perm.index(v) > perm.index(u))] for u in names}
    return {"G": G, "targets": rng.sample(names, rng.choice([1, 1, 2, min(n, 3)]))}


def check(case):
    from subsetter.solver import CycleException, order_graph
    G = {u: set(vs) for u, vs in case["G"].items()}
    H = {u: set(vs) for u, vs in G.items()}
    H[""] = set(case["targets"])
    try:
        order = order_graph(H, "")
    except CycleException as e:
        return judge(G, "", case["targets"], cyc=list(e.cycle), refused=str(e))
    except Exception as e:
        return "raises", f"order_graph raises {type(e).__name__}: {e} on {G} {case['targets']}"
    if not order or order[0] != "":
        return "source", f"order {order} does not start with the source"
    return judge(G, "", case["targets"], order=list(order[1:]))


def gen_back(rng, i):
    c = gen(rng, i)
    return c


def check_back(case):
    """a source that only has incoming edges"""
    from subsetter.solver import CycleException, order_graph
    G = {u: set(vs) for u, vs in case["G"].items()}
    H = {u: set(vs) | ({"z"} if u in case["targets"] else set()) for u, vs in G.items()}
    H["z"] = set()
    R = {u: {w for w in G if u in G[w]} for u in G}
    try:
        order = order_graph(H, "z")
    except CycleException as e:
        return judge(R, "z", case["targets"], cyc=list(e.cycle), refused=str(e))
    except Exception as e:
        return "raises", f"order_graph raises {type(e).__name__}: {e} on {G} {case['targets']}"
    if not order or order[0] != "z":
        return "source", f"order {order} does not start with the source"
    return judge(R, "z", case["targets"], order=list(order[1:]))


def gen_p(rng, i):
    n = rng.choice([2, 3, 4, 5])
    tables = e2e.gen_schema(rng, n, acyclic=rng.random() < .7, selfref=rng.random() < .1,
                            extra_cols=0, pkinds=["id", "id", "pair"])
    names = list(tables)
    targets = rng.sample(names, rng.choice([1, 1, 2]))
    sel = names if rng.random() < .6 else sorted(set(targets) | set(
        rng.sample(names, rng.randint(1, n))))
    rest = [t for t in names if t not in targets]
    return {"tables": tables, "targets": targets, "select": sel,
            "deps": rng.random() < .7,
            "ignore": rng.sample(rest, 1) if rest and rng.random() < .25 else [],
            "pass": rng.sample(rest, 1) if rest and rng.random() < .25 else []}


def check_p(case):
    tb = case["tables"]
    cons = set(case["select"]) | set(case["pass"])
    while case["deps"]:
        new = {d for t in cons for _, d, _ in tb[t]["fks"]} - cons
        if not new:
            break
        cons |= new
    ig, pa = set(case["ignore"]), set(case["pass"])
    if case["deps"] and any(t not in ig and d in ig for t in cons for _, d, _ in tb[t]["fks"]):
        return None
    if any(t in pa and d not in pa for t in cons for _, d, _ in tb[t]["fks"]):
        return None
    if not set(case["targets"]) <= cons - ig - pa:
        return None
    live = cons - ig - pa
    G = {t: {d for _, d, _ in tb[t]["fks"] if d in live} for t in live}
    r = e2e.run_plan(tb, {"select": ["test." + t for t in case["select"]],
                          "ignore": ["test." + t for t in case["ignore"]],
                          "passthrough": ["test." + t for t in case["pass"]],
                          "include_dependencies": case["deps"],
                          "targets": {"test." + t: {"all": True} for t in case["targets"]}})
    if "error" in r:
        named = [x[5:] for x in re.findall(r"test\.\w+", e2e.back(str(r["exc"])))]
        if len(named) > 1 and named[0] == named[-1]:
            named = named[:-1]
        cause = r["exc"].__cause__
        cyc = [x.split(".", 1)[1] for x in e2e.back(list(getattr(cause, "cycle", [])))] or named
        if named and sorted(named) != sorted(cyc):
            return "cycle-named", f"message names {named}, the cycle is {cyc}"
        return judge(G, "", case["targets"], cyc=cyc, refused=str(r["error"]))
    order = [k.split(".", 1)[1] for k in r["plan"]["queries"]
             if k not in r["plan"]["passthrough"]]
    return judge(G, "", case["targets"], order=order)


SUITES = [Suite("order_graph", gen, check, 1.2, rule="random graphs up to 7 tables"),
          Suite("order_graph-backward", gen_back, check_back, .4),
          Suite("planner", e2e.with_place(gen_p), e2e.placed(check_p), 1.4, rule="random sqlite schemas up to 5 tables")]
