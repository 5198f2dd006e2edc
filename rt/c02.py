"""C02: dependency orders (toposort, materialisation, insertion, truncation)."""
from rt import e2e
from rt.c01 import cyclic
from rt.runner import Suite


def gen(rng, i):
    n = rng.choice([1, 2, 3, 4, 5, 6])
    names = ["abcdefgh"[k] for k in range(n)]
    p = rng.choice([.1, .25, .5])
    dag = rng.random() < .7
    perm = list(names)
    rng.shuffle(perm)
    keys = list(names)
    rng.shuffle(keys)
    return {"G": {u: [v for v in names if (u != v or rng.random() < .1) and rng.random() < p and
                      (not dag or perm.index(v) > perm.index(u))] for u in keys}}


def check(case):
    from subsetter.solver import toposort
    G = {u: set(vs) for u, vs in case["G"].items()}
    bad = cyclic(G, G)
    try:
        order = toposort({u: set(v) for u, v in G.items()})
    except ValueError as e:
        return None if bad else ("refused", f"toposort refuses acyclic {G}: {e}")
    except Exception as e:
        return "raises", f"toposort raises {type(e).__name__}: {e} on {G}"
    if bad:
        return "accepted", f"toposort({G}) = {order} despite a cycle"
    if sorted(order) != sorted(G):
        return "tables", f"toposort({G}) = {order}"
    for i, u in enumerate(order):
        if set(G[u]) - set(order[:i]):
            return "order", f"toposort({G}) = {order}: {u} before its dependency"
    return None


def gen_e(rng, i):
    tables = e2e.gen_schema(rng, rng.choice([2, 3, 4, 5]), acyclic=True, extra_cols=1,
                            pkinds=["id", "id", "pair", "str"])
    rows = e2e.gen_rows(rng, tables)
    keys = list(tables)
    plan = e2e.closed_plan(rng, tables)
    # a plan whose sampled rows are referentially closed, in any textual order
    for t, d in tables.items():
        plan["queries"]["test." + t]["statement"]["joins"] = [
            {"right": e2e.ident(dst, True), "left_columns": cs, "right_columns": dcs,
             "half_unique": rng.random() < .5} for cs, dst, dcs in d["fks"]]
    rng.shuffle(keys)
    plan["queries"] = {"test." + t: plan["queries"]["test." + t] for t in keys}
    return {"tables": tables, "rows": rows, "plan": plan, "truncate": rng.random() < .5,
            "compact": rng.random() < .3, "remap": rng.random() < .3,
            "old": e2e.gen_rows(rng, tables) if rng.random() < .6 else {}}


def check_e(case):
    tb = case["tables"]
    sam = e2e.sample_oracle(tb, case["rows"], case["plan"])
    old = case["old"] if case["truncate"] else {}
    out = {"session_sqls": ["PRAGMA foreign_keys=ON"]}
    if case["remap"]:
        # destination tables sort differently from source tables
        out["remap"] = [{"search": r"\.t(\d)$", "replace": r".u\1"}]

    def ren(t):
        return "u" + t[1:] if case["remap"] else t
    dest = {ren(t): dict(d, fks=[[a, ren(x), b] for a, x, b in d["fks"]])
            for t, d in tb.items()}
    r = e2e.run_sample(tb, case["rows"], case["plan"], {}, dest=dest,
                       dest_rows={ren(t): x for t, x in old.items()}, out=out, create=False,
                       truncate=case["truncate"])
    if "error" in r:
        return "order-e2e", (f"run fails with {r['error']} although every reference is satisfiable "
                             f"(foreign keys enforced, truncate={case['truncate']})")
    for t in tb:
        m = e2e.diff(ren(t), sam[t], r["tables"][ren(t)]["rows"])
        if m:
            return "rows-e2e", m
    return None


def gen_m(rng, i):
    """plans whose tables read each other's samples in any acyclic or cyclic pattern"""
    n = rng.choice([2, 3, 4])
    tables = {f"t{k}": {"cols": [["id", "int", False], ["k", "int", True]], "pk": ["id"],
                        "fks": [], "uniques": []} for k in range(n)}
    names = list(tables)
    perm = list(names)
    rng.shuffle(perm)
    cyc = rng.random() < .15
    joins = {t: [{"right": e2e.ident(d, True), "left_columns": [rng.choice(["id", "k"])],
                  "right_columns": [rng.choice(["id", "k"])], "half_unique": False}
                 for d in names if d != t and rng.random() < .4 and
                 (cyc or perm.index(d) > perm.index(t))] for t in names}
    plan = e2e.copy_plan(tables, joins=joins)
    keys = list(plan["queries"])
    rng.shuffle(keys)
    plan["queries"] = {k: plan["queries"][k] for k in keys}
    for k in keys:
        if rng.random() < .3:
            st = plan["queries"][k]["statement"]
            t = k.split(".")[1]
            others = [d for d in names if d != t and perm.index(d) > perm.index(t)]
            if others:
                plan["queries"][k]["statement"] = {"type": "union", "statements": [st, {
                    "type": "select", "from": e2e.ident(t), "where": {
                        "type": "in", "columns": ["k"], "values": {
                            "type": "select", "columns": ["id"],
                            "from": e2e.ident(rng.choice(others), rng.random() < .7)}}}]}
    return {"tables": tables, "rows": e2e.gen_rows(rng, tables), "plan": plan}


def check_m(case):
    tb, plan = case["tables"], case["plan"]
    G = {k.split(".")[1]: {t for s, t in e2e_reads(plan["queries"][k]["statement"])}
         for k in plan["queries"]}
    bad = cyclic(G, G)
    r = e2e.run_sample(tb, case["rows"], plan, {}, create=True)
    if bad:
        return None if "error" in r else ("accepted", f"plan with cyclic samples {G} accepted")
    if "error" in r:
        return "materialise", f"acyclic sample reads {G} fail: {r['error']}"
    sam = sample(tb, case["rows"], plan)
    for t in tb:
        m = e2e.diff(t, sam[t], r["tables"][t]["rows"])
        if m:
            return "materialise-rows", m
    return None


def e2e_reads(stmt):
    out = set(e2e.reads(stmt))
    for s in (stmt.get("statements") or [stmt]):
        w = s.get("where") or {}
        v = w.get("values")
        if isinstance(v, dict) and v["from"].get("sampled"):
            out.add((v["from"]["schema"], v["from"]["table"]))
    return out


def sample(tb, rows, plan):
    done, todo = {}, [k.split(".")[1] for k in plan["queries"]]
    while todo:
        for t in list(todo):
            st = plan["queries"]["test." + t]["statement"]
            if all(x in done for _, x in e2e_reads(st)):
                done[t] = [list(r) for r in e2e.model_db(tb, rows, "test", done).rows(st)]
                todo.remove(t)
    return done


SUITES = [Suite("toposort", gen, check, 1, rule="random graphs up to 6 tables"),
          Suite("foreign-keys-enforced", gen_e, check_e, 1.2,
                rule="end to end on sqlite with foreign keys enforced"),
          Suite("materialise", e2e.with_place(gen_m), e2e.placed(check_m), 1, rule="plans reading each other's samples")]
