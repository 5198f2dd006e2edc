"""C16: rows colliding with existing rows."""
import re

from rt import e2e
from rt.runner import Suite


def gen(rng, i):
    pk = rng.choice([["a"], ["a"], ["b"], ["a", "b"], ["b", "a"], ["a", "b", "c"], []])
    cols = ["a", "b", "c"]
    dcols = list(cols)
    rng.shuffle(dcols)
    extra = ["d"] if rng.random() < .4 else []

    def rows(n):
        out, seen = [], set()
        for _ in range(n):
            r = [rng.choice([0, 1, 2]), rng.choice([0, 1, 2]), rng.choice([0, 1, 2])]
            k = tuple(r[cols.index(c)] for c in pk)
            if pk and k in seen:
                continue
            seen.add(k)
            if "c" not in pk and rng.random() < .2:
                r[2] = None
            out.append(r)
        return out
    src = rows(rng.choice([0, 1, 3, 6]))
    if rng.random() < .3 and src:
        src = src + [list(rng.choice(src)) for _ in range(2)]   # repeated keys within the input
        if "c" not in pk:
            for r in src:
                if rng.random() < .5:
                    r[2] = rng.choice([7, 8, 9])
    sel = list(cols)
    if rng.random() < .3:
        sel = pk + [c for c in cols if c not in pk and rng.random() < .5]
        rng.shuffle(sel)
    if pk and rng.random() < .15:
        sel = list(pk)
    if not sel:
        sel = cols
    return {"pk": pk, "dcols": dcols + extra, "src": src, "old": rows(rng.choice([0, 1, 3, 6])),
            "sel": sel, "strategy": rng.choice(["error", "skip", "replace"]),
            "m": 1}


def check(case):
    pk, cols, sel = case["pk"], ["a", "b", "c"], case["sel"]
    tb = {"t": {"cols": [[c, "int", True] for c in cols], "pk": [], "fks": [], "uniques": []}}
    dest = {"t": {"cols": [[c, "int", c not in pk] for c in case["dcols"]], "pk": pk, "fks": [],
                  "uniques": []}}
    old = [[dict(zip(cols, r)).get(c, 99) for c in case["dcols"]] for r in case["old"]]
    plan = {"queries": {"test.t": {"statement": {"type": "select", "columns": sel,
                                                 "from": e2e.ident("t")}}}}
    r = e2e.run_sample(tb, {"t": case["src"]}, plan, {}, dest=dest, dest_rows={"t": old},
                       out={"conflict_strategy": case["strategy"]}, create=False)
    state, order = {}, []
    for x in old:
        d = dict(zip(case["dcols"], x))
        k = tuple(d[c] for c in pk) if pk else len(order)
        state[k] = d
        order.append(k)
    strat = case["strategy"] if pk else "error"
    collision = False
    for x in case["src"]:
        w = {c: v for c, v in zip(cols, x) if c in sel}
        k = tuple(w[c] for c in pk) if pk else len(order)
        if k in state:
            collision = True
            if strat == "replace":
                state[k].update({c: v for c, v in w.items() if c not in pk})
            continue
        state[k] = {c: w.get(c) for c in case["dcols"]}
        order.append(k)
    if collision and strat == "error":
        if "error" not in r:
            return "error-strategy", f"colliding rows {case['src']} accepted over {old} (key {pk})"
        return None
    if "error" in r:
        return "fails", f"{case['strategy']}: run fails: {r['error']}"
    exp = [[state[k][c] for c in case["dcols"]] for k in order]
    m = e2e.diff("t", exp, r["tables"]["t"]["rows"])
    if m:
        return "rows", (f"{case['strategy']} with key {pk}, columns {sel} written {case['src']} over "
                        f"{old}: {m}")
    return None


def gen_d(rng, i):
    c = gen(rng, i)
    return {"pk": c["pk"], "cols": c["dcols"], "sel": c["sel"], "strategy": c["strategy"],
            "dialect": rng.choice(["mysql", "postgresql", "sqlite"])}


def check_d(case):
    """the statement compiled for each dialect"""
    import sqlalchemy as sa
    from sqlalchemy.dialects import mysql, postgresql, sqlite
    from subsetter.sampler import ConflictInsert
    t = sa.Table("t", sa.MetaData(), *(sa.Column(c, sa.Integer, primary_key=c in case["pk"])
                                       for c in case["cols"]))
    dia = {"mysql": mysql, "postgresql": postgresql, "sqlite": sqlite}[case["dialect"]].dialect()
    sel = case["sel"]
    try:
        txt = str(ConflictInsert(case["strategy"], t, sel).compile(dialect=dia, column_keys=sel))
    except Exception as e:
        return "compile", f"{case}: {type(e).__name__}: {str(e)[:200]}"
    flat = re.sub(r"[`\"\s]+", " ", txt).strip()
    strat = case["strategy"] if case["pk"] else "error"
    upd = [c for c in sel if c not in case["pk"]]
    if strat == "replace" and not upd:
        strat = "skip"
    low = flat.lower()
    if case["dialect"] == "mysql":
        kind = ("skip" if "insert ignore" in low else
                "replace" if "on duplicate key update" in low else "error")
        tail = flat[low.index("update") + 6:] if kind == "replace" else ""
    else:
        kind = ("skip" if "do nothing" in low else
                "replace" if "do update" in low else "error")
        tail = flat[low.index("set") + 3:] if kind == "replace" else ""
    if kind != strat:
        return "dialect-strategy", f"{case} compiles to {kind}: {flat}"
    if kind == "replace":
        pairs = {}
        for part in tail.split(","):
            a, b = part.split("=")
            pairs[a.strip()] = re.sub(r"\W+", " ", b.split(".")[-1]).split()[-1]
        if set(pairs) != set(upd) or any(k != v for k, v in pairs.items()):
            return "dialect-columns", f"{case} updates {pairs}: {flat}"
        if case["dialect"] != "mysql":
            m = re.search(r"conflict \(([^)]*)\)", low)
            if not m or sorted(x.strip() for x in m.group(1).split(",")) != sorted(case["pk"]):
                return "dialect-key", f"{case}: {flat}"
    m = re.search(r"into t \(([^)]*)\)", low)
    if not m or sorted(x.strip() for x in m.group(1).split(",")) != sorted(sel):
        return "dialect-insert", f"{case}: inserted columns in {flat}"
    return None


SUITES = [Suite("sqlite", gen, check, 1.5, rule="runs into destinations holding colliding rows"),
          Suite("dialects", gen_d, check_d, 1, rule="compiled statements of the three dialects")]
