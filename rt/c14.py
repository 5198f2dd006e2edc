"""C14: selection closure and graphs."""
import shutil
from fnmatch import fnmatch

from rt import e2e
from rt.runner import Suite


def gen(rng, i):
    tables = e2e.gen_schema(rng, rng.choice([1, 2, 3, 4, 5]), acyclic=rng.random() < .6,
                            selfref=rng.random() < .3, extra_cols=0)
    place = e2e.rand_place(rng, list(tables)) if rng.random() < .8 else None
    full = [".".join(place[t]) if place else "test." + t for t in tables]
    pats = rng.sample(full + ["test.*", "*.t1", "*", "test.t[12]", "more.t?", "nope.x", "test.T0"],
                      rng.choice([0, 1, 1, 2, 3]))
    return {"tables": tables, "place": place, "select": pats, "fwd": rng.random() < .5,
            "bwd": rng.random() < .5, "ignore": rng.sample(full, rng.choice([0, 0, 1, 2])
                                                           if len(full) > 1 else 0)}


def check(case):
    from subsetter.common import DatabaseConfig
    from subsetter.metadata import DatabaseMetadata
    d = e2e.scratch()
    tb = case["tables"]
    paths = e2e.spread(d, "a", tb)
    eng = DatabaseConfig(dialect="sqlite", sqlite_databases=paths).database_engine()
    try:
        with e2e.crossing(tb):
            meta, add = DatabaseMetadata.from_engine(eng, list(case["select"]),
                                                     close_forward=case["fwd"],
                                                     close_backward=case["bwd"])
    except Exception as e:
        return "fails", f"from_engine fails: {type(e).__name__}: {e}"
    finally:
        eng.dispose()
        shutil.rmtree(d, ignore_errors=True)
    nm = {t: ".".join(e2e.at(t)) for t in tb}
    edges = {(nm[t], nm[f[1]]) for t in tb for f in tb[t]["fks"]}
    sel = {x for x in nm.values() if any(fnmatch(x, p) for p in case["select"])}
    full = set(sel)
    while True:
        new = ({b for a, b in edges if case["fwd"] and a in full} |
               {a for a, b in edges if case["bwd"] and b in full}) - full
        if not new:
            break
        full |= new
    got = [f"{s}.{t}" for s, t in meta.tables]
    if sorted(got) != sorted(full):
        return "tables", (f"select {case['select']} forward {case['fwd']} backward {case['bwd']} "
                          f"considers {sorted(got)}, expected {sorted(full)} of {sorted(edges)}")
    if any(f"{m.schema}.{m.name}" != f"{s}.{t}" for (s, t), m in meta.tables.items()):
        return "keys", f"tables filed under a wrong name: {meta.tables}"
    if sorted(f"{s}.{t}" for s, t in add) != sorted(full - sel):
        return "additional", f"additional {add}, expected {sorted(full - sel)}"
    ig = {tuple(x.split(".")) for x in case["ignore"]}
    for arg in (None, ig):
        g = meta.as_graph() if arg is None else meta.as_graph(ignore_tables=arg)
        off = {f"{s}.{t}" for s, t in (arg or ())}
        want = {x: {b for a, b in edges if a == x and b in full and b not in off}
                for x in full - off}
        if {k: set(v) for k, v in g.items()} != want:
            return "graph", f"graph {g}, expected {want} (ignoring {off})"
    return None


SUITES = [Suite("closure", gen, e2e.placed(check), 1,
                rule="sqlite databases with up to two schemas, tables of equal names and "
                     "references between schemas")]
