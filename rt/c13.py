"""C13: the relationships the planner works with."""
import os
import shutil
from collections import Counter

from rt import e2e
from rt.runner import Suite


def gen(rng, i):
    """up to two schemas; keys shared between tables so that inference ties and does not tie"""
    n = rng.choice([2, 3, 4, 5])
    schemas = {"test": {}, "more": {}}
    names = []
    pool = ["id", "uid", "cid", "t0_id", "k"]
    for k in range(n):
        sc = "test" if rng.random() < .65 else "more"
        t = f"t{k}"
        if rng.random() < .4 and f"t{k // 2}" not in schemas[sc]:
            t = f"t{k // 2}"  # the same name in both schemas
        pk = rng.choice([["id"], ["uid"], ["cid"], ["k"], [f"{t}_id"], ["id", "k"], []])
        cols = [[c, "int", False] for c in pk]
        for c in rng.sample(pool, rng.randint(0, 3)):
            if c not in pk:
                cols.append([c, "int", True])
        if not cols:
            cols = [["z", "int", True]]
        prev = [(u, d) for u, d in schemas[sc].items() if d["pk"]]
        fks = []
        for u, d in rng.sample(prev, min(len(prev), rng.choice([0, 0, 1, 1, 2]))):
            cs = []
            for c in d["pk"]:
                nm = c if any(x[0] == c for x in cols) and rng.random() < .5 else f"r_{u}_{c}"
                if not any(x[0] == nm for x in cols):
                    cols.append([nm, "int", True])
                cs.append(nm)
            if len(set(cs)) == len(cs):
                fks.append([cs, u, list(d["pk"])])
        schemas[sc][t] = {"cols": cols, "pk": pk, "fks": fks, "uniques": []}
        names.append((sc, t))
    full = [f"{s}.{t}" for s, t in names] + ["test.nope"]

    def cols_of(x):
        s, t = x.split(".")
        return [c[0] for c in schemas[s].get(t, {"cols": [["q"]]})["cols"]]
    extra = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        a, b = rng.choice(full), rng.choice(full)
        k = rng.choice([1, 1, 2])
        ca, cb = cols_of(a), cols_of(b)
        k = min(k, len(ca), len(cb))
        sa_, sb = rng.sample(ca, k), rng.sample(cb, k)
        if rng.random() < .1:
            sa_ = ["missing"] + sa_[1:]
        if rng.random() < .1:
            sb = ["missing"] + sb[1:]
        extra.append([a, sa_, b, sb])
    ign = [[rng.choice(full), rng.choice(full)] for _ in range(rng.choice([0, 0, 1, 2]))]
    for s, t in names:
        for f in schemas[s][t]["fks"]:
            if rng.random() < .1:
                ign.append([f"{s}.{t}", f"{s}.{f[1]}"])
    target = rng.choice(full[:-1])
    rest = [x for x in full if x != target]
    return {"schemas": schemas, "target": target,
            "select": full[:-1] if rng.random() < .7 else sorted({target} | set(
                rng.sample(full, min(2, len(full))))),
            "ignore": rng.sample(rest, 1) if rng.random() < .25 else [],
            "passthrough": rng.sample(rest, rng.choice([1, 1, 2]) if len(rest) > 1 else 1)
            if rng.random() < .25 else [],
            "extra": extra, "ignore_fks": ign, "infer": rng.choice(["none", "schema", "all"]),
            "deps": rng.random() < .75}


def relations(case):
    """{(schema, table): list of (cols, dst, dcols)}, refusal or None"""
    tabs = {f"{s}.{t}": d for s, x in case["schemas"].items() for t, d in x.items()}
    cons = {x for x in tabs if x in set(case["select"]) | set(case["passthrough"])}
    while case["deps"]:
        new = {x.split(".")[0] + "." + f[1] for x in cons for f in tabs[x]["fks"]} - cons
        if not new:
            break
        cons |= new
    rel = {x: [(tuple(f[0]), x.split(".")[0] + "." + f[1], tuple(f[2])) for f in tabs[x]["fks"]]
           for x in cons}
    if case["infer"] != "none":
        base = {x: list(v) for x, v in rel.items()}
        for x in cons:
            for c, _, _ in tabs[x]["cols"]:
                cand = [y for y in cons if tabs[y]["pk"] == [c] and
                        (case["infer"] == "all" or y.split(".")[0] == x.split(".")[0])]
                if len(cand) == 1 and cand[0] != x and ((c,), cand[0], (c,)) not in base[x]:
                    rel[x].append(((c,), cand[0], (c,)))
    for a, b in case["ignore_fks"]:
        if a in rel:
            rel[a] = [f for f in rel[a] if f[1] != b]
    for a, ca, b, cb in case["extra"]:
        if a in rel and b in rel and set(ca) <= {c[0] for c in tabs[a]["cols"]} and \
                set(cb) <= {c[0] for c in tabs[b]["cols"]}:
            rel[a].append((tuple(ca), b, tuple(cb)))
    ig, pa = set(case["ignore"]), set(case["passthrough"])
    refuse = None
    if case["deps"] and any(x not in ig and f[1] in ig for x in rel for f in rel[x]):
        refuse = "ignored"
    if any(x in pa and f[1] not in pa for x in rel for f in rel[x]):
        refuse = "passthrough"
    return rel, refuse, cons


def check(case):
    from subsetter.common import DatabaseConfig
    from subsetter.config_model import PlannerConfig
    from subsetter.planner import Planner
    d = e2e.scratch()
    paths = {}
    for s, tb in case["schemas"].items():
        paths[s] = os.path.join(d, s + ".db")
        e2e.create_db(paths[s], tb)
    rel, refuse, cons = relations(case)
    p = None
    try:
        cfg = PlannerConfig.model_validate({
            "select": case["select"], "targets": {case["target"]: {"all": True}},
            "ignore": case["ignore"], "passthrough": case["passthrough"],
            "infer_foreign_keys": case["infer"], "include_dependencies": case["deps"],
            "ignore_fks": [{"src_table": a, "dst_table": b} for a, b in case["ignore_fks"]],
            "extra_fks": [{"src_table": a, "src_columns": ca, "dst_table": b, "dst_columns": cb}
                          for a, ca, b, cb in case["extra"]]})
        p = Planner(DatabaseConfig(dialect="sqlite", sqlite_databases=paths), cfg)
        err = None
        try:
            p.plan()
        except Exception as e:
            err = e
        if not hasattr(p, "meta"):
            return None
        got = {f"{s}.{t}": m for (s, t), m in p.meta.tables.items()}
    finally:
        if p is not None:
            e2e.dispose(p)
        shutil.rmtree(d, ignore_errors=True)
    if refuse:
        if err is None:
            return "not-refused", (f"key into {refuse} table accepted: relations {rel}, ignore "
                                   f"{case['ignore']}, passthrough {case['passthrough']}")
        return None
    if err is not None:
        from subsetter.solver import CycleException
        ok = isinstance(err.__cause__, CycleException) or case["target"] in case["ignore"]
        if not ok:
            return "fails", f"planning fails: {type(err).__name__}: {str(err)[:300]}"
    if set(got) != cons:
        return "tables", f"considered {sorted(got)}, expected {sorted(cons)}"
    for x in cons:
        have = Counter((tuple(f.columns), f"{f.dst_schema}.{f.dst_table}", tuple(f.dst_columns))
                       for f in got[x].foreign_keys)
        if have != Counter(rel[x]):
            return "relations", (f"{x}: relations {sorted(have.elements())}, expected "
                                 f"{sorted(rel[x])}; infer {case['infer']}")
    if err is None:
        for x in cons:
            have = Counter((tuple(f.columns), f"{f.dst_schema}.{f.dst_table}",
                            tuple(f.dst_columns)) for f in got[x].rev_foreign_keys)
            want = Counter((f[2], y, f[0]) for y in cons for f in rel[y] if f[1] == x)
            if have != want:
                return "reverse", f"{x}: reverse {sorted(have.elements())}, expected {want}"
    return None


SUITES = [Suite("relations", gen, check, 1, rule="two-schema sqlite databases with declared, "
                "inferred, ignored and extra keys")]
