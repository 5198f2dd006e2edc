"""C10: rows of a planned query against the rows written."""
import sqlite3

from rt import e2e
from rt.runner import Suite

SIZES = [0, 1, 2, 3, 10, 1023, 1024, 1025, 1026, 2048, 2049, 2050, 2051, 3075, 3076]


def gen(rng, i):
    ncol = rng.choice([1, 2, 3, 4])
    cols = [f"c{k}" for k in range(ncol)]
    rng.shuffle(cols)
    small = rng.random() < .7
    n = rng.choice(SIZES[:5] if small else SIZES[5:])
    dcols = list(cols)
    rng.shuffle(dcols)
    comp = rng.sample(cols, rng.choice([0, 0, 1, 1, 2]) if ncol > 2 else 0)
    extra = ["zz"] if rng.random() < .3 else []
    missing = rng.random() < .1 and ncol > 1
    if missing:
        gone = rng.choice(cols)
        dcols = [c for c in dcols if c != gone]
    return {"cols": cols, "n": n, "dcols": dcols + extra, "seed": rng.randint(0, 9999),
            "computed": [c for c in comp if c in dcols], "m": rng.choice([1, 1, 1, 2, 3]),
            "mult": rng.random() < .5, "omit": [rng.choice(cols)] if rng.random() < .2 and ncol > 1
            else [], "materialise": rng.random() < .3, "select": rng.random() < .3,
            "null": rng.random() < .3, "order": rng.random() < .5}


def data(case):
    import random
    r = random.Random(case["seed"])
    out = []
    for i in range(case["n"]):
        out.append([None if case["null"] and r.random() < .2 else
                    (i if c == case["cols"][0] else r.choice([0, 1, 2, "x", 5]))
                    for c in case["cols"]])
    return out


def setup(case):
    cols = case["cols"]
    tb = {"t": {"cols": [[c, "int", True] for c in cols], "pk": [], "fks": [], "uniques": []}}
    rows = data(case)
    for r in rows:
        for j, v in enumerate(r):
            if isinstance(v, str):
                r[j] = 7
    sel = list(cols)
    if case["select"] and len(cols) > 1:
        sel = cols[1:][::-1]
    if case["order"]:
        plan = {"queries": {"test.t": {"sql": "select " + ", ".join(sel) +
                                       " from test.t order by rowid desc"}}}
        rows2 = rows[::-1]
    else:
        plan = {"queries": {"test.t": {"statement": {
            "type": "select", "columns": sel, "from": e2e.ident("t")}}}}
        rows2 = rows
    want = [[r[cols.index(c)] for c in sel] for r in rows2]
    cfg = {}
    if case["m"] > 1:
        # copies are requested per row; the columns of the table are not keys and stay as they are
        cfg["multiplicity"] = {"multiplier": case["m"]}
        want = [r for r in want for _ in range(case["m"])]
    omit = [c for c in case["omit"] if c in sel and len(sel) > 1]
    if omit:
        cfg["filters"] = {"test.t": [{"op": "omit", "columns": omit}]}
    keep = [c for c in sel if c not in omit]
    want = [dict((c, v) for c, v in zip(sel, r) if c in keep) for r in want]
    return tb, {"t": rows}, plan, cfg, keep, want


def check(case):
    tb, rows, plan, cfg, keep, want = setup(case)
    comp = [c for c in case["computed"]]
    base = [c for c in case["dcols"] if c not in comp]
    if not base:
        comp, base = [], list(case["dcols"])
    dest = {"t": {"cols": [[c, "int", True] for c in case["dcols"]], "pk": [], "fks": [],
                  "uniques": [], "computed": {c: f"{base[0]} + 1" for c in comp}}}
    if all(c in comp for c in keep):
        return None
    r = e2e.run_sample(tb, rows, plan, cfg, dest=dest, create=False)
    got = r["tables"]["t"]
    if any(c not in case["dcols"] for c in keep):
        if "error" not in r or got["rows"]:
            return "missing-column", (f"destination lacks a column of {keep} but the run "
                                      f"{r.get('error', 'succeeds')} with {len(got['rows'])} rows")
        return None
    if "error" in r:
        return "fails", f"run fails: {r['error']}"
    have = [dict(zip(got["cols"], x)) for x in got["rows"]]
    exp = [{c: (w.get(c) if c in keep else None) for c in case["dcols"] if c not in comp}
           for w in want]
    have = [{c: h[c] for c in case["dcols"] if c not in comp} for h in have]
    if have != exp:
        return "rows", (f"{len(want)} rows to write ({keep} to {case['dcols']}, computed {comp}), "
                        f"{len(have)} written; first difference "
                        f"{next(((a, b) for a, b in zip(exp, have) if a != b), (exp[len(have):][:1], have[len(exp):][:1]))}")
    return None


def check_j(case):
    tb, rows, plan, cfg, keep, want = setup(case)
    r = e2e.run_directory(tb, rows, plan, cfg)
    if "error" in r:
        return "fails-json", f"run fails: {r['error']}"
    got = r["files"].get("test.t.json")
    if got is None or got != want:
        return "rows-json", (f"{len(want)} rows to write, file has {None if got is None else len(got)}; "
                             f"first difference {next(((a, b) for a, b in zip(want, got or []) if a != b), None)}")
    return None


def gen_t(rng, i):
    n = rng.choice([1, 2, 3])
    tables = e2e.gen_schema(rng, n, acyclic=True, extra_cols=2)
    keys = list(tables)
    rng.shuffle(keys)
    return {"tables": tables, "rows": e2e.gen_rows(rng, tables), "keys": keys,
            "dest": rng.sample(keys, rng.randint(1, n)), "plan": e2e.closed_plan(rng, tables),
            "dir": rng.random() < .4}


def check_t(case):
    """several tables of several types; strings survive both outputs"""
    tb, plan = case["tables"], case["plan"]
    plan["queries"] = {"test." + k: plan["queries"]["test." + k] for k in case["keys"]}
    sam = e2e.sample_oracle(tb, case["rows"], plan)
    if case["dir"]:
        r = e2e.run_directory(tb, case["rows"], plan)
        if "error" in r:
            return "fails-tables", f"run fails: {r['error']}"
        if sorted(r["files"]) != sorted(f"test.{t}.json" for t in tb):
            return "files", f"files {sorted(r['files'])} for tables {sorted(tb)}"
        for t, d in tb.items():
            names = [c[0] for c in d["cols"]]
            if any(list(o) != names for o in r["files"][f"test.{t}.json"]):
                return "columns-json", f"{t}: {r['files'][f'test.{t}.json'][:2]}"
            m = e2e.diff(t, sam[t], [[o[c] for c in names] for o in r["files"][f"test.{t}.json"]])
            if m:
                return "rows-tables-json", m
        return None
    dest = {t: dict(tb[t], fks=[f for f in tb[t]["fks"] if f[1] in case["dest"]])
            for t in case["dest"]}
    r = e2e.run_sample(tb, case["rows"], plan, dest=dest, create=True)
    if "error" in r:
        return "fails-tables", f"run fails: {r['error']}"
    for t in tb:
        m = e2e.diff(t, sam[t], r["tables"][t]["rows"])
        if m:
            return "rows-tables", m
    return None


SUITES = [Suite("database", gen, check, 1.4, rule="0..3076 rows, any column order, computed columns"),
          Suite("json", gen, check_j, .8), Suite("tables", e2e.with_place(gen_t), e2e.placed(check_t), 1)]
