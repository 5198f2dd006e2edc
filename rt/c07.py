"""C07: multiplied runs on sqlite against the oracle, and the multiplied columns of each table."""
from rt import e2e
from rt.runner import Suite


def chain(rng):
    """a column reaching a key only through several other tables' unique columns"""
    n = rng.choice([3, 4, 5])
    tables = {}
    for k in range(n):
        last = k == n - 1
        c = "id" if last else "r"
        tables[f"t{k}"] = {
            "cols": [[c, "int", not last and k == 0]], "pk": ["id"] if last else [],
            "fks": [] if last else [[["r"], f"t{k + 1}", ["id" if k == n - 2 else "r"]]],
            "uniques": [["r"]] if 0 < k < n - 1 else []}
    tables["z"] = {"cols": [["v0", "str", True]], "pk": [], "fks": [], "uniques": []}
    keys = list(tables)
    if rng.random() < .5:
        rng.shuffle(keys)
    return {"tables": tables, "rows": e2e.gen_rows(rng, tables), "keys": keys, "passthrough": [],
            "m": rng.choice([2, 3]), "extra": {}, "exempt": {}, "infer": "none",
            "ignore": [rng.choice(keys[:-1])] if rng.random() < .15 else [], "omit": False}


def gen(rng, i):
    if rng.random() < .3:
        return chain(rng)
    n = rng.choice([1, 2, 3, 4])
    tables = e2e.gen_schema(rng, n, acyclic=True, pkinds=["id", "id", "id", "pair", "none", "str"],
                            extra_cols=2)
    names = list(tables)
    # references by differently named keys and references to references
    rows = e2e.gen_rows(rng, tables)
    pa = [t for t in names if not tables[t]["fks"] and rng.random() < .2]
    extra, exempt = {}, {}
    for t in names:
        ints = [c[0] for c in tables[t]["cols"]]
        if rng.random() < .3:
            extra["test." + t] = rng.sample(ints, 1)
        if rng.random() < .15 and len(tables[t]["pk"]) > 0:
            exempt["test." + t] = [rng.choice(tables[t]["pk"])]
    ign = [t for t in names if t not in pa and rng.random() < .15]
    keys = list(names)
    rng.shuffle(keys)
    infer = rng.choice(["none", "none", "all", "schema"])
    # destination without keys, so that every written copy is visible
    return {"tables": tables, "rows": rows, "keys": keys, "passthrough": pa,
            "m": rng.choice([1, 2, 2, 3]), "extra": extra, "exempt": exempt, "ignore": ign,
            "infer": infer, "omit": rng.random() < .2}


def infer(tables, kind):
    """[(table, cols, dst, dcols)] with the inferred keys added"""
    fks = {t: [tuple(map(lambda x: tuple(x) if isinstance(x, list) else x, f))
               for f in d["fks"]] for t, d in tables.items()}
    if kind != "none":
        for t, d in tables.items():
            for c, _, _ in d["cols"]:
                c2 = [u for u, x in tables.items() if x["pk"] == [c] and (
                    kind == "all" or e2e.place_of(u) == e2e.place_of(t))]
                if len(c2) == 1 and c2[0] != t and ((c,), c2[0], (c,)) not in fks[t]:
                    fks[t].append(((c,), c2[0], (c,)))
    return fks


def columns(case):
    """{table: multiplied columns} or None when the run is to be refused"""
    tb, m = case["tables"], case["m"]
    if m <= 1:
        return {}
    off = set(case["passthrough"]) | set(case["ignore"])
    fks = infer(tb, case["infer"])
    cols = {t: set() if t in off else (set(case["extra"].get("test." + t) or []) | (
        set(tb[t]["pk"]) - set(case["exempt"].get("test." + t) or []))) for t in tb}
    while True:
        new = {t: cols[t] | {c for cs, d, dcs in fks[t] for c, dc in zip(cs, dcs)
                             if dc in cols.get(d, ())} for t in tb}
        if new == cols:
            break
        if any(new[t] for t in off):
            return None
        cols = new
    for t in tb:
        for c in cols[t]:
            if next(x[1] for x in tb[t]["cols"] if x[0] == c) != "int":
                return None
    return {t: cols[t] for t in tb if t not in off}


def check(case):
    tb, rows, m = case["tables"], case["rows"], case["m"]
    want = columns(case)
    plan = e2e.copy_plan(case["keys"], passthrough=case["passthrough"])
    cfg = {"multiplicity": {"multiplier": m, "extra_columns": case["extra"],
                            "ignore_tables": ["test." + t for t in case["ignore"]],
                            "ignore_primary_key_columns": case["exempt"]},
           "infer_foreign_keys": case["infer"]}
    omit = {}
    if case["omit"]:
        for t in tb:
            if any(c[0] == "v0" for c in tb[t]["cols"]) and "v0" not in (want or {}).get(t, ()):
                omit[t] = "v0"
        cfg["filters"] = {"test." + t: [{"op": "omit", "columns": [c]}]
                          for t, c in omit.items()}
    dest = {t: {"cols": [[c, ty, True] for c, ty, _ in d["cols"]], "pk": [], "fks": [],
                "uniques": []} for t, d in tb.items()}
    r = e2e.run_sample(tb, rows, plan, cfg, dest=dest, create=False)
    if want is None:
        return None if "error" in r else (
            "not-refused", f"multiplicity of {cfg['multiplicity']} accepted; foreign keys "
            f"{ {t: d['fks'] for t, d in tb.items()} } infer {case['infer']}")
    if "error" in r:
        return "refused", f"valid multiplicity fails: {r['error']} on {cfg['multiplicity']}"
    for t, d in tb.items():
        names = [c[0] for c in d["cols"]]
        exp = []
        for row in rows.get(t) or []:
            for k in range(m if t in want else 1):
                exp.append([None if names[j] == omit.get(t) else
                            (x * m + k if names[j] in want.get(t, ()) and x is not None else x)
                            for j, x in enumerate(row)])
        msg = e2e.diff(t, exp, r["tables"][t]["rows"])
        if msg:
            return "rows", f"m={m} multiplied columns should be {want}; {msg}"
    return None


def gen_j(rng, i):
    c = gen(rng, i)
    c["infer"] = "none"
    return c


def check_j(case):
    tb, rows, m = case["tables"], case["rows"], case["m"]
    want = columns(case)
    if want is None:
        return None
    r = e2e.run_directory(tb, rows, e2e.copy_plan(case["keys"], passthrough=case["passthrough"]), {
        "multiplicity": {"multiplier": m, "extra_columns": case["extra"],
                         "ignore_tables": ["test." + t for t in case["ignore"]],
                         "ignore_primary_key_columns": case["exempt"]}})
    if "error" in r:
        return "refused-json", f"valid multiplicity fails: {r['error']}"
    for t, d in tb.items():
        names = [c[0] for c in d["cols"]]
        exp = [[(x * m + k if names[j] in want.get(t, ()) and x is not None else x)
                for j, x in enumerate(row)]
               for row in rows.get(t) or [] for k in range(m if t in want else 1)]
        got = [[o.get(c) for c in names] for o in r["files"].get(f"test.{t}.json", [])]
        if exp != got:
            if e2e.diff(t, exp, got):
                return "rows-json", f"m={m} columns {want}; {e2e.diff(t, exp, got)}"
    return None


SUITES = [Suite("database", e2e.with_place(gen), e2e.placed(check), 1.6, rule="end to end on sqlite"),
          Suite("json", e2e.with_place(gen_j), e2e.placed(check_j), 1, rule="end to end to JSON files")]
