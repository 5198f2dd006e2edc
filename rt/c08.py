"""C08: merging into a populated destination, against the oracle."""
from rt import e2e
from rt.runner import Suite


def gen(rng, i):
    n = rng.choice([1, 2, 3, 4])
    tables = e2e.gen_schema(rng, n, acyclic=True, pkinds=["id", "id", "id", "id", "pair", "none"],
                            extra_cols=1, nonpk_refs=rng.random() < .3)
    names = list(tables)
    # one-to-one tables: the key is itself a reference
    for t in names:
        d = tables[t]
        par = [u for u in names if u != t and tables[u]["pk"] and len(tables[u]["pk"]) == 1]
        if par and d["pk"] == [d["cols"][0][0]] and not d["fks"] and rng.random() < .15:
            u = rng.choice(par)
            if not any(x[1] == t for x in tables[u]["fks"]) and e2e.topo(
                    {k: dict(v, fks=v["fks"] + ([[d["pk"], u, tables[u]["pk"]]] if k == t else []))
                     for k, v in tables.items()}) and acyclic_with(tables, t, u):
                d["fks"].append([list(d["pk"]), u, list(tables[u]["pk"])])
    rows = e2e.gen_rows(rng, tables)
    old = {}
    oldall = e2e.gen_rows(rng, tables, base=rng.choice([0, 0, 0, 3]))
    for t in e2e.topo(tables):
        if rng.random() < .8 and all(x in old or not oldall[x] for _, x, _ in tables[t]["fks"]):
            old[t] = oldall[t]
        else:
            old[t] = []
            # tables referring to t lose the rows that pointed there
    for t in e2e.topo(tables):
        names_t = [c[0] for c in tables[t]["cols"]]
        keep = []
        for r in old[t]:
            ok = True
            for cs, x, dcs in tables[t]["fks"]:
                v = [r[names_t.index(c)] for c in cs]
                xn = [c[0] for c in tables[x]["cols"]]
                if None not in v and v not in [[o[xn.index(c)] for c in dcs] for o in old[x]]:
                    ok = False
            if ok:
                keep.append(r)
        old[t] = keep
    lower(rng, tables, old)
    pa = [t for t in names if not tables[t]["fks"] and rng.random() < .2]
    keys = list(names)
    rng.shuffle(keys)
    return {"tables": tables, "rows": rows, "old": old, "passthrough": pa, "keys": keys,
            "strategy": rng.choice(["error", "error", "skip", "replace"]),
            "m": rng.choice([1, 1, 1, 2]), "remap": rng.random() < .3}


def lower(rng, tables, old):
    """move keys of the destination to end at 0 or below"""
    for t, d in tables.items():
        col = {c[0]: j for j, c in enumerate(d["cols"])}
        if len(d["pk"]) != 1 or rng.random() < .6 or not old.get(t):
            continue
        k = d["pk"][0]
        if d["cols"][col[k]][1] != "int" or any(k in cs for cs, _, _ in d["fks"]):
            continue
        refs = [(u, cs) for u, e in tables.items() for cs, x, dcs in e["fks"]
                if x == t and k in dcs]
        if any(len(cs) != 1 or sum(cs[0] in c for c, _, _ in tables[u]["fks"]) > 1 or
               cs[0] in tables[u]["pk"] for u, cs in refs):
            continue
        delta = max(r[col[k]] for r in old[t]) + rng.choice([0, 0, 1, 3])
        for r in old[t]:
            r[col[k]] -= delta
        for u, cs in refs:
            j = [c[0] for c in tables[u]["cols"]].index(cs[0])
            for r in old[u]:
                if r[j] is not None:
                    r[j] -= delta


def acyclic_with(tables, t, u):
    seen, todo = {u}, [u]
    while todo:
        for _, x, _ in tables[todo.pop()]["fks"]:
            if x not in seen:
                seen.add(x)
                todo.append(x)
    return t not in seen


def check(case):
    tb, rows, old, m = case["tables"], case["rows"], case["old"], case["m"]
    pa = set(case["passthrough"])
    if m > 1 and any(x in pa or len(d["pk"]) != 1 for d in tb.values() for _, x, _ in d["fks"]):
        m = 1

    def ren(t):
        return "u" + t[1:] if case["remap"] else t
    key, shift = {}, {t: {} for t in tb}
    for t, d in tb.items():
        names = [c[0] for c in d["cols"]]
        if t not in pa and len(d["pk"]) == 1 and old.get(t):
            ty = next(c[1] for c in d["cols"] if c[0] == d["pk"][0])
            if ty == "int":
                key[t] = max(r[names.index(d["pk"][0])] for r in old[t]) + 1
                shift[t][d["pk"][0]] = key[t]
    for t, d in tb.items():
        for cs, x, dcs in d["fks"]:
            if t not in pa and len(cs) == 1 and list(dcs) == list(tb[x]["pk"]) and x in key:
                shift[t][cs[0]] = key[x]
    # tables whose copied keys would collide: only with a strategy that tolerates it
    for t, d in tb.items():
        if t in pa or not d["pk"] or len(d["pk"]) == 1:
            continue
        return check_multi(case)
    mult = {}
    if m > 1:
        for t, d in tb.items():
            mult[t] = set() if t in pa else set(d["pk"])
        while True:
            new = {t: mult[t] | {c for cs, x, dcs in tb[t]["fks"] for c, dc in zip(cs, dcs)
                                 if dc in mult[x]} for t in tb}
            if new == mult:
                break
            mult = new
        if any(mult[t] for t in pa) or any(d["uniques"] for d in tb.values()):
            m, mult = 1, {}
    exp = {}
    for t, d in tb.items():
        names = [c[0] for c in d["cols"]]
        out = [list(r) for r in old.get(t) or []]
        have = {tuple(r[names.index(c)] for c in d["pk"]) for r in out} if d["pk"] else set()
        for r in rows.get(t) or []:
            for k in range(1 if t in pa else m):
                new = []
                for c, v in zip(names, r):
                    if v is not None and c in mult.get(t, ()):
                        v = v * m + k
                    if v is not None:
                        v += shift[t].get(c, 0) if c in shift[t] else 0 if isinstance(v, int) else ""
                    new.append(v)
                kv = tuple(new[names.index(c)] for c in d["pk"])
                if t in pa:
                    if not d["pk"] or kv not in have:
                        out.append(new)
                        have.add(kv)
                else:
                    if d["pk"] and kv in have:
                        return None
                    have.add(kv)
                    out.append(new)
        exp[t] = out
    dest = {ren(t): dict(d, fks=[[a, ren(x), b] for a, x, b in d["fks"]], uniques=[])
            for t, d in tb.items()}
    r = e2e.run_sample(tb, rows, e2e.copy_plan(case["keys"], passthrough=sorted(pa)),
                       {"multiplicity": {"multiplier": m}} if m > 1 else {}, dest=dest,
                       dest_rows={ren(t): x for t, x in old.items()},
                       out=dict({"merge": True, "conflict_strategy": case["strategy"]}, **(
                           {"remap": [{"search": r"\.t(\d)$", "replace": r".u\1"}]}
                           if case["remap"] else {})), create=False)
    if "error" in r:
        return "fails", f"merge fails: {r['error']}, expected shifts {shift}"
    for t in tb:
        msg = e2e.diff(ren(t), exp[t], r["tables"][ren(t)]["rows"])
        if msg:
            return "rows", f"expected shifts {shift} ({case['strategy']}); {msg}"
    return None


def check_multi(case):
    """tables without a usable key stay unshifted: merged with 'skip', old rows survive unchanged
    and each new row whose key is free is present unshifted"""
    tb, rows, old = case["tables"], case["rows"], case["old"]
    pa = set(case["passthrough"])
    dest = {t: dict(d, uniques=[]) for t, d in tb.items()}
    r = e2e.run_sample(tb, rows, e2e.copy_plan(case["keys"], passthrough=sorted(pa)), {},
                       dest=dest, dest_rows=old,
                       out={"merge": True, "conflict_strategy": "skip"}, create=False)
    if "error" in r:
        return "fails", f"merge fails: {r['error']}"
    for t, d in tb.items():
        if len(d["pk"]) < 2 or any(len(f[0]) == 1 for f in d["fks"]):
            continue
        names = [c[0] for c in d["cols"]]
        have = {tuple(x[names.index(c)] for c in d["pk"]) for x in old.get(t) or []}
        exp = [list(x) for x in old.get(t) or []] + [
            x for x in rows.get(t) or [] if tuple(x[names.index(c)] for c in d["pk"]) not in have]
        msg = e2e.diff(t, exp, r["tables"][t]["rows"])
        if msg:
            return "rows-unshifted", msg
    return None


SUITES = [Suite("merge", e2e.with_place(gen, .25), e2e.placed(check), 1, rule="merge runs into populated sqlite databases")]
