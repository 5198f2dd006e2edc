"""C09: compaction end to end on sqlite."""
from rt import e2e
from rt.runner import Suite


def gen(rng, i):
    n = rng.choice([1, 2, 3, 4])
    tables = e2e.gen_schema(rng, n, acyclic=True, pkinds=["id", "id", "id", "pair", "str"],
                            extra_cols=2)
    rows = e2e.gen_rows(rng, tables, 7)
    names = list(tables)
    pa = [t for t in names if rng.random() < .15 and all(
        False for _ in tables[t]["fks"])]
    comp = {"start_key": rng.choice([1, 1, 0, 10])}
    if rng.random() < .5:
        comp["primary_keys"] = True
    elif rng.random() < .5:
        comp["auto_increment_keys"] = True
    if rng.random() < .5:
        comp["columns"] = {}
        for t in rng.sample(names, rng.randint(1, n)):
            ints = [c[0] for c in tables[t]["cols"] if c[1] == "int"]
            if ints:
                comp["columns"]["test." + t] = rng.sample(ints, rng.choice([0, 1, 1, min(
                    2, len(ints))]))
    keys = list(names)
    rng.shuffle(keys)
    plan = e2e.closed_plan(rng, tables, pa)
    for t, d in tables.items():
        # referentially closed samples: every reference points at a sampled row or is null
        q = plan["queries"]["test." + t]["statement"]
        if t in pa:
            continue
        q["joins"] = [{"right": e2e.ident(dst, True), "left_columns": cs, "right_columns": dcs,
                       "half_unique": True} for cs, dst, dcs in d["fks"] if dst not in pa
                      and not any(next(x[2] for x in d["cols"] if x[0] == c) for c in cs)]
        if any(next(x[2] for x in d["cols"] if x[0] == c) for cs, _, _ in d["fks"] for c in cs):
            pass
    # keep referenced tables whole when a nullable reference is not joined
    for t, d in tables.items():
        for cs, dst, dcs in d["fks"]:
            if any(next(x[2] for x in d["cols"] if x[0] == c) for c in cs):
                whole(plan, tables, dst)
    plan["queries"] = {"test." + t: plan["queries"]["test." + t] for t in keys}
    for t, d in tables.items():
        # references of a table to itself
        used = {c for cs, _, _ in d["fks"] for c in cs} | set(d["pk"])
        free = [j for j, x in enumerate(d["cols"]) if x[1] == "int" and x[2] and x[0] not in used]
        if t in pa or len(d["pk"]) != 1 or not free or rng.random() < .5:
            continue
        k = [x[0] for x in d["cols"]].index(d["pk"][0])
        if d["cols"][k][1] != "int":
            continue
        for j in free[:rng.choice([1, 1, 2])]:
            d["fks"].append([[d["cols"][j][0]], t, list(d["pk"])])
            for r in rows[t]:
                r[j] = rng.choice([None] + [x[k] for x in rows[t]])
        whole(plan, tables, t)
    return {"tables": tables, "rows": rows, "plan": plan, "compact": comp,
            "infer": rng.choice(["none", "none", "none", "all"]), "reopen": rng.random() < .6}


def whole(plan, tables, t):
    q = plan["queries"]["test." + t]["statement"]
    q.pop("where", None)
    q.pop("joins", None)
    for _, dst, _ in tables[t]["fks"]:
        if dst != t:
            whole(plan, tables, dst)


def compact_columns(case):
    """{t: columns} or None: refused"""
    tb, c = case["tables"], case["compact"]
    from rt.c07 import infer
    fks = infer(tb, case["infer"])
    pa = set(x.split(".")[1] for x in case["plan"]["passthrough"])
    out = {t: set() for t in tb}
    for k, cols in (c.get("columns") or {}).items():
        t = k.split(".")[1]
        if t in tb and t not in pa:
            out[t] |= set(cols)
    for t, d in tb.items():
        if len(d["pk"]) == 1 and t not in pa:
            ty = next(x[1] for x in d["cols"] if x[0] == d["pk"][0])
            if ty == "int" and (c.get("primary_keys") or (
                    c.get("auto_increment_keys") and not any(
                        d["pk"][0] in cs for cs, _, _ in d["fks"]))):
                out[t].add(d["pk"][0])
    for t in tb:
        for cs, _, _ in fks[t]:
            if set(cs) & out[t]:
                return None, fks
    return out, fks


def check(case):
    tb, rows, plan = case["tables"], case["rows"], case["plan"]
    comp, fks = compact_columns(case)
    cfg = {"compact": case["compact"], "infer_foreign_keys": case["infer"]}
    dest = {t: {"cols": [[c, ty, True] for c, ty, _ in d["cols"]], "pk": [], "fks": [],
                "uniques": []} for t, d in tb.items()}
    r = e2e.run_sample(tb, rows, plan, cfg, dest=dest, create=False,
                       wrap=None if case["reopen"] else no_reopen)
    if comp is None:
        return None if "error" in r else ("not-refused", f"compaction of a foreign-key column "
                                          f"accepted: {case['compact']} on {fks}")
    if "error" in r:
        return "fails", f"compaction {case['compact']} fails: {r['error']}"
    sam = e2e.sample_oracle(tb, rows, plan)
    start = case["compact"].get("start_key", 1)
    num = {}
    for t, d in tb.items():
        names = [c[0] for c in d["cols"]]
        order = sorted(sam[t], key=lambda x: [x[names.index(c)].encode() if isinstance(
            x[names.index(c)], str) else x[names.index(c)] for c in d["pk"]])
        num[t] = {tuple(x): start + k for k, x in enumerate(order)}
    for t, d in tb.items():
        names = [c[0] for c in d["cols"]]
        remote = {}
        for cs, x, dcs in fks[t]:
            for c, dc in zip(cs, dcs):
                if dc in comp[x]:
                    if c in remote and remote[c] != (x, dc):
                        return None
                    dn = [y[0] for y in tb[x]["cols"]]
                    vals = [y[dn.index(dc)] for y in sam[x]]
                    if len(set(vals)) != len(vals):
                        return None  # a partial reference does not identify a row
                    remote[c] = (x, dc)
        exp = []
        for x in sam[t]:
            o = []
            for c, v in zip(names, x):
                if c in comp[t]:
                    o.append(num[t][tuple(x)])
                elif c in remote:
                    u, dc = remote[c]
                    dn = [y[0] for y in tb[u]["cols"]]
                    hit = [y for y in sam[u] if v is not None and y[dn.index(dc)] == v]
                    if v is not None and not hit:
                        return None  # not referentially closed
                    o.append(num[u][tuple(hit[0])] if hit else None)
                else:
                    o.append(v)
            exp.append(o)
        msg = e2e.diff(t, exp, r["tables"][t]["rows"])
        if msg:
            return "rows", f"compacted {comp}, references {remote}; {msg}"
    return None


class no_reopen:
    """as on a database that cannot open a temporary table twice in one statement; every
    executed statement is checked for that"""

    def __init__(self, sampler):
        self.sampler = sampler

    def __enter__(self):
        import sqlalchemy as sa
        from subsetter import sampler as S
        self.cls = S.DatabaseMetadata
        self.orig = self.cls.from_engine
        orig = self.orig
        self.bad = []
        self.names = set()

        def patched(*a, **k):
            meta, x = orig(*a, **k)
            meta.supports_temp_reopen = False
            return meta, x
        self.cls.from_engine = patched

        def before(conn, cursor, statement, parameters, context, executemany):
            import re
            m = re.match(r'\s*CREATE TEMPORARY TABLE ("[^"]+"|\S+)', statement)
            if m:
                self.names.add(m.group(1).strip('"'))
                return
            if re.match(r"\s*CREATE", statement):
                return
            body = re.sub(r"^\s*INSERT INTO \S+ \([^)]*\)", "", statement)
            for nm in self.names:
                k = len(re.findall(r"(?:FROM|JOIN|,)\s+\(*\s*(?:\"NM\"|NM)(?![\w.\"])".replace(
                    "NM", re.escape(nm)), body))
                if k > 1:
                    self.bad.append((nm, body[:400]))
        self.before = before
        sa.event.listen(self.sampler.source_engine, "before_cursor_execute", before)
        return self

    def __exit__(self, et, ev, tb):
        self.cls.from_engine = self.orig
        if self.bad and et is None:
            raise Reopened(f"temporary table {self.bad[0][0]} opened twice in {self.bad[0][1]}")


class Reopened(Exception):
    pass


SUITES = [Suite("compaction", e2e.with_place(gen), e2e.placed(check), 1, rule="end to end on sqlite, with and without "
                "reopenable temporary tables")]
