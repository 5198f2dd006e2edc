"""C03: the statements the planner writes, read by the independent evaluator, against the rows the
configuration asks for."""
from rt import e2e
from rt.runner import Suite
from rt.sqlmodel import DB, Tab, T, and3, cmp3


def gen_target(rng, d):
    cols = [c for c in d["cols"]]
    ints = [c[0] for c in cols if c[1] == "int"]
    strs = [c[0] for c in cols if c[1] == "str"]
    t = {}
    if rng.random() < .25:
        t["all"] = True
    if rng.random() < .25:
        t["percent"] = rng.choice([0, 10, 40, 75.5, 100])
    if rng.random() < .25:
        t["amount"] = rng.choice([0, 1, 2, 5])
    if strs and rng.random() < .4:
        t["like"] = {c: rng.sample(["a%", "%b", "_", "%", "k1"], rng.choice([1, 1, 2]))
                     for c in rng.sample(strs, rng.randint(1, len(strs)))}
    if rng.random() < .4:
        t["in"] = {}
        for c in rng.sample([x[0] for x in cols], rng.choice([1, 1, 2, min(2, len(cols))])
                            if len(cols) > 1 else 1):
            ty = next(x[1] for x in cols if x[0] == c)
            t["in"][c] = ([rng.choice(["a", "b", "ab", "k1"]) for _ in range(rng.choice([0, 1, 2]))]
                          if ty == "str" else
                          [rng.choice([0, 1, 2, 3, 5]) for _ in range(rng.choice([0, 1, 3]))])
    if rng.random() < .2:
        t["sql"] = rng.choice(["id > 2 or v0 = 1", "v0 is null", "1 = 1"])
    return t


def gen(rng, i):
    n = rng.choice([1, 2, 3, 4])
    tables = e2e.gen_schema(rng, n, acyclic=True, extra_cols=rng.choice([1, 2]),
                            pkinds=["id", "id", "id", "pair", "str", "none"])
    rows = e2e.gen_rows(rng, tables, 7)
    names = list(tables)
    targets = rng.sample(names, rng.choice([1, 1, min(2, n)]))
    rest = [t for t in names if t not in targets]
    cons = {}
    for t in names:
        if rng.random() < .2:
            cl = []
            for _ in range(rng.choice([0, 1, 1, 2])):
                c, ty, _n = rng.choice(tables[t]["cols"])
                if rng.random() < .05:
                    c = "nosuch"
                if ty == "str":
                    cl.append({"column": c, "operator": rng.choice(["like", "not like", "=", "<>"]),
                               "value": rng.choice(["a%", "b", "%"])})
                else:
                    cl.append({"column": c, "operator": rng.choice(["<", ">", "=", "<>", "!="]),
                               "value": rng.choice([1, 3, 5])})
            cons["test." + t] = cl
    return {"tables": tables, "rows": rows,
            "targets": {"test." + t: gen_target(rng, tables[t]) for t in targets},
            "constraints": cons, "passthrough": rng.sample(rest, 1) if rest and
            rng.random() < .25 else []}


def match(conds, row):
    return and3(conds(row)) is T


def check(case):
    tb, rows = case["tables"], case["rows"]
    pa = set(case["passthrough"])
    if any(t in pa and d not in pa for t in tb for _, d, _ in tb[t]["fks"]):
        return None
    r = e2e.run_plan(tb, {"select": ["test.*"], "targets": case["targets"],
                          "passthrough": ["test." + t for t in sorted(pa)],
                          "table_constraints": case["constraints"]})
    err = r.get("error")
    if err:
        # refusals are judged below when the tables can be ordered at all
        from subsetter.solver import CycleException
        if isinstance(r["exc"].__cause__, CycleException):
            return None
        order = None
        relaxed = e2e.run_plan(tb, {"select": ["test.*"], "targets": case["targets"],
                                    "passthrough": ["test." + t for t in sorted(pa)]})
        if "error" in relaxed:
            return "refused", f"plan without constraints refused: {relaxed['error']}"
        order = [k.split(".")[1] for k in relaxed["plan"]["queries"]]
        plan = None
    else:
        plan = r["plan"]
        order = [k.split(".")[1] for k in plan["queries"]]
        if sorted(plan["passthrough"]) != sorted("test." + t for t in pa):
            return "passthrough", f"passthrough {plan['passthrough']}, configured {sorted(pa)}"
    order = [t for t in order if t not in pa]
    done, refuse = {}, False
    for t in order:
        d = tb[t]
        cols = [c[0] for c in d["cols"]]
        tgt = case["targets"].get("test." + t)
        cl = case["constraints"].get("test." + t) or []
        fw = [f for f in d["fks"] if f[1] in done]
        bw = [(dcs, u, cs) for u in done for cs, x, dcs in tb[u]["fks"] if x == t]
        if any(c["column"] not in cols for c in cl) or (cl and bw):
            refuse = True
            break

        def hit(row, cs, other, dcs):
            on = [c[0] for c in tb[other]["cols"]]
            return any(and3(cmp3("=", row[a], o[on.index(b)]) for a, b in zip(cs, dcs)) is T
                       for o in done[other])
        rs = [dict(zip(cols, r)) for r in rows.get(t) or []]
        okc = [x for x in rs if and3(cmp3(c["operator"], x[c["column"]], c["value"])
                                     for c in cl) is T]
        if tgt is not None:
            m = []
            for x in okc:
                cs = []
                if not tgt.get("all"):
                    if tgt.get("percent") is not None:
                        cs.append(DB._rnd(x) < tgt["percent"] / 100.0)
                    if tgt.get("sql") is not None:
                        cs.append(DB._opaque(tgt["sql"], None, x))
                    for c, pats in (tgt.get("like") or {}).items():
                        cs += [cmp3("like", x[c], p) for p in pats]
                    for c, vs in (tgt.get("in") or {}).items():
                        cs.append(any(cmp3("=", x[c], v) is T for v in vs))
                if and3(cs) is T:
                    m.append(x)
            if not tgt.get("all") and tgt.get("amount") is not None:
                m = m[:tgt["amount"]]
            want = m + [x for x in rs if any(hit(x, *b) for b in bw)]
        elif fw:
            want = [x for x in okc if all(hit(x, *f) for f in fw)]
        else:
            want = [x for x in rs if any(hit(x, *b) for b in bw)]
        want = {tuple(x[c] for c in cols) for x in want}
        if plan is not None:
            q = plan["queries"]["test." + t]
            if q.get("sql") is not None or q.get("statement") is None:
                return None
            try:
                got = [tuple(x) for x in e2e.model_db(tb, rows, "test", done).rows(q["statement"])]
            except KeyError as e:
                return "reads", f"{t}: statement reads {e}, not sampled before it"
            if set(got) != want:
                return "rows", (f"{t}: planned {q['statement']} selects {sorted(map(repr, got))}, "
                                f"asked for {sorted(map(repr, want))}")
        done[t] = [list(x) for x in want]
    if plan is None:
        return None if refuse else ("refused", f"plan refused: {err}")
    if refuse:
        return "constraint-dropped", (f"{t}: constraint {cl} cannot be honoured but a plan was "
                                      "made")
    for t in pa:
        q = plan["queries"].get("test." + t)
        if q is None:
            return "passthrough", f"passthrough table {t} is not planned"
        got = e2e.model_db(tb, rows, "test", done).rows(q["statement"])
        if e2e.canon(got) != e2e.canon(rows.get(t) or []):
            return "passthrough", f"passthrough {t} planned as {q['statement']}"
    return None


SUITES = [Suite("planned-queries", e2e.with_place(gen), e2e.placed(check), 1,
                rule="random schemas, targets and constraints; plan read by an independent "
                     "evaluator")]
