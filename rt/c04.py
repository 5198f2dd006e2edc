"""C04: SQL built from plan statements, executed on sqlite, against the independent evaluator."""
import sqlite3

from rt.gensql import gen_statement, gen_tables
from rt.runner import Suite
from rt.sqlmodel import DB, Tab

NAMES = ["t1", "t2", "t3"]
TY = {"id": "INTEGER", "k1": "INTEGER", "k2": "INTEGER", "s": "VARCHAR"}


def sampled_rows(t):
    return t["rows"][::2]


def world(tables):
    """sqlalchemy tables and an engine holding them; sampled copies are smp_<name>"""
    import sqlalchemy as sa
    from sqlalchemy.pool import StaticPool
    eng = sa.create_engine("sqlite://", poolclass=StaticPool)
    md = sa.MetaData()
    objs = {}
    for nm, t in tables.items():
        for s in (False, True):
            objs[nm, s] = sa.Table(
                ("smp_" if s else "") + nm, md,
                *(sa.Column(c, sa.String() if c == "s" else sa.Integer(),
                            primary_key=c in t["pk"]) for c in t["cols"]))
    with eng.begin() as cx:
        for nm, t in tables.items():
            for s in (False, True):
                # primary keys are declared to SQLAlchemy; the stored table carries none, so that
                # null keys are possible nowhere else than in the data itself
                name = ("smp_" if s else "") + nm
                cx.exec_driver_sql(f"create table {name} (" + ", ".join(
                    f"{c} {TY[c]}" for c in t["cols"]) + ")")
                rows = sampled_rows(t) if s else t["rows"]
                if rows:
                    cx.exec_driver_sql(f"insert into {name} values ({','.join('?' * len(t['cols']))})",
                                       [tuple(r) for r in rows])
    return eng, objs


def sql_meaning(tables):
    def ev(sql, params, row):
        cx = sqlite3.connect(":memory:")
        cols = list(row)
        v = cx.execute("select (" + sql + ") from (select " + ", ".join(
            f":v{i} as {c}" for i, c in enumerate(cols)) + ")",
            dict({f"v{i}": row[c] for i, c in enumerate(cols)}, **(params or {}))).fetchone()[0]
        cx.close()
        return None if v is None else bool(v)
    return ev


def has(w, kinds):
    if isinstance(w, dict):
        return w.get("type") in kinds or any(has(x, kinds) for x in w.values())
    if isinstance(w, list):
        return any(has(x, kinds) for x in w)
    return False


def fix(w, rng):
    if isinstance(w, dict):
        if w.get("joins") and has(w.get("where"), ["sql"]):
            w["joins"] = []  # raw SQL names columns unqualified: ambiguous next to a join
        if w.get("type") == "random":
            w["threshold"] = rng.choice([-1, 0, 1, 2])
        if w.get("type") == "sql":
            w["sql_params"] = None
            if ":p" in w["sql"]:
                w["sql_params"] = {"p": rng.choice([0, 1, 2])}
        for x in w.values():
            fix(x, rng)
    if isinstance(w, list):
        for x in w:
            fix(x, rng)


def gen(rng, i):
    # in one case of three, names that a database could make up for an alias of another table
    names = NAMES if rng.random() < .67 else ["t1", "t1_1", "t1_2"]
    st = gen_statement(rng, names, 3, sql=True)
    fix(st, rng)
    return {"tables": gen_tables(rng, names), "statement": st}


def check(case):
    from pydantic import TypeAdapter
    from subsetter import plan_model as P
    tb = case["tables"]
    d = {}
    for nm, t in tb.items():
        d["main", nm, False] = Tab(t["cols"], t["rows"], t["pk"])
        d["main", nm, True] = Tab(t["cols"], sampled_rows(t), t["pk"])
    db = DB(d, opaque=sql_meaning(tb), rnd=lambda row: .5)
    st = TypeAdapter(P.SQLStatement).validate_python(case["statement"])
    js = case["statement"]
    if any_limit_union(js):
        return check_limited(case, st, db)
    if js["type"] == "union" and len(js["statements"]) == 1:
        want = db.rows(js["statements"][0])
    else:
        want = db.rows(js)
    eng, objs = world(tb)
    try:
        stmt = st.build(lambda ident: objs[ident.table_name, bool(ident.sampled)])
        with eng.connect() as cx:
            res = cx.execute(stmt)
            cols = list(res.keys())
            got = [tuple(r) for r in res]
    except Exception as e:
        return "fails", f"{js} fails: {type(e).__name__}: {str(e)[:300]}"
    finally:
        eng.dispose()
    if cols != db.columns(js):
        return "columns", f"{js} yields columns {cols}"
    base = js["statements"][0] if js["type"] == "union" else js
    lim = js.get("limit")
    allrows = db.rows(dict(js, limit=None))
    if lim is not None:
        if len(got) != min(lim, len(allrows)):
            return "limit", f"{js} yields {len(got)} rows of {len(allrows)}"
        pool = list(allrows)
        for r in got:
            if r not in pool:
                return "rows", f"{js} yields {r}, matching rows are {allrows}"
            pool.remove(r)
        return None
    if sorted(map(repr, got)) != sorted(map(repr, want)):
        return "rows", (f"{js} over {tb[base['from']['table']]['rows']} yields "
                        f"{sorted(map(repr, got))}, means {sorted(map(repr, want))}")
    return None


def any_limit_union(js):
    return js["type"] == "union" and any(s.get("limit") is not None for s in js["statements"])


def check_limited(case, st, db):
    js, tb = case["statement"], case["tables"]
    eng, objs = world(tb)
    try:
        stmt = st.build(lambda ident: objs[ident.table_name, bool(ident.sampled)])
        with eng.connect() as cx:
            got = [tuple(r) for r in cx.execute(stmt)]
    except Exception as e:
        return "fails", f"{js} fails: {type(e).__name__}: {str(e)[:300]}"
    finally:
        eng.dispose()
    free = [dict(s, limit=None) for s in js["statements"]]
    must = {r for s, f in zip(js["statements"], free) if s.get("limit") is None
            for r in db.rows(f)}
    may = must | {r for s, f in zip(js["statements"], free) if s.get("limit") for r in db.rows(f)}
    if len(set(got)) != len(got) and len(free) > 1:
        return "union-duplicates", f"{js} yields duplicates {got}"
    if not must <= set(got) <= may:
        return "union-limit", f"{js} yields {got}, must {must} may {may}"
    top = len(must) + sum(min(s["limit"], len(db.rows(f))) for s, f in zip(js["statements"], free)
                          if s.get("limit") is not None)
    if len(got) > top:
        return "union-limit", f"{js} yields {len(got)} rows, at most {top}"
    for s, f in zip(js["statements"], free):
        if s.get("limit") is not None:
            have = set(got) & set(db.rows(f))
            if len(have) < min(s["limit"], len(set(db.rows(f)))) and len(set(db.rows(f))) == len(
                    db.rows(f)):
                return "union-limit", f"{js} yields {got}: too few rows of {s}"
    return None


def gen_r(rng, i):
    return {"threshold": rng.choice([.1, .25, .5, .9, .02]), "n": 4000,
            "negated": False, "and": rng.random() < .5}


def check_r(case):
    """share of rows selected by a random condition, within eight standard deviations"""
    from pydantic import TypeAdapter
    from subsetter import plan_model as P
    tb = {"t1": {"cols": ["id", "k1", "k2", "s"], "pk": ["id"],
                 "rows": [[i, 1, 1, "a"] for i in range(case["n"])]}}
    w = {"type": "random", "threshold": case["threshold"]}
    if case["and"]:
        w = {"type": "and", "conditions": [w, {"type": "operator", "operator": "=",
                                               "column": "k1", "value": 1}]}
    st = TypeAdapter(P.SQLStatement).validate_python(
        {"type": "select", "from": {"schema": "main", "table": "t1"}, "where": w})
    eng, objs = world(tb)
    try:
        with eng.connect() as cx:
            got = len(list(cx.execute(st.build(
                lambda ident: objs[ident.table_name, bool(ident.sampled)]))))
    finally:
        eng.dispose()
    p, n = case["threshold"], case["n"]
    if abs(got - p * n) > 8 * (n * p * (1 - p)) ** .5 + 2:
        return "random-share", f"random condition {p} keeps {got} of {n} rows"
    return None


def gen_l(rng, i):
    return {"limit": rng.choice([1, 2, 3]), "n": rng.choice([3, 4])}


def check_l(case):
    from pydantic import TypeAdapter
    from subsetter import plan_model as P
    n = case["n"]
    tb = {"t1": {"cols": ["id", "k1", "k2", "s"], "pk": ["id"],
                 "rows": [[i, 1, 1, "a"] for i in range(n)]}}
    st = TypeAdapter(P.SQLStatement).validate_python(
        {"type": "select", "from": {"schema": "main", "table": "t1"}, "limit": case["limit"]})
    eng, objs = world(tb)
    try:
        with eng.connect() as cx:
            for _ in range(5):
                got = [r[0] for r in cx.execute(st.build(
                    lambda ident: objs[ident.table_name, bool(ident.sampled)]))]
                if len(got) != min(n, case["limit"]) or len(set(got)) != len(got):
                    return "limit", f"limit {case['limit']} of {n} rows yields {got}"
    finally:
        eng.dispose()
    return None


def gen_q(rng, i):
    return {"tables": gen_tables(rng, NAMES), "p": rng.choice([0, 1, 2, 3]),
            "sql": rng.choice(["select id from t1 where k1 = :p or k2 = :p", "select * from t2"])}


def check_q(case):
    """a query given as SQL text with parameters"""
    from subsetter import plan_model as P
    tb = case["tables"]
    qy = P.SQLTableQuery.model_validate({"sql": case["sql"],
                                         "sql_params": {"p": case["p"]} if ":p" in case["sql"]
                                         else None})
    eng, objs = world(tb)
    try:
        with eng.connect() as cx:
            want = [tuple(r) for r in cx.exec_driver_sql(
                case["sql"].replace(":p", str(case["p"])))]
            got = [tuple(r) for r in cx.execute(qy.build(lambda ident: objs[ident.table_name, False]))]
    except Exception as e:
        return "query-fails", f"{case['sql']} fails: {type(e).__name__}: {str(e)[:200]}"
    finally:
        eng.dispose()
    return None if got == want else ("query", f"{case['sql']} {case['p']}: {got} not {want}")


def gen_d(rng, i):
    st = gen_statement(rng, NAMES, 2, sql=True)
    fix(st, rng)
    if rng.random() < .3:
        st = {"type": "select", "from": {"schema": "main", "table": "t1"},
              "where": {"type": "random", "threshold": .5}}
    return {"tables": gen_tables(rng, NAMES), "statement": st,
            "dialect": rng.choice(["mysql", "postgresql"])}


def check_d(case):
    """the statement also compiles for the other dialects and names the same tables and columns"""
    import re

    from pydantic import TypeAdapter
    from subsetter import plan_model as P
    eng, objs = world(case["tables"])
    eng.dispose()
    from sqlalchemy.dialects import mysql, postgresql
    dia = {"mysql": mysql, "postgresql": postgresql}[case["dialect"]].dialect()
    js = case["statement"]
    st = TypeAdapter(P.SQLStatement).validate_python(js)
    try:
        txt = str(st.build(lambda ident: objs[ident.table_name, bool(ident.sampled)]).compile(
            dialect=dia))
    except Exception as e:
        return "compile", f"{js} does not compile for {case['dialect']}: {type(e).__name__}: {e}"
    if js["type"] == "select" and (js.get("where") or {}).get("type") == "random":
        want = "rand()" if case["dialect"] == "mysql" else "random()"
        if want not in txt.lower():
            return "random-dialect", f"{txt} has no {want}"
    return None


SUITES = [Suite("statements", gen, check, 3, rule="random statements executed on sqlite"),
          Suite("random-share", gen_r, check_r, .4), Suite("limit", gen_l, check_l, .3),
          Suite("raw-queries", gen_q, check_q, .2), Suite("dialects", gen_d, check_d, .3)]
