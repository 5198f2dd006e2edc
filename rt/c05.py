"""C05 on the real code: statements before and after simplify(), read by an independent evaluator."""
from pydantic import TypeAdapter

from rt.gensql import gen_statement, gen_tables, gen_where
from rt.runner import Suite
from rt.sqlmodel import DB, Tab

NAMES = ["t1", "t2", "t3"]


def gen(rng, i):
    return {"tables": gen_tables(rng, NAMES), "statement": gen_statement(rng, NAMES, 3, sql=True),
            "dup": rng.random() < .3}


def db_of(tables):
    d = {}
    for nm, t in tables.items():
        for s in (False, True):
            rows = t["rows"] if not s else t["rows"][::2]
            d[("main", nm, s)] = Tab(t["cols"], rows, t["pk"])
    return DB(d)


def dump(m):
    return m.model_dump(mode="json", by_alias=True)


def check(case):
    from subsetter import plan_model as P
    db = db_of(case["tables"])
    st = TypeAdapter(P.SQLStatement).validate_python(case["statement"])
    want = dump(st)
    before = (db.columns(want), sorted(map(repr, set(db.rows(want)))))
    try:
        s = st.simplify()
    except Exception as e:
        return "raises", f"simplify raises {type(e).__name__}: {e} on {want}"
    if dump(st) != want:
        return "mutated", f"simplify changed its input {want}"
    got = dump(s)
    after = (db.columns(got), sorted(map(repr, set(db.rows(got)))))
    if before != after:
        return "rows", f"{want} selects {before}, simplified {got} selects {after}"
    return None


def gen_w(rng, i):
    return {"tables": gen_tables(rng, NAMES), "where": gen_where(rng, NAMES, 4, sql=True)}


def check_w(case):
    from subsetter import plan_model as P
    db = db_of(case["tables"])
    w = TypeAdapter(P.SQLWhereClause).validate_python(case["where"])
    want = dump(w)
    try:
        got = dump(w.simplify())
    except Exception as e:
        return "raises", f"simplify raises {type(e).__name__}: {e} on {want}"
    for t in case["tables"].values():
        for r in t["rows"]:
            d = dict(zip(t["cols"], r))
            x, y = db.where(want, d), db.where(got, d)
            if x is not y:
                return "condition", f"{want} is {x} for {d}, simplified {got} is {y}"
    return None


SUITES = [Suite("statements", gen, check, 2, rule="random tables, unions, joins and conditions"),
          Suite("conditions", gen_w, check_w, 1)]
