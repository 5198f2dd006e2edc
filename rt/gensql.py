"""Random tables and plan statements (JSON)."""
from __future__ import annotations

VALS = [None, 0, 1, 2, 3, 4]
STRS = [None, "", "a", "ab", "B", "a_b", "50%"]


def gen_tables(rng, names=("t1", "t2", "t3"), nulls=True, maxrows=5):
    """{key: {"cols","rows","pk"}}; column k* integers, s* strings; primary key id (or pair, or none)"""
    out = {}
    for nm in names:
        cols = ["id", "k1", "k2", "s"]
        pk = rng.choice([["id"], ["id"], ["id", "k1"], []])
        rows, seen = [], set()
        for i in range(rng.randint(0, maxrows)):
            r = [rng.choice([0, 1, 2, 3, 4, 5, 6]),
                 rng.choice(VALS[1:] if "k1" in pk or not nulls else VALS),
                 rng.choice(VALS if nulls else VALS[1:]), rng.choice(STRS)]
            key = tuple(r[cols.index(c)] for c in pk)
            if pk and key in seen:
                continue
            seen.add(key)
            rows.append(r)
        out[nm] = {"cols": cols, "rows": rows, "pk": pk}
    return out


def gen_where(rng, names, depth=2, cols=("id", "k1", "k2", "s"), sql=False, random=True):
    k = rng.random()
    if depth > 0 and k < .5:
        n = rng.choice([0, 1, 1, 2, 2, 3])
        return {"type": rng.choice(["and", "or"]),
                "conditions": [gen_where(rng, names, depth - 1, cols, sql, random)
                               for _ in range(n)]}
    c = rng.choice(list(cols))
    k = rng.choice(["true", "false", "operator", "operator", "in", "in-select"] +
                   (["random"] if random else []) + (["sql"] if sql else []))
    if k in ("true", "false"):
        return {"type": k}
    if k == "operator":
        if c == "s":
            return {"type": "operator", "operator": rng.choice(
                ["=", "<>", "like", "not like", "!="]), "column": c,
                "value": rng.choice(["a", "a%", "%b", "", "_b", "B"])}
        return {"type": "operator", "operator": rng.choice(["=", "<", ">", "<>", "!="]),
                "column": c, "value": rng.choice([0, 1, 2, 3])}
    if k == "random":
        return {"type": "random", "threshold": rng.choice([-1, 0, .3, .7, 1, 2])}
    if k == "sql":
        return {"type": "sql", "sql": rng.choice(
            ["k1 = 1 or k2 = 2", "id > 2", "k1 is null or id = 1", "id = :p or id = 1"]),
            "sql_params": None}
    ic = rng.sample([x for x in cols if x != "s"], rng.choice([1, 1, 2]))
    if k == "in":
        return {"type": "in", "columns": ic, "values": [
            [rng.choice([0, 1, 2, 3]) for _ in ic] for _ in range(rng.choice([0, 1, 2, 3]))],
            "negated": rng.random() < .3}
    sub = gen_statement(rng, names, 0, columns=rng.sample(["id", "k1", "k2"], len(ic)),
                        limit=False, sampled=False)
    return {"type": "in", "columns": ic, "values": sub, "negated": rng.random() < .3}


def gen_join(rng, names):
    n = rng.choice([1, 1, 2])
    return {"right": {"schema": "main", "table": rng.choice(names), "sampled": rng.random() < .4},
            "left_columns": rng.sample(["id", "k1", "k2"], n),
            "right_columns": rng.sample(["id", "k1", "k2"], n),
            "half_unique": rng.random() < .5}


def gen_select(rng, names, depth=2, columns=None, limit=True, joins=True, table=None,
               sql=False, random=True):
    d = {"type": "select", "from": {"schema": "main", "table": table or rng.choice(names)}}
    if columns:
        d["columns"] = list(columns)
    if rng.random() < .75:
        d["where"] = gen_where(rng, names, depth, sql=sql, random=random)
    if joins and rng.random() < .4:
        d["joins"] = [gen_join(rng, names) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        d["joins_outer"] = rng.random() < .5
    if limit and rng.random() < .25:
        d["limit"] = rng.choice([0, 1, 2])
    return d


def gen_statement(rng, names, depth=2, columns=None, limit=True, sampled=True, sql=False,
                  random=True):
    if rng.random() < .45:
        cols = columns or rng.choice([None, ["id"], ["k1", "id"], ["id", "k2"]])
        one = rng.choice(names) if rng.random() < .7 else None
        return {"type": "union", "statements": [
            gen_select(rng, names, depth, columns=cols, limit=limit, table=one, sql=sql,
                       random=random) for _ in range(rng.choice([1, 2, 2, 3]))]}
    return gen_select(rng, names, depth, columns=columns or rng.choice([None, ["k1"], ["id", "s"]]),
                      limit=limit, sql=sql, random=random)
