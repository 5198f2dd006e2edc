"""Random sqlite worlds, runs of the real planner/sampler on them, and an independent oracle of the
whole pipeline (plan -> sample -> compaction -> multiplicity -> merge offsets -> conflicts)."""
from __future__ import annotations

import atexit
import contextlib
import itertools
import json
import os
import re
import shutil
import sqlite3
import tempfile

from rt.sqlmodel import DB, Tab

_base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
ROOT = tempfile.mkdtemp(prefix="verif_e2e_", dir=os.environ.get("TMPDIR") or _base)
atexit.register(shutil.rmtree, ROOT, ignore_errors=True)
_n = itertools.count()


def scratch():
    d = os.path.join(ROOT, str(next(_n)))
    os.mkdir(d)
    return d


def q(x):
    return '"' + x.replace('"', '""') + '"'


SQLT = {"int": "INTEGER", "str": "VARCHAR(40)", "big": "BIGINT", "flt": "FLOAT"}


def create_db(path, tables, rows=None):
    """tables: {"t": {"cols": [[name, type, nullable]...], "pk": [...], "fks": [[cols, dst, dcols]],
    "uniques": [[cols]], "computed": {col: expr}}}; rows: {"t": [[...]]}"""
    cx = sqlite3.connect(path)
    for t, d in tables.items():
        parts = []
        comp = d.get("computed") or {}
        for c, ty, null in d["cols"]:
            s = f"{q(c)} {SQLT[ty]}"
            if c in comp:
                s += f" GENERATED ALWAYS AS ({comp[c]}) STORED"
            elif not null:
                s += " NOT NULL"
            parts.append(s)
        if d.get("pk"):
            parts.append("PRIMARY KEY (" + ", ".join(map(q, d["pk"])) + ")")
        for u in d.get("uniques") or []:
            parts.append("UNIQUE (" + ", ".join(map(q, u)) + ")")
        for k, (cols, dst, dcols) in enumerate(d.get("fks") or []):
            parts.append(f"CONSTRAINT fk_{abs(hash(t)) % 1000}_{k} FOREIGN KEY (" +
                         ", ".join(map(q, cols)) +
                         f") REFERENCES {q(dst)} (" + ", ".join(map(q, dcols)) + ")")
        cx.execute(f"CREATE TABLE {q(t)} (" + ", ".join(parts) + ")")
        for ix in d.get("indexes") or []:
            cx.execute(f"CREATE {'UNIQUE ' if ix[1] else ''}INDEX {q(ix[0])} ON {q(t)} (" +
                       ", ".join(map(q, ix[2])) + ")")
        rs = (rows or {}).get(t) or []
        if rs:
            keep = [i for i, c in enumerate(d["cols"]) if c[0] not in comp]
            cx.executemany(f"INSERT INTO {q(t)} (" + ", ".join(q(d["cols"][i][0]) for i in keep) +
                           ") VALUES (" + ", ".join("?" * len(keep)) + ")",
                           [[r[i] for i in keep] for r in rs])
    cx.commit()
    cx.close()


def read_db(path):
    cx = sqlite3.connect(path)
    out = {}
    for (t,) in cx.execute("select name from sqlite_master where type='table' and name not like "
                           "'sqlite_%'").fetchall():
        cur = cx.execute(f"select * from {q(t)}")
        out[t] = {"cols": [c[0] for c in cur.description], "rows": [list(r) for r in cur]}
    cx.close()
    return out


def gen_schema(rng, n=None, acyclic=True, names=None, selfref=False, composite=True, pkinds=None,
               nonpk_refs=True, extra_cols=1):
    n = n or rng.choice([2, 3, 3, 4])
    names = names or [f"t{i}" for i in range(n)]
    order = list(names)
    rng.shuffle(order)
    out = {}
    for i, t in enumerate(order):
        kind = rng.choice(pkinds or ["id", "id", "id", "pair", "str", "none"])
        cols, pk = [], []
        if kind == "id":
            pk = [rng.choice(["id", "id", f"{t}_id"])]
            cols = [[pk[0], "int", False]]
        elif kind == "pair" and composite:
            cols, pk = [["a", "int", False], ["b", "int", False]], ["a", "b"]
        elif kind == "str":
            cols, pk = [["code", "str", False]], ["code"]
        else:
            cols = [["n", "int", True]]
        uniques = []
        if rng.random() < .3:
            cols.append(["u", "int", False])
            uniques.append(["u"])
        for k in range(extra_cols):
            cols.append([f"v{k}", rng.choice(["int", "str"]), True])
        out[t] = {"cols": cols, "pk": pk, "fks": [], "uniques": uniques}
    for i, t in enumerate(order):
        cands = order[:i] if acyclic else order
        cands = [d for d in cands if d != t or selfref]
        for k in range(rng.choice([0, 1, 1, 2])):
            if not cands:
                break
            dst = rng.choice(cands)
            dd = out[dst]
            keys = ([dd["pk"]] if dd["pk"] else []) + (dd["uniques"] if nonpk_refs else [])
            if not keys:
                continue
            key = rng.choice(keys)
            cs = []
            for kc in key:
                ty = next(c[1] for c in dd["cols"] if c[0] == kc)
                nm = f"f{k}_{kc}"
                if any(c[0] == nm for c in out[t]["cols"]):
                    nm = f"g{k}_{dst}_{kc}"
                out[t]["cols"].append([nm, ty, rng.random() < .6])
                cs.append(nm)
            out[t]["fks"].append([cs, dst, list(key)])
    return {t: out[t] for t in names}


def topo(tables):
    done, order = set(), []
    while len(order) < len(tables):
        step = [t for t in tables if t not in done and
                all(d in done or d == t or d not in tables for _, d, _ in tables[t]["fks"])]
        if not step:
            order += [t for t in tables if t not in done]
            break
        order += step
        done |= set(step)
    return order


def gen_rows(rng, tables, maxrows=6, base=0, strict=True):
    """rows honouring primary keys, uniques and foreign keys (for acyclic schemas)"""
    rows = {}
    for t in topo(tables):
        d = tables[t]
        names = [c[0] for c in d["cols"]]
        fkcols = {}
        for cs, dst, dcs in d["fks"]:
            for c in cs:
                fkcols[c] = (cs, dst, dcs)
        rs, seen = [], [set() for _ in [d["pk"]] + d["uniques"]]
        for i in range(rng.randint(0, maxrows)):
            r = {}
            for c, ty, null in d["cols"]:
                if c in r or c in fkcols:
                    continue
                if null and rng.random() < .2:
                    r[c] = None
                elif ty == "str":
                    r[c] = rng.choice(["a", "b", "ab", "x_y", "50%", "é", "k1", "k2", "k3", ""])
                else:
                    r[c] = base + rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 17])
            ok = True
            for cs, dst, dcs in d["fks"]:
                pool = rows.get(dst) or []
                dn = [c[0] for c in tables[dst]["cols"]] if dst in tables else []
                nullable = [c for c in cs if next(x[2] for x in d["cols"] if x[0] == c)]
                if nullable and (not pool or rng.random() < .25):
                    for c in cs:
                        r[c] = None if c in nullable else 0
                elif pool:
                    pr = rng.choice(pool)
                    for c, dc in zip(cs, dcs):
                        r[c] = pr[dn.index(dc)]
                else:
                    ok = False
            if not ok:
                continue
            for k, key in enumerate([d["pk"]] + d["uniques"]):
                kv = tuple(r[c] for c in key)
                if key and kv in seen[k]:
                    ok = False
            if not ok:
                continue
            for k, key in enumerate([d["pk"]] + d["uniques"]):
                seen[k].add(tuple(r[c] for c in key))
            rs.append([r[c] for c in names])
        rows[t] = rs
    return rows


def model_db(tables, rows, schema="test", sampled=None):
    d = {}
    for t, x in tables.items():
        cols = [c[0] for c in x["cols"]]
        d[(schema, t, False)] = Tab(cols, rows.get(t) or [], x["pk"])
        if sampled is not None and t in sampled:
            d[(schema, t, True)] = Tab(cols, sampled[t], x["pk"])
    return DB(d)


# -- tables spread over several schemas ------------------------------------------------------------
# The suites name their tables test.<t>.  A case with "place" ({t: [schema, name]}) runs with the
# tables in other schemas, possibly several of the same name; everything handed to the code and
# everything it returns is translated.  sqlite has no references between attached databases: those
# are added to the reflected tables, as other systems report them.

PLACE = None


def with_place(gen, p=.4):
    def f(rng, i):
        case = gen(rng, i)
        if rng.random() < p:
            case["place"] = rand_place(rng, list(case["tables"]))
        return case
    return f


def rand_place(rng, names):
    out, used = {}, set()
    for t in names:
        while True:
            at = (rng.choice(["test", "more"]), f"t{rng.choice(range(len(names)))}")
            if at not in used:
                break
        used.add(at)
        out[t] = list(at)
    return out


def placed(check):
    def f(case):
        global PLACE
        PLACE = case.get("place")
        try:
            return check(case)
        finally:
            PLACE = None
    return f


def at(t, schema="test"):
    """(schema, name) a table of the suite lives under"""
    if PLACE is None:
        return schema, t
    if t in PLACE:
        return tuple(PLACE[t])
    src = "t" + t[1:]  # a renamed destination table
    return (PLACE[src][0], t[0] + PLACE[src][1][1:]) if src in PLACE else (schema, t)


def place_of(t):
    return at(t)[0]


def there(x):
    """translate what is handed to the code"""
    if PLACE is None:
        return x
    names = {f"test.{t}": ".".join(v) for t, v in PLACE.items()}

    def go(v):
        if isinstance(v, dict):
            if "schema" in v and "table" in v and v["schema"] == "test":
                s, n = at(v["table"])
                v = dict(v, schema=s, table=n)
            return {names.get(k, k): go(y) for k, y in v.items()}
        if isinstance(v, (list, tuple)):
            return [y for z in v for y in (
                [f"{s}.*" for s in sorted({p[0] for p in PLACE.values()})] if z == "test.*"
                else [go(z)])]
        return names.get(v, v) if isinstance(v, str) else v
    return go(x)


def back(x):
    """translate what the code returns"""
    if PLACE is None:
        return x
    names = {tuple(v): t for t, v in PLACE.items()}

    def txt(s):
        return re.sub(r"\b(test|more)\.(t\d+)\b", lambda m: "test." + names.get(
            (m.group(1), m.group(2)), "?" + m.group(0)), s)

    def go(v):
        if isinstance(v, dict):
            if "schema" in v and "table" in v and (v["schema"], v["table"]) in names:
                v = dict(v, schema="test", table=names[(v["schema"], v["table"])])
            return {go(k): go(y) for k, y in v.items()}
        if isinstance(v, (list, tuple)):
            return [go(z) for z in v]
        return txt(v) if isinstance(v, str) else v
    return go(x)


def spread(d, name, tables, rows=None):
    """create the databases of a world -> {schema: path}"""
    paths, per = {}, {}
    for t in tables:
        per.setdefault(at(t)[0], []).append(t)
    for s in sorted(set(per) | ({p[0] for p in PLACE.values()} if PLACE else {"test"})):
        paths[s] = os.path.join(d, f"{name}_{s}.db")
        tb = {at(t)[1]: dict(tables[t], fks=[
            [cs, at(x)[1], dcs] for cs, x, dcs in tables[t].get("fks") or []
            if at(x)[0] == s and (x in tables or PLACE is None)]) for t in per.get(s, ())}
        create_db(paths[s], tb, {at(t)[1]: (rows or {}).get(t) or [] for t in per.get(s, ())})
    return paths


def gather(paths, tables):
    """read the databases of a world back under the names of the suite"""
    raw = {s: read_db(p) for s, p in paths.items()}
    if PLACE is None:
        return raw["test"]
    return {t: raw[at(t)[0]][at(t)[1]] for t in tables
            if at(t)[1] in raw.get(at(t)[0], ())}


@contextlib.contextmanager
def crossing(tables):
    """report the references between schemas"""
    if PLACE is None:
        yield
        return
    import sqlalchemy as sa
    real = sa.MetaData.reflect
    todo = [(at(t), cs, at(x), dcs) for t, d in tables.items()
            for cs, x, dcs in d.get("fks") or [] if at(t)[0] != at(x)[0]]

    def reflect(self, *args, **kw):
        out = real(self, *args, **kw)
        done = self.__dict__.setdefault("_verif_crossing", set())
        for k, (a, cs, b, dcs) in enumerate(todo):
            x, y = self.tables.get(".".join(a)), self.tables.get(".".join(b))
            if k in done or x is None or y is None or any(c not in x.c for c in cs) \
                    or any(c not in y.c for c in dcs):
                continue
            done.add(k)
            x.append_constraint(sa.ForeignKeyConstraint(
                list(cs), [f"{'.'.join(b)}.{c}" for c in dcs], name=f"fk_cross_{k}"))
        return out
    sa.MetaData.reflect = reflect
    try:
        yield
    finally:
        sa.MetaData.reflect = real


# -- running the real code ----------------------------------------------------------------------

def source_config(path, **kw):
    from subsetter.common import DatabaseConfig
    paths = path if isinstance(path, dict) else {"test": path}
    return DatabaseConfig(dialect="sqlite", sqlite_databases=paths, **kw)


def db_output(path, schema="test", **kw):
    from subsetter.config_model import DatabaseOutputConfig
    paths = path if isinstance(path, dict) else {schema: path}
    return DatabaseOutputConfig.model_validate(dict(
        mode="database", dialect="sqlite", sqlite_databases=paths, **kw))


def dispose(*objs):
    for o in objs:
        for at in ("engine", "source_engine"):
            e = getattr(o, at, None)
            if e is not None:
                e.dispose()


def run_sample(tables, rows, plan, cfg=None, dest=None, dest_rows=None, out=None, create=True,
               truncate=False, wrap=None):
    """-> {"tables": {...}} or {"error": (type, text)}; cfg: SamplerConfig JSON without output"""
    from subsetter.config_model import SamplerConfig
    from subsetter.plan_model import SubsetPlan
    from subsetter.sampler import Sampler
    d = scratch()
    a = spread(d, "a", tables, rows)
    b = spread(d, "b", dest or {}, dest_rows)
    s = None
    try:
        with crossing(tables):
            sc = SamplerConfig.model_validate(there(cfg or {}))
            sc.output = db_output(b, **(out or {}))
            s = Sampler(source_config(a), sc)
            p = SubsetPlan.model_validate(there(plan))
            try:
                if wrap:
                    with wrap(s):
                        s.sample(p, create=create, truncate=truncate)
                else:
                    s.sample(p, create=create, truncate=truncate)
            except Exception as e:
                return {"error": (type(e).__name__, back(str(e)[:300])),
                        "tables": gather(b, dest or tables), "exc": e}
            return {"tables": gather(b, dict(tables, **(dest or {})))}
    finally:
        if s is not None:
            dispose(s)
        shutil.rmtree(d, ignore_errors=True)


def run_directory(tables, rows, plan, cfg=None):
    from subsetter.config_model import SamplerConfig
    from subsetter.plan_model import SubsetPlan
    from subsetter.sampler import Sampler
    d = scratch()
    o = os.path.join(d, "out")
    os.mkdir(o)
    a = spread(d, "a", tables, rows)
    s = None
    try:
        with crossing(tables):
            sc = SamplerConfig.model_validate(dict(there(cfg or {}), output={
                "mode": "directory", "directory": o}))
            s = Sampler(source_config(a), sc)
            try:
                s.sample(SubsetPlan.model_validate(there(plan)))
            except Exception as e:
                return {"error": (type(e).__name__, back(str(e)[:300])), "exc": e}
        out = {}
        for f in sorted(os.listdir(o)):
            with open(os.path.join(o, f), encoding="utf-8") as fh:
                out[back(f)] = [json.loads(x) for x in fh.read().splitlines()]
        return {"files": out}
    finally:
        if s is not None:
            dispose(s)
        shutil.rmtree(d, ignore_errors=True)


def run_plan(tables, config, rows=None, keep=False):
    """plan with the real planner -> SubsetPlan JSON or {"error"}"""
    from subsetter.config_model import PlannerConfig
    from subsetter.planner import Planner
    d = scratch()
    a = spread(d, "a", tables, rows)
    p = None
    try:
        with crossing(tables):
            cfg = PlannerConfig.model_validate(there(config))
            p = Planner(source_config(a), cfg)
            try:
                plan = p.plan()
            except Exception as e:
                return {"error": (type(e).__name__, back(str(e)[:300])), "exc": e}
        return {"plan": back(plan.model_dump(mode="json", by_alias=True)), "planner": p}
    finally:
        if p is not None:
            dispose(p)
        shutil.rmtree(d, ignore_errors=True)


# -- plans ----------------------------------------------------------------------------------------

def ident(t, sampled=False, schema="test"):
    return {"schema": schema, "table": t, "sampled": sampled}


def copy_plan(tables, where=None, passthrough=(), joins=None, schema="test"):
    qs = {}
    for t in tables:
        st = {"type": "select", "from": ident(t, schema=schema)}
        if where and where.get(t):
            st["where"] = where[t]
        if joins and joins.get(t):
            st["joins"] = joins[t]
        qs[f"{schema}.{t}"] = {"statement": st}
    return {"queries": qs, "passthrough": [f"{schema}.{t}" for t in passthrough]}


def closed_plan(rng, tables, passthrough=()):
    """each table: rows whose references all hit the sample of the referenced table"""
    joins, where = {}, {}
    for t, d in tables.items():
        if t in passthrough:
            continue
        js = []
        for cs, dst, dcs in d["fks"]:
            if dst in tables and dst != t and dst not in passthrough and rng.random() < .7:
                js.append({"right": ident(dst, True), "left_columns": cs, "right_columns": dcs,
                           "half_unique": rng.random() < .6})
        joins[t] = js
        ints = [c[0] for c in d["cols"] if c[1] == "int"]
        if ints and rng.random() < .5:
            where[t] = {"type": "operator", "operator": rng.choice(["<", ">", "<>"]),
                        "column": rng.choice(ints), "value": rng.choice([2, 4, 6])}
    return copy_plan(tables, where, passthrough, joins)


def reads(stmt):
    out = set()
    if stmt is None:
        return out
    if stmt["type"] == "union":
        for s in stmt["statements"]:
            out |= reads(s)
        return out
    for j in stmt.get("joins") or []:
        if j["right"].get("sampled"):
            out.add((j["right"]["schema"], j["right"]["table"]))

    def w(x):
        if not x:
            return
        for c in x.get("conditions") or []:
            w(c)
        if isinstance(x.get("values"), dict):
            out.update(reads(x["values"]))
    w(stmt.get("where"))
    return out


def sample_oracle(tables, rows, plan, schema="test"):
    """{t: rows of its planned query}"""
    done = {}
    todo = [k.split(".", 1)[1] for k in plan["queries"]]
    while todo:
        step = [t for t in todo if all(x in done for s, x in
                                       reads(plan["queries"][f"{schema}.{t}"]["statement"]))]
        if not step:
            return None
        db = model_db(tables, rows, schema, done)
        for t in step:
            done[t] = [list(r) for r in db.rows(plan["queries"][f"{schema}.{t}"]["statement"])]
        todo = [t for t in todo if t not in done]
    return done


def canon(rows):
    return sorted((json.dumps(list(r), default=str) for r in rows))


def diff(name, want, got):
    a, b = canon(want), canon(got)
    if a == b:
        return None
    from collections import Counter
    ca, cb = Counter(a), Counter(b)
    return (f"{name}: missing {list((ca - cb).elements())[:4]} unexpected "
            f"{list((cb - ca).elements())[:4]}")
