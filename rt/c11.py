"""C11: which tables create and truncate touch, and how created tables look."""
import os
import shutil
import sqlite3

from rt import e2e
from rt.runner import Suite


def schema_of(path):
    cx = sqlite3.connect(path)
    out = {}
    for t, sql in cx.execute("select name, sql from sqlite_master where type='table' and name not "
                             "like 'sqlite_%'").fetchall():
        cols = [(r[1], r[2].upper(), bool(r[3]) or bool(r[5]), r[5]) for r in
                cx.execute(f"pragma table_info({e2e.q(t)})")]
        ix = set()
        for r in cx.execute(f"pragma index_list({e2e.q(t)})").fetchall():
            names = tuple(x[2] for x in cx.execute(f"pragma index_info({e2e.q(r[1])})"))
            if r[3] != "pk":
                ix.add((r[3], bool(r[2]), names))
        fks = {}
        for r in cx.execute(f"pragma foreign_key_list({e2e.q(t)})"):
            fks.setdefault(r[0], [r[2], []])[1].append((r[3], r[4]))
        out[t] = {"cols": cols, "indexes": ix,
                  "fks": sorted((d, tuple(p)) for d, p in fks.values()), "sql": sql}
    cx.close()
    return out


def gen(rng, i):
    n = rng.choice([1, 2, 3, 4, 5])
    tables = e2e.gen_schema(rng, n, acyclic=True, extra_cols=2)
    for t, d in tables.items():
        for c in d["cols"]:
            if c[1] == "int" and rng.random() < .1 and not d["fks"]:
                pass
        d["indexes"] = []
        if rng.random() < .4:
            cs = rng.sample([c[0] for c in d["cols"]], rng.choice([1, min(2, len(d["cols"]))]))
            d["indexes"].append([f"ix_{t}", False, cs])
    names = list(tables)
    planned = rng.sample(names, rng.randint(1, n))
    have = [t for t in names if rng.random() < .5]
    rows = e2e.gen_rows(rng, tables)
    old = e2e.gen_rows(rng, tables, base=50)
    return {"tables": tables, "planned": planned, "have": have, "rows": rows, "old": old,
            "create": rng.random() < .8, "truncate": rng.random() < .5,
            "remap": rng.random() < .4, "extra": rng.random() < .4}


def check(case):
    tb, planned = case["tables"], case["planned"]

    def ren(t):
        return "zz_" + t if case["remap"] else t
    have = [t for t in case["have"]]
    dest, dest_rows = {}, {}
    for t in have:
        d = tb[t]
        dest[ren(t)] = {"cols": [list(c) for c in d["cols"]], "pk": d["pk"],
                        "fks": [[a, ren(x), b] for a, x, b in d["fks"] if x in have],
                        "uniques": d["uniques"]}
        dest_rows[ren(t)] = case["old"].get(t) or []
    if case["extra"]:
        # destination-only tables, one referencing a planned table, one referencing that, one apart
        p = next((t for t in planned if t in have and len(tb[t]["pk"]) == 1), None)
        dest["apart"] = {"cols": [["id", "int", False]], "pk": ["id"], "fks": [], "uniques": []}
        dest_rows["apart"] = [[1], [2]]
        if p:
            dest["kid"] = {"cols": [["id", "int", False], ["r", "int", True]], "pk": ["id"],
                           "fks": [[["r"], ren(p), tb[p]["pk"]]], "uniques": []}
            dest["grandkid"] = {"cols": [["id", "int", False], ["r", "int", True]], "pk": ["id"],
                                "fks": [[["r"], "kid", ["id"]]], "uniques": []}
            dest_rows["kid"], dest_rows["grandkid"] = [[1, None]], [[5, 1], [6, 1]]
    from subsetter.config_model import SamplerConfig
    from subsetter.plan_model import SubsetPlan
    from subsetter.sampler import Sampler
    d = e2e.scratch()
    a, b = os.path.join(d, "a.db"), os.path.join(d, "b.db")
    e2e.create_db(a, tb, case["rows"])
    e2e.create_db(b, dest, dest_rows)
    before = schema_of(b)
    s = None
    try:
        sc = SamplerConfig()
        out = {"conflict_strategy": "skip"}
        if case["remap"]:
            out["remap"] = [{"search": r"^test\.", "replace": "test.zz_"}]
        sc.output = e2e.db_output(b, **out)
        s = Sampler(e2e.source_config(a), sc)
        plan = SubsetPlan.model_validate(e2e.copy_plan(planned))
        err = None
        try:
            s.sample(plan, create=case["create"], truncate=case["truncate"])
        except Exception as e:
            err = e
        after, src = schema_of(b), schema_of(a)
        data = e2e.read_db(b)
    finally:
        if s is not None:
            e2e.dispose(s)
        shutil.rmtree(d, ignore_errors=True)
    missing = [t for t in planned if t not in have]
    made = set(after) - set(before)
    want = {ren(t) for t in missing} if case["create"] else set()
    if made != want or set(before) - set(after):
        return "created", (f"tables {sorted(made)} created, expected {sorted(want)} "
                           f"(create={case['create']}); gone {sorted(set(before) - set(after))}")
    if err is not None and case["create"]:
        return "fails", f"run fails: {type(err).__name__}: {str(err)[:300]}"
    for t in before:
        if before[t]["sql"] != after[t]["sql"] or before[t]["indexes"] != after[t]["indexes"]:
            return "altered", f"existing table {t} altered: {before[t]} -> {after[t]}"
    for t in missing if case["create"] else []:
        x, y = src[t], after[ren(t)]
        if x["cols"] != y["cols"]:
            return "columns", f"{t}: columns {x['cols']} created as {y['cols']}"
        if x["indexes"] != y["indexes"]:
            return "indexes", f"{t}: indexes {x['indexes']} created as {y['indexes']}"
        fk = sorted((ren(dd), p) for dd, p in x["fks"] if dd in planned)
        if fk != y["fks"]:
            return "foreign-keys", f"{t}: foreign keys {fk} created as {y['fks']}"
    # truncation
    refs = {t: {f[1] for f in dd["fks"]} for t, dd in dest.items()}
    gone = {ren(t) for t in planned if t in have}
    while case["truncate"]:
        new = {t for t in dest if refs[t] & gone} - gone
        if not new:
            break
        gone |= new
    if not case["truncate"]:
        gone = set()
    if err is not None:
        return None
    for t in dest:
        rows_now = data[t]["rows"]
        old = dest_rows.get(t) or []
        src_t = next((x for x in planned if ren(x) == t), None)
        if t in gone:
            exp = case["rows"].get(src_t) or [] if src_t else []
            m = e2e.diff(t, exp, rows_now)
            if m:
                return "truncate", f"truncated {t}: {m}"
        else:
            left = [r for r in e2e.canon(old) if r not in e2e.canon(rows_now)]
            if left:
                return "truncate-too-much", f"{t} lost rows {left[:3]} (truncate={case['truncate']})"
            if src_t is None and len(rows_now) != len(old):
                return "touched", f"unplanned table {t} now has {rows_now}"
    return None


def gen_ix(rng, i):
    """indexes as databases with expression indexes reflect them (sqlite reflects none)"""
    def part():
        k, c = rng.choice(["col", "col", "desc", "expr"]), rng.choice("abc")
        return [k, c]
    ixs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ps = [part() for _ in range(rng.choice([1, 1, 2, 3]))]
        seen, out = set(), []
        for p in ps:
            if tuple(p) not in seen:
                seen.add(tuple(p))
                out.append(p)
        ixs.append([rng.random() < .4, out])
    return {"ixs": ixs}


def check_ix(case):
    import sqlalchemy as sa
    from subsetter.metadata import DatabaseMetadata, TableMetadata
    from subsetter.sampler import DatabaseOutput
    m = sa.MetaData()
    t = sa.Table("t", m, sa.Column("a", sa.Integer, primary_key=True), sa.Column("b", sa.String),
                 sa.Column("c", sa.String), schema="main")
    texts = {"col": "{}", "desc": "{} desc", "expr": "lower({})"}
    for n, (unique, ps) in enumerate(case["ixs"]):
        es = [{"col": lambda c: t.c[c], "desc": lambda c: t.c[c].desc(),
               "expr": lambda c: sa.text(f"lower({c})")}[k](c) for k, c in ps]
        t.append_constraint(sa.Index(f"x{n}", *es, unique=unique))
    d = e2e.scratch()
    p = os.path.join(d, "b.db")
    try:
        o = object.__new__(DatabaseOutput)
        o.engine = sa.create_engine("sqlite:///" + p)
        o.source_meta = DatabaseMetadata(m, {("main", "t"): TableMetadata(t)})
        o.meta = DatabaseMetadata(sa.MetaData(), {})
        o.table_remap = {"main.u": "main.t"}
        try:
            o.create()
        except Exception as e:
            return "fails", f"create fails: {type(e).__name__}: {str(e)[:200]}"
        finally:
            o.engine.dispose()
        cx = sqlite3.connect(p)
        got = sorted((" UNIQUE " in s.upper(), s[s.index("("):].lower()) for (s,) in cx.execute(
            "select sql from sqlite_master where type = 'index' and sql is not null"))
        cx.close()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    want = sorted((u, "(" + ", ".join(texts[k].format(c) for k, c in ps) + ")")
                  for u, ps in case["ixs"])
    if got != want:
        return "index-expressions", f"indexes {want} created as {got}"
    return None


def gen_long(rng, i):
    return {"len": rng.randint(1, 63), "ixs": rng.randint(1, 4),
            "db": rng.choice(["postgresql+psycopg2", "mysql+pymysql"])}


def check_long(case):
    """statements issued to create a table of some name's length and its indexes"""
    import sqlalchemy as sa
    from subsetter.metadata import DatabaseMetadata, TableMetadata
    from subsetter.sampler import DatabaseOutput
    m = sa.MetaData()
    name = "t" * case["len"]
    t = sa.Table(name, m, sa.Column("a", sa.Integer, primary_key=True), *(
        sa.Column(f"b{n}", sa.String(9)) for n in range(case["ixs"])), schema="main")
    for n in range(case["ixs"]):
        sa.Index(f"x{n}", t.c[f"b{n}"])
    out = []
    o = object.__new__(DatabaseOutput)
    try:
        o.engine = sa.create_mock_engine(case["db"] + "://", lambda s, *a, **k: out.append(
            str(s.compile(dialect=o.engine.dialect))))
    except ImportError:
        return None
    o.source_meta = DatabaseMetadata(m, {("main", name): TableMetadata(t)})
    o.meta = DatabaseMetadata(sa.MetaData(), {})
    o.table_remap = {"main." + name: "main." + name}
    try:
        o.create()
    except Exception as e:
        return "fails", f"create fails: {type(e).__name__}: {str(e)[:200]}"
    ix = [s.split()[2] for s in out if s.startswith("CREATE INDEX")]
    limit = 63 if case["db"].startswith("postgresql") else 64
    if len(set(ix)) != case["ixs"] or any(len(n) > limit for n in ix):
        return "index-names", f"{case['ixs']} indexes of a table with {case['len']} characters " \
            f"created as {ix}"
    return None


SUITES = [Suite("create-truncate", gen, check, 1, rule="destination schemas and rows before and "
                "after runs on sqlite"),
          Suite("index-expressions", gen_ix, check_ix, 1, rule="indexes over columns, descending "
                "columns and expressions, created on sqlite"),
          Suite("index-names", gen_long, check_long, .5, rule="statements for PostgreSQL and "
                "MySQL, table names of 1 to 63 characters")]
