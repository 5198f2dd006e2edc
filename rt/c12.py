"""C12: temporary tables: names, contents, references."""
import re

from rt import e2e
from rt.c09 import no_reopen
from rt.runner import Suite

BASES = ["\u8868" * 30, "\u8868" * 21 + "x", "a", "A", "a1", "a_1", "t-1", "t1", "T_1", "t.1", "order", "a b", "é", "__", "x" * 60,
         "x" * 39 + "y", "X" * 40 + "z", "a_1_1", "anon", "-", "t1_1", "t_11", "t11", "t1_", "1"]


def gen(rng, i):
    pool = []
    for b in rng.sample(BASES, rng.randint(2, 6)):
        if b.lower() not in [p.lower() for p in pool] and "." not in b:
            pool.append(b)
    n = len(pool)
    tables = {t: {"cols": [["id", "int", False], ["k", "int", True]], "pk": ["id"],
                  "fks": [], "uniques": []} for t in pool}
    joins = {}
    for j, t in enumerate(pool):
        js = []
        for _ in range(rng.choice([0, 1, 2, 3])):
            if j:
                js.append({"right": e2e.ident(rng.choice(pool[:j]), True),
                           "left_columns": [rng.choice(["id", "k"])],
                           "right_columns": [rng.choice(["id", "k"])],
                           "half_unique": rng.random() < .5})
        joins[t] = js
    keys = list(pool)
    rng.shuffle(keys)
    plan = e2e.copy_plan(keys, joins=joins)
    for t in pool:
        if rng.random() < .4:
            plan["queries"]["test." + t]["statement"]["joins_outer"] = True
    return {"tables": tables, "rows": e2e.gen_rows(rng, tables), "plan": plan,
            "reopen": rng.random() < .5}


class recorder:
    def __init__(self, sampler, reopen):
        self.s, self.inner = sampler, None if reopen else no_reopen(sampler)

    def __enter__(self):
        import sqlalchemy as sa
        self.names, self.dup = [], []
        if self.inner:
            self.inner.__enter__()

        def before(conn, cursor, statement, parameters, context, executemany):
            m = re.match(r'\s*CREATE TEMPORARY TABLE ("(?:[^"]|"")+"|\S+)', statement)
            if m:
                nm = m.group(1).strip('"').lower()
                if nm in self.names:
                    self.dup.append(nm)
                self.names.append(nm)
        sa.event.listen(self.s.source_engine, "before_cursor_execute", before)

    def __exit__(self, et, ev, tb):
        if self.inner:
            self.inner.__exit__(et, ev, tb)
        if self.dup:
            raise Clash(f"temporary table name {self.dup[0]} used twice")


class Clash(Exception):
    pass


def check(case):
    tb = case["tables"]
    r = e2e.run_sample(tb, case["rows"], case["plan"], {}, create=True,
                       wrap=lambda s: recorder(s, case["reopen"]))
    if "error" in r:
        return r["error"][0], f"run fails: {r['error']} tables {list(tb)} reopen {case['reopen']}"
    sam = e2e.sample_oracle(tb, case["rows"], case["plan"])
    for t in tb:
        m = e2e.diff(t, sam[t], r["tables"][t]["rows"])
        if m:
            return "contents", m
    return None


def gen_n(rng, i):
    pool = []
    for _ in range(rng.randint(2, 8)):
        b = rng.choice(BASES)
        k = rng.random()
        if k < .3:
            b = b.upper()
        elif k < .5:
            b = b + rng.choice(["_1", "1", "_2", "2"])
        elif k < .6:
            b = "".join(rng.choice("ab1_-ABé") for _ in range(rng.randint(0, 45)))
        pool.append(b)
    return {"names": pool}


def check_n(case):
    """creating a temporary table for each of these names, twice some, on one connection"""
    import sqlalchemy as sa
    from subsetter.sampler import TempTableCreator
    eng = sa.create_engine("sqlite://")
    try:
        tc = TempTableCreator()
        seen, tabs = {}, []
        with eng.connect() as cx:
            cx.exec_driver_sql("create table src (id integer primary key, k integer)")
            cx.exec_driver_sql("insert into src values (1, 5), (2, null), (3, 5)")
            src = sa.Table("src", sa.MetaData(), sa.Column("id", sa.Integer, primary_key=True),
                           sa.Column("k", sa.Integer))
            for j, nm in enumerate(case["names"]):
                lim = j % 4
                sel = sa.select(src).where(src.c.id <= lim)
                try:
                    t, cnt = tc.create(cx, "main", sel, name=nm, primary_key=("id",),
                                       indexes=[("k",)])
                except Exception as e:
                    return "create-fails", (f"names {case['names'][:j + 1]}: {type(e).__name__}: "
                                            f"{str(e)[:200]}")
                if t.name.lower() in seen:
                    return "same-name", f"{nm!r} and {seen[t.name.lower()]!r} both get {t.name}"
                seen[t.name.lower()] = nm
                if len(t.name.encode()) > 63:
                    return "name-too-long", f"{nm!r} gets a name of {len(t.name.encode())} bytes"
                got = sorted(map(tuple, cx.execute(t.select())))
                want = [r for r in [(1, 5), (2, None), (3, 5)] if r[0] <= lim]
                if got != want or cnt not in (len(want), -1):
                    return "temp-contents", f"{nm!r}: {got} ({cnt}), not {want}"
                tabs.append(t)
            for t in tabs:
                for u in tabs:
                    al = u.alias()
                    try:
                        got = cx.execute(sa.select(t.c.id, al.c.id)).all() if t is not u else []
                    except Exception as e:
                        return "alias", (f"{t.name} cannot be read next to an alias of {u.name}: "
                                         f"{str(e)[:150]}")
    finally:
        eng.dispose()
    return None


def gen_c(rng, i):
    from rt import c09
    return {**c09.gen(rng, i), "reopen": False}


def check_c(case):
    """copying with renumbered keys: only names and repeated opening count here"""
    from rt import c09
    r = c09.check(case)
    return r if r and r[0] == "fails" and ("Reopened" in r[1] or "temp" in r[1]) else None


def check_d(case):
    """metadata read from MySQL says that temporary tables cannot be opened twice"""
    import sqlalchemy as sa
    from subsetter.metadata import DatabaseMetadata
    eng = sa.create_engine("sqlite://")
    try:
        with eng.connect() as cx:
            cx.exec_driver_sql("create table t (id integer primary key)")
            cx.commit()
        sa.inspect(eng)
        eng.dialect.name = "mysql"
        meta, _ = DatabaseMetadata.from_engine(eng, ["main.*"] * case["n"])
        if meta.supports_temp_reopen:
            return "mysql-reopens", "temporary tables of MySQL taken to be opened twice"
    finally:
        eng.dispose()
    return None


def gen_v(rng, i):
    case = gen(rng, i)
    for t in case["tables"]:
        case["rows"][t] = [[k, rng.randint(1, 60)] for k in range(1, 61)]
        if rng.random() < .7:
            case["plan"]["queries"]["test." + t]["statement"]["where"] = {"type": "random", "threshold": .5}
    return case


def check_v(case):
    """every reference to a sample chosen at random sees the same rows"""
    seen = []

    def wrap(s):
        inner = no_reopen(s)

        def compare(meta, conn):
            first = {k[:2]: v for k, v in meta.temp_tables.items() if k[2] == 0}
            for k, v in meta.temp_tables.items():
                if k[2] and k[:2] in first:
                    a, b = (sorted(map(repr, conn.execute(q.select()))) for q in (first[k[:2]], v))
                    if a != b:
                        seen.append(f"copy {k[2]} of the sample of {k[1]} has {len(b)} rows, "
                                    f"the sample {len(a)}, not the same ones")

        class Both:
            def __enter__(self):
                inner.__enter__()
                self.mat = s._materialize_tables

                def materialize(*a, **k):
                    r = self.mat(*a, **k)
                    args = [*a, *k.values()]
                    meta = [x for x in args if hasattr(x, "temp_tables")]
                    conn = [x for x in args if hasattr(x, "execute")]
                    if meta and conn:
                        compare(meta[0], conn[0])
                    return r
                s._materialize_tables = materialize

            def __exit__(self, *e):
                s._materialize_tables = self.mat
                return inner.__exit__(*e)
        return Both()
    r = e2e.run_sample(case["tables"], case["rows"], case["plan"], {}, create=True, wrap=wrap)
    if seen:
        return "copies", seen[0]
    if "error" in r and r["error"][0] != "AttributeError":
        return r["error"][0], f"run fails: {r['error']} tables {list(case['tables'])}"
    return None


SUITES = [Suite("volatile", gen_v, check_v, .3), Suite("mysql", lambda rng, i: {"n": rng.randint(0, 1)}, check_d, .05),
          Suite("runs", gen, check, 1.3, rule="oddly named tables sampled end to end"),
          Suite("creator", gen_n, check_n, 1), Suite("renumbered", gen_c, check_c, .7)]
