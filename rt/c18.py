"""C18: the keys a destination generates after a run, on sqlite databases that act as PostgreSQL.

The dialect is renamed and the functions of PostgreSQL for sequences are provided by the harness:
pg_get_serial_sequence reads its first argument as an identifier, currval is known to a session that
used the sequence only, setval moves the sequence.
"""
import contextlib
import os
import re
import shutil

import sqlalchemy as sa

from rt import e2e
from rt.runner import Suite

NAME = re.compile(r'^\s*(?:("(?:[^"]|"")+"|[A-Za-z_][\w$]*)\.)?("(?:[^"]|"")+"|[A-Za-z_][\w$]*)\s*$')


def unquote(x):
    return x[1:-1].replace('""', '"') if x.startswith('"') else x.lower()


class Sequences:
    """sequences: {(schema, table): [column, last value, whether it was used]}"""

    def __init__(self, sequences, columns, current=None):
        self.seqs, self.columns = sequences, columns
        self.current = current or {}  # what every session took from its sequences
        self.problem = None

    def fail(self, text):
        self.problem = text
        raise RuntimeError(text)

    def name(self, tab, col):
        m = NAME.match(tab or "")
        if not m:
            self.fail(f"invalid name syntax: {tab}")
        key = (unquote(m.group(1)) if m.group(1) else "test", unquote(m.group(2)))
        if key not in self.columns:
            self.fail(f'relation "{tab}" does not exist')
        if col not in self.columns[key]:
            self.fail(f'column "{col}" of relation "{tab}" does not exist')
        s = self.seqs.get(key)
        return "|".join(key) if s and s[0] == col else None

    def upcoming(self, key):
        _, last, used = self.seqs[key]
        return last + 1 if used else last

    def provide(self, dbapi):
        session = dict(self.current)

        def currval(seq):
            if seq is None:
                return None
            if seq not in session:
                self.fail(f'currval of sequence "{seq}" is not yet defined in this session')
            return session[seq]

        def setval(seq, value, used=True):
            if seq is None or value is None:
                return None
            if value < 1:
                self.fail(f'setval: value {value} is out of bounds for sequence "{seq}"')
            if used:
                session[seq] = value
            key = tuple(seq.split("|"))
            self.seqs[key][1:] = [value, bool(used)]
            return value

        def nextval(seq):
            key = tuple(seq.split("|"))
            v = self.upcoming(key)
            self.seqs[key][1:] = [v, True]
            session[seq] = v
            return v
        dbapi.create_function("pg_get_serial_sequence", 2, self.name)
        dbapi.create_function("currval", 1, currval)
        dbapi.create_function("setval", 2, setval)
        dbapi.create_function("setval", 3, setval)
        dbapi.create_function("nextval", 1, nextval)

    def failed(self, context):
        if self.problem is not None:
            text, self.problem = self.problem, None
            cls = (sa.exc.OperationalError if "not yet defined" in text
                   else sa.exc.ProgrammingError)
            raise cls(context.statement, context.parameters, Exception(text))

    def connected(self, conn):
        raw = conn.connection.dbapi_connection
        if not any((x[2] or "").endswith(self.file) for x in raw.execute("pragma database_list")):
            return
        conn.engine.dialect.name = self.dialect
        if "sequences" not in conn.connection.info:
            conn.connection.info["sequences"] = True
            self.provide(raw)

    @contextlib.contextmanager
    def acting(self, file, dialect="postgresql"):
        """databases in a file of this name act as PostgreSQL"""
        self.file, self.dialect = file, dialect
        hooks = [(sa.engine.Engine, "engine_connect", self.connected),
                 (sa.engine.Engine, "handle_error", self.failed)]
        for h in hooks:
            sa.event.listen(*h)
        try:
            yield
        finally:
            for h in hooks:
                sa.event.remove(*h)


def serial_columns(tables):
    """{table: its auto-increment column}"""
    out = {}
    for t, d in tables.items():
        if len(d["pk"]) == 1:
            c = d["pk"][0]
            ty = next(x[1] for x in d["cols"] if x[0] == c)
            if ty in ("int", "big") and not any(c in cs for cs, _, _ in d["fks"]):
                out[t] = c
    return out


NAMES = ["t0", "T1", "user", "Order", "t 4", "mixedCase", "odd.dot", 'q"t']


def gen(rng, i):
    names = rng.sample(NAMES[:6], rng.choice([1, 2, 3]))
    tables = e2e.gen_schema(rng, len(names), acyclic=True, names=names,
                            pkinds=["id", "id", "id", "id", "pair", "str"], extra_cols=1)
    for t in names:  # columns need quotes, too
        d = tables[t]
        if d["pk"] == ["id"] and rng.random() < .3:
            for x in d["cols"]:
                x[0] = "Id" if x[0] == "id" else x[0]
            d["pk"] = ["Id"]
            for e in tables.values():
                for f in e["fks"]:
                    if f[1] == t:
                        f[2] = ["Id" if c == "id" else c for c in f[2]]
            for f in d["fks"]:
                f[0] = ["Id" if c == "id" else c for c in f[0]]
    for t in names:  # a computed column to the left
        if rng.random() < .25:
            d = tables[t]
            d["cols"].insert(0, ["w", "str", True])
            d["computed"] = {"w": "'x' || " + e2e.q(d["cols"][-1][0])}
    rows = e2e.gen_rows(rng, tables, base=rng.choice([1, 1, 0, -3]))
    old = e2e.gen_rows(rng, tables, base=rng.choice([1, 1, 30]))
    for t, c in serial_columns(tables).items():
        if rng.random() < .5:  # read in the order the rows were inserted
            next(x for x in tables[t]["cols"] if x[0] == c)[1] = "big"
            rng.shuffle(rows[t])
    seqs = {}
    for t, c in serial_columns(tables).items():
        j = [x[0] for x in tables[t]["cols"]].index(c)
        top = max([r[j] for r in old.get(t) or []], default=0)
        last = max(1, top + rng.choice([0, 0, 0, 1, 25, 60]))
        seqs[t] = [c, last, top > 0 or rng.random() < .5, rng.random() < .4]
    mode = rng.choice(["empty", "merge", "merge", "truncate", "add", "create"])
    return {"tables": tables, "rows": rows, "old": {} if mode in ("empty", "create") else old,
            "seqs": seqs, "mode": mode, "m": rng.choice([1, 1, 2]), "buffer": rng.choice([0, 3]),
            "strategy": rng.choice(["error", "skip", "skip", "replace"])}


def check(case):
    from subsetter import sampler as SA
    tb = case["tables"]
    m = case["m"]
    if m > 1 and any(len(d["pk"]) != 1 or d["uniques"] or any(
            c[1] != "int" for c in d["cols"] if c[0] in d["pk"]) or any(
            dcs != tb[x]["pk"] for _, x, dcs in d["fks"]) for d in tb.values()):
        m = 1
    mode = case["mode"]
    seqs = {("test", t): list(s[:3]) for t, s in case["seqs"].items()}
    if mode == "create":
        for s in seqs.values():
            s[1:] = [1, False]
    current = {f"test|{t}": s[1] for t, s in case["seqs"].items() if s[2] and s[3]}
    world = Sequences(seqs, {("test", t): {c[0] for c in d["cols"]} for t, d in tb.items()}, {
        } if mode == "create" else current)
    before = {k: world.upcoming(k) for k in seqs}
    cfg = {"multiplicity": {"multiplier": m}} if m > 1 else {}

    @contextlib.contextmanager
    def wrap(s):
        size = SA.DESTINATION_BUFFER_SIZE
        if case["buffer"]:
            SA.DESTINATION_BUFFER_SIZE = case["buffer"]
        try:
            with world.acting("/b_test.db"):
                yield
        finally:
            SA.DESTINATION_BUFFER_SIZE = size
    dest = None if mode == "create" else {t: dict(d, uniques=[]) for t, d in tb.items()}
    r = e2e.run_sample(tb, case["rows"], e2e.copy_plan(list(tb)), cfg, dest=dest,
                       dest_rows=case["old"], wrap=wrap, create=mode == "create",
                       truncate=mode == "truncate",
                       out={"merge": mode == "merge", "conflict_strategy": case["strategy"]})
    if "error" in r:
        if r["error"][0] == "IntegrityError":
            return None
        return "fails", f"sampling fails: {r['error']}"
    for t, (c, *_) in case["seqs"].items():
        got = r["tables"][t]
        j = got["cols"].index(c)
        keys = [x[j] for x in got["rows"]]
        oc = [x[0] for x in tb[t]["cols"]].index(c)
        old = {x[oc] for x in case["old"].get(t) or []}
        nxt = world.upcoming(("test", t))
        new = [k for k in keys if k not in old]
        if new and nxt <= max(new):
            return "collides", (f"{t}.{c}: the next key generated is {nxt}, the run wrote {new} "
                                f"({mode}, next one before: {before['test', t]}, rows before: "
                                f"{sorted(old)})")
        if keys and before["test", t] > max(old, default=0) and nxt <= max(keys):
            return "moved-back", (f"{t}.{c}: the next key generated is {nxt} with rows {keys} "
                                  f"({mode}, next one before: {before['test', t]})")
    return None


def gen_one(rng, i):
    keys = sorted(rng.sample(range(1, 40), rng.choice([0, 1, 3])))
    last = rng.choice([1, 5, 20, 39, 60])
    return {"table": rng.choice(NAMES), "col": rng.choice(["id", "Id", "the id"]), "keys": keys,
            "last": last, "used": rng.random() < .7, "current": rng.choice(
                [None, None, last, max(1, last - 3)]), "value": rng.choice(
                [None, 1, 7, 21, 45, 70, 0, -4]), "dialect": rng.choice(
                ["postgresql"] * 4 + ["sqlite"]), "serial": rng.random() < .85}


def check_one(case):
    """_autoincrement_update on one table"""
    from subsetter import sampler as SA
    d = e2e.scratch()
    engine = sa.create_engine("sqlite:///" + os.path.join(d, "x.db"))
    try:
        @sa.event.listens_for(engine, "connect")
        def attach(dbapi, _):
            dbapi.execute(f"attach '{os.path.join(d, 'y.db')}' as test")
        meta = sa.MetaData()
        ty = sa.Integer if case["serial"] else sa.String(20)
        t = sa.Table(case["table"], meta, sa.Column(case["col"], ty, primary_key=True),
                     sa.Column("v", sa.Integer), schema="test")
        meta.create_all(engine)
        with engine.connect() as conn:
            for k in case["keys"]:
                conn.execute(sa.insert(t), [{case["col"]: k if case["serial"] else f"k{k}"}])
            conn.commit()
        key = ("test", case["table"])
        seqs = {key: [case["col"], case["last"], case["used"]]} if case["serial"] else {}
        w = Sequences(seqs, {key: {case["col"], "v"}}, {"|".join(key): case["current"]} if case[
            "current"] and case["used"] else {})
        engine.dispose()
        before = w.upcoming(key) if seqs else None
        try:
            with w.acting("/y.db", case["dialect"]), engine.connect():
                pass
            with w.acting("/y.db", case["dialect"]):
                SA._autoincrement_update(engine, t, case["value"])
        except Exception as e:
            return "fails", f"moving the sequence fails: {type(e).__name__}: {str(e)[:200]}"
        if not seqs:
            return None
        nxt, v = w.upcoming(key), case["value"]
        if case["dialect"] != "postgresql" or v is None or v < 1 <= nxt:
            return None if nxt == before else ("moved", f"the sequence moves to {nxt}")
        if nxt <= v:
            return "behind", f"the next key generated is {nxt}, not larger than {v}"
        if nxt < before and case["keys"] and nxt <= max(case["keys"]):
            return "moved-back", f"the next key generated is {nxt}, rows have {case['keys']}"
        return None
    finally:
        engine.dispose()
        shutil.rmtree(d, ignore_errors=True)


SUITES = [
    Suite("runs", gen, check, 3, rule="sampling runs into sqlite databases acting as PostgreSQL"),
    Suite("one table", gen_one, check_one, 1, rule="moving the sequence of one table"),
]
