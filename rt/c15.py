"""C15: configuration layers, connection settings and encryption, observed at the drivers."""
import contextlib
import io
import os
import shutil
import sys

from rt import e2e
from rt.runner import Suite

P = "SUBSET_SOURCE_"
VALS = {"host": ["h1", "h2", "db.example"], "port": [3307, 6000, 1], "database": ["d1", "d2"],
        "username": ["u1", "u2"], "password": ["p1", "p:@/2"],
        "dialect": ["mysql", "postgres"]}
DEF = {"mysql": 3306, "postgres": 5432}


class environment:
    def __init__(self, env):
        self.env = env

    def __enter__(self):
        self.old = {k: v for k, v in os.environ.items() if k.startswith("SUBSET_")}
        for k in self.old:
            del os.environ[k]
        os.environ.update(self.env)

    def __exit__(self, *a):
        for k in self.env:
            os.environ.pop(k, None)
        os.environ.update(self.old)


def gen(rng, i):
    cfg = {k: rng.choice(v) for k, v in VALS.items() if rng.random() < .5}
    env = {k: str(rng.choice(v)) for k, v in VALS.items() if rng.random() < .5}
    return {"cfg": cfg, "env": env, "prefix": rng.choice([P, P, "SUBSET_DESTINATION_", None]),
            "iso": rng.choice([None, None, "SERIALIZABLE", "REPEATABLE READ"])}


def check(case):
    from subsetter.common import DatabaseConfig
    pre = case["prefix"]
    env = {(pre or P) + k.upper(): v for k, v in case["env"].items()}
    with environment(env):
        u = DatabaseConfig(**case["cfg"]).database_url(**({"env_prefix": pre} if pre else {}))

    def want(k, default):
        if k in case["cfg"]:
            return case["cfg"][k]
        if pre and k in case["env"]:
            return case["env"][k]
        return default
    dia = want("dialect", "mysql")
    exp = {"host": want("host", "localhost" if pre else None),
           "port": int(want("port", DEF[dia])),
           "username": want("username", None), "password": want("password", None),
           "dialect": "mysql" if dia == "mysql" else "postgresql"}
    got = {"host": u.host, "port": u.port, "username": u.username,
           "password": str(u.password) if u.password is not None else None,
           "dialect": u.get_backend_name()}
    if dia == "postgres":
        exp["database"], got["database"] = want("database", None), u.database
    if exp != got:
        return "url", f"config {case['cfg']} environment {env} gives {got}, expected {exp}"
    return None


def gen_e(rng, i):
    c = {"dialect": rng.choice(["mysql", "postgres", "sqlite"]),
         "dialect_env": rng.random() < .4, "prefix": rng.choice([P, P, None]),
         "iso": rng.choice([None, None, "SERIALIZABLE", "REPEATABLE READ"])}
    ssl, env = {}, {}
    if rng.random() < .7:
        ssl["require"] = rng.random() < .75
    if rng.random() < .4:
        env["SSL_REQUIRE"] = rng.choice(["1", "true", "yes"])
    if rng.random() < .6:
        ssl["server"] = {}
        if rng.random() < .7:
            ssl["server"]["verify"] = rng.choice(["none", "cert", "identity"])
        if rng.random() < .5:
            ssl["server"]["rootcert"] = "CFGCA"
    if rng.random() < .4:
        env["SSL_SERVER_VERIFY"] = rng.choice(["none", "cert", "cert", "identity", "full"])
    if rng.random() < .4:
        env["SSL_SERVER_ROOTCERT"] = "ENVCA"
    if rng.random() < .3:
        ssl["client"] = {k: "CFG" + k for k in ["cert", "key"] if rng.random() < .7}
    if rng.random() < .3:
        env["SSL_CLIENT_CERT"] = "ENVcert"
        env["SSL_CLIENT_KEY"] = "ENVkey"
    c["ssl"], c["env"] = ssl, env
    return c


class Stop(Exception):
    pass


def check_e(case):
    """the arguments the database driver is called with"""
    import psycopg2
    import pymysql
    from subsetter.common import DatabaseConfig
    pre = case["prefix"] or P
    env = {pre + k: v for k, v in case["env"].items()}
    cfg = {"ssl": case["ssl"], "host": "h"}
    if case["dialect_env"] and case["prefix"]:
        env[pre + "DIALECT"] = case["dialect"]
    else:
        cfg["dialect"] = case["dialect"]
    if case["iso"] and case["dialect"] != "sqlite":
        cfg["isolation_level"] = case["iso"]
    rec = {}

    def fake(*a, **k):
        rec.update(k)
        rec["called"] = True
        raise Stop()
    o1, o2 = pymysql.connect, psycopg2.connect
    pymysql.connect = psycopg2.connect = fake
    refused = None
    eng = None
    try:
        with environment(env):
            try:
                eng = DatabaseConfig.model_validate(cfg).database_engine(
                    **({"env_prefix": pre} if case["prefix"] else {}))
            except ValueError as e:
                refused = e
            if eng is not None:
                try:
                    eng.connect().close()
                    rec["called"] = True
                except Stop:
                    pass
    finally:
        pymysql.connect, psycopg2.connect = o1, o2
        if eng is not None:
            eng.dispose()
    use = case["env"] if case["prefix"] else {}
    ssl = case["ssl"]
    require = ssl["require"] if "require" in ssl else bool(use.get("SSL_REQUIRE"))
    verify = ssl.get("server", {}).get("verify") or use.get("SSL_SERVER_VERIFY", "none")
    ca = ssl.get("server", {}).get("rootcert") or use.get("SSL_SERVER_ROOTCERT")
    cert = ssl.get("client", {}).get("cert") or use.get("SSL_CLIENT_CERT")
    key = ssl.get("client", {}).get("key") or use.get("SSL_CLIENT_KEY")
    what = f"ssl {ssl} environment {env} on {case['dialect']}"
    if not require:
        if refused is not None:
            return "refused", f"{what} refused: {refused}"
        if rec.get("ssl") or rec.get("sslmode") not in (None, "prefer", "allow", "disable"):
            return "unasked", f"{what}: encryption not asked for, driver got {rec}"
        return None
    if verify not in ("none", "cert", "identity"):
        return None if refused is not None else (
            "weaker", f"{what}: unknown verification level accepted, driver got {rec}")
    if refused is not None:
        if case["dialect"] == "sqlite" or (case["dialect"] == "mysql" and verify == "identity"
                                           and not ca):
            return None
        return "refused", f"{what} refused: {refused}"
    if case["dialect"] == "sqlite":
        return "weaker", f"{what}: sqlite connection made although encryption is required"
    if case["dialect"] == "postgres":
        need = {"none": "require", "cert": "verify-ca", "identity": "verify-full"}[verify]
        got = {k: rec.get(k) for k in ("sslmode", "sslrootcert", "sslcert", "sslkey")}
        exp = {"sslmode": need, "sslrootcert": ca, "sslcert": cert, "sslkey": key}
        return None if got == exp else ("postgres", f"{what}: driver got {got}, expected {exp}")
    s = rec.get("ssl")
    if not s:
        return "weaker", f"{what}: PyMySQL called without encryption: {rec}"
    if (s.get("ca"), s.get("cert"), s.get("key")) != (ca, cert, key):
        return "mysql-files", f"{what}: PyMySQL got {s}"
    return pymysql_level(s, verify, ca, what)


def pymysql_level(s, verify, ca, what):
    """what PyMySQL makes of its ssl argument"""
    import ssl as ssllib

    import pymysql
    from pymysql.connections import Connection
    d = dict(s)
    for k in ("cert", "key"):
        d.pop(k, None)
    made = {}
    real = ssllib.create_default_context

    def ctx(*a, **k):
        made["cafile"] = k.get("cafile", a[0] if a else None)
        return real()
    ssllib.create_default_context = ctx
    try:
        c = Connection(host="h", user="u", password="p", ssl=d, defer_connect=True)
    finally:
        ssllib.create_default_context = real
    if not c.ssl:
        return "weaker", f"{what}: PyMySQL does not encrypt with {s}"
    have = (c.ctx.verify_mode == ssllib.CERT_REQUIRED, bool(c.ctx.check_hostname))
    need = (verify in ("cert", "identity"), verify == "identity")
    if have < need or (have[0] < need[0]) or (have[1] < need[1]):
        return "weaker", f"{what}: PyMySQL verifies (certificate, host name) {have}, asked {need}"
    if have != need:
        return "level", f"{what}: PyMySQL verifies (certificate, host name) {have}, asked {need}"
    return None


def gen_m(rng, i):
    def val(d):
        k = rng.random()
        if d and k < .55:
            return {x: val(d - 1) for x in rng.sample(["host", "a", "b", "c", "x y"],
                                                      rng.randint(0, 3))}
        if k < .7:
            return [rng.choice([1, "s", {"a": 1}]) for _ in range(rng.randint(0, 3))]
        return rng.choice([1, 2, "s", None, True, 0, "", {}, 2.5])
    files = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        files.append({"filters": {}, "tc": {}})
        files[-1] = {x: val(3) for x in rng.sample(["p", "q", "r"], rng.randint(1, 3))}
    return {"files": files}


def merge(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: merge(a[k], b[k]) if k in a and k in b else b.get(k, a.get(k))
                for k in list(a) + [x for x in b if x not in a]}
    return b


def check_m(case):
    """the merged document the program validates, observed by replacing the validation"""
    import yaml
    import subsetter.__main__ as M
    d = e2e.scratch()
    args = []
    for k, f in enumerate(case["files"]):
        p = os.path.join(d, f"{k}.yaml")
        with open(p, "w") as fh:
            yaml.dump(f, fh, sort_keys=False)
        args += ["-c", p]
    seen = {}

    class Fake:
        @staticmethod
        def model_validate(x):
            seen["data"] = x
            raise KeyError("stop")
    orig, argv, err = M.SubsetterConfig, sys.argv, sys.stderr
    M.SubsetterConfig = Fake
    sys.argv = ["subsetter"] + args + ["plan"]
    sys.stderr = io.StringIO()
    try:
        with contextlib.suppress(SystemExit):
            M.main()
    finally:
        M.SubsetterConfig, sys.argv, sys.stderr = orig, argv, err
        shutil.rmtree(d, ignore_errors=True)
    want = {}
    for f in case["files"]:
        want = merge(want, f)
    if "data" not in seen:
        raise RuntimeError("configuration not observed")
    if seen["data"] != want or repr(norm(seen["data"])) != repr(norm(want)):
        return "layers", f"files {case['files']} merge to {seen['data']}, expected {want}"
    return None


def norm(x):
    if isinstance(x, dict):
        return {k: norm(x[k]) for k in sorted(x, key=str)}
    return [norm(y) for y in x] if isinstance(x, list) else x


def gen_s(rng, i):
    return {"session": rng.sample(["PRAGMA foreign_keys=ON", "PRAGMA cache_size=77",
                                   "create temp table zz (a)"], rng.randint(0, 3)),
            "dbs": rng.sample(["x1", "x2", "it's"], rng.randint(0, 3)),
            "env": rng.random() < .5}


def check_s(case):
    """every sqlite connection has the configured databases and session statements"""
    from subsetter.common import DatabaseConfig
    d = e2e.scratch()
    dbs = {f"a{k}": os.path.join(d, nm + ".db") for k, nm in enumerate(case["dbs"])}
    kw = {} if case["env"] else {"dialect": "sqlite"}
    env = {P + "DIALECT": "sqlite"} if case["env"] else {}
    try:
        with environment(env):
            eng = DatabaseConfig(sqlite_databases=dbs, session_sqls=case["session"], **kw
                                 ).database_engine(env_prefix=P)
            with eng.connect() as cx:
                got = {r[1]: r[2] for r in cx.exec_driver_sql("pragma database_list")}
                fk = cx.exec_driver_sql("pragma foreign_keys").scalar()
                cs = cx.exec_driver_sql("pragma cache_size").scalar()
            eng.dispose()
    except Exception as e:
        return "sqlite-fails", f"{case}: {type(e).__name__}: {str(e)[:200]}"
    finally:
        shutil.rmtree(d, ignore_errors=True)
    want = {k: os.path.realpath(v) for k, v in dbs.items()}
    have = {k: os.path.realpath(v) for k, v in got.items() if k not in ("main", "temp")}
    if have != want:
        return "sqlite-databases", f"attached {have}, configured {want}"
    if bool(fk) != ("PRAGMA foreign_keys=ON" in case["session"]) or (
            cs == 77) != ("PRAGMA cache_size=77" in case["session"]):
        return "session", f"session statements {case['session']} not in effect"
    return None


SUITES = [Suite("url", gen, check, 1, rule="config and environment settings"),
          Suite("drivers", gen_e, check_e, 1, rule="encryption settings at the driver"),
          Suite("layers", gen_m, check_m, 1, rule="random nested configuration files"),
          Suite("sqlite", gen_s, check_s, .5)]
