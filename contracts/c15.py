"""C15: layered configuration, connection settings, encryption."""
import ast
import os
import sys

import pydantic
import sqlalchemy
import yaml

from contracts.lib import *
from pydv.state import PyRaise
from pydv.values import Closure
from subsetter import __main__ as M
from subsetter import common as CM
from subsetter import config_model as CF

OSTR = TOpt(STR)


# ------------------------------------------------------------ configuration documents
class Plain:
    """any document that is not a mapping"""


TDKEY = TEnt("DocKey", None)
TDOC = TEnt("Document", None, classes=[dict, Plain])
has = z3.Function("doc_has", TDOC.sort, TDKEY.sort, z3.BoolSort())
val = z3.Function("doc_value", TDOC.sort, TDKEY.sort, TDOC.sort)
# definition: one document overridden by another
merged = z3.Function("overridden", TDOC.sort, TDOC.sort, TDOC.sort)


def is_map(t):
    return TDOC.tag(t) == 0


def merge_axioms():
    a, b = z3.Const("ma_a", TDOC.sort), z3.Const("ma_b", TDOC.sort)
    k = z3.Const("ma_k", TDKEY.sort)
    m = merged(a, b)
    both = z3.And(is_map(a), is_map(b))
    return [
        z3.ForAll([a, b], z3.If(both, is_map(m), m == b), patterns=[m]),
        z3.ForAll([a, b, k], z3.Implies(both, has(m, k) == z3.Or(has(a, k), has(b, k))),
                  patterns=[has(m, k)]),
        z3.ForAll([a, b, k], z3.Implies(both, val(m, k) == z3.If(
            has(b, k), z3.If(has(a, k), merged(val(a, k), val(b, k)), val(b, k)), val(a, k))),
            patterns=[val(m, k)])]


def as_dict(it, d):
    return VDict(TDKEY, TDOC, (lambda k: has(d.t, k.t), lambda k: Sym(TDOC, val(d.t, k.t))), [])


def same_doc(it, v, t):
    """the value v is the document t"""
    if isinstance(v, Sym):
        return v.t == t
    if not isinstance(it._cont(v), VDict):
        raise Unsupported("not a document")
    c = it.freeze(v)
    if empty_dict(it, v):
        return And(is_map(t), forall_ty(it, TDKEY, lambda k: Not(has(t, k.t))))
    return And(is_map(t), forall_ty(it, TDKEY, lambda k: And(has(t, k.t) == mem(it, c, k), Implies(
        mem(it, c, k), V.term(it.dict_get(c, k), TDOC) == val(t, k.t)))))


def doc_term(it, v):
    if isinstance(v, Sym):
        return v.t
    t = it.make(TDOC, "doc").t
    it._addfacts([same_doc(it, v, t)])
    return t


def doc_dict(it, a, kw):
    from pydv import models
    if len(a) == 1 and not kw and isinstance(a[0], Sym) and a[0].ty is TDOC:
        it.oblige("a mapping is copied", is_map(a[0].t))
        return it.alloc(as_dict(it, a[0]))
    return models.m_dict(it, a, kw)


def doc_items(it, a, kw):
    from pydv import models
    it.oblige("items of a mapping", is_map(a[0].t))
    return models.d_items(it, [it.alloc(as_dict(it, a[0]))], {})


def doc_get(it, a, kw):
    it.oblige("a key of the mapping", And(is_map(a[0].t), has(a[0].t, a[1].t)))
    return Sym(TDOC, val(a[0].t, a[1].t))


def doc_contains(it, a, kw):
    it.oblige("membership in a mapping", is_map(a[0].t))
    return Sym(BOOL, has(a[0].t, a[1].t))


def doc_get_or(it, a, kw):
    from pydv import models
    it.oblige("a value of a mapping", is_map(a[0].t))
    return models.d_get(it, [as_dict(it, a[0]), *a[1:]], kw)


TDOC.methods.update({
    "items": doc_items, "__getitem__": doc_get, "__contains__": doc_contains, "get": doc_get_or,
    "copy": lambda it, a, kw: doc_dict(it, a, kw),
    "keys": lambda it, a, kw: it.alloc(doc_keys(it, a[0]))})


def doc_keys(it, v):
    it.oblige("keys of a mapping", is_map(v.t))
    return as_dict(it, v)


TDOC.iter_ = doc_keys


def merge_call(it, args, kw):
    """contract of the merging function"""
    if len(args) != 2 or kw:
        raise Unsupported("call of the merging function")
    return Sym(TDOC, merged(doc_term(it, args[0]), doc_term(it, args[1])))


def merge_run(it, a, fn):
    node = it.source.node_of(fn)
    node = next((n for n in ast.walk(node) if isinstance(n, ast.FunctionDef)
                 and n.name == "_dict_merge"), None)
    top = getattr(M, "_dict_merge", None)
    if node is None and top is not None:
        node = it.source.node_of(top)
    if node is None:
        raise Unsupported("no function _dict_merge")
    names = [x.arg for x in node.args.args]
    if len(names) != 2:
        raise Unsupported("parameters of _dict_merge")
    it.loop_specs["_dict_merge"] = {0: LoopSpec(name="keys", done="keys", inv=merge_inv, types={
        "key": TDKEY, "val": TDOC}, cells={"result": TDict(TDKEY, TDOC)})}
    return it.run_function(node, [a.lhs, a.rhs], {}, None, M.__dict__, {
        "_dict_merge": Native(merge_call)}, [], {}, None, "_dict_merge")


def merge_inv(it, old, done):
    a, r = it.args, it.lookup("result")
    left = lambda k: has(a.lhs.t, k.t)
    c = it._cont(r)

    def value(k):
        over = z3.If(left(k), merged(val(a.lhs.t, k.t), val(a.rhs.t, k.t)), val(a.rhs.t, k.t))
        return V.term(it.dict_get(c, k), TDOC) == z3.If(mem(it, done, k), over, val(
            a.lhs.t, k.t))
    return {"keys so far": forall_ty(it, TDKEY, lambda k: mem(it, c, k) == Or(
                left(k), mem(it, done, k))),
            "values so far": forall_ty(it, TDKEY, lambda k: Implies(mem(it, c, k), value(k)))}


MERGE = Contract(
    "subsetter.__main__:_get_config#merge", name="_dict_merge", run=merge_run,
    setup=lambda it: {"lhs": it.make(TDOC, "lhs"), "rhs": it.make(TDOC, "rhs")},
    models={dict: doc_dict},
    ensures=lambda it, a, r: {"later documents override earlier ones key by key": same_doc(
        it, r, merged(a.lhs.t, a.rhs.t))})

# ------------------------------------------------------------ the configuration files
TCFILE = TEnt("ConfigFile", None, fields={"path": STR}, methods={
    "__enter__": lambda it, a, kw: a[0], "__exit__": lambda it, a, kw: None})
TARGS = TEnt("Arguments", None, fields={"config": TOpt(TSeq(STR)), "verbose": INT})
content = z3.Function("content_of", V.STR_S, TDOC.sort)
LAYERS = z3.Function("first_layers", z3.IntSort(), TDOC.sort)


def open_file(it, a, kw):
    if it.decide(it.fresh("unreadable", z3.BoolSort()), prune=False):
        raise PyRaise(Exc(OSError, ()))
    f = it.make(TCFILE, "file")
    it._addfacts([eq(it, it.getattr(f, "path"), a[0])])
    return f


def load(it, a, kw):
    return Sym(TDOC, content(V.term(it.getattr(a[0], "path"), STR)))


def validate(it, a, kw):
    if it.decide(it.fresh("invalid", z3.BoolSort()), prune=False):
        raise PyRaise(Exc(ValueError, ()))
    it.oblige("the merged layers are what is validated", same_doc(
        it, a[1], LAYERS(nfiles(it, it.args.args))))
    out = [VInst(CF.DatabaseOutputConfig, {"echo": False}), VInst(CF.DirectoryOutputConfig, {})]
    k = it.choose(3)
    sampler = None if k == 2 else it.alloc(VInst(CF.SamplerConfig, {"output": it.alloc(out[k])}))
    c = it.content(it.args._config)
    it.set_content(it.args._config, VInst(c.cls, dict(c.fields, sampler=sampler)))
    return it.args._config


def files(it, args):
    return it.getattr(args, "config")


def nfiles(it, args):
    """number of files read: the given ones, or the default file"""
    f = files(it, args)
    n = slen(it, f.val)
    return z3.If(Or(f.isnone, n <= 0), 1, n)


def file_no(it, args, i):
    f = files(it, args)
    n = slen(it, f.val)
    return z3.If(Or(f.isnone, n <= 0), V.str_lit("subsetter.yaml"), at(it, f.val, i).t)


def layers_inv(it, old, i):
    a = it.args.args
    i = i.t
    for k in ([i.arg(0), i] if z3.is_add(i) else [i]):
        it._addfacts([LAYERS(k + 1) == merged(LAYERS(k), content(file_no(it, a, k)))])
    it._addfacts([is_map(LAYERS(0)), forall_ty(it, TDKEY, lambda k: Not(has(LAYERS(0), k.t)))])
    return {"the first layers": same_doc(it, it.lookup("config_data"), LAYERS(i))}


def config_setup(it):
    return {"args": it.make(TARGS, "args"), "_config": it.alloc(VInst(CF.SubsetterConfig, {
        "source": it.alloc(VInst(CM.DatabaseConfig, {"echo": False}))}))}


def do_exit(it, a, kw):
    raise PyRaise(Exc(SystemExit, tuple(a)))


CONFIG = Contract(
    "subsetter.__main__:_get_config", setup=config_setup,
    models={("nested", "_dict_merge"): merge_call, M._open_config_path: open_file,
            yaml.safe_load: load, (CF.SubsetterConfig.model_validate.__func__): validate,
            sys.exit: do_exit},
    loops={0: LoopSpec(name="files", done="index", inv=layers_inv, types={
        "config_data": TDOC, "config_file": STR})},
    ensures=lambda it, a, r: {"the validated configuration is returned": (
        V.TRUE if isinstance(r, Ref) and r.id == a._config.id else V.FALSE)},
    raises={SystemExit: lambda it, a, e: {"a failure gives a non-zero status": z3.BoolVal(
        bool(e.args) and isinstance(e.args[0], int) and e.args[0] != 0)}},
    covers=("return", "SystemExit"))
if hasattr(M, "_dict_merge"):
    CONFIG.models[M._dict_merge] = merge_call

# ------------------------------------------------------------ connection settings
env_has = z3.Function("environment_has", V.STR_S, z3.BoolSort())
env_val = z3.Function("environment_value", V.STR_S, V.STR_S)
number = z3.Function("number_in", V.STR_S, z3.IntSort())
is_number = z3.Function("is_number", V.STR_S, z3.BoolSort())
SETTINGS = ("DIALECT", "HOST", "PORT", "DATABASE", "USERNAME", "PASSWORD", "SSL_REQUIRE",
            "SSL_SERVER_VERIFY", "SSL_CLIENT_CERT", "SSL_CLIENT_KEY", "SSL_SERVER_ROOTCERT")
VAR = {s: z3.Function("variable_" + s, V.STR_S, V.STR_S) for s in SETTINGS}


def var_name(s):
    def f(it, vals):
        v = vals[0]
        if isinstance(v, SymOpt):  # an f-string with None
            return Sym(STR, z3.If(v.isnone, VAR[s](V.str_lit("None")), VAR[s](v.val.t)))
        return Sym(STR, VAR[s](V.str_lit("None") if v is None else V.term(v, STR)))
    return f


def getenv(it, a, kw):
    n = V.term(a[0], STR)
    d = a[1] if len(a) > 1 else None
    v = Sym(STR, env_val(n))
    if d is None:
        return SymOpt(Not(env_has(n)), v)
    if isinstance(d, SymOpt):
        return SymOpt(And(Not(env_has(n)), d.isnone), Sym(STR, z3.If(
            env_has(n), v.t, d.val.t)))
    return Sym(STR, z3.If(env_has(n), v.t, V.term(d, STR)))


def to_int(it, a, kw):
    from pydv import models
    if len(a) == 1 and isinstance(a[0], Sym) and a[0].ty is STR:
        t = a[0].t
        it._addfacts([is_number(V.str_lit("0")), number(V.str_lit("0")) == 0])
        if not it.decide(is_number(t)):
            raise PyRaise(Exc(ValueError, ()))
        return Sym(INT, number(t))
    return models.m_int(it, a, kw)


TURL = TEnt("URL", sqlalchemy.engine.URL, fields={
    "drivername": STR, "host": OSTR, "port": TOpt(INT), "username": OSTR, "password": OSTR,
    "database": OSTR, "charset": BOOL})


def url_create(it, a, kw):
    if a[1:]:
        raise Unsupported("positional arguments of URL.create")
    u = it.make(TURL, "url")
    kw = dict(kw)
    q = kw.pop("query", None)
    if q is not None:
        c = it._cont(q)
        if not eq_const_dict(c, {"charset": "utf8mb4"}):
            raise Unsupported("query of a URL")
    fs = [V.term(it.getattr(u, "charset"), BOOL) == (V.TRUE if q is not None else V.FALSE)]
    for f in ("drivername", "host", "port", "username", "password", "database"):
        fs.append(eq(it, it.getattr(u, f), kw.pop(f, None)))
    if kw:
        raise Unsupported("arguments of URL.create")
    it._addfacts(fs)
    return u


def eq_const_dict(c, d):
    return isinstance(c, VDict) and c.base is None and {o.key: o.val for o in c.ops} == d


def opt(v):
    """(is it None, its term)"""
    if v is None:
        return V.TRUE, None
    if isinstance(v, SymOpt):
        return v.isnone, v.val.t
    return V.FALSE, v.t if isinstance(v, Sym) else V.term(v, INT if isinstance(v, int) else STR)


def setting(it, a, name, default=None):
    """(given, term): the value in force"""
    none, t = opt(getattr(a, name.lower()))
    empty = t == (0 if name == "PORT" else V.str_lit(""))
    set_ = And(Not(none), Not(empty))
    pn, pt = opt(a.env_prefix)
    env = VAR[name](pt)
    use_env = And(Not(pn), env_has(env))
    ev = number(env_val(env)) if name == "PORT" else env_val(env)
    dflt = default if default is not None else t
    given = Or(set_, use_env, And(V.TRUE if default is not None else V.FALSE, Not(pn)),
               And(pn, Not(none)))
    return given, z3.If(set_, t, z3.If(use_env, ev, z3.If(pn, t, dflt)))


def url_setup(it):
    return {"dialect": it.make(OSTR, "dialect"), "env_prefix": it.make(OSTR, "prefix"),
            "host": it.make(OSTR, "host"), "port": it.make(TOpt(INT), "port"),
            "database": it.make(OSTR, "database"), "username": it.make(OSTR, "username"),
            "password": it.make(OSTR, "password")}


def is_setting(it, v, given_value):
    """v is the setting (None when there is none)"""
    given, t = given_value
    none, vt = opt(v)
    if vt is None:
        return Not(given)
    return And(none == Not(given), Implies(given, vt == t))


def url_post(it, a, u):
    g = lambda f: it.getattr(u, f)
    lit = V.str_lit
    dgiven, dterm = setting(it, a, "DIALECT")
    dia = z3.If(dgiven, dterm, lit("mysql"))
    pgiven, pterm = setting(it, a, "PORT", z3.IntVal(0))
    server = Or(dia == lit("mysql"), dia == lit("postgres"))
    database = setting(it, a, "DATABASE")
    port = z3.If(And(pgiven, pterm != 0), pterm, z3.If(dia == lit("mysql"), 3306, 5432))
    return {
        "a known dialect": Or(server, dia == lit("sqlite")),
        "the driver of the dialect": g("drivername").t == z3.If(
            dia == lit("mysql"), lit("mysql+pymysql"), z3.If(
                dia == lit("postgres"), lit("postgresql+psycopg2"), lit("sqlite"))),
        "host": Implies(server, is_setting(it, g("host"), setting(
            it, a, "HOST", lit("localhost")))),
        "port": Implies(server, is_setting(it, g("port"), (V.TRUE, port))),
        "username": Implies(server, is_setting(it, g("username"), setting(it, a, "USERNAME"))),
        "password": Implies(server, is_setting(it, g("password"), setting(it, a, "PASSWORD"))),
        "database": Implies(Not(dia == lit("mysql")), Or(
            is_setting(it, g("database"), database),
            And(dia == lit("postgres"), database[1] == lit(""), opt(g("database"))[0]))),
        "MySQL connections select no database": Implies(
            dia == lit("mysql"), opt(g("database"))[0]),
        "character set": V.term(g("charset"), BOOL) == (dia == lit("mysql")),
    }


def url_refused(it, a, e):
    lit = V.str_lit
    dgiven, dterm = setting(it, a, "DIALECT")
    dia = z3.If(dgiven, dterm, lit("mysql"))
    pn, pt = opt(a.env_prefix)
    env = VAR["PORT"](pt)
    return {"only for an unknown dialect or a port that is no number": Or(
        Not(Or(*[dia == lit(x) for x in ("mysql", "postgres", "sqlite")])),
        And(Not(pn), env_has(env), Not(is_number(env_val(env)))))}


ENV_MODELS = {os.getenv: getenv, int: to_int, os.environ.get.__func__: lambda it, a, kw: getenv(
    it, a[1:], kw), **{("fstr", "{}" + s): var_name(s) for s in SETTINGS}}
URL = Contract(
    "subsetter.common:database_url", setup=url_setup, ensures=url_post,
    raises={ValueError: url_refused}, covers=("return", "ValueError"),
    models={**ENV_MODELS, sqlalchemy.engine.URL.create.__func__: url_create})
# ------------------------------------------------------------ encryption
SSL = CM.DatabaseConfig.SSLConfig
LEVELS = ("none", "cert", "identity")
# which settings the configuration gives, at all three places they may be left out
TDUMP = TEnt("Given", None, fields={"require": BOOL, "server": BOOL, "verify": BOOL})


def dump(it, a, kw):
    if kw != {"exclude_unset": True} or len(a) != 1:
        raise Unsupported("model_dump")
    return Sym(TDUMP, z3.Const("given", TDUMP.sort))


def given(it, f):
    return V.term(it.getattr(Sym(TDUMP, z3.Const("given", TDUMP.sort)), f), BOOL)


TSERVER = TEnt("GivenServer", None)


def dump_get(it, a, kw):
    me, name = a[0], a[1]
    dflt = a[2] if len(a) > 2 else None
    if name not in ("require", "server"):
        raise Unsupported("other encryption settings")
    if not it.decide(given(it, name)):
        return dflt
    return field(it, it.args.self, "require") if name == "require" else it.make(
        TSERVER, "server")


def server_get(it, a, kw):
    if a[1] != "verify":
        raise Unsupported("other server settings")
    if not it.decide(given(it, "verify")):
        return a[2] if len(a) > 2 else None
    return field(it, field(it, it.args.self, "server"), "verify")


TDUMP.methods["get"] = dump_get
TSERVER.methods["get"] = server_get


def ssl_setup(it):
    me = VInst(SSL, {
        "require": it.make(TOpt(BOOL), "require"),
        "client": it.alloc(VInst(SSL.SSLClientConfig, {
            "cert": it.make(OSTR, "cert"), "key": it.make(OSTR, "key")})),
        "server": it.alloc(VInst(SSL.SSLServerConfig, {
            "rootcert": it.make(OSTR, "rootcert"), "verify": it.make(STR, "verify")}))})
    return {"self": it.alloc(me), "dialect": it.make(STR, "dialect"),
            "env_prefix": it.make(OSTR, "prefix")}


def ssl_req(it, a):
    server = field(it, a.self, "server")
    verify = field(it, server, "verify")
    return {
        "a setting of the server is given with its section": Implies(
            given(it, "verify"), given(it, "server")),
        "the levels a configuration may ask for": Or(*[eq(it, verify, x) for x in LEVELS]),
        "no environment variables without a prefix": And(*[Not(env_has(
            VAR[s](V.str_lit("None")))) for s in SETTINGS])}


def in_env(a, name):
    pn, pt = opt(a.env_prefix)
    return And(Not(pn), env_has(VAR[name](pt))), env_val(VAR[name](pt))


def required(it, a):
    r = field(it, a.self, "require")
    here, v = in_env(a, "SSL_REQUIRE")
    return z3.If(given(it, "require"), And(Not(r.isnone), r.val.t), And(
        here, Not(v == V.str_lit(""))))


def level(it, a):
    """the verification level asked for"""
    here, v = in_env(a, "SSL_SERVER_VERIFY")
    return z3.If(given(it, "verify"), V.term(field(it, field(
        it, a.self, "server"), "verify"), STR), z3.If(here, v, V.str_lit("none")))


def file_setting(it, a, v, name):
    """(given, which file)"""
    here, e = in_env(a, name)
    set_ = And(Not(v.isnone), Not(v.val.t == V.str_lit("")))
    return Or(set_, And(here, Not(e == V.str_lit("")))), z3.If(set_, v.val.t, e)


def ssl_files(it, a):
    c, s = field(it, a.self, "client"), field(it, a.self, "server")
    return {"cert": file_setting(it, a, field(it, c, "cert"), "SSL_CLIENT_CERT"),
            "key": file_setting(it, a, field(it, c, "key"), "SSL_CLIENT_KEY"),
            "ca": file_setting(it, a, field(it, s, "rootcert"), "SSL_SERVER_ROOTCERT")}


def entry_is(it, d, key, present, t):
    """key is in the dict exactly when present, and then is t"""
    c = it._cont(d)
    dom = to_z3b(it.dict_dom(c, key)) if c.ops or c.base else V.FALSE
    if V.is_false(dom):
        return Not(present)
    v = it.dict_get(c, key)
    return And(dom == present, Implies(present, eq(it, v, Sym(STR, t) if t.sort() == V.STR_S
                                                   else Sym(BOOL, t))))


def only_keys(it, d, keys):
    c = it._cont(d)
    if not isinstance(c, VDict) or c.base is not None or any(
            o.kind != "store" or not isinstance(o.key, str) for o in c.ops):
        raise Unsupported("connection arguments")
    extra = [o for o in c.ops if o.key not in keys]
    return Not(Or(*[o.guard for o in extra])) if extra else V.TRUE


def ssl_post(it, a, r):
    lit = V.str_lit
    fs = ssl_files(it, a)
    lv, dia = level(it, a), V.term(a.dialect, STR)
    on = required(it, a)
    out = {}
    if empty_dict(it, r):
        return {"unencrypted connections only when encryption is not required": Not(on)}
    out["encryption only when required"] = on
    c = it._cont(r)
    if any(o.key == "ssl" for o in c.ops):
        out["no other arguments"] = only_keys(it, r, ("ssl",))
        out["the arguments of MySQL"] = dia == lit("mysql")
        d = it.dict_get(c, "ssl")
        out["known options of PyMySQL"] = only_keys(it, d, ("ca", "key", "cert", "verify_mode",
                                                            "check_hostname"))
        for k in ("ca", "key", "cert"):
            out["file " + k] = entry_is(it, d, k, *fs[k])
        out["verifies the certificate when asked for"] = entry_is(
            it, d, "verify_mode", V.TRUE, Or(lv == lit("cert"), lv == lit("identity")))
        out["verifies the host name when asked for"] = entry_is(
            it, d, "check_hostname", V.TRUE, lv == lit("identity"))
        out["host names are verified against a certificate"] = Implies(
            lv == lit("identity"), fs["ca"][0])
    else:
        out["no other arguments"] = only_keys(it, r, ("sslcert", "sslkey", "sslmode",
                                                      "sslrootcert"))
        out["the arguments of PostgreSQL"] = dia == lit("postgres")
        out["mode"] = entry_is(it, r, "sslmode", V.TRUE, z3.If(
            lv == lit("identity"), lit("verify-full"), z3.If(
                lv == lit("cert"), lit("verify-ca"), lit("require"))))
        for k, n in (("cert", "sslcert"), ("key", "sslkey"), ("ca", "sslrootcert")):
            out["file " + n] = entry_is(it, r, n, *fs[k])
    out["a known level"] = Or(*[lv == lit(x) for x in LEVELS])
    return out


def ssl_refused(it, a, e):
    lit = V.str_lit
    lv, dia = level(it, a), V.term(a.dialect, STR)
    return {"only what cannot be honoured": And(required(it, a), Or(
        Not(Or(*[lv == lit(x) for x in LEVELS])),
        Not(Or(dia == lit("mysql"), dia == lit("postgres"))),
        And(dia == lit("mysql"), lv == lit("identity"), Not(ssl_files(it, a)["ca"][0]))))}


SSL_ARGS = Contract(
    "subsetter.common:DatabaseConfig.SSLConfig.get_connect_args", setup=ssl_setup,
    requires=ssl_req, ensures=ssl_post, raises={ValueError: ssl_refused},
    covers=("return", "ValueError"),
    models={**ENV_MODELS, pydantic.BaseModel.model_dump: dump})

# ------------------------------------------------------------ engines and new connections
TALIASES = TDict(STR, STR)
attach = z3.Function("attach_statement", V.STR_S, V.STR_S, V.STR_S)
doubled = z3.Function("quotes_doubled", V.STR_S, V.STR_S)
TCARGS = TEnt("ConnectArgs", None)
TENGINE15 = TEnt("Engine15", None)


def cursor_execute(it, a, kw):
    it.append(it.args._log, a[1])


TCURSOR = TEnt("Cursor", None, methods={
    "execute": cursor_execute, "close": lambda it, a, kw: None,
    "__enter__": lambda it, a, kw: a[0], "__exit__": lambda it, a, kw: None})
TDBAPI = TEnt("DriverConnection", None, methods={
    "cursor": lambda it, a, kw: it.make(TCURSOR, "cursor")})


def engine_dialect(it, a):
    """the dialect database_url resolves to (None: the default, MySQL)"""
    d = field(it, a.self, "dialect")
    pn, pt = opt(a.env_prefix)
    use = And(d.isnone, Not(pn), env_has(VAR["DIALECT"](pt)))
    return z3.If(Not(d.isnone), d.val.t, z3.If(use, env_val(VAR["DIALECT"](pt)), V.str_lit(
        "mysql")))


def same_opt(x, y):
    (xn, xt), (yn, yt) = opt(x), opt(y)
    if xt is None or yt is None:
        return And(xn, yn)
    return And(xn == yn, Implies(Not(xn), xt == yt))


def the_url(it, a, kw):
    """contract of database_url"""
    if a:
        raise Unsupported("positional arguments")
    me = it.args.self
    for f in ("dialect", "host", "port", "database", "username", "password"):
        it.oblige(f"the configured {f}", same_opt(kw.get(f), field(it, me, f)))
    it.oblige("the prefix of the environment", same_opt(kw.get("env_prefix"), it.args.env_prefix))
    return Sym(TURL, z3.Const("the_url", TURL.sort))


def the_args(it, a, kw):
    """contract of get_connect_args"""
    me, dialect = a
    it.oblige("the encryption settings of this connection", V.TRUE if isinstance(
        me, Ref) and me.id == field(it, it.args.self, "ssl").id else V.FALSE)
    it.oblige("encryption for the dialect connected to", V.term(
        dialect, STR) == engine_dialect(it, it.args))
    it.oblige("the prefix of the environment", same_opt(kw.get("env_prefix"), it.args.env_prefix))
    return Sym(TCARGS, z3.Const("the_args", TCARGS.sort))


def create_engine(it, a, kw):
    args = it.args
    iso = field(it, args.self, "isolation_level")
    it.oblige("the resolved address", eq(it, a[0], Sym(TURL, z3.Const("the_url", TURL.sort))))
    it.oblige("the encryption arguments", eq(it, kw["connect_args"], Sym(
        TCARGS, z3.Const("the_args", TCARGS.sort))) if "connect_args" in kw else V.FALSE)
    n, t = opt(kw.get("isolation_level"))
    it.oblige("the isolation level", And(Not(n), t == z3.If(
        Not(iso.isnone), iso.val.t, z3.If(engine_dialect(it, args) == V.str_lit("sqlite"),
                                          V.str_lit("SERIALIZABLE"),
                                          V.str_lit("READ COMMITTED")))))
    return Sym(TENGINE15, z3.Const("the_engine", TENGINE15.sort))


def listens_for(it, a, kw):
    if len(a) != 2 or a[1] != "connect":
        raise Unsupported("event")
    it.oblige("of this engine", eq(it, a[0], Sym(TENGINE15, z3.Const(
        "the_engine", TENGINE15.sort))))

    def register(it, b, kw):
        it.ghost.setdefault("listeners", []).append(b[0])
        return b[0]
    return Native(register)


def engine_setup(it):
    f = {"dialect": OSTR, "host": OSTR, "port": TOpt(INT), "database": OSTR, "username": OSTR,
         "password": OSTR, "isolation_level": OSTR, "echo": BOOL}
    fields = {k: it.make(t, k) for k, t in f.items()}
    fields["session_sqls"] = it.alloc(it.make(TSeq(STR), "session"))
    fields["sqlite_databases"] = it.alloc(it.make(TALIASES, "databases"))
    fields["ssl"] = it.alloc(VInst(SSL, {}))
    return {"self": it.alloc(VInst(CM.DatabaseConfig, fields)),
            "env_prefix": it.make(OSTR, "prefix"), "_log": it.alloc(VSeq([]))}


def engine_req(it, a):
    d, iso = field(it, a.self, "dialect"), field(it, a.self, "isolation_level")
    return {"a configured dialect is a known one": Implies(Not(d.isnone), Or(*[
                eq(it, d.val, x) for x in ("mysql", "postgres", "sqlite")])),
            "a configured isolation level is a known one": Implies(
                Not(iso.isnone), Not(eq(it, iso.val, ""))),
            "an environment variable that is set names a dialect": forall_ty(
                it, STR, lambda p: Implies(env_has(VAR["DIALECT"](p.t)), Not(env_val(VAR[
                    "DIALECT"](p.t)) == V.str_lit(""))))}


def engine_run(it, a, fn):
    it.ghost["listeners"] = []
    engine = it.call_py(fn, [a.self], {"env_prefix": a.env_prefix})
    for f in it.ghost["listeners"]:
        it.call(f, [it.make(TDBAPI, "driver"), it.make(TDBAPI, "record")], {})
    return engine


def attached(it, k):
    dbs = field(it, it.args.self, "sqlite_databases")
    return attach(doubled(V.term(it.dict_get(it._cont(dbs), k), STR)), k.t)


def in_log(it, t, lo=0, hi=None):
    log = it.args._log
    if it.seq_len(it._cont(log)) == 0 if isinstance(it.seq_len(it._cont(log)), int) else False:
        return V.FALSE
    return exists_int(it, lambda j: at(it, log, j).t == t, lo, slen(it, log) if hi is None else hi)


def attach_inv(it, old, done):
    log = it.args._log
    return {"databases attached so far": forall_ty(it, STR, lambda k: Implies(
                mem(it, done, k), in_log(it, attached(it, k)))),
            "nothing but databases attached": idx(it, lambda j: exists_ty(it, STR, lambda k: And(
                mem(it, done, k), at(it, log, j).t == attached(it, k))), log)}


def session_inv(it, old, i):
    log, sqls = it.args._log, field(it, it.args.self, "session_sqls")
    n0 = at_state(it, old, lambda: slen(it, log))
    old_at = at_state(it, old, lambda: it.freeze(log))
    empty = isinstance(it.seq_len(it._cont(old_at)), int)
    return {"as many statements": slen(it, log) == n0 + i.t,
            "those before": V.TRUE if empty else forall_int(it, lambda j: eq(it, at(
                it, log, j), at(it, old_at, j)), 0, n0),
            "session statements in order": forall_int(it, lambda j: eq(it, at(
                it, log, j), at(it, sqls, j - n0)), n0, n0 + i.t)}


def engine_post(it, a, r):
    sqls, log = field(it, a.self, "session_sqls"), a._log
    dbs = field(it, a.self, "sqlite_databases")
    n, total = slen(it, sqls), slen(it, log)
    lite = engine_dialect(it, a) == V.str_lit("sqlite")
    return {
        "the engine made is returned": eq(it, r, Sym(TENGINE15, z3.Const(
            "the_engine", TENGINE15.sort))),
        "every connection runs the session statements, last and in order": And(
            total >= n, forall_int(it, lambda j: eq(it, at(it, log, total - n + j), at(
                it, sqls, j)), 0, n)),
        "every sqlite connection has the databases attached": Implies(lite, forall_ty(
            it, STR, lambda k: Implies(mem(it, dbs, k), in_log(
                it, attached(it, k), 0, total - n)))),
        "and nothing else": forall_int(it, lambda j: And(lite, exists_ty(it, STR, lambda k: And(
            mem(it, dbs, k), at(it, log, j).t == attached(it, k)))), 0, total - n),
    }


def session_loops():
    log = {(lambda it: it.args._log): TSeq(STR)}
    return {0: LoopSpec(name="databases", done="keys", inv=attach_inv, cells=log, types={
                "db_alias": STR, "db_file": STR, "escaped_db_file": STR}),
            1: LoopSpec(name="statements", done="index", inv=session_inv, cells=log, types={
                "session_sql": STR})}


def engine_run_(it, a, fn):
    it.loop_specs["_set_session_sqls"] = session_loops()
    return engine_run(it, a, fn)


ENGINE = Contract(
    "subsetter.common:DatabaseConfig.database_engine", setup=engine_setup, requires=engine_req,
    ensures=engine_post, run=engine_run_,
    models={**ENV_MODELS, CM.database_url: the_url, SSL.get_connect_args: the_args,
            sqlalchemy.create_engine: create_engine, sqlalchemy.event.listens_for: listens_for,
            ("fstr", "ATTACH DATABASE '{}' as {}"): lambda it, v: Sym(STR, attach(
                V.term(v[0], STR), V.term(v[1], STR))),
            (str, "replace"): lambda it, a, kw: Sym(STR, doubled(V.term(a[0], STR)))
            if a[1:] == ["'", "''"] else _unsupported("str.replace")})


def _unsupported(what):
    raise Unsupported(what)


MODELS = {}
AXIOMS = [merge_axioms]
CONTRACTS = [MERGE, CONFIG, URL, SSL_ARGS, ENGINE]
ASSUMPTIONS = [
    "pydantic: model_dump(exclude_unset=True) holds exactly the given settings, an ungiven setting "
    "has its default, and settings have their declared types",
    "PyMySQL encrypts when its ssl argument is a non-empty dict, verify_mode and check_hostname "
    "verifying the certificate and the host name; libpq's sslmode (rt/c15 runs PyMySQL's own "
    "handling)",
    "without an environment prefix no variable named None... is set",
    "sqlite_databases is a mapping (not null)",
    "database_engine: database_url and get_connect_args by the contracts proved here",
]
TRUSTED = ["os.getenv", "sqlalchemy create_engine, URL.create, event.listens_for(connect)",
           "yaml.safe_load", "SubsetterConfig.model_validate", "int of a string",
           "_open_config_path"]
