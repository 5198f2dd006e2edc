"""C14: which tables are considered, and the graph made of them."""
from contracts.meta import *
from subsetter import planner as PL


def ag_setup(it):
    return {"self": make_meta(it), "ignore_tables": SymOpt(
        it.fresh("noignore", z3.BoolSort()), it.alloc(it.make(TSet(KEY), "ignore")))}


def ignored(it, a, k):
    g = a.ignore_tables
    if g is None:
        return V.FALSE
    if isinstance(g, SymOpt):
        return And(Not(g.isnone), mem(it, g.val, k))
    return mem(it, g, k)


def ag_post(it, a, r):
    ts = tables_of(it, a.self)
    return {
        "a node exactly for each table not ignored": forall_ty(it, STR, lambda n: mem(
            it, r, n) == exists_table(it, ts, lambda k, t: And(
                eq(it, key_name(it, k), n), Not(ignored(it, a, k))))),
        "an edge exactly for each key between two such tables": forall_table(
            it, ts, lambda k, t: Implies(Not(ignored(it, a, k)), forall_ty(
                it, STR, lambda n: edge(it, r, key_name(it, k), n) == exidx(
                    it, lambda j: And(
                        eq(it, key_name(it, fk_dst(it, at(it, fks(it, t), j))), n),
                        mem(it, ts, fk_dst(it, at(it, fks(it, t), j))),
                        Not(ignored(it, a, fk_dst(it, at(it, fks(it, t), j))))),
                    fks(it, t))))),
    }


AS_GRAPH = Contract("subsetter.metadata:DatabaseMetadata.as_graph", setup=ag_setup, modular=True,
                    returns=TGRAPH, requires=lambda it, a: meta_inv(it, a.self),
                    ensures=ag_post)


# ------------------------------------------------------------ selection and closure
TSAMETA = TEnt("SAMeta", sa.MetaData, fields={"tables": TDict(STR, TOBJ)},
               methods={"reflect": lambda it, a, kw: None})
TINSP = TEnt("Inspector", None, methods={
    "get_schema_names": lambda it, a, kw: it.make(TSeq(STR), "schemas")})
TDIALECT = TEnt("Dialect", None, fields={"name": STR})
TENGINE = TEnt("Engine", None, fields={"dialect": TDIALECT})
matches = z3.Function("fnmatch", V.STR_S, V.STR_S, z3.BoolSort())
wanted = z3.Function("upper_bound", V.STR_S, V.STR_S, z3.BoolSort())
SAMETA = Sym(TSAMETA, z3.Const("the_schema", TSAMETA.sort))


def sa_tables(it):
    return it.getattr(SAMETA, "tables")


def tobj(it, k):
    """the table of a key"""
    return it.dict_get(it._cont(sa_tables(it)), key_name(it, k))


def obj_key(it, o):
    return VTup([it.getattr(o, "schema"), it.getattr(o, "name")])


def is_table(it, k):
    return And(mem(it, sa_tables(it), key_name(it, k)), eq(it, obj_key(it, tobj(it, k)), k))


def references(it, x, y):
    """table x has a foreign key into table y"""
    return And(is_table(it, x), exists_ty(it, TFKC, lambda c: And(
        mem(it, it.getattr(tobj(it, x), "foreign_key_constraints"), c),
        eq(it, obj_key(it, it.getattr(c, "referred_table")), y))))


def dep(it, a, x, y):
    """closing over table x adds table y"""
    return Or(And(V.term(a.close_forward, BOOL), references(it, x, y)),
              And(V.term(a.close_backward, BOOL), references(it, y, x)))


def selected(it, a, k):
    return And(is_table(it, k), exidx(it, lambda j: matches(
        key_name(it, k).t, at(it, a.select, j).t), a.select))


def bound(it, k):
    return wanted(k.items[0].t, k.items[1].t)


def fe_setup(it):
    return {"cls": MD.DatabaseMetadata, "engine": it.make(TENGINE, "engine"),
            "select": it.alloc(it.make(TSeq(STR), "select")),
            "close_forward": it.make(BOOL, "close_forward"),
            "close_backward": it.make(BOOL, "close_backward")}


def fe_requires(it, a):
    ts = sa_tables(it)
    return {
        "tables are keyed by their full name": forall_ty(it, STR, lambda n: Implies(
            mem(it, ts, n), And(
                eq(it, key_name(it, obj_key(it, it.dict_get(it._cont(ts), n))), n),
                nodot(obj_key(it, it.dict_get(it._cont(ts), n)).items[0].t)))),
        "references lead to tables": forall_ty(it, TFKC, lambda c: is_table(
            it, obj_key(it, it.getattr(c, "referred_table")))),
        # an arbitrary set of tables that contains the selection and is closed
        "bound contains the selection": forall_ty(it, KEY, lambda k: Implies(
            selected(it, a, k), bound(it, k))),
        "bound is closed": forall_ty(it, KEY, lambda x: forall_ty(it, KEY, lambda y: Implies(
            And(bound(it, x), dep(it, a, x, y)), bound(it, y)))),
    }


def fe_post(it, a, r):
    meta, extra = r.items
    ts = tables_of(it, meta)
    return {
        "every selected table is considered": forall_ty(it, KEY, lambda k: Implies(
            selected(it, a, k), mem(it, ts, k))),
        "closed over dependencies": forall_ty(it, KEY, lambda x: forall_ty(
            it, KEY, lambda y: Implies(And(mem(it, ts, x), dep(it, a, x, y)), mem(it, ts, y)))),
        "only reachable tables": forall_ty(it, KEY, lambda k: Implies(
            mem(it, ts, k), And(bound(it, k), is_table(it, k)))),
        "additional tables are exactly the others": forall_ty(it, KEY, lambda k: exidx(
            it, lambda j: eq(it, at(it, extra, j), k), extra) == And(
                mem(it, ts, k), Not(selected(it, a, k)))),
        "each additional table once": idx(it, lambda j: idx(it, lambda l: Implies(
            j < l, Not(eq(it, at(it, extra, j), at(it, extra, l)))), extra), extra),
        "each table under its own name": forall_table(it, ts, lambda k, t: eq(
            it, it.getattr(t, "table_obj"), tobj(it, k))),
    }


def queue_facts(it, old):
    a, q, s = it.args, it.lookup("table_queue"), it.lookup("table_set")
    q0 = old_(it, old, q)
    n0 = slen(it, q0)
    return {
        "queued once": idx(it, lambda j: idx(it, lambda l: Implies(
            j < l, Not(eq(it, at(it, q, j), at(it, q, l)))), q), q),
        "the set holds the queued tables": forall_ty(it, KEY, lambda k: mem(it, s, k) == exidx(
            it, lambda j: eq(it, at(it, q, j), k), q)),
        "the selection stays in front": And(n0 <= slen(it, q), forall_int(
            it, lambda k: eq(it, at(it, q, k), at(it, q0, k)), 0, n0)),
        "only reachable tables queued": idx(it, lambda j: And(
            is_table(it, at(it, q, j)), bound(it, at(it, q, j))), q),
    }


def old_(it, old, ref):
    cur = it.st
    st = old.copy()
    st.binders = cur.binders
    it.st = st
    try:
        return it.freeze(ref)
    finally:
        it.st = cur


def deps_ok(it, a):
    """the recorded dependencies of a table are its dependencies"""
    ds = it.lookup("table_deps")
    return forall_ty(it, KEY, lambda x: forall_ty(it, KEY, lambda y: And(mem(it, ds, x), mem(
        it, it.dict_get(it._cont(ds), x), y)) == dep(it, a, x, y)))


def queue_inv(it, old, i):
    a, q, s = it.args, it.lookup("table_queue"), it.lookup("table_set")
    it.ghost["qold"] = old
    d = queue_facts(it, old)
    d["recorded dependencies"] = deps_ok(it, a)
    d["closed over what was processed"] = forall_int(it, lambda k: forall_ty(
        it, KEY, lambda y: Implies(dep(it, a, at(it, q, k), y), mem(it, s, y))), 0, i.t)
    return d


def deps_inv(it, old, i):
    q, s = it.lookup("table_queue"), it.lookup("table_set")
    d = queue_facts(it, it.ghost["qold"])
    k = VTup([it.lookup("schema"), it.lookup("table")])
    ds = it.dict_get(it._cont(it.lookup("table_deps")), k)
    q1 = old_(it, old, q)
    s1 = old_(it, old, s)
    n1 = slen(it, q1)
    d["queue only grows"] = And(n1 <= slen(it, q), forall_int(
        it, lambda k: eq(it, at(it, q, k), at(it, q1, k)), 0, n1))
    d["set only grows"] = forall_ty(it, KEY, lambda y: Implies(mem(it, s1, y), mem(it, s, y)))
    d["dependencies so far"] = forall_int(it, lambda j: mem(it, s, at(it, ds, j)), 0, i.t)
    return d


def mk_table(it, args, kw):
    f = z3.Function("table_of_obj", TOBJ.sort, TTABLE.sort)
    t = Sym(TTABLE, f(args[0].t))
    it._addfacts([eq(it, it.getattr(t, "schema"), it.getattr(args[0], "schema")),
                  eq(it, it.getattr(t, "name"), it.getattr(args[0], "name")),
                  eq(it, it.getattr(t, "table_obj"), args[0])])
    return t


FROM_ENGINE = Contract(
    "subsetter.metadata:DatabaseMetadata.from_engine", setup=fe_setup, requires=fe_requires,
    ensures=fe_post,
    models={sa.inspect: lambda it, a, kw: it.make(TINSP, "inspector"),
            sa.MetaData: lambda it, a, kw: SAMETA,
            MD.fnmatch: lambda it, a, kw: Sym(BOOL, matches(V.term(a[0], STR), V.term(a[1], STR))),
            MD.TableMetadata: mk_table},
    loops={4: LoopSpec(name="queue", done="index",
                       types={"schema": STR, "table": STR, "table_obj": TOBJ},
                       cells={"table_queue": TSeq(KEY), "table_set": TSet(KEY),
                              "table_deps": TDefault(KEY, TSeq(KEY), list)}, inv=queue_inv),
           5: LoopSpec(name="dependencies", done="index",
                       types={"ref_schema": STR, "ref_table": STR},
                       cells={"table_queue": TSeq(KEY), "table_set": TSet(KEY)}, inv=deps_inv)})

# ------------------------------------------------------------ reading a table's keys
def names(it, seq, cols, via=None):
    """seq lists the names of the columns, in order"""
    def nm(j):
        c = at(it, cols, j)
        return it.getattr(it.getattr(c, via) if via else c, "name")
    return And(slen(it, seq) == slen(it, cols), idx(it, lambda j: eq(
        it, at(it, seq, j), nm(j)), cols))


def reads(it, fk, c):
    """fk is the foreign key of constraint c"""
    rt = it.getattr(c, "referred_table")
    return And(names(it, it.getattr(fk, "columns"), it.getattr(c, "columns")),
               eq(it, it.getattr(fk, "dst_schema"), it.getattr(rt, "schema")),
               eq(it, it.getattr(fk, "dst_table"), it.getattr(rt, "name")),
               names(it, it.getattr(fk, "dst_columns"), it.getattr(c, "elements"), "column"))


FROM_SCHEMA = Contract(
    "subsetter.metadata:ForeignKey.from_schema", modular=True, returns=TFK,
    setup=lambda it: {"cls": MD.ForeignKey, "fk": it.make(TFKC, "constraint")},
    ensures=lambda it, a, r: {"columns, table and referenced columns of the constraint": reads(
        it, r, a.fk)})


def init_post(it, a, r):
    me, o = a.self, a.table_obj
    fk = field(it, me, "foreign_keys")
    cs = it.getattr(o, "foreign_key_constraints")
    return {
        "named after its table": And(eq(it, field(it, me, "schema"), it.getattr(o, "schema")),
                                     eq(it, field(it, me, "name"), it.getattr(o, "name")),
                                     eq(it, field(it, me, "table_obj"), o)),
        "primary key columns in order": names(it, field(it, me, "primary_key"), it.getattr(
            it.getattr(o, "primary_key"), "columns")),
        "every constraint becomes a foreign key": forall_ty(it, TFKC, lambda c: Implies(
            mem(it, cs, c), exidx(it, lambda j: reads(it, at(it, fk, j), c), fk))),
        "every foreign key is a constraint": idx(it, lambda j: exists_ty(it, TFKC, lambda c: And(
            mem(it, cs, c), reads(it, at(it, fk, j), c))), fk),
        "no reverse keys yet": slen(it, field(it, me, "rev_foreign_keys")) == 0,
    }


INIT = Contract("subsetter.metadata:TableMetadata.__init__",
                setup=lambda it: {"self": it.alloc(VInst(MD.TableMetadata, {})),
                                  "table_obj": it.make(TOBJ, "table_obj")}, ensures=init_post)

# ------------------------------------------------------------ what the planner looks at
TSRCENG = TEnt("SourceEngine14", None)
TPLANCONF = TEnt("PlanConfig14", None, fields={
    "select": TSeq(STR), "passthrough": TSeq(STR), "ignore": TSeq(STR),
    "include_dependencies": BOOL})
TMADE = TEnt("MadePlan", None)
SOURCE_ENGINE = Sym(TSRCENG, z3.Const("source_engine", TSRCENG.sort))
MADE = Sym(TMADE, z3.Const("made_plan", TMADE.sort))


def source_engine(it, a, kw):
    it.oblige("the engine of the source", z3.BoolVal(
        len(a) == 1 and kw == {"env_prefix": "SUBSET_SOURCE_"} or
        len(a) == 2 and a[1] == "SUBSET_SOURCE_" and not kw))
    return SOURCE_ENGINE


TSOURCE14 = TEnt("SourceConfig14", None, methods={"database_engine": source_engine})


def keys_named(it, st, names):
    """the set of keys of the named tables"""
    key = lambda n: VTup([Sym(STR, LEFT(V.term(n, STR))), Sym(STR, RIGHT(V.term(n, STR)))])
    return And(idx(it, lambda j: mem(it, st, key(at(it, names, j))), names), forall_ty(
        it, KEY, lambda k: Implies(mem(it, st, k), exidx(it, lambda j: eq(it, key(at(
            it, names, j)), k), names))))


PLANNER_INIT = Contract(
    "subsetter.planner:Planner.__init__", setup=lambda it: {
        "self": it.alloc(VInst(PL.Planner, {})), "source": it.make(TSOURCE14, "source"),
        "config": it.make(TPLANCONF, "config")},
    ensures=lambda it, a, r: {
        "connected to the source": eq(it, field(it, a.self, "engine"), SOURCE_ENGINE),
        "the configuration given": eq(it, field(it, a.self, "config"), a.config),
        "ignored tables": keys_named(it, field(it, a.self, "ignore_tables"), it.getattr(
            a.config, "ignore")),
        "passthrough tables": keys_named(it, field(it, a.self, "passthrough_tables"), it.getattr(
            a.config, "passthrough"))},
    raises={ValueError: lambda it, a, e: {"only for a name without a dot": Or(*(exidx(
        it, lambda j: Not(hasdot(at(it, it.getattr(a.config, f), j).t)), it.getattr(a.config, f))
        for f in ("ignore", "passthrough")))}},
    covers=("return", "ValueError"))


def read_source(it, a, kw):
    me = it.args.self
    cfg = field(it, me, "config")
    args = {**dict(zip(("engine", "select"), a[1:])), **kw}
    if set(args) - {"engine", "select", "close_forward", "close_backward"}:
        raise Unsupported("from_engine")
    it.oblige("the source is read", eq(it, args["engine"], field(it, me, "engine")))
    sel = args["select"]
    parts = [it.getattr(cfg, f) for f in ("select", "passthrough")]
    it.oblige("for the selected and the passthrough tables", forall_ty(it, STR, lambda n: mem(
        it, sel, n) == Or(*(mem(it, p, n) for p in parts))))
    it.oblige("with what they depend on, when asked", to_z3b(it.truth(args.get(
        "close_forward", False))) == V.term(it.getattr(cfg, "include_dependencies"), BOOL))
    it.oblige("not with what depends on them", Not(to_z3b(it.truth(args.get(
        "close_backward", False)))))
    setup_tables(it)
    tables = it.alloc(it.make(TTABLES, "found"))
    meta = it.alloc(VInst(MD.DatabaseMetadata, {"tables": tables}))
    it.args._read.__dict__["meta"] = meta
    return VTup([meta, it.make(TSeq(KEY), "additional")])


def plan_made(it, a, kw):
    me = it.args.self
    read = it.args._read.__dict__.get("meta")
    got = it.content(me).fields.get("meta")
    it.oblige("planned from what was read", z3.BoolVal(isinstance(got, Ref) and isinstance(
        read, Ref) and got.id == read.id))
    it.append(it.args._log, "plan")
    return MADE


class Note:
    pass


PLAN = Contract(
    "subsetter.planner:Planner.plan", setup=lambda it: {
        "self": it.alloc(VInst(PL.Planner, {"config": it.make(TPLANCONF, "config"),
                                            "engine": SOURCE_ENGINE})),
        "_read": Note(), "_log": it.alloc(VSeq([]))},
    ensures=lambda it, a, r: {
        "the plan made": eq(it, r, MADE) if isinstance(r, Sym) and r.ty is TMADE else V.FALSE,
        "made once": slen(it, a._log) == 1},
    models={MD.DatabaseMetadata.from_engine.__func__: read_source,
            PL.Planner._plan_internal: plan_made})

MODELS = NAME_MODELS
AXIOMS = [name_axioms]
CONTRACTS = [PARSE, AS_GRAPH, FROM_ENGINE, FROM_SCHEMA, INIT, PLANNER_INIT, PLAN]
ASSUMPTIONS = [
    "SQLAlchemy reflection lists every table once under schema.table, schema names have no dot, "
    "and foreign keys refer to reflected tables",
    "fnmatch is a function of table name and pattern",
    "str.split at the first dot"]
TRUSTED = ["sqlalchemy.inspect, MetaData.reflect, fnmatch.fnmatch", "str.split"]
