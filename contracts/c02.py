"""C02: dependency order."""
from contracts.graphs import *
from contracts.meta import *
from contracts.matorder import *
from contracts.materialize import MATERIALIZE
from contracts.outputs import OUT_MODELS
from contracts.c14 import AS_GRAPH
from subsetter import plan_model as PM
from subsetter import sampler as SA



# ------------------------------------------------------------ tables in dependency order
def refers(it, ts, t, k):
    """table t has a foreign key into the considered table of key k"""
    return And(mem(it, ts, k), exidx(it, lambda j: eq(it, fk_dst(it, at(
        it, fks(it, t), j)), k), fks(it, t)))


def tkey(it, t):
    return VTup([it.getattr(t, "schema"), it.getattr(t, "name")])


def mt_post(it, a, r):
    ts = tables_of(it, a.self)
    return {
        "only considered tables": idx(it, lambda j: And(mem(it, ts, tkey(it, at(it, r, j))), eq(
            it, it.dict_get(it._cont(ts), tkey(it, at(it, r, j))), at(it, r, j))), r),
        "every table": forall_ty(it, KEY, lambda k: Implies(mem(it, ts, k), exidx(
            it, lambda j: eq(it, tkey(it, at(it, r, j)), k), r))),
        "each once": idx(it, lambda j: idx(it, lambda l: Implies(j < l, Not(eq(
            it, tkey(it, at(it, r, j)), tkey(it, at(it, r, l))))), r), r),
        "after every table it refers to": idx(it, lambda j: forall_ty(
            it, KEY, lambda k: Implies(refers(it, ts, at(it, r, j), k), exists_int(
                it, lambda l: eq(it, tkey(it, at(it, r, l)), k), 0, j))), r),
    }


def mt_raise(it, a, e):
    ts = tables_of(it, a.self)
    if it.current is META_TOPO:
        stuck = lambda k: it.set_mem(it.ghost["stuck"], key_name(it, k))
    else:
        s = it.make(TSet(KEY), "stuck_tables")
        stuck = lambda k: it.set_mem(s, k)
    return {
        "some tables cannot be ordered": exists_ty(it, KEY, lambda k: And(
            mem(it, ts, k), stuck(k))),
        "each of them refers to another of them": forall_table(it, ts, lambda k, t: Implies(
            stuck(k), exists_ty(it, KEY, lambda k2: And(refers(it, ts, t, k2), stuck(k2))))),
    }


META_TOPO = Contract("subsetter.metadata:DatabaseMetadata.toposort", modular=True,
                     setup=lambda it: {"self": make_meta(it)}, returns=TSeq(TTABLE),
                     requires=lambda it, a: meta_inv(it, a.self), ensures=mt_post,
                     raises={ValueError: mt_raise}, covers=("return", "ValueError"))


# ------------------------------------------------------------ insert and truncate order
TCONN = TEnt("Conn", None, methods={
    "__enter__": lambda it, a, kw: a[0], "__exit__": lambda it, a, kw: None,
    "commit": lambda it, a, kw: None})
TENG = TEnt("OutEngine", None, methods={"connect": lambda it, a, kw: it.make(TCONN, "conn")})
TDELETE = TEnt("DeleteStmt", None, fields={"target": TOBJ})


def sa_delete(it, a, kw):
    s = it.make(TDELETE, "delete")
    it._addfacts([eq(it, it.getattr(s, "target"), a[0])])
    return s


def conn_execute(it, a, kw):
    it.append(it.args._log, it.getattr(a[1], "target"))


TCONN.methods["execute"] = conn_execute


def tr_setup(it):
    me = it.alloc(VInst(SA.DatabaseOutput, {
        "additional_tables": it.alloc(it.make(TSeq(KEY), "additional")),
        "engine": it.make(TENG, "engine"), "meta": make_meta(it)}))
    return {"self": me, "_log": it.alloc(VSeq([]))}


def tr_post(it, a, r):
    ts, log = tables_of(it, field(it, a.self, "meta")), a._log
    ob = lambda k: it.getattr(it.dict_get(it._cont(ts), k), "table_obj")
    order = it.ghost["order"]
    return {
        "exactly the considered tables are emptied": And(
            idx(it, lambda j: exists_table(it, ts, lambda k, t: eq(
                it, it.getattr(t, "table_obj"), at(it, log, j))), log),
            forall_ty(it, KEY, lambda k: Implies(mem(it, ts, k), exidx(
                it, lambda l: And(eq(it, tkey(it, at(it, order, l)), k), eq(
                    it, at(it, log, slen(it, log) - 1 - l), ob(k))), order)))),
        "each once": slen(it, log) == slen(it, it.ghost["order"]),
        "referencing tables before the tables they refer to": idx(it, lambda j: forall_table(
            it, ts, lambda k, t: Implies(
                eq(it, at(it, log, j), ob(k)), forall_ty(it, KEY, lambda k2: Implies(
                    And(mem(it, ts, k2), refers(it, ts, t, k2), Not(eq(it, k, k2))),
                    Not(exists_int(it, lambda l: eq(it, at(it, log, l), ob(k2)), 0, j)))))), log),
    }


def tr_req(it, a):
    meta = field(it, a.self, "meta")
    d = meta_inv(it, meta)
    ts = tables_of(it, meta)
    d["one object per table"] = forall_table(it, ts, lambda k, t: forall_table(
        it, ts, lambda k2, t2: Implies(eq(it, it.getattr(t, "table_obj"), it.getattr(
            t2, "table_obj")), eq(it, k, k2))))
    return d


def mt_ens(it, a, r):
    it.ghost["order"] = r
    return mt_post(it, a, r)


META_TOPO.ensures = mt_ens

TRUNCATE = Contract("subsetter.sampler:DatabaseOutput.truncate", setup=tr_setup,
                    requires=tr_req, ensures=tr_post, raises={ValueError: None},
                    models={SA.sa.delete: sa_delete})


# where each plan table's rows go: destination name -> plan table
def io_setup(it):
    me = it.alloc(VInst(SA.DatabaseOutput, {
        "meta": make_meta(it), "table_remap": it.alloc(it.make(TDict(STR, STR), "remap"))}))
    return {"self": me}


def io_req(it, a):
    d = meta_inv(it, field(it, a.self, "meta"))
    rm = field(it, a.self, "table_remap")
    g = lambda n: it.dict_get(it._cont(rm), n)
    d["plan tables have names"] = forall_ty(it, STR, lambda n: Implies(
        mem(it, rm, n), Not(eq(it, g(n), ""))))
    d["each plan table has one destination"] = forall_ty(it, STR, lambda n: forall_ty(
        it, STR, lambda m: Implies(And(mem(it, rm, n), mem(it, rm, m), eq(it, g(n), g(m))), eq(
            it, n, m))))
    return d


def io_post(it, a, r):
    ts, rm = tables_of(it, field(it, a.self, "meta")), field(it, a.self, "table_remap")
    g = lambda k: it.dict_get(it._cont(rm), key_name(it, k))
    has = lambda k: And(mem(it, ts, k), mem(it, rm, key_name(it, k)))
    return {
        "exactly the plan tables with a destination": forall_ty(it, STR, lambda s: exidx(
            it, lambda j: eq(it, at(it, r, j), s), r) == exists_ty(it, KEY, lambda k: And(
                has(k), eq(it, g(k), s)))),
        "each once": idx(it, lambda j: idx(it, lambda l: Implies(j < l, Not(eq(
            it, at(it, r, j), at(it, r, l)))), r), r),
        "after the tables its destination refers to": idx(it, lambda j: forall_table(
            it, ts, lambda k, t: Implies(
                And(has(k), eq(it, at(it, r, j), g(k))), forall_ty(it, KEY, lambda k2: Implies(
                    And(has(k2), refers(it, ts, t, k2)), exists_int(it, lambda l: eq(
                        it, at(it, r, l), g(k2)), 0, j))))), r),
    }


INSERT_ORDER = Contract("subsetter.sampler:DatabaseOutput.insert_order", setup=io_setup,
                        requires=io_req, ensures=io_post, raises={ValueError: None})

MODELS = OUT_MODELS
AXIOMS = [name_axioms]
CONTRACTS = [REVERSE, TOPO, META_TOPO, TRUNCATE, INSERT_ORDER, MAT_ORDER, MATERIALIZE]
ALL = [REVERSE, TOPO, META_TOPO, PARSE, AS_GRAPH, MAT_ORDER]
ASSUMPTIONS = [
    "SQLTableQuery.build asks its context for the same table identifiers whenever it is called (it keeps no state)",
    "each destination table has its own sqlalchemy Table object, keyed by its schema and name, and "
    "schema names have no dot",
    "plan tables have distinct destination names",
    "a planned query reads only samples of planned tables, and planned tables are reflected",
    "the topological sort is verified over an arbitrary node type and reused for its instances"]
TRUSTED = ["sqlalchemy.delete and Connection.execute: one statement, one table",
           "collections.defaultdict, list, dict, set of CPython"]
