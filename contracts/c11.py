"""C11: which tables are created and emptied, and how created tables look."""
from sqlalchemy.schema import conv
from sqlalchemy.sql.visitors import replacement_traverse

from contracts.meta import *
from contracts.c06 import seq_eq
from contracts.graphs import TOPO
from contracts.c14 import FROM_ENGINE, FROM_SCHEMA, INIT as TABLE_INIT, AS_GRAPH
from contracts.c02 import TRUNCATE, META_TOPO
from subsetter import plan_model as PM
from subsetter import sampler as SA
from pydv import models as M
from pydv.state import PyRaise

# ------------------------------------------------------------ tables, columns, constraints
TSATYPE = TEnt("ColumnType", None)
TSANAME = TEnt("ConstraintName", None)
TSQL = TEnt("CheckText", None)
TOPTS = TEnt("DialectOptions", None)
# an expression of an index: a column, or something made of columns
TC = TEnt("CColumn", None, classes=[sa.Column, sa.UnaryExpression], fields={
    "name": STR, "type": TSATYPE, "nullable": BOOL, "primary_key": BOOL})
TCOLS = TEnt("CColumns", None)
TT = TEnt("CTable", sa.Table, fields={"schema": STR, "name": STR, "cols": TSeq(TC)})
TC.fields.update({"table": TT, "source": TC, "into": TT})
TCOLS.fields["of"] = TT
TEL = TEnt("CElement", sa.ForeignKey, fields={"column": TC})
TCN = TEnt("CConstraint", None, classes=[
    sa.UniqueConstraint, sa.CheckConstraint, sa.ForeignKeyConstraint, sa.PrimaryKeyConstraint],
    fields={"columns": TSeq(TC), "elements": TSeq(TEL), "referred_table": TT, "sqltext": TSQL,
            "name": TSANAME, "on": TT})
TIX = TEnt("CIndex", sa.Index, fields={
    "expressions": TSeq(TC), "columns": TSeq(TC), "unique": BOOL, "dialect_options": TOPTS,
    "dialect_kwargs": TOPTS, "on": TT, "table": TT})
TT.fields.update({"constraints": TSet(TCN), "indexes": TSeq(TIX)})
TCMETA = TEnt("CTableMeta", MD.TableMetadata, fields={"table_obj": TT})
TMDATA = TEnt("CMetaData", sa.MetaData)
TENG11 = TEnt("CEngine", None)
NEW_SCHEMA = Sym(TMDATA, z3.Const("new_schema", TMDATA.sort))
UNIQUE, CHECK, FKEY, PKEY = range(4)

cols_of = z3.Function("columns_collection", TT.sort, TCOLS.sort)
# the table of a schema and name that is made by this run
MADE = z3.Function("made_table", V.STR_S, V.STR_S, TT.sort)
# the plan table's destination name
DEST = z3.Function("destination_name", V.STR_S, V.STR_S)
HAS = z3.Function("has_column", TT.sort, V.STR_S, z3.BoolSort())
REFERS = z3.Function("refers_to_column", TC.sort, TC.sort, z3.BoolSort())
# an attached constraint / index is the copy of a source one
COPY = z3.Function("copy_of_constraint", TCN.sort, TCN.sort, z3.BoolSort())
COPYIX = z3.Function("copy_of_index", TIX.sort, TIX.sort, z3.BoolSort())


def coll(it, v):
    c = Sym(TCOLS, cols_of(v.t))
    it._addfacts([eq(it, it.getattr(c, "of"), v)])
    return c


TT.fields.update({"columns": coll, "c": coll})
TCOLS.iter_ = lambda it, v: it._cont(it.getattr(it.getattr(v, "of"), "cols"))


def coll_get(it, a, kw):
    t = it.getattr(a[0], "of")
    it.oblige("a column of the table", HAS(t.t, V.term(a[1], STR)))
    c = it.make(TC, "column")
    it._addfacts([eq(it, it.getattr(c, "name"), a[1]), eq(it, it.getattr(c, "table"), t),
                  TC.tag(c.t) == 0])
    return c


TCOLS.methods["__getitem__"] = coll_get


def tkey(it, t):
    return VTup([it.getattr(t, "schema"), it.getattr(t, "name")])


def made_at(k):
    return Sym(TT, MADE(k.items[0].t, k.items[1].t))


def is_made(it, t):
    """a table made by this run"""
    k = tkey(it, t)
    return And(t.t == made_at(k).t, it.set_mem(it._cont(it.args._made), k))


def new_column(it, a, kw):
    if set(kw) - {"nullable", "primary_key"} or len(a) != 2:
        raise Unsupported("Column")
    c = it.make(TC, "col")
    pk = to_z3b(it.truth(kw.get("primary_key", False)))
    it._addfacts([eq(it, it.getattr(c, "name"), a[0]), eq(it, it.getattr(c, "type"), a[1]),
                  V.term(it.getattr(c, "primary_key"), BOOL) == pk,
                  V.term(it.getattr(c, "nullable"), BOOL) == (to_z3b(it.truth(
                      kw["nullable"])) if "nullable" in kw else Not(pk))])
    return c


def new_table(it, a, kw):
    if set(kw) - {"schema"}:
        raise Unsupported("Table")
    sch = kw.get("schema")
    if sch is None:
        raise Unsupported("a table without schema")
    k = VTup([Sym(STR, V.term(sch, STR)), Sym(STR, V.term(a[0], STR))])
    it.oblige("the table is not made twice", Not(it.set_mem(it._cont(it.args._made), k)))
    it.oblige("made in the schema this run creates", eq(it, a[1], NEW_SCHEMA))
    t = made_at(k)
    pieces = it.star_pieces(a[2:])
    it._addfacts([eq(it, tkey(it, t), k), seq_eq(it, it.getattr(t, "cols"), VSeq(pieces))])
    it.set_add(it.args._made, k)
    return t


def new_metadata(it, a, kw):
    if a or kw or it._cont(it.args._schemas).pieces:
        raise Unsupported("MetaData")
    it.set_content(it.args._schemas, VSeq([Elem(NEW_SCHEMA)]))
    return NEW_SCHEMA


def constraint(it, kind, kw, allowed):
    if set(kw) - set(allowed):
        raise Unsupported("constraint options")
    x = it.make(TCN, "constraint")
    it._addfacts([TCN.tag(x.t) == kind, Not(it.set_mem(it._cont(it.args._attached), x))])
    if kw.get("name") is not None:
        it._addfacts([eq(it, it.getattr(x, "name"), kw["name"])])
    return x


def new_unique(it, a, kw):
    x = constraint(it, UNIQUE, kw, ["name"])
    it._addfacts([seq_eq(it, it.getattr(x, "columns"), VSeq(it.star_pieces(a)))])
    return x


def new_check(it, a, kw):
    x = constraint(it, CHECK, kw, ["name"])
    it._addfacts([eq(it, it.getattr(x, "sqltext"), a[0])])
    return x


def new_fkey(it, a, kw):
    x = constraint(it, FKEY, kw, ["name", "use_alter"])
    els = it.getattr(x, "elements")
    refs = VSeq(it.iter_pieces(a[1]))
    it._addfacts([seq_eq(it, it.getattr(x, "columns"), VSeq(it.iter_pieces(a[0]))),
                  slen(it, els) == slen(it, refs), idx(it, lambda j: eq(it, it.getattr(at(
                      it, els, j), "column"), at(it, refs, j)), els)])
    return x


def new_index(it, a, kw):
    if set(kw) - {"unique", "dialect_options", "**", "_table"}:
        raise Unsupported("Index options")
    x = it.make(TIX, "index")
    it._addfacts([Not(it.set_mem(it._cont(it.args._indexed), x))])
    u = kw.get("unique", False)
    it._addfacts([seq_eq(it, it.getattr(x, "expressions"), VSeq(it.star_pieces(a[1:]))),
                  eq(it, it.getattr(x, "unique"), u)])
    o = kw.get("**")
    if o is not None:
        it._addfacts([eq(it, it.getattr(x, "dialect_kwargs"), o)])
    if kw.get("_table") is not None:
        attach(it, [kw["_table"], x], {})
    return x


def attach(it, a, kw):
    t, x = a
    it.oblige("attached to a table made by this run", is_made(it, t))
    it.oblige("attached before the table is created", Not(it.set_mem(it._cont(
        it.args._created), tkey(it, t))))
    log = it.args._attached if x.ty is TCN else it.args._indexed
    it.oblige("attached to one table", Not(it.set_mem(it._cont(log), x)))
    it._addfacts([eq(it, it.getattr(x, "on"), t)])
    it.set_add(log, x)
    return None


TT.methods["append_constraint"] = attach


def traverse(it, a, kw):
    """the expression, each column of it replaced by what the function gives for it"""
    e, _, fn = a
    e1, e2 = (it.make(TC, n) for n in ("sub1", "sub2"))
    into = []
    x = it.make(TC, "expression")
    for s in (e1, e2):
        it._addfacts([REFERS(e.t, s.t), TC.tag(s.t) == 0])
        r = it.call(fn, [s], {})
        if not isinstance(r, Sym) or r.ty is not TC:
            it.oblige("every column of an index expression is replaced", V.FALSE)
            return x
        it.oblige("by the column of the same name", eq(it, it.getattr(r, "name"), it.getattr(
            s, "name")))
        into.append(it.getattr(r, "table"))
    it.oblige("all by columns of one table", eq(it, *into))
    other = it.make(TC, "sub3")
    it._addfacts([TC.tag(other.t) != 0])
    if it.call(fn, [other], {}) is not None:
        it.oblige("nothing but columns is replaced", V.FALSE)
    it._addfacts([
        eq(it, it.getattr(x, "into"), into[0]), eq(it, it.getattr(x, "source"), e),
        TC.tag(x.t) == TC.tag(e.t), Implies(TC.tag(e.t) == 0, And(
            eq(it, it.getattr(x, "name"), it.getattr(e, "name")), eq(it, it.getattr(
                x, "table"), into[0])))])
    return x


def create_all(it, a, kw):
    it.oblige("created on the destination", eq(it, kw.get("bind", a[1] if len(
        a) > 1 else None), field(it, it.args.self, "engine")))
    it.set_content(it.args._created, it._cont(it.args._made))
    return None


TMDATA.methods["create_all"] = create_all
tm_of = z3.Function("metadata_of_made", TT.sort, TCMETA.sort)


def table_meta(it, a, kw):
    m = Sym(TCMETA, tm_of(a[0].t))
    it._addfacts([eq(it, it.getattr(m, "table_obj"), a[0])])
    return m


# ------------------------------------------------------------ what is to be
def tables(it, a, which):
    return field(it, field(it, a.self, which), "tables")


def remap(it, a):
    return field(it, a.self, "table_remap")


def parts(n):
    """schema and name of a full name"""
    return VTup([Sym(STR, LEFT(n.t)), Sym(STR, RIGHT(n.t))])


def planned(it, a, p):
    rm = remap(it, a)
    d = Sym(STR, DEST(p.t))
    return And(mem(it, rm, d), eq(it, it.dict_get(it._cont(rm), d), p))


def source(it, a, p):
    """the source table of a plan table"""
    return it.getattr(it.dict_get(it._cont(tables(it, a, "source_meta")), parts(p)), "table_obj")


def there(it, a, p):
    """the destination has the table already"""
    return mem(it, it.ghost["dest"], parts(Sym(STR, DEST(p.t))))


def target(it, a, p):
    """the table's counterpart in the destination"""
    k = parts(Sym(STR, DEST(p.t)))
    have = it.getattr(it.dict_get(it.ghost["dest"], k), "table_obj")
    return Sym(TT, z3.If(there(it, a, p), have.t, made_at(k).t))


def missing(it, a, p):
    return And(planned(it, a, p), Not(there(it, a, p)))


def full(it, t):
    """the full name of a table"""
    return key_name(it, tkey(it, t))


def forall_ent(it, ty, fn, name="x"):
    x, bs = it.placeholder(ty, name)
    return it.forall(bs, lambda: to_z3b(fn(x)))


def same_names(it, xs, cs, t, via=None):
    """the columns of table t with the same names, in order"""
    def same(j):
        x, c = at(it, xs, j), at(it, cs, j)
        if via:
            x, c = it.getattr(x, via), it.getattr(c, via)
        return And(eq(it, it.getattr(x, "name"), it.getattr(c, "name")), eq(it, it.getattr(
            x, "table"), t))
    return And(slen(it, xs) == slen(it, cs), idx(it, same, cs))


def copy_constraint(it, a, x, c):
    on, kind = it.getattr(x, "on"), TCN.tag(c.t)
    ref = full(it, it.getattr(c, "referred_table"))
    cols = same_names(it, it.getattr(x, "columns"), it.getattr(c, "columns"), on)
    return And(
        TCN.tag(x.t) == kind,
        Implies(Or(kind == UNIQUE, kind == FKEY), cols),
        Implies(kind == CHECK, eq(it, it.getattr(x, "sqltext"), it.getattr(c, "sqltext"))),
        Implies(kind == FKEY, And(
            eq(it, it.getattr(x, "name"), it.getattr(c, "name")), same_names(
                it, it.getattr(x, "elements"), it.getattr(c, "elements"), target(
                    it, a, ref), "column"))))


def copy_index(it, a, x, c):
    on = it.getattr(x, "on")
    xs, cs = it.getattr(x, "expressions"), it.getattr(c, "expressions")

    def same(j):
        x, c = at(it, xs, j), at(it, cs, j)
        return And(TC.tag(x.t) == TC.tag(c.t), z3.If(TC.tag(c.t) == 0, And(
            eq(it, it.getattr(x, "name"), it.getattr(c, "name")),
            eq(it, it.getattr(x, "table"), on)), And(eq(it, it.getattr(
                x, "source"), c), eq(it, it.getattr(x, "into"), on))))
    return And(eq(it, it.getattr(x, "unique"), it.getattr(c, "unique")), eq(
        it, it.getattr(x, "dialect_kwargs"), it.getattr(c, "dialect_kwargs")),
        slen(it, xs) == slen(it, cs), idx(it, same, cs))


def wanted(it, a, c):
    """constraints that are copied: foreign keys only between planned tables"""
    k = TCN.tag(c.t)
    return Or(k == UNIQUE, k == CHECK, And(k == FKEY, planned(it, a, full(
        it, it.getattr(c, "referred_table")))))


def like_source(it, a, p, t=None):
    """the table made for plan table p has the columns of its source"""
    t = t or target(it, a, p)
    s = source(it, a, p)
    xs, cs = it.getattr(t, "cols"), it.getattr(s, "cols")
    return And(
        eq(it, tkey(it, t), parts(Sym(STR, DEST(p.t)))), slen(it, xs) == slen(it, cs),
        idx(it, lambda j: And(*[eq(it, it.getattr(at(it, xs, j), f), it.getattr(
            at(it, cs, j), f)) for f in ("name", "type", "nullable", "primary_key")]), cs))


# ------------------------------------------------------------ create
def create_setup(it):
    meta = lambda n: it.alloc(VInst(MD.DatabaseMetadata, {
        "tables": it.alloc(it.make(TDict(KEY, TCMETA), n))}))
    dest = meta("dest_tables")
    me = it.alloc(VInst(SA.DatabaseOutput, {
        "source_meta": meta("source_tables"), "meta": dest, "engine": it.make(TENG11, "engine"),
        "table_remap": it.alloc(it.make(TDict(STR, STR), "table_remap"))}))
    it.ghost["dest"] = it._cont(field(it, dest, "tables"))
    return {"self": me, "_made": it.alloc(VSet(KEY)), "_created": it.alloc(VSet(KEY)),
            "_attached": it.alloc(VSet(TCN)), "_indexed": it.alloc(VSet(TIX)),
            "_schemas": it.alloc(VSeq([]))}


def create_req(it, a):
    src, dst = tables(it, a, "source_meta"), it.ghost["dest"]
    rm = remap(it, a)
    obj = lambda ts, k: it.getattr(it.dict_get(it._cont(ts), k), "table_obj")
    d = {}
    for nm, ts in (("source", src), ("destination", dst)):
        d[f"{nm} tables are keyed by their schema and name"] = forall_ty(
            it, KEY, lambda k: Implies(mem(it, ts, k), And(eq(it, tkey(it, obj(
                ts, k)), k), nodot(k.items[0].t), Not(eq(it, obj(ts, k), made_at(k))))))
    d["each plan table has one destination"] = forall_ty(it, STR, lambda n: Implies(
        mem(it, rm, n), And(DEST(it.dict_get(it._cont(rm), n).t) == n.t, hasdot(n.t))))
    d["plan tables are tables of the source"] = forall_ty(it, STR, lambda p: Implies(
        planned(it, a, p), And(hasdot(p.t), mem(it, src, parts(p)))))
    # definition
    d["columns of a table"] = forall_ent(it, TT, lambda t: forall_ty(it, STR, lambda n: HAS(
        t.t, n.t) == exidx(it, lambda j: eq(it, it.getattr(at(it, it.getattr(
            t, "cols"), j), "name"), n), it.getattr(t, "cols"))))
    d["constraints are on columns of their tables"] = forall_ty(it, KEY, lambda k: Implies(
        mem(it, src, k), forall_ent(it, TCN, lambda c: Implies(mem(it, it.getattr(
            obj(src, k), "constraints"), c), idx(it, lambda j: And(
                eq(it, it.getattr(at(it, it.getattr(c, "columns"), j), "table"), obj(src, k)),
                HAS(obj(src, k).t, it.getattr(at(it, it.getattr(c, "columns"), j), "name").t)),
                it.getattr(c, "columns"))))))

    def refers_to(c):
        rt = it.getattr(c, "referred_table")
        els = it.getattr(c, "elements")
        col = lambda j: it.getattr(at(it, els, j), "column")
        return And(mem(it, src, tkey(it, rt)), eq(it, obj(src, tkey(it, rt)), rt), idx(
            it, lambda j: And(eq(it, it.getattr(col(j), "table"), rt), HAS(
                rt.t, it.getattr(col(j), "name").t)), els))
    d["foreign keys refer to columns of source tables"] = forall_ent(it, TCN, lambda c: Implies(
        TCN.tag(c.t) == FKEY, refers_to(c)))

    def own(k, x):
        es = it.getattr(x, "expressions")
        t = obj(src, k)
        return idx(it, lambda j: forall_ent(it, TC, lambda s: And(
            Implies(REFERS(at(it, es, j).t, s.t), HAS(t.t, it.getattr(s, "name").t)),
            Implies(TC.tag(at(it, es, j).t) == 0, HAS(t.t, it.getattr(at(
                it, es, j), "name").t)))), es)
    d["indexes are on columns of their tables"] = forall_ty(it, KEY, lambda k: Implies(
        mem(it, src, k), idx(it, lambda j: own(k, at(it, it.getattr(
            obj(src, k), "indexes"), j)), it.getattr(obj(src, k), "indexes"))))
    d["destination tables have their source's columns"] = forall_ty(it, STR, lambda p: Implies(
        And(planned(it, a, p), there(it, a, p)), forall_ty(it, STR, lambda n: Implies(
            HAS(source(it, a, p).t, n.t), HAS(target(it, a, p).t, n.t)))))
    # definitions
    d["copy of a constraint"] = forall_ent(it, TCN, lambda x: forall_ent(
        it, TCN, lambda c: COPY(x.t, c.t) == copy_constraint(it, a, x, c)))
    d["copy of an index"] = forall_ent(it, TIX, lambda x: forall_ent(
        it, TIX, lambda c: COPYIX(x.t, c.t) == copy_index(it, a, x, c)))
    return d


def origin(it, a, t):
    """the plan table a destination table stands for"""
    return it.dict_get(it._cont(remap(it, a)), full(it, t))


def attached_for(it, a, p, t=None):
    """every constraint of plan table p has its copy"""
    t = t or target(it, a, p)
    return forall_ent(it, TCN, lambda c: Implies(And(mem(it, it.getattr(source(
        it, a, p), "constraints"), c), wanted(it, a, c)), has_copy(it, a, c, t)))


def has_copy(it, a, c, t):
    return exists_ty(it, TCN, lambda x: And(it.set_mem(it._cont(a._attached), x), eq(
        it, it.getattr(x, "on"), t), COPY(x.t, c.t)))


def has_index(it, a, c, t):
    return exists_ty(it, TIX, lambda x: And(it.set_mem(it._cont(a._indexed), x), eq(
        it, it.getattr(x, "on"), t), COPYIX(x.t, c.t)))


def indexed_for(it, a, p, t=None, upto=None):
    t = t or target(it, a, p)
    ixs = it.getattr(source(it, a, p), "indexes")
    return forall_int(it, lambda j: has_index(it, a, at(it, ixs, j), t), 0, slen(
        it, ixs) if upto is None else upto)


def only_copies(it, a, done=None):
    """nothing is attached but copies, to tables made"""
    def on(x):
        t = it.getattr(x, "on")
        p = origin(it, a, t)
        ok = And(mem(it, remap(it, a), full(it, t)), missing(it, a, p), eq(it, t, target(
            it, a, p)))
        return p, And(ok, done(p)) if done else ok

    def con(x):
        p, ok = on(x)
        return And(ok, exists_ty(it, TCN, lambda c: And(mem(it, it.getattr(source(
            it, a, p), "constraints"), c), wanted(it, a, c), COPY(x.t, c.t))))

    def ind(x):
        p, ok = on(x)
        ixs = it.getattr(source(it, a, p), "indexes")
        return And(ok, exidx(it, lambda j: COPYIX(x.t, at(it, ixs, j).t), ixs))
    return {
        "constraints are copies": forall_ent(it, TCN, lambda x: Implies(it.set_mem(it._cont(
            a._attached), x), con(x))),
        "indexes are copies": forall_ent(it, TIX, lambda x: Implies(it.set_mem(it._cont(
            a._indexed), x), ind(x))),
    }


def made_exactly(it, a, cond):
    return forall_ty(it, KEY, lambda k: it.set_mem(it._cont(a._made), k) == cond(k))


def dest_of(it, a, k):
    """k is the key of the destination of a plan table that is missing"""
    n = key_name(it, k)
    return And(mem(it, remap(it, a), n), eq(it, parts(n), k), missing(it, a, it.dict_get(
        it._cont(remap(it, a)), n)))


def create_post(it, a, r):
    ts = tables(it, a, "meta")
    old_ts = it.ghost["dest"]
    obj = lambda d, k: it.getattr(it.dict_get(it._cont(d), k), "table_obj")
    d = {
        "exactly the missing planned tables are made": made_exactly(it, a, lambda k: dest_of(
            it, a, k)),
        "and all of them are created": forall_ty(it, KEY, lambda k: it.set_mem(it._cont(
            a._created), k) == it.set_mem(it._cont(a._made), k)),
        "with the columns, types, nullability and primary key of the source": forall_ty(
            it, STR, lambda p: Implies(missing(it, a, p), like_source(it, a, p))),
        "with its constraints and foreign keys": forall_ty(it, STR, lambda p: Implies(
            missing(it, a, p), attached_for(it, a, p))),
        "with its indexes": forall_ty(it, STR, lambda p: Implies(missing(it, a, p), indexed_for(
            it, a, p))),
        "the destination's tables are known": forall_ty(it, KEY, lambda k: mem(it, ts, k) == Or(
            mem(it, old_ts, k), it.set_mem(it._cont(a._made), k))),
        "existing tables stay": forall_ty(it, KEY, lambda k: Implies(mem(it, old_ts, k), eq(
            it, obj(ts, k), obj(old_ts, k)))),
        "new tables are the ones made": forall_ty(it, KEY, lambda k: Implies(it.set_mem(it._cont(
            a._made), k), eq(it, obj(ts, k), made_at(k)))),
    }
    d.update(only_copies(it, a))
    return d


def local_map(it):
    return it.lookup("table_obj_map")


def map_inv(it, old, D):
    a, m, tc = it.args, local_map(it), it.lookup("tables_created")
    done = lambda p: it.set_mem(D, Sym(STR, DEST(p.t)))
    get = lambda p: it.dict_get(it._cont(m), p)
    d = {}
    if empty_dict(it, m):
        d["mapped so far"] = forall_ty(it, STR, lambda p: Not(And(planned(it, a, p), done(p))))
    else:
        d["mapped so far"] = forall_ty(it, STR, lambda p: mem(it, m, p) == And(
            planned(it, a, p), done(p)))
        d["to its destination"] = forall_ty(it, STR, lambda p: Implies(mem(it, m, p), eq(
            it, get(p), target(it, a, p))))
    d["made so far"] = made_exactly(it, a, lambda k: And(dest_of(it, a, k), it.set_mem(
        D, key_name(it, k))))
    d["remembered as made"] = forall_ent(it, TT, lambda t: mem(it, tc, t) == is_made(it, t))
    d["made like the source"] = forall_ty(it, STR, lambda p: Implies(And(missing(
        it, a, p), done(p)), like_source(it, a, p)))
    return d


def tables_inv(it, old, D):
    a = it.args
    d = {
        "constraints copied so far": forall_ty(it, STR, lambda p: Implies(And(
            missing(it, a, p), it.set_mem(D, p)), attached_for(it, a, p))),
        "indexes copied so far": forall_ty(it, STR, lambda p: Implies(And(
            missing(it, a, p), it.set_mem(D, p)), indexed_for(it, a, p))),
    }
    d.update(only_copies(it, a, lambda p: it.set_mem(D, p)))
    return d


def grown(it, a, old, name, ty):
    """what was attached stays"""
    ref = getattr(a, name)
    was = at_state(it, old, lambda: it._cont(ref))
    return forall_ent(it, ty, lambda x: Implies(it.set_mem(was, x), it.set_mem(it._cont(
        ref), x))), was


def constraints_inv(it, old, D):
    a, t, p = it.args, it.lookup("remapped_table_obj"), it.lookup("table")
    g, was = grown(it, a, old, "_attached", TCN)
    return {
        "kept": g,
        "copied so far": forall_ent(it, TCN, lambda c: Implies(And(it.set_mem(D, c), wanted(
            it, a, c)), has_copy(it, a, c, t))),
        "only copies added": forall_ent(it, TCN, lambda x: Implies(And(it.set_mem(it._cont(
            a._attached), x), Not(it.set_mem(was, x))), And(eq(it, it.getattr(
                x, "on"), t), exists_ty(it, TCN, lambda c: And(it.set_mem(D, c), wanted(
                    it, a, c), COPY(x.t, c.t)))))),
    }


def indexes_inv(it, old, i):
    a, t, p = it.args, it.lookup("remapped_table_obj"), it.lookup("table")
    g, was = grown(it, a, old, "_indexed", TIX)
    ixs = it.getattr(source(it, a, p), "indexes")
    return {
        "kept": g,
        "copied so far": indexed_for(it, a, p, t, i.t),
        "only copies added": forall_ent(it, TIX, lambda x: Implies(And(it.set_mem(it._cont(
            a._indexed), x), Not(it.set_mem(was, x))), And(eq(it, it.getattr(
                x, "on"), t), exists_int(it, lambda j: COPYIX(x.t, at(
                    it, ixs, j).t), 0, i.t)))),
    }


def track_inv(it, old, D):
    a = it.args
    ts, old_ts = tables(it, a, "meta"), it.ghost["dest"]
    obj = lambda d, k: it.getattr(it.dict_get(it._cont(d), k), "table_obj")
    new = lambda k: And(it.set_mem(it._cont(a._made), k), it.set_mem(D, made_at(k)))
    return {
        "known so far": forall_ty(it, KEY, lambda k: mem(it, ts, k) == Or(
            mem(it, old_ts, k), new(k))),
        "existing": forall_ty(it, KEY, lambda k: Implies(And(mem(it, old_ts, k), Not(it.set_mem(
            it._cont(a._made), k))), eq(it, obj(ts, k), obj(old_ts, k)))),
        "new": forall_ty(it, KEY, lambda k: Implies(new(k), eq(it, obj(ts, k), made_at(k)))),
    }


CREATE = Contract(
    "subsetter.sampler:DatabaseOutput.create", setup=create_setup, requires=create_req,
    ensures=create_post,
    models={sa.MetaData: new_metadata, sa.Table: new_table, sa.Column: new_column,
            sa.UniqueConstraint: new_unique, sa.CheckConstraint: new_check,
            sa.ForeignKeyConstraint: new_fkey, sa.Index: new_index, conv: lambda it, a, kw: a[0],
            replacement_traverse: traverse, MD.TableMetadata: table_meta},
    loops={
        0: LoopSpec(name="tables", done="keys", inv=map_inv, types={
            "remapped_table": STR, "table": STR, "remap_schema": STR, "remap_table": STR},
            cells={"table_obj_map": TDict(STR, TT), "tables_created": TSet(TT),
                   (lambda it: it.args._made): TSet(KEY)}),
        1: LoopSpec(name="parts", done="keys", inv=tables_inv, types={},
                    cells={(lambda it: it.args._attached): TSet(TCN),
                           (lambda it: it.args._indexed): TSet(TIX)}),
        2: LoopSpec(name="constraints", done="set", inv=constraints_inv, types={},
                    cells={(lambda it: it.args._attached): TSet(TCN)}),
        3: LoopSpec(name="indexes", done="index", inv=indexes_inv, types={},
                    cells={(lambda it: it.args._indexed): TSet(TIX)}),
        4: LoopSpec(name="track", done="set", inv=track_inv, types={},
                    cells={(lambda it: tables(it, it.args, "meta")): TDict(KEY, TCMETA)}),
    })

# ------------------------------------------------------------ the destination's names
TPATTERN = TEnt("RemapPattern", None, fields={"search": STR, "replace": STR})
sub = z3.Function("re_sub", V.STR_S, V.STR_S, V.STR_S, V.STR_S)
# the name after the first patterns
renamed = z3.Function("renamed", z3.IntSort(), V.STR_S, V.STR_S)


def re_sub(it, a, kw):
    if len(a) != 3 or kw:
        raise Unsupported("re.sub")
    return Sym(STR, sub(*(V.term(x, STR) for x in a)))


def patterns(it, a):
    return field(it, a.self, "remap")


def rename_def(it, a):
    """definition: the patterns applied one after the other"""
    ps = patterns(it, a)
    at_ = lambda i, f: it.getattr(at(it, ps, i), f).t
    return {"names after some patterns": forall_ty(it, STR, lambda s: And(
        renamed(0, s.t) == s.t, forall_int(it, lambda i: renamed(i + 1, s.t) == sub(at_(
            i, "search"), at_(i, "replace"), renamed(i, s.t)), 0, slen(it, ps))))}


def new_name(it, a, s):
    return renamed(slen(it, patterns(it, a)), s)


def rt_setup(it):
    return {"self": it.alloc(VInst(SA.DatabaseOutput, {"remap": it.alloc(it.make(
        TSeq(TPATTERN), "remap"))})), "schema": it.make(STR, "schema"),
        "table_name": it.make(STR, "table_name")}


def full_of(a):
    return DOT(V.term(a.schema, STR), V.term(a.table_name, STR))


REMAP = Contract(
    "subsetter.sampler:DatabaseOutput._remap_table", modular=True, setup=rt_setup, returns=KEY,
    requires=rename_def, ensures=lambda it, a, r: {"all patterns applied in order": And(
        key_name(it, r).t == new_name(it, a, full_of(a)), nodot(r.items[0].t))},
    raises={ValueError: lambda it, a, e: {"only for a name without a dot": Not(hasdot(new_name(
        it, a, full_of(a))))}}, models={SA.re.sub: re_sub},
    loops={0: LoopSpec(name="patterns", done="index", types={"table": STR}, inv=lambda it, old, i: {
        "patterns applied so far": V.term(it.lookup("table"), STR) == renamed(i.t, full_of(
            it.args))})})

TENGINE11 = TEnt("DestEngine", None)
THEMETA = TEnt("DestMeta", None)
TCONF = TEnt("OutConfig", SA.DatabaseOutputConfig, fields={
    "remap": TSeq(TPATTERN), "conflict_strategy": STR, "merge": BOOL})
TPLAN11 = TEnt("ThePlan", PM.SubsetPlan, fields={"passthrough": TSeq(STR)})
TQUERY = TEnt("PlanQuery", None)
TPLAN11.fields["queries"] = TDict(STR, TQUERY)
TSRCMETA = TEnt("SourceMeta", None)


def engine_of(it, a, kw):
    if kw != {"env_prefix": "SUBSET_DESTINATION_"} or len(a) != 1:
        it.oblige("the engine of the destination", V.FALSE)
    return Sym(TENGINE11, z3.Const("destination_engine", TENGINE11.sort))


TCONF.methods["database_engine"] = engine_of


def reflect(it, a, kw):
    """contract of from_engine: the tables asked for, and those that refer to them"""
    names = ("engine", "select")
    args = {**dict(zip(names, a[1:])), **kw}
    me = it.args.self
    it.oblige("the destination is read", eq(it, args["engine"], Sym(
        TENGINE11, z3.Const("destination_engine", TENGINE11.sort))))
    sel, rm = args["select"], field(it, me, "table_remap")
    it.oblige("for the destinations of the plan tables", forall_ty(it, STR, lambda n: exidx(
        it, lambda j: eq(it, at(it, sel, j), n), sel) == (V.FALSE if empty_dict(
            it, rm) else mem(it, rm, n))))
    it.oblige("with the tables that refer to them", And(to_z3b(it.truth(args.get(
        "close_backward", False))), Not(to_z3b(it.truth(args.get("close_forward", False))))))
    return VTup([Sym(THEMETA, z3.Const("destination", THEMETA.sort)), it.make(
        TSeq(KEY), "additional")])


def oi_setup(it):
    return {"self": it.alloc(VInst(SA.DatabaseOutput, {})), "config": it.make(TCONF, "config"),
            "plan": it.make(TPLAN11, "plan"), "source_meta": it.make(TSRCMETA, "source_meta")}


def conf_rename(it, a):
    """definition, over the patterns of the configuration"""
    ps = it.getattr(a.config, "remap")
    at_ = lambda i, f: it.getattr(at(it, ps, i), f).t
    return {"names after some patterns": forall_ty(it, STR, lambda s: And(
        renamed(0, s.t) == s.t, forall_int(it, lambda i: renamed(i + 1, s.t) == sub(at_(
            i, "search"), at_(i, "replace"), renamed(i, s.t)), 0, slen(it, ps))))}


def oi_req(it, a):
    d = conf_rename(it, a)
    qs = it.getattr(a.plan, "queries")
    d["plan tables have full names"] = forall_ty(it, STR, lambda p: Implies(
        mem(it, qs, p), hasdot(p.t)))
    return d


def conf_name(it, a, p):
    return renamed(slen(it, it.getattr(a.config, "remap")), p)


def oi_inv(it, old, D):
    a = it.args
    rm = field(it, a.self, "table_remap")
    if empty_dict(it, rm):
        return {}
    qs = it.getattr(a.plan, "queries")
    g = lambda n: it.dict_get(it._cont(rm), n)
    return {
        "names given": forall_ty(it, STR, lambda p: Implies(it.set_mem(D, p), And(
            mem(it, rm, Sym(STR, conf_name(it, a, p.t))), eq(it, g(Sym(STR, conf_name(
                it, a, p.t))), p)))),
        "to plan tables": forall_ty(it, STR, lambda n: Implies(mem(it, rm, n), And(
            it.set_mem(D, g(n)), conf_name(it, a, g(n).t) == n.t, hasdot(n.t)))),
    }


def oi_post(it, a, r):
    me = a.self
    qs = it.getattr(a.plan, "queries")
    rm = field(it, me, "table_remap")
    dom = lambda n: V.FALSE if empty_dict(it, rm) else mem(it, rm, n)
    get = lambda n: it.dict_get(it._cont(rm), n)
    return {
        "each plan table has its destination": forall_ty(it, STR, lambda p: Implies(mem(
            it, qs, p), And(dom(Sym(STR, conf_name(it, a, p.t))), V.FALSE if empty_dict(
                it, rm) else eq(it, get(Sym(STR, conf_name(it, a, p.t))), p)))),
        "and nothing else": V.TRUE if empty_dict(it, rm) else forall_ty(it, STR, lambda n: Implies(
            dom(n), And(mem(it, qs, get(n)), conf_name(it, a, get(n).t) == n.t))),
        "no two share one": forall_ty(it, STR, lambda p: forall_ty(it, STR, lambda q: Implies(
            And(mem(it, qs, p), mem(it, qs, q), conf_name(it, a, p.t) == conf_name(
                it, a, q.t)), eq(it, p, q)))),
        "strategy and merging of the configuration": And(
            eq(it, field(it, me, "conflict_strategy"), it.getattr(
                a.config, "conflict_strategy")),
            eq(it, field(it, me, "merge"), it.getattr(a.config, "merge"))),
        "the tables of plan and source": And(eq(it, field(it, me, "plan"), a.plan), eq(
            it, field(it, me, "source_meta"), a.source_meta)),
        "passthrough tables of the plan": forall_ty(it, STR, lambda p: mem(it, field(
            it, me, "passthrough_tables"), p) == mem(it, it.getattr(a.plan, "passthrough"), p)),
        "no offsets yet": z3.BoolVal(empty_dict(it, field(it, me, "table_offsets"))),
    }


def oi_raise(it, a, e):
    qs = it.getattr(a.plan, "queries")
    name = lambda p: conf_name(it, a, p.t)
    return {"two plan tables with one name, or a name without a dot": Or(
        exists_ty(it, STR, lambda p: And(mem(it, qs, p), Not(hasdot(name(p))))),
        exists_ty(it, STR, lambda p: exists_ty(it, STR, lambda q: And(
            mem(it, qs, p), mem(it, qs, q), Not(eq(it, p, q)), name(p) == name(q)))))}


OUT_INIT = Contract(
    "subsetter.sampler:DatabaseOutput.__init__", setup=oi_setup, requires=oi_req,
    ensures=oi_post, raises={ValueError: oi_raise}, covers=("return", "ValueError"),
    models={MD.DatabaseMetadata.from_engine.__func__: reflect, (str, "join"): lambda it, a, kw: (
        join_dot(it, a))},
    loops={0: LoopSpec(name="plan tables", done="set", types={"table": STR, "remapped_table": STR},
                       cells={(lambda it: field(it, it.args.self, "table_remap")): TDict(
                           STR, STR)}, inv=oi_inv)})


def join_dot(it, a):
    ps = it.iter_pieces(a[1])
    if a[0] != "." or len(ps) != 2 or not all(isinstance(p, Elem) for p in ps):
        raise Unsupported("str.join")
    return Sym(STR, DOT(V.term(ps[0].v, STR), V.term(ps[1].v, STR)))


# ------------------------------------------------------------ when they are called
TOUT = TEnt("Output", None)
TSAMPLE = TEnt("SampleConfig", None, fields={"infer_foreign_keys": STR, "output": TCONF})
TSENGINE, TSCONN = TEnt("SourceEngine", None), TEnt("SourceConn", None)
TSENGINE.methods.update({"execution_options": lambda it, a, kw: a[0],
                         "connect": lambda it, a, kw: it.make(TSCONN, "conn"),
                         "begin": lambda it, a, kw: it.make(TSCONN, "conn")})
TSCONN.methods.update({"__enter__": lambda it, a, kw: a[0], "__exit__": lambda it, a, kw: None,
                       "execution_options": lambda it, a, kw: a[0]})
THEOUT = Sym(TOUT, z3.Const("the_output", TOUT.sort))
TSMETA = TEnt("SampledMeta", None)
TVALUE = TEnt("Handed", None)


def event(name, *args, result=None):
    """the call is recorded with what it is given"""
    def model(it, a, kw):
        log = it.args._log
        for n, x in zip(args, a[1:]):
            if n is not None:
                it.oblige(f"{name} of the right {n}", eq(it, x, handed(it, n)))
        if len(a) - 1 != len(args) or kw and name != "infer":
            raise Unsupported(f"call of {name}")
        if name == "infer":
            it.oblige("inferring all only when configured", V.term(it.coerce_bool(kw[
                "infer_all"]) if hasattr(it, "coerce_bool") else kw["infer_all"], BOOL) == eq(
                it, it.getattr(field(it, it.args.self, "config"), "infer_foreign_keys"), "all"))
        it.set_content(log, VSeq([*it._cont(log).pieces, Elem(name)]))
        return result and handed(it, result)
    return model


def handed(it, n):
    if n == "plan":
        return it.args.plan
    if n == "output":
        return THEOUT
    if n == "config":
        return it.getattr(field(it, it.args.self, "config"), "output")
    return Sym(TSMETA if n == "meta" else TVALUE, z3.Const(
        f"handed_{n}", (TSMETA if n == "meta" else TVALUE).sort))


for nm, res in (("create", None), ("truncate", None), ("prepare", None),
                ("insert_order", "order")):
    TOUT.methods[nm] = event(nm, result=res)
TSMETA.methods["infer_missing_foreign_keys"] = event("infer")


def reflect_source(it, a, kw):
    if kw or len(a) != 3:
        raise Unsupported("from_engine")
    it.oblige("the source is read", eq(it, a[1], field(it, it.args.self, "source_engine")))
    qs = it.getattr(it.args.plan, "queries")
    it.oblige("for the plan tables", forall_ty(it, STR, lambda n: mem(it, qs, n) == exidx(
        it, lambda j: eq(it, at(it, a[2], j), n), a[2])))
    return VTup([handed(it, "meta"), it.make(TSeq(KEY), "more")])


ORDER = ["validate", "multipliers", "output", "create", "insert_order", "truncate", "prepare",
         "compact", "materialize", "copy"]
BEFORE = [("infer", "multipliers"), ("infer", "output"), ("infer", "compact"),
          ("validate", "create"), ("validate", "truncate"), ("validate", "prepare"),
          ("validate", "copy"), ("multipliers", "create"), ("multipliers", "truncate"),
          ("create", "insert_order"), ("create", "truncate"), ("create", "prepare"),
          ("truncate", "prepare"), ("truncate", "copy"), ("prepare", "copy"),
          ("compact", "materialize"), ("materialize", "copy")]


def sm_setup(it):
    me = it.alloc(VInst(SA.Sampler, {
        "config": it.make(TSAMPLE, "config"), "source_engine": it.make(TSENGINE, "engine")}))
    return {"self": me, "plan": it.make(TPLAN11, "plan"), "truncate": it.make(BOOL, "truncate"),
            "create": it.make(BOOL, "create"), "_log": it.alloc(VSeq([]))}


def sm_post(it, a, r):
    ev = [e for e in V.all_elems(it._cont(a._log).pieces)]
    flag = {"create": V.term(a.create, BOOL), "truncate": V.term(a.truncate, BOOL),
            "infer": Not(eq(it, it.getattr(field(it, a.self, "config"),
                                           "infer_foreign_keys"), "none"))}
    at_ = lambda n: ev.index(n) if n in ev else None
    wrong = [f"{x} before {y}" for x, y in BEFORE if at_(x) is not None and at_(
        y) is not None and at_(x) > at_(y)]
    d = {f"{n} exactly when asked": flag[n] == z3.BoolVal(n in ev) for n in flag}
    d["each step once"] = z3.BoolVal(len(set(ev)) == len(ev) and set(ORDER) <= set(ev) | set(flag))
    for x, y in BEFORE:
        d[f"{x} before {y}"] = z3.BoolVal(f"{x} before {y}" not in wrong)
    d["passthrough tables of the plan"] = forall_ty(it, STR, lambda p: mem(it, field(
        it, a.self, "passthrough_tables"), p) == mem(it, it.getattr(a.plan, "passthrough"), p))
    return d


SAMPLE = Contract(
    "subsetter.sampler:Sampler.sample", setup=sm_setup, ensures=sm_post, fork=("",),
    models={MD.DatabaseMetadata.from_engine.__func__: reflect_source,
            SA.SamplerOutput.from_config: lambda it, a, kw: event(
                "output", "config", "plan", "meta", result="output")(it, [None, *a], kw),
            SA.Sampler._validate_filters: event("validate", "meta"),
            SA.Sampler._get_multiplied_columns: event("multipliers", "meta", "plan",
                                                      result="multipliers"),
            SA.Sampler._get_compact_columns: event("compact", "meta", result="compact"),
            SA.Sampler._materialize_tables: event("materialize", "meta", None, "plan"),
            SA.Sampler._copy_results: event("copy", "output", None, "meta", "plan", "order",
                                            "multipliers")})

# ------------------------------------------------------------ which output
TANYCONF = TEnt("AnyOutConfig", None, classes=[SA.DirectoryOutputConfig, SA.DatabaseOutputConfig,
                                               SA.SamplerConfig])


def output_of(k):
    def model(it, a, kw):
        if kw or len(a) != 3:
            raise Unsupported("output")
        g = it.args
        it.oblige("made from what is given", And(eq(it, a[0], g.config), eq(it, a[1], g.plan), eq(
            it, a[2], g.source_meta)))
        return Sym(TOUT, z3.Const(f"output_{k}", TOUT.sort))
    return model


def fc_post(it, a, r):
    return {f"{n} output for {n} configuration": Implies(TANYCONF.tag(a.config.t) == k, eq(
        it, r, Sym(TOUT, z3.Const(f"output_{k}", TOUT.sort)))) for k, n in enumerate((
            "directory", "database"))}


FROM_CONFIG = Contract(
    "subsetter.sampler:SamplerOutput.from_config", setup=lambda it: {
        "config": it.make(TANYCONF, "config"), "plan": it.make(TPLAN11, "plan"),
        "source_meta": it.make(TSRCMETA, "meta")}, ensures=fc_post,
    raises={RuntimeError: lambda it, a, e: {"only for neither": And(
        TANYCONF.tag(a.config.t) != 0, TANYCONF.tag(a.config.t) != 1)}},
    models={SA.DirectoryOutput: output_of(0), SA.DatabaseOutput: output_of(1)})

MODELS = NAME_MODELS
AXIOMS = [name_axioms]
CONTRACTS = [CREATE, REMAP, OUT_INIT, SAMPLE, FROM_CONFIG, TRUNCATE, META_TOPO, FROM_ENGINE]
ALL = [PARSE, TOPO, META_TOPO, AS_GRAPH, REMAP]
ASSUMPTIONS = [
    "SQLAlchemy reflection describes tables faithfully: constraints and indexes are on columns of "
    "their tables, foreign keys refer to columns of reflected tables",
    "schema names have no dot; the plan names each table once and its tables are in the source "
    "(DatabaseOutput.__init__ is proved to refuse two plan tables with one destination)",
    "a table the destination already has has the columns of its source that keys refer to",
    "MetaData.create_all issues the statements for the tables of that MetaData, with what is "
    "attached to them, and touches no other table",
    "re.sub is a function of pattern, replacement and text",
    "column types, options of constraints beyond those named in the property (names, deferral, "
    "cascades), server defaults are not covered",
    "DELETE without condition empties its table"]
TRUSTED = ["sqlalchemy Table, Column, constraints, Index, MetaData.create_all, replacement_traverse, "
           "delete, inspect, reflect", "fnmatch.fnmatch, re.sub"]
