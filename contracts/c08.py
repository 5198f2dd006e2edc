"""C08: merging."""
from contracts.outputs import *

# ------------------------------------------------------------ by how much keys are shifted
TQUERY = TEnt("Query", None)
TPLAN = TEnt("Plan", None, fields={"queries": TDict(STR, TQUERY)})
# the largest value of a column of a destination table, if it has any
has_max = z3.Function("has_max", TOBJ.sort, V.STR_S, z3.BoolSort())
max_of = z3.Function("max_of", TOBJ.sort, V.STR_S, z3.IntSort())
TMAX = TEnt("MaxOf", None, fields={"col": TDCOL})
TSELMAX = TEnt("SelectMax", None, fields={"col": TDCOL})


def sql_max(it, a, kw):
    m = it.make(TMAX, "max")
    it._addfacts([eq(it, it.getattr(m, "col"), a[0])])
    return m


def select_max(it, a, kw):
    s = it.make(TSELMAX, "select")
    it._addfacts([eq(it, it.getattr(s, "col"), it.getattr(a[0], "col"))])
    return s


def scalar(it, a, kw):
    c = it.getattr(a[1], "col")
    ob, name = it.getattr(c, "of").t, V.term(it.getattr(c, "name"), STR)
    return SymOpt(Not(has_max(ob, name)), Sym(INT, max_of(ob, name)))


TPCONN = TEnt("PrepareConn", None, methods={
    "__enter__": lambda it, a, kw: a[0], "__exit__": lambda it, a, kw: None, "scalar": scalar})
TPENGINE = TEnt("PrepareEngine", None, methods={
    "connect": lambda it, a, kw: it.make(TPCONN, "conn")})


def prep_setup(it):
    column_facts(it)
    meta = make_meta(it)
    src = it.alloc(VInst(MD.DatabaseMetadata, {"tables": it.alloc(it.make(TTABLES, "source"))}))
    me = it.alloc(VInst(SA.DatabaseOutput, {
        "meta": meta, "source_meta": src, "engine": it.make(TPENGINE, "engine"),
        "merge": it.make(BOOL, "merge"), "plan": it.make(TPLAN, "plan"),
        "passthrough_tables": it.alloc(it.make(TSet(STR), "passthrough")),
        "table_offsets": it.alloc(it.make(TDict(KEY, TDict(STR, INT)), "offsets"))}))
    return {"self": me}


def offsets(it):
    return field(it, it.args.self, "table_offsets")


def queries(it):
    return it.getattr(field(it, it.args.self, "plan"), "queries")


def live(it, n):
    return And(mem(it, queries(it), n), Not(mem(it, field(
        it, it.args.self, "passthrough_tables"), n)))


def dest(it, n):
    return remap(it, [None, Sym(STR, LEFT(n.t)), Sym(STR, RIGHT(n.t))])


def key(n):
    return VTup([Sym(STR, LEFT(n.t)), Sym(STR, RIGHT(n.t))])


def dest_table(it, n):
    return it.dict_get(it._cont(tables_of(it, field(it, it.args.self, "meta"))), dest(it, n))


def src_tables(it):
    return tables_of(it, field(it, it.args.self, "source_meta"))


def src_table(it, k):
    return it.dict_get(it._cont(src_tables(it)), k)


def dest_pk(it, n):
    return at(it, it.getattr(dest_table(it, n), "primary_key"), 0)


def integer_key(it, n):
    t = dest_table(it, n)
    return And(live(it, n), slen(it, it.getattr(t, "primary_key")) == 1, is_int(
        it.getattr(t, "table_obj").t, dest_pk(it, n).t))


def shiftable(it, n):
    """the keys of table n are shifted"""
    return And(integer_key(it, n), has_max(it.getattr(dest_table(
        it, n), "table_obj").t, dest_pk(it, n).t))


def amount(it, n):
    return max_of(it.getattr(dest_table(it, n), "table_obj").t, dest_pk(it, n).t) + 1


def single_ref(it, fk, c, d):
    """foreign key fk is column c alone and refers to the key of planned table d"""
    dk = fk_dst(it, fk)
    return And(slen(it, it.getattr(fk, "columns")) == 1, eq(it, at(it, it.getattr(
        fk, "columns"), 0), c), mem(it, src_tables(it), dk), seq_eq(it, it.getattr(
            fk, "dst_columns"), it.getattr(src_table(it, dk), "primary_key")), eq(
                it, key_name(it, dk), d))


def some_ref(it, n, c, fn, upto=None):
    """a foreign key of n that is column c alone and refers to a shifted key: fn(table)"""
    ks = fks(it, src_table(it, key(n)))

    def one(j):
        fk = at(it, ks, j)
        d = key_name(it, fk_dst(it, fk))
        return And(single_ref(it, fk, c, d), shiftable(it, d), fn(d))
    return exists_int(it, one, 0, slen(it, ks) if upto is None else upto)


def off_has(it, n, c):
    o = offsets(it)
    if empty_dict(it, o):
        return V.FALSE
    return And(mem(it, o, dest(it, n)), mem(it, it.dict_get(it._cont(o), dest(it, n)), c))


def off_val(it, n, c):
    o = offsets(it)
    if empty_dict(it, o):
        return z3.IntVal(0)
    return V.term(it.dict_get(it._cont(it.dict_get(it._cont(o), dest(it, n))), c), INT)


def prep_req(it, a):
    d = meta_inv(it, field(it, a.self, "meta"))
    d.update({"source " + k: v for k, v in meta_inv(it, field(it, a.self, "source_meta")).items()})
    ts = tables_of(it, field(it, a.self, "meta"))
    d["planned tables exist at both ends"] = forall_ty(it, STR, lambda n: Implies(mem(
        it, queries(it), n), And(hasdot(n.t), mem(it, src_tables(it), key(n)), mem(
            it, ts, dest(it, n)))))
    d["each planned table has its own destination"] = forall_ty(it, STR, lambda n: forall_ty(
        it, STR, lambda m: Implies(And(mem(it, queries(it), n), mem(it, queries(it), m), eq(
            it, dest(it, n), dest(it, m))), eq(it, n, m))))
    d["key columns exist"] = forall_table(it, ts, lambda k, t: idx(it, lambda j: has_column(
        it.getattr(t, "table_obj").t, at(it, it.getattr(t, "primary_key"), j).t), it.getattr(
            t, "primary_key")))
    return d


def names(it, fn):
    return forall_ty(it, STR, lambda n: fn(n), "n")


def own(it, n, c):
    return And(shiftable(it, n), eq(it, dest_pk(it, n), c))


def entry_ok(it, n, upto=None):
    """the offsets of table n, its foreign keys considered up to a position"""
    ref = lambda c, fn: some_ref(it, n, c, fn, upto)
    yes = lambda d: V.TRUE
    return forall_ty(it, STR, lambda c: And(
        off_has(it, n, c) == Or(own(it, n, c), ref(c, yes)), Implies(off_has(it, n, c), z3.If(
            ref(c, yes), ref(c, lambda d: off_val(it, n, c) == amount(it, d)),
            off_val(it, n, c) == amount(it, n)))), "c")


def prep_post(it, a, r):
    merging = V.term(field(it, a.self, "merge"), BOOL)
    if empty_dict(it, offsets(it)):
        return {"nothing planned": Implies(merging, names(it, lambda n: Not(live(it, n))))}
    o0 = old(it, lambda: it.freeze(offsets(it)))
    return {
        "nothing is shifted unless merging": Implies(Not(merging), forall_ty(
            it, KEY, lambda k: And(mem(it, offsets(it), k) == it.dict_dom(o0, k), forall_ty(
                it, STR, lambda c: Implies(mem(it, offsets(it), k), And(
                    mem(it, it.dict_get(it._cont(offsets(it)), k), c) == mem(
                        it, it.dict_get(o0, k), c))))))),
        "only tables that are planned and not passed through": Implies(merging, forall_ty(
            it, KEY, lambda k: mem(it, offsets(it), k) == exists_ty(it, STR, lambda n: And(
                live(it, n), eq(it, dest(it, n), k))))),
        "keys by one more than the largest there is, references like the key they refer to":
            Implies(merging, names(it, lambda n: Implies(live(it, n), entry_ok(it, n)))),
    }


def domain_of(it, D):
    """the tables of D have offsets"""
    return forall_ty(it, KEY, lambda k: mem(it, offsets(it), k) == exists_ty(it, STR, lambda n: And(
        live(it, n), mem(it, D, n), eq(it, dest(it, n), k))))


def maxima(it, D):
    pk = it.lookup("pk_max_values")
    if empty_dict(it, pk):
        has = lambda n: V.FALSE
        val = lambda n: SymOpt(V.TRUE, Sym(INT, z3.IntVal(0)))
    else:
        has = lambda n: mem(it, pk, n)
        val = lambda n: it.dict_get(it._cont(pk), n)

    def ok(n):
        v = val(n)
        there = And(has(n), Not(v.isnone))
        return And(Implies(has(n), And(integer_key(it, n), mem(it, D, n))), there == And(
            shiftable(it, n), mem(it, D, n)), Implies(there, num(v) + 1 == amount(it, n)))
    return names(it, ok)


def all_names(it):
    s = it.make(TSet(STR), "all")
    it._addfacts([names(it, lambda n: mem(it, s, n))])
    return s


def first_inv(it, old, D):
    return {"maxima so far": maxima(it, D), "offsets so far": domain_of(it, D),
            "own keys": names(it, lambda n: Implies(And(live(it, n), mem(it, D, n)), entry_ok(
                it, n, 0)))}


def second_inv(it, old, D):
    return {"tables with offsets": domain_of(it, queries(it)),
            "tables so far": names(it, lambda n: Implies(live(it, n), And(
                Implies(mem(it, D, n), entry_ok(it, n)), Implies(Not(mem(it, D, n)), entry_ok(
                    it, n, 0)))))}


def fk_inv(it, old, i):
    n = it.lookup("source_table")
    same = lambda m: forall_ty(it, STR, lambda c: And(
        off_has(it, m, c) == at_state(it, old, lambda: off_has(it, m, c)), Implies(off_has(
            it, m, c), off_val(it, m, c) == at_state(it, old, lambda: off_val(it, m, c)))))
    return {"tables with offsets": domain_of(it, queries(it)),
            "keys so far": entry_ok(it, n, i.t),
            "other tables unchanged": names(it, lambda m: Implies(And(live(it, m), Not(eq(
                it, m, n))), same(m)))}


CELLS = {offsets: TDict(KEY, TDict(STR, INT))}
PREPARE = Contract(
    "subsetter.sampler:DatabaseOutput.prepare", setup=prep_setup, requires=prep_req,
    ensures=prep_post, fork_get="all",
    models={issubclass: py_issubclass, sa.select: select_max,
            ("attr", id(sa.func), "max"): V.Native(sql_max, "max"),
            (SA.DatabaseOutput, "_remap_table"): remap},
    loops={0: LoopSpec(name="own keys", done="set", types={"source_table": STR}, cells={
               **CELLS, "pk_max_values": TDict(STR, TOpt(INT))}, inv=first_inv),
           1: LoopSpec(name="references", done="set", types={"source_table": STR}, cells=CELLS,
                       inv=second_inv),
           2: LoopSpec(name="keys", done="index", types={"fk": TFK}, cells=CELLS, inv=fk_inv)})

MODELS = OUT_MODELS
AXIOMS = [name_axioms]
CONTRACTS = [PREPARE, database(multiplying=2, merging=True, strategy=True)]
ALL = [PARSE]
ASSUMPTIONS = OUT_ASSUMPTIONS + [
    "planned tables are reflected at both ends and remapped one to one (refused otherwise by "
    "DatabaseOutput.__init__)",
    "keys copied from the source are not negative",
    "a column used by two references to differently shifted keys gets one of the two shifts",
    "SELECT max(column) is the largest value of the column, or null (the database)",
    "what the insert statement does with the strategy: C16",
]
TRUSTED = OUT_TRUSTED + ["sqlalchemy func.max, Connection.scalar"]
