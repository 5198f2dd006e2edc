"""C07: multiplied rows."""
from contracts.outputs import *
from subsetter import planner as PL
from subsetter import config_model as CFG

# ------------------------------------------------------------ which columns are multiplied
TNAMES = TDict(STR, TSeq(STR))
TMULT = TEnt("Multiplicity", None, fields={
    "multiplier": INT, "ignore_tables": TSeq(STR), "extra_columns": TNAMES,
    "ignore_primary_key_columns": TNAMES})
TCONF = TEnt("SamplerConfig", None, fields={"multiplicity": TMULT})
TQUERY = TEnt("Query", None)
TPLAN = TEnt("Plan", None, fields={"queries": TDict(STR, TQUERY), "passthrough": TSeq(STR)})
may = z3.Function("may_be_multiplied", V.STR_S, V.STR_S, z3.BoolSort())


def mc_setup(it):
    me = it.alloc(VInst(SA.Sampler, {"config": it.make(TCONF, "config")}))
    column_facts(it)
    return {"self": me, "meta": make_meta(it), "plan": it.make(TPLAN, "plan")}


def mult(it, a, name):
    return it.getattr(it.getattr(field(it, a.self, "config"), "multiplicity"), name)


def planned(it, a, t):
    return mem(it, it.getattr(a.plan, "queries"), t)


def kept_out(it, a, t):
    return Or(mem(it, it.getattr(a.plan, "passthrough"), t),
              mem(it, mult(it, a, "ignore_tables"), t))


def in_list(it, d, t, c):
    return And(mem(it, d, t), mem(it, it.dict_get(it._cont(d), t), c))


def table_named(it, a, t):
    return it.dict_get(it._cont(tables_of(it, a.meta)), VTup(
        [Sym(STR, LEFT(t.t)), Sym(STR, RIGHT(t.t))]))


def direct(it, a, t, c):
    return Or(in_list(it, mult(it, a, "extra_columns"), t, c), And(
        mem(it, it.getattr(table_named(it, a, t), "primary_key"), c),
        Not(in_list(it, mult(it, a, "ignore_primary_key_columns"), t, c))))


def refers(it, a, t, fn, upto=None):
    """for all pairs of the table's foreign keys: fn(column, referenced table, column)"""
    ks = fks(it, table_named(it, a, t))

    def pair(j, p):
        fk = at(it, ks, j)
        return fn(at(it, it.getattr(fk, "columns"), p), key_name(it, fk_dst(it, fk)), at(
            it, it.getattr(fk, "dst_columns"), p))
    n = slen(it, ks) if upto is None else upto
    return forall_int(it, lambda j: forall_int(it, lambda p: Implies(
        p < slen(it, it.getattr(at(it, ks, j), "dst_columns")), pair(j, p)), 0, slen(
            it, it.getattr(at(it, ks, j), "columns"))), 0, n)


def may_refer(it, a, t, c):
    """column c of t refers to a column that may be multiplied"""
    return Not(refers(it, a, t, lambda x, d, y: Not(And(eq(it, x, c), planned(it, a, d), Not(
        kept_out(it, a, d)), may(d.t, y.t)))))


def each(it, fn):
    return forall_ty(it, STR, lambda t: fn(t), "t")


def each2(it, fn):
    return each(it, lambda t: forall_ty(it, STR, lambda c: fn(t, c), "c"))


def mine(it, a, t):
    return And(planned(it, a, t), Not(kept_out(it, a, t)))


def mc_req(it, a):
    d = meta_inv(it, a.meta)
    obj = lambda t: it.getattr(table_named(it, a, t), "table_obj").t
    d["planned tables exist"] = each(it, lambda t: Implies(planned(it, a, t), And(
        hasdot(t.t), mem(it, tables_of(it, a.meta), VTup([Sym(STR, LEFT(t.t)), Sym(
            STR, RIGHT(t.t))])))))
    d["configured and key columns exist"] = each2(it, lambda t, c: Implies(And(
        mine(it, a, t), direct(it, a, t, c)), has_column(obj(t), c.t)))
    d["foreign key columns exist"] = each(it, lambda t: Implies(mine(it, a, t), refers(
        it, a, t, lambda x, dt, y: has_column(obj(t), x.t))))
    # any predicate closed under the two rules
    d["own columns may be multiplied"] = each2(it, lambda t, c: Implies(And(
        mine(it, a, t), direct(it, a, t, c)), may(t.t, c.t)))
    d["referring columns may be multiplied"] = each(it, lambda t: Implies(mine(
        it, a, t), refers(it, a, t, lambda x, dt, y: Implies(And(mine(it, a, dt), may(
            dt.t, y.t)), may(t.t, x.t)))))
    return d


def has(it, r, t, c):
    """column c of table t is in the result"""
    return in_list(it, r, t, c)


def domain(it, a, r):
    return each(it, lambda t: mem(it, r, t) == mine(it, a, t))


def bounded(it, a, r):
    obj = lambda t: it.getattr(table_named(it, a, t), "table_obj").t
    return each2(it, lambda t, c: Implies(has(it, r, t, c), And(
        may(t.t, c.t), has_column(obj(t), c.t))))


def direct_in(it, a, r):
    return each2(it, lambda t, c: Implies(And(mine(it, a, t), direct(
        it, a, t, c)), has(it, r, t, c)))


def closed_at(it, a, r, t):
    """nothing to add to table t"""
    return If_(kept_out(it, a, t), refers(it, a, t, lambda x, dt, y: Not(has(it, r, dt, y))),
               refers(it, a, t, lambda x, dt, y: Implies(has(it, r, dt, y), has(it, r, t, x))))


def If_(c, x, y):
    return And(Implies(c, x), Implies(Not(c), y))


def mc_post(it, a, r):
    many = V.term(mult(it, a, "multiplier"), INT) > 1
    obj = lambda t: it.getattr(table_named(it, a, t), "table_obj").t
    if empty_dict(it, r):
        return {"nothing for a single copy": Or(Not(many), each(it, lambda t: Not(mine(
            it, a, t))))}
    return {
        "nothing for a single copy": Implies(Not(many), each(it, lambda t: Not(mem(it, r, t)))),
        "exactly the planned tables not passed through or ignored": Implies(many, domain(
            it, a, r)),
        "extra columns and unexempted key columns": Implies(many, direct_in(it, a, r)),
        "references to multiplied columns follow; none from other tables": Implies(
            many, each(it, lambda t: Implies(planned(it, a, t), closed_at(it, a, r, t)))),
        "nothing more": each2(it, lambda t, c: Implies(has(it, r, t, c), may(t.t, c.t))),
        "only integer columns": each2(it, lambda t, c: Implies(has(it, r, t, c), is_int(
            obj(t), c.t))),
    }


def mc_refused(it, a, e):
    obj = lambda t: it.getattr(table_named(it, a, t), "table_obj").t
    return {"only for a reference from another table or a column that is not integral": Or(
        exists_ty(it, STR, lambda t: exists_ty(it, STR, lambda c: And(
            planned(it, a, t), kept_out(it, a, t), may_refer(it, a, t, c)))),
        exists_ty(it, STR, lambda t: exists_ty(it, STR, lambda c: And(
            mine(it, a, t), may(t.t, c.t), Not(is_int(obj(t), c.t))))))}


def result(it):
    return it.lookup("result")


def first_inv(it, old, done):
    a, r = it.args, result(it)
    d = {"tables so far": each(it, lambda t: mem(it, r, t) == And(mem(it, done, t), Not(kept_out(
        it, a, t))))}
    if not empty_dict(it, r):
        d["own columns"] = each2(it, lambda t, c: has(it, r, t, c) == And(
            mem(it, done, t), Not(kept_out(it, a, t)), direct(it, a, t, c)))
    return d


def base_inv(it):
    a, r = it.args, result(it)
    return {"domain": domain(it, a, r), "own columns kept": direct_in(it, a, r),
            "within the bound": bounded(it, a, r)}


def while_inv(it, old):
    return base_inv(it)


def changes(it):
    return V.term(it.lookup("changes"), BOOL)


def pass_inv(it, old, done):
    a, r = it.args, result(it)
    d = base_inv(it)
    h0 = lambda t, c: at_state(it, old, lambda: has(it, result(it), t, c))
    d["columns are only added"] = each2(it, lambda t, c: Implies(h0(t, c), has(it, r, t, c)))
    d["additions noticed"] = Or(changes(it), each2(it, lambda t, c: Implies(
        has(it, r, t, c), h0(t, c))))
    d["changes only when something was added"] = Implies(changes(it), exists_ty(
        it, STR, lambda t: exists_ty(it, STR, lambda c: And(has(it, r, t, c), Not(h0(t, c))))))
    d["tables so far need nothing"] = Or(changes(it), each(it, lambda t: Implies(
        mem(it, done, t), closed_at(it, a, r, t))))
    return d


def cols_root(it):
    """the result, or nothing when the table has no entry in it"""
    c = it.lookup("cols")
    while isinstance(c, Interior):
        c = c.cell
    return None if c.id == result(it).id else c


def other_tables(it, old, t):
    """columns of the other tables are unchanged"""
    return each2(it, lambda u, c: Implies(Not(eq(it, u, t)), has(it, result(
        it), u, c) == at_state(it, old, lambda: has(it, result(it), u, c))))


def fk_common(it, old):
    a, t = it.args, it.lookup("table_name")
    cols = it.lookup("cols")
    d = {"domain": domain(it, a, result(it)), "within the bound": bounded(it, a, result(it)),
         "other tables unchanged": other_tables(it, old, t),
         "columns are only added": forall_ty(it, STR, lambda c: Implies(at_state(
             it, old, lambda: mem(it, cols, c)), mem(it, cols, c)))}
    if not isinstance(cols, Interior):
        d["only referring columns"] = forall_ty(it, STR, lambda c: Implies(
            mem(it, cols, c), may_refer(it, a, t, c)))
        d["result unchanged"] = each2(it, lambda u, c: has(it, result(it), u, c) == at_state(
            it, old, lambda: has(it, result(it), u, c)))
    return d


def fk_inv(it, old, k):
    a, t = it.args, it.lookup("table_name")
    cols = it.lookup("cols")
    d = fk_common(it, old)
    r0 = lambda u, c: at_state(it, old, lambda: has(it, result(it), u, c))
    d["keys so far"] = refers(it, a, t, lambda x, dt, y: Implies(r0(dt, y), mem(
        it, cols, x)), upto=k.t)
    return d


def gen_inv(it, old, i):
    cols, dst, fk = it.lookup("cols"), it.lookup("dst_mapped"), it.lookup("fk")
    d = fk_common(it, old)
    d0 = lambda y: at_state(it, old, lambda: mem(it, dst, y))
    d["pairs so far"] = forall_int(it, lambda p: Implies(d0(at(it, it.getattr(
        fk, "dst_columns"), p)), mem(it, cols, at(it, it.getattr(fk, "columns"), p))), 0, i.t)
    return d


R_CELLS = {"result": TDict(STR, TSet(STR)), cols_root: TSet(STR)}
MULTIPLIED = Contract(
    "subsetter.sampler:Sampler._get_multiplied_columns", setup=mc_setup, requires=mc_req,
    ensures=mc_post, raises={ValueError: mc_refused}, covers=("return", "ValueError"),
    fork_get=True, models={issubclass: py_issubclass},
    loops={0: LoopSpec(name="own columns", done="set", types={"table_name": STR},
                       cells={"result": TDict(STR, TSet(STR))}, inv=first_inv),
           1: LoopSpec(name="closure", types={"table_name": STR, "changes": BOOL},
                       cells={"result": TDict(STR, TSet(STR))}, inv=while_inv),
           2: LoopSpec(name="pass", done="set", types={"table_name": STR, "changes": BOOL},
                       cells={"result": TDict(STR, TSet(STR))}, inv=pass_inv),
           3: LoopSpec(name="keys", done="index", types={"fk": TFK}, cells=R_CELLS, inv=fk_inv),
           "g0": LoopSpec(name="pairs", done="index", cells=R_CELLS, inv=gen_inv)})

MODELS = OUT_MODELS
AXIOMS = [name_axioms]
CONTRACTS = [MULTIPLIED, directory(True), database(multiplying=2)]
ALL = [PARSE, VALIDATE]
ASSUMPTIONS = OUT_ASSUMPTIONS + [
    "planned tables, their key columns and configured extra columns exist in the schema",
    "termination of the closure loop: each repeated pass is shown to add a column; that there "
    "are finitely many columns is not formalised",
    "FilterOmit, FilterView and the filter chain by their contracts proved under C06",
]
TRUSTED = OUT_TRUSTED + ["column.type.python_type of sqlalchemy"]
