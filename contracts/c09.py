"""C09: compacted keys are renumbered, and every reference with them."""
from contracts.copying import *
from contracts.materialize import MATERIALIZE
from contracts.matorder import MAT_ORDER

# ------------------------------------------------------------ which columns are renumbered
TCOMPACT.fields.update({"primary_keys": BOOL, "auto_increment_keys": BOOL,
                        "columns": TDict(STR, TSeq(STR))})


def gc_setup(it):
    column_facts(it)
    return {"self": it.alloc(VInst(SA.Sampler, {
        "config": it.make(TCONF, "config"),
        "passthrough_tables": it.alloc(it.make(TSet(STR), "passthrough"))})),
        "meta": make_meta(it)}


def conf(it, a, name):
    return attr(it, field(it, a.self, "config"), "compact", name)


def flag(it, a, name):
    return V.term(conf(it, a, name), BOOL)


def table_at(it, a, k):
    return it.dict_get(it._cont(tables_of(it, a.meta)), k)


def skipped(it, a, k):
    return mem(it, field(it, a.self, "passthrough_tables"), key_name(it, k))


def configured(it, a, k, c):
    """the configuration names column c of table k"""
    cols = conf(it, a, "columns")
    n = key_name(it, k)
    return And(nodot(k.items[0].t), mem(it, cols, n), mem(it, it.dict_get(it._cont(
        cols), n), c), Not(skipped(it, a, k)), mem(it, tables_of(it, a.meta), k))


def automatic(it, a, k, c):
    """column c is the integer key of table k, and such keys are to be renumbered"""
    t = table_at(it, a, k)
    pk = it.getattr(t, "primary_key")
    ob = it.getattr(t, "table_obj")
    inc = it.getattr(ob, "autoincrement_column")
    return And(mem(it, tables_of(it, a.meta), k), slen(it, pk) == 1, eq(it, at(it, pk, 0), c),
               Not(skipped(it, a, k)), is_int(ob.t, c.t), Or(
                   flag(it, a, "primary_keys"), And(flag(it, a, "auto_increment_keys"),
                                                    Not(inc.isnone))))


def in_result(it, r, k, c):
    if empty_dict(it, r):
        return V.FALSE
    return And(mem(it, r, k), mem(it, it.dict_get(it._cont(r), k), c))


def each_col(it, fn):
    return forall_ty(it, KEY, lambda k: forall_ty(it, STR, lambda c: fn(k, c)))


def key_of_fk(it, t, c, upto=None):
    """column c is part of a foreign key of t"""
    ks = fks(it, t)
    cols = lambda j: it.getattr(at(it, ks, j), "columns")
    return exists_int(it, lambda j: exidx(it, lambda p: eq(it, at(it, cols(j), p), c), cols(
        j)), 0, slen(it, ks) if upto is None else upto)


def gc_req(it, a):
    d = meta_inv(it, a.meta)
    d["key columns exist"] = forall_table(it, tables_of(it, a.meta), lambda k, t: idx(
        it, lambda j: has_column(it.getattr(t, "table_obj").t, at(it, it.getattr(
            t, "primary_key"), j).t), it.getattr(t, "primary_key")))
    return d


def wanted(it, a, k, c):
    return Or(configured(it, a, k, c), automatic(it, a, k, c))


def gc_post(it, a, r):
    return {
        "exactly the configured columns and integer keys, never of passthrough tables": each_col(
            it, lambda k, c: in_result(it, r, k, c) == wanted(it, a, k, c)),
        "no renumbered column is part of a foreign key": forall_table(it, tables_of(
            it, a.meta), lambda k, t: forall_ty(it, STR, lambda c: Not(And(
                wanted(it, a, k, c), key_of_fk(it, t, c))))),
    }


def gc_refused(it, a, e):
    return {"only for a foreign key column or a name without a schema": Or(
        exists_ty(it, KEY, lambda k: And(mem(it, tables_of(it, a.meta), k), exists_ty(
            it, STR, lambda c: And(wanted(it, a, k, c), key_of_fk(it, table_at(
                it, a, k), c))))),
        exists_ty(it, STR, lambda n: And(mem(it, conf(it, a, "columns"), n), Not(hasdot(n.t)))))}


def names_inv(it, old, D):
    a, r = it.args, it.lookup("compact_columns")
    return {"named columns so far": each_col(it, lambda k, c: in_result(it, r, k, c) == And(
        configured(it, a, k, c), mem(it, D, key_name(it, k))))}


def auto_inv(it, old, D):
    a, r = it.args, it.lookup("compact_columns")
    return {"keys so far": each_col(it, lambda k, c: in_result(it, r, k, c) == Or(
        configured(it, a, k, c), And(automatic(it, a, k, c), mem(it, D, k))))}


def refuse_inv(it, old, D):
    a = it.args
    return {"no foreign key so far": forall_table(it, tables_of(it, a.meta), lambda k, t: Implies(
        mem(it, D, k), forall_ty(it, STR, lambda c: Not(And(wanted(
            it, a, k, c), key_of_fk(it, t, c))))))}


COMPACT = Contract(
    "subsetter.sampler:Sampler._get_compact_columns", setup=gc_setup, requires=gc_req,
    ensures=gc_post, raises={ValueError: gc_refused}, covers=("return", "ValueError"),
    models={issubclass: py_issubclass},
    loops={0: LoopSpec(name="named columns", done="keys", types={},
                       cells={"compact_columns": TDict(KEY, TSet(STR))}, inv=names_inv),
           1: LoopSpec(name="keys", done="keys", types={},
                       cells={"compact_columns": TDict(KEY, TSet(STR))}, inv=auto_inv),
           2: LoopSpec(name="refusals", done="keys", types={}, inv=refuse_inv)})

MODELS = OUT_MODELS
AXIOMS = [name_axioms]
CONTRACTS = [COMPACT, MATERIALIZE, COPY_RESULTS(True)]
ALL = [PARSE, MAT_ORDER]
ASSUMPTIONS = COPY_ASSUMPTIONS + [
    "the sample is referentially closed (C03): otherwise a reference that finds no row reads null",
    "every planned table is reflected, and only planned tables are (from_engine, C11)",
    "row_number() over an order numbers the rows from 1 on in that order (the database)",
    "an outer join reads null where nothing matches, and one row per match (the database); keys "
    "that are referenced are unique",
    "output and filters after the renumbering by C06, C07, C10; the materialisation order by its "
    "contract proved under C02",
]
TRUSTED = COPY_TRUSTED + ["TempTableCreator.create: contract assumed here, proved under C12",
                          "pydantic_search: only decides which columns are indexed"]
