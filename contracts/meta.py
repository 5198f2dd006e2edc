"""Shared model of the schema: table names, tables, foreign keys."""
import sqlalchemy as sa

from contracts.lib import *
from contracts.graphs import NODE, TGRAPH, edge
from subsetter import metadata as MD
from subsetter import common as CM

STRS = TSeq(STR, "tuple")
KEY = TTup(STR, STR)

# ------------------------------------------------------------ table names
DOT = z3.Function("DOT", V.STR_S, V.STR_S, V.STR_S)
LEFT = z3.Function("name_schema", V.STR_S, V.STR_S)
RIGHT = z3.Function("name_table", V.STR_S, V.STR_S)
nodot = z3.Function("nodot", V.STR_S, z3.BoolSort())
hasdot = z3.Function("hasdot", V.STR_S, z3.BoolSort())


def name_axioms():
    s, t = z3.Const("na_s", V.STR_S), z3.Const("na_t", V.STR_S)
    return [
        z3.ForAll([s, t], z3.Implies(nodot(s), z3.And(LEFT(DOT(s, t)) == s,
                                                      RIGHT(DOT(s, t)) == t)),
                  patterns=[DOT(s, t)]),
        z3.ForAll([s, t], hasdot(DOT(s, t)), patterns=[DOT(s, t)]),
        z3.ForAll([s], z3.Implies(hasdot(s), z3.And(DOT(LEFT(s), RIGHT(s)) == s,
                                                    nodot(LEFT(s)))), patterns=[LEFT(s)]),
    ]


def dot(it, vals):
    s, t = vals
    try:
        return Sym(STR, DOT(V.term(s, STR), V.term(t, STR)))
    except Unsupported:
        return None


def key_name(it, k):
    """the full name of a (schema, table) key"""
    return Sym(STR, DOT(V.term(k.items[0], STR), V.term(k.items[1], STR)))


def str_split(it, args, kw):
    s, sep = args[0], args[1]
    if sep != "." or (args[2:] or [kw.get("maxsplit")])[0] != 1:
        raise Unsupported("str.split other than at the first dot")
    t = V.term(s, STR)
    if it.decide(hasdot(t)):
        it._addfacts([nodot(LEFT(t)), DOT(LEFT(t), RIGHT(t)) == t])
        return it.alloc(VSeq([Elem(Sym(STR, LEFT(t))), Elem(Sym(STR, RIGHT(t)))]))
    return it.alloc(VSeq([Elem(s)]))


PARSE = Contract(
    "subsetter.common:parse_table_name", modular=True, returns=KEY,
    params={"full_table_name": STR},
    ensures=lambda it, a, r: {
        "splits at the first dot": And(
            DOT(r.items[0].t, r.items[1].t) == V.term(a.full_table_name, STR),
            nodot(r.items[0].t), r.items[0].t == LEFT(V.term(a.full_table_name, STR)),
            r.items[1].t == RIGHT(V.term(a.full_table_name, STR)))},
    raises={ValueError: lambda it, a, e: {
        "only for a name without a dot": Not(hasdot(V.term(a.full_table_name, STR)))}},
    covers=("return", "ValueError"))

NAME_MODELS = {("fstr", "{}.{}"): dot, (str, "split"): str_split}

# ------------------------------------------------------------ schema objects
TFK = TEnt("FK", MD.ForeignKey, fields={"columns": STRS, "dst_schema": STR, "dst_table": STR,
                                        "dst_columns": STRS}, eqmode="struct")
TFK.eqfields = ["columns", "dst_schema", "dst_table", "dst_columns"]
TCOL = TEnt("Column", sa.Column, fields={"name": STR})
TELEM = TEnt("FKElement", sa.ForeignKey, fields={"column": TCOL})
TFKC = TEnt("FKConstraint", sa.ForeignKeyConstraint, fields={"columns": TSeq(TCOL),
                                                             "elements": TSeq(TELEM)})
TPK = TEnt("PKConstraint", sa.PrimaryKeyConstraint, fields={"columns": TSeq(TCOL)})
TOBJ = TEnt("TableObj", sa.Table, fields={"schema": STR, "name": STR, "primary_key": TPK,
                                          "foreign_key_constraints": TSet(TFKC)})
TFKC.fields["referred_table"] = TOBJ
TTABLE = TEnt("TableMeta", MD.TableMetadata, fields={
    "schema": STR, "name": STR, "primary_key": STRS, "foreign_keys": TSeq(TFK),
    "rev_foreign_keys": TSeq(TFK), "table_obj": TOBJ},
    mutable=("foreign_keys", "rev_foreign_keys"))
TTABLES = TDict(KEY, TTABLE)


def setup_tables(it):
    it.setup_fieldmap(TTABLE, "foreign_keys")
    it.setup_fieldmap(TTABLE, "rev_foreign_keys")


def make_meta(it, **extra):
    setup_tables(it)
    tables = it.alloc(it.make(TTABLES, "tables"))
    return it.alloc(VInst(MD.DatabaseMetadata, {"tables": tables, **extra}))


def tables_of(it, meta):
    return field(it, meta, "tables")


def forall_table(it, tables, fn, name="t"):
    """for all (key, table) of the dict of tables"""
    return forall_ty(it, KEY, lambda k: Implies(mem(it, tables, k), to_z3b(fn(
        k, it.dict_get(it._cont(tables), k)))), name)


def exists_table(it, tables, fn, name="t"):
    return exists_ty(it, KEY, lambda k: And(mem(it, tables, k), to_z3b(fn(
        k, it.dict_get(it._cont(tables), k)))), name)


def meta_inv(it, meta):
    """DatabaseMetadata: tables are keyed by their own schema and name; a schema has no dot"""
    ts = tables_of(it, meta)
    return {"tables are keyed by their schema and name": forall_table(it, ts, lambda k, t: And(
        eq(it, it.getattr(t, "schema"), k.items[0]), eq(it, it.getattr(t, "name"), k.items[1]),
        nodot(k.items[0].t)))}


def fk_dst(it, fk):
    return VTup([it.getattr(fk, "dst_schema"), it.getattr(fk, "dst_table")])


def fks(it, t):
    return it.getattr(t, "foreign_keys")
