"""C16: what happens to rows that collide with existing rows."""
import sqlalchemy
from sqlalchemy.dialects import mysql, postgresql, sqlite

from contracts.outputs import *

# ------------------------------------------------------------ the statements of SQLAlchemy
TPKC = TEnt("PrimaryKey", sa.PrimaryKeyConstraint, fields={"columns": TSeq(TCOL)},
            iter_=lambda it, v: it._cont(it.getattr(v, "columns")),
            truth=lambda it, v: slen(it, it.getattr(v, "columns")) > 0)
# the value of a column in the row that was to be inserted, or in the row already there
TNEW = TEnt("RowValue", None, fields={"column": STR, "incoming": BOOL})
TINCOMING = TEnt("Incoming", None, methods={"__getitem__": lambda it, a, kw: row_value(
    it, a[1], V.TRUE)})
TEXISTING = TEnt("Existing", None, methods={"__getitem__": lambda it, a, kw: row_value(
    it, a[1], V.FALSE)})
TTAB = TEnt("InsertTable", sa.Table, fields={"primary_key": TPKC, "columns": TEXISTING,
                                             "c": TEXISTING})
# an insert statement: skipping colliding rows, or updating columns of the row already there
TSTMT = TEnt("Statement", None, fields={
    "table": TTAB, "dialect": STR, "skips": BOOL, "updates": BOOL,
    "assigned": TDict(STR, TNEW), "inserted": TINCOMING, "excluded": TINCOMING})
STRATEGIES = ("error", "skip", "replace")


def row_value(it, name, new):
    v = it.make(TNEW, "value")
    it._addfacts([eq(it, it.getattr(v, "column"), name), flag(it, v, "incoming") == new])
    return v


def new_stmt(dialect):
    def new(it, a, kw):
        s = it.make(TSTMT, "stmt")
        it._addfacts([eq(it, it.getattr(s, "table"), a[0]), Not(flag(it, s, "skips")),
                      Not(flag(it, s, "updates")), eq(it, it.getattr(s, "dialect"), dialect)])
        return s
    return new


def flag(it, s, name):
    return V.term(it.getattr(s, name), BOOL)


def derived(it, s, **changes):
    """a statement like s, changed"""
    n = it.make(TSTMT, "stmt")
    fs = [eq(it, it.getattr(n, f), it.getattr(s, f)) for f in ("table", "dialect")]
    for f in ("skips", "updates"):
        fs.append(flag(it, n, f) == changes.get(f, flag(it, s, f)))
    it._addfacts(fs)
    return n


def assign(it, s, d):
    """s with the assignments of d to the row already there"""
    it.oblige("conflict behaviour is given once", And(Not(flag(it, s, "updates")), Not(flag(
        it, s, "skips"))))
    n = derived(it, s, updates=V.TRUE)
    m = it._cont(it.getattr(n, "assigned"))
    c = it.freeze(d)
    it.oblige("some column is updated", exists_ty(it, STR, lambda x: mem(it, c, x)))
    it._addfacts([forall_ty(it, STR, lambda x: And(mem(it, m, x) == mem(it, c, x), Implies(
        mem(it, c, x), eq(it, it.dict_get(m, x), it.dict_get(it._cont(c), x)))))])
    return n


def mysql_update(it, a, kw):
    it.oblige("MySQL only", eq(it, it.getattr(a[0], "dialect"), "mysql"))
    if kw or len(a) != 2:
        raise Unsupported("on_duplicate_key_update")
    return assign(it, a[0], a[1])


def key_columns(it, table, cols):
    """cols are exactly the columns of the primary key"""
    pk = it.getattr(it.getattr(table, "primary_key"), "columns")
    nm = lambda j: it.getattr(at(it, pk, j), "name")
    if isinstance(cols, Sym) and cols.ty is TPKC:
        return eq(it, cols, it.getattr(table, "primary_key"))
    c = VSeq(it.iter_pieces(cols))

    def name_of(x):
        return it.getattr(x, "name") if isinstance(x, Sym) and x.ty is TCOL else x
    return And(idx(it, lambda j: exidx(it, lambda k: eq(it, name_of(at(it, c, k)), nm(j)), c), pk),
               idx(it, lambda k: exidx(it, lambda j: eq(it, name_of(at(it, c, k)), nm(j)), pk), c))


def conflict_update(it, a, kw):
    it.oblige("a dialect with ON CONFLICT", Not(eq(it, it.getattr(a[0], "dialect"), "mysql")))
    kw = dict(kw)
    cols, sets = kw.pop("index_elements", None), kw.pop("set_", None)
    if kw or len(a) != 1 or cols is None or sets is None:
        raise Unsupported("on_conflict_do_update")
    it.oblige("conflicts are those of the primary key", key_columns(
        it, it.getattr(a[0], "table"), cols))
    return assign(it, a[0], sets)


def conflict_nothing(it, a, kw):
    it.oblige("a dialect with ON CONFLICT", Not(eq(it, it.getattr(a[0], "dialect"), "mysql")))
    if len(a) != 1 or set(kw) - {"index_elements"}:
        raise Unsupported("on_conflict_do_nothing")
    if kw:
        it.oblige("conflicts are those of the primary key", key_columns(
            it, it.getattr(a[0], "table"), kw["index_elements"]))
    return derived(it, a[0], skips=V.TRUE)


def prefix_with(it, a, kw):
    if kw or len(a) != 2 or a[1] != "IGNORE":
        raise Unsupported("prefix_with")
    it.oblige("MySQL only", eq(it, it.getattr(a[0], "dialect"), "mysql"))
    return derived(it, a[0], skips=V.TRUE)


TSTMT.methods.update({"on_duplicate_key_update": mysql_update,
                      "on_conflict_do_update": conflict_update,
                      "on_conflict_do_nothing": conflict_nothing, "prefix_with": prefix_with})
text_of = z3.Function("text_of", TSTMT.sort, V.STR_S)


def process(it, a, kw):
    if kw != {"literal_binds": it.args.literal_binds}:
        raise Unsupported("compiler options")
    return Sym(STR, text_of(a[1].t))


TCOMPILER = TEnt("Compiler", None, methods={"process": process})
STMT_MODELS = {mysql.insert: new_stmt("mysql"), postgresql.insert: new_stmt("postgresql"),
               sqlite.insert: new_stmt("sqlite"), sa.insert: new_stmt("generic")}


# ------------------------------------------------------------ the constructor
def pk_cols(it, table):
    return it.getattr(it.getattr(table, "primary_key"), "columns")


def in_key(it, table, x):
    pk = pk_cols(it, table)
    return exidx(it, lambda j: eq(it, it.getattr(at(it, pk, j), "name"), x), pk)


def known_strategy(it, s):
    return Or(*[eq(it, s, x) for x in STRATEGIES])


def ci_setup(it):
    return {"self": it.alloc(VInst(SA.ConflictInsert, {})),
            "conflict_strategy": it.make(STR, "strategy"), "table": it.make(TTAB, "table"),
            "columns": it.make(TSTR, "columns")}


def ci_post(it, a, r):
    me = a.self
    s, given = field(it, me, "conflict_strategy"), a.conflict_strategy
    upd = field(it, me, "non_pk_columns")
    nokey = slen(it, pk_cols(it, a.table)) <= 0
    rest = Not(exists_ty(it, STR, lambda x: mem(it, upd, x)))
    return {
        "rows go to the table": eq(it, field(it, me, "table"), a.table),
        "updated columns are the written columns outside the key": forall_ty(
            it, STR, lambda x: mem(it, upd, x) == And(
                mem(it, a.columns, x), Not(in_key(it, a.table, x)))),
        "without a key collisions are errors": Implies(nokey, eq(it, s, "error")),
        "with nothing to update colliding rows are skipped": Implies(
            And(Not(nokey), eq(it, given, "replace"), rest), eq(it, s, "skip")),
        "otherwise as configured": Implies(
            And(Not(nokey), Not(And(eq(it, given, "replace"), rest))), eq(it, s, given)),
    }


def key_inv(it, old, i):
    upd = field(it, it.lookup("self"), "non_pk_columns")
    old_ = at_state(it, old, lambda: it.freeze(field(it, it.lookup("self"), "non_pk_columns")))
    pk = pk_cols(it, it.args.table)
    return {"key columns so far are left out": forall_ty(it, STR, lambda x: mem(
        it, upd, x) == And(mem(it, old_, x), Not(exists_int(it, lambda j: eq(it, it.getattr(
            at(it, pk, j), "name"), x), 0, i.t))))}


CONFLICT_INIT = Contract(
    "subsetter.sampler:ConflictInsert.__init__", setup=ci_setup, ensures=ci_post,
    requires=lambda it, a: {"a known strategy": known_strategy(it, a.conflict_strategy)},
    loops={0: LoopSpec(name="key", done="index", inv=key_inv, types={"column": TCOL}, cells={
        (lambda it: field(it, it.lookup("self"), "non_pk_columns")): TSet(STR)})})


# ------------------------------------------------------------ compilation for each database
def compile_setup(it):
    me = it.alloc(VInst(SA.ConflictInsert, {
        "conflict_strategy": it.make(STR, "strategy"), "table": it.make(TTAB, "table"),
        "non_pk_columns": it.alloc(it.make(TSet(STR), "updated"))}))
    return {"self": me, "compiler": it.make(TCOMPILER, "compiler"),
            "literal_binds": it.make(BOOL, "literal_binds")}


def compile_req(it, a):
    """what the constructor establishes"""
    s = field(it, a.self, "conflict_strategy")
    return {"a known strategy": known_strategy(it, s),
            "replacing updates some column": Implies(eq(it, s, "replace"), exists_ty(
                it, STR, lambda x: mem(it, field(it, a.self, "non_pk_columns"), x)))}


def compile_post(dialect):
    def post(it, a, r):
        st = it.make(TSTMT, "any_statement")
        s, upd = field(it, a.self, "conflict_strategy"), field(it, a.self, "non_pk_columns")
        m = it._cont(it.getattr(st, "assigned"))
        if not (isinstance(r, Sym) and z3.is_app(r.t) and r.t.decl().eq(text_of)):
            raise Unsupported("not the text of a statement")
        st = Sym(TSTMT, r.t.arg(0))
        m = it._cont(it.getattr(st, "assigned"))
        return {
            "an insert into the table": eq(it, it.getattr(st, "table"), field(it, a.self, "table")),
            "for this database": eq(it, it.getattr(st, "dialect"), dialect),
            "colliding rows are skipped exactly under 'skip'": flag(it, st, "skips") == eq(
                it, s, "skip"),
            "colliding rows update exactly under 'replace'": flag(it, st, "updates") == eq(
                it, s, "replace"),
            "exactly the written columns outside the key are updated": Implies(eq(
                it, s, "replace"), forall_ty(it, STR, lambda x: mem(it, m, x) == mem(it, upd, x))),
            "each column is updated to its own new value": Implies(eq(
                it, s, "replace"), forall_ty(it, STR, lambda x: Implies(
                    mem(it, m, x), And(eq(it, it.getattr(it.dict_get(m, x), "column"), x), flag(
                        it, it.dict_get(m, x), "incoming"))))),
        }
    return post


def registered(dialect):
    """call the function SQLAlchemy compiles a ConflictInsert with on this database"""
    def run(it, a, fn):
        specs = SA.ConflictInsert.__dict__["_compiler_dispatcher"].specs
        return it.call_py(specs.get(dialect, specs.get("default")), [a.self, a.compiler],
                          {"literal_binds": a.literal_binds})
    return run


def compiled(dialect):
    generic = dialect == "generic"
    return Contract(
        "subsetter.sampler:ConflictInsert#" + dialect, setup=compile_setup, requires=compile_req,
        ensures=compile_post(dialect), run=registered(dialect), models=STMT_MODELS,
        name=f"ConflictInsert compiled for {dialect}",
        raises={RuntimeError: lambda it, a, e: {"only strategies the database lacks": Not(eq(
            it, field(it, a.self, "conflict_strategy"), "error"))}} if generic else {},
        covers=("return", "RuntimeError") if generic else ("return",))


MODELS = OUT_MODELS
AXIOMS = [name_axioms]
CONTRACTS = [CONFLICT_INIT] + [compiled(d) for d in ("mysql", "postgresql", "sqlite", "generic")] \
    + [database(strategy=True)]
ALL = [PARSE]
ASSUMPTIONS = OUT_ASSUMPTIONS + [
    "the databases' documented meaning of INSERT, INSERT IGNORE, ON DUPLICATE KEY UPDATE, "
    "ON CONFLICT DO NOTHING / DO UPDATE; a table's unique keys other than the primary key do not "
    "collide",
    "a column's key in SQLAlchemy is its name",
]
TRUSTED = OUT_TRUSTED + ["sqlalchemy insert constructs of the three dialects and their compilers",
                         "sqlalchemy compiles(): dispatch by dialect name, default otherwise"]
