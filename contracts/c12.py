"""C12: temporary tables: their names, their contents, and how queries refer to them."""
import json

from contracts import c14
from contracts.materialize import *
from contracts.graphs import TOPO
from contracts.matorder import MAT_ORDER
from pydv import models as M
from pydv.state import PyRaise

# ------------------------------------------------------------ names
FOLD = z3.Function("FOLD", V.STR_S, V.STR_S)          # letter case removed
NAMED = z3.Function("prefixed", V.STR_S, V.STR_S)     # prefix + base
COUNTED = z3.Function("counted", V.STR_S, z3.IntSort(), V.STR_S)  # prefix + base + "_" + number + "_"
ALIASED = z3.Function("like_an_alias", V.STR_S, z3.IntSort(), V.STR_S)  # the same, ending in the number
is_alnum = z3.Function("is_alnum", V.STR_S, z3.BoolSort())
is_ascii = z3.Function("is_ascii", V.STR_S, z3.BoolSort())
clean = z3.Function("ascii_letters_and_digits", V.STR_S, z3.BoolSort())
PREFIX = SA.TempTableCreator.NAME_PREFIX
COUNTS = TDict(STR, INT)


def clean_axioms():
    """clean: every character is an ASCII letter or digit; so there is no underscore in it"""
    s, t = z3.Const("cl_s", V.STR_S), z3.Const("cl_t", V.STR_S)
    c, d, p = z3.Int("cl_c"), z3.Int("cl_d"), z3.Int("cl_p")
    chars = z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < V.str_len(s)), z3.And(
        is_alnum(V.str_at(s, p)), is_ascii(V.str_at(s, p)))), patterns=[V.str_at(s, p)])
    ok = z3.And(clean(s), clean(t))
    return [
        z3.ForAll([s], clean(s) == chars, patterns=[clean(s)]),
        # the three facts below are proved of character strings: name_lemmas
        z3.ForAll([s, t], z3.Implies(z3.And(ok, FOLD(NAMED(s)) == FOLD(NAMED(t))),
                                     FOLD(s) == FOLD(t)), patterns=[z3.MultiPattern(
                                         FOLD(NAMED(s)), FOLD(NAMED(t)))]),
        z3.ForAll([s, t, c, d], z3.Implies(z3.And(ok, c >= 0, d >= 0, FOLD(COUNTED(s, c)) == FOLD(
            COUNTED(t, d))), z3.And(FOLD(s) == FOLD(t), c == d)), patterns=[z3.MultiPattern(
                FOLD(COUNTED(s, c)), FOLD(COUNTED(t, d)))]),
        z3.ForAll([s, t, d], z3.Implies(z3.And(ok, d >= 0), FOLD(NAMED(s)) != FOLD(COUNTED(
            t, d))), patterns=[z3.MultiPattern(FOLD(NAMED(s)), FOLD(COUNTED(t, d)))]),
    ]


def name_lemmas(it):
    """x, y: case-folded bases (letters and digits, so without underscore); c, d: numbers"""
    x, y = z3.String("lx"), z3.String("ly")
    c, d = z3.String("lc"), z3.String("ld")
    alnum = z3.Star(z3.Union(z3.Range("a", "z"), z3.Range("0", "9")))
    digits = z3.Plus(z3.Range("0", "9"))
    pre, us = z3.StringVal(PREFIX.lower()), z3.StringVal("_")
    hy = z3.And(z3.InRe(x, alnum), z3.InRe(y, alnum), z3.InRe(c, digits), z3.InRe(d, digits))
    one = lambda b: z3.Concat(pre, b)
    two = lambda b, n: z3.Concat(pre, b, us, n, us)
    alias = lambda t, n: z3.Concat(t, us, n)  # the name SQLAlchemy gives an alias of table t
    n = z3.String("ln")
    al = z3.And(hy, z3.InRe(n, digits))
    return {
        "no name is that of an alias of another": z3.Implies(al, z3.And(
            one(x) != alias(one(y), n), one(x) != alias(two(y, d), n),
            two(x, c) != alias(one(y), n), two(x, c) != alias(two(y, d), n))),
        "plain names of different bases differ": z3.Implies(z3.And(hy, one(x) == one(
            y)), x == y),
        "numbered names of different bases or numbers differ": z3.Implies(z3.And(hy, two(
            x, c) == two(y, d)), z3.And(x == y, c == d)),
        "plain and numbered names differ": z3.Implies(hy, one(x) != two(y, d)),
    }


def literal_facts():
    """what the axioms speak of, evaluated for the string constants of the code"""
    out = []
    for s in list(V._lits):
        for w in sorted({s, s.lower(), s[len(PREFIX):] if s.startswith(PREFIX) else s}):
            t = V.term(w, STR)
            out += [clean(t) == z3.BoolVal(all(c.isascii() and c.isalnum() for c in w)),
                    V.str_len(t) == len(w), FOLD(t) == V.term(w.lower(), STR)]
        if s.startswith(PREFIX):
            out.append(V.term(s, STR) == NAMED(V.term(s[len(PREFIX):], STR)))
    return out


def f_string(it, parts):
    """prefix + base, and prefix + base + "_" + number + "_"; how it is put together does not
    matter"""
    ps = []

    def put(x):
        if isinstance(x, str) and ps and isinstance(ps[-1], str):
            ps[-1] += x
        elif x != "":
            ps.append(x)
    for p in parts:
        if isinstance(p, str):
            put(p)
            continue
        v, conv = p[1:]
        if conv != -1:
            return None
        if isinstance(v, (str, int)) and not isinstance(v, bool):
            put(str(v))
        elif isinstance(v, Sym) and v.ty is STR:
            for x in TEXTS.get(v.t.get_id(), [v]):
                put(x)
        elif isinstance(v, Sym) and v.ty is INT:
            put(v)
        else:
            return None
    ps = [Sym(INT, x.t.arg(0)) if isinstance(x, Sym) and x.ty is STR and x.t.decl().name(
        ) == "str_of_Int" else x for x in ps]
    kinds = [x.ty if isinstance(x, Sym) else str for x in ps]
    if len(ps) > 1 and ps[0] == PREFIX and kinds[1:] == [STR]:
        t = NAMED(ps[1].t)
    elif kinds[:4] == [str, STR, str, INT] and ps[0] == PREFIX and ps[2] == "_" and ps[4:] in (
            ["_"], []):
        t = (COUNTED if ps[4:] else ALIASED)(ps[1].t, ps[3].t)
    elif kinds[:2] == [str, INT] and ps[0].startswith(PREFIX) and ps[0].endswith("_") and ps[
            2:] in (["_"], []):
        t = (COUNTED if ps[2:] else ALIASED)(V.term(ps[0][len(PREFIX):-1], STR), ps[1].t)
    else:
        t = it.fresh("text", V.STR_S)
        UNKNOWN.add(t.get_id())
    TEXTS[t.get_id()] = ps
    KEPT.append(t)
    return Sym(STR, t)


TEXTS, UNKNOWN, KEPT = {}, set(), []


def str_join(it, a, kw):
    """characters put together: each character of the result is one of them"""
    if a[0] != "":
        raise Unsupported("join with a separator")
    ps = it.iter_pieces(a[1])
    s = it.fresh("joined", V.STR_S)
    p = z3.Int(it.fresh_name("p"))
    it._addfacts([V.str_len(s) >= 0, ForAll([p], Implies(And(p >= 0, p < V.str_len(s)), it.exists_elem(
        ps, lambda e: V.term(e, STR) == V.str_at(s, p))))])
    return Sym(STR, s)


def lower(it, a, kw):
    if isinstance(a[0], str):
        return a[0].lower()
    return Sym(STR, FOLD(V.term(a[0], STR)))


NAME_MODELS12 = {
    ("fstr", "*"): f_string, (str, "join"): str_join, (str, "lower"): lower,
    (str, "casefold"): lower,
    (str, "isalnum"): lambda it, a, kw: Sym(BOOL, is_alnum(V.term(a[0], STR))),
    (str, "isascii"): lambda it, a, kw: Sym(BOOL, is_ascii(V.term(a[0], STR)))}


def num_at(it, d, k):
    if empty_dict(it, d):
        return z3.IntVal(0)
    return V.term(it.dict_get(it._cont(d), Sym(STR, k)), INT)


def has_key(it, d, k):
    if empty_dict(it, d):
        return V.FALSE
    return mem(it, d, Sym(STR, k))


def given(it, d, x, b, c):
    """x is a name given for base b (number c), and its count is past it"""
    fb = FOLD(b)
    return And(clean(b), has_key(it, d, fb), Or(
        And(x == FOLD(NAMED(b)), num_at(it, d, fb) >= 1),
        And(x == FOLD(COUNTED(b, c)), 0 < c, c < num_at(it, d, fb))))


def names_inv(it, d, issued):
    """class invariant: issued(x) are the (folded) names given out so far"""
    x, b = z3.Const(it.fresh_name("x"), V.STR_S), z3.Const(it.fresh_name("b"), V.STR_S)
    c = z3.Int(it.fresh_name("c"))
    return {
        "counts are natural numbers": it.forall([b], lambda: Implies(has_key(
            it, d, b), num_at(it, d, b) >= 0)),
        "each name given belongs to a base counted past it": it.forall([x], lambda: Implies(
            issued(x), it.exists([b, c], lambda: given(it, d, x, b, c)))),
    }


def gen_setup(it):
    counts_ = it.alloc(it.make(COUNTS, "name_counts"))
    me = it.alloc(VInst(SA.TempTableCreator, {"name_counts": counts_}))
    return {"self": me, "name": it.make(STR, "name"), "_issued": it.make(TSet(STR), "issued")}


def issued(it, a):
    return lambda x: it.set_mem(a._issued, Sym(STR, x))


def gen_req(it, a):
    return names_inv(it, field(it, a.self, "name_counts"), issued(it, a))


def known_text(t):
    leaves = [t]
    for y in leaves:
        if y.get_id() in UNKNOWN:
            raise Unsupported("how the name is put together")
        if z3.is_app_of(y, z3.Z3_OP_ITE):
            leaves += y.children()[1:]


def new_name(it, a, r):
    x, old_ = FOLD(V.term(r, STR)), issued(it, a)
    b, c = z3.Const(it.fresh_name("b"), V.STR_S), z3.Int(it.fresh_name("c"))
    rt = V.term(r, STR)
    known_text(rt)
    d = {"differs from every name given before": Not(old_(x)),
         "ASCII letters and digits, at most 40, after the prefix": it.exists([b, c], lambda: And(
             clean(b), V.str_len(b) <= 40, Or(rt == NAMED(b), rt == COUNTED(b, c))))}
    d.update(names_inv(it, field(it, a.self, "name_counts"), lambda y: Or(old_(y), y == x)))
    return d


def gen_post(it, a, r):
    d = new_name(it, a, r)
    d.update(name_lemmas(it))
    return d


GEN = Contract("subsetter.sampler:TempTableCreator._generate_name", setup=gen_setup,
               requires=gen_req, ensures=gen_post, models=NAME_MODELS12)


def init_post(it, a, r):
    return names_inv(it, field(it, a.self, "name_counts"), lambda x: V.FALSE)


INIT = Contract("subsetter.sampler:TempTableCreator.__init__", setup=lambda it: {
    "self": it.alloc(VInst(SA.TempTableCreator, {}))}, ensures=init_post)

# ------------------------------------------------------------ create
TSQLTYPE = TEnt("SqlType", None)
TCOLM = TEnt("Col", sa.Column, fields={"name": STR, "type": TSQLTYPE, "pk": BOOL})
TSEL = TEnt("Select", sa.Select, fields={"selected_columns": TSeq(TCOLM)})
TTABN = TEnt("NewTable", sa.Table, fields={"name": STR, "schema": TOpt(STR), "cols": TSeq(TCOLM),
                                           "temporary": BOOL})
TCOLL = TEnt("Columns", None, fields={"of": TTABN})
TMETAD = TEnt("MetaData", sa.MetaData)
TINS = TEnt("InsertSelect", None, fields={"table": TTABN, "cols": TSeq(TCOLM), "select": TSEL})
TINSERT = TEnt("Insert", None, fields={"table": TTABN})
TDIAL = TEnt("Dialect", None, fields={"name": STR})
TENG = TEnt("Engine", None, fields={"dialect": TDIAL})
TRES = TEnt("InsertResult", None, fields={"rowcount": INT})
TCX = TEnt("Connection", None, fields={"engine": TENG, "dialect": TDIAL})
TIDX = TEnt("Index", None)
columns_of = z3.Function("columns_of_table", TTABN.sort, TCOLL.sort)


def coll(it, v):
    c = Sym(TCOLL, columns_of(v.t))
    it._addfacts([eq(it, it.getattr(c, "of"), v)])
    return c


TTABN.fields.update({"columns": coll, "c": coll})
TCOLL.iter_ = lambda it, v: it._cont(attr(it, v, "of", "cols"))


def coll_get(it, a, kw):
    cols = attr(it, a[0], "of", "cols")
    it.oblige("a column of the table", exidx(it, lambda j: eq(it, it.getattr(at(
        it, cols, j), "name"), a[1]), cols))
    c = it.make(TCOLM, "column")
    it._addfacts([eq(it, it.getattr(c, "name"), a[1])])
    return c


TCOLL.methods["__getitem__"] = coll_get


def new_column(it, a, kw):
    if set(kw) - {"primary_key"} or len(a) != 2:
        raise Unsupported("Column")
    c = it.make(TCOLM, "col")
    it._addfacts([eq(it, it.getattr(c, "name"), a[0]), eq(it, it.getattr(c, "type"), a[1]),
                  V.term(it.getattr(c, "pk"), BOOL) == to_z3b(it.truth(kw.get(
                      "primary_key", False)))])
    return c


def new_table(it, a, kw):
    if set(kw) - {"schema", "prefixes"} or len(a) != 3 or not isinstance(a[2], V.Star):
        raise Unsupported("Table")
    t = it.make(TTABN, "table")
    known_text(V.term(a[0], STR))
    pre = kw.get("prefixes")
    sch = it.getattr(t, "schema")
    want = it.coerce(kw.get("schema"), TOpt(STR)) if hasattr(it, "coerce") else kw.get("schema")
    it._addfacts([eq(it, it.getattr(t, "name"), a[0]), eq(it, sch, want), seq_eq(
        it, it.getattr(t, "cols"), VSeq(it.iter_pieces(a[2].v))), V.term(it.getattr(
            t, "temporary"), BOOL) == (V.FALSE if pre is None else mem(it, pre, "TEMPORARY"))])
    it.set_content(it.args._reg, VSeq([*it._cont(it.args._reg).pieces, Elem(VTup([a[1], t]))]))
    return t


def create_all(it, a, kw):
    """creates the tables of this MetaData, or fails"""
    if len(a) != 2 or kw:
        raise Unsupported("create_all")
    it.oblige("on the connection of the run", eq(it, a[1], it.args.conn))
    for e in V.all_elems(it._cont(it.args._reg).pieces):
        if e.items[0].t.eq(a[0].t):
            log(it, "_created", e.items[1])
    if it.choose(2):
        it.set_content(it.args._failed, VSeq([Elem(True)]))
        raise PyRaise(Exc(Exception, ("failed",)))


def log(it, name, v):
    ref = getattr(it.args, name)
    it.set_content(ref, VSeq([*it._cont(ref).pieces, Elem(v)]))


def logged(it, name):
    return V.all_elems(it._cont(getattr(it.args, name)).pieces)


def index_create(it, a, kw):
    if it.choose(2):
        raise PyRaise(Exc(sa.exc.OperationalError, ("no index",)))


def run_insert(it, a, kw):
    if len(a) != 2 or kw:
        raise Unsupported("execute")
    log(it, "_filled", a[1])
    r = it.make(TRES, "result")
    it.ghost["result"] = r
    return r


def from_select(it, a, kw):
    if len(a) != 3 or set(kw):
        raise Unsupported("from_select")
    s = it.make(TINS, "insert")
    it._addfacts([eq(it, it.getattr(s, "table"), it.getattr(a[0], "table")), eq(it, it.getattr(
        s, "select"), a[2]), seq_eq(it, it.getattr(s, "cols"), a[1])])
    return s


def insert_into(it, a, kw):
    s = it.make(TINSERT, "insert")
    it._addfacts([eq(it, it.getattr(s, "table"), a[0])])
    return s


READONLY = z3.Const("message_says_read_only", z3.BoolSort())


def message(it, a, kw):
    if isinstance(a[0], Exc):
        t = z3.Const("error_message", V.STR_S)
        it._addfacts([z3.Function("str_contains", V.STR_S, V.STR_S, z3.BoolSort())(
            t, V.term("--read-only", STR)) == READONLY])
        return Sym(STR, t)
    return M.m_str(it, a, kw)


TMETAD.methods["create_all"] = create_all
TTABN.methods["insert"] = insert_into
TINSERT.methods["from_select"] = from_select
TCX.methods["execute"] = run_insert
TIDX.methods["create"] = index_create


def create_setup(it):
    d = gen_setup(it)
    conn = it.make(TCX, "conn")
    it._addfacts([eq(it, it.getattr(conn, "dialect"), attr(it, conn, "engine", "dialect"))])
    d.update({"conn": conn, "schema": it.make(STR, "schema"), "select": it.make(TSEL, "select"),
              "primary_key": it.make(STRS, "primary_key"),
              "indexes": it.make(TSeq(STRS), "indexes"), "_reg": it.alloc(VSeq([])),
              "_created": it.alloc(VSeq([])), "_filled": it.alloc(VSeq([])),
              "_failed": it.alloc(VSeq([]))})
    return d


def create_req(it, a):
    d = gen_req(it, a)
    cols = it.getattr(a.select, "selected_columns")
    d["indexed columns are columns of the query"] = idx(it, lambda i: idx(it, lambda p: exidx(
        it, lambda j: eq(it, it.getattr(at(it, cols, j), "name"), at(it, at(
            it, a.indexes, i), p)), cols), at(it, a.indexes, i)), a.indexes)
    return d


def create_post(it, a, r):
    t, cnt = r.items
    made_, filled = logged(it, "_created"), logged(it, "_filled")
    if len(made_) != 1 or len(filled) != 1:
        return {"one table is created and filled once": V.FALSE}
    ins = filled[0]
    sel = it.getattr(a.select, "selected_columns")
    cols = it.getattr(t, "cols")
    d = attr(it, a.conn, "engine", "dialect", "name")
    sch = it.getattr(t, "schema")
    own = Or(eq(it, d, "postgresql"), eq(it, d, "sqlite"))
    g = {
        "the table returned is the one created and filled": And(
            eq(it, made_[0], t), eq(it, it.getattr(ins, "table"), t)),
        "it is temporary": V.term(it.getattr(t, "temporary"), BOOL),
        "filled with the rows of the query": And(eq(it, it.getattr(ins, "select"), a.select),
                                                 seq_eq(it, it.getattr(ins, "cols"), cols)),
        "the columns of the query, in order": And(slen(it, cols) == slen(it, sel), idx(
            it, lambda j: And(eq(it, it.getattr(at(it, cols, j), "name"), it.getattr(at(
                it, sel, j), "name")), eq(it, it.getattr(at(it, cols, j), "type"), it.getattr(
                    at(it, sel, j), "type"))), cols)),
        "its key columns": idx(it, lambda j: V.term(it.getattr(at(
            it, cols, j), "pk"), BOOL) == mem(it, a.primary_key, it.getattr(at(
                it, cols, j), "name")), cols),
        "in the schema given, or the implicit one": z3.If(own, sch.isnone, And(
            Not(sch.isnone), eq(it, sch.val, a.schema))),
        "the number of rows": eq(it, cnt, it.getattr(it.ghost["result"], "rowcount")),
        "a failure is only passed over when it is the read-only one": READONLY if logged(
            it, "_failed") else V.TRUE,
    }
    g.update(new_name(it, a, it.getattr(t, "name")))
    return g


def create_failed(it, a, e):
    return {"the database refused to create the table": z3.BoolVal(bool(logged(it, "_failed"))),
            "nothing is filled": z3.BoolVal(not logged(it, "_filled"))}


CREATE = Contract(
    "subsetter.sampler:TempTableCreator.create", setup=create_setup, requires=create_req,
    ensures=create_post, raises={Exception: create_failed}, covers=("return", "Exception"),
    models={**NAME_MODELS12, sa.MetaData: lambda it, a, kw: it.make(TMETAD, "metadata"),
            sa.Table: new_table, sa.Column: new_column, str: message,
            sa.Index: lambda it, a, kw: it.make(TIDX, "index")},
    loops={0: LoopSpec(name="indexes", done="index", types={}, inv=lambda it, old, i: {})})

# ------------------------------------------------------------ references
TTABLEOBJ = TTABLE.fields["table_obj"]
refs_before = z3.Function("references_before", z3.IntSort(), V.STR_S, V.STR_S, z3.IntSort())


def ctx_setup(it):
    meta = make_meta(it, temp_tables=it.alloc(it.make(TDict(TTEMPKEY, TOBJ), "temp_tables")),
                     supports_temp_reopen=it.make(BOOL, "reopen"))
    return {"self": meta, "_idents": it.make(TSeq(c02.TIDENT), "idents")}


def ident_at(it, i):
    x = at(it, it.args._idents, i)
    return x, c02.ikey(it, x), V.term(it.getattr(x, "sampled"), BOOL)


def refs_step(it, i):
    """definition of the number of references to a sample among the first i identifiers"""
    def step(k):
        x, kx, sampled = ident_at(it, i)
        return And(refs_before(0, *c02.kt(k)) == 0, refs_before(
            i + 1, *c02.kt(k)) == refs_before(i, *c02.kt(k)) + z3.If(And(sampled, eq(
                it, kx, k)), 1, 0))
    it._addfacts([forall_ty(it, KEY, step)])


def reopen(it):
    return V.term(field(it, it.args.self, "supports_temp_reopen"), BOOL)


def copy_no(it, i):
    """which copy the i-th reference is to use"""
    x, k, sampled = ident_at(it, i)
    return z3.If(reopen(it), 0, refs_before(i, *c02.kt(k)))


def ctx_req(it, a):
    """every copy asked for exists (obligations of the callers: C02, C09)"""
    temps_ = field(it, a.self, "temp_tables")
    n = slen(it, a._idents)

    def ok(i):
        x, k, sampled = ident_at(it, i)
        return z3.If(sampled, mem(it, temps_, VTup([*k.items, Sym(INT, copy_no(it, i))])), mem(
            it, tables_of(it, a.self), k))
    return {"the copies referred to exist": forall_int(it, ok, 0, n)}


def resolved(it, out, i):
    x, k, sampled = ident_at(it, i)
    temps_ = field(it, it.args.self, "temp_tables")
    obj = lambda: it.getattr(it.dict_get(it._cont(tables_of(it, it.args.self)), k), "table_obj").t
    return at(it, out, i).t == z3.If(sampled, it.dict_get(it._cont(temps_), VTup(
        [*k.items, Sym(INT, copy_no(it, i))])).t, obj())


def ctx_run(it, a, fn):
    ctx = it.call_py(fn, [a.self], {})
    out = it.alloc(VSeq([]))
    counts_ = {}

    def inv(it, old, i):
        i = i.t
        refs_step(it, i.arg(0) if z3.is_add(i) else i)
        o = it.lookup("out")
        d = {"one table per reference": slen(it, o) == i}
        c = it._cont(o)
        if not (isinstance(it.seq_len(c), int) and it.seq_len(c) == 0):
            d["each reference resolved"] = forall_int(it, lambda j: resolved(it, o, j), 0, i)
        cnt = counter(it)
        d["counted so far"] = Implies(Not(reopen(it)), forall_ty(it, KEY, lambda k: (
            refs_before(i, *c02.kt(k))) == (z3.IntVal(0) if empty_dict(it, cnt) else z3.If(
                mem(it, cnt, k), V.term(it.dict_get(it._cont(cnt), k), INT), 0))))
        d["counts are natural numbers"] = forall_ty(it, KEY, lambda k: refs_before(
            i, *c02.kt(k)) >= 0)
        return d

    def counter(it):
        return closure_dict(it, ctx)
    ghost_call(it, "def refer(idents, context, out):\n for ident in idents:\n"
               "  out.append(context(ident))", [a._idents, ctx, out],
               {0: LoopSpec(name="references", done="index", types={"ident": c02.TIDENT},
                            cells={(lambda it: out): TSeq(TOBJ), counter: TDict(KEY, INT)},
                            inv=inv)})
    return out


def closure_dict(it, c):
    """the dictionary the closure keeps its counts in"""
    e = c.env
    fr = it.st.heap[e.frame.id]
    ds = [v for v in fr.vars.values() if isinstance(v, Ref) and isinstance(it._cont(v), VDict)]
    if len(ds) != 1:
        raise Unsupported("what the context counts in")
    return ds[0]


def ctx_post(it, a, r):
    n = slen(it, a._idents)

    def apart(i, j):
        (x, k, s), (y, l, t) = ident_at(it, i), ident_at(it, j)
        return Implies(And(s, t, eq(it, k, l), Not(reopen(it))), copy_no(it, i) != copy_no(it, j))
    refs_mono(it, n)
    return {
        "one table per reference": slen(it, r) == n,
        "a sampled reference is a copy of that sample, any other the table itself": forall_int(
            it, lambda i: resolved(it, r, i), 0, n),
        "where a temporary table cannot be opened twice, each reference has its own copy":
            forall_int(it, lambda i: forall_int(it, lambda j: apart(i, j), 0, i), 0, n),
    }


def refs_mono(it, n):
    """lemma by induction: the count only grows, and past each reference it is larger"""
    def claim(j):
        return forall_int(it, lambda i: And(
            forall_ty(it, KEY, lambda k: refs_before(i, *c02.kt(k)) <= refs_before(
                j, *c02.kt(k))), Implies(ident_at(it, i)[2], refs_before(
                    i, *c02.kt(ident_at(it, i)[1])) < refs_before(j, *c02.kt(
                        ident_at(it, i)[1])))), 0, j)
    j = it.fresh("j", z3.IntSort())
    refs_step(it, j)
    it.oblige("counting: induction", Implies(And(j >= 0, j < n, claim(j)), claim(j + 1)))
    it._addfacts([forall_int(it, claim, 0, n)])


CONTEXT = Contract("subsetter.metadata:DatabaseMetadata.sql_build_context", setup=ctx_setup,
                   requires=ctx_req, ensures=ctx_post, run=ctx_run)

# ------------------------------------------------------------ which databases make copies
FROM_ENGINE = Contract(
    "subsetter.metadata:DatabaseMetadata.from_engine#copies", name="DatabaseMetadata.from_engine",
    setup=c14.fe_setup,
    requires=c14.fe_requires,
    ensures=lambda it, a, r: {
        "MySQL, which cannot open a temporary table twice, gets copies": Implies(eq(
            it, it.getattr(it.getattr(a.engine, "dialect"), "name"), "mysql"),
            Not(V.term(field(it, r.items[0], "supports_temp_reopen"), BOOL))),
        "no temporary tables yet": forall_ty(it, TTEMPKEY, lambda k: Not(has_temp(
            it, field(it, r.items[0], "temp_tables"), k)))},
    models=c14.FROM_ENGINE.models, loops=c14.FROM_ENGINE.loops)


def has_temp(it, d, k):
    return V.FALSE if empty_dict(it, d) else mem(it, d, k)


MODELS = OUT_MODELS
AXIOMS = [name_axioms, clean_axioms, literal_facts]
CONTRACTS = [GEN, INIT, CREATE, CONTEXT, MATERIALIZE, MAT_ORDER, FROM_ENGINE]
ALL = [TOPO, PARSE, MAT_ORDER]
ASSUMPTIONS = [
    "letter case: lower() of ASCII text works character by character; databases compare "
    "identifiers with or without regard to ASCII letter case, and keep at least 63 bytes of them",
    "a temporary table made by CREATE TEMPORARY TABLE starts empty, and INSERT ... SELECT adds "
    "the rows of the SELECT (the database)",
    "no other part of a run makes temporary tables, and source tables do not use the reserved "
    "prefix",
    "a query asks its build context for the same table identifiers whenever it is built (it "
    "keeps no state; C04)",
    "that the copies made suffice for the columns _copy_results looks up on databases that "
    "cannot open a table twice rests on counting joins: bounded part only",
]
TRUSTED = ["sqlalchemy Table, Column, MetaData.create_all, Insert.from_select, Index",
           "str.isascii, str.isalnum, str.join over single characters",
           "pydantic_search: only decides which columns are indexed"]
