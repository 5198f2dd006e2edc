"""_copy_results: what is read from the source and handed to the output (C09, C10)."""
import ast

from contracts.outputs import *
from subsetter import plan_model as PM

TTEMPKEY = TTup(STR, STR, INT)
TFCONF = TEnt("FilterConfig", None)
TMULT = TEnt("Multiplicity", None, fields={"multiplier": INT})
TCOMPACT = TEnt("Compact", None, fields={"start_key": INT})
TCONF = TEnt("SamplerConfig", None, fields={
    "multiplicity": TMULT, "filters": TDict(STR, TSeq(TFCONF)), "compact": TCOMPACT})
TCTX = TEnt("BuildContext", None)
TQUERY = TEnt("Query", None)
TPLAN = TEnt("Plan", None, fields={"queries": TDict(STR, TQUERY)})

# what a statement reads: a plan query, a temporary table, or columns of joined relations
TREL = TEnt("Relation", None)   # a subquery, a sampled table or an alias of one
TEXPR = TEnt("SqlColumn", None)
TCOND = TEnt("JoinCondition", None, fields={"left": TEXPR, "right": TEXPR})
TEXPRS = TSeq(TEXPR)
TSTMT = TEnt("Statement", None)
TTEMP = TEnt("TempTable", None)
TCOLUMNS = TEnt("RelationColumns", None, fields={"rel": TREL})
# kinds of column expression: 0 a column of a relation, 1 the number of the row plus an offset
TEXPR.fields.update({"kind": INT, "rel": TREL, "name": STR, "label_": STR, "offset": INT,
                     "order": TEXPRS})
# kinds of relation: 0 subquery, 1 sampled table, 2 alias of a sampled table, 3 join
TREL.fields.update({"kind": INT, "stmt": TSTMT, "schema": STR, "table": STR,
                    "c": TCOLUMNS, "columns": TCOLUMNS})
TSTMT.fields.update({"exprs": TEXPRS, "from_": TREL})
built = z3.Function("statement_of_query", TQUERY.sort, TSTMT.sort)
selected = z3.Function("select_all_of", TTEMP.sort, TSTMT.sort)
sub_of = z3.Function("subquery_of", TSTMT.sort, TREL.sort)
sampled_rel = z3.Function("sampled_table", V.STR_S, V.STR_S, TREL.sort)
col_expr = z3.Function("column_of", TREL.sort, V.STR_S, TEXPR.sort)
has_ids = z3.Function("has_compact_ids", TSTMT.sort, z3.BoolSort())
# joins of a from clause: outer joined relations and their condition
joined = z3.Function("is_joined", TREL.sort, TREL.sort, z3.BoolSort())
on_left = z3.Function("on_left", TREL.sort, TREL.sort, TEXPR.sort)
on_right = z3.Function("on_right", TREL.sort, TREL.sort, TEXPR.sort)


def attr(it, v, *names):
    for n in names:
        v = it.getattr(v, n)
    return v


def rel_columns(it, v):
    f = z3.Function("columns_of_relation", TREL.sort, TCOLUMNS.sort)
    c = Sym(TCOLUMNS, f(v.t))
    it._addfacts([eq(it, it.getattr(c, "rel"), v)])
    return c


TREL.fields["c"] = TREL.fields["columns"] = rel_columns


def expr_facts(it, e, kind, rel=None, name=None, label=None, offset=None, order=None):
    fs = [num(it.getattr(e, "kind")) == kind]
    if rel is not None:
        fs += [eq(it, it.getattr(e, "rel"), rel), eq(it, it.getattr(e, "name"), name)]
    if label is not None:
        fs.append(eq(it, it.getattr(e, "label_"), label))
    if offset is not None:
        fs.append(num(it.getattr(e, "offset")) == offset)
    if order is not None:
        fs.append(seq_eq(it, it.getattr(e, "order"), order))
    it._addfacts(fs)
    return e


def row_number_over(it, a, kw):
    """the number of the row, in an order"""
    if set(kw) != {"order_by"}:
        raise Unsupported("window of row_number")
    return expr_facts(it, it.make(TEXPR, "row_number"), 1, offset=0, order=kw["order_by"])


def copied(it, r, e, *names):
    return [eq(it, it.getattr(r, f), it.getattr(e, f)) for f in names] + [
        seq_eq(it, it.getattr(r, "order"), it.getattr(e, "order"))]


def rel_column(it, a, kw):
    rel, name = it.getattr(a[0], "rel"), a[1]
    return expr_facts(it, Sym(TEXPR, col_expr(rel.t, V.term(name, STR))), 0, rel, name, name)


def rel_get(it, a, kw):
    cols, name, dflt = a
    if name != SA.SUBSETTER_COMPACT_COLUMN:
        raise Unsupported("columns.get")
    st = attr(it, cols, "rel", "stmt")
    return it.vite(has_ids(st.t), rel_column(it, a, kw), dflt)


TCOLUMNS.methods.update({"__getitem__": rel_column, "get": rel_get})


def expr_label(it, a, kw):
    e, name = a
    r = it.make(TEXPR, "labelled")
    fs = copied(it, r, e, "kind", "rel", "name", "offset")
    it._addfacts(fs + [eq(it, it.getattr(r, "label_"), name)])
    return r


def expr_binop(it, op, a, b):
    if not isinstance(op, (ast.Add, ast.Sub)) or not isinstance(a, Sym) or a.ty is not TEXPR:
        raise Unsupported("arithmetic on columns")
    d = V.term(b, INT)
    r = it.make(TEXPR, "number")
    fs = copied(it, r, a, "kind", "rel", "name")
    off = num(it.getattr(a, "offset"))
    it._addfacts(fs + [num(it.getattr(r, "offset")) == (
        off + d if isinstance(op, ast.Add) else off - d)])
    return r


def expr_compare(it, op, a, b):
    if not isinstance(op, ast.Eq):
        raise Unsupported("comparison of columns")
    c = it.make(TCOND, "on")
    it._addfacts([eq(it, it.getattr(c, "left"), a), eq(it, it.getattr(c, "right"), b)])
    return c


TEXPR.methods.update({"label": expr_label, "__binop__": expr_binop, "__compare__": expr_compare})


TROWNUM = TEnt("RowNumber", None)
TROWNUM.methods["over"] = row_number_over


def subquery(it, a, kw):
    r = Sym(TREL, sub_of(a[0].t))
    x = it.make(TREL, "x")
    it._addfacts([num(it.getattr(r, "kind")) == 0, eq(it, it.getattr(r, "stmt"), a[0]),
                  forall_ty(it, TREL, lambda y: joined(r.t, y.t) == (y.t == r.t))])
    return r


def alias(it, a, kw):
    """a new object, of the same table"""
    r = it.make(TREL, "alias")
    it._addfacts([num(it.getattr(r, "kind")) == 2, Not(joined(it.lookup("select_from").t, r.t)),
                  eq(it, it.getattr(r, "schema"), it.getattr(a[0], "schema")),
                  eq(it, it.getattr(r, "table"), it.getattr(a[0], "table"))])
    return r


TREL.methods["alias"] = alias


def select_sample(it, a, kw):
    """all of a sampled table"""
    if kw or len(a) != 1:
        raise Unsupported("select")
    temps = field(it, it.args.meta, "temp_tables")
    it.oblige("a sampled table is read", num(it.getattr(a[0], "kind")) == 1)
    k = VTup([it.getattr(a[0], "schema"), it.getattr(a[0], "table"), 0])
    return Sym(TSTMT, selected(it.dict_get(it._cont(temps), k).t))


TREL.methods["select"] = select_sample


def join(it, a, kw):
    f, d, on = a
    if kw.get("isouter") is not True:
        raise Unsupported("inner join")
    it.oblige("a relation is joined once", Not(joined(f.t, d.t)))
    r = it.make(TREL, "join")
    l, rt = it.getattr(on, "left").t, it.getattr(on, "right").t
    it._addfacts([num(it.getattr(r, "kind")) == 3, forall_ty(it, TREL, lambda y: And(
        joined(r.t, y.t) == Or(joined(f.t, y.t), y.t == d.t),
        on_left(r.t, y.t) == z3.If(y.t == d.t, l, on_left(f.t, y.t)),
        on_right(r.t, y.t) == z3.If(y.t == d.t, rt, on_right(f.t, y.t))))])
    return r


def select(it, a, kw):
    s = it.make(TSTMT, "select")
    exprs = it.getattr(s, "exprs")
    it._addfacts([seq_eq(it, exprs, VSeq(it.iter_pieces(a[0].v) if isinstance(
        a[0], V.Star) else [Elem(x) for x in a]))])
    return s


def select_from(it, a, kw):
    s = it.make(TSTMT, "statement")
    it._addfacts([seq_eq(it, it.getattr(s, "exprs"), it.getattr(a[0], "exprs")), eq(
        it, it.getattr(s, "from_"), a[1])])
    return s


TSTMT.methods.update({"subquery": subquery, "select_from": select_from})
TTEMP.methods["select"] = lambda it, a, kw: Sym(TSTMT, selected(a[0].t))
TQUERY.methods["build"] = lambda it, a, kw: Sym(TSTMT, built(a[0].t))


def build_ctx(it, a, kw):
    """the relation of a sampled table"""
    s, t, i = a[0].items
    k = VTup([s, t, i])
    it.oblige("the sampled table is materialised", mem(it, field(
        it, it.args.meta, "temp_tables"), k))
    if i != 0:
        raise Unsupported("sampled table id")
    r = Sym(TREL, sampled_rel(V.term(s, STR), V.term(t, STR)))
    it._addfacts([num(it.getattr(r, "kind")) == 1, eq(it, it.getattr(r, "schema"), s),
                  eq(it, it.getattr(r, "table"), t)])
    return r


def identifier(it, a, kw):
    if a or kw.get("sampled") is not True or set(kw) - {
            "table_schema", "table_name", "sampled", "sampled_index"}:
        raise Unsupported("table identifier")
    return VTup([kw["table_schema"], kw["table_name"], kw.get("sampled_index", 0)])


TPK.iter_ = lambda it, v: it._cont(it.getattr(v, "columns"))

# ------------------------------------------------------------ reading and handing over
TRESULT = TEnt("Result", None, fields={"stmt": TSTMT, "columns": TSTR, "rows": TSeq(TROW)},
               methods={"keys": lambda it, a, kw: it.getattr(a[0], "columns")})
TRESULT.iter_ = lambda it, v: it._cont(it.getattr(v, "rows"))
TVIEW = TEnt("View", F.FilterView, fields={"cols": TSTR, "filters": TSeq(TFCONF)})
TCONN = TEnt("SourceConn", None)


def execute(it, a, kw):
    r = it.make(TRESULT, "result")
    it._addfacts([eq(it, it.getattr(r, "stmt"), a[1])])
    it.set_content(it.args._res, VSeq([Elem(r)]))
    return r


TCONN.methods.update({"execution_options": lambda it, a, kw: a[0], "execute": execute})


def construct(it, a, kw):
    """a filter view of these columns and filters (contract of construct_filter: C06)"""
    v = it.make(TVIEW, "view")
    it._addfacts([seq_eq(it, it.getattr(v, "cols"), a[1]), seq_eq(
        it, it.getattr(v, "filters"), a[2])])
    return v


def base_statement(it, a, t):
    """the rows of a planned table"""
    s, n = Sym(STR, LEFT(t.t)), Sym(STR, RIGHT(t.t))
    k = VTup([s, n, 0])
    temps = field(it, a.meta, "temp_tables")
    q = it.dict_get(it._cont(it.getattr(a.plan, "queries")), t)
    return z3.If(mem(it, temps, k), selected(it.dict_get(it._cont(temps), k).t), built(q.t))


def key_of(t):
    return VTup([Sym(STR, LEFT(t.t)), Sym(STR, RIGHT(t.t))])


def compacted(it, a, k, c):
    """column c of the table is numbered anew"""
    cc = field(it, a.self, "compact_columns")
    if empty_dict(it, cc):
        return V.FALSE
    return And(mem(it, cc, k), mem(it, it.dict_get(it._cont(cc), k), c))


def remote(it, a, k, c, fn=None):
    """column c of table k refers to a renumbered column: fn(table, column)"""
    t = it.dict_get(it._cont(tables_of(it, a.meta)), k)
    ks = fks(it, t)

    def pair(j, p):
        fk = at(it, ks, j)
        d, y = fk_dst(it, fk), at(it, it.getattr(fk, "dst_columns"), p)
        return And(p < slen(it, it.getattr(fk, "dst_columns")), eq(it, at(it, it.getattr(
            fk, "columns"), p), c), compacted(it, a, d, y), fn(d, y) if fn else V.TRUE)
    return exidx(it, lambda j: exists_int(it, lambda p: pair(j, p), 0, slen(
        it, it.getattr(at(it, ks, j), "columns"))), ks)


def numbered(it, e, sub, k, start):
    """expression e numbers the rows from start on, in the order of the table's primary key"""
    t = it.dict_get(it._cont(tables_of(it, it.args.meta)), k)
    pk = it.getattr(it.getattr(t, "table_obj"), "primary_key")
    cols, order = it.getattr(pk, "columns"), it.getattr(e, "order")
    by = lambda j: at(it, order, j)
    return And(num(it.getattr(e, "kind")) == 1, num(it.getattr(e, "offset")) == start - 1,
               slen(it, order) == slen(it, cols), idx(it, lambda j: And(
                   num(it.getattr(by(j), "kind")) == 0, eq(it, it.getattr(by(j), "rel"), sub), eq(
                       it, it.getattr(by(j), "name"), it.getattr(at(it, cols, j), "name"))), cols))


def expr_ok(it, a, k, e, c, sub, frm):
    """expression e gives column c of table k"""
    isc = compacted(it, a, k, c)
    rem = remote(it, a, k, c)
    r = it.getattr(e, "rel")
    start = num(attr(it, field(it, a.self, "config"), "compact", "start_key"))
    col = lambda x, rel, name: And(num(it.getattr(x, "kind")) == 0, eq(
        it, it.getattr(x, "rel"), rel), eq(it, it.getattr(x, "name"), name))
    L, R = Sym(TEXPR, on_left(frm.t, r.t)), Sym(TEXPR, on_right(frm.t, r.t))
    ids = SA.SUBSETTER_COMPACT_COLUMN
    base = it.getattr(sub, "stmt")
    temps, k0 = field(it, a.meta, "temp_tables"), VTup([k.items[0], k.items[1], 0])
    return And(eq(it, it.getattr(e, "label_"), c), Implies(And(isc, mem(it, temps, k0)), has_ids(
        base.t)), z3.If(
        isc, z3.If(has_ids(base.t), col(e, sub, ids), numbered(it, e, sub, k, start)),
        z3.If(rem, And(
            num(it.getattr(e, "kind")) == 0, eq(it, it.getattr(e, "name"), ids),
            joined(frm.t, r.t), r.t != sub.t, col(L, sub, c), remote(
                it, a, k, c, lambda d, y: And(col(R, r, y), eq(it, it.getattr(
                    r, "schema"), d.items[0]), eq(it, it.getattr(r, "table"), d.items[1])))),
            col(e, sub, c))))


def expr_at(it, seq, i):
    c = it._cont(seq)
    if isinstance(it.seq_len(c), int) and it.seq_len(c) == 0:
        return Sym(TEXPR, z3.Const("no_expression", TEXPR.sort))
    return at(it, seq, i)


def own_joins(it, exprs, n, a, k):
    """each reference has its own joined table"""
    isrem = lambda i: And(Not(compacted(it, a, k, it.getattr(expr_at(it, exprs, i), "label_"))), remote(
        it, a, k, it.getattr(expr_at(it, exprs, i), "label_")))
    rel = lambda i: it.getattr(expr_at(it, exprs, i), "rel").t
    return forall_int(it, lambda i: forall_int(it, lambda j: Implies(
        And(isrem(i), isrem(j)), rel(i) != rel(j)), 0, i), 0, n)


def columns_list(it, a, k):
    """[name of column i] of a table"""
    ob = it.getattr(it.dict_get(it._cont(tables_of(it, a.meta)), k), "table_obj")
    return ncols(ob.t), lambda i: it.getattr(Sym(TDCOL, col_at(ob.t, i)), "name")


def output(it, a, kw):
    """rows of a table are handed to the output"""
    g = it.args
    me, schema, table, columns, rows = a
    t = it.lookup("table")
    res = at(it, g._res, 0)
    k = key_of(t)
    it.oblige("rows go to the table they were read for", And(eq(it, schema, k.items[0]), eq(
        it, table, k.items[1])))
    it.oblige("each table is written once", Not(mem(it, g._sent, t)))
    it.oblige("columns in the order of the rows", seq_eq(it, columns, it.getattr(res, "columns")))
    it.oblige("every row, in order", seq_eq(it, VSeq(it.iter_pieces(rows)), it.getattr(
        res, "rows")))
    view = kw["filter_view"]
    it.oblige("filters of these columns", seq_eq(it, it.getattr(view, "cols"), it.getattr(
        res, "columns")))
    cf = it.getattr(field(it, g.self, "config"), "filters")
    it.oblige("the filters configured for the table", z3.If(mem(it, cf, t), seq_eq(
        it, it.getattr(view, "filters"), it.dict_get(it._cont(cf), t)), slen(
            it, it.getattr(view, "filters")) == 0))
    mult, cols = kw["multiplier"], kw["column_multipliers"]
    tm = g.table_column_multipliers
    m = num(attr(it, field(it, g.self, "config"), "multiplicity", "multiplier"))
    it.oblige("copies only of multiplied tables", V.term(mult, INT) == z3.If(mem(
        it, tm, t), m, 1))
    isnone = cols.isnone if isinstance(cols, SymOpt) else (
        V.TRUE if cols is None else V.FALSE)
    it.oblige("its multiplied columns", And(isnone == Not(mem(it, tm, t)), Implies(
        mem(it, tm, t), V.TRUE if cols is None else set_same(it, cols.val if isinstance(
            cols, SymOpt) else cols, it.dict_get(it._cont(tm), t)))))
    # what is read
    st, base = it.getattr(res, "stmt"), base_statement(it, g, t)
    n, name = columns_list(it, g, k)
    any_ = Or(exists_ty(it, STR, lambda c: compacted(it, g, k, c)), exists_ty(
        it, STR, lambda c: remote(it, g, k, c)))
    it.oblige("rows of the table's query", Implies(Not(any_), st.t == base))
    if it.ghost["compacting"]:
        sub, frm, ex = Sym(TREL, sub_of(base)), it.getattr(st, "from_"), it.getattr(st, "exprs")
        it._addfacts([eq(it, it.getattr(sub, "stmt"), Sym(TSTMT, base))])
        it.oblige("one expression per column", Implies(any_, slen(it, ex) == n))
        it.oblige("renumbered columns and references to them", Implies(any_, forall_int(
            it, lambda i: expr_ok(it, g, k, at(it, ex, i), name(i), sub, frm), 0, n)))
        it.oblige("each reference has its own join", Implies(any_, own_joins(it, ex, n, g, k)))
    it.set_add(g._sent, t)


def set_same(it, x, y):
    return forall_ty(it, STR, lambda s: mem(it, x, s) == mem(it, y, s))


TOUTPUT = TEnt("Output", SA.SamplerOutput, methods={"output_result_set": output})


def cr_setup(compacting):
    def setup(it):
        it.ghost["compacting"] = compacting
        me = it.alloc(VInst(SA.Sampler, {
            "config": it.make(TCONF, "config"),
            "compact_columns": it.alloc(it.make(TDict(KEY, TSet(STR)), "compact") if compacting
                                        else VDict(KEY, TSet(STR), None, [])),
            "cached_table_sizes": it.alloc(it.make(TDict(KEY, INT), "sizes"))}))
        meta = make_meta(it, temp_tables=it.alloc(it.make(TDict(TTEMPKEY, TTEMP), "temps")))
        return {"self": me, "output": it.make(TOUTPUT, "output"), "conn": it.make(TCONN, "conn"),
                "meta": meta, "plan": it.make(TPLAN, "plan"),
                "insert_order": it.make(TSeq(STR), "order"),
                "table_column_multipliers": it.make(TDict(STR, TSet(STR)), "tm"),
                "_sent": it.alloc(VSet(STR)), "_res": it.alloc(VSeq([]))}
    return setup


def ids_ready(it, a):
    """what _materialize_tables leaves behind"""
    temps = field(it, a.meta, "temp_tables")
    zero = lambda k: VTup([k.items[0], k.items[1], 0])
    return {
        "tables renumbered keys refer to are materialised": forall_ty(it, STR, lambda t: Implies(
            mem(it, it.getattr(a.plan, "queries"), t), forall_ty(it, STR, lambda c: Not(remote(
                it, a, key_of(t), c, lambda d, y: Not(mem(it, temps, zero(d)))))))),
        "materialised tables that are renumbered have their ids": forall_ty(
            it, KEY, lambda k: Implies(And(mem(it, temps, zero(k)), exists_ty(
                it, STR, lambda c: compacted(it, a, k, c))), has_ids(selected(it.dict_get(
                    it._cont(temps), zero(k)).t)))),
    }


def cr_req(it, a):
    q = it.getattr(a.plan, "queries")
    d = meta_inv(it, a.meta)
    d["planned tables exist"] = forall_ty(it, STR, lambda t: Implies(mem(it, q, t), And(
        hasdot(t.t), mem(it, tables_of(it, a.meta), key_of(t)))))
    d["names of the tables to write"] = idx(it, lambda i: hasdot(at(
        it, a.insert_order, i).t), a.insert_order)
    d["tables to write are distinct"] = distinct_cols(it, a.insert_order)
    if it.ghost["compacting"]:
        # established by _materialize_tables
        d.update(ids_ready(it, a))
        d["column names are distinct"] = forall_ty(it, TOBJ, lambda o: forall_int(
            it, lambda i: forall_int(it, lambda j: it.getattr(Sym(TDCOL, col_at(
                o.t, i)), "name").t != it.getattr(Sym(TDCOL, col_at(o.t, j)), "name").t,
                0, i), 0, ncols(o.t)))
    return d


def sent_is(it, upto):
    a = it.args
    return forall_ty(it, STR, lambda t: mem(it, a._sent, t) == And(mem(it, it.getattr(
        a.plan, "queries"), t), exists_int(it, lambda i: eq(it, at(
            it, a.insert_order, i), t), 0, upto)))


def cr_post(it, a, r):
    return {"exactly the planned tables with a destination": sent_is(it, slen(
        it, a.insert_order))}


def tables_inv(it, old, i):
    return {"tables written in order": sent_is(it, i.t)}


def cols_inv(it, old, i):
    a, t = it.args, it.lookup("table")
    k = key_of(t)
    ex, frm, sub = it.lookup("cols"), it.lookup("select_from"), it.lookup("subq")
    n, name = columns_list(it, a, k)
    js = it.lookup("joined_tables")
    kind = lambda x: num(it.getattr(x, "kind"))
    return {
        "one expression per column so far": slen(it, ex) == i.t,
        "expressions so far": forall_int(it, lambda j: expr_ok(
            it, a, k, expr_at(it, ex, j), name(j), sub, frm), 0, i.t),
        "each reference has its own join": own_joins(it, ex, i.t, a, k),
        "only relations taken": forall_ty(it, TREL, lambda x: Implies(joined(frm.t, x.t), Or(
            x.t == sub.t, mem(it, js, x), kind(x) == 2))),
    }


COPY_RESULTS = lambda compacting: Contract(
    "subsetter.sampler:Sampler._copy_results", setup=cr_setup(compacting), requires=cr_req,
    ensures=cr_post,
    models={SA.tqdm: lambda it, a, kw: a[0], sa.join: join, sa.select: select,
            ("attr", id(sa.func), "row_number"): V.Native(
                lambda it, a, kw: it.make(TROWNUM, "rn"), "row_number"),
            PM.SQLTableIdentifier: identifier,
            (MD.DatabaseMetadata, "sql_build_context"): lambda it, a, kw: V.Native(
                build_ctx, "build context"),
            F.FilterViewChain.construct_filter.__func__: construct},
    loops={0: LoopSpec(name="tables", done="index", inv=tables_inv, cells={
        (lambda it: it.args._sent): TSet(STR), (lambda it: it.args._res): TSeq(TRESULT)}),
           **({3: LoopSpec(name="columns", done="index", inv=cols_inv, types={
               "select_from": TREL}, cells={"cols": TEXPRS, "joined_tables": TSet(TREL)})}
              if compacting else {})})

COPY_ASSUMPTIONS = [
    "a SELECT statement yields the rows and columns it names (SQLAlchemy and the database)",
    "planned tables exist in the schema; their names split at the first dot",
]
COPY_TRUSTED = ["sqlalchemy Connection.execute, Result.keys and iteration", "tqdm iterates unchanged"]
