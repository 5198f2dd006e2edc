"""Writing the rows of one table (C07, C08, C10)."""
import json
import os

from contracts.meta import *
from subsetter import filters as F
from subsetter import sampler as SA

from contracts.c06 import VALIDATE, seq_eq

TSTR = TSeq(STR, "tuple")
TROW = TEnt("SourceRow", None)
raw_at = z3.Function("source_value", TROW.sort, z3.IntSort(), V.VAL_S)
TROW.iter_ = lambda it, v: VSeq([BaseP(slen(it, it.args.columns), lambda i: Sym(
    VAL, raw_at(v.t, i)))])
# the values a filter chain yields for a row, one per output column (contract of C06)
fv_at = z3.Function("filtered_at", TROW.sort, z3.IntSort(), V.VAL_S)
fv_named = z3.Function("filtered", TROW.sort, V.STR_S, V.VAL_S)
# a written record: column name -> value
TREC = TEnt("Record", None)
rec_has = z3.Function("rec_has", TREC.sort, V.STR_S, z3.BoolSort())
rec_val = z3.Function("rec_val", TREC.sort, V.STR_S, V.VAL_S)
# ghost: the number of records of the first r rows, r * multiplier
POS = z3.Function("copies_of_first", z3.IntSort(), z3.IntSort())
# ghost: position k belongs to row k // multiplier, copy k % multiplier
ROW = z3.Function("row_at", z3.IntSort(), z3.IntSort())
COPY = z3.Function("copy_at", z3.IntSort(), z3.IntSort())


def view_apply(it, a, kw):
    view, row = a
    if not isinstance(row, Sym):
        v = at(it, row, z3.Int("some_column"))  # a copy of the row
        it.oblige("the filters get the whole row", slen(it, row) == slen(it, it.args.columns))
        if not (isinstance(v, Sym) and z3.is_app(v.t) and v.t.decl().eq(raw_at)):
            raise Unsupported("filters applied to something other than the source row")
        row = Sym(TROW, v.t.arg(0))
    n = slen(it, it.getattr(view, "columns_out"))
    r = VSeq([BaseP(n, lambda i: Sym(VAL, fv_at(row.t, i)))])
    return it.alloc(r)


TFVIEW = TEnt("FView", F.FilterView, fields={"columns_in": TSTR, "columns_out": TSTR},
              methods={"filter_view": view_apply})


def record_of(it, d):
    """the record of a dict that is written"""
    rec = it.make(TREC, "rec")
    c = it.freeze(d)
    it._addfacts([forall_ty(it, STR, lambda s: And(
        rec_has(rec.t, s.t) == mem(it, c, s), Implies(mem(it, c, s), rec_val(
            rec.t, s.t) == V.term(it.dict_get(it._cont(c), s), VAL))))])
    return rec


def cols_of(it):
    return it.getattr(it.args.filter_view, "columns_out")


def multiplied(it, c):
    cm = it.args.column_multipliers
    if cm is None:
        return V.FALSE
    return mem(it, cm, c)


def m_of(it):
    return V.term(it.args.multiplier, INT)


def mult_value(it, x, c, i):
    """value of column c in copy i"""
    return z3.If(And(multiplied(it, c), x != V.Val_none), V.Val_mkint(
        V.Val_int(x) * m_of(it) + i), x)


def plain_offsets(it, x, c):
    return x


def expected(it, row, i, c):
    """value of output column c in copy i of a row"""
    return it.ghost["shift"](it, mult_value(it, fv_named(row.t, c.t), c, i), c)


def correct(it, rec, row, i):
    """rec is copy i of row"""
    return forall_ty(it, STR, lambda s: And(
        rec.has(s) == is_written(s.t),
        Implies(is_written(s.t), rec.val(s) == expected(it, row, i, s))))


# definition: the columns that are to be written
is_written = z3.Function("is_written", V.STR_S, z3.BoolSort())


def written_def(it):
    return forall_ty(it, STR, lambda s: is_written(s.t) == And(
        mem(it, cols_of(it), s), Not(it.ghost["computed"](it, s))))


def rec_at(it, seq, k):
    c = it._cont(seq)
    if isinstance(it.seq_len(c), int) and it.seq_len(c) == 0:
        return z3.Const("no_record", TREC.sort)
    return at(it, seq, k).t


def records(it, seq, pred, lo=None, hi=None):
    """pred(k, record, column) for every record of seq and every column"""
    k = z3.Int(it.fresh_name("k"))
    s, bs = it.placeholder(STR, "s")
    hi = slen(it, seq) if hi is None else hi
    out = {}

    def body():
        out["rec"] = rec_at(it, seq, k)
        return Implies(And(k >= (0 if lo is None else lo), k < hi), pred(k, out["rec"], s))
    f = it.forall([k] + list(bs), body)
    if z3.is_quantifier(f) and not z3.is_app_of(out["rec"], z3.Z3_OP_ITE):
        with it.under([k] + list(bs)):
            b = body()
        pats = [rec_has(out["rec"], s.t), rec_val(out["rec"], s.t)]
        if z3.is_app(out["rec"]) and out["rec"].num_args():
            return z3.ForAll([k] + list(bs), b, patterns=pats)
    return f


def is_copy(it, rec, s, row, i):
    """rec has what copy i of row has for column s"""
    return And(rec_has(rec, s.t) == is_written(s.t), Implies(
        is_written(s.t), rec_val(rec, s.t) == expected(it, row, i, s)))


def agree(x, y, s):
    return And(rec_has(x, s.t) == rec_has(y, s.t), Implies(
        rec_has(x, s.t), rec_val(x, s.t) == rec_val(y, s.t)))


def pos_step(it, r):
    """definitions of POS, ROW and COPY, at row r"""
    it._addfacts([POS(0) == 0, POS(r + 1) == POS(r) + m_of(it), forall_int(
        it, lambda k: And(ROW(k) == r, COPY(k) == k - POS(r)), POS(r), POS(r + 1))])


def all_correct(it, seq, base=0):
    """each record is the copy of the row that belongs at its position (base: records before)"""
    return records(it, seq, lambda k, rec, s: is_copy(it, rec, s, at(
        it, it.args.result_set, ROW(base + k)), COPY(base + k)))


# ------------------------------------------------------------ output to JSON files
def dir_setup(multiplying):
    def setup(it):
        it.ghost["shift"] = plain_offsets
        it.ghost["computed"] = lambda it, c: V.FALSE
        me = it.alloc(VInst(SA.DirectoryOutput, {"directory": it.make(STR, "directory")}))
        d = {"self": me, "schema": it.make(STR, "schema"), "table_name": it.make(STR, "table"),
             "columns": it.make(TSTR, "columns"), "result_set": it.make(TSeq(TROW), "rows"),
             "filter_view": it.make(TFVIEW, "view"), "multiplier": it.make(INT, "multiplier"),
             "column_multipliers": it.make(TSet(STR), "mcols") if multiplying else None,
             "_file": it.alloc(it.make(TSeq(TREC), "file")), "_line": it.alloc(VSeq([]))}
        return d
    return setup


def distinct_cols(it, cols):
    return idx(it, lambda k: idx(it, lambda l: Implies(k < l, Not(eq(
        it, at(it, cols, k), at(it, cols, l)))), cols), cols)


def row_req(it, a):
    cols = cols_of(it)
    d = {"columns to write": written_def(it),
         "output columns are distinct": distinct_cols(it, cols),
         "at least one copy": m_of(it) >= 1,
         "values by column name": forall_ty(it, TROW, lambda w: idx(it, lambda j: fv_named(
             w.t, at(it, cols, j).t) == fv_at(w.t, j), cols))}
    if a.column_multipliers is not None:
        d["multiplied columns hold integers"] = forall_ty(it, TROW, lambda w: forall_ty(
            it, STR, lambda c: Implies(And(mem(it, cols, c), multiplied(it, c)), Or(
                fv_named(w.t, c.t) == V.Val_none, V.Val_isint(fv_named(w.t, c.t))))))
    return d


TFILE = TEnt("OutFile", None)


def file_open(it, args, kw):
    path, mode = args[0], args[1]
    a = it.args
    it.oblige("the file is named after the table", eq(it, path, file_path(
        it, [field(it, a.self, "directory"), file_name(it, [a.schema, a.table_name])], {})))
    if mode == "w":
        it.set_content(a._file, VSeq([]))
    return it.make(TFILE, "file")


def file_name(it, vals):
    return Sym(STR, z3.Function("json_name", V.STR_S, V.STR_S, V.STR_S)(
        V.term(vals[0], STR), V.term(vals[1], STR)))


def file_path(it, a, kw):
    return Sym(STR, z3.Function("path_join", V.STR_S, V.STR_S, V.STR_S)(
        V.term(a[0], STR), V.term(a[1], STR)))


def json_dump(it, a, kw):
    it.append(it.args._line, record_of(it, a[0]))


def file_write(it, a, kw):
    if a[1] != "\n":
        raise Unsupported("text written to the output file")
    line = it.args._line
    it.oblige("one record on each line", slen(it, line) == 1)
    it.append(it.args._file, at(it, line, 0))
    it.set_content(line, VSeq([]))


TFILE.methods.update({"write": file_write, "__enter__": lambda it, a, kw: a[0],
                      "__exit__": lambda it, a, kw: None})


def parts(it, log, pend):
    """[(name, records, records before)]"""
    ps = [("written", log(it), 0)]
    if pend:
        ps.append(("waiting", pend(it), slen(it, log(it))))
    return ps


def total_len(it, log, pend):
    return slen(it, log(it)) + (slen(it, pend(it)) if pend else 0)


def rows_inv(log, pend):
    """outer loop: the records of the first rows"""
    def inv(it, old, r):
        r = r.t
        pos_step(it, r.arg(0) if z3.is_add(r) else r)
        d = {"as many records as copies": total_len(it, log, pend) == POS(r)}
        for nm, seq, base in parts(it, log, pend):
            d[f"{nm} records of the rows so far"] = all_correct(it, seq, base)
        return d
    return inv


def copies_inv(log, pend):
    def inv(it, old, i):
        row = it.lookup("row")
        o = at_state(it, old, lambda: total_len(it, log, pend))
        d = {"a record for each copy so far": total_len(it, log, pend) == o + i.t}
        rows = it.args.result_set
        for nm, seq, base in parts(it, log, pend):
            d[f"{nm} records of earlier rows"] = records(it, seq, lambda k, rec, s: Implies(
                base + k < o, is_copy(it, rec, s, at(it, rows, ROW(base + k)), COPY(base + k))))
            d[f"{nm} records of the copies so far"] = records(it, seq, lambda k, rec, s: Implies(
                base + k >= o, is_copy(it, rec, s, row, base + k - o)))
        return d
    return inv


def columns_inv(it, old, k):
    """columns multiplied so far"""
    out, ix = it.lookup("out_row"), it.lookup("multiplied_indexes")
    row, i = it.lookup("row"), V.term(it.lookup("iteration"), INT)
    cols = it.lookup("columns_out")
    n = it.seq_len(it._cont(ix))
    seen = lambda j: V.FALSE if isinstance(n, int) and n == 0 else exists_int(
        it, lambda l: num(at(it, ix, l)) == j, 0, k.t)
    base = lambda j: fv_named(row.t, at(it, cols, j).t)
    return {"one value per column": slen(it, out) == slen(it, cols),
            "multiplied so far": idx(it, lambda j: V.term(at(it, out, j), VAL) == z3.If(
                seen(j), mult_value(it, base(j), at(it, cols, j), i), base(j)), cols)}


def offsets_inv(it, old, k):
    """columns shifted so far"""
    out, offs = it.lookup("out_row"), it.lookup("offsets")
    cols = it.lookup("columns_out")
    out0 = at_state(it, old, lambda: it.freeze(out))
    n = it.seq_len(it._cont(offs))
    seen = lambda j: V.FALSE if isinstance(n, int) and n == 0 else exists_int(
        it, lambda l: num(at(it, offs, l).items[0]) == j, 0, k.t)
    base = lambda j: V.term(at(it, out0, j), VAL)
    return {"one value per column": slen(it, out) == slen(it, cols),
            "shifted so far": idx(it, lambda j: V.term(at(it, out, j), VAL) == z3.If(
                seen(j), shifted(it, base(j), at(it, cols, j)), base(j)), cols)}


def dir_post(it, a, r):
    n = slen(it, a.result_set)
    return {"as many records as rows and copies": slen(it, a._file) == POS(n),
            "each row once per copy, in order": all_correct(it, a._file),
            "no partial line": slen(it, a._line) == 0}


F_LOG = lambda it: it.args._file
F_CELLS = {F_LOG: TSeq(TREC), (lambda it: it.args._line): TSeq(TREC)}


def with_line(inv):
    def f(it, old, *x):
        d = inv(it, old, *x)
        d["no partial line"] = slen(it, it.args._line) == 0
        return d
    return f


def directory(multiplying):
    return Contract(
        "subsetter.sampler:DirectoryOutput.output_result_set", setup=dir_setup(multiplying),
        requires=row_req, ensures=dir_post,
        models={os.path.join: file_path, open: file_open, json.dump: json_dump},
        loops={0: LoopSpec(name="rows", done="index", types={"row": TROW}, cells=F_CELLS,
                           inv=with_line(rows_inv(F_LOG, None))),
               1: LoopSpec(name="copies", done="index", types={"iteration": INT}, cells=F_CELLS,
                           inv=with_line(copies_inv(F_LOG, None))),
               2: LoopSpec(name="columns", done="index", cells={"out_row": TSeq(VAL)},
                           inv=columns_inv)})


# ------------------------------------------------------------ output to a database
computed = z3.Function("computed", TOBJ.sort, V.STR_S, z3.BoolSort())
has_column = z3.Function("has_column", TOBJ.sort, V.STR_S, z3.BoolSort())
TCOLL = TEnt("Columns", None, fields={"of": TOBJ})
TDCOL = TEnt("DestColumn", None, fields={"of": TOBJ, "name": STR, "computed": BOOL})
col_of = z3.Function("column_named", TOBJ.sort, V.STR_S, TDCOL.sort)


def coll_get(it, a, kw):
    coll, name = a
    ob, s = it.getattr(coll, "of"), V.term(name, STR)
    it.oblige("the column exists", has_column(ob.t, s))
    c = Sym(TDCOL, col_of(ob.t, s))
    it._addfacts([eq(it, it.getattr(c, "of"), ob), eq(it, it.getattr(c, "name"), name),
                  V.term(it.getattr(c, "computed"), BOOL) == computed(ob.t, s)])
    return c


TCOLL.methods.update({
    "__contains__": lambda it, a, kw: Sym(BOOL, has_column(
        it.getattr(a[0], "of").t, V.term(a[1], STR))), "__getitem__": coll_get})
coll = z3.Function("columns_of", TOBJ.sort, TCOLL.sort)


def obj_columns(it, v):
    c = Sym(TCOLL, coll(v.t))
    it._addfacts([eq(it, it.getattr(c, "of"), v)])
    return c


TOBJ.fields["columns"] = obj_columns
TOBJ.fields["autoincrement_column"] = TOpt(TCOL)
remapped = [z3.Function(f"remap_{x}", V.STR_S, V.STR_S, V.STR_S) for x in ("schema", "table")]


def remap(it, a, kw=None):
    return VTup([Sym(STR, f(V.term(a[1], STR), V.term(a[2], STR))) for f in remapped])


TDIALECT = TEnt("Dialect", None, fields={"name": STR})
TENGINE = TEnt("OutputEngine", None, fields={"dialect": TDIALECT})
TDBCONN = TEnt("OutputConn", None)
TINSERT = TEnt("Insert", None, fields={"strategy": STR, "table": TOBJ})


def db_table(it, a):
    ts = tables_of(it, field(it, a.self, "meta"))
    return it.dict_get(it._cont(ts), remap(it, [None, a.schema, a.table_name]))


def db_obj(it, a):
    return it.getattr(db_table(it, a), "table_obj")


def db_strategy(it, a):
    """the strategy rows of this table are to be inserted with"""
    skip = And(V.term(field(it, a.self, "merge"), BOOL), mem(
        it, field(it, a.self, "passthrough_tables"), key_name(it, VTup(
            [a.schema, a.table_name]))))
    return z3.If(skip, V.term("skip", STR), V.term(field(it, a.self, "conflict_strategy"), STR))


def insert_new(it, a, kw):
    strategy, table, columns = a
    s = it.make(TINSERT, "insert")
    it._addfacts([eq(it, it.getattr(s, "strategy"), strategy),
                  eq(it, it.getattr(s, "table"), table)])
    it.oblige("the statement writes the output columns", And(
        forall_ty(it, STR, lambda c: mem(it, columns, c) == is_written(c.t))))
    return s


def db_execute(it, a, kw):
    conn, stmt, rows = a
    it.oblige("rows are inserted into the destination table", eq(
        it, it.getattr(stmt, "table"), db_obj(it, it.args)))
    if it.ghost["strategy"]:
        it.oblige("rows are inserted with the configured strategy", V.term(it.getattr(
            stmt, "strategy"), STR) == db_strategy(it, it.args))
    n = slen(it, it.args._sent)
    new = append_records(it, it.args._sent, rows)
    sent_are_waiting(it, new, n, rows)
    it.set_content(it.args._sent, it.freeze(new))


def append_records(it, log, rows):
    """log followed by the records of the dicts in rows"""
    new = it.make(TSeq(TREC), "log")
    n, m = slen(it, log), slen(it, rows)

    def rec_is(k, rec, s):
        d = it._cont(at(it, rows, k - n))
        return And(rec_has(rec, s.t) == mem(it, d, s), Implies(mem(it, d, s), rec_val(
            rec, s.t) == V.term(it.dict_get(d, s), VAL)))
    it._addfacts([slen(it, new) == n + m, forall_int(it, lambda k: rec_at(it, new, k) == rec_at(
        it, log, k), 0, n), records(it, new, rec_is, n)])
    return new


def sent_are_waiting(it, new, n, rows):
    """the inserted records are the waiting ones"""
    buf = it.lookup("buffer")
    it.oblige("every waiting row is inserted", slen(it, rows) == slen(it, buf))
    it.oblige("the waiting rows are inserted", records(it, new, lambda k, rec, s: agree(
        rec, rec_at(it, buf, k - n), s), n))


def db_commit(it, a, kw):
    it.set_content(it.args._log, it.content(it.args._sent))


TDBCONN.methods.update({
    "__enter__": lambda it, a, kw: a[0], "__exit__": lambda it, a, kw: it.set_content(
        it.args._sent, it.content(it.args._log)),
    "execute": db_execute, "commit": db_commit})
TENGINE.methods["connect"] = lambda it, a, kw: it.make(TDBCONN, "conn")


def row_tuple(it, a, kw):
    """a buffered row is identified by the record it stands for"""
    from pydv import models as M
    q = it._fn_qual()
    if not q.endswith("output_result_set"):
        return M.m_tuple(it, a, kw)
    cols, out = it.lookup("columns_out"), a[0]
    rec = it.make(TREC, "row")
    it.oblige("as many values as output columns", slen(it, cols) == slen(it, out))
    it._addfacts([forall_ty(it, STR, lambda s: rec_has(rec.t, s.t) == mem(it, cols, s)),
                  idx(it, lambda j: rec_val(rec.t, at(it, cols, j).t) == V.term(
                      at(it, out, j), VAL), cols)])
    return rec


def row_values(it, v):
    cols = it.lookup("columns_out")
    return VSeq([BaseP(slen(it, cols), lambda i: Sym(VAL, rec_val(
        v.t, at(it, cols, i).t)))])


TREC.iter_ = row_values


def any_value(it, a, kw):
    """the values tracked to move sequences are verified under C18"""
    return Sym(VAL, it.fresh("max", V.VAL_S))


def omit_new(it, a, kw):
    """contract of FilterOmit.__init__ (C06)"""
    cin, act = a
    o = it.make(TOMIT, "omit")
    out, ix = it.getattr(o, "columns_out"), it.getattr(o, "indices")
    it.oblige("some column is omitted", slen(it, act) >= 1)
    it.oblige("omitted columns exist", idx(it, lambda k: mem(it, cin, at(it, act, k)), act))
    it.oblige("omitted columns are distinct", distinct_cols(it, act))
    it._addfacts([
        seq_eq(it, it.getattr(o, "columns_in"), cin), slen(it, out) == slen(it, ix),
        idx(it, lambda k: And(num(at(it, ix, k)) >= 0, num(at(it, ix, k)) < slen(it, cin), eq(
            it, at(it, cin, num(at(it, ix, k))), at(it, out, k))), ix),
        idx(it, lambda k: idx(it, lambda l: Implies(
            k < l, num(at(it, ix, k)) < num(at(it, ix, l))), ix), ix),
        forall_ty(it, STR, lambda s: mem(it, out, s) == And(
            mem(it, cin, s), Not(mem(it, act, s))))])
    return o


def omit_apply(it, a, kw):
    """contract of FilterOmit.filter_view (C06)"""
    o, vals = a
    it.oblige("one value per column", slen(it, vals) == slen(it, it.getattr(o, "columns_in")))
    out, ix = it.getattr(o, "columns_out"), it.getattr(o, "indices")
    return it.alloc(VSeq([BaseP(slen(it, out), lambda i: at(it, vals, num(at(it, ix, i))))]))


TOMIT = TEnt("Omit", F.FilterOmit, fields={"columns_in": TSTR, "columns_out": TSTR,
                                           "indices": TSeq(INT)},
             methods={"filter_view": omit_apply})


def db_setup(multiplying, merging, strategy):
    def setup(it):
        it.ghost["computed"] = lambda it, c: computed(db_obj(it, it.args).t, c.t)
        it.ghost["strategy"] = strategy
        it.ghost["shift"] = shifted if merging else plain_offsets
        me = it.alloc(VInst(SA.DatabaseOutput, {
            "meta": make_meta(it), "engine": it.make(TENGINE, "engine"),
            "merge": it.make(BOOL, "merge") if strategy or merging else False,
            "conflict_strategy": it.make(STR, "strategy"),
            "passthrough_tables": it.alloc(it.make(TSet(STR), "passthrough")),
            "table_offsets": it.alloc(it.make(TDict(KEY, TDict(STR, INT)), "offsets") if merging
                                      else VDict(KEY, TDict(STR, INT), None, []))}))
        return {"self": me, "schema": it.make(STR, "schema"),
                "table_name": it.make(STR, "table"),
                "columns": it.make(TSTR, "columns"), "result_set": it.make(TSeq(TROW), "rows"),
                "filter_view": it.make(TFVIEW, "view"),
                "multiplier": it.make(INT, "multiplier") if multiplying else 1,
                "column_multipliers": it.make(TSet(STR), "mcols") if multiplying == 2 else None,
                "_log": it.alloc(VSeq([])), "_sent": it.alloc(VSeq([]))}
    return setup


def offset_of(it, c):
    """(is column c shifted, by how much)"""
    a = it.args
    offs = field(it, a.self, "table_offsets")
    k = remap(it, [None, a.schema, a.table_name])
    d = it._cont(it.dict_get(it._cont(offs), k))
    return And(mem(it, offs, k), mem(it, d, c)), V.term(it.dict_get(d, c), INT)


def shifted(it, x, c):
    has, off = offset_of(it, c)
    return z3.If(And(has, x != V.Val_none), V.Val_mkint(V.Val_int(x) + off), x)


def db_req(it, a):
    d = row_req(it, a)
    d.update(meta_inv(it, field(it, a.self, "meta")))
    d["the destination table exists"] = mem(it, tables_of(it, field(
        it, a.self, "meta")), remap(it, [None, a.schema, a.table_name]))
    if it.ghost["shift"] is shifted:
        d["shifted columns hold integers"] = forall_ty(it, TROW, lambda w: forall_ty(
            it, STR, lambda c: Implies(offset_of(it, c)[0], Or(
                fv_named(w.t, c.t) == V.Val_none, V.Val_isint(fv_named(w.t, c.t))))))
    return d


def db_post(it, a, r):
    n = slen(it, a.result_set)
    return {"as many records as rows and copies": slen(it, a._log) == POS(n),
            "each row once per copy, in order": all_correct(it, a._log)}


def missing_column(it, a, e):
    return {"only when the destination lacks an output column": exidx(
                it, lambda j: Not(has_column(db_obj(it, a).t, at(it, cols_of(it), j).t)),
                cols_of(it)),
            "nothing written": slen(it, a._log) == 0}


D_LOG = lambda it: it.args._log
D_PEND = lambda it: it.lookup("buffer")
D_CELLS = {D_LOG: TSeq(TREC), D_PEND: TSeq(TREC), (lambda it: it.args._sent): TSeq(TREC)}


def with_sent(inv):
    def f(it, old, *x):
        d = inv(it, old, *x)
        log, sent = it.args._log, it.args._sent
        d["nothing left unsent"] = And(slen(it, log) == slen(it, sent), forall_int(
            it, lambda k: rec_at(it, log, k) == rec_at(it, sent, k), 0, slen(it, log)))
        cols = it.lookup("columns_out")
        d["the output columns are those to be written"] = forall_ty(
            it, STR, lambda s: mem(it, cols, s) == is_written(s.t))
        return d
    return f


def database(multiplying=0, merging=False, strategy=False):
    return Contract(
        "subsetter.sampler:DatabaseOutput.output_result_set",
        setup=db_setup(multiplying, merging, strategy), requires=db_req, ensures=db_post,
        raises={ValueError: missing_column}, covers=("return", "ValueError"),
        fork=("computed_columns",), fork_get="all" if merging else False,
        models={tuple: row_tuple, max: any_value, F.FilterOmit: omit_new, (SA.DatabaseOutput, "_remap_table"): remap,
                SA.ConflictInsert: insert_new,
                SA._autoincrement_update: lambda it, a, kw: None},
        loops={0: LoopSpec(name="rows", done="index", types={
                   "row": TROW, "autoinc_max_written": VAL}, cells=D_CELLS,
                   inv=with_sent(rows_inv(D_LOG, D_PEND))),
               1: LoopSpec(name="copies", done="index", types={
                   "iteration": INT, "autoinc_max_written": VAL}, cells=D_CELLS,
                   inv=with_sent(copies_inv(D_LOG, D_PEND))),
               2: LoopSpec(name="columns", done="index", cells={"out_row": TSeq(VAL)},
                           inv=columns_inv),
               **({3: LoopSpec(name="offsets", done="index", cells={"out_row": TSeq(VAL)},
                               inv=offsets_inv)} if merging else {})})


# ------------------------------------------------------------ columns of a table
is_int = z3.Function("integral", TOBJ.sort, V.STR_S, z3.BoolSort())
TPYTYPE = TEnt("PyType", None, fields={"of": TDCOL})
TCTYPE = TEnt("ColumnType", None, fields={"of": TDCOL, "python_type": TPYTYPE})
ncols = z3.Function("number_of_columns", TOBJ.sort, z3.IntSort())
col_at = z3.Function("column_at", TOBJ.sort, z3.IntSort(), TDCOL.sort)
TDCOL.fields["type"] = TCTYPE


def coll_iter(it, v):
    ob = it.getattr(v, "of")
    return VSeq([BaseP(ncols(ob.t), lambda i: Sym(TDCOL, col_at(ob.t, i)))])


TCOLL.iter_ = coll_iter


def py_issubclass(it, a, kw):
    if a[1] is not int or not (isinstance(a[0], Sym) and a[0].ty is TPYTYPE):
        raise Unsupported("issubclass")
    col = it.getattr(a[0], "of")
    return Sym(BOOL, is_int(it.getattr(col, "of").t, it.getattr(col, "name").t))


def column_facts(it):
    """definition of the ghost views of a table's columns"""
    it._addfacts([
        forall_ty(it, TOBJ, lambda o: forall_int(it, lambda i: And(
            it.getattr(Sym(TDCOL, col_at(o.t, i)), "of").t == o.t,
            has_column(o.t, it.getattr(Sym(TDCOL, col_at(o.t, i)), "name").t)), 0, ncols(o.t))),
        forall_ty(it, TOBJ, lambda o: forall_ty(it, STR, lambda s: Implies(
            has_column(o.t, s.t), exists_int(it, lambda i: it.getattr(Sym(
                TDCOL, col_at(o.t, i)), "name").t == s.t, 0, ncols(o.t))))),
        forall_ty(it, TDCOL, lambda c: And(
            it.getattr(it.getattr(c, "type"), "of").t == c.t,
            it.getattr(it.getattr(it.getattr(c, "type"), "python_type"), "of").t == c.t))])


OUT_MODELS = {**NAME_MODELS, ("fstr", "{}.{}.json"): file_name}
OUT_ASSUMPTIONS = [
    "a filter view returns one value per output column, depending only on the row (C06)",
    "multiplied and shifted columns hold integers or null (refused otherwise)",
    "which values are tracked to move sequences: C18",
    "a database connection applies what is executed on it when committed, in order",
]
OUT_TRUSTED = ["sqlalchemy Engine.connect, Connection.execute, commit", "json.dump, open, file.write"]
