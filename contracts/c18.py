"""C18: the keys a PostgreSQL destination generates after a run do not collide."""
import re

import sqlalchemy as sa

from contracts.outputs import *
from contracts.outputs import TCOL
from pydv.state import PyRaise


def inc_column(it, ob):
    return it.getattr(ob, "autoincrement_column")


def inc_name(it):
    return V.term(it.getattr(inc_column(it, db_obj(it, it.args)).val, "name"), STR)


def tracked(it):
    """values of an auto-increment column are written, and its sequence does not follow them"""
    return And(postgres(it, field(it, it.args.self, "engine")), Not(inc_column(
        it, db_obj(it, it.args)).isnone), is_written(inc_name(it)))


def postgres(it, engine):
    return eq(it, it.getattr(it.getattr(engine, "dialect"), "name"), "postgresql")


# ------------------------------------------------------------ the largest value written
def below(it, seq, value):
    """no record of seq has a larger value in the auto-increment column"""
    n = inc_name(it)
    return Implies(tracked(it), records(it, seq, lambda k, rec, s: Implies(s.t == n, And(
        V.Val_isint(value), V.Val_isint(rec_val(rec, n)), V.Val_int(rec_val(
            rec, n)) <= V.Val_int(value)))))


def largest_inv(it, old, i):
    v = V.term(it.lookup("autoinc_max_written"), VAL)
    d = {f"{nm} values are no larger than the largest": below(it, seq, v)
         for nm, seq, _ in parts(it, D_LOG, D_PEND)}
    d["the largest is a number"] = Implies(tracked(it), Or(v == V.Val_none, V.Val_isint(v)))
    return d


def value_inv(it, old, k):
    """the value of the auto-increment column stays a number"""
    out, cols = it.lookup("out_row"), it.lookup("columns_out")
    return {"one value per column": slen(it, out) == slen(it, cols),
            "a number": Implies(tracked(it), idx(it, lambda j: Implies(at(
                it, cols, j).t == inc_name(it), V.Val_isint(V.term(at(it, out, j), VAL))), cols))}


def larger(it, a, kw):
    if len(a) != 2 or kw:
        raise Unsupported("max")
    x, y = [V.term(v, VAL) for v in a]
    it.oblige("numbers are compared", And(V.Val_isint(x), V.Val_isint(y)))
    return Sym(VAL, V.Val_mkint(z3.If(V.Val_int(x) > V.Val_int(y), V.Val_int(x), V.Val_int(y))))


def update_call(it, a, kw):
    engine, table, value = [*a, *kw.values()] if not kw else (a + [kw[k] for k in (
        "engine", "table", "value")[len(a):]])
    it.oblige("of the engine written to", eq(it, engine, field(it, it.args.self, "engine")))
    it.oblige("of the table written to", eq(it, table, db_obj(it, it.args)))
    it.set_content(it.args._updates, VSeq([Elem(Sym(VAL, V.term(value, VAL)))]))


def seq_setup(it):
    d = db_setup(1, True, False)(it)
    d["_updates"] = it.alloc(VSeq([]))
    return d


def both(*invs):
    def f(it, old, *x):
        return {k: v for inv in invs for k, v in inv(it, old, *x).items()}
    return f


def seq_req(it, a):
    d = db_req(it, a)
    d["auto-increment columns hold numbers"] = Implies(tracked(it), forall_ty(
        it, TROW, lambda w: V.Val_isint(fv_named(w.t, inc_name(it)))))
    return d


def seq_post(it, a, r):
    n = it.seq_len(it._cont(a._updates))
    if n == 0:
        return {"only without such values": Implies(tracked(it), slen(it, a._log) == 0)}
    return {"the sequence is moved past every value written": below(it, a._log, V.term(at(
        it, a._updates, 0), VAL))}


def sequences():
    c = database(1, True)
    inv = [both(s.inv, n) for s, n in zip(map(c.loops.get, range(4)), (
        largest_inv, largest_inv, value_inv, value_inv))]
    types = c.loops[0].types
    return Contract(
        "subsetter.sampler:DatabaseOutput.output_result_set", name="DatabaseOutput.output_result_set"
        "[sequences]", setup=seq_setup, requires=seq_req, ensures=seq_post,
        raises={ValueError: missing_column}, covers=("return", "ValueError"), fork=c.fork,
        fork_get="all", models={**c.models, max: larger, SA._autoincrement_update: update_call},
        loops={0: LoopSpec(name="rows", done="index", types=types, cells=D_CELLS, inv=inv[0]),
               1: LoopSpec(name="copies", done="index", types=c.loops[1].types, cells=D_CELLS,
                           inv=inv[1]),
               2: LoopSpec(name="columns", done="index", cells={"out_row": TSeq(VAL)},
                           inv=inv[2]),
               3: LoopSpec(name="offsets", done="index", cells={"out_row": TSeq(VAL)},
                           inv=inv[3])})


# ------------------------------------------------------------ the sequence of a table
TQNAME = TEnt("QuotedTable", None)
quoted = z3.Function("table_as_sql", TOBJ.sort, TQNAME.sort)
TPREP = TEnt("IdentifierPreparer", None, methods={
    "format_table": lambda it, a, kw: Sym(TQNAME, quoted(a[1].t))})
TSDIALECT = TEnt("SequenceDialect", None, fields={"name": STR, "identifier_preparer": TPREP})
TSENGINE = TEnt("SequenceEngine", None, fields={"dialect": TSDIALECT})
TSCONN = TEnt("SequenceConn", None)
TRESULT = TEnt("SequenceResult", None, fields={"value": TOpt(INT)})


class Text:
    """a textual SQL statement"""


class MaxOf:
    """SELECT max(column)"""


SEQ_OF = r"pg_get_serial_sequence\(\s*:(\w+)\s*,\s*:(\w+)\s*\)"
CURRVAL = re.compile(rf"\s*select\s+currval\(\s*{SEQ_OF}\s*\)\s*;?\s*", re.I)
SETVAL = re.compile(rf"\s*select\s+setval\(\s*{SEQ_OF}\s*,\s*:(\w+)\s*(,\s*(true|false)\s*)?"
                    r"\)\s*;?\s*", re.I)


def text_new(it, a, kw):
    if len(a) != 1 or kw or not isinstance(a[0], str):
        raise Unsupported("text")
    return it.alloc(VInst(Text, {"sql": a[0]}))


def opt(v):
    if isinstance(v, SymOpt):
        return v
    return SymOpt(V.TRUE, 0) if v is None else SymOpt(V.FALSE, v)


def sequence(it):
    return it.content(it.args._seq).fields


def last(it):
    """every value the sequence generates from now on is larger"""
    return V.term(sequence(it)["last"], INT)


def may_fail(it):
    if it.decide(it.fresh("database_fails", z3.BoolSort()), prune=False):
        it.set_content(it.args._failed, VSeq([Elem(True)]))
        raise PyRaise(Exc(sa.exc.OperationalError, ("connection lost",)))


def of_the_column(it, params, m):
    """the statement names the sequence of the table's auto-increment column"""
    tab, col = [it.dict_get(it._cont(params), m.group(k)) for k in (1, 2)]
    ob = it.args.table
    ok = isinstance(tab, Sym) and tab.ty is TQNAME
    it.oblige("the table is named as in SQL, quoted where needed", eq(
        it, tab, Sym(TQNAME, quoted(ob.t))) if ok else V.FALSE)
    it.oblige("the auto-increment column is named", eq(it, col, it.getattr(it.getattr(
        ob, "autoincrement_column").val, "name")))


def seq_execute(it, a, kw):
    if len(a) != 3 or kw or not isinstance(it._cont(a[1]), VInst) or it._cont(
            a[1]).cls is not Text:
        raise Unsupported("statement")
    sql = it._cont(a[1]).fields["sql"]
    it.oblige("only databases with sequences are asked", postgres(it, it.args.engine))
    it.oblige("only tables with an auto-increment column", Not(it.getattr(
        it.args.table, "autoincrement_column").isnone))
    r = it.make(TRESULT, "result")
    may_fail(it)
    if m := CURRVAL.fullmatch(sql):
        of_the_column(it, a[2], m)
        if it.decide(it.fresh("not_used_in_this_session", z3.BoolSort()), prune=False):
            raise PyRaise(Exc(sa.exc.OperationalError, (
                "currval of sequence is not yet defined in this session",)))
        it._addfacts([eq(it, it.getattr(r, "value"), sequence(it)["current"])])
        return r
    m = SETVAL.fullmatch(sql)
    if not m:
        raise Unsupported(f"statement {sql}")
    of_the_column(it, a[2], m)
    v = opt(it.dict_get(it._cont(a[2]), m.group(3)))
    it.oblige("moved to a number", Not(v.isnone))
    v = num(v.val)
    it.oblige("setval accepts positive values only", v >= 1)
    used = (m.group(5) or "true").lower() == "true"
    it.set_content(it.args._seq, VInst(object, dict(sequence(it), last=Sym(
        INT, v if used else v - 1))))
    return r


TRESULT.iter_ = lambda it, v: VSeq([Elem(VTup([it.getattr(v, "value")]))])


def select_max(it, a, kw):
    if len(a) != 1 or kw or not (isinstance(a[0], MaxOf)):
        raise Unsupported("select")
    return a[0]


def max_of(it, a, kw):
    c = a[0]
    it.oblige("the largest value of the auto-increment column", eq(
        it, c, it.getattr(it.args.table, "autoincrement_column")))
    return MaxOf()


def seq_scalar(it, a, kw):
    if len(a) != 2 or kw:
        raise Unsupported("scalar")
    may_fail(it)
    if isinstance(a[1], MaxOf):
        return it.args._existing
    raise Unsupported("scalar")


TSCONN.methods.update({
    "__enter__": lambda it, a, kw: a[0], "__exit__": lambda it, a, kw: None,
    "execute": seq_execute, "scalar": seq_scalar, "commit": lambda it, a, kw: None})
TSENGINE.methods["connect"] = lambda it, a, kw: it.make(TSCONN, "conn")


def one_setup(value):
    def setup(it):
        me = it.alloc(VInst(object, {"last": it.make(INT, "last"),
                                     "current": it.make(TOpt(INT), "currval")}))
        d = {"engine": it.make(TSENGINE, "engine"), "table": it.make(TOBJ, "table"), "_seq": me,
             "_failed": it.alloc(VSeq([]))}
        if value:
            d.update(value=it.make(TOpt(INT), "value"), _existing=it.make(TOpt(INT), "existing"))
        return d
    return setup


def one_req(it, a):
    c = sequence(it)["current"]
    return {"the sequence is past what this session took from it": Implies(
        Not(c.isnone), V.term(c.val, INT) <= last(it)), "sequences generate positive keys": last(it) >= 0}


def unchanged(it):
    return last(it) == old(it, lambda: last(it))


def needs(it, a):
    return And(postgres(it, a.engine), Not(it.getattr(a.table, "autoincrement_column").isnone))


def get_post(it, a, r):
    r = opt(r)
    return {"what this session last took from the sequence": Implies(Not(r.isnone), And(
                needs(it, a), eq(it, r, sequence(it)["current"]))),
            "nothing changes": unchanged(it)}


def text_of(it, a, kw):
    """str(error): the message of the database"""
    from pydv import models as M
    c = it._cont(a[0])
    if isinstance(c, Exc) and c.args and isinstance(c.args[0], str):
        return c.args[0]
    return M.m_str(it, a, kw)


def get_apply(it, a):
    r = it.make(TOpt(INT), "currval")
    f = sequence(it)
    may_fail(it)
    it._addfacts([Implies(Not(r.isnone), And(needs(it, a), eq(it, r, f["current"])))])
    return r


def update_post(it, a, r):
    v, ex = a.value, a._existing
    l0 = old(it, lambda: last(it))
    return {"the next key is larger than the value": Implies(And(
                needs(it, a), Not(v.isnone)), last(it) >= num(v.val)),
            "never moved behind a row": Or(last(it) >= l0, And(Not(ex.isnone), last(it) >= num(
                ex.val)), And(ex.isnone, Not(v.isnone))),
            "nothing else changes": Implies(Or(Not(needs(it, a)), v.isnone), unchanged(it))}


def db_failed(it, a, e):
    return {"only when the database fails": slen(it, a._failed) == 1}


def needs_post(it, a, r):
    return {"only PostgreSQL leaves its sequences behind": V.term(r, BOOL) == postgres(
        it, a.engine)}


NEEDS = Contract("subsetter.sampler:_autoincrement_needs_updating", setup=lambda it: {
    "engine": it.make(TSENGINE, "engine")}, ensures=needs_post)
GET = Contract("subsetter.sampler:_autoincrement_get", setup=one_setup(False), requires=one_req,
               ensures=get_post, raises={sa.exc.OperationalError: db_failed},
               covers=("return", "OperationalError"), models={sa.text: text_new, str: text_of},
               apply=get_apply, modular=True, modifies=lambda it, a: [(a._failed, TSeq(BOOL))])
UPDATE = Contract("subsetter.sampler:_autoincrement_update", setup=one_setup(True),
                  requires=one_req, ensures=update_post,
                  raises={sa.exc.OperationalError: db_failed},
                  covers=("return", "OperationalError"),
                  models={sa.text: text_new, sa.select: select_max,
                          ("attr", id(sa.func), "max"): V.Native(max_of, "max")})

MODELS = OUT_MODELS
AXIOMS = [name_axioms]
CONTRACTS = [NEEDS, GET, UPDATE, sequences()]
ALL = [GET]
ASSUMPTIONS = [
    "auto-increment columns hold numbers, and sequences generate positive ones (PostgreSQL's default)",
    "currval is a value the sequence generated earlier, and every later one is larger; setval "
    "makes the next one larger by one (PostgreSQL, sequences that ascend)",
    "SELECT max(column) is the largest value of the column, or null (the database)",
    "nobody else moves the sequence back while rows are written",
    "what is written: C07, C08 and C10"]
TRUSTED = ["sqlalchemy.text, select, func.max, Connection.execute and scalar",
           "IdentifierPreparer.format_table: the table's name as it is written in SQL"]
