"""Models of Python builtins, the standard library and container methods.

Everything here is part of the trusted base (the semantics of Python itself); engine self-tests
(`/verif/selftest.py`) compare it with CPython.
"""
from __future__ import annotations

import ast
import builtins
import collections
import dataclasses
import functools
import itertools

import z3

from pydv import values as V
from pydv.values import (And, BaseP, Bound, Cond, DOp, Elem, Exc, ForAll, Gen, Implies, Native,
                         Not, Or, Ref, Interior, Sym, SymOpt, Unsupported, VDict, VInst, VObj,
                         VSeq, VSet, VTup, Value, to_z3b, is_true)
from pydv.state import PyRaise, NotMergeable, has_quant


# ------------------------------------------------------------------ builtins
def m_len(it, a, kw):
    v = a[0]
    c = it._cont(v)
    if isinstance(c, (str, tuple, dict, list)):
        return len(c)
    if isinstance(c, (VTup,)):
        return len(c.items)
    if isinstance(c, VSeq):
        return it.seq_len(c)
    if isinstance(c, (VSet, VDict)):
        return card(it, c)
    if isinstance(c, Sym) and c.ty is V.STR:
        n = V.str_len(c.t)
        it._addfacts([n >= 0])
        return Sym(V.INT, n)
    if isinstance(c, Sym) and isinstance(c.ty, V.TEnt) and "__len__" in c.ty.methods:
        return c.ty.methods["__len__"](it, [c], {})
    raise Unsupported(f"len of {c!r}")


def card(it, c):
    """cardinality of a set/dict: an uninterpreted count with the facts zero <=> empty"""
    if getattr(c, "_card", None) is not None and c._card[0] == tuple(it.st.binders):
        t, facts = c._card[1]
    else:
        dom = (lambda y: it.set_mem(c, y)) if isinstance(c, VSet) else (lambda y: it.dict_dom(c, y))
        ety = c.ety if isinstance(c, VSet) else c.kty
        if ety is None:
            return 0
        if isinstance(c, VSet) and c.base is None and all(
                k == "add" and V.all_elems(p) is not None for k, p in c.ops):
            es = []
            for _, p in c.ops:
                es.extend(V.all_elems(p))
            if all(not isinstance(e, Value) for e in es):
                return len(set(es))
        t = it.fresh("card", z3.IntSort())
        y, bs = it.placeholder(ety)
        facts = [t >= 0, (t == 0) == Not(it.exists(bs, lambda: dom(y)))]
        y2, bs2 = it.placeholder(ety)
        one = it.forall(bs + bs2, lambda: Implies(And(dom(y), dom(y2)), to_z3b(it.eq(y, y2))))
        facts.append((t <= 1) == one)
        c._card = (tuple(it.st.binders), (t, facts))
    it._addfacts(facts)
    if isinstance(c, VSet):
        compare_cards(it, c, t)
    return Sym(V.INT, t)


def compare_cards(it, c, t):
    """a set within another has at most its size, and the same size only when equal"""
    seen = it.st.measured
    bs0 = tuple(it.st.binders)
    if any(d is c for d, _, b in seen if b == bs0):
        return
    for d, u, b in seen:
        if b != bs0 or d.ety is None or c.ety is None:
            continue
        if str(d.ety) != str(c.ety) or u.eq(t):
            continue
        y, bs = it.placeholder(c.ety)
        sub = it.forall(bs, lambda: Implies(it.set_mem(d, y), it.set_mem(c, y)))
        more = it.exists(bs, lambda: And(it.set_mem(c, y), Not(it.set_mem(d, y))))
        it._addfacts([Implies(sub, And(u <= t, (u < t) == more))])
    seen.append((c, t, bs0))


def m_list(it, a, kw):
    if not a:
        return it.alloc(VSeq([]))
    return it.alloc(VSeq(it.iter_pieces(a[0]), "list"))


def m_tuple(it, a, kw):
    if not a:
        return VTup([])
    v = it._cont(a[0])
    if isinstance(v, VTup):
        return v
    ps = it.iter_pieces(v)
    es = V.all_elems(ps)
    if es is not None:
        return VTup(es)
    return VSeq(ps, "tuple")


def m_set(it, a, kw):
    if not a:
        return it.alloc(VSet(None))
    c = it._cont(a[0])
    if isinstance(c, VSet):
        return it.alloc(VSet(c.ety, c.base, c.ops))
    ps = tuple(it.iter_pieces(c))
    if not ps:
        return it.alloc(VSet(None))
    return it.alloc(VSet(it.pieces_type(ps), None, [("add", ps)]))


def m_dict(it, a, kw):
    if not a:
        ref = it.alloc(VDict(None))
    else:
        c = it._cont(a[0])
        if isinstance(c, VDict):
            ref = it.alloc(VDict(c.kty, c.vty, c.base, c.ops, c.kind if c.kind is dict else dict))
        else:
            ref = it.alloc(VDict(None))
            ps = it.iter_pieces(c)

            def one(v):
                k, x = it.unpack(v, 2)
                it.dict_store(ref, k, x)
            it.loop(ps, one)
    for k, x in kw.items():
        it.dict_store(ref, k, x)
    return ref


def m_defaultdict(it, a, kw):
    return it.alloc(VDict(None, None, None, [], ("default", a[0])))


def m_zip(it, a, kw):
    seqs = [it.as_seq(VSeq(it.iter_pieces(x))) for x in a]
    els = [V.all_elems(s.pieces) for s in seqs]
    if all(e is not None for e in els):
        return VSeq([Elem(VTup(t)) for t in zip(*els)], "iter")
    known = [len(e) for e in els if e is not None]
    ns = [V.term(it.seq_len(s), V.INT) for s in seqs]
    n = ns[0]
    for m in ns[1:]:
        if not m.eq(n):
            n = z3.If(m < n, m, n)
    n = z3.simplify(n)
    return VSeq([BaseP(n, lambda i: VTup(it.seq_at(s, Sym(V.INT, i)) for s in seqs))], "iter")


def m_enumerate(it, a, kw):
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    seq = it.as_seq(VSeq(it.iter_pieces(a[0])))
    es = V.all_elems(seq.pieces)
    if es is not None and isinstance(start, int):
        return VSeq([Elem(VTup([i + start, e])) for i, e in enumerate(es)], "iter")
    n = V.term(it.seq_len(seq), V.INT)
    st = V.term(start, V.INT)
    return VSeq([BaseP(n, lambda i: VTup([Sym(V.INT, z3.simplify(i + st)),
                                          it.seq_at(seq, Sym(V.INT, i))]))], "iter")


def m_range(it, a, kw):
    if all(isinstance(x, int) for x in a):
        r = range(*a)
        if len(r) < 32:
            return VSeq([Elem(i) for i in r], "iter")
    if len(a) == 1:
        lo, hi = z3.IntVal(0), V.term(a[0], V.INT)
    elif len(a) == 2:
        lo, hi = V.term(a[0], V.INT), V.term(a[1], V.INT)
    else:
        raise Unsupported("range step")
    n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
    return VSeq([BaseP(n, lambda i: Sym(V.INT, z3.simplify(lo + i)))], "iter")


def m_reversed(it, a, kw):
    c = it.as_seq(VSeq(it.iter_pieces(a[0])))
    r = it.reverse_seq(c)
    return VSeq(r.pieces, "iter")


def m_chain(it, a, kw):
    ps = []
    for x in a:
        if isinstance(x, V.Star):
            # chain(*seq_of_seqs): flatten
            acc = it.alloc(VSeq([], "iter"))
            it.loop(it.iter_pieces(x.v), lambda v: it.extend(acc, it.iter_pieces(v)))
            ps.extend(it.content(acc).pieces)
        else:
            ps.extend(it.iter_pieces(x))
    return VSeq(ps, "iter")


def m_from_iterable(it, a, kw):
    return m_chain(it, [V.Star(a[0])], {})


def m_sorted(it, a, kw):
    seq = it.as_seq(VSeq(it.iter_pieces(a[0])))
    es = V.all_elems(seq.pieces)
    if es is not None and len(es) <= 1:
        return it.alloc(VSeq([Elem(e) for e in es]))
    n = V.term(it.seq_len(seq), V.INT)
    perm = it.fresh_fn("perm", [z3.IntSort()], z3.IntSort())
    inv = it.fresh_fn("inv", [z3.IntSort()], z3.IntSort())
    i, j = z3.Int(it.fresh_name("si")), z3.Int(it.fresh_name("sj"))
    rng = lambda x: And(x >= 0, x < n)
    it._addfacts([
        ForAll([i], Implies(rng(i), And(rng(perm(i)), inv(perm(i)) == i)), patterns=[perm(i)]),
        ForAll([i], Implies(rng(i), And(rng(inv(i)), perm(inv(i)) == i)), patterns=[inv(i)])])
    key, rev = kw.get("key"), kw.get("reverse", False)
    at = lambda x: it.seq_at(seq, Sym(V.INT, perm(x)))
    if not isinstance(rev, bool):
        raise Unsupported("sorted reverse")
    # order facts where the order is expressible
    try:
        with it.under([i, j]):
            ki, kj = at(i), at(j)
            if key is not None:
                ki, kj = it.call(key, [ki], {}), it.call(key, [kj], {})
            bad = to_z3b(it.order_cmp(ast.Lt(), kj, ki) if not rev
                         else it.order_cmp(ast.Gt(), kj, ki))
        it._addfacts([ForAll([i, j], Implies(And(rng(i), rng(j), i < j), Not(bad)))])
    except Unsupported:
        if key is not None:
            raise
    return it.alloc(VSeq([BaseP(n, at)], "list"))


def type_test(it, v, cls):
    """isinstance of a value and one class"""
    if isinstance(v, SymOpt):
        if cls is type(None):
            return v.isnone
        r = type_test(it, v.val, cls)
        return And(Not(v.isnone), to_z3b(r))
    c = it._cont(v)
    if isinstance(c, Sym):
        if c.ty is V.VAL:
            f = {int: V.Val_isint, str: V.Val_isstr, float: V.Val_isfloat,
                 bool: V.Val_isbool}.get(cls)
            if f is not None:
                return f(c.t)
            import datetime
            if cls in (datetime.datetime,):
                return V.Val_isdt(c.t)
            raise Unsupported(f"isinstance of a row value and {cls}")
        if isinstance(c.ty, V.TEnt):
            ks = c.ty.classes
            hits = [k for k, x in enumerate(ks) if x is not None and issubclass(x, cls)] \
                if isinstance(cls, type) else []
            if len(ks) <= 1:
                return bool(hits)
            if len(hits) == len(ks):
                return True
            if not hits:
                return False
            return Or(*[c.ty.tag(c.t) == k for k in hits])
        return any(issubclass(p, cls) for p in c.ty.pytypes)
    if isinstance(c, (VObj, VInst)):
        return issubclass(c.cls, cls)
    if isinstance(c, Exc):
        return issubclass(c.cls, cls)
    if isinstance(c, VSeq):
        return issubclass({"list": list, "tuple": tuple, "iter": type(iter([]))}[c.kind], cls)
    if isinstance(c, VTup):
        return issubclass(tuple, cls)
    if isinstance(c, VSet):
        return issubclass(set, cls)
    if isinstance(c, VDict):
        return issubclass(collections.defaultdict if c.kind is not dict else dict, cls)
    if isinstance(c, Value):
        raise Unsupported(f"isinstance of {c!r}")
    return isinstance(c, cls)


def m_isinstance(it, a, kw):
    v, cls = a
    classes = list(cls.items) if isinstance(cls, VTup) else \
        list(cls) if isinstance(cls, tuple) else [cls]
    out = [to_z3b(type_test(it, v, k)) for k in classes]
    return it._bool(Or(*out))


def m_issubclass(it, a, kw):
    v, cls = a
    if isinstance(v, Sym) and isinstance(v.ty, V.TEnt) and "__issubclass__" in v.ty.methods:
        return v.ty.methods["__issubclass__"](it, [v, cls], {})
    if isinstance(v, type) and isinstance(cls, type):
        return issubclass(v, cls)
    raise Unsupported("issubclass")


def m_bool(it, a, kw):
    return it._bool(it.truth(a[0])) if a else False


def m_int(it, a, kw):
    if not a and not kw:
        return 0
    v = a[0]
    if isinstance(v, (int, str)) and not isinstance(v, Value):
        return int(v)
    if isinstance(v, Sym) and v.ty is V.INT:
        return v
    if isinstance(v, Sym) and v.ty is V.STR:
        return Sym(V.INT, z3.Function("int_of_str", V.STR_S, z3.IntSort())(v.t))
    raise Unsupported("int()")


def m_str(it, a, kw):
    if not a:
        return ""
    v = a[0]
    if isinstance(v, str) or isinstance(v, Sym) and v.ty is V.STR:
        return v
    if isinstance(v, int) and not isinstance(v, bool):
        return str(v)
    c = it._cont(v)
    if isinstance(c, (VInst, VObj)) or isinstance(c, Sym) and isinstance(c.ty, V.TEnt) and c.ty.cls:
        try:
            m = it.getattr(v, "__str__")
        except Unsupported:
            m = None
        if m is not None:
            return it.call(m, [], {})
    try:
        ls = it.ty_of(it.freeze(v)).leaves(it.freeze(v))
        f = z3.Function("str_of_" + "_".join(str(x.sort()) for x in ls),
                        *[x.sort() for x in ls], V.STR_S)
        return Sym(V.STR, f(*ls))
    except (Unsupported, AttributeError):
        return Sym(V.STR, it.fresh("str", V.STR_S))


def _minmax(op):
    def m(it, a, kw):
        if len(a) == 1 or kw:
            raise Unsupported("min/max of an iterable")
        cur = a[0]
        for x in a[1:]:
            c = it.order_cmp(op(), x, cur)
            cur = it.vite(to_z3b(c), x, cur) if not isinstance(c, bool) else (x if c else cur)
        return cur
    return m


def m_any(it, a, kw):
    return it.any_all(True, a[0])


def m_all(it, a, kw):
    return it.any_all(False, a[0])


def m_next(it, a, kw):
    x = a[0]
    if isinstance(x, Sym) and isinstance(x.ty, V.TEnt) and "__next__" in x.ty.methods:
        return x.ty.methods["__next__"](it, a, kw)
    if isinstance(x, VSeq) and x.kind == "iter" and not kw and all(
            isinstance(p, V.Elem) for p in x.pieces):
        if getattr(x, "advanced", False):
            raise Unsupported("next() of an iterator that was advanced")
        x.advanced = True  # not looked at again
        if x.pieces:
            return x.pieces[0].v
        if len(a) == 2:
            return a[1]
        raise PyRaise(Exc(StopIteration, ()))
    raise Unsupported("next()")


def m_iter(it, a, kw):
    x = a[0]
    h = it.models.get("iter_hook")
    if h is not None:
        return h(it, a, kw)
    return VSeq(it.iter_pieces(x), "iter")


def m_type(it, a, kw):
    c = it._cont(a[0])
    if isinstance(c, (VInst, VObj)):
        return c.cls
    if isinstance(c, Sym) and isinstance(c.ty, V.TEnt) and len(c.ty.classes) == 1:
        return c.ty.cls
    return _OpaqueType(c)


class _OpaqueType(Value):
    def __init__(self, v):
        self.v = v


def m_partial(it, a, kw):
    f, pre = a[0], list(a[1:])
    pk = dict(kw)
    return Native(lambda it2, a2, kw2: it2.call(f, pre + a2, {**pk, **kw2}), "partial")


def m_sum(it, a, kw):
    raise Unsupported("sum")


def m_identity(it, a, kw):
    return a[0]


def m_repr(it, a, kw):
    return Sym(V.STR, it.fresh("repr", V.STR_S))


def m_getattr(it, a, kw):
    if isinstance(a[1], str):
        return it.getattr(a[0], a[1])
    raise Unsupported("getattr")


def m_mapf(it, a, kw):
    f = a[0]
    acc = it.alloc(VSeq([], "iter"))
    it.loop(it.iter_pieces(a[1]), lambda v: it.append(acc, it.call(f, [v], {})))
    return it.content(acc)


def m_filterf(it, a, kw):
    f = a[0]
    acc = it.alloc(VSeq([], "iter"))

    def one(v):
        if it.decide(it.truth(v if f is None else it.call(f, [v], {}))):
            it.append(acc, v)
    it.loop(it.iter_pieces(a[1]), one)
    return it.content(acc)


def builtin_models():
    m = {
        len: m_len, list: m_list, tuple: m_tuple, set: m_set, frozenset: m_set, dict: m_dict,
        collections.defaultdict: m_defaultdict, zip: m_zip, enumerate: m_enumerate,
        range: m_range, reversed: m_reversed, itertools.chain: m_chain,
        itertools.chain.from_iterable: m_from_iterable, sorted: m_sorted,
        isinstance: m_isinstance, issubclass: m_issubclass, bool: m_bool, int: m_int, str: m_str,
        max: _minmax(ast.Gt), min: _minmax(ast.Lt), any: m_any, all: m_all, next: m_next,
        iter: m_iter, type: m_type, functools.partial: m_partial, repr: m_repr,
        getattr: m_getattr, map: m_mapf, filter: m_filterf, float: lambda it, a, kw: a[0],
    }
    return m


# ------------------------------------------------------------------ methods of containers
def method(it, v, name):
    c = it._cont(v)
    fn = None
    if isinstance(c, VSeq):
        fn = SEQ.get(name)
    elif isinstance(c, VTup):
        fn = SEQ.get(name) if name in ("index", "count") else None
    elif isinstance(c, VSet):
        fn = SET.get(name)
    elif isinstance(c, VDict):
        fn = DICT.get(name)
    elif isinstance(c, str) or isinstance(c, Sym) and c.ty is V.STR:
        hook = it.models.get((str, name))
        if hook is not None:
            return Bound(Native(hook, f"str.{name}"), v)
        fn = STRM.get(name)
        if fn is None and isinstance(c, str) and hasattr(str, name):
            fn = lambda it2, a, kw: _conststr(a, kw, name)
    if fn is None:
        h = it.models.get(("valattr", name)) if isinstance(c, Sym) and c.ty is V.VAL else None
        if h is not None:
            return h(it, c)
        raise Unsupported(f"method {name} of {c!r}")
    return Bound(Native(fn, name), v)


def _conststr(a, kw, name):
    if any(isinstance(x, Value) for x in a):
        raise Unsupported(f"str.{name} with symbolic arguments")
    r = getattr(a[0], name)(*a[1:], **kw)
    if isinstance(r, (str, int, bool)):
        return r
    if isinstance(r, (list, tuple)):
        return VSeq([Elem(x) for x in r], "list" if isinstance(r, list) else "tuple")
    raise Unsupported(f"str.{name}")


def s_append(it, a, kw):
    it.append(a[0], a[1])


def s_extend(it, a, kw):
    it.extend(a[0], it.iter_pieces(a[1]))


def s_clear(it, a, kw):
    if not isinstance(a[0], Ref):
        raise Unsupported("clear of a nested container")
    c = it.content(a[0])
    if isinstance(c, VSeq):
        it.set_content(a[0], VSeq([], c.kind))
    elif isinstance(c, VSet):
        it.set_content(a[0], VSet(c.ety))
    else:
        it.set_content(a[0], VDict(c.kty, c.vty, None, [], c.kind))


def s_pop(it, a, kw):
    c = it.as_seq(a[0])
    if len(a) > 1 and a[1] != -1:
        raise Unsupported("pop(i)")
    ps = list(c.pieces)
    if ps and isinstance(ps[-1], Elem):
        it.set_content(a[0], VSeq(ps[:-1], c.kind))
        return ps[-1].v
    n = V.term(it.seq_len(c), V.INT)
    it.missing(IndexError, n > 0)
    x = it.seq_at(c, Sym(V.INT, z3.simplify(n - 1)))
    it.set_content(a[0], VSeq([BaseP(z3.simplify(n - 1),
                                     lambda i: it.seq_at(c, Sym(V.INT, i)))], c.kind))
    return x


def s_insert(it, a, kw):
    c = it.as_seq(a[0])
    if a[1] == 0:
        it.set_content(a[0], VSeq([Elem(a[2])] + list(c.pieces), c.kind))
        return None
    raise Unsupported("insert")


def s_index(it, a, kw):
    c = it.as_seq(a[0])
    x = a[1]
    n = V.term(it.seq_len(c), V.INT)
    has = it.exists_elem(c.pieces, lambda e: to_z3b(it.eq(e, x)))
    it.missing(ValueError, has)
    r = it.fresh("index", z3.IntSort())
    it.fact(And(r >= 0, r < n))
    it.fact(it.eq(it.seq_at(c, Sym(V.INT, r)), x))
    j = z3.Int(it.fresh_name("ij"))
    with it.under([j]):
        ne = Not(to_z3b(it.eq(it.seq_at(c, Sym(V.INT, j)), x)))
    it.fact(ForAll([j], Implies(And(j >= 0, j < r), ne)))
    return Sym(V.INT, r)


def s_copy(it, a, kw):
    c = it._cont(a[0])
    return it.alloc(c)


def s_reverse(it, a, kw):
    c = it.as_seq(a[0])
    it.set_content(a[0], it.reverse_seq(c))


def s_sort(it, a, kw):
    r = m_sorted(it, a, kw)
    it.set_content(a[0], it.content(r))


SEQ = {"append": s_append, "extend": s_extend, "clear": s_clear, "pop": s_pop, "index": s_index,
       "copy": s_copy, "reverse": s_reverse, "insert": s_insert, "sort": s_sort}


def t_add(it, a, kw):
    it.set_add(a[0], a[1])


def t_update(it, a, kw):
    for x in a[1:]:
        it.set_update(a[0], it.iter_pieces(x))


def t_remove(it, a, kw):
    c = it.content(a[0])
    it.missing(KeyError, it.set_mem(c, a[1]))
    it.set_update(a[0], [Elem(a[1])], "del")


def t_discard(it, a, kw):
    it.set_update(a[0], [Elem(a[1])], "del")


def _seto(op):
    def f(it, a, kw):
        cur = it._cont(a[0])
        for x in a[1:]:
            c = it._cont(x)
            if not isinstance(c, VSet):
                c = it.content(m_set(it, [x], {}))
            cur = it.set_op(op(), cur, c)
        return it.alloc(cur)
    return f


def t_issubset(it, a, kw):
    b = it._cont(a[1])
    if not isinstance(b, VSet):
        b = it.content(m_set(it, [a[1]], {}))
    return it._bool(it.subset(it._cont(a[0]), b))


def t_diff_update(it, a, kw):
    for x in a[1:]:
        it.set_update(a[0], it.iter_pieces(x), "del")


SET = {"add": t_add, "update": t_update, "remove": t_remove, "discard": t_discard,
       "union": _seto(ast.BitOr), "intersection": _seto(ast.BitAnd), "difference": _seto(ast.Sub),
       "issubset": t_issubset, "copy": s_copy, "clear": s_clear,
       "difference_update": t_diff_update}


def d_get(it, a, kw):
    c = it._cont(a[0])
    dflt = a[2] if len(a) > 2 else None
    dom = it.dict_dom(c, a[1])
    if not has_quant(dom):
        dom = z3.simplify(dom)
    if is_true(dom):
        return it.dict_value(a[0], c, a[1])
    if V.is_false(dom):
        return dflt

    def go():
        if it.decide(dom):
            return it.dict_value(a[0], c, a[1])
        return dflt
    if dflt is None and getattr(it.current, "fork_get", False) == "all" and not it.st.binders:
        return go()
    dc = it._cont(dflt)
    if isinstance(dc, (VSet, VSeq, VDict)) and getattr(it.current, "fork_get", False) and \
            not it.st.binders:
        return go()  # the result may be changed: keep its identity
    if isinstance(dc, (VSet, VSeq, VDict)):
        # containers: merge by value when possible (read-only use)
        try:
            val = it.freeze(it.dict_get(c, a[1]))
            fd = it.freeze(dflt)
            if isinstance(fd, VSet) and fd.ety is None:
                fd = VSet(val.ety)
            return it.vite(dom, val, fd)
        except (NotMergeable, Unsupported):
            pass
    return it.merged(go)


def d_setdefault(it, a, kw):
    dflt = a[2] if len(a) > 2 else None
    v = it.freeze(dflt)
    it.dict_op(a[0], DOp("setdefault", [], V.TRUE, a[1], v))
    c = it._cont(a[0])
    return it.dict_value(a[0], c, a[1])


def d_keys(it, a, kw):
    return VSeq(it.iter_pieces(a[0]), "iter")


def d_values(it, a, kw):
    return VSeq([p for p in _items(it, a[0], lambda k, v: v)], "iter")


def d_items(it, a, kw):
    return VSeq([p for p in _items(it, a[0], lambda k, v: VTup([k, v]))], "iter")


def _items(it, ref, f):
    c = it._cont(ref)
    out = []

    def val(k):
        v = it.dict_get(it._cont(ref), k)
        if isinstance(v, (VSeq, VSet, VDict)) and isinstance(ref, (Ref, Interior)):
            return Interior(ref, k)
        return v
    for p in it.iter_pieces(ref):
        if isinstance(p, Elem):
            out.append(Elem(f(p.v, val(p.v))))
        elif isinstance(p, Gen) and len(p.sub) == 1 and isinstance(p.sub[0], Elem):
            k = p.sub[0].v
            with it.under(p.binders):
                kv = f(k, val(k))
            out.append(Gen(p.binders, p.guard, [Elem(kv)], p.order))
        else:
            raise Unsupported("dict items")
    return out


def d_pop(it, a, kw):
    c = it._cont(a[0])
    dom = it.dict_dom(c, a[1])
    if len(a) > 2:
        v = it.merged(lambda: it.dict_value(a[0], c, a[1]) if it.decide(dom) else a[2])
    else:
        it.missing(KeyError, dom)
        v = it.dict_value(a[0], c, a[1])
    v = it.freeze(v) if isinstance(v, Interior) else v
    it.dict_op(a[0], DOp("del", [], V.TRUE, a[1]))
    return v


def d_update(it, a, kw):
    def one(v):
        k, x = it.unpack(v, 2)
        it.dict_store(a[0], k, x)
    if len(a) > 1:
        c = it._cont(a[1])
        if isinstance(c, VDict):
            it.loop(_items(it, a[1], lambda k, v: VTup([k, v])), one)
        else:
            it.loop(it.iter_pieces(c), one)
    for k, x in kw.items():
        it.dict_store(a[0], k, x)


DICT = {"get": d_get, "setdefault": d_setdefault, "keys": d_keys, "values": d_values,
        "items": d_items, "pop": d_pop, "copy": s_copy, "clear": s_clear, "update": d_update}


def _strfn(name, ret):
    def f(it, a, kw):
        if all(isinstance(x, (str, int)) for x in a):
            return _conststr(a, kw, name)
        ls = []
        for x in a:
            x = it.freeze(x)
            if isinstance(x, VSeq) or isinstance(x, VTup):
                return Sym(ret, it.fresh(f"str_{name}", ret.sort))
            ls.extend(it.ty_of(x).leaves(x))
        g = z3.Function(f"str_{name}_" + "_".join(str(t.sort()) for t in ls),
                        *[t.sort() for t in ls], ret.sort)
        return Sym(ret, g(*ls))
    return f


STRM = {"join": _strfn("join", V.STR), "replace": _strfn("replace", V.STR),
        "lower": _strfn("lower", V.STR), "upper": _strfn("upper", V.STR),
        "title": _strfn("title", V.STR), "strip": _strfn("strip", V.STR),
        "startswith": _strfn("startswith", V.BOOL), "endswith": _strfn("endswith", V.BOOL),
        "format": lambda it, a, kw: Sym(V.STR, it.fresh("format", V.STR_S)),
        "isalnum": _strfn("isalnum", V.BOOL)}


# ------------------------------------------------------------------ construction
def construct(it, cls, args, kwargs):
    from pydantic import BaseModel
    if issubclass(cls, BaseException):
        fields = {}
        init = it.class_attr(cls, "__init__")
        import types
        if isinstance(init, types.FunctionType) and init.__module__.startswith("subsetter"):
            # exceptions of the package: parameters become attributes of the same name when the
            # real __init__ assigns them (checked by interpreting it)
            ref = it.alloc(VInst(cls, {}))
            it.call(init, [ref] + list(args), kwargs)
            fields = dict(it.content(ref).fields)
        return Exc(cls, tuple(args), fields)
    if issubclass(cls, BaseModel):
        out = {}
        kw = dict(kwargs)
        for name, f in cls.model_fields.items():
            if name in kw:
                out[name] = it.freeze(kw.pop(name))
            elif f.alias is not None and f.alias in kw:
                out[name] = it.freeze(kw.pop(f.alias))
            elif f.default_factory is not None:
                out[name] = it.freeze(it.real(f.default_factory()))
            elif not f.is_required():
                d = f.default
                if isinstance(d, BaseModel):
                    d = real_model(it, d)
                out[name] = it.freeze(it.real(d)) if not isinstance(d, list) else \
                    VSeq([Elem(it.real(x)) for x in d])
            else:
                raise Unsupported(f"{cls.__name__} lacks required field {name}")
        if kw or args:
            raise Unsupported(f"{cls.__name__}: unexpected fields {list(kw)}")
        hook = it.models.get((cls, "__construct__"))
        if hook is not None:
            return hook(it, cls, out)
        return VObj(cls, out)
    if dataclasses.is_dataclass(cls) and "__init__" in cls.__dict__ and \
            not it.source_has_init(cls):
        out, args = {}, list(args)
        kw = dict(kwargs)
        for f in dataclasses.fields(cls):
            if args:
                out[f.name] = it.freeze(args.pop(0))
            elif f.name in kw:
                out[f.name] = it.freeze(kw.pop(f.name))
            elif f.default is not dataclasses.MISSING:
                out[f.name] = it.real(f.default)
            elif f.default_factory is not dataclasses.MISSING:
                out[f.name] = it.call(f.default_factory, [], {})
            else:
                raise PyRaise(Exc(TypeError, (f"missing {f.name}",)))
        if kw or args:
            raise PyRaise(Exc(TypeError, ("unexpected argument",)))
        hook = it.models.get((cls, "__construct__"))
        if hook is not None:
            return hook(it, cls, out)
        return VObj(cls, out)
    if cls.__module__.startswith("subsetter"):
        ref = it.alloc(VInst(cls, {}))
        init = it.class_attr(cls, "__init__")
        if init is not None:
            it.call(init, [ref] + list(args), kwargs)
        elif args or kwargs:
            raise PyRaise(Exc(TypeError, ("no __init__",)))
        return ref
    raise Unsupported(f"construction of {cls}")


def real_model(it, d):
    return VObj(type(d), {k: (real_model(it, x) if hasattr(type(x), "model_fields") else it.real(x))
                          for k, x in ((n, getattr(d, n)) for n in type(d).model_fields)})
