"""Helpers for writing contracts."""
from __future__ import annotations

import z3

from pydv import values as V
from pydv.interp import Contract, LoopSpec
from pydv.values import (And, Exists, ForAll, Implies, Not, Or, Sym, SymOpt, VObj, VSeq, VSet,
                         VDict, VTup, Elem, BaseP, Gen, Cond, Unsupported, to_z3b, Ref, Interior,
                         Native, Exc, VInst, DOp)
from pydv.values import INT, BOOL, REAL, STR, VAL, TEnt, TTup, TOpt, TSeq, TSet, TDict, TObj, TConst


def slen(it, v):
    return V.term(it.seq_len(it._cont(v)), V.INT)


def at(it, v, i):
    return it.seq_at(it._cont(v), Sym(V.INT, i) if z3.is_expr(i) else i)


def num(v):
    """integer term of a value known to be an integer"""
    if isinstance(v, SymOpt):
        v = v.val
    return V.term(v, V.INT)


def eq(it, a, b):
    return to_z3b(it.eq(a, b))


def forall_int(it, fn, lo=None, hi=None, name="q"):
    i = z3.Int(it.fresh_name(name))
    rng = []
    if lo is not None:
        rng.append(i >= lo)
    if hi is not None:
        rng.append(i < hi)
    return it.forall([i], lambda: Implies(And(*rng), to_z3b(fn(i))))


def exists_int(it, fn, lo=None, hi=None, name="q"):
    i = z3.Int(it.fresh_name(name))
    rng = []
    if lo is not None:
        rng.append(i >= lo)
    if hi is not None:
        rng.append(i < hi)
    return it.exists([i], lambda: And(*rng, to_z3b(fn(i))))


def idx(it, fn, seq, name="q"):
    """for all indices of seq"""
    n = it.seq_len(it._cont(seq))
    if isinstance(n, int) and n == 0:
        return V.TRUE
    return forall_int(it, fn, 0, slen(it, seq), name)


def exidx(it, fn, seq, name="q"):
    n = it.seq_len(it._cont(seq))
    if isinstance(n, int) and n == 0:
        return V.FALSE
    return exists_int(it, fn, 0, slen(it, seq), name)


def mem(it, c, x):
    return to_z3b(it.contains(c, x))


def field(it, ref, name):
    return it.content(ref).fields[name] if isinstance(ref, Ref) else ref.fields[name]


def forall_ty(it, ty, fn, name="y"):
    y, bs = it.placeholder(ty, name)
    return it.forall(bs, lambda: to_z3b(fn(y)))


def exists_ty(it, ty, fn, name="y"):
    y, bs = it.placeholder(ty, name)
    return it.exists(bs, lambda: to_z3b(fn(y)))


def old(it, fn):
    """evaluate in the entry state"""
    cur = it.st
    st = it.entry.copy()
    st.binders = cur.binders
    base = len(st.pc)
    it.st = st
    try:
        return fn()
    finally:
        new = st.pc[base:]
        it.st = cur
        it.st.pc.extend(new)


class TDefault(TDict):
    """a defaultdict"""

    def __init__(self, k, v, factory):
        super().__init__(k, v)
        self.factory = factory

    def make(self, name, args=()):
        d = super().make(name, args)
        return VDict(d.kty, d.vty, d.base, d.ops, ("default", self.factory))


def ghost_call(it, src, args, specs):
    """run specification code: a Python function given as text, its loops with invariants"""
    import ast
    node = ast.parse(src).body[0]
    it.source._number_loops(node)
    q = f"spec:{node.name}"
    it.loop_specs[q] = specs
    it.ghost.setdefault("nodes", []).append(node)  # keeps id(node) unique
    return it.run_function(node, args, {}, None, {}, {}, [], {}, None, q)


def at_state(it, st0, fn):
    """evaluate in an earlier state"""
    cur = it.st
    st = st0.copy()
    st.binders = cur.binders
    it.st = st
    try:
        return fn()
    finally:
        it.st = cur


def empty_dict(it, d):
    c = it._cont(d)
    return isinstance(c, VDict) and c.base is None and not c.ops
