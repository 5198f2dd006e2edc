"""Symbolic state, path exploration, sequence/dict/set semantics."""
from __future__ import annotations

import contextlib
import time

import pydv  # noqa: F401
import z3

from pydv import values as V
from pydv.values import (And, BaseP, Cond, DOp, Elem, Exists, ForAll, Frame, Gen, Implies,
                         Interior, Not, Or, Poison, Ref, Sym, SymOpt, Unsupported, VDict,
                         VInst, VObj, VSeq, VSet, VTup, Value, is_false, is_true, to_z3b)


class PyRaise(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


class Ret(Exception):
    def __init__(self, v):
        super().__init__()
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Infeasible(Exception):
    pass


class NotMergeable(Exception):
    pass


class St:
    __slots__ = ("heap", "pc", "binders", "memo", "measured")

    def __init__(self, heap=None, pc=None, binders=(), memo=None):
        self.memo = memo if memo is not None else {}
        self.heap = heap if heap is not None else {}
        self.pc = pc if pc is not None else []
        self.binders = tuple(binders)
        self.measured = []

    def copy(self):
        st = St(dict(self.heap), list(self.pc), self.binders, dict(self.memo))
        st.measured = list(self.measured)
        return st


class Obl:
    def __init__(self, name, pc, goal, kind="post", binders=()):
        self.name, self.pc, self.goal, self.kind = name, pc, goal, kind
        self.status = None
        self.detail = {}


class Core:
    """Path exploration + container semantics.  Interp adds Python syntax on top."""

    def __init__(self):
        self.st = St()
        self.decs = []
        self.obls = []
        self.obl_keys = set()
        self.recording = True
        self.false_seen = False
        self.quick_solver = None
        self.dead_stats = 0
        self.cell_ctr = 0
        self.extra_axioms = []
        self.paths_run = 0
        self.max_paths = 4000
        self.give_up = None

    # ------------------------------------------------------------------ fresh
    @property
    def n(self):
        return V.COUNTER[0]

    @n.setter
    def n(self, v):
        V.COUNTER[0] = v

    def uid(self):
        return V.uid()

    @contextlib.contextmanager
    def under(self, bs):
        """Evaluate a formula below a quantifier over bs: symbols created inside depend on bs,
        definitional facts are generalised."""
        bs = list(bs)
        old, base = self.st.binders, len(self.st.pc)
        self.st.binders = old + tuple(bs)
        try:
            yield
        finally:
            self.st.binders = old
            new = self.st.pc[base:]
            del self.st.pc[base:]
            for k, f in new:
                assert k != "cond"
                self.st.pc.append((k, ForAll(bs, f)))

    def exists_elem(self, pieces, pred):
        out = []
        for p in pieces:
            if isinstance(p, Elem):
                out.append(to_z3b(pred(p.v)))
            elif isinstance(p, Cond):
                out.append(And(p.g, self.exists_elem(p.sub, pred)))
            elif isinstance(p, (BaseP, Gen)):
                g = V.base_to_gen(p) if isinstance(p, BaseP) else V.rename_gen(p)
                with self.under(g.binders):
                    inner = self.exists_elem(g.sub, pred)
                out.append(Exists(g.binders, And(g.guard, inner)))
            else:
                raise Unsupported(f"piece {p}")
        return Or(*out)

    def forall_elem(self, pieces, pred):
        out = []
        for p in pieces:
            if isinstance(p, Elem):
                out.append(to_z3b(pred(p.v)))
            elif isinstance(p, Cond):
                out.append(Implies(p.g, self.forall_elem(p.sub, pred)))
            elif isinstance(p, (BaseP, Gen)):
                g = V.base_to_gen(p) if isinstance(p, BaseP) else V.rename_gen(p)
                with self.under(g.binders):
                    inner = self.forall_elem(g.sub, pred)
                out.append(ForAll(g.binders, Implies(g.guard, inner)))
            else:
                raise Unsupported(f"piece {p}")
        return And(*out)

    def exists(self, bs, fn):
        bs = list(bs)
        if not bs:
            return to_z3b(fn())
        with self.under(bs):
            f = to_z3b(fn())
        return Exists(bs, f)

    def forall(self, bs, fn):
        bs = list(bs)
        if not bs:
            return to_z3b(fn())
        with self.under(bs):
            f = to_z3b(fn())
        return ForAll(bs, f)

    def fresh_name(self, base):
        return f"{base}!{self.uid()}"

    def fresh(self, base, sort):
        return V._app(f"{base}!{self.uid()}!{sort}", list(self.st.binders), sort)

    def fresh_fn(self, base, dom, rng):
        """function of the context binders plus explicit arguments"""
        ctx = list(self.st.binders)
        name = f"{base}!{self.uid()}"
        if not dom and not ctx:
            c = z3.Const(name, rng)
            return lambda: c
        f = z3.Function(name, *[b.sort() for b in ctx], *dom, rng)
        return lambda *a: f(*ctx, *a)

    def make(self, ty, base, facts=True):
        v = ty.make(self.fresh_name(base), list(self.st.binders))
        if facts:
            for f in ty.facts(v):
                self.fact(f)
        return v

    # ------------------------------------------------------------------ heap
    def alloc(self, content):
        self.cell_ctr += 1
        i = self.cell_ctr
        self.st.heap[i] = content
        return Ref(i)

    reads = None

    def content(self, v):
        if isinstance(v, Ref):
            if self.reads is not None:
                self.reads.add(v.id)
            return self.st.heap[v.id]
        if isinstance(v, Interior):
            d = self.content(v.cell)
            return self.content(self.dict_get(d, v.key))
        return v

    def set_content(self, ref, content):
        assert isinstance(ref, Ref)
        self.st.heap[ref.id] = content

    # ------------------------------------------------------------------ pc
    def fact(self, f):
        f = to_z3b(f)
        if is_true(f):
            return
        if is_false(f):
            raise Infeasible()
        self.st.pc.append(("fact", f))

    def cond(self, f):
        f = to_z3b(f)
        if is_true(f):
            return
        if is_false(f):
            raise Infeasible()
        self.st.pc.append(("cond", f))

    def hyps(self):
        return [f for _, f in self.st.pc]

    def oblige(self, name, goal, kind="safety"):
        goal = to_z3b(goal)
        if is_true(goal):
            if self.recording:
                self._rec(Obl(name, [], goal, kind))
            return
        if self.recording:
            self._rec(Obl(name, self.hyps(), goal, kind))
        if is_false(goal):
            self.false_seen = True
            raise Infeasible()
        self.st.pc.append(("obl", goal))

    def _rec(self, o):
        key = (o.name, o.goal.get_id(), tuple(f.get_id() for f in o.pc))
        if key in self.obl_keys:
            return
        self.obl_keys.add(key)
        self.obls.append(o)

    # quick quantifier-free feasibility
    def quick_unsat(self, extra):
        s = z3.Solver()
        s.set("timeout", 150)
        seen = set()
        for f in self.hyps() + list(extra):
            if f.get_id() in seen:
                continue
            seen.add(f.get_id())
            if not has_quant(f):
                s.add(f)
        return s.check() == z3.unsat

    def decide(self, c, prune=True):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c) if not has_quant(c) else c
        if is_true(c):
            return True
        if is_false(c):
            return False
        if not self.decs:
            raise Unsupported("decision outside an exploration")
        fr = self.decs[-1]
        if fr.pos < len(fr.taken):
            ch = fr.taken[fr.pos]
            fr.pos += 1
        else:
            t_dead = f_dead = False
            if prune:
                qc = has_quant(c)
                ids = {f.get_id() for f in self.hyps()}
                nc = Not(c)
                if c.get_id() in ids:
                    f_dead = True
                elif nc.get_id() in ids:
                    t_dead = True
                elif not qc:
                    t_dead = self.quick_unsat([c])
                    f_dead = (not t_dead) and self.quick_unsat([nc])
            if t_dead and f_dead:
                raise Infeasible()
            ch = not t_dead
            fr.taken.append(ch)
            fr.alt.append(not (t_dead or f_dead))
            fr.pos += 1
        self.cond(c if ch else Not(c))
        return ch

    def choose(self, n):
        """Nondeterministic choice among n alternatives (no path condition added)."""
        for i in range(n - 1):
            if self._choice_bit():
                return i
        return n - 1

    def _choice_bit(self):
        fr = self.decs[-1]
        if fr.pos < len(fr.taken):
            ch = fr.taken[fr.pos]
        else:
            ch = True
            fr.taken.append(True)
            fr.alt.append(True)
        fr.pos += 1
        return ch

    def explore(self, fn):
        """Run fn on every path from the current state.

        Returns [(state, kind, value)]: kind in 'val','ret','raise','break','cont'.
        """
        snap = self.st
        n0, hi = self.n, self.n
        work = [([], [])]
        out = []
        while work:
            taken, alt = work.pop()
            self.paths_run += 1
            if self.paths_run > self.max_paths:
                raise Unsupported("too many paths")
            if self.give_up is not None and time.time() > self.give_up:
                raise Unsupported("symbolic execution takes too long")
            self.st = snap.copy()
            self.n = n0
            fr = _Dec(list(taken), list(alt))
            base = len(taken)
            self.decs.append(fr)
            dead = False
            kind, val = "val", None
            try:
                val = fn()
            except Infeasible:
                dead = True
            except PyRaise as e:
                kind, val = "raise", e.exc
            except Ret as e:
                kind, val = "ret", e.v
            except Brk:
                kind = "break"
            except Cnt:
                kind = "cont"
            finally:
                self.decs.pop()
                hi = max(hi, self.n)
            for j in range(base, len(fr.taken)):
                if fr.alt[j]:
                    work.append((fr.taken[:j] + [not fr.taken[j]], fr.alt[:j] + [False]))
            if not dead:
                out.append((self.st, kind, val))
        self.st = snap
        self.n = hi
        return out

    # delta of path condition relative to a base length
    @staticmethod
    def delta_conds(st, base_len):
        return [f for k, f in st.pc[base_len:] if k == "cond"]

    @staticmethod
    def lifted_facts(st, base_len, unproved=False):
        """(kind, formula) of the delta, each under the conditions preceding it; where the
        obligations have not been recorded (unproved), they are no facts but conditions of what
        follows them"""
        out, conds = [], []
        for k, f in st.pc[base_len:]:
            if k == "cond" or unproved and k == "obl":
                conds.append(f)
            else:
                out.append((k, Implies(And(*conds), f)))
        return out

    # ----------------------------------------------------------- freezing
    newer_than = 0

    def freeze_new(self, v, base):
        old = self.newer_than
        self.newer_than = base
        try:
            return self.freeze(v)
        finally:
            self.newer_than = old

    def freeze(self, v, depth=0):
        """Replace heap references (newer than newer_than) by their contents."""
        if depth > 12:
            raise Unsupported("freeze: cyclic")
        if isinstance(v, Ref):
            if v.id <= self.newer_than:
                return v
            c = self.st.heap[v.id]
            if isinstance(c, VInst):
                return VObj(c.cls, {k: self.freeze(x, depth + 1) for k, x in c.fields.items()})
            if isinstance(c, Frame):
                return v
            return self.freeze(c, depth + 1)
        if isinstance(v, Interior):
            if self.newer_than:
                r = v
                while isinstance(r, Interior):
                    r = r.cell
                if isinstance(r, Ref) and r.id <= self.newer_than:
                    return Interior(v.cell, self.freeze(v.key, depth + 1))
            return self.freeze(self.content(v), depth + 1)
        # values without references are returned as they are (identity matters: a sequence of
        # unspecified order is materialised once per piece object)
        if isinstance(v, VTup):
            xs = [self.freeze(x, depth + 1) for x in v.items]
            return v if _same(xs, v.items) else VTup(xs)
        if isinstance(v, SymOpt):
            x = self.freeze(v.val, depth + 1)
            return v if x is v.val else SymOpt(v.isnone, x)
        if isinstance(v, VSeq):
            ps = self.freeze_pieces(v.pieces, depth + 1)
            sts = [self.freeze_dop(o, depth + 1) for o in v.stores]
            return v if _same(ps, v.pieces) and _same(sts, v.stores) else VSeq(ps, v.kind, sts)
        if isinstance(v, VSet):
            ops = [(k, self.freeze_pieces(p, depth + 1)) for k, p in v.ops]
            if all(_same(p, q) for (_, p), (_, q) in zip(ops, v.ops)):
                return v
            return VSet(v.ety, v.base, ops)
        if isinstance(v, VDict):
            ops = [self.freeze_dop(o, depth + 1) for o in v.ops]
            return v if _same(ops, v.ops) else VDict(v.kty, v.vty, v.base, ops, v.kind)
        if isinstance(v, VObj):
            fs = {k: self.freeze(x, depth + 1) for k, x in v.fields.items()}
            return v if _same(fs.values(), v.fields.values()) else VObj(v.cls, fs)
        if isinstance(v, V.Bound):
            return V.Bound(v.fn, self.freeze(v.self_, depth + 1))
        return v

    def freeze_pieces(self, ps, depth=0):
        out = []
        for p in ps:
            if isinstance(p, Elem):
                x = self.freeze(p.v, depth + 1)
                out.append(p if x is p.v else Elem(x))
            elif isinstance(p, (Cond, Gen)):
                sub = self.freeze_pieces(p.sub, depth + 1)
                if _same(sub, p.sub):
                    out.append(p)
                elif isinstance(p, Cond):
                    out.append(Cond(p.g, sub))
                else:
                    out.append(Gen(p.binders, p.guard, sub, p.order, p.before))
            else:
                out.append(p)
        return tuple(out)

    def freeze_dop(self, o, depth=0):
        val = o.val
        if o.kind == "inner":
            k, p = val
            p2 = self.freeze_pieces(p, depth + 1) if k in ("append", "add", "del") \
                else self.freeze_dop(p, depth + 1)
            val = val if p2 is p or isinstance(p2, tuple) and _same(p2, p) else (k, p2)
        else:
            val = self.freeze(val, depth + 1)
        key = self.freeze(o.key, depth + 1)
        if val is o.val and key is o.key:
            return o
        return DOp(o.kind, o.binders, o.guard, key, val, o.order)

    # ----------------------------------------------------------- equality
    def eq(self, a, b):
        if a is b:
            return True
        if isinstance(a, (Ref, Interior)) or isinstance(b, (Ref, Interior)):
            ca, cb = self.content(a), self.content(b)
            if isinstance(ca, VInst) or isinstance(cb, VInst):
                return isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id
            return self.eq(ca, cb)
        if isinstance(a, SymOpt) or isinstance(b, SymOpt):
            if a is None:
                return b.isnone
            if b is None:
                return a.isnone
            an = a.isnone if isinstance(a, SymOpt) else False
            bn = b.isnone if isinstance(b, SymOpt) else False
            av = a.val if isinstance(a, SymOpt) else a
            bv = b.val if isinstance(b, SymOpt) else b
            if isinstance(av, Sym) and av.ty is V.VAL or isinstance(bv, Sym) and bv.ty is V.VAL:
                return V.term(a, V.VAL) == V.term(b, V.VAL)
            return Or(And(an, bn), And(Not(to_z3b(an)), Not(to_z3b(bn)), to_z3b(self.eq(av, bv))))
        if isinstance(a, Sym) or isinstance(b, Sym):
            return self._eq_sym(a, b)
        if isinstance(a, VTup) or isinstance(b, VTup):
            if isinstance(a, tuple):
                a = VTup(a)
            if isinstance(b, tuple):
                b = VTup(b)
            if isinstance(a, VTup) and isinstance(b, VTup):
                if len(a.items) != len(b.items):
                    return False
                return And(*[to_z3b(self.eq(x, y)) for x, y in zip(a.items, b.items)])
            for x, y in ((a, b), (b, a)):
                if isinstance(x, VTup) and isinstance(y, VSeq):
                    return self.seq_eq(VSeq([Elem(i) for i in x.items]), y)
            return False
        if isinstance(a, VSeq) and isinstance(b, VSeq):
            return self.seq_eq(a, b)
        if isinstance(a, VObj) and isinstance(b, VObj):
            if a.cls is not b.cls:
                return False
            return And(*[to_z3b(self.eq(a.fields[k], b.fields[k])) for k in a.fields])
        if isinstance(a, VSet) and isinstance(b, VSet):
            ety = a.ety or b.ety
            if ety is None:
                return True
            y, bs = self.placeholder(ety)
            return self.forall(bs, lambda: self.set_mem(a, y) == self.set_mem(b, y))
        if isinstance(a, Value) != isinstance(b, Value):
            return False
        if isinstance(a, Value) and isinstance(b, Value):
            if type(a) is not type(b):
                return False
            raise Unsupported(f"equality of {a} and {b}")
        return a == b

    def _eq_sym(self, a, b):
        if a is None or b is None:
            s = b if a is None else a
            return s.t == V.Val_none if s.ty is V.VAL else False
        ty = a.ty if isinstance(a, Sym) else b.ty
        other = b if isinstance(a, Sym) else a
        if isinstance(other, Sym) and isinstance(ty, V.TEnt) and other.ty is not ty:
            return False
        if isinstance(ty, V.TEnt):
            if not isinstance(other, Sym):
                if isinstance(other, VObj) and ty.eqmode == "struct" and other.cls in ty.classes:
                    return self.struct_eq(Sym(ty, a.t if isinstance(a, Sym) else b.t), other)
                if hasattr(ty, "coerce_term"):
                    r = ty.coerce_term(other)
                    if r is not None:
                        return (a.t if isinstance(a, Sym) else b.t) == r
                return False
            if ty.eqmode == "struct" and not a.t.eq(b.t):
                return Or(a.t == b.t, self.struct_eq(a, b))
            return a.t == b.t
        if isinstance(a, Sym) and isinstance(b, Sym) and b.ty is V.VAL:
            ty = V.VAL
        if isinstance(other, (VTup, VSeq, VObj, VSet, VDict, Ref)):
            return False
        try:
            if ty is V.INT and isinstance(other, (float,)):
                ty = V.REAL
            if isinstance(a, Sym) and isinstance(b, Sym) and {a.ty, b.ty} == {V.INT, V.REAL}:
                ty = V.REAL
            return V.term(a, ty) == V.term(b, ty)
        except Unsupported:
            # e.g. str compared with int
            if ty in (V.INT, V.STR, V.BOOL, V.REAL):
                return False
            raise

    def struct_eq(self, a, b):
        ty = a.ty
        out = []
        for f in ty.eqfields:
            out.append(to_z3b(self.eq(self.get_field(a, f), self.get_field(b, f))))
        return And(*out)

    def get_field(self, v, f):
        raise NotImplementedError

    def seq_eq(self, a, b):
        ea, eb = V.all_elems(a.pieces), V.all_elems(b.pieces)
        if ea is not None and eb is not None:
            if len(ea) != len(eb):
                return False
            return And(*[to_z3b(self.eq(x, y)) for x, y in zip(ea, eb)])
        n1, n2 = self.seq_len(a), self.seq_len(b)
        if ea is not None or eb is not None:
            k = len(ea if ea is not None else eb)
            return And(V.term(n1, V.INT) == V.term(n2, V.INT),
                       *[to_z3b(self.eq(self.seq_at(a, i), self.seq_at(b, i)))
                         for i in range(k)])
        i = z3.Int(self.fresh_name("eqi"))
        t1, t2 = V.term(n1, V.INT), V.term(n2, V.INT)
        return And(t1 == t2, self.forall([i], lambda: Implies(
            And(i >= 0, i < t1),
            to_z3b(self.eq(self.seq_at(a, Sym(V.INT, i)), self.seq_at(b, Sym(V.INT, i)))))))

    def placeholder(self, ty, base="y"):
        bs = [z3.Const(self.fresh_name(base), s) for s in ty.sorts()]
        return ty.from_leaves(bs), bs

    # ----------------------------------------------------------- sets
    def elem_type(self, v):
        return self.ty_of(v)

    def ty_of(self, v):
        if isinstance(v, (Ref, Interior)):
            return self.ty_of(self.content(v))
        if isinstance(v, VSet):
            return V.TSet(v.ety) if v.ety is not None else V.TSet(None)
        if isinstance(v, VSeq):
            return V.TSeq(self.pieces_type(v.pieces), v.kind)
        if isinstance(v, VTup):
            return V.TTup(*[self.ty_of(x) for x in v.items])
        if isinstance(v, SymOpt):
            return V.TOpt(self.ty_of(v.val))
        if isinstance(v, VDict):
            vt = v.vty
            if vt is None:
                for o in v.ops:
                    if o.kind in ("store", "setdefault"):
                        vt = self.ty_of(o.val)
                        break
            return V.TDict(v.kty, vt)
        if v is None or isinstance(v, VObj):
            raise Unsupported(f"no type for {v!r}")
        return V.ty_of(v)

    def pieces_type(self, ps):
        for p in ps:
            if isinstance(p, Elem):
                return self.ty_of(p.v)
            if isinstance(p, BaseP):
                i = z3.Int("ty!i")
                return self.ty_of(p.at(i))
            if isinstance(p, (Gen, Cond)):
                t = self.pieces_type(p.sub)
                if t is not None:
                    return t
        return None

    def norm_key(self, ty, v):
        """value as leaves of type ty"""
        return ty.leaves(v)

    def set_mem(self, s, y):
        if s.ety is not None and self._mistyped(s.ety, y):
            return False
        m = s.base(y) if s.base is not None else V.FALSE
        for kind, pieces in s.ops:
            inp = self.exists_elem(pieces, lambda e: to_z3b(self.eq(e, y)))
            m = Or(m, inp) if kind == "add" else And(m, Not(inp))
        return to_z3b(m)

    def _mistyped(self, ty, y):
        if ty is V.STR and isinstance(y, (int, float)) or ty is V.INT and isinstance(y, str):
            return True
        return y is None and not isinstance(ty, V.TOpt) and ty is not V.VAL

    def dict_dom(self, d, y):
        if d.kty is not None and self._mistyped(d.kty, y):
            return V.FALSE
        m = to_z3b(d.base[0](y)) if d.base is not None else V.FALSE
        for o in d.ops:
            if o.kind == "inner":
                continue
            hit = self._op_hit(o, y)
            m = And(m, Not(hit)) if o.kind == "del" else Or(m, hit)
        return to_z3b(m)

    def vite(self, c, a, b):
        """value-level if-then-else"""
        if isinstance(c, bool):
            return a if c else b
        if is_true(c):
            return a
        if is_false(c):
            return b
        if a is b:
            return a
        if isinstance(a, (Ref, Interior)) and isinstance(b, (Ref, Interior)):
            if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
                return a
        if a is None or b is None or isinstance(a, SymOpt) or isinstance(b, SymOpt):
            if a is None and b is None:
                return None
            an = V.TRUE if a is None else (a.isnone if isinstance(a, SymOpt) else V.FALSE)
            bn = V.TRUE if b is None else (b.isnone if isinstance(b, SymOpt) else V.FALSE)
            av = None if a is None else (a.val if isinstance(a, SymOpt) else a)
            bv = None if b is None else (b.val if isinstance(b, SymOpt) else b)
            val = bv if av is None else av if bv is None else self.vite(c, av, bv)
            if isinstance(val, Sym) and val.ty is V.VAL:
                return Sym(V.VAL, z3.If(c, V.term(a, V.VAL), V.term(b, V.VAL)))
            isn = Or(And(c, an), And(Not(c), bn))
            if not has_quant(isn):
                isn = z3.simplify(isn)
            return val if is_false(isn) else SymOpt(isn, val)
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise NotMergeable()
        if isinstance(a, VTup) and isinstance(b, VTup) and len(a.items) == len(b.items):
            return VTup(self.vite(c, x, y) for x, y in zip(a.items, b.items))
        sa = isinstance(a, (Sym, bool, int, float, str))
        sb = isinstance(b, (Sym, bool, int, float, str))
        if sa and sb:
            if not isinstance(a, Sym) and not isinstance(b, Sym) and type(a) is type(b) and a == b:
                return a
            ta, tb = V.ty_of(a), V.ty_of(b)
            if ta is tb:
                return Sym(ta, z3.If(c, V.term(a, ta), V.term(b, ta)))
            if {ta, tb} <= {V.INT, V.REAL}:
                return Sym(V.REAL, z3.If(c, V.term(a, V.REAL), V.term(b, V.REAL)))
            if {ta, tb} <= {V.VAL, V.INT, V.REAL, V.STR, V.BOOL}:
                return Sym(V.VAL, z3.If(c, V.term(a, V.VAL), V.term(b, V.VAL)))
            raise NotMergeable()
        if isinstance(a, (Ref, Interior, VSeq, VSet, VDict)) and \
                isinstance(b, (Ref, Interior, VSeq, VSet, VDict, VTup)) or isinstance(b, VSeq):
            fa, fb = self.freeze(a), self.freeze(b)
            if isinstance(fb, VTup):
                fb = VSeq([Elem(x) for x in fb.items], "tuple")
            if isinstance(fa, VTup):
                fa = VSeq([Elem(x) for x in fa.items], "tuple")
            if isinstance(fa, VSeq) and isinstance(fb, VSeq):
                return VSeq([Cond(g, ps) for g, ps in ((c, fa.pieces), (Not(c), fb.pieces))
                             if ps], fa.kind)
            if isinstance(fa, VSet) and isinstance(fb, VSet):
                return VSet(fa.ety or fb.ety, lambda y: z3.If(c, to_z3b(self.set_mem(fa, y)),
                                                             to_z3b(self.set_mem(fb, y))))
            if isinstance(fa, VDict) and isinstance(fb, VDict):
                return VDict(fa.kty or fb.kty, fa.vty or fb.vty, (
                    lambda y: z3.If(c, self.dict_dom(fa, y), self.dict_dom(fb, y)),
                    lambda y: self._get_either(c, fa, fb, y)))
        if isinstance(a, VObj) and isinstance(b, VObj) and a.cls is b.cls \
                and set(a.fields) == set(b.fields):
            return VObj(a.cls, {k: self.vite(c, a.fields[k], b.fields[k]) for k in a.fields})
        raise NotMergeable()

    def _get_either(self, c, fa, fb, y):
        for d, o in ((fa, fb), (fb, fa)):
            if d.base is None and not d.ops and not isinstance(d.kind, tuple):
                return self.dict_get(o, y)  # the key can only be in the other
        return self.vite(c, self.dict_get(fa, y), self.dict_get(fb, y))

    def dict_get(self, d, y):
        """value stored at y (assumes y in the domain)"""
        d = self.content(d)
        cur = d.base[1](y) if d.base is not None else _NOVAL
        dom = to_z3b(d.base[0](y)) if d.base is not None else V.FALSE
        for o in d.ops:
            if o.kind == "del":
                dom = And(dom, Not(self._op_hit(o, y)))
                continue
            if not o.binders:
                hit = And(o.guard, to_z3b(self.eq(o.key, y)))
                if not is_true(hit) and not is_false(hit):
                    hit = z3.simplify(hit) if not has_quant(hit) else hit
                if is_false(hit):
                    continue
                if o.kind == "store":
                    cur = o.val if cur is _NOVAL or is_true(hit) else self.vite(hit, o.val, cur)
                    dom = Or(dom, hit)
                elif o.kind == "setdefault":
                    if cur is _NOVAL:
                        cur = o.val
                    elif is_true(dom):
                        pass
                    else:
                        cur = self.vite(And(hit, Not(dom)), o.val, cur)
                    dom = Or(dom, hit)
                elif o.kind == "inner":
                    cur = self._apply_inner(cur, hit, o.val, [])
                continue
            # generic operation
            if o.kind == "inner":
                bs, (g, key, val) = self._rename_op(o)
                with self.under(bs):
                    match = And(g, to_z3b(self.eq(key, y)))
                cur = self._apply_inner(cur, match, val, bs, o.order)
                continue
            cur, dom = self._generic_store(o, y, cur, dom)
        if cur is _NOVAL:
            raise Unsupported("lookup in an empty dict")
        return cur

    def _op_hit(self, o, y):
        if not o.binders:
            return And(o.guard, to_z3b(self.eq(o.key, y)))
        nb = [z3.Const(f"{str(b).split('!')[0]}!{self.uid()}", b.sort()) for b in o.binders]
        pairs = list(zip(o.binders, nb))
        g, key = V.subst_t(o.guard, pairs), V.subst(o.key, pairs)
        return self.exists(nb, lambda: And(g, to_z3b(self.eq(key, y))))

    def _rename_op(self, o):
        nb = [z3.Const(f"{str(b).split('!')[0]}!{self.uid()}", b.sort()) for b in o.binders]
        pairs = list(zip(o.binders, nb))
        o2 = V.subst_dop(o, pairs)
        return nb, (o2.guard, o2.key, o2.val)

    def _apply_inner(self, cur, hit, val, binders, order="int"):
        k, p = val
        if cur is _NOVAL:
            raise Unsupported("inner update of a missing entry")
        cont = self.freeze(cur)
        if k in ("append",):
            assert isinstance(cont, VSeq), cont
            piece = [Gen(binders, hit, p, order)] if binders else \
                (list(p) if is_true(hit) else [Cond(hit, p)])
            return VSeq(list(cont.pieces) + piece, cont.kind)
        if k in ("add", "del"):
            assert isinstance(cont, VSet), cont
            piece = [Gen(binders, hit, p, order)] if binders else \
                (list(p) if is_true(hit) else [Cond(hit, p)])
            return VSet(cont.ety or self.pieces_type(p), cont.base,
                        list(cont.ops) + [(k, tuple(piece))])
        if k == "dict":
            assert isinstance(cont, VDict), cont
            op = DOp(p.kind, list(binders) + list(p.binders), And(hit, p.guard), p.key, p.val,
                     order)
            return VDict(cont.kty or self.ty_of(p.key), cont.vty, cont.base,
                         list(cont.ops) + [op], cont.kind)
        raise Unsupported(f"inner op {k}")

    def _generic_store(self, o, y, cur, dom):
        bs, (g, key, val) = self._rename_op(o)
        with self.under(bs):
            match = And(g, to_z3b(self.eq(key, y)))
        hit = Exists(bs, match)
        if not mentions_any(val, bs):
            # stored value does not depend on the iteration
            newv = val
        else:
            # solve by one-point: key == y may determine the binders
            sol = solve_binders(match, bs)
            if sol is not None:
                newv = V.subst(val, sol)
            else:
                # skolem: the iteration that wrote (store: last, setdefault: first)
                ylv = self.leaves_any(y)
                sk = [self.fresh_fn("wr", [t.sort() for t in ylv], b.sort())(*ylv) for b in bs]
                pairs = list(zip(bs, sk))
                m_sk = z3.substitute(match, *pairs)
                f = [Implies(hit, m_sk)]
                if o.order == "int" and len(bs) == 1 and bs[0].sort() == z3.IntSort():
                    cmp = (bs[0] <= sk[0]) if o.kind == "store" else (bs[0] >= sk[0])
                    f.append(ForAll(bs, Implies(match, cmp)))
                self._addfacts(f)
                newv = V.subst(val, pairs)
        if o.kind == "store":
            nv = newv if cur is _NOVAL else self.vite(hit, newv, cur)
        else:
            nv = newv if cur is _NOVAL else self.vite(dom, cur, newv)
        return nv, Or(dom, hit)

    def leaves_any(self, y):
        return self.ty_of(y).leaves(y)

    def _addfacts(self, fs):
        """definitional facts about fresh symbols: always sound to assume"""
        for f in fs:
            if not is_true(f):
                self.st.pc.append(("fact", f))

    # ----------------------------------------------------------- sequences
    def as_seq(self, v):
        v = self.content(v) if isinstance(v, (Ref, Interior)) else v
        if isinstance(v, VTup):
            return VSeq([Elem(x) for x in v.items], "tuple")
        if isinstance(v, tuple):
            return VSeq([Elem(x) for x in v], "tuple")
        if isinstance(v, VSeq):
            return self.norm_seq(v)
        raise Unsupported(f"not a sequence: {v!r}")

    def norm_seq(self, v):
        """fold pending item stores into the pieces"""
        if not v.stores:
            return v
        if getattr(v, "_norm", None) is not None:
            return v._norm
        raw = VSeq(v.pieces, v.kind)
        n = self.seq_len(raw)

        def at(i):
            cur = self.seq_at(raw, Sym(V.INT, i))
            y = Sym(V.INT, i)
            for o in v.stores:
                if o.binders:
                    cur, _ = self._generic_store(o, y, cur, V.TRUE)
                else:
                    hit = And(o.guard, to_z3b(self.eq(o.key, y)))
                    if not has_quant(hit):
                        hit = z3.simplify(hit)
                    cur = self.vite(hit, o.val, cur)
            return cur
        if isinstance(n, int):
            r = VSeq([Elem(at(z3.IntVal(k))) for k in range(n)], v.kind)
        else:
            r = VSeq([BaseP(n.t, at)], v.kind)
        v._norm = r
        return r

    def seq_len(self, v):
        v = self.as_seq(v)
        k, terms = 0, []
        for p in v.pieces:
            if isinstance(p, Elem):
                k += 1
            elif isinstance(p, BaseP):
                terms.append(p.n)
            else:
                terms.append(self.mat(p)[0])
        if not terms:
            return k
        t = terms[0]
        for x in terms[1:]:
            t = t + x
        return Sym(V.INT, t + k if k else t)

    def mat(self, p):
        """materialise a Gen/Cond piece: (n, at)"""
        if getattr(p, "_mat", None) is None:
            p._mat = self._mat(p)
        n, at, facts = p._mat
        have = {f.get_id() for _, f in self.st.pc}
        for f in facts:
            if f.get_id() not in have:
                self.st.pc.append(("fact", f))
        return n, at

    def _atoms(self, pieces, binders, guard, path):
        out = []
        for j, p in enumerate(pieces):
            if isinstance(p, Elem):
                out.append((list(binders), guard, p.v, path + [j]))
            elif isinstance(p, Cond):
                out.extend(self._atoms(p.sub, binders, And(guard, p.g), path + [j]))
            elif isinstance(p, BaseP):
                g = V.base_to_gen(p)
                out.extend(self._atoms(g.sub, binders + g.binders, And(guard, g.guard),
                                       path + [j]))
            elif isinstance(p, Gen):
                g = V.rename_gen(p)
                out.extend(self._atoms(g.sub, binders + g.binders, And(guard, g.guard),
                                       path + [j]))
        return out

    def _mat(self, p):
        n = self.fresh_fn("n", [], z3.IntSort())()
        if isinstance(p, Cond):
            sub = VSeq(p.sub)
            m = V.term(self.seq_len(sub), V.INT)
            return z3.If(p.g, m, z3.IntVal(0)), lambda i: self.seq_at(sub, Sym(V.INT, i)), []
        atoms = self._atoms([p], [], V.TRUE, [])
        facts = [n >= 0]
        I = z3.IntSort()
        key = None
        if len(atoms) == 1 and isinstance(p, Gen) and p.order == "int":
            # element positions depend on the guard only: shared by equal generators
            bs, g, v, path = atoms[0]
            canon = [(b, z3.Const(f"canon!{j}", b.sort())) for j, b in enumerate(bs)]
            cg = z3.substitute(to_z3b(g), *canon) if canon else to_z3b(g)
            key = (cg, tuple(c for _, c in canon), self.st.binders)
            have = self.st.memo.get(key)
            if have is not None:
                n, src, facts = have
                return n, lambda i: V.subst(v, [(b, f(i)) for b, f in zip(bs, src)]), facts
        which = self.fresh_fn("which", [I], I) if len(atoms) > 1 else None
        poss, srcs = [], []
        for bs, g, v, path in atoms:
            poss.append(self.fresh_fn("pos", [b.sort() for b in bs], I) if bs else None)
            srcs.append([self.fresh_fn("src", [I], b.sort()) for b in bs])
        i = z3.Int(self.fresh_name("mi"))
        alts = []
        for k, (bs, g, v, path) in enumerate(atoms):
            pos = poss[k](*bs) if bs else self.fresh_fn("pos", [], I)()
            w = (which(pos) == k) if which else V.TRUE
            facts.append(ForAll(bs, Implies(g, And(
                pos >= 0, pos < n, w,
                *[srcs[k][j](pos) == b for j, b in enumerate(bs)]))))
            sub = [(b, srcs[k][j](i)) for j, b in enumerate(bs)]
            gi = z3.substitute(to_z3b(g), *sub) if sub else g
            posi = z3.substitute(pos, *sub) if sub else pos
            alts.append(And((which(i) == k) if which else V.TRUE, gi, posi == i))
        facts.append(ForAll([i], Implies(And(i >= 0, i < n), Or(*alts)),
                            patterns=[srcs[0][0](i)] if srcs and srcs[0] else None))
        # order
        if isinstance(p, Gen) and p.order == "int" and len(p.binders) == 1 \
                and all(len(a[0]) == 1 and a[0][0].sort() == I for a in atoms):
            for k, (bs, g, v, path) in enumerate(atoms):
                for k2, (bs2, g2, v2, path2) in enumerate(atoms):
                    x, y = z3.Int(self.fresh_name("ox")), z3.Int(self.fresh_name("oy"))
                    gx = z3.substitute(to_z3b(g), (bs[0], x))
                    gy = z3.substitute(to_z3b(g2), (bs2[0], y))
                    lt = (x < y) if k >= k2 else (x <= y)
                    facts.append(ForAll([x, y], Implies(And(gx, gy, lt),
                                                        poss[k](x) < poss[k2](y)),
                                        patterns=[z3.MultiPattern(poss[k](x), poss[k2](y))]))

        def at(ix):
            cur = None
            for k in reversed(range(len(atoms))):
                bs, g, v, path = atoms[k]
                val = V.subst(v, [(b, srcs[k][j](ix)) for j, b in enumerate(bs)])
                cur = val if cur is None else self.vite(which(ix) == k, val, cur)
            return cur
        if key is not None:
            self.st.memo[key] = (n, srcs[0], facts)
        return n, at, facts

    def seq_at(self, v, idx):
        v = self.as_seq(v)
        ps = list(v.pieces)
        if isinstance(idx, int) and not isinstance(idx, bool):
            if idx >= 0:
                k = idx
                for j, p in enumerate(ps):
                    if isinstance(p, Elem):
                        if k == 0:
                            return p.v
                        k -= 1
                    else:
                        return self._seq_at_sym(ps[j:], z3.IntVal(k))
                raise Unsupported("index out of range")
            if ps and isinstance(ps[-1], Elem):
                if idx == -1:
                    return ps[-1].v
                return self.seq_at(VSeq(ps[:-1]), idx + 1)
            n = V.term(self.seq_len(v), V.INT)
            return self._seq_at_sym(ps, n + idx)
        return self._seq_at_sym(ps, V.term(idx, V.INT))

    def _seq_at_sym(self, ps, t):
        if not ps:
            raise Unsupported("index in an empty sequence")
        p = ps[0]
        if isinstance(p, Elem):
            if len(ps) == 1:
                return p.v
            return self.vite(t == 0, p.v, self._seq_at_sym(ps[1:], t - 1))
        if isinstance(p, BaseP):
            n, at = p.n, p.at
        else:
            n, at = self.mat(p)
        if len(ps) == 1:
            return at(z3.simplify(t))
        return self.vite(t < n, at(t), self._seq_at_sym(ps[1:], t - n))

    def indexable(self, v):
        """(n term or int, at: z3 Int -> value)"""
        v = self.as_seq(v)
        n = self.seq_len(v)
        return n, (lambda i: self.seq_at(v, Sym(V.INT, i) if not isinstance(i, int) else i))


_NOVAL = object()


def _same(xs, ys):
    return all(x is y for x, y in zip(xs, ys))


class _Dec:
    def __init__(self, taken, alt):
        self.taken, self.alt, self.pos = taken, alt, 0


_hq: dict = {}


def has_quant(t):
    i = t.get_id()
    if i in _hq and _hq[i][0].eq(t):
        return _hq[i][1]
    todo, seen, r = [t], set(), False
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            r = True
            break
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo.extend(x.children())
    _hq[i] = (t, r)
    return r


def value_terms(v, out=None):
    """all z3 terms inside a value (functions are probed with placeholders)"""
    if out is None:
        out = []
    if isinstance(v, Sym):
        out.append(v.t)
    elif isinstance(v, SymOpt):
        out.append(v.isnone)
        value_terms(v.val, out)
    elif isinstance(v, VTup):
        for x in v.items:
            value_terms(x, out)
    elif isinstance(v, VObj):
        for x in v.fields.values():
            value_terms(x, out)
    elif isinstance(v, VSeq):
        pieces_terms(v.pieces, out)
    elif isinstance(v, VSet):
        if v.base is not None and v.ety is not None:
            ph = [z3.Const(f"vt!{j}!{s}", s) for j, s in enumerate(v.ety.sorts())]
            out.append(to_z3b(v.base(v.ety.from_leaves(ph))))
        for _, p in v.ops:
            pieces_terms(p, out)
    elif isinstance(v, VDict):
        if v.base is not None and v.kty is not None:
            ph = [z3.Const(f"vt!{j}!{s}", s) for j, s in enumerate(v.kty.sorts())]
            y = v.kty.from_leaves(ph)
            out.append(to_z3b(v.base[0](y)))
            value_terms(v.base[1](y), out)
        for o in v.ops:
            dop_terms(o, out)
    elif isinstance(v, V.Bound):
        value_terms(v.self_, out)
    elif isinstance(v, Interior):
        value_terms(v.key, out)
    return out


def dop_terms(o, out):
    out.append(to_z3b(o.guard))
    value_terms(o.key, out)
    if o.kind == "inner":
        k, p = o.val
        if k in ("append", "add", "del"):
            pieces_terms(p, out)
        else:
            dop_terms(p, out)
    else:
        value_terms(o.val, out)


def pieces_terms(ps, out):
    for p in ps:
        if isinstance(p, Elem):
            value_terms(p.v, out)
        elif isinstance(p, Cond):
            out.append(to_z3b(p.g))
            pieces_terms(p.sub, out)
        elif isinstance(p, Gen):
            out.append(to_z3b(p.guard))
            pieces_terms(p.sub, out)
        elif isinstance(p, BaseP):
            out.append(p.n)
            value_terms(p.at(z3.Int("vt!i")), out)


def mentions_any(v, consts):
    return any(V.mentions(t, consts) for t in value_terms(v))


def symbols_of(t, out):
    """names of uninterpreted symbols in a term"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo.extend(x.children())
    return out


def solve_binders(match, bs):
    """If match contains equations fixing every binder, return the substitution."""
    conj = list(match.children()) if z3.is_and(match) else [match]
    sol = {}
    for c in conj:
        if z3.is_eq(c):
            a, b = c.children()
            for x, y in ((a, b), (b, a)):
                hit = next((v for v in bs if v.eq(x)), None)
                if hit is not None and hit.get_id() not in {k.get_id() for k, _ in sol.values()} \
                        and not V.mentions(y, bs):
                    sol[hit.get_id()] = (hit, y)
                    break
    if len(sol) == len(bs):
        return list(sol.values())
    return None
