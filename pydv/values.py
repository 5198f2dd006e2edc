"""Values, types and sequence/set/dict terms of the verifier."""
from __future__ import annotations

import pydv  # noqa: F401  (sets sys.path)
import z3

COUNTER = [0]


class Unsupported(Exception):
    """The source uses something outside the verifier's subset."""


def uid() -> int:
    COUNTER[0] += 1
    return COUNTER[0]


# --------------------------------------------------------------------------- sorts
STR_S = z3.DeclareSort("Str")
str_len = z3.Function("str_len", STR_S, z3.IntSort())
str_at = z3.Function("str_at", STR_S, z3.IntSort(), STR_S)
VAL_S = z3.DeclareSort("Val")

_lits: dict = {}


def str_lit(s: str):
    if s not in _lits:
        safe = "".join(c if c.isalnum() else "_" for c in s)[:24]
        _lits[s] = z3.Const(f"lit_{len(_lits)}_{safe}", STR_S)
    return _lits[s]


def lit_facts():
    cs = list(_lits.values())
    return [z3.Distinct(*cs)] if len(cs) > 1 else []


def lit_name(term):
    for k, v in _lits.items():
        if v.eq(term):
            return k
    return None


# ---- Val: a dynamically typed Python data value (a row cell)
Val_none = z3.Const("val_none", VAL_S)
Val_isint = z3.Function("val_isint", VAL_S, z3.BoolSort())
Val_isbool = z3.Function("val_isbool", VAL_S, z3.BoolSort())
Val_isstr = z3.Function("val_isstr", VAL_S, z3.BoolSort())
Val_isfloat = z3.Function("val_isfloat", VAL_S, z3.BoolSort())
Val_isdt = z3.Function("val_isdatetime", VAL_S, z3.BoolSort())
Val_int = z3.Function("val_int", VAL_S, z3.IntSort())
Val_str = z3.Function("val_str", VAL_S, STR_S)
Val_mkint = z3.Function("val_mkint", z3.IntSort(), VAL_S)
Val_mkstr = z3.Function("val_mkstr", STR_S, VAL_S)
Val_mkfloat = z3.Function("val_mkfloat", z3.RealSort(), VAL_S)


def val_facts():
    i = z3.Int("vf_i")
    s = z3.Const("vf_s", STR_S)
    v = z3.Const("vf_v", VAL_S)
    r = z3.Real("vf_r")
    return [
        z3.ForAll([i], z3.And(Val_int(Val_mkint(i)) == i, Val_isint(Val_mkint(i)),
                              z3.Not(Val_isbool(Val_mkint(i)))), patterns=[Val_mkint(i)]),
        z3.ForAll([s], z3.And(Val_str(Val_mkstr(s)) == s, Val_isstr(Val_mkstr(s))),
                  patterns=[Val_mkstr(s)]),
        z3.ForAll([r], Val_isfloat(Val_mkfloat(r)), patterns=[Val_mkfloat(r)]),
        z3.ForAll([v], z3.And(
            z3.Implies(Val_isbool(v), Val_isint(v)),
            z3.Not(z3.And(Val_isint(v), Val_isstr(v))),
            z3.Not(z3.And(Val_isint(v), Val_isfloat(v))),
            z3.Not(z3.And(Val_isint(v), Val_isdt(v))),
            z3.Not(z3.And(Val_isstr(v), Val_isfloat(v))),
            z3.Not(z3.And(Val_isstr(v), Val_isdt(v))),
            z3.Not(z3.And(Val_isfloat(v), Val_isdt(v)))),
            patterns=[Val_isint(v), Val_isstr(v), Val_isfloat(v), Val_isdt(v)]) if False else
        z3.ForAll([v], z3.And(
            z3.Implies(Val_isbool(v), Val_isint(v)),
            z3.Not(z3.And(Val_isint(v), Val_isstr(v))),
            z3.Not(z3.And(Val_isint(v), Val_isfloat(v))),
            z3.Not(z3.And(Val_isint(v), Val_isdt(v))),
            z3.Not(z3.And(Val_isstr(v), Val_isfloat(v))),
            z3.Not(z3.And(Val_isstr(v), Val_isdt(v))),
            z3.Not(z3.And(Val_isfloat(v), Val_isdt(v))))),
        z3.Not(Val_isint(Val_none)), z3.Not(Val_isstr(Val_none)),
        z3.Not(Val_isfloat(Val_none)), z3.Not(Val_isdt(Val_none)),
        z3.Not(Val_isbool(Val_none)),
    ]


# --------------------------------------------------------------------------- values
class Value:
    pass


class Sym(Value):
    """A scalar symbolic value: z3 term + type."""
    __slots__ = ("ty", "t")

    def __init__(self, ty, t):
        self.ty, self.t = ty, t

    def __repr__(self):
        return f"Sym({self.t})"


class SymOpt(Value):
    """None when `isnone`, otherwise `val`."""

    def __init__(self, isnone, val):
        self.isnone, self.val = isnone, val

    def __repr__(self):
        return f"SymOpt({self.isnone}?None:{self.val})"


class VTup(Value):
    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f"VTup{self.items}"


class Ref(Value):
    """Reference to a heap cell."""
    __slots__ = ("id",)

    def __init__(self, id_):
        self.id = id_

    def __repr__(self):
        return f"Ref({self.id})"


class Interior(Value):
    """A mutable container living inside a dict cell (or an entity-field map)."""

    def __init__(self, cell, key):
        self.cell, self.key = cell, key  # cell: Ref / Interior of a dict; key: value

    def __repr__(self):
        return f"Interior({self.cell},{self.key})"


class VObj(Value):
    """A record (frozen instance) of a real class."""

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, dict(fields)

    def __repr__(self):
        return f"VObj({self.cls.__name__},{self.fields})"


# pieces of a sequence
class Piece:
    pass


class Elem(Piece):
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"E({self.v})"


class BaseP(Piece):
    """n elements at(0..n-1); at: z3 Int -> Value"""

    def __init__(self, n, at):
        self.n, self.at = n, at

    def __repr__(self):
        return f"Base({self.n})"


class Gen(Piece):
    """for binders in order, where guard: the sub pieces.

    order: 'int' (single Int binder, increasing) | 'any' (unspecified order)
    """

    def __init__(self, binders, guard, sub, order="int", before=None):
        self.binders, self.guard, self.sub = list(binders), guard, tuple(sub)
        self.order = order
        self.before = before

    def __repr__(self):
        return f"Gen({self.binders},{self.guard},{self.sub})"


class Cond(Piece):
    def __init__(self, g, sub):
        self.g, self.sub = g, tuple(sub)

    def __repr__(self):
        return f"Cond({self.g},{self.sub})"


class VSeq(Value):
    """Sequence content; kind 'list' | 'tuple' | 'iter'."""

    def __init__(self, pieces, kind="list", stores=()):
        self.pieces, self.kind = tuple(pieces), kind
        self.stores = tuple(stores)  # pending item assignments (DOp store)

    def __repr__(self):
        return f"VSeq{list(self.pieces)}"


class VSet(Value):
    """base: Value->Bool or None (empty); ops: tuple of ('add'|'del', pieces)."""

    def __init__(self, ety, base=None, ops=(), card=None):
        self.ety, self.base, self.ops = ety, base, tuple(ops)
        self.card = card

    def __repr__(self):
        return f"VSet({self.ety},{self.base and 'base'},{self.ops})"


class DOp:
    """dict operation. kind: store | setdefault | del | inner"""

    def __init__(self, kind, binders, guard, key, val=None, order="int"):
        self.kind, self.binders, self.guard = kind, list(binders), guard
        self.key, self.val, self.order = key, val, order

    def __repr__(self):
        return f"DOp({self.kind},{self.binders},{self.guard},{self.key},{self.val})"


class VDict(Value):
    """base: None or (dom: Value->Bool, get: Value->Value)."""

    def __init__(self, kty, vty=None, base=None, ops=(), kind=dict):
        self.kty, self.vty, self.base, self.ops = kty, vty, base, tuple(ops)
        self.kind = kind  # dict or 'defaultdict:<factory>'

    def __repr__(self):
        return f"VDict({self.kty},{self.base and 'base'},{self.ops})"


class VInst(Value):
    """Content of a heap cell holding an instance."""

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, dict(fields)

    def __repr__(self):
        return f"VInst({self.cls.__name__},{list(self.fields)})"


class Frame(Value):
    def __init__(self, vars_, parent=None, nonlocals=()):
        self.vars, self.parent = dict(vars_), parent
        self.nonlocals = frozenset(nonlocals)


class Closure(Value):
    def __init__(self, node, frame, globs, name, defaults=(), kwdefaults=None, cls=None,
                 qual=""):
        self.node, self.frame, self.globs, self.name = node, frame, globs, name
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults or {}, cls
        self.qual = qual

    def __repr__(self):
        return f"<closure {self.name}>"


class Bound(Value):
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __repr__(self):
        return f"<bound {self.fn} of {self.self_}>"


class Native(Value):
    """A modelled callable: fn(interp, st, args, kwargs) -> [(st, value)]"""

    def __init__(self, fn, name=""):
        self.fn, self.name = fn, name

    def __repr__(self):
        return f"<native {self.name}>"


class Exc(Value):
    """A raised exception."""

    def __init__(self, cls, args=(), fields=None, val=None):
        self.cls, self.args, self.fields = cls, args, fields or {}
        self.val = val

    def __repr__(self):
        return f"Exc({self.cls.__name__})"


class Poison(Value):
    def __init__(self, name, old, after=False):
        self.name, self.old, self.after = name, old, after


class Star(Value):
    def __init__(self, v):
        self.v = v


# --------------------------------------------------------------------------- types
def _app(name, args, sort):
    args = list(args)
    if not args:
        return z3.Const(name, sort)
    return z3.Function(name, *[a.sort() for a in args], sort)(*args)


class Ty:
    flat = False

    def make(self, name, args=()):
        raise NotImplementedError

    def sorts(self):
        raise Unsupported(f"type {self} is not flat")

    def leaves(self, v):
        raise Unsupported(f"type {self} is not flat")

    def from_leaves(self, ts):
        raise Unsupported(f"type {self} is not flat")

    def facts(self, v):
        """Well-formedness facts about a value made by make()."""
        return []


class TScalar(Ty):
    flat = True

    def __init__(self, name, sort, pytypes=()):
        self.name, self.sort, self.pytypes = name, sort, pytypes

    def __repr__(self):
        return self.name

    def make(self, name, args=()):
        return Sym(self, _app(name, args, self.sort))

    def sorts(self):
        return [self.sort]

    def leaves(self, v):
        return [term(v, self)]

    def from_leaves(self, ts):
        (t,) = ts
        return Sym(self, t)


INT = TScalar("int", z3.IntSort(), (int,))
BOOL = TScalar("bool", z3.BoolSort(), (bool,))
REAL = TScalar("float", z3.RealSort(), (float,))
STR = TScalar("str", STR_S, (str,))
VAL = TScalar("val", VAL_S, ())


class TEnt(TScalar):
    """An object of a class, identified by a term of an uninterpreted sort.

    fields: name -> Ty (read through z3 functions, mutable through the field map)
            or callable(interp, st, ent) -> [(st, Value)]
    classes: for a union, list of real classes; tag function tells which.
    eqmode: 'id' (identity) or 'struct' (field-wise equality)
    """

    def __init__(self, name, cls=None, fields=None, classes=None, eqmode="id",
                 methods=None, mutable=(), truth=True, iter_=None, item=None):
        super().__init__(name, z3.DeclareSort(name))
        self.cls, self.fields = cls, fields or {}
        self.classes = list(classes) if classes else ([cls] if cls else [])
        self.eqmode = eqmode
        self.methods = methods or {}
        self.mutable = set(mutable)
        self.truth = truth
        self.iter_ = iter_
        self.item = item
        self.tag = z3.Function(f"tag_{name}", self.sort, z3.IntSort())

    def tag_facts(self):
        if len(self.classes) <= 1:
            return []
        x = z3.Const(f"tf_{self.name}", self.sort)
        return [z3.ForAll([x], z3.And(self.tag(x) >= 0, self.tag(x) < len(self.classes)),
                          patterns=[self.tag(x)])]


class TTup(Ty):
    def __init__(self, *items):
        self.items = items
        self.flat = all(t.flat for t in items)

    def __repr__(self):
        return f"TTup{self.items}"

    def make(self, name, args=()):
        return VTup(t.make(f"{name}_{i}", args) for i, t in enumerate(self.items))

    def sorts(self):
        return [s for t in self.items for s in t.sorts()]

    def leaves(self, v):
        if isinstance(v, tuple):
            v = VTup(v)
        if not isinstance(v, VTup) or len(v.items) != len(self.items):
            raise Unsupported(f"not a {len(self.items)}-tuple: {v}")
        return [x for t, i in zip(self.items, v.items) for x in t.leaves(i)]

    def from_leaves(self, ts):
        ts, out = list(ts), []
        for t in self.items:
            n = len(t.sorts())
            out.append(t.from_leaves(ts[:n]))
            ts = ts[n:]
        return VTup(out)

    def facts(self, v):
        return [f for t, x in zip(self.items, v.items) for f in t.facts(x)]


class TOpt(Ty):
    def __init__(self, inner):
        self.inner = inner
        self.flat = inner.flat

    def __repr__(self):
        return f"TOpt({self.inner})"

    def make(self, name, args=()):
        return SymOpt(_app(f"{name}_isnone", args, z3.BoolSort()), self.inner.make(name, args))

    def sorts(self):
        return [z3.BoolSort()] + self.inner.sorts()

    def leaves(self, v):
        if v is None:
            dflt = [z3.Const(f"dflt_{s}", s) for s in self.inner.sorts()]
            return [z3.BoolVal(True)] + dflt
        if isinstance(v, SymOpt):
            # normalise so that None has one representation
            dflt = [z3.Const(f"dflt_{s}", s) for s in self.inner.sorts()]
            return [v.isnone] + [z3.If(v.isnone, d, x)
                                 for d, x in zip(dflt, self.inner.leaves(v.val))]
        return [z3.BoolVal(False)] + self.inner.leaves(v)

    def from_leaves(self, ts):
        return SymOpt(ts[0], self.inner.from_leaves(ts[1:]))

    def facts(self, v):
        return [z3.Implies(z3.Not(v.isnone), f) for f in self.inner.facts(v.val)]


class TSeq(Ty):
    def __init__(self, elem, kind="list"):
        self.elem, self.kind = elem, kind

    def __repr__(self):
        return f"TSeq({self.elem})"

    def make(self, name, args=()):
        n = _app(f"{name}_len", args, z3.IntSort())
        args = list(args)
        return VSeq([BaseP(n, lambda i: self.elem.make(f"{name}_at", args + [i]))], self.kind)

    def facts(self, v):
        (b,) = v.pieces
        out = [b.n >= 0]
        return out


class TSet(Ty):
    def __init__(self, elem):
        self.elem = elem

    def __repr__(self):
        return f"TSet({self.elem})"

    def make(self, name, args=()):
        args = list(args)
        return VSet(self.elem, lambda y: _app(f"{name}_mem", args + self.elem.leaves(y),
                                              z3.BoolSort()))


class TDict(Ty):
    def __init__(self, k, v):
        self.k, self.v = k, v

    def __repr__(self):
        return f"TDict({self.k},{self.v})"

    def make(self, name, args=()):
        args = list(args)
        return VDict(self.k, self.v, (
            lambda y: _app(f"{name}_dom", args + self.k.leaves(y), z3.BoolSort()),
            lambda y: self.v.make(f"{name}_val", args + self.k.leaves(y))))


class TObj(Ty):
    """A record of a real class (heap instance when a parameter)."""

    def __init__(self, cls, **fields):
        self.cls, self.fields = cls, fields

    def __repr__(self):
        return f"TObj({self.cls.__name__})"

    def make(self, name, args=()):
        out = {}
        for f, t in self.fields.items():
            out[f] = t.make(f"{name}_{f}", args) if isinstance(t, Ty) else t
        return VObj(self.cls, out)

    def facts(self, v):
        return [x for f, t in self.fields.items() if isinstance(t, Ty) for x in t.facts(v.fields[f])]


class TConst(Ty):
    """A fixed value."""

    def __init__(self, v):
        self.v = v

    def make(self, name, args=()):
        return self.v


# --------------------------------------------------------------------------- terms
def term(v, ty):
    """z3 term of value v at scalar type ty."""
    if isinstance(v, Sym):
        if v.ty is ty or v.t.sort() == ty.sort:
            return v.t
        if ty is REAL and v.ty is INT:
            return z3.ToReal(v.t)
        if ty is INT and v.ty is BOOL:
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if ty is VAL and v.ty is INT:
            return Val_mkint(v.t)
        if ty is VAL and v.ty is STR:
            return Val_mkstr(v.t)
        if ty is VAL and v.ty is REAL:
            return Val_mkfloat(v.t)
        if ty is INT and v.ty is VAL:
            return Val_int(v.t)
        raise Unsupported(f"value {v} of type {v.ty} used as {ty}")
    if ty is VAL:
        if v is None:
            return Val_none
        if isinstance(v, bool):
            raise Unsupported("bool literal as Val")
        if isinstance(v, int):
            return Val_mkint(z3.IntVal(v))
        if isinstance(v, str):
            return Val_mkstr(str_lit(v))
        if isinstance(v, float):
            return Val_mkfloat(z3.RealVal(v))
        if isinstance(v, SymOpt):
            return z3.If(v.isnone, Val_none, term(v.val, VAL))
    if ty is BOOL and isinstance(v, bool):
        return z3.BoolVal(v)
    if ty is INT and isinstance(v, int):
        return z3.IntVal(int(v))
    if ty is REAL and isinstance(v, (int, float)):
        return z3.RealVal(v)
    if ty is STR and isinstance(v, str):
        return str_lit(v)
    if hasattr(ty, "coerce_term"):
        r = ty.coerce_term(v)
        if r is not None:
            return r
    raise Unsupported(f"value {v!r} has no term of type {ty}")


def ty_of(v):
    """Best-effort type of a value (flat values only)."""
    if isinstance(v, Sym):
        return v.ty
    if isinstance(v, bool):
        return BOOL
    if isinstance(v, int):
        return INT
    if isinstance(v, float):
        return REAL
    if isinstance(v, str):
        return STR
    if isinstance(v, VTup):
        return TTup(*[ty_of(x) for x in v.items])
    if isinstance(v, SymOpt):
        return TOpt(ty_of(v.val))
    raise Unsupported(f"no flat type for {v!r}")


# --------------------------------------------------------------------------- logic
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def to_z3b(b):
    if isinstance(b, bool):
        return TRUE if b else FALSE
    return b


def is_true(b):
    return b is True or (not isinstance(b, bool) and z3.is_true(b))


def is_false(b):
    return b is False or (not isinstance(b, bool) and z3.is_false(b))


def And(*xs):
    out = []
    for x in xs:
        if is_true(x):
            continue
        if is_false(x):
            return FALSE
        if z3.is_and(x):
            out.extend(x.children())
        else:
            out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if is_false(x):
            continue
        if is_true(x):
            return TRUE
        out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    if is_true(x):
        return FALSE
    if is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if is_true(a):
        return to_z3b(b)
    if is_false(a) or is_true(b):
        return TRUE
    if is_false(b):
        return Not(a)
    return z3.Implies(a, b)


def mentions(t, consts):
    ids = {c.get_id() for c in consts}
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in ids:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False


def Exists(binders, body):
    binders = list(binders)
    body = to_z3b(body)
    if z3.is_or(body):
        return Or(*[Exists(binders, c) for c in body.children()])
    # one-point rule
    conj = list(body.children()) if z3.is_and(body) else [body]
    changed = True
    while changed:
        changed = False
        for c in conj:
            if z3.is_eq(c):
                a, b = c.children()
                for x, y in ((a, b), (b, a)):
                    hit = next((v for v in binders if v.eq(x)), None)
                    if hit is not None and not mentions(y, [hit]):
                        binders = [v for v in binders if not v.eq(hit)]
                        conj = [z3.substitute(d, (hit, y)) for d in conj if not d.eq(c)]
                        changed = True
                        break
            if changed:
                break
    body = And(*conj)
    if is_true(body) or is_false(body):
        return body
    binders = [b for b in binders if mentions(body, [b])]
    if not binders:
        return body
    # keep conjuncts without binders outside
    conj = list(body.children()) if z3.is_and(body) else [body]
    inn = [c for c in conj if mentions(c, binders)]
    out = [c for c in conj if not mentions(c, binders)]
    return And(*out, z3.Exists(binders, And(*inn)))


def ForAll(binders, body, patterns=None):
    binders = list(binders)
    body = to_z3b(body)
    if is_true(body):
        return TRUE
    if patterns is None:
        # one-point rule on implications
        if z3.is_implies(body):
            a, b = body.children()
            neg = Exists(binders, And(a, Not(b)))
            if not z3.is_quantifier(neg) and not mentions(neg, binders):
                return Not(neg)
        binders = [b for b in binders if mentions(body, [b])]
        if not binders:
            return body
        return z3.ForAll(binders, body)
    binders = [b for b in binders if mentions(body, [b])]
    if not binders:
        return body
    return z3.ForAll(binders, body, patterns=patterns)


# ------------------------------------------------------------------- substitution
def subst_t(t, pairs):
    if isinstance(t, bool):
        return t
    return z3.substitute(t, *pairs) if pairs else t


def subst(v, pairs):
    """Substitute constants in an immutable value."""
    if not pairs:
        return v
    if isinstance(v, Sym):
        return Sym(v.ty, subst_t(v.t, pairs))
    if isinstance(v, SymOpt):
        return SymOpt(subst_t(v.isnone, pairs), subst(v.val, pairs))
    if isinstance(v, VTup):
        return VTup(subst(x, pairs) for x in v.items)
    if isinstance(v, VObj):
        return VObj(v.cls, {k: subst(x, pairs) for k, x in v.fields.items()})
    if isinstance(v, VSeq):
        return VSeq(subst_pieces(v.pieces, pairs), v.kind,
                    [subst_dop(o, pairs) for o in v.stores])
    if isinstance(v, VSet):
        base = v.base and _subst_pred(v.base, pairs, v.ety)
        return VSet(v.ety, base, [(k, subst_pieces(p, pairs)) for k, p in v.ops])
    if isinstance(v, VDict):
        base = v.base
        if base is not None:
            dom, get = base
            base = (_subst_pred(dom, pairs, v.kty), _subst_get(get, pairs, v.kty))
        return VDict(v.kty, v.vty, base, [subst_dop(o, pairs) for o in v.ops], v.kind)
    if isinstance(v, Interior):
        return Interior(subst(v.cell, pairs), subst(v.key, pairs))
    if isinstance(v, Exc):
        return v
    if isinstance(v, (Ref, Closure, Native)) or not isinstance(v, Value):
        return v
    if isinstance(v, Bound):
        return Bound(v.fn, subst(v.self_, pairs))
    if isinstance(v, Poison):
        return v
    raise Unsupported(f"subst in {type(v).__name__}")


def _subst_pred(pred, pairs, kty):
    def f(y):
        ph = [z3.Const(f"ph{uid()}", s) for s in kty.sorts()]
        body = pred(kty.from_leaves(ph))
        body = z3.substitute(to_z3b(body), *pairs)
        return z3.substitute(body, *zip(ph, kty.leaves(y)))
    return f


def _subst_get(get, pairs, kty):
    def f(y):
        ph = [z3.Const(f"ph{uid()}", s) for s in kty.sorts()]
        v = subst(get(kty.from_leaves(ph)), pairs)
        return subst(v, list(zip(ph, kty.leaves(y))))
    return f


def subst_dop(o, pairs):
    val = o.val
    if o.kind == "inner":
        k, p = val
        val = (k, subst_pieces(p, pairs) if k in ("append", "add", "del") else subst_dop(p, pairs))
    else:
        val = subst(val, pairs)
    return DOp(o.kind, o.binders, subst_t(o.guard, pairs), subst(o.key, pairs), val, o.order)


def subst_pieces(pieces, pairs):
    return tuple(subst_piece(p, pairs) for p in pieces)


def subst_piece(p, pairs):
    if isinstance(p, Elem):
        return Elem(subst(p.v, pairs))
    if isinstance(p, Cond):
        return Cond(subst_t(p.g, pairs), subst_pieces(p.sub, pairs))
    if isinstance(p, Gen):
        return Gen(p.binders, subst_t(p.guard, pairs), subst_pieces(p.sub, pairs), p.order,
                   p.before)
    if isinstance(p, BaseP):
        at = p.at

        def at2(i):
            ph = z3.Const(f"ph{uid()}", z3.IntSort())
            return subst(subst(at(ph), pairs), [(ph, i)])
        return BaseP(subst_t(p.n, pairs), at2)
    raise Unsupported(f"piece {p}")


def rename_gen(p):
    """Fresh binders for a Gen piece."""
    nb = [z3.Const(f"{str(b).split('!')[0]}!{uid()}", b.sort()) for b in p.binders]
    pairs = list(zip(p.binders, nb))
    return Gen(nb, subst_t(p.guard, pairs), subst_pieces(p.sub, pairs), p.order, p.before)


def base_to_gen(p):
    i = z3.Int(f"i!{uid()}")
    return Gen([i], And(i >= 0, i < p.n), [Elem(p.at(i))], "int")


# ------------------------------------------------------- pieces
def all_elems(pieces):
    """list of concrete element values if the sequence has a known shape, else None"""
    out = []
    for p in pieces:
        if not isinstance(p, Elem):
            return None
        out.append(p.v)
    return out
