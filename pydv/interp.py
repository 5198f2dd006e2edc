"""Symbolic execution of the real functions' AST (direct style, path replay)."""
from __future__ import annotations

import ast
import builtins
import contextlib
import copy
import types

import pydv  # noqa: F401
import z3

from pydv import values as V
from pydv.state import (Brk, Cnt, Core, Infeasible, NotMergeable, PyRaise, Ret, St, has_quant,
                        pieces_terms, dop_terms, symbols_of, value_terms)
from pydv.values import (And, BaseP, Bound, Closure, Cond, DOp, Elem, Exc, Exists, ForAll, Frame,
                         Gen, Implies, Interior, Native, Not, Or, Poison, Ref, Star, Sym, SymOpt,
                         Unsupported, VDict, VInst, VObj, VSeq, VSet, VTup, Value, is_false,
                         is_true, to_z3b)


# --------------------------------------------------------------------------- source
class Source:
    """ASTs of the package under verification, read from disk on every run."""

    def __init__(self, files):
        self.nodes = {}
        self.loop_no = {}
        self.gen_no, self.gen_loops = {}, {}
        self.text = {}
        for path in files:
            with open(path, encoding="utf-8") as f:
                text = f.read()
            self.text[path] = text
            tree = ast.parse(text)
            for node in ast.walk(tree):
                if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    line = min([node.lineno] + [d.lineno for d in node.decorator_list])
                    self.nodes.setdefault((path, line, node.name), []).append(node)
                    self._number_loops(node)
                elif isinstance(node, ast.Lambda):
                    self.nodes.setdefault((path, node.lineno, "<lambda>"), []).append(node)

    def _number_loops(self, fn):
        k = 0
        for n in _walk_own(fn):
            if isinstance(n, (ast.For, ast.While)):
                self.loop_no[id(n)] = k
                k += 1
        gens = [n for n in _walk_own(fn) if _is_update_gen(n)]
        for g, n in enumerate(gens):
            self.gen_no[id(n)] = f"g{g}"

    def node_of(self, fn):
        c = fn.__code__
        ns = self.nodes.get((c.co_filename, c.co_firstlineno, c.co_name))
        if not ns:
            return None
        if len(ns) > 1:
            raise Unsupported(f"ambiguous function {c.co_name}")
        return ns[0]


def _is_update_gen(n):
    """x.update(<generator expression with one for>)"""
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
        n.func.attr == "update" and isinstance(n.func.value, ast.Name) and not n.keywords and \
        len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp) and \
        len(n.args[0].generators) == 1


class _Rename(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, n):
        return ast.copy_location(ast.Name(n.id + "@gen", n.ctx), n) if n.id in self.names else n


def _gen_loop(n):
    """the loop that x.update(generator) stands for"""
    gen = n.args[0]
    names = {x.id for x in ast.walk(gen.generators[0].target) if isinstance(x, ast.Name)}
    ren = _Rename(names)
    g = gen.generators[0]
    body = ast.Expr(ast.Call(ast.Attribute(n.func.value, "add", ast.Load()), [
        ren.visit(copy.deepcopy(gen.elt))], []))
    for c in reversed(g.ifs):
        body = ast.If(ren.visit(copy.deepcopy(c)), [body], [])
    f = ast.For(ren.visit(copy.deepcopy(g.target)), g.iter, [body], [])
    ast.copy_location(f, n)
    for x in ast.walk(f):
        if not hasattr(x, "lineno"):
            x.lineno, x.col_offset = n.lineno, n.col_offset
    return ast.fix_missing_locations(f)


def _walk_own(fn):
    """nodes of a function in source order, not descending into nested functions"""
    out = []

    def rec(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            out.append(c)
            rec(c)
    rec(fn)
    return out


def loop_shape(fn):
    """the loops of a function, in source order"""
    return "".join("F" if isinstance(n, ast.For) else ("W" if isinstance(
        n.test, ast.Constant) else "w") if isinstance(n, ast.While) else "g"
                   for n in _walk_own(fn) if isinstance(n, (ast.For, ast.While)) or
                   _is_update_gen(n))


def is_generator(node):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _walk_own(node))


@contextlib.contextmanager
def _ctx_sample():
    yield


_CTX_HELPER = _ctx_sample.__code__


class GenCtx(V.Value):
    """a call of a function decorated with contextlib.contextmanager"""

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class Env:
    def __init__(self, frame, parent, globs, free, node, cls=None, qual=""):
        self.frame, self.parent, self.globs, self.free = frame, parent, globs, free
        self.node, self.cls, self.qual = node, cls, qual
        self.nonlocals = set()
        self.yields = None
        self.on_yield = None
        self.is_comp = False
        self.locals_ = set()


class Contract:
    """Sidecar contract of one function.  See contracts/*.py."""

    def __init__(self, target, **kw):
        self.target = target
        self.params = kw.pop("params", {})
        self.requires = kw.pop("requires", None)
        self.ensures = kw.pop("ensures", None)
        self.raises = kw.pop("raises", {})
        self.returns = kw.pop("returns", None)
        self.loops = kw.pop("loops", {})
        self.apply = kw.pop("apply", None)
        self.setup = kw.pop("setup", None)
        self.trusted = kw.pop("trusted", False)
        self.note = kw.pop("note", "")
        self.modular = kw.pop("modular", False)
        self.models = kw.pop("models", {})
        self.tag = kw.pop("tag", "")
        self.inline_ok = kw.pop("inline_ok", ())
        self.timeout = kw.pop("timeout", None)
        self.run = kw.pop("run", None)
        self.covers = kw.pop("covers", ("return",))
        self.name = kw.pop("name", None) or target.split(":")[-1]
        self.properties = kw.pop("properties", ())
        self.fallback = kw.pop("fallback", None)
        self.modifies = kw.pop("modifies", None)  # fn(it, a) -> [(ref, type)]
        self.fork = kw.pop("fork", ())
        self.fork_get = kw.pop("fork_get", False)
        assert not kw, kw


class BoundArgs:
    def __init__(self, d):
        self.__dict__.update(d)


class LoopSpec:
    def __init__(self, inv=None, types=None, cells=None, name="", done=None, key=None):
        self.done = done
        self.key = key  # for a loop over the values of a dict: the type of its keys
        self.inv, self.types, self.cells = inv, types or {}, cells or {}
        self.name = name


class Interp(Core):
    def __init__(self, source, contracts=None, models=None, entities=None):
        super().__init__()
        self.source = source
        self.contracts = contracts or {}
        self.models = models or {}
        self.entities = entities or {}
        self.env = None
        self.fieldmaps = {}
        self.ghost = {}
        self.current = None
        self.used_models = set()
        self.used_contracts = set()
        self.inlined = set()
        self.depth = 0
        self.handlers = []
        self.next_on_yield = None
        self.obl_prefix = ""
        self.loop_specs = {}
        self.shapes, self.reshaped = {}, set()
        self.notes = set()
        self.mode_none_attr = "oblige"

    # ================================================================ names
    def lookup(self, name):
        e = self.env
        while e is not None:
            fr = self.st.heap[e.frame.id]
            if name in fr.vars:
                v = fr.vars[name]
                if isinstance(v, Poison):
                    return self.read_poison(e.frame, name, v)
                return self.narrow(v) if isinstance(v, SymOpt) else v
            if e.free and name in e.free:
                return e.free[name]
            if e.parent is None:
                break
            e = e.parent
        g = self.env.globs
        if name in g:
            return self.real(g[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise Unsupported(f"name {name} is not bound")

    def narrow(self, v):
        """drop the None case where the path condition excludes it"""
        n = Not(v.isnone)
        ids = {f.get_id() for _, f in self.st.pc}
        if n.get_id() in ids or z3.simplify(n).get_id() in ids:
            return v.val
        if v.isnone.get_id() in ids:
            return None
        return v

    def real(self, v):
        """A real Python object entering the interpreter."""
        if isinstance(v, tuple) and not hasattr(v, "_fields"):
            return VTup(self.real(x) for x in v)
        if isinstance(v, dict) and type(v) is dict and len(v) < 64:
            try:
                return self.alloc(VDict(None, None, None, [
                    DOp("store", [], V.TRUE, k, self.real(x)) for k, x in v.items()]))
            except Unsupported:
                return v
        return v

    def bind(self, name, v):
        e = self.env
        while e.is_comp:
            e = e.parent
        if name in e.nonlocals:
            e = e.parent
            while e is not None and name not in self.st.heap[e.frame.id].vars:
                e = e.parent
            if e is None:
                raise Unsupported(f"nonlocal {name}")
        self.set_var(e.frame, name, v)

    def bind_here(self, name, v):
        self.set_var(self.env.frame, name, v)

    def set_var(self, frame, name, v):
        fr = self.st.heap[frame.id]
        nv = dict(fr.vars)
        nv[name] = v
        self.st.heap[frame.id] = Frame(nv)

    def read_poison(self, frame, name, p):
        if p.ty is None:
            raise Unsupported(f"loop-carried variable {name} of unknown shape")
        v = p.ty.make(p.sym, list(p.ctx))
        for f in p.ty.facts(v):
            self._addfacts([f])
        if isinstance(p.ty, (V.TSeq, V.TSet, V.TDict)):
            v = self.alloc(v)
        self.set_var(frame, name, v)
        return v

    # ================================================================ calls
    def call(self, f, args, kwargs):
        if isinstance(f, Native):
            return f.fn(self, list(args), dict(kwargs))
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, Closure):
            m = self.models.get(("nested", f.name))
            if m is not None:
                return m(self, list(args), dict(kwargs))
            return self.run_function(f.node, args, kwargs, f.env, f.env.globs, None,
                                     f.defaults, f.kwdefaults, f.cls, f.name)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + list(args), kwargs)
        m = self.find_model(f)
        if m is not None:
            self.used_models.add(getattr(f, "__qualname__", str(f)))
            return m(self, list(args), dict(kwargs))
        if isinstance(f, types.FunctionType):
            if f.__code__ is _CTX_HELPER:
                return GenCtx(f.__wrapped__, list(args), dict(kwargs))
            return self.call_py(f, args, kwargs)
        if isinstance(f, type):
            return self.construct(f, args, kwargs)
        if isinstance(f, Sym) and isinstance(f.ty, V.TEnt):
            call = f.ty.methods.get("__call__")
            if call is not None:
                return call(self, [f] + list(args), dict(kwargs))
        raise Unsupported(f"call of {f!r}")

    def find_model(self, f):
        try:
            m = self.models.get(f)
        except TypeError:
            m = None
        return m

    def qual(self, f):
        return f"{f.__module__}:{f.__qualname__}"

    def call_py(self, f, args, kwargs):
        q = self.qual(f)
        c = self.contracts.get(q)
        if c is not None and c.modular and (
                self.depth > 0 or self.current.target.split("#")[0] != q):
            return self.apply_contract(c, f, args, kwargs)
        if not f.__module__.startswith("subsetter"):
            raise Unsupported(f"external function {q} has no model")
        node = self.source.node_of(f)
        if node is None:
            raise Unsupported(f"no source for {q}")
        free = {}
        if f.__closure__:
            for n, cell in zip(f.__code__.co_freevars, f.__closure__):
                free[n] = cell.cell_contents
        self.inlined.add(q)
        cls = free.get("__class__")
        if cls is None and "." in f.__qualname__:
            # class owning the method
            import sys
            obj = sys.modules[f.__module__]
            try:
                for part in f.__qualname__.split(".")[:-1]:
                    obj = getattr(obj, part)
                cls = obj if isinstance(obj, type) else None
            except AttributeError:
                cls = None
        dflt = [self.real(d) for d in (f.__defaults__ or ())]
        kwd = {k: self.real(x) for k, x in (f.__kwdefaults__ or {}).items()}
        return self.run_function(node, args, kwargs, None, f.__globals__, free, dflt, kwd, cls,
                                 q)

    def bind_args(self, a, args, kwargs, defaults, kwdefaults, name):
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        pos = [x.arg for x in a.posonlyargs + a.args]
        dm = dict(zip(pos[len(pos) - len(defaults):], defaults)) if defaults else {}
        for p in pos:
            if args:
                out[p] = args.pop(0)
            elif p in kwargs:
                out[p] = kwargs.pop(p)
            elif p in dm:
                out[p] = dm[p]
            else:
                raise PyRaise(Exc(TypeError, (f"{name} missing argument {p}",)))
        if a.vararg:
            out[a.vararg.arg] = VTup(args)
            args = []
        if args:
            raise PyRaise(Exc(TypeError, (f"{name}: too many arguments",)))
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                out[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                out[x.arg] = kwdefaults[x.arg]
            else:
                raise PyRaise(Exc(TypeError, (f"{name} missing argument {x.arg}",)))
        if a.kwarg:
            out[a.kwarg.arg] = self.alloc(VDict(V.STR, None, None, [
                DOp("store", [], V.TRUE, k, x) for k, x in kwargs.items()]))
            kwargs = {}
        if kwargs:
            raise PyRaise(Exc(TypeError, (f"{name}: unexpected {list(kwargs)}",)))
        return out

    def run_function(self, node, args, kwargs, parent, globs, free, defaults, kwdefaults, cls,
                     name):
        if self.depth > 24:
            raise Unsupported("call depth")
        vars_ = self.bind_args(node.args, args, kwargs, defaults, kwdefaults, name)
        if self.loop_specs.get(name) and name in self.shapes and \
                loop_shape(node) not in self.shapes[name]:
            self.reshaped.add(name)
        frame = self.alloc(Frame(vars_))
        env = Env(frame, parent, globs, free, node, cls, name)
        old = self.env
        self.env = env
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body)
            if is_generator(node):
                env.on_yield, self.next_on_yield = self.next_on_yield, None
                if env.on_yield is None:
                    env.yields = self.alloc(VSeq([], "iter"))
            for n in _walk_own(node):
                if isinstance(n, ast.Nonlocal):
                    env.nonlocals.update(n.names)
                if isinstance(n, ast.Global):
                    raise Unsupported("global statement")
            try:
                self.block(node.body)
                r = None
            except Ret as e:
                r = e.v
            if env.yields is not None:
                return self.content(env.yields)
            return r
        finally:
            self.depth -= 1
            self.env = old

    def construct(self, cls, args, kwargs):
        from pydv import models
        return models.construct(self, cls, args, kwargs)

    def source_has_init(self, cls):
        import types
        f = cls.__dict__.get("__init__")
        return isinstance(f, types.FunctionType) and self.source.node_of(f) is not None

    def apply_contract(self, c, f, args, kwargs):
        self.used_contracts.add(c.target)
        node = self.source.node_of(f)
        dflt = [self.real(d) for d in (f.__defaults__ or ())]
        kwd = {k: self.real(x) for k, x in (f.__kwdefaults__ or {}).items()}
        a = BoundArgs(self.bind_args(node.args, args, kwargs, dflt, kwd, c.target))
        if c.apply is not None:
            return c.apply(self, a)
        if c.requires is not None:
            for nm, g in _named(c.requires(self, a), "requires"):
                self.oblige(f"call {c.target}: {nm}", g, "pre")
        entry, pre = self.entry, self.st.copy()
        for ref, ty in (c.modifies(self, a) if c.modifies else ()):
            self.set_content(ref, self.make(ty, "modified"))
        if c.modifies:
            self.entry = pre
        try:
            return self._outcome(c, a)
        finally:
            self.entry = entry

    def _outcome(self, c, a):
        for exc, cnd in c.raises.items():
            b = self.fresh("raises", z3.BoolSort())
            if self.decide(b, prune=False):
                e = Exc(exc, ())
                if cnd is not None:
                    for nm, g in _named(cnd(self, a, e), "raises"):
                        self.fact(g)
                raise PyRaise(e)
        rty = c.returns
        if callable(rty) and not isinstance(rty, V.Ty):
            rty = rty(self, a)
        r = self.make(rty, "res") if isinstance(rty, V.Ty) else None
        if isinstance(rty, (V.TSeq, V.TSet, V.TDict)) and r is not None:
            r = self.alloc(r)
        if c.ensures is not None:
            for nm, g in _named(c.ensures(self, a, r), "ensures"):
                self.fact(g)
        return r

    # ================================================================ truth
    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str)):
            return bool(v)
        if isinstance(v, Sym):
            if v.ty is V.BOOL:
                return v.t
            if v.ty is V.INT:
                return v.t != 0
            if v.ty is V.REAL:
                return v.t != 0
            if v.ty is V.STR:
                return v.t != V.str_lit("")
            if v.ty is V.VAL:
                return z3.Function("val_truth", V.VAL_S, z3.BoolSort())(v.t)
            if isinstance(v.ty, V.TEnt):
                tr = v.ty.truth
                return tr(self, v) if callable(tr) else tr
        if isinstance(v, SymOpt):
            return And(Not(v.isnone), to_z3b(self.truth(v.val)))
        if isinstance(v, VTup):
            return bool(v.items)
        if isinstance(v, (Ref, Interior)):
            return self.truth(self.content(v))
        if isinstance(v, VSeq):
            if any(isinstance(p, Elem) for p in v.pieces):
                return True
            out = []
            for p in v.pieces:
                if isinstance(p, BaseP):
                    out.append(p.n > 0)
                else:
                    out.append(self.exists_elem([p], lambda e: True))
            return Or(*out)
        if isinstance(v, VSet):
            return self.set_nonempty(v)
        if isinstance(v, VDict):
            if v.kty is None:
                if v.base is None:
                    return any(o.kind in ("store", "setdefault") for o in v.ops)
                raise Unsupported("dict truth")
            if any(o.kind == "store" and not o.binders and is_true(o.guard) for o in v.ops) and \
                    not any(o.kind == "del" for o in v.ops):
                return True
            y, bs = self.placeholder(v.kty)
            return self.exists(bs, lambda: self.dict_dom(v, y))
        if isinstance(v, VInst):
            m = self.class_attr(v.cls, "__bool__") or self.class_attr(v.cls, "__len__")
            if m is None:
                return True
            raise Unsupported("instance truth")
        if isinstance(v, VObj):
            return True
        if isinstance(v, (Closure, Bound, Native, types.FunctionType, type)):
            return True
        raise Unsupported(f"truth of {v!r}")

    def class_attr(self, cls, name):
        for k in cls.__mro__:
            if name in k.__dict__ and k is not object:
                return k.__dict__[name]
        return None

    def set_nonempty(self, s):
        if s.ety is None:
            return False
        if s.base is None and all(k == "add" for k, _ in s.ops):
            return Or(*[self.exists_elem(p, lambda e: True) for _, p in s.ops])
        y, bs = self.placeholder(s.ety)
        return self.exists(bs, lambda: self.set_mem(s, y))

    # ================================================================ expressions
    def ev(self, n):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__} at line {n.lineno}")
        return m(n)

    def ev_Constant(self, n):
        return n.value

    def ev_Name(self, n):
        return self.lookup(n.id)

    def ev_NamedExpr(self, n):
        v = self.ev(n.value)
        self.bind(n.target.id, v)
        return v

    def ev_Tuple(self, n):
        return self.mk_tuple(self.ev_args(n.elts))

    def mk_tuple(self, items):
        if any(isinstance(x, Star) for x in items):
            return VSeq(self.star_pieces(items), "tuple")
        return VTup(items)

    def star_pieces(self, items):
        ps = []
        for x in items:
            if isinstance(x, Star):
                ps.extend(self.iter_pieces(x.v))
            else:
                ps.append(Elem(x))
        return ps

    def ev_List(self, n):
        return self.alloc(VSeq(self.star_pieces(self.ev_args(n.elts))))

    def ev_Set(self, n):
        items = self.star_pieces(self.ev_args(n.elts))
        return self.alloc(VSet(self.pieces_type(items), None, [("add", tuple(items))]))

    def ev_Dict(self, n):
        if n.keys and n.keys[0] is None:
            ref = self.call(dict, [self.ev(n.values[0])], {})
        else:
            ref = self.alloc(VDict(None, None, None, []))
        for j, (k, v) in enumerate(zip(n.keys, n.values)):
            if k is None:
                if j:
                    self.call(self.getattr(ref, "update"), [self.ev(v)], {})
                continue
            self.dict_store(ref, self.ev(k), self.ev(v))
        return ref

    def ev_args(self, nodes):
        out = []
        for a in nodes:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                ps = self.iter_pieces(v)
                es = V.all_elems(ps)
                if es is not None:
                    out.extend(es)
                else:
                    out.append(Star(VSeq(ps, "tuple")))
            else:
                out.append(self.ev(a))
        return out

    def ev_JoinedStr(self, n):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.ev(p.value)
                conv = p.conversion
                if p.format_spec is not None:
                    conv = -2
                parts.append(("v", v, conv))
        return self.format_str(parts)

    def format_str(self, parts):
        if ("fstr", "*") in self.models:
            r = self.models[("fstr", "*")](self, parts)
            if r is not None:
                return r
        tmpl, vals = "", []
        for p in parts:
            if isinstance(p, str):
                tmpl += p
                continue
            _, v, conv = p
            if conv == -1 and isinstance(v, str):
                tmpl += v
            elif conv == -1 and isinstance(v, int) and not isinstance(v, bool):
                tmpl += str(v)
            else:
                tmpl += "{}"
                vals.append((v, conv))
        if not vals:
            return tmpl
        hook = self.models.get(("fstr", tmpl))
        if hook is not None and all(c == -1 for _, c in vals):
            r = hook(self, [v for v, _ in vals])
            if r is not None:
                return r
        leaves = []
        for v, conv in vals:
            try:
                leaves.extend(self.ty_of(self.freeze(v)).leaves(self.freeze(v)))
            except (Unsupported, AttributeError):
                leaves.append(z3.Const(self.fresh_name("opaque"), V.STR_S))
        import hashlib
        h = hashlib.md5(tmpl.encode()).hexdigest()[:10]
        f = z3.Function(f"fmt_{h}_" + "_".join(str(x.sort()) for x in leaves),
                        *[x.sort() for x in leaves], V.STR_S)
        return Sym(V.STR, f(*leaves))

    def ev_Lambda(self, n):
        c = Closure(n, None, None, "<lambda>",
                    [self.ev(d) for d in n.args.defaults],
                    {a.arg: self.ev(d) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults)
                     if d is not None})
        c.env = self.env
        return c

    def ev_IfExp(self, n):
        t = self.truth(self.ev(n.test))
        if isinstance(t, bool):
            return self.ev(n.body if t else n.orelse)
        return self.merged(lambda: self.ev(n.body) if self.decide(t) else self.ev(n.orelse))

    def ev_BoolOp(self, n):
        is_and = isinstance(n.op, ast.And)

        def rec(i):
            v = self.ev(n.values[i])
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(t, bool):
                return rec(i + 1) if t == is_and else v

            def rest():
                if self.decide(t) == is_and:
                    return rec(i + 1)
                if isinstance(v, Sym) and v.ty is V.BOOL:
                    return not is_and
                return v
            return self.merged(rest)
        return rec(0)

    def merged(self, fn):
        """Run fn on all its paths and merge them into one value/state when possible."""
        res = self.explore(fn)
        vals = [r for r in res if r[1] == "val"]
        rest = [r for r in res if r[1] != "val"]
        if not res:
            raise Infeasible()
        if not self.decs:
            return self.merge(res)
        # one merged normal path, the others forked
        k = self.choose(len(rest) + bool(vals))
        if not vals:
            return self.leave(rest[k])
        if k:
            return self.leave(rest[k - 1])
        try:
            return self.merge(vals, partial=bool(rest))
        except NotMergeable:
            return self.leave(vals[self.choose(len(vals))])

    def leave(self, r):
        st, kind, val = r
        self.st = st
        if kind == "raise":
            raise PyRaise(val)
        if kind == "ret":
            raise Ret(val)
        if kind == "break":
            raise Brk()
        if kind == "cont":
            raise Cnt()
        return val

    def ev_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else Sym(V.BOOL, Not(t))
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, Sym) and v.ty in (V.INT, V.REAL):
                return Sym(v.ty, -v.t)
        raise Unsupported("unary operator")

    def ev_BinOp(self, n):
        return self.binop(n.op, self.ev(n.left), self.ev(n.right))

    def binop(self, op, a, b):
        num = (int, float)
        if isinstance(a, num) and isinstance(b, num):
            import operator
            f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
                 ast.Div: operator.truediv, ast.Pow: operator.pow, ast.Mod: operator.mod,
                 ast.FloorDiv: operator.floordiv}.get(type(op))
            if f:
                return f(a, b)
        for x in (a, b):
            if isinstance(x, Sym) and isinstance(x.ty, V.TEnt) and "__binop__" in x.ty.methods:
                return x.ty.methods["__binop__"](self, op, a, b)
            if isinstance(x, VObj) and self.models.get((x.cls, "__binop__")):
                return self.models[(x.cls, "__binop__")](self, op, a, b)
        if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return Sym(V.STR, self.fresh("fmt", V.STR_S))
        ta = self._num(a)
        tb = self._num(b)
        if ta is not None and tb is not None:
            if ta[0] is V.REAL or tb[0] is V.REAL or isinstance(op, ast.Div):
                x, y = V.term(Sym(*ta), V.REAL), V.term(Sym(*tb), V.REAL)
                ty = V.REAL
            else:
                x, y, ty = ta[1], tb[1], V.INT
            if isinstance(op, ast.Add):
                return Sym(ty, x + y)
            if isinstance(op, ast.Sub):
                return Sym(ty, x - y)
            if isinstance(op, ast.Mult):
                return Sym(ty, x * y)
            if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
                self.missing(ZeroDivisionError, y != 0)
            if isinstance(op, ast.Div):
                return Sym(ty, x / y)
            if isinstance(op, (ast.FloorDiv, ast.Mod)) and ty is V.INT:
                # the solvers' integer division is the floor for positive divisors
                q = x / y if z3.is_int_value(y) and y.as_long() > 0 else \
                    z3.If(y > 0, x / y, (-x) / (-y))
                return Sym(ty, q if isinstance(op, ast.FloorDiv) else x - y * q)
        if isinstance(op, ast.Add):
            ca, cb = self._cont(a), self._cont(b)
            if isinstance(ca, (VSeq, VTup)) and isinstance(cb, (VSeq, VTup)):
                pa, pb = self.iter_pieces(ca), self.iter_pieces(cb)
                if isinstance(ca, VTup) and isinstance(cb, VTup):
                    return VTup(ca.items + cb.items)
                r = VSeq(list(pa) + list(pb), ca.kind if isinstance(ca, VSeq) else "tuple")
                return self.alloc(r) if r.kind == "list" else r
            if isinstance(a, str) or isinstance(b, str) or (isinstance(a, Sym) and a.ty is V.STR):
                return self.format_str([("v", a, -1), ("v", b, -1)])
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)):
            ca, cb = self._cont(a), self._cont(b)
            if isinstance(ca, VSet) and isinstance(cb, VSet):
                return self.alloc(self.set_op(op, ca, cb))
        if isinstance(op, ast.BitOr) and (isinstance(a, type) or isinstance(b, type)):
            raise Unsupported("type union")
        if isinstance(op, ast.Add) and isinstance(a, Sym) and a.ty is V.VAL:
            return Sym(V.VAL, V.Val_mkint(V.Val_int(a.t) + V.term(b, V.INT)))
        raise Unsupported(f"operator {type(op).__name__} on {a!r} and {b!r}")

    def _num(self, v):
        if isinstance(v, bool):
            return (V.INT, z3.IntVal(int(v)))
        if isinstance(v, int):
            return (V.INT, z3.IntVal(v))
        if isinstance(v, float):
            return (V.REAL, z3.RealVal(v))
        if isinstance(v, Sym) and v.ty in (V.INT, V.REAL):
            return (v.ty, v.t)
        if isinstance(v, Sym) and v.ty is V.BOOL:
            return (V.INT, V.term(v, V.INT))
        if isinstance(v, Sym) and v.ty is V.VAL:
            # the caller proved it is an int (safety obligation)
            self.oblige("arithmetic on an integer value", V.Val_isint(v.t))
            return (V.INT, V.Val_int(v.t))
        if isinstance(v, SymOpt) and isinstance(v.val, Sym) and v.val.ty in (V.INT, V.REAL):
            self.oblige("arithmetic operand is not None", Not(v.isnone))
            return (v.val.ty, v.val.t)
        return None

    def _cont(self, v):
        if isinstance(v, (Ref, Interior)):
            return self.content(v)
        return v

    def set_op(self, op, a, b):
        ety = a.ety or b.ety
        if ety is None:
            return VSet(None)
        if isinstance(op, ast.BitOr):
            if b.base is None and all(k == "add" for k, _ in b.ops):
                return VSet(ety, a.base, list(a.ops) + list(b.ops))
            return VSet(ety, lambda y: Or(self.set_mem(a, y), self.set_mem(b, y)))
        if isinstance(op, ast.BitAnd):
            return VSet(ety, lambda y: And(self.set_mem(a, y), self.set_mem(b, y)))
        return VSet(ety, lambda y: And(self.set_mem(a, y), Not(self.set_mem(b, y))))

    def ev_Compare(self, n):
        left = self.ev(n.left)
        if len(n.ops) == 1:
            return self._bool(self.compare(n.ops[0], left, self.ev(n.comparators[0])))
        out = []
        for op, c in zip(n.ops, n.comparators):
            r = self.ev(c)
            out.append(to_z3b(self.compare(op, left, r)))
            left = r
        return self._bool(And(*out))

    def _bool(self, b):
        if isinstance(b, (bool, Value)):
            return b
        if is_true(b):
            return True
        if is_false(b):
            return False
        return Sym(V.BOOL, b)

    def compare(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Sym) and isinstance(x.ty, V.TEnt) and "__compare__" in x.ty.methods:
                return x.ty.methods["__compare__"](self, op, a, b)
            if isinstance(x, VObj) and self.models.get((x.cls, "__compare__")):
                return self.models[(x.cls, "__compare__")](self, op, a, b)
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            r = self.eq(a, b)
            return (not r) if isinstance(r, bool) else Not(r)
        if isinstance(op, ast.Is):
            return self.is_same(a, b)
        if isinstance(op, ast.IsNot):
            r = self.is_same(a, b)
            return (not r) if isinstance(r, bool) else Not(r)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            r = self.contains(b, a)
            return (not r) if isinstance(r, bool) else Not(r)
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            return self.order_cmp(op, a, b)
        raise Unsupported("comparison")

    def is_same(self, a, b):
        if a is None or b is None or isinstance(a, (bool, type)) or isinstance(b, (bool, type)):
            if isinstance(a, Ref) or isinstance(b, Ref):
                return False
            if isinstance(a, (Value, type(None), bool, type)) and \
                    isinstance(b, (Value, type(None), bool, type)):
                return self.eq(a, b)
            return a is b
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.id == b.id
        if isinstance(a, SymOpt) or isinstance(b, SymOpt):
            return self.eq(a, b)
        if isinstance(a, Sym) and isinstance(b, Sym) and isinstance(a.ty, V.TEnt):
            return a.t == b.t if a.ty is b.ty else False
        if isinstance(a, Sym) and isinstance(b, Sym) and a.ty is V.VAL:
            return z3.Function("val_same", V.VAL_S, V.VAL_S, z3.BoolSort())(a.t, b.t)
        if not isinstance(a, Value) and not isinstance(b, Value):
            return a is b
        raise Unsupported(f"identity of {a!r} and {b!r}")

    def contains(self, c, x):
        cc = self._cont(c)
        if isinstance(cc, VSet):
            return self.set_mem(cc, x)
        if isinstance(cc, VDict):
            return self.dict_dom(cc, x)
        if isinstance(cc, (VSeq, VTup)):
            return self.exists_elem(self.iter_pieces(cc), lambda e: to_z3b(self.eq(e, x)))
        if isinstance(cc, Sym) and isinstance(cc.ty, V.TEnt) and "__contains__" in cc.ty.methods:
            r = cc.ty.methods["__contains__"](self, [cc, x], {})
            return V.term(r, V.BOOL) if isinstance(r, Sym) else r
        if isinstance(cc, VObj) and self.models.get((cc.cls, "__contains__")):
            return self.models[(cc.cls, "__contains__")](self, [cc, x], {})
        if isinstance(cc, str) and isinstance(x, str):
            return x in cc
        if isinstance(cc, dict) and not isinstance(x, Value):
            return x in cc
        if isinstance(cc, Sym) and cc.ty is V.STR or isinstance(cc, str):
            f = z3.Function("str_contains", V.STR_S, V.STR_S, z3.BoolSort())
            return f(V.term(cc, V.STR), V.term(x, V.STR))
        raise Unsupported(f"membership in {cc!r}")

    def order_cmp(self, op, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            import operator
            return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt,
                    ast.GtE: operator.ge}[type(op)](a, b)
        ca, cb = self._cont(a), self._cont(b)
        if isinstance(ca, VSet) and isinstance(cb, VSet):
            if isinstance(op, ast.LtE):
                return self.subset(ca, cb)
            if isinstance(op, ast.GtE):
                return self.subset(cb, ca)
            if isinstance(op, ast.Lt):
                return And(self.subset(ca, cb), Not(self.subset(cb, ca)))
            return And(self.subset(cb, ca), Not(self.subset(ca, cb)))
        if isinstance(a, VTup) and isinstance(b, VTup) and len(a.items) == len(b.items) \
                and len(a.items) == 2:
            strict = ast.Lt() if isinstance(op, (ast.Lt, ast.LtE)) else ast.Gt()
            return Or(to_z3b(self.order_cmp(strict, a.items[0], b.items[0])),
                      And(to_z3b(self.eq(a.items[0], b.items[0])),
                          to_z3b(self.order_cmp(op, a.items[1], b.items[1]))))
        x, y = self._num(a), self._num(b)
        if x is not None and y is not None:
            if x[0] is not y[0]:
                x = (V.REAL, V.term(Sym(*x), V.REAL))
                y = (V.REAL, V.term(Sym(*y), V.REAL))
            return {ast.Lt: lambda p, q: p < q, ast.LtE: lambda p, q: p <= q,
                    ast.Gt: lambda p, q: p > q, ast.GtE: lambda p, q: p >= q}[type(op)](x[1], y[1])
        # uninterpreted order on other scalars
        ta = self.ty_of(a)
        if isinstance(ta, V.TScalar):
            f = z3.Function(f"lt_{ta.name}", ta.sort, ta.sort, z3.BoolSort())
            p, q = V.term(a, ta), V.term(b, ta)
            return {ast.Lt: lambda: f(p, q), ast.Gt: lambda: f(q, p),
                    ast.LtE: lambda: Or(p == q, f(p, q)),
                    ast.GtE: lambda: Or(p == q, f(q, p))}[type(op)]()
        raise Unsupported(f"ordering of {a!r} and {b!r}")

    def subset(self, a, b):
        if a.ety is None:
            return True
        if a.base is None and all(k == "add" for k, _ in a.ops):
            return And(*[self.forall_elem(p, lambda e: self.set_mem(b, e)) for _, p in a.ops])
        y, bs = self.placeholder(a.ety)
        return self.forall(bs, lambda: Implies(self.set_mem(a, y), self.set_mem(b, y)))

    # ---------------------------------------------------------------- attributes
    def ev_Attribute(self, n):
        return self.getattr(self.ev(n.value), n.attr)

    def getattr(self, v, name):
        if type(v).__name__ == "_OpaqueType" and name in ("__name__", "__qualname__"):
            return Sym(V.STR, self.fresh("typename", V.STR_S))
        if isinstance(v, SymOpt):
            self.oblige(f"attribute {name} of a value that is not None", Not(v.isnone))
            return self.getattr(v.val, name)
        if v is None:
            self.oblige(f"attribute {name} of None", False)
        if isinstance(v, Sym) and isinstance(v.ty, V.TEnt):
            return self.get_field(v, name)
        if isinstance(v, (Ref, Interior)):
            c = self.content(v)
            if isinstance(c, VInst):
                if name in c.fields:
                    f = c.fields[name]
                    if isinstance(f, Poison):
                        raise Unsupported(f"loop-carried field {name}")
                    return f
                return self._class_member(c.cls, name, v)
            return self.method(v, name)
        if isinstance(v, VObj):
            if name in v.fields:
                return v.fields[name]
            return self._class_member(v.cls, name, v)
        if isinstance(v, Exc):
            if name in v.fields:
                return v.fields[name]
            raise Unsupported(f"exception attribute {name}")
        if isinstance(v, (VSeq, VSet, VDict, VTup, Sym, str, int, float)):
            return self.method(v, name)
        if isinstance(v, _Super):
            for k in v.mro:
                if (k, name) in self.models:
                    return Bound(Native(self.models[(k, name)], name), v.self_)
                if k is object:
                    break
                if isinstance(k.__dict__.get(name), types.FunctionType):
                    if not k.__module__.startswith("subsetter"):
                        break
                    return Bound(k.__dict__[name], v.self_)
            if name == "__init__":
                return Native(lambda it, a, kw: None, "object.__init__")
            raise Unsupported(f"super().{name}")
        if isinstance(v, Value):
            raise Unsupported(f"attribute {name} of {v!r}")
        # real object: module, class ...
        m = self.models.get(("attr", id(v), name))
        if m is not None:
            return m
        if isinstance(v, type):
            raw = self.class_attr(v, name)
            if isinstance(raw, classmethod):
                return Bound(raw.__func__, v)
            if isinstance(raw, staticmethod):
                return raw.__func__
        if not hasattr(v, name):
            raise Unsupported(f"attribute {name} of {v!r}")
        return self.real(getattr(v, name))

    def _class_member(self, cls, name, self_):
        key = (cls, name)
        if key in self.models:
            return Bound(Native(self.models[key], f"{cls.__name__}.{name}"), self_)
        raw = self.class_attr(cls, name)
        if raw is None:
            if name == "__class__":
                return cls
            raise Unsupported(f"{cls.__name__} has no attribute {name}")
        if isinstance(raw, types.FunctionType):
            return Bound(raw, self_)
        if isinstance(raw, staticmethod):
            return raw.__func__
        if isinstance(raw, classmethod):
            return Bound(raw.__func__, cls)
        if isinstance(raw, property):
            return self.call(raw.fget, [self_], {})
        return self.real(raw)

    def get_field(self, v, name):
        """field of an entity"""
        ty = v.ty
        f = ty.fields.get(name)
        if f is not None:
            if name in ty.mutable:
                fm = self.fieldmap(ty, name)
                val = self.dict_get(self.content(fm), v)
                if isinstance(val, (VSeq, VSet, VDict)):
                    return Interior(fm, v)
                return val
            if isinstance(f, V.Ty):
                val = f.make(f"{ty.name}.{name}", [v.t])
                return val
            return f(self, v)
        if name in ty.methods:
            return Bound(Native(ty.methods[name], f"{ty.name}.{name}"), v)
        if ty.cls is not None:
            return self._class_member(ty.cls, name, v)
        raise Unsupported(f"entity {ty.name} has no field {name}")

    def fieldmap(self, ty, name):
        k = (ty.name, name)
        ref = self.fieldmaps.get(k)
        if ref is None or ref.id not in self.st.heap:
            raise Unsupported(f"mutable field {k} was not set up")
        return ref

    def setup_fieldmap(self, ty, name):
        fty = ty.fields[name]
        base = (lambda y: V.TRUE, lambda y: fty.make(f"{ty.name}.{name}", [y.t]))
        self.fieldmaps[(ty.name, name)] = self.alloc(VDict(ty, fty, base, []))

    # ---------------------------------------------------------------- subscripts
    def ev_Subscript(self, n):
        base = self.ev(n.value)
        if isinstance(n.slice, ast.Slice):
            return self.slice(base, n.slice)
        return self.getitem(base, self.ev(n.slice))

    def getitem(self, base, idx):
        if isinstance(base, SymOpt):
            self.oblige("subscript of a value that is not None", Not(base.isnone))
            base = base.val
        c = self._cont(base)
        if isinstance(c, VTup):
            if isinstance(idx, int):
                if -len(c.items) <= idx < len(c.items):
                    return c.items[idx]
                self.missing(IndexError, V.FALSE)
            return self.seq_index(self.as_seq(c), idx)
        if isinstance(c, VSeq):
            return self.seq_index(c, idx)
        if isinstance(c, VDict):
            return self.dict_index(base, c, idx)
        if isinstance(c, Sym) and isinstance(c.ty, V.TEnt):
            if "__getitem__" in c.ty.methods:
                return c.ty.methods["__getitem__"](self, [c, idx], {})
        if isinstance(c, VObj) and self.models.get((c.cls, "__getitem__")):
            return self.models[(c.cls, "__getitem__")](self, [c, idx], {})
        if isinstance(c, str) and isinstance(idx, int):
            return c[idx]
        if isinstance(c, type) or not isinstance(c, Value) and hasattr(c, "__class_getitem__"):
            return c
        raise Unsupported(f"subscript of {c!r}")

    def missing(self, exc, present):
        """an implicit exception: an obligation unless a handler may catch it"""
        p = to_z3b(present)
        if is_true(p):
            return
        if self.catches(exc):
            if not self.decide(p):
                raise PyRaise(Exc(exc, ()))
            return
        self.oblige(f"no {exc.__name__}", p)

    def catches(self, exc):
        for hs in self.handlers:
            for h in hs:
                if issubclass(exc, h) :
                    return True
        c = self.current
        return bool(c is not None and any(issubclass(exc, x) for x in c.raises))

    def seq_index(self, c, idx):
        n = self.seq_len(c)
        if isinstance(idx, int) and isinstance(n, int):
            if not -n <= idx < n:
                self.missing(IndexError, V.FALSE)
            return self.seq_at(c, idx)
        t, nt = V.term(idx, V.INT), V.term(n, V.INT)
        if isinstance(idx, int):
            self.missing(IndexError, nt > idx if idx >= 0 else nt >= -idx)
            return self._seq_at_fork(c, idx)
        self._in_range(t, nt)
        return self._seq_at_fork(c, idx)

    def _in_range(self, t, nt):
        """unknown indices are expected not to count from the end"""
        if self.catches(IndexError):
            self.oblige("an index that does not count from the end", t >= 0)
            self.missing(IndexError, t < nt)
        else:
            self.missing(IndexError, And(t >= 0, t < nt))

    def _seq_at_fork(self, c, idx):
        try:
            return self.seq_at(c, idx)
        except NotMergeable:
            ps = self.as_seq(c).pieces
            t = V.term(idx, V.INT)
            off = z3.IntVal(0)
            for j, p in enumerate(ps[:-1]):
                n = V.term(self.seq_len(VSeq([p])), V.INT)
                if self.decide(t < off + n):
                    return self.seq_at(VSeq([p]), Sym(V.INT, t - off))
                off = off + n
            return self.seq_at(VSeq([ps[-1]]), Sym(V.INT, t - off))

    def dict_index(self, base, c, idx):
        if isinstance(c.kind, tuple) and c.kind[0] == "default":
            if not isinstance(base, (Ref, Interior)):
                raise Unsupported("defaultdict value")
            val = self.call(c.kind[1], [], {})
            self.dict_op(base, DOp("setdefault", [], V.TRUE, idx, self.freeze(val)))
            c = self.content(base)
        else:
            self.missing(KeyError, self.dict_dom(c, idx))
        return self.dict_value(base, c, idx)

    def dict_value(self, base, c, idx):
        try:
            v = self.dict_get(c, idx)
        except NotMergeable:
            v = self._dict_get_fork(c, idx)
        if isinstance(v, (VSeq, VSet, VDict)) and isinstance(base, (Ref, Interior)):
            return Interior(base, idx)
        return v

    def _dict_get_fork(self, c, idx):
        """resolve a lookup by case distinction on the last matching operation"""
        for j in reversed(range(len(c.ops))):
            o = c.ops[j]
            if o.kind == "store":
                if not o.binders:
                    if self.decide(And(o.guard, to_z3b(self.eq(o.key, idx)))):
                        return o.val
                    continue
                hit = self._op_hit(o, idx)
                if self.decide(hit):
                    nb, (g, key, val) = self._rename_op(o)
                    sk = [self.fresh("wr", b.sort()) for b in nb]
                    pairs = list(zip(nb, sk))
                    self.fact(V.subst_t(And(g, to_z3b(self.eq(key, idx))), pairs))
                    return V.subst(val, pairs)
                continue
            raise Unsupported("lookup in a heterogeneous dict")
        if c.base is not None:
            return c.base[1](idx)
        raise Infeasible()

    def slice(self, base, s):
        lo = self.ev(s.lower) if s.lower else None
        hi = self.ev(s.upper) if s.upper else None
        st = self.ev(s.step) if s.step else None
        if isinstance(base, str):
            if all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                return base[lo:hi:st]
        if isinstance(base, Sym) and base.ty is V.STR:
            f = z3.Function(f"str_slice_{lo}_{hi}_{st}", V.STR_S, V.STR_S)
            r = f(base.t)
            if lo in (None, 0) and st is None and isinstance(hi, int) and hi >= 0:
                n, at = V.str_len, V.str_at
                i = z3.Int(self.fresh_name("i"))
                self._addfacts([n(base.t) >= 0, n(r) == z3.If(n(base.t) < hi, n(base.t), hi),
                                V.ForAll([i], V.Implies(i < n(r), at(r, i) == at(base.t, i)))])
            return Sym(V.STR, r)
        c = self.as_seq(base)
        es = V.all_elems(c.pieces)
        wrap = (lambda x: self.alloc(x)) if c.kind == "list" else (lambda x: x)
        if es is not None and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            return wrap(VSeq([Elem(e) for e in es[lo:hi:st]], c.kind))
        if st == -1 and lo is None and hi is None:
            return wrap(self.reverse_seq(c))
        if st is None:
            n = V.term(self.seq_len(c), V.INT)

            def clip(x, dflt):
                if x is None:
                    return dflt
                t = V.term(x, V.INT)
                if isinstance(x, int):
                    t = n + x if x < 0 else t
                else:
                    t = z3.If(t < 0, n + t, t)
                return z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n, t))
            l, h = clip(lo, z3.IntVal(0)), clip(hi, n)
            m = z3.simplify(z3.If(h > l, h - l, z3.IntVal(0)))
            return wrap(VSeq([BaseP(m, lambda i: self.seq_at(c, Sym(V.INT, i + l)))], c.kind))
        raise Unsupported("slice")

    def reverse_seq(self, c):
        es = V.all_elems(c.pieces)
        if es is not None:
            return VSeq([Elem(e) for e in reversed(es)], c.kind)
        n = V.term(self.seq_len(c), V.INT)
        return VSeq([BaseP(n, lambda i: self.seq_at(c, Sym(V.INT, n - 1 - i)))], c.kind)

    # ---------------------------------------------------------------- calls
    def ev_Call(self, n):
        f = self.ev(n.func)
        if self.is_logger(f):
            return None
        # any/all over a generator expression: formula
        if f in (any, all) if not isinstance(f, Value) else False:
            if len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp):
                seq = self.ev(n.args[0])
                return self.any_all(f is any, seq)
        if f is super:
            return self.ev_super()
        if isinstance(n.func, ast.Attribute) and len(n.args) == 1 and isinstance(
                n.args[0], ast.GeneratorExp):
            spec = (self.loop_specs.get(self._fn_qual()) or {}).get(
                self.source.gen_no.get(id(n)))
            if spec is not None:
                loop = self.source.gen_loops.setdefault(id(n), _gen_loop(n))
                self.for_with_spec(loop, self.ev(loop.iter), spec)
                return None
            owner = self.ev(n.func.value)
            if isinstance(owner, (Ref, Interior)):
                outer, self.reads = self.reads, set()
                args = [self.ev(n.args[0])]
                touched, self.reads = self.reads, outer
                if outer is not None:
                    outer |= touched
                while isinstance(owner, Interior):
                    owner = owner.cell
                if isinstance(owner, Ref) and owner.id in touched:
                    raise Unsupported("generator that reads the container it feeds")
                return self.call(f, args, {})
        args = self.ev_args(n.args)
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.ev(k.value)
                c = self._cont(v)
                if isinstance(c, VDict) and c.base is None and \
                        all(o.kind == "store" and not o.binders and isinstance(o.key, str)
                            for o in c.ops):
                    for o in c.ops:
                        if is_true(o.guard):
                            kwargs[o.key] = o.val
                        elif self.decide(o.guard):
                            kwargs[o.key] = o.val
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = self.ev(k.value)
        try:
            return self.call(f, args, kwargs)
        except Unsupported as e:
            if not getattr(e, "located", False):
                e.located = True
                e.args = (f"{e.args[0]} (line {n.lineno})",)
            raise

    def is_logger(self, f):
        import logging
        return isinstance(f, types.MethodType) and isinstance(f.__self__, logging.Logger)

    def ev_super(self):
        e = self.env
        while e.parent is not None and e.is_comp:
            e = e.parent
        selfname = e.node.args.args[0].arg
        self_ = self.st.heap[e.frame.id].vars[selfname]
        cls = e.cls
        inst = self.inst_class(self_)
        mro = inst.__mro__
        nxt = mro[mro.index(cls) + 1:]
        return _Super(self, nxt, self_)

    def inst_class(self, v):
        c = self._cont(v)
        if isinstance(c, (VInst, VObj)):
            return c.cls
        if isinstance(c, Sym) and isinstance(c.ty, V.TEnt):
            return c.ty.cls
        raise Unsupported("class of a value")

    def any_all(self, is_any, seq):
        c = self._cont(seq)
        ps = self.iter_pieces(c)
        if is_any:
            return self._bool(self.exists_elem(ps, lambda e: to_z3b(self.truth(e))))
        return self._bool(self.forall_elem(ps, lambda e: to_z3b(self.truth(e))))

    # ---------------------------------------------------------------- iteration
    def iter_pieces(self, v):
        if isinstance(v, SymOpt):
            self.oblige("iteration over a value that is not None", Not(v.isnone))
            v = v.val
        c = self._cont(v)
        if isinstance(c, VTup):
            return [Elem(x) for x in c.items]
        if isinstance(c, tuple):
            return [Elem(x) for x in c]
        if isinstance(c, VSeq):
            if getattr(c, "advanced", False):
                raise Unsupported("an iterator that was advanced")
            return list(self.norm_seq(c).pieces)
        if isinstance(c, VSet):
            if c.ety is None:
                return []
            y, bs = self.placeholder(c.ety, "k")
            g = self.exists_free(bs, lambda: self.set_mem(c, y))
            return [Gen(bs, g, [Elem(y)], "any")]
        if isinstance(c, VDict):
            if c.base is None and all(o.kind == "store" and not o.binders and is_true(o.guard)
                                      for o in c.ops):
                keys = []
                for o in c.ops:
                    if not any(self.eq(o.key, k) is True for k in keys):
                        keys.append(o.key)
                if all(not isinstance(k, Value) for k in keys):
                    return [Elem(k) for k in keys]
            if c.kty is None:
                return []
            y, bs = self.placeholder(c.kty, "k")
            g = self.exists_free(bs, lambda: self.dict_dom(c, y))
            return [Gen(bs, g, [Elem(y)], "any")]
        if isinstance(c, Sym) and isinstance(c.ty, V.TEnt) and c.ty.iter_ is not None:
            return self.iter_pieces(c.ty.iter_(self, c))
        if isinstance(c, VObj) and self.models.get((c.cls, "__iter__")):
            return self.iter_pieces(self.models[(c.cls, "__iter__")](self, [c], {}))
        if isinstance(c, (str, dict)):
            return [Elem(x) for x in c]
        if isinstance(c, Sym) and c.ty is V.STR:
            n = V.str_len(c.t)
            self._addfacts([n >= 0])
            return [BaseP(n, lambda i: Sym(V.STR, V.str_at(c.t, i)))]
        raise Unsupported(f"iteration over {c!r}")

    def exists_free(self, bs, fn):
        with self.under(bs):
            return to_z3b(fn())

    def mk_gen(self, binders, guard, sub, order):
        """a Gen piece; recognised as a plain indexed map when possible"""
        sub = tuple(sub)
        if order == "int" and len(binders) == 1 and binders[0].sort() == z3.IntSort() \
                and len(sub) == 1 and isinstance(sub[0], Elem):
            b = binders[0]
            cj = list(guard.children()) if z3.is_and(guard) else [guard]
            if len(cj) == 2 and cj[0].eq(b >= 0) and z3.is_lt(cj[1]) and cj[1].arg(0).eq(b) \
                    and not V.mentions(cj[1].arg(1), [b]):
                v = sub[0].v
                return BaseP(cj[1].arg(1), lambda i: V.subst(v, [(b, i)]))
        return Gen(binders, guard, sub, order)

    def ev_ListComp(self, n):
        acc = self.comp(n.generators, lambda acc: self.append(acc, self.ev(n.elt)),
                        VSeq([], "list"))
        return acc

    def ev_GeneratorExp(self, n):
        acc = self.comp(n.generators, lambda acc: self.append(acc, self.ev(n.elt)),
                        VSeq([], "iter"))
        return self.content(acc)

    def ev_SetComp(self, n):
        return self.comp(n.generators, lambda acc: self.set_add(acc, self.ev(n.elt)), VSet(None))

    def ev_DictComp(self, n):
        def put(acc):
            k = self.ev(n.key)
            self.dict_store(acc, k, self.ev(n.value))
        return self.comp(n.generators, put, VDict(None))

    def comp(self, gens, leaf, init):
        acc = self.alloc(init)
        first = self.ev(gens[0].iter)
        frame = self.alloc(Frame({}))
        e = Env(frame, self.env, self.env.globs, None, None, self.env.cls, self.env.qual)
        e.is_comp = True
        old = self.env

        def rec(i):
            if i == len(gens):
                leaf(acc)
                return
            g = gens[i]
            it = first if i == 0 else self.ev(g.iter)

            def one(v):
                self.assign_here(g.target, v)
                for c in g.ifs:
                    if not self.decide(self.truth(self.ev(c))):
                        return
                rec(i + 1)
            pieces = self.iter_pieces(it)
            if g.ifs and len(pieces) > 1 and all(isinstance(p, Elem) for p in pieces):
                for p in pieces:
                    self.merged(lambda p=p: one(p.v))
                return
            self.loop(pieces, one)
        self.env = e
        try:
            rec(0)
        finally:
            self.env = old
        return acc

    def assign_here(self, target, v):
        if isinstance(target, ast.Name):
            self.bind_here(target.id, v)
        elif isinstance(target, (ast.Tuple, ast.List)):
            for t, x in zip(target.elts, self.unpack(v, len(target.elts))):
                self.assign_here(t, x)
        else:
            raise Unsupported("comprehension target")

    def unpack(self, v, n):
        c = self._cont(v)
        if isinstance(c, tuple):
            c = VTup(c)
        if isinstance(c, VTup):
            if len(c.items) != n:
                self.missing(ValueError, V.FALSE)
            return list(c.items)
        if isinstance(c, VSeq):
            ln = self.seq_len(c)
            self.missing(ValueError, to_z3b(self.eq(ln, n)))
            return [self.seq_at(c, i) for i in range(n)]
        raise Unsupported(f"unpacking {c!r}")

    # ---------------------------------------------------------------- loops
    def loop(self, pieces, one):
        """run `one(v)` for every element; continue is handled per element"""
        for p in pieces:
            if isinstance(p, Elem):
                try:
                    one(p.v)
                except Cnt:
                    pass
            elif isinstance(p, Cond):
                if self.decide(p.g):
                    self.loop(p.sub, one)
            elif isinstance(p, (BaseP, Gen)):
                g = V.base_to_gen(p) if isinstance(p, BaseP) else V.rename_gen(p)
                self.generic(g, lambda g=g: self.loop(g.sub, one))
            else:
                raise Unsupported(f"piece {p}")

    def generic(self, g, body):
        """Generic iteration: one symbolic execution of the body stands for all iterations.

        Cells and variables modified by the body hold arbitrary contents at its start (they
        are functions of the iteration); their effects are collected as op-log suffixes.
        Where the body reads such a cell, a second pass starts it from the accumulated effect
        of all earlier iterations.
        """
        outer = self.st
        base_cell = self.cell_ctr
        frames = [i for i, c in outer.heap.items() if isinstance(c, Frame)]
        mark = len(self.obls)
        keys = set(self.obl_keys)
        rec0 = self.recording
        cells = {}    # cell id -> type or None
        fvars = {}    # (frame id, var) -> Ty or None
        tag = self.uid()

        def lt(x, y):
            if g.order == "int" and len(g.binders) == 1:
                return x[0] < y[0]
            ctx = list(self.st.binders)
            f = z3.Function(f"before!{tag}", *[b.sort() for b in ctx if all(
                not b.eq(q) for q in g.binders)], *[b.sort() for b in g.binders] * 2,
                z3.BoolSort())
            ctx = [b for b in ctx if all(not b.eq(q) for q in g.binders)]
            return f(*ctx, *x, *y)

        def run(starts):
            hv = {}

            def fn():
                self.st.binders = outer.binders + tuple(g.binders)
                self.cond(g.guard)
                for i, c in starts(hv).items():
                    self.st.heap[i] = c
                for (fi, nm), ty in fvars.items():
                    fr = self.st.heap[fi]
                    vs = dict(fr.vars)
                    old = vs.get(nm)
                    p = Poison(nm, old)
                    p.ty, p.sym, p.ctx = ty, f"hv!{tag}!{fi}!{nm}", self.st.binders
                    vs[nm] = p
                    self.st.heap[fi] = Frame(vs)
                body()
                self.check_frozen = None
            res = self.explore(fn)
            out = []
            for st, kind, val in res:
                st.binders = outer.binders
                out.append((st, kind, val))
            return out

        # ---- discovery
        self.recording = False
        used = {}

        def havoc(hv, i, ty):
            # one content object for all paths of a run (effects are found by identity)
            if i not in hv:
                n0 = len(self.st.pc)
                hv[i] = self._havoc_cell(outer.heap[i], ty, f"hv!{tag}!{i}"), \
                    [f for _, f in self.st.pc[n0:]]
            else:
                self._addfacts(hv[i][1])
            return hv[i][0]

        def start_havoc(hv):
            used.clear()
            for i, ty in cells.items():
                used[i] = havoc(hv, i, ty)
            return used
        rounds = 0
        while True:
            res = run(start_havoc)
            if not self._discover(res, outer, base_cell, cells, fvars, used):
                break
            rounds += 1
            if rounds > 8:
                raise Unsupported("loop effects do not stabilise")
        # ---- dependency on accumulated state
        prefix = f"hv!{tag}!"
        infos = self._effects(res, outer, used, base_cell, cells)
        dirty = set()
        normal = {k for k, r in enumerate(res) if r[1] in ("val", "cont")}
        for i, effs in infos.items():
            if effs is None:
                dirty.add(i)
                continue
            ts = []
            infos[i] = effs = [e for e in effs if e[0] in normal]
            for _, conds, suf in effs:
                _suffix_terms(suf, ts)
                ts.extend(conds)
            if any(any(s.startswith(prefix) for s in symbols_of(t, set())) for t in ts):
                dirty.add(i)
        uses = set()
        for st, kind, val in res:
            for f in [x for _, x in st.pc[len(outer.pc):]]:
                uses |= {s for s in symbols_of(f, set()) if s.startswith(prefix)}
            for i in infos:
                pass
        alleff = []
        for i, effs in infos.items():
            for _, conds, suf in (effs or []):
                _suffix_terms(suf, alleff)
        for st, kind, val in res:
            if isinstance(val, Value):
                try:
                    value_terms(self._freeze_in(st, val), alleff)
                except Unsupported:
                    pass
        for t in alleff:
            uses |= {s for s in symbols_of(t, set()) if s.startswith(prefix)}
        clean_used = [i for i in infos if i not in dirty and
                      any(s.startswith(f"{prefix}{i}_") or s.startswith(f"{prefix}{i}")
                          for s in uses)]
        if clean_used:
            nb = [z3.Const(f"{str(b).split('!')[0]}!{self.uid()}", b.sort()) for b in g.binders]
            pairs = list(zip(g.binders, nb))
            # this pass recorded no obligations: nothing may rest on them
            self.st.pc.extend(self._lift(res, outer, g, unproved=True))
            outer = self.st
            pguard = And(z3.substitute(g.guard, *pairs), lt(nb, g.binders))
            if g.order != "int":
                self._order_axioms(lt, g)
            pre = {}
            for i in clean_used:
                pre[i] = self._compose(outer.heap[i], infos[i], nb, pguard, pairs, g.order)

            def start_prefix(hv):
                used.clear()
                for i, ty in cells.items():
                    used[i] = pre[i] if i in pre else havoc(hv, i, ty)
                return used
            starts = start_prefix
        else:
            starts = start_havoc
        del self.obls[mark:]
        self.obl_keys = keys
        self.recording = rec0
        res = run(starts)
        infos = self._effects(res, outer, used, base_cell, cells)
        self._finish(g, outer, res, infos, used, base_cell, fvars, lt, tag)

    def _discover(self, res, outer, base_cell, cells, fvars, used):
        new = False
        for st, kind, val in res:
            for i, c in st.heap.items():
                if i not in outer.heap:
                    continue
                if isinstance(c, Frame):
                    ref = outer.heap[i]
                    for nm, x in c.vars.items():
                        if isinstance(x, Poison):
                            continue
                        key = (i, nm)
                        o = ref.vars.get(nm)
                        if key not in fvars:
                            if nm in ref.vars and (x is o or (
                                    not isinstance(o, Value) and not isinstance(x, Value)
                                    and type(o) is type(x) and o == x)):
                                continue
                            fvars[key] = self._try_type(o, st) if nm in ref.vars else None
                            if nm in ref.vars and isinstance(o, Poison):
                                fvars[key] = o.ty
                            new = True
                            if nm not in ref.vars:
                                continue
                        if nm not in ref.vars:
                            continue
                        t = self._join(fvars[key], self._try_type(x, st), x is None or
                                       o is None)
                        if repr(t) != repr(fvars[key]):
                            fvars[key] = t
                            new = True
                else:
                    ref = used.get(i, outer.heap[i])
                    if c is not ref:
                        t = self._try_type(c, st)
                        if i not in cells:
                            cells[i] = t
                            new = True
                        elif (cells[i] is None or _weak(cells[i])) and t is not None \
                                and not _weak(t):
                            cells[i] = t
                            new = True
        return new

    def _join(self, a, b, opt):
        if a is None and b is None:
            return None
        if a is None or b is None:
            t = a if a is not None else b
            if opt and not isinstance(t, V.TOpt) and t is not V.VAL:
                t = V.TOpt(t)
            return t
        ia = a.inner if isinstance(a, V.TOpt) else a
        ib = b.inner if isinstance(b, V.TOpt) else b
        if repr(ia) != repr(ib):
            if V.VAL in (ia, ib):
                return V.VAL
            if {ia, ib} == {V.INT, V.REAL}:
                ia = V.REAL
            else:
                return a
        if opt or isinstance(a, V.TOpt) or isinstance(b, V.TOpt):
            return V.TOpt(ia) if ia is not V.VAL else ia
        return ia

    def _try_type(self, v, st=None):
        old = self.st
        if st is not None:
            self.st = st
        try:
            return self.ty_of(self.freeze(v)) if v is not None and not isinstance(v, (Frame, VInst)) \
                else None
        except (Unsupported, AttributeError):
            return None
        finally:
            self.st = old

    def _freeze_in(self, st, v):
        old = self.st
        self.st = st
        try:
            return self.freeze(v)
        finally:
            self.st = old

    def _havoc_cell(self, c, ty, name):
        ctx = list(self.st.binders)
        if isinstance(c, VSet):
            ety = c.ety if c.ety is not None else getattr(ty, "elem", None)
            if ety is None:
                return VSet(None)
            return V.TSet(ety).make(name, ctx)
        if isinstance(c, VSeq):
            ety = getattr(ty, "elem", None)
            if ety is None:
                return VSeq([], c.kind)
            v = V.TSeq(ety, c.kind).make(name, ctx)
            self._addfacts(V.TSeq(ety).facts(v))
            return v
        if isinstance(c, VDict):
            kty = c.kty or getattr(ty, "k", None)
            vty = c.vty or getattr(ty, "v", None)
            if kty is None:
                return VDict(None, None, None, [], c.kind)
            if vty is None:
                d = VDict(kty, None, (lambda y: V._app(f"{name}_dom", ctx + kty.leaves(y),
                                                       z3.BoolSort()),
                                      lambda y: _unk(name)), [], c.kind)
                return d
            d = V.TDict(kty, vty).make(name, ctx)
            return VDict(kty, vty, d.base, [], c.kind)
        if isinstance(c, VInst):
            fields = {}
            for k, x in c.fields.items():
                fields[k] = x
            return VInst(c.cls, fields)
        raise Unsupported(f"loop modifies {c!r}")

    def _effects(self, res, outer, used, base_cell, cells):
        """cell -> [(path index, conds, suffix)] or None when not expressible"""
        infos = {}
        blen = len(outer.pc) + 1  # + the guard
        normal = {k for k, r in enumerate(res) if r[1] in ("val", "cont")}
        for i in cells:
            effs = []
            ok = True
            for k, (st, kind, val) in enumerate(res):
                c0, c1 = used.get(i, outer.heap[i]), st.heap[i]
                if c1 is c0:
                    continue
                try:
                    old = self.st
                    self.st = st
                    suf = self._suffix(c0, c1, base_cell)
                    self.st = old
                except NotMergeable:
                    self.st = old
                    ok = False
                    break
                effs.append((k, self.delta_conds(st, blen), suf))
            if ok and len(normal) == 1 and len(effs) > 0:
                # a completed iteration took the only path that completes
                effs = [(k, [] if k in normal else cs, suf) for k, cs, suf in effs]
            infos[i] = effs if ok else None
        return infos

    def _suffix(self, c0, c1, base_cell):
        if isinstance(c0, VSeq) and isinstance(c1, VSeq):
            if c0.stores != c1.stores[:len(c0.stores)]:
                raise NotMergeable()
            if len(c1.pieces) < len(c0.pieces) or any(
                    a is not b for a, b in zip(c0.pieces, c1.pieces)):
                raise NotMergeable()
            ap = c1.pieces[len(c0.pieces):]
            sto = c1.stores[len(c0.stores):]
            if ap and (sto or c0.stores):
                raise NotMergeable()
            return ("seq", [self._fz_piece(p, base_cell) for p in ap],
                    [self._fz_dop(o, base_cell) for o in sto])
        if isinstance(c0, VSet) and isinstance(c1, VSet):
            if c0.base is not c1.base or len(c1.ops) < len(c0.ops) or any(
                    a is not b for a, b in zip(c0.ops, c1.ops)):
                raise NotMergeable()
            ops = c1.ops[len(c0.ops):]
            return ("set", [(k, [self._fz_piece(p, base_cell) for p in ps]) for k, ps in ops],
                    c1.ety)
        if isinstance(c0, VDict) and isinstance(c1, VDict):
            if c0.base is not c1.base or len(c1.ops) < len(c0.ops) or any(
                    a is not b for a, b in zip(c0.ops, c1.ops)):
                raise NotMergeable()
            return ("dict", [self._fz_dop(o, base_cell) for o in c1.ops[len(c0.ops):]],
                    c1.kty, c1.vty)
        raise NotMergeable()

    def _fz_piece(self, p, base):
        old = self.newer_than
        self.newer_than = base
        try:
            return self.freeze_pieces([p])[0]
        finally:
            self.newer_than = old

    def _fz_dop(self, o, base):
        old = self.newer_than
        self.newer_than = base
        try:
            return self.freeze_dop(o)
        finally:
            self.newer_than = old

    def _compose(self, c, effs, binders, guard, pairs, order, extra=None):
        """content c followed by the effects of the iterations `binders` where guard"""
        effs = [e for e in (effs or [])]
        if isinstance(c, VSeq):
            subs, stores = [], []
            for k, conds, (_, ap, sto) in effs:
                cs = V.subst_t(And(*conds), pairs)
                if ap:
                    ps = V.subst_pieces(ap, pairs)
                    subs.extend(ps if is_true(cs) else [Cond(cs, ps)])
                for o in sto:
                    o = V.subst_dop(o, pairs)
                    stores.append(DOp("store", list(binders) + list(o.binders),
                                      And(guard, cs, o.guard), o.key, o.val, order))
            if subs and stores:
                raise Unsupported("list both extended and overwritten in a loop")
            if stores:
                return VSeq(c.pieces, c.kind, list(c.stores) + stores)
            if subs:
                return VSeq(list(self.norm_seq(c).pieces) +
                            [self.mk_gen(binders, guard, subs, order)], c.kind)
            return c
        if isinstance(c, VSet):
            kinds = {k for _, _, (_, ops, _) in effs for k, _ in ops}
            if not kinds:
                return c
            if len(kinds) > 1:
                raise Unsupported("set both extended and reduced in a loop")
            subs, ety = [], c.ety
            for _, conds, (_, ops, et) in effs:
                cs = V.subst_t(And(*conds), pairs)
                ety = ety or et
                for _, ps in ops:
                    ps = V.subst_pieces(ps, pairs)
                    subs.extend(ps if is_true(cs) else [Cond(cs, ps)])
            return VSet(ety, c.base, list(c.ops) +
                        [(kinds.pop(), (Gen(binders, guard, subs, order),))])
        if isinstance(c, VDict):
            ops, kty, vty = [], c.kty, c.vty
            for _, conds, (_, os_, kt, vt) in effs:
                cs = V.subst_t(And(*conds), pairs)
                kty, vty = kty or kt, vty or vt
                for o in os_:
                    o = V.subst_dop(o, pairs)
                    ops.append(DOp(o.kind, list(binders) + list(o.binders),
                                   And(guard, cs, o.guard), o.key, o.val, order))
            kinds = {o.kind for o in ops}
            if "del" in kinds and len(kinds) > 1 or "store" in kinds and len(kinds) > 1:
                raise Unsupported("mixed dict updates in a loop")
            return VDict(kty, vty, c.base, list(c.ops) + ops, c.kind)
        raise Unsupported("compose")

    def _lift(self, res, outer, g, unproved=False):
        out = []
        blen = len(outer.pc)
        for st, kind, val in res:
            for k, f in self.lifted_facts(st, blen, unproved):
                if not is_true(f):
                    out.append((k, ForAll(g.binders, f)))
        return out

    def _order_axioms(self, lt, g):
        a = [z3.Const(f"oa!{self.uid()}", b.sort()) for b in g.binders]
        b = [z3.Const(f"ob!{self.uid()}", x.sort()) for x in g.binders]
        self._addfacts([
            ForAll(a + b, Not(And(lt(a, b), lt(b, a)))),
            ForAll(a + b, Or(lt(a, b), lt(b, a), And(*[x == y for x, y in zip(a, b)])))])

    def _finish(self, g, outer, res, infos, used, base_cell, fvars, lt, tag):
        self.st = outer
        blen = len(outer.pc) + 1
        self.st.pc.extend(self._lift(res, outer, g))
        normal = [k for k, r in enumerate(res) if r[1] in ("val", "cont")]
        exits = [k for k, r in enumerate(res) if r[1] not in ("val", "cont")]
        conds = [And(*self.delta_conds(r[0], blen)) for r in res]
        star = None
        guard = g.guard
        if exits:
            E = Or(*[conds[k] for k in exits])
            if not self.decide(Exists(g.binders, And(g.guard, E)), prune=True):
                exits_taken = None
            else:
                if len(exits) > 1:
                    sel = self.fresh("sel", z3.IntSort())
                    j = self.choose(len(exits))
                    self.cond(sel == j)
                else:
                    j = 0
                exits_taken = exits[j]
                star = [self.fresh("x" + str(b).split("!")[0], b.sort()) for b in g.binders]
                pairs = list(zip(g.binders, star))
                self.fact(z3.substitute(And(g.guard, conds[exits_taken]), *pairs))
                if g.order != "int":
                    self._order_axioms(lt, g)
                    self.fact(Not(lt(star, star)))
                self.fact(ForAll(g.binders, Implies(And(g.guard, lt(g.binders, star)), Not(E))))
                guard = And(g.guard, lt(g.binders, star))
        # effects of the completed iterations
        for i, effs in infos.items():
            c = outer.heap[i] if i in outer.heap else None
            if effs is None:
                ty = self._try_type(used.get(i))
                nc = self._havoc_cell(outer.heap[i], ty, f"after!{tag}!{i}!{self.uid()}")
                if isinstance(nc, VInst):
                    nc = self._havoc_inst(outer.heap[i], [r[0].heap[i] for r in res])
                self.st.heap[i] = nc
                continue
            neffs = [(k, [f for f in cs], s) for k, cs, s in effs if k in normal]
            nb = [z3.Const(f"{str(b).split('!')[0]}!{self.uid()}", b.sort()) for b in g.binders]
            pr = list(zip(g.binders, nb))
            cur = self._compose(self.st.heap[i], neffs, nb, z3.substitute(guard, *pr), pr, g.order) \
                if neffs else self.st.heap[i]
            if star is not None:
                for k, cs, s in effs:
                    if k == exits_taken:
                        cur = self._apply_suffix(cur, s, list(zip(g.binders, star)))
            self.st.heap[i] = cur
        # local variables
        groups = {}
        for (fi, nm), ty in fvars.items():
            groups.setdefault(fi, []).append((nm, ty))
        for fi, vs in groups.items():
            fr = dict(self.st.heap[fi].vars)
            for nm, ty in vs:
                had = nm in outer.heap[fi].vars
                old = outer.heap[fi].vars.get(nm)
                fr[nm] = self._after_var(nm, ty, had, old, res, normal, conds, g, guard, fi, tag)
            self.st.heap[fi] = Frame(fr)
        if star is None:
            return
        # leave through the exit path
        st, kind, val = res[exits_taken]
        pairs = list(zip(g.binders, star))
        for fi, vs in groups.items():
            fr = dict(self.st.heap[fi].vars)
            for nm, ty in vs:
                x = st.heap[fi].vars.get(nm)
                if isinstance(x, Poison):
                    continue
                if nm in st.heap[fi].vars:
                    self_old = self.st
                    try:
                        fr[nm] = self._import(st, x, pairs, base_cell)
                    finally:
                        self.st = self_old
            self.st.heap[fi] = Frame(fr)
        if kind == "break":
            raise Brk()
        if kind == "ret":
            raise Ret(self._import(st, val, pairs, base_cell))
        if kind == "raise":
            e = val
            e2 = Exc(e.cls, tuple(self._import(st, a, pairs, base_cell) for a in e.args),
                     {k: self._import(st, a, pairs, base_cell) for k, a in e.fields.items()})
            raise PyRaise(e2)

    def _import(self, st, v, pairs, base_cell):
        if not isinstance(v, Value):
            return v
        cur = self.st
        old = self.newer_than
        self.st = st
        self.newer_than = base_cell
        try:
            fv = self.freeze(v)
        finally:
            self.st = cur
            self.newer_than = old
        return V.subst(fv, pairs)

    def _apply_suffix(self, c, s, pairs):
        if s[0] == "seq":
            ps = V.subst_pieces(s[1], pairs)
            sto = [V.subst_dop(o, pairs) for o in s[2]]
            if ps:
                return VSeq(list(self.norm_seq(c).pieces) + list(ps), c.kind)
            return VSeq(c.pieces, c.kind, list(c.stores) + sto)
        if s[0] == "set":
            return VSet(c.ety or s[2], c.base, list(c.ops) +
                        [(k, V.subst_pieces(p, pairs)) for k, p in s[1]])
        return VDict(c.kty or s[2], c.vty or s[3], c.base,
                     list(c.ops) + [V.subst_dop(o, pairs) for o in s[1]], c.kind)

    def _havoc_inst(self, c, ends):
        fields = dict(c.fields)
        for e in ends:
            for k, x in e.fields.items():
                if x is not c.fields.get(k):
                    fields[k] = Poison(k, None)
                    fields[k].ty = None
        return VInst(c.cls, fields)

    def _after_var(self, nm, ty, had, old, res, normal, conds, g, guard, fi, tag):
        """value of a variable after the completed iterations"""
        hvname = f"hv!{tag}!{fi}!{nm}"
        vals = []
        for k in normal:
            x = res[k][0].heap[fi].vars.get(nm)
            if isinstance(x, Poison) or _is_hv(x, hvname):
                continue
            vals.append((k, x))
        p = Poison(nm, None, after=True)
        p.ty, p.sym, p.ctx = ty if had else None, f"after!{tag}!{fi}!{nm}!{self.uid()}", \
            self.st.binders
        if not had:
            return p
        if not vals:
            return old
        if isinstance(old, bool) or isinstance(old, Sym) and old.ty is V.BOOL:
            hv = z3.Const(hvname, z3.BoolSort())
            if all(x is True for _, x in vals) or all(x is False for _, x in vals):
                e = Exists(g.binders, And(guard, Or(*[conds[k] for k, _ in vals])))
                o = V.term(old, V.BOOL)
                return self._bool(Or(o, e) if vals[0][1] is True else And(o, Not(e)))
            contrib = []
            for k, x in vals:
                if isinstance(x, bool):
                    if x is not True:
                        return p
                    contrib.append(conds[k])
                    continue
                h = _find_hv(x.t, hvname)
                if h is None:
                    return p
                if not is_true(z3.simplify(z3.substitute(x.t, (h, V.TRUE)))):
                    return p
                contrib.append(And(conds[k], z3.substitute(x.t, (h, V.FALSE))))
            return self._bool(Or(V.term(old, V.BOOL),
                                 Exists(g.binders, And(guard, Or(*contrib)))))
        return p

    # ---------------------------------------------------------------- merging
    def merge(self, res, partial=False):
        """merge straight-line paths (all of kind 'val') into the current state"""
        if not res:
            raise Infeasible()
        if len(res) == 1 and res[0][1] == "val":
            self.st = res[0][0]
            return res[0][2]
        if any(k != "val" for _, k, _ in res):
            raise NotMergeable()
        base = self.st
        blen = len(base.pc)
        conds = [And(*self.delta_conds(st, blen)) for st, _, _ in res]
        new = base.copy()
        for c, (st, _, _) in zip(conds, res):
            for k, f in self.lifted_facts(st, blen):
                if not is_true(f):
                    new.pc.append((k, f))
        disj = Or(*conds)
        if not is_true(disj):
            # a path may have ended at an obligation that is false
            new.pc.append(("cond" if partial else "obl" if self.false_seen else "fact", disj))
        ids = set()
        for st, _, _ in res:
            ids.update(i for i in st.heap if i not in base.heap)
            ids.update(i for i in base.heap if st.heap[i] is not base.heap[i])
        self.st = new
        try:
            for i in sorted(ids, key=lambda i: (isinstance(base.heap.get(i), Frame), i)):
                have = [(c, st, st.heap[i]) for c, (st, _, _) in zip(conds, res) if i in st.heap]
                if len(have) < len(res):  # allocated on some paths only
                    new.heap[i] = have[0][2]
                    continue
                new.heap[i] = self._merge_content(base.heap.get(i), have)
            vals = [(c, v) for c, (_, _, v) in zip(conds, res)]
            val = vals[-1][1]
            for c, v in reversed(vals[:-1]):
                val = self.vite(c, v, val)
            if any(isinstance(v, Value) or True for _, v in vals):
                return val
        except (NotMergeable, Unsupported, AttributeError) as e:
            self.st = base
            raise NotMergeable() from e

    def _merge_content(self, b, have):
        cs = [x for _, _, x in have]
        if all(x is cs[0] for x in cs):
            return cs[0]
        if b is None:
            raise NotMergeable()
        if isinstance(b, Frame):
            out = dict(b.vars)
            names = set()
            for x in cs:
                names.update(x.vars)
            for nm in names:
                vs = [(c, x.vars[nm]) for c, _, x in have if nm in x.vars]
                if len(vs) < len(have):
                    # not assigned on some path: poison (a read is unsupported)
                    p = Poison(nm, None)
                    p.ty = None
                    out[nm] = p
                    continue
                if all(v is vs[0][1] for _, v in vs):
                    out[nm] = vs[0][1]
                    continue
                if any(isinstance(v, Poison) for _, v in vs):
                    raise NotMergeable()
                val = vs[-1][1]
                for c, v in reversed(vs[:-1]):
                    val = self.vite(c, v, val)
                out[nm] = val
            return Frame(out)
        if isinstance(b, VInst):
            fields = dict(b.fields)
            for k in set().union(*[set(x.fields) for x in cs]):
                if any(k not in x.fields for x in cs):
                    raise NotMergeable()
                val = cs[-1].fields[k]
                for (c, _, x) in reversed(have[:-1]):
                    val = val if x.fields[k] is val else self.vite(c, x.fields[k], val)
                fields[k] = val
            return VInst(b.cls, fields)
        cur = b
        if isinstance(b, VSeq) and not b.stores:
            r = self._merge_appends(b, have)
            if r is not None:
                return r
        for c, st, x in have:
            if x is b:
                continue
            suf = self._suffix(b, x, 10 ** 9)
            cur = self._guard_suffix(cur, suf, c)
        return cur

    def _merge_appends(self, b, have):
        """every path appends the same number of elements: one list of merged elements"""
        sufs = []
        for c, st, x in have:
            suf = self._suffix(b, x, 10 ** 9)
            if suf[2] or not suf[1] or not all(isinstance(p, Elem) for p in suf[1]):
                return None
            sufs.append((c, suf[1]))
        if len({len(ps) for _, ps in sufs}) != 1:
            return None
        out = []
        try:
            for j in range(len(sufs[0][1])):
                val = sufs[-1][1][j].v
                for c, ps in reversed(sufs[:-1]):
                    val = self.vite(c, ps[j].v, val)
                out.append(Elem(val))
        except (NotMergeable, Unsupported):
            return None
        return VSeq(list(b.pieces) + out, b.kind)

    def _guard_suffix(self, c, s, g):
        if s[0] == "seq":
            _, ps, sto = s
            if ps:
                return VSeq(list(self.norm_seq(c).pieces) + [Cond(g, tuple(ps))], c.kind)
            return VSeq(c.pieces, c.kind, list(c.stores) + [
                DOp(o.kind, o.binders, And(g, o.guard), o.key, o.val, o.order) for o in sto])
        if s[0] == "set":
            return VSet(c.ety or s[2], c.base, list(c.ops) +
                        [(k, (Cond(g, tuple(p)),)) for k, p in s[1]])
        return VDict(c.kty or s[2], c.vty or s[3], c.base, list(c.ops) + [
            DOp(o.kind, o.binders, And(g, o.guard), o.key, o.val, o.order) for o in s[1]], c.kind)

    # ---------------------------------------------------------------- containers
    def append(self, ref, v):
        if isinstance(ref, Interior):
            self.dict_op(ref.cell, DOp("inner", [], V.TRUE, ref.key, ("append", (Elem(v),))))
            return
        c = self.content(ref)
        if not isinstance(c, VSeq):
            raise Unsupported("append to a non-list")
        if not isinstance(ref, Ref):
            raise Unsupported("append to an immutable list value")
        c = self.norm_seq(c)
        self.set_content(ref, VSeq(list(c.pieces) + [Elem(v)], c.kind))

    def extend(self, ref, pieces):
        if isinstance(ref, Interior):
            self.dict_op(ref.cell, DOp("inner", [], V.TRUE, ref.key, ("append", tuple(pieces))))
            return
        if not isinstance(ref, Ref):
            raise Unsupported("extend of an immutable list value")
        c = self.norm_seq(self.content(ref))
        self.set_content(ref, VSeq(list(c.pieces) + list(pieces), c.kind))

    def set_add(self, ref, v, kind="add"):
        self.set_update(ref, [Elem(v)], kind)

    def set_update(self, ref, pieces, kind="add"):
        pieces = tuple(pieces)
        if not pieces:
            return
        if isinstance(ref, Interior):
            self.dict_op(ref.cell, DOp("inner", [], V.TRUE, ref.key, (kind, pieces)))
            return
        if not isinstance(ref, Ref):
            raise Unsupported("update of an immutable set value")
        c = self.content(ref)
        ety = c.ety or self.pieces_type(pieces)
        self.set_content(ref, VSet(ety, c.base, list(c.ops) + [(kind, pieces)]))

    def dict_op(self, ref, op):
        if isinstance(ref, Interior):
            self.dict_op(ref.cell, DOp("inner", [], V.TRUE, ref.key, ("dict", op)))
            return
        if not isinstance(ref, Ref):
            raise Unsupported("update of an immutable dict value")
        c = self.content(ref)
        kty = c.kty
        if kty is None and op.kind != "del":
            try:
                kty = self.ty_of(op.key)
            except Unsupported:
                kty = None
        vty = c.vty
        if vty is None and op.kind in ("store", "setdefault"):
            vty = self._try_type(op.val)
        self.set_content(ref, VDict(kty, vty, c.base, list(c.ops) + [op], c.kind))

    def dict_store(self, ref, k, v):
        self.dict_op(ref, DOp("store", [], V.TRUE, k, v))

    # ================================================================ statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, n):
        m = getattr(self, "st_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(n).__name__} at line {n.lineno}")
        try:
            m(n)
        except Unsupported as e:
            if not getattr(e, "located", False):
                e.located = True
                e.args = (f"{e.args[0] if e.args else ''} (line {n.lineno})",)
            raise

    def st_Expr(self, n):
        if isinstance(n.value, (ast.Yield,)):
            e = self.env
            v = self.ev(n.value.value) if n.value.value else None
            if e.on_yield is not None:
                e.on_yield(v)
                return
            self.append(e.yields, v)
            return
        if isinstance(n.value, ast.YieldFrom):
            if self.env.on_yield is not None:
                raise Unsupported("yield from in a context manager")
            self.extend(self.env.yields, self.iter_pieces(self.ev(n.value.value)))
            return
        self.ev(n.value)

    def st_Pass(self, n):
        pass

    def st_Nonlocal(self, n):
        pass

    def st_Break(self, n):
        raise Brk()

    def st_Continue(self, n):
        raise Cnt()

    def st_Return(self, n):
        raise Ret(self.ev(n.value) if n.value is not None else None)

    def st_Assign(self, n):
        v = self.ev(n.value)
        for t in n.targets:
            self.assign(t, v)

    def st_AnnAssign(self, n):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported("starred assignment")
            for x, y in zip(t.elts, self.unpack(v, len(t.elts))):
                self.assign(x, y)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value), self.ev(t.slice), v)
        else:
            raise Unsupported("assignment target")

    def setattr(self, o, name, v):
        if isinstance(o, Ref):
            c = self.content(o)
            if isinstance(c, VInst):
                self.set_content(o, VInst(c.cls, {**c.fields, name: v}))
                return
        if isinstance(o, Sym) and isinstance(o.ty, V.TEnt) and name in o.ty.mutable:
            self.dict_store(self.fieldmap(o.ty, name), o, v)
            return
        raise Unsupported(f"attribute assignment {name} on {o!r}")

    def setitem(self, base, idx, v):
        if not isinstance(base, (Ref, Interior)):
            raise Unsupported("item assignment on a value")
        c = self.content(base)
        if isinstance(c, VDict):
            self.dict_store(base, idx, v)
            return
        if isinstance(c, VSeq) and isinstance(base, Ref):
            n = self.seq_len(c)
            es = V.all_elems(c.pieces) if not c.stores else None
            if es is not None and isinstance(idx, int):
                if not -len(es) <= idx < len(es):
                    self.missing(IndexError, V.FALSE)
                es = list(es)
                es[idx] = v
                self.set_content(base, VSeq([Elem(x) for x in es], c.kind))
                return
            t, nt = V.term(idx, V.INT), V.term(n, V.INT)
            if isinstance(idx, int) and idx < 0:
                t = z3.simplify(nt + idx)
                idx = Sym(V.INT, t)
                self.missing(IndexError, t >= 0)
            else:
                self._in_range(t, nt)
            self.set_content(base, VSeq(c.pieces, c.kind, list(c.stores) + [
                DOp("store", [], V.TRUE, idx, v)]))
            return
        raise Unsupported("item assignment")

    def st_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            cur = self.lookup(n.target.id)
            v = self.ev(n.value)
            if not self._aug_container(cur, n.op, v):
                self.bind(n.target.id, self.binop(n.op, cur, v))
        elif isinstance(n.target, ast.Subscript):
            b, i = self.ev(n.target.value), self.ev(n.target.slice)
            cur = self.getitem(b, i)
            v = self.ev(n.value)
            if not self._aug_container(cur, n.op, v):
                self.setitem(b, i, self.binop(n.op, cur, v))
        elif isinstance(n.target, ast.Attribute):
            o = self.ev(n.target.value)
            cur = self.getattr(o, n.target.attr)
            v = self.ev(n.value)
            if not self._aug_container(cur, n.op, v):
                self.setattr(o, n.target.attr, self.binop(n.op, cur, v))
        else:
            raise Unsupported("augmented assignment")

    def _aug_container(self, cur, op, v):
        c = self._cont(cur)
        if isinstance(c, VSet):
            if isinstance(op, ast.BitOr):
                self.set_update(cur, self.iter_pieces(v))
            elif isinstance(op, ast.Sub):
                self.set_update(cur, self.iter_pieces(v), "del")
            else:
                raise Unsupported("in-place set operator")
            return True
        if isinstance(c, VSeq) and c.kind == "list" and isinstance(op, ast.Add):
            self.extend(cur, self.iter_pieces(v))
            return True
        return False

    def st_If(self, n):
        t = self.truth(self.ev(n.test))
        if isinstance(t, bool):
            self.block(n.body if t else n.orelse)
            return
        branch = lambda: self.block(n.body) if self.decide(t) else self.block(n.orelse)
        fork = getattr(self.current, "fork", ())
        if fork and not self.st.binders and any(f in ast.unparse(n.test) for f in fork):
            branch()  # each case on its own path: simpler obligations
            return
        self.merged(branch)

    def st_Assert(self, n):
        t = self.truth(self.ev(n.test))
        t = to_z3b(t)
        if self.catches(AssertionError):
            if not self.decide(t):
                raise PyRaise(Exc(AssertionError, ()))
            return
        self.oblige(f"assert {ast.unparse(n.test)[:70]}", t, "assert")

    def st_Raise(self, n):
        if n.exc is None:
            cur = getattr(self, "cur_exc", None)
            if cur is None:
                raise Unsupported("bare raise")
            raise PyRaise(cur)
        v = self.ev(n.exc)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = Exc(v, ())
        if not isinstance(v, Exc):
            raise Unsupported("raise of a non-exception")
        raise PyRaise(v)

    def st_Try(self, n):
        hs = []
        for h in n.handlers:
            if h.type is None:
                hs.append((BaseException,))
            else:
                t = self.ev(h.type)
                hs.append(tuple(t.items) if isinstance(t, VTup) else (t,))
        flat = [x for h in hs for x in h]
        self.handlers.append(flat)
        popped = False
        try:
            try:
                self.block(n.body)
            except PyRaise as e:
                self.handlers.pop()
                popped = True
                for h, classes in zip(n.handlers, hs):
                    if any(issubclass(e.exc.cls, c) for c in classes):
                        old = getattr(self, "cur_exc", None)
                        self.cur_exc = e.exc
                        try:
                            if h.name:
                                self.bind(h.name, e.exc)
                            self.block(h.body)
                        finally:
                            self.cur_exc = old
                        break
                else:
                    raise
            else:
                self.handlers.pop()
                popped = True
                self.block(n.orelse)
        finally:
            if not popped and flat is self.handlers[-1]:
                self.handlers.pop()
            if n.finalbody:
                self.block(n.finalbody)

    def st_With(self, n):
        self.with_items(n, 0)

    def with_items(self, n, k):
        if k == len(n.items):
            self.block(n.body)
            return
        item = n.items[k]

        def inside(v):
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v)
            self.with_items(n, k + 1)
        c = self.ev(item.context_expr)
        if isinstance(c, GenCtx):
            self.run_context(c, inside)
            return
        v = self.ctx_enter(c)
        try:
            inside(v)
        finally:
            self.ctx_exit(c)

    def run_context(self, c, inside):
        """a function decorated with contextlib.contextmanager: its body runs around the block"""
        env, seen, leaving = self.env, [], []

        def on_yield(v):
            if seen:
                raise Unsupported("a context manager that yields twice")
            seen.append(1)
            here, self.env = self.env, env
            try:
                inside(v)
            except PyRaise:
                raise
            except (Ret, Brk, Cnt) as e:
                leaving.append(e)
            finally:
                self.env = here
        self.next_on_yield = on_yield
        try:
            self.call(c.fn, c.args, c.kwargs)
        finally:
            self.next_on_yield = None
        if not seen:
            raise Unsupported("a context manager that does not yield")
        if leaving:
            raise leaving[0]

    def ctx_enter(self, c):
        m = self._ctx(c, "__enter__")
        return m(self, [c], {}) if m is not None else c

    def ctx_exit(self, c):
        m = self._ctx(c, "__exit__")
        if m is not None:
            m(self, [c], {})

    def _ctx(self, c, name):
        cc = self._cont(c)
        if isinstance(cc, (VObj, VInst)):
            return self.models.get((cc.cls, name))
        if isinstance(cc, Sym) and isinstance(cc.ty, V.TEnt):
            return cc.ty.methods.get(name)
        raise Unsupported(f"context manager {c!r}")

    def st_FunctionDef(self, n):
        dflt = [self.ev(d) for d in n.args.defaults]
        kwd = {a.arg: self.ev(d) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults)
               if d is not None}
        c = Closure(n, None, None, n.name, dflt, kwd)
        c.env = self.env
        v = c
        for d in reversed(n.decorator_list):
            v = self.call(self.ev(d), [v], {})
        self.bind(n.name, v)

    def st_Delete(self, n):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                b, i = self.ev(t.value), self.ev(t.slice)
                c = self._cont(b)
                if isinstance(c, VDict):
                    self.missing(KeyError, self.dict_dom(c, i))
                    self.dict_op(b, DOp("del", [], V.TRUE, i))
                    continue
            raise Unsupported("del")

    def st_For(self, n):
        it = self.ev(n.iter)
        spec = self.loop_spec(n)
        if spec is not None:
            self.for_with_spec(n, it, spec)
            return
        pieces = self.iter_pieces(it)

        def one(v):
            self.assign(n.target, v)
            self.block(n.body)
        try:
            self.loop(pieces, one)
        except Brk:
            return
        self.block(n.orelse)

    def loop_spec(self, n):
        c = self.loop_specs.get(self._fn_qual())
        if not c:
            return None
        k = self.source.loop_no.get(id(n))
        return c.get(k)

    def _fn_qual(self):
        e = self.env
        while e.is_comp:
            e = e.parent
        return e.qual

    def st_While(self, n):
        spec = self.loop_spec(n)
        if spec is None:
            raise Unsupported("while loop without an invariant")
        self.while_with_spec(n, spec)

    # ------------------------------------------------ loops with sidecar invariants
    def _assigned(self, body):
        out = set()
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
                if isinstance(x, ast.ExceptHandler) and x.name:
                    out.add(x.name)
        return out

    def havoc_loop(self, n, spec):
        """arbitrary state at the loop head: assigned variables and declared cells"""
        for nm in sorted(self._assigned(n.body)):
            fr = self.st.heap[self.env.frame.id]
            ty = spec.types.get(nm)
            if ty is None:
                p = Poison(nm, None)
                p.ty = None
                self.set_var(self.env.frame, nm, p)
                if nm in fr.vars and nm not in spec.types:
                    pass
            else:
                v = self.make(ty, f"h_{nm}")
                if isinstance(ty, (V.TSeq, V.TSet, V.TDict)):
                    v = self.alloc(v)
                self.set_var(self.env.frame, nm, v)
        for nm, ty in spec.cells.items():
            ref = nm(self) if callable(nm) else self.lookup(nm)
            if ref is None:
                continue
            if not isinstance(ref, Ref):
                raise Unsupported(f"loop cell {nm}")
            v = self._havoc_as(ty, f"h_{nm if isinstance(nm, str) else 'cell'}")
            was = self._cont(ref)
            if isinstance(v, VDict) and isinstance(was, VDict) and isinstance(was.kind, tuple):
                v = VDict(v.kty, v.vty, v.base, list(v.ops), was.kind)  # still a defaultdict
            self.set_content(ref, v)

    def _havoc_as(self, ty, nm):
        return self.make(ty, nm)

    def _cells_of(self, spec):
        ids = set()
        for nm in spec.cells:
            ref = nm(self) if callable(nm) else self.lookup(nm)
            if ref is not None:
                ids.add(ref.id)
        return ids

    def check_inv(self, spec, tag, old, extra=None):
        for nm, f in _named(spec.inv(self, old, *(extra or [])), "inv"):
            self.oblige(f"{self._short()} loop {spec.name} invariant {nm} ({tag})", f, "inv")

    def assume_inv(self, spec, old, extra=None):
        for nm, f in _named(spec.inv(self, old, *(extra or [])), "inv"):
            self.fact(f)

    def _short(self):
        return self._fn_qual().split(":")[-1]

    def while_with_spec(self, n, spec):
        old = self.st.copy()
        self.check_inv(spec, "entry", old)
        before = dict(self.st.heap)
        self.havoc_loop(n, spec)
        self.assume_inv(spec, old)
        allowed = self._cells_of(spec)
        head = dict(self.st.heap)
        t = self.truth(self.ev(n.test))
        body_run = self.decide(t, prune=True)
        if not body_run:
            self.block(n.orelse)
            return
        try:
            self.block(n.body)
        except Cnt:
            pass
        except Brk:
            return
        self._frame_check(head, allowed)
        self.check_inv(spec, "preserved", old)
        raise Infeasible()

    def _frame_check(self, head, allowed):
        for i, c in head.items():
            if i in allowed or isinstance(c, Frame):
                continue
            if self.st.heap[i] is not c:
                raise Unsupported("loop body modifies a cell its invariant does not declare")

    def for_with_spec(self, n, it, spec):
        """for over a set / sequence with a ghost 'done' set or index"""
        if isinstance(it, SymOpt):
            self.oblige("iteration over a value that is not None", Not(it.isnone))
            it = it.val
        c = self._cont(it)
        if isinstance(c, Sym) and isinstance(c.ty, V.TEnt) and c.ty.iter_ is not None:
            it = c = c.ty.iter_(self, c)
        old = self.st.copy()
        if spec.done == "index" or not spec.done and isinstance(c, VSeq):
            zero = Sym(V.INT, z3.IntVal(0))
            self.check_inv(spec, "entry", old, [zero])
            self.havoc_loop(n, spec)
            i = Sym(V.INT, self.fresh("i", z3.IntSort()))
            self.fact(i.t >= 0)
            self.assume_inv(spec, old, [i])
            allowed = self._cells_of(spec)
            head = dict(self.st.heap)
            cur = self._cont(it)
            ln = V.term(self.seq_len(cur), V.INT)
            self.fact(i.t <= ln)
            if not self.decide(i.t < ln):
                self.block(n.orelse)
                return
            v = self._seq_at_fork(cur, i)
            try:
                self.assign(n.target, v)
                self.block(n.body)
            except Cnt:
                pass
            except Brk:
                return
            self._frame_check(head, allowed)
            self.check_inv(spec, "preserved", old, [Sym(V.INT, i.t + 1)])
            # the position never passes the end
            ln2 = V.term(self.seq_len(self._cont(it)), V.INT)
            self.oblige(f"{self._short()} loop {spec.name} index in range", i.t + 1 <= ln2, "inv")
            raise Infeasible()
        pieces = self.iter_pieces(it)
        if not pieces:
            self.block(n.orelse)
            return
        (g,) = pieces
        assert isinstance(g, Gen) and len(g.sub) == 1 and isinstance(g.sub[0], Elem)
        ety = self.ty_of(g.sub[0].v) if spec.done != "keys" else None
        gbs, e, pair = list(g.binders), g.sub[0].v, None
        if spec.key is not None:
            y, bs = self.placeholder(spec.key)
            if [b.sort() for b in bs] != [b.sort() for b in gbs]:
                raise Unsupported("loop over something else than what is keyed as declared")
            pair, e, ety = e, V.subst(y, list(zip(bs, gbs))), spec.key
        elif spec.done == "keys":
            # items or keys of a dict: the done set holds the keys
            def is_key(x):
                ls = self.ty_of(x).leaves(x)
                return len(ls) == len(gbs) and all(a.eq(b) for a, b in zip(ls, gbs))
            if isinstance(e, VTup) and is_key(e.items[0]):
                pair, e = e, e.items[0]
            elif not is_key(e):
                raise Unsupported("loop over something other than items of a dict")
            ety = self.ty_of(e)
        lead = ety.leaves(e)[:len(gbs)]
        once = len(lead) == len(gbs) and all(a.eq(b) for a, b in zip(lead, gbs))

        def src(y):
            """y is an element: each comes once where the element determines the binders"""
            if not once:
                return Exists(gbs, And(to_z3b(g.guard), *[
                    a == b for a, b in zip(ety.leaves(e), ety.leaves(y))]))
            sub = list(zip(gbs, ety.leaves(y)))
            return And(z3.substitute(to_z3b(g.guard), *sub), *[
                z3.substitute(a, *sub) == b for a, b in list(
                    zip(ety.leaves(e), ety.leaves(y)))[len(gbs):]])
        empty = VSet(ety)
        self.check_inv(spec, "entry", old, [empty])
        self.havoc_loop(n, spec)
        D = V.TSet(ety).make(self.fresh_name("done"), list(self.st.binders))
        y, bs = self.placeholder(ety)
        self.fact(ForAll(bs, Implies(self.set_mem(D, y), src(y))))
        self.assume_inv(spec, old, [D])
        allowed = self._cells_of(spec)
        head = dict(self.st.heap)
        more = self.fresh("more", z3.BoolSort())
        if not self.decide(more, prune=False):
            self.fact(ForAll(bs, Implies(src(y), self.set_mem(D, y))))
            self.block(n.orelse)
            return
        v = self.make(ety, "cur")
        self.fact(And(src(v), Not(self.set_mem(D, v)) if once else V.TRUE))
        try:
            self.assign(n.target, v if pair is None else V.subst(
                pair, list(zip(gbs, ety.leaves(v)))))
            self.block(n.body)
        except Cnt:
            pass
        except Brk:
            return
        self._frame_check(head, allowed)
        D2 = VSet(ety, D.base, [("add", (Elem(v),))])
        self.check_inv(spec, "preserved", old, [D2])
        raise Infeasible()

    # builtin container methods are in models.py
    def method(self, v, name):
        from pydv import models
        return models.method(self, v, name)


class _Super(Value):
    def __init__(self, it, mro, self_):
        self.it, self.mro, self.self_ = it, mro, self_


def _named(x, dflt):
    if x is None:
        return []
    if isinstance(x, dict):
        return list(x.items())
    if isinstance(x, (list, tuple)):
        return [(f"{dflt}{i}", f) for i, f in enumerate(x)]
    return [(dflt, x)]


def _weak(t):
    """type with unknown parts"""
    if t is None:
        return True
    if isinstance(t, (V.TSet, V.TSeq)):
        return t.elem is None or _weak(t.elem)
    if isinstance(t, V.TDict):
        return t.k is None or t.v is None or _weak(t.v)
    return False


def _unk(name):
    raise Unsupported(f"value of unknown type read from {name}")


def _suffix_terms(s, out):
    if s[0] == "seq":
        pieces_terms(s[1], out)
        for o in s[2]:
            dop_terms(o, out)
    elif s[0] == "set":
        for _, p in s[1]:
            pieces_terms(p, out)
    else:
        for o in s[1]:
            dop_terms(o, out)


def _is_hv(x, name):
    return isinstance(x, Sym) and z3.is_app(x.t) and x.t.decl().name() == name


def _find_hv(t, name):
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_app(x) and x.decl().name() == name:
            return x
        todo.extend(x.children())
    return None
