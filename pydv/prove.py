"""Verification of a contract against the real function, and discharge of the obligations."""
from __future__ import annotations

import concurrent.futures as cf
import importlib
import json
import math
import os
import pickle
import shutil
import struct
import subprocess
import sys
import tempfile
import time

import pydv  # noqa: F401
import z3

from pydv import values as V
from pydv.interp import Contract, Interp, LoopSpec, Source, _named, loop_shape
from pydv.models import builtin_models
from pydv.state import Infeasible, Obl, PyRaise, St
from pydv.values import (And, ForAll, Frame, Implies, Not, Or, Ref, Sym, Unsupported, VInst, VObj, VSeq,
                         VSet, VDict, VTup, to_z3b)

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
FILES = [os.path.join(REPO, "subsetter", f) for f in
         ("solver.py", "metadata.py", "planner.py", "plan_model.py", "common.py", "filters.py",
          "config_model.py", "sampler.py", "__main__.py")]

_SRC = None


def source():
    global _SRC
    if _SRC is None:
        _SRC = Source([f for f in FILES if os.path.exists(f)])
    return _SRC


def resolve(target):
    mod, qual = target.split(":")
    obj = importlib.import_module(mod)
    for p in qual.split("."):
        obj = obj.__dict__[p] if isinstance(obj, type) else getattr(obj, p)
        if isinstance(obj, (classmethod, staticmethod)):
            obj = obj.__func__
    return obj


class Args:
    """Arguments of the function under contract, as the contract sees them."""

    def __init__(self, d):
        self.__dict__.update(d)


class Result:
    def __init__(self, contract):
        self.contract = contract
        self.obls = []
        self.exits = []
        self.unsupported = None
        self.interp = None
        self.axioms = []
        self.wall = 0.0
        self.vacuous = None
        self.reshaped = ()


def load_params(it, c, make=None):
    out = {}
    for nm, ty in c.params.items():
        out[nm] = make_param(it, nm, ty)
    return out


def make_param(it, nm, ty):
    if callable(ty) and not isinstance(ty, (V.Ty, type)):
        return ty(it)
    if isinstance(ty, V.TObj):
        fields = {f: make_param(it, f"{nm}_{f}", t) for f, t in ty.fields.items()}
        return it.alloc(VInst(ty.cls, fields))
    if isinstance(ty, V.Ty):
        v = it.make(ty, f"p_{nm}")
        if isinstance(ty, (V.TSeq, V.TSet, V.TDict)):
            if isinstance(ty, V.TSeq) and ty.kind != "list":
                return v
            return it.alloc(v)
        return v
    return ty


def shapes_of(files):
    """function -> its loops (a nested function by its name alone)"""
    import ast
    out = {}

    def walk(node, prefix, nested):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                key = c.name if nested else prefix + c.name
                out.setdefault(key, set()).add(loop_shape(c))
                walk(c, "", True)
            elif isinstance(c, ast.ClassDef):
                walk(c, prefix + c.name + ".", nested)
            else:
                walk(c, prefix, nested)
    for path in files:
        mod = "subsetter." + os.path.basename(path)[:-3]
        walk(ast.parse(open(path, encoding="utf-8").read()), mod + ":", False)
    return {k: sorted(v) for k, v in sorted(out.items())}


_SHAPES = None


def known_shapes():
    """the loops the invariants were written for"""
    global _SHAPES
    if _SHAPES is None:
        path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                            "contracts", "shapes.json")
        _SHAPES = json.load(open(path)) if os.path.exists(path) else {}
    return _SHAPES


def new_interp(contract, contracts, models):
    m = builtin_models()
    m.update(models or {})
    m.update(contract.models)
    it = Interp(source(), contracts, m)
    it.loop_specs = {}
    it.shapes = known_shapes()
    for q, c in contracts.items():
        if c.loops:
            it.loop_specs[q] = c.loops
    it.loop_specs[contract.target.split("#")[0]] = contract.loops
    return it


def verify(contract, contracts=None, models=None, axioms=None):
    """Generate the obligations of one function."""
    t0 = time.time()
    limit = float(os.environ.get("PYDV_FN_SECONDS", "90"))
    V.COUNTER[0] = 0
    res = Result(contract)
    contracts = contracts or {}
    it = new_interp(contract, contracts, models)
    res.interp = it
    it.current = contract
    it.give_up = t0 + limit
    try:
        fn = resolve(contract.target.split("#")[0])
        if contract.setup is not None:
            args = contract.setup(it)
        else:
            args = load_params(it, contract)
        a = Args(args)
        it.args = a
        if contract.requires is not None:
            for nm, g in _named(contract.requires(it, a), "requires"):
                it.fact(g)
        it.entry = it.st.copy()
        call_args = {k: v for k, v in args.items() if not k.startswith("_")}
        pos = call_args.pop("*args", [])

        def run():
            if contract.run is not None:
                return contract.run(it, a, fn)
            return it.call_py(fn, list(pos), call_args)
        paths = it.explore(run)
        nexit = 0
        for st, kind, val in paths:
            it.st = st
            it.decs.append(_NoDec())
            if contract.modular:
                frame_check(it, contract, a)
            try:
                if kind in ("val", "ret"):
                    nexit += 1
                    res.exits.append(("return", it.hyps()))
                    if contract.ensures is not None:
                        for nm, g in _named(contract.ensures(it, a, val), "ensures"):
                            check(it, f"ensures {nm}", g)
                elif kind == "raise":
                    cls = val.cls
                    key = next((k for k in contract.raises if issubclass(cls, k)), None)
                    res.exits.append((cls.__name__, it.hyps()))
                    if key is None:
                        check(it, f"does not raise {cls.__name__}", V.FALSE)
                    elif contract.raises[key] is not None:
                        for nm, g in _named(contract.raises[key](it, a, val), "raises"):
                            check(it, f"raises {cls.__name__}: {nm}", g)
                else:
                    raise Unsupported(f"path ends with {kind}")
            except Infeasible:
                pass
            finally:
                it.decs.pop()
        if not paths and not any(o for o in it.obls):
            raise Unsupported("no path through the function")
    except Unsupported as e:
        res.unsupported = str(e)
    except (NotImplementedError, AssertionError, AttributeError, KeyError, IndexError, TypeError,
            RecursionError, z3.Z3Exception, StopIteration, ValueError) as e:
        if os.environ.get("PYDV_DEBUG"):
            raise
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res.unsupported = f"engine: {type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}"
    except PyRaise as e:
        res.unsupported = f"exception escaped: {e}"
    res.reshaped = sorted(it.reshaped)
    ax = list(it.extra_axioms)
    for x in (axioms or []):
        ax.extend(x() if callable(x) else [x])
    res.axioms = ax
    res.obls = split(it.obls)
    for o in res.obls:
        o.name = f"{contract.name}: {o.name}"
    res.wall = time.time() - t0
    return res


def frame_check(it, contract, a):
    """callers assume that nothing but what the contract declares is modified"""
    ok = {ref.id for ref, _ in (contract.modifies(it, a) if contract.modifies else ())}
    for i, c in it.entry.heap.items():
        if i not in ok and not isinstance(c, Frame) and it.st.heap.get(i) is not c:
            raise Unsupported("modifies something its contract does not declare")


class _NoDec:
    """Contract clauses must not branch."""
    taken, alt, pos = [], [], 0

    def __getattr__(self, n):
        raise Unsupported("a contract clause branches")


def check(it, name, goal):
    it._rec(Obl(name, it.hyps(), to_z3b(goal), "post"))


def split(obls):
    out = []
    for o in obls:
        gs = _conj(o.goal)
        for k, g in enumerate(gs):
            p = Obl(o.name if len(gs) == 1 else f"{o.name} [{k}]", o.pc, g, o.kind)
            out.append(p)
    return out


def _conj(g):
    if z3.is_and(g):
        return [y for x in g.children() for y in _conj(x)]
    if z3.is_quantifier(g) and g.is_forall():
        vs = [z3.Const(f"sk!{V.uid()}", g.var_sort(i)) for i in range(g.num_vars())]
        body = z3.substitute_vars(g.body(), *reversed(vs))
        return _conj(body)
    if z3.is_implies(g):
        a, b = g.children()
        bs = _conj(b)
        if len(bs) > 1 or not bs[0].eq(b):
            return [Implies(a, x) for x in bs]
    return [g]


# ------------------------------------------------------------------ discharge
def relevant_axioms(res_axioms, fs):
    ax = list(res_axioms)
    sorts = set()
    for f in fs:
        _sorts(f, sorts)
    if "Val" in sorts:
        ax.extend(V.val_facts())
    ax.extend(V.lit_facts())
    return ax


def _sorts(t, out, seen=None):
    seen = set() if seen is None else seen
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            for i in range(x.num_vars()):
                out.add(x.var_sort(i).name())
            todo.append(x.body())
        else:
            out.add(x.sort().name())
            todo.extend(x.children())


def to_smt(hyps, goal, axioms):
    s = z3.Solver()
    seen = set()
    for f in list(axioms) + list(hyps):
        if f.get_id() in seen:
            continue
        seen.add(f.get_id())
        s.add(f)
    s.add(z3.Not(goal) if goal is not None else z3.BoolVal(True))
    return s.to_smt2()


def _run(cmd, text, timeout):
    try:
        p = subprocess.run(cmd, input=text, capture_output=True, text=True, timeout=timeout + 3)
        out = p.stdout.strip()
    except subprocess.TimeoutExpired:
        return "timeout", ""
    first = next((ln.strip() for ln in out.splitlines()
                  if ln.strip() in ("sat", "unsat", "unknown", "timeout")), "unknown")
    return first, out


def engines(timeout):
    t = int(timeout)
    return [
        ("z3", ["z3-new", "-in", f"-T:{t}"]),
        ("z3-seed", ["z3-new", "-in", f"-T:{t}", "smt.random_seed=7", "smt.arith.solver=2"]),
        ("z3-ematch", ["z3-new", "-in", f"-T:{t}", "smt.auto_config=false", "smt.mbqi=false"]),
        ("cvc5", ["cvc5", "--lang=smt2", f"--tlimit={t * 1000}", "-q"]),
        ("cvc5-fs", ["cvc5", "--lang=smt2", f"--tlimit={t * 1000}", "-q",
                     "--full-saturate-quant"]),
        ("z3-4.8", ["z3", "-in", f"-T:{t}"]),
    ]


def discharge_one(text, t1, t2, deadline=None):
    """(status, engine, seconds, detail)"""
    t0 = time.time()
    log = []
    if deadline is not None and t0 > deadline:
        return "unknown", "", 0.0, [("not attempted", "deadline")]
    st, out = _run(["z3-new", "-in", f"-T:{t1}"], text, t1)
    log.append(("z3", st))
    if st == "unsat":
        return "proved", "z3", time.time() - t0, log
    if st == "sat":
        return "failed", "z3", time.time() - t0, log
    text_c = "(set-logic ALL)\n" + text
    # the engines side by side: the first to refute the negated goal decides
    procs = []
    with tempfile.TemporaryDirectory(prefix="pydv_") as tmp:
        for k, (nm, cmd) in enumerate(engines(t2)):
            path = os.path.join(tmp, f"{k}.smt2")
            with open(path, "w") as f:
                f.write(text_c if nm.startswith("cvc5") else text)
            procs.append((nm, subprocess.Popen(cmd, stdin=open(path), stdout=open(
                path + ".out", "w"), stderr=subprocess.DEVNULL), path + ".out"))
        end = time.time() + t2 + 3
        if deadline is not None:
            end = min(end, max(deadline, time.time() + 2))
        found = None
        while procs and found is None:
            late = time.time() > end
            for x in list(procs):
                nm, p, path = x
                if p.poll() is None and not late:
                    continue
                procs.remove(x)
                st = "timeout" if p.poll() is None else next((ln.strip() for ln in open(
                    path) if ln.strip() in ("sat", "unsat", "unknown", "timeout")), "unknown")
                if p.poll() is None:
                    p.kill()
                    p.wait()
                log.append((nm, st))
                if st == "unsat":
                    found = ("proved", nm)
                    break
                if st == "sat" and nm == "z3":
                    found = ("failed", nm)
                    break
            else:
                time.sleep(0.02)
        for nm, p, path in procs:
            p.kill()
            p.wait()
    if found:
        return found[0], found[1], time.time() - t0, log
    return "unknown", "", time.time() - t0, log


def discharge(results, t1=3, t2=12, workers=8, deadline=None):
    """decide every obligation; child processes write the queries and run the solvers"""
    uniq = {}
    for r in results:
        for o in r.obls:
            if V.is_true(o.goal):
                o.status, o.detail = "proved", {"engine": "trivial", "s": 0.0}
                continue
            key = (id(r.axioms), o.goal.get_id(), tuple(sorted({f.get_id() for f in o.pc})))
            uniq.setdefault(key, (r, []))[1].append(o)
    jobs = list(uniq.values())

    def one(j):
        r, os_ = jobs[j]
        o = os_[0]
        text = to_smt(o.pc, o.goal, relevant_axioms(r.axioms, o.pc + [o.goal]))
        tt2 = max([getattr(x, "timeout", 0) or 0 for x in os_] + [t2])
        st, eng, s, log = discharge_one(text, t1, tt2, deadline)
        return j, st, eng, s, log, "" if st == "proved" else text

    def take(res):
        j, st, eng, s, log, text = res
        for o in jobs[j][1]:
            o.status = st
            o.detail = {"engine": eng, "s": round(s, 3), "log": log}
            if st != "proved":
                o.smt = text
    done = set()
    for res in fork_map(one, len(jobs), workers):
        take(res)
        done.add(res[0])
    for j in range(len(jobs)):
        if j not in done:  # a child was ended
            take(one(j))
    return results


def fork_map(fn, n, workers):
    """fn(0..n-1) in forked children, work taken from a shared counter"""
    if not n:
        return []
    rd, wr = os.pipe()
    n = min(n, 8192)  # the rest is done by the caller
    os.write(wr, b"".join(struct.pack("i", j) for j in range(n)))
    os.close(wr)
    tmp = tempfile.mkdtemp(prefix="pydv_")
    pids = []
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(min(workers, n)):
        pid = os.fork()
        if pid == 0:
            try:
                with open(os.path.join(tmp, str(w)), "wb") as f:
                    while True:
                        b = os.read(rd, 4)
                        if len(b) < 4:
                            break
                        pickle.dump(fn(struct.unpack("i", b)[0]), f)
                        f.flush()
            except BaseException:
                os._exit(1)
            os._exit(0)
        pids.append(pid)
    os.close(rd)
    for pid in pids:
        os.waitpid(pid, 0)
    out = []
    for w in range(len(pids)):
        path = os.path.join(tmp, str(w))
        if not os.path.exists(path):
            continue
        with open(path, "rb") as f:
            while True:
                try:
                    out.append(pickle.load(f))
                except Exception:
                    break
    shutil.rmtree(tmp, ignore_errors=True)
    return out


def vacuity(results, t=2, workers=8):
    """Each function must have an exit whose hypotheses are not refutable."""
    jobs = []
    for r in results:
        if r.unsupported:
            continue
        for k, (kind, hyps) in enumerate(r.exits):
            jobs.append((r, kind, to_smt(hyps, None, relevant_axioms(r.axioms, hyps))))
    with cf.ThreadPoolExecutor(workers) as ex:
        out = list(ex.map(lambda j: (j[0], j[1], _run(["z3-new", "-in", f"-T:{t}"], j[2], t)[0]),
                          jobs))
    live = {}
    for r, kind, st in out:
        live.setdefault(id(r), {}).setdefault(kind, []).append(st != "unsat")
    for r in results:
        if r.unsupported:
            continue
        kinds = live.get(id(r), {})
        bad = [k for k, v in kinds.items() if not any(v)]
        want = r.contract.covers
        missing = [k for k in want if k not in kinds or k in bad]
        r.vacuous = missing or None
        r.live = {k: sum(v) for k, v in kinds.items()}


def symbols(f):
    """names of the uninterpreted symbols of a formula"""
    out, seen, todo = set(), set(), [f]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())
    return out


def related(hyps, goal, mark):
    """the hypotheses that have much to do with the goal, by their shared symbols (after MePo)"""
    syms = [symbols(h) for h in hyps]
    freq = {}
    for ss in syms:
        for x in ss:
            freq[x] = freq.get(x, 0) + 1
    weight = {x: 1 + 2 / math.log2(n + 1) for x, n in freq.items()}
    known, chosen, rest, p = set(symbols(goal)), set(), set(range(len(hyps))), mark
    while True:
        new = set()
        for k in rest:
            if not syms[k]:
                new.add(k)
                continue
            r = sum(weight[x] for x in syms[k] & known)
            if r / (r + len(syms[k] - known)) >= p:
                new.add(k)
        if not new:
            return [hyps[k] for k in sorted(chosen)]
        chosen |= new
        rest -= new
        for k in new:
            known |= syms[k]
        p += (1 - p) / 2.4


def fewer(r, o):
    """queries for the obligation with some of its hypotheses left out"""
    out = []
    for mark in (0.9, 0.75, 0.6, 0.45):
        hs = related(o.pc, o.goal, mark)
        if len(hs) < len(o.pc) and len(hs) not in [n for n, _ in out]:
            out.append((len(hs), to_smt(hs, o.goal, relevant_axioms(r.axioms, hs + [o.goal]))))
    return [t for _, t in out]


def rediscover(results, obls, t2, workers=8):
    """a second, longer attempt for obligations no engine decided in time: with fewer hypotheses,
    which is as good when it succeeds, and with all of them"""
    jobs = []
    for r in results:
        for o in r.obls:
            if any(o is x for x in obls):
                jobs.append((o, fewer(r, o)))

    def one(job):
        o, texts = job
        log = []
        for t in texts:
            st, eng, s, lg = discharge_one(t, 3, 6)
            log += [("fewer " + n, x) for n, x in lg]
            if st == "proved":
                return st, eng, s, log
        st, eng, s, lg = discharge_one(o.smt, 3, t2)
        return st, eng, s, log + lg
    with cf.ThreadPoolExecutor(workers) as ex:
        outs = list(ex.map(one, jobs))
    for (o, _), (st, eng, s, log) in zip(jobs, outs):
        o.status = st
        o.detail = {"engine": eng, "s": round(s, 3), "log": o.detail["log"] + log}
    return results
