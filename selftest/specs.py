"""Contracts with loop specifications and callees on toy functions: true ones are proved, false
ones are not."""
import importlib.util
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
import pydv  # noqa: E402,F401
from pydv import prove  # noqa: E402
from pydv import values as V  # noqa: E402
from contracts.lib import (INT, Contract, LoopSpec, TDict, TSeq, TSet, And, Implies, Not, Or, at,  # noqa: E402
                           eq, forall_int, forall_ty, idx, mem, num, slen)

TEXT = '''
def upto(n):
    i = 0
    while i < n:
        i += 1
    return i


def total(xs):
    s = 0
    for x in xs:
        s += 1
    return s


def copied(s):
    out = set()
    for x in s:
        out.add(x)
    return out


def biggest(xs):
    best = xs[0]
    for x in xs:
        if x > best:
            best = x
    return best


def half(x):
    return x - 1


def caller(x):
    y = half(x)
    return half(y)


def caller_loop(xs):
    out = []
    for x in xs:
        out.append(half(x))
    return out


def grow(out, x):
    out.append(x)


def uses_grow(xs):
    out = []
    for x in xs:
        grow(out, x)
    return out


def drop(d, ks):
    for k in ks:
        if k in d:
            del d[k]
    return d
'''


def inv(**fs):
    return lambda it, old, i: {k: f(it, i) for k, f in fs.items()}


def n_(it, name):
    return num(it.lookup(name))


def cases():
    A = "subsetter_specs"
    XS = {"xs": TSeq(INT)}

    def c(fn, want, name, params, loops=None, requires=None, ensures=None, table=(), **kw):
        return Contract(f"{A}:{fn}", params=params, requires=requires, ensures=ensures,
                        loops=loops or {}, name=f"{fn} {name}", covers=(), **kw), want, list(table)
    up = lambda f: {0: LoopSpec(inv=lambda it, old, *i: {"i": f(it)}, types={"i": INT})}  # noqa
    pos = lambda it, a: {"n": a.n.t >= 0}  # noqa: E731
    le = lambda it: And(n_(it, "i") <= num(it.args.n), n_(it, "i") >= 0)  # noqa: E731
    yield c("upto", True, "n", {"n": INT}, up(le), pos, lambda it, a, r: num(r) == a.n.t)
    yield c("upto", False, "no precondition", {"n": INT}, up(le), None,
            lambda it, a, r: num(r) == a.n.t)
    yield c("upto", False, "wrong claim", {"n": INT}, up(le), pos,
            lambda it, a, r: num(r) == a.n.t + 1)
    yield c("upto", False, "not preserved", {"n": INT}, up(lambda it: n_(it, "i") == 0), pos,
            lambda it, a, r: num(r) == 0)
    yield c("upto", False, "not established", {"n": INT}, up(lambda it: n_(it, "i") > num(
        it.args.n)), pos, lambda it, a, r: V.FALSE)
    cnt = {0: LoopSpec(done="index", types={"s": INT}, inv=lambda it, old, i: {
        "s": n_(it, "s") == num(i)})}
    yield c("total", True, "length", XS, cnt, None, lambda it, a, r: num(r) == slen(it, a.xs))
    yield c("total", False, "length + 1", XS, cnt, None,
            lambda it, a, r: num(r) == slen(it, a.xs) + 1)
    yield c("total", False, "off by one", XS, {0: LoopSpec(done="index", types={"s": INT}, inv=(
        lambda it, old, i: {"s": n_(it, "s") == num(i) + 1}))}, None,
        lambda it, a, r: num(r) == slen(it, a.xs) + 1)
    S = {"s": TSet(INT)}
    same = lambda it, a, r: forall_ty(it, INT, lambda y: mem(it, r, y) == mem(it, a.s, y))  # noqa
    yield c("copied", True, "same", S, None, None, same)
    yield c("copied", False, "empty", S, None, None, lambda it, a, r: forall_ty(
        it, INT, lambda y: Not(mem(it, r, y))))
    spec = lambda f: {0: LoopSpec(done="set", cells={"out": TSet(INT)}, inv=(  # noqa: E731
        lambda it, old, d: {"out": forall_ty(it, INT, lambda y: f(
            it, mem(it, it.lookup("out"), y), mem(it, d, y)))}))}
    yield c("copied", True, "same, with an invariant", S, spec(lambda it, o, d: o == d), None, same)
    yield c("copied", False, "wrong invariant", S, spec(lambda it, o, d: o == Not(d)), None,
            lambda it, a, r: forall_ty(it, INT, lambda y: Not(mem(it, r, y))))
    best = {0: LoopSpec(done="index", types={"best": INT}, inv=lambda it, old, i: {
        "best": forall_int(it, lambda k: num(at(it, it.args.xs, k)) <= n_(it, "best"), 0, num(i))})}
    some = lambda it, a: {"not empty": slen(it, a.xs) > 0}  # noqa: E731
    top = lambda it, a, r: idx(it, lambda k: num(at(it, a.xs, k)) <= num(r), a.xs)  # noqa: E731
    yield c("biggest", True, "upper bound", XS, best, some, top)
    yield c("biggest", False, "may be empty", XS, best, None, top)
    yield c("biggest", False, "strict", XS, best, some, lambda it, a, r: idx(
        it, lambda k: num(at(it, a.xs, k)) < num(r), a.xs))
    half = Contract(f"{A}:half", params={"x": INT}, requires=lambda it, a: {
        "positive": num(a.x) > 0}, ensures=lambda it, a, r: {"not negative": num(r) >= 0},
        returns=INT, modular=True)
    yield half, True, []
    yield c("caller", False, "precondition of the second call", {"x": INT}, None, lambda it, a: {
        "x": num(a.x) > 5}, lambda it, a, r: num(r) >= 0, [half])
    loose = Contract(f"{A}:half", params={"x": INT}, ensures=lambda it, a, r: {
        "less": num(r) < num(a.x)}, returns=INT, modular=True)
    yield loose, True, []
    yield c("caller", True, "by contract", {"x": INT}, None, None,
            lambda it, a, r: num(r) <= num(a.x) - 2, [loose])
    yield c("caller", False, "more than the contract says", {"x": INT}, None, None,
            lambda it, a, r: num(r) == num(a.x) - 2, [loose])
    yield c("caller_loop", False, "precondition of each call", XS, None, None,
            lambda it, a, r: slen(it, r) == slen(it, a.xs), [half])
    yield c("caller_loop", True, "all positive", XS, None, lambda it, a: {"positive": idx(
        it, lambda k: num(at(it, a.xs, k)) > 0, a.xs)}, lambda it, a, r: And(
        slen(it, r) == slen(it, a.xs), idx(it, lambda k: num(at(it, r, k)) >= 0, r)), [half])
    # a contract that says nothing of the list it changes is not accepted
    silent = Contract(f"{A}:grow", params={"out": TSeq(INT), "x": INT}, modular=True,
                      ensures=lambda it, a, r: V.TRUE)
    yield silent, False, []
    keep = Contract(f"{A}:grow", params={"out": TSeq(INT), "x": INT}, modular=True, modifies=(
        lambda it, a: [(a.out, TSeq(INT))]), ensures=lambda it, a, r: {"longer": slen(
            it, a.out) > 0})
    yield keep, True, []
    yield c("uses_grow", False, "still empty", XS, None, None,
            lambda it, a, r: slen(it, r) == 0, [keep])
    D = {"d": TDict(INT, INT), "ks": TSeq(INT)}
    yield c("drop", True, "gone", D, {0: LoopSpec(done="index", cells={"d": TDict(INT, INT)}, inv=(
        lambda it, old, i: {"d": forall_int(it, lambda k: Not(mem(it, it.lookup("d"), at(
            it, it.args.ks, k))), 0, num(i))}))}, None, lambda it, a, r: idx(
        it, lambda k: Not(mem(it, r, at(it, a.ks, k))), a.ks))
    yield c("drop", False, "empty", D, {0: LoopSpec(done="index", cells={"d": TDict(INT, INT)},
            inv=lambda it, old, i: {"d": forall_int(it, lambda k: Not(mem(it, it.lookup(
                "d"), at(it, it.args.ks, k))), 0, num(i))})}, None, lambda it, a, r: forall_ty(
        it, INT, lambda y: Not(mem(it, r, y))))


def main():
    import tempfile
    with tempfile.NamedTemporaryFile("w", suffix=".py", delete=False) as f:
        f.write(TEXT)
    try:
        spec = importlib.util.spec_from_file_location("subsetter_specs", f.name)
        m = importlib.util.module_from_spec(spec)
        sys.modules["subsetter_specs"] = m
        spec.loader.exec_module(m)
        prove.FILES.append(f.name)
        jobs = [(c, want, prove.verify(c, contracts={x.target: x for x in table}))
                for c, want, table in cases()]
        prove.discharge([j[2] for j in jobs], t1=3, t2=5)
    finally:
        os.unlink(f.name)
    bad = 0
    for c, want, r in jobs:
        ok = not r.unsupported and all(o.status == "proved" for o in r.obls)
        if ok != want:
            bad += 1
            print("WRONG:", c.name, "proved" if ok else "not proved", r.unsupported or [
                (o.name, o.status) for o in r.obls if o.status != "proved"])
    print(f"{len(jobs)} contracts: {sum(w for _, w, _ in jobs)} true and proved, "
          f"{sum(not w for _, w, _ in jobs)} false and not proved, {bad} wrong")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
