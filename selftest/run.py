"""Differential test of the engine: every toy function is executed by CPython and by the engine
(from arguments that are unknown except for facts pinning them to the same values).  The engine
must never prove that the outcome differs from the one CPython produced (soundness); how often it
proves that it is the same is reported (precision)."""
import copy
import importlib.util
import os
import random
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
import pydv  # noqa: E402,F401
import z3  # noqa: E402
from pydv import prove  # noqa: E402
from pydv import values as V  # noqa: E402
from contracts.lib import (BOOL, INT, STR, Contract, TDict, TOpt, TSeq, TSet, TTup, And, Not, Or,  # noqa: E402
                           Elem, SymOpt, VTup, at, eq, forall_ty, mem, num, slen)

spec = importlib.util.spec_from_file_location("subsetter_toys", os.path.join(
    HERE, "subsetter_toys.py"))
toys = importlib.util.module_from_spec(spec)
sys.modules["subsetter_toys"] = toys
spec.loader.exec_module(toys)
prove.FILES.append(spec.origin)
TY = {"I": INT, "B": BOOL, "S": STR, "LI": TSeq(INT), "LS": TSeq(STR), "SI": TSet(INT),
      "DI": TDict(INT, INT), "OI": TOpt(INT), "LP": TSeq(TTup(INT, INT))}


def same(it, v, x):
    """the engine's value v is the Python value x"""
    if isinstance(x, tuple) and isinstance(v, VTup):
        if len(v.items) != len(x):
            return V.FALSE
        return And(*[same(it, a, b) for a, b in zip(v.items, x)])
    if isinstance(x, (list, tuple)):
        c = it._cont(v)
        return And(slen(it, v) == len(x), *[same(it, at(it, v, z3.IntVal(i)), e)
                                            for i, e in enumerate(x)])
    if isinstance(x, (set, frozenset)):
        ty = INT if not x or isinstance(next(iter(x)), int) else STR
        return forall_ty(it, ty, lambda y: mem(it, v, y) == Or(*[eq(it, y, e) for e in x]))
    if isinstance(x, dict):
        d = it._cont(v)
        ty = INT if not x or isinstance(next(iter(x)), int) else STR
        fs = [forall_ty(it, ty, lambda y: mem(it, v, y) == Or(*[eq(it, y, e) for e in x]))]
        for k, e in x.items():
            fs.append(V.to_z3b(same(it, it.dict_get(d, k), e)))
        return And(*fs)
    if x is None:
        return V.TRUE if v is None else v.isnone if isinstance(v, SymOpt) else V.FALSE
    if isinstance(v, SymOpt):
        return And(Not(v.isnone), same(it, v.val, x))
    if v is None:
        return V.FALSE
    return eq(it, v, x)


def contract(fn, types, args, outcome, claim):
    names = fn.__code__.co_varnames[:fn.__code__.co_argcount]
    kind, res = outcome

    def req(it, a):
        return {f"{n} is {x!r}": same(it, getattr(a, n), x) for n, x in zip(names, args)}

    def ens(it, a, r):
        if kind == "raise":
            return V.FALSE
        s = V.to_z3b(same(it, r, res))
        return s if claim else Not(s)
    raises = {}
    if kind == "raise" and claim:
        raises = {res: None}
    return Contract(f"subsetter_toys:{fn.__qualname__}", params={
        n: TY[t] for n, t in zip(names, types)}, requires=req, ensures=ens, raises=raises,
        name=f"{fn.__name__}{args!r}", covers=())


def some(rnd, t):
    n = rnd.randint(0, 3)
    i = lambda: rnd.randint(-2, 4)  # noqa: E731
    return {"I": i, "B": lambda: rnd.random() < 0.5, "S": lambda: "".join(
        rnd.choice("ab") for _ in range(n)), "LI": lambda: [i() for _ in range(n)],
        "LS": lambda: [rnd.choice(["a", "b", "", "ab"]) for _ in range(n)],
        "SI": lambda: {i() for _ in range(n)}, "DI": lambda: {i(): i() for _ in range(n)},
        "OI": lambda: None if rnd.random() < 0.3 else i(),
        "LP": lambda: [(i(), i()) for _ in range(n)]}[t]()


def main(argv):
    """run.py [--random N SEED] [function ...]"""
    jobs = []
    extra, rnd = 0, None
    if argv[:1] == ["--random"]:
        extra, rnd, argv = int(argv[1]), random.Random(int(argv[2])), argv[3:]
    for fn, types, arglists in toys.CASES:
        arglists = list(arglists) + [tuple(some(rnd, t) for t in types) for _ in range(extra)]
        if argv and fn.__name__ not in argv:
            continue
        for args in arglists:
            try:
                out = ("val", fn(*copy.deepcopy(args)))
            except Exception as e:  # noqa: BLE001
                out = ("raise", type(e))
            for claim in (True, False):
                jobs.append((fn, args, claim, out, prove.verify(contract(
                    fn, types, args, out, claim))))
    prove.discharge([j[4] for j in jobs], t1=2, t2=3)
    bad = right = unsup = total = 0
    for fn, args, claim, out, r in jobs:
        ok = not r.unsupported and all(o.status == "proved" for o in r.obls)
        if claim:
            total += 1
            right += ok
            unsup += bool(r.unsupported)
            if not ok:
                why = r.unsupported or [(o.name.split(": ", 1)[1], o.status) for o in r.obls
                                        if o.status != "proved"]
                print(f"   not decided: {fn.__name__}{args} -> {out[1]}: {str(why)[:150]}")
        elif ok:
            bad += 1
            print(f"UNSOUND: proved that {fn.__name__}{args} is not {out}")
    print(f"{total} runs: {right} outcomes proved, {unsup} outside the engine's reach, "
          f"{bad} wrong outcomes proved")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
