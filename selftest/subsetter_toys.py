"""Small functions the engine runs symbolically and CPython runs for real (see run.py)."""
from __future__ import annotations

import collections
import contextlib
from typing import Dict, List, Optional, Set, Tuple

# each entry of CASES: (function, parameter types, list of argument tuples)
CASES = []


def case(types, *args):
    def deco(f):
        CASES.append((f, types, args))
        return f
    return deco


L, I, B, S, LS, SI, DI, DS, OI, LP = "LI", "I", "B", "S", "LS", "SI", "DI", "DS", "OI", "LP"


@case([L], ([],), ([3],), ([1, 2, 3],), ([5, 5, 2, 5],))
def squares(xs):
    return [x * x for x in xs]


@case([L, I], ([1, 2, 3], 2), ([], 0), ([4, 4], 4))
def keep_above(xs, k):
    out = []
    for x in xs:
        if x > k:
            out.append(x)
    return out


@case([L, I], ([1, 2, 3], 2), ([], 0), ([4, 4], 4), ([7, 1], 1))
def first_index(xs, k):
    for i, x in enumerate(xs):
        if x == k:
            return i
    return -1


@case([L, I], ([1, 2, 3], 2), ([], 0), ([4, 4], 4))
def for_else(xs, k):
    for x in xs:
        if x == k:
            break
    else:
        return "none"
    return "some"


@case([L], ([1, 2, 3],), ([],), ([3, -1, 4],))
def last_seen(xs):
    last = 0
    for x in xs:
        last = x
    return last


@case([L], ([1, 2, 2],), ([],), ([3, 3],))
def distinct(xs):
    return set(xs)


@case([L], ([1, 2, 2],), ([],), ([3, 3],))
def seen_before(xs):
    seen = set()
    out = []
    for x in xs:
        out.append(x in seen)
        seen.add(x)
    return out


@case([L], ([1, 2, 2],), ([],), ([3, 3],), ([0, 5],))
def any_zero(xs):
    return any(x == 0 for x in xs)


@case([L], ([1, 2, 2],), ([],), ([3, 3],), ([0, 5],))
def all_positive(xs):
    return all(x > 0 for x in xs)


@case([L, L], ([1, 2], [3, 4]), ([], [1]), ([5], [6, 7]))
def zipped(xs, ys):
    return [x - y for x, y in zip(xs, ys)]


@case([L, L], ([1, 2], [3, 4]), ([], [1]), ([5], []))
def concatenated(xs, ys):
    return xs + ys


@case([L], ([1, 2, 3],), ([],), ([9],))
def reversed_list(xs):
    return list(reversed(xs))


@case([L], ([3, 1, 2],), ([],), ([9, 9],))
def in_order(xs):
    return sorted(xs)


@case([I, I], (3, 4), (0, 0), (-2, 7), (-7, 2), (7, -2))
def arithmetic(a, b):
    return (a + b, a - b, a * b, -a)


@case([I, I], (3, 4), (7, 2), (-7, 2), (7, 0), (-7, -2), (7, -2))
def division(a, b):
    return a // b


@case([I, I], (3, 4), (7, 2), (-7, 2), (7, 0))
def remainder(a, b):
    return a % b


@case([I, I], (3, 4), (4, 3), (3, 3))
def comparisons(a, b):
    return [a < b, a <= b, a == b, a != b, a > b, a >= b, 0 < a < b]


@case([OI], (None,), (0,), (5,))
def or_default(x):
    return x or 7


@case([OI], (None,), (0,), (5,))
def is_none(x):
    if x is None:
        return -1
    return x + 1


@case([OI], (None,), (0,), (5,))
def plus_one(x):
    return x + 1


@case([DI, I], ({1: 2, 3: 4}, 1), ({}, 0), ({5: 6}, 7))
def get_or_zero(d, k):
    return d.get(k, 0)


@case([DI, I], ({1: 2, 3: 4}, 1), ({}, 0), ({5: 6}, 7))
def subscript(d, k):
    return d[k]


@case([DI, I], ({1: 2, 3: 4}, 1), ({}, 0), ({5: 6}, 7))
def set_default(d, k):
    d.setdefault(k, 9)
    return d


@case([DI, I], ({1: 2, 3: 4}, 1), ({}, 0), ({5: 6}, 7))
def popped(d, k):
    v = d.pop(k, None)
    return (v, k in d)


@case([DI], ({1: 2, 3: 4},), ({},), ({5: 5},))
def inverted(d):
    return {v: k for k, v in d.items()}


@case([DI], ({1: 2, 3: 4},), ({},), ({5: 5},))
def values_above(d):
    return {v for v in d.values() if v > 3}


@case([L], ([1, 2, 2],), ([],), ([3, 4],))
def indexed(xs):
    d = {}
    for i, x in enumerate(xs):
        d[x] = i
    return d


@case([L], ([1, 2, 2],), ([],), ([3, 4],))
def first_indexed(xs):
    d = {}
    for i, x in enumerate(xs):
        d.setdefault(x, i)
    return d


@case([LP], ([(1, 2), (1, 3), (2, 4)],), ([],), ([(5, 5)],))
def grouped(ps):
    d = collections.defaultdict(set)
    for k, v in ps:
        d[k].add(v)
    return [sorted(d[k]) for k in sorted(d)]


@case([SI, SI], ({1, 2}, {2, 3}), (set(), {1}), ({4}, {4}))
def set_algebra(a, b):
    return (a | b, a & b, a - b)


@case([SI, SI], ({1, 2}, {2, 3}), (set(), {1}), ({4}, {4}), ({1, 2}, {1, 2, 3}))
def subset_of(a, b):
    return a <= b


@case([SI, I], ({1, 2}, 2), (set(), 1), ({4}, 5))
def discard_one(a, k):
    a.discard(k)
    a.add(k + 1)
    return a


@case([SI, I], ({1, 2}, 2), (set(), 1), ({4}, 5))
def remove_one(a, k):
    a.remove(k)
    return a


@case([L, I], ([1, 2, 3], 0), ([1, 2, 3], -1), ([1], 3), ([], 0), ([1, 2], -3))
def item(xs, i):
    return xs[i]


@case([L, I], ([1, 2, 3], 1), ([1], 3), ([], 0), ([1, 2], -1), ([1, 2, 3], -5))
def tail(xs, i):
    return xs[i:]


@case([L, I], ([1, 2, 3], 1), ([1], 3), ([], 0), ([1, 2], -1), ([1, 2, 3], -5))
def head(xs, i):
    return xs[:i]


@case([L, I, I], ([1, 2, 3, 4], 1, 3), ([1], 3, 9), ([], 0, 0), ([1, 2], -1, 2), ([1, 2], 2, 1))
def middle(xs, i, j):
    return xs[i:j]


@case([L], ([1, 2, 3],), ([],), ([4],))
def swap_ends(xs):
    if len(xs) < 2:
        return xs
    xs[0], xs[-1] = xs[-1], xs[0]
    return xs


@case([I], (0,), (3,), (-2,))
def counting(n):
    return [i + 1 for i in range(n)]


@case([I], (0,), (3,), (-2,))
def nested(n):
    return [(i, j) for i in range(n) for j in range(i)]


@case([I], (0,), (3,), (1,))
def generator_list(n):
    def gen():
        for i in range(n):
            yield i
            if i > 1:
                yield -i
    return list(gen())


@case([I], (0,), (3,), (1,))
def caught(x):
    try:
        if x == 0:
            raise ValueError("zero")
        if x == 1:
            raise KeyError("one")
        r = "fine"
    except ValueError:
        r = "value"
    else:
        r = r + "!"
    return r


@case([L, I], ([1, 2], 0), ([], 0), ([7], 1))
def finally_runs(xs, i):
    log = []
    try:
        log.append(xs[i])
    except IndexError:
        log.append(-1)
    finally:
        log.append(99)
    return log


@case([I], (0,), (3,), (5,))
def closure(x):
    total = x

    def add(k):
        nonlocal total
        total += k
        return total

    a = add(1)
    b = add(2)
    return (a, b, total)


@case([I], (0,), (3,), (5,))
def aliasing(x):
    a = [x]
    b = a
    b.append(1)
    c = list(a)
    c.append(2)
    return (a, c)


@case([I], (0,), (3,), (5,))
def aliasing_in_dict(x):
    d = {}
    xs = d.setdefault("k", [])
    xs.append(x)
    ys = d["k"]
    ys.append(1)
    return (xs, d["k"])


@case([I], (0,), (3,), (1,))
def ternary(x):
    return "zero" if x == 0 else "small" if x < 2 else "big"


@case([S, S], ("a", "b"), ("", ""), ("ab", "c"))
def joined(a, b):
    return f"{a}.{b}" + a


@case([S], ("a",), ("",), ("ab",))
def emptiness(a):
    return [bool(a), not a, len(a) == 0]


@case([LS], (["a", "b"],), ([],), (["x"],))
def with_commas(xs):
    return ", ".join(xs)


@case([I], (0,), (3,), (1,))
def while_count(n):
    i = 0
    while i < n:
        i += 1
    return i


@case([L], ([1, 2, 3],), ([],), ([4, -1, 5],))
def stops_at_negative(xs):
    out = []
    for x in xs:
        if x < 0:
            break
        out.append(x)
    return out


@case([L], ([1, 2, 3],), ([],), ([4, -1, 5],))
def skips_negative(xs):
    out = []
    for x in xs:
        if x < 0:
            continue
        out.append(x)
    return out


@case([L], ([1, 2, 3],), ([],), ([4, -1, 5],))
def raises_at_negative(xs):
    out = []
    for x in xs:
        if x < 0:
            raise ValueError(x)
        out.append(x)
    return out


@case([L], ([1, 2, 3],), ([],), ([4, -1, 5],))
def chunks(xs):
    out = []
    for x in xs:
        out.append(x)
        out.append(x + 1)
    return out


@case([L], ([1, 2, 3],), ([],), ([4, -1, 5],))
def extended(xs):
    out = [0]
    out.extend(x for x in xs if x > 1)
    out += xs
    return out


@case([L, I], ([1, 2, 3], 2), ([], 1), ([4, 4], 4))
def membership(xs, k):
    return (k in xs, k not in xs)


@case([L], ([1, 2, 3],), ([],), ([4, 4],))
def pairs(xs):
    return [(x, y) for x in xs for y in xs if x < y]


@case([L], ([1, 2, 3],), ([],), ([4, 4],))
def flag_carried(xs):
    found = False
    for x in xs:
        if x == 2:
            found = True
    return found


@case([L], ([1, 2, 3],), ([],), ([2, 2],))
def previous(xs):
    prev: Optional[int] = None
    out = []
    for x in xs:
        out.append(prev == x)
        prev = x
    return out


@case([L, L], ([1, 2], [2]), ([], []), ([3], [4, 3]))
def nested_search(xs, ys):
    out = []
    for x in xs:
        for y in ys:
            if x == y:
                out.append(x)
                break
        else:
            out.append(-x)
    return out


@case([DI], ({1: 2, 3: 4},), ({},), ({2: 1},))
def removed_while_copying(d):
    for k in list(d):
        if d[k] > k + 10:
            del d[k]
    return d


@case([L], ([1, 2, 2],), ([],), ([5],))
def set_updates(xs):
    a = set()
    a.update(xs)
    b = frozenset(x + 1 for x in xs)
    return (a, b, 2 in b)


@case([L], ([1, 2],), ([1],), ([1, 2, 3],))
def unpacked(xs):
    a, b = xs
    return b - a


@case([L], ([1, 2],), ([1],), ([1, 2, 3],), ([],))
def starred(xs):
    return [0, *xs, len(xs)]


@case([B, B], (True, False), (True, True), (False, False))
def logic(a, b):
    return [a and b, a or b, not a, a != b]


@case([OI, OI], (None, 1), (2, None), (None, None), (3, 4))
def options(a, b):
    if a is None and b is not None:
        a = b
    return (a, b is None)


@case([LP], ([(1, 2), (3, 4)],), ([],), ([(1, 1), (1, 2)],))
def to_dict(ps):
    return dict(ps)


@case([I], (0,), (2,), (5,))
def default_args(x):
    def f(a, b=3, *, c=4):
        return a * 100 + b * 10 + c
    return (f(x), f(x, 1), f(x, c=2), f(a=x, b=0))


@case([I], (0,), (2,), (5,))
def asserted(x):
    assert x != 2, "two"
    return x


class Base:
    kind = "base"

    def __init__(self, x):
        self.x = x

    def name(self):
        return "base"

    def both(self):
        return (self.name(), self.x)

    @property
    def double(self):
        return self.x * 2


class Derived(Base):
    kind = "derived"

    def __init__(self, x):
        super().__init__(x + 1)
        self.y = x

    def name(self):
        return "derived"


@case([I], (0,), (2,), (5,))
def objects(x):
    a, b = Base(x), Derived(x)
    b.y += 10
    return (a.both(), b.both(), a.double, b.y, isinstance(b, Base), isinstance(a, Derived),
            b.kind)


@case([L], ([1, 2, 3],), ([],), ([2, 2],))
def returns_in_loop_with_state(xs):
    seen = set()
    for x in xs:
        if x in seen:
            return x
        seen.add(x)
    return -1


@case([L, I], ([1, 2, 3], 2), ([], 0), ([2, 2], 2))
def counted_before(xs, k):
    before = []
    for x in xs:
        if x == k:
            before.append(len(before))
        else:
            before.append(0)
    return before


@case([L], ([1, 2, 3],), ([],), ([0, 5],))
def obligations_of_a_loop(xs):
    # what follows the loop must not rest on obligations that were never recorded
    out = []
    for x in xs:
        d = {1: 1, 2: 2, 3: 3}
        out.append(d[x])
    return out


@case([L], ([1, 2, 3],), ([],), ([0, 5],))
def asserted_in_a_loop(xs):
    out = []
    n = 0
    for x in xs:
        assert x > 0
        out.append(x)
        n = len(out)
    return (out, n)


@case([L, I], ([1, 2, 3], 6), ([], 1), ([0, 5], 0))
def divided(xs, k):
    return [k // x for x in xs]


@case([L, L], ([1, 2], [0, 1]), ([], []), ([3], [0, 1]), ([3], [0, 0]))
def writes_in_a_loop(xs, ks):
    for k in ks:
        xs[k] = xs[k] + 1
    return xs


@case([DI, L], ({1: 2}, [1, 1]), ({}, []), ({1: 2}, [3]), ({1: 2, 3: 4}, [3]))
def counts_in_a_dict(d, ks):
    for k in ks:
        d[k] = d[k] + 1
    return d


@case([L], ([1, 2, 3],), ([],), ([2, 2],))
def nested_try(xs):
    out = []
    for x in xs:
        try:
            if x == 2:
                raise ValueError
            out.append(x)
        except ValueError:
            out.append(0)
            continue
        out.append(10)
    return out


@case([L], ([1, 2, 3],), ([],), ([2, 2],))
def generator_function(xs):
    def gen(n):
        if n > 1:
            return
        yield n
        yield from (n + 1, n + 2)
    out = []
    for x in xs:
        out.extend(gen(x))
    return out


@contextlib.contextmanager
def recording(log, k):
    log.append(k)
    try:
        yield k + 1
    finally:
        log.append(-k)


@case([I], (0,), (1,), (2,))
def context_manager(x):
    log = []
    with recording(log, x) as y:
        if y == 2:
            return (y, list(log))
        log.append(100)
    return (y, list(log))


@case([S, LS], ("a", ["a", "b"]), ("", []), ("x", ["y"]))
def string_lookup(s, xs):
    d = {x: i for i, x in enumerate(xs)}
    return d.get(s, -1)


@case([L, L], ([1, 2], [1, 2]), ([], []), ([3], [0, 1]), ([3], [4]))
def equal_lists(xs, ys):
    return (xs == ys, xs != ys, tuple(xs) == tuple(ys))


@case([SI], ({1, 2},), (set(),), ({7},))
def sizes(s):
    return (len(s), bool(s), not s)


@case([L], ([3, 1, 2, 1],), ([],), ([7],))
def sorted_distinct(xs):
    return sorted(set(xs))


@case([LP], ([(1, 2), (3, 4)],), ([],), ([(1, 1), (0, 2)],))
def sorted_by_second(ps):
    return [a for a, _ in sorted(ps, key=lambda p: -p[1])]


@case([OI, I], (None, 1), (2, 1), (0, 3))
def walrus(x, y):
    if (z := x) is not None and z > 0:
        return z + y
    return y


@case([I, I], (0, 1), (2, 1), (0, 3))
def multiple_raises(x, y):
    if x > y:
        raise KeyError(x)
    if x == y:
        raise ValueError(x)
    try:
        if x + 3 == y:
            raise RuntimeError("no")
    except Exception as exc:
        raise LookupError("yes") from exc
    return y


@case([L], ([1, 2, 3],), ([],), ([2, 2],), ([1, -1, 1, 1],))
def conditional_dict(xs):
    d = {}
    for x in xs:
        if x not in d:
            d[x] = 0
        if x > 0:
            d[x] = x
    return d


@case([L], ([1, 2, 3],), ([],), ([2, 2],), ([1, -1, 1, 1],))
def list_of_sets(xs):
    out = []
    for x in xs:
        s = {0}
        s.add(x)
        out.append(s)
    for s in out:
        s.add(50)
    return [sorted(s) for s in out]


@case([DI, DI], ({1: 2}, {1: 3}), ({}, {1: 2}), ({5: 6}, {}))
def merged(a, b):
    a.update(b)
    return a
