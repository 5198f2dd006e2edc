"""C06 on the real code: an independent reading of a filter configuration against the real filters."""
from __future__ import annotations

import sys
import types
from datetime import date, datetime, timezone
from fnmatch import fnmatch

from rt.runner import Suite

COLS = ["id", "a", "b", "name", "b2", "c", "created_at", "z"]
FAKES = ["fake_email", "fake_first_name", "fake_last_name", "fake_name", "fake_phone_number",
         "fake_license_plate", "fake_vin", "fake_address", "fake_building_number", "fake_city",
         "fake_state", "fake_state_abbr", "fake_country", "fake_country_code", "fake_postal_code",
         "fake_street_address", "fake_street_name", "fake_latitude", "fake_longitude"]
_mod = types.ModuleType("verif_plugin")


class _Plug:
    def __init__(self, tag="p"):
        self.tag = tag

    def __call__(self, values):
        return [f"{self.tag}:{v}" for v in values]


_mod.Plug = _Plug
sys.modules["verif_plugin"] = _mod


class Any_:
    """a value the filter chooses"""

    def __init__(self, ok, what):
        self.ok, self.what = ok, what

    def __repr__(self):
        return f"<{self.what}>"


def gen_value(rng):
    return rng.choice([None, 0, 1, -3, 17, "x", "ab", "", "b7", 2.5, True,
                       {"dt": [2020, 1, 2, 3], "tz": rng.random() < .5}])


def real_value(v):
    if isinstance(v, dict):
        return datetime(*v["dt"], tzinfo=timezone.utc if v["tz"] else None)
    return v


def pick(rng, cols, lo=1):
    cols = [c for c in cols]
    rng.shuffle(cols)
    k = rng.randint(min(lo, len(cols)), max(lo, min(len(cols), 3)))
    return cols[:k]


def gen_simple(rng, cols, allow_omit, bad):
    ops = ["zero", "null", "constant", "random_int", "random_float", "random_string", "uuid",
           "plugin", "fake"]
    if allow_omit:
        ops += ["omit", "omit", "omit"]
    op = rng.choice(ops)
    act = pick(rng, cols)
    if bad and rng.random() < .5:
        k = rng.random()
        if k < .4:
            act = act + ["missing"]
        elif k < .8:
            act = act + [act[0]] if act else ["missing"]
        else:
            act = []
        rng.shuffle(act)
    d = {"op": op, "columns": act}
    if op == "constant":
        d["values"] = [rng.choice([None, 5, "k", 1.5, f"v{j}"]) for j in range(len(act))]
        if bad and rng.random() < .3:
            d["values"] = d["values"] + ["extra"]
    if op in ("random_int", "random_float"):
        lo = rng.randint(-5, 5)
        d.update(low=lo, high=lo + rng.choice([0, 1, 7]))
    if op == "random_string":
        d.update(length=rng.choice([0, 1, 9]), alphabet=rng.choice(["hex_upper", "digit", "custom"]))
        d["custom_alphabet"] = "QZ"
    if op == "plugin":
        d.update({"module": "verif_plugin", "class": "Plug", "kwargs": {"tag": "t"}})
    if op == "fake":
        d["op"] = rng.choice(FAKES)
    return d


def gen_cond(rng):
    op = rng.choice(["is", "is not", "in", "not in", "=", "!=", "<", ">", "<=", ">=", "matches"])
    if op in ("is", "is not"):
        v = None
    elif op in ("in", "not in"):
        v = [rng.choice([None, 1, 17, "x", "ab", 0]) for _ in range(rng.randint(0, 3))]
    elif op == "matches":
        v = rng.choice(["*", "a*", "?", "b[0-9]"])
    elif op in ("=", "!="):
        v = rng.choice([1, 17, "x", None, "ab"])
    else:
        v = rng.choice([0, 1, 5])
    return {"op": op, "value": v}


def gen(rng, i):
    n = rng.randint(1, 6)
    cols = rng.sample(COLS, n)
    bad = rng.random() < .2
    filters, avail = [], list(cols)
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
        if not avail:
            break
        if rng.random() < .3:
            conds = []
            for _ in range(rng.randint(0, 3)):
                c = gen_cond(rng)
                c["apply"] = gen_simple(rng, avail, bad, bad)
                conds.append(c)
            col = rng.choice(avail)
            if bad and rng.random() < .2:
                col = "missing"
            filters.append({"op": "multiplex", "column": col, "conditions": conds})
        else:
            f = gen_simple(rng, avail, True, bad)
            filters.append(f)
            if f["op"] == "omit":
                avail = [c for c in avail if c not in f["columns"]]
    rows = [[gen_value(rng) for _ in cols] for _ in range(rng.randint(0, 4))]
    return {"columns": cols, "filters": filters, "rows": rows}


class Unknown(Exception):
    pass


class Reject(Exception):
    pass


class RowError(Exception):
    """the filter itself cannot treat this value"""


def o_columns(cols, f):
    """columns after f; raises Reject for a configuration that must be refused"""
    if f["op"] == "multiplex":
        if f["column"] not in cols:
            raise Reject()
        for c in f["conditions"]:
            if o_columns(cols, c["apply"]) != cols:
                raise Reject()
        return cols
    act = f["columns"]
    if not act or len(set(act)) != len(act) or any(c not in cols for c in act):
        raise Reject()
    if f["op"] == "constant" and len(f["values"]) != len(act):
        raise Reject()
    if f["op"] == "omit":
        return [c for c in cols if c not in act]
    return cols


def o_match(op, v, w):
    if isinstance(v, Any_):
        raise Unknown()
    try:
        return {"is": lambda: v is w, "is not": lambda: v is not w, "in": lambda: v in w,
                "not in": lambda: v not in w, "=": lambda: v == w, "!=": lambda: v != w,
                "<": lambda: v < w, ">": lambda: v > w, "<=": lambda: v <= w,
                ">=": lambda: v >= w, "matches": lambda: fnmatch(v, w)}[op]()
    except TypeError:
        raise RowError()


def o_apply(cols, row, f):
    if f["op"] == "multiplex":
        v = row[cols.index(f["column"])]
        for c in f["conditions"]:
            if o_match(c["op"], v, c["value"]):
                return o_apply(cols, row, c["apply"])
        return cols, list(row)
    d = dict(zip(cols, row))
    act, op = f["columns"], f["op"]
    if op == "omit":
        out = [c for c in cols if c not in act]
        return out, [d[c] for c in out]
    for k, c in enumerate(act):
        v = d[c]
        if op == "zero":
            if isinstance(v, Any_):
                if v.what.startswith("fake_l"):
                    raise Unknown()  # Faker's coordinates are decimals, which zero refuses
                d[c] = Any_(lambda x: x in ("", 0, 0.0, None), "zero")
                continue
            if v is None:
                d[c] = None
            elif isinstance(v, str):
                d[c] = ""
            elif isinstance(v, (int, float)):
                d[c] = 0.0 if isinstance(v, float) else 0
            elif isinstance(v, datetime):
                d[c] = datetime(1970, 1, 1, tzinfo=v.tzinfo)
            else:
                raise RowError()
        elif op == "null":
            d[c] = None
        elif op == "constant":
            d[c] = f["values"][k]
        elif op == "random_int":
            d[c] = Any_(lambda x: isinstance(x, int) and f["low"] <= x <= f["high"],
                        f"int {f['low']}..{f['high']}")
        elif op == "random_float":
            d[c] = Any_(lambda x: isinstance(x, float) and f["low"] <= x <= f["high"],
                        f"float {f['low']}..{f['high']}")
        elif op == "random_string":
            al = {"hex_upper": "0123456789ABCDEF", "digit": "0123456789", "custom": "QZ"}[
                f["alphabet"]]
            d[c] = Any_(lambda x: isinstance(x, str) and len(x) == f["length"] and all(
                ch in al for ch in x), f"{f['length']} of {al}")
        elif op == "uuid":
            d[c] = Any_(lambda x: isinstance(x, str) and len(x) == 36, "uuid")
        elif op == "plugin":
            if isinstance(v, Any_):
                d[c] = Any_(lambda x: isinstance(x, str) and x.startswith("t:"), "plugin value")
            else:
                d[c] = f"t:{v}"
        else:
            d[c] = Any_(lambda x: x is not None, op)
    return cols, [d[c] for c in cols]


def uses_plate(filters):
    return any(f["op"] == "fake_license_plate" or any(
        c["apply"]["op"] == "fake_license_plate" for c in f.get("conditions", ()))
        for f in filters)


def same(a, b):
    if isinstance(b, Any_):
        return b.ok(a)
    return a == b and (a is None) == (b is None)


def check(case):
    from subsetter import filters as F
    from pydantic import TypeAdapter
    cols = case["columns"]
    want_reject = False
    out = list(cols)
    try:
        for f in case["filters"]:
            out = o_columns(out, f)
    except Reject:
        want_reject = True
    try:
        cfgs = TypeAdapter(list[F.FilterConfig]).validate_python(case["filters"])
        view = F.FilterViewChain.construct_filter(cols, cfgs)
    except ValueError as e:
        if want_reject:
            return None
        return "rejected", f"a valid filter configuration is refused: {e}"
    except Exception as e:
        return "load-error", f"loading raises {type(e).__name__}: {e}"
    if want_reject:
        return "accepted", "a configuration naming a missing or repeated column is accepted"
    if list(view.columns_out) != out:
        return "columns", f"output columns {list(view.columns_out)}, expected {out}"
    for row in case["rows"]:
        row = [real_value(v) for v in row]
        before = list(row)
        c, want, fail = list(cols), row, False
        try:
            for f in case["filters"]:
                c, want = o_apply(c, want, f)
        except RowError:
            fail = True
        except Unknown:
            continue
        try:
            got = view.filter_view(tuple(row))
        except Exception as e:
            if fail:
                continue
            if isinstance(e, AttributeError) and "licence_plate" in str(e) and uses_plate(
                    case["filters"]):
                return "license-plate", f"fake_license_plate raises {e}"
            return "row-error", f"filtering {row} raises {type(e).__name__}: {e}"
        if fail:
            continue
        if row != before:
            return "input-changed", f"filtering changed its input row {before} to {row}"
        if not isinstance(got, list):
            got = list(got)
        if len(got) != len(out) or not all(same(x, y) for x, y in zip(got, want)):
            return "row", f"columns {cols} row {before}: got {got}, expected {want}"
    return None


FIXED = [{"columns": ["id", "plate"], "filters": [{"op": "fake_license_plate",
                                                   "columns": ["plate"]}], "rows": [[1, "x"]]},
         {"columns": ["a", "b", "c"], "filters": [
             {"op": "omit", "columns": ["b"]}, {"op": "constant", "columns": ["c", "a"],
                                                "values": ["C", "A"]}],
          "rows": [[1, 2, 3], [4, 5, 6]]}]


def gen_seq(rng, i):
    """many rows through one conditional filter: state must not leak between rows"""
    c = gen(rng, i)
    c["rows"] = [[gen_value(rng) for _ in c["columns"]] for _ in range(12)]
    return c


def gen_load(rng, i):
    names = [f"t{k}" for k in range(rng.choice([1, 2, 3, 4]))]
    tables = {}
    for t in names:
        n = rng.randint(1, 4)
        cols = ["id"] + rng.sample([c for c in COLS if c not in ("id", "created_at")], n - 1)
        tables[t] = {"cols": [[c, "int", True] for c in cols], "pk": ["id"], "fks": [],
                     "uniques": []}
    filters = {}
    keys = ["main." + t for t in names] + (["main.nowhere"] if rng.random() < .5 else [])
    rng.shuffle(keys)
    for k in keys:
        cols = [c[0] for c in tables.get(k[5:], {"cols": [["x"]]})["cols"] if c[0] != "id"]
        fs = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            if not cols and rng.random() < .5:
                continue
            bad = rng.random() < .25 or not cols
            act = rng.sample(cols, 1) if cols and not bad else [rng.choice(["gone", "gone2"])]
            if bad and cols and rng.random() < .4:
                act = [cols[0], cols[0]]
            op = rng.choice(["null", "omit", "constant", "multiplex"])
            f = {"op": op, "columns": act}
            if op == "constant":
                f["values"] = [7] * len(act)
            if op == "multiplex":
                f = {"op": op, "column": "id", "conditions": [
                    {"op": ">", "value": 0, "apply": {"op": "null", "columns": act}}]}
            if op == "omit" and not bad:
                cols = [c for c in cols if c not in act]
            fs.append(f)
        filters[k] = fs
    return {"tables": tables, "filters": filters, "old": rng.random() < .5}


def check_load(case):
    from rt import e2e
    tb = case["tables"]
    bad = set()
    for k, fs in case["filters"].items():
        if k[5:] not in tb:
            continue
        cols = [c[0] for c in tb[k[5:]]["cols"]]
        try:
            for f in fs:
                cols = o_columns(cols, f)
        except Reject:
            bad.add(k)
    rows = {t: [[k + 1] + [5] * (len(d["cols"]) - 1) for k in range(2)] for t, d in tb.items()}
    old = {t: [[k + 50] + [6] * (len(d["cols"]) - 1) for k in range(2)] for t, d in tb.items()}
    plan = {"queries": {f"test.{t}": {"sql": f"select * from test.{t}"} for t in tb}}
    fs = {"test" + k[4:]: v for k, v in case["filters"].items()}
    r = e2e.run_sample(tb, rows, plan, {"filters": fs}, dest=tb, dest_rows=old, create=False,
                       truncate=case["old"])
    if not bad:
        if "error" in r:
            return "refused", f"filters {fs} fit the tables but the run fails: {r['error']}"
        return None
    if "error" not in r:
        return "loaded", f"filters of {sorted(bad)} do not fit its columns but the run succeeds"
    for t in tb:
        if r["tables"][t]["rows"] != old[t]:
            return "late", (f"filters of {sorted(bad)} do not fit its columns, which is only "
                            f"noticed after {t} was changed")
    return None


SUITES = [Suite("filters", gen, check, 3, FIXED,
                "random columns, filter chains (all operators) and rows"),
          Suite("many-rows", gen_seq, check, 1),
          Suite("loading", gen_load, check_load, 1, (), "filters of several tables, checked before "
                "the destination changes")]
