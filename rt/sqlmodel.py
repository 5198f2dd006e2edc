"""An independent reading of plan statements (JSON) over in-memory tables, in SQL's 3-valued logic."""
from __future__ import annotations

import hashlib
import re

T, F, U = True, False, None


def and3(xs):
    xs = list(xs)
    return F if any(x is F for x in xs) else U if any(x is U for x in xs) else T


def or3(xs):
    xs = list(xs)
    return T if any(x is T for x in xs) else U if any(x is U for x in xs) else F


def not3(x):
    return U if x is U else not x


def cmp3(op, a, b):
    if a is None or b is None:
        return U
    if op == "=":
        return a == b
    if op in ("<>", "!="):
        return a != b
    if op == "<":
        return a < b
    if op == ">":
        return a > b
    if op in ("like", "not like"):
        pat = "".join(".*" if c == "%" else "." if c == "_" else re.escape(c) for c in str(b))
        r = re.fullmatch(pat, str(a), re.I | re.S) is not None
        return r if op == "like" else not r
    raise ValueError(op)


class Tab:
    def __init__(self, cols, rows, pk=()):
        self.cols, self.rows, self.pk = list(cols), [tuple(r) for r in rows], list(pk)


class DB:
    """tables: {(schema, table, sampled): Tab}; opaque: meaning of raw SQL, fn(sql, params, row)"""

    def __init__(self, tables, opaque=None, rnd=None):
        self.tables, self.opaque, self.rnd = tables, opaque or self._opaque, rnd or self._rnd

    @staticmethod
    def _opaque(sql, params, row):
        h = hashlib.md5(repr((sql, sorted((params or {}).items()), sorted(row.items(), key=str)))
                        .encode()).digest()
        return (T, F, U)[h[0] % 3]

    @staticmethod
    def _rnd(row):
        return hashlib.md5(repr(sorted(row.items(), key=str)).encode()).digest()[0] / 256.0

    def table(self, ident):
        return self.tables[(ident.get("schema", ident.get("table_schema")),
                            ident.get("table", ident.get("table_name")),
                            bool(ident.get("sampled", False)))]

    def where(self, w, row):
        if w is None:
            return T
        k = w["type"]
        if k == "true":
            return T
        if k == "false":
            return F
        if k == "and":
            return and3(self.where(c, row) for c in w["conditions"])
        if k == "or":
            return or3(self.where(c, row) for c in w["conditions"])
        if k == "operator":
            return cmp3(w.get("operator", "="), row[w["column"]], w["value"])
        if k == "random":
            return self.rnd(row) < w["threshold"]
        if k == "sql":
            return self.opaque(w["sql"], w.get("sql_params"), row)
        if k == "in":
            vals = w["values"]
            if isinstance(vals, dict):
                vals = self.rows(vals)
            mine = [row[c] for c in w["columns"]]
            r = or3(and3(cmp3("=", a, b) for a, b in zip(mine, v)) for v in vals)
            return not3(r) if w.get("negated") else r
        raise ValueError(k)

    def joins_ok(self, st, row):
        joins = st.get("joins") or []
        if not joins:
            return True
        hits = []
        for j in joins:
            right = self.table(j["right"])
            hit = False
            for rr in right.rows:
                d = dict(zip(right.cols, rr))
                if and3(cmp3("=", row[x], d[y]) for x, y in zip(
                        j["left_columns"], j["right_columns"])) is T:
                    hit = True
                    break
            hits.append(hit)
        return any(hits) if st.get("joins_outer") else all(hits)

    def kept(self, st):
        """rows of the base table the select keeps, before its limit"""
        t = self.table(st["from"])
        out = []
        for r in t.rows:
            d = dict(zip(t.cols, r))
            if self.joins_ok(st, d) and self.where(st.get("where"), d) is T:
                out.append(d)
        return t, out

    def columns(self, st):
        if st["type"] == "union":
            return self.columns(st["statements"][0])
        return list(st.get("columns") or self.table(st["from"]).cols)

    def rows(self, st):
        """list of tuples; a limited select yields its first rows"""
        if st["type"] == "union":
            out = []
            for s in st["statements"]:
                for r in self.rows(s):
                    if r not in out:
                        out.append(r)
            return out
        t, kept = self.kept(st)
        cols = st.get("columns") or t.cols
        out = [tuple(d[c] for c in cols) for d in kept]
        lim = st.get("limit")
        return out if lim is None else out[:lim]
