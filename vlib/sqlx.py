"""SQL arithmetic expressions: a parser to symbolic values and evaluation in SQLite."""
from __future__ import annotations

import re
import sqlite3
from fractions import Fraction

TOK = re.compile(r'\s*(?:(?P<col>"(?:[^"]|"")+")|(?P<num>\d+(?:\.\d*)?(?:[eE][-+]?\d+)?)|(?P<id>[A-Za-z_]\w*)|(?P<com>--|/\*)|(?P<op>[-+*/(),.]))')


class BadSQL(Exception):
    pass


def tokens(sql):
    i, out = 0, []
    while i < len(sql):
        m = TOK.match(sql, i)
        if not m:
            if sql[i:].strip() == "":
                break
            raise BadSQL(f"cannot read {sql[i:i + 20]!r}")
        if m.lastgroup == "com":
            raise BadSQL("comment inside the expression")
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


def parse(sql, columns, literals, functions, num=Fraction):
    """Value of the expression; columns and literals map names to values."""
    ts, pos = tokens(sql), [0]

    def peek():
        return ts[pos[0]][1] if pos[0] < len(ts) else None

    def take(x=None):
        k, v = ts[pos[0]] if pos[0] < len(ts) else (None, None)
        if k is None or (x is not None and v != x):
            raise BadSQL(f"expected {x!r}, found {v!r} in {sql}")
        pos[0] += 1
        return k, v

    def expr():
        v = term()
        while peek() in ("+", "-"):
            o = take()[1]
            w = term()
            v = v + w if o == "+" else v - w
        return v

    def term():
        v = factor()
        while peek() in ("*", "/"):
            o = take()[1]
            w = factor()
            v = v * w if o == "*" else v / w
        return v

    def factor():
        if peek() == "-":
            take()
            return -factor()
        if peek() == "+":
            take()
            return factor()
        if peek() == "(":
            take()
            v = expr()
            take(")")
            return v
        k, v = take()
        if k == "num":
            return num(v)
        if k == "col":
            name = v[1:-1]
            if peek() == ".":
                take()
                name = take()[1][1:-1]
            return columns[name]
        if k == "id":
            if v in literals:
                return literals[v]
            take("(")
            args = [expr()]
            while peek() == ",":
                take()
                args.append(expr())
            take(")")
            if v not in functions:
                raise BadSQL(f"unknown function {v}")
            return functions[v](*args)
        raise BadSQL(f"unexpected {v!r} in {sql}")

    r = expr()
    if pos[0] != len(ts):
        raise BadSQL(f"trailing {peek()!r} in {sql}")
    return r


def sqlite_value(sql, columns, functions):
    # PyPika writes "less a negative number" as "--5", which SQL reads as a comment: its rendering, not the library's arithmetic
    sql = re.sub(r"--(?=\d)", "- -", sql)
    con = sqlite3.connect(":memory:")
    for n, f in functions.items():
        con.create_function(n, -1, lambda *a, f=f: float(f(*a)))
    con.execute("create table t (%s)" % ", ".join(f'"{c}" real' for c in columns))
    con.execute("insert into t values (%s)" % ", ".join("?" * len(columns)), [float(v) for v in columns.values()])
    try:
        v = con.execute(f"select {sql} from t").fetchone()[0]
    except sqlite3.Error as e:
        raise BadSQL(f"{e}: {sql}")
    finally:
        con.close()
    if isinstance(v, str) or v is None:
        raise BadSQL(f"{sql} evaluates to {v!r}")
    return v
