"""Small formula language over Syms: usable symbolically (z3) and on floats."""

from __future__ import annotations

import math

import z3

from .sym import Sym, evalf


class F:
    def __and__(self, o):
        return And(self, o)

    def __or__(self, o):
        return Or(self, o)

    def __invert__(self):
        return Not(self)


class Rel(F):
    """lhs <op> 0"""

    __slots__ = ("s", "op", "name", "ab")

    def __init__(self, s, op, name=None, ab=None):
        self.s, self.op, self.name = s, op, name
        self.ab = ab  # the two sides as written; the solver compares these

    def z(self, zc):
        if self.ab is not None and isinstance(self.s, Sym) and self.s.is_const():
            return zc.sides(*self.ab, self.op)
        return zc.rel(self.s, self.op)

    def scale(self, env, cache):
        if not isinstance(self.s, Sym):
            return 1.0
        m = 1.0
        for mono, c in self.s.t.items():
            m = max(m, abs(evalf(Sym({mono: c}), env, cache)))
        return m

    def holds(self, env, tol, cache):
        v = evalf(self.s, env, cache)
        if math.isnan(v):
            return False
        t = tol * self.scale(env, cache)
        return {
            "eq": abs(v) <= t,
            "ne": abs(v) > -t,
            "lt": v < t,
            "le": v <= t,
            "gt": v > -t,
            "ge": v >= -t,
        }[self.op]

    def neg(self):
        return Rel(
            self.s,
            {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}[self.op],
            self.name,
            self.ab,
        )

    def subs(self, env):
        return Rel(self.s.subs(env) if isinstance(self.s, Sym) else self.s, self.op, self.name)

    def syms(self):
        return [self.s]

    def __repr__(self):
        sy = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[self.op]
        return (f"[{self.name}] " if self.name else "") + f"{self.s} {sy} 0"

    def margin(self, m):
        """formula: violated by more than m (used for robust counterexamples)."""
        s = Sym.lift(self.s)
        return {
            "eq": lambda: Or(Rel(s - m, "ge"), Rel(s + m, "le")),
            "le": lambda: Rel(s - m, "ge"),
            "lt": lambda: Rel(s - m, "ge"),
            "ge": lambda: Rel(s + m, "le"),
            "gt": lambda: Rel(s + m, "le"),
            "ne": lambda: Rel(s, "eq"),
        }[self.op]()


def clear(s):
    """multiply s = 0 through by the arguments of its inverse atoms."""
    for _ in range(8):
        top = {}
        for m in s.t:
            for a, e in m:
                if a.kind == "inv" and e > 0:
                    top[a] = max(top.get(a, 0), e)
        if not top:
            return s
        # an outermost inverse first: its argument may hold further ones
        a = max(top, key=lambda x: x.id)
        d, k = a.args[0], top[a]
        groups = {}
        for m, c in s.t.items():
            e = dict(m).get(a, 0)
            rest = tuple(x for x in m if x[0] is not a)
            g = groups.setdefault(k - e, {})
            g[rest] = g.get(rest, 0) + c
        out = Sym({})
        for j, t in groups.items():
            term = Sym(t)
            for _ in range(j):
                term = term * d
            out = out + term
        s = out
    return s


def cleared(f):
    """the same equation without denominators, or None."""
    if isinstance(f, And):
        fs = [cleared(x) for x in f.fs]
        if all(x is None for x in fs):
            return None
        return And(*[y if x is None else x for x, y in zip(fs, f.fs)], name=f.name)
    if isinstance(f, Rel) and f.op == "eq" and isinstance(f.s, Sym):
        if any(a.kind == "inv" and e > 0 for m in f.s.t for a, e in m):
            return Rel(clear(f.s), "eq", f.name)
    return None


class And(F):
    def __init__(self, *fs, name=None):
        self.fs = [f for f in fs]
        self.name = name

    def z(self, zc):
        return z3.And(*[f.z(zc) for f in self.fs]) if self.fs else z3.BoolVal(True)

    def holds(self, env, tol, cache):
        return all(f.holds(env, tol, cache) for f in self.fs)

    def neg(self):
        return Or(*[f.neg() for f in self.fs])

    def subs(self, env):
        return And(*[f.subs(env) for f in self.fs], name=self.name)

    def syms(self):
        return [s for f in self.fs for s in f.syms()]

    def margin(self, m):
        return Or(*[f.margin(m) for f in self.fs])

    def __repr__(self):
        return "(" + " & ".join(map(repr, self.fs)) + ")"


class Or(F):
    def __init__(self, *fs, name=None):
        self.fs = list(fs)
        self.name = name

    def z(self, zc):
        return z3.Or(*[f.z(zc) for f in self.fs]) if self.fs else z3.BoolVal(False)

    def holds(self, env, tol, cache):
        return any(f.holds(env, tol, cache) for f in self.fs)

    def neg(self):
        return And(*[f.neg() for f in self.fs])

    def subs(self, env):
        return Or(*[f.subs(env) for f in self.fs], name=self.name)

    def syms(self):
        return [s for f in self.fs for s in f.syms()]

    def margin(self, m):
        return And(*[f.margin(m) for f in self.fs])

    def __repr__(self):
        return "(" + " | ".join(map(repr, self.fs)) + ")"


def Not(f):
    return f.neg()


def Implies(a, b):
    return Or(a.neg(), b)


class Bool(F):
    def __init__(self, v, name=None):
        self.v, self.name = bool(v), name

    def z(self, zc):
        return z3.BoolVal(self.v)

    def holds(self, env, tol, cache):
        return self.v

    def neg(self):
        return Bool(not self.v, self.name)

    def subs(self, env):
        return self

    def syms(self):
        return []

    def margin(self, m):
        return Bool(not self.v)

    def __repr__(self):
        return (f"[{self.name}] " if self.name else "") + str(self.v)


def _num(x):
    if isinstance(x, Sym):
        return x
    try:
        return x.item()
    except AttributeError:
        return x


def _rel(a, b, op, name):
    a, b = _num(a), _num(b)
    for x, other, sgn in ((a, b, 1), (b, a, -1)):
        if not isinstance(x, Sym):
            x = float(x)
            if math.isnan(x):
                # nan equals nan for the purpose of data comparison
                if op == "eq" and not isinstance(other, Sym) and math.isnan(float(other)):
                    return Bool(True, name)
                return Bool(op == "ne", name)
    for x, other, sgn in ((a, b, 1), (b, a, -1)):
        if not isinstance(x, Sym) and math.isinf(x):
            if not isinstance(other, Sym) and math.isinf(other):
                d = float(a == b) if op in ("eq", "ne") else None
                if op == "eq":
                    return Bool(a == b, name)
                if op == "ne":
                    return Bool(a != b, name)
                aa, bb = float(a), float(b)
                return Bool(
                    {"lt": aa < bb, "le": aa <= bb, "gt": aa > bb, "ge": aa >= bb}[op], name
                )
            big = x * sgn > 0  # a-b is +inf?
            return Bool(
                {"eq": False, "ne": True, "lt": not big, "le": not big, "gt": big, "ge": big}[op],
                name,
            )
    if isinstance(a, Sym) or isinstance(b, Sym):
        a, b = Sym.lift(a), Sym.lift(b)
        return Rel(a - b, op, name, (a, b))
    return NumRel(float(a), float(b), op, name)


class NumRel(Rel):
    """relation between two concrete floats; keeps magnitudes for tolerance."""

    def __init__(self, a, b, op, name=None):
        Rel.__init__(self, Sym.const(a) - Sym.const(b), op, name)
        self.a, self.b = a, b

    __slots__ = ("a", "b")

    def scale(self, env, cache):
        return max(1.0, abs(self.a), abs(self.b))

    def neg(self):
        r = NumRel(self.a, self.b, Rel.neg(self).op, self.name)
        return r

    def subs(self, env):
        return self


def eq(a, b, name=None):
    return _rel(a, b, "eq", name)


def le(a, b, name=None):
    return _rel(a, b, "le", name)


def ge(a, b, name=None):
    return _rel(a, b, "ge", name)


def lt(a, b, name=None):
    return _rel(a, b, "lt", name)


def gt(a, b, name=None):
    return _rel(a, b, "gt", name)


def ne(a, b, name=None):
    return _rel(a, b, "ne", name)
