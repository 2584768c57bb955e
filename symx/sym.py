"""Symbolic real numbers for running PyPSA's own code on z3 terms.

A ``Sym`` is a Laurent polynomial with rational coefficients over *atoms*
(symbolic inputs, and opaque functions of other Syms such as sqrt/cos/inverse).
It implements Python's number protocol, so numpy / pandas / xarray / linopy
object arrays carry it through the real code.  Comparisons return a plain bool:
when the outcome is not determined by the path condition the engine forks the
execution (see engine.py).
"""

from __future__ import annotations

import itertools
import math
from fractions import Fraction
from numbers import Number

import numpy as np
import z3


class SymUnsupported(Exception):
    """The code under analysis did something the encoding cannot follow."""


# --------------------------------------------------------------------------
# numbers


def frac(x) -> Fraction:
    """Read a concrete finite number as a rational.

    Floats are read as the simplest rational within half an ulp (so 0.1 is
    1/10 and 1/3 is 1/3); the replay step re-checks with real floats.
    """
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    f = Fraction(x)
    if f.denominator == 1:
        return f
    g = f.limit_denominator(1000000)
    if g != 0 and float(g) == x:
        return g
    if g != 0 and abs(g - f) <= abs(f) * Fraction(1, 2**52):
        return g
    return Fraction(repr(x))


def is_num(x) -> bool:
    return isinstance(x, (int, float, np.number, np.bool_, Fraction)) and not isinstance(
        x, complex
    )


# --------------------------------------------------------------------------
# atoms

_counter = itertools.count()


class Atom:
    __slots__ = ("id", "name", "kind", "args", "z", "meta")

    def __init__(self, name, kind="var", args=(), meta=None):
        self.id = next(_counter)
        self.name = name
        self.kind = kind
        self.args = args
        self.meta = meta
        self.z = z3.Real(f"{name}#{self.id}")

    def __repr__(self):
        return self.name

    def __lt__(self, other):
        return self.id < other.id


class AtomTable:
    """Interned function atoms (inverse, sqrt, cos, ...) of one analysis."""

    def __init__(self):
        self.cache: dict = {}

    def fun(self, kind, *args) -> Atom:
        key = (kind, *[a.key() for a in args])
        a = self.cache.get(key)
        if a is None:
            a = Atom(f"{kind}({','.join(str(x) for x in args)})", kind, args)
            self.cache[key] = a
        return a


TABLE = AtomTable()
ENGINE = None  # set by engine.Engine.activate


def set_engine(e):
    global ENGINE
    ENGINE = e


ONE = ()


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = {}
    for at, e in a:
        d[at] = e
    for at, e in b:
        n = d.get(at, 0) + e
        if n == 0:
            d.pop(at, None)
        else:
            d[at] = n
    return tuple(sorted(d.items(), key=lambda t: t[0].id))


_CMP = {
    "eq": lambda c: c == 0,
    "ne": lambda c: c != 0,
    "lt": lambda c: c < 0,
    "le": lambda c: c <= 0,
    "gt": lambda c: c > 0,
    "ge": lambda c: c >= 0,
}


class Sym:
    __slots__ = ("t", "_h", "_z")
    __array_priority__ = 1000

    def __init__(self, terms):
        self.t = terms
        self._h = None
        self._z = None

    # -- construction --------------------------------------------------
    @staticmethod
    def const(c):
        c = frac(c)
        return Sym({ONE: c} if c else {})

    @staticmethod
    def atom(a: Atom):
        return Sym({((a, 1),): Fraction(1)})

    @staticmethod
    def lift(x):
        if isinstance(x, Sym):
            return x
        return Sym.const(x)

    # -- inspection ----------------------------------------------------
    def key(self):
        return tuple(
            sorted(
                ((tuple((a.id, e) for a, e in m), c) for m, c in self.t.items()),
            )
        )

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE in self.t)

    def cval(self) -> Fraction:
        return self.t.get(ONE, Fraction(0))

    def __hash__(self):
        if self._h is None:
            if self.is_const():
                self._h = hash(self.cval())
            else:
                self._h = hash(frozenset(self.t.items()))
        return self._h

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in self.t.items():
            s = "*".join(f"{a}" + (f"^{e}" if e != 1 else "") for a, e in m)
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            else:
                out.append(f"{c}*{s}")
        return " + ".join(out)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def base_atoms(self):
        out = set()
        stack = list(self.atoms())
        seen = set()
        while stack:
            a = stack.pop()
            if a in seen:
                continue
            seen.add(a)
            if a.kind == "var":
                out.add(a)
            for x in a.args:
                stack.extend(x.atoms())
        return out

    # -- arithmetic ----------------------------------------------------
    def _coerce(self, o):
        """-> Sym | float(nan/inf) | None"""
        if isinstance(o, Sym):
            return o
        if is_num(o):
            f = o if isinstance(o, Fraction) else float(o) if isinstance(o, (float, np.floating)) else o
            if isinstance(f, float) and (math.isnan(f) or math.isinf(f)):
                return f
            return Sym.const(o)
        if isinstance(o, np.ndarray) and o.ndim == 0:
            return self._coerce(o.item())
        return None

    def __add__(self, o):
        if _is_cplx(o):
            return CSym(self, 0) + o
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return o
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t.items():
            n = d.get(m)
            if n is None:
                d[m] = c
            else:
                n = n + c
                if n == 0:
                    del d[m]
                else:
                    d[m] = n
        return Sym(d)

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if _is_cplx(o):
            return CSym(self, 0) - o
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return -o
        return self + (-o)

    def __rsub__(self, o):
        if _is_cplx(o):
            return CSym.lift(o) - self
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return o
        return o + (-self)

    def __mul__(self, o):
        if _is_cplx(o):
            return CSym(self, 0) * o
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            if math.isnan(o):
                return o
            if self > 0:
                return o
            if self < 0:
                return -o
            return math.nan
        if not self.t or not o.t:
            return Sym({})
        if o.is_const():
            c0 = o.cval()
            return self if c0 == 1 else Sym({m: c * c0 for m, c in self.t.items()})
        if self.is_const():
            c0 = self.cval()
            return o if c0 == 1 else Sym({m: c * c0 for m, c in o.t.items()})
        d = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                n = d.get(m, 0) + c1 * c2
                if n == 0:
                    d.pop(m, None)
                else:
                    d[m] = n
        return _normalise(Sym(d))

    __rmul__ = __mul__

    def inverse(self):
        """1/self, self known nonzero on this path."""
        if self.is_const():
            return Sym.const(1 / self.cval())
        if len(self.t) == 1:
            ((m, c),) = self.t.items()
            return _normalise(Sym({tuple((a, -e) for a, e in m): 1 / c}))
        # normalise leading coefficient so that k*d shares an inverse with d
        lead = min(self.key())[1]
        base = Sym({m: c / lead for m, c in self.t.items()})
        a = TABLE.fun("inv", base)
        return Sym({((a, 1),): 1 / lead})

    def __truediv__(self, o):
        if _is_cplx(o):
            return CSym(self, 0) / o
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return o if math.isnan(o) else Sym({})
        return _div(self, o)

    def __rtruediv__(self, o):
        if _is_cplx(o):
            return CSym.lift(o) / self
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            if math.isnan(o):
                return o
            if self > 0:
                return o
            if self < 0:
                return -o
            return math.nan
        return _div(o, self)

    def __floordiv__(self, o):
        q = self / o
        return _floor(q)

    def __rfloordiv__(self, o):
        return _floor(o / self)

    def __mod__(self, o):
        return self - _floor(self / o) * o

    def __pow__(self, e):
        if isinstance(e, Sym):
            if e.is_const():
                e = e.cval()
            else:
                return Sym.atom(TABLE.fun("pow", self, e))
        f = frac(e)
        if f.denominator == 1:
            k = int(f)
            if k == 0:
                return Sym.const(1)
            if k < 0:
                return 1 / (self ** (-k))
            r = self
            for _ in range(k - 1):
                r = r * self
            return r
        if f == Fraction(1, 2):
            return self.sqrt()
        return Sym.atom(TABLE.fun("pow", self, Sym.const(f)))

    def __rpow__(self, b):
        b = Sym.lift(b)
        if self.is_const():
            return b ** self.cval()
        return Sym.atom(TABLE.fun("pow", b, self))

    def __abs__(self):
        if self.is_const():
            return Sym.const(abs(self.cval()))
        return self if self >= 0 else -self

    def relu(self):
        """max(self, 0), in a form where min/max/abs of the same quantity agree."""
        if self.is_const():
            return self if self.cval() >= 0 else Sym({})
        q = ENGINE._quick_sign(self) if ENGINE is not None else None
        if q is not None:
            return self if q[0] > 0 else Sym({})
        lead = min(self.key())[1]
        x = self * Sym.const(1 / abs(lead))
        if lead > 0:
            r = Sym.atom(TABLE.fun("pos", x))
        else:
            r = Sym.atom(TABLE.fun("pos", -x)) + x
        return r * Sym.const(abs(lead))

    # numpy ufunc object fall-backs
    def sqrt(self):
        if self.is_const():
            v = self.cval()
            if v >= 0:
                n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if n * n == v.numerator and d * d == v.denominator:
                    return Sym.const(Fraction(n, d))
        if len(self.t) == 1:  # the square of something positive
            ((m, c),) = self.t.items()
            n, d = math.isqrt(abs(c.numerator)), math.isqrt(c.denominator)
            if c > 0 and n * n == c.numerator and d * d == c.denominator and all(e % 2 == 0 for _, e in m):
                r = Sym({tuple((a, e // 2) for a, e in m): Fraction(n, d)})
                if ENGINE is not None and (ENGINE._quick_sign(r) or (0,))[0] > 0:
                    return r
        if self < 0:
            return math.nan
        return Sym.atom(TABLE.fun("sqrt", self))

    def exp(self):
        if not self.t:
            return Sym.const(1)
        return Sym.atom(TABLE.fun("exp", self))

    def log(self):
        return Sym.atom(TABLE.fun("log", self))

    def cos(self):
        if not self.t:
            return Sym.const(1)
        s, neg = _canon_sign(self)
        return Sym.atom(TABLE.fun("cos", s))

    def sin(self):
        if not self.t:
            return Sym({})
        s, neg = _canon_sign(self)
        a = Sym.atom(TABLE.fun("sin", s))
        return -a if neg else a

    def deg2rad(self):
        return self * (math.pi / 180.0)

    def rad2deg(self):
        return self * (180.0 / math.pi)

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Sym({})

    def floor(self):
        return _floor(self)

    def __floor__(self):
        return _floor(self)

    def ceil(self):
        return -_floor(-self)

    def rint(self):
        return _floor(self + Fraction(1, 2))

    def __round__(self, n=None):
        if n is None or n == 0:
            return _floor(self + Fraction(1, 2))
        raise SymUnsupported("round(n)")

    def is_integer(self):
        return False

    # -- comparisons -----------------------------------------------------
    def _cmp(self, o, op):
        if _is_cplx(o):
            return getattr(CSym(self, 0), f"__{op}__")(o)
        if o is None or isinstance(o, str):
            if op == "eq":
                return False
            if op == "ne":
                return True
            return NotImplemented
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            if math.isnan(o):
                return op == "ne"
            pos = o > 0
            return {
                "eq": False,
                "ne": True,
                "lt": pos,
                "le": pos,
                "gt": not pos,
                "ge": not pos,
            }[op]
        d = self - o
        if d.is_const():
            return _CMP[op](d.cval())
        return ENGINE.decide(d, op)

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __bool__(self):
        if self.is_const():
            return self.cval() != 0
        return ENGINE.decide(self, "ne")

    # -- concretisation ----------------------------------------------------
    def __float__(self):
        if self.is_const():
            return float(self.cval())
        return ENGINE.concretise(self)

    def __int__(self):
        return int(float(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    # -- substitution / evaluation ------------------------------------------
    def subs(self, env: dict):
        """env: Atom -> Fraction/Sym (exact substitution)."""
        if not env:
            return self
        out = Sym({})
        for m, c in self.t.items():
            term = Sym.const(c)
            for a, e in m:
                v = _subs_atom(a, env)
                term = term * (v**e)
            out = out + term
        return out


def _subs_atom(a, env):
    if a in env:
        return Sym.lift(env[a])
    if a.args and any(x.base_atoms() & env.keys() for x in a.args):
        args = [x.subs(env) for x in a.args]
        if a.kind == "inv":
            return args[0].inverse()
        if a.kind in ("sqrt", "exp", "log", "cos", "sin"):
            if args[0].is_const() and a.kind != "sqrt":
                return Sym.const(getattr(math, a.kind)(float(args[0].cval())))
            if a.kind == "sqrt" and args[0].is_const():
                r = args[0].sqrt()
                if isinstance(r, Sym) and r.is_const():
                    return r
                return Sym.const(math.sqrt(float(args[0].cval())))
            return getattr(args[0], a.kind)()
        if a.kind == "pow":
            if all(x.is_const() for x in args):
                return Sym.const(float(args[0].cval()) ** float(args[1].cval()))
            return args[0] ** args[1]
        if a.kind == "floor":
            return _floor(args[0])
        if a.kind == "pos":
            return args[0].relu()
        raise SymUnsupported(a.kind)
    return Sym.atom(a)


def evalf(x, env: dict, cache=None) -> float:
    """Float value of x under atom->float assignment of base atoms."""
    if not isinstance(x, Sym):
        return float(x)
    if cache is None:
        cache = {}
    tot = 0.0
    for m, c in x.t.items():
        v = float(c)
        for a, e in m:
            v *= _eval_atom(a, env, cache) ** e
        tot += v
    return tot


def _eval_atom(a, env, cache):
    if a in env:
        return float(env[a])
    if a in cache:
        return cache[a]
    if a.kind == "var":
        v = 0.0
    else:
        args = [evalf(x, env, cache) for x in a.args]
        if a.kind == "inv":
            v = 1.0 / args[0]
        elif a.kind == "pow":
            v = args[0] ** args[1]
        elif a.kind == "floor":
            v = math.floor(args[0])
        elif a.kind == "pos":
            v = max(args[0], 0.0)
        else:
            v = getattr(math, a.kind)(args[0])
    cache[a] = v
    return v


def _canon_sign(s):
    """Return (+-s, negated) with a canonical sign, for even/odd functions."""
    lead = min(s.key())[1]
    if lead < 0:
        return -s, True
    return s, False


def _normalise(s: Sym) -> Sym:
    """Rewrite sqrt(x)^2 -> x, inv(p)^-1 -> p."""
    hit = False
    for m in s.t:
        for a, e in m:
            if (a.kind == "sqrt" and abs(e) >= 2) or (a.kind == "inv" and e < 0):
                hit = True
    if not hit:
        return s
    out = Sym({})
    for m, c in s.t.items():
        term = Sym({ONE: c})
        for a, e in m:
            if a.kind == "sqrt" and abs(e) >= 2:
                k = int(e / 2)
                x = a.args[0]
                if k < 0:
                    x = x.inverse()
                for _ in range(abs(k)):
                    term = term * x
                r = e - 2 * k
                if r:
                    term = Sym({_mono_mul(mm, ((a, r),)): cc for mm, cc in term.t.items()})
            elif a.kind == "inv" and e < 0:
                for _ in range(-e):
                    term = term * a.args[0]
            else:
                term = Sym({_mono_mul(mm, ((a, e),)): cc for mm, cc in term.t.items()})
        out = out + term
    return out


def trig(s):
    """the same value with sin^2 written as 1 - cos^2."""
    if isinstance(s, CSym):
        return CSym(trig(s.re), trig(s.im))
    if not isinstance(s, Sym):
        return s
    while True:
        hit = None
        for m in s.t:
            for a, e in m:
                if a.kind == "sin" and e >= 2:
                    hit = a
                    break
            if hit:
                break
        if not hit:
            return s
        one = Sym.const(1)
        c = Sym.atom(TABLE.fun("cos", hit.args[0]))
        sq = one - c * c
        keep, out = {}, Sym({})
        for m, k in s.t.items():
            e = dict(m).get(hit, 0)
            if e < 2:
                keep[m] = keep.get(m, 0) + k
                continue
            rest = tuple(x for x in m if x[0] is not hit)
            if e % 2:
                rest = _mono_mul(rest, ((hit, 1),))
            term = Sym({rest: k})
            for _ in range(e // 2):
                term = term * sq
            out = out + term
        s = Sym({m: k for m, k in keep.items() if k}) + out


def tidy(s):
    """trig(s) with x / (x + y) written as 1 - y / (x + y), for sums of inputs."""
    s = trig(s)
    if not isinstance(s, Sym):
        return s
    for _ in range(200):
        hit = None
        for m in s.t:
            at = dict(m)
            for a, e in m:
                if a.kind == "inv" and e > 0 and all(len(x) == 1 and x[0][1] == 1 for x in a.args[0].t):
                    lead = max((x[0][0] for x in a.args[0].t), key=lambda y: y.id)
                    if at.get(lead, 0) > 0:
                        hit = (m, a, lead)
                        break
            if hit:
                break
        if not hit:
            return s
        m, a, lead = hit
        k = s.t[m]
        d = a.args[0]
        c0 = d.t[((lead, 1),)]
        rest = d - Sym({((lead, 1),): c0})
        cut = Sym({_mono_mul(m, ((a, -1), (lead, -1))): k / c0})
        s = Sym({x: v for x, v in s.t.items() if x != m}) + cut * (Sym.const(1) - rest * Sym.atom(a))
    return s


def deriv(s, x):
    """derivative of s with respect to the atom x."""
    out = Sym({})
    if not isinstance(s, Sym):
        return out
    for m, c in s.t.items():
        for i, (a, e) in enumerate(m):
            if a is x:
                d = Sym({_mono_mul((), ((a, e - 1),)) if e != 1 else ONE: Fraction(e)})
            elif a.kind in ("sin", "cos", "inv", "exp", "sqrt"):
                inner = deriv(a.args[0], x)
                if not inner.t:
                    continue
                own = Sym.atom(a)
                if a.kind == "sin":
                    d = Sym.atom(TABLE.fun("cos", a.args[0])) * inner
                elif a.kind == "cos":
                    d = -(a.args[0].sin() * inner)
                elif a.kind == "inv":
                    d = -(own * own * inner)
                elif a.kind == "exp":
                    d = own * inner
                else:
                    d = inner / (own * 2)
                if e != 1:
                    d = d * Sym({((a, e - 1),): Fraction(e)})
            else:
                continue
            rest = tuple(y for j, y in enumerate(m) if j != i)
            out = out + Sym({rest: c}) * d
    return out


def _div(n: Sym, d: Sym):
    if d.is_const():
        c = d.cval()
        if c == 0:
            return _div0(n)
        return n * Sym.const(1 / c)
    if ENGINE.decide(d, "eq"):
        return _div0(n)
    if n.t == d.t:
        return Sym.const(1)
    # exact multiple?
    if len(n.t) == len(d.t) and len(d.t) > 1 and n.t.keys() == d.t.keys():
        r = None
        for m in n.t:
            q = n.t[m] / d.t[m]
            if r is None:
                r = q
            elif r != q:
                r = None
                break
        else:
            return Sym.const(r)
    return n * d.inverse()


def _div0(n: Sym):
    if n > 0:
        return math.inf
    if n < 0:
        return -math.inf
    return math.nan


def _floor(q):
    if not isinstance(q, Sym):
        return float(np.floor(q))
    if q.is_const():
        return Sym.const(math.floor(q.cval()))
    return Sym.atom(TABLE.fun("floor", q))


def smax(a, b=0):
    """max without forking."""
    d = a - b
    return b + d.relu() if isinstance(d, Sym) else max(a, b)


def smin(a, b=0):
    return -smax(-a, -b)


def sabs(a):
    return 2 * a.relu() - a if isinstance(a, Sym) else abs(a)


def _arrays(cls):
    """array <op> Sym, element by element (numpy defers to us)."""
    import operator as O

    for nm in ("add", "sub", "mul", "truediv"):
        f = getattr(O, nm)
        for rev in (False, True):
            key = f"__{'r' if rev else ''}{nm}__"
            orig = getattr(cls, key)

            def op(self, o, orig=orig, f=f, rev=rev):
                if isinstance(o, np.ndarray) and o.ndim:
                    return np.frompyfunc((lambda x: f(x, self)) if rev else (lambda x: f(self, x)), 1, 1)(o)
                return orig(self, o)

            setattr(cls, key, op)


_arrays(Sym)

# --------------------------------------------------------------------------
# complex numbers


def _is_cplx(o):
    return isinstance(o, (complex, np.complexfloating))


class CSym:
    """re + j*im with Sym (or float) parts."""

    __slots__ = ("re", "im")
    __array_priority__ = 1001

    def __init__(self, re, im=0):
        self.re = re if isinstance(re, Sym) else Sym.const(re)
        self.im = im if isinstance(im, Sym) else Sym.const(im)

    @staticmethod
    def lift(o):
        if isinstance(o, CSym):
            return o
        if isinstance(o, Sym):
            return CSym(o, 0)
        if _is_cplx(o):
            return CSym(o.real, o.imag)
        if is_num(o):
            return CSym(o, 0)
        return None

    def _b(self, o, f):
        if isinstance(o, np.ndarray) and o.ndim == 0:
            o = o.item()
        o = CSym.lift(o)
        return NotImplemented if o is None else f(self, o)

    def __add__(self, o):
        return self._b(o, lambda a, b: CSym(a.re + b.re, a.im + b.im))

    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: CSym(a.re - b.re, a.im - b.im))

    def __rsub__(self, o):
        return self._b(o, lambda a, b: CSym(b.re - a.re, b.im - a.im))

    def __mul__(self, o):
        return self._b(o, lambda a, b: CSym(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re))

    __rmul__ = __mul__

    def _div(a, b):
        if b.im.is_const() and b.im.cval() == 0:
            return CSym(a.re / b.re, a.im / b.re)
        if b.re.is_const() and b.re.cval() == 0:
            return CSym(a.im / b.im, -a.re / b.im)
        d = trig(b.re * b.re + b.im * b.im)
        n = a * b.conjugate()
        return CSym(n.re / d, n.im / d)

    def __truediv__(self, o):
        return self._b(o, CSym._div)

    def __rtruediv__(self, o):
        return self._b(o, lambda a, b: CSym._div(b, a))

    def __neg__(self):
        return CSym(-self.re, -self.im)

    def __pos__(self):
        return self

    def __pow__(self, k):
        f = frac(k)
        if f.denominator != 1:
            raise SymUnsupported("complex power")
        r = CSym(1, 0)
        for _ in range(abs(int(f))):
            r = r * self
        return r if f >= 0 else CSym(1, 0) / r

    def conjugate(self):
        return CSym(self.re, -self.im)

    conj = conjugate

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def __abs__(self):
        return trig(self.re * self.re + self.im * self.im).sqrt()

    def exp(self):
        e = self.re.exp()
        return CSym(e * self.im.cos(), e * self.im.sin())

    def __eq__(self, o):
        o = CSym.lift(o)
        if o is None:
            return False
        return bool(self.re == o.re) and bool(self.im == o.im)

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        return self != 0

    def __hash__(self):
        return hash((self.re, self.im))

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def __float__(self):
        return float(self.re)

    def __repr__(self):
        return f"({self.re}) + j({self.im})"


# --------------------------------------------------------------------------
# z3 translation


Z3CMP = {
    "eq": lambda a, b: a == b,
    "ne": lambda a, b: a != b,
    "lt": lambda a, b: a < b,
    "le": lambda a, b: a <= b,
    "gt": lambda a, b: a > b,
    "ge": lambda a, b: a >= b,
}


class Z3Ctx:
    """Translates Syms to z3 terms and collects atom axioms."""

    def __init__(self):
        self.axioms_done = set()
        self.axioms = []
        self.memo = {}
        self.inv = {}

    def atom_z(self, a: Atom, e: int):
        if e < 0:
            base = a.z
            iv = self.inv.get(a)
            if iv is None:
                iv = z3.Real(f"1/{a.name}#{a.id}")
                self.inv[a] = iv
                self.axioms.append(iv * base == 1)
            z, e = iv, -e
        else:
            z = a.z
        self.need(a)
        r = z
        for _ in range(e - 1):
            r = r * z
        return r

    def need(self, a: Atom):
        if a in self.axioms_done:
            return
        self.axioms_done.add(a)
        if a.kind == "var":
            if a.meta:
                for f in a.meta:
                    self.axioms.append(f)
            return
        args = [self.z(x) for x in a.args]
        if a.kind == "inv":
            self.axioms.append(a.z * args[0] == 1)
        elif a.kind == "sqrt":
            self.axioms += [a.z >= 0, a.z * a.z == args[0]]
        elif a.kind == "exp":
            self.axioms += [a.z > 0, z3.Implies(args[0] > 0, a.z > 1), z3.Implies(args[0] < 0, a.z < 1)]
        elif a.kind in ("cos", "sin"):
            other = TABLE.fun("sin" if a.kind == "cos" else "cos", a.args[0])
            self.axioms_done.add(other)
            self.axioms.append(a.z * a.z + other.z * other.z == 1)
        elif a.kind == "floor":
            i = z3.ToReal(z3.Int(f"fl#{a.id}"))
            self.axioms += [a.z == i, i <= args[0], args[0] < i + 1]
        elif a.kind == "pos":
            self.axioms += [a.z >= 0, a.z >= args[0], z3.Or(a.z == 0, a.z == args[0])]
        elif a.kind == "pow":
            self.axioms += [z3.Implies(args[0] > 0, a.z > 0)]

    def z(self, s):
        if not isinstance(s, Sym):
            f = frac(s)
            return z3.RealVal(f"{f.numerator}/{f.denominator}")
        k = s._h if s._h is not None else hash(s)
        got = self.memo.get(k)
        if got is not None and got[0].t == s.t:
            return got[1]
        parts = []
        for m, c in s.t.items():
            fs = [self.atom_z(a, e) for a, e in m]
            r = None
            for f in fs:
                r = f if r is None else r * f
            if r is None:
                r = z3.RealVal(f"{c.numerator}/{c.denominator}")
            elif c != 1:
                r = z3.RealVal(f"{c.numerator}/{c.denominator}") * r
            parts.append(r)
        if not parts:
            out = z3.RealVal(0)
        elif len(parts) == 1:
            out = parts[0]
        else:
            out = z3.Sum(parts)
        self.memo[k] = (s, out)
        return out

    def sides(self, a, b, op):
        return Z3CMP[op](self.z(a), self.z(b))

    def rel(self, s, op):
        z = self.z(s)
        return {
            "eq": lambda: z == 0,
            "ne": lambda: z != 0,
            "lt": lambda: z < 0,
            "le": lambda: z <= 0,
            "gt": lambda: z > 0,
            "ge": lambda: z >= 0,
        }[op]()
