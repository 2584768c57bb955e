"""Harness context: the same scenario code runs symbolically (shimmed
third-party libraries, Syms in object arrays) and concretely (nothing
shimmed, floats) for validation and replay."""

from __future__ import annotations

import math

import numpy as np
import pandas as pd

from .formula import F, NumRel, Rel, _rel, eq
from .sym import Sym, evalf, frac


class Skip(Exception):
    """The concrete values do not satisfy the harness' assumptions."""


class Ctx:
    def __init__(self, eng=None, values=None, conc=None):
        self.eng = eng  # symbolic mode
        self.values = values or {}
        self.conc = conc  # random.Random: parameters concrete, LP variables symbolic
        self.conc_values = {}
        self.failed = []  # concrete mode
        self.n_goals = 0
        self.fp = []
        self.lpkeys = []
        self.pending = []

    @property
    def sym(self):
        return self.eng is not None

    @property
    def symparams(self):
        return self.eng is not None and self.conc is None

    # ---- inputs ----------------------------------------------------------
    def real(self, name, lo=None, hi=None, strict=False, typ=None):
        """symbolic input in [lo, hi] (open interval if strict); samples are
        drawn from the range typ."""
        if self.symparams:
            if typ is not None:
                s = self.eng.real(name, lo, hi, lo_strict=strict and lo is not None, hi_strict=strict and hi is not None)
                self.eng.typ[next(iter(s.atoms()))] = typ
                return s
            return self.eng.real(name, lo, hi, lo_strict=strict and lo is not None,
                                 hi_strict=strict and hi is not None)
        if self.sym:
            lo, hi = typ or (lo, hi)
            if name not in self.conc_values:
                a = -8.0 if lo is None else float(lo)
                b = a + 12.0 if hi is None else float(hi)
                k = self.conc.randint(1, 31)
                self.conc_values[name] = a + (b - a) * k / 32.0
            return self.conc_values[name]
        lo, hi = typ or (lo, hi)
        if name not in self.values:
            a = -8.0 if lo is None else float(lo)
            b = a + 12.0 if hi is None else float(hi)
            self.values[name] = a + (b - a) * (sum(map(ord, name)) % 29 + 1) / 31.0
        return float(self.values[name])

    def int(self, name, lo, hi):
        """symbolic whole number in [lo, hi]."""
        if self.symparams:
            s = self.eng.real(name, lo, hi)
            a = next(iter(s.atoms()))
            if not a.meta:
                import z3

                a.meta = [z3.IsInt(a.z)]
                self.eng.integer(a)
            return s
        v = round(self.real(name, lo, hi))
        (self.conc_values if self.sym else self.values)[name] = v
        return v

    def pos(self, name, hi=None):
        return self.real(name, 0, hi, strict=True)

    def reals(self, name, k, lo=None, hi=None, strict=False):
        return [self.real(f"{name}_{i}", lo, hi, strict) for i in range(k)]

    def assume(self, f: F):
        if self.symparams:
            self.eng.assume(f)
        elif self.sym:
            if not f.holds({}, 1e-12, {}):
                raise Skip(str(f))
        elif not f.holds({}, 1e-9, {}):
            raise Skip(str(f))

    def lpvar(self, key, binary=False, integer=False):
        if self.sym:
            return self.eng.lpvar(key, binary=binary, integer=integer)
        return float(self.values.get(key, 0.0))

    # ---- network construction -------------------------------------------
    def add(self, n, comp, name, **attrs):
        plain = {}
        for k, v in attrs.items():
            if isinstance(v, Sym):
                self.pending.append((comp, name, k, v))
            elif isinstance(v, (list, tuple)) and any(isinstance(x, Sym) for x in v):
                self.pending.append((comp, name, k, list(v)))
            elif isinstance(v, (list, tuple)):
                plain[k] = np.array(v, dtype=float)
            else:
                plain[k] = v
        n.add(comp, name, **plain)

    def finish(self, n):
        """write the collected symbolic attributes into object columns."""
        import pypsa  # noqa: F401

        for comp, name, k, v in self.pending:
            c = n.components[comp]
            if isinstance(v, Sym):
                df = c.static
                if k not in df.columns:
                    df[k] = pd.Series(np.nan, index=df.index)
                if df[k].dtype != object:
                    df[k] = df[k].astype(object)
                df.at[name, k] = v
            else:
                fr = c.dynamic[k]
                col = pd.Series(v, index=n.snapshots, dtype=object)
                fr = fr.astype(object)
                fr[name] = col
                fr.index = n.snapshots
                fr.columns.name = c.dynamic[k].columns.name
                c.dynamic[k] = fr
        self.pending = []
        if self.symparams:
            n.consistency_check = lambda *a, **k: None
        return n

    def weightings(self, n, objective=None, generators=None, stores=None):
        w = n.snapshot_weightings
        for col, vals in (("objective", objective), ("generators", generators), ("stores", stores)):
            if vals is None:
                continue
            if any(isinstance(v, Sym) for v in vals):
                w[col] = pd.Series(list(vals), index=n.snapshots, dtype=object)
            else:
                w[col] = [float(v) for v in vals]

    # ---- obligations -------------------------------------------------------
    def prove(self, name, goals, given=()):
        goals = list(goals)
        given = list(given)
        if self.sym:
            if self.symparams:
                return self.eng.prove(name, goals, given)
            return self.eng.prove(name, goals, given)
        self.n_goals += len(goals)
        cache = {}
        if not all(g.holds({}, 1e-9, cache) for g in given):
            return None
        ok = True
        for g in goals:
            if not g.holds({}, self.tol, cache):
                self.failed.append((name, getattr(g, "name", None) or "", repr(g)[:400]))
                ok = False
        return ok

    tol = 1e-7

    def reach(self, given=()):
        if not self.fp:  # have the goals evaluated once at concrete inputs by the unshimmed code
            self.fp.append(1.0)
        if self.symparams:
            r = self.eng.reachable(given)
            if r is False:
                self.eng.stats.inconclusive.append("VACUOUS: assumptions unsatisfiable")
            return r
        return True

    def fingerprint(self, vals):
        self.fp.extend(vals)


def isnan(x):
    if isinstance(x, Sym):
        return False
    if x is None:
        return True
    return math.isnan(float(x))
