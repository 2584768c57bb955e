"""Path-exploring engine: re-executes a harness, forking on undetermined
comparisons, and discharges obligations with z3 on every path."""

from __future__ import annotations

import math
import random
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import sym as S
from .formula import And, Bool, F, Or, Rel, cleared
from .sym import Atom, Sym, Z3Ctx, frac


class PathEnd(BaseException):
    """Infeasible path / path budget exhausted."""


class Budget(BaseException):
    pass


class Stats:
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.forks = 0
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.discharged = 0
        self.by_level = {"linear": 0, "nonlinear": 0, "concretised": 0}
        self.inconclusive = []
        self.concretised = []
        self.incomplete = []
        self.reach = 0


def zval(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return Fraction(v.numerator_as_long(), v.denominator_as_long())


class Candidate:
    def __init__(self, goal_name, values, desc):
        self.goal_name = goal_name
        self.values = values  # name -> float for base inputs
        self.desc = desc


class Engine:
    """One exploration (one structural configuration of one scenario)."""

    def __init__(self, seed=1, max_paths=64, deadline=None, q_timeout=8000, stats=None):
        self.rng = random.Random(seed)
        self.max_paths = max_paths
        self.deadline = deadline or (time.time() + 600)
        self.q_timeout = q_timeout
        self.stats = stats or Stats()
        self.inputs: dict[str, Atom] = {}
        self.bounds: dict[Atom, tuple] = {}
        self.prefix: list = []
        self.trace: list = []
        self.candidates: list[Candidate] = []
        self.typ: dict[Atom, tuple] = {}  # usual ranges, for samples and counterexamples

    # ---- exploration -------------------------------------------------
    def explore(self, fn):
        """fn(engine): run one path, raising on failure."""
        stack = [[]]
        n = 0
        while stack:
            if n >= self.max_paths or time.time() > self.deadline:
                self.stats.incomplete.append(f"{len(stack)} unexplored branch(es) after {n} paths")
                break
            self.prefix = stack.pop()
            self.trace = []
            self.alts = []
            self.reset_path()
            S.set_engine(self)
            n += 1
            self.stats.paths += 1
            try:
                fn(self)
            except PathEnd:
                pass
            for a in self.alts:
                stack.append(a)
        return n

    def reset_path(self):
        self.zc = Z3Ctx()
        self.solver = z3.Solver()
        self.solver.set("timeout", 3000)
        self.n_ax = 0
        self.pc: list[Rel] = []
        self.known: dict = {}
        self.env: dict = {}  # concretised atoms
        self.n_solves = 0
        self.solves: dict = {}
        self.contracts: set = set()  # formulas the search for inputs leaves to the real code

    # ---- inputs --------------------------------------------------------
    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False, kind="param"):
        a = self.inputs.get(name)
        if a is None:
            a = Atom(name)
            self.inputs[name] = a
        self.bounds[a] = (lo, hi, lo_strict, hi_strict)
        s = Sym.atom(a)
        if lo is not None:
            self.assume(Rel(s - lo, "gt" if lo_strict else "ge"))
        if hi is not None:
            self.assume(Rel(s - hi, "lt" if hi_strict else "le"))
        return s

    def integer(self, a):
        self.solver.add(*a.meta)

    def lpvar(self, name, lo=None, hi=None, integer=False, binary=False):
        a = self.inputs.get(name)
        if a is None:
            a = Atom(name)
            self.inputs[name] = a
            if binary:
                a.meta = [z3.Or(a.z == 0, a.z == 1)]
            elif integer:
                a.meta = [z3.IsInt(a.z)]
        return Sym.atom(a)

    def assume(self, f: F):
        if isinstance(f, Bool):
            if not f.v:
                raise PathEnd()
            return
        if isinstance(f, Rel) and Sym.lift(f.s).is_const():
            if not S._CMP[f.op](Sym.lift(f.s).cval()):
                raise PathEnd()
            return
        self.pc.append(f)
        z = f.z(self.zc)
        self._sync()
        self.solver.add(z)

    def contract(self, f: F):
        """a fact about results of a numerical routine (a root of f); not
        used to decide branches or to find inputs."""
        if isinstance(f, Rel) and Sym.lift(f.s).is_const():
            return self.assume(f)
        self.pc.append(f)
        self.contracts.add(id(f))

    def _free(self):
        return [f for f in self.pc if id(f) not in self.contracts]

    def _usual(self):
        return [And(Rel(Sym.atom(a) - lo, "ge"), Rel(Sym.atom(a) - hi, "le")) for a, (lo, hi) in self.typ.items()]

    def _sample(self):
        """inputs in their usual ranges that satisfy the conditions of the path."""
        s, zc = self._new_solver(self._free() + self._usual(), 3000)
        if self._check(s) != z3.sat:
            return None
        s.set("timeout", 500)
        for a, (lo, hi) in self.typ.items():
            v = Fraction(round(self.rng.uniform(float(lo), float(hi)) * 256), 256)
            s.push()
            s.add(a.z == z3.RealVal(str(v)))
            if self._check(s) != z3.sat:
                s.pop()
        if self._check(s) != z3.sat:
            return None
        return self._values(s.model(), zc)

    def _sync(self):
        ax = self.zc.axioms
        while self.n_ax < len(ax):
            self.solver.add(ax[self.n_ax])
            self.n_ax += 1

    # ---- decisions -------------------------------------------------------
    def _quick_sign(self, s: Sym):
        """'+', '-', or None, by sign of atoms."""
        sg = None
        strict = False
        for m, c in s.t.items():
            p = 1 if c > 0 else -1
            st = True
            for a, e in m:
                if e % 2 == 0:
                    if not self._nz(a):
                        st = False
                    continue
                x = self._asign(a)
                if x is None:
                    return None
                k, is_strict = x
                p *= k
                if not is_strict:
                    st = False
            if sg is None:
                sg = p
            elif sg != p:
                return None
            strict = strict or st
        return (sg, strict)

    def _nz(self, a):
        x = self._asign(a)
        return x is not None and x[1]

    def _asign(self, a):
        if a.kind in ("sqrt", "pos"):
            return (1, False)
        if a.kind == "exp":
            return (1, True)
        if a.kind == "inv":
            q = self._quick_sign(a.args[0])
            return (q[0], True) if q else None
        b = self.bounds.get(a)
        if b is None:
            return None
        lo, hi, ls, hs = b
        if lo is not None and lo >= 0:
            return (1, lo > 0 or ls)
        if hi is not None and hi <= 0:
            return (-1, hi < 0 or hs)
        return None

    def decide(self, s: Sym, op: str) -> bool:
        """Truth of (s op 0) on this path; forks when undetermined."""
        if self.env and any(a in self.env for a in s.base_atoms()):
            s = s.subs(self.env)
        if s.is_const():
            return S._CMP[op](s.cval())
        self.stats.decisions += 1
        q = self._quick_sign(s)
        if q is not None:
            sg, strict = q
            if strict:
                return S._CMP[op](sg)
            # weak sign
            if sg > 0 and op == "ge" or sg < 0 and op == "le":
                return True
            if sg > 0 and op == "lt" or sg < 0 and op == "gt":
                return False
        # canonical: scale so the leading coefficient is 1
        lead = min(s.key())[1]
        if lead != 1:
            s = Sym({m: c / abs(lead) for m, c in s.t.items()})
            if lead < 0:
                s = -s
                op = {"eq": "eq", "ne": "ne", "lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}[op]
        negate = False
        if op in ("ne", "ge", "gt"):
            op, negate = {"ne": ("eq", True), "ge": ("lt", True), "gt": ("le", True)}[op]
        k = (s.key(), op)
        if k in self.known:
            return self.known[k] != negate
        f = Rel(s, op)
        z = f.z(self.zc)
        self._sync()
        zt = self._feasible(z)
        zf = self._feasible(z3.Not(z)) if zt else True
        if zt and not zf:
            r = True
        elif not zt:
            r = False
        else:
            i = len(self.trace)
            self.stats.forks += 1
            if i < len(self.prefix):
                r = self.prefix[i]
            else:
                r = op != "eq"
                self.alts.append(self.trace + [not r])
            self.trace = self.trace + [r]
            g = f if r else f.neg()
            self.pc.append(g)
            self.solver.add(z if r else z3.Not(z))
        self.known[k] = r
        return r != negate

    def choose(self, n: int) -> int:
        """structural n-ary choice explored exhaustively."""
        i = len(self.trace)
        if i < len(self.prefix):
            r = self.prefix[i]
        else:
            r = 0
            for k in range(n - 1, 0, -1):
                self.alts.append(self.trace + [k])
        self.trace = self.trace + [r]
        return r

    def _feasible(self, z):
        self.stats.queries += 1
        t = time.time()
        r = self.solver.check(z)
        self.stats.solver_s += time.time() - t
        return r != z3.unsat

    def concretise(self, s: Sym) -> float:
        for a in sorted(s.base_atoms(), key=lambda a: a.id):
            if a not in self.env:
                v = self._pick(a)
                self.env[a] = v
                self.assume(Rel(Sym.atom(a) - v, "eq"))
                where = "".join(traceback.format_stack(limit=12))
                loc = [l.strip() for l in where.splitlines() if "/repo/" in l or "/linopy/" in l]
                self.stats.concretised.append(f"{a.name} at {loc[-1] if loc else '?'}")
        r = s.subs(self.env)
        if not r.is_const():
            r = Sym.const(S.evalf(r, {}))
        return float(r.cval())

    def _pick(self, a):
        lo, hi, _, _ = self.bounds.get(a, (None, None, False, False))
        lo = -10 if lo is None else lo
        hi = lo + 10 if hi is None else hi
        for _ in range(6):
            v = Fraction(self.rng.randint(1, 97), 98) * (frac(hi) - frac(lo)) + frac(lo)
            v = Fraction(round(v * 1000), 1000)
            if self._feasible(a.z == z3.RealVal(str(v))):
                return v
        self.solver.check()
        return zval(self.solver.model(), a.z)

    # ---- obligations -----------------------------------------------------
    def prove(self, name, goals, given=()):
        """Every goal follows from path condition + given, for all values."""
        given = [g for g in given]
        goals = list(goals)
        if self.env:
            given = [g.subs(self.env) for g in given]
            goals = [g.subs(self.env) for g in goals]
        goals2 = []
        for g in goals:
            self.stats.obligations += 1
            if isinstance(g, Bool) and g.v:
                self.stats.discharged += 1
                continue
            goals2.append(g)
        if not goals2:
            return True
        pc = [f.subs(self.env) if self.env else f for f in self.pc]
        # L1: linear abstraction, all goals at once, then one by one
        lin = LinAbs(self, pc + given)
        if lin.unsat([Or(*[g.neg() for g in goals2])]):
            self.stats.discharged += len(goals2)
            self.stats.by_level["linear"] += len(goals2)
            return True
        ok = True
        for g in goals2:
            if len(goals2) > 1 and lin.unsat([g.neg()]):
                self.stats.discharged += 1
                self.stats.by_level["linear"] += 1
                continue
            h = cleared(g)
            if h is not None and lin.unsat([h.neg()]):
                self.stats.discharged += 1
                self.stats.by_level["linear"] += 1
                continue
            r = self._prove_nl(name, pc, given, g, lin)
            ok = ok and r
        return ok

    def _new_solver(self, fs, timeout=None):
        zc = Z3Ctx()
        zs = [f.z(zc) for f in fs]
        s = z3.Solver()
        s.set("timeout", timeout or self.q_timeout)
        s.add(*zs)
        s.add(*zc.axioms)
        return s, zc

    def _check(self, s):
        self.stats.queries += 1
        t = time.time()
        r = s.check()
        self.stats.solver_s += time.time() - t
        return r

    def _prove_nl(self, name, pc, given, g, lin):
        gname = f"{name}: {getattr(g, 'name', None) or ''}"
        if self.contracts:  # the real routine is run on inputs of this path
            found = False
            for _ in range(3):
                v = self._sample()
                if v is not None:
                    found = True
                    self.candidates.append(Candidate(gname, v, repr(g)[:600]))
            if not found:
                self.stats.inconclusive.append(gname)
            return False
        s, zc = self._new_solver(pc + given + [g.neg()])
        r = self._check(s)
        if r == z3.unsat:
            self.stats.discharged += 1
            self.stats.by_level["nonlinear"] += 1
            return True
        cand = None
        if r == z3.sat:
            cand = self._robust(pc, given, g) or self._robust_conc(pc, given, g) or (s.model(), zc)
            cand = self._values(*cand) if not isinstance(cand, dict) else cand
        else:
            cand = self._robust(pc, given, g)
            if cand:
                cand = self._values(*cand)
            else:
                tag = []
                cand = self._robust_conc(pc, given, g, tag)
                if cand is None:
                    self.stats.inconclusive.append(gname)
                    if tag:
                        self.stats.by_level["concretised"] += 1
                    return True
        self.candidates.append(Candidate(gname, cand, repr(g)[:600]))
        return False

    def _box(self, fs, b):
        at = set()
        for f in fs:
            for s in f.syms():
                if isinstance(s, Sym):
                    at |= s.base_atoms()
        out = []
        for a in at:
            out.append(And(Rel(Sym.atom(a) - b, "le"), Rel(Sym.atom(a) + b, "ge")))
        return out

    def _robust(self, pc, given, g):
        for m, b in ((1, 1000), (Fraction(1, 20), 100), (Fraction(1, 1000), 10000)):
            fs = pc + given + [g.margin(m)]
            s, zc = self._new_solver(fs + self._box(fs, b), 3000)
            if self._check(s) == z3.sat:
                return s.model(), zc
        return None

    def _robust_conc(self, pc, given, g, tag=None):
        """concretise the parameters (atoms with bounds) and look for a cex."""
        for _ in range(4):
            env = {}
            s, zc = self._new_solver(pc, 3000)
            ok = True
            if self._check(s) != z3.sat:
                return None
            s.set("timeout", 500)
            for a in list(self.bounds):
                if a in self.env:
                    continue
                lo, hi, _, _ = self.bounds[a]
                lo = -10 if lo is None else lo
                hi = lo + 10 if hi is None else hi
                v = Fraction(round(self.rng.uniform(float(lo), float(hi)) * 64), 64)
                s.push()
                s.add(a.z == z3.RealVal(str(v)))
                if self._check(s) == z3.sat:
                    env[a] = v
                else:
                    s.pop()
                    if self._check(s) == z3.sat:
                        v = zval(s.model(), a.z)
                        s.add(a.z == z3.RealVal(str(v)))
                        env[a] = v
                    else:
                        ok = False
                        break
            if not ok:
                continue
            try:
                fs = [f.subs(env) for f in pc + given]
                gg = g.subs(env)
            except (SymErr, ZeroDivisionError):
                continue
            for m, b in ((1, 1000), (Fraction(1, 1000), 10000)):
                f2 = fs + [gg.margin(m)]
                s2, zc2 = self._new_solver(f2 + self._box(f2, b), 5000)
                r = self._check(s2)
                if r == z3.sat:
                    vals = self._values(s2.model(), zc2)
                    for a, v in env.items():
                        vals[a.name] = float(v)
                    return vals
                if r == z3.unsat and tag is not None:
                    tag.append(1)
        return None

    def _values(self, m, zc):
        out = {}
        for name, a in self.inputs.items():
            if a in self.env:
                out[name] = float(self.env[a])
            else:
                out[name] = float(zval(m, a.z))
        return out

    def path_values(self):
        """some input values that drive execution down the current path."""
        if self.typ:
            return self._sample()
        for b in (100, 10000, None):
            fs = list(self.pc)
            s, zc = self._new_solver(fs + (self._box(fs, b) if b else []), 3000)
            if self._check(s) == z3.sat:
                return self._values(s.model(), zc)
        return None

    def reachable(self, given=()):
        """vacuity twin: pc + given must be satisfiable."""
        s, zc = self._new_solver(self._free() + list(given), self.q_timeout)
        r = self._check(s)
        if r == z3.sat:
            self.stats.reach += 1
            return True
        if r == z3.unsat:
            return False
        v = self._robust_conc(list(self.pc), list(given), Bool(False))
        if v is not None:
            self.stats.reach += 1
            return True
        return None


SymErr = S.SymUnsupported


class LinAbs:
    """Linear abstraction: every non-linear monomial is an opaque real."""

    def __init__(self, eng, base):
        self.eng = eng
        self.m = {}
        self.atoms = set()
        self.zc = self
        self.ax = []
        self.s = z3.Solver()
        self.s.set("timeout", 10000)
        self.s.add(*[f.z(self) for f in base])
        self._flush()

    def _flush(self):
        if self.ax:
            self.s.add(*self.ax)
            self.ax = []

    def mono(self, m):
        z = self.m.get(m)
        if z is None:
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                z = a.z
                if a.meta:
                    self.ax += a.meta
            else:
                z = z3.FreshReal("m")
            q = self.eng._quick_sign(Sym({m: Fraction(1)}))
            if q:
                sg, st = q
                self.ax.append((z > 0 if st else z >= 0) if sg > 0 else (z < 0 if st else z <= 0))
            self.m[m] = z
        return z

    def rel(self, s, op):
        s = Sym.lift(s)
        if s.is_const():
            return z3.BoolVal(S._CMP[op](s.cval()))
        z = self.term(s)
        return S.Z3CMP[op](z, 0)

    def sides(self, a, b, op):
        return S.Z3CMP[op](self.term(a), self.term(b))

    def term(self, s):
        if not s.t:
            return z3.RealVal(0)
        parts = []
        for m, c in s.t.items():
            cv = z3.RealVal(f"{c.numerator}/{c.denominator}")
            if m == S.ONE:
                parts.append(cv)
            elif c == 1:
                parts.append(self.mono(m))
            else:
                parts.append(cv * self.mono(m))
        return parts[0] if len(parts) == 1 else z3.Sum(parts)

    def unsat(self, fs):
        zs = [f.z(self) for f in fs]
        self._flush()
        self.s.push()
        self.s.add(*zs)
        self.eng.stats.queries += 1
        t = time.time()
        r = self.s.check()
        self.eng.stats.solver_s += time.time() - t
        self.s.pop()
        return r == z3.unsat
