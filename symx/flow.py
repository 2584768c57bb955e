"""Contract of the Newton iteration of the power flow.

While `newton(ctx)` is active the linear solve of a Newton step returns
arbitrary new iterates; once the residual depends on them the iteration is
taken to have converged: the residual is zero (exactly).  Everything around the
solves is the real code.  The Jacobian the code builds at the final iterate is
compared with the derivative of its residual.
"""

from __future__ import annotations

import contextlib

import numpy as np

from . import sym as S
from .formula import Rel, eq
from .sym import CSym, Sym, deriv, trig

STATE = None  # symbolic runs
PREFIX = "root"


class State:
    def __init__(self, ctx):
        self.ctx = ctx
        self.guess = None
        self.k = 0
        self.goals = []
        self.runs = 0


def _positive(g):
    if isinstance(g, Sym) and not g.is_const():
        q = S.ENGINE._quick_sign(g)
        return q is not None and q[0] > 0
    return float(g) == 1.0


def step(A, b):
    """the update of one iteration: new iterates are unknowns."""
    st = STATE
    n = len(b)
    g = st.guess if st.guess is not None else np.zeros(n, dtype=object)
    x = []
    for i in range(n):
        nm = f"{PREFIX}{st.k}[{i}]"
        x.append(S.ENGINE.real(nm, 0, None, lo_strict=True) if st.guess is not None and _positive(g[i])
                 else S.ENGINE.lpvar(nm))
    st.k += 1
    out = np.empty(n, dtype=object)
    for i in range(n):
        out[i] = g[i] - x[i]
    return out


def residual(F):
    """inf-norm of the residual: large before the step, zero after it."""
    if STATE is None:
        raise S.SymUnsupported("norm")
    new = [f for f in np.asarray(F, dtype=object).ravel()
           if isinstance(f, Sym) and any(a.name and a.name.startswith(f"{PREFIX}{STATE.k - 1}[") for a in f.base_atoms())]
    if not new:
        return 1.0
    for f in np.asarray(F, dtype=object).ravel():
        S.ENGINE.contract(Rel(trig(Sym.lift(f)), "eq"))
    return 0.0


@contextlib.contextmanager
def newton(ctx, jacobian=True):
    """yields a list of goals about the Jacobian."""
    global STATE
    import pypsa.pf as pf

    st = State(ctx)
    orig = getattr(pf, "newton_raphson_sparse", None)

    def wrapped(f, guess, dfdx, *a, **k):
        args = {}

        def f2(x, *a2, **k2):
            args["f"] = (a2, k2)
            return f(x, *a2, **k2)

        st.runs += 1
        st.guess = np.asarray(guess, dtype=object).copy()
        r = orig(f2, guess, dfdx, *a, **k)
        x = r[0]
        if jacobian and "f" in args:
            a2, k2 = args["f"]
            try:
                J = dfdx(x, *a2, **k2)
            except TypeError:
                return r
            J = getattr(J, "toarray", lambda: J)()
            nm = "the Jacobian is the derivative of the mismatch"
            if ctx.sym:
                F = [trig(Sym.lift(v)) for v in np.asarray(f(x, *a2, **k2), dtype=object).ravel()]
                for j, xj in enumerate(np.asarray(x, dtype=object).ravel()):
                    at = next(iter(xj.atoms()))
                    for i, v in enumerate(F):
                        d = trig(Sym.lift(J[i, j])) - trig(deriv(v, at))
                        st.goals.append(eq(trig(d), 0, f"{nm} [{i},{j}]"))
            else:
                h = 1e-6
                for j in range(len(x)):
                    e = np.zeros(len(x))
                    e[j] = h
                    d = (np.asarray(f(x + e, *a2, **k2)) - np.asarray(f(x - e, *a2, **k2))) / (2 * h)
                    for i in range(len(d)):
                        far = abs(d[i] - J[i, j]) > 1e-4 * max(1.0, abs(J).max())
                        st.goals.append(eq(float(far), 0, f"{nm} [{i},{j}]"))
                f(x, *a2, **k2)
        return r

    if orig is not None:
        pf.newton_raphson_sparse = wrapped
    if ctx.sym:
        STATE = st
    try:
        yield st
    finally:
        STATE = None
        if orig is not None:
            pf.newton_raphson_sparse = orig
