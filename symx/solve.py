"""Stand-in for the external solver: returns an arbitrary answer.

Every variable gets a symbolic value (the same quantity `LP` uses for it) and
every constraint an arbitrary dual; a later solve gets fresh ones (`prefix`)."""

from __future__ import annotations

import math

import numpy as np
import xarray as xr

from .lp import LP, _cells


class Solver:
    """records the models it is given; `on_solve(k, lp)` may add constraints
    that the answer is assumed to satisfy."""

    def __init__(self, ctx, duals=True, status=("ok", "optimal"), on_solve=None, feasible=()):
        self.ctx, self.duals, self.status, self.on_solve = ctx, duals, status, on_solve
        self.runs = []
        self.dualv = []
        self.kw = []

    def install(self):
        import linopy

        self._orig = linopy.Model.solve
        me = self

        def solve(m, *a, **k):
            me.kw.append(k)
            return me.answer(m)

        linopy.Model.solve = solve
        return self

    def remove(self):
        import linopy

        linopy.Model.solve = self._orig

    def __enter__(self):
        return self.install()

    def __exit__(self, *a):
        self.remove()

    def answer(self, m):
        k = len(self.runs)
        pre = f"#{k} " if k else ""
        lp = LP(self.ctx, m, prefix=pre)
        self.runs.append(lp)
        st, cond = self.status(k) if callable(self.status) else self.status
        if self.on_solve:
            self.on_solve(k, lp)
        m._status = st
        m.termination_condition = cond
        dt = object if self.ctx.sym else float
        obj = self.ctx.real(f"{pre}objective value")
        m.objective._value = obj
        dv = {}
        self.dualv.append(dv)
        if st != "ok":
            return st, cond
        for name, v in m.variables.items():
            labels = v.labels
            out = np.empty(labels.shape, dtype=dt)
            flat = out.reshape(-1)
            cells = lp.cells[name]
            for i, key in enumerate(_cells(labels)):
                flat[i] = cells.get(key, math.nan)
            v.solution = xr.DataArray(out, labels.coords, dims=labels.dims)
        if (self.duals(k) if callable(self.duals) else self.duals):
            for name, c in m.constraints.items():
                labels = c.labels
                out = np.empty(labels.shape, dtype=dt)
                flat = out.reshape(-1)
                lab = labels.values.reshape(-1)
                for i, key in enumerate(_cells(labels)):
                    if lab[i] == -1:
                        flat[i] = math.nan
                        continue
                    x = self.ctx.lpvar(f"{pre}dual {name}[{','.join(map(str, key))}]")
                    flat[i] = x
                    dv[(name, key)] = x
                c.dual = xr.DataArray(out, labels.coords, dims=labels.dims)
        return st, cond

    def dual(self, k, name, *key):
        from .lp import coord_key

        return self.dualv[k].get((name, tuple(coord_key(x) for x in key)))
