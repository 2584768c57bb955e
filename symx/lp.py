"""Read a linopy model into Syms (symbolic mode) or floats (concrete mode)."""

from __future__ import annotations

import itertools
import math

import numpy as np

from .formula import NumRel, Rel, _rel
from .sym import Sym


def coord_key(v):
    if isinstance(v, tuple):
        return tuple(coord_key(x) for x in v)
    if isinstance(v, np.datetime64):
        return str(v)
    if isinstance(v, np.generic):
        return v.item()
    return v


def _cells(da):
    """iterate (coords tuple, position) of a DataArray with index coords."""
    idx = []
    for d in da.dims:
        if d in da.indexes:
            idx.append([coord_key(x) for x in da.indexes[d]])
        else:
            idx.append(list(range(da.sizes[d])))
    return list(itertools.product(*idx))


class LP:
    def __init__(self, ctx, m, prefix=""):
        self.ctx, self.m = ctx, m
        self.by_label = {}
        self.cells = {}
        self.dims = {}
        self.rels = []
        self.groups = {}
        self.prefix = prefix
        self.kinds = {}
        for name, v in m.variables.items():
            labels = v.labels
            self.dims[name] = tuple(labels.dims)
            low = np.broadcast_to(_arr(v.lower, labels), labels.shape).ravel()
            up = np.broadcast_to(_arr(v.upper, labels), labels.shape).ravel()
            binary = bool(v.attrs.get("binary", False))
            integer = bool(v.attrs.get("integer", False))
            self.kinds[name] = "binary" if binary else "integer" if integer else "continuous"
            out = {}
            for key, lab, lo, hi in zip(_cells(labels), labels.values.ravel(), low, up):
                if lab == -1 or (isinstance(lab, float) and math.isnan(lab)):
                    continue
                vk = f"{prefix}{name}[{','.join(map(str, key))}]"
                x = ctx.lpvar(vk, binary=binary, integer=integer)
                out[key] = x
                self.by_label[int(lab)] = x
                if binary:
                    self._bound(x, 0, 1, vk, name)
                else:
                    self._bound(x, lo, hi, vk, name)
            self.cells[name] = out
        for name, c in m.constraints.items():
            self._con(name, c)
        self.objective = self._expr(m.objective.expression)

    def _add(self, rel, group):
        self.rels.append(rel)
        self.groups.setdefault(group, []).append(rel)

    def _bound(self, x, lo, hi, vk, group):
        for b, op in ((lo, "ge"), (hi, "le")):
            if not isinstance(b, Sym):
                b = float(b)
                if math.isinf(b) and (b < 0) == (op == "ge"):
                    continue
            self._add(_rel(x, b, op, f"bound {vk}"), f"{group}-bound")

    def _con(self, name, c):
        d = c.data
        labels = d.labels
        dims = labels.dims
        coeffs = d.coeffs.transpose(*dims, "_term").values
        vars_ = d.vars.transpose(*dims, "_term").values
        sign = np.broadcast_to(_arr(d.sign, labels), labels.shape)
        rhs = np.broadcast_to(_arr(d.rhs, labels), labels.shape)
        nt = coeffs.shape[-1]
        coeffs = coeffs.reshape(-1, nt)
        vars_ = vars_.reshape(-1, nt)
        for i, (key, lab, sg, r) in enumerate(
            zip(_cells(labels), labels.values.ravel(), sign.ravel(), rhs.ravel())
        ):
            if lab == -1:
                continue
            if (vars_[i] == -1).all():
                continue  # linopy never passes rows without a variable to a solver
            lhs = self._lin(coeffs[i], vars_[i])
            if not isinstance(r, Sym) and math.isnan(float(r)):
                self._add(_rel(1.0, 0.0, "eq", f"{name}{key}: rhs is nan"), name)
                continue
            op = {"=": "eq", "==": "eq", "<=": "le", ">=": "ge", "<": "le", ">": "ge"}[str(sg)]
            self._add(_rel(lhs, r, op, f"{name}{list(key)}"), name)

    def _lin(self, coeffs, vars_):
        tot = 0
        scale = 0.0
        for co, va in zip(coeffs, vars_):
            if va == -1 or (isinstance(va, float) and math.isnan(va)):
                continue
            t = co * self.by_label[int(va)]
            tot = tot + t
        return tot

    def _expr(self, e):
        if "_factor" in e.vars.dims:
            v = e.vars.transpose(..., "_factor").values.reshape(-1, e.vars.sizes["_factor"])
            co = e.coeffs.values.ravel()
            tot = 0
            for c, fs in zip(co, v):
                t = c
                used = False
                for f in fs:
                    if f != -1:
                        t = t * self.by_label[int(f)]
                        used = True
                if used:
                    tot = tot + t
            return tot
        coeffs = e.coeffs.values.ravel()
        vars_ = e.vars.values.ravel()
        c = e.const
        if hasattr(c, "values"):
            c = np.asarray(c.values).ravel()
            c = sum(c) if len(c) else 0
        return self._lin(coeffs, vars_) + c

    def get(self, name, *key):
        """value of one variable; None when it does not exist."""
        d = self.cells.get(name)
        if d is None:
            return None
        return d.get(tuple(coord_key(k) for k in key))


def _arr(da, like):
    if tuple(da.dims) != tuple(like.dims):
        da = da.broadcast_like(like).transpose(*like.dims)
    return da.values
