"""Symbolic values across files.

Writers of third parties (pandas, xarray, tables) want numbers.  While active,
every Sym written is replaced by a unique number and every such number read is
replaced by its Sym again.  The real writers, the real files and the real
readers are used; the code under test is not touched.
"""

from __future__ import annotations

from contextlib import contextmanager

import numpy as np
import pandas as pd

from .sym import Sym

BASE, STEP, FRAC = 7000.0, 1.0, 0.123456789


class Tokens:
    def __init__(self):
        self.syms = []
        self.where = {}

    # ---- writing
    def num(self, s):
        k = self.where.get(id(s))
        if k is None:
            k = self.where[id(s)] = len(self.syms)
            self.syms.append(s)
        return BASE + STEP * k + FRAC

    def enc_array(self, v):
        out = [self.num(x) if isinstance(x, Sym) else x for x in np.asarray(v, dtype=object).ravel()]
        if all(x is None or isinstance(x, (int, float, np.number)) and not isinstance(x, bool) for x in out):
            return np.array([np.nan if x is None else float(x) for x in out]).reshape(np.shape(v))
        r = np.empty(len(out), dtype=object)
        r[:] = out
        return r.reshape(np.shape(v))

    def enc(self, x):
        if isinstance(x, pd.DataFrame):
            if not any(d == object for d in x.dtypes):
                return x
            cols = []
            for j in range(x.shape[1]):
                s = x.iloc[:, j]
                cols.append(self.enc(s))
            out = pd.concat(cols, axis=1) if cols else x
            out.columns = x.columns
            return out
        if isinstance(x, pd.Series):
            if x.dtype == object and len(x) and all(isinstance(v, (Sym, float)) for v in x.values):
                return pd.Series(self.enc_array(x.values), index=x.index, name=x.name)
            if x.dtype == object and any(isinstance(v, Sym) for v in x.values):
                return pd.Series(self.enc_array(x.values), index=x.index, name=x.name)
            return x
        if hasattr(x, "data_vars"):
            out = x.copy()
            for v in list(out.data_vars):
                a = out[v]
                if a.dtype == object and any(isinstance(e, Sym) for e in a.values.ravel()):
                    b = a.copy(data=self.enc_array(a.values))
                    b.encoding = dict(a.encoding)
                    out[v] = b
            return out
        return x

    # ---- reading
    def back(self, v):
        if isinstance(v, (float, np.floating)) and v == v and BASE <= v < BASE + STEP * (len(self.syms) + 1):
            k = round((float(v) - BASE - FRAC) / STEP)
            t = BASE + STEP * k + FRAC
            if 0 <= k < len(self.syms) and abs(v - t) <= 1e-12 * t:
                return self.syms[k]
        return v

    def dec_array(self, v):
        if v.dtype.kind == "f" or v.dtype == object:
            out = [self.back(x) for x in v.ravel()]
            if any(isinstance(x, Sym) for x in out):
                r = np.empty(len(out), dtype=object)
                r[:] = out
                return r.reshape(v.shape)
        return v

    def dec(self, x):
        if isinstance(x, dict):
            return {k: self.dec(v) for k, v in x.items()}
        if isinstance(x, pd.Series):
            v = self.dec_array(x.values) if isinstance(x.values, np.ndarray) else x.values
            return x if v is x.values else pd.Series(v, index=x.index, name=x.name)
        if isinstance(x, pd.DataFrame):
            cols = {j: self.dec(x.iloc[:, j]) for j in range(x.shape[1])}
            if all(cols[j].dtype == x.dtypes.iloc[j] for j in cols):
                return x
            out = pd.concat(list(cols.values()), axis=1)
            out.columns, out.index = x.columns, x.index
            return out
        if hasattr(x, "data_vars"):
            x = x.load()
            for v in list(x.data_vars):
                a = x[v]
                if a.dtype.kind == "f" or a.dtype == object:
                    d = self.dec_array(a.values)
                    if d is not a.values and d.dtype == object and a.dtype != object:
                        x[v] = a.copy(data=d)
            return x
        return x


@contextmanager
def tokens(active=True):
    if not active:
        yield None
        return
    import xarray as xr

    t = Tokens()
    saved = []

    def patch(owner, name, make):
        orig = owner.__dict__.get(name, getattr(owner, name))
        saved.append((owner, name, orig))
        setattr(owner, name, make(orig))

    def writer(orig):
        def f(self, *a, **k):
            return orig(t.enc(self), *a, **k)

        return f

    def reader(orig):
        def f(*a, **k):
            return t.dec(orig(*a, **k))

        return f

    for cls in (pd.DataFrame, pd.Series):
        for m in ("to_csv", "to_excel"):
            patch(cls, m, writer)
    patch(pd.HDFStore, "put", lambda o: lambda self, key, value, *a, **k: o(self, key, t.enc(value), *a, **k))
    patch(pd.HDFStore, "__getitem__", reader)
    patch(xr.Dataset, "to_netcdf", writer)
    for mod, m in ((pd, "read_csv"), (pd, "read_excel"), (xr, "open_dataset")):
        patch(mod, m, reader)
    try:
        yield t
    finally:
        for owner, name, orig in reversed(saved):
            setattr(owner, name, orig)


@contextmanager
def object_attributes(n, active=True):
    """Let symbolic columns take the same branch as numbers: the expected type of
    a column that holds Syms is what the column has."""
    done = []
    if active:
        for comp in n.all_components:
            attrs = n.components[comp].attrs
            df = n.components[comp].static
            for col in df.columns:
                if col in attrs.index and df[col].dtype == object and any(isinstance(v, Sym) for v in df[col].values):
                    done.append((attrs, col, attrs.at[col, "dtype"]))
                    attrs.at[col, "dtype"] = np.dtype(object)
    try:
        yield
    finally:
        for attrs, col, d in done:
            attrs.at[col, "dtype"] = d
