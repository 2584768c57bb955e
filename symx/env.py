"""Shims that let numpy/pandas/linopy carry Syms in object arrays.

Nothing in /repo is replaced; only third-party helper functions that insist on
float dtype are made to accept object arrays holding Syms.  Concrete (float)
data takes the original code path.
"""

from __future__ import annotations

import math

import numpy as np
import pandas as pd

from .sym import CSym, Sym

_done = False


def _is_obj(x):
    if isinstance(x, pd.DataFrame):
        return any(d == object for d in x.dtypes)
    return getattr(x, "dtype", None) == object


def has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, pd.DataFrame):
        return any(has_sym(x.iloc[:, i]) for i in range(x.shape[1]) if x.dtypes.iloc[i] == object)
    if getattr(x, "dtype", None) == object:
        v = np.asarray(x, dtype=object).ravel()
        return any(isinstance(e, Sym) for e in v)
    return False


class UFuncShim:
    """np.isinf & co. on object data."""

    def __init__(self, orig, scalar):
        self._orig, self._scalar = orig, scalar
        self._v = np.frompyfunc(scalar, 1, 1)

    def __call__(self, x, *a, **k):
        if isinstance(x, Sym):
            return self._scalar(x)
        if _is_obj(x):
            if isinstance(x, pd.DataFrame):
                return x.map(self._scalar).astype(bool)
            if isinstance(x, pd.Series):
                return x.map(self._scalar).astype(bool)
            if isinstance(x, np.ndarray):
                return self._v(x).astype(bool)
            if hasattr(x, "copy") and hasattr(x, "dims"):
                return x.copy(data=self._v(x.values).astype(bool))
        return self._orig(x, *a, **k)

    def __getattr__(self, k):
        return getattr(self._orig, k)


class ObjUFunc:
    """np.sqrt & co.: original, but tolerate python numbers inside object arrays."""

    def __init__(self, orig, name):
        self._orig, self._name = orig, name

        def scalar(x):
            if isinstance(x, (Sym, CSym)):
                return getattr(x, name)()
            return orig(x)

        self._scalar = scalar
        self._v = np.frompyfunc(scalar, 1, 1)

    def __call__(self, x, *a, **k):
        if isinstance(x, (Sym, CSym)):
            return self._scalar(x)
        if _is_obj(x):
            if isinstance(x, pd.DataFrame):
                return x.map(self._scalar)
            if isinstance(x, pd.Series):
                return x.map(self._scalar)
            if isinstance(x, np.ndarray):
                return self._v(x)
            if hasattr(x, "copy") and hasattr(x, "dims"):
                return x.copy(data=self._v(x.values))
        return self._orig(x, *a, **k)

    def __getattr__(self, k):
        return getattr(self._orig, k)


def _fl(f):
    def g(x):
        if isinstance(x, Sym) or x is None or isinstance(x, str):
            return False
        return bool(f(float(x)))

    return g


def _isfin(x):
    if isinstance(x, Sym):
        return True
    return bool(math.isfinite(float(x)))


def patch_numpy():
    np.isinf = UFuncShim(np.isinf, _fl(math.isinf))
    np.isnan = UFuncShim(np.isnan, _fl(math.isnan))
    np.isfinite = UFuncShim(np.isfinite, _isfin)
    for nm in ("sqrt", "exp", "log", "cos", "sin", "deg2rad", "rad2deg"):
        setattr(np, nm, ObjUFunc(getattr(np, nm), nm))

    def part(nm, orig):
        v = np.frompyfunc(lambda x: getattr(x, nm), 1, 1)
        return lambda x: v(x) if getattr(x, "dtype", None) == object else orig(x)

    np.real, np.imag = part("real", np.real), part("imag", np.imag)

    norm_ = np.linalg.norm

    def norm(x, *a, **k):
        if has_sym(x):
            from .flow import residual

            return residual(x)
        if _is_obj(x):
            x = np.asarray(x, dtype=float)
        return norm_(x, *a, **k)

    np.linalg.norm = norm

    def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False, _o=np.isclose):
        if _is_obj(a) or _is_obj(b) or isinstance(a, Sym) or isinstance(b, Sym):
            return abs(a - b) <= 0
        return _o(a, b, rtol, atol, equal_nan)

    np.isclose = isclose


def patch_pandas():
    import pandas.core.dtypes.astype as A
    import pandas.core.internals.blocks as B

    def wrap(o):
        def astype_array(values, dtype, copy=False):
            if (
                isinstance(values, np.ndarray)
                and values.dtype == object
                and isinstance(dtype, np.dtype)
                and dtype.kind in "fiu"
                and has_sym(values)
            ):
                return values.copy() if copy else values
            return o(values, dtype, copy=copy)

        return astype_array

    A.astype_array = wrap(A.astype_array)

    # DataFrame.eval: object columns are evaluated in python, not handed to numexpr
    import pandas.core.computation.expr as X

    orig = X.BaseExprVisitor._maybe_evaluate_binop
    arith = ("+", "-", "*", "/", "**")

    def binop(self, op, op_class, lhs, rhs, eval_in_python=("in", "not in"), **kw):
        if object in (getattr(lhs, "return_type", None), getattr(rhs, "return_type", None)):
            eval_in_python = tuple(eval_in_python) + arith
        return orig(self, op, op_class, lhs, rhs, eval_in_python, **kw)

    X.BaseExprVisitor._maybe_evaluate_binop = binop
    import pandas.core.computation.ops as XO

    XO.Op.has_invalid_return_type = property(lambda self: False)
    import pandas.core.computation.eval as PE

    check_engine = PE._check_engine
    PE._check_engine = lambda engine: "python" if engine in (None, "numexpr") else check_engine(engine)

    # object columns divide as float columns do: x / 0 is inf or nan
    import operator

    import pandas.core.computation.expressions as EX

    evaluate = EX.evaluate

    def safe(a, b):
        try:
            return a / b
        except ZeroDivisionError:
            with np.errstate(all="ignore"):
                return float(np.float64(a) / np.float64(b))

    def evaluate_(op, a, b, *args, **k):
        try:
            return evaluate(op, a, b, *args, **k)
        except ZeroDivisionError:
            if op is not operator.truediv:
                raise
            return np.frompyfunc(safe, 2, 1)(a, b)

    EX.evaluate = evaluate_

    # clip / abs / round of object frames: no forking per element
    from .sym import sabs, smax, smin

    def frame_ops(cls):
        clip, absf, rnd = cls.clip, cls.abs, cls.round

        def clip_(self, lower=None, upper=None, **k):
            if not has_sym(self) or k or hasattr(lower, "index") or hasattr(upper, "index"):
                return clip(self, lower, upper, **k)

            def f(x):
                if not isinstance(x, Sym) and math.isnan(x):
                    return x
                x = x if lower is None else smax(x, lower)
                return x if upper is None else smin(x, upper)

            return self.map(f)

        def abs_(self):
            return self.map(sabs) if has_sym(self) else absf(self)

        def round_(self, decimals=0, *a, **k):
            if _is_obj(self):  # exact reals: rounding is outside every claim
                return self.copy()
            return rnd(self, decimals, *a, **k)

        cls.clip, cls.abs, cls.__abs__, cls.round = clip_, abs_, abs_, round_

    frame_ops(pd.DataFrame)
    frame_ops(pd.Series)

    # reductions (mean) of object columns convert their sum to a float
    from pandas.core import nanops

    numeric = nanops._ensure_numeric
    nanops._ensure_numeric = lambda x: x if isinstance(x, Sym) else numeric(x)

    # infer_objects / to_numeric style conversions keep Syms as they are


class NpProxy:
    """`np` as seen by one third-party module."""

    def __init__(self, **over):
        self.__dict__["_o"] = over

    def __getattr__(self, k):
        o = self.__dict__["_o"]
        return o[k] if k in o else getattr(np, k)


def _issubdtype(a, b):
    try:
        if np.dtype(a) == object and b in (np.floating, np.number):
            return True
    except TypeError:
        pass
    return np.issubdtype(a, b)


def patch_linopy():
    import linopy
    import linopy.common as C
    import linopy.constraints as K
    import linopy.expressions as E
    import linopy.model as M
    import linopy.variables as V

    E.np = NpProxy(issubdtype=_issubdtype)
    V.issubdtype = _issubdtype
    if hasattr(V, "np"):
        V.np = NpProxy(issubdtype=_issubdtype)

    orig = C.as_dataarray

    def as_dataarray(arr, *a, **k):
        if isinstance(arr, Sym):
            x = np.empty((), dtype=object)
            x[()] = arr
            arr = x
            import xarray as xr

            coords = k.get("coords", a[0] if a else None)
            dims = k.get("dims", a[1] if len(a) > 1 else None)
            da = xr.DataArray(arr)
            if coords is not None:
                try:
                    tmp = orig(0.0, *a, **k)
                    out = np.empty(tmp.shape, dtype=object)
                    out.fill(arr[()])
                    return tmp.copy(data=out)
                except Exception:
                    pass
            return da
        return orig(arr, *a, **k)

    for mod in (C, E, V, M, K, linopy):
        if getattr(mod, "as_dataarray", None) is orig:
            mod.as_dataarray = as_dataarray


def _obj(orig):
    """zeros/empty/full of floats as object arrays, which may hold Syms."""

    def make(shape, *a, **k):
        r = orig(shape, *a, **k)
        return r.astype(object) if r.dtype.kind in "fc" else r

    return make


class CArray(np.ndarray):
    """object array whose .real and .imag go element by element."""

    @property
    def real(self):
        return np.frompyfunc(lambda x: x.real, 1, 1)(self.view(np.ndarray))

    @property
    def imag(self):
        return np.frompyfunc(lambda x: x.imag, 1, 1)(self.view(np.ndarray))


def _has_csym(a):
    return any(isinstance(x, CSym) for x in a.ravel())


def patch_power_flow():
    import pypsa.contingency
    import pypsa.pf

    def obj(orig):
        make = _obj(orig)

        def f(shape, *a, **k):
            dt = k.get("dtype", a[0] if a and orig is not np.full else None)
            r = make(shape, *a, **k)
            return r.view(CArray) if dt in (complex, np.complex128, "complex") else r

        return f

    from .spm import SymMatrix

    def conj(x):
        return x.conjugate() if isinstance(x, SymMatrix) else np.conjugate(x)

    for mod in (pypsa.pf, pypsa.contingency):
        mod.np = NpProxy(zeros=obj(np.zeros), empty=obj(np.empty), full=obj(np.full), conj=conj, conjugate=conj)

    for cls in (pd.DataFrame, pd.Series):
        values = cls.values

        def get(self, values=values):
            v = values.__get__(self, type(self))
            if isinstance(v, np.ndarray) and v.dtype == object and _has_csym(v):
                return v.view(CArray)
            return v

        cls.values = property(get)


def patch():
    global _done
    if _done:
        return
    _done = True
    pd.set_option("future.no_silent_downcasting", True)
    patch_pandas()
    patch_linopy()
    patch_power_flow()
