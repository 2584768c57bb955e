"""Dense object-array stand-in for scipy.sparse matrices holding Syms, and the
linear-solve contract (fresh x with A x = b, A assumed nonsingular)."""

from __future__ import annotations

import itertools

import numpy as np
import pandas as pd
import scipy.sparse as sp
import scipy.sparse.linalg as spl

from . import sym as S
from .formula import Rel
from .sym import CSym, Sym


def is_objdata(x):
    if isinstance(x, (Sym, CSym, SymMatrix)):
        return True
    if isinstance(x, pd.DataFrame):
        return any(d == object for d in x.dtypes)
    if getattr(x, "dtype", None) == object:
        return True
    if isinstance(x, (list, tuple)):
        return any(is_objdata(y) for y in x)
    return False


def dense(x):
    if isinstance(x, SymMatrix):
        return x.a
    if sp.issparse(x):
        return x.toarray().astype(object)
    if isinstance(x, (pd.Series, pd.DataFrame)):
        return x.to_numpy().astype(object)
    return np.asarray(x, dtype=object)


def _iszero(v):
    if isinstance(v, Sym):
        return v.is_const() and v.cval() == 0
    if isinstance(v, CSym):
        return _iszero(v.re) and _iszero(v.im)
    return v == 0


def dot(a, b):
    """object matrix product that skips structural zeros."""
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    va, vb = a.ndim == 1, b.ndim == 1
    A = a.reshape(1, -1) if va else a
    B = b.reshape(-1, 1) if vb else b
    if A.shape[1] != B.shape[0]:
        raise ValueError("dimension mismatch")
    out = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        nz = [k for k in range(A.shape[1]) if not _iszero(A[i, k])]
        for j in range(B.shape[1]):
            t = 0.0
            for k in nz:
                if not _iszero(B[k, j]):
                    t = t + A[i, k] * B[k, j]
            out[i, j] = t
    if va and vb:
        return out[0, 0]
    if va:
        return out[0]
    if vb:
        return out[:, 0]
    return out


class SymMatrix:
    """scipy.sparse *matrix* semantics (``*`` is the matrix product)."""

    __array_priority__ = 10.5
    __array_ufunc__ = None

    def __init__(self, a):
        a = np.asarray(a, dtype=object)
        if a.ndim == 1:
            a = a.reshape(1, -1)
        self.a = a

    # structure
    @property
    def shape(self):
        return self.a.shape

    ndim = 2
    dtype = np.dtype(object)

    @property
    def size(self):
        return self.nnz

    @property
    def nnz(self):
        return sum(not _iszero(v) for v in self.a.ravel())

    @property
    def T(self):
        return SymMatrix(self.a.T)

    def transpose(self):
        return self.T

    def __len__(self):
        raise TypeError("sparse matrix length is ambiguous")

    def __getitem__(self, k):
        if not isinstance(k, tuple):
            k = (k, slice(None))
        k = tuple(np.asarray(x) if isinstance(x, (list, pd.Index, pd.Series)) else x for x in k)
        r = self.a[k]
        if isinstance(r, np.ndarray):
            if r.ndim == 1:
                r = r.reshape(1, -1) if isinstance(k[0], (int, np.integer)) else r.reshape(-1, 1)
            return SymMatrix(r)
        return r

    def __setitem__(self, k, v):
        if sp.issparse(v) or isinstance(v, SymMatrix):
            v = dense(v)
        self.a[k] = v

    def _same(self):
        return self

    def tocsr(self, *a, **k):
        return self

    tocsc = tocoo = todok = tolil = copy = asformat = tocsr

    def toarray(self):
        return self.a.copy()

    todense = toarray

    @property
    def A(self):
        return self.toarray()

    @property
    def row(self):
        return self._coo()[0]

    @property
    def col(self):
        return self._coo()[1]

    @property
    def data(self):
        return self._coo()[2]

    def _coo(self):
        r, c, d = [], [], []
        # column-major like csc
        for j in range(self.a.shape[1]):
            for i in range(self.a.shape[0]):
                if not _iszero(self.a[i, j]):
                    r.append(i)
                    c.append(j)
                    d.append(self.a[i, j])
        dd = np.empty(len(d), dtype=object)
        dd[:] = d
        return np.array(r, dtype=int), np.array(c, dtype=int), dd

    def nonzero(self):
        r, c, _ = self._coo()
        return r, c

    def getcol(self, j):
        return SymMatrix(self.a[:, [j]])

    def getrow(self, i):
        return SymMatrix(self.a[[i], :])

    def diagonal(self, k=0):
        return np.array([self.a[i, i] for i in range(min(self.a.shape))], dtype=object)

    def conjugate(self):
        return SymMatrix(np.frompyfunc(lambda x: x.conjugate(), 1, 1)(self.a))

    conj = conjugate

    @property
    def real(self):
        return SymMatrix(np.frompyfunc(lambda x: x.real, 1, 1)(self.a))

    @property
    def imag(self):
        return SymMatrix(np.frompyfunc(lambda x: x.imag, 1, 1)(self.a))

    def sum(self, axis=None):
        if axis is None:
            return self.a.sum()
        r = self.a.sum(axis=axis)
        return r.reshape(1, -1) if axis == 0 else r.reshape(-1, 1)

    # arithmetic
    def __neg__(self):
        return SymMatrix(-self.a)

    def _ew(self, o, f):
        if np.isscalar(o) and not isinstance(o, str) or isinstance(o, (Sym, CSym)):
            return SymMatrix(f(self.a, o))
        return SymMatrix(f(self.a, dense(o)))

    def __add__(self, o):
        return self._ew(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._ew(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ew(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (Sym, CSym, int, float, complex, np.number)):
            return SymMatrix(self.a * o)
        r = dot(self.a, dense(o))
        if isinstance(o, SymMatrix) or sp.issparse(o):
            return SymMatrix(r)
        return r

    __matmul__ = __mul__
    dot = __mul__

    def __rmul__(self, o):
        if isinstance(o, (Sym, CSym, int, float, complex, np.number)):
            return SymMatrix(self.a * o)
        r = dot(dense(o), self.a)
        if sp.issparse(o):
            return SymMatrix(r)
        return r

    __rmatmul__ = __rmul__

    def __truediv__(self, o):
        return SymMatrix(self.a / (dense(o) if not isinstance(o, (Sym, CSym, int, float)) else o))

    def multiply(self, o):
        return SymMatrix(self.a * dense(o))

    def power(self, k):
        return SymMatrix(self.a**k)

    def __abs__(self):
        return SymMatrix(abs(self.a))

    def __repr__(self):
        return f"SymMatrix({self.a})"


def _factory(orig):
    def make(arg1, shape=None, dtype=None, copy=False, **k):
        if isinstance(arg1, tuple) and len(arg1) == 2 and not np.isscalar(arg1[0]) and is_objdata(arg1[0]):
            data, (r, c) = arg1
            data = dense(data).ravel()
            r, c = np.asarray(r, dtype=int), np.asarray(c, dtype=int)
            if shape is None:
                shape = (r.max() + 1, c.max() + 1)
            a = np.zeros(shape, dtype=object)
            for i, j, v in zip(r, c, data):
                a[i, j] = a[i, j] + v
            return SymMatrix(a)
        if not isinstance(arg1, tuple) and is_objdata(arg1):
            a = dense(arg1)
            if shape is not None:
                a = a.reshape(shape)
            return SymMatrix(a)
        if shape is not None and not isinstance(arg1, tuple):
            return orig(arg1, shape, dtype=dtype, copy=copy, **k)
        return orig(arg1, shape=shape, dtype=dtype, copy=copy, **k)

    make.__name__ = orig.__name__
    make._orig = orig
    return make


def _diags(orig):
    def diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
        if is_objdata(diagonals) and np.ndim(diagonals) == 1 and not isinstance(diagonals[0], (list, np.ndarray)):
            v = dense(diagonals)
            a = np.zeros((len(v), len(v)), dtype=object)
            for i, x in enumerate(v):
                a[i, i] = x
            return SymMatrix(a)
        return orig(diagonals, offsets, shape=shape, format=format, dtype=dtype)

    return diags


def _stack(orig, axis):
    def stack(blocks, format=None, dtype=None):
        blocks = list(blocks)
        if any(isinstance(b, SymMatrix) for b in blocks):
            return SymMatrix(np.concatenate([np.atleast_2d(dense(b)) for b in blocks], axis=axis))
        return orig(blocks, format=format, dtype=dtype)

    return stack


def sym_solve(A, b):
    """contract of a linear solve: some x with A x = b (A nonsingular)."""
    eng = S.ENGINE
    A = dense(A)
    bm = dense(b)
    vec = bm.ndim == 1
    if vec:
        bm = bm.reshape(-1, 1)

    def sig(m):
        return tuple(tuple((v.key() if isinstance(v, Sym) else (v.re.key(), v.im.key()) if isinstance(v, CSym)
                            else complex(v)) for v in row) for row in m)

    memo = eng.solves
    key = (sig(A), sig(bm))
    if key in memo:  # the same system has the same solution
        x = memo[key].copy()
        return x[:, 0] if vec else x
    k = eng.n_solves
    eng.n_solves = k + 1
    x = np.empty((A.shape[1], bm.shape[1]), dtype=object)
    for i in range(x.shape[0]):
        for j in range(x.shape[1]):
            x[i, j] = eng.lpvar(f"solve{k}[{i},{j}]")
    memo[key] = x.copy()
    r = dot(A, x)
    for i in range(r.shape[0]):
        for j in range(r.shape[1]):
            eng.assume(Rel(Sym.lift(r[i, j] - bm[i, j]), "eq"))
    ident = A.shape[0] == bm.shape[1] and all(
        (not isinstance(bm[i, j], (Sym, CSym))) and bm[i, j] == (1 if i == j else 0)
        for i in range(A.shape[0]) for j in range(A.shape[0])
    )
    if ident:  # a left inverse of a square matrix is its right inverse
        r = dot(x, A)
        for i in range(r.shape[0]):
            for j in range(r.shape[1]):
                eng.assume(Rel(Sym.lift(r[i, j] - (1 if i == j else 0)), "eq"))
    return x[:, 0] if vec else x


def sym_pinv(A):
    """pseudo-inverse of a connected Laplacian with positive weights."""
    eng = S.ENGINE
    A = dense(A)
    n = A.shape[0]

    def zero(v):
        return _iszero(Sym.lift(v))

    ok = A.shape == (n, n) and all(zero(A[i, j] - A[j, i]) for i in range(n) for j in range(i))
    ok = ok and all(zero(sum(A[i, 1:], A[i, 0])) for i in range(n))
    seen, todo = {0}, [0]
    while todo:
        i = todo.pop()
        for j in range(n):
            if j not in seen and not zero(A[i, j]):
                seen.add(j)
                todo.append(j)
    if not ok or len(seen) < n:
        raise S.SymUnsupported("pseudo-inverse")
    key = ("pinv", tuple(Sym.lift(v).key() for v in A.ravel()))
    if key in eng.solves:
        return eng.solves[key].copy()
    from fractions import Fraction

    # X = (A + J)^-1 - J / n^2, written out (spanning trees keep the determinant positive)
    M = [[Sym.lift(A[i, j]) + 1 for j in range(n)] for i in range(n)]

    def det(rows, cols):
        if not rows:
            return Sym.lift(1)
        t = Sym.lift(0)
        for q, c in enumerate(cols):
            t = t + (-1) ** q * M[rows[0]][c] * det(rows[1:], cols[:q] + cols[q + 1:])
        return t

    full = tuple(range(n))
    d = 1 / det(full, full)
    x = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            x[j, i] = (-1) ** (i + j) * det(full[:i] + full[i + 1:], full[:j] + full[j + 1:]) * d - Fraction(1, n * n)
    eng.solves[key] = x.copy()
    return x


def _spsolve(orig):
    def spsolve(A, b, *a, **k):
        from . import flow

        if flow.STATE is not None and getattr(b, "ndim", 1) == 1:
            return flow.step(A, b)
        if isinstance(A, SymMatrix) or is_objdata(A) or is_objdata(b) or isinstance(b, SymMatrix):
            if getattr(b, "ndim", 1) == 2 and b.shape[1] == 1:  # as scipy: one column gives a vector
                return sym_solve(A, b)[:, 0]
            r = sym_solve(A, b)
            return SymMatrix(r) if isinstance(b, SymMatrix) or sp.issparse(b) else r
        return orig(A, b, *a, **k)

    return spsolve


def patch():
    for nm in ("csr_matrix", "csc_matrix", "coo_matrix"):
        setattr(sp, nm, _factory(getattr(sp, nm)))
    issparse = sp.issparse
    sp.issparse = lambda x: isinstance(x, SymMatrix) or issparse(x)
    sp.diags = _diags(sp.diags)
    sp.hstack = _stack(sp.hstack, 1)
    sp.vstack = _stack(sp.vstack, 0)
    spl.spsolve = _spsolve(spl.spsolve)
    pinv = np.linalg.pinv

    def pinv_(a, *args, **k):
        if not is_objdata(a):
            return pinv(a, *args, **k)
        a = dense(a)
        if not any(isinstance(v, Sym) for v in a.ravel()):
            return pinv(a.astype(float), *args, **k)
        return sym_pinv(a)

    np.linalg.pinv = pinv_

    from scipy.sparse._base import _spbase

    om = _spbase._matmul_dispatch
    orm = _spbase._rmatmul_dispatch

    def md(self, other):
        if not isinstance(other, SymMatrix) and not np.isscalar(other) and is_objdata(other) and not isinstance(other, (Sym, CSym)):
            r = dot(self.toarray().astype(object), dense(other))
            return r
        if isinstance(other, (Sym, CSym)):
            return SymMatrix(self.toarray().astype(object) * other)
        if isinstance(other, SymMatrix):
            return SymMatrix(dot(self.toarray().astype(object), other.a))
        return om(self, other)

    def rmd(self, other):
        if not isinstance(other, SymMatrix) and not np.isscalar(other) and is_objdata(other) and not isinstance(other, (Sym, CSym)):
            return dot(dense(other), self.toarray().astype(object))
        if isinstance(other, (Sym, CSym)):
            return SymMatrix(self.toarray().astype(object) * other)
        return orm(self, other)

    _spbase._matmul_dispatch = md
    _spbase._rmatmul_dispatch = rmd
