"""Networks as tables: build a network full of symbolic data and compare the
tables of two networks value by value."""

from __future__ import annotations

import math

import numpy as np
import pandas as pd

from .formula import Bool, eq
from .sym import Sym


def numeric(x):
    return isinstance(x, (Sym, int, float, np.number)) and not isinstance(x, (bool, np.bool_))


def same(a, b, name):
    """two table entries hold the same value."""
    if numeric(a) and numeric(b):
        return eq(a, b, name)
    for x, y in ((a, b), (b, a)):
        if x is None or isinstance(x, float) and math.isnan(x):
            return Bool(y is None or isinstance(y, float) and math.isnan(y) or y is pd.NaT, name)
    if isinstance(a, Sym) or isinstance(b, Sym):
        return Bool(False, name)
    return Bool(bool(a == b), f"{name}: {a!r} for {b!r}")


SKIP_STATIC = {"obj", "geometry"}


def labels(idx):
    return [tuple(x) if isinstance(x, tuple) else x for x in idx]


def tables(n, comps=None, outputs=True, only=None):
    """every entry of every table of a network."""
    out = {}
    if comps is None:
        out["snapshots"] = labels(n.snapshots)
        out["periods"] = labels(n.investment_periods)
        out["names"] = list(n.snapshots.names)
        w = n.snapshot_weightings
        out["weightings", "index"] = labels(w.index)
        for c in w.columns:
            for s, v in zip(labels(w.index), w[c].values):
                out["weightings", c, s] = v
        w = n.investment_period_weightings
        out["period weightings", "index"] = labels(w.index)
        for c in w.columns:
            for s, v in zip(labels(w.index), w[c].values):
                out["period weightings", c, s] = v
    for comp in sorted(comps or n.all_components):
        c = n.components[comp]
        df = c.static
        out[comp, "names"] = list(df.index)
        for col in df.columns:
            if col in SKIP_STATIC:
                continue
            for name, v in zip(df.index, df[col].values):
                out[comp, name, col] = v
        for attr, fr in c.dynamic.items():
            out[comp, attr, "series of"] = set(fr.columns)
            out[comp, attr, "index"] = labels(fr.index)
            for j, name in enumerate(fr.columns):
                for s, v in zip(labels(fr.index), fr.iloc[:, j].values):
                    out[comp, name, attr, s] = v
    return out


def diff(got, want, what, ignore=()):
    """goals: `got` is exactly `want`."""
    goals = []
    for k in want:
        nm = f"{what} {k}"
        if k not in got:
            goals.append(Bool(False, f"{nm} missing"))
        elif isinstance(want[k], (list, set)):
            ok = (sorted(map(str, got[k])) == sorted(map(str, want[k])) if k[-1] in ("names", "series of")
                  else list(got[k]) == list(want[k]))
            goals.append(Bool(ok, f"{nm}: {got[k]} for {want[k]}"))
        else:
            goals.append(same(got[k], want[k], nm))
    for k in got:
        if k not in want:
            goals.append(Bool(False, f"{what} {k} not expected"))
    return goals


def dense(n, comp, attr, name, sn):
    """value in effect at a snapshot (static unless the component has a series)."""
    fr = n.components[comp].dynamic.get(attr)
    if fr is not None and name in fr.columns:
        return fr[name].values[labels(n.snapshots).index(sn)]
    return n.components[comp].static[attr].values[list(n.components[comp].static.index).index(name)]


# ---- building ---------------------------------------------------------------

# component, name, structure, symbolic static attributes, symbolic series
RICH = [
    ("Carrier", "gas", {}, ["co2_emissions"], []),
    ("Carrier", "AC", {}, [], []),
    ("Bus", "a", {}, ["v_nom", "x"], []),
    ("Bus", "b", dict(carrier="AC"), ["v_nom", "y"], ["v_mag_pu_set"]),
    ("Bus", "c", dict(carrier="heat"), [], []),
    ("Generator", "g1", dict(bus="a", carrier="gas"), ["p_nom", "marginal_cost", "efficiency"], ["p_max_pu"]),
    ("Generator", "g2", dict(bus="b", p_nom_extendable=True), ["capital_cost", "p_nom_max", "p_max_pu", "lifetime"],
     ["marginal_cost", "p_set"]),
    ("Generator", "g3", dict(bus="b", active=False), ["p_nom", "sign"], []),
    ("Load", "l1", dict(bus="a"), ["p_set"], []),
    ("Load", "l2", dict(bus="b"), ["q_set"], ["p_set"]),
    ("Store", "s", dict(bus="c", e_cyclic=True), ["e_nom", "standing_loss"], ["e_max_pu"]),
    ("StorageUnit", "u", dict(bus="b"), ["p_nom", "max_hours", "efficiency_store"], ["inflow"]),
    ("ShuntImpedance", "h", dict(bus="a"), ["b", "g"], []),
    ("Line", "i1", dict(bus0="a", bus1="b"), ["x", "r", "s_nom"], []),
    ("Line", "i2", dict(bus0="a", bus1="b"), ["x", "s_nom", "length"], ["s_max_pu"]),
    ("Transformer", "t", dict(bus0="a", bus1="b"), ["x", "s_nom", "tap_ratio"], []),
    ("Link", "k1", dict(bus0="a", bus1="c"), ["p_nom", "efficiency"], ["p_min_pu"]),
    ("Link", "k2", dict(bus0="b", bus1="a", bus2="c"), ["p_nom", "efficiency2"], ["efficiency"]),
    ("GlobalConstraint", "limit", dict(sense="<="), ["constant"], []),
]


def spec_attrs(ctx, entry, k, tag=""):
    """attribute values of one RICH entry (fresh symbols)."""
    comp, name, fixed, static, series = entry
    at = dict(fixed)
    for s in static:
        at[s] = ctx.real(f"{tag}{name}.{s}")
    for s in series:
        at[s] = [ctx.real(f"{tag}{name}.{s}.{i}") for i in range(k)]
    return at


def rich(ctx, T=2, periods=None, comps=None, tag="", weights=True, names=None):
    import pypsa

    n = pypsa.Network()
    n.set_snapshots(range(T))
    if periods:
        n.investment_periods = list(periods)
    k = len(n.snapshots)
    for e in RICH:
        if comps is not None and e[0] not in comps and e[0] not in ("Bus", "Carrier"):
            continue
        if names is not None and e[0] not in ("Bus", "Carrier") and e[1] not in names:
            continue
        put(n, e[0], e[1], spec_attrs(ctx, e, k, tag))
    if weights:
        set_weights(ctx, n, tag)
    return n


def put(n, comp, name, attrs):
    n.add(comp, name, **attrs)


def set_weights(ctx, n, tag=""):
    def fr(df, nm):
        return pd.DataFrame({c: [ctx.pos(f"{tag}{nm}.{c}.{i}", 9) for i in range(len(df))] for c in df.columns},
                            index=df.index, dtype=object if ctx.sym else float)

    n.snapshot_weightings = fr(n.snapshot_weightings, "w")
    if len(n.investment_period_weightings):
        n.investment_period_weightings = fr(n.investment_period_weightings, "pw")
