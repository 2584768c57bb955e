"""Merging two networks is the union of their components."""

import numpy as np
import pandas as pd

from symx.data import diff, labels, put, same, set_weights, spec_attrs, tables
from symx.formula import Bool

FUNCTIONS = ["Network.merge", "Network.__add__", "merge", "Network.add", "_import_series_from_df", "Network.copy"]
BOUNDS = ("two networks of up to 12 components of every kind with different static, time-varying and custom attributes; all "
          "values symbolic; every distribution of series over the two networks; one overlapping name per component kind; in place "
          "and as a copy, with and without time, with component kinds left out")
OUTSIDE = "type libraries and sub-networks (documented as left out), geometry, meta data; attributes unknown to the receiving network"

# kind, structure, symbolic static attributes, attributes that may be static or a series
KINDS = {
    "Bus": ({}, ["v_nom"], ["v_mag_pu_set"]),
    "Carrier": ({}, ["co2_emissions"], []),
    "Generator": ({"bus": "a"}, ["p_nom", "efficiency"], ["p_max_pu", "marginal_cost"]),
    "Load": ({"bus": "a"}, [], ["p_set"]),
    "Store": ({"bus": "a", "e_cyclic": True}, ["e_nom"], ["e_max_pu"]),
    "StorageUnit": ({"bus": "a"}, ["p_nom", "max_hours"], ["inflow"]),
    "ShuntImpedance": ({"bus": "a"}, ["b"], []),
    "Line": ({"bus0": "a", "bus1": "b"}, ["x"], ["s_max_pu"]),
    "Transformer": ({"bus0": "a", "bus1": "b"}, ["x", "s_nom"], ["s_max_pu"]),
    "Link": ({"bus0": "a", "bus1": "b"}, ["p_nom"], ["efficiency", "p_min_pu"]),
    "GlobalConstraint": ({"sense": "<="}, ["constant"], []),
}


def net(ctx, tag, kinds, series, T=2, periods=None, ports=False, weights=None, custom=False):
    import pypsa

    n = pypsa.Network()
    n.set_snapshots(range(T))
    if periods:
        n.investment_periods = list(periods)
    k = len(n.snapshots)
    for comp in ["Bus"] + [c for c in KINDS if c != "Bus" and c in kinds]:
        fixed, static, either = KINDS[comp]
        for j, s in enumerate(series):
            if comp == "Bus" and j > 1:
                continue
            name = f"{'ab'[j]}{tag}" if comp == "Bus" else f"{comp}{j}{tag}"
            at = {a: (v + tag if a.startswith("bus") else v) for a, v in fixed.items()}
            for a in static:
                at[a] = ctx.real(f"{name}.{a}")
            for a in either:
                at[a] = [ctx.real(f"{name}.{a}.{i}") for i in range(k)] if s == "v" else ctx.real(f"{name}.{a}")
            if s == "d":
                at = {a: v for a, v in at.items() if a in fixed}
            if comp == "Link" and ports and j == 0:
                at["bus2"] = f"b{tag}"
                at["efficiency2"] = [ctx.real(f"{name}.e2.{i}") for i in range(k)] if s == "v" else ctx.real(f"{name}.e2")
            n.add(comp, name, **at)
    if custom:
        n.components["Generator"].static["note"] = [f"n{tag}{i}" for i in range(len(n.generators))]
    if weights is not None:
        for c in n.snapshot_weightings.columns:
            n.snapshot_weightings[c] = pd.Series([weights[c, i] for i in range(k)], index=n.snapshots, dtype=object if ctx.sym else float)
    n.name = tag
    return n


def union(a, b, defaults):
    """tables of the merged network: a's, plus the components of b."""
    want = dict(a)
    comps = {k[0] for k in b if isinstance(k, tuple) and k[-1] == "names"}
    for comp in comps:
        if (comp, "names") not in a or comp in ("LineType", "TransformerType", "SubNetwork"):
            continue
        want[comp, "names"] = list(a[comp, "names"]) + list(b[comp, "names"])
        for k, v in b.items():
            if isinstance(k, tuple) and k[0] == comp and len(k) == 3 and k[1] in b[comp, "names"] and k[2] not in ("index",):
                want[k] = v
            if isinstance(k, tuple) and k[0] == comp and len(k) == 4:
                want[k] = v
            if isinstance(k, tuple) and k[0] == comp and k[-1] == "series of":
                want[k] = set(a.get(k, set())) | set(v)
            if isinstance(k, tuple) and k[0] == comp and k[-1] == "index":
                want.setdefault(k, v)
        # attributes only one side has
        cols = {k[2] for k in want if isinstance(k, tuple) and k[0] == comp and len(k) == 3 and k[-1] not in ("series of", "index")}
        for g in want[comp, "names"]:
            for c in cols:
                if (comp, g, c) not in want:
                    want[comp, g, c] = defaults(comp, c)
    return want


def effective(t, n):
    """series replaced by the values in effect (default for outputs never computed)."""
    out, sn = {}, t["snapshots"]
    for k, v in t.items():
        if isinstance(k, tuple) and len(k) == 3 and k[-1] in ("series of", "index"):
            continue
        if not (isinstance(k, tuple) and len(k) == 4):
            out[k] = v
    for comp in sorted(n.all_components):
        d = n.components[comp].defaults
        attrs = {k[1] for k in t if isinstance(k, tuple) and len(k) == 3 and k[0] == comp and k[-1] == "series of"}
        for a in attrs:
            for g in t[comp, "names"]:
                for s in sn:
                    if (comp, g, a, s) in t:
                        v = t[comp, g, a, s]
                    elif (comp, g, a) in t:
                        v = t[comp, g, a]
                    else:
                        v = d.at[a, "default"] if a in d.index else float("nan")
                    out[comp, g, a, s] = v
    return out


def check(ctx, kinds, first=("s", "v"), second=("v", "s"), periods=None, ports=(0, 0), inplace=False, op=False, with_time=True,
          skip=None, custom=(0, 0)):
    k = 2 * (len(periods) if periods else 1)
    w = {(c, i): ctx.pos(f"w.{c}.{i}", 9) for c in ("objective", "stores", "generators") for i in range(k)}
    n = net(ctx, "", kinds, first, periods=periods, ports=ports[0], weights=w, custom=custom[0])
    m = net(ctx, "x", kinds, second, periods=periods, ports=ports[1], weights=w, custom=custom[1])
    a, b = tables(n), tables(m)

    kw = {}
    if skip:
        kw["components_to_skip"] = list(skip)
        b_sel = {key: v for key, v in b.items() if not (isinstance(key, tuple) and key[0] in skip)}
    else:
        b_sel = b
    if not with_time:
        kw["with_time"] = False
        b_sel = {key: (set() if key[-1] == "series of" else v) for key, v in b_sel.items()
                 if not (isinstance(key, tuple) and len(key) == 4)}
    if op:
        r = n + m
    else:
        r = n.merge(m, inplace=inplace, **kw)
    if inplace:
        ctx.prove("in place", [Bool(r is None, "nothing returned")])
        r = n
    else:
        ctx.prove("receiver kept", diff(tables(n), a, "receiver") + [Bool(r is not n, "new network")])
    ctx.prove("source kept", diff(tables(m), b, "source"))

    def defaults(comp, col):
        d = r.components[comp].defaults
        return d.at[col, "default"] if col in d.index else float("nan")

    want = union(a, b_sel, defaults)
    got = tables(r)
    if any(custom):
        got = {k_: (float("nan") if v == "" and isinstance(k_, tuple) and k_[-1] == "note" else v) for k_, v in got.items()}
    ctx.prove("union", diff(effective(got, r), effective(want, r), "merged") + [
        Bool(labels(fr.index) == labels(r.snapshots), f"index of {c} {a}")
        for c in sorted(r.all_components) for a, fr in r.components[c].dynamic.items()] + [
        Bool(set(fr.columns) <= set(r.components[c].static.index), f"columns of {c} {a}")
        for c in sorted(r.all_components) for a, fr in r.components[c].dynamic.items()])
    ctx.reach()


def clash(ctx, comp, inplace):
    """one name of either network in both: refused, nothing changes."""
    n = net(ctx, "", list(KINDS), ("s", "v"))
    m = net(ctx, "x", list(KINDS), ("v", "s"))
    name = n.components[comp].static.index[1]
    old = m.components[comp].static.index[0]
    m.rename_component_names(comp, **{old: name})
    refused(ctx, n, m, inplace, f"common {comp}")
    ctx.prove("skipped", [Bool(n.merge(m, components_to_skip=[comp]) is not None, "leaving the kind out works")])
    ctx.reach()


def refused(ctx, n, m, inplace, what):
    a, b = tables(n), tables(m)
    try:
        n.merge(m, inplace=inplace)
        ok = False
    except ValueError:
        ok = True
    ctx.prove(what, [Bool(ok, f"{what} is refused")] + diff(tables(n), a, f"{what}: receiver") + diff(tables(m), b, f"{what}: source"))


def times(ctx, inplace):
    """different snapshots or weights are refused (weights: symbolic)."""
    kinds = ["Generator", "Load"]
    for T, per in ((3, None), (1, None), (2, (2020, 2030))):
        refused(ctx, net(ctx, "", kinds, ("v",)), net(ctx, "x", kinds, ("v",), T=T, periods=per), inplace, f"{T} {per}")
    n, m = net(ctx, "", kinds, ("v",)), net(ctx, "x", kinds, ("v",))
    m.snapshots = [1, 0]
    refused(ctx, n, m, inplace, "other order")
    for c in ("objective", "generators", "stores"):
        for i in range(2):
            n, m = net(ctx, "", kinds, ("v",)), net(ctx, "x", kinds, ("v",))
            d = ctx.pos("other", 9)
            from symx.formula import ne

            ctx.assume(ne(d, 1))
            m.snapshot_weightings[c] = pd.Series([d if j == i else 1.0 for j in range(2)], index=m.snapshots,
                                                 dtype=object if ctx.sym else float)
            refused(ctx, n, m, inplace, f"weight {c} {i}")
    n, m = net(ctx, "", kinds, ("v",)), net(ctx, "x", kinds, ("v",))
    m.snapshot_weightings = m.snapshot_weightings[["stores", "generators", "objective"]]
    r = n.merge(m)
    ctx.prove("columns in another order", [Bool(set(r.generators.index) == set(n.generators.index) | set(m.generators.index), "merged")])
    ctx.reach()


def jobs(tier):
    out = []
    every = list(KINDS)
    forms = [("s", "v"), ("v", "s"), ("d", "v"), ("s", "d"), ("v", "v"), ("s", "s")]
    pairs = [(f, g) for f in forms for g in forms]
    if tier == "quick":
        pairs = pairs[::3]
    for f, g in pairs:
        out.append((f"union-{''.join(f)}-{''.join(g)}", check, dict(kinds=every, first=f, second=g)))
    out.append(("in-place", check, dict(kinds=every, inplace=True)))
    out.append(("plus", check, dict(kinds=every, op=True)))
    out.append(("no-time", check, dict(kinds=every, with_time=False)))
    for s in (["Bus"], ["Load"], ["Line", "Link"], ["Carrier", "GlobalConstraint"]):
        out.append((f"skip-{s[0]}", check, dict(kinds=every, skip=s)))
    out.append(("periods", check, dict(kinds=["Generator", "Link", "Load"], periods=(2020, 2030))))
    for p in ((1, 1), (1, 0)):
        out.append((f"ports-{p[0]}{p[1]}", check, dict(kinds=["Link", "Generator"], ports=p)))
    out.append(("ports-series", check, dict(kinds=["Link"], first=("v", "s"), second=("v", "v"), ports=(1, 1))))
    out.append(("empty", check, dict(kinds=["Generator", "Link"], first=(), second=("v", "s"))))
    out.append(("into-empty-kinds", check, dict(kinds=[], first=("s", "v"))))
    for comp in KINDS:
        out.append((f"clash-{comp}", clash, dict(comp=comp, inplace=comp in ("Bus", "Load", "Line", "Link"))))
    for i in (True, False):
        out.append((f"times-{int(i)}", times, dict(inplace=i)))
    return out
