"""Copies and slices equal what they were taken from and live on their own."""

import math

import numpy as np
import pandas as pd

from symx.data import diff, labels, rich, same, tables
from symx.formula import Bool

FUNCTIONS = ["Network.copy", "Network.__getitem__", "Network.__deepcopy__ (copy.deepcopy)", "as_index", "Network.add",
             "Network.set_snapshots", "Network.set_investment_periods"]
BOUNDS = ("networks with every component kind, custom attributes and series, 2-3 snapshots, 0-3 periods; all values and weights "
          "symbolic; every non-empty subset of buses and of snapshots; independence under writing every cell and adding, removing "
          "and renaming components in either network")
OUTSIDE = ("standard type libraries changed by the user; further ports of links whose first two buses are selected; whether "
           "sub-network objects follow the copy is a known finding; independence of slices (documented as shallow)")


def source(ctx, T=3, periods=None, names=None, extra=True):
    n = rich(ctx, T, periods, names=names)
    if extra:
        g = n.components["Generator"]
        if len(g.static):
            g.static["my_value"] = pd.Series({k: ctx.real(f"my.{k}") for k in g.static.index}, dtype=object if ctx.sym else float)
            g.static["my_text"] = [f"text {k}" for k in g.static.index]
            g.dynamic["my_series"] = pd.DataFrame({g.static.index[0]: [ctx.real(f"mys{i}") for i in range(len(n.snapshots))]},
                                                  index=n.snapshots)
    n.name = "source"
    n.meta = {"a": {"b": 1}}
    return n


def scramble(ctx, n):
    """write every cell and more, in place."""
    for comp in sorted(n.all_components):
        c = n.components[comp]
        for attr, fr in c.dynamic.items():
            for j in range(fr.shape[1]):
                for i in range(fr.shape[0]):
                    fr.iloc[i, j] = -77.0
        for col in c.static.columns:
            if col in ("obj", "geometry"):
                continue
            k = c.static[col].dtype
            if not len(c.static):
                continue
            if k == bool:
                c.static[col].values[:] = ~c.static[col].values
            elif k == object:
                c.static[col].values[:] = "changed"
            else:
                try:
                    c.static[col].values[:] = 77
                except ValueError:
                    c.static.loc[:, col] = 77
    n.snapshot_weightings.iloc[:, :] = 99.0
    if len(n.investment_period_weightings):
        n.investment_period_weightings.iloc[:, :] = 99.0
    n.meta.setdefault("a", {})["b"] = 2
    n.meta["new"] = 3


def reshape(n):
    n.add("Bus", "brand new")
    n.add("Generator", "brand new", bus="brand new", p_max_pu=[0.5] * len(n.snapshots))
    for comp in ("Load", "Line", "Store"):
        names = list(n.components[comp].static.index)
        if names:
            n.remove(comp, names[0])
    n.rename_component_names("Bus", a="renamed")
    if not len(n.investment_periods):
        n.set_investment_periods([2020, 2030])
    n.name = "other"


def independent(ctx, a, b, what):
    """changes to `b` leave `a` as it is."""
    import copy as cp

    before = tables(a)
    meta, name = cp.deepcopy(a.meta), a.name
    scramble(ctx, b)
    ctx.prove(f"{what}: values", diff(tables(a), before, f"{what} after writing cells") +
              [Bool(a.meta == meta, f"{what}: meta {a.meta}")])
    reshape(b)
    ctx.prove(f"{what}: structure", diff(tables(a), before, f"{what} after adding and removing") +
              [Bool(a.name == name, f"{what}: name")])


def full(ctx, T=3, periods=None, names=None, direction="copy"):
    n = source(ctx, T, periods, names)
    m = n.copy()
    ctx.prove("copy equals", diff(tables(m), tables(n), "copy") + [
        Bool(m is not n, "new object"), Bool(m.name == n.name and m.meta == n.meta and str(m.crs) == str(n.crs), "attributes")])
    if direction == "copy":
        independent(ctx, n, m, "source")
    else:
        independent(ctx, m, n, "copy")
    ctx.reach()


def pick(n, which):
    sn = list(n.snapshots)
    return [sn[i] for i in which]


def restrict(t, snaps, periods):
    """tables `t` restricted to snapshots and periods."""
    out = {}
    keep = set(snaps)
    for k, v in t.items():
        if k == "snapshots" or isinstance(k, tuple) and k[-1] == "index" and k[0] != "period weightings":
            out[k] = list(snaps)
        elif k == "periods":
            out[k] = list(periods)
        elif isinstance(k, tuple) and k[0] == "period weightings":
            if k[-1] == "index":
                out[k] = list(periods)
            elif k[-1] in periods:
                out[k] = v
        elif isinstance(k, tuple) and (len(k) == 4 or k[0] == "weightings"):
            if k[-1] in keep:
                out[k] = v
        else:
            out[k] = v
    return out


def some(ctx, which, T=3, periods=None, names=None, form="index", ps=None, types=False):
    """a copy of some snapshots (and periods)."""
    n = source(ctx, T, periods, names)
    want = tables(n)
    snaps = pick(n, which)
    kept = list(dict.fromkeys(s[0] for s in snaps)) if periods else []
    arg = n.snapshots[[list(n.snapshots).index(s) for s in snaps]] if form == "index" else list(snaps)
    kw = {}
    if ps:
        kw["investment_periods"] = kept
    if types:
        kw["ignore_standard_types"] = True
    m = n.copy(snapshots=arg, **kw)
    ctx.prove("source kept", diff(tables(n), want, "source"))
    want = restrict(want, [tuple(s) if isinstance(s, tuple) else s for s in snaps], kept)
    got = tables(m)
    if types:
        drop = ("LineType", "TransformerType")
        want, got = ({k: v for k, v in t.items() if not (isinstance(k, tuple) and k[0] in drop)} for t in (want, got))
    ctx.prove("partial copy", diff(got, want, "partial copy") + [Bool(m.name == n.name and m.meta == n.meta, "attributes")])
    if not types:
        independent(ctx, n, m, "source")
    ctx.reach()


def none(ctx, periods=None):
    """a copy without any snapshots has all static data."""
    n = source(ctx, 2, periods)
    m = n.copy(snapshots=[])
    want = {k: v for k, v in tables(n, comps=sorted(n.all_components)).items() if len(k) == 3 and k[2] not in ("series of", "index")
            or len(k) == 2}
    got = {k: v for k, v in tables(m, comps=sorted(n.all_components)).items() if len(k) == 3 and k[2] not in ("series of", "index")
           or len(k) == 2}
    ctx.prove("static copy", diff(got, want, "static copy"))
    ctx.prove("no series", [Bool(fr.empty, f"{c} {a}") for c in sorted(m.all_components)
                            for a, fr in m.components[c].dynamic.items()])
    ctx.reach()


def member(n, comp, name, buses):
    df = n.components[comp].static
    if comp == "Bus":
        return name in buses
    if comp in n.one_port_components:
        return df.at[name, "bus"] in buses
    if comp in n.branch_components:
        return df.at[name, "bus0"] in buses and df.at[name, "bus1"] in buses
    return True


def piece(ctx, buses, which=None, T=3, periods=None, form="list", names=None):
    """n[buses] and n[snapshots, buses]."""
    n = source(ctx, T, periods, names)
    full_t = tables(n)
    if form == "list":
        key = list(buses)
    elif form == "mask":
        key = n.buses.index.isin(buses)
    elif form == "series":
        key = pd.Series(n.buses.index.isin(buses), index=n.buses.index)
    elif form == "single":
        key = [buses[0]]
    snaps = [tuple(s) if isinstance(s, tuple) else s for s in n.snapshots]
    if which is None:
        m = n[key]
    elif which == "all":
        m = n[:, key]
    elif which[0] == "labels":
        m = n[n.snapshots[list(which[1])], key]
        snaps = [snaps[i] for i in which[1]]
    elif which[0] == "range":
        m = n[snaps[which[1]]:snaps[which[2]], key]
        snaps = snaps[which[1]:which[2] + 1]
    else:
        mask = np.array([i in which[1] for i in range(len(snaps))])
        m = n[mask, key]
        snaps = [s for s, k in zip(snaps, mask) if k]
    ctx.prove("source kept", diff(tables(n), full_t, "source"))
    kept = list(dict.fromkeys(s[0] for s in snaps)) if periods else []
    want = {}
    for k, v in restrict(full_t, snaps, kept).items():
        if isinstance(k, tuple) and k[0] in n.all_components:
            comp = k[0]
            if k[1:] == ("names",):
                v = [x for x in v if member(n, comp, x, buses)]
            elif k[-1] == "series of":
                v = {x for x in v if member(n, comp, x, buses)}
            elif k[-1] != "index" and not member(n, comp, k[1], buses):
                continue
            if comp == "Bus" and k[-1] == "sub_network":
                v = ""
        want[k] = v
    got = tables(m)
    ctx.prove("piece", diff(got, want, "piece") + [Bool(m.name == n.name and str(m.crs) == str(n.crs), "attributes")])
    ctx.reach()


def followed(ctx):
    """sub-network objects of a copy belong to the copy."""
    n = source(ctx, 2, None, ["i1", "g1", "g2"], extra=False)
    n.determine_network_topology()
    m = n.copy()
    ctx.prove("tables", diff(tables(m), tables(n), "copy"))
    for s in m.sub_networks.index:
        ctx.prove("sub-network objects", [Bool(m.sub_networks.obj[s].n is m, f"sub-network object {s} refers to the copy")])
    ctx.reach()


def jobs(tier):
    out = []
    groups = [["g1", "g2", "g3", "l1", "l2"], ["s", "u", "h", "limit"], ["i1", "i2", "t"], ["k1", "k2", "g1"]]
    for d in ("copy", "source"):
        for i, g in enumerate(groups):
            out.append((f"full-{d}-{i}", full, dict(T=2, names=g, direction=d)))
        out.append((f"full-{d}-periods", full, dict(T=2, periods=[2020, 2030], names=["g2", "l2", "u", "k2"], direction=d)))
    subsets = [[0], [1], [0, 2], [2, 0], [0, 1, 2]]
    for i, w in enumerate(subsets):
        g = groups[i % len(groups)] + (["l2"] if i % 2 else [])
        out.append((f"some-{''.join(map(str, w))}", some, dict(which=w, names=g, form="index" if i % 2 else "list")))
    for w in ([0, 1], [2, 3], [1, 2], [0, 2, 3]):
        for ps in (False, True):
            out.append((f"some-periods-{''.join(map(str, w))}-{int(ps)}", some,
                        dict(which=w, T=2, periods=[2020, 2030], names=["g2", "l2", "k2"], ps=ps)))
    out.append(("some-three-periods", some, dict(which=[0, 4, 5], T=2, periods=[2020, 2030, 2045], names=["g2", "u"])))
    out.append(("some-no-types", some, dict(which=[0, 1], names=["g2", "i1", "t"], types=True)))
    out.append(("none", none, {}))
    out.append(("none-periods", none, dict(periods=[2020, 2030])))
    every = ["g1", "g2", "g3", "l1", "l2", "s", "u", "h", "i1", "i2", "t", "k1", "k2", "limit"]
    for i, b in enumerate((["a"], ["b"], ["c"], ["a", "b"], ["a", "c"], ["b", "c"], ["a", "b", "c"])):
        form = ("list", "mask", "series")[i % 3]
        names = [x for x in every if x != "k2" or "c" in b or "a" not in b]
        out.append((f"piece-{''.join(b)}", piece, dict(buses=b, T=2, form=form, names=names)))
    for w in ("all", ["mask", [0, 2]], ["mask", [1]], ["labels", [0, 2]], ["labels", [1, 2]], ["range", 0, 1]):
        tag = w if isinstance(w, str) else "-".join(map(str, w))
        out.append((f"piece-time-{tag}", piece, dict(buses=["a", "b"], which=w, names=["g1", "g2", "l2", "i2", "u", "limit"])))
        if tier != "quick":
            out.append((f"piece-time-{tag}-2", piece, dict(buses=["b", "a", "c"], which=w, names=every)))
    out.append(("piece-periods", piece, dict(buses=["a", "b"], T=2, periods=[2020, 2030], names=["g2", "l2", "i2"])))
    out.append(("piece-periods-mask", piece, dict(buses=["a", "b"], which=["mask", [2, 3]], T=2, periods=[2020, 2030],
                                                  names=["g2", "l2", "i2"])))
    out.append(("sub-network-objects", followed, {}))
    return out
