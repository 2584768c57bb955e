"""Exporting a network and importing it again returns the same network."""

import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

from checks.D06_merge import KINDS
from symx.data import RICH, diff, labels, put, set_weights, spec_attrs, tables
from symx.formula import Bool, ne
from symx.sym import Sym
from symx.tokens import object_attributes, tokens

FUNCTIONS = ["Network.export_to_csv_folder", "Network.export_to_excel", "Network.export_to_hdf5", "Network.export_to_netcdf",
             "Network.import_from_csv_folder", "Network.import_from_excel", "Network.import_from_hdf5", "Network.import_from_netcdf",
             "_export_to_exporter", "_import_from_importer", "_import_series_from_df", "Exporter*/Importer* classes", "Network.add"]
BOUNDS = ("a network of up to 19 components of every kind with static, time-varying, multi-port and custom attributes, all values and "
          "weights symbolic, including every combination of (at its default / not) for chosen values; every format through real files "
          "(values written as unique numbers), netCDF also in memory; 1-3 snapshots (numbers, times, texts, the default 'now'), "
          "1-2 investment periods; sequences of up to 3 exports and imports, exports over earlier exports of another network")
OUTSIDE = ("rounding of numbers written as text, float32=True, meta data, coordinate systems and geometry, modified standard types, "
           "sub-networks and their derived impedances (not exported by design), names or texts pandas reads as missing ('NA', 'nan', ''), "
           "custom attributes starting with t_ or without components")

DERIVED = ("sub_network", "r_pu", "x_pu", "g_pu", "b_pu")
SN = {
    "int": [0, 1],
    "int3": [3, 1, 2],
    "one": [5],
    "time": pd.date_range("2030-01-01", periods=2, freq="h"),
    "rtime": pd.DatetimeIndex(["2030-01-01 05:00", "2030-01-01 01:00"]),
    "text": ["n", "m"],
    "now": ["now"],
}


def effective(n):
    """values in effect, without what is not exported."""
    t = tables(n)
    out = {}
    for k, v in t.items():
        if isinstance(k, tuple):
            if k[0] == "SubNetwork" or k[0].endswith("Type") or len(k) == 3 and k[2] in DERIVED:
                continue
            if k[-1] in ("series of", "index") and len(k) == 3:
                continue
        out[k] = v
    for comp in sorted(n.all_components - {"SubNetwork", "LineType", "TransformerType"}):
        c = n.components[comp]
        varying = [a for a in c.defaults.index if c.defaults.at[a, "varying"]]
        for a in dict.fromkeys(varying + list(c.dynamic)):
            for g in c.static.index:
                for s in t["snapshots"]:
                    k = (comp, g, a, s)
                    if k not in t and a in c.defaults.index:
                        out[k] = t.get((comp, g, a), c.defaults.at[a, "default"])
    return out


def compare(ctx, goal, r, want, n, ignore=()):
    got = effective(r)
    kinds = []
    for comp in sorted(n.all_components - {"SubNetwork", "LineType", "TransformerType"}):
        a, b = n.components[comp].static, r.components[comp].static
        kinds.append(Bool(list(a.index) == list(b.index), f"order of {comp}: {list(b.index)}"))
        for col in a.columns.intersection(b.columns):
            if a[col].dtype.kind in "bi" and len(a):
                kinds.append(Bool(a[col].dtype == b[col].dtype, f"type of {comp} {col}: {b[col].dtype} for {a[col].dtype}"))
        for attr, fr in r.components[comp].dynamic.items():
            kinds.append(Bool(labels(fr.index) == labels(r.snapshots), f"index of {comp} {attr}"))
            kinds.append(Bool(set(fr.columns) <= set(b.index), f"columns of {comp} {attr}"))
    kinds.append(Bool(r.snapshots.dtype == n.snapshots.dtype, f"kind of snapshots: {r.snapshots.dtype} for {n.snapshots.dtype}"))
    drop = {k for k in want if k in ignore}
    ctx.prove(goal, diff({k: v for k, v in got.items() if k not in drop}, {k: v for k, v in want.items() if k not in drop}, goal) + kinds)


def export(ctx, n, fmt, path):
    with object_attributes(n, ctx.sym):
        if fmt == "csv":
            n.export_to_csv_folder(path / "folder")
        elif fmt == "xlsx":
            n.export_to_excel(path / "n.xlsx")
        elif fmt == "h5":
            n.export_to_hdf5(path / "n.h5")
        elif fmt == "nc":
            n.export_to_netcdf(path / "n.nc")
        else:
            return n.export_to_netcdf()


def load(fmt, path, ds=None, by="init", **kw):
    import pypsa

    f = {"csv": path / "folder", "xlsx": path / "n.xlsx", "h5": path / "n.h5", "nc": path / "n.nc"}.get(fmt)
    if by == "init" and fmt != "ds":
        return pypsa.Network(f, **kw)
    n = pypsa.Network()
    {"csv": n.import_from_csv_folder, "xlsx": n.import_from_excel, "h5": n.import_from_hdf5, "nc": n.import_from_netcdf,
     "ds": n.import_from_netcdf}[fmt](ds if fmt == "ds" else f, **kw)
    return n


def distinct(ctx, n, free):
    """symbolic values away from their default, except the chosen ones."""
    if not ctx.sym:
        return
    for comp in n.all_components:
        c = n.components[comp]
        for col in c.static.columns:
            if col not in c.defaults.index or pd.isnull(c.defaults.at[col, "default"]):
                continue
            for g, v in c.static[col].items():
                if isinstance(v, Sym) and f"{g}.{col}" not in free:
                    ctx.assume(ne(v, c.defaults.at[col, "default"]))
        for a, fr in c.dynamic.items():
            if a not in c.defaults.index or pd.isnull(c.defaults.at[a, "default"]):
                continue
            for g in fr.columns:
                if f"{g}.{a}" in free:
                    continue
                for v in fr[g].values:
                    if isinstance(v, Sym):
                        ctx.assume(ne(v, c.defaults.at[a, "default"]))


def network(ctx, snapshots, periods=None, names=None, tag="", custom=True, rename=None, weights=True):
    import pypsa

    n = pypsa.Network()
    if snapshots != "now":
        n.set_snapshots(SN[snapshots])
    if periods:
        n.investment_periods = list(periods)
    k = len(n.snapshots)
    ren = rename or {}
    for e in RICH:
        if names is not None and e[1] not in names:
            continue
        at = spec_attrs(ctx, e, k, tag)
        at = {a: (ren.get(v, v) if a.startswith("bus") or a == "carrier" else v) for a, v in at.items()}
        put(n, e[0], ren.get(e[1], e[1]), at)
    if custom and len(n.generators):
        n.generators["my_num"] = [ctx.real(f"{tag}my.{g}") for g in n.generators.index]
        n.generators["my_text"] = [f"text {i}" for i in range(len(n.generators))]
        n.generators["my_flag"] = [bool(i % 2) for i in range(len(n.generators))]
        n.generators["my_int"] = list(range(3, 3 + len(n.generators)))
        n.components["Generator"].dynamic["my_series"] = pd.DataFrame(
            {g: [ctx.real(f"{tag}my.{g}.{i}") for i in range(k)] for g in n.generators.index[:1]}, index=n.snapshots)
    if custom and len(n.loads) > 1:  # missing values inside a series
        g = n.loads.index[1]
        n.loads_t.q_set[g] = pd.Series([0.25] + [float("nan")] * (k - 1), index=n.snapshots)
    if weights:
        set_weights(ctx, n, tag)
    return n


def round_trip(ctx, fmts, snapshots="int", periods=None, names=None, free=(), by="init", rename=None, custom=True, weights=True,
               skip_time=False):
    n = network(ctx, snapshots, periods, names, rename=rename, custom=custom, weights=weights)
    distinct(ctx, n, free)
    want = effective(n)
    m = n
    with tokens(ctx.sym):
        for i, fmt in enumerate(fmts):
            with tempfile.TemporaryDirectory(prefix="d07.") as tmp:
                ds = export(ctx, m, fmt, Path(tmp))
                compare(ctx, f"{i}{fmt} export changes nothing", m, want, n)
                m = load(fmt, Path(tmp), ds, by, **(dict(skip_time=True) if skip_time else {}))
            if skip_time:
                continue
            compare(ctx, f"{i}{fmt} round trip", m, want, n)
    if skip_time:
        t, w = tables(m), tables(n)
        ctx.prove("no series", [Bool(not v, f"{k}: {v}") for k, v in t.items() if isinstance(k, tuple) and k[-1] == "series of"])
        keep = lambda d: {k: v for k, v in d.items() if isinstance(k, tuple) and len(k) == 3 and k[-1] not in  # noqa: E731
                          ("series of", "index") + DERIVED and not k[0].endswith("Type")}
        ctx.prove("static", diff(keep(t), keep(w), "static"))
    ctx.reach()


def history(ctx, fmt, gone, free=()):
    """export, change the network, export to the same place."""
    n = network(ctx, "int")
    distinct(ctx, n, free)
    with tempfile.TemporaryDirectory(prefix="d07.") as tmp, tokens(ctx.sym):
        export(ctx, n, fmt, Path(tmp))
        for comp, names in gone.items():
            n.remove(comp, names)
        # a series becomes a static value, and the other way round
        if "g2" in n.generators.index:
            n.generators_t.marginal_cost = n.generators_t.marginal_cost.drop(columns="g2")
            n.generators_t.efficiency["g2"] = [ctx.real("late.0"), ctx.real("late.1")]
        for g in ("l1", "l2"):
            if g in n.loads.index:
                n.loads_t.p_set[g] = [ctx.real(f"late.{g}.0"), ctx.real(f"late.{g}.1")]
        distinct(ctx, n, free)
        want = effective(n)
        export(ctx, n, fmt, Path(tmp))
        r = load(fmt, Path(tmp))
    compare(ctx, "second export", r, want, n)
    ctx.reach()


def kinds(ctx, fmt, comp, form, snapshots="int"):
    """every value of one kind free to be at its default."""
    import pypsa

    n = pypsa.Network()
    n.set_snapshots(SN[snapshots])
    fixed, static, either = KINDS[comp]
    n.add("Bus", ["a", "b"])
    k = len(n.snapshots)
    for j, s in enumerate(form):
        name = f"x{j}"
        at = dict(fixed)
        if s != "d":
            for a in static:
                at[a] = ctx.real(f"{name}.{a}")
            for a in either:
                at[a] = [ctx.real(f"{name}.{a}.{i}") for i in range(k)] if s == "v" else ctx.real(f"{name}.{a}")
        n.add(comp, name, **at)
        if s == "v":  # a static value under the series
            for a in either:
                n.components[comp].static.loc[name, a] = 0.625
    want = effective(n)
    with tempfile.TemporaryDirectory(prefix="d07.") as tmp, tokens(ctx.sym):
        ds = export(ctx, n, fmt, Path(tmp))
        r = load(fmt, Path(tmp), ds)
    compare(ctx, "round trip", r, want, n)
    ctx.reach()


def jobs(tier):
    out = []
    fmts = ("csv", "xlsx", "h5", "nc", "ds")
    for f in fmts:
        out.append((f"all-{f}", round_trip, dict(fmts=[f])))
        out.append((f"import-{f}", round_trip, dict(fmts=[f], by="import", snapshots="time")))
        out.append((f"periods-{f}", round_trip, dict(fmts=[f], periods=(2020, 2030))))
        out.append((f"numbers-{f}", round_trip, dict(fmts=[f], snapshots="int3",
                                                    rename={"a": "01", "b": "1", "g1": "007", "gas": "2", "l1": "1e3"})))
    for i, s in enumerate(("int3", "one", "rtime", "text", "now")):
        for f in (fmts if tier != "quick" else [fmts[(i + d) % 5] for d in (0, 2, 3)]):
            out.append((f"snapshots-{s}-{f}", round_trip, dict(fmts=[f], snapshots=s, names=["a", "b", "g1", "g2", "l2", "u"])))
    for s in ("time", "text", "now"):
        for f in fmts if tier != "quick" else ("csv", "xlsx"):
            out.append((f"periods-{s}-{f}", round_trip, dict(fmts=[f], snapshots=s, periods=(2020, 2030), names=["a", "b", "g1", "g2"])))
    out.append(("chain-1", round_trip, dict(fmts=["csv", "nc", "xlsx"])))
    out.append(("chain-2", round_trip, dict(fmts=["h5", "ds", "csv"], periods=(2020, 2030))))
    for f in fmts[:4]:
        out.append((f"no-time-{f}", round_trip, dict(fmts=[f], skip_time=True, custom=False, by="import")))
    gone = [dict(Link=["k1", "k2"], Generator=["g1"]), dict(Store=["s"], StorageUnit=["u"], ShuntImpedance=["h"], Transformer=["t"]),
            dict(Load=["l2"], Line=["i2"], GlobalConstraint=["limit"])]
    for f in ("csv", "xlsx", "h5", "nc"):
        for i, g in enumerate(gone):
            if tier == "quick" and f in ("h5", "nc") and i:
                continue
            out.append((f"again-{f}-{i}", history, dict(fmt=f, gone=g)))
    forms = ("vs", "dv", "vv", "ss", "d")
    for i, comp in enumerate(KINDS):
        for j, form in enumerate(forms):
            for f in fmts if tier != "quick" else [fmts[(i + j) % 5]]:
                small = tier == "quick" and len(KINDS[comp][1]) + len(KINDS[comp][2]) > 2
                out.append((f"default-{comp}-{form}-{f}", kinds,
                            dict(fmt=f, comp=comp, form=form, snapshots="one" if small else "int"),
                            dict(max_paths=32) if tier == "quick" else {}))
    return out
