"""Time-varying values override static values."""

from symx.data import dense, labels, rich, same
from symx.formula import Bool, eq

FUNCTIONS = ["get_switchable_as_dense", "get_switchable_as_iter", "get_bounds_pu", "as_index", "get_extendable_i",
             "get_non_extendable_i", "get_committable_i", "allocate_series_dataframes", "expand_series"]
BOUNDS = ("1-4 components, each attribute's series present for every subset of them in every column order, 1-3 snapshots "
          "(with and without investment periods), every snapshot subset and component subset; all values symbolic")
OUTSIDE = "columns of the result are compared by name, not by position"


def table(ctx, df, n, comp, attr, names, sns, what, sign=1):
    goals = [Bool(set(df.columns) == set(names), f"{what} columns {list(df.columns)} for {names}"),
             Bool(df.columns.is_unique and df.index.is_unique, f"{what} unique"),
             Bool(labels(df.index) == sns, f"{what} snapshots {labels(df.index)} for {sns}")]
    if all(g.v for g in goals):
        for g in names:
            for j, s in enumerate(sns):
                goals.append(eq(df[g].values[j], dense(n, comp, attr, g, s) * sign, f"{what} {g} {s}"))
                ctx.fingerprint([df[g].values[j]])
    return goals


def build(ctx, series, T=2, periods=None, comp="Generator", attrs=("p_max_pu", "p_min_pu"), cols=None, names="wxyz"):
    """`series`: names with a series; columns in the order given."""
    import pandas as pd
    import pypsa

    n = pypsa.Network()
    n.set_snapshots(range(T))
    if periods:
        n.investment_periods = periods
    n.add("Bus", ["a", "b"])
    bus = dict(bus="a") if comp in ("Generator", "StorageUnit", "Store", "Load") else dict(bus0="a", bus1="b")
    for g in names:
        n.add(comp, g, **bus, **{a: ctx.real(f"{g}.{a}") for a in attrs})
    for a in attrs:
        cs = [g for g in series if g in names]
        if cs:
            n.dynamic(comp)[a] = pd.DataFrame({g: [ctx.real(f"{g}.{a}.{i}") for i in range(len(n.snapshots))] for g in cs},
                                              index=n.snapshots, dtype=object if ctx.sym else float)
    return n


def dense_(ctx, series, sel=None, inds=None, names="wxyz", **kw):
    import pypsa.descriptors as D

    n = build(ctx, series, names=names, **kw)
    sns = n.snapshots if sel is None else n.snapshots[list(sel)]
    L = labels(sns)
    comp = kw.get("comp", "Generator")
    attrs = kw.get("attrs", ("p_max_pu", "p_min_pu"))
    want = list(names) if inds is None else [g for g in names if g in inds]
    import pandas as pd

    ix = None if inds is None else pd.Index(list(inds))
    for a in attrs:
        args = () if sel is None else (sns,)
        df = n.get_switchable_as_dense(comp, a, *args, **({} if ix is None else dict(inds=ix)))
        ctx.prove(f"dense {a}", table(ctx, df, n, comp, a, want, L, f"{a}"))
        # every snapshot in turn
        goals = []
        rows = list(D.get_switchable_as_iter(n, comp, a, sns, inds=ix))
        goals.append(Bool(len(rows) == len(L), "one row per snapshot"))
        for s, r in zip(L, rows):
            goals.append(Bool(set(r.index) == set(want), f"names {list(r.index)} for {want}"))
            goals += [eq(r[g], dense(n, comp, a, g, s), f"iter {a} {g} {s}") for g in want]
        ctx.prove(f"iter {a}", goals)
    ctx.reach()


def bounds(ctx, series, comp, sel=None, **kw):
    import pypsa.descriptors as D

    a = {"Generator": "p", "Link": "p", "StorageUnit": "p", "Store": "e", "Line": "s"}[comp]
    branch = comp == "Line"
    attrs = ["s_max_pu"] if branch else [f"{a}_min_pu", f"{a}_max_pu"]
    if comp == "StorageUnit":
        attrs.append("max_hours")
    n = build(ctx, series, comp=comp, attrs=[x for x in attrs if x != "max_hours"] , **kw)
    sns = n.snapshots if sel is None else n.snapshots[list(sel)]
    L = labels(sns)
    names = list(n.static(comp).index)
    su = comp == "StorageUnit"
    if su:
        for g in names:
            n.storage_units[["max_hours"]] = n.storage_units[["max_hours"]].astype(object if ctx.sym else float)
            n.storage_units.at[g, "max_hours"] = ctx.pos(f"{g}.h")
    D_ = {(x, g, s): dense(n, comp, x, g, s) for x in attrs for g in names for s in L}
    for attr in ([None] if not su else [None, "p_store", "p_dispatch", "state_of_charge"]):
        for index in (None, n.static(comp).index[1:]):
            lo, hi = D.get_bounds_pu(n, comp, sns, index, attr)
            goals = []
            for g in (names if index is None else index):
                for s in L:
                    if branch:
                        w = -D_["s_max_pu", g, s], D_["s_max_pu", g, s]
                    elif not su:
                        w = D_[attrs[0], g, s], D_[attrs[1], g, s]
                    elif attr == "p_store":
                        w = 0, -D_["p_min_pu", g, s]
                    elif attr == "state_of_charge":
                        w = 0, D_["max_hours", g, s]
                    else:
                        w = 0, D_["p_max_pu", g, s]
                    i = L.index(s)
                    goals += [eq(lo[g].values[i], w[0], f"lower {attr} {g} {s}"), eq(hi[g].values[i], w[1], f"upper {attr} {g} {s}")]
            ctx.prove("bounds", goals)
    ctx.reach()


def outputs(ctx, T=2):
    """allocated outputs: existing values kept, the rest at the default."""
    import pandas as pd
    import pypsa.descriptors as D

    n = rich(ctx, T)
    n.buses_t.marginal_price = pd.DataFrame({"b": [ctx.real(f"mp{i}") for i in range(T)]}, index=n.snapshots)
    n.generators_t.p = pd.DataFrame({"g2": [ctx.real(f"p{i}") for i in range(T)]}, index=n.snapshots)
    D.allocate_series_dataframes(n, {"Bus": ["marginal_price", "v_ang", "v_mag_pu"], "Generator": ["p", "status"]})
    goals = []
    for c, a, g0, nm in (("Bus", "marginal_price", "b", "mp"), ("Bus", "v_ang", None, ""), ("Bus", "v_mag_pu", None, ""),
                         ("Generator", "p", "g2", "p"), ("Generator", "status", None, "")):
        fr = n.dynamic(c)[a]
        goals.append(Bool(list(fr.columns) == list(n.static(c).index), f"columns of {a}"))
        d = n.components[c].defaults.at[a, "default"]
        for g in fr.columns:
            for i in range(T):
                goals.append(same(fr[g].values[i], ctx.real(f"{nm}{i}") if g == g0 else d, f"{a} {g} {i}"))
    ctx.prove("allocated", goals)
    ctx.reach()


def selections(ctx):
    """which assets count as expandable, fixed or committable."""
    import pypsa
    import pypsa.descriptors as D

    n = pypsa.Network()
    n.add("Bus", ["a", "b"])
    att = dict(Generator="p_nom", Line="s_nom", Transformer="s_nom", Link="p_nom", Store="e_nom", StorageUnit="p_nom")
    goals = []
    for c, a in att.items():
        want = {}
        for j, (ext, com, act) in enumerate([(e, k, x) for e in (0, 1) for k in (0, 1) for x in (0, 1)]):
            kw = dict(bus="a") if c in ("Generator", "Store", "StorageUnit") else dict(bus0="a", bus1="b")
            if c in ("Generator", "Link"):
                kw["committable"] = bool(com)
            n.add(c, f"{c}{j}", active=bool(act), **{f"{a}_extendable": bool(ext)}, **kw)
            want[f"{c}{j}"] = (bool(ext), bool(com) and c in ("Generator", "Link"))
        for fn, k, v in ((D.get_extendable_i, 0, True), (D.get_non_extendable_i, 0, False), (D.get_committable_i, 1, True)):
            goals.append(Bool(list(fn(n, c)) == [g for g in want if want[g][k] is v], f"{fn.__name__} {c}"))
        goals.append(eq(ctx.real("one"), ctx.real("one")))
    ctx.prove("selections", goals)
    ctx.reach()


def jobs(tier):
    from itertools import permutations

    o = []
    subs = [()] + [p for k in range(1, 4) for p in permutations("wxyz", k) if k < 3 or p in (("z", "x", "w"), ("y", "w", "x"))]
    subs += [tuple("wxyz"), tuple("zyxw"), ("x", "w", "z", "y")]
    if tier == "thorough":
        subs = [()] + [p for k in range(1, 5) for p in permutations("wxyz", k)]
    for s in subs:
        o.append((f"dense-{''.join(s) or 'none'}", dense_, dict(series=s)))
    for s in ((), ("x",), ("z", "w"), tuple("wxyz")):
        nm = "".join(s) or "none"
        for sel in ([0], [1], [2], [0, 2], [1, 2], [2, 0]):
            o.append((f"snapshots-{sel}-{nm}", dense_, dict(series=s, T=3, sel=sel)))
        for inds in (("x",), ("w", "z"), ("z", "w"), ("y", "x", "w"), ("x", "unknown")):
            o.append((f"names-{''.join(inds)}-{nm}", dense_, dict(series=s, inds=inds)))
        o.append((f"periods-{nm}", dense_, dict(series=s, periods=[2020, 2030])))
        o.append((f"periods-part-{nm}", dense_, dict(series=s, periods=[2020, 2030], sel=[1, 2], inds=("w", "y"))))
        for c in ("Generator", "Link", "StorageUnit", "Store", "Line"):
            o.append((f"bounds-{c}-{nm}", bounds, dict(series=s, comp=c)))
            o.append((f"bounds-part-{c}-{nm}", bounds, dict(series=s, comp=c, T=3, sel=[2, 1], names="yx")))
            o.append((f"bounds-periods-{c}-{nm}", bounds, dict(series=s, comp=c, periods=[2020, 2030], sel=[1, 3])))
        for c, a in (("Load", "p_set"), ("Link", "efficiency"), ("StorageUnit", "inflow"), ("Line", "s_max_pu")):
            if c != "StorageUnit" or True:
                o.append((f"attr-{c}-{nm}", dense_, dict(series=s, comp=c, attrs=(a,))))
    o.append(("outputs", outputs, {}))
    o.append(("outputs-3", outputs, dict(T=3)))
    o.append(("selections", selections, {}))
    return o
