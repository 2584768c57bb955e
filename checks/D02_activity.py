"""Assets are active exactly from their build year to the end of their life."""

from symx.data import labels
from symx.formula import And, Bool, Or, ge, gt, le, lt

FUNCTIONS = ["Components.get_active_assets", "get_active_assets", "get_activity_mask", "as_index",
             "Network.adjacency_matrix (activity)"]
BOUNDS = ("1-2 assets per component type with symbolic build year and lifetime (finite or infinite), every switch, 1-4 "
          "investment periods, queries for no, one, several and all periods, snapshot and component subsets")
OUTSIDE = "fractional comparison of periods given as text"

COMPS = ("Generator", "Link", "Line", "Transformer", "Store", "StorageUnit")
PERIODS = (2020, 2030, 2045, 2050)


def build(ctx, comp, life, switch, periods, T=1):
    import pypsa

    n = pypsa.Network()
    n.set_snapshots(range(T))
    if periods:
        n.investment_periods = list(periods)
    n.add("Bus", ["a", "b"])
    bus = dict(bus="a") if comp in ("Generator", "StorageUnit", "Store", "Load") else dict(bus0="a", bus1="b")
    rec = {}
    for j, (lf, on) in enumerate(zip(life, switch)):
        g = f"g{j}"
        kw = {}
        if comp != "Load":
            kw["build_year"] = ctx.int(f"{g}.year", 2000, 2070)
            if lf != "inf":
                kw["lifetime"] = ctx.real(f"{g}.life", 0, 60)
        n.add(comp, g, active=bool(on), **bus, **kw)
        rec[g] = (kw.get("build_year"), kw.get("lifetime"), bool(on))
    return n, rec


def spec(rec, g, periods):
    """formula: g is active in at least one of the periods (None: switch only)."""
    y, lf, on = rec[g]
    if not on:
        return Bool(False)
    if periods is None or y is None:
        return Bool(True)
    out = []
    for p in periods:
        out.append(And(le(y, p), Bool(True) if lf is None else lt(p, y + lf)))
    return Or(*out) if len(out) != 1 else out[0]


def agree(value, f, name):
    g = f if bool(value) else f.neg()
    g.name = name
    return g


def assets(ctx, comp, life=("fin",), switch=(1,), periods=None, ask=None):
    import pypsa.descriptors as D

    n, rec = build(ctx, comp, life, switch, periods)
    goals = []
    for q in ask or [None]:
        got = D.get_active_assets(n, comp, list(q) if isinstance(q, (tuple, list)) else q)
        qs = None if q is None else q if isinstance(q, (tuple, list)) else (q,)
        assert list(got.index) == list(rec)
        goals += [agree(got[g], spec(rec, g, qs), f"active {g} {q}") for g in rec]
        got = n.components[comp].get_active_assets(q if q is None else list(qs))
        goals += [agree(got[g], spec(rec, g, qs), f"component active {g} {q}") for g in rec]
    ctx.prove("active", goals)
    ctx.fingerprint([float(bool(got[g])) for g in rec])
    ctx.reach()


def unknown_period(ctx, comp):
    """asking for a period the network does not have is refused."""
    import pypsa.descriptors as D

    n, rec = build(ctx, comp, ("fin",), (1,), (2020, 2030))
    ok = []
    for q in (2025, [2020, 2040], 0):
        try:
            D.get_active_assets(n, comp, q)
            ok.append(Bool(False, f"period {q} accepted"))
        except ValueError:
            ok.append(Bool(True))
    ctx.prove("refused", ok + [ge(rec["g0"][0], 2000)])
    ctx.reach()


def mask(ctx, comp, life=("fin",), switch=(1,), periods=None, T=2, sel=None, index=None, multi=True):
    import pandas as pd
    import pypsa.descriptors as D

    n, rec = build(ctx, comp, life, switch, periods, T)
    n._multi_invest = int(bool(periods) and multi)
    sns = n.snapshots if sel is None else n.snapshots[list(sel)]
    ix = None if index is None else pd.Index(list(index))
    args = {} if sel is None else dict(sns=sns)
    got = D.get_activity_mask(n, comp, index=ix, **args)
    L = labels(sns)
    names = list(rec) if index is None else list(index)
    goals = [Bool(labels(got.index) == L, "snapshots"), Bool(list(got.columns) == names, "columns")]
    for g in names:
        for j, s in enumerate(L):
            per = (s[0],) if n._multi_invest and comp != "Load" else None
            v = got[g].values[j]
            goals.append(agree(v, spec(rec, g, per), f"mask {g} {s}"))
    ctx.prove("mask", goals)
    ctx.reach()


def jobs(tier):
    o = []
    deep = tier == "thorough"
    P1, P2, P3, P4 = PERIODS[:1], PERIODS[:2], PERIODS[:3], PERIODS
    for c in COMPS:
        for lf in ("fin", "inf"):
            o.append((f"assets-{c}-{lf}", assets, dict(comp=c, life=(lf,), periods=P3, ask=[
                None, 2020, 2030, 2045, (2020, 2030), (2020, 2045), (2045, 2020), P3])))
        o.append((f"assets-{c}-two", assets, dict(comp=c, life=("fin", "inf"), switch=(1, 1), periods=P2,
                                                  ask=[None, 2020, P2]), dict(max_paths=200)))
        o.append((f"assets-{c}-switch", assets, dict(comp=c, life=("fin", "inf"), switch=(0, 1), periods=P2,
                                                     ask=[None, 2030, P2]), dict(max_paths=200)))
        o.append((f"assets-{c}-plain", assets, dict(comp=c, life=("fin", "inf"), switch=(0, 1))))
        o.append((f"unknown-{c}", unknown_period, dict(comp=c)))
        for per in (None, P1, P2, P3):
            nm = len(per or ())
            o.append((f"mask-{c}-{nm}", mask, dict(comp=c, periods=per)))
            o.append((f"mask-{c}-{nm}-inf-off", mask, dict(comp=c, periods=per, life=("inf", "fin"), switch=(1, 0))))
        o.append((f"mask-{c}-plain-run", mask, dict(comp=c, periods=P2, multi=False, life=("fin", "inf"), switch=(1, 0))))
        o.append((f"mask-{c}-part", mask, dict(comp=c, periods=P3, T=2, sel=[1, 4, 5])))
        o.append((f"mask-{c}-index", mask, dict(comp=c, periods=P2, life=("fin", "inf"), switch=(1, 1), index=("g1",))))
        o.append((f"mask-{c}-order", mask, dict(comp=c, periods=P2, life=("fin", "inf"), switch=(1, 1), index=("g1", "g0"))))
        o.append((f"mask-{c}-last", mask, dict(comp=c, periods=P2, sel=[2, 3], life=("inf", "fin"), switch=(1, 1))))
    o.append(("assets-Load", assets, dict(comp="Load", life=("inf", "inf"), switch=(1, 0), periods=P2, ask=[None, 2020, P2])))
    o.append(("mask-Load", mask, dict(comp="Load", life=("inf", "inf"), switch=(1, 0), periods=P2)))
    if deep:
        for c in COMPS:
            o.append((f"deep-assets-{c}", assets, dict(comp=c, life=("fin", "fin"), switch=(1, 1), periods=P4,
                                                       ask=[None, *P4, P2, P3, P4, (2020, 2050)]), dict(max_paths=2000)))
            o.append((f"deep-mask-{c}", mask, dict(comp=c, life=("fin", "inf", "fin"), switch=(1, 1, 0), periods=P4, T=2),
                      dict(max_paths=2000)))
    return o
