"""Fixed dispatch schedules and energy budgets."""

from symx.opt import buses, equiv, model, network, series

FUNCTIONS = ["create_model", "define_fixed_operation_constraints", "define_total_supply_constraints", "reindex",
             "get_activity_mask", "as_index"]
BOUNDS = ("1-4 snapshots, 1-2 investment periods, every subset of set points given (others missing), all component "
          "types; set points, energy budgets, weightings and decision variables symbolic")
OUTSIDE = "budgets of inactive generators"


def fixed(ctx, T=3, gaps=(), periods=None, sns=None, ext=False):
    n = network(T, periods)
    k = T * len(periods or [1])
    buses(ctx, n, "ab")
    for b in "ab":
        ctx.add(n, "Load", f"l{b}", bus=b, p_set=ctx.real(f"l{b}"))
        ctx.add(n, "Generator", f"z{b}", bus=b, p_nom=50, p_min_pu=-1, marginal_cost=1)
    act = dict(build_year=2030) if periods else {}
    E = lambda a: {f"{a}_extendable": True} if ext else {a: 20.0}  # noqa: E731
    ctx.add(n, "Generator", "g", bus="a", **E("p_nom"))
    ctx.add(n, "Generator", "g2", bus="b", **E("p_nom"), **act)
    ctx.add(n, "Generator", "goff", bus="b", p_nom=10, active=False)
    ctx.add(n, "Generator", "gc", bus="b", p_nom=10, committable=not periods and not sns)
    ctx.add(n, "Link", "k", bus0="a", bus1="b", **E("p_nom"))
    ctx.add(n, "Line", "i", bus0="a", bus1="b", x=1, **E("s_nom"))
    ctx.add(n, "Transformer", "t", bus0="a", bus1="b", x=1, **{"s_nom": 20.0, **E("s_nom")})
    ctx.add(n, "Store", "s", bus="a", **E("e_nom"))
    ctx.add(n, "StorageUnit", "u", bus="a", max_hours=3, **E("p_nom"), **act)
    ctx.finish(n)
    import numpy as np
    import pandas as pd

    def put(c, attr, cols):
        d = {}
        for j, g in enumerate(cols):
            d[g] = [float("nan") if (i + j) % 4 in gaps else ctx.real(f"{g}{attr}{i}") for i in range(k)]
        df = pd.DataFrame(d, index=n.snapshots, dtype=object if ctx.sym else float)
        n.dynamic(c)[attr] = df

    put("Generator", "p_set", ["g", "g2", "goff", "gc"])
    put("Link", "p_set", ["k"])
    put("Line", "s_set", ["i"])
    put("Transformer", "s_set", ["t"])
    put("Store", "e_set", ["s"])
    put("StorageUnit", "state_of_charge_set", ["u"])
    put("StorageUnit", "p_dispatch_set", ["u"])
    sel = None if sns is None else n.snapshots[list(sns)]
    multi = bool(periods)
    equiv(ctx, n, model(ctx, n, multi=multi, sns=sel), own=("fixed_dispatch",), back=("fixed_dispatch",), multi=multi,
          sns=sel)


def budgets(ctx, T=3, periods=None, sns=None, lo=True, hi=True, weights=True):
    n = network(T, periods)
    k = T * len(periods or [1])
    buses(ctx, n, "a")
    ctx.add(n, "Load", "l", bus="a", p_set=ctx.real("l"))
    ctx.add(n, "Generator", "z", bus="a", p_nom=50, p_min_pu=-1, marginal_cost=1)
    act = dict(build_year=2030) if periods else {}
    L = lambda g: dict(e_sum_min=ctx.real(g + "lo")) if lo else {}  # noqa: E731
    H = lambda g: dict(e_sum_max=ctx.real(g + "hi")) if hi else {}  # noqa: E731
    ctx.add(n, "Generator", "g", bus="a", p_nom=ctx.real("gn"), **L("g"), **H("g"))
    ctx.add(n, "Generator", "h", bus="a", p_nom_extendable=True, **L("h"))
    ctx.add(n, "Generator", "i", bus="a", p_nom=3, **H("i"), **act)
    ctx.add(n, "Generator", "c", bus="a", p_nom=3, committable=not sns, **H("c"), **L("c"))
    if weights:
        ctx.weightings(n, generators=ctx.reals("w", k), stores=[3.0] * k, objective=ctx.reals("wo", k))
    ctx.finish(n)
    sel = None if sns is None else n.snapshots[list(sns)]
    multi = bool(periods)
    equiv(ctx, n, model(ctx, n, multi=multi, sns=sel), own=("energy_sums",), back=("energy_sums",), multi=multi,
          sns=sel)


def jobs(tier):
    o = []
    for ext in (False, True):
        for gaps in ((), (0,), (1, 3), (0, 1, 2)):
            o.append((f"fixed-ext{int(ext)}-{gaps}", fixed, dict(gaps=gaps, ext=ext)))
    for sel in ([0, 1], [1, 2], [2]):
        o.append((f"fixed-subset{sel}", fixed, dict(gaps=(1,), sns=sel)))
    o.append(("fixed-periods", fixed, dict(T=2, periods=[2020, 2030], gaps=(2,))))
    o.append(("fixed-all-missing", fixed, dict(T=2, gaps=(0, 1, 2, 3))))
    for lo in (False, True):
        for hi in (False, True):
            o.append((f"budget-{int(lo)}{int(hi)}", budgets, dict(lo=lo, hi=hi)))
    for sel in ([0, 1], [1, 2], [2]):
        o.append((f"budget-subset{sel}", budgets, dict(sns=sel)))
    o.append(("budget-periods", budgets, dict(T=2, periods=[2020, 2030])))
    if tier == "thorough":
        for g in ((0, 2), (1, 2), (3,), (0, 3)):
            o.append((f"fixed-T5-{g}", fixed, dict(T=5, gaps=g)))
            o.append((f"fixed-P3-{g}", fixed, dict(T=2, periods=[2020, 2030, 2040], gaps=g, ext=True)))
        o.append(("budget-T5", budgets, dict(T=5)))
        o.append(("budget-P3", budgets, dict(T=2, periods=[2020, 2030, 2040])))
    return o
