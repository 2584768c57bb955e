"""Reported expenditure adds up to the objective."""

from symx.formula import Bool, eq, ne
from symx.lp import LP
from symx.opt import buses, network, series
from symx.ref import LINKS, NOM
from symx.solve import Solver
from symx.stat import ALL, Spec, compare

FUNCTIONS = ["optimize", "define_objective", "assign_solution", "StatisticsAccessor.capex", "StatisticsAccessor.opex",
             "StatisticsAccessor.installed_capex", "StatisticsAccessor.expanded_capex", "StatisticsAccessor.system_cost"]
BOUNDS = ("1-2 snapshots, 1-3 investment periods, every component type fixed/expandable/committable/inactive with static or "
          "time-varying costs; all costs, weightings, capacities and every solution symbolic")
OUTSIDE = ("weighting of start-up and shut-down costs by investment period (undocumented); rounding of reported numbers")

FREE = dict(round=12, drop_zero=False, groupby=False)


def unit(ctx, n, c, md, k, ts, quad, life, j):
    nm = f"{c}-{md}"
    S = lambda a, lo=None: series(ctx, f"{nm}-{a}", k, ts, lo=lo)  # noqa: E731
    kw = dict(bus="a") if c in ("Generator", "Store", "StorageUnit") else dict(bus0="a", bus1="b")
    if c in ("Line", "Transformer"):
        kw.update(x=0.1, r=0.01)
    kw[NOM[c]] = 8.0 if c == "Transformer" else ctx.pos(f"{nm}-nom")
    kw["capital_cost"] = ctx.real(f"{nm}-cc")
    if md == "ext":
        kw[NOM[c] + "_extendable"] = True
    if md in ("off", "comoff"):
        kw["active"] = False
    if md in ("com", "comoff"):
        kw.update(committable=True, start_up_cost=ctx.pos(f"{nm}-su"), shut_down_cost=ctx.pos(f"{nm}-sd"),
                  stand_by_cost=S("sb", 1))
    if life:
        b, lt = life[j % len(life)]
        kw.update(build_year=b, lifetime=lt)
    if c not in ("Line", "Transformer"):
        kw["marginal_cost"] = S("mc", 1)
        if quad:
            kw["marginal_cost_quadratic"] = S("mq", 1)
    if c in ("Store", "StorageUnit"):
        kw["marginal_cost_storage"] = S("ms", 1)
    if c == "StorageUnit":
        kw["spill_cost"] = S("sc", 1)
        kw["inflow"] = 2.0
    ctx.add(n, c, nm, **kw)


def total(ctx, comps, modes=("fix", "ext"), T=2, periods=None, ts=False, quad=False, life=None, weights="all", sns=None,
          drop=False):
    n = network(T, periods)
    k = T * len(periods or [1])
    buses(ctx, n, "ab", v_nom=100)
    ctx.add(n, "Generator", "base", bus="a", p_nom=10, marginal_cost=ctx.pos("base"))
    ctx.add(n, "Load", "l", bus="a", p_set=ctx.real("l"))
    j = 0
    for c in comps:
        for md in modes:
            if md in ("com", "comoff") and c not in ("Generator", "Link"):
                continue
            unit(ctx, n, c, md, k, ts, quad, life, j)
            j += 1
    ctx.weightings(n, objective=[ctx.pos(f"wo_{i}") for i in range(k)], generators=ctx.reals("wg", k),
                   stores=[ctx.pos(f"ws_{i}") for i in range(k)])
    if periods:
        import pandas as pd

        iw = n.investment_period_weightings
        iw["objective"] = pd.Series([ctx.pos(f"pw_{i}") for i in range(len(periods))], index=iw.index,
                                    dtype=object if ctx.symparams else float)
    ctx.finish(n)
    with Solver(ctx, duals=False) as sol:
        sel = None if sns is None else n.snapshots[list(sns)]
        n.optimize(sel, multi_investment_periods=True) if periods else n.optimize(sel)
    lp = sol.runs[0]
    given = lp.groups.get("objective_constant-bound", [])
    opts = dict(FREE)
    st = n.statistics
    capex, opex, cost = st.capex(**opts), st.opex(**opts), st.system_cost(**opts)
    old, new = st.installed_capex(**opts), st.expanded_capex(**opts)
    spec = Spec(n)

    def add(df):
        """money over all periods"""
        if df.ndim == 1:
            return sum(df.values)
        return sum((df.fillna(0)[p] * n.investment_period_weightings.objective[p]).sum() for p in df.columns)

    fixed = 0
    for p in spec.periods:
        pw = n.investment_period_weightings.objective[p] if periods else 1
        for c in NOM:
            for g in spec.names(c):
                if spec.active(c, g, p) and not spec.stat(c, g, NOM[c] + "_extendable"):
                    fixed = fixed + pw * spec.stat(c, g, "capital_cost") * spec.stat(c, g, NOM[c])
    goal = lp.objective + n.objective_constant + fixed
    # without lp.objective's own constant variable counted twice
    ctx.prove("expenditure", [eq(add(capex) + add(opex), goal, "capital plus operational expenditure is the objective plus "
                                 "its constant plus what fixed assets cost"),
                              eq(add(cost), add(capex) + add(opex), "system cost is the sum of both"),
                              eq(add(old) + add(new), add(capex), "installed and expanded parts add up")], given=given)
    capd = {}
    for nm, attr in (("capital expenditure", "_opt"), ("of what was installed", "")):
        df = capex if attr else old
        compare(ctx, nm, df, spec.table(
            lambda c, g, port, p, attr=attr: None if c not in NOM or not spec.active(c, g, p) else
            spec.stat(c, g, NOM[c] + attr) * spec.stat(c, g, "capital_cost"), by=False))
    ctx.fingerprint([add(capex), add(opex)])
    ctx.reach(given)


def jobs(tier):
    C = ("Generator", "Link", "Store", "StorageUnit", "Line", "Transformer")
    P2, P3 = [2020, 2030], [2020, 2030, 2040]
    L = [(2020, 10), (2030, 30), (2010, 25)]
    o = []
    for c in C:
        o.append((f"{c}", total, dict(comps=(c,), modes=("fix", "ext", "off"))))
        if c not in ("Line", "Transformer"):
            o.append((f"{c}-series", total, dict(comps=(c,), ts=True, quad=True, T=2)))
        o.append((f"{c}-periods", total, dict(comps=(c,), T=1, periods=P2)))
        o.append((f"{c}-life", total, dict(comps=(c,), T=1, periods=P3, life=L, modes=("ext", "fix"))))
    for c in ("Generator", "Link"):
        o.append((f"{c}-uc", total, dict(comps=(c,), modes=("com", "fix"))))
        o.append((f"{c}-uc-series", total, dict(comps=(c,), modes=("com", "ext"), ts=True)))
        o.append((f"{c}-uc-off", total, dict(comps=(c,), modes=("com", "comoff"), T=1)))
    for s in ([1], [0, 1]):
        o.append((f"subset-{s}", total, dict(comps=C[:4], modes=("ext",), T=3, sns=s)))
    o.append(("mix", total, dict(comps=C, T=1)))
    o.append(("mix-uc", total, dict(comps=C[:4], T=1, modes=("ext", "com"), quad=True)))
    o.append(("mix-life", total, dict(comps=C[:4], T=1, periods=P2, life=L, ts=True)))
    if tier == "thorough":
        for c in C:
            o.append((f"deep-{c}", total, dict(comps=(c,), modes=("fix", "ext", "off", "com"), T=3, ts=True,
                                               quad=c not in ("Line", "Transformer"))))
            for b in (2010, 2025, 2040):
                o.append((f"deep-{c}-{b}", total, dict(comps=(c,), T=2, periods=P3, life=[(b, 10), (b, 15), (b, 40)])))
        o.append(("deep-mix", total, dict(comps=C, T=2, modes=("fix", "ext", "off", "com"), ts=True)))
    return o
