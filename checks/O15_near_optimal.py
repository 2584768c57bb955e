"""Near-optimal exploration: the given objective over exactly the points within the cost budget."""

import pandas as pd

from symx.formula import Bool, eq, le
from symx.lp import LP
from symx.opt import buses, equiv, network, series
from symx.ref import NOM, Ref
from symx.solve import Solver

FUNCTIONS = ["optimize_mga", "create_model", "define_objective", "StatisticsAccessor.capex", "StatisticsAccessor.opex",
             "StatisticsAccessor.installed_capex", "solve_model", "assign_solution"]
BOUNDS = ("1-3 snapshots (or a part of them), 1-3 investment periods; expandable, fixed, committable, inactive components of "
          "every type; every cost, weighting, capacity, slack, weight and the whole optimal solution symbolic; weights given "
          "as number, dictionary, Series or DataFrame for all or for some of the components, minimised or maximised")
OUTSIDE = ("quadratic costs (linopy rejects quadratic constraints); start-up and shut-down costs with investment periods; "
           "rounding of the optimal cost (the statistics option, 5 decimals by default); exploring other snapshots than "
           "those optimised; weights for components that do not exist")

ALLC = ("Generator", "Link", "Store", "StorageUnit", "Line", "Transformer")


def unit(ctx, n, c, md, k, ts, life, j, fixed_sign):
    nm = f"{c}-{md}"
    S = lambda a: series(ctx, f"{nm}-{a}", k, ts, lo=1)  # noqa: E731
    kw = dict(bus="a") if c in ("Generator", "Store", "StorageUnit") else dict(bus0="a", bus1="b")
    if c in ("Line", "Transformer"):
        kw.update(x=0.1, r=0.01)
    kw[NOM[c]] = 8.0 if c == "Transformer" else ctx.pos(f"{nm}-nom")
    kw["capital_cost"] = ctx.pos(f"{nm}-cc") if fixed_sign else ctx.real(f"{nm}-cc")
    if md in ("ext", "extoff"):
        kw[NOM[c] + "_extendable"] = True
    if md in ("off", "extoff"):
        kw["active"] = False
    if md == "com":
        kw.update(committable=True, start_up_cost=ctx.pos(f"{nm}-su"), shut_down_cost=ctx.pos(f"{nm}-sd"), stand_by_cost=S("sb"))
    if life:
        b, lt = life[j % len(life)]
        kw.update(build_year=b, lifetime=lt)
    if c not in ("Line", "Transformer"):
        kw["marginal_cost"] = S("mc")
    if c in ("Store", "StorageUnit"):
        kw["marginal_cost_storage"] = S("ms")
    if c == "StorageUnit":
        kw["spill_cost"] = S("sc")
        kw["inflow"] = 2.0
    ctx.add(n, c, nm, **kw)


def weight(ctx, n, c, attr, kind, some):
    """the argument and the coefficient of every (component, snapshot)"""
    nom = attr == NOM[c]
    names = [g for g in n.static(c).index if not some or not g.endswith("ext")] if some != "first" else list(n.static(c).index[:1])
    if kind == "number":
        w = ctx.real(f"w {c} {attr}")
        return w, lambda g, t: w
    if kind == "frame":
        ts = n.snapshots[:-1] if some else n.snapshots
        vals = {(g, t): ctx.real(f"w {c} {attr} {g} {i}") for g in names for i, t in enumerate(ts)}
        fr = pd.DataFrame([[vals[g, t] for g in reversed(names)] for t in ts], index=ts, columns=list(reversed(names)),
                          dtype=object if ctx.symparams else float)
        return fr, lambda g, t: vals.get((g, t), 0)
    vals = {g: ctx.real(f"w {c} {attr} {g}") for g in reversed(names)}
    if kind == "dict":
        return dict(vals), lambda g, t: vals.get(g, 0)
    return pd.Series(vals, dtype=object if ctx.symparams else float), lambda g, t: vals.get(g, 0)


def near(ctx, comps=("Generator",), modes=("fix", "ext"), T=2, periods=None, ts=False, life=None, weights=None, sense="min",
         sns=None, default_slack=False, some=False, drop=False, fixed_sign=True):
    import pypsa

    with pypsa.option_context("params.statistics.drop_zero", drop, "params.statistics.round", 12):
        explore(ctx, comps, modes, T, periods, ts, life, weights, sense, sns, default_slack, some, fixed_sign)


def explore(ctx, comps, modes, T, periods, ts, life, weights, sense, sns, default_slack, some, fixed_sign):
    n = network(T, periods)
    k = T * len(periods or [1])
    buses(ctx, n, "ab", v_nom=100)
    ctx.add(n, "Generator", "base", bus="a", p_nom=10, marginal_cost=ctx.pos("base"))
    ctx.add(n, "Load", "l", bus="a", p_set=ctx.real("l"))
    j = 0
    for c in comps:
        for md in modes:
            if md == "com" and c not in ("Generator", "Link"):
                continue
            unit(ctx, n, c, md, k, ts, life, j, fixed_sign)
            j += 1
    ctx.weightings(n, objective=ctx.reals("wo", k, lo=0, strict=True), generators=[2.0] * k, stores=[3.0] * k)
    if periods:
        w = n.investment_period_weightings
        v = ctx.reals("pobjective", len(periods), lo=0, strict=True)
        w["objective"] = pd.Series(v, index=w.index, dtype=object if ctx.symparams else float)
    ctx.finish(n)
    snapshots = None if sns is None else n.snapshots[list(sns)]
    multi = bool(periods)
    slack = 0.05 if default_slack else ctx.real("slack", lo=0)
    arg, coef = None, {("Generator", "p_nom"): lambda g, t: 1}
    if weights:
        arg, coef = {}, {}
        for c, attr, kind in weights:
            a, f = weight(ctx, n, c, attr, kind, some)
            arg.setdefault(c, {})[attr] = a
            coef[c, attr] = f
    kw = dict(multi_investment_periods=True) if multi else {}
    with Solver(ctx, duals=False) as sol:
        n.optimize(snapshots, **kw)
        extra = {} if default_slack else dict(slack=slack)
        if arg is not None:
            extra["weights"] = arg
        if sense is not None:
            extra["sense"] = sense
        n.optimize.optimize_mga(snapshots, **extra, **kw)
    ctx.prove("runs", [Bool(len(sol.runs) == 2, "the problem is solved once more")])
    first, second = sol.runs

    def spec(lp):
        return Ref(ctx, n, lp, sns=snapshots, multi=multi)

    def cost(lp):
        r = spec(lp)
        tot = r.opex_terms() + r.capex_terms()
        for c in NOM:
            for g in r.names(c):
                if not r.ext(c, g):
                    tot = tot + r.capex_weight(c, g) * r.val(c, g, "capital_cost") * r.val(c, g, NOM[c])
        return tot

    def budget(ref):
        return [le(cost(second), (1 + slack) * cost(first), "cost within the budget")]

    def constant(ref):
        return [r for g, rs in second.groups.items() if g == "objective_constant-bound" for r in rs]
    equiv(ctx, n, second.m, sns=snapshots, multi=multi, lp=second, extra=lambda ref: budget(ref) + constant(ref))
    want = 0
    ref = spec(second)
    for (c, attr), f in coef.items():
        if attr == NOM[c]:
            for g in ref.names(c):
                if ref.ext(c, g):
                    want = want + f(g, None) * ref.nomv(c, g)
        else:
            for t in ref.sns:
                for g in ref.names(c):
                    x = ref.v(c, attr, t, g)
                    if x is not None:
                        want = want + f(g, t) * x
    mn = sense in (None, "min", "minimize", 1, 3)
    ctx.prove("objective", [eq(second.objective, want if mn else 0 - want, "objective is the weighted sum asked for"),
                            Bool(str(second.m.objective.sense) == "min", "objective is minimised")])
    goals = []
    for c in comps:
        for g in n.static(c).index:
            if n.static(c).at[g, NOM[c] + "_extendable"] and ref.nomv(c, g) is not None:
                goals.append(eq(n.static(c).at[g, NOM[c] + "_opt"], ref.nomv(c, g), f"{c} {g} has the capacity of the alternative"))
    ctx.prove("stored", goals + [
        eq(n.meta["slack"], slack, "slack is recorded"),
        Bool(n.meta["sense"] == (1 if mn else -1), "sense is recorded"),
        Bool(set(n.meta["weights"]) == {c for c, _ in coef}, "weights are recorded")])


def unsolved(ctx):
    """a network without a solution is refused"""
    n = network(1)
    buses(ctx, n, "a")
    ctx.add(n, "Generator", "base", bus="a", p_nom_extendable=True, capital_cost=ctx.pos("c"))
    ctx.finish(n)
    try:
        n.optimize.optimize_mga()
        ok = False
    except ValueError:
        ok = True
    ctx.prove("refused", [Bool(ok, "a network that was not solved is refused")])


def wrong(ctx):
    n = network(1)
    buses(ctx, n, "a")
    ctx.add(n, "Generator", "base", bus="a", p_nom_extendable=True, capital_cost=ctx.pos("c"))
    ctx.finish(n)
    goals = []
    for s in ("best", 0, 1.5, None):
        with Solver(ctx, duals=False):
            n.optimize()
            try:
                n.optimize.optimize_mga(sense=s)
                ok = False
            except ValueError:
                ok = True
        goals.append(Bool(ok, f"sense {s!r} is refused"))
    ctx.prove("refused", goals)


OPER = {"Generator": "p", "Link": "p", "Store": "e", "StorageUnit": "p_dispatch", "Line": "s", "Transformer": "s"}


def jobs(tier):
    o = [("unsolved", unsolved, {}), ("wrong sense", wrong, {}), ("defaults", near, dict(comps=ALLC, default_slack=True, sense=None))]
    for c in ALLC:
        o.append((f"{c}-static", near, dict(comps=("Generator", c) if c != "Generator" else (c,), modes=("fix", "ext", "extoff", "off"),
                                            weights=[(c, NOM[c], "number")], fixed_sign=False)))
        if c not in ("Line", "Transformer"):
            o.append((f"{c}-series", near, dict(comps=(c,), ts=True, weights=[(c, OPER[c], "dict")], sense="max")))
        for kind in ("dict", "series"):
            o.append((f"{c}-nom-{kind}", near, dict(comps=(c,), modes=("ext", "fix", "extoff"), T=1,
                                                    weights=[(c, NOM[c], kind)], sense=-2)))
            o.append((f"{c}-nom-some-{kind}", near, dict(comps=(c,), modes=("extoff", "ext", "fix"), T=1, some="first",
                                                         weights=[(c, NOM[c], kind)], sense=3)))
        for kind in ("number", "dict", "series", "frame"):
            o.append((f"{c}-oper-{kind}", near, dict(comps=(c,), modes=("ext", "fix", "off"), weights=[(c, OPER[c], kind)], sense=1)))
        for kind in ("dict", "series", "frame"):
            o.append((f"{c}-oper-some-{kind}", near, dict(comps=(c,), modes=("ext", "fix"), weights=[(c, OPER[c], kind)],
                                                          some=True, sense="max")))
    o.append(("commitment", near, dict(comps=("Generator", "Link"), modes=("com", "ext"), T=3, weights=[("Generator", "status", "number")])))
    o.append(("several", near, dict(comps=ALLC, T=1, sense="maximize", weights=[
        ("Generator", "p_nom", "dict"), ("Generator", "p", "number"), ("Link", "p_nom", "series"), ("Store", "e", "frame"),
        ("Line", "s_nom", "number")])))
    o.append(("subset", near, dict(comps=ALLC[:4], T=3, modes=("ext",), sns=[0, 1, 2], weights=[("Store", "e", "frame")])))
    P2, P3 = [2020, 2030], [2020, 2030, 2040]
    for c in ALLC:
        o.append((f"{c}-periods", near, dict(comps=(c,), T=1, periods=P2, modes=("fix", "ext", "extoff"),
                                             weights=[(c, NOM[c], "number")])))
        o.append((f"{c}-life", near, dict(comps=(c,), T=1, periods=P3, modes=("ext", "fix", "off"), sense="max",
                                          life=[(2020, 10), (2030, 30), (2010, 25)], weights=[(c, NOM[c], "dict")])))
    o.append(("periods-oper", near, dict(comps=("Generator", "Link"), T=2, periods=P2, ts=True,
                                         weights=[("Generator", "p", "number"), ("Link", "p", "series")])))
    if tier == "thorough":
        for sense in ("min", "max"):
            for sns in ([0, 1, 2], None):
                for ts in (False, True):
                    o.append((f"deep-all-{sense}-{sns}-{ts}", near, dict(
                        comps=ALLC, modes=("fix", "ext", "off", "extoff"), T=3, ts=ts, sns=sns, sense=sense,
                        weights=[(c, NOM[c], "dict") for c in ALLC] + [(c, OPER[c], "frame") for c in ALLC])))
        for b in (2010, 2020, 2025, 2030, 2040):
            for lt in (5, 10, 20, 40):
                o.append((f"deep-life-{b}-{lt}", near, dict(comps=ALLC, T=1, periods=P3, life=[(b, lt)], modes=("ext", "fix"),
                                                            weights=[(c, NOM[c], "series") for c in ALLC])))
    return o
