"""The objective is the total system cost."""

from symx.formula import eq, ne
from symx.lp import LP
from symx.opt import buses, model, network, series
from symx.ref import Ref

FUNCTIONS = ["create_model", "define_objective", "get_switchable_as_dense", "get_active_assets", "get_extendable_i",
             "get_committable_i"]
BOUNDS = ("1-3 snapshots, 1-3 investment periods, every cost attribute static or time-varying on every component type, "
          "1-3 components per type; costs of any sign (start-up/shut-down >= 0), symbolic snapshot and period "
          "weightings, symbolic installed capacities, fixed/extendable/inactive assets in every alive pattern")
OUTSIDE = ("weighting of start-up and shut-down costs by investment period (undocumented); negative start-up and "
           "shut-down costs; a problem without any cost at all (rejected with an error)")


def cost(ctx, n, sns=None, multi=False, linear_uc=False):
    ctx.finish(n)
    m = model(ctx, n, sns=sns, multi=multi, linear_uc=linear_uc)
    lp = LP(ctx, m)
    ref = Ref(ctx, n, lp, sns=sns, multi=multi, linear_uc=linear_uc)
    ctx.fingerprint([lp.objective, n.objective_constant])
    given = lp.groups.get("objective_constant-bound", [])
    built = ref.capex_terms(existing=True)
    ctx.prove("objective constant", [eq(n.objective_constant, built, "objective constant is the cost of what is built")])
    ctx.prove("objective", [eq(lp.objective, ref.opex_terms() + ref.capex_terms() - built,
                               "objective is operating plus expansion cost")], given=given)
    ctx.reach(given)


def free(ctx, name, k, varying, nz):
    """cost attribute; nz: not identically zero (else both cases are explored)."""
    v = series(ctx, name, k, varying)
    if nz:
        for x in v if varying else [v]:
            ctx.assume(ne(x, 0))
    return v


def weigh(ctx, n, T, periods, gen=True):
    k = T * len(periods or [1])
    ctx.weightings(n, objective=ctx.reals("wo", k), generators=ctx.reals("wg", k), stores=ctx.reals("ws", k, lo=0, strict=True))
    if periods:
        import pandas as pd

        w = n.investment_period_weightings
        for col in ("objective", "years"):
            v = ctx.reals(f"p{col}", len(periods))
            w[col] = pd.Series(v, index=w.index, dtype=object if ctx.symparams else float)


NOM = {"Generator": "p_nom", "Line": "s_nom", "Transformer": "s_nom", "Link": "p_nom", "Store": "e_nom",
       "StorageUnit": "p_nom"}


def everything(ctx, comps, T=2, periods=None, ts=False, modes=("fix", "ext"), quad=False, act=None, sns=None, zero=False, nz=True):
    """one component per type and mode, every cost attribute symbolic."""
    n = network(T, periods)
    k = T * len(periods or [1])
    buses(ctx, n, "ab", v_nom=100)
    S = lambda nm, v=ts: free(ctx, nm, k, v, nz)  # noqa: E731
    ctx.add(n, "Generator", "base", bus="a", p_nom=10, marginal_cost=ctx.real("base"))
    ctx.add(n, "Load", "l", bus="a", p_set=ctx.real("l"))
    j = 0
    for c in comps:
        for md in modes:
            nm = f"{c}-{md}"
            kw = dict(bus="a") if c in ("Generator", "Store", "StorageUnit") else dict(bus0="a", bus1="b")
            if c == "Line":
                kw.update(x=0.1, r=0.01)
            if c == "Transformer":
                kw.update(x=0.1, r=0.01, s_nom=1.0)
            else:
                kw[NOM[c]] = ctx.real(f"{nm}-nom", 0)
            if c == "Transformer" and md != "fix":
                kw["s_nom"] = ctx.pos(f"{nm}-nom")
            kw["capital_cost"] = ctx.real(f"{nm}-cc")
            if md in ("ext", "extoff"):
                kw[NOM[c] + "_extendable"] = True
            if md in ("off", "extoff"):
                kw["active"] = False
            if act:
                b, l = act[j % len(act)]
                kw.update(build_year=b, lifetime=l)
            j += 1
            if c not in ("Line", "Transformer"):
                kw["marginal_cost"] = S(f"{nm}-mc")
                if quad:
                    kw["marginal_cost_quadratic"] = S(f"{nm}-mq")
            if c in ("Store", "StorageUnit"):
                kw["marginal_cost_storage"] = S(f"{nm}-ms")
            if c == "StorageUnit":
                kw["spill_cost"] = S(f"{nm}-sc")
                kw["inflow"] = 2.0
            if zero and c not in ("Line", "Transformer"):
                v = ctx.real(f"{nm}-one")
                ctx.assume(ne(v, 0))
                kw["marginal_cost"] = [0.0] * (k - 1) + [v]
            ctx.add(n, c, nm, **kw)
    weigh(ctx, n, T, periods)
    cost(ctx, n, None if sns is None else n.snapshots[list(sns)], multi=bool(periods))


def commitment(ctx, comp="Generator", T=2, ts=False, linear=False, units=2, active=True, nz=True):
    n = network(T)
    buses(ctx, n, "ab")
    ctx.add(n, "Generator", "base", bus="a", p_nom=10, marginal_cost=ctx.real("base"))
    for i in range(units):
        kw = dict(bus="a") if comp == "Generator" else dict(bus0="a", bus1="b")
        ctx.add(n, comp, f"u{i}", committable=True, p_nom=10, marginal_cost=free(ctx, f"m{i}", T, ts, nz),
                stand_by_cost=free(ctx, f"s{i}", T, ts, nz), start_up_cost=ctx.real(f"su{i}", 0),
                shut_down_cost=ctx.real(f"sd{i}", 0), active=active or i == 0, **kw)
    weigh(ctx, n, T, None)
    cost(ctx, n, linear_uc=linear)


def mixed(ctx, T=2):
    """several units per type, some static and some time-varying"""
    n = network(T)
    buses(ctx, n, "ab")
    for i in range(3):
        ctx.add(n, "Generator", f"g{i}", bus="a", p_nom=ctx.real(f"gn{i}"), p_nom_extendable=i != 1,
                capital_cost=ctx.real(f"gc{i}"), marginal_cost=free(ctx, f"gm{i}", T, i == 2, True),
                marginal_cost_quadratic=0.0 if i != 1 else ctx.real("gq"), stand_by_cost=ctx.real(f"sb{i}"),
                committable=i == 1)
        ctx.add(n, "Link", f"k{i}", bus0="a", bus1="b", p_nom_extendable=i == 0, capital_cost=ctx.real(f"kc{i}"),
                marginal_cost=free(ctx, f"km{i}", T, i == 0, True), p_nom=ctx.real(f"kn{i}"))
        ctx.add(n, "Store", f"e{i}", bus="b", e_nom_extendable=i == 2, capital_cost=ctx.real(f"ec{i}"),
                e_nom=ctx.real(f"en{i}"), marginal_cost=0.0 if i == 1 else free(ctx, f"em{i}", T, False, True),
                marginal_cost_storage=free(ctx, f"es{i}", T, i == 1, True))
    weigh(ctx, n, T, None)
    cost(ctx, n)


ALLC = ("Generator", "Link", "Store", "StorageUnit", "Line", "Transformer")


def jobs(tier):
    o = []
    for c in ALLC:
        o.append((f"{c}-static", everything, dict(comps=(c,), modes=("fix", "ext", "extoff"))))
        o.append((f"{c}-zeros", everything, dict(comps=(c,), modes=("ext",), T=1, nz=False), dict(max_paths=70)))
        if c not in ("Line", "Transformer"):
            o.append((f"{c}-series", everything, dict(comps=(c,), ts=True, modes=("fix", "ext", "off"))))
            o.append((f"{c}-quad", everything, dict(comps=(c,), quad=True)))
            o.append((f"{c}-lastonly", everything, dict(comps=(c,), zero=True, T=3)))
    o.append(("all", everything, dict(comps=ALLC, T=1)))
    o.append(("mixed", mixed, {}))
    for s in ([1, 2], [0], [2]):
        o.append((f"subset-{s}", everything, dict(comps=ALLC[:4], T=3, ts=True, modes=("ext",), sns=s)))
    for comp in ("Generator", "Link"):
        for ts in (False, True):
            for lin in (False, True):
                if lin and ts:
                    continue
                o.append((f"uc-{comp}-{ts}-{lin}", commitment, dict(comp=comp, ts=ts, linear=lin)))
    o.append(("uc-inactive", commitment, dict(active=False)))
    P2, P3 = [2020, 2030], [2020, 2030, 2040]
    for c in ALLC:
        o.append((f"{c}-periods", everything, dict(comps=(c,), T=1, periods=P2, modes=("fix", "ext", "extoff"))))
        o.append((f"{c}-life", everything, dict(comps=(c,), T=1, periods=P3, modes=("ext", "fix", "ext2"[:3] + "off"),
                                               act=[(2020, 10), (2030, 30), (2010, 25)])))
    o.append(("periods-subset", everything, dict(comps=ALLC[:4], T=2, periods=P3, modes=("ext",), sns=[2, 3, 5],
                                                 act=[(2020, 20), (2030, 30)])))
    o.append(("periods-series", everything, dict(comps=ALLC[:4], T=1, periods=P2, ts=True, quad=True)))
    if tier == "thorough":
        for c in ALLC:
            for q in (False, True):
                for ts in (False, True):
                    o.append((f"{c}-deep-{q}-{ts}", everything, dict(comps=(c,), T=3, ts=ts, quad=q and c not in (
                        "Line", "Transformer"), modes=("fix", "ext", "off", "extoff"))))
            for b in (2010, 2020, 2025, 2030, 2040, 2050):
                for l in (5, 10, 11, 20, 40):
                    o.append((f"{c}-life-{b}-{l}", everything, dict(comps=(c,), T=1, periods=P3, modes=("ext", "fix"),
                                                                    act=[(b, l)])))
        o.append(("all-T2", everything, dict(comps=ALLC, T=2, ts=True, modes=("fix", "ext", "off", "extoff"))))
    return o
