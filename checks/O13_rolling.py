"""Rolling horizon: windows chain without loss."""

from symx.formula import Bool, eq
from symx.lp import coord_key
from symx.opt import buses, equiv, network, series
from symx.ref import LINKS, NOM, OPER, Ref
from symx.solve import Solver

FUNCTIONS = ["optimize_with_rolling_horizon", "optimize", "create_model", "assign_solution", "post_processing",
             "define_ramp_limit_constraints", "define_operational_constraints_for_committables",
             "define_store_constraints", "define_storage_unit_constraints"]
BOUNDS = ("2-7 snapshots, horizons 1-5, overlaps 0-3, all snapshots or a later part of them, 1-2 investment periods; "
          "storage units, stores, ramp-limited, committable, expandable units; every value a solver may return in every "
          "window symbolic (statuses 0/1)")
OUTSIDE = "cyclic storage (each window is cyclic by itself); windows in which the solver fails; gaps between snapshots"


def windows(count, horizon, overlap):
    """start and end positions, from the documented meaning"""
    out = []
    a = 0
    while a < count:
        out.append((a, min(a + horizon, count)))
        a += horizon - overlap
    return out


class Chained(Ref):
    """the specification of window k, with the state the earlier windows left behind."""

    def history(self, c, attr, g, t):
        for lp, sns in reversed(self.earlier):
            if t in sns:
                return lp.get(f"{c}-{attr}", t, g)
        return None

    def past(self, c, attr, g, k):
        t = list(self.n.snapshots)[k]
        x = self.history(c, attr, g, t)
        return 0 if x is None else x

    def initial(self, c, g):
        k = list(self.n.snapshots).index(self.sns[0])
        x = self.history(c, "e" if c == "Store" else "state_of_charge", g, list(self.n.snapshots)[k - 1]) if k else None
        return self.start[(c, g)] if x is None else x


def rolling(ctx, T=4, horizon=2, overlap=0, pieces=("store",), first=0, periods=None, ts=False, comp="Generator", hrs=1.0):
    n = network(T, periods)
    k = T * len(periods or [1])
    buses(ctx, n, "ab")
    for b in "ab":
        ctx.add(n, "Generator", f"z{b}", bus=b, p_nom=50, p_min_pu=-1, marginal_cost=1)
        ctx.add(n, "Load", f"l{b}", bus=b, p_set=series(ctx, f"l{b}", k, ts))
    S = lambda nm, **kw: series(ctx, nm, k, ts, **kw)  # noqa: E731
    if "store" in pieces:
        ctx.add(n, "Store", "s", bus="a", e_nom=20, e_initial=ctx.real("s0"), standing_loss=S("sl", lo=0, hi=1))
        ctx.add(n, "Store", "s2", bus="b", e_nom=30, e_initial=ctx.real("s20"))
        ctx.add(n, "Store", "off", bus="b", e_nom=30, e_initial=4, active=False)
    if "unit" in pieces:
        ctx.add(n, "StorageUnit", "u", bus="a", p_nom=5, max_hours=4, state_of_charge_initial=ctx.real("u0"),
                inflow=S("ui"), standing_loss=ctx.real("ul", 0, 1), efficiency_store=ctx.real("ue"))
        ctx.add(n, "StorageUnit", "u2", bus="b", p_nom=5, max_hours=4, state_of_charge_initial=ctx.real("u20"))
    port = dict(bus="a") if comp == "Generator" else dict(bus0="a", bus1="b")
    if "ramp" in pieces:
        ctx.add(n, comp, "r", p_nom=ctx.real("rn", lo=0), ramp_limit_up=S("ru", lo=0), ramp_limit_down=S("rd", lo=0), **port)
    if "ramp-ext" in pieces:
        ctx.add(n, comp, "x", p_nom_extendable=True, capital_cost=1, ramp_limit_up=S("xu", lo=0),
                ramp_limit_down=S("xd", lo=0), **port)
    if "com" in pieces:
        ctx.add(n, comp, "c", p_nom=ctx.real("cn", lo=0), committable=True, min_up_time=2, min_down_time=2,
                up_time_before=1, start_up_cost=1, **port)
    if "com-ramp" in pieces:
        ctx.add(n, comp, "d", p_nom=ctx.real("dn", lo=0), committable=True, ramp_limit_up=ctx.real("du", lo=0),
                ramp_limit_down=ctx.real("dd", lo=0), ramp_limit_start_up=ctx.real("dsu", lo=0),
                ramp_limit_shut_down=ctx.real("dsd", lo=0), up_time_before=0, **port)
    ctx.weightings(n, objective=[2.0] * k, stores=[hrs] * k, generators=[3.0] * k)
    ctx.finish(n)
    start = {("Store", g): n.stores.at[g, "e_initial"] for g in n.stores.index}
    start.update({("StorageUnit", g): n.storage_units.at[g, "state_of_charge_initial"] for g in n.storage_units.index})
    sel = n.snapshots[first:]
    want = [list(sel[a:b]) for a, b in windows(len(sel), horizon, overlap)]
    done = []

    def on_solve(i, lp):
        sns = list(lp.m.parameters.snapshots.to_index())
        ok = i < len(want) and sns == want[i]
        ctx.prove(f"window {i}", [Bool(ok, f"window {i} covers {want[i] if i < len(want) else 'nothing'}")])
        if not ok:
            return

        class R(Chained):
            earlier = tuple(done)
        R.start = start
        idx = n.snapshots[[list(n.snapshots).index(t) for t in sns]]
        equiv(ctx, n, lp.m, sns=idx, multi=bool(periods), refcls=R, lp=lp)
        done.append((lp, sns))

    with Solver(ctx, on_solve=on_solve) as sol:
        kw = dict(multi_investment_periods=True) if periods else {}
        if first:
            kw["snapshots"] = sel
        n.optimize.optimize_with_rolling_horizon(horizon=horizon, overlap=overlap, **kw)
    ctx.prove("windows", [Bool(len(done) == len(want), "every window is solved")])
    covered = {coord_key(t) for _, sns in done for t in sns}
    ctx.prove("coverage", [Bool(coord_key(t) in covered, f"snapshot {t} is optimised") for t in sel])
    goals = []
    for c in ("Generator", "Link", "Store", "StorageUnit"):
        dyn = getattr(n, LINKS[c] + "_t")
        for g in getattr(n, LINKS[c]).index:
            attrs = list(OPER[c]) + (["p"] if c == "Store" else [])
            if c in ("Generator", "Link") and getattr(n, LINKS[c]).at[g, "committable"]:
                attrs.append("status")
            for a in attrs:
                fr = dyn["p0" if (c, a) == ("Link", "p") else a]
                for t in sel:
                    lp = next((lp for lp, sns in reversed(done) if t in sns), None)
                    if lp is None:
                        continue
                    x = lp.get(f"{c}-{a}", t, g)
                    got = fr[g].loc[t] if g in fr.columns else 0.0
                    goals.append(eq(got, 0 if x is None else x, f"{c} {g} {a} at {coord_key(t)} is that of the last window"))
    ctx.prove("stored decisions", goals)


def jobs(tier):
    o = []
    for T, h, v in [(2, 1, 0), (4, 2, 0), (4, 3, 1), (5, 2, 0), (5, 3, 2), (4, 9, 3), (3, 2, 1), (6, 4, 1)]:
        o.append((f"storage-{T}-{h}-{v}", rolling, dict(T=T, horizon=h, overlap=v, pieces=("store", "unit"))))
    o.append(("storage-ts", rolling, dict(T=3, horizon=2, pieces=("store", "unit"), ts=True, hrs=2.0)))
    o.append(("storage-later", rolling, dict(T=5, horizon=2, pieces=("store", "unit"), first=1)))
    for comp in ("Generator", "Link"):
        o.append((f"ramp-{comp}", rolling, dict(T=4, horizon=2, pieces=("ramp", "ramp-ext"), comp=comp, ts=True)))
        o.append((f"ramp-overlap-{comp}", rolling, dict(T=4, horizon=2, overlap=1, pieces=("ramp",), comp=comp)))
        o.append((f"com-{comp}", rolling, dict(T=4, horizon=2, pieces=("com",), comp=comp)))
        o.append((f"com-1-{comp}", rolling, dict(T=3, horizon=1, pieces=("com",), comp=comp)))
        o.append((f"com-ramp-{comp}", rolling, dict(T=3, horizon=1, pieces=("com-ramp",), comp=comp)))
    o.append(("com-overlap", rolling, dict(T=3, horizon=2, overlap=1, pieces=("com",))))
    P = [2020, 2030]
    o.append(("periods", rolling, dict(T=2, horizon=2, pieces=("store", "unit"), periods=P)))
    o.append(("periods-3", rolling, dict(T=2, horizon=3, overlap=1, pieces=("store", "unit"), periods=P)))
    if tier == "thorough":
        for T in range(2, 8):
            for h in range(1, min(T, 5) + 1):
                for v in range(0, min(h, 4)):
                    o.append((f"deep-storage-{T}-{h}-{v}", rolling, dict(T=T, horizon=h, overlap=v, pieces=("store", "unit"),
                                                                        ts=True, first=T % 2)))
                    if T < 6:
                        for comp in ("Generator", "Link"):
                            o.append((f"deep-ramp-{comp}-{T}-{h}-{v}", rolling,
                                      dict(T=T, horizon=h, overlap=v, pieces=("ramp", "ramp-ext"), comp=comp, ts=True)))
                    if T < 5:
                        o.append((f"deep-com-{T}-{h}-{v}", rolling, dict(T=T, horizon=h, overlap=v, pieces=("com",))))
                        o.append((f"deep-com-ramp-{T}-{h}-{v}", rolling, dict(T=T, horizon=h, overlap=v, pieces=("com-ramp",))))
    return o
