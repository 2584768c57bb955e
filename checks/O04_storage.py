"""State of charge of storage units and stores."""

from symx.opt import buses, equiv, model, network, series

FUNCTIONS = ["create_model", "define_storage_unit_constraints", "define_store_constraints",
             "define_spillage_variables", "define_operational_variables", "get_switchable_as_dense",
             "get_activity_mask", "expand_series"]
BOUNDS = ("2-5 snapshots, 1-3 investment periods of 1-2 snapshots, every combination of cyclic / per-period / "
          "initial-per-period switches, assets alive in any subset of periods; efficiencies in (0, inf), standing "
          "losses in [0, 1), inflow, initial levels, snapshot weightings and all decision variables symbolic")
OUTSIDE = "zero discharging efficiency; symbolic exponents are uninterpreted beyond a^h being equal for equal a and h"
OWN = ("storage_units", "stores", "spill")
BACK = ("storage",)


def storages(ctx, T=3, periods=None, su=(), st=(), ts=False, weights="sym", sns=None, act=None):
    n = network(T, periods)
    k = T * len(periods or [1])
    buses(ctx, n, "ab")
    for b in "ab":
        ctx.add(n, "Load", f"l{b}", bus=b, p_set=ctx.real(f"l{b}"))
        ctx.add(n, "Generator", f"g{b}", bus=b, p_nom=50, p_min_pu=-1, marginal_cost=1)
    S = lambda nm, v=ts, **kw: series(ctx, nm, k, v, **kw)  # noqa: E731

    def inflow(i):
        """one unit with positive inflow, one with inflow of unknown sign"""
        if i == 0:
            return S("u0in", lo=0, strict=True)
        if i == 1:
            x = ctx.real("u1in")
            return x if periods or not ts else [0.0, x] + [0.0] * (k - 2)
        return 0.0

    for i, (cyc, cpp, ipp, ext) in enumerate(su):
        kw = {}
        if act:
            kw.update(build_year=act[i % len(act)][0], lifetime=act[i % len(act)][1])
        ctx.add(n, "StorageUnit", f"u{i}", bus="ab"[i % 2], cyclic_state_of_charge=cyc,
                cyclic_state_of_charge_per_period=cpp, state_of_charge_initial_per_period=ipp,
                state_of_charge_initial=ctx.real(f"u{i}init"), standing_loss=S(f"u{i}loss", lo=0, hi=1),
                efficiency_store=S(f"u{i}es"), efficiency_dispatch=S(f"u{i}ed", lo=0, strict=True),
                inflow=inflow(i), max_hours=4,
                **(dict(p_nom_extendable=True) if ext else dict(p_nom=ctx.real(f"u{i}nom"))), **kw)
    for i, (cyc, cpp, ipp, ext) in enumerate(st):
        kw = {}
        if act:
            kw.update(build_year=act[i % len(act)][0], lifetime=act[i % len(act)][1])
        ctx.add(n, "Store", f"s{i}", bus="ab"[i % 2], e_cyclic=cyc, e_cyclic_per_period=cpp, e_initial_per_period=ipp,
                e_initial=ctx.real(f"s{i}init"), standing_loss=S(f"s{i}loss", lo=0, hi=1), sign=ctx.real(f"s{i}sign"),
                **(dict(e_nom_extendable=True) if ext else dict(e_nom=ctx.real(f"s{i}nom"))), **kw)
    if weights == "sym":
        ctx.weightings(n, stores=ctx.reals("w", k, lo=0, strict=True), objective=ctx.reals("wo", k),
                       generators=ctx.reals("wg", k))
    elif weights:
        ctx.weightings(n, stores=[float(weights[i % len(weights)]) for i in range(k)],
                       objective=[7.0] * k, generators=[5.0] * k)
    ctx.finish(n)
    sel = None if sns is None else n.snapshots[list(sns)]
    multi = bool(periods)
    equiv(ctx, n, model(ctx, n, sns=sel, multi=multi), own=OWN, back=BACK, sns=sel, multi=multi)


def inactive(ctx, T=2):
    n = network(T)
    buses(ctx, n, "a")
    ctx.add(n, "Load", "l", bus="a", p_set=ctx.real("l"))
    ctx.add(n, "Generator", "g", bus="a", p_nom=50, p_min_pu=-1, marginal_cost=1)
    for a in (True, False):
        ctx.add(n, "StorageUnit", f"u{a}", bus="a", p_nom=ctx.real(f"u{a}"), inflow=ctx.real(f"in{a}"), active=a,
                state_of_charge_initial=ctx.real(f"i{a}"))
        ctx.add(n, "Store", f"s{a}", bus="a", e_nom=ctx.real(f"s{a}"), active=a, e_initial=ctx.real(f"ei{a}"))
    ctx.finish(n)
    equiv(ctx, n, model(ctx, n), own=OWN, back=BACK)


B = (False, True)
ALL = [(c, p, i, e) for c in B for p in B for i in B for e in (False,)]


def jobs(tier):
    o = []
    cyc = [(False, True, False, False), (True, True, False, True), (True, False, False, False)]
    for w in ("sym", (1, 2, 0.5), None):
        for ts in (False, True):
            nm = f"w{'sym' if w == 'sym' else 'num' if w else 'one'}-ts{int(ts)}"
            if w == "sym" and ts:
                continue
            o.append((f"units-{nm}", storages, dict(su=cyc, ts=ts, weights=w)))
            o.append((f"stores-{nm}", storages, dict(st=cyc, ts=ts, weights=w)))
    o.append(("mixed-T4", storages, dict(T=4, su=cyc[:2], st=cyc[1:], ts=True, weights=(2, 1))))
    for sel in ([0, 1], [1, 2], [2, 3], [3]):
        o.append((f"subset-{sel}", storages, dict(T=4, su=cyc[:2], st=cyc[:2], ts=True, weights=(1, 3), sns=sel)))
    o.append(("inactive", inactive, {}))
    P2 = [2020, 2030]
    for k in range(0, 8, 2):
        o.append((f"units-periods-{k}", storages, dict(T=2, periods=P2, su=ALL[k:k + 2], weights=(1, 2, 3))))
        o.append((f"stores-periods-{k}", storages, dict(T=2, periods=P2, st=ALL[k:k + 2], weights=(1, 2, 3), ts=k == 2)))
    P3 = [2020, 2030, 2040]
    for j, act in enumerate(([(2030, 10)], [(2020, 10)], [(2030, 30)], [(2010, 25)])):
        for k in (0, 4):
            o.append((f"units-life{j}-{k}", storages, dict(T=2, periods=P3, su=ALL[k:k + 4], act=act, weights=(1, 2))))
            o.append((f"stores-life{j}-{k}", storages, dict(T=2, periods=P3, st=ALL[k:k + 4], act=act,
                                                           weights=(1, 2))))
    if tier == "thorough":
        full = [(c, p, i, e) for c in B for p in B for i in B for e in B]
        for k in range(0, 16, 2):
            o.append((f"units-T5-{k}", storages, dict(T=5, su=full[k:k + 2], ts=True, weights=(1, 2, 3))))
            o.append((f"stores-T5-{k}", storages, dict(T=5, st=full[k:k + 2], ts=True, weights=(1, 2, 3))))
            o.append((f"units-P3-{k}", storages, dict(T=2, periods=P3, su=full[k:k + 2], weights=(1, 2, 3), ts=True)))
            o.append((f"stores-P3-{k}", storages, dict(T=2, periods=P3, st=full[k:k + 2], weights=(1, 2, 3), ts=True)))
        for b in (2010, 2020, 2030, 2035, 2040):
            for l in (5, 10, 15, 30):
                o.append((f"life-{b}-{l}", storages, dict(T=2, periods=P3, su=ALL[::3], st=ALL[::2], act=[(b, l)],
                                                          weights=(2, 1))))
    return o
