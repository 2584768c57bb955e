"""Dispatch limits and capacity limits."""

from symx.opt import buses, equiv, model, network, series

FUNCTIONS = ["create_model", "define_operational_variables", "define_nominal_variables", "define_modular_variables",
             "define_operational_constraints_for_non_extendables", "define_operational_constraints_for_extendables",
             "define_operational_constraints_for_committables", "define_nominal_constraints_for_extendables",
             "define_fixed_nominal_constraints", "define_modular_constraints", "get_bounds_pu",
             "get_switchable_as_dense", "get_activity_mask"]
BOUNDS = ("1-3 buses, 1-3 snapshots, 1-2 investment periods; per component type one fixed, one extendable and one "
          "(where possible) committable unit; every value of capacities, capacity limits, per-unit limits and of all "
          "decision variables")
OUTSIDE = "committable and extendable at once (not supported)"
OWN = ("dispatch", "capacity")
BACK = ("dispatch", "other")


def base(ctx, T, periods=None):
    n = network(T, periods)
    buses(ctx, n, "ab")
    k = T * len(periods or [1])
    for b in "ab":
        ctx.add(n, "Load", f"l{b}", bus=b, p_set=ctx.real(f"l{b}"))
        ctx.add(n, "Generator", f"slack{b}", bus=b, p_nom=100, p_min_pu=-1, marginal_cost=1)
    return n, k


def generators(ctx, T, ts, periods=None, comp="Generator"):
    n, k = base(ctx, T, periods)
    port = dict(bus="a") if comp == "Generator" else dict(bus0="a", bus1="b")
    S = lambda nm, **kw: series(ctx, nm, k, ts, **kw)  # noqa: E731
    act = dict(build_year=2030) if periods else {}
    ctx.add(n, comp, "f", p_nom=ctx.real("fn"), p_min_pu=S("fmin"), p_max_pu=S("fmax"), **port, **act)
    ctx.add(n, comp, "f2", p_nom=ctx.real("f2n"), p_min_pu=ctx.real("f2min"), **port)
    ctx.add(n, comp, "e", p_nom_extendable=True, p_min_pu=S("emin"), p_max_pu=ctx.real("emax"),
            p_nom_min=ctx.real("enmin"), p_nom_max=ctx.real("enmax"), p_nom=ctx.real("en"), **port)
    ctx.add(n, comp, "e2", p_nom_extendable=True, p_max_pu=S("e2max"), p_nom_min=ctx.real("e2nmin"), **port, **act)
    ctx.add(n, comp, "e3", p_nom_extendable=True, p_nom_mod=ctx.pos("e3mod"), p_nom_max=ctx.real("e3x"), **port)
    ctx.add(n, comp, "m", p_nom_mod=ctx.pos("mmod"), p_nom=ctx.real("mn"), **port)
    ctx.add(n, comp, "off", p_nom=ctx.real("offn"), active=False, **port)
    ctx.add(n, comp, "offe", p_nom_extendable=True, active=False, p_nom_max=ctx.real("offx"), **port)
    ctx.finish(n)
    equiv(ctx, n, model(ctx, n, multi=bool(periods)), own=OWN, back=BACK, existence=True, multi=bool(periods))


def committable(ctx, T, ts, comp="Generator", linear=False):
    n, k = base(ctx, T)
    port = dict(bus="a") if comp == "Generator" else dict(bus0="a", bus1="b")
    S = lambda nm, **kw: series(ctx, nm, k, ts, **kw)  # noqa: E731
    ctx.add(n, comp, "c", p_nom=ctx.real("cn"), p_min_pu=S("cmin"), p_max_pu=S("cmax"), committable=True, **port)
    ctx.add(n, comp, "c2", p_nom=ctx.real("c2n"), p_min_pu=ctx.real("c2min"), committable=True, **port)
    ctx.add(n, comp, "off", p_nom=ctx.real("offn"), committable=True, active=False, **port)
    ctx.add(n, comp, "f", p_nom=ctx.real("fn"), p_min_pu=S("fmin"), p_max_pu=ctx.real("fmax"), **port)
    ctx.finish(n)
    equiv(ctx, n, model(ctx, n, linear_uc=linear), own=OWN, back=("dispatch",), existence=True, linear_uc=linear)


def branches(ctx, T, ts, losses=0, periods=None):
    n, k = base(ctx, T, periods)
    S = lambda nm, **kw: series(ctx, nm, k, ts, **kw)  # noqa: E731
    z = dict(bus0="a", bus1="b", x=1.0, r=ctx.pos("r"))
    act = dict(build_year=2030) if periods else {}
    sx = dict(s_nom_max=ctx.pos("e1x"))
    ctx.add(n, "Line", "f", s_nom=ctx.real("fn"), s_max_pu=S("fmax"), **z, **act)
    ctx.add(n, "Line", "e", s_nom_extendable=True, s_max_pu=S("emax"), s_nom_min=ctx.real("emin"), **sx, **z)
    ctx.add(n, "Line", "em", s_nom_extendable=True, s_nom_mod=ctx.pos("mod"), s_nom_max=ctx.pos("emx"), **z)
    ctx.add(n, "Line", "off", s_nom=ctx.real("offn"), active=False, **z)
    ctx.add(n, "Transformer", "tf", s_nom=ctx.pos("tfn"), s_max_pu=ctx.real("tfmax"), **z)
    ctx.add(n, "Transformer", "te", s_nom_extendable=True, s_nom=ctx.pos("ten"), s_max_pu=S("temax"),
            s_nom_max=ctx.pos("tex"), s_nom_min=ctx.real("temin"), **z, **act)
    ctx.finish(n)
    equiv(ctx, n, model(ctx, n, losses=losses, multi=bool(periods)), own=OWN, back=BACK, losses=losses,
          existence=True, multi=bool(periods))


def storage(ctx, T, ts, periods=None):
    n, k = base(ctx, T, periods)
    S = lambda nm, **kw: series(ctx, nm, k, ts, **kw)  # noqa: E731
    act = dict(build_year=2030) if periods else {}
    ctx.add(n, "Store", "f", bus="a", e_nom=ctx.real("fn"), e_min_pu=S("fmin"), e_max_pu=S("fmax"), **act)
    ctx.add(n, "Store", "e", bus="b", e_nom_extendable=True, e_nom_min=ctx.real("enmin"), e_nom_max=ctx.real("enmax"),
            e_min_pu=ctx.real("emin"), e_max_pu=S("emax"), e_cyclic=True)
    ctx.add(n, "Store", "em", bus="b", e_nom_extendable=True, e_nom_mod=ctx.pos("emod"))
    ctx.add(n, "Store", "off", bus="b", e_nom=ctx.real("offn"), active=False)
    ctx.add(n, "StorageUnit", "sf", bus="a", p_nom=ctx.real("sfn"), p_min_pu=S("sfmin"), p_max_pu=S("sfmax"),
            max_hours=ctx.real("h1"), **act)
    ctx.add(n, "StorageUnit", "se", bus="a", p_nom_extendable=True, p_min_pu=ctx.real("semin"), p_max_pu=S("semax"),
            max_hours=ctx.real("h2"), p_nom_min=ctx.real("senmin"), p_nom_max=ctx.real("senmax"),
            cyclic_state_of_charge=True)
    ctx.add(n, "StorageUnit", "sem", bus="b", p_nom_extendable=True, p_nom_mod=ctx.pos("semod"), max_hours=2)
    ctx.finish(n)
    equiv(ctx, n, model(ctx, n, multi=bool(periods)), own=OWN, back=BACK, existence=True, multi=bool(periods))


def nominal_set(ctx, comp, ext=True):
    """an optional column fixes the capacity of extendable components"""
    n, k = base(ctx, 1)
    attr = {"Generator": "p_nom", "Link": "p_nom", "Store": "e_nom", "StorageUnit": "p_nom", "Line": "s_nom",
            "Transformer": "s_nom"}[comp]
    port = dict(bus="a") if comp in ("Generator", "Store", "StorageUnit") else dict(bus0="a", bus1="b")
    if comp in ("Line", "Transformer"):
        port["x"] = 1.0
    for g, v in (("u", None), ("v", ctx.real("v")), ("w", None)):
        kw = {attr + "_extendable": True, attr: 1.0}
        ctx.add(n, comp, g, **kw, **port)
    import pandas as pd

    df = n.static(comp)
    col = pd.Series(float("nan"), index=df.index, dtype=object)
    ctx.finish(n)
    col["v"] = ctx.real("v")
    df[attr + "_set"] = col if ctx.sym else col.astype(float)
    equiv(ctx, n, model(ctx, n), own=OWN, back=("other", "fixed_dispatch"))


def subset(ctx, sel):
    n, k = base(ctx, 4)
    ctx.add(n, "Generator", "f", bus="a", p_nom=ctx.real("fn"), p_min_pu=ctx.reals("fmin", 4), p_max_pu=ctx.real("fx"))
    ctx.add(n, "Generator", "e", bus="a", p_nom_extendable=True, p_max_pu=ctx.reals("emax", 4))
    ctx.add(n, "Link", "k", bus0="a", bus1="b", p_nom=ctx.real("kn"), p_min_pu=ctx.reals("kmin", 4))
    ctx.add(n, "Store", "s", bus="a", e_nom=ctx.real("sn"), e_max_pu=ctx.reals("smax", 4))
    ctx.finish(n)
    sns = n.snapshots[list(sel)]
    equiv(ctx, n, model(ctx, n, sns=sns), own=OWN, back=BACK, sns=sns, existence=True)


def jobs(tier):
    o = []
    P = [2020, 2030]
    for ts in (False, True):
        t = int(ts)
        for c in ("Generator", "Link"):
            o.append((f"{c}-ts{t}", generators, dict(T=2, ts=ts, comp=c)))
            o.append((f"{c}-periods-ts{t}", generators, dict(T=1, ts=ts, comp=c, periods=P)))
            for lin in (False, True):
                o.append((f"com-{c}-ts{t}-lin{int(lin)}", committable, dict(T=2, ts=ts, comp=c, linear=lin)))
        for ls in (0, 2):
            o.append((f"branches-ts{t}-loss{ls}", branches, dict(T=2, ts=ts, losses=ls)))
        o.append((f"branches-periods-ts{t}", branches, dict(T=1, ts=ts, periods=P)))
        o.append((f"storage-ts{t}", storage, dict(T=2, ts=ts)))
        o.append((f"storage-periods-ts{t}", storage, dict(T=1, ts=ts, periods=P)))
    for c in ("Generator", "Link", "Store", "StorageUnit", "Line", "Transformer"):
        o.append((f"set-{c}", nominal_set, dict(comp=c)))
    for sel in ([0, 1], [1, 2], [3]):
        o.append((f"subset-{sel}", subset, dict(sel=sel)))
    if tier == "thorough":
        P3 = [2020, 2030, 2040]
        for c in ("Generator", "Link"):
            o.append((f"{c}-T4", generators, dict(T=4, ts=True, comp=c)))
            o.append((f"{c}-periods3", generators, dict(T=2, ts=True, comp=c, periods=P3)))
            o.append((f"com-{c}-T4", committable, dict(T=4, ts=True, comp=c)))
        o.append(("branches-T3-loss3", branches, dict(T=3, ts=True, losses=3)))
        o.append(("branches-periods3", branches, dict(T=2, ts=True, periods=P3)))
        o.append(("storage-T4", storage, dict(T=4, ts=True)))
        o.append(("storage-periods3", storage, dict(T=2, ts=True, periods=P3)))
    return o
