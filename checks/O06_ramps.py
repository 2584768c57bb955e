"""Ramp limits."""

from symx.opt import buses, equiv, model, network, series

FUNCTIONS = ["create_model", "define_ramp_limit_constraints", "get_switchable_as_dense", "get_activity_mask"]
BOUNDS = ("2-4 snapshots, generators and links that are fixed, extendable or committable, with static, time-varying "
          "or missing ramp limits, whole horizon or a later window of it (state before the window symbolic)")
OUTSIDE = "ramping across the first or last investment period of an asset's life; ramp limits given for some " \
          "snapshots only in one column"


def ramps(ctx, T=3, comp="Generator", kinds=("fix", "ext", "com"), ts=False, which="both", window=None, ones=False,
          periods=None):
    n = network(T, periods)
    k = T * len(periods or [1])
    buses(ctx, n, "ab")
    for b in "ab":
        ctx.add(n, "Load", f"l{b}", bus=b, p_set=ctx.real(f"l{b}"))
        ctx.add(n, "Generator", f"z{b}", bus=b, p_nom=50, p_min_pu=-1, marginal_cost=1)
    port = dict(bus="a") if comp == "Generator" else dict(bus0="a", bus1="b")
    S = lambda nm: 1.0 if ones else series(ctx, nm, k, ts, lo=0)  # noqa: E731
    names = []
    for i, kind in enumerate(kinds):
        g = f"{kind}{i}"
        kw = dict(port)
        if kind == "ext":
            kw.update(p_nom_extendable=True, p_min_pu=-1)
        else:
            kw.update(p_nom=ctx.real(g + "nom", lo=0), p_min_pu=-1 if kind == "fix" else 0.0)
        if kind == "com":
            kw.update(committable=True, ramp_limit_start_up=ctx.real(g + "su", lo=0),
                      ramp_limit_shut_down=ctx.real(g + "sd", lo=0))
        if which in ("both", "up") or (which == "alt" and i % 2 == 0):
            kw["ramp_limit_up"] = S(g + "ru")
        if which in ("both", "down") or (which == "alt" and i % 2 == 1):
            kw["ramp_limit_down"] = S(g + "rd")
        ctx.add(n, comp, g, **kw)
        names.append((g, kind))
    # one without any limit
    ctx.add(n, comp, "free", p_nom=ctx.real("freenom"), **port)
    ctx.finish(n)
    sns = None
    if window is not None:
        import numpy as np
        import pandas as pd

        sns = n.snapshots[window:]
        dyn = n.dynamic(comp)
        attr = "p" if comp == "Generator" else "p0"
        cols = list(n.static(comp).index)
        data = {g: pd.Series([ctx.real(f"{g}prev{t}") for t in range(k)], index=n.snapshots,
                             dtype=object if ctx.sym else float) for g in cols}
        dyn[attr] = pd.DataFrame(data)
        coms = [g for g, kd in names if kd == "com"]
        dyn["status"] = pd.DataFrame({g: np.array([float(v) for v in ([1, 0] * k)[i:k + i]])
                                      for i, g in enumerate(coms)}, index=n.snapshots).reindex(columns=cols, fill_value=1.0)
    equiv(ctx, n, model(ctx, n, sns=sns, multi=bool(periods)), own=("ramps",), back=("ramps",), sns=sns,
          multi=bool(periods))


def jobs(tier):
    o = []
    for c in ("Generator", "Link"):
        for ts in (False, True):
            for w in ("both", "up", "down", "alt"):
                o.append((f"{c}-{w}-ts{int(ts)}", ramps, dict(comp=c, ts=ts, which=w)))
            o.append((f"{c}-window-ts{int(ts)}", ramps, dict(comp=c, ts=ts, T=4, window=2)))
            o.append((f"{c}-window2-ts{int(ts)}", ramps, dict(comp=c, ts=ts, T=3, window=1, which="alt",
                                                              kinds=("com", "com", "fix", "ext"))))
        o.append((f"{c}-ones", ramps, dict(comp=c, ones=True)))
        for kd in ("fix", "ext", "com"):
            o.append((f"{c}-only-{kd}", ramps, dict(comp=c, kinds=(kd, kd), which="alt", ts=kd != "ext")))
    o.append(("periods", ramps, dict(T=2, periods=[2020, 2030])))
    if tier == "thorough":
        for c in ("Generator", "Link"):
            for win in (None, 1, 2, 3, 4):
                for w in ("both", "alt"):
                    o.append((f"{c}-T5-{win}-{w}", ramps, dict(comp=c, T=5, ts=True, window=win, which=w,
                                                               kinds=("fix", "ext", "com", "com", "fix", "ext"))))
            o.append((f"{c}-periods3", ramps, dict(comp=c, T=2, periods=[2020, 2030, 2040], ts=True)))
    return o
