"""Unit commitment: status sequences, minimum up/down times, relaxation."""

import itertools

from symx.formula import And, Or, eq, ge, le
from symx.lp import LP
from symx.opt import buses, model, network, owner, series

FUNCTIONS = ["create_model", "define_operational_constraints_for_committables", "define_status_variables",
             "define_start_up_variables", "define_shut_down_variables", "define_ramp_limit_constraints"]
BOUNDS = ("2-6 snapshots, minimum up/down times 0-4, up/down time before 0-3, generators and links, whole horizon or "
          "a later window after every listed status history; every status sequence at once (0/1 variables), all "
          "dispatch values and limits symbolic")
OUTSIDE = "commitment together with investment periods; fractional statuses from an earlier window"


def initial(hist, upb, downb):
    """(up time, down time) before the window; hist = statuses since the first snapshot"""
    up = 0
    for s in reversed(hist):
        if not s:
            break
        up += 1
    if up == len(hist):
        up += upb
    down = 0
    for s in reversed(hist):
        if s:
            break
        down += 1
    if down == len(hist):
        down += downb
    return up, down


def setup(ctx, T, units, comp="Generator", hist=None, linear=False, ts=False, ramps=False, m2=False, active=True):
    n = network(T)
    buses(ctx, n, "ab")
    for b in "ab":
        ctx.add(n, "Load", f"l{b}", bus=b, p_set=ctx.real(f"l{b}"))
        ctx.add(n, "Generator", f"z{b}", bus=b, p_nom=50, p_min_pu=-1, marginal_cost=1)
    port = dict(bus="a") if comp == "Generator" else dict(bus0="a", bus1="b")
    for i, (mu, md, ub, db) in enumerate(units):
        kw = {}
        if ramps:
            nom = ctx.pos(f"nom{i}")
            lo, hi = series(ctx, f"min{i}", T, ts), series(ctx, f"max{i}", T, ts)
            L, H = (lo, hi) if ts else ([lo], [hi])
            for x in L:
                ctx.assume(ge(x, 0))
            for x, y in zip(L, H):
                ctx.assume(le(x, y))
                ctx.assume(le(y, 1))
            if ramps != "none":
                kw.update(ramp_limit_up=ctx.real(f"ru{i}", 0, 1), ramp_limit_down=ctx.real(f"rd{i}", 0, 1),
                          ramp_limit_start_up=ctx.real(f"su{i}", 0, 1), ramp_limit_shut_down=ctx.real(f"sd{i}", 0, 1))
            kw.update(p_nom=nom, p_min_pu=lo, p_max_pu=hi, start_up_cost=3.0, shut_down_cost=3.0)
        else:
            kw.update(p_nom=ctx.real(f"nom{i}"), start_up_cost=ctx.pos(f"suc{i}"))
        ctx.add(n, comp, f"u{i}", committable=True, min_up_time=mu, min_down_time=md, up_time_before=ub,
                down_time_before=db, **port, **kw)
    ctx.add(n, comp, "free", p_nom=1.0, **port)
    ctx.finish(n)
    sns = None
    if hist is not None:
        import pandas as pd

        k = len(hist[0])
        sns = n.snapshots[k:]
        n.dynamic(comp)["status"] = pd.DataFrame(
            {f"u{i}": [float(x) for x in h] + [0.0] * (T - k) for i, h in enumerate(hist)}, index=n.snapshots)
    return n, sns


def semantic(ctx, lp, comp, g, mu, md, up0, down0, sns):
    """the documented meaning, over the status sequence alone; also the values
    start_up / shut_down must be able to take"""
    s = [lp.get(f"{comp}-status", t, g) for t in sns]
    T = len(s)
    was = 1 if up0 > 0 else 0
    prev = [was] + s[:-1]
    out = []
    one, zero = (lambda x: eq(x, 1)), (lambda x: eq(x, 0))  # noqa: E731
    for t in range(T):
        off_on = Or(zero(s[t]), one(prev[t])) if t or not was else None
        if off_on is None and t == 0 and was:
            pass
        elif mu > 1:
            for k in range(t + 1, min(T, t + mu)):
                out.append(Or(zero(s[t]), one(prev[t]), one(s[k]), name=f"{g}: up at {k} after start at {t}"))
        if md > 1 and not (t == 0 and not was):
            for k in range(t + 1, min(T, t + md)):
                out.append(Or(one(s[t]), zero(prev[t]), zero(s[k]), name=f"{g}: down at {k} after stop at {t}"))
    if was:
        for t in range(min(T, mu - up0)):
            out.append(eq(s[t], 1, f"{g}: still up at {t}"))
    if down0 > 0:
        for t in range(min(T, md - down0)):
            out.append(eq(s[t], 0, f"{g}: still down at {t}"))
    exact = []
    counted = []
    for t in range(T):
        su, sd = lp.get(f"{comp}-start_up", sns[t], g), lp.get(f"{comp}-shut_down", sns[t], g)
        start = And(one(s[t]), zero(prev[t]))
        stop = And(zero(s[t]), one(prev[t]))
        counted.append(Or(start.neg(), ge(su, 1), name=f"{g}: start at {t} is counted"))
        counted.append(Or(stop.neg(), ge(sd, 1), name=f"{g}: stop at {t} is counted"))
        exact += [Or(start.neg(), one(su)), Or(start, zero(su)), Or(stop.neg(), one(sd)), Or(stop, zero(sd))]
    return out, counted, exact


def sequences(ctx, T, units, comp="Generator", hist=None):
    n, sns = setup(ctx, T, units, comp, hist)
    m = model(ctx, n, sns=sns)
    lp = LP(ctx, m)
    ctx.fingerprint([r.s for r in lp.rels] + [lp.objective])
    sl = list(n.snapshots if sns is None else sns)
    sem, cnt, exact = [], [], []
    for i, (mu, md, ub, db) in enumerate(units):
        up0, down0 = initial(hist[i] if hist else [], ub, db)
        a, b, c = semantic(ctx, lp, comp, f"u{i}", mu, md, up0, down0, sl)
        sem, cnt, exact = sem + a, cnt + b, exact + c
    uc = [r for g, rs in lp.groups.items() if owner(g) == "commitment" for r in rs]
    # binary variables are 0/1 by construction; the bound relations are part of uc
    ctx.prove("feasible schedules respect", sem + cnt, given=lp.rels)
    ctx.prove("allowed schedules are feasible", uc, given=sem + exact)
    ctx.reach(lp.rels)


def relaxation(ctx, T, units, comp="Generator", ts=False, ramps="all", hist=None):
    """every schedule feasible for the integer problem is feasible for the
    linearised one"""
    n, sns = setup(ctx, T, units, comp, hist, ts=ts, ramps=ramps)
    m1 = model(ctx, n, sns=sns)
    lp1 = LP(ctx, m1)
    m2 = model(ctx, n, sns=sns, linear_uc=True)
    lp2 = LP(ctx, m2)
    ctx.fingerprint([r.s for r in lp1.rels] + [r.s for r in lp2.rels])
    sl = list(n.snapshots if sns is None else sns)
    exact = []
    for i, (mu, md, ub, db) in enumerate(units):
        up0, down0 = initial(hist[i] if hist else [], ub, db)
        exact += semantic(ctx, lp2, comp, f"u{i}", mu, md, up0, down0, sl)[2]
    ctx.prove("integer schedules stay feasible", lp2.rels, given=lp1.rels + exact)
    for a in ("status", "start_up", "shut_down"):
        for key, x in lp2.cells[f"{comp}-{a}"].items():
            ctx.prove("status within [0, 1]", [ge(x, 0, f"{a} {key}"), le(x, 1, f"{a} {key}")],
                      given=[r for r in lp2.rels])


def jobs(tier):
    o = []
    grid = list(itertools.product((0, 1, 2, 3), (0, 1, 2, 3)))
    for c in ("Generator", "Link"):
        for k in range(0, 16, 4):
            us = [(mu, md, 1, 0) for mu, md in grid[k:k + 4]]
            o.append((f"{c}-up{k}", sequences, dict(T=4, units=us, comp=c)))
            us = [(mu, md, 0, 1) for mu, md in grid[k:k + 4]]
            o.append((f"{c}-down{k}", sequences, dict(T=4, units=us, comp=c)))
    o.append(("before-up", sequences, dict(T=4, units=[(3, 2, 2, 0), (4, 1, 1, 0), (2, 2, 5, 0), (4, 3, 3, 0)])))
    o.append(("before-down", sequences, dict(T=4, units=[(3, 3, 0, 2), (2, 4, 0, 1), (2, 2, 0, 5), (1, 4, 0, 3)])))
    o.append(("before-neither", sequences, dict(T=3, units=[(2, 2, 0, 0), (0, 0, 0, 0)])))
    for c in ("Generator", "Link"):
        for j, h in enumerate(itertools.product((0, 1), repeat=2)):
            us = [(0, 0, 1, 0), (3, 3, 1, 0), (4, 2, 2, 0), (2, 4, 0, 2), (0, 3, 0, 1)]
            o.append((f"{c}-window{j}", sequences, dict(T=6, units=us, comp=c, hist=[list(h)] * 5)))
    o.append(("window-mixed", sequences, dict(T=7, units=[(0, 0, 1, 0), (3, 3, 1, 0), (2, 4, 0, 1)],
                                              hist=[[1, 0, 1], [0, 1, 1], [1, 0, 0]])))
    for c in ("Generator", "Link"):
        for ts in (False, True):
            for r in ("all", "none"):
                o.append((f"relax-{c}-ts{int(ts)}-{r}", relaxation, dict(
                    T=3, units=[(0, 0, 1, 0)], comp=c, ts=ts, ramps=r)))
    o.append(("relax-times", relaxation, dict(T=4, units=[(2, 3, 1, 0), (3, 2, 0, 2)], ramps="none")))
    if tier == "thorough":
        for ub, db in ((1, 0), (2, 0), (3, 0), (0, 1), (0, 2), (0, 0)):
            for k in range(0, 25, 5):
                us = [(k // 5, md, ub, db) for md in range(5)]
                o.append((f"T6-{ub}{db}-{k}", sequences, dict(T=6, units=us, comp="Link" if k % 2 else "Generator")))
        for j, h in enumerate(itertools.product((0, 1), repeat=3)):
            us = [(0, 0, 1, 0), (3, 3, 1, 0), (4, 2, 2, 0), (2, 4, 0, 2), (1, 3, 0, 1), (5, 5, 1, 0)]
            o.append((f"win3-{j}", sequences, dict(T=8, units=us, hist=[list(h)] * 6)))
        for ts in (False, True):
            o.append((f"relax-T4-{int(ts)}", relaxation, dict(T=4, units=[(2, 2, 1, 0)], ts=ts)))
    return o
