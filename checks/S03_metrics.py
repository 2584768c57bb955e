"""Derived metrics agree with their definitions."""

from symx.formula import eq, ne
from symx.stat import BRANCH, Metric, NOM, Spec, compare, filled, got_table

FUNCTIONS = ["StatisticsAccessor.capacity_factor", "curtailment", "revenue", "market_value", "optimal_capacity",
             "installed_capacity", "expanded_capacity", "_aggregate_components", "_aggregate_timeseries"]
BOUNDS = ("1-3 snapshots, 1-3 investment periods; every component type incl. multi-port links, inactive and short-lived "
          "assets; every dispatch, availability, price, capacity, efficiency and weighting symbolic")
OUTSIDE = ("expanded capacity of groups whose members partly shrink; market value where supply is zero or negative; "
           "rounding of reported numbers")

OPT = dict(round=12, drop_zero=False)


def capacities(ctx, groupby="carrier", at_port=False, bus_carrier=None, **kw):
    n = filled(ctx, **kw)
    s = Spec(n)
    m = Metric(s)
    st = n.statistics
    ap = at_port if at_port is not None else bool(bus_carrier)
    o = dict(OPT, groupby=groupby, at_port=at_port, bus_carrier=bus_carrier)
    t = dict(by=groupby, at_port=ap, bus_carrier=bus_carrier)
    for attr, f in (("_opt", st.optimal_capacity), ("", st.installed_capacity)):
        compare(ctx, f"capacity{attr}", f(**o), s.table(m.capacity(attr, ap), **t))
        compare(ctx, f"storage capacity{attr}", f(storage=True, **o),
                s.table(m.capacity(attr, ap, True), **t, comps=("Store", "StorageUnit")))
    ctx.reach()


def expanded(ctx, **kw):
    """nothing shrinks: expanded = optimal - installed"""
    from symx.formula import gt

    n = filled(ctx, **kw)
    s = Spec(n)
    m = Metric(s)
    for c in NOM:
        for g in s.names(c):
            if c == "Generator":
                n.generators.loc[g, "p_nom_opt"] = n.generators.p_nom[g]
            else:
                ctx.assume(gt(s.stat(c, g, NOM[c] + "_opt"), s.stat(c, g, NOM[c])))
    new, old = m.capacity("_opt"), m.capacity("")

    def value(*a):
        x = new(*a)
        return None if x is None else x - old(*a)

    for by in (False,):
        compare(ctx, "expanded capacity", n.statistics.expanded_capacity(**OPT, groupby=by), s.table(value, by=by))
    newc, oldc = m.cost("_opt"), m.cost("")

    def cost(*a):
        x = newc(*a)
        return None if x is None else x - oldc(*a)

    compare(ctx, "expanded cost", n.statistics.expanded_capex(**OPT, groupby="carrier"), s.table(cost, by="carrier"))
    ctx.reach()


def money(ctx, groupby="carrier", time="sum", bus_carrier=None, **kw):
    n = filled(ctx, **kw)
    s = Spec(n)
    m = Metric(s)
    o = dict(OPT, groupby=groupby, aggregate_time=time, bus_carrier=bus_carrier)
    compare(ctx, "revenue", n.statistics.revenue(**o),
            s.table(m.revenue(time), by=groupby, at_port=True, cols=m.cols(time), bus_carrier=bus_carrier))
    for way, sign in (("input", -1), ("output", 1)):
        from symx.sym import smax

        f = m.flows(lambda c, g, p, t: sign * smax(sign * s.flow(c, g, p, t), 0) *  # noqa: B023
                    s.dyn("Bus", s.bus(c, g, p), "marginal_price", t), time)
        compare(ctx, f"revenue of {way}", n.statistics.revenue(direction=way, **o),
                s.table(f, by=groupby, at_port=True, cols=m.cols(time), bus_carrier=bus_carrier))
    ctx.reach()


def spilled(ctx, groupby="carrier", time="sum", **kw):
    n = filled(ctx, **kw)
    s = Spec(n)
    m = Metric(s)
    o = dict(OPT, groupby=groupby, aggregate_time=time, comps="Generator")
    compare(ctx, "curtailment", n.statistics.curtailment(**o),
            s.table(m.curtailment(time), by=groupby, comps="Generator", cols=m.cols(time)))
    ctx.reach()


def factor(ctx, groupby="carrier", time="mean", **kw):
    n = filled(ctx, **kw)
    s = Spec(n)
    m = Metric(s)
    use = s.table(m.use(time), by=groupby, cols=m.cols(time))
    cap = s.table(m.capacity(), by=groupby)
    want = {}
    for k, row in use.items():
        for col, v in row.items():
            p = col if time or not s.multi else col[0]
            c = cap.get(k, {}).get(p if s.multi else None)
            if c is not None:
                want.setdefault(k, {})[col] = v / c
    compare(ctx, "capacity factor", n.statistics.capacity_factor(**OPT, groupby=groupby, aggregate_time=time), want)
    ctx.reach()


def value(ctx, groupby="carrier", time="mean", **kw):
    n = filled(ctx, positive=True, **kw)
    s = Spec(n)
    m = Metric(s)
    o = dict(by=groupby, at_port=True, cols=m.cols(time), comps="Generator")
    rev, sup = s.table(m.revenue(time), **o), s.table(m.supply(time), **o)
    want = {}
    for k, row in sup.items():
        for col, v in row.items():
            if not isinstance(v, (int, float)) or v != 0:
                ctx.assume(ne(v, 0))
                want.setdefault(k, {})[col] = rev[k][col] / v
    compare(ctx, "market value", n.statistics.market_value(**OPT, groupby=groupby, aggregate_time=time, comps="Generator"),
            want)
    ctx.reach()


def jobs(tier):
    P = [2020, 2030]
    L = [(2020, 10), (2030, 30), (2010, 25)]
    o = []
    per = dict(periods=P, life=L, T=1)
    for ap in (False, True):
        for by in ("carrier", False, ["bus_carrier", "carrier"]):
            o.append((f"capacity-{ap}-{by}", capacities, dict(groupby=by, at_port=ap, T=1)))
        o.append((f"capacity-{ap}-periods", capacities, dict(at_port=ap, **per)))
    for bc in ("AC", ["heat"]):
        o.append((f"capacity-{bc}", capacities, dict(at_port=None, bus_carrier=bc, T=1)))
    o.append(("expanded", expanded, dict(T=1)))
    o.append(("expanded-periods", expanded, dict(per)))
    for by in ("carrier", False, ["bus", "carrier"]):
        for t in ("sum", "mean", False):
            o.append((f"revenue-{by}-{t}", money, dict(groupby=by, time=t, T=2)))
        o.append((f"revenue-{by}-periods", money, dict(groupby=by, **per)))
        o.append((f"curtailment-{by}", spilled, dict(groupby=by, pieces=("one",))))
        o.append((f"curtailment-{by}-periods", spilled, dict(groupby=by, pieces=("one",), **per)))
        o.append((f"factor-{by}", factor, dict(groupby=by)))
        o.append((f"factor-{by}-periods", factor, dict(groupby=by, **per)))
        o.append((f"value-{by}", value, dict(groupby=by, pieces=("one",))))
    o.append(("revenue-heat", money, dict(bus_carrier="heat")))
    o.append(("curtailment-snapshots", spilled, dict(time=False, pieces=("one",))))
    o.append(("curtailment-snapshots-periods", spilled, dict(time=False, pieces=("one",), **per)))
    o.append(("curtailment-mean", spilled, dict(time="mean", pieces=("one",))))
    o.append(("factor-periods2", factor, dict(periods=P, life=L, T=2, pieces=("one", "store"))))
    o.append(("value-periods", value, dict(pieces=("one",), **per)))
    if tier == "thorough":
        per3 = dict(periods=[2020, 2030, 2040], life=L, T=2)
        for by in ("carrier", False, ["bus", "carrier"], ["country", "unit"], "location"):
            for x in (dict(T=3), per3):
                nm = "T3" if x is not per3 else "periods"
                for t in ("sum", "mean", False):
                    o.append((f"deep-revenue-{by}-{t}-{nm}", money, dict(groupby=by, time=t, **x)))
                    o.append((f"deep-curtailment-{by}-{t}-{nm}", spilled, dict(groupby=by, time=t, **x)))
                o.append((f"deep-factor-{by}-{nm}", factor, dict(groupby=by, **x)))
                o.append((f"deep-value-{by}-{nm}", value, dict(groupby=by, pieces=("one",), **x)))
                for ap in (False, True):
                    o.append((f"deep-capacity-{by}-{nm}-{ap}", capacities, dict(groupby=by, at_port=ap, **x)))
    return o
