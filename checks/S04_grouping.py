"""Grouping, filtering and time aggregation only partition a metric."""

import itertools

from symx.formula import eq
from symx.stat import ALL, Metric, Spec, compare, filled, got_table

FUNCTIONS = ["AbstractStatisticsAccessor._aggregate_components", "_filter_active_assets", "_filter_bus_carrier",
             "_filter_carrier", "_get_grouping", "_aggregate_timeseries", "StatisticsAccessor._aggregate_components_groupby",
             "_aggregate_across_components", "Groupers.*"]
BOUNDS = ("2 snapshots, 1-2 investment periods; every component type; all groupers and pairs of them, component and carrier "
          "filters, first or all ports, nice or raw carrier names; every reported value symbolic")
OUTSIDE = "other aggregation functions than the sum; rounding of reported numbers"

OPT = dict(round=12, drop_zero=False)
GROUPS = ("carrier", "bus_carrier", "bus", "name", "country", "location", "unit", ("carrier", "bus_carrier"),
          ("bus", "carrier"), ("name", "bus", "carrier"), ("country", "unit", "location"), False)


def metrics(n, s):
    m = Metric(s)
    st = n.statistics
    return {
        "balance": (st.energy_balance, m.balance(), True, None, {}),
        "supply": (st.supply, m.supply(), True, None, {}),
        "first-port": (st.energy_balance, m.balance(), False, None, dict(at_port=False)),
        "revenue": (st.revenue, m.revenue(), True, None, {}),
        "capex": (st.capex, m.cost(), False, None, {}),
        "installed": (st.installed_capex, m.cost(""), False, None, {}),
        "capacity": (st.optimal_capacity, m.capacity(), False, None, {}),
        "capacity-ports": (st.optimal_capacity, m.capacity(at_port=True), True, None, dict(at_port=True)),
        "curtailment": (st.curtailment, m.curtailment(), False, ["Generator", "StorageUnit"], {}),
        "transmission": (st.transmission, m.transmission(), False, None, {}),
    }


def partition(ctx, which, groups=GROUPS, comps=None, nice=True, across=False, custom=False, **kw):
    n = filled(ctx, **kw)
    s = Spec(n)
    f, value, at_port, only, extra = metrics(n, s)[which]
    cs = only if comps is None else comps
    sums = []
    for by in groups:
        g = list(by) if isinstance(by, tuple) else by
        df = f(**OPT, **extra, groupby=g, nice_names=nice, aggregate_across_components=across,
               **(dict(comps=cs) if cs else {}))
        compare(ctx, f"{which} by {by}", df,
                s.table(value, comps=cs, by=g, at_port=at_port, across=across, nice=nice))
        tot = 0
        for row in got_table(df, None).values():
            for x in row.values():
                if x == x:
                    tot = tot + x
        sums.append(tot)
    ctx.prove(f"{which}: same total", [eq(x, sums[0], f"total of {which} by {groups[i]}") for i, x in enumerate(sums)])
    ctx.reach()


def filters(ctx, which, **kw):
    n = filled(ctx, **kw)
    s = Spec(n)
    f, value, at_port, only, extra = metrics(n, s)[which]
    cs = dict(comps=only) if only else {}
    if which == "transmission":
        bcs = [None]
    else:
        bcs = [None, "AC", "heat", ["AC"], ["heat", "AC"]]
    for bc, car, by in itertools.product(bcs, [None, "gas", "AC", ["wind", "hp"]], [False, "carrier"]):
        if which == "capacity" and bc:
            extra, at_port, v = dict(at_port=None), True, Metric(s).capacity(at_port=True)
        else:
            v = value
        df = f(**OPT, **extra, groupby=by, bus_carrier=bc, carrier=car, **cs)
        compare(ctx, f"{which} at {bc} of {car}", df,
                s.table(v, comps=only, by=by, at_port=at_port, bus_carrier=bc, carrier=car))
    ctx.reach()


def time(ctx, which, **kw):
    """aggregated in time = weighted series"""
    n = filled(ctx, **kw)
    s = Spec(n)
    f, _, at_port, only, extra = metrics(n, s)[which]
    cs = dict(comps=only) if only else {}
    each = got_table(f(**OPT, **extra, groupby="name", aggregate_time=False, **cs), None)
    tot = got_table(f(**OPT, **extra, groupby="name", **cs), None)
    mean = got_table(f(**OPT, **extra, groupby="name", aggregate_time="mean", **cs), None)
    goals = []
    for k in each:
        for p in s.periods:
            a = b = 0
            for t in s.sns(p):
                w = s.energy_weight(k[0], t)
                x = each[k].get(t, 0)
                a, b = a + w * (x if x == x else 0), b + w
            goals.append(eq(tot.get(k, {}).get(p, 0), a, f"{which} of {k} in {p} is the weighted sum"))
            goals.append(eq(mean.get(k, {}).get(p, 0), a / b, f"{which} of {k} in {p} is the weighted mean"))
    ctx.prove(f"{which}: time", goals)
    ctx.fingerprint([x for r in tot.values() for x in r.values()])
    ctx.reach()


def own_grouper(ctx, **kw):
    """a user's grouping function and a user's column"""
    import pandas as pd

    n = filled(ctx, **kw)
    s = Spec(n)
    m = Metric(s)
    for c in ALL:
        df = n.static(c)
        df["tag"] = [f"t{i % 2}" for i in range(len(df))]
    fn = lambda n, c, port="", nice_names=True: n.static(c)["tag"].rename("tag")  # noqa: E731
    for by in ("tag", fn, ["tag", "carrier"]):
        df = n.statistics.energy_balance(**OPT, groupby=by)
        compare(ctx, "own grouping", df, s.table(m.balance(), by="tag" if by is fn else by, at_port=True))
    # later columns of zeros are dropped on request only
    ctx.reach()


def zeros(ctx, **kw):
    """dropping zeros removes exactly the zero entries"""
    n = filled(ctx, pieces=("one",), T=1, positive=True, **kw)
    s = Spec(n)
    m = Metric(s)
    df = n.statistics.capex(round=12, groupby=False)
    want = s.table(m.cost(), by=False)
    got = got_table(df, None)
    goals = []
    for k, row in want.items():
        for c, v in row.items():
            goals.append(eq(got.get(k, {}).get(c, 0), v, f"capex {k}"))
    from symx.formula import Bool, ne

    goals += [ne(x, 0, f"{k} is not zero") for k, r in got.items() for x in r.values()]
    ctx.prove("zeros dropped", goals)


def jobs(tier):
    P = [2020, 2030]
    L = [(2020, 10), (2030, 30), (2010, 25)]
    per = dict(periods=P, life=L, T=1)
    M = ("balance", "supply", "first-port", "revenue", "capex", "installed", "capacity", "capacity-ports", "curtailment",
         "transmission")
    o = []
    for w in M:
        o.append((f"{w}", partition, dict(which=w, T=1)))
        o.append((f"{w}-periods", partition, dict(which=w, groups=GROUPS[::2] + (False,), **per)))
        o.append((f"{w}-raw", partition, dict(which=w, nice=False, T=1)))
        o.append((f"{w}-across", partition, dict(which=w, across=True, groups=GROUPS[:-1], T=1)))
        o.append((f"{w}-filters", filters, dict(which=w, T=1)))
    for w in ("balance", "supply", "revenue", "curtailment", "transmission"):
        o.append((f"{w}-time", time, dict(which=w, T=2)))
        o.append((f"{w}-time-periods", time, dict(which=w, periods=P, life=L, T=2)))
    for cs in ("Generator", "Link", ["Store", "Line"]):
        o.append((f"only-{cs}", partition, dict(which="balance", comps=cs, T=1)))
        o.append((f"only-{cs}-capex", partition, dict(which="capex", comps=cs, T=1)))
    o.append(("own-grouper", own_grouper, dict(T=1)))
    o.append(("zeros", zeros, {}))
    if tier == "thorough":
        for w in M:
            o.append((f"deep-{w}", partition, dict(which=w, T=3)))
            o.append((f"deep-{w}-periods", partition, dict(which=w, periods=[2020, 2030, 2040], life=L, T=2)))
            o.append((f"deep-{w}-filters", filters, dict(which=w, **per)))
    return o
