"""Reported energy balance follows the ports' signed energies and closes."""

from symx.formula import eq
from symx.stat import Metric, Spec, compare, filled, got_table

FUNCTIONS = ["StatisticsAccessor.supply", "withdrawal", "energy_balance", "transmission", "_aggregate_components",
             "_aggregate_timeseries", "get_transmission_branches"]
BOUNDS = ("1-3 snapshots, 1-3 investment periods; generators, loads, stores, storage units, lines, transformers, links with "
          "2-3 ports, inactive and short-lived assets; every dispatch value, sign and weighting symbolic")
OUTSIDE = "shunt impedances; rounding of reported numbers; closure of the balance with unequal weighting columns"

OPT = dict(round=12, drop_zero=False)


def balance(ctx, groupby=("carrier", "bus_carrier"), time="sum", **kw):
    n = filled(ctx, **kw)
    s = Spec(n)
    m = Metric(s)
    by = list(groupby) if groupby else False
    st = n.statistics
    o = dict(OPT, groupby=by, aggregate_time=time or False)
    cols = m.cols(time)
    bal, sup, wit = st.energy_balance(**o), st.supply(**o), st.withdrawal(**o)
    compare(ctx, "energy balance", bal, s.table(m.balance(time), by=by, at_port=True, cols=cols))
    compare(ctx, "supply", sup, s.table(m.supply(time), by=by, at_port=True, cols=cols))
    compare(ctx, "withdrawal", wit, s.table(m.withdrawal(time), by=by, at_port=True, cols=cols))
    b, p, w = got_table(bal, None), got_table(sup, None), got_table(wit, None)
    ctx.prove("difference", [eq(p[k][c] - w[k][c], b[k][c], f"supply minus withdrawal {k} {c}") for k in b for c in b[k]])
    compare(ctx, "transmission", st.transmission(**o), s.table(m.transmission(time=time), by=by, cols=cols))
    for bc in ("AC", ["AC", "heat"]):
        compare(ctx, f"transmission {bc}", st.transmission(bus_carrier=bc, **o),
                s.table(m.transmission(bc, time), by=by, bus_carrier=bc, cols=cols))
    ctx.reach()


def closes(ctx, time="sum", **kw):
    n = filled(ctx, balanced=True, alike=True, **kw)
    by = dict(OPT, groupby="bus_carrier", aggregate_time=time, aggregate_across_components=True)
    goals = []
    for k, row in got_table(n.statistics.energy_balance(**by), None).items():
        for c, v in row.items():
            goals.append(eq(v, 0, f"balance of {k} {'' if c is None else c} closes"))
    assert len(goals) >= 2
    for bc in ("AC", "heat"):
        got = n.statistics.energy_balance(bus_carrier=bc, **dict(by, groupby="carrier"))
        for c in ([None] if got.ndim == 1 else got.columns):
            goals.append(eq((got if c is None else got[c]).sum(), 0, f"balance of {bc} closes"))
    for bus in n.buses.index:
        got = n.statistics.energy_balance(**dict(by, groupby=["bus", "carrier"]))
        got = got.xs(bus, level="bus")
        for c in ([None] if got.ndim == 1 else got.columns):
            goals.append(eq((got if c is None else got[c]).sum(), 0, f"balance of bus {bus} closes"))
    ctx.prove("closure", goals)
    ctx.fingerprint([g.s for g in goals if hasattr(g, "s")])
    ctx.reach()


def jobs(tier):
    P = [2020, 2030]
    L = [(2020, 10), (2030, 30), (2010, 25)]
    o = []
    for pc in (("one", "store"), ("one", "branch"), ("one", "link"), ("one", "store", "branch", "link")):
        nm = "-".join(x[0] for x in pc)
        o.append((f"{nm}", balance, dict(pieces=pc)))
        o.append((f"{nm}-assets", balance, dict(pieces=pc, groupby=())))
        o.append((f"{nm}-snapshots", balance, dict(pieces=pc, time=False)))
        o.append((f"{nm}-mean", balance, dict(pieces=pc, time="mean")))
        o.append((f"{nm}-closes", closes, dict(pieces=pc)))
        o.append((f"{nm}-periods", balance, dict(pieces=pc, periods=P, life=L, T=1)))
        o.append((f"{nm}-periods-closes", closes, dict(pieces=pc, periods=P, life=L, T=1)))
    o.append(("closes-each-snapshot", closes, dict(time=False)))
    o.append(("periods-snapshots", balance, dict(periods=P, life=L, time=False)))
    o.append(("two-ports", balance, dict(pieces=("one", "link"), ports=2)))
    if tier == "thorough":
        for T, per in ((3, None), (2, [2020, 2030, 2040])):
            for t in ("sum", "mean", False):
                for by in ((), ("bus", "carrier"), ("country",), ("carrier", "unit", "location")):
                    o.append((f"deep-{T}-{t}-{by}", balance, dict(T=T, periods=per, life=L if per else None, time=t,
                                                                  groupby=by)))
            o.append((f"deep-closes-{T}", closes, dict(T=T, periods=per, life=L if per else None)))
    return o
