"""Specification of the reported statistics, written from the documentation."""

from __future__ import annotations

import numpy as np
import pandas as pd

from .formula import Bool, eq
from .lp import coord_key
from .ref import LINKS, NOM, isnan
from .sym import sabs, smax

BRANCH = ("Line", "Link", "Transformer")
ONEPORT = ("Generator", "Load", "Store", "StorageUnit")
ALL = BRANCH + ONEPORT


def scalar(v):
    return v.item() if hasattr(v, "item") else v


class Spec:
    """values of a network, component by component, snapshot by snapshot."""

    def __init__(self, n):
        self.n = n
        self.multi = isinstance(n.snapshots, pd.MultiIndex)
        self.periods = list(n.investment_periods) if self.multi else [None]

    def names(self, c):
        return list(getattr(self.n, LINKS[c]).index)

    def sns(self, period=None):
        return [t for t in self.n.snapshots if period is None or t[0] == period]

    def stat(self, c, g, attr, default=None):
        df = getattr(self.n, LINKS[c])
        return scalar(df[attr].loc[g]) if attr in df.columns else default

    def dyn(self, c, g, attr, t, default=0):
        fr = getattr(self.n, LINKS[c] + "_t").get(attr)
        if fr is None or g not in fr.columns:
            return default
        return scalar(fr[g].loc[t])

    def val(self, c, g, attr, t):
        fr = getattr(self.n, LINKS[c] + "_t").get(attr)
        if fr is not None and g in fr.columns:
            return scalar(fr[g].loc[t])
        return self.stat(c, g, attr)

    def w(self, which, t):
        return scalar(self.n.snapshot_weightings[which].loc[t])

    def energy_weight(self, c, t):
        return self.w({"Generator": "generators", "Store": "stores", "StorageUnit": "stores"}.get(c, "objective"), t)

    def active(self, c, g, period=None):
        if not self.stat(c, g, "active"):
            return False
        if period is None:
            return True
        by, lt = self.stat(c, g, "build_year", 0), self.stat(c, g, "lifetime", np.inf)
        return bool(by <= period < by + lt) if c in NOM else True

    # ---- ports
    def ports(self, c):
        if c not in BRANCH:
            return [""]
        return sorted({k[3:] for k in getattr(self.n, LINKS[c]).columns if k[:3] == "bus" and k[3:].isdigit()})

    def bus(self, c, g, port):
        return self.stat(c, g, f"bus{port}")

    def flow(self, c, g, port, t):
        """injection into the bus at this port."""
        if c in BRANCH:
            return -self.dyn(c, g, f"p{port}", t)
        return self.stat(c, g, "sign", 1.0) * self.dyn(c, g, "p", t)

    def eff(self, c, g, port):
        if port == "":
            return 1
        if port == "0":
            return -1
        e = self.stat(c, g, "efficiency" + ("" if port == "1" else port), None)
        return 1 if e is None else e

    # ---- groups
    def nice(self, carrier, nice):
        if not nice:
            return carrier
        cs = self.n.carriers
        if carrier in cs.index and cs.nice_name[carrier] != "":
            carrier = cs.nice_name[carrier]
        return carrier if carrier != "" else "-"

    def group(self, c, g, port, by, nice=True):
        """None when the component does not belong to any group"""
        if by is False:
            return (g,)
        out = []
        for k in [by] if isinstance(by, str) else by:
            b = self.bus(c, g, port)
            if k == "name":
                v = g
            elif k == "carrier":
                v = self.nice(self.stat(c, g, "carrier", ""), nice)
            elif k in ("bus_carrier", "bus", "country", "location", "unit"):
                if k == "bus":
                    v = b
                elif b == "":
                    return None
                elif k == "bus_carrier":
                    v = self.nice(self.n.buses.carrier[b], nice)
                else:
                    v = self.n.buses[k][b]
            else:
                v = self.stat(c, g, k)
            out.append(v)
        return tuple(out)

    def passes(self, c, g, port, bus_carrier, carrier):
        if bus_carrier is not None:
            b = self.bus(c, g, port)
            if b == "" or self.n.buses.carrier[b] not in ([bus_carrier] if isinstance(bus_carrier, str) else bus_carrier):
                return False
        if carrier is not None and self.stat(c, g, "carrier", None) is not None:
            return self.stat(c, g, "carrier") in ([carrier] if isinstance(carrier, str) else carrier)
        return True

    def table(self, value, comps=None, by="carrier", at_port=False, bus_carrier=None, carrier=None, across=False,
              nice=True, cols=None, only=None):
        """{(component, *group): {column: value}}, columns = cols (periods,
        snapshots or [None]); value(c, g, port, col) may return None."""
        out = {}
        one = isinstance(comps, str)
        for c in [comps] if one else comps or ALL:
            ps = self.ports(c)
            for g in self.names(c):
                if only and (c, g) not in only:
                    continue
                for port in ps if at_port else ps[:1]:
                    if not self.passes(c, g, port, bus_carrier, carrier):
                        continue
                    key = self.group(c, g, port, by, nice)
                    if key is None:
                        continue
                    if not (one or across):
                        key = (c,) + key
                    row = out.setdefault(key, {})
                    for col in cols if cols is not None else self.periods:
                        v = value(c, g, port, col)
                        if v is not None:
                            row[col] = row.get(col, 0) + v
        return out


def got_table(df, cols):
    """reported object -> {(…): {column: value}}"""
    out = {}
    for key in df.index:
        k = key if isinstance(key, tuple) else (key,)
        assert k not in out, f"duplicate entry {k}"
        row = df.loc[key] if not isinstance(df.index, pd.MultiIndex) else df.loc[[key]].iloc[0]
        if isinstance(row, pd.Series):
            out[k] = {coord_key(x): scalar(row[x]) for x in row.index}
        else:
            out[k] = {None: scalar(row)}
    return out


def compare(ctx, name, df, want, missing=0):
    """every reported number equals the specified one; what is not reported must be `missing`."""
    got = got_table(df, None)
    goals = []
    for k, row in want.items():
        for col, v in row.items():
            x = got.get(k, {}).get(coord_key(col), missing)
            if isnan(x):
                x = missing
            goals.append(eq(x, v, f"{name} {k} {'' if col is None else coord_key(col)}"))
    for k, row in got.items():
        for col, x in row.items():
            if k not in want or col not in {coord_key(z) for z in want[k]}:
                if isnan(x):
                    continue
                goals.append(eq(x, 0, f"{name} {k} {'' if col is None else col} (not part of it)"))
    ctx.prove(name, goals)
    ctx.fingerprint([x for _, r in sorted(got.items(), key=str) for _, x in sorted(r.items(), key=str)])


# --------------------------------------------------------------------------
# a network holding an arbitrary solution


def setdyn(ctx, n, c, attr, data):
    dt = object if ctx.sym else float
    comp = n.components[c]
    fr = pd.DataFrame({g: pd.Series(list(v), index=n.snapshots, dtype=dt) for g, v in data.items()},
                      index=n.snapshots)
    fr.columns.name = comp.dynamic[attr].columns.name
    comp.dynamic[attr] = fr


def filled(ctx, T=2, periods=None, life=None, positive=False, balanced=False, pieces=("one", "store", "branch", "link"),
           alike=False, ports=3):
    """every reported quantity symbolic; dispatch of inactive assets is zero.

    balanced: a load at every bus takes up what the others inject."""
    from .opt import network

    n = network(T, periods)
    k = T * len(periods or [1])
    for car, nice in (("AC", "Electric"), ("heat", ""), ("gas", "Gas"), ("wind", "Wind power"), ("DC", ""), ("hp", "")):
        n.add("Carrier", car, nice_name=nice)
    n.add("Bus", "a", carrier="AC", v_nom=100, country="X", location="north", unit="MW_el")
    n.add("Bus", "b", carrier="AC", v_nom=100, country="Y", location="south", unit="MW_el")
    n.add("Bus", "h", carrier="heat", country="X", location="south", unit="MW_th")
    items = []
    j = 0

    def put(c, g, **kw):
        nonlocal j
        if c in NOM:
            kw[NOM[c] + "_opt"] = ctx.pos(f"{g} opt")
            kw[NOM[c]] = ctx.pos(f"{g} nom")
            kw["capital_cost"] = ctx.real(f"{g} cc")
            if life:
                kw["build_year"], kw["lifetime"] = life[j % len(life)]
                j += 1
        ctx.add(n, c, g, **kw)
        items.append((c, g))

    if "one" in pieces:
        put("Generator", "g1", bus="a", carrier="wind", sign=ctx.real("g1 sign"), p_max_pu=ctx.reals("g1 pu", k, lo=0))
        put("Generator", "g2", bus="b", carrier="wind", p_max_pu=ctx.real("g2 pu", lo=0))
        put("Generator", "g3", bus="h", carrier="gas")
        put("Generator", "g0", bus="a", carrier="gas", active=False)
        put("Load", "la", bus="a")
        put("Load", "lh", bus="h", carrier="heat", sign=ctx.real("lh sign"))
    if "store" in pieces:
        put("Store", "sh", bus="h", carrier="heat")
        put("Store", "sa", bus="a", carrier="AC", sign=ctx.real("sa sign"))
        put("StorageUnit", "ub", bus="b", carrier="gas", max_hours=ctx.pos("ub hours"))
    if "branch" in pieces:
        put("Line", "ab", bus0="a", bus1="b", x=0.1)
        put("Line", "ba", bus0="b", bus1="a", x=0.1, active=False)
        put("Transformer", "tr", bus0="a", bus1="b", x=0.1)
    if "link" in pieces:
        put("Link", "hp", bus0="a", bus1="h", carrier="hp", efficiency=ctx.pos("hp eff"))
        put("Link", "dc", bus0="a", bus1="b", carrier="DC", efficiency=ctx.pos("dc eff"))
        if ports > 2:
            put("Link", "chp", bus0="b", bus1="h", bus2="a", carrier="gas", efficiency=ctx.pos("chp eff"),
                efficiency2=ctx.pos("chp eff2"))
    num = ctx.pos if positive else ctx.real
    spec = Spec(n)
    ctx.finish(n)
    alive = {(c, g, t): spec.active(c, g, t[0] if periods else None) for c, g in items for t in n.snapshots}
    ser = lambda c, g, nm: [num(f"{g} {nm} {i}") if alive[c, g, t] else 0.0  # noqa: E731
                            for i, t in enumerate(n.snapshots)]
    data = {}
    for c, g in items:
        if c in BRANCH:
            for p in spec.ports(c):
                data.setdefault((c, f"p{p}"), {})[g] = ser(c, g, f"p{p}") if spec.bus(c, g, p) else [0.0] * k
        else:
            data.setdefault((c, "p"), {})[g] = ser(c, g, "p")
            if c == "Store":
                data.setdefault((c, "e"), {})[g] = ser(c, g, "e")
    for (c, attr), d in data.items():
        setdyn(ctx, n, c, attr, d)
    if balanced:
        for b in n.buses.index:
            tot = [0] * k
            for c, g in items:
                for p in spec.ports(c):
                    if spec.bus(c, g, p) == b:
                        for i, t in enumerate(n.snapshots):
                            tot[i] = tot[i] + spec.flow(c, g, p, t)
            ctx.add(n, "Load", f"rest {b}", bus=b)
            data.setdefault(("Load", "p"), {})[f"rest {b}"] = tot
        setdyn(ctx, n, "Load", "p", data["Load", "p"])
    setdyn(ctx, n, "Bus", "marginal_price", {b: ctx.reals(f"price {b}", k) for b in n.buses.index})
    w = [ctx.pos(f"w{i}") for i in range(k)]
    if alike:
        ctx.weightings(n, objective=w, generators=w, stores=w)
    else:
        ctx.weightings(n, objective=w, generators=[ctx.pos(f"wg{i}") for i in range(k)],
                       stores=[ctx.pos(f"ws{i}") for i in range(k)])
    return n


class Metric:
    """per component, port and column (period, or snapshot when time is not aggregated)."""

    def __init__(self, spec):
        self.s = spec

    def span(self, col, time):
        """snapshots and weights making up a column"""
        s = self.s
        return s.sns(col) if time else [col]

    def flows(self, f, time="sum", weight=True):
        s = self.s

        def value(c, g, port, col):
            if s.bus(c, g, port) == "":
                return None
            if not time:
                return f(c, g, port, col)
            ts = s.sns(col)
            tot = 0
            for t in ts:
                tot = tot + s.energy_weight(c, t) * f(c, g, port, t)
            if time == "mean":
                sw = 0
                for t in ts:
                    sw = sw + s.energy_weight(c, t)
                tot = tot / sw
            return tot

        return value

    def cols(self, time):
        return self.s.periods if time else list(self.s.n.snapshots)

    def balance(self, time="sum"):
        return self.flows(self.s.flow, time)

    def supply(self, time="sum"):
        return self.flows(lambda *a: smax(self.s.flow(*a), 0), time)

    def withdrawal(self, time="sum"):
        return self.flows(lambda *a: smax(-self.s.flow(*a), 0), time)

    def revenue(self, time="sum"):
        s = self.s
        return self.flows(lambda c, g, p, t: s.flow(c, g, p, t) * s.dyn("Bus", s.bus(c, g, p), "marginal_price", t), time)

    def transmission(self, bus_carrier=None, time="sum"):
        s = self.s
        cars = [bus_carrier] if isinstance(bus_carrier, str) else list(s.n.buses.carrier.unique() if bus_carrier is None
                                                                        else bus_carrier)

        def value(c, g, port, col):
            if c not in BRANCH:
                return None
            at = [s.n.buses.carrier[s.bus(c, g, p)] for p in s.ports(c) if s.bus(c, g, p)]
            if not any(at.count(x) > 1 for x in cars):
                return None
            return self.flows(lambda c, g, p, t: s.dyn(c, g, f"p{p}", t), time)(c, g, port, col)

        return value

    def capacity(self, attr="_opt", at_port=False, storage=False):
        s = self.s

        def value(c, g, port, col):
            if c not in NOM or not s.active(c, g, col):
                return None
            if storage and c not in ("Store", "StorageUnit") or s.bus(c, g, port) == "":
                return None
            e = s.eff(c, g, port)
            v = s.stat(c, g, NOM[c] + attr) * (e if at_port else sabs(e))
            return v * s.stat(c, g, "max_hours") if storage and c == "StorageUnit" else v

        return value

    def cost(self, attr="_opt"):
        s = self.s
        return lambda c, g, port, col: (None if c not in NOM or not s.active(c, g, col) else
                                        s.stat(c, g, NOM[c] + attr) * s.stat(c, g, "capital_cost"))

    def curtailment(self, time="sum"):
        s = self.s

        def f(c, g, port, t):
            if not s.active(c, g, t[0] if s.multi else None):
                return 0
            return smax(s.val(c, g, "p_max_pu", t) * s.stat(c, g, "p_nom_opt") - s.dyn(c, g, "p", t), 0)

        v = self.flows(f, time)
        return lambda c, g, port, col: v(c, g, port, col) if c in ("Generator", "StorageUnit") else None

    def use(self, time="mean"):
        s = self.s

        def f(c, g, port, t):
            return sabs(s.dyn(c, g, "p0" if c in BRANCH else "e" if c == "Store" else "p", t))

        v = self.flows(f, time)
        return lambda c, g, port, col: v(c, g, port, col) if c in NOM else None
