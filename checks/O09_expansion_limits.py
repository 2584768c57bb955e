"""Capacity and expansion limits bind the right sum."""

from symx.formula import _rel
from symx.lp import LP
from symx.opt import buses, model, network
from symx.ref import NOM, Ref, isnan

FUNCTIONS = ["create_model", "define_tech_capacity_expansion_limit", "define_nominal_constraints_per_bus_carrier",
             "define_growth_limit", "define_transmission_volume_expansion_limit", "define_transmission_expansion_cost_limit",
             "get_active_assets", "get_extendable_i"]
BOUNDS = ("1-3 buses, 1-3 carriers, 0-3 expandable and fixed assets of every type per carrier at arbitrary buses, 1-3 "
          "investment periods with every alive pattern; lengths, costs, limits, capacities, growth ratios and period "
          "weights symbolic; all senses; several limits together")
OUTSIDE = ("capacity limits without period over assets whose lifetimes differ by period (undocumented reading); limits "
           "for buses without any expandable asset of the carrier")

OP = {"<=": "le", ">=": "ge", "==": "eq"}


class R(Ref):
    def alive(self, c, g, periods):
        if not self.val(c, g, "active"):
            return False
        if not self.multi:
            return True
        return any(self.active_period(c, g, p) for p in periods)

    def periods(self):
        return list(dict.fromkeys(t[0] for t in self.sns)) if self.multi else [None]

    def ext_assets(self, cs, carrier, periods, bus=None):
        for c in cs:
            for g in self.names(c):
                if not self.ext(c, g) or self.val(c, g, "carrier") not in carrier:
                    continue
                b = self.val(c, g, "bus" if c in ("Generator", "Store", "StorageUnit") else "bus0")
                if bus is not None and b != bus:
                    continue
                if self.alive(c, g, periods):
                    yield c, g

    def glc_rel(self, name):
        v = lambda a: self.val("GlobalConstraint", name, a)  # noqa: E731
        kind, period = v("type"), v("investment_period")
        ps = self.periods() if isnan(period) else [int(period)]
        op = OP[v("sense")]
        tot, used = 0, False
        if kind == "tech_capacity_expansion_limit":
            bus = v("bus") if "bus" in self.n.global_constraints.columns else None
            bus = None if not isinstance(bus, str) or bus == "" else bus
            cs = [c for c in NOM if "carrier" in self.static(c).columns]
            for c, g in self.ext_assets(cs, [v("carrier_attribute")], ps, bus):
                tot, used = tot + self.nomv(c, g), True
        else:
            cars = [x.strip() for x in v("carrier_attribute").split(",")]
            for c, g in self.ext_assets(("Line", "Link"), cars, ps):
                if kind == "transmission_volume_expansion_limit":
                    f = self.val(c, g, "length")
                else:
                    f = self.val(c, g, "capital_cost")
                    if self.multi and isnan(period):
                        w = 0
                        for p in ps:
                            if self.active_period(c, g, p):
                                w = w + self.period_weight((p,))
                        f = f * w
                tot, used = tot + f * self.nomv(c, g), True
        return _rel(tot, v("constant"), op, f"limit {name}") if used else None

    def nom_rels(self):
        out = []
        for col in self.n.buses.columns:
            if not col.startswith(("nom_min_", "nom_max_")):
                continue
            rest, period = col[8:], None
            if rest not in self.n.carriers.index:
                rest, period = rest.rsplit("_", 1)
                period = int(period)
                if period not in self.periods():
                    continue
            for b in self.n.buses.index:
                lim = self.val("Bus", b, col)
                if isnan(lim):
                    continue
                tot, used = 0, False
                for c, g in self.ext_assets(("Generator", "Store", "StorageUnit"), [rest],
                                            self.periods() if period is None else [period], b):
                    tot, used = tot + self.nomv(c, g), True
                if used:
                    out.append(_rel(tot, lim, "ge" if col.startswith("nom_min") else "le", f"{col} at {b}"))
        return out

    def growth(self):
        out = []
        if not self.multi:
            return out
        for car in self.n.carriers.index:
            mx, rel = self.val("Carrier", car, "max_growth"), self.val("Carrier", car, "max_relative_growth")
            if not hasattr(mx, "den") and not _finite(mx):
                continue
            prev, used_any = 0, False
            rows = []
            for p in self.periods():
                new, used = 0, False
                for c in NOM:
                    if "carrier" not in self.static(c).columns:
                        continue
                    for g in self.names(c):
                        if not self.ext(c, g) or self.val(c, g, "carrier") != car:
                            continue
                        alive = [q for q in self.periods() if self.active_period(c, g, q)]
                        if alive and alive[0] == p:
                            new, used = new + self.nomv(c, g), True
                lhs = new
                if rel > 0:
                    lhs = new - rel * prev
                if used or (rel > 0 and prev is not 0):  # noqa: F632
                    rows.append(_rel(lhs, mx, "le", f"growth of {car} in {p}"))
                prev = new
            out += rows
        return out


def _finite(x):
    from symx.sym import Sym
    import math

    return isinstance(x, Sym) or math.isfinite(float(x))


def judge(ctx, n, sns=None, multi=False):
    ctx.finish(n)
    m = model(ctx, n, sns=sns, multi=multi)
    lp = LP(ctx, m)
    ref = R(ctx, n, lp, sns=sns, multi=multi)
    own = [r for g, rs in lp.groups.items() if g.startswith(("GlobalConstraint", "Carrier-growth", "Bus-nom_")) for r in rs]
    ctx.fingerprint([r.s for r in own])
    want = [r for r in (ref.glc_rel(g) for g in n.global_constraints.index) if r is not None]
    want += ref.nom_rels() + ref.growth()
    ctx.prove("every feasible point satisfies", want, given=own)
    ctx.prove("nothing else is imposed", own, given=want)
    ctx.reach(lp.rels)


# (type, carrier, bus or bus pair, mode, life)
def assets(ctx, n, specs):
    for i, sp in enumerate(specs):
        c, car, at, md = sp[:4]
        kw = dict(bus=at) if c in ("Generator", "Store", "StorageUnit") else dict(bus0=at[0], bus1=at[1])
        if c in ("Line", "Transformer"):
            kw.update(x=0.1, r=0.01)
        if c in ("Line", "Link"):
            kw["length"] = ctx.real(f"len{i}")
        if c != "Transformer":
            kw["carrier"] = car
        kw["capital_cost"] = ctx.real(f"cc{i}")
        kw[NOM[c] + "_extendable"] = md in ("ext", "extoff")
        kw["active"] = md in ("ext", "fix")
        kw[NOM[c]] = 3.0
        if len(sp) > 4:
            kw.update(build_year=sp[4][0], lifetime=sp[4][1])
        ctx.add(n, c, f"{c}{i}", **kw)


def base(ctx, T=1, periods=None, bs="ab", cars="xyz"):
    n = network(T, periods)
    buses(ctx, n, bs)
    for c in cars:
        ctx.add(n, "Carrier", c)
    ctx.add(n, "Generator", "base", bus="a", p_nom=10, marginal_cost=1, p_min_pu=-1)
    if periods:
        import pandas as pd

        w = n.investment_period_weightings
        w["objective"] = pd.Series(ctx.reals("pw", len(periods)), index=w.index, dtype=object if ctx.symparams else float)
        w["years"] = 10.0
    return n


def glcs(ctx, n, specs):
    for j, (kind, car, sense, kw) in enumerate(specs):
        ctx.add(n, "GlobalConstraint", f"lim{j}", type=kind, carrier_attribute=car, sense=sense, constant=ctx.real(f"cap{j}"),
                **kw)


def limits(ctx, specs, limits, periods=None, bs="ab", sns=None):
    n = base(ctx, 1, periods, bs)
    assets(ctx, n, specs)
    glcs(ctx, n, limits)
    judge(ctx, n, None if sns is None else n.snapshots[list(sns)], multi=bool(periods))


def nominal(ctx, specs, cols, periods=None, bs="ab", sns=None):
    """cols: {column: buses with a value}"""
    n = base(ctx, 1, periods, bs)
    assets(ctx, n, specs)
    ctx.finish(n)
    import numpy as np
    import pandas as pd

    for col, at in cols.items():
        v = [ctx.real(f"{col}-{b}") if b in at else np.nan for b in n.buses.index]
        n.buses[col] = pd.Series(v, index=n.buses.index, dtype=object if ctx.symparams else float)
    judge(ctx, n, None if sns is None else n.snapshots[list(sns)], multi=bool(periods))


def growth(ctx, specs, periods, limited="x", relative="", sns=None, order="xyz"):
    n = base(ctx, 1, periods, cars=order)
    assets(ctx, n, specs)
    ctx.finish(n)
    import pandas as pd

    dt = object if ctx.symparams else float
    ix = n.carriers.index
    n.carriers["max_growth"] = pd.Series([ctx.real(f"mg{c}", 0) if c in limited else float("inf") for c in ix], index=ix,
                                         dtype=dt)
    n.carriers["max_relative_growth"] = pd.Series([ctx.real(f"rg{c}", 0, strict=True) if c in relative else 0.0
                                                   for c in ix], index=ix, dtype=dt)
    judge(ctx, n, None if sns is None else n.snapshots[list(sns)], multi=True)


G, S, U, K, L, X = "Generator", "Store", "StorageUnit", "Link", "Line", "Transformer"
TECH, VOL, COST = "tech_capacity_expansion_limit", "transmission_volume_expansion_limit", "transmission_expansion_cost_limit"


def jobs(tier):
    o = []
    mixed = [(G, "x", "a", "ext"), (G, "x", "b", "ext"), (S, "x", "b", "ext"), (U, "y", "a", "ext"), (G, "x", "a", "fix"),
             (K, "x", "ab", "ext"), (G, "y", "b", "ext"), (X, "", "ab", "ext")]
    cross = [(G, "x", "a", "ext"), (S, "x", "b", "ext"), (U, "x", "b", "ext")]
    for sense in ("<=", ">=", "=="):
        o.append((f"tech-{sense}", limits, dict(specs=mixed, limits=[(TECH, "x", sense, {}), (TECH, "y", sense, {})])))
    o.append(("tech-bus", limits, dict(specs=mixed, limits=[(TECH, "x", "<=", dict(bus="a")), (TECH, "x", ">=", dict(bus="b")),
                                                            (TECH, "y", "<=", dict(bus="b"))])))
    o.append(("tech-cross", limits, dict(specs=cross, limits=[(TECH, "x", "<=", dict(bus="a"))])))
    o.append(("tech-cross-b", limits, dict(specs=cross, limits=[(TECH, "x", "<=", dict(bus="b"))])))
    o.append(("tech-cross-3", limits, dict(specs=cross + [(G, "x", "c", "ext")], bs="abc", limits=[
        (TECH, "x", "<=", dict(bus=b)) for b in "abc"])))
    o.append(("tech-bus-and-total", limits, dict(specs=mixed, limits=[(TECH, "x", "<=", dict(bus="a")), (TECH, "x", "<=", {})])))
    o.append(("tech-off", limits, dict(specs=mixed + [(G, "x", "a", "extoff")], limits=[(TECH, "x", ">=", {})])))
    tr = [(L, "AC", "ab", "ext"), (L, "AC", "ab", "fix"), (L, "DC", "ab", "ext"), (K, "DC", "ab", "ext"), (K, "AC", "ba", "ext"),
          (K, "x", "ab", "ext")]
    for nm, kd in (("vol", VOL), ("cost", COST)):
        for sense in ("<=", ">=", "=="):
            o.append((f"{nm}-{sense}", limits, dict(specs=tr, limits=[(kd, "AC", sense, {}), (kd, "AC, DC", sense, {}),
                                                                      (kd, "x", sense, {})])))
        o.append((f"{nm}-onlylinks", limits, dict(specs=tr[3:], limits=[(kd, "DC", "<=", {})])))
        o.append((f"{nm}-off", limits, dict(specs=tr + [(L, "AC", "ab", "extoff"), (K, "AC", "ab", "extoff")],
                                           limits=[(kd, "AC", ">=", {})])))
    P2, P3 = [2020, 2030], [2020, 2030, 2040]
    lives = [(2020, 10), (2030, 30), (2010, 25), (2020, 50), (2040, 5)]
    lm = [sp + (lives[i % 5],) for i, sp in enumerate([(G, "x", "a", "ext")] * 5 + [(S, "x", "b", "ext")] * 3 +
                                                     [(U, "y", "a", "ext")] * 2)]
    lt = [sp + (lives[i % 5],) for i, sp in enumerate([(L, "AC", "ab", "ext")] * 5 + [(K, "DC", "ab", "ext")] * 5)]
    for p in P3:
        o.append((f"tech-{p}", limits, dict(specs=lm, periods=P3, limits=[(TECH, "x", "<=", dict(investment_period=p)),
                                                                       (TECH, "y", "<=", dict(investment_period=p))])))
        o.append((f"tech-bus-{p}", limits, dict(specs=lm, periods=P3, limits=[
            (TECH, "x", "<=", dict(investment_period=p, bus="a"))])))
        for nm, kd in (("vol", VOL), ("cost", COST)):
            o.append((f"{nm}-{p}", limits, dict(specs=lt, periods=P3, limits=[(kd, "AC,DC", "<=", dict(investment_period=p)),
                                                                              (kd, "DC", ">=", dict(investment_period=p))])))
    for nm, kd in (("vol", VOL), ("cost", COST)):
        o.append((f"{nm}-allperiods", limits, dict(specs=lt, periods=P3, limits=[(kd, "AC,DC", "<=", {})])))
        o.append((f"{nm}-window", limits, dict(specs=lt, periods=P3, limits=[(kd, "AC,DC", "<=", {})], sns=[0, 1])))
    o.append(("nom", nominal, dict(specs=mixed, cols={"nom_max_x": "ab", "nom_min_x": "b", "nom_max_y": "a"})))
    o.append(("nom-3", nominal, dict(specs=cross + [(G, "x", "c", "ext")], bs="abc", cols={"nom_max_x": "ac"})))
    o.append(("nom-cross", nominal, dict(specs=cross, cols={"nom_max_x": "ab", "nom_min_x": "ab"})))
    o.append(("nom-off", nominal, dict(specs=mixed + [(G, "x", "a", "extoff")], cols={"nom_min_x": "a"})))
    o.append(("nom-periods", nominal, dict(specs=lm, periods=P3, cols={"nom_max_x_2020": "ab", "nom_min_x_2030": "a",
                                                                     "nom_max_y_2040": "a"})))
    o.append(("nom-window", nominal, dict(specs=lm, periods=P3, cols={"nom_max_x_2020": "ab", "nom_min_x_2030": "a"},
                                         sns=[1])))
    o.append(("growth", growth, dict(specs=lm, periods=P3)))
    o.append(("growth-2", growth, dict(specs=lm, periods=P3, limited="xy")))
    o.append(("growth-rel", growth, dict(specs=lm, periods=P3, limited="xy", relative="x")))
    o.append(("growth-rel2", growth, dict(specs=lm, periods=P3, limited="xy", relative="xy", order="zyx")))
    only = [(G, "x", "a", "ext", (2020, 50)), (G, "x", "a", "ext", (2030, 50)), (U, "y", "a", "ext", (2020, 50)),
            (U, "y", "a", "ext", (2030, 20)), (S, "y", "b", "ext", (2030, 20))]
    o.append(("growth-cross", growth, dict(specs=only, periods=P3, limited="xy")))
    o.append(("growth-cross-rel", growth, dict(specs=only, periods=P3, limited="xy", relative="y")))
    o.append(("growth-short", growth, dict(specs=[(G, "x", "a", "ext", (2020, 10)), (G, "x", "a", "ext", (2030, 10))],
                                           periods=P2)))
    o.append(("growth-window", growth, dict(specs=only, periods=P3, limited="xy", sns=[1, 2])))
    if tier == "thorough":
        import itertools

        for a, b in itertools.product(range(5), repeat=2):
            sp = [(G, "x", "a", "ext", lives[a]), (G, "x", "b", "ext", lives[b]), (S, "x", "b", "ext", lives[(a + b) % 5]),
                  (U, "y", "a", "ext", lives[(a * b) % 5])]
            st = [(L, "AC", "ab", "ext", lives[a]), (K, "DC", "ab", "ext", lives[b]), (L, "DC", "ab", "ext", lives[(a + b) % 5])]
            o.append((f"deep-growth-{a}{b}", growth, dict(specs=sp, periods=P3, limited="xy", relative="xy"[a % 2])))
            for p in P3:
                o.append((f"deep-tech-{a}{b}-{p}", limits, dict(specs=sp, periods=P3, limits=[
                    (TECH, "x", s, dict(investment_period=p, bus=bb)) for s in ("<=", ">=") for bb in "ab"
                    if any(x[1] == "x" and x[2] == bb and x[4][0] <= p < sum(x[4]) for x in sp)])))
            o.append((f"deep-tr-{a}{b}", limits, dict(specs=st, periods=P3, limits=[
                (kd, "AC,DC", "<=", w) for kd in (VOL, COST) for w in ({}, dict(investment_period=2030))])))
            o.append((f"deep-nom-{a}{b}", nominal, dict(specs=sp, periods=P3, cols={
                "nom_max_x_2020": "ab", "nom_min_x_2030": "ab", "nom_max_x_2040": "ab", "nom_max_y_2030": "a"})))
    return o
