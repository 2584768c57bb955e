"""Primary energy and operational limits bind the right sum."""

from symx.formula import _rel, ne
from symx.lp import LP
from symx.opt import buses, model, network, series
from symx.ref import Ref, isnan

FUNCTIONS = ["create_model", "define_primary_energy_limit", "define_operational_limit", "get_switchable_as_dense"]
BOUNDS = ("1-3 snapshots (all or a subset), 1-2 investment periods, 1-3 generators, storage units and stores per carrier "
          "(cyclic, non-cyclic, inactive, limited lifetime); efficiencies static or time-varying, symbolic and non-zero; "
          "symbolic intensities, weightings, limits, initial levels; all three senses; several limits at once")
OUTSIDE = ("storage under a limit on a single investment period unless its level restarts in each period; storage "
           "whose level restarts in each period under a limit on the whole horizon")


class R(Ref):
    def glc(self, g, a):
        return self.val("GlobalConstraint", g, a)

    def level(self, c, g, sel):
        attr = "state_of_charge" if c == "StorageUnit" else "e"
        last = None
        for t in sel:
            x = self.v(c, attr, t, g)
            if x is not None:
                last = x
        return last

    def limit(self, name):
        kind, period, sense = self.glc(name, "type"), self.glc(name, "investment_period"), self.glc(name, "sense")
        attr = self.glc(name, "carrier_attribute")
        sel = [t for t in self.sns if isnan(period) or t[0] == period]
        if not sel:
            return None

        def factor(c, g):
            car = self.val(c, g, "carrier")
            if kind == "operational_limit":
                return 1 if car == attr else 0
            return self.val("Carrier", car, attr) if car in self.n.carriers.index else 0

        tot, used = 0, False
        for g in self.names("Generator"):
            f = factor("Generator", g)
            if f == 0:
                continue
            for t in sel:
                x = self.v("Generator", "p", t, g)
                if x is None:
                    continue
                used = True
                w = self.w("generators", t) * self.period_weight(t, "years")
                e = f if kind == "operational_limit" else f / self.val("Generator", g, "efficiency", t)
                tot = tot + w * e * x
        for c, cyc, ini in (("StorageUnit", "cyclic_state_of_charge", "state_of_charge_initial"),
                            ("Store", "e_cyclic", "e_initial")):
            for g in self.names(c):
                f = factor(c, g)
                if f == 0 or self.val(c, g, cyc):
                    continue
                x = self.level(c, g, sel)
                if x is None:
                    continue
                used = True
                tot = tot + f * (self.val(c, g, ini) - x)
        if not used:
            return None
        op = {"<=": "le", ">=": "ge", "==": "eq"}[sense]
        return _rel(tot, self.glc(name, "constant"), op, f"limit {name}")


def judge(ctx, n, sns=None, multi=False):
    ctx.finish(n)
    m = model(ctx, n, sns=sns, multi=multi)
    lp = LP(ctx, m)
    ref = R(ctx, n, lp, sns=sns, multi=multi)
    own = [r for g, rs in lp.groups.items() if "GlobalConstraint" in g for r in rs]
    ctx.fingerprint([r.s for r in own])
    want = [r for r in (ref.limit(g) for g in n.global_constraints.index) if r is not None]
    ctx.prove("every feasible point satisfies", want, given=own)
    ctx.prove("nothing else is imposed", own, given=want)
    ctx.reach(lp.rels)


def limits(ctx, T=2, periods=None, kinds=("primary_energy",), senses=("<=",), gens=2, su=(), st=(), ts=False, sns=None,
           act=None, where=(None,), zero=False, mix=False):
    """su/st: tuples (cyclic, active, restart per period)"""
    n = network(T, periods)
    k = T * len(periods or [1])
    buses(ctx, n, "ab")
    ctx.add(n, "Generator", "base", bus="a", p_nom=10, marginal_cost=1)
    for c in "xy":
        e = ctx.real(f"em{c}")
        if not zero:
            ctx.assume(ne(e, 0))
        ctx.add(n, "Carrier", c, co2_emissions=e)
    ctx.add(n, "Carrier", "z")

    def life(i):
        return dict(build_year=act[i % len(act)][0], lifetime=act[i % len(act)][1]) if act else {}

    def eff(i):
        v = series(ctx, f"eff{i}", k, ts or (mix and i == 1))
        for x in v if isinstance(v, list) else [v]:
            ctx.assume(ne(x, 0))
        return v

    for i in range(gens):
        ctx.add(n, "Generator", f"g{i}", bus="ab"[i % 2], p_nom=ctx.real(f"n{i}"), carrier="xyz"[i % 3],
                efficiency=eff(i), sign=ctx.real(f"sg{i}"), **life(i))
    for i, (cyc, on, rs) in enumerate(su):
        ctx.add(n, "StorageUnit", f"u{i}", bus="ab"[i % 2], p_nom=5, carrier="xyz"[i % 3], active=on,
                cyclic_state_of_charge=cyc, state_of_charge_initial=ctx.real(f"ui{i}"),
                state_of_charge_initial_per_period=rs, **life(i))
    for i, (cyc, on, rs) in enumerate(st):
        ctx.add(n, "Store", f"s{i}", bus="ab"[i % 2], e_nom=5, carrier="xyz"[i % 3], active=on, e_cyclic=cyc,
                e_initial=ctx.real(f"si{i}"), e_initial_per_period=rs, **life(i))
    j = 0
    for kind in kinds:
        for sense in senses:
            for wh in where:
                kw = {} if wh is None else dict(investment_period=wh)
                ctx.add(n, "GlobalConstraint", f"lim{j}", type=kind, sense=sense, constant=ctx.real(f"cap{j}"),
                        carrier_attribute="co2_emissions" if kind == "primary_energy" else "xyz"[j % 2], **kw)
                j += 1
    ctx.weightings(n, objective=[7.0] * k, generators=ctx.reals("wg", k), stores=[3.0] * k)
    if periods:
        import pandas as pd

        w = n.investment_period_weightings
        w["years"] = pd.Series(ctx.reals("years", len(periods)), index=w.index, dtype=object if ctx.symparams else float)
    judge(ctx, n, None if sns is None else n.snapshots[list(sns)], multi=bool(periods))


KINDS = ("primary_energy", "operational_limit")


def jobs(tier):
    o = []
    F, T_ = False, True
    mixst = [(F, T_, F), (T_, T_, F), (F, T_, F), (F, T_, F)]
    for kd in KINDS:
        s = kd[:4]
        for sense in ("<=", ">=", "=="):
            o.append((f"{s}-{sense}", limits, dict(kinds=(kd,), senses=(sense,), gens=3, su=mixst[:2], st=mixst[:2])))
        o.append((f"{s}-series", limits, dict(kinds=(kd,), ts=True, gens=3, T=3)))
        o.append((f"{s}-mix", limits, dict(kinds=(kd,), mix=True, gens=3, T=3)))
        o.append((f"{s}-storage", limits, dict(kinds=(kd,), gens=0, su=mixst, st=mixst, T=3)))
        o.append((f"{s}-stores", limits, dict(kinds=(kd,), gens=1, st=mixst)))
        o.append((f"{s}-units", limits, dict(kinds=(kd,), gens=1, su=mixst)))
        o.append((f"{s}-inactive", limits, dict(kinds=(kd,), gens=1, su=[(F, F, F), (F, T_, F)],
                                               st=[(F, F, F), (F, T_, F)])))
        for sub in ([1, 2], [0, 1], [2]):
            o.append((f"{s}-subset-{sub}", limits, dict(kinds=(kd,), T=3, gens=2, su=mixst[:3], st=mixst[:3], sns=sub,
                                                       mix=True)))
        P = [2020, 2030]
        o.append((f"{s}-periods", limits, dict(kinds=(kd,), T=1, periods=P, gens=2, su=mixst, st=mixst)))
        o.append((f"{s}-periods-T2", limits, dict(kinds=(kd,), T=2, periods=P, gens=2, su=mixst[:1], st=mixst[:1], mix=True)))
        o.append((f"{s}-period", limits, dict(kinds=(kd,), T=2, periods=P, gens=3, where=(2020, 2030, None), mix=True)))
        rs = [(F, T_, T_), (T_, T_, T_)]
        o.append((f"{s}-period-storage", limits, dict(kinds=(kd,), T=2, periods=P, gens=1, where=(2020, 2030), su=rs,
                                                     st=rs)))
        o.append((f"{s}-life", limits, dict(kinds=(kd,), T=1, periods=P, gens=3, act=[(2020, 10), (2030, 10), (2010, 50)],
                                           su=mixst[:1] * 3, st=mixst[:1] * 3)))
        o.append((f"{s}-life-period", limits, dict(kinds=(kd,), T=1, periods=P, gens=3, where=(2020, 2030),
                                                  act=[(2020, 10), (2030, 10), (2010, 50)], su=rs[:1] * 3,
                                                  st=rs[:1] * 3)))
    o.append(("both", limits, dict(kinds=KINDS, senses=("<=", ">="), gens=3, su=mixst, st=mixst)))
    o.append(("zero", limits, dict(zero=True, gens=3, su=mixst[:2], st=mixst[:2], T=1)))
    if tier == "thorough":
        P3 = [2020, 2030, 2040]
        for kd in KINDS:
            for sense in ("<=", ">=", "=="):
                for ts in (False, True):
                    o.append((f"{kd}-deep-{sense}-{ts}", limits, dict(
                        kinds=(kd,), senses=(sense,), gens=6, su=mixst, st=mixst, T=4, ts=ts)))
                    o.append((f"{kd}-P3-{sense}-{ts}", limits, dict(
                        kinds=(kd,), senses=(sense,), gens=4, T=2, periods=P3, ts=ts, where=(2020, 2030, 2040, None))))
            for b in (2010, 2020, 2025, 2030, 2040, 2050):
                for l in (5, 10, 20, 40):
                    o.append((f"{kd}-life-{b}-{l}", limits, dict(
                        kinds=(kd,), T=1, periods=P3, gens=2, act=[(b, l)], su=mixst[:1], st=mixst[:1])))
    return o
