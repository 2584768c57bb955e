"""Independent reference semantics of the optimisation problem.

Written from the documentation (component attribute tables, optimisation
chapter), reading the network's tables directly - none of PyPSA's helper
functions are used.  Every function returns a list of relations over the same
decision quantities the model exposes.
"""

from __future__ import annotations

import math

import numpy as np
import pandas as pd

from .ctx import isnan
from .formula import Bool, Rel, _rel, eq, ge, le
from .lp import coord_key
from .sym import Sym

NOM = {"Generator": "p_nom", "Line": "s_nom", "Transformer": "s_nom", "Link": "p_nom",
       "Store": "e_nom", "StorageUnit": "p_nom"}
OPER = {"Generator": ["p"], "Line": ["s"], "Transformer": ["s"], "Link": ["p"], "Store": ["e"],
        "StorageUnit": ["p_dispatch", "p_store", "state_of_charge"]}
LINKS = {"Line": "lines", "Transformer": "transformers", "Link": "links", "Generator": "generators",
         "Store": "stores", "StorageUnit": "storage_units", "Load": "loads", "Bus": "buses",
         "GlobalConstraint": "global_constraints", "Carrier": "carriers"}


def isinf(x):
    return not isinstance(x, Sym) and math.isinf(float(x))


class Ref:
    def __init__(self, ctx, n, lp, sns=None, multi=False, losses=0, linear_uc=False):
        self.ctx, self.n, self.lp = ctx, n, lp
        self.sns = list(n.snapshots if sns is None else sns)
        self.multi = multi
        self.losses = losses
        self.linear_uc = linear_uc

    # ---- data access -------------------------------------------------------
    def static(self, c):
        return getattr(self.n, LINKS[c])

    def names(self, c):
        return list(self.static(c).index)

    def val(self, c, name, attr, t=None):
        dyn = getattr(self.n, LINKS[c] + "_t").get(attr)
        if t is not None and dyn is not None and name in dyn.columns:
            v = dyn[name].loc[t]
        else:
            df = self.static(c)
            v = df[attr].loc[name]
        if isinstance(v, np.generic):
            v = v.item()
        return v

    def active(self, c, name, t):
        if not self.val(c, name, "active"):
            return False
        if self.multi and "build_year" in self.static(c).columns:
            period = t[0]
            b, l = self.val(c, name, "build_year"), self.val(c, name, "lifetime")
            return b <= period < b + l
        return True

    def active_period(self, c, name, period):
        return self.active(c, name, (period, None))

    def ext(self, c, name):
        return bool(self.val(c, name, NOM[c] + "_extendable"))

    def com(self, c, name):
        return c in ("Generator", "Link") and bool(self.val(c, name, "committable"))

    def v(self, c, attr, t, name):
        return self.lp.get(f"{c}-{attr}", t, name)

    def nomv(self, c, name):
        return self.lp.get(f"{c}-{NOM[c]}", name)

    def nom(self, c, name):
        return self.nomv(c, name) if self.ext(c, name) else self.val(c, name, NOM[c])

    def past(self, c, attr, g, k):
        """stored decision at snapshot number k, before the window."""
        fr = getattr(self.n, LINKS[c] + "_t")["p0" if (c, attr) == ("Link", "p") else attr]
        return fr[g].iloc[k]

    def initial(self, c, g):
        return self.val(c, g, "e_initial" if c == "Store" else "state_of_charge_initial")

    def w(self, col, t):
        v = self.n.snapshot_weightings[col].loc[t]
        return v.item() if isinstance(v, np.generic) else v

    def comps(self, *cs):
        for c in cs:
            for g in self.names(c):
                yield c, g

    # ---- existence of decision quantities ------------------------------------
    def existence(self):
        out = []
        for c in NOM:
            attrs = list(OPER[c]) + (["p"] if c == "Store" else [])
            for g in self.names(c):
                for a in attrs:
                    for t in self.sns:
                        out.append(Bool((self.v(c, a, t, g) is not None) == self.active(c, g, t),
                                        f"{c} {g} {a} exists at {coord_key(t)} iff active"))
                out.append(Bool((self.nomv(c, g) is not None) == self.ext(c, g),
                                f"{c} {g} capacity variable iff extendable"))
                if self.com(c, g):
                    for t in self.sns:
                        out.append(Bool((self.v(c, "status", t, g) is not None) == self.active(c, g, t),
                                        f"{c} {g} status exists"))
        return out

    # ---- dispatch limits -----------------------------------------------------
    def pu_bounds(self, c, attr, g, t):
        """(lower, upper) per unit of nominal capacity."""
        if c in ("Line", "Transformer"):
            m = self.val(c, g, "s_max_pu", t)
            return -m, m
        if c == "StorageUnit":
            if attr == "p_dispatch":
                return 0, self.val(c, g, "p_max_pu", t)
            if attr == "p_store":
                return 0, -self.val(c, g, "p_min_pu", t)
            return 0, self.val(c, g, "max_hours")
        if c == "Store":
            return self.val(c, g, "e_min_pu", t), self.val(c, g, "e_max_pu", t)
        return self.val(c, g, "p_min_pu", t), self.val(c, g, "p_max_pu", t)

    def dispatch(self):
        out = []
        for c in NOM:
            for g in self.names(c):
                for t in self.sns:
                    if not self.active(c, g, t):
                        continue
                    for a in OPER[c]:
                        lo, hi = self.pu_bounds(c, a, g, t)
                        x = self.v(c, a, t, g)
                        if x is None:
                            continue
                        nom = self.nom(c, g)
                        if self.com(c, g):
                            nom = nom * self.v(c, "status", t, g)
                        loss = 0
                        if self.losses and c in ("Line", "Transformer"):
                            loss = self.v(c, "loss", t, g)
                        tag = f"{c} {g} {a} {coord_key(t)}"
                        out.append(ge(x - loss, lo * nom, f"{tag} lower limit"))
                        out.append(le(x + loss, hi * nom, f"{tag} upper limit"))
        return out

    # ---- capacities ------------------------------------------------------------
    def capacity(self):
        out = []
        for c, a in NOM.items():
            for g in self.names(c):
                x = self.nomv(c, g)
                if x is None:
                    continue
                out.append(ge(x, self.val(c, g, a + "_min"), f"{c} {g} {a}_min"))
                hi = self.val(c, g, a + "_max")
                if not isinf(hi):
                    out.append(le(x, hi, f"{c} {g} {a}_max"))
                if a + "_set" in self.static(c).columns:
                    s = self.val(c, g, a + "_set")
                    if not isnan(s):
                        out.append(eq(x, s, f"{c} {g} {a}_set"))
                mod = self.val(c, g, a + "_mod")
                if mod > 0:
                    k = self.lp.get(f"{c}-n_mod", g)
                    if k is None:
                        out.append(Bool(False, f"{c} {g} has no module count"))
                    else:
                        out.append(eq(x, k * mod, f"{c} {g} whole modules"))
                        out.append(ge(k, 0, f"{c} {g} module count"))
        return out

    # ---- nodal balance -----------------------------------------------------------
    def ports(self):
        cols = self.n.links.columns
        return [int(x[3:]) for x in cols if x.startswith("bus") and x[3:].isdigit() and int(x[3:]) > 0]

    def injections(self, t):
        """bus -> list of terms, load -> bus -> value"""
        inj = {b: [] for b in self.n.buses.index}
        has = {b: False for b in self.n.buses.index}

        def put(bus, coef, x):
            if bus in inj and x is not None:
                inj[bus].append(coef * x)
                has[bus] = True

        for g in self.names("Generator"):
            put(self.val("Generator", g, "bus"), self.val("Generator", g, "sign"), self.v("Generator", "p", t, g))
        for g in self.names("Store"):
            put(self.val("Store", g, "bus"), self.val("Store", g, "sign"), self.v("Store", "p", t, g))
        for g in self.names("StorageUnit"):
            s = self.val("StorageUnit", g, "sign")
            b = self.val("StorageUnit", g, "bus")
            put(b, s, self.v("StorageUnit", "p_dispatch", t, g))
            put(b, -s, self.v("StorageUnit", "p_store", t, g))
        for c in ("Line", "Transformer"):
            for g in self.names(c):
                put(self.val(c, g, "bus0"), -1, self.v(c, "s", t, g))
                put(self.val(c, g, "bus1"), 1, self.v(c, "s", t, g))
                if self.losses:
                    from fractions import Fraction

                    h = -0.5
                    put(self.val(c, g, "bus0"), h, self.v(c, "loss", t, g))
                    put(self.val(c, g, "bus1"), h, self.v(c, "loss", t, g))
        for g in self.names("Link"):
            x = self.v("Link", "p", t, g)
            put(self.val("Link", g, "bus0"), -1, x)
            for i in self.ports():
                b = self.val("Link", g, f"bus{i}")
                if b == "" or (isinstance(b, float) and math.isnan(b)):
                    continue
                put(b, self.val("Link", g, "efficiency" + ("" if i == 1 else str(i)), t), x)
        load = {b: 0 for b in self.n.buses.index}
        for l in self.names("Load"):
            if self.val("Load", l, "active"):
                b = self.val("Load", l, "bus")
                if b in load:
                    load[b] = load[b] - self.val("Load", l, "sign") * self.val("Load", l, "p_set", t)
        return inj, load, has

    def balance(self):
        out = []
        for t in self.sns:
            inj, load, has = self.injections(t)
            for b in inj:
                tot = 0
                for x in inj[b]:
                    tot = tot + x
                out.append(eq(tot, load[b], f"balance at {b}, {coord_key(t)}"))
        return out

    # ---- Kirchhoff voltage law --------------------------------------------------
    def branches(self, t):
        out = []
        for c in ("Line", "Transformer"):
            for g in self.names(c):
                if self.active(c, g, t):
                    out.append((c, g, self.val(c, g, "bus0"), self.val(c, g, "bus1")))
        return out

    def impedance(self, c, g, dc):
        """effective per-unit series impedance seen by the linear flow."""
        b0 = self.val(c, g, "bus0")
        if c == "Line":
            v = self.val("Bus", b0, "v_nom")
            return self.val(c, g, "r" if dc else "x") / (v * v)
        z = self.val(c, g, "r" if dc else "x") / self.val(c, g, "s_nom")
        return z * self.val(c, g, "tap_ratio")

    def kvl(self):
        """flows admit bus potentials: witness built along a spanning forest."""
        out = []
        for t in self.sns:
            brs = self.branches(t)
            pot = {}
            for root in self.n.buses.index:
                if root in pot:
                    continue
                pot[root] = 0
                dc = self.val("Bus", root, "carrier") == "DC"
                stack = [root]
                tree = set()
                while stack:
                    u = stack.pop()
                    for i, (c, g, b0, b1) in enumerate(brs):
                        if u not in (b0, b1):
                            continue
                        w = b1 if u == b0 else b0
                        if w in pot:
                            continue
                        dv = self.impedance(c, g, dc) * self.v(c, "s", t, g)
                        pot[w] = pot[u] - dv if u == b0 else pot[u] + dv
                        tree.add(i)
                        stack.append(w)
            for i, (c, g, b0, b1) in enumerate(brs):
                dc = self.val("Bus", b0, "carrier") == "DC"
                out.append(eq(pot[b0] - pot[b1], self.impedance(c, g, dc) * self.v(c, "s", t, g),
                              f"voltage law across {c} {g}, {coord_key(t)}"))
        return out

    # ---- storage -----------------------------------------------------------------
    def _prev(self, c, g, i, cyc, cyc_pp, init_pp):
        """('prev', t') or ('init',) for snapshot number i."""
        t = self.sns[i]
        act = [self.active(c, g, s) for s in self.sns]
        pp = self.multi and bool(cyc_pp if cyc else init_pp)
        same = [k for k in range(len(self.sns)) if act[k] and (not pp or self.sns[k][0] == t[0])]
        pos = same.index(i)
        if pos > 0:
            return ("prev", self.sns[same[pos - 1]])
        return ("prev", self.sns[same[-1]]) if cyc else ("init",)

    def storage_units(self):
        out = []
        c = "StorageUnit"
        for g in self.names(c):
            for i, t in enumerate(self.sns):
                if not self.active(c, g, t):
                    continue
                h = self.w("stores", t)
                keep = (1 - self.val(c, g, "standing_loss", t)) ** h
                p = self._prev(c, g, i, self.val(c, g, "cyclic_state_of_charge"),
                               self.val(c, g, "cyclic_state_of_charge_per_period"),
                               self.val(c, g, "state_of_charge_initial_per_period"))
                prev = keep * self.v(c, "state_of_charge", p[1], g) if p[0] == "prev" else self.initial(c, g)
                spill = self.v(c, "spill", t, g)
                rhs = (prev
                       + h * self.val(c, g, "efficiency_store", t) * self.v(c, "p_store", t, g)
                       - h * (1 / self.val(c, g, "efficiency_dispatch", t)) * self.v(c, "p_dispatch", t, g)
                       + h * self.val(c, g, "inflow", t)
                       - (h * spill if spill is not None else 0))
                out.append(eq(self.v(c, "state_of_charge", t, g), rhs,
                              f"state of charge of {g}, {coord_key(t)}"))
        return out

    def spill(self):
        out = []
        c = "StorageUnit"
        for g in self.names(c):
            for t in self.sns:
                x = self.v(c, "spill", t, g)
                infl = self.val(c, g, "inflow", t)
                pos = self.active(c, g, t) and infl > 0
                out.append(Bool((x is not None) == bool(pos), f"spillage of {g} possible iff inflow, {coord_key(t)}"))
                if x is not None:
                    out.append(ge(x, 0, f"spill {g} >= 0"))
                    out.append(le(x, infl, f"spill {g} <= inflow"))
        return out

    def stores(self):
        out = []
        c = "Store"
        for g in self.names(c):
            for i, t in enumerate(self.sns):
                if not self.active(c, g, t):
                    continue
                h = self.w("stores", t)
                keep = (1 - self.val(c, g, "standing_loss", t)) ** h
                p = self._prev(c, g, i, self.val(c, g, "e_cyclic"), self.val(c, g, "e_cyclic_per_period"),
                               self.val(c, g, "e_initial_per_period"))
                prev = keep * self.v(c, "e", p[1], g) if p[0] == "prev" else self.initial(c, g)
                out.append(eq(self.v(c, "e", t, g), prev - h * self.v(c, "p", t, g),
                              f"energy of store {g}, {coord_key(t)}"))
        return out

    # ---- fixed schedules, energy sums -----------------------------------------------
    def fixed_dispatch(self):
        out = []
        for c in NOM:
            dyn = getattr(self.n, LINKS[c] + "_t")
            for a in OPER[c]:
                fr = dyn.get(a + "_set")
                if fr is None:
                    continue
                for g in fr.columns:
                    for t in self.sns:
                        s = fr[g].loc[t]
                        if isnan(s) or not self.active(c, g, t):
                            continue
                        out.append(eq(self.v(c, a, t, g), s, f"{c} {g} {a} fixed at {coord_key(t)}"))
        return out

    def energy_sums(self):
        out = []
        for g in self.names("Generator"):
            tot = 0
            for t in self.sns:
                x = self.v("Generator", "p", t, g)
                if x is not None:
                    tot = tot + self.w("generators", t) * x
            lo, hi = self.val("Generator", g, "e_sum_min"), self.val("Generator", g, "e_sum_max")
            if not isinf(lo):
                out.append(ge(tot, lo, f"minimum energy of {g}"))
            if not isinf(hi):
                out.append(le(tot, hi, f"maximum energy of {g}"))
        return out

    # ---- unit commitment ---------------------------------------------------------------
    def before(self, c, g):
        """(snapshots already up, snapshots already down) before the horizon."""
        n = self.n
        first = self.sns[0]
        pos = list(n.snapshots).index(first)
        if pos == 0:
            return int(self.val(c, g, "up_time_before")), int(self.val(c, g, "down_time_before"))
        seq = [self.past(c, "status", g, k) for k in range(pos)][::-1]
        up = 0
        for s in seq:
            if s == 1:
                up += 1
            else:
                break
        if up == pos:
            up += int(self.val(c, g, "up_time_before"))
        down = 0
        for s in seq:
            if s == 0:
                down += 1
            else:
                break
        if down == pos:
            down += int(self.val(c, g, "down_time_before"))
        return up, down

    def commitment(self):
        out = []
        for c in ("Generator", "Link"):
            for g in self.names(c):
                if not self.com(c, g):
                    continue
                up0, down0 = self.before(c, g)
                was_up = up0 > 0
                mu, md = int(self.val(c, g, "min_up_time")), int(self.val(c, g, "min_down_time"))
                T = [t for t in self.sns]
                for i, t in enumerate(T):
                    if not self.active(c, g, t):
                        continue
                    s = self.v(c, "status", t, g)
                    sp = self.v(c, "status", T[i - 1], g) if i > 0 else (1 if was_up else 0)
                    su, sd = self.v(c, "start_up", t, g), self.v(c, "shut_down", t, g)
                    tag = f"{c} {g}, {coord_key(t)}"
                    out.append(ge(su, s - sp, f"start-up counted {tag}"))
                    out.append(ge(sd, sp - s, f"shut-down counted {tag}"))
                    if mu and i > 0:
                        tot = 0
                        for k in range(max(0, i - mu + 1), i + 1):
                            tot = tot + self.v(c, "start_up", T[k], g)
                        out.append(le(tot, s, f"minimum up time {tag}"))
                    if md and i > 0:
                        tot = 0
                        for k in range(max(0, i - md + 1), i + 1):
                            tot = tot + self.v(c, "shut_down", T[k], g)
                        out.append(le(tot, 1 - s, f"minimum down time {tag}"))
                    if was_up and i + 1 <= mu - up0:
                        out.append(eq(s, 1, f"still in minimum up time {tag}"))
                    if down0 > 0 and i + 1 <= md - down0:
                        out.append(eq(s, 0, f"still in minimum down time {tag}"))
        return out

    # ---- ramps --------------------------------------------------------------------------
    def ramps(self):
        out = []
        n = self.n
        pos0 = list(n.snapshots).index(self.sns[0])
        for c in ("Generator", "Link"):
            for g in self.names(c):
                com = self.com(c, g)
                nom = self.nom(c, g)
                for i, t in enumerate(self.sns):
                    if not self.active(c, g, t):
                        continue
                    ru, rd = self.val(c, g, "ramp_limit_up", t), self.val(c, g, "ramp_limit_down", t)
                    if isnan(ru) and isnan(rd):
                        continue
                    if i == 0:
                        if pos0 == 0:
                            continue
                        pp = self.past(c, "p", g, pos0 - 1)
                        sp = self.past(c, "status", g, pos0 - 1) if com else 1
                    else:
                        pp = self.v(c, "p", self.sns[i - 1], g)
                        sp = self.v(c, "status", self.sns[i - 1], g) if com else 1
                    p = self.v(c, "p", t, g)
                    s = self.v(c, "status", t, g) if com else 1
                    tag = f"{c} {g}, {coord_key(t)}"
                    if not isnan(ru):
                        if com:
                            lim = ru * nom * sp + self.val(c, g, "ramp_limit_start_up") * nom * (s - sp)
                        else:
                            lim = ru * nom
                        out.append(le(p - pp, lim, f"ramp up {tag}"))
                    if not isnan(rd):
                        if com:
                            lim = rd * nom * s + self.val(c, g, "ramp_limit_shut_down") * nom * (sp - s)
                        else:
                            lim = rd * nom
                        out.append(ge(p - pp, -lim, f"ramp down {tag}"))
        return out

    # ---- losses -------------------------------------------------------------------------
    def loss_rels(self):
        out = []
        k = self.losses
        for c in ("Line", "Transformer"):
            for g in self.names(c):
                for t in self.sns:
                    if not self.active(c, g, t):
                        continue
                    x, s = self.v(c, "loss", t, g), self.v(c, "s", t, g)
                    r = self.impedance(c, g, True)
                    cap = self.val(c, g, "s_nom_max") if self.ext(c, g) else self.val(c, g, "s_nom")
                    top = self.val(c, g, "s_max_pu", t) * cap
                    tag = f"{c} {g}, {coord_key(t)}"
                    out.append(ge(x, 0, f"loss >= 0 {tag}"))
                    out.append(le(x, r * top * top, f"loss upper {tag}"))
                    for j in range(1, k + 1):
                        q = top * j / k
                        for sg in (1, -1):
                            out.append(ge(x, r * q * q + 2 * r * q * (sg * s - q),
                                          f"loss above tangent {j} {sg} {tag}"))
        return out

    # ---- cost ---------------------------------------------------------------------------
    def period_weight(self, t, col="objective"):
        if not self.multi:
            return 1
        v = self.n.investment_period_weightings[col].loc[t[0]]
        return v.item() if isinstance(v, np.generic) else v

    def opex_terms(self):
        tot = 0
        items = {"Generator": "p", "Link": "p", "StorageUnit": "p_dispatch", "Store": "p"}
        for t in self.sns:
            w = self.w("objective", t) * self.period_weight(t)
            for c, a in items.items():
                for g in self.names(c):
                    x = self.v(c, a, t, g)
                    if x is None:
                        continue
                    tot = tot + w * self.val(c, g, "marginal_cost", t) * x
                    q = self.val(c, g, "marginal_cost_quadratic", t)
                    tot = tot + w * q * x * x
                    if c == "StorageUnit":
                        tot = tot + w * self.val(c, g, "marginal_cost_storage", t) * self.v(c, "state_of_charge", t, g)
                        sp = self.v(c, "spill", t, g)
                        if sp is not None:
                            tot = tot + w * self.val(c, g, "spill_cost", t) * sp
                    if c == "Store":
                        tot = tot + w * self.val(c, g, "marginal_cost_storage", t) * self.v(c, "e", t, g)
                    if self.com(c, g):
                        tot = tot + w * self.val(c, g, "stand_by_cost", t) * self.v(c, "status", t, g)
                        tot = tot + self.val(c, g, "start_up_cost") * self.v(c, "start_up", t, g)
                        tot = tot + self.val(c, g, "shut_down_cost") * self.v(c, "shut_down", t, g)
        return tot

    def capex_weight(self, c, g):
        if not self.multi:
            return 1 if self.val(c, g, "active") else 0
        tot = 0
        for p in dict.fromkeys(t[0] for t in self.sns):
            if self.active_period(c, g, p):
                tot = tot + self.period_weight((p,))
        return tot

    def capex_terms(self, existing=False):
        tot = 0
        for c in NOM:
            for g in self.names(c):
                if self.ext(c, g):
                    x = self.val(c, g, NOM[c]) if existing else self.nomv(c, g)
                    tot = tot + self.capex_weight(c, g) * self.val(c, g, "capital_cost") * x
        return tot

    def all(self):
        out = (self.dispatch() + self.capacity() + self.balance() + self.kvl() + self.storage_units()
               + self.spill() + self.stores() + self.fixed_dispatch() + self.energy_sums()
               + self.commitment() + self.ramps())
        if self.losses:
            out += self.loss_rels()
        return out
