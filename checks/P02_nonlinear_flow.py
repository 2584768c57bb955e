"""The non-linear power flow satisfies the branch model, Kirchhoff's laws and the set points."""

import math

import numpy as np

from checks.P01_linear_flow import B, TABLE, groups
from symx.ctx import Skip
from symx.flow import newton
from symx.formula import And, Bool, eq
from symx.sym import CSym, Sym, tidy

FUNCTIONS = ["network_pf", "_network_prepare_and_run_pf", "_allocate_pf_outputs", "_calculate_controllable_nodal_power_balance",
             "sub_network_pf", "sub_network_pf_singlebus", "newton_raphson_sparse", "calculate_Y", "calculate_dependent_values",
             "apply_transformer_t_model", "find_slack_bus", "find_bus_controls", "determine_network_topology"]
BOUNDS = ("1-4 buses, up to 5 lines and transformers (meshed, parallel, tap changer on either side, phase shifts, shunts, pi and t "
          "models), generators of every control and sign, loads, storage units, stores, shunt impedances and links, any of them "
          "inactive, 1-2 snapshots and subsets, one slack or slack distributed by any of the kinds of weights, fresh and repeated "
          "runs; every value of set points, impedances, voltages, tap ratios, phase shifts and weights")
OUTSIDE = ("whether and where the Newton iteration converges: its linear solves and its stopping rule are taken at their "
           "contract (a root of the mismatch), with the Jacobian compared to the derivative of the mismatch; zero impedances; "
           "sub-networks of direct current with branches; larger networks")
TOL = 1e-6


def build(ctx, br, nb=2, T=1, ones=(), links=(), off=(), series=(), tap=(), side1=(), shift=(), gb=(), model="pi", signs=None,
          vset=None, no_q=False, vseries=False, p_nom=(), p_nom_opt=(), mul=1.0):
    import pypsa

    n = pypsa.Network()
    n.set_snapshots(range(T))
    names = [chr(97 + i) for i in range(nb)]

    def small(name):
        return ctx.real(name, typ=(-0.15, 0.15))

    def weight(name):
        return ctx.real(name, 0, None, strict=True, typ=(0.2, 1.4))

    def volt(name):
        return ctx.real(name, 0, None, strict=True, typ=(0.97, 1.03))

    for i, b in enumerate(names):
        kw = {}
        if vset is None or i in vset:
            kw["v_mag_pu_set"] = [volt(f"vs{b}{t}") for t in range(T)] if vseries else volt(f"vs{b}")
        ctx.add(n, "Bus", b, v_nom=ctx.real(f"v{b}", 0, None, strict=True, typ=(0.9, 1.1)), **kw)
    for k, (kind, i, j) in enumerate(br):
        nm = f"{kind}{k}"
        kw = dict(bus0=names[i], bus1=names[j], x=ctx.real(f"x{k}", 0, None, strict=True, typ=(0.05, 0.15)),
                  r=ctx.real(f"r{k}", 0, None, strict=True, typ=(0.01, 0.05)), active=nm not in off)
        if k in gb:
            kw["g"] = ctx.real(f"bg{k}", typ=(0, 0.05))
            kw["b"] = ctx.real(f"bb{k}", typ=(-0.1, 0.1))
        if kind == "T":
            kw["s_nom"] = ctx.real(f"s{k}", 0, None, strict=True, typ=(0.8, 1.2))
            kw["model"] = model
            kw["tap_side"] = int(k in side1)
            if k in tap:
                kw["tap_ratio"] = ctx.real(f"tap{k}", 0, None, strict=True, typ=(0.96, 1.04))
            if k in shift:
                kw["phase_shift"] = ctx.real(f"phi{k}", typ=(-6, 6))
        ctx.add(n, {"L": "Line", "T": "Transformer"}[kind], nm, **kw)
    for k, (kind, i, *control) in enumerate(ones):
        nm = f"{kind}{k}"
        kw = dict(bus=names[i], active=nm not in off)
        if kind == "H":
            kw["g"] = ctx.real(f"g{k}", typ=(0, 0.1))
            kw["b"] = ctx.real(f"b{k}", typ=(-0.1, 0.1))
        else:
            if kind == "G" and series == "weights":
                kw["p_set"] = [weight(f"p{k}{t}") for t in range(T)] if T > 1 else weight(f"p{k}")
            else:
                kw["p_set"] = [small(f"p{k}{t}") for t in range(T)] if nm in series else small(f"p{k}")
            if not no_q:
                kw["q_set"] = [small(f"q{k}{t}") for t in range(T)] if nm in series else small(f"q{k}")
        if kind == "G":
            if nm in p_nom:
                kw["p_nom"] = weight(f"pn{k}")
            if nm in p_nom_opt:
                kw["p_nom_opt"] = weight(f"po{k}")
        if control:
            kw["control"] = control[0]
        if signs and nm in signs:
            kw["sign"] = signs[nm]
        ctx.add(n, TABLE[kind], nm, **kw)
    for k, ports in enumerate(links):
        nm = f"K{k}"
        kw = dict(bus0=names[ports[0]], bus1=names[ports[1]], active=nm not in off, p_set=small(f"pk{k}"),
                  efficiency=ctx.real(f"e{k}", typ=(0.5, 1)))
        for q, b in enumerate(ports[2:], 2):
            kw[f"bus{q}"] = names[b]
            kw[f"efficiency{q}"] = ctx.real(f"e{k}.{q}", typ=(0.2, 0.6))
        ctx.add(n, "Link", nm, **kw)
    ctx.finish(n)
    return n


def at(n, comp, attr, s, k):
    """value in effect of an input."""
    c = n.components[comp]
    fr = c.dynamic.get(attr)
    if fr is not None and k in fr.columns:
        return fr.at[s, k]
    return c.static.at[k, attr]


def res(n, comp, attr, s, k):
    fr = n.components[comp].dynamic[attr]
    return fr.at[s, k] if k in fr.columns else 0.0


def inputs(n):
    rec = {"control": dict(n.generators.control)}
    for comp in ("Generator", "Load", "StorageUnit", "Store"):
        for k in n.components[comp].static.index:
            for s in n.snapshots:
                rec[k, s] = at(n, comp, "p_set", s, k), at(n, comp, "q_set", s, k)
    for k in n.links.index:
        for s in n.snapshots:
            p = at(n, "Link", "p_set", s, k)
            rec[k, s, 0] = p
            for col in n.links.columns:
                if col.startswith("bus") and col != "bus0" and n.links.at[k, col] != "":
                    q = col[3:]
                    rec[k, s, int(q)] = -(at(n, "Link", "efficiency" + ("" if q == "1" else q), s, k) * p)
    for b in n.buses.index:
        for s in n.snapshots:
            rec["v", b, s] = at(n, "Bus", "v_mag_pu_set", s, b)
    return rec


def cplx(ctx, a, b):
    return CSym(a, b) if ctx.sym else complex(a, b)


def expj(ctx, ang):
    if not ctx.sym:
        return np.exp(1j * ang)
    ang = Sym.lift(ang)
    return CSym(ang.cos(), ang.sin())


def same(a, b, name):
    """equality of complex values."""
    d = a - b
    if isinstance(d, CSym):
        d = CSym(tidy(d.re), tidy(d.im))
        return And(eq(d.re, 0), eq(d.im, 0), name=name)
    return And(eq(a.real, b.real), eq(a.imag, b.imag), name=name)


def equal(a, b, name):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return eq(tidy(Sym.lift(a) - Sym.lift(b)), 0, name)
    return eq(a, b, name)


def branch_power(ctx, n, comp, k, V):
    """flows into a branch at both ends, from the equivalent circuit."""
    d = n.components[comp].static.loc[k]
    if comp == "Line":
        base = n.buses.at[d["bus0"], "v_nom"]
        base = base * base
        y = 1 / (cplx(ctx, d["r"], d["x"]) / base)
        ysh = cplx(ctx, d["g"], d["b"]) * base
        tau0 = tau1 = 1.0
        turn = cplx(ctx, 1.0, 0.0)
    else:
        if d["model"] == "pi":
            z = cplx(ctx, d["r"], d["x"]) / d["s_nom"]
            ysh = cplx(ctx, d["g"], d["b"]) * d["s_nom"]
        else:
            z, ysh = cplx(ctx, d["r_pu"], d["x_pu"]), cplx(ctx, d["g_pu"], d["b_pu"])
        y = 1 / z
        tau0, tau1 = (d["tap_ratio"], 1.0) if d["tap_side"] == 0 else (1.0, d["tap_ratio"])
        turn = expj(ctx, d["phase_shift"] * np.pi / 180.0)
    v0, v1 = V[d["bus0"]], V[d["bus1"]]
    # ideal transformers of ratio tau0 exp(j phi) : tau1 around a pi circuit
    i0 = (y + ysh * 0.5) * v0 / (tau0 * tau0) - y * v1 * turn / (tau0 * tau1)
    i1 = (y + ysh * 0.5) * v1 / (tau1 * tau1) - y * v0 * turn.conjugate() / (tau0 * tau1)
    return v0 * i0.conjugate(), v1 * i1.conjugate()


def verify(ctx, n, rec, sns, what, distribute=None, mode="single"):
    goals, given = [], []
    for grp in groups(n):
        gens = [g for g in n.generators.index if n.generators.at[g, "bus"] in grp and n.generators.at[g, "active"]]
        named = [g for g in gens if rec["control"][g] == "Slack"]
        sg = sb = None
        if gens:
            after = [g for g in gens if n.generators.at[g, "control"] == "Slack"]
            ok = len(after) == 1 and (not named or after[0] in named)
            goals.append(Bool(ok, f"{what} one slack generator of {grp}"))
            if not ok:
                continue
            sg = after[0]
            sb = n.generators.at[sg, "bus"]
        elif len(grp) > 1:
            sb = [b for b in grp if n.buses.at[b, "control"] == "Slack"]
            goals.append(Bool(len(sb) == 1, f"{what} one slack bus of {grp}"))
            if len(sb) != 1:
                continue
            sb = sb[0]
        else:
            sb = grp[0]
        pv = {n.generators.at[g, "bus"] for g in gens if n.generators.at[g, "control"] == "PV"} - {sb}
        for s in sns:
            V = {b: res(n, "Bus", "v_mag_pu", s, b) * expj(ctx, res(n, "Bus", "v_ang", s, b)) for b in grp}
            goals.append(eq(res(n, "Bus", "v_ang", s, sb), 0, f"{what} {s} angle of the slack bus"))
            for b in [sb, *sorted(pv)]:
                goals.append(eq(res(n, "Bus", "v_mag_pu", s, b), rec["v", b, s], f"{what} {s} voltage at {b}"))
            inj = {b: (0.0, 0.0) for b in grp}
            dev = {}
            for comp in ("Generator", "Load", "StorageUnit", "Store", "ShuntImpedance"):
                df = n.components[comp].static
                for k in df.index:
                    b = df.at[k, "bus"]
                    if b not in grp:
                        continue
                    p, q = res(n, comp, "p", s, k), res(n, comp, "q", s, k)
                    if not df.at[k, "active"]:
                        goals += [eq(p, 0, f"{what} {s} {k} is off"), eq(q, 0, f"{what} {s} {k} is off (q)")]
                        continue
                    sign = df.at[k, "sign"]
                    if comp == "ShuntImpedance":
                        base = n.buses.at[b, "v_nom"] * n.buses.at[b, "v_nom"]
                        v2 = res(n, "Bus", "v_mag_pu", s, b)
                        v2 = v2 * v2
                        goals += [eq(p, df.at[k, "g"] * base * v2, f"{what} {s} {k} p"),
                                  eq(q, df.at[k, "b"] * base * v2, f"{what} {s} {k} q")]
                        inj[b] = inj[b][0] + sign * p, inj[b][1] - sign * q
                        continue
                    inj[b] = inj[b][0] + sign * p, inj[b][1] + sign * q
                    p0, q0 = rec[k, s]
                    if comp == "Generator":
                        dev[k] = sign * (p - p0)
                    if not (comp == "Generator" and (k == sg or distribute)):
                        goals.append(equal(p, p0, f"{what} {s} {k} p follows its set point"))
                    regulates = comp == "Generator" and (b == sb or b in pv)
                    if not regulates:
                        goals.append(equal(q, q0, f"{what} {s} {k} q follows its set point"))
            # one generator of a bus of controlled voltage takes the reactive power
            for b in [sb, *sorted(pv)]:
                here = [g for g in gens if n.generators.at[g, "bus"] == b]
                odd = []
                for g in here:
                    d = res(n, "Generator", "q", s, g) - rec[g, s][1]
                    if not (d == 0 if not ctx.sym else Sym.lift(d).is_const() and Sym.lift(d).cval() == 0):
                        odd.append(g)
                goals.append(Bool(len(odd) <= 1, f"{what} {s} reactive power of {b} by {odd}"))
            for k in n.links.index:
                for col in n.links.columns:
                    if col.startswith("bus") and n.links.at[k, col] in grp:
                        b = n.links.at[k, col]
                        inj[b] = inj[b][0] - res(n, "Link", f"p{col[3:]}", s, k), inj[b][1]
            out = {b: cplx(ctx, 0.0, 0.0) for b in grp}
            for comp in ("Line", "Transformer"):
                df = n.components[comp].static
                for k in df.index:
                    if df.at[k, "bus0"] not in grp:
                        continue
                    got = [cplx(ctx, res(n, comp, f"p{i}", s, k), res(n, comp, f"q{i}", s, k)) for i in (0, 1)]
                    if not df.at[k, "active"]:
                        for i in (0, 1):
                            goals.append(same(got[i], cplx(ctx, 0.0, 0.0), f"{what} {s} {k} end {i} is off"))
                        continue
                    want = branch_power(ctx, n, comp, k, V)
                    for i in (0, 1):
                        goals.append(same(got[i], want[i], f"{what} {s} {k} end {i}"))
                        b = df.at[k, f"bus{i}"]
                        out[b] = out[b] + got[i]
            if sg is not None:
                for b in grp:
                    goals.append(same(cplx(ctx, *inj[b]), out[b], f"{what} {s} Kirchhoff at {b}"))
            else:  # nothing can balance: the other buses are
                for b in grp:
                    if b != sb:
                        goals.append(same(cplx(ctx, *inj[b]), out[b], f"{what} {s} Kirchhoff at {b}"))
            if distribute:
                w = distribute(n, grp, gens, s)
                bw, bd = {}, {}
                for g in gens:
                    b = n.generators.at[g, "bus"]
                    bw[b] = bw.get(b, 0.0) + w[g]
                    bd[b] = bd.get(b, 0.0) + dev[g]
                    for h in gens:
                        if h < g and n.generators.at[h, "bus"] == b:
                            goals.append(equal(dev[g] * w[h], dev[h] * w[g], f"{what} {s} shares of {g} and {h}"))
                for b in bw:
                    for c in bw:
                        if b < c:
                            goals.append(equal(bd[b] * bw[c], bd[c] * bw[b], f"{what} {s} shares of {b} and {c}"))
                given += multiples(ctx, bw.values())
    for k in n.links.index:
        for s in sns:
            for col in n.links.columns:
                if col.startswith("bus") and n.links.at[k, col] != "":
                    q = int(col[3:])
                    want = rec[k, s, q] if n.links.at[k, "active"] else 0
                    goals.append(eq(res(n, "Link", f"p{q}", s, k), want, f"{what} {k} p{q} at {s}"))
    ctx.prove(what, goals, given)


def multiples(ctx, weights):
    """the equations of the root times the weights."""
    if not ctx.sym:
        return []
    out = []
    for f in ctx.eng.pc:
        if id(f) in ctx.eng.contracts:
            out.append(eq(tidy(f.s), 0))
            out += [eq(tidy(f.s * w), 0) for w in weights if isinstance(w, Sym)]
    return out


def shares(kind, weights):
    """weights of the generators, by the documentation."""

    def f(n, grp, gens, s):
        bus = n.generators.bus
        if kind == "p_set":
            return {g: at(n, "Generator", "p_set", s, g) for g in gens}
        if kind in ("p_nom", "p_nom_opt"):
            return {g: n.generators.at[g, kind] for g in gens}
        if kind == "generators":
            return {g: weights.get(g, 0.0) for g in gens}
        out = {}
        for g in gens:  # by bus, then by p_nom, or evenly
            here = [h for h in gens if bus[h] == bus[g]]
            pn = {h: n.generators.at[h, "p_nom"] for h in here}
            if all(not isinstance(v, Sym) and v == 0 for v in pn.values()):
                pn = dict.fromkeys(here, 1.0)
            tot = sum(pn.values())
            out[g] = weights.get(bus[g], 0.0) * pn[g] / tot
        return out

    return f


OUT = {"Generator": ("p", "q"), "Load": ("p", "q"), "StorageUnit": ("p", "q"), "Store": ("p", "q"),
       "ShuntImpedance": ("p", "q"), "Line": ("p0", "p1", "q0", "q1"), "Transformer": ("p0", "p1", "q0", "q1"),
       "Link": ("p0", "p1", "p2"), "Bus": ("p", "q", "v_ang", "v_mag_pu")}


def outputs(n, sns):
    o = {}
    for comp, attrs in OUT.items():
        for a in attrs:
            fr = n.components[comp].dynamic.get(a)
            if fr is not None:
                for s in sns:
                    for k in fr.columns:
                        o[comp, k, a, s] = fr.at[s, k]
    return o


def flow(ctx, weights=None, as_series=False, sel=None, again=None, seed=False, sub=False, jacobian=True, **kw):
    import pandas as pd

    n = build(ctx, **kw)
    kind, w = None, None
    pfkw = {}
    if weights:
        kind, keys = (weights, None) if isinstance(weights, str) else weights
        if keys is not None:
            w = {k: ctx.real(f"w{k}", 0, None, strict=True, typ=(0.2, 1.4)) for k in keys}
            pfkw["slack_weights"] = pd.Series(w, dtype=object if ctx.sym else float) if as_series else dict(w)
        else:
            pfkw["slack_weights"] = kind
        pfkw["distribute_slack"] = True
    dist = shares(kind, w) if weights else None
    rec = inputs(n)
    sns = n.snapshots if sel is None else n.snapshots[list(sel)]

    def run(sns, what):
        kws = dict(pfkw)
        if w is not None and len(groups(n)):
            n.determine_network_topology()
            names = {}
            for sn in n.sub_networks.obj:
                here = set(sn.buses_i()) | set(sn.generators_i())
                names[sn.name] = {k: v for k, v in w.items() if k in here}
                if as_series:
                    names[sn.name] = pd.Series(names[sn.name], dtype=object if ctx.sym else float)
            kws["slack_weights"] = names
        with newton(ctx, jacobian) as st:
            r = n.pf(sns, x_tol=1e-6 if ctx.sym else 1e-11, use_seed=seed, **kws)
        ctx.prove(f"{what} iteration", st.goals)
        conv = r["converged"]
        if not ctx.sym and not bool(np.asarray(conv.loc[sns].values, dtype=bool).all()):
            raise Skip("not converged")
        verify(ctx, n, rec, sns, what, dist)

    run(sns, "run")
    if sel is not None:
        rest = [s for s in n.snapshots if s not in list(sns)]
        before = outputs(n, sns)
        run(rest, "rest")
        after = outputs(n, sns)
        ctx.prove("kept", [eq(after[k], v, f"kept {k}") for k, v in before.items() if k in after])
    if again:
        for comp, k, a, v in again:
            n.components[comp].static.at[k, a] = v
        rec = inputs(n)
        run(n.snapshots, "second")
    ctx.reach()


TWO = (("G", 0), ("D", 1))
ALL2 = (("G", 0, "Slack"), ("G", 1), ("D", 1), ("U", 1), ("S", 0), ("H", 1))
TRI = B("L01", "L12", "L20")


def jobs(tier):
    o = []

    def add(name, **kw):
        kw.setdefault("br", B("L01"))
        kw.setdefault("ones", TWO)
        o.append((name, flow, kw))

    add("line")
    add("line-shunts", gb=(0,))
    add("line-reversed", br=B("L10"), gb=(0,))
    add("all", ones=ALL2)
    add("pv", ones=(("G", 0, "Slack"), ("G", 1, "PV"), ("D", 1)))
    add("pv-two", ones=(("G", 0, "Slack"), ("G", 1, "PV"), ("G", 1, "PV"), ("G", 1), ("D", 1)))
    add("pv-first", ones=(("G", 1, "PV"), ("G", 0, "Slack"), ("D", 1)))
    add("slack-pv-same", ones=(("G", 0, "PV"), ("G", 0, "Slack"), ("D", 1)))
    add("signs", ones=(("G", 0), ("G", 1, "PV"), ("D", 1), ("U", 1), ("S", 0)), signs=dict(G0=-1, G1=-0.5, D2=1, U3=-1, S4=2))
    for side in (0, 1):
        add(f"trafo-tap{side}", br=B("T01"), tap=(0,), side1=(0,) if side else ())
        add(f"trafo-full{side}", br=B("T10"), tap=(0,), shift=(0,), gb=(0,), side1=(0,) if side else ())
    add("trafo-t", br=B("T01"), model="t", tap=(0,))
    add("trafo-line", br=B("L01", "T12"), nb=3, tap=(1,), ones=(("G", 0), ("D", 2)))
    add("parallel", br=B("L01", "T01"), tap=(1,))
    add("parallel-lines", br=B("L01", "L10"), gb=(1,))
    add("triangle", br=TRI, nb=3, ones=(("G", 0), ("D", 1), ("D", 2)))
    add("triangle-pv", br=TRI, nb=3, ones=(("G", 0), ("G", 1, "PV"), ("D", 2)))
    add("radial-pv", br=B("L01", "L12"), nb=3, ones=(("G", 1, "Slack"), ("G", 0, "PV"), ("D", 2), ("H", 2)))
    add("links", links=((0, 1),), ones=TWO)
    add("links3", br=B("L01"), nb=3, links=((0, 2, 1), (2, 1)), ones=(("G", 0), ("D", 1), ("G", 2), ("D", 2)), off=("K1",))
    add("islands", br=B("L01", "L23"), nb=4, ones=(("G", 1), ("D", 0), ("G", 2, "PV"), ("D", 3)))
    add("single", br=(), nb=1, ones=(("G", 0), ("D", 0), ("U", 0), ("S", 0)))
    add("single-shunt", br=(), nb=1, ones=(("G", 0), ("D", 0), ("H", 0)))
    add("single-two", br=(), nb=2, ones=(("G", 0), ("D", 0), ("G", 1, "PV"), ("G", 1, "Slack"), ("D", 1)), signs=dict(G3=-1))
    add("single-and-line", br=B("L01"), nb=3, ones=(("G", 0), ("D", 1), ("G", 2), ("D", 2)), links=((0, 2),))
    add("no-generator", br=B("L01"), ones=(("D", 0), ("D", 1), ("U", 1)))
    for k in (1, 2, 3, 4, 5):
        add(f"off{k}", ones=ALL2, off=(f"{ALL2[k][0]}{k}",))
    add("off-pv", ones=(("G", 0, "Slack"), ("G", 1, "PV"), ("D", 1)), off=("G1",))
    add("off-slack", ones=(("G", 0, "Slack"), ("G", 1), ("D", 0)), off=("G0",))
    add("off-line", br=B("L01", "L01"), off=("L1",))
    add("off-trafo", br=B("L01", "T01"), off=("T1",), tap=(1,))
    add("off-only-line", br=B("L01", "T01"), off=("L0",), tap=(1,))
    add("off-bridge", br=B("L01", "L12"), nb=3, off=("L1",), ones=(("G", 0), ("D", 1), ("D", 2), ("G", 2)))
    add("series", T=2, series=("G0", "D1"), ones=(("G", 0), ("D", 1), ("G", 1, "PV")), vseries=True)
    add("part", T=2, series=("D1",), sel=(1,), links=((0, 1),))
    add("part-first", T=2, series=("D1",), sel=(0,), ones=(("G", 0), ("D", 1), ("H", 1), ("U", 1)), off=("U3",))
    add("part-voltage", T=2, sel=(1,), vseries=True, ones=(("G", 0), ("D", 1), ("G", 1, "PV")))
    add("part-single", T=2, sel=(1,), vseries=True, br=(), nb=1, series=("D1",), ones=(("G", 0), ("D", 0), ("H", 0)))
    add("default-voltage", vset=())
    add("again", again=[("Load", "D1", "p_set", 0.05)])
    add("again-seed", again=[("Load", "D1", "p_set", 0.05)], seed=True)
    add("again-line-off", br=B("L01", "L10"), again=[("Line", "L1", "active", False)])
    add("again-load-off", ones=ALL2, again=[("Load", "D2", "active", False), ("ShuntImpedance", "H5", "active", False)])
    add("again-pv", ones=(("G", 0, "Slack"), ("G", 1, "PV"), ("D", 1)), again=[("Generator", "G1", "control", "PQ")])
    add("again-control", ones=(("G", 0, "Slack"), ("G", 1, "PQ"), ("D", 1)), again=[("Generator", "G1", "control", "PV")])
    add("again-slack", ones=(("G", 0, "Slack"), ("G", 1, "PQ"), ("D", 1)),
        again=[("Generator", "G0", "control", "PQ"), ("Generator", "G1", "control", "Slack")])
    # slack distributed over several generators
    GG = (("G", 0, "Slack"), ("G", 1), ("D", 1))
    G3 = (("G", 0, "Slack"), ("G", 1, "PV"), ("G", 1), ("D", 1))
    add("dist-p_set", ones=GG, weights="p_set", series="weights")
    add("dist-p_nom", ones=GG, weights="p_nom", p_nom=("G0", "G1"))
    add("dist-p_nom_opt", ones=GG, weights="p_nom_opt", p_nom_opt=("G0", "G1"), p_nom=("G0",))
    add("dist-p_nom-one", ones=GG, weights="p_nom", p_nom=("G1",))
    add("dist-bus", ones=GG, weights=("buses", ("a", "b")))
    add("dist-bus-one", ones=GG, weights=("buses", ("b",)))
    add("dist-gen", ones=GG, weights=("generators", ("G0", "G1")))
    add("dist-gen-one", ones=GG, weights=("generators", ("G1",)), as_series=True)
    add("dist3-p_set", ones=G3, weights="p_set", series="weights")
    add("dist3-p_set-T", T=2, ones=G3, weights="p_set", series="weights")
    add("dist3-part", T=2, ones=G3, weights="p_set", series="weights", sel=(1,))
    add("dist-single-T", T=2, br=(), nb=1, ones=(("G", 0), ("G", 0), ("D", 0)), weights="p_set", series="weights", sel=(1,))
    add("dist3-p_nom", ones=G3, weights="p_nom", p_nom=("G0", "G1", "G2"))
    add("dist3-p_nom_opt", ones=G3, weights="p_nom_opt", p_nom_opt=("G0", "G1", "G2"))
    add("dist3-bus", ones=G3, weights=("buses", ("a", "b")), as_series=True)
    add("dist3-bus-p_nom", ones=G3, weights=("buses", ("a", "b")), p_nom=("G1", "G2"))
    add("dist3-gen", ones=G3, weights=("generators", ("G0", "G1", "G2")))
    add("dist3-off", ones=G3, weights="p_nom", p_nom=("G0", "G1", "G2"), off=("G2",))
    add("dist3-off-p_set", ones=G3, weights="p_set", series="weights", off=("G1",))
    add("dist-sign", ones=G3, weights="p_nom", p_nom=("G0", "G1", "G2"), signs=dict(G1=-1))
    add("dist-single", br=(), nb=1, ones=(("G", 0), ("G", 0), ("D", 0)), weights="p_nom", p_nom=("G0", "G1"))
    add("dist-single-p_set", br=(), nb=1, ones=(("G", 0), ("G", 0), ("D", 0)), weights="p_set", series="weights")
    add("dist-single-gen", br=(), nb=1, ones=(("G", 0), ("G", 0), ("D", 0)), weights=("generators", ("G0", "G1")))
    add("dist-single-bus", br=(), nb=1, ones=(("G", 0), ("G", 0), ("D", 0)), weights=("buses", ("a",)), p_nom=("G0", "G1"))
    add("dist-islands", br=B("L01", "L23"), nb=4, ones=(("G", 0), ("G", 1), ("D", 0), ("G", 2), ("G", 3), ("D", 3)),
        weights=("generators", ("G0", "G1", "G3", "G4")))
    return o
