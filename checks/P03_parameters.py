"""Electrical parameters follow from the types and the models chosen."""

import math

from symx.data import diff, labels, same, tables
from symx.formula import And, Bool, Or, eq, ge, le

FUNCTIONS = ["calculate_dependent_values", "apply_line_types", "apply_transformer_types", "apply_transformer_t_model",
             "wye_to_delta", "update_linkports_component_attrs"]
BOUNDS = ("1-4 lines and transformers, with own or standard types or none, models pi and t, own parameters on the others, 2 bus "
          "voltages; every value of lengths, parallel circuits, type parameters, ratings, tap positions and voltages; one or "
          "repeated calculations with changed inputs")
OUTSIDE = "num_parallel and s_nom of zero; short-circuit voltages below their real part"

TOL = 1e-9


def near(a, b, name, size):
    """a and b agree up to the rounding of constants."""
    return And(le(a - b, TOL * size, name), ge(a - b, -TOL * size, name), name=name)


def cadd(a, b):
    return a[0] + b[0], a[1] + b[1]


def cmul(a, b):
    return a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]


def make(ctx, lines=(), trafos=(), types=("own",), shunts=False, extra=False, i0=None):
    """lines: (type or "", buses); trafos: (type or "", buses, model)."""
    import pypsa

    n = pypsa.Network()
    n.set_snapshots(range(1))
    for b in "abc":
        ctx.add(n, "Bus", b, v_nom=ctx.pos(f"v{b}"), carrier="DC" if b == "c" else "AC")
    n.add("Carrier", "other")
    for t in {x[0] for x in lines if x[0].startswith("own")}:
        ctx.add(n, "LineType", t, f_nom=ctx.pos(f"f.{t}"), r_per_length=ctx.pos(f"rl.{t}"), x_per_length=ctx.pos(f"xl.{t}"),
                c_per_length=ctx.pos(f"cl.{t}"))
    for t in {x[0] for x in trafos if x[0].startswith("own")}:
        vscr = ctx.pos(f"vscr.{t}")
        ctx.add(n, "TransformerType", t, s_nom=ctx.pos(f"st.{t}"), vscr=vscr, vsc=vscr + ctx.pos(f"vscx.{t}"),
                pfe=ctx.pos(f"pfe.{t}"), i0=ctx.pos(f"i0.{t}"), phase_shift=ctx.real(f"phi.{t}"), tap_side=int(t[3:] or 0) % 2,
                tap_neutral=ctx.real(f"tn.{t}"), tap_step=ctx.real(f"ts.{t}"))
    for k, (t, buses) in enumerate(lines):
        ctx.add(n, "Line", f"L{k}", bus0=buses[0], bus1=buses[1], type=t, length=ctx.pos(f"len{k}"),
                num_parallel=ctx.pos(f"np{k}"), x=ctx.real(f"x{k}"), r=ctx.real(f"r{k}"), g=ctx.real(f"g{k}"),
                b=ctx.real(f"b{k}"), s_nom=ctx.pos(f"s{k}"), carrier="other" if k == 1 else "")
    for k, (t, buses, model) in enumerate(trafos):
        kw = dict(x=ctx.pos(f"tx{k}"), r=ctx.pos(f"tr{k}"), g=ctx.pos(f"tg{k}"), b=ctx.real(f"tb{k}"))
        if model == "t0":
            kw["g"] = kw["b"] = 0.0
        ctx.add(n, "Transformer", f"T{k}", bus0=buses[0], bus1=buses[1], type=t, model=model[0] if model == "t0" else model,
                num_parallel=ctx.pos(f"tnp{k}"), tap_position=ctx.real(f"tp{k}"), s_nom=ctx.pos(f"ts{k}"),
                tap_ratio=ctx.pos(f"tt{k}"), tap_side=k % 2, phase_shift=ctx.real(f"tphi{k}"), **kw)
    if shunts:
        ctx.add(n, "ShuntImpedance", "h", bus="b", g=ctx.real("hg"), b=ctx.real("hb"))
        ctx.add(n, "ShuntImpedance", "h2", bus="a", g=ctx.real("hg2"), b=ctx.real("hb2"), active=False)
    if extra:
        ctx.add(n, "Link", "k", bus0="a", bus1="c")
        ctx.add(n, "Link", "k2", bus0="c", bus1="b", carrier="other")
        ctx.add(n, "Store", "s", bus="c")
        ctx.add(n, "Store", "s2", bus="c", carrier="other")
        ctx.add(n, "Generator", "g", bus="a")
    ctx.finish(n)
    return n


NEW = {"Line": {"v_nom", "x_pu", "r_pu", "b_pu", "g_pu", "x_pu_eff", "r_pu_eff", "carrier"},
       "Transformer": {"x_pu", "r_pu", "b_pu", "g_pu", "x_pu_eff", "r_pu_eff"},
       "ShuntImpedance": {"v_nom", "b_pu", "g_pu"}, "Link": {"carrier"}, "Store": {"carrier"}}
TYPED = {"Line": {"r", "x", "b"}, "Transformer": {"r", "x", "g", "b", "phase_shift", "s_nom", "tap_side", "tap_ratio"}}


def verify(ctx, n, before, what):
    """before: tables(n) ahead of the calculation."""
    goals = []
    lt, tt = n.line_types, n.transformer_types
    v = n.buses.v_nom

    def was(comp, k, a):
        return before[comp, k, a]

    for k in n.lines.index:
        d = n.lines.loc[k]
        t = was("Line", k, "type")
        nm = f"{what} {k}"
        if t != "":
            p, ln = was("Line", k, "num_parallel"), was("Line", k, "length")
            for a in "rx":
                want = lt.at[t, f"{a}_per_length"] * ln
                goals.append(near(d[a] * p, want, f"{nm} {a}", want))
            want = 2 * math.pi * 1e-9 * lt.at[t, "f_nom"] * lt.at[t, "c_per_length"] * ln * p
            goals.append(near(d["b"], want, f"{nm} b", want))
        v0 = v[d["bus0"]]
        goals += [eq(d["v_nom"], v0, f"{nm} v_nom"), eq(d["x_pu"] * v0 * v0, d["x"], f"{nm} x_pu"),
                  eq(d["r_pu"] * v0 * v0, d["r"], f"{nm} r_pu"), eq(d["b_pu"], d["b"] * v0 * v0, f"{nm} b_pu"),
                  eq(d["g_pu"], d["g"] * v0 * v0, f"{nm} g_pu"), eq(d["x_pu_eff"], d["x_pu"], f"{nm} x_pu_eff"),
                  eq(d["r_pu_eff"], d["r_pu"], f"{nm} r_pu_eff")]
    ctx.prove("lines", goals)
    for k in n.transformers.index:
        goals = []
        d = n.transformers.loc[k]
        t = was("Transformer", k, "type")
        nm = f"{what} {k}"
        if t != "":
            ty = tt.loc[t]
            p = was("Transformer", k, "num_parallel")
            s = ty["s_nom"]
            r, x = d["r"] * p, d["x"] * p
            goals += [eq(d["s_nom"], s, f"{nm} s_nom"), eq(d["phase_shift"], ty["phase_shift"], f"{nm} phase_shift"),
                      eq(d["tap_side"], ty["tap_side"], f"{nm} tap_side"),
                      near(r * 100, ty["vscr"], f"{nm} r", ty["vscr"]), ge(x, 0, f"{nm} x sign")]
            goals.append(near(r * r * 1e4 + x * x * 1e4, ty["vsc"] * ty["vsc"], f"{nm} x", ty["vsc"] * ty["vsc"]))
            # losses and magnetisation, in units of the rated power
            g, b = d["g"], d["b"]
            goals.append(near(g * s * 1000, ty["pfe"] * p, f"{nm} g", ty["pfe"] * p))
            goals.append(le(b, 0, f"{nm} b sign"))
            i2 = ty["i0"] * ty["i0"] * p * p
            big = i2 + 1e4 * g * g
            goals.append(Or(And(near(1e4 * (b * b + g * g), i2, "", big)), And(eq(b, 0), le(i2, 1e4 * g * g + TOL * big)),
                            name=f"{nm} b"))
            step = (was("Transformer", k, "tap_position") - ty["tap_neutral"]) * ty["tap_step"]
            goals.append(eq((d["tap_ratio"] - 1) * 100, step, f"{nm} tap_ratio"))
        s = d["s_nom"]
        goals += [eq(d["x_pu_eff"] * s, d["x"] * d["tap_ratio"], f"{nm} x_pu_eff"),
                  eq(d["r_pu_eff"] * s, d["r"] * d["tap_ratio"], f"{nm} r_pu_eff")]
        z, y = (d["r"] / s, d["x"] / s), (d["g"] * s, d["b"] * s)
        zp, yp = (d["r_pu"], d["x_pu"]), (d["g_pu"], d["b_pu"])
        if d["model"] == "pi":
            for a, w, g in (("r", z[0], zp[0]), ("x", z[1], zp[1]), ("g", y[0], yp[0]), ("b", y[1], yp[1])):
                goals.append(eq(g, w, f"{nm} {a}_pu"))
        else:  # the same two-port: A = D = 1 + z y / 2 and B
            zy = cmul(z, y)
            a_t = zy
            a_p = cmul(zp, yp)
            b_t = cadd(z, (cmul(z, zy)[0] / 4, cmul(z, zy)[1] / 4))
            for i, part in enumerate(("re", "im")):
                goals.append(eq(zp[i], b_t[i], f"{nm} two-port B {part}"))
                goals.append(eq(a_p[i], a_t[i], f"{nm} two-port A {part}"))
        ctx.prove(f"transformer {k}", goals)
    goals = []
    for k in n.shunt_impedances.index:
        d = n.shunt_impedances.loc[k]
        vb = v[d["bus"]]
        goals += [eq(d["v_nom"], vb, f"{what} {k} v_nom"), eq(d["g_pu"], d["g"] * vb * vb, f"{what} {k} g_pu"),
                  eq(d["b_pu"], d["b"] * vb * vb, f"{what} {k} b_pu")]
    for comp, at in (("Line", "bus0"), ("Link", "bus0"), ("Store", "bus")):
        df = n.components[comp].static
        for k in df.index:
            c = was(comp, k, "carrier")
            want = c if c != "" else n.buses.at[df.at[k, at], "carrier"]
            goals.append(Bool(df.at[k, "carrier"] == want, f"{what} {k} carrier {df.at[k, 'carrier']} for {want}"))
    # everything else is as it was
    for key, val in tables(n).items():
        if len(key) == 3 and key[0] in n.all_components:
            comp, k, a = key
            if a in NEW.get(comp, ()):
                continue
            if a in TYPED.get(comp, ()) and before.get((comp, k, "type"), "") != "":
                continue
            if key in before and not isinstance(val, (list, set)):
                goals.append(same(val, before[key], f"{what} {comp} {k} {a} kept"))
    ctx.prove("rest", goals)


def run(ctx, change=(), flow=False, **kw):
    n = make(ctx, **kw)
    for step in range(1 + len(change) + 1):
        before = tables(n)
        if flow:
            n.determine_network_topology()
            n.lpf()
        else:
            n.calculate_dependent_values()
        verify(ctx, n, before, f"run {step}")
        if step < len(change):
            comp, k, a, val = change[step]
            df = n.components[comp].static
            df.at[k, a] = val
        if step == len(change):
            once = tables(n)
    ctx.prove("again", diff(tables(n), once, "repeated"))
    ctx.reach()


def unknown(ctx, comp):
    n = make(ctx, lines=[("own", "ab")], trafos=[("own", "ab", "pi")])
    n.components[comp].static["type"] = "no such type"
    before = tables(n)
    try:
        n.calculate_dependent_values()
        ok = False
    except ValueError:
        ok = True
    ctx.prove("unknown", [Bool(ok, "unknown types are refused")] + [
        same(v, before[k], f"{k} kept") for k, v in tables(n).items()
        if k in before and k[0] == comp and not isinstance(v, (list, set))])
    ctx.reach()


def jobs(tier):
    import pandas as pd

    from symx.runner import REPO

    o = []

    def add(name, **kw):
        o.append((name, run, kw))

    add("line", lines=[("own", "ab")])
    add("line-free", lines=[("", "ab")])
    add("lines-mixed", lines=[("own", "ab"), ("", "ba"), ("own2", "ba")])
    add("lines-shared", lines=[("own", "ab"), ("own", "ba"), ("", "cc")])
    add("lines-last", lines=[("", "ab"), ("", "ba"), ("own", "cb")])
    add("line-length", lines=[("own", "ab"), ("own", "ba")], change=[("Line", "L0", "length", 3.5)])
    add("line-parallel", lines=[("own", "ab"), ("", "ba")], change=[("Line", "L0", "num_parallel", 2.5)])
    add("line-retyped", lines=[("own", "ab"), ("own2", "ba")], change=[("Line", "L0", "type", "own2")])
    add("line-untyped", lines=[("own", "ab"), ("own", "ba")], change=[("Line", "L0", "type", "")])
    add("line-x", lines=[("", "ab"), ("own", "ba")], change=[("Line", "L0", "x", 1.5)])
    add("line-voltage", lines=[("own", "ab"), ("", "ba")], change=[("Bus", "a", "v_nom", 110.0)])
    add("rest", lines=[("own", "ab"), ("", "ba"), ("", "cc")], shunts=True, extra=True)
    for m in ("pi", "t", "t0"):
        add(f"trafo-{m}", trafos=[("", "ab", m)])
    add("trafos-models", trafos=[("", "ab", "t"), ("", "ba", "pi"), ("", "ab", "t0")])
    add("trafo-typed", trafos=[("own", "ab", "pi")])
    add("trafo-typed-1", trafos=[("own1", "ab", "pi")])
    add("trafos-mixed", trafos=[("own", "ab", "pi"), ("", "ba", "pi"), ("own1", "ba", "pi")])
    add("trafos-last", trafos=[("", "ab", "pi"), ("", "ba", "t"), ("own1", "ba", "pi")])
    add("trafo-tap", trafos=[("own", "ab", "pi"), ("own", "ba", "pi")], change=[("Transformer", "T0", "tap_position", -2)])
    add("trafo-parallel", trafos=[("own", "ab", "pi")], change=[("Transformer", "T0", "num_parallel", 2.0)])
    add("trafo-s", trafos=[("", "ab", "pi"), ("own", "ba", "pi")], change=[("Transformer", "T0", "s_nom", 40.0)])
    add("trafo-model", trafos=[("", "ab", "pi"), ("", "ba", "pi")], change=[("Transformer", "T1", "model", "t")])
    add("trafo-untyped", trafos=[("own", "ab", "pi"), ("own", "ba", "pi")], change=[("Transformer", "T1", "type", "")])
    add("both", lines=[("own", "ab"), ("", "ba")], trafos=[("own", "ab", "pi"), ("", "ba", "t")], shunts=True, extra=True)
    for c in ("Line", "Transformer"):
        o.append((f"unknown-{c}", unknown, dict(comp=c)))
    d = REPO / "pypsa" / "data" / "standard_types"
    lt = list(pd.read_csv(d / "line_types.csv", index_col=0).index)
    tt = list(pd.read_csv(d / "transformer_types.csv", index_col=0).index)
    k = 8 if tier == "quick" else 4
    for i in range(0, len(lt), k):
        add(f"standard-lines-{i}", lines=[(t, "ab") for t in lt[i:i + k]])
    for i in range(0, len(tt), k):
        add(f"standard-trafos-{i}", trafos=[(t, "ab", "pi") for t in tt[i:i + k]])
    if tier == "thorough":
        for i in range(0, len(tt)):
            add(f"standard-trafo-t-{i}", trafos=[(tt[i], "ba", "t")])
        add("trafo-typed-t", trafos=[("own", "ab", "t")])
        add("trafos-t", trafos=[("", "ab", "t"), ("own", "ba", "t"), ("", "ab", "t0"), ("own1", "ba", "t")])
    return o
