"""The linear power flow obeys Kirchhoff's laws."""

import numpy as np

from symx.data import labels, same, tables
from symx.formula import Bool, eq

FUNCTIONS = ["network_lpf", "_network_prepare_and_run_pf", "sub_network_lpf", "calculate_B_H", "_allocate_pf_outputs",
             "find_slack_bus", "find_bus_controls", "calculate_dependent_values", "determine_network_topology",
             "incidence_matrix", "get_switchable_as_dense", "SubNetwork.iterate_components"]
BOUNDS = ("1-5 buses, up to 7 lines and transformers (meshed, parallel, either orientation), AC and DC, up to 3 "
          "sub-networks, generators of every control, loads, storage, stores, shunts and links with up to 3 outputs, any of "
          "them switched off, 1-2 snapshots and subsets of them, fresh and repeated runs; every value of set points, "
          "efficiencies, impedances, voltages, tap ratios and phase shifts")
OUTSIDE = ("zero impedances; larger networks; a singular susceptance matrix (negative impedances cancelling); "
           "the sparse solve itself is taken at its contract (A x = b) and validated on floats")

TABLE = {"G": "Generator", "D": "Load", "U": "StorageUnit", "S": "Store", "H": "ShuntImpedance"}


def build(ctx, br, nb=3, T=1, ones=(), links=(), off=(), series=(), carriers="", shift=(), tap=(), signs=None, eq_v=True):
    """br: (kind, bus0, bus1); ones: (type, bus[, control]); links: buses of the ports."""
    import pypsa

    n = pypsa.Network()
    n.set_snapshots(range(T))
    names = [chr(97 + i) for i in range(nb)]
    car = {"A": "AC", "D": "DC", "h": "heat"}
    for i, b in enumerate(names):
        c = car[(carriers or "A" * nb)[i]]
        ctx.add(n, "Bus", b, carrier=c, v_nom=ctx.pos(f"v{c}" if eq_v else f"v{b}"))
    for k, (kind, i, j) in enumerate(br):
        nm = f"{kind}{k}"
        kw = dict(bus0=names[i], bus1=names[j], x=ctx.pos(f"x{k}"), r=ctx.pos(f"r{k}"), active=nm not in off)
        if kind == "T":
            kw["s_nom"] = ctx.pos(f"s{k}")
            kw["model"] = "pi"
            if k in tap:
                kw["tap_ratio"] = ctx.pos(f"tap{k}")
            if k in shift:
                kw["phase_shift"] = ctx.real(f"phi{k}")
        ctx.add(n, {"L": "Line", "T": "Transformer"}[kind], nm, **kw)
    for k, (kind, i, *control) in enumerate(ones):
        nm = f"{kind}{k}"
        kw = dict(bus=names[i], active=nm not in off)
        if kind == "H":
            kw["g"] = ctx.real(f"g{k}")
        else:
            kw["p_set"] = ctx.reals(f"p{k}", T) if nm in series else ctx.real(f"p{k}")
        if control:
            kw["control"] = control[0]
        if signs and nm in signs:
            kw["sign"] = signs[nm]
        ctx.add(n, TABLE[kind], nm, **kw)
    for k, ports in enumerate(links):
        nm = f"K{k}"
        kw = dict(bus0=names[ports[0]], bus1=names[ports[1]], active=nm not in off)
        kw["p_set"] = ctx.reals(f"pk{k}", T) if nm in series else ctx.real(f"pk{k}")
        kw["efficiency"] = ctx.reals(f"e{k}", T) if f"e{k}" in series else ctx.real(f"e{k}")
        for q, b in enumerate(ports[2:], 2):
            kw[f"bus{q}"] = names[b]
            kw[f"efficiency{q}"] = ctx.real(f"e{k}.{q}")
        ctx.add(n, "Link", nm, **kw)
    ctx.finish(n)
    return n


def groups(n):
    """connected components over active lines and transformers."""
    rep = {b: b for b in n.buses.index}

    def find(x):
        while rep[x] != x:
            x = rep[x]
        return x

    for c in ("Line", "Transformer"):
        df = n.components[c].static
        for k in df.index:
            if df.at[k, "active"]:
                a, b = find(df.at[k, "bus0"]), find(df.at[k, "bus1"])
                if a != b:
                    rep[max(a, b)] = min(a, b)
    out = {}
    for b in n.buses.index:
        out.setdefault(find(b), []).append(b)
    return list(out.values())


def inputs(n):
    """set points in effect, read from the tables before the run."""
    rec = {}
    for kind, comp in TABLE.items():
        c = n.components[comp]
        for k in c.static.index:
            for s in n.snapshots:
                if comp == "ShuntImpedance":
                    bus = c.static.at[k, "bus"]
                    rec[k, s] = c.static.at[k, "g"] * n.buses.at[bus, "v_nom"] * n.buses.at[bus, "v_nom"]
                else:
                    rec[k, s] = c.dynamic.p_set.at[s, k] if k in c.dynamic.p_set.columns else c.static.at[k, "p_set"]
    df = n.links
    for k in df.index:
        for s in n.snapshots:
            p = n.links_t.p_set.at[s, k] if k in n.links_t.p_set.columns else df.at[k, "p_set"]
            rec[k, s, 0] = p
            for col in df.columns:
                if col.startswith("bus") and col != "bus0" and df.at[k, col] != "":
                    q = col[3:]
                    at = "efficiency" + ("" if q == "1" else q)
                    e = n.links_t[at].at[s, k] if k in n.links_t[at].columns else df.at[k, at]
                    rec[k, s, int(q)] = -(e * p)
    rec["control"] = dict(n.generators.control)
    return rec


def cell(n, comp, attr, s, k, default=None):
    fr = n.components[comp].dynamic[attr]
    return fr.at[s, k] if k in fr.columns else 0.0


def verify(ctx, n, rec, sns, what, slacks=None):
    goals = []
    comps = groups(n)
    for grp in comps:
        gens = [g for g in n.generators.index if n.generators.at[g, "bus"] in grp and n.generators.at[g, "active"]]
        named = [g for g in gens if rec["control"][g] == "Slack"]
        if gens:
            after = [g for g in gens if n.generators.at[g, "control"] == "Slack"]
            ok = len(after) == 1 and (not named or after[0] in named)
            goals.append(Bool(ok, f"{what} one slack generator of {grp}"))
            if not ok:
                continue
            sg = after[0]
            sb = n.generators.at[sg, "bus"]
        else:
            sg = None
            sb = None
        carrier = n.buses.at[grp[0], "carrier"]
        for s in sns:
            tot = {b: 0.0 for b in grp}  # injection by the components
            for kind, comp in TABLE.items():
                df = n.components[comp].static
                for k in df.index:
                    if df.at[k, "bus"] not in grp:
                        continue
                    p = cell(n, comp, "p", s, k)
                    if not df.at[k, "active"]:
                        goals.append(eq(p, 0, f"{what} {k} at {s} is off"))
                        continue
                    if k != sg:
                        goals.append(eq(p, rec[k, s], f"{what} {k} at {s} follows its set point"))
                    b = df.at[k, "bus"]
                    tot[b] = tot[b] + df.at[k, "sign"] * p
            for k in n.links.index:
                for q in [int(c[3:]) for c in n.links.columns if c.startswith("bus")]:
                    b = n.links.at[k, f"bus{q}"]
                    if b in grp:
                        tot[b] = tot[b] - cell(n, "Link", f"p{q}", s, k)
            out = {b: 0.0 for b in grp}  # power leaving over the branches
            for comp in ("Line", "Transformer"):
                df = n.components[comp].static
                for k in df.index:
                    b0, b1 = df.at[k, "bus0"], df.at[k, "bus1"]
                    if b0 not in grp:
                        continue
                    p0, p1 = cell(n, comp, "p0", s, k), cell(n, comp, "p1", s, k)
                    if not df.at[k, "active"]:
                        goals += [eq(p0, 0, f"{what} {k} p0 at {s} is off"), eq(p1, 0, f"{what} {k} p1 at {s} is off")]
                        continue
                    out[b0] = out[b0] + p0
                    if b1 in grp:
                        out[b1] = out[b1] + p1
                    goals.append(eq(p1, -p0, f"{what} {k} is lossless at {s}"))
                    z = df.at[k, "r" if carrier == "DC" else "x"]
                    at = "v_mag_pu" if carrier == "DC" else "v_ang"
                    drop = cell(n, "Bus", at, s, b0) - cell(n, "Bus", at, s, b1)
                    if comp == "Line":
                        base = n.buses.at[b0, "v_nom"]
                        goals.append(eq(p0 * z, drop * base * base, f"{what} {k} flow at {s}"))
                    else:
                        phi = df.at[k, "phase_shift"] * np.pi / 180.0
                        goals.append(eq(p0 * z * df.at[k, "tap_ratio"], (drop - phi) * df.at[k, "s_nom"],
                                        f"{what} {k} flow at {s}"))
            imbalance = 0.0
            for b in grp:
                p = cell(n, "Bus", "p", s, b)
                goals.append(eq(p, out[b], f"{what} Kirchhoff at {b} {s}"))
                if sg is not None:
                    goals.append(eq(p, tot[b], f"{what} injection at {b} {s}"))
                imbalance = imbalance + tot[b]
                if carrier == "DC":
                    goals.append(eq(cell(n, "Bus", "v_ang", s, b), 0, f"{what} no angle at {b} {s}"))
                    if b == sb:
                        goals.append(eq(cell(n, "Bus", "v_mag_pu", s, b), 1, f"{what} slack voltage {b} {s}"))
                else:
                    goals.append(eq(cell(n, "Bus", "v_mag_pu", s, b), 1, f"{what} flat voltage {b} {s}"))
                    if b == sb:
                        goals.append(eq(cell(n, "Bus", "v_ang", s, b), 0, f"{what} slack angle {b} {s}"))
            if sg is None:  # without generators one bus takes what is missing
                odd = [b for b in grp if not _same(ctx, cell(n, "Bus", "p", s, b), tot[b])]
                goals.append(Bool(len(odd) <= 1, f"{what} set points kept in {grp} {s}"))
    for k in n.links.index:
        for s in sns:
            for q in [int(c[3:]) for c in n.links.columns if c.startswith("bus")]:
                if n.links.at[k, f"bus{q}"] == "":
                    continue
                want = rec[k, s, q] if n.links.at[k, "active"] else 0
                goals.append(eq(cell(n, "Link", f"p{q}", s, k), want, f"{what} {k} p{q} at {s}"))
    ctx.prove(what, goals)


def _same(ctx, a, b):
    d = a - b
    if ctx.sym:
        from symx.sym import Sym

        d = Sym.lift(d)
        return d.is_const() and d.cval() == 0
    return abs(d) < 1e-9


OUT = {"Generator": ("p",), "Load": ("p",), "StorageUnit": ("p",), "Store": ("p",), "ShuntImpedance": ("p",),
       "Line": ("p0", "p1"), "Transformer": ("p0", "p1"), "Link": ("p0", "p1", "p2", "p3"),
       "Bus": ("p", "v_ang", "v_mag_pu")}


def outputs(n):
    out = {}
    for comp, attrs in OUT.items():
        for a in attrs:
            if a in n.components[comp].dynamic:
                fr = n.components[comp].dynamic[a]
                for s in fr.index:
                    for k in fr.columns:
                        out[comp, k, a, s] = fr.at[s, k]
    return out


def flow(ctx, sel=None, again=None, sub=False, **kw):
    n = build(ctx, **kw)
    rec = inputs(n)
    sns = n.snapshots if sel is None else n.snapshots[list(sel)]
    if sub:
        n.determine_network_topology()
        for sn in n.sub_networks.obj:
            sn.lpf(sns)
    elif sel is None:
        n.lpf()
    else:
        n.lpf(sns)
    verify(ctx, n, rec, sns, "run")
    if sel is not None:  # the other snapshots are not touched
        rest = [s for s in n.snapshots if s not in sns]
        goals = []
        for (comp, k, a, s), v in outputs(n).items():
            if s in rest:
                goals.append(eq(v, 1 if a == "v_mag_pu" else 0, f"{comp} {k} {a} at {s}"))
        ctx.prove("rest", goals)
        before = outputs(n)
        n.lpf(rest)
        verify(ctx, n, rec, rest, "rest run")
        goals = [same(v, before[key], f"kept {key}") for key, v in outputs(n).items() if key[3] in sns and key in before]
        ctx.prove("kept", goals)
    if again:
        for comp, k, at, v in again:
            n.components[comp].static.at[k, at] = v
        rec = inputs(n)
        n.lpf()
        verify(ctx, n, rec, n.snapshots, "second")
    ctx.reach()


def B(*s):
    """"L01" -> ("L", 0, 1)"""
    return [(x[0], int(x[1]), int(x[2])) for x in s]


TRI = B("L01", "L12", "L20")
ONES = (("G", 0), ("G", 1), ("D", 2), ("D", 0))
ALL = (("G", 1, "PV"), ("G", 0, "Slack"), ("G", 2), ("D", 2), ("D", 1), ("U", 1), ("S", 0), ("H", 2))


def jobs(tier):
    o = []

    def add(name, **kw):
        kw.setdefault("ones", ONES)
        o.append((name, flow, kw))

    for a in range(8):
        add(f"triangle{a}", br=[(k, i, j) if a >> p & 1 else (k, j, i) for p, (k, i, j) in enumerate(TRI)])
    add("all", br=TRI, ones=ALL)
    add("radial", br=B("L10", "L12"))
    add("two-bus", br=B("L10"), nb=2, ones=(("G", 1), ("D", 0)))
    add("parallel", br=B("L01", "L10", "T01"), nb=2, ones=(("G", 0), ("D", 1)), tap=(2,))
    add("parallel-mesh", br=B("L01", "L10", "L12", "L20", "L21"))
    add("square", br=B("L01", "L12", "L23", "L30", "L02"), nb=4)
    add("square-trafos", br=B("L01", "T12", "T32", "L30", "L02"), nb=4, tap=(1, 2), shift=(2,))
    add("trafo-triangle", br=B("T01", "T12", "T20"), tap=(0, 2), shift=(0, 1))
    add("shift-radial", br=B("L01", "T12"), shift=(1,), ones=ALL)
    add("shift-parallel", br=B("T01", "T10"), nb=2, shift=(0, 1), ones=(("G", 0), ("D", 1)))
    add("voltages", br=B("L01", "T12", "L20"), eq_v=False)
    add("dc", br=TRI, carriers="DDD")
    add("dc-parallel", br=B("L01", "L10"), nb=2, carriers="DD", ones=(("G", 1), ("D", 0)))
    add("ac-dc", br=TRI + B("L34"), nb=5, carriers="AAADD", links=((2, 3), (4, 0)),
        ones=(("G", 0), ("D", 2), ("G", 3), ("D", 4)))
    add("dc-first", br=B("L01", "L23", "L34", "L42"), nb=5, carriers="DDAAA", links=((1, 2),),
        ones=(("D", 0), ("G", 1), ("D", 2), ("G", 4)))
    add("islands", br=B("L01", "L23"), nb=4, ones=(("G", 1), ("D", 0), ("D", 1), ("G", 2), ("D", 3)))
    add("single-buses", br=(), nb=2, ones=(("G", 0), ("D", 0), ("S", 0), ("D", 1), ("U", 1)))
    add("single-and-mesh", br=TRI, nb=4, ones=(("G", 0), ("D", 1), ("D", 3), ("G", 3), ("H", 3)), links=((3, 0),))
    add("heat", br=B("L01"), nb=3, carriers="AAh", ones=(("G", 0), ("D", 1), ("D", 2), ("G", 2), ("S", 2)), links=((0, 2),))
    add("no-generator", br=TRI, ones=(("D", 0), ("D", 1), ("U", 2)))
    add("no-generator-island", br=B("L01", "L23"), nb=4, ones=(("G", 0), ("D", 1), ("D", 2), ("U", 3)))
    add("only-inactive-generator", br=TRI, ones=(("G", 0), ("D", 1), ("U", 2)), off=("G0",))
    for k in range(3):
        add(f"slack-at-{k}", br=TRI, ones=(("G", 0), ("G", 1), ("G", 2), ("D", 0))[:k] + (("G", k, "Slack"),)
            + (("G", 2, "PV"), ("D", 1)))
    add("two-slacks", br=TRI, ones=(("G", 0, "PV"), ("G", 1, "Slack"), ("G", 2, "Slack"), ("D", 0)))
    add("two-at-slack-bus", br=TRI, ones=(("G", 1), ("G", 1, "Slack"), ("D", 1), ("D", 0)))
    add("slack-off", br=TRI, ones=(("G", 1, "Slack"), ("G", 2), ("D", 1), ("D", 0)), off=("G0",))
    add("signs", br=TRI, ones=(("G", 1), ("D", 1), ("D", 0), ("U", 2), ("S", 2)), signs=dict(D1=1, U3=-1, S4=0.5))
    add("slack-sign", br=TRI, ones=ONES, signs=dict(G0=-1))
    add("slack-sign-scale", br=TRI, ones=(("G", 0), ("G", 1, "Slack"), ("D", 1)), signs=dict(G1=1e-3, G0=-1), T=2)
    add("slack-sign-single", br=(), nb=1, ones=(("G", 0), ("D", 0)), signs=dict(G0=-1))
    for k, c in enumerate("GDGDDUSH"):
        if k != 1:
            add(f"off-{c}{k}", br=TRI, ones=(("G", 1, "PV"), ("G", 0, "Slack"), *ALL[2:]) if c != "D" else ALL, off=(f"{c}{k}",))
    for k in range(3):
        add(f"off-line{k}", br=TRI, ones=ALL, off=(f"L{k}",))
    add("off-trafo", br=B("L01", "T12", "L12", "T20"), ones=ALL, off=("T1",), tap=(3,), shift=(3,))
    add("off-all-trafos", br=B("L01", "T12", "L12"), off=("T1",))
    add("off-all-lines", br=B("L01", "T12", "T01"), off=("L0",), tap=(1,))
    add("off-bridge", br=B("L01", "L12"), off=("L1",), ones=(("G", 0), ("D", 1), ("D", 2), ("G", 2)))
    add("off-everything", br=B("L01", "L12"), off=("L0", "L1"), ones=ALL)
    add("links", br=B("L01"), nb=3, ones=(("G", 0), ("D", 1), ("G", 2), ("D", 2)), links=((0, 2), (2, 1)), T=2,
        series=("K0", "e1"))
    add("links3", br=B("L01"), nb=4, ones=(("G", 0), ("D", 1), ("D", 2), ("G", 3)), links=((0, 1, 2), (1, 3), (3, 2, 0, 1)),
        T=2, series=("e0",))
    add("links-off", br=B("L01"), nb=3, ones=(("G", 0), ("D", 1), ("G", 2)), links=((0, 2), (2, 1), (2, 0, 1)), off=("K1", "K2"))
    add("link-loop", br=TRI, links=((0, 1), (1, 0)))
    add("series", br=TRI, ones=ALL, T=2, series=("G1", "D3", "U5"))
    add("series-some", br=TRI, ones=ALL, T=2, series=("G0", "G2", "D4", "S6"))
    add("series-off", br=TRI, ones=ALL, T=2, series=("G2", "D3", "S6"), off=("G2", "S6", "L1"))
    add("part", br=TRI, ones=ALL, T=2, series=("D3", "G1"), sel=(1,), links=((0, 2),))
    add("part-off", br=B("L01", "T12"), ones=ALL, T=2, series=("D3",), sel=(0,), off=("U5",), links=((0, 2), (0, 1)), )
    add("sub-network", br=B("L01", "L23"), nb=4, ones=(("G", 1), ("D", 0), ("G", 2), ("D", 3)), sub=True)
    add("again-line-off", br=TRI, ones=ALL, again=[("Line", "L1", "active", False)])
    add("again-generator-off", br=TRI, ones=ALL, again=[("Generator", "G2", "active", False)])
    add("again-slack-off", br=TRI, ones=ALL, again=[("Generator", "G1", "active", False)])
    add("again-slack-moves", br=TRI, ones=ALL, again=[("Generator", "G1", "control", "PQ"), ("Generator", "G2", "control", "Slack")])
    add("again-split", br=B("L01", "L12"), ones=ALL, again=[("Line", "L0", "active", False)])
    add("again-join", br=B("L01", "L12"), ones=ALL, off=("L0",), again=[("Line", "L0", "active", True)])
    add("again-load", br=TRI, ones=ALL, again=[("Load", "D3", "p_set", 3.5)], links=((0, 1),))
    add("again-link-off", br=TRI, ones=ALL, links=((0, 1, 2),), again=[("Link", "K0", "active", False)])
    if tier == "thorough":
        import random

        rnd = random.Random(11)
        for i in range(60):
            nb = rnd.choice([3, 4, 5])
            car = "".join(rnd.choice("AAAD") for _ in range(nb)) if i % 3 == 0 else "A" * nb
            br = []
            for _ in range(rnd.randint(nb - 1, nb + 2)):
                a, b = rnd.sample(range(nb), 2)
                if car[a] == car[b]:
                    br.append((rnd.choice("LLT") if car[a] == "A" else "L", a, b))
            ones = [(rnd.choice("GGDDUSH"), rnd.randrange(nb)) for _ in range(rnd.randint(3, 7))]
            ones = [x + ((rnd.choice(["PQ", "PV", "Slack"]),) if x[0] == "G" else ()) for x in ones]
            links = [tuple(rnd.sample(range(nb), rnd.choice([2, 2, 3]))) for _ in range(rnd.randint(0, 2))]
            nm = [f"{x[0]}{k}" for k, x in enumerate(br)] + [f"{x[0]}{k}" for k, x in enumerate(ones)] + [
                f"K{k}" for k in range(len(links))]
            nm = [x for x in nm if nm.count(x) == 1]
            add(f"random{i}", br=br, nb=nb, ones=ones, links=links, carriers=car, T=rnd.choice([1, 2]),
                off=[x for x in nm if rnd.random() < 0.15], series=[x for x in nm if rnd.random() < 0.3],
                tap=[k for k in range(len(br)) if rnd.random() < 0.5], shift=[k for k in range(len(br)) if rnd.random() < 0.3])
    return o
