"""Distribution and outage factors predict the flows."""

import numpy as np

from checks.P01_linear_flow import B, build, cell, groups, inputs
from symx.data import same
from symx.formula import Bool, eq, ne

FUNCTIONS = ["calculate_PTDF", "calculate_BODF", "network_lpf_contingency", "calculate_B_H", "find_bus_controls",
             "incidence_matrix", "sub_network_lpf", "SubNetwork.branches", "SubNetwork.branches_i"]
BOUNDS = ("2-5 buses, up to 7 lines and transformers (meshed, parallel, bridges, either orientation, tap ratios, phase "
          "shifts), AC and DC, up to 3 sub-networks with isolated buses and inactive branches, every outage of a branch that "
          "is not a bridge; every value of impedances, voltages and injections")
OUTSIDE = ("outages of bridges (their factor is infinite); larger networks; that a connected network has a nonsingular "
           "susceptance matrix and 1 - PTDF of a non-bridge is not zero is assumed (positive impedances)")


def branch_data(n, grp):
    """active branches of a group: name -> (bus0, bus1, effective impedance)."""
    dc = n.buses.at[grp[0], "carrier"] == "DC"
    out = {}
    for comp in ("Line", "Transformer"):
        df = n.components[comp].static
        for k in df.index:
            if not df.at[k, "active"] or df.at[k, "bus0"] not in grp:
                continue
            z = df.at[k, "r" if dc else "x"]
            if comp == "Line":
                v = n.buses.at[df.at[k, "bus0"], "v_nom"]
                z = z / (v * v)
            else:
                z = z * df.at[k, "tap_ratio"] / df.at[k, "s_nom"]
            out[comp, k] = (df.at[k, "bus0"], df.at[k, "bus1"], z)
    return out


def cycles(br, without=None):
    """an independent set of cycles: lists of (branch, sign)."""
    tree, up, out = {}, {}, []

    def path(x):
        r = [x]
        while x in up:
            x = up[x][0]
            r.append(x)
        return r

    nodes = sorted({b for v in br.values() for b in v[:2]})
    rest = [k for k in br if k != without]
    seen, used = set(), set()
    for root in nodes:
        if root in seen:
            continue
        seen.add(root)
        todo = [root]
        while todo:
            x = todo.pop()
            for k in rest:
                a, b, _ = br[k]
                if k in used or x not in (a, b):
                    continue
                y = b if x == a else a
                if y not in seen:
                    seen.add(y)
                    used.add(k)
                    up[y] = (x, k, 1 if a == y else -1)  # from y towards the root
                    todo.append(y)
    for k in rest:
        if k in used:
            continue
        a, b, _ = br[k]
        cyc = {k: 1}  # a -> b along k, back from b to a over the tree
        for start, sg in ((b, 1), (a, -1)):
            x = start
            while x in up:
                x2, e, s = up[x]
                cyc[e] = cyc.get(e, 0) + sg * s
                x = x2
        out.append([(e, s) for e, s in cyc.items() if s])
    return out


def bridge(br, l):
    return len(cycles(br, without=l)) == len(cycles(br))


def kirchhoff(goals, br, f, inj, what, without=None):
    """flows f belong to the injections inj (None: no cycles through `without`)."""
    nodes = sorted({b for v in br.values() for b in v[:2]})
    for b in nodes:
        tot = 0.0
        for k, (a, c, _) in br.items():
            if a == b:
                tot = tot + f[k]
            if c == b:
                tot = tot - f[k]
        goals.append(eq(tot, inj.get(b, 0.0), f"{what}: balance at {b}"))
    for i, cyc in enumerate(cycles(br, without)):
        tot = 0.0
        for k, s in cyc:
            tot = tot + s * br[k][2] * f[k]
        goals.append(eq(tot, 0, f"{what}: cycle {i} of {[k for k, _ in cyc]}"))


def tabulate(M, rows, cols):
    M = np.asarray(M)
    assert M.shape == (len(rows), len(cols)), M.shape
    return {(r, c): M[i, j] for i, r in enumerate(rows) for j, c in enumerate(cols)}


def outage_ok(ctx, br, ptdf):
    """assume: no outage of a non-bridge splits the network."""
    for l, (a, b, _) in br.items():
        d = 1 - (ptdf[l, a] - ptdf[l, b])
        if not bridge(br, l):
            ctx.assume(ne(d, 0))
        else:  # shown first, then used
            ctx.prove("bridges", [eq(d, 0, f"all of a transfer along the bridge {l} uses it")])
            if ctx.sym:
                ctx.assume(eq(d, 0))


def factors(ctx, **kw):
    kw.setdefault("ones", (("G", 0), ("D", 1)))
    n = build(ctx, **kw)
    n.determine_network_topology()
    for sn in n.sub_networks.obj:
        grp = list(sn.buses_i())
        br = branch_data(n, grp)
        if not br:
            continue
        sn.calculate_PTDF()
        rows = [tuple(x) for x in sn.branches_i(active_only=True)]
        goals = [Bool(set(rows) == set(br), f"branches of {grp}"), Bool(set(sn.buses_o) == set(grp), f"buses of {grp}")]
        ctx.prove("tables", goals)
        ptdf = tabulate(sn.PTDF, rows, list(sn.buses_o))
        goals = []
        slack = sn.slack_bus
        for b in grp:
            f = {k: ptdf[k, b] for k in br}
            inj = {} if b == slack else {b: 1, slack: -1}
            kirchhoff(goals, br, f, inj, f"transfer from {b}")
        ctx.prove("ptdf", goals)
        outage_ok(ctx, br, ptdf)
        sn.calculate_BODF(skip_pre=True)
        bodf = tabulate(sn.BODF, rows, rows)
        goals = []
        for l in br:
            if bridge(br, l):
                continue
            goals.append(eq(bodf[l, l], -1, f"outage of {l} takes its flow"))
            f = {k: bodf[k, l] for k in br}
            kirchhoff(goals, br, f, {}, f"outage of {l}", without=l)
        ctx.prove("bodf", goals)
    ctx.reach()


def contingency(ctx, outages=None, snap=None, T=1, **kw):
    """new flows after each outage: those of the network without the branch."""
    kw.setdefault("ones", (("G", 0), ("D", 1)))
    n = build(ctx, T=T, **kw)
    n.determine_network_topology()
    allbr = {}
    for grp in groups(n):
        allbr.update({k: (v, tuple(grp)) for k, v in branch_data(n, grp).items()})
    if ctx.sym:  # the premise, stated on the factors
        for sn in n.sub_networks.obj:
            br = branch_data(n, list(sn.buses_i()))
            if br:
                sn.calculate_PTDF()
                outage_ok(ctx, br, tabulate(sn.PTDF, [tuple(x) for x in sn.branches_i(active_only=True)], list(sn.buses_o)))
    if outages is None:
        want = []
        for grp in {v[1] for v in allbr.values()}:
            br = {k: v[0] for k, v in allbr.items() if v[1] == grp}
            want += [k for k in br if not bridge(br, k)]
        want.sort()
        arg = list(want)
    else:
        want = [tuple(x) if isinstance(x, (list, tuple)) else ("Line", x) for x in outages]
        arg = [tuple(x) if isinstance(x, list) else x for x in outages]
    args = {} if snap is None else dict(snapshots=n.snapshots[snap] if isinstance(snap, int) else n.snapshots[list(snap)])
    s = n.snapshots[0 if snap is None else snap if isinstance(snap, int) else snap[0]]
    p0 = n.lpf_contingency(branch_outages=arg, **args)
    goals = [Bool(list(p0.columns) == ["base", *want], "one column per outage")]
    names = [(c, k) for c in ("Line", "Transformer") for k in n.components[c].static.index]
    goals.append(Bool(set(map(tuple, p0.index)) == set(names), "one row per branch"))
    ctx.prove("table", goals)
    goals = []
    col = {c: {tuple(k): v for k, v in zip(p0.index, p0.iloc[:, j].values)} for j, c in enumerate(p0.columns)}
    for c, k in names:
        v = cell(n, c, "p0", s, k)
        goals.append(same(col["base"][c, k], v, f"base flow of {k}"))
    ctx.prove("base", goals)
    for grp in sorted({v[1] for v in allbr.values()}):
        br = {k: v[0] for k, v in allbr.items() if v[1] == grp}
        goals = []
        for l in want:
            if l not in br:
                for k in br:
                    goals.append(eq(col[l][k], col["base"][k], f"outage of {l} leaves {k}"))
                continue
            f = {k: col[l][k] for k in br}
            d = {k: col[l][k] - col["base"][k] for k in br}
            goals.append(eq(f[l], 0, f"no flow on {l} when it is out"))
            kirchhoff(goals, br, d, {}, f"outage of {l}", without=l)
        ctx.prove(f"outages {grp}", goals)
    goals = []
    for c, k in names:
        if (c, k) not in allbr:
            for l in ["base", *want]:
                goals.append(eq(col[l][c, k], 0, f"inactive {k} carries nothing with {l} out"))
    ctx.prove("inactive", goals)
    ctx.reach()


TRI = B("L01", "L12", "L20")
SQ = B("L01", "L12", "L23", "L30", "L02")


def jobs(tier):
    o = []

    def f(name, **kw):
        o.append((f"factors-{name}", factors, kw))

    def c(name, **kw):
        o.append((f"outage-{name}", contingency, kw))

    for a in range(8):
        f(f"triangle{a}", br=[(k, i, j) if a >> p & 1 else (k, j, i) for p, (k, i, j) in enumerate(TRI)])
    f("k4", br=B("L01", "L12", "L20", "L30", "L13", "L32"), nb=4)
    f("ring5", br=B("L01", "L12", "L23", "L34", "L40", "L20", "T13"), nb=5, ones=(("G", 0), ("D", 3)))
    c("ring5", br=B("L01", "L12", "L23", "L34", "L40", "T20"), nb=5, ones=(("G", 0), ("D", 3)), outages=["L1", "L4"])
    f("two-bus", br=B("L01"), nb=2)
    f("radial", br=B("L10", "L12"))
    f("parallel", br=B("L01", "L10"), nb=2)
    f("parallel3", br=B("L01", "T10", "L10"), nb=2, tap=(1,))
    f("pendant", br=TRI + B("L13"), nb=4)
    f("square", br=SQ, nb=4, ones=(("G", 2), ("D", 0)))
    f("trafos", br=B("T01", "T12", "L20"), tap=(0,), shift=(1,))
    f("double-line", br=B("L01", "L10", "L12", "L20"))
    f("dc", br=TRI, carriers="DDD")
    f("islands", br=TRI + B("L34", "L43"), nb=5, ones=(("G", 1), ("D", 0), ("G", 4)))
    f("isolated", br=TRI, nb=4, ones=(("G", 1), ("D", 0), ("D", 3)))
    f("no-generator", br=TRI, ones=(("D", 1), ("D", 0)))
    f("pv-buses", br=TRI, ones=(("G", 0), ("G", 1, "PV"), ("G", 2, "Slack")))
    for k in range(3):
        f(f"inactive{k}", br=TRI + B("L12"), off=(f"L{k}",))
    f("inactive-trafo", br=B("L01", "T12", "L12", "T20"), off=("T1",))
    f("slack-at-last", br=TRI, ones=(("D", 0), ("G", 2)))
    full = (("G", 0), ("D", 1), ("D", 2), ("G", 1))
    c("triangle", br=TRI, ones=full)
    c("triangle-all-shift", br=B("L01", "T12", "T02"), ones=full, shift=(1, 2), tap=(1,))
    c("parallel", br=B("L01", "L10"), nb=2)
    c("pendant", br=TRI + B("L13"), nb=4, ones=full)
    c("square", br=SQ, nb=4, ones=full)
    c("names", br=TRI, ones=full, outages=["L1", "L0"])
    c("order", br=B("L01", "T12", "L20", "T21"), ones=full, outages=[("Transformer", "T3"), ("Line", "L0")])
    c("islands", br=TRI + B("L34", "L43"), nb=5, ones=full + (("G", 3), ("D", 4)))
    c("two-meshes", br=B("L01", "L10", "L23", "T23"), nb=4, ones=full + (("G", 3), ("D", 2)))
    c("isolated", br=TRI, nb=5, ones=full + (("D", 3), ("G", 4)))
    c("isolated-first", br=B("L12", "L23", "L31"), nb=4, ones=full + (("D", 3),))
    c("inactive", br=TRI + B("L12"), ones=full, off=("L1",))
    c("inactive-island", br=TRI + B("L34"), nb=5, ones=full, off=("L3",))
    c("inactive-all-trafos", br=TRI + B("T12"), ones=full, off=("T3",))
    c("dc", br=TRI, carriers="DDD", ones=full)
    c("snapshot", br=TRI, ones=full, T=2, series=("D1",), snap=1)
    c("snapshots", br=TRI, ones=full, T=2, series=("D1", "G3"), snap=(1, 0))
    c("first-snapshot", br=TRI, ones=full, T=2, series=("D1", "G3"))
    c("links", br=TRI, nb=4, ones=full + (("D", 3),), links=((0, 3),))
    if tier == "thorough":
        import itertools
        import random

        rnd = random.Random(5)
        for i in range(40):
            nb = rnd.choice([3, 4, 5])
            br = [(rnd.choice("LLT"), *rnd.sample(range(nb), 2)) for _ in range(rnd.randint(nb, nb + 2))]
            off = tuple(f"{k}{j}" for j, (k, _, _) in enumerate(br) if rnd.random() < 0.12)
            kw = dict(br=br, nb=nb, off=off, tap=tuple(range(0, len(br), 2)), shift=tuple(range(1, len(br), 3)),
                      ones=tuple(("G", b) for b in rnd.sample(range(nb), 2)) + (("D", 0), ("D", nb - 1)))
            (f if i % 2 else c)(f"random{i}", **kw)
    return o
