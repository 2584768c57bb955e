"""Sub-networks, cycles and incidence tables follow from the active branches."""

import numpy as np
import scipy.sparse as sp

from checks.P01_linear_flow import B, TABLE
from checks.P04_factors import cycles
from symx.formula import Bool, eq

FUNCTIONS = ["determine_network_topology", "graph", "adjacency_matrix", "incidence_matrix", "find_cycles", "find_slack_bus",
             "find_bus_controls", "SubNetwork.branches_i", "SubNetwork.components", "Network.passive_branches",
             "Network.branches", "get_active_assets"]
BOUNDS = ("graphs of 1-6 buses and up to 7 lines, transformers and links (meshed, parallel, loops apart), the activity of up "
          "to 5 branches or their build years and lifetimes symbolic (every outcome), every slack and control setting listed, "
          "flows, angles and weights symbolic")
OUTSIDE = "larger graphs; branches from a bus to itself; bus orders which leave buses out"


def switch(ctx, name, sym):
    if not sym:
        return True
    return bool(ctx.int(name, 0, 1) >= 1)


def dense(M):
    return M.toarray() if hasattr(M, "toarray") else np.asarray(M)


def components(nodes, edges):
    rep = {b: b for b in nodes}

    def find(x):
        while rep[x] != x:
            x = rep[x]
        return x

    for a, b in edges:
        a, b = find(a), find(b)
        if a != b:
            rep[a] = b
    out = {}
    for b in nodes:
        out.setdefault(find(b), []).append(b)
    return sorted(sorted(v) for v in out.values())


def make(ctx, br, nb, ones, links, on, carriers, years, periods, off, inf):
    import pypsa

    n = pypsa.Network()
    if periods:
        n.investment_periods = list(periods)
    names = [chr(97 + i) for i in range(nb)]
    car = {"A": "AC", "D": "DC", "h": "heat"}
    for i, b in enumerate(names):
        n.add("Bus", b, carrier=car[(carriers or "A" * nb)[i]])
    life = {}
    for k, (kind, i, j) in enumerate(list(br) + [("K", *x) for x in links]):
        comp = {"L": "Line", "T": "Transformer", "K": "Link"}[kind]
        nm = f"{kind}{k}"
        kw = dict(bus0=names[i], bus1=names[j], active=nm not in off and switch(ctx, f"on{k}", k in on))
        if kind != "K":
            kw["x"] = np.inf if k in inf else 0.5 + k
        if kind == "T":
            kw["s_nom"] = 10.0
        if k in years:
            kw["build_year"] = ctx.int(f"year{k}", 2000, 2060)
            kw["lifetime"] = ctx.int(f"life{k}", 0, 60)
            life[nm] = (kw["build_year"], kw["lifetime"])
        ctx.add(n, comp, nm, **kw)
    for k, (kind, i, *control) in enumerate(ones):
        kw = dict(bus=names[i], active=switch(ctx, f"gon{k}", f"{kind}{k}" in on) and f"{kind}{k}" not in off)
        if control:
            kw["control"] = control[0]
        ctx.add(n, TABLE[kind], f"{kind}{k}", **kw)
    ctx.finish(n)
    return n, life


def alive(n, life, comp, k, period):
    if not n.components[comp].static.at[k, "active"]:
        return False
    if period is None or k not in life:
        return True
    y, lf = life[k]
    return bool(y <= period) and bool(period < y + lf)


def check(ctx, n, life, period, what, skip=False, flows=True):
    buses = list(n.buses.index)
    act, every = {}, {}
    for comp in ("Line", "Transformer", "Link"):
        df = n.components[comp].static
        for k in df.index:
            e = (df.at[k, "bus0"], df.at[k, "bus1"], 1.0)
            every[comp, k] = e
            if alive(n, life, comp, k, period):
                act[comp, k] = e
    passive = {k: v for k, v in act.items() if k[0] != "Link"}
    want = components(buses, [v[:2] for v in passive.values()])
    goals = []

    def ok(cond, name):
        goals.append(Bool(bool(cond), f"{what} {name}"))

    kept = [g for g in want if not (skip and len(g) == 1)]
    got = sorted(sorted(sn.buses_i()) for sn in n.sub_networks.obj)
    ok(got == kept, f"sub-networks {got} for {kept}")
    ok(len(n.sub_networks) == len(kept), "number of sub-networks")
    label = dict(n.buses.sub_network)
    part = {}
    for b, x in label.items():
        part.setdefault(x, []).append(b)
    ok(sorted(sorted(v) for v in part.values()) == want, "bus labels")
    ctx.prove(f"{what} partition", goals)
    rnd = {}
    for sn in n.sub_networks.obj:
        goals.clear()
        grp = list(sn.buses_i())
        ok(all(label[b] == sn.name for b in grp), f"label of {grp}")
        mine = {k: v for k, v in passive.items() if v[0] in grp}
        ok(n.sub_networks.at[sn.name, "carrier"] == n.buses.at[grp[0], "carrier"], f"carrier of {grp}")
        rows = [tuple(x) for x in sn.branches_i(active_only=True)]
        if period is None:
            ok(sorted(rows) == sorted(mine), f"branches of {grp}: {rows}")
        listed = [tuple(x) for x in sn.branches().index]
        ok(set(mine) <= set(listed), f"all branches of {grp} listed")
        ok(len(set(listed)) == len(listed) and all(every[k][0] in grp for k in listed), f"no other branches in {grp}")
        for k in mine:
            ok(n.components[k[0]].static.at[k[1], "sub_network"] == sn.name, f"sub-network of {k}")
        # controls
        gens = [g for g in n.generators.index if n.generators.at[g, "bus"] in grp and n.generators.at[g, "active"]]
        slack = [g for g in gens if n.generators.at[g, "control"] == "Slack"]
        ok(len(slack) == (1 if gens else 0), f"slack generators {slack} in {grp}")
        ok(sn.slack_bus in grp, f"slack bus of {grp}")
        ok(n.sub_networks.at[sn.name, "slack_bus"] == sn.slack_bus, f"slack bus of {grp} recorded")
        if slack:
            ok(sn.slack_generator == slack[0] and sn.slack_bus == n.generators.at[slack[0], "bus"], f"slack of {grp}")
        pv = {n.generators.at[g, "bus"] for g in gens if n.generators.at[g, "control"] == "PV"} - {sn.slack_bus}
        ok(set(sn.pvs) == pv and len(sn.pvs) == len(pv), f"PV buses of {grp}")
        ok(sorted(sn.pqs) == sorted(set(grp) - pv - {sn.slack_bus}), f"PQ buses of {grp}")
        ok(sn.buses_o[0] == sn.slack_bus and sorted(sn.buses_o) == sorted(grp), f"bus order of {grp}")
        ok(list(sn.buses_o) == [sn.slack_bus, *sn.pvs, *sn.pqs], f"bus order of {grp} by control")
        for b in grp:
            c = "Slack" if b == sn.slack_bus else "PV" if b in pv else "PQ"
            ok(n.buses.at[b, "control"] == c, f"control of {b}")
            if c == "PV":
                g = n.buses.at[b, "generator"]
                ok(g in gens and n.generators.at[g, "bus"] == b and n.generators.at[g, "control"] == "PV", f"generator of {b}")
        ctx.prove(f"{what} sub-network", list(goals))
        if not flows:
            continue
        # cycles: sums of angle differences along every cycle vanish; the cycles span
        goals.clear()
        C = dense(sn.C)
        ok(C.shape[0] == len(listed), f"one row per branch of {grp}")
        finite = {k: v for k, v in mine.items() if not np.isinf(float(n.components[k[0]].static.at[k[1], "x_pu"]))}
        ref = cycles(finite)
        ok(C.shape[1] == len(ref), f"{len(ref)} cycles in {grp}, got {C.shape[1]}")
        theta = {b: ctx.real(f"th.{b}") for b in grp}
        f = {k: ctx.real(f"f.{k[1]}") for k in mine}
        kvl = []
        for j in range(C.shape[1]):
            d, v = 0.0, 0.0
            for i, k in enumerate(listed):
                if C[i, j] == 0:
                    continue
                if k not in finite:
                    ok(False, f"cycle over {k}")
                    continue
                d = d + float(C[i, j]) * (theta[every[k][0]] - theta[every[k][1]])
                v = v + float(C[i, j]) * f[k]
            goals.append(eq(d, 0, f"{what} cycle {j} of {grp} closes"))
            kvl.append(eq(v, 0))
        ctx.prove(f"{what} cycles", list(goals))
        for j, cyc in enumerate(ref):
            v = 0.0
            for k, s in cyc:
                v = v + s * f[k]
            ctx.prove(f"{what} cycles span", [eq(v, 0, f"{what} cycle {j} of {grp} is covered")], given=kvl)
        # incidence
        if mine and period is None:
            goals.clear()
            for order in (None, sn.buses_o):
                K = dense(sn.incidence_matrix(**({} if order is None else dict(busorder=order))))
                names = grp if order is None else list(order)
                incidence(goals, K, names, rows, {k: f[k] for k in mine}, every, f"{what} {grp}")
            A = dense(sn.adjacency_matrix())
            adjacency(goals, A, grp, mine, {k: 1.0 for k in mine}, f"{what} adjacency of {grp}")
            ctx.prove(f"{what} incidence", list(goals))
        rnd.update(f)
    if not flows:
        return
    goals.clear()
    order = [(c, k) for c in ("Line", "Transformer", "Link") for k in n.components[c].static.index]
    w = {k: ctx.real(f"w.{k[1]}") for k in order}
    if period is None:
        import pandas as pd

        comps = n.branch_components
        rows = [(c, k) for c in comps for k in n.components[c].static.index if (c, k) in act]
        incidence(goals, dense(n.incidence_matrix()), buses, rows, {k: w[k] for k in rows}, every, f"{what} network")
        K = dense(n.incidence_matrix(branch_components=["Link"], busorder=pd.Index(buses[::-1]))) if len(n.links) else None
        if K is not None:
            rows = [k for k in rows if k[0] == "Link"]
            incidence(goals, K, buses[::-1], rows, {k: w[k] for k in rows}, every, f"{what} links")
        for inc in (True, False):
            G = n.graph(include_inactive=inc)
            ok(sorted(G.nodes) == sorted(buses), f"graph nodes {inc}")
            ok(sorted((a, b, *k) if (a, b) == every[k][:2] else (b, a, *k) for a, b, k in G.edges(keys=True)) ==
               sorted((*v[:2], *k) for k, v in (every if inc else act).items()), f"graph edges {inc}")
    if len(act):
        import pandas as pd

        s = pd.Series([w[k] for k in order], index=pd.MultiIndex.from_tuples(order))
        A = dense(n.adjacency_matrix(weights=s, investment_period=period))
        adjacency(goals, A, buses, act, w, f"{what} weighted adjacency")
    A = dense(n.adjacency_matrix(investment_period=period, branch_components=n.passive_branch_components,
                                 busorder=n.buses.index[::-1]))
    adjacency(goals, A, buses[::-1], passive, {k: 1.0 for k in passive}, f"{what} adjacency")
    nb = n.branches()
    ok(sorted(map(tuple, nb.index)) == sorted(order), "all branches")
    ok(sorted(map(tuple, n.passive_branches().index)) == sorted(k for k in order if k[0] != "Link"), "passive branches")
    ctx.prove(f"{what} network", list(goals))


def incidence(goals, K, names, rows, f, every, what):
    goals.append(Bool(K.shape == (len(names), len(rows)), f"{what} incidence shape"))
    if K.shape != (len(names), len(rows)):
        return
    for i, b in enumerate(names):
        got, want = 0.0, 0.0
        for j, k in enumerate(rows):
            got = got + K[i, j] * f[k]
            if every[k][0] == b:
                want = want + f[k]
            if every[k][1] == b:
                want = want - f[k]
        goals.append(eq(got, want, f"{what} incidence at {b}"))


def adjacency(goals, A, names, br, w, what):
    goals.append(Bool(A.shape == (len(names),) * 2, f"{what} shape"))
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            tot = 0.0
            for k, v in br.items():
                if v[:2] == (a, b):
                    tot = tot + w[k]
            goals.append(eq(A[i, j], tot, f"{what} from {a} to {b}"))


def topology(ctx, br, nb=3, ones=(), links=(), on=(), carriers="", years=(), periods=(), period=None, off=(), inf=(),
             skip=False, again=None, flows=True):
    n, life = make(ctx, br, nb, ones, links, on, carriers, years, periods, off, inf)
    if inf:
        n.calculate_dependent_values()
    kw = {} if period is None else dict(investment_period=period)
    if skip:
        kw["skip_isolated_buses"] = True
    n.determine_network_topology(**kw)
    check(ctx, n, life, period, "", skip, flows)
    if again:
        for comp, k, at, v in again:
            n.components[comp].static.at[k, at] = v
        n.determine_network_topology(**kw)
        check(ctx, n, life, period, "again", skip, flows)
    ctx.reach()


TRI = B("L01", "L12", "L20")


def jobs(tier):
    o = []

    def add(name, paths=64, **kw):
        o.append((name, topology, kw, dict(max_paths=paths)))

    for a in range(8):
        add(f"triangle{a}", br=[(k, i, j) if a >> p & 1 else (k, j, i) for p, (k, i, j) in enumerate(TRI)], on=(0, 1, 2))
    add("square", br=B("L01", "L21", "L23", "L30", "L02"), nb=4, on=(0, 1, 2, 3, 4))
    add("parallel", br=B("L01", "L10", "T01", "T10"), nb=2, on=(0, 1, 2, 3))
    add("parallel-path", br=B("L01", "L01", "L12", "L21"), on=(0, 1, 2, 3))
    add("mixed", br=B("L01", "T12", "L20", "T01", "L21"), on=(0, 1, 3))
    add("mixed-trafo-off", br=B("T01", "L12", "T20", "L01"), on=(0, 2))
    add("k4", br=B("L01", "L02", "L03", "L12", "L31", "L23"), nb=4, on=(0, 3, 5))
    add("two-triangles", br=TRI + B("T34", "T45", "T53", "L23"), nb=6, on=(6, 0, 4))
    add("islands", br=B("L01", "L23"), nb=6, on=(0, 1), links=((1, 2), (4, 5)))
    add("links", br=B("L01"), nb=3, links=((0, 1), (1, 2), (2, 0)), on=(0, 1, 2))
    add("only-links", br=(), nb=3, links=((0, 1), (1, 2)), on=(0,))
    add("no-branches", br=(), nb=3, ones=(("G", 1), ("D", 0)))
    add("one-bus", br=(), nb=1)
    add("carriers", br=B("L01", "L23", "L34"), nb=6, carriers="AADDDh", on=(1,), links=((1, 2), (5, 0)))
    add("infinite", br=TRI + B("L01", "T12"), inf=(0, 4), on=(1,))
    add("infinite-pair", br=B("L01", "L01", "L10"), nb=2, inf=(1,), on=(2,))
    add("isolated", br=B("L01"), nb=4, on=(0,), skip=True, ones=(("G", 3), ("G", 0)))
    add("isolated-first", br=B("L12", "L23"), nb=4, on=(0, 1), skip=True, ones=(("G", 0), ("G", 3)))
    gen = (("G", 0), ("G", 1, "PV"), ("G", 2, "Slack"), ("G", 1, "PQ"), ("G", 1, "PV"))
    add("controls", br=TRI, ones=gen, on=("G0", "G1", "G2", "G4"), flows=False)
    add("controls-two-slacks", br=TRI, ones=(("G", 2, "Slack"), ("G", 0, "Slack"), ("G", 0, "PV"), ("G", 1, "Slack")),
        on=("G0", "G1", "G3"), flows=False)
    add("controls-split", br=B("L01", "L12"), ones=gen, on=(0, 1, "G2"), flows=False)
    add("controls-shared-bus", br=B("L01"), nb=2, ones=(("G", 0, "PV"), ("G", 0, "PQ"), ("G", 0, "PV"), ("G", 1)),
        on=("G0", "G2", "G3"), flows=False)
    add("controls-storage", br=B("L01"), nb=2, ones=(("U", 0), ("S", 1), ("G", 1, "PV")), on=("G2",), flows=False)
    add("again-split", br=B("L01", "L12"), ones=(("G", 0), ("G", 2)), on=(1,), again=[("Line", "L0", "active", False)])
    add("again-join", br=B("L01", "L12"), ones=(("G", 0), ("G", 2)), off=("L0",), on=(1,),
        again=[("Line", "L0", "active", True)])
    add("again-generator", br=TRI, ones=gen, on=("G0",), again=[("Generator", "G2", "active", False)], flows=False)
    add("again-move", br=B("L01", "L21"), ones=gen, on=(1,), again=[("Line", "L1", "bus1", "a"), ("Generator", "G2", "bus", "a")])
    for p in (2020, 2030):
        add(f"period{p}", br=TRI, years=(0, 1), periods=(2020, 2030, 2040), period=p, ones=(("G", 0), ("G", 2)))
        add(f"period-parallel{p}", br=B("L01", "T01", "L12"), years=(0, 1), periods=(2020, 2030), period=p)
        add(f"period-off{p}", br=TRI + B("L10"), years=(0,), on=(1,), periods=(2020, 2030), period=p)
        add(f"period-skip{p}", br=B("L01", "L12"), nb=4, years=(0, 1), periods=(2020, 2030), period=p, skip=True)
    add("period-ignored", br=TRI, years=(), off=("L1",), periods=(2020, 2030), ones=(("G", 0),))
    if tier == "thorough":
        import random

        rnd = random.Random(3)
        for i in range(60):
            nb = rnd.choice([3, 4, 5, 6])
            br = [(rnd.choice("LLT"), *rnd.sample(range(nb), 2)) for _ in range(rnd.randint(2, 7))]
            links = [tuple(rnd.sample(range(nb), 2)) for _ in range(rnd.randint(0, 2))]
            ones = [("G", rnd.randrange(nb), rnd.choice(["PQ", "PV", "Slack"])) for _ in range(rnd.randint(0, 4))]
            on = tuple(rnd.sample(range(len(br)), min(len(br), 5)))
            kw = dict(br=br, nb=nb, links=links, ones=ones)
            if i % 3 == 2:
                kw.update(years=on[:3], periods=(2020, 2030), period=rnd.choice([2020, 2030]))
            else:
                kw.update(on=on, skip=i % 5 == 0)
            add(f"random{i}", paths=200, **kw)
    return o
