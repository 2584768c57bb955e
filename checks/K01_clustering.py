"""Clustering a network conserves what it aggregates and keeps the rest."""

import math

from symx.data import dense, diff, labels, numeric, same, tables
from symx.formula import And, Bool, Or, eq, le, lt

FUNCTIONS = ["get_clustering_from_busmap", "aggregatebuses", "aggregatelines", "aggregateoneport", "align_strategies",
             "normed_or_uniform", "flatten_multiindex", "make_consense", "ClusteringAccessor.cluster_by_busmap",
             "busmap_by_stubs", "haversine_pts"]
BOUNDS = ("3-6 buses with distinct coordinates in 1-4 clusters; up to 4 components of a kind, sharing clusters and carriers or not; "
          "1-3 lines between two clusters in either direction, lines and links inside a cluster, links with up to 3 outputs; "
          "aggregation of none, some or all one-port components, by carrier and by bus; 1-2 snapshots, 1-2 periods; every value of "
          "capacities, bounds, set points, costs, efficiencies, impedances, voltages, ratings and weightings")
OUTSIDE = ("how k-means, hierarchical and modularity clustering choose the bus map (heuristics); negative capacities, clusters at "
           "one point, own strategies; transformers, which clustering leaves out; attributes on which the members of a cluster "
           "disagree and no strategy is known (an error is raised)")

XY = [(0.0, 0.0), (1.0, 0.5), (5.0, 5.0), (6.0, 5.5), (10.0, 3.0), (4.0, 9.0)]

# attributes that add up, attributes weighted with the capacity, attributes the members share
SUM = {"Generator": ["p_nom_min", "p_nom_max", "p_set", "q_set", "weight", "e_sum_min", "e_sum_max"], "Load": ["p_set", "q_set"],
       "Store": ["e_nom_min", "e_nom_max", "p_set", "e_initial"],
       "StorageUnit": ["p_nom_min", "p_nom_max", "p_set", "inflow", "state_of_charge_initial", "state_of_charge_set"]}
AVG = {"Generator": ["p_max_pu", "p_min_pu", "capital_cost", "marginal_cost", "efficiency"], "Load": [],
       "Store": ["capital_cost", "marginal_cost"],
       "StorageUnit": ["p_max_pu", "p_min_pu", "capital_cost", "marginal_cost", "max_hours"]}
SHARED = {"Generator": ["marginal_cost_quadratic", "sign"], "Load": ["sign"], "Store": ["standing_loss", "e_max_pu", "sign"],
          "StorageUnit": ["standing_loss", "efficiency_store"]}
NOM = {"Generator": "p_nom", "Store": "e_nom", "StorageUnit": "p_nom"}


def haversine(a, b):
    lon0, lat0, lon1, lat1 = (math.radians(v) for v in (*a, *b))
    h = math.sin((lat1 - lat0) / 2) ** 2 + math.cos(lat0) * math.cos(lat1) * math.sin((lon1 - lon0) / 2) ** 2
    return 6371.000 * 2 * math.asin(math.sqrt(h))


def near(a, b, name, tol=1e-9):
    """equal up to the rounding of the constants (distances, shares)."""
    if not (numeric(a) and numeric(b)):
        return same(a, b, name)
    if any(isinstance(v, float) and not math.isfinite(v) for v in (a, b)):
        return same(a, b, name)
    d = a - b
    return And(Or(le(d, tol * b), le(d, -tol * b), le(d, tol)), Or(le(-d, tol * b), le(-d, -tol * b), le(-d, tol)), name=name)


def build(ctx, busmap, ones=(), lines=(), links=(), T=1, periods=None, series=(), extra=False, vs=None, give=(), zero=False):
    """ones: (component, bus, carrier); lines: (bus0, bus1[, type]); links: ports."""
    import pypsa

    n = pypsa.Network()
    n.set_snapshots(range(T))
    if periods:
        n.set_investment_periods(list(periods))
        for c in n.investment_period_weightings.columns:
            for p in periods:
                n.investment_period_weightings.loc[p, c] = float(2 + len(c) % 3)
    k = len(n.snapshots)
    for i in range(len(busmap)):
        ctx.add(n, "Bus", f"b{i}", x=XY[i][0], y=XY[i][1], v_nom=ctx.pos(f"v{(vs or range(len(busmap)))[i]}"))
    for c in {c for _, _, c in ones if c} | ({"w"} if extra else set()):
        ctx.add(n, "Carrier", c, co2_emissions=ctx.real(f"co2.{c}"))
    for j, (comp, b, car) in enumerate(ones):
        nm = f"{comp[:2]}{j}"
        kw = {"bus": f"b{b}"}
        if car:
            kw["carrier"] = car
        if comp in NOM:
            kw[NOM[comp]] = ctx.real(f"{nm}.nom", 0, strict=not zero)
        for a in SUM[comp] + AVG[comp]:
            if give and a not in give:
                continue
            if a in ("q_set", "weight", "e_sum_min", "e_sum_max", "state_of_charge_set") and not give:
                continue
            if f"{nm}.{a}" in series or a in series:
                kw[a] = ctx.reals(f"{nm}.{a}", k)
            elif a != "inflow":
                kw[a] = ctx.real(f"{nm}.{a}")
        for a in SHARED[comp]:
            kw[a] = ctx.real(f"{comp}.{a}")
        ctx.add(n, comp, nm, **kw)
    for j, (a, b, *typ) in enumerate(lines):
        kw = dict(x=ctx.pos(f"x{j}"), r=ctx.pos(f"r{j}"), b=ctx.real(f"bb{j}"), g=ctx.real(f"gg{j}"), s_nom=ctx.real(f"s{j}", 0, strict=not zero),
                  length=ctx.pos(f"len{j}"), capital_cost=ctx.real(f"lc{j}"), num_parallel=ctx.pos(f"np{j}"),
                  s_nom_min=ctx.real(f"smin{j}", 0), s_nom_max=ctx.real(f"smax{j}", 0), s_nom_extendable=j == 1)
        kw["s_max_pu"] = ctx.reals(f"smp{j}", k) if f"l{j}" in series else ctx.real(f"smp{j}")
        if typ and typ[0]:
            if typ[0] not in n.line_types.index:
                n.add("LineType", typ[0], f_nom=50.0, r_per_length=0.5, x_per_length=0.25, c_per_length=3.0)
            kw["type"] = typ[0]
        if len(typ) > 1:
            kw["carrier"] = typ[1]
        ctx.add(n, "Line", f"l{j}", bus0=f"b{a}", bus1=f"b{b}", **kw)
    for j, ports in enumerate(links):
        kw = {f"bus{q}": f"b{p}" for q, p in enumerate(ports) if p is not None}
        for q in range(1, len(ports)):
            at = f"efficiency{'' if q == 1 else q}"
            kw[at] = ctx.reals(f"e{j}.{q}", k) if f"k{j}" in series and q == len(ports) - 1 else ctx.real(f"e{j}.{q}")
        ctx.add(n, "Link", f"k{j}", p_nom=ctx.real(f"kn{j}", 0), capital_cost=ctx.real(f"kc{j}"),
                length=ctx.pos(f"kl{j}") if j % 2 == 0 else 0.0, **kw)
    if extra:
        ctx.add(n, "ShuntImpedance", "h0", bus="b0", g=ctx.real("h.g"), b=ctx.real("h.b"))
        ctx.add(n, "ShuntImpedance", "h1", bus="b1", g=ctx.real("h1.g"), b=ctx.real("h1.b"))
        ctx.add(n, "GlobalConstraint", "limit", sense="<=", constant=ctx.real("limit"))
    ctx.finish(n)
    ctx.weightings(n, *([ctx.pos(f"w{c}{i}") for i in range(k)] for c in "ogs"))
    return n


def static(n, comp, name, attr):
    df = n.components[comp].static
    return df[attr].values[list(df.index).index(name)]


def total(vals):
    t = 0.0
    for v in vals:
        t = t + v
    return t


def check(ctx, busmap, ones=(), lines=(), links=(), weighted=False, one=(), carriers=None, buses=None, factor=1.0, scale=True,
          with_time=True, groupers=(), accessor=False, flow=False, **net):
    import pandas as pd
    from pypsa.clustering import spatial

    n = build(ctx, busmap, ones, lines, links, **net)
    bm = pd.Series({f"b{i}": c for i, c in enumerate(busmap)})
    members = {}
    for i, c in enumerate(busmap):
        members.setdefault(c, []).append(f"b{i}")
    before = tables(n)
    kw = dict(with_time=with_time, line_length_factor=factor, aggregate_generators_weighted=weighted,
              aggregate_one_ports={c: {} for c in one}, scale_link_capital_costs=scale, custom_line_groupers=list(groupers))
    if carriers is not None:
        kw["aggregate_generators_carriers"] = list(carriers)
    if buses is not None:
        kw["aggregate_generators_buses"] = list(buses)
    if accessor:
        kw.pop("scale_link_capital_costs")
        m = n.cluster.cluster_by_busmap(bm, **kw) if accessor == "n" else n.cluster.get_clustering_from_busmap(bm, **kw).n
        linemap = None
    else:
        res = spatial.get_clustering_from_busmap(n, bm, **kw)
        m, linemap = res.n, res.linemap
    ctx.prove("original", diff(tables(n), before, "original"))
    sns = labels(n.snapshots) if with_time else []

    # ---- buses, time, what is kept as it is
    goals = [Bool(sorted(m.buses.index) == sorted(members), "the clusters are the buses")]
    for c, bs in members.items():
        for a, i in (("x", 0), ("y", 1)):
            want = sum(XY[int(b[1:])][i] for b in bs) / len(bs)
            goals.append(Bool(abs(static(m, "Bus", c, a) - want) < 1e-9, f"{c} {a}"))
        v = static(m, "Bus", c, "v_nom")
        vs = [static(n, "Bus", b, "v_nom") for b in bs]
        goals += [Or(*(eq(v, w) for w in vs), name=f"{c} v_nom"), *(le(w, v, f"{c} v_nom") for w in vs)]
    if with_time:
        tn, tm = before, tables(m)
        ks = [k for k in tn if k in ("snapshots", "periods", "names") or isinstance(k, tuple) and "weightings" in k[0]]
        goals += diff({k: tm[k] for k in ks if k in tm}, {k: tn[k] for k in ks}, "time")
    for comp in ("Carrier", "GlobalConstraint"):
        goals += diff({k: v for k, v in tables(m, [comp]).items() if len(k) == 3 and k[2] not in ("index", "series of")},
                      {k: v for k, v in tables(n, [comp]).items() if len(k) == 3 and k[2] not in ("index", "series of")}, "kept")
    ctx.prove("buses", goals)

    # ---- one-port components
    aggregated = set(one) | ({"Generator"} if weighted else set())
    for comp in ("Generator", "Load", "Store", "StorageUnit", "ShuntImpedance"):
        groups, alone = {}, []
        for g in n.components[comp].static.index:
            cl = bm[static(n, comp, g, "bus")]
            car = static(n, comp, g, "carrier") if comp in SUM else ""
            if comp in aggregated and (comp != "Generator" or not weighted or carriers is None or car in carriers
                                       or buses is not None and static(n, comp, g, "bus") in buses):
                groups.setdefault((cl, car), []).append(g)
            else:
                alone.append((g, cl))
        goals = []
        name = {k: f"{k[0]} {k[1]}".strip() for k in groups}
        ok = sorted(m.components[comp].static.index) == sorted([g for g, _ in alone] + list(name.values()))
        goals.append(Bool(ok, f"{comp} components: {list(m.components[comp].static.index)}"))
        if not ok:
            ctx.prove(comp, goals)
            continue
        for attr, fr in m.components[comp].dynamic.items():
            goals.append(Bool(set(fr.columns) <= set(m.components[comp].static.index), f"{comp} {attr} series of components"))
        attrs = n.components[comp].attrs
        for g, cl in alone:
            goals.append(Bool(static(m, comp, g, "bus") == cl, f"bus of {g}"))
            for a in n.components[comp].static.columns:
                if a == "control":  # chosen anew for the sub-networks
                    got = static(m, comp, g, a)
                    goals.append(Bool(got == "Slack" or got == static(n, comp, g, a), f"{g} {a}"))
                elif a != "bus" and not attrs.loc[a, "status"].startswith("Output"):
                    goals.append(same(static(m, comp, g, a), static(n, comp, g, a), f"{g} {a}"))
            for a, fr in n.components[comp].dynamic.items():
                if g in fr.columns:
                    for s in sns:
                        goals.append(same(dense(m, comp, a, g, s), dense(n, comp, a, g, s), f"{g} {a} {s}"))
        for key, gs in groups.items():
            k = name[key]
            goals += [Bool(static(m, comp, k, "bus") == key[0], f"bus of {k}"),
                      Bool(static(m, comp, k, "carrier") == key[1], f"carrier of {k}")]
            if comp in NOM:
                noms = [static(n, comp, g, NOM[comp]) for g in gs]
                cap = total(noms)
                goals.append(eq(static(m, comp, k, NOM[comp]), cap, f"{k} {NOM[comp]}"))
            for a in SUM[comp] + AVG[comp] + SHARED[comp]:
                dyn = a in n.components[comp].dynamic
                isser = dyn and any(g in n.components[comp].dynamic[a].columns for g in gs)
                for s in (sns if isser else [None]):
                    def at(net, g, a=a, s=s):
                        return static(net, comp, g, a) if s is None else dense(net, comp, a, g, s)

                    got, vals, nm = at(m, k), [at(n, g) for g in gs], f"{k} {a} {s}"
                    if a in SHARED[comp]:
                        goals.append(same(got, vals[0], nm))
                    elif a in SUM[comp]:
                        goals.append(same(got, total(vals), nm))
                    elif all(not isinstance(v, (int, float)) or math.isfinite(v) for v in vals):
                        goals.append(Or(le(cap, 0), eq(got * cap, total(p * v for p, v in zip(noms, vals))), name=nm))
                        mean = total(vals) / len(vals)
                        goals.append(Or(lt(0, cap), near(got, mean, ""), name=f"{nm} without capacity"))
        ctx.prove(comp, goals)

    # ---- lines
    goals = []
    groups = {}
    for j in n.lines.index:
        a, b = (bm[static(n, "Line", j, p)] for p in ("bus0", "bus1"))
        if a != b:
            groups.setdefault((*sorted((a, b)), *(static(n, "Line", j, c) for c in groupers)), []).append(j)
    found = {}
    for k in m.lines.index:
        key = (*sorted((static(m, "Line", k, "bus0"), static(m, "Line", k, "bus1"))), *(static(m, "Line", k, c) for c in groupers))
        found.setdefault(key, []).append(k)
    ok = set(found) == set(groups) and all(len(v) == 1 for v in found.values())
    goals.append(Bool(ok, "one line between two clusters"))
    if linemap is not None:
        goals.append(Bool({j: str(k) for j, k in linemap.items()} == {j: str(found[key][0]) for key, js in groups.items() for j in js},
                          "line map"))
    xy = {c: tuple(sum(XY[int(b[1:])][i] for b in bs) / len(bs) for i in (0, 1)) for c, bs in members.items()}
    if ok:
        for key, js in groups.items():
            k = found[key][0]

            def of(a, k=k):
                return static(m, "Line", k, a)

            def old(j, a):
                return static(n, "Line", j, a)

            length = factor * haversine(xy[key[0]], xy[key[1]])
            goals.append(Bool(abs(of("length") - length) <= 1e-6 * length, f"{k} length"))
            ratio = {j: length / old(j, "length") for j in js}  # conductance falls, susceptance grows with the length
            v = [static(m, "Bus", c, "v_nom") for c in key[:2]]
            v = v[0] if v[1] <= v[0] else v[1]
            volt = {j: (static(n, "Bus", old(j, "bus0"), "v_nom") / v) for j in js}
            if not old(js[0], "type"):
                for a in "xr":
                    y = total(volt[j] * volt[j] / (ratio[j] * old(j, a)) for j in js)
                    goals.append(near(of(a) * y, 1.0, f"{k} {a}"))
                for a in "bg":
                    y = total(volt[j] * volt[j] * ratio[j] * old(j, a) for j in js)
                    goals.append(near(of(a), y, f"{k} {a}"))
            else:
                goals += [Bool(of("type") == old(js[0], "type"), f"{k} type"),
                          *(same(m.line_types.at[of("type"), a], n.line_types.at[of("type"), a], f"type {a}")
                            for a in n.line_types.columns if of("type") in m.line_types.index),
                          Bool(of("type") in m.line_types.index, f"{k} type is known")]
            for a in ("s_nom", "s_nom_min", "s_nom_max", "num_parallel"):
                goals.append(eq(of(a), total(old(j, a) for j in js), f"{k} {a}"))
            goals.append(Bool(bool(of("s_nom_extendable")) == any(old(j, "s_nom_extendable") for j in js), f"{k} extendable"))
            cap = total(old(j, "s_nom") for j in js)
            goals.append(Or(le(cap, 0), near(of("capital_cost") * cap, total(old(j, "capital_cost") * ratio[j] * old(j, "s_nom") for j in js),
                                             ""), name=f"{k} capital_cost"))
            isser = any(j in n.lines_t.s_max_pu.columns for j in js)
            for s in (sns if isser else [None]):
                got = of("s_max_pu") if s is None else dense(m, "Line", "s_max_pu", k, s)
                vals = [old(j, "s_max_pu") if s is None else dense(n, "Line", "s_max_pu", j, s) for j in js]
                goals.append(Or(le(cap, 0), eq(got * cap, total(old(j, "s_nom") * u for j, u in zip(js, vals))), name=f"{k} s_max_pu {s}"))
                goals.append(Or(lt(0, cap), near(got, total(vals) / len(vals), ""), name=f"{k} s_max_pu {s} without capacity"))
    ctx.prove("lines", goals)

    # ---- links
    goals = []
    keep = []
    cols = [c for c in n.links.columns if c.startswith("bus")]
    for k in n.links.index:
        ports = {c: bm[static(n, "Link", k, c)] for c in cols if static(n, "Link", k, c)}
        if len(set(ports.values())) > 1:
            keep.append((k, ports))
    ok = list(m.links.index) == [k for k, _ in keep]
    goals.append(Bool(ok, f"links {list(m.links.index)}"))
    for attr, fr in m.links_t.items():
        goals.append(Bool(set(fr.columns) <= set(m.links.index), f"Link {attr} series of components"))
    for k, ports in (keep if ok else []):
        for c in cols:
            goals.append(Bool(static(m, "Link", k, c) == ports.get(c, ""), f"{k} {c}: {static(m, 'Link', k, c)}"))
        for a in n.links.columns:
            if a in cols or a in ("length", "capital_cost") or n.components["Link"].attrs.loc[a, "status"].startswith("Output"):
                continue
            goals.append(same(static(m, "Link", k, a), static(n, "Link", k, a), f"{k} {a}"))
        for a, fr in n.links_t.items():
            if k in fr.columns:
                goals += [same(dense(m, "Link", a, k, s), dense(n, "Link", a, k, s), f"{k} {a} {s}") for s in sns]
        has = not isinstance(static(n, "Link", k, "length"), float) or static(n, "Link", k, "length") > 0
        length = factor * haversine(xy[ports["bus0"]], xy[ports["bus1"]]) if has else 0.0
        goals.append(Bool(abs(static(m, "Link", k, "length") - length) <= 1e-6 * max(length, 1), f"{k} length"))
        cost, was = static(m, "Link", k, "capital_cost"), static(n, "Link", k, "capital_cost")
        if scale and has:
            goals.append(near(cost * static(n, "Link", k, "length"), was * length, f"{k} capital_cost"))
        else:
            goals.append(same(cost, was, f"{k} capital_cost"))
    ctx.prove("links", goals)

    # ---- the clustered network stands on its own
    for comp, attr in (("GlobalConstraint", "constant"), ("Carrier", "co2_emissions")):
        df = m.components[comp].static
        if len(df):
            df.loc[df.index[0], attr] = 123.0
    if with_time:
        m.snapshot_weightings.iloc[0, 0] = 77.0
    ctx.prove("independent", diff(tables(n), before, "original"))
    ctx.reach()


def stubs(ctx, lines, links=(), attrs=()):
    """busmap_by_stubs: every bus ends at the root of its dangling tree."""
    from pypsa.clustering import spatial

    nb = 1 + max(max(x) for x in lines)
    n = build(ctx, ["c"] * nb, lines=lines, links=links, vs=[0] * nb)
    for k, b in enumerate(n.buses.index):
        if attrs:
            n.buses.loc[b, "country"] = attrs[k]
    before = tables(n)
    bm = spatial.busmap_by_stubs(n, ["country"] if attrs else None)
    near_ = {b: set() for b in n.buses.index}
    for df in (n.lines, n.links):
        for k in df.index:
            a, b = df.at[k, "bus0"], df.at[k, "bus1"]
            near_[a].add(b)
            near_[b].add(a)
    ctx.prove("stubs", [*diff(tables(n), before, "original"), Bool(set(bm.index) == set(n.buses.index), "all buses"),
                        *(Bool(bm[bm[b]] == bm[b], f"{b} ends at a kept bus") for b in n.buses.index),
                        *(Bool(not attrs or n.buses.at[bm[b], "country"] == n.buses.at[b, "country"], f"{b} matches") for b in n.buses.index),
                        *(Bool(not (len(near_[b] & set(kept(bm))) == 1 and not attrs and len(set(bm)) > 2 and b in set(bm)),
                               f"{b} is no stub") for b in n.buses.index)])
    ctx.reach()


def kept(bm):
    return set(bm)


G, L, S, U = "Generator", "Load", "Store", "StorageUnit"
AB = ["A", "A", "B"]
AABB = ["A", "A", "B", "B"]

CASES = {
    "gens": dict(busmap=AB, ones=[(G, 0, "w"), (G, 1, "w"), (G, 2, "w")], weighted=True, give=["p_max_pu", "marginal_cost"]),
    "gens zero": dict(busmap=AB, ones=[(G, 0, "w"), (G, 1, "w")], weighted=True, give=["p_max_pu", "capital_cost"], zero=True),
    "lines zero": dict(busmap=AB, lines=[(0, 2), (1, 2)], vs=[0, 0, 0], zero=True),
    "units zero": dict(busmap=AB, ones=[(U, 0, ""), (U, 1, "")], one=[U], give=["max_hours", "p_min_pu"], zero=True),
    "gens sums": dict(busmap=AB, ones=[(G, 0, "w"), (G, 1, "w"), (G, 1, "s")], weighted=True, give=["p_nom_min", "p_nom_max", "p_set",
                                                                                                   "weight", "e_sum_min"]),
    "gens costs": dict(busmap=AB, ones=[(G, 0, ""), (G, 1, ""), (G, 0, "")], weighted=True, give=["capital_cost", "efficiency", "p_min_pu"]),
    "gens series": dict(busmap=AB, ones=[(G, 0, "w"), (G, 1, "w")], weighted=True, give=["p_max_pu", "p_set"], T=2,
                        series=["p_max_pu", "p_set"]),
    "gens one series": dict(busmap=AB, ones=[(G, 0, "w"), (G, 1, "w"), (G, 2, "w")], weighted=True, give=["p_max_pu"], T=2,
                            series=["Ge1.p_max_pu"]),
    "gens carriers": dict(busmap=AB, ones=[(G, 0, "w"), (G, 1, "w"), (G, 1, "s"), (G, 0, "s")], weighted=True, carriers=["w"],
                          give=["p_max_pu"], series=["Ge1.p_max_pu", "Ge2.p_max_pu"]),
    "gens buses": dict(busmap=AABB, ones=[(G, 0, "w"), (G, 1, "w"), (G, 1, "s"), (G, 2, "s"), (G, 3, "s")], weighted=True, carriers=["w"],
                       buses=["b2", "b3"], give=["p_nom_min"]),
    "gens no time": dict(busmap=AB, ones=[(G, 0, "w"), (G, 1, "w")], weighted=True, give=["p_max_pu"], with_time=False),
    "gens one port": dict(busmap=AB, ones=[(G, 0, "w"), (G, 1, "w"), (G, 2, "s")], one=[G], give=["p_max_pu", "p_nom_max"],
                          series=["Ge0.p_max_pu"]),
    "loads": dict(busmap=AB, ones=[(L, 0, ""), (L, 1, ""), (L, 2, "")], one=[L], T=2, series=["Lo1.p_set"], give=["p_set", "q_set"]),
    "loads series": dict(busmap=AB, ones=[(L, 0, "h"), (L, 1, "h"), (L, 0, "")], one=[L], T=2, series=["p_set"], give=["p_set"]),
    "stores": dict(busmap=AB, ones=[(S, 0, ""), (S, 1, ""), (S, 2, "")], one=[S]),
    "units": dict(busmap=AB, ones=[(U, 0, ""), (U, 1, "")], one=[U], series=["inflow"], T=2, give=["inflow", "state_of_charge_initial"]),
    "units averages": dict(busmap=AB, ones=[(U, 0, ""), (U, 1, ""), (U, 2, "p")], one=[U], give=["max_hours", "p_max_pu", "marginal_cost"]),
    "units set": dict(busmap=AB, ones=[(U, 0, ""), (U, 1, "")], one=[U], T=2, series=["state_of_charge_set"],
                      give=["state_of_charge_set", "p_nom_max"]),
    "units one set": dict(busmap=AB, ones=[(U, 0, ""), (U, 1, "")], one=[U], T=1, give=["p_nom_min", "p_set"]),
    "several": dict(busmap=AABB, ones=[(L, 0, ""), (L, 1, ""), (G, 2, "w"), (G, 3, "w"), (S, 0, ""), (S, 3, "")], one=[L], weighted=True,
                    give=["p_set", "p_max_pu", "e_initial"]),
    "kept": dict(busmap=AB, ones=[(G, 0, "w"), (L, 1, ""), (S, 2, ""), (U, 1, ""), (G, 1, "w"), (L, 2, "")], extra=True, T=2,
                 series=["inflow", "Lo1.p_set", "p_max_pu"]),
    "kept no time": dict(busmap=AB, ones=[(G, 0, "w"), (L, 1, ""), (U, 1, "")], extra=True, with_time=False),
    "kept accessor": dict(busmap=AABB, ones=[(G, 0, "w"), (L, 1, "")], extra=True, accessor="n", series=["p_set"], lines=[(0, 2)]),
    "aggregated accessor": dict(busmap=AABB, ones=[(G, 0, "w"), (G, 1, "w")], extra=True, accessor="c", weighted=True, give=["p_max_pu"]),
    "periods": dict(busmap=AB, ones=[(G, 0, "w"), (G, 1, "w"), (L, 1, "")], weighted=True, periods=[2030, 2040], series=["p_max_pu", "p_set"],
                    give=["p_max_pu", "p_set"]),
    "all apart": dict(busmap=["A", "B", "C"], ones=[(G, 0, "w"), (G, 1, "w"), (L, 2, "")], weighted=True, one=[L], give=["p_max_pu", "p_set"],
                      lines=[(0, 1), (1, 2)], vs=[0, 1, 0]),
    "all in one": dict(busmap=["A", "A", "A"], ones=[(G, 0, "w"), (G, 1, "w"), (G, 2, "w")], weighted=True, give=["efficiency"],
                       lines=[(0, 1), (1, 2)], links=[(0, 1)]),
    "line": dict(busmap=AB, lines=[(0, 2)]),
    "line back": dict(busmap=AB, lines=[(2, 0), (0, 1)]),
    "lines": dict(busmap=AB, lines=[(0, 2), (2, 1)], vs=[0, 0, 1]),
    "lines levels": dict(busmap=AABB, lines=[(0, 2), (1, 3)], vs=[0, 1, 1, 0]),
    "lines three": dict(busmap=AB, lines=[(0, 2), (2, 1), (1, 2)], vs=[0, 0, 0]),
    "lines series": dict(busmap=AB, lines=[(0, 2), (1, 2)], vs=[0, 0, 0], series=["l1"], T=2),
    "lines pairs": dict(busmap=["A", "A", "B", "C"], lines=[(0, 2), (1, 2), (3, 0)], vs=[0, 0, 0, 0]),
    "lines factor": dict(busmap=AB, lines=[(0, 2), (1, 2)], vs=[0, 0, 0], factor=1.25),
    "lines typed": dict(busmap=AB, lines=[(0, 2, "own"), (1, 2, "own")], vs=[0, 0, 0]),
    "lines grouped": dict(busmap=AB, lines=[(0, 2, "", "AC"), (1, 2, "", "x")], vs=[0, 0, 0], groupers=["carrier"]),
    "links": dict(busmap=AB, links=[(0, 2), (1, 2), (0, 1), (2, 1)], T=2, series=["k0", "k2"]),
    "links ports": dict(busmap=AABB, links=[(0, 2, 3), (1, 3), (0, 1, 0), (0, 1, 2)], T=2, series=["k0", "k1", "k3"]),
    "links more ports": dict(busmap=AABB, links=[(0, 2, 3, 1), (0, 2, None, 3), (0, 1, None, 1)]),
    "links costs": dict(busmap=AB, links=[(0, 2), (2, 1)], scale=False, factor=1.5),
    "links factor": dict(busmap=AB, links=[(0, 2), (2, 1)], factor=1.5),
}
MORE = {
    "gens four": dict(busmap=AABB + ["B"], ones=[(G, 0, "w"), (G, 1, "w"), (G, 2, "w"), (G, 4, "w")], weighted=True, T=2,
                      give=["p_max_pu", "marginal_cost", "p_nom_max"], series=["p_max_pu", "Ge2.marginal_cost"]),
    "gens three": dict(busmap=["A", "A", "A", "B"], ones=[(G, 0, "w"), (G, 1, "w"), (G, 2, "w")], weighted=True, T=2, series=["p_max_pu"],
                       give=["p_max_pu", "p_min_pu", "efficiency"]),
    "lines four": dict(busmap=["A", "A", "B", "B", "C"], lines=[(0, 2), (3, 1), (1, 2), (4, 0)], vs=[0, 0, 1, 1, 0]),
    "stores three": dict(busmap=["A", "A", "A"], ones=[(S, 0, ""), (S, 1, ""), (S, 2, "")], one=[S], T=2, series=["p_set"]),
    "all levels": dict(busmap=AABB, lines=[(0, 2), (1, 3)]),
    "everything": dict(busmap=AABB + ["C"], ones=[(G, 0, "w"), (G, 1, "w"), (L, 2, ""), (L, 3, ""), (S, 4, ""), (U, 4, "")],
                       weighted=True, one=[L, S, U], lines=[(0, 2), (4, 1)], links=[(0, 4), (3, 2, 0)], T=2, series=["p_set", "p_max_pu", "inflow"],
                       give=["p_set", "p_max_pu", "inflow", "e_initial"], extra=True, vs=[0] * 5),
}
STUBS = {"chain": dict(lines=[(0, 1), (1, 2), (2, 0), (2, 3), (3, 4)]), "star": dict(lines=[(0, 1), (0, 2), (0, 3), (1, 2)]),
         "countries": dict(lines=[(0, 1), (1, 2), (2, 0), (2, 3), (3, 4)], attrs="xxxxy"),
         "ring": dict(lines=[(0, 1), (1, 2), (2, 0)])}


def jobs(tier):
    out = [(k, check, v) for k, v in CASES.items()]
    out += [(f"stubs {k}", stubs, v) for k, v in STUBS.items()]
    if tier == "thorough":
        out += [(k, check, v) for k, v in MORE.items()]
    return out
