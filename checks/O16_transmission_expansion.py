"""Iterative transmission expansion: impedances follow the expanded capacities, everything else is as it was."""

import math


from symx.formula import Bool, eq, ge, gt, le
from symx.opt import buses, equiv, network
from symx.solve import Solver

FUNCTIONS = ["optimize_transmission_expansion_iteratively", "update_line_params", "msq_diff", "save_optimal_capacities",
             "discretize_branch_components", "discretized_capacity", "apply_line_types", "calculate_dependent_values",
             "create_model", "define_kirchhoff_voltage_constraints", "define_nominal_constraints_for_extendables"]
BOUNDS = ("2-3 buses, 1-4 lines (AC and DC, with and without a type, expandable, fixed, inactive) and 0-3 links, 1-4 iterations; "
          "all impedances, ratings and lengths and every positive capacity the solver may return in each iteration symbolic; "
          "discretisation: every capacity, maximum and threshold, unit sizes as listed")
OUTSIDE = ("a line whose optimal capacity is zero (its impedance would be infinite); buses of other carriers than AC and DC; a "
           "second call on the same network, whose impedances already belong to the expanded capacities; the expansion costs "
           "added to the objective afterwards; resistance of AC lines")

OUT = {"Line": ("s_nom_opt", "x_pu", "r_pu", "g_pu", "b_pu", "x_pu_eff", "r_pu_eff", "sub_network", "v_nom", "g", "b"),
       "Link": ("p_nom_opt",), "Bus": ("sub_network", "generator", "control", "v_mag_pu_set"), "Generator": ("p_nom_opt", "control"),
       "Load": (), "LineType": ("sub_network",)}


def snapshot(n):
    d = {}
    for c in ("Line", "Link", "Bus", "Generator", "Load"):
        st = n.static(c)
        for g in st.index:
            for a in st.columns:
                if a not in OUT[c] and not a.startswith(("s_nom_opt_", "p_nom_opt_")):
                    d[c, g, a] = st.at[g, a]
    return d


def same(a, b):
    if a is b:
        return None
    try:
        return eq(a, b) if not isinstance(a, (str, bool)) and not isinstance(b, (str, bool)) and a == a and b == b else a == b
    except TypeError:
        return a == b


def unchanged(before, now, except_, tag):
    goals = []
    for k, v in before.items():
        if k in except_:
            continue
        w = now.get(k)
        if isinstance(v, float) and v != v:
            goals.append(Bool(isinstance(w, float) and w != w, f"{tag}: {k} is unchanged"))
        elif isinstance(v, (str, bool)) or (isinstance(v, float) and math.isinf(v)) or type(v).__name__ in ("bool_", "bool"):
            goals.append(Bool(w == v, f"{tag}: {k} is unchanged"))
        else:
            goals.append(eq(w, v, f"{tag}: {k} is unchanged"))
    return goals


def net(ctx, lines, links, T):
    n = network(T)
    dc = any(kind.startswith("dc") for kind in lines)
    buses(ctx, n, "abc", v_nom=380.0)
    if dc:
        buses(ctx, n, "xyz", v_nom=320.0, carrier="DC")
    n.add("LineType", "own", f_nom=50.0, r_per_length=0.03, x_per_length=0.3, c_per_length=10.0, i_nom=0.5)
    for b in ("a", "x") if dc else ("a",):
        ctx.add(n, "Generator", f"g{b}", bus=b, p_nom=100, marginal_cost=1)
        ctx.add(n, "Load", f"l{b}", bus={"a": "b", "x": "y"}[b], p_set=ctx.real(f"l{b}"))
    ends = {"ac": iter(["ab", "bc", "ca", "ab", "bc"]), "dc": iter(["xy", "yz", "zx", "xy"])}
    for i, kind in enumerate(lines):
        b0, b1 = next(ends[kind[:2]])
        kw = dict(bus0=b0, bus1=b1, s_nom=ctx.pos(f"s{i}"))
        if "typed" in kind:
            kw.update(type="own", length=ctx.pos(f"len{i}"), num_parallel=ctx.pos(f"np{i}"))
        else:
            kw.update(x=ctx.pos(f"x{i}"), r=ctx.pos(f"r{i}"))
        if "ext" in kind:
            kw.update(s_nom_extendable=True, s_nom_max=12.5 if "max" in kind else math.inf)
        if "off" in kind:
            kw.update(active=False)
        ctx.add(n, "Line", f"L{i}", **kw)
    for i, kind in enumerate(links):
        ctx.add(n, "Link", f"K{i}", bus0="a", bus1="b", p_nom=ctx.pos(f"p{i}"), carrier=kind.split("-")[0],
                p_nom_extendable="ext" in kind, p_nom_max=9.0 if "max" in kind else math.inf)
    ctx.finish(n)
    return n


def floor(x):
    return x // 1


def expand(ctx, lines=("ac-ext",) * 3, links=(), T=1, K=1, track=False, unit=None, link_unit=None, threshold=None,
           link_threshold=None, fractional=False, fail=None, stop=False, full=True):
    n = net(ctx, lines, links, T)
    L, D = n.lines, n.links
    ext = [g for g, kind in zip(L.index, lines) if "ext" in kind and "off" not in kind]
    extoff = [g for g, kind in zip(L.index, lines) if "ext" in kind and "off" in kind]
    typed = [g for g, kind in zip(L.index, lines) if "typed" in kind]
    dcl = [g for g, kind in zip(L.index, lines) if kind.startswith("dc")]
    carriers = {"DC"} | set(link_unit or {})
    fixed_links = [g for g in D.index if D.at[g, "p_nom_extendable"] and D.at[g, "carrier"] in carriers]
    before = snapshot(n)
    s0 = {g: L.at[g, "s_nom"] for g in L.index}
    p0 = {g: D.at[g, "p_nom"] for g in D.index}
    z0 = {g: (L.at[g, "x"], L.at[g, "r"]) for g in L.index}
    base = {g: math.sqrt(3) * 0.5 * 380.0 for g in typed}
    cap = [dict(s0)]  # capacity the impedances of run k belong to
    lcap = []
    changed = {("Line", g, "carrier") for g in L.index} | {("Line", g, a) for g in typed for a in ("x", "r", "b", "g")}
    for g in ext:
        changed |= {("Line", g, a) for a in (["num_parallel"] if g in typed else ["r" if g in dcl else "x"])}
    err = []

    def impedances(k, tag):
        goals = []
        for g in ext:
            if g in typed:
                goals.append(eq(n.lines.at[g, "num_parallel"] * base[g], cap[k][g], f"{tag}: {g} has the circuits of its capacity"))
            else:
                i = 1 if g in dcl else 0
                goals.append(eq(n.lines.at[g, "r" if i else "x"] * cap[k][g], z0[g][i] * s0[g],
                                f"{tag}: impedance of {g} scaled by its capacity"))
        return goals

    def typed_values(tag):
        goals = []
        for g in typed:
            if g in extoff:
                continue
            np_ = n.lines.at[g, "num_parallel"]
            goals.append(eq(n.lines.at[g, "x"] * np_, 0.3 * n.lines.at[g, "length"], f"{tag}: reactance of {g} from its type"))
        return goals

    def want_line(g):
        opt = cap[-1][g]
        return opt if not unit else discrete(opt, n.lines.at[g, "s_nom_max"], unit, threshold or 0.3, fractional)

    def want_link(g):
        opt = lcap[-1][g]
        c = n.links.at[g, "carrier"]
        if not link_unit or c not in link_unit:
            return opt
        return discrete(opt, n.links.at[g, "p_nom_max"], link_unit[c], (link_threshold or {}).get(c, 0.3), fractional)

    def on_solve(k, lp):
        final = k == K
        tag = "last run" if final else f"run {k}"
        now = snapshot(n)
        skip = set(changed)
        goals = impedances(k, tag) + typed_values(tag)
        if final:
            skip |= {("Line", g, a) for g in ext for a in ("s_nom", "s_nom_extendable")}
            skip |= {("Link", g, a) for g in fixed_links for a in ("p_nom", "p_nom_extendable")}
            goals += [eq(n.lines.at[g, "s_nom"], want_line(g), f"{tag}: {g} is built as optimised") for g in ext]
            goals += [eq(n.links.at[g, "p_nom"], want_link(g), f"{tag}: {g} is built as optimised") for g in fixed_links]
            goals += [Bool(not n.lines.at[g, "s_nom_extendable"], f"{tag}: {g} is not expanded") for g in ext]
            goals += [Bool(not n.links.at[g, "p_nom_extendable"], f"{tag}: {g} is not expanded") for g in fixed_links]
        ctx.prove(tag, goals + unchanged(before, now, skip, tag))
        if full:
            equiv(ctx, n, lp.m, lp=lp)
        if not final:
            nxt = dict(s0)
            for g in ext:
                v = lp.get("Line-s_nom", g)
                ctx.assume(gt(v, 0))
                if "max" in lines[list(L.index).index(g)]:
                    ctx.assume(le(v, n.lines.at[g, "s_nom_max"]))
                nxt[g] = v
            for g in extoff:
                ctx.assume(ge(lp.get("Line-s_nom", g), 0))
            nl = dict(p0)
            for g in D.index:
                v = lp.get("Link-p_nom", g)
                if v is not None:
                    ctx.assume(ge(v, 0))
                    if math.inf != n.links.at[g, "p_nom_max"]:
                        ctx.assume(le(v, n.links.at[g, "p_nom_max"]))
                    nl[g] = v
            cap.append(nxt)
            lcap.append(nl)

    kw = {}
    if unit:
        kw.update(line_unit_size=unit)
    if link_unit:
        kw.update(link_unit_size=dict(link_unit))
    if threshold:
        kw.update(line_threshold=threshold)
    if link_threshold:
        kw.update(link_threshold=dict(link_threshold))
    if fractional:
        kw.update(fractional_last_unit_size=True)
    if not stop:
        kw.update(min_iterations=K, max_iterations=K, msq_threshold=-1.0)
    with Solver(ctx, duals=False, on_solve=on_solve,
                status=(lambda k: ("warning", "infeasible") if k == fail else ("ok", "optimal"))) as sol:
        try:
            res = n.optimize.optimize_transmission_expansion_iteratively(track_iterations=track, **kw)
        except RuntimeError as e:
            err.append(e)
    if fail is not None:
        ctx.prove("failure", [Bool(len(sol.runs) == fail + 1, "a failed run stops the iteration"),
                              Bool(len(err) == 1 if fail < K else tuple(res) == ("warning", "infeasible"), "the failure is reported")])
        if fail < K:
            return
        ctx.prove("after", impedances(K, "after") + unchanged(before, snapshot(n), changed, "after"))
        return
    ctx.prove("runs", [Bool(not err and len(sol.runs) == K + 1, "every iteration and the last run are solved"),
                       Bool(tuple(res) == ("ok", "optimal"), "status of the last run")])
    final = sol.runs[-1]
    goals = impedances(K, "after") + typed_values("after") + unchanged(before, snapshot(n), changed, "after")
    for g in ext:
        goals.append(eq(n.lines.at[g, "s_nom_opt"], want_line(g), f"{g} keeps the capacity of the last run"))
    for g in fixed_links:
        goals.append(eq(n.links.at[g, "p_nom_opt"], want_link(g), f"{g} keeps the capacity of the last run"))
    for g in D.index:
        if g not in fixed_links and D.at[g, "p_nom_extendable"]:
            goals.append(eq(n.links.at[g, "p_nom_opt"], final.get("Link-p_nom", g), f"{g} has the capacity of the last run"))
    for t in n.snapshots:
        for g in L.index:
            x = final.get("Line-s", t, g)
            if x is not None:
                goals.append(eq(n.lines_t.p0.at[t, g], x, f"flow of {g} is that of the last run"))
    if track:
        for k in range(K + 1):
            for g in L.index:
                if g not in extoff:
                    goals.append(eq(n.lines.at[g, f"s_nom_opt_{k}"], cap[k][g] if k or g in ext else s0[g], f"capacity {g} of iteration {k}"))
            for g in D.index:
                goals.append(eq(n.links.at[g, f"p_nom_opt_{k}"], lcap[k - 1][g] if k else p0[g], f"capacity {g} of iteration {k}"))
            if k:
                goals.append(Bool(getattr(n, f"status_{k}") == "ok", f"status of iteration {k}"))
        goals.append(Bool(n.iteration == K, "number of iterations"))
    ctx.prove("after", goals)


def discrete(opt, top, unit, thr, fractional):
    """the documented rounding to whole units"""
    q = floor(opt / unit)
    rest = opt - q * unit
    up = bool(rest >= thr * unit)
    if isinstance(top, float) and math.isinf(top):
        return (q + up) * unit
    m = floor(top / unit)
    if bool(top == m * unit) or bool(q < m):
        return (q + up) * unit
    if fractional and bool(rest >= thr * (top - m * unit)):
        return top
    if bool(top < unit):
        return top
    return q * unit


def capacity(ctx, unit=5, fractional=False, top=True, thr=None, whole=False):
    """the rounding rule by itself, for all capacities, maxima and thresholds"""
    from pypsa.optimization.abstract import discretized_capacity

    opt = ctx.real("opt", 0, 40)
    t = thr or ctx.real("thr", 0, 1, strict=True)
    if not thr:
        ctx.assume(le(t, 1))
    mx = math.inf
    if top:
        mx = ctx.int("maxk", 1, 8) * unit if whole else ctx.real("max", 0, 40, strict=True)
        ctx.assume(le(opt, mx))
    got = discretized_capacity(nom_opt=opt, nom_max=mx, unit_size=unit, threshold=t, fractional_last_unit_size=fractional)
    goals = [eq(got, discrete(opt, mx, unit, t, fractional), "documented rounding"), ge(got, 0, "not negative"),
             gt(got, opt - unit, "less than one unit taken away")]
    if top:
        goals.append(le(got, mx, "at most the maximum"))
    if not top or whole:
        goals.append(eq(got, floor(got / unit) * unit, "whole units"))
        goals.append(le(got, opt + (1 - t) * unit, "a unit is added only above the threshold"))
        goals.append(gt(got, opt - t * unit, "a unit is left out only below the threshold"))
    ctx.prove("capacity", goals)
    ctx.reach([])


def stopping(ctx, K=3, least=1, most=3):
    """iterations end as soon as capacities change by less than the threshold, within the given numbers"""
    n = net(ctx, ("ac-ext",), (), 1)
    thr = ctx.real("thr", 0, 10, strict=True)
    caps = [n.lines.at["L0", "s_nom"]]

    def on_solve(k, lp):
        v = lp.get("Line-s_nom", "L0")
        if v is not None:
            ctx.assume(gt(v, 0))
            caps.append(v)

    with Solver(ctx, duals=False, on_solve=on_solve) as sol:
        n.optimize.optimize_transmission_expansion_iteratively(msq_threshold=thr, min_iterations=least, max_iterations=most)
    runs = len(sol.runs) - 1
    goals = [Bool(least <= runs <= most, "number of iterations")]
    for k in range(1, runs + 1):
        dev = caps[k] - caps[k - 1]
        # |dev| / cap compared with the threshold
        small = dev < thr * caps[k] and 0 - dev < thr * caps[k]
        stop = k >= most or (k >= least and bool(small))
        goals.append(Bool(stop == (k == runs), f"{'stops' if k == runs else 'continues'} after iteration {k}"))
    ctx.prove("stopping", goals)
    ctx.reach([])


def jobs(tier):
    o = []
    tri = ("ac-ext",) * 3
    for K in (1, 2):
        o.append((f"triangle-{K}", expand, dict(lines=tri, K=K)))
    o.append(("mixed", expand, dict(lines=("ac-ext", "ac", "ac-ext"), K=1, links=("DC-ext", "AC-ext", "DC"))))
    o.append(("mixed-2", expand, dict(lines=("ac", "ac-ext"), K=2, links=("DC-ext", "AC-ext", "DC"), track=True)))
    o.append(("track-3", expand, dict(lines=("ac-ext", "ac"), K=3, track=True, links=("DC-ext",))))
    o.append(("dc", expand, dict(lines=("ac", "dc-ext", "dc-ext", "dc"), K=2)))
    o.append(("both", expand, dict(lines=("ac-ext", "ac", "ac", "dc-ext", "dc-ext", "dc"), K=1)))
    o.append(("typed", expand, dict(lines=("ac-typed-ext", "ac-typed", "ac-ext"), K=1)))
    o.append(("typed-2", expand, dict(lines=("ac-typed-ext", "ac-typed-ext"), K=2, track=True)))
    o.append(("inactive", expand, dict(lines=("ac-ext", "ac-ext-off", "ac"), K=2)))
    o.append(("none", expand, dict(lines=("ac", "ac"), links=("DC-ext",), K=1)))
    o.append(("snapshots", expand, dict(lines=("ac-ext", "ac-ext"), T=2, K=2)))
    o.append(("units", expand, dict(lines=("ac-ext", "ac"), links=("DC-ext", "DC"), K=1, unit=5, link_unit={"DC": 4}, full=False)))
    o.append(("units-max", expand, dict(lines=("ac-ext-max", "ac"), K=1, unit=5, threshold=0.5, full=False)))
    o.append(("units-fractional", expand, dict(lines=("ac-ext-max",), K=1, unit=5, fractional=True, full=False)))
    o.append(("units-links", expand, dict(lines=("ac",), links=("DC-ext", "H2-ext", "gas-ext", "H2"), K=1,
                                          link_unit={"H2": 3, "none": 2}, link_threshold={"H2": 0.4}, full=False)))
    for f in (0, 1, 2):
        o.append((f"fail-{f}", expand, dict(lines=("ac-ext",), K=2, fail=f, full=False)))
    for unit in (1, 5, 7.5):
        for fr in (False, True):
            o.append((f"capacity-{unit}-{fr}", capacity, dict(unit=unit, fractional=fr)))
        o.append((f"capacity-{unit}-open", capacity, dict(unit=unit, top=False)))
        o.append((f"capacity-{unit}-whole", capacity, dict(unit=unit, whole=True)))
    for least, most in ((1, 1), (1, 2), (2, 2)):
        o.append((f"stopping-{least}-{most}", stopping, dict(least=least, most=most)))
    if tier == "thorough":
        for K in (3, 4):
            o.append((f"triangle-{K}", expand, dict(lines=tri, K=K)))
            o.append((f"typed-{K}", expand, dict(lines=("ac-typed-ext", "ac-typed", "ac-ext"), K=K, track=True)))
            o.append((f"both-{K}", expand, dict(lines=("ac-ext", "ac", "ac", "dc-ext", "dc-ext", "dc"), K=K, links=("DC-ext",))))
            o.append((f"units-{K}", expand, dict(lines=("ac-ext-max", "ac-ext"), links=("DC-ext-max",), K=K, unit=5,
                                                 link_unit={"DC": 4}, full=False)))
        o.append(("stopping-1-3", stopping, dict(least=1, most=3)))
        o.append(("stopping-2-3", stopping, dict(least=2, most=3)))
    return o
