"""Nodal energy balance."""

from symx.formula import Bool, Rel, ne
from symx.opt import buses, equiv, model, network, series
from symx.sym import Sym

FUNCTIONS = ["create_model", "define_nodal_balance_constraints", "define_operational_variables",
             "get_switchable_as_dense", "additional_linkports", "get_strongly_meshed_buses", "get_activity_mask",
             "update_linkports_component_attrs"]
BOUNDS = ("networks of 1-4 buses (one with 47 components at a bus to reach the split formulation), 1-3 snapshots, "
          "1-2 investment periods, up to 8 components; every efficiency, sign, load, capacity and the values of all "
          "decision variables are unconstrained reals")
OUTSIDE = "larger networks; more than 4 link ports; float rounding"


def oneports(ctx, T=2, ts=False):
    n = network(T)
    buses(ctx, n, "abc")
    r = ctx.real
    ctx.add(n, "Generator", "g1", bus="a", p_nom=r("g1"), sign=r("sg1"), p_min_pu=-1)
    ctx.add(n, "Generator", "g2", bus="b", p_nom_extendable=True, sign=r("sg2"))
    ctx.add(n, "Generator", "g3", bus="a", p_nom=r("g3"), p_max_pu=series(ctx, "pu", T, ts))
    ctx.add(n, "Store", "st", bus="b", e_nom=r("e"), sign=r("ss"))
    ctx.add(n, "Store", "st2", bus="c", e_nom_extendable=True, e_cyclic=True)
    ctx.add(n, "StorageUnit", "su", bus="c", p_nom=r("su"), sign=r("ssu"))
    ctx.add(n, "StorageUnit", "su2", bus="a", p_nom_extendable=True, cyclic_state_of_charge=True)
    for i, b in enumerate("aabc"):
        ctx.add(n, "Load", f"l{i}", bus=b, p_set=series(ctx, f"l{i}", T, ts and i != 2), sign=r(f"sl{i}"))
    ctx.finish(n)
    equiv(ctx, n, model(ctx, n), own=("balance",), back=("balance",))


def links(ctx, T=2, ts=False, ports=3, extra_col=False):
    n = network(T)
    buses(ctx, n, "abcd")
    r = ctx.real
    for i, b in enumerate("abcd"):
        ctx.add(n, "Load", f"l{b}", bus=b, p_set=series(ctx, f"l{b}", T, ts and i % 2))
    kw = {}
    if ports >= 2:
        kw.update(bus2="c", efficiency2=series(ctx, "k1e2", T, ts))
    if ports >= 3:
        kw.update(bus3="d", efficiency3=r("k1e3"))
    ctx.add(n, "Link", "k1", bus0="a", bus1="b", efficiency=series(ctx, "k1e", T, ts), p_nom=r("k1"), p_min_pu=-1, **kw)
    kw = {}
    if ports >= 2:
        kw.update(bus2="a", efficiency2=r("k2e2"))
    ctx.add(n, "Link", "k2", bus0="b", bus1="c", efficiency=r("k2e"), p_nom_extendable=True, **kw)
    # single-output link in a network with multi-port links; feeds back into its own bus
    ctx.add(n, "Link", "k3", bus0="d", bus1="d", efficiency=series(ctx, "k3e", T, ts), p_nom=r("k3"))
    if ports >= 3:
        ctx.add(n, "Link", "k4", bus0="c", bus1="a", bus3="b", efficiency3=series(ctx, "k4e3", T, ts), p_nom=r("k4"))
    ctx.finish(n)
    equiv(ctx, n, model(ctx, n), own=("balance",), back=("balance",))


def grid(ctx, T=1, losses=0, ts=False):
    n = network(T)
    buses(ctx, n, "abc", v_nom=ctx.pos("vn"))
    r = ctx.real
    for b in "abc":
        ctx.add(n, "Load", f"l{b}", bus=b, p_set=series(ctx, f"l{b}", T, ts))
        ctx.add(n, "Generator", f"g{b}", bus=b, p_nom=r(f"g{b}"))
    kw = dict(s_nom_max=ctx.pos("smax")) if losses else {}
    ctx.add(n, "Line", "ab", bus0="a", bus1="b", x=ctx.pos("x1"), r=ctx.pos("r1"), s_nom=ctx.pos("s1"))
    ctx.add(n, "Line", "ba", bus0="b", bus1="a", x=ctx.pos("x2"), r=ctx.pos("r2"), s_nom_extendable=True, **kw)
    ctx.add(n, "Transformer", "bc", bus0="b", bus1="c", x=ctx.pos("x3"), r=ctx.pos("r3"), s_nom=ctx.pos("s3"))
    ctx.add(n, "Link", "ca", bus0="c", bus1="a", p_nom=r("k"), efficiency=r("ke"))
    ctx.finish(n)
    equiv(ctx, n, model(ctx, n, losses=losses), own=("balance",), back=("balance",), losses=losses)


def inactive(ctx, which, T=1):
    n = network(T)
    buses(ctx, n, "ab")
    r = ctx.real

    def act(k):
        return dict(active=k != which)

    for b in "ab":
        ctx.add(n, "Load", f"x{b}", bus=b, p_set=r(f"x{b}"))
        ctx.add(n, "Generator", f"y{b}", bus=b, p_nom=r(f"y{b}"))
    ctx.add(n, "Load", "l", bus="b", p_set=series(ctx, "l", T, True), **act("Load"))
    ctx.add(n, "Generator", "g", bus="a", p_nom=r("g"), **act("Generator"))
    ctx.add(n, "Generator", "ge", bus="a", p_nom_extendable=True, **act("GenExt"))
    ctx.add(n, "Store", "s", bus="a", e_nom=r("s"), **act("Store"))
    ctx.add(n, "StorageUnit", "u", bus="b", p_nom=r("u"), **act("StorageUnit"))
    ctx.add(n, "Link", "k", bus0="a", bus1="b", p_nom=r("k"), efficiency=r("ke"), **act("Link"))
    ctx.add(n, "Line", "i", bus0="a", bus1="b", x=1, s_nom=r("i"), **act("Line"))
    ctx.add(n, "Transformer", "t", bus0="b", bus1="a", x=0.1, s_nom=ctx.pos("t"), **act("Transformer"))
    ctx.finish(n)
    equiv(ctx, n, model(ctx, n), own=("balance",), back=("balance",))


def periods(ctx, T=1):
    n = network(T, [2020, 2030])
    buses(ctx, n, "ab")
    r = ctx.real
    k = 2 * T
    for b in "ab":
        ctx.add(n, "Load", f"x{b}", bus=b, p_set=series(ctx, f"x{b}", k, b == "a"))
        ctx.add(n, "Generator", f"y{b}", bus=b, p_nom=r(f"y{b}"))
    ctx.add(n, "Generator", "old", bus="a", p_nom=r("old"), build_year=2010, lifetime=15)
    ctx.add(n, "Generator", "new", bus="a", p_nom_extendable=True, build_year=2030, lifetime=20)
    ctx.add(n, "Generator", "edge", bus="b", p_nom=r("edge"), build_year=2020, lifetime=10)
    ctx.add(n, "Link", "k", bus0="a", bus1="b", p_nom=r("k"), efficiency=series(ctx, "ke", k, True), build_year=2025)
    ctx.add(n, "Store", "s", bus="b", e_nom=r("s"), build_year=2030, e_cyclic=True)
    ctx.add(n, "StorageUnit", "u", bus="b", p_nom=r("u"), lifetime=2025, cyclic_state_of_charge=True)
    ctx.add(n, "Line", "i", bus0="a", bus1="b", x=1, s_nom=r("i"), build_year=2020, lifetime=5)
    ctx.finish(n)
    equiv(ctx, n, model(ctx, n, multi=True), own=("balance",), back=("balance",), multi=True)


def subset(ctx, sel):
    n = network(4)
    buses(ctx, n, "ab")
    r = ctx.real
    ctx.add(n, "Load", "la", bus="a", p_set=ctx.reals("la", 4))
    ctx.add(n, "Load", "lb", bus="b", p_set=r("lb"))
    ctx.add(n, "Generator", "g", bus="a", p_nom=r("g"), p_max_pu=ctx.reals("pu", 4))
    ctx.add(n, "Generator", "h", bus="b", p_nom=r("h"), marginal_cost=2)
    ctx.add(n, "Link", "k", bus0="a", bus1="b", p_nom=r("k"), efficiency=ctx.reals("e", 4))
    ctx.finish(n)
    sns = n.snapshots[list(sel)]
    equiv(ctx, n, model(ctx, n, sns=sns), own=("balance",), back=("balance",), sns=sns)


def hub(ctx, N=47):
    """more components at one bus than the threshold that splits the formulation"""
    n = network(1)
    buses(ctx, n, "ab")
    for i in range(N):
        ctx.add(n, "Generator", f"g{i}", bus="a", p_nom=10.0, sign=ctx.real(f"s{i}") if i < 4 else 1.0)
    ctx.add(n, "Generator", "h", bus="b", p_nom=ctx.real("h"), marginal_cost=1)
    ctx.add(n, "Load", "la", bus="a", p_set=ctx.real("la"))
    ctx.add(n, "Load", "lb", bus="b", p_set=ctx.real("lb"))
    ctx.add(n, "Link", "k", bus0="a", bus1="b", p_nom=ctx.real("k"), efficiency=ctx.real("e"))
    ctx.add(n, "Link", "k2", bus0="b", bus1="b", bus2="a", p_nom=ctx.real("k2"), efficiency2=ctx.real("e2"))
    ctx.finish(n)
    equiv(ctx, n, model(ctx, n), own=("balance",), back=("balance",))


def ports(ctx, last=2, names="abc", hubsize=0, branches=False):
    """links with every assignment of buses to their ports, coinciding ones and gaps included"""
    import itertools

    n = network(1)
    buses(ctx, n, names, v_nom=10)
    for b in names:
        ctx.add(n, "Generator", f"g{b}", bus=b, p_nom=10, marginal_cost=1)
        ctx.add(n, "Load", f"l{b}", bus=b, p_set=ctx.real(f"l{b}"))
    for i in range(hubsize):
        ctx.add(n, "Generator", f"h{i}", bus="a", p_nom=10.0)
    opts = [names] + [list(names) + [""]] * (last - 1)
    for x in itertools.product(*opts):
        kw = {}
        for i, b in enumerate(x, 1):
            kw[f"bus{i}"] = b
            kw["efficiency" + ("" if i == 1 else str(i))] = ctx.real(f"e{i}{''.join(y or '-' for y in x)}")
        ctx.add(n, "Link", "k" + "".join(y or "-" for y in x), bus0="a", p_nom=ctx.real("nom"), **kw)
    if branches:
        for i, (u, v) in enumerate(itertools.product(names, repeat=2)):
            if u != v:
                ctx.add(n, "Line", f"l{i}", bus0=u, bus1=v, x=0.5, r=0.1, s_nom=4)
                ctx.add(n, "Transformer", f"t{i}", bus0=u, bus1=v, x=0.5, r=0.1, s_nom=4)
    ctx.finish(n)
    equiv(ctx, n, model(ctx, n), own=("balance",), back=("balance",))


def empty_bus(ctx, load, gen_inactive=False):
    """a bus nothing can inject into: allowed exactly when its load is zero"""
    n = network(1)
    buses(ctx, n, "ab")
    ctx.add(n, "Generator", "g", bus="a", p_nom=ctx.real("g"), marginal_cost=1)
    ctx.add(n, "Load", "la", bus="a", p_set=ctx.real("la"))
    if gen_inactive:
        ctx.add(n, "Generator", "gb", bus="b", p_nom=ctx.real("gb"), active=False)
    x = 0
    if load:
        x = ctx.real("lb")
        ctx.add(n, "Load", "lb", bus="b", p_set=x)
    ctx.finish(n)
    try:
        m = model(ctx, n)
    except ValueError as e:
        if "nodal balance" not in str(e):
            raise
        ctx.prove("rejected only with an unservable load", [ne(x, 0, "load at b nonzero")])
        return
    equiv(ctx, n, m, own=("balance",), back=("balance",))


def jobs(tier):
    out = []
    for ts in (False, True):
        out.append((f"oneports-ts{int(ts)}", oneports, dict(ts=ts)))
        for p in (1, 2, 3):
            out.append((f"links{p}-ts{int(ts)}", links, dict(ts=ts, ports=p)))
    for L in (0, 1, 2):
        out.append((f"grid-loss{L}", grid, dict(losses=L, ts=L == 1)))
    for w in ("Load", "Generator", "GenExt", "Store", "StorageUnit", "Link", "Line", "Transformer"):
        out.append((f"inactive-{w}", inactive, dict(which=w)))
    out.append(("periods", periods, dict(T=1)))
    for sel in ([0, 1], [1, 2], [2, 3], [3]):
        out.append((f"subset-{sel}", subset, dict(sel=sel)))
    out.append(("hub", hub, {}))
    out.append(("ports-2", ports, dict(last=2)))
    out.append(("ports-3", ports, dict(last=3, names="ab")))
    out.append(("ports-hub", ports, dict(last=2, names="ab", hubsize=47)))
    out.append(("parallel-branches", ports, dict(last=1, branches=True)))
    for l in (False, True):
        for gi in (False, True):
            out.append((f"empty-load{int(l)}-inactive{int(gi)}", empty_bus, dict(load=l, gen_inactive=gi)))
    if tier == "thorough":
        for ts in (False, True):
            out.append((f"oneports-T3-ts{int(ts)}", oneports, dict(ts=ts, T=3)))
            out.append((f"links3-T3-ts{int(ts)}", links, dict(ts=ts, ports=3, T=3)))
            out.append((f"grid-T2-loss{int(ts)}", grid, dict(T=2, losses=int(ts), ts=True)))
        out.append(("periods-T2", periods, dict(T=2)))
        out.append(("ports-4", ports, dict(last=4, names="ab")))
        out.append(("ports-3-abc", ports, dict(last=3)))
        out.append(("hub60", hub, dict(N=60)))
    return out
