"""Kirchhoff's voltage law in the optimisation."""

from symx.opt import buses, equiv, model, network, series

FUNCTIONS = ["create_model", "define_kirchhoff_voltage_constraints", "determine_network_topology", "find_cycles",
             "graph", "adjacency_matrix", "calculate_dependent_values", "apply_line_types", "apply_transformer_types",
             "apply_transformer_t_model", "get_active_assets"]
BOUNDS = ("networks of 2-5 buses and up to 8 branches with up to 4 independent cycles, 1-2 snapshots, 1-2 investment "
          "periods, every structure below x every value of impedance, nominal voltage, capacity and tap ratio "
          "(impedances > 0) and every value of the flows")
OUTSIDE = "larger meshes; zero or infinite impedance; phase shifters (documented as ignored by the optimisation)"


def structure(ctx, br, nb=3, T=1, ext=(), carrier="AC", tap=(), inactive=(), sub2=None, links=0, vn="one"):
    """br: list of (kind, bus0, bus1)"""
    n = network(T)
    names = [chr(97 + i) for i in range(nb)]
    for i, b in enumerate(names):
        car = carrier if not sub2 or b not in sub2[0] else sub2[1]
        v = ctx.pos("vn" if car == carrier else "vn2") if vn == "one" else ctx.pos(f"vn{b}")
        ctx.add(n, "Bus", b, carrier=car, v_nom=v)
        ctx.add(n, "Load", f"l{b}", bus=b, p_set=ctx.real(f"l{b}"))
        ctx.add(n, "Generator", f"g{b}", bus=b, p_nom=50, p_min_pu=-1, marginal_cost=1 + i)
    for k, (kind, i, j) in enumerate(br):
        kw = dict(bus0=names[i], bus1=names[j], x=ctx.pos(f"x{k}"), r=ctx.pos(f"r{k}"))
        if k in inactive:
            kw["active"] = False
        if kind == "L":
            if k in ext:
                kw.update(s_nom_extendable=True, s_nom=10.0)
            else:
                kw.update(s_nom=ctx.pos(f"s{k}"))
            ctx.add(n, "Line", f"b{k}", **kw)
        else:
            kw.update(s_nom=ctx.pos(f"s{k}"), model="pi")
            if k in ext:
                kw.update(s_nom_extendable=True)
            if k in tap:
                kw.update(tap_ratio=ctx.pos(f"t{k}"))
            ctx.add(n, "Transformer", f"b{k}", **kw)
    for k in range(links):
        ctx.add(n, "Link", f"k{k}", bus0=names[k % nb], bus1=names[(k + 2) % nb], p_nom=5, p_min_pu=-1)
    ctx.finish(n)
    m = model(ctx, n)
    equiv(ctx, n, m, own=("kvl",), back=("kvl",))


def periods(ctx, br, life, nb=3, T=1):
    n = network(T, [2020, 2030, 2040][: 3 if any(l[0] > 2030 for l in life) else 2])
    names = [chr(97 + i) for i in range(nb)]
    for i, b in enumerate(names):
        ctx.add(n, "Bus", b, v_nom=ctx.pos("vn"))
        ctx.add(n, "Load", f"l{b}", bus=b, p_set=ctx.real(f"l{b}"))
        ctx.add(n, "Generator", f"g{b}", bus=b, p_nom=50, p_min_pu=-1, marginal_cost=1 + i)
    for k, ((kind, i, j), (b, l)) in enumerate(zip(br, life)):
        kw = dict(bus0=names[i], bus1=names[j], x=ctx.pos(f"x{k}"), r=ctx.pos(f"r{k}"), build_year=b, lifetime=l,
                  s_nom=ctx.pos(f"s{k}"))
        ctx.add(n, {"L": "Line", "T": "Transformer"}[kind], f"b{k}", **kw)
    ctx.finish(n)
    equiv(ctx, n, model(ctx, n, multi=True), own=("kvl",), back=("kvl",), multi=True)


def L(*ps):
    return [("L", a, b) for a, b in ps]


def T_(*ps):
    return [("T", a, b) for a, b in ps]


TRI = L((0, 1), (1, 2), (2, 0))


def jobs(tier):
    o = []
    for a in range(8):  # every orientation of the triangle
        br = L(*[(p if a >> k & 1 else p[::-1]) for k, p in enumerate([(0, 1), (1, 2), (2, 0)])])
        o.append((f"triangle-orient{a}", structure, dict(br=br)))
    o.append(("radial", structure, dict(br=L((0, 1), (1, 2)))))
    o.append(("parallel", structure, dict(br=L((0, 1), (1, 0), (0, 1)), nb=2)))
    o.append(("parallel4", structure, dict(br=L((1, 0), (1, 0), (0, 1), (0, 1)), nb=2)))
    o.append(("parallel-line-trafo", structure, dict(br=L((0, 1)) + T_((0, 1), (1, 0)), nb=2, tap=(1,))))
    o.append(("two-parallel-pairs", structure, dict(br=L((0, 1), (0, 1), (1, 2), (2, 1), (0, 2)))))
    o.append(("trafo-triangle", structure, dict(br=T_((0, 1), (1, 2), (2, 0)), tap=(0, 2))))
    o.append(("mixed-triangle", structure, dict(br=L((0, 1), (1, 2)) + T_((2, 0),), tap=(2,), T=2)))
    o.append(("square-diagonal", structure, dict(br=L((0, 1), (1, 2), (2, 3), (3, 0), (0, 2)), nb=4)))
    o.append(("k4", structure, dict(br=L((0, 1), (2, 1), (2, 3), (3, 0), (0, 2), (1, 3)), nb=4)))
    o.append(("ext-lines", structure, dict(br=TRI, ext=(0, 1, 2), T=2)))
    o.append(("ext-trafo", structure, dict(br=L((0, 1), (1, 2)) + T_((2, 0),), ext=(1, 2))))
    o.append(("dc-triangle", structure, dict(br=TRI, carrier="DC", T=2)))
    o.append(("dc-parallel", structure, dict(br=L((0, 1), (1, 0)), nb=2, carrier="DC")))
    o.append(("ac-and-dc", structure, dict(br=TRI + L((3, 4), (4, 3)), nb=5, sub2=("de", "DC"), links=3)))
    o.append(("dc-and-ac", structure, dict(br=L((0, 1), (1, 0)) + L((2, 3), (3, 4), (4, 2)), nb=5,
                                           sub2=("cde", "AC"), carrier="DC", links=2)))
    o.append(("two-islands", structure, dict(br=TRI + L((3, 4), (3, 4)), nb=5)))
    o.append(("links-do-not-count", structure, dict(br=L((0, 1), (1, 2)), links=2)))
    o.append(("bus-voltages", structure, dict(br=TRI, vn="each")))
    for w in range(3):
        o.append((f"inactive-in-triangle{w}", structure, dict(br=TRI, inactive=(w,))))
    o.append(("inactive-parallel", structure, dict(br=L((0, 1), (0, 1), (1, 0)), nb=2, inactive=(0,))))
    o.append(("inactive-line-trafo", structure, dict(br=L((0, 1)) + T_((0, 1),), nb=2, inactive=(0,))))
    o.append(("inactive-trafos", structure, dict(br=TRI + T_((0, 1),), inactive=(3,))))
    o.append(("inactive-bridge", structure, dict(br=TRI + L((3, 4), (4, 3), (0, 3), (1, 4)), nb=5, inactive=(5, 6))))
    o.append(("inactive-two", structure, dict(br=L((0, 1), (1, 2), (2, 3), (3, 0), (0, 2), (1, 3)), nb=4,
                                              inactive=(0, 4))))
    o.append(("periods-closing", periods, dict(br=TRI, life=[(2010, 100), (2010, 100), (2030, 20)])))
    o.append(("periods-opening", periods, dict(br=TRI, life=[(2010, 100), (2010, 15), (2010, 40)], T=2)))
    o.append(("periods-parallel", periods, dict(br=L((0, 1), (0, 1), (1, 0)), nb=2,
                                                life=[(2020, 10), (2010, 100), (2030, 10)])))
    o.append(("periods-swap", periods, dict(br=TRI + L((0, 2), (2, 1)), life=[
        (2010, 100), (2020, 10), (2030, 10), (2020, 20), (2025, 10)])))
    o.append(("periods-trafo", periods, dict(br=L((0, 1), (1, 2)) + T_((2, 0), (0, 2)), life=[
        (2010, 100), (2010, 100), (2030, 10), (2020, 10)])))
    o.append(("periods-late-trafos", periods, dict(br=L((0, 1), (1, 2), (2, 0)) + T_((2, 0),), life=[
        (2010, 100), (2010, 100), (2010, 100), (2030, 10)])))
    if tier == "thorough":
        import itertools
        import random

        pairs = list(itertools.combinations(range(4), 2))
        rnd = random.Random(7)
        for i in range(40):
            nb = rnd.choice([3, 4, 5])
            pr = list(itertools.combinations(range(nb), 2))
            br = []
            for _ in range(rnd.randint(nb, nb + 3)):
                a, b = rnd.choice(pr)
                if rnd.random() < 0.5:
                    a, b = b, a
                br.append((rnd.choice("LLT"), a, b))
            ina = tuple(k for k in range(len(br)) if rnd.random() < 0.15)
            o.append((f"random{i}", structure, dict(br=br, nb=nb, inactive=ina, tap=tuple(range(0, len(br), 2)),
                                                    carrier="DC" if i % 5 == 0 else "AC")))
        for i in range(12):
            br = [(rnd.choice("LLT"), *rnd.sample(range(4), 2)) for _ in range(5)]
            life = [(rnd.choice([2010, 2020, 2025, 2030, 2040]), rnd.choice([10, 15, 20, 100])) for _ in br]
            o.append((f"random-periods{i}", periods, dict(br=br, life=life, nb=4)))
    return o
