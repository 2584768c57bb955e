"""Security-constrained dispatch survives every listed outage."""

from checks.O02_voltage_law import TRI, L, T_
from checks.P04_factors import branch_data, bridge, kirchhoff, outage_ok, tabulate
from symx.formula import Bool, eq, le
from symx.opt import buses, equiv, network, series
from symx.solve import Solver

FUNCTIONS = ["optimize_security_constrained", "calculate_BODF", "calculate_PTDF", "calculate_B_H", "create_model",
             "define_operational_constraints_for_extendables", "define_operational_constraints_for_non_extendables",
             "SubNetwork.branches_i", "passive_branches"]
BOUNDS = ("2-5 buses, up to 6 lines and transformers in up to 2 sub-networks, every orientation, fixed and expandable ratings, "
          "rating factors static or over time, outages given as names, pairs or left out, inactive branches, 1-2 snapshots and "
          "subsets of them; every value of impedances, ratings and flows")
OUTSIDE = ("outages of branches that split a sub-network (no finite factor); several investment periods with different "
           "topologies; transmission losses")


def secure(ctx, br, nb=3, T=1, ext=(), tap=(), off=(), outages=None, form="list", sns=None, carriers="", pmax=(), ts=(), order=None,
           mod=(), links=0):
    n = network(T)
    names = [chr(97 + i) for i in range(nb)]
    for i, b in enumerate(names):
        car = "DC" if carriers[i:i + 1] == "D" else "AC"
        ctx.add(n, "Bus", b, carrier=car, v_nom=ctx.pos(f"v{car}"))
        ctx.add(n, "Load", f"l{b}", bus=b, p_set=ctx.real(f"l{b}"))
        ctx.add(n, "Generator", f"g{b}", bus=b, p_nom=50, p_min_pu=-1, marginal_cost=1 + i)
    comp = {}
    for k in order or range(len(br)):
        kind, i, j = br[k]
        c = comp[k] = {"L": "Line", "T": "Transformer"}[kind]
        kw = dict(bus0=names[i], bus1=names[j], x=ctx.pos(f"x{k}"), r=ctx.pos(f"r{k}"), active=k not in off)
        kw.update(s_nom=ctx.pos(f"s{k}"))
        if k in ext:
            kw.update(s_nom_extendable=True, s_nom_max=50.0)
        if k in pmax:
            kw["s_max_pu"] = series(ctx, f"smp{k}", T, k in ts, lo=0)
        if kind == "T":
            kw["model"] = "pi"
            if k in tap:
                kw["tap_ratio"] = ctx.pos(f"t{k}")
        ctx.add(n, c, f"b{k}", **kw)
    for k in range(links):
        ctx.add(n, "Link", f"k{k}", bus0=names[k], bus1=names[-1 - k], p_nom=5, p_min_pu=-1)
    ctx.finish(n)
    index = n.snapshots if sns is None else n.snapshots[list(sns)]
    listed = [(comp[k], f"b{k}") for k in (outages if outages is not None else comp)]
    kw = {}
    if outages is not None:
        import pandas as pd

        kw["branch_outages"] = ([x[1] for x in listed] if form == "list" else pd.Index([x[1] for x in listed]) if form == "index"
                                else pd.MultiIndex.from_tuples(listed))
    seen = []

    if ctx.sym:  # the premise, stated on the factors
        n.determine_network_topology()
        for sn in n.sub_networks.obj:
            b = branch_data(n, list(sn.buses_i()))
            if b:
                sn.calculate_PTDF()
                outage_ok(ctx, b, tabulate(sn.PTDF, [tuple(x) for x in sn.branches_i(active_only=True)], list(sn.buses_o)))

    def on_solve(k, lp):
        seen.append(lp)
        ctx.prove("snapshots", [Bool(list(lp.m.parameters.snapshots.to_index()) == list(index), "the snapshots asked for")])
        # outage factors, shown to be those of Kirchhoff's laws
        fac = {}
        for sn in n.sub_networks.obj:
            b = branch_data(n, list(sn.buses_i()))
            if not b:
                continue
            sn.calculate_BODF()
            rows = [tuple(x) for x in sn.branches_i(active_only=True)]
            ok = set(rows) == set(b)
            ctx.prove("branches", [Bool(ok, f"active branches of {list(sn.buses_i())}")])
            if not ok:
                return
            bodf = tabulate(sn.BODF, rows, rows)
            goals = []
            for out in listed:
                if out not in b or bridge(b, out):
                    continue
                kirchhoff(goals, b, {x: bodf[x, out] for x in b}, {}, f"outage of {out}", without=out)
                goals.append(eq(bodf[out, out], -1, f"outage of {out}"))
                fac.update({(x, out): bodf[x, out] for x in b if x != out})
            ctx.prove("factors", goals)

        def security(ref):
            rels = []
            for (x, out), y in fac.items():
                for t in ref.sns:
                    f = ref.v(x[0], "s", t, x[1]) + y * ref.v(out[0], "s", t, out[1])
                    lim = ref.val(x[0], x[1], "s_max_pu", t) * ref.nom(*x)
                    rels += [le(f, lim, f"{x} after outage of {out} at {t}"), le(-f, lim, f"{x} after outage of {out} at {t}, backwards")]
            return rels

        equiv(ctx, n, lp.m, lp=lp, sns=index, extra=security)

    with Solver(ctx, on_solve=on_solve, duals=False) as sol:
        args = dict(kw)
        if sns is not None:
            args["snapshots"] = index
        st = n.optimize.optimize_security_constrained(solver_name="stub", model_kwargs=dict(consistency_check=False) if ctx.sym else {}, **args)
    ctx.prove("run", [Bool(len(seen) == 1, "one problem is solved"), Bool(tuple(st) == ("ok", "optimal"), f"status {st}")])
    goals = []
    for k, c in comp.items():
        if k in off or not seen:
            continue
        for t in index:
            x = seen[0].get(f"{c}-s", t, f"b{k}")
            goals.append(eq(n.components[c].dynamic.p0.at[t, f"b{k}"], 0 if x is None else x, f"flow on b{k} at {t}"))
    ctx.prove("stored flows", goals)


def jobs(tier):
    o = []

    def j(name, **kw):
        o.append((name, secure, kw))

    for a in range(8):
        j(f"triangle{a}", br=L(*[(p if a >> k & 1 else p[::-1]) for k, p in enumerate([(0, 1), (1, 2), (2, 0)])]))
    j("parallel", br=L((0, 1), (1, 0)), nb=2)
    j("parallel three", br=L((0, 1), (1, 0)) + T_((0, 1),), nb=2, tap=(2,))
    for k in range(3):
        j(f"one outage {k}", br=TRI, outages=[k])
    j("names", br=TRI, outages=[2, 0])
    j("index", br=TRI, outages=[1, 2], form="index")
    j("pairs", br=L((0, 1), (1, 2)) + T_((2, 0), (0, 1)), outages=[3, 0], form="multi")
    j("trafos out", br=L((0, 1), (1, 2)) + T_((2, 0), (0, 1)), outages=[2, 3], form="multi")
    j("lines out", br=L((0, 1), (1, 2)) + T_((2, 0), (0, 1)), outages=[0, 1])
    j("none out", br=TRI, outages=[])
    j("expandable", br=TRI, ext=(0, 1, 2))
    j("mixed", br=TRI, ext=(1,))
    j("mixed trafos", br=L((0, 1), (1, 2)) + T_((2, 0), (0, 1)), ext=(0, 3))
    j("mixed first", br=TRI, ext=(0, 2), order=(2, 0, 1))
    j("rating factors", br=TRI, ext=(1,), pmax=(0, 1))
    j("rating series", br=TRI, ext=(1,), pmax=(0, 1, 2), ts=(0, 1), T=2)
    j("two snapshots", br=TRI, T=2)
    j("subset", br=TRI, T=2, sns=(1,))
    for k in range(4):
        j(f"inactive {k}", br=TRI + L((1, 0),), off=(k,), outages=[k, 3, 0] if k in (1, 2) else None)
    j("inactive trafo", br=TRI + T_((1, 0),), off=(3,), outages=[0, 1])
    j("islands", br=L((0, 1), (1, 0)) + L((2, 3), (2, 3)), nb=4, links=1)
    j("islands one out", br=L((0, 1), (1, 0)) + L((2, 3), (2, 3)), nb=4, outages=[2], links=1)
    j("island trafos", br=L((0, 1), (1, 0)) + T_((2, 3), (2, 3)), nb=4, outages=[2, 0], form="multi")
    j("dc", br=TRI, carriers="DDD")
    j("ac and dc", br=L((0, 1), (1, 0)) + L((2, 3), (3, 2)), nb=4, carriers="AADD")
    j("radial part", br=TRI + L((2, 3),), nb=4, outages=[0, 1, 2])
    j("square", br=L((0, 1), (1, 2), (2, 3), (3, 0), (0, 2)), nb=4, outages=[4, 0])
    if tier == "thorough":
        import random

        rnd = random.Random(11)
        done = 0
        while done < 25:
            nb = rnd.choice([2, 3, 3, 4])
            br = [(rnd.choice("LLT"), *rnd.sample(range(nb), 2)) for _ in range(rnd.randint(nb, nb + 1))]
            off = [k for k in range(len(br)) if rnd.random() < 0.1]
            data = {k: (i, j, 1.0) for k, (_, i, j) in enumerate(br) if k not in off}
            ok = [k for k in data if not bridge(data, k)]
            if not ok:
                continue
            done += 1
            j(f"random {done}", br=br, nb=nb, off=tuple(off), outages=rnd.sample(ok, min(2, len(ok))), form="multi",
              ext=tuple(k for k in range(len(br)) if rnd.random() < 0.4), tap=(0, 2), pmax=(1,), ts=(1,), T=rnd.choice([1, 2]))
    return o
