"""The solver's answer is written back faithfully."""

from symx.formula import Bool, eq, ne
from symx.lp import LP, coord_key
from symx.opt import buses, network, series
from symx.ref import LINKS, NOM, OPER, Ref, isnan
from symx.solve import Solver

FUNCTIONS = ["optimize", "solve_model", "assign_solution", "assign_duals", "post_processing", "set_from_frame",
             "fix_optimal_capacities", "fix_optimal_dispatch"]
BOUNDS = ("2-3 snapshots (all or a subset, one or two successive solves), 1-2 investment periods, every component type "
          "fixed/expandable/committable/inactive, 1-4 link ports, losses with 1-2 tangents; every primal and dual value "
          "symbolic, non-zero symbolic weightings")
OUTSIDE = ("the choice of the reference of voltage angles; shadow prices other than nodal prices, global limits and, when all "
           "are requested, dispatch limits of generators")


def close(ctx, name, pairs):
    goals = []
    for label, got, want in pairs:
        if got is None or isnan(got):
            goals.append(Bool(want is None, f"{label} is missing"))
        elif want is None:
            goals.append(Bool(False, f"{label} should be missing"))
        else:
            goals.append(eq(got, want, label))
    ctx.prove(name, goals)


def dyn(n, c, attr, t, g):
    fr = getattr(n, LINKS[c] + "_t")[attr]
    if g not in fr.columns:
        return 0.0
    v = fr[g].loc[t]
    return v.item() if hasattr(v, "item") else v


def stat(n, c, attr, g):
    v = getattr(n, LINKS[c])[attr].loc[g]
    return v.item() if hasattr(v, "item") else v


def judge(ctx, n, ref, sol, k, duals=True, all_duals=False, losses=0):
    lp = ref.lp
    P = []
    for c in NOM:
        for g in ref.names(c):
            want = ref.nomv(c, g) if ref.ext(c, g) else ref.val(c, g, NOM[c])
            P.append((f"{c} {g} optimal capacity", stat(n, c, NOM[c] + "_opt", g), want))
            for t in ref.sns:
                tag = f"{c} {g} {coord_key(t)}"
                z = lambda a: (lambda x: 0 if x is None else x)(ref.v(c, a, t, g))  # noqa: E731,B023
                if c in ("Line", "Transformer"):
                    s = z("s")
                    l = z("loss") if losses else 0
                    P.append((f"{tag} p0", dyn(n, c, "p0", t, g), s + l * 0.5))
                    P.append((f"{tag} p1", dyn(n, c, "p1", t, g), l * 0.5 - s))
                elif c == "Link":
                    P.append((f"{tag} p0", dyn(n, c, "p0", t, g), z("p")))
                    for i in ref.ports():
                        if ref.val(c, g, f"bus{i}") == "":
                            P.append((f"{tag} p{i}", dyn(n, c, f"p{i}", t, g), 0))
                        else:
                            e = ref.val(c, g, "efficiency" + ("" if i == 1 else str(i)), t)
                            P.append((f"{tag} p{i}", dyn(n, c, f"p{i}", t, g), -(e * z("p"))))
                else:
                    for a in OPER[c] + (["p"] if c == "Store" else []):
                        P.append((f"{tag} {a}", dyn(n, c, a, t, g), z(a)))
                    if c == "StorageUnit":
                        P.append((f"{tag} net dispatch", dyn(n, c, "p", t, g), z("p_dispatch") - z("p_store")))
                        if ref.v(c, "spill", t, g) is not None:
                            P.append((f"{tag} spillage", dyn(n, c, "spill", t, g), z("spill")))
                if ref.com(c, g):
                    for a in ("status", "start_up", "shut_down"):
                        P.append((f"{tag} {a}", dyn(n, c, a, t, g), z(a)))
    for g in ref.names("Load"):
        for t in ref.sns:
            P.append((f"Load {g} {coord_key(t)}", dyn(n, "Load", "p", t, g),
                      ref.val("Load", g, "p_set", t) if ref.val("Load", g, "active") else 0))
    close(ctx, "stored decisions", P)
    ctx.fingerprint([x[1] for x in P])
    # net injection of everything but passive branches
    Q = []
    for t in ref.sns:
        inj, load, _ = ref.injections(t)
        for b in ref.n.buses.index:
            tot = -load[b] if not isinstance(load[b], int) or load[b] else 0
            for x in inj[b]:
                tot = tot + x
            for c in ("Line", "Transformer"):
                for g in ref.names(c):
                    s = ref.v(c, "s", t, g)
                    if s is None:
                        continue
                    l = ref.v(c, "loss", t, g) * 0.5 if losses else 0
                    if ref.val(c, g, "bus0") == b:
                        tot = tot + s + l
                    if ref.val(c, g, "bus1") == b:
                        tot = tot - s + l
            Q.append((f"injection at {b} {coord_key(t)}", dyn(n, "Bus", "p", t, b), tot))
    close(ctx, "stored injections", Q)
    # stored values balance
    goals = []
    for t in ref.sns:
        for b in ref.n.buses.index:
            tot = dyn(n, "Bus", "p", t, b)
            for c in ("Line", "Transformer"):
                for g in ref.names(c):
                    for i in (0, 1):
                        if ref.val(c, g, f"bus{i}") == b:
                            tot = tot - dyn(n, c, f"p{i}", t, g)
            goals.append(eq(tot, 0, f"stored values balance at {b} {coord_key(t)}"))
    rels = [r for g, rs in lp.groups.items() if "nodal_balance" in g for r in rs]
    ctx.prove("stored values balance", goals, given=rels)
    D = []
    if duals:
        for t in ref.sns:
            w = ref.w("objective", t) * ref.period_weight(t)
            for b in ref.n.buses.index:
                mu = next((x for x in (sol.dual(k, nm, b, t) for nm in ("Bus-nodal_balance", "Bus-meshed-nodal_balance"))
                           if x is not None), None)
                if mu is None:
                    mu = next((x for (nm, key), x in sol.dualv[k].items() if "nodal_balance" in nm and
                               set(key) == {b, coord_key(t)}), None)
                if mu is None:
                    continue
                price = dyn(n, "Bus", "marginal_price", t, b)
                D.append((f"price at {b} {coord_key(t)}", price * w, mu))
        for g in ref.names("GlobalConstraint"):
            mu = sol.dual(k, f"GlobalConstraint-{g}")
            if mu is not None:
                D.append((f"shadow price of limit {g}", stat(n, "GlobalConstraint", "mu", g), mu))
        if all_duals:
            for g in ref.names("Generator"):
                for t in ref.sns:
                    for side in ("upper", "lower"):
                        mode = "ext" if ref.ext("Generator", g) else "com" if ref.com("Generator", g) else "fix"
                        mu = next((x for (nm, key), x in sol.dualv[k].items()
                                   if nm == f"Generator-{mode}-p-{side}" and set(key) == {g, coord_key(t)}), None)
                        if mu is not None:
                            D.append((f"mu_{side} of {g} {coord_key(t)}", dyn(n, "Generator", f"mu_{side}", t, g), mu))
        close(ctx, "stored prices", D)


def build(ctx, T=2, periods=None, ts=False, pieces=(), act=None, ports=1, glc=False, losses=False):
    n = network(T, periods)
    k = T * len(periods or [1])
    buses(ctx, n, "abc", v_nom=100)
    S = lambda nm, **kw: series(ctx, nm, k, ts, **kw)  # noqa: E731
    for b in "abc":
        ctx.add(n, "Generator", f"base{b}", bus=b, p_nom=50, p_min_pu=-1, marginal_cost=1)
        ctx.add(n, "Load", f"l{b}", bus=b, p_set=S(f"l{b}"), sign=ctx.real(f"lsg{b}"))
    j = 0

    def life():
        nonlocal j
        j += 1
        return dict(build_year=act[j % len(act)][0], lifetime=act[j % len(act)][1]) if act else {}

    if "gen" in pieces:
        ctx.add(n, "Generator", "gf", bus="a", p_nom=ctx.real("gf"), sign=ctx.real("sgf"), **life())
        ctx.add(n, "Generator", "ge", bus="b", p_nom_extendable=True, capital_cost=1, p_nom=ctx.real("ge"), **life())
        ctx.add(n, "Generator", "go", bus="b", p_nom=ctx.real("go"), active=False)
    if "com" in pieces:
        ctx.add(n, "Generator", "gc", bus="a", p_nom=10, committable=True, start_up_cost=1)
        ctx.add(n, "Link", "kc", bus0="a", bus1="b", p_nom=10, committable=True, efficiency=S("kce"))
    if "link" in pieces:
        kw = {}
        if ports > 1:
            kw.update(bus2="c", efficiency2=S("eff2"))
        ctx.add(n, "Link", "kf", bus0="a", bus1="b", p_nom=ctx.real("kf"), efficiency=S("kfe"), **kw, **life())
        if ports > 2:
            kw.update(bus3="a", efficiency3=ctx.real("eff3"))
        ctx.add(n, "Link", "ke", bus0="b", bus1="c", p_nom_extendable=True, efficiency=ctx.real("kee"),
                capital_cost=1, **life(), **kw)
        ctx.add(n, "Link", "ko", bus0="b", bus1="c", active=False, p_nom=4)
    if "store" in pieces:
        ctx.add(n, "Store", "ef", bus="a", e_nom=ctx.real("ef"), sign=ctx.real("esg"), **life())
        ctx.add(n, "Store", "ee", bus="b", e_nom_extendable=True, capital_cost=1, **life())
        ctx.add(n, "Store", "eo", bus="b", e_nom=3, active=False)
    if "unit" in pieces:
        ctx.add(n, "StorageUnit", "uf", bus="a", p_nom=ctx.real("uf"), inflow=2.0, sign=ctx.real("usg"), **life())
        ctx.add(n, "StorageUnit", "ue", bus="b", p_nom_extendable=True, capital_cost=1, **life())
        ctx.add(n, "StorageUnit", "uo", bus="b", p_nom=3, active=False)
    if "line" in pieces:
        ctx.add(n, "Line", "lf", bus0="a", bus1="b", x=0.5, r=0.25, s_nom=8, **life())
        ctx.add(n, "Line", "le", bus0="b", bus1="c", x=0.5, r=0.25, s_nom_extendable=True, capital_cost=1, s_nom_max=8,
                **life())
        ctx.add(n, "Line", "lo", bus0="a", bus1="c", x=0.5, r=0.25, s_nom=8, active=False)
    if "trafo" in pieces:
        ctx.add(n, "Transformer", "tf", bus0="a", bus1="c", x=0.5, r=0.25, s_nom=8, **life())
        ctx.add(n, "Transformer", "te", bus0="b", bus1="c", x=0.5, r=0.25, s_nom=8, s_nom_max=8, s_nom_extendable=True,
                capital_cost=1, **life())
    if "deadload" in pieces:
        ctx.add(n, "Load", "dead", bus="a", p_set=ctx.real("dead"), active=False)
    if glc:
        ctx.add(n, "Carrier", "x", co2_emissions=1.0)
        ctx.add(n, "Generator", "gx", bus="a", carrier="x", p_nom=10)
        ctx.add(n, "GlobalConstraint", "cap", sense="<=", constant=ctx.real("cap"))
    w = ctx.reals("wo", k)
    for x in w:
        ctx.assume(ne(x, 0))
    ctx.weightings(n, objective=w, generators=[3.0] * k, stores=[2.0] * k)
    if periods:
        import pandas as pd

        v = ctx.reals("pw", len(periods))
        for x in v:
            ctx.assume(ne(x, 0))
        iw = n.investment_period_weightings
        iw["objective"] = pd.Series(v, index=iw.index, dtype=object if ctx.symparams else float)
    ctx.finish(n)
    return n


def run(ctx, sns=None, multi=False, losses=0, all_duals=False, how="optimize", duals=True, linear_uc=False, **kw):
    n = build(ctx, **kw)
    sel = None if sns is None else n.snapshots[list(sns)]
    with Solver(ctx, duals=duals) as sol:
        args = {}
        if multi:
            args["multi_investment_periods"] = True
        if losses:
            args["transmission_losses"] = losses
        if linear_uc:
            args["linearized_unit_commitment"] = True
        if how == "optimize":
            st = n.optimize(sel, assign_all_duals=all_duals, **args)
        else:
            if sel is not None:
                args["snapshots"] = sel
            n.optimize.create_model(**args)
            st = n.optimize.solve_model(assign_all_duals=all_duals)
        ctx.prove("status", [Bool(tuple(st) == ("ok", "optimal"), "status is passed on")])
        ref = Ref(ctx, n, sol.runs[0], sns=sel, multi=multi, losses=losses, linear_uc=linear_uc)
        ctx.prove("objective value", [eq(n.objective, ctx.real("objective value"), "objective value is the solver's")])
        judge(ctx, n, ref, sol, 0, duals=duals, all_duals=all_duals, losses=losses)
    ctx.reach(sol.runs[0].rels)


def twice(ctx, first, second, losses=0, **kw):
    """two windows: the second solve leaves the first one's results alone."""
    n = build(ctx, **kw)
    a, b = n.snapshots[list(first)], n.snapshots[list(second)]
    with Solver(ctx) as sol:
        args = dict(transmission_losses=losses) if losses else {}
        n.optimize(a, **args)
        refa = Ref(ctx, n, sol.runs[0], sns=a, losses=losses)
        judge(ctx, n, refa, sol, 0, losses=losses)
        n.optimize(b, **args)
        refb = Ref(ctx, n, sol.runs[1], sns=b, losses=losses)
        judge(ctx, n, refb, sol, 1, losses=losses)
        keep = [t for t in a if t not in list(b)]
        refk = Ref(ctx, n, sol.runs[0], sns=keep, losses=losses)
        # capacities are those of the last solve
        refk.nomv = refb.nomv
        judge(ctx, n, refk, sol, 0, losses=losses)


def later_without_prices(ctx):
    """a later solve that yields no prices leaves the earlier ones as they were."""
    n = build(ctx, pieces=("gen", "com"))
    with Solver(ctx, duals=lambda k: k == 0) as sol:
        n.optimize()
        judge(ctx, n, Ref(ctx, n, sol.runs[0]), sol, 0)
        P = n.buses_t.marginal_price
        old = {(b, t): P[b].loc[t] for b in P.columns for t in P.index}
        n.optimize()
        judge(ctx, n, Ref(ctx, n, sol.runs[1]), sol, 1, duals=False)
        close(ctx, "earlier prices", [(f"price at {b} {t}", dyn(n, "Bus", "marginal_price", t, b), x)
                                      for (b, t), x in old.items()])


def failed(ctx, cond="infeasible"):
    """an unsuccessful second solve changes nothing."""
    n = build(ctx, pieces=("gen", "line", "store"))
    with Solver(ctx, status=lambda k: ("ok", "optimal") if k == 0 else ("warning", cond)) as sol:
        n.optimize()
        st = n.optimize()
        ctx.prove("status", [Bool(tuple(st) == ("warning", cond), "status is passed on")])
        judge(ctx, n, Ref(ctx, n, sol.runs[0]), sol, 0)


def fixed(ctx):
    """fixing the optimum: capacities and dispatch become inputs."""
    n = build(ctx, pieces=("gen", "line", "store", "unit", "link", "trafo"))
    with Solver(ctx) as sol:
        n.optimize()
        ref = Ref(ctx, n, sol.runs[0])
        want = {(c, g): ref.nom(c, g) for c in NOM for g in ref.names(c)}
        n.optimize.fix_optimal_capacities()
        n.optimize.fix_optimal_dispatch()
        P = [(f"capacity of {c} {g}", stat(n, c, NOM[c], g), x) for (c, g), x in want.items()]
        for c in ("Generator", "Store", "StorageUnit", "Link"):
            for g in ref.names(c):
                for t in ref.sns:
                    x = (ref.v(c, "p", t, g) if c != "StorageUnit" else
                         None if ref.v(c, "p_store", t, g) is None else
                         ref.v(c, "p_dispatch", t, g) - ref.v(c, "p_store", t, g))
                    P.append((f"set point of {c} {g} {t}", dyn(n, c, "p_set", t, g), 0 if x is None else x))
        close(ctx, "fixed optimum", P)
        ctx.prove("nothing stays expandable", [Bool(not getattr(n, LINKS[c])[NOM[c] + "_extendable"].any(), c) for c in NOM])


def angles(ctx, br, nb=3, T=1, carriers="", off=(), sns=None, links=0):
    """voltage angle differences are those that drive the stored flows."""
    n = network(T)
    names = [chr(97 + i) for i in range(nb)]
    for i, b in enumerate(names):
        car = "DC" if carriers[i:i + 1] == "D" else "AC"
        ctx.add(n, "Bus", b, carrier=car, v_nom=ctx.pos(f"v{car}"))
        ctx.add(n, "Load", f"l{b}", bus=b, p_set=ctx.real(f"l{b}"), sign=-2.0 if i == 1 else -1.0)
        ctx.add(n, "Generator", f"g{b}", bus=b, p_nom=50, p_min_pu=-1, marginal_cost=1 + i)
    for k, (kind, i, j) in enumerate(br):
        kw = dict(bus0=names[i], bus1=names[j], x=ctx.pos(f"x{k}"), r=ctx.pos(f"r{k}"), s_nom=ctx.pos(f"s{k}"), active=k not in off)
        if kind == "T":
            kw.update(model="pi", tap_ratio=ctx.pos(f"t{k}"))
        ctx.add(n, {"L": "Line", "T": "Transformer"}[kind], f"b{k}", **kw)
    for k in range(links):
        ctx.add(n, "Link", f"k{k}", bus0=names[k], bus1=names[-1 - k], p_nom=5, p_min_pu=-1, efficiency=ctx.real(f"e{k}"))
    ctx.finish(n)
    sel = n.snapshots if sns is None else n.snapshots[list(sns)]
    with Solver(ctx, duals=False) as sol:
        n.optimize(sel)
    lp = sol.runs[0]
    ref = Ref(ctx, n, lp, sns=sel)
    goals = []
    for k, (kind, i, j) in enumerate(br):
        if k in off:
            continue
        c = {"L": "Line", "T": "Transformer"}[kind]
        z = ref.impedance(c, f"b{k}", carriers[i:i + 1] == "D")
        for t in sel:
            th = [n.buses_t.v_ang.at[t, names[q]] for q in (i, j)]
            goals.append(eq(th[0] - th[1], z * lp.get(f"{c}-s", t, f"b{k}"), f"angles over b{k} at {t}"))
    ctx.prove("angles", goals, given=ref.balance() + ref.kvl())
    ctx.reach()


def jobs(tier):
    o = []
    tri = [("L", 0, 1), ("L", 1, 2), ("L", 2, 0)]
    o.append(("angles-line", angles, dict(br=[("L", 1, 0)], nb=2)))
    o.append(("angles-radial", angles, dict(br=[("L", 1, 0), ("T", 1, 2)])))
    o.append(("angles-triangle", angles, dict(br=tri)))
    o.append(("angles-trafo", angles, dict(br=[("L", 1, 0), ("T", 0, 1), ("L", 1, 2)])))
    o.append(("angles-inactive", angles, dict(br=tri, off=(1,))))
    o.append(("angles-islands", angles, dict(br=[("L", 1, 0), ("L", 0, 1), ("L", 2, 3), ("L", 2, 3)], nb=5, carriers="AADDA", links=2)))
    o.append(("angles-subset", angles, dict(br=tri, T=3, sns=[1, 2])))
    every = ("gen", "com", "link", "store", "unit", "line", "trafo")
    for p in every:
        o.append((f"{p}", run, dict(pieces=(p,), ts=p in ("link", "com"), duals=True)))
    o.append(("every", run, dict(pieces=every, ports=3, glc=True, T=1)))
    o.append(("ports2", run, dict(pieces=("link",), ports=2, ts=True)))
    o.append(("ports3", run, dict(pieces=("link", "gen"), ports=3, ts=True)))
    o.append(("two-step", run, dict(pieces=("gen", "line", "link"), how="split", glc=True)))
    o.append(("all-duals", run, dict(pieces=("gen",), all_duals=True, glc=True)))
    o.append(("no-duals", run, dict(pieces=("gen", "com"), duals=False)))
    o.append(("linear-uc", run, dict(pieces=("gen", "com"), linear_uc=True)))
    o.append(("dead-load", run, dict(pieces=("gen", "deadload"))))
    for s in ([1], [0, 1], [1, 2]):
        o.append((f"subset-{s}", run, dict(pieces=("gen", "link", "store", "line"), T=3, ts=True, sns=s, ports=2)))
    for l in (1, 2):
        o.append((f"losses-{l}", run, dict(pieces=("line", "gen"), losses=l)))
    o.append(("losses-subset", run, dict(pieces=("line", "gen"), losses=1, T=2, sns=[1])))
    act = [(2020, 10), (2030, 30), (2010, 50)]
    P2 = [2020, 2030]
    for p in (("gen", "store"), ("unit", "link"), ("line", "trafo"), ("gen", "line", "unit")):
        o.append((f"periods-{'-'.join(p)}", run, dict(pieces=p, T=1, periods=P2, multi=True, act=act)))
    o.append(("twice-next", twice, dict(first=[0, 1], second=[2], T=3, pieces=("gen", "line", "store", "unit"))))
    o.append(("twice-overlap", twice, dict(first=[0, 1], second=[1, 2], T=3, pieces=("gen", "link", "com"), ts=True)))
    o.append(("twice-same", twice, dict(first=[0, 1], second=[0, 1], T=2, pieces=("gen", "link", "line", "unit"))))
    o.append(("twice-losses", twice, dict(first=[0, 1], second=[2], T=3, pieces=("gen", "line"), losses=1)))
    for c in ("infeasible", "unbounded"):
        o.append((f"failed-{c}", failed, dict(cond=c)))
    o.append(("fixed", fixed, {}))
    o.append(("later-without-prices", later_without_prices, {}))
    for l in (1, 2):
        o.append((f"losses-trafo-{l}", run, dict(pieces=("trafo", "line"), losses=l)))
    o.append(("losses-periods", run, dict(pieces=("trafo", "line"), losses=1, T=1, periods=P2, multi=True, act=act)))
    if tier == "thorough":
        import itertools

        for p, q in itertools.combinations(every, 2):
            o.append((f"deep-{p}-{q}", run, dict(pieces=(p, q), T=3, ts=True, ports=3, glc=True, all_duals=True)))
            o.append((f"deep-{p}-{q}-periods", run, dict(pieces=(p, q), T=2, periods=[2020, 2030, 2040], multi=True, act=act)))
            o.append((f"deep-twice-{p}-{q}", twice, dict(first=[0, 1, 2], second=[2, 3], T=4, pieces=(p, q), ts=True)))
    return o
