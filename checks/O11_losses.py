"""Transmission-loss approximation."""

from symx.formula import And, Or, eq, ge, le
from symx.lp import LP
from symx.opt import buses, equiv, model, network, series
from symx.ref import Ref

FUNCTIONS = ["create_model", "define_loss_variables", "define_loss_constraints",
             "define_operational_constraints_for_non_extendables", "define_operational_constraints_for_extendables",
             "define_nodal_balance_constraints"]
BOUNDS = ("2-3 buses, lines and transformers, fixed and extendable, 1-4 tangents, 1-2 snapshots, 1-2 investment "
          "periods; impedance, capacity, limits and flows symbolic")
OUTSIDE = "infinite s_nom_max (documented error)"


def losses(ctx, k=2, T=1, ts=False, periods=None, dc=False, sns=None):
    n = network(T, periods)
    K = T * len(periods or [1])
    buses(ctx, n, "ab", v_nom=ctx.pos("vn"), carrier="DC" if dc else "AC")
    for b in "ab":
        ctx.add(n, "Load", f"l{b}", bus=b, p_set=ctx.real(f"l{b}"))
        ctx.add(n, "Generator", f"z{b}", bus=b, p_nom=50, p_min_pu=-1, marginal_cost=1)
    S = lambda nm: series(ctx, nm, K, ts, lo=0, hi=1, strict=True)  # noqa: E731
    act = dict(build_year=2030) if periods else {}
    z = dict(bus0="a", bus1="b")
    ctx.add(n, "Line", "f", x=ctx.pos("fx"), r=ctx.pos("fr"), s_nom=ctx.pos("fs"), s_max_pu=S("fm"), **z, **act)
    ctx.add(n, "Line", "e", x=ctx.pos("ex"), r=ctx.pos("er"), s_nom_extendable=True, s_nom=ctx.pos("es"),
            s_nom_max=ctx.pos("esx"), s_max_pu=S("em"), **z)
    ctx.add(n, "Line", "off", x=1, r=ctx.pos("or"), s_nom=ctx.pos("os"), active=False, **z)
    if not dc:
        ctx.add(n, "Transformer", "t", x=ctx.pos("tx"), r=ctx.pos("tr"), s_nom=ctx.pos("tsn"), model="pi", **z)
        ctx.add(n, "Transformer", "te", x=ctx.pos("tex"), r=ctx.pos("ter"), s_nom=ctx.pos("ten"), model="pi",
                s_nom_extendable=True, s_nom_max=ctx.pos("tenx"), tap_ratio=ctx.pos("tap"), **z)
    ctx.finish(n)
    sel = None if sns is None else n.snapshots[list(sns)]
    multi = bool(periods)
    m = model(ctx, n, multi=multi, sns=sel, losses=k)
    lp, ref = equiv(ctx, n, m, own=("losses", "dispatch"), back=("losses",), multi=multi, sns=sel, losses=k)
    # the approximation never exceeds the quadratic loss at the points of
    # tangency, never excludes the true loss, and vanishes where flow does
    goals, inside = [], []
    for c in ("Line", "Transformer"):
        for g in ref.names(c):
            for t in ref.sns:
                if not ref.active(c, g, t):
                    continue
                s, x = ref.v(c, "s", t, g), ref.v(c, "loss", t, g)
                r = ref.impedance(c, g, True)
                cap = ref.val(c, g, "s_nom_max") if ref.ext(c, g) else ref.val(c, g, "s_nom")
                top = ref.val(c, g, "s_max_pu", t) * cap
                grp = [q for nm, qs in lp.groups.items() if "loss" in nm for q in qs]
                ctx.prove("true quadratic loss is admissible",
                          [q for q in grp if _mentions(q, x)],
                          given=[eq(x, r * s * s), le(s, top), ge(s, -top)])
                for j in range(1, k + 1):
                    q = top * j / k
                    ctx.prove("tight at the tangent points", [ge(x, r * q * q, f"{c} {g} tangent {j}")],
                              given=lp.rels + [eq(s, q)])


def _mentions(rel, x):
    from symx.sym import Sym

    if not isinstance(rel.s, Sym) or not isinstance(x, Sym):
        return True
    return bool(set(x.base_atoms()) & set(rel.s.base_atoms()))


def jobs(tier):
    o = []
    for k in (1, 2, 3):
        for ts in (False, True):
            o.append((f"k{k}-ts{int(ts)}", losses, dict(k=k, ts=ts, T=2 if ts else 1)))
    o.append(("dc", losses, dict(k=2, dc=True)))
    o.append(("periods", losses, dict(k=2, periods=[2020, 2030])))
    o.append(("subset", losses, dict(k=2, T=3, ts=True, sns=[1, 2])))
    if tier == "thorough":
        for k in (4, 5, 8):
            o.append((f"k{k}", losses, dict(k=k, ts=True, T=2)))
        o.append(("periods-ts", losses, dict(k=3, T=2, ts=True, periods=[2020, 2030, 2040])))
    return o
