"""The consistency check reports exactly the networks with a stated fault."""

import logging
import math

import numpy as np
import pandas as pd

from symx.formula import And, Bool, Not, Or, eq, gt, lt, ne

FUNCTIONS = ["consistency_check", "check_for_unknown_buses", "check_for_disconnected_buses", "check_for_unknown_carriers",
             "check_for_zero_impedances", "check_for_zero_s_nom", "check_time_series", "check_static_power_attributes",
             "check_time_series_power_attributes", "check_assets", "check_generators", "check_investment_periods",
             "check_nans_for_component_default_attrs", "calculate_dependent_values"]
BOUNDS = ("networks of every component kind, 2-3 elements of the kind in question, 2 snapshots; bounds, impedances, ratings, "
          "per-unit limits, histories and budgets symbolic; references, missing and infinite entries enumerated one or two at a "
          "time, over every component and attribute that can carry them")
OUTSIDE = "data types of columns (opt-in check), shapes, wording of the messages, buses of ports above 9"

BUS = {"Generator": dict(bus="a"), "Load": dict(bus="a"), "Store": dict(bus="a"), "StorageUnit": dict(bus="a"),
       "ShuntImpedance": dict(bus="a"), "Line": dict(bus0="a", bus1="b", x=0.5, r=0.25, s_nom=8.0),
       "Transformer": dict(bus0="a", bus1="b", x=0.5, r=0.25, s_nom=8.0), "Link": dict(bus0="a", bus1="b")}
NOM = {"Generator": "p_nom", "Link": "p_nom", "Store": "e_nom", "StorageUnit": "p_nom", "Line": "s_nom",
       "Transformer": "s_nom"}


class Catch(logging.Handler):
    def __init__(self):
        super().__init__()
        self.msgs = []

    def emit(self, r):
        self.msgs.append(r.getMessage())


def warned(fn):
    """what `fn` logs."""
    log = logging.getLogger("pypsa")
    h = Catch()
    old = logging.root.manager.disable
    prop, log.propagate = log.propagate, False
    logging.disable(logging.NOTSET)
    log.addHandler(h)
    try:
        fn()
    finally:
        log.removeHandler(h)
        log.propagate = prop
        logging.disable(old)
    return h.msgs


def raised(fn):
    try:
        fn()
    except ValueError:
        return True
    return False


def call(kind, n, comp, strict=False):
    from pypsa import consistency as C

    c = n.components[comp] if comp else None
    return {
        "unknown_buses": lambda: C.check_for_unknown_buses(n, c, strict),
        "unknown_carriers": lambda: C.check_for_unknown_carriers(n, c, strict),
        "time_series": lambda: C.check_time_series(n, c, strict),
        "static_power_attrs": lambda: C.check_static_power_attributes(n, c, strict),
        "time_series_power_attrs": lambda: C.check_time_series_power_attributes(n, c, strict),
        "nans_for_component_default_attrs": lambda: C.check_nans_for_component_default_attrs(n, c, strict),
        "zero_impedances": lambda: C.check_for_zero_impedances(n, c, strict),
        "zero_s_nom": lambda: C.check_for_zero_s_nom(c, strict),
        "assets": lambda: C.check_assets(n, c, strict),
        "generators": lambda: C.check_generators(c, strict),
        "disconnected_buses": lambda: C.check_for_disconnected_buses(n, strict),
        "investment_periods": lambda: C.check_investment_periods(n, strict),
    }[kind]


KINDS = ["unknown_buses", "unknown_carriers", "time_series", "static_power_attrs", "time_series_power_attrs",
         "nans_for_component_default_attrs", "zero_impedances", "zero_s_nom", "assets", "generators", "disconnected_buses",
         "investment_periods"]


def agree(value, f, name):
    g = f if bool(value) else Not(f)
    g.name = name
    return g


def judge(ctx, n, kind, comp, faults, what, total=None, named=True):
    """faults: element name -> formula of being faulty.  The check, the strict check and the
    network's consistency check (strict about this kind, and about all) agree with it."""
    fs = list(faults.values())
    anyf = total if total is not None else Or(*fs) if len(fs) > 1 else fs[0] if fs else Bool(False)
    text = "\n".join(warned(call(kind, n, comp)))
    goals = [agree(text, anyf, f"{what}: warns")]
    if named:
        goals += [agree(g in text, f, f"{what}: names {g}") for g, f in faults.items()]
    goals.append(agree(raised(call(kind, n, comp, True)), anyf, f"{what}: strict raises"))
    goals.append(agree(raised(lambda: n.consistency_check(strict=[kind])), anyf, f"{what}: network check raises"))
    goals.append(Bool(not raised(n.consistency_check), f"{what}: non-strict check does not raise"))
    ctx.prove(what, goals)
    return text


def base(T=2):
    import pypsa

    n = pypsa.Network()
    n.set_snapshots(range(T))
    n.add("Carrier", ["AC", "gas"])
    n.add("Bus", ["a", "b"], v_nom=2.0)
    n.add("Load", "load0", bus="a")
    n.add("Load", "load1", bus="b")
    return n


def bounds(ctx, comp, extendable=(0, 1), missing=()):
    """disordered (or, when extendable, missing) expansion limits."""
    n = base()
    nom = NOM[comp]
    faults = {}
    for j, ext in enumerate(extendable):
        lo, hi = ctx.real(f"lo{j}"), ctx.real(f"hi{j}")
        n.add(comp, f"elem{j}", **BUS[comp], **{nom + "_extendable": bool(ext), nom + "_min": lo, nom + "_max": hi})
        for m in missing:  # add() would replace a missing value by the default
            if m[2:] == str(j):
                n.components[comp].static.at[f"elem{j}", nom + {"lo": "_min", "hi": "_max"}[m[:2]]] = math.nan
        gap = f"lo{j}" in missing or f"hi{j}" in missing
        faults[f"elem{j}"] = Bool(bool(ext)) if gap else lt(hi, lo)
    gaps = any(ext and any(f"{b}{j}" in missing for b in ("lo", "hi")) for j, ext in enumerate(extendable))
    named = {k: f for k, f in faults.items() if not any(k[4:] == m[2:] for m in missing)}
    total = Or(*faults.values()) if not gaps else Bool(True)
    judge(ctx, n, "static_power_attrs", comp, named, f"{comp} limits", total=total)
    ctx.fingerprint([float(n.components[comp].static[nom + "_min"].iloc[0])] if not ctx.sym else
                    [n.components[comp].static[nom + "_min"].iloc[0]])
    ctx.reach()


def impedances(ctx, comp, attr):
    """x, r (both), s_nom (transformers) equal to zero."""
    n = base()
    faults = {}
    for j in range(2):
        at = dict(BUS[comp])
        at[attr] = ctx.real(f"{attr}{j}")
        faults[f"elem{j}"] = eq(at[attr], 0)
        n.add(comp, f"elem{j}", **at)
    if attr != "s_nom":
        judge(ctx, n, "zero_impedances", comp, faults, f"{comp} {attr}")
    else:
        goals = []
        text = "\n".join(warned(call("zero_s_nom", n, comp)))
        goals += [agree(g in text, f, f"names {g}") for g, f in faults.items()]
        goals.append(agree(raised(call("zero_s_nom", n, comp, True)), Or(*faults.values()), "strict raises"))
        ctx.prove("zero rating", goals)
    ctx.reach()


def rating(ctx):
    """a rating of zero is found by the network's check (zero itself is enumerated)."""
    for zero in (0, 1):
        n = base()
        n.add("Transformer", "elem0", bus0="a", bus1="b", x=ctx.pos("x", 9), r=ctx.pos("r", 9),
              s_nom=0.0 if zero else ctx.pos("s", 9), model="pi")
        n.add("Line", "line0", bus0="a", bus1="b", x=ctx.pos("lx", 9), r=1.0, s_nom=0.0)
        got = raised(lambda: n.consistency_check(strict=["zero_s_nom"])) if not (zero and ctx.sym) else \
            raised(call("zero_s_nom", n, "Transformer", True))
        ctx.prove(f"zero {zero}", [Bool(got == bool(zero), "strict raises"),
                                   Bool(not warned(call("zero_s_nom", n, "Line")), "lines may have no rating")])
    ctx.reach()


def perunit(ctx, comp, form=("ss", "vs"), odd=None, T=2):
    """per-unit limits: missing, infinite or disordered at some snapshot."""
    n = base(T)
    a = NOM[comp][0]
    late = None
    faults = {}
    for j, f in enumerate(form):
        vals = {}
        for which, how in zip(("max", "min"), f):
            vals[which] = [ctx.real(f"{which}{j}_{t}") for t in range(T)] if how == "v" else ctx.real(f"{which}{j}")
        bad = []
        for t in range(T):
            v = {w: x[t] if isinstance(x, list) else x for w, x in vals.items()}
            if odd and odd[1] == j and (not isinstance(vals[odd[2]], list) or odd[3] == t):
                o = {"nan": math.nan, "inf": math.inf, "-inf": -math.inf}[odd[0]]
                if isinstance(vals[odd[2]], list):
                    vals[odd[2]][t] = o
                else:
                    late = (f"elem{j}", f"{a}_{odd[2]}_pu", o)  # add() would replace a missing value by the default
                bad.append(Bool(True))
            else:
                bad.append(lt(v["max"], v["min"]))
        faults[f"elem{j}"] = Or(*bad)
        n.add(comp, f"elem{j}", **BUS[comp],
              **{f"{a}_{w}_pu": x for w, x in vals.items()})
    if late:
        n.components[comp].static.at[late[0], late[1]] = late[2]
    judge(ctx, n, "time_series_power_attrs", comp, faults, f"{comp} per unit")
    ctx.reach()


def histories(ctx, committable=(1, 0)):
    n = base()
    faults = {}
    for j, k in enumerate(committable):
        up, down = ctx.int(f"up{j}", 0, 5), ctx.int(f"down{j}", 0, 5)
        lo, hi = ctx.real(f"lo{j}"), ctx.real(f"hi{j}")
        n.add("Generator", f"elem{j}", bus="a", committable=bool(k), up_time_before=up, down_time_before=down,
              e_sum_min=lo, e_sum_max=hi)
        faults[f"elem{j}"] = Or(And(Bool(bool(k)), gt(up, 0), gt(down, 0)), gt(lo, hi))
    judge(ctx, n, "generators", "Generator", faults, "histories and budgets")
    ctx.reach()


def assets(ctx):
    for comp in ("Generator", "Link"):
        for k in (0, 1):
            for e in (0, 1):
                n = base()
                n.add(comp, "elem0", **BUS[comp], committable=bool(k), p_nom_extendable=bool(e), p_nom=ctx.pos("p", 9))
                n.add(comp, "elem1", **BUS[comp], committable=bool(1 - k), p_nom_extendable=bool(k))
                judge(ctx, n, "assets", comp, {"elem0": Bool(bool(k and e)), "elem1": Bool(False)},
                      f"{comp} committable {k} extendable {e}")
    ctx.reach()


def references(ctx, comp):
    """buses, carriers and series that do not exist."""
    ports = [p for p in ("bus", "bus0", "bus1") if p in BUS[comp]]
    x = ctx.pos("x", 9)
    key = NOM.get(comp) or {"Load": "p_set", "ShuntImpedance": "b"}[comp]

    def net(at0, at1):
        n = base()
        for j, at in enumerate((at0, at1)):
            n.add(comp, f"elem{j}", **{**BUS[comp], key: x, **at})
        return n

    for port in ports + (["bus2"] if comp == "Link" else []):
        for ref in ("a", "b", "nowhere", "A"):
            n = net({port: ref}, {})
            judge(ctx, n, "unknown_buses", comp, {"elem0": Bool(ref not in ("a", "b")), "elem1": Bool(False)},
                  f"{port} {ref}")
    if "carrier" in net({}, {}).components[comp].static:
        for ref in ("gas", "AC", "", "nothing"):
            n = net({}, {"carrier": ref})
            judge(ctx, n, "unknown_carriers", comp, {"elem1": Bool(ref == "nothing"), "elem0": Bool(False)},
                  f"carrier {ref!r}")
    d = net({}, {}).components[comp].defaults
    for attr in d.index[d.varying & d.static]:
        vals = [ctx.real(f"v{t}") for t in range(2)]
        for col, idx in (("elem0", [0, 1]), ("ghost", [0, 1]), ("elem0", [0, 2]), ("elem0", [0])):
            n = net({}, {})
            n.components[comp].dynamic[attr] = pd.DataFrame({col: vals[:len(idx)]}, index=pd.Index(idx, name="snapshot"))
            bad = col == "ghost" or idx != [0, 1]
            w = warned(call("time_series", n, comp))
            ctx.prove(f"series {attr}", [
                Bool(bool(w) == bad, f"{attr} {col} {idx} warns"),
                Bool(("ghost" in "\n".join(w)) == (col == "ghost"), f"{attr} {col} named"),
                Bool(raised(call("time_series", n, comp, True)) == bad, f"{attr} {col} {idx} raises"),
                Bool(not bad or raised(lambda: n.consistency_check(strict=["time_series"])), f"{attr} network check raises"),
            ])
    ctx.reach()


def missing(ctx, comp):
    """a missing entry of an attribute that has a default."""
    import pypsa

    n0 = pypsa.Network()
    d = n0.components[comp].defaults
    key = NOM.get(comp) or {"Load": "p_set", "ShuntImpedance": "b"}[comp]
    for attr in d.index:
        if attr in ("name", "bus", "bus0", "bus1", "type", "geometry"):
            continue
        dv = d.at[attr, "default"]
        matters = dv is not None and dv != "" and not (isinstance(dv, float) and math.isnan(dv))
        for where in ("static", "series"):
            if where == "static" and (not d.at[attr, "static"] or d.at[attr, "dtype"] != np.dtype(float)):
                continue
            if where == "series" and not d.at[attr, "varying"]:
                continue
            for gap in (0, 1):
                n = base()
                n.add(comp, ["elem0", "elem1"], **BUS[comp])
                n.components[comp].static[key] = n.components[comp].static[key].astype(object)
                n.components[comp].static.at["elem0", key] = ctx.pos("x", 9)
                if where == "static":
                    if gap:
                        n.components[comp].static.at["elem1", attr] = math.nan
                else:
                    n.components[comp].dynamic[attr] = pd.DataFrame(
                        {"elem1": [ctx.real("v"), math.nan if gap else ctx.real("v2")]}, index=n.snapshots)
                k = "nans_for_component_default_attrs"
                bad = bool(gap and matters)
                w = "\n".join(warned(call(k, n, comp)))
                ctx.prove(f"missing {attr}", [
                    Bool(bool(w) == bad, f"{where} {attr} {gap} warns"), Bool((attr in w) == bad, f"{where} {attr} named"),
                    Bool(raised(call(k, n, comp, True)) == bad, f"{where} {attr} {gap} raises")])
    for gap in (0, 1):
        n = base()
        n.add(comp, "elem0", **BUS[comp])
        if gap:
            n.components[comp].static.at["elem0", key] = math.nan
        if not (ctx.sym and comp == "Transformer"):
            ctx.prove("network check", [Bool(raised(lambda: n.consistency_check(
                strict=["nans_for_component_default_attrs"])) == bool(gap), f"raises {gap}")])
    ctx.reach()


def lonely(ctx):
    """buses without any component; global constraints of unknown periods."""
    import pypsa

    x = ctx.pos("x", 9)
    for comp in BUS:
        for att in (0, 1):
            n = pypsa.Network()
            n.set_snapshots(range(2))
            n.add("Bus", ["a", "b", "lonely"], v_nom=2.0)
            n.add("Load", "l", bus="a", p_set=x)
            n.add("Load", "l2", bus="b", p_set=x)
            at = dict(BUS[comp])
            if att:
                at["bus1" if "bus1" in at else "bus"] = "lonely"
            n.add(comp, "elem", **at)
            judge(ctx, n, "disconnected_buses", None, {"lonely": Bool(not att), "'a'": Bool(False)}, f"{comp} attached {att}")
    n = pypsa.Network()
    n.add("Bus", ["a", "b", "lonely"])
    n.add("Link", "k", bus0="a", bus1="b", bus2="lonely")
    judge(ctx, n, "disconnected_buses", None, {"lonely": Bool(False)}, "third port attached")
    for periods in (None, (2020, 2030)):
        for p in (None, 2020, 2025, 2030):
            n = base()
            if periods:
                n.investment_periods = list(periods)
            kw = {} if p is None else dict(investment_period=p)
            n.add("GlobalConstraint", "limit", constant=x, **kw)
            n.add("GlobalConstraint", "other", constant=x)
            bad = p is not None and (not periods or p not in periods)
            judge(ctx, n, "investment_periods", None, {}, f"limit of {p} in {periods}", total=Bool(bad), named=False)
    ctx.reach()


def clean(ctx, names, T=2, periods=None):
    """a network without any of the faults passes the strictest check."""
    from symx.data import RICH, put, spec_attrs
    import pypsa

    n = pypsa.Network()
    n.set_snapshots(range(T))
    if periods:
        n.investment_periods = list(periods)
    n.add("Carrier", ["AC", "heat", "gas"])
    for e in RICH:
        if e[0] not in ("Carrier", "Bus") and e[1] not in names:
            continue
        if e[0] == "Carrier":
            continue
        at = spec_attrs(ctx, e, len(n.snapshots))
        for k, v in at.items():
            if k in ("x", "r", "s_nom", "v_nom", "tap_ratio") and e[0] != "Bus":
                ctx.assume(gt(v, 0))
            if k == "v_nom":
                ctx.assume(gt(v, 0))
            if k.endswith("_max_pu") or k == "p_nom_max":
                for w in v if isinstance(v, list) else [v]:
                    ctx.assume(gt(w, 0))
            if k.endswith("_min_pu"):
                for w in v if isinstance(v, list) else [v]:
                    ctx.assume(lt(w, 1))
        if e[0] in ("Line", "Transformer"):
            at.setdefault("r", 0.25)
            at["model"] = "pi"
            if e[0] == "Line":
                del at["model"]
        put(n, e[0], e[1], at)
    n.add("Load", ["la", "lb", "lc"], bus=["a", "b", "c"])
    ctx.prove("clean", [Bool(not raised(lambda: n.consistency_check(strict=["all"])), "strict check passes"),
                        Bool(not warned(n.consistency_check), "no warning")])
    for bad in ("unknown", "unknown_bus", "", "ALL"):
        ctx.prove("options", [Bool(raised(lambda: n.consistency_check(strict=[bad])), f"option {bad!r} is refused")])
    ctx.reach()


def jobs(tier):
    out = []
    for comp in NOM:
        out.append((f"bounds-{comp}", bounds, dict(comp=comp)))
        for m in ("lo0", "hi1", "lo1"):
            out.append((f"bounds-{comp}-missing-{m}", bounds, dict(comp=comp, missing=(m,))))
    for comp in ("Line", "Transformer"):
        for a in ("x", "r") + (("s_nom",) if comp == "Transformer" else ()):
            out.append((f"zero-{comp}-{a}", impedances, dict(comp=comp, attr=a)))
    out.append(("rating", rating, {}))
    forms = [("vs",), ("ss", "sv"), ("vv",)] if tier == "quick" else \
        [("vs",), ("ss", "sv"), ("vv",), ("vv", "ss"), ("sv", "vs", "ss")]
    for comp in ("Generator", "Link", "StorageUnit", "Store"):
        for f in forms if comp in ("Generator", "Store") or tier != "quick" else forms[:1]:
            out.append((f"pu-{comp}-{'.'.join(f)}", perunit, dict(comp=comp, form=f)))
        for o in ("nan", "inf", "-inf"):
            for w in ("max", "min"):
                out.append((f"pu-{comp}-{o}-{w}", perunit, dict(comp=comp, form=("vv",), odd=(o, 0, w, 1))))
                out.append((f"pu-{comp}-{o}-{w}-static", perunit, dict(comp=comp, form=("ss",), odd=(o, 0, w, 0))))
    out.append(("histories-10", histories, dict(committable=(1, 0)), dict(max_paths=200)))
    if tier != "quick":
        out.append(("histories-11", histories, dict(committable=(1, 1))))
    out.append(("assets", assets, {}))
    for comp in BUS:
        out.append((f"refs-{comp}", references, dict(comp=comp)))
        out.append((f"missing-{comp}", missing, dict(comp=comp)))
    out.append(("lonely", lonely, {}))
    out.append(("clean-one-ports", clean, dict(names=["g1", "g2", "g3", "l1", "l2", "s", "u", "h"])))
    out.append(("clean-branches", clean, dict(names=["i1", "i2", "t", "k1", "k2", "limit"])))
    out.append(("clean-periods", clean, dict(names=["g1", "g2", "l2", "s", "u", "i1", "k2"], periods=(2020, 2030))))
    return out
