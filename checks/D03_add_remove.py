"""Adding and removing components keeps every table aligned."""

import itertools

from symx.data import labels, same
from symx.formula import Bool

FUNCTIONS = ["Network.add", "Network.remove", "_import_components_from_df", "_import_series_from_df", "_sort_attrs",
             "update_linkports_component_attrs", "as_components", "is_1d_list_like"]
BOUNDS = ("every sequence of up to 2 (quick) or 3 (thorough) of 19 operations on a network of buses, generators, loads, "
          "links and stores with series; all attribute values symbolic")
OUTSIDE = "order of rows and columns; geometry; type libraries"

T = 2


class Model:
    """What the tables should hold."""

    def __init__(self, n):
        self.n = n
        self.c = {}

    def add(self, comp, attrs, series=None, overwrite=False):
        """attrs, series: name -> {attribute: value(s)}"""
        tab = self.c.setdefault(comp, {})
        for g, at in attrs.items():
            if g in tab and not overwrite:
                continue
            tab[g] = (dict(at), dict((series or {}).get(g, {})))

    def remove(self, comp, names):
        for g in names:
            del self.c[comp][g]

    def goals(self, what):
        n = self.n
        out = []
        for comp in sorted(n.all_components):
            c = n.components[comp]
            df, defs = c.static, c.defaults
            tab = dict(self.c.get(comp, {}))
            if comp in n.standard_type_components:
                continue
            out.append(Bool(sorted(df.index) == sorted(tab), f"{what}: {comp} {sorted(df.index)} for {sorted(tab)}"))
            if sorted(df.index) != sorted(tab):
                continue
            cols = set(df.columns) - {"obj", "geometry"}
            for a in defs.index[defs.static]:
                if a not in ("name", "geometry"):
                    out.append(Bool(a in cols, f"{what}: {comp} has column {a}")) if tab else None
            for g, (at, se) in tab.items():
                for a in cols:
                    v = df.at[g, a]
                    if a in at and (a not in defs.index or defs.at[a, "static"]):
                        w = at[a]
                    elif a in defs.index and defs.at[a, "static"]:
                        w = defs.at[a, "default"]
                    elif a in defs.index:
                        out.append(Bool(False, f"{what}: {comp} output {a} in the static table"))
                        continue
                    else:
                        w = float("nan")
                    out.append(same(v, w, f"{what}: {comp} {g} {a}"))
                for a in set(at) - cols:
                    if a not in defs.index or defs.at[a, "static"]:
                        out.append(Bool(False, f"{what}: {comp} {g} {a} lost"))
                for a, fr in c.dynamic.items():
                    out.append(Bool(labels(fr.index) == labels(n.snapshots), f"{what}: {comp} {a} snapshots"))
                    output = a in defs.index and not defs.at[a, "static"]
                    if g in fr.columns:
                        if a in se:
                            w = se[a]
                        elif output:
                            w = [at.get(a, defs.at[a, "default"])] * T
                        elif a not in defs.index:  # series of unknown attributes: no value means no value
                            w = [float("nan")] * T
                        else:
                            out.append(Bool(False, f"{what}: {comp} {g} has a series {a}"))
                            continue
                        for i in range(T):
                            out.append(same(fr[g].values[i], w[i], f"{what}: {comp} {g} {a} at {i}"))
                    else:
                        out.append(Bool(a not in se and not (output and a in at), f"{what}: {comp} {g} series {a} lost"))
                for a in se:
                    out.append(Bool(a in c.dynamic, f"{what}: {comp} series {a} lost"))
            for a, fr in c.dynamic.items():
                out.append(Bool(set(fr.columns) <= set(tab), f"{what}: {comp} {a} only of components"))
                out.append(Bool(fr.columns.is_unique, f"{what}: {comp} {a} unique"))
        return out


def rejected(f, *types):
    try:
        f()
    except types:
        return Bool(True)
    return Bool(False, "invalid addition accepted")


def operate(ctx, n, m, op, k):
    """one operation on the network and on the model -> extra goals."""
    import numpy as np
    import pandas as pd

    R = lambda s: ctx.real(f"{s}.{k}")  # noqa: E731
    V = lambda s: [ctx.real(f"{s}.{k}.{i}") for i in range(T)]  # noqa: E731
    obj = object if ctx.sym else float
    if op == "single":
        a, s = dict(bus="a", p_nom=R("pn"), marginal_cost=R("mc"), carrier="gas"), dict(p_max_pu=V("pm"))
        n.add("Generator", f"new{k}", **a, **s)
        m.add("Generator", {f"new{k}": a}, {f"new{k}": s})
    elif op == "series":
        s = V("ps")
        n.add("Load", f"ls{k}", bus="b", p_set=pd.Series(s, index=n.snapshots, dtype=obj), q_set=tuple(V("qs")))
        m.add("Load", {f"ls{k}": dict(bus="b")}, {f"ls{k}": dict(p_set=s, q_set=V("qs"))})
    elif op == "bulk":
        q, p, x = V("bq"), [V("bp0"), V("bp1")], R("bs")
        names = [f"b{k}0", f"b{k}1"]
        df = pd.DataFrame({g: v for g, v in zip(names, p)}, index=n.snapshots, dtype=obj)
        n.add("Load", names, suffix=" x", bus=["a", "b"], q_set=q, sign=x, p_set=df)
        m.add("Load", {f"{g} x": dict(bus=b, q_set=y, sign=x) for g, b, y in zip(names, "ab", q)},
              {f"{g} x": dict(p_set=v) for g, v in zip(names, p)})
    elif op == "array":
        names = [f"c{k}0", f"c{k}1", f"c{k}2"]
        v = [[ctx.real(f"ar.{k}.{i}.{j}") for j in range(3)] for i in range(T)]
        x = [R("x0"), R("x1"), R("x2")]
        n.add("Generator", names, bus="b", p_max_pu=np.array(v, dtype=obj), p_nom=pd.Series(x, index=names, dtype=obj))
        m.add("Generator", {g: dict(bus="b", p_nom=x[j]) for j, g in enumerate(names)},
              {g: dict(p_max_pu=[v[i][j] for i in range(T)]) for j, g in enumerate(names)})
    elif op == "again":
        a, s = dict(bus="b", p_nom=R("pn")), dict(p_max_pu=V("pm"), marginal_cost=V("mc"))
        n.add("Generator", "g0", **a, **s)
        m.add("Generator", {"g0": a}, {"g0": s})
    elif op == "overwrite":
        a = dict(bus="b", p_nom=R("pn"), p_max_pu=R("pm"))
        n.add("Generator", "g0", overwrite=True, **a)
        m.add("Generator", {"g0": a}, overwrite=True)
    elif op == "overwrite series":
        a, s = dict(bus="b"), dict(p_max_pu=V("pm"), marginal_cost=V("mc"))
        n.add("Generator", "g1", overwrite=True, **a, **s)
        m.add("Generator", {"g1": a}, {"g1": s}, overwrite=True)
    elif op in ("mix", "mix overwrite"):
        names = ["g1", f"m{k}", "g0"]
        ov = op != "mix"
        p, x = [V("m0"), V("m1"), V("m2")], [R("x0"), R("x1"), R("x2")]
        df = pd.DataFrame({g: v for g, v in zip(names, p)}, index=n.snapshots, dtype=obj)
        n.add("Generator", names, overwrite=ov, bus=["a", "b", "a"], p_nom=x, p_min_pu=df)
        m.add("Generator", {g: dict(bus=b, p_nom=y) for g, b, y in zip(names, "aba", x)},
              {g: dict(p_min_pu=v) for g, v in zip(names, p)}, overwrite=ov)
    elif op == "remove":
        if "g0" not in m.c["Generator"]:
            return [rejected(lambda: n.remove("Generator", "g0"), KeyError)]
        n.remove("Generator", "g0")
        m.remove("Generator", ["g0"])
    elif op == "remove list":
        gone = [g for g in ("g1", f"m{k - 1}", f"new{k - 1}") if g in m.c["Generator"]]
        n.remove("Generator", gone)
        m.remove("Generator", gone)
        lx = [g for g in m.c["Load"] if g.endswith(" x")]
        n.remove("Load", [g[:-2] for g in lx], suffix=" x")
        m.remove("Load", lx)
    elif op == "remove bus":
        if "c" in m.c["Bus"]:
            n.remove("Bus", "c")
            m.remove("Bus", ["c"])
    elif op == "remove unknown":
        return [rejected(lambda: n.remove("Generator", ["g0", "nobody"]), KeyError),
                rejected(lambda: n.remove("Store", "g0"), KeyError)]
    elif op == "invalid":
        ix = pd.RangeIndex(5)
        names = [f"z{k}0", f"z{k}1"]
        bad = pd.DataFrame({names[0]: V("a"), "other": V("b")}, index=n.snapshots, dtype=obj)
        ok = []
        for comp, nm, kw in (("Generator", "z", dict(bus="a", p_max_pu=V("a") + V("b"))),
                             ("Generator", "z", dict(bus="a", p_max_pu=pd.Series([R("a")] * 5, index=ix))),
                             ("Generator", names, dict(bus="a", p_nom=[R("a"), R("b"), R("c")])),
                             ("Generator", names, dict(bus="a", p_nom=pd.Series(V("a"), index=["u", "v"]))),
                             ("Generator", names, dict(bus="a", p_max_pu=bad)),
                             ("Generator", names, dict(bus="a", p_max_pu=np.array([V("a")] * 5, dtype=obj))),
                             ("Generator", [names[0], names[0]], dict(bus="a")),
                             ("Generator", "g0", dict(bus="a", p_max_pu=V("a") + V("b"), overwrite=True)),
                             ("Load", names, dict(bus="a", p_set=bad.set_axis([5, 6]).set_axis(names, axis=1)))):
            ok.append(rejected(lambda: n.add(comp, nm, **kw), ValueError))
        ok.append(rejected(lambda: n.add("Generator", "z", bus="a", p_nom={"z": 1}), NotImplementedError))
        ok.append(rejected(lambda: n.add("Nothing", "z"), Exception))
        return ok
    elif op == "ports":
        a, s = dict(bus0="a", bus1="b", bus2="c", efficiency2=R("e2"), p_nom=R("pn")), dict(efficiency=V("e"))
        n.add("Link", f"k{k}", **a, **s)
        m.add("Link", {f"k{k}": a}, {f"k{k}": s})
    elif op == "port series":
        a, s = dict(bus0="a", bus1="b", bus3="c"), dict(efficiency3=V("e"))
        n.add("Link", f"kk{k}", **a, **s)
        m.add("Link", {f"kk{k}": a}, {f"kk{k}": s})
    elif op == "custom":
        a, s = dict(bus="a", note=R("n")), dict(prices=V("pr"))
        n.add("Store", f"s{k}", **a, **s)
        m.add("Store", {f"s{k}": a}, {f"s{k}": s})
    elif op == "output":
        x = [R("p0"), R("p1")]
        names = [f"o{k}0", f"o{k}1"]
        n.add("Store", names, bus="b", e=x)
        m.add("Store", {g: dict(bus="b", e=y) for g, y in zip(names, x)})
    elif op == "output series":
        s = V("p")
        n.add("Generator", f"os{k}", bus="b", p=s)
        m.add("Generator", {f"os{k}": dict(bus="b")}, {f"os{k}": dict(p=s)})
    else:
        raise AssertionError(op)
    return []


OPS = ["single", "series", "bulk", "array", "again", "overwrite", "overwrite series", "mix", "mix overwrite", "remove",
       "remove list", "remove bus", "remove unknown", "invalid", "ports", "port series", "custom", "output",
       "output series"]


def start(ctx):
    import pypsa

    n = pypsa.Network()
    n.set_snapshots(range(T))
    m = Model(n)
    for b in "abc":
        a = dict(v_nom=ctx.real(f"v.{b}"))
        n.add("Bus", b, **a)
        m.add("Bus", {b: a})
    for g, b in (("g0", "a"), ("g1", "b")):
        a = dict(bus=b, p_nom=ctx.real(f"{g}.pn"), p_nom_extendable=True)
        s = dict(p_max_pu=[ctx.real(f"{g}.pm.{i}") for i in range(T)]) if g == "g0" else {}
        n.add("Generator", g, **a, **s)
        m.add("Generator", {g: a}, {g: s})
    a, s = dict(bus="a", foo=ctx.real("foo")), dict(p_set=[ctx.real(f"l.{i}") for i in range(T)])
    n.add("Load", "l", **a, **s)
    m.add("Load", {"l": a}, {"l": s})
    a = dict(bus0="a", bus1="b", efficiency=ctx.real("k.e"))
    n.add("Link", "k", **a)
    m.add("Link", {"k": a})
    a, s = dict(bus="a", e_nom=ctx.real("s.e")), dict(prices=[ctx.real(f"s.{i}") for i in range(T)])
    n.add("Store", "s", **a, **s)
    m.add("Store", {"s": a}, {"s": s})
    return n, m


def histories(ctx, seqs):
    for seq in seqs:
        n, m = start(ctx)
        for k, op in enumerate(seq):
            extra = operate(ctx, n, m, op, k)
            ctx.prove(" / ".join(seq[: k + 1]), extra + m.goals(" / ".join(seq[: k + 1])))
    ctx.fingerprint([ctx.real("k.e")])
    ctx.reach()


def jobs(tier):
    o = []
    for a in OPS:
        for h in range(0, len(OPS), 5):
            o.append((f"{a}-{h}", histories, dict(seqs=[[a, b] for b in OPS[h:h + 5]])))
    if tier == "thorough":
        for a, b in itertools.product(OPS, OPS):
            o.append((f"deep-{a}-{b}", histories, dict(seqs=[[a, b, c] for c in OPS])))
    return o
