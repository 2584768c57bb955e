"""Renaming components renames them everywhere and changes nothing else."""

import itertools

from symx.data import diff, rich, tables
from symx.formula import Bool

FUNCTIONS = ["Network.rename_component_names", "Components.rename_component_names", "as_components"]
BOUNDS = ("networks with every component kind, 2 snapshots, no or 2 periods, all values symbolic; every kind renamed, one, two "
          "or all names at once, cycles of names, repeated and undone")
OUTSIDE = "new names that are in use already; line and transformer types"

REF = {"Bus": ("bus", "bus0", "bus1", "bus2"), "Carrier": ("carrier",)}


def renamed(t, comp, new, n):
    def f(x):
        return new.get(x, x)

    out = {}
    for k, v in t.items():
        if not isinstance(k, tuple):
            out[k] = v
            continue
        if k[0] == comp:
            if k[-1] == "names" and len(k) == 2:
                v = [f(x) for x in v]
            elif k[-1] == "series of":
                v = {f(x) for x in v}
            elif k[-1] != "index" and len(k) >= 3:
                k = (k[0], f(k[1])) + k[2:]
        if k[-1] in REF.get(comp, ()) and len(k) == 3 and k[0] in n.all_components and isinstance(v, str):
            v = f(v)
        out[k] = v
    return out


def once(ctx, comp, maps, periods=None, via="network", obj=False):
    n = rich(ctx, 2, periods)
    n.add("Carrier", "heat")
    for new in maps:
        before = tables(n)
        if via == "network":
            r = n.rename_component_names(n.components[comp] if obj else comp, **new)
        else:
            r = n.components[comp].rename_component_names(**new)
        ctx.prove(f"{comp} {new}", diff(tables(n), renamed(before, comp, new, n), f"{comp} {new}") + [
            Bool(r is None, "in place")])
    ctx.reach()


def refused(ctx):
    n = rich(ctx, 2, None)
    before = tables(n)
    for bad in (3, None, ("x",)):
        for comp in ("Bus", "Generator"):
            try:
                n.rename_component_names(comp, a=bad, g1="x")
                ok = False
            except ValueError:
                ok = True
            ctx.prove(f"{bad}", [Bool(ok, f"{bad!r} is refused")] + diff(tables(n), before, "refused"))
    n.rename_component_names("Generator", nothing="something")
    ctx.prove("unknown names", diff(tables(n), before, "unknown name"))
    ctx.reach()


NAMES = {"Bus": ["a", "b", "c"], "Carrier": ["gas", "AC", "heat"], "Generator": ["g1", "g2", "g3"], "Load": ["l1", "l2"],
         "Store": ["s"], "StorageUnit": ["u"], "ShuntImpedance": ["h"], "Line": ["i1", "i2"], "Transformer": ["t"],
         "Link": ["k1", "k2"], "GlobalConstraint": ["limit"]}


def jobs(tier):
    out = []
    for comp, names in NAMES.items():
        sets = [{names[0]: "new"}, {names[-1]: "zz"}]
        if len(names) > 1:
            sets.append({names[0]: "p", names[1]: "q"})
            sets.append({names[0]: names[1], names[1]: names[0]})
            sets.append({x: x + "!" for x in names})
        for i, m in enumerate(sets):
            out.append((f"{comp}-{i}", once, dict(comp=comp, maps=[m], via="network" if i % 2 else "components", obj=i == 3)))
        first = {names[0]: "new"}
        out.append((f"{comp}-undone", once, dict(comp=comp, maps=[first, {"new": names[0]}])))
        out.append((f"{comp}-periods", once, dict(comp=comp, maps=[sets[-1]], periods=[2020, 2030])))
        if tier != "quick":
            for i, (a, b) in enumerate(itertools.permutations(sets, 2)):
                out.append((f"{comp}-two-{i}", once, dict(comp=comp, maps=[a, b])))
    out.append(("refused", refused, {}))
    return out
