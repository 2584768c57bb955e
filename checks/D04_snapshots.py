"""Changing snapshots or investment periods keeps the values of what remains."""

import math

import numpy as np
import pandas as pd

from symx.data import diff, labels, rich, same, tables
from symx.formula import Bool

FUNCTIONS = ["Network.set_snapshots", "Network.snapshots (setter)", "Network.set_investment_periods",
             "Network.investment_periods (setter)", "Network.snapshot_weightings (setter)",
             "Network.investment_period_weightings (setter)", "Network.timesteps", "Network.periods"]
BOUNDS = ("a network of every component kind with known and custom series, all values, weights and the default weight symbolic; "
          "sequences of up to 2 (quick) or 3 (thorough) changes between 9 sets of snapshots (whole numbers, times, texts, "
          "period/timestep pairs; subsets, supersets, permutations, disjoint) and 1-3 investment periods")
OUTSIDE = ("going from period/timestep pairs back to a single index (pandas refuses to reindex that way); weights when a single index becomes period/timestep pairs through set_snapshots (documented: default weight); "
           "period weights of periods dropped by set_snapshots; time zones other than being refused; the last of a single step's "
           "time difference")

SETS = {
    "a": [0, 1, 2],
    "b": [1, 2, 3],
    "c": [2, 0],
    "d": [7],
    "t": pd.date_range("2030-01-01", periods=3, freq="h"),
    "u": pd.DatetimeIndex(["2030-01-01 01:00", "2030-01-01 05:00", "2030-01-01 00:00"]),
    "x": ["n", "m"],
    "m": pd.MultiIndex.from_product([[2020, 2030], [0, 1]]),
    "n": pd.MultiIndex.from_tuples([(2030, 1), (2030, 2), (2040, 0)]),
}


def start(ctx, first, names, tag=""):
    import pypsa

    n = pypsa.Network()
    n.set_snapshots(SETS[first])
    from symx.data import RICH, put, set_weights, spec_attrs

    for e in RICH:
        if e[0] in ("Bus", "Carrier") or e[1] in names:
            put(n, e[0], e[1], spec_attrs(ctx, e, len(n.snapshots), tag))
    for attr, comp in (("my_series", "Generator"), ("other_series", "Load")):
        cols = list(n.components[comp].static.index)[:2]
        if cols:
            n.components[comp].dynamic[attr] = pd.DataFrame(
                {c: [ctx.real(f"{attr}.{c}.{i}") for i in range(len(n.snapshots))] for c in cols}, index=n.snapshots)
    set_weights(ctx, n, tag)
    return n


def expect(n, before, new, default):
    """values after setting the snapshots `new` (labels) on a network with tables `before`."""
    old = before["snapshots"]
    multi_new, multi_old = isinstance(new[0], tuple), isinstance(old[0], tuple)

    def source(s):
        if s in old:
            return s
        if multi_new and not multi_old and s[1] in old:
            return s[1]
        return None

    want = {}
    for comp in sorted(n.all_components):
        d = n.components[comp].defaults
        for attr, _ in n.components[comp].dynamic.items():
            known = attr in d.index and bool(d.at[attr, "varying"])
            cols = before[comp, attr, "series of"]
            want[comp, attr, "series of"] = cols
            want[comp, attr, "index"] = new
            for g in cols:
                for s in new:
                    o = source(s) if known or not (multi_new and not multi_old) else None
                    if o is not None:
                        v = before[comp, g, attr, o]
                    else:
                        v = d.at[attr, "default"] if known else math.nan
                    want[comp, g, attr, s] = v
    for k, v in before.items():
        if isinstance(k, tuple) and len(k) == 3 and k[0] in n.all_components and k not in want:
            want[k] = v
        if isinstance(k, tuple) and len(k) == 2 and k[0] in n.all_components:
            want[k] = v
    want["snapshots"] = new
    want["weightings", "index"] = new
    for k, v in before.items():
        if isinstance(k, tuple) and k[0] == "weightings" and len(k) == 3:
            for s in new:
                want["weightings", k[1], s] = before["weightings", k[1], s] if s in old else default
    return want


LOOSE = ("periods", "names", "period weightings")


def part(t):
    return {k: v for k, v in t.items() if not (k in LOOSE or isinstance(k, tuple) and k[0] in LOOSE)}


def sequence(ctx, sets, names, how="method"):
    n = start(ctx, sets[0], names)
    for i, s in enumerate(sets[1:]):
        before = tables(n)
        new = SETS[s]
        lab = [tuple(x) if isinstance(x, tuple) else x for x in pd.Index(new)]
        default = 1.0
        if how == "method":
            default = ctx.pos(f"default{i}", 9)
            n.set_snapshots(new, default_snapshot_weightings=default)
        elif how == "property":
            n.snapshots = new
        want = expect(n, before, lab, default)
        ctx.prove(f"{i}: to {s}", diff(part(tables(n)), want, f"{i}:{s}"))
        multi = isinstance(lab[0], tuple)
        ts = list(dict.fromkeys(x[1] if multi else x for x in lab))
        ps = list(dict.fromkeys(x[0] for x in lab)) if multi else []
        ctx.prove(f"{i}: levels", [Bool(list(n.timesteps) == ts, "timesteps"), Bool(list(n.periods) == ps, "periods"),
                                   Bool(list(n.investment_periods) == ps, "investment periods"),
                                   Bool(n.snapshots.name == "snapshot" or multi, "name"),
                                   Bool(list(n.snapshots.names) == (["period", "timestep"] if multi else ["snapshot"]), "names")])
    ctx.reach()


def periods(ctx, first, ps, names, how="method"):
    """snapshots and series are repeated for each period; weights too."""
    n = start(ctx, first, names)
    before = tables(n)
    if how == "method":
        n.set_investment_periods(list(ps))
    else:
        n.investment_periods = list(ps)
    old = before["snapshots"]
    new = [(p, s) for p in ps for s in old]
    want = {}
    for k, v in before.items():
        if k in ("snapshots", "weightings") or k in LOOSE or isinstance(k, tuple) and k[0] in LOOSE:
            continue
        if isinstance(k, tuple) and k[-1] == "index":
            want[k] = new
        elif isinstance(k, tuple) and (k[0] == "weightings" or len(k) == 4):
            for p in ps:
                want[k[:-1] + ((p, k[-1]),)] = v
        else:
            want[k] = v
    want["snapshots"] = new
    ctx.prove("repeated", diff(part(tables(n)), want, "repeated"))
    pw = n.investment_period_weightings
    ctx.prove("period weights", [Bool(list(pw.index) == list(ps), "index")] +
              [same(pw.at[p, c], 1.0, f"{c} {p}") for p in ps for c in pw.columns] +
              [Bool(set(pw.columns) == {"objective", "years"}, "columns")])
    from symx.data import set_weights

    set_weights(ctx, n, "again.")
    before = tables(n)
    n.set_investment_periods(list(ps))
    ctx.prove("again", diff(tables(n), before, "setting the same periods again"))
    # bad requests are refused and change nothing
    for bad in ([ps[0], ps[0]], [ps[-1] + 1], list(ps) + [ps[-1] + 5], [2020.5], ["x"], list(ps)[::-1] if len(ps) > 1 else [1, 0],
                list(ps)[:-1]):
        if not bad:
            continue
        try:
            n.set_investment_periods(bad)
            ok = False
        except (ValueError, NotImplementedError):
            ok = True
        ctx.prove(f"refused {bad}", [Bool(ok, "raises")] + diff(tables(n), before, f"refused {bad}"))
    # assigning weights for other snapshots or periods is refused
    for attr, frame in (("snapshot_weightings", n.snapshot_weightings.iloc[:-1]),
                        ("snapshot_weightings", n.snapshot_weightings.iloc[::-1]),
                        ("investment_period_weightings", pw.iloc[:-1])):
        if len(frame.index) == len(getattr(n, attr)) and list(frame.index) == list(getattr(n, attr).index):
            continue
        try:
            setattr(n, attr, frame)
            ok = False
        except (ValueError, AssertionError):
            ok = True
        ctx.prove(f"refused {attr}", [Bool(ok, "raises")] + diff(tables(n), before, f"refused {attr}"))
    ctx.reach()


def refused(ctx, names):
    n = start(ctx, "a", names)
    before = tables(n)
    for nm, f in (("empty", lambda: n.set_snapshots([])), ("empty index", lambda: n.set_snapshots(pd.Index([]))),
                  ("zone", lambda: n.set_snapshots(pd.date_range("2030", periods=2, freq="h", tz="UTC"))),
                  ("levels", lambda: n.set_snapshots(pd.MultiIndex.from_product([[1], [2], [3]]))),
                  ("decreasing", lambda: n.set_investment_periods([2030, 2020])),
                  ("repeated", lambda: n.set_investment_periods([2030, 2030])),
                  ("text", lambda: n.set_investment_periods(["2030"])),
                  ("fraction", lambda: n.set_investment_periods([2030.5]))):
        try:
            f()
            ok = False
        except ValueError:
            ok = True
        ctx.prove(nm, [Bool(ok, "raises")] + diff(tables(n), before, nm))
    # a series of weights goes to every column
    w = [ctx.pos(f"s{i}", 9) for i in range(3)]
    n.snapshot_weightings = pd.Series(w, index=n.snapshots)
    ctx.prove("one series", [same(n.snapshot_weightings[c].values[i], w[i], f"{c} {i}")
                             for c in ("objective", "generators", "stores") for i in range(3)])
    ctx.reach()


def timedelta(ctx, gaps, names):
    """weights from the time to the next snapshot."""
    n = start(ctx, "a", names)
    t0 = pd.Timestamp("2030-03-01")
    idx = pd.DatetimeIndex(t0 + pd.to_timedelta(np.cumsum([0, *gaps]), unit="h"))
    n.set_snapshots(idx, weightings_from_timedelta=True)
    want = [*gaps, gaps[-1]]
    ctx.prove("hours", [same(n.snapshot_weightings[c].values[i], float(want[i]), f"{c} {i}")
                        for c in ("objective", "generators", "stores") for i in range(len(want))])
    n.set_snapshots([0, 1], weightings_from_timedelta=True, default_snapshot_weightings=ctx.pos("w", 9))
    ctx.prove("no times", [same(n.snapshot_weightings[c].values[i], ctx.pos("w", 9), f"{c} {i}")
                           for c in ("objective", "generators", "stores") for i in range(2)])
    ctx.reach()


ONE = ["g1", "g2", "l1", "l2", "s"]
TWO = ["u", "i2", "k1", "k2", "g2", "l2"]


def allowed(keys):
    return not any(a in "mn" and b not in "mn" for a, b in zip(keys, keys[1:]))


def jobs(tier):
    out = []
    keys = list(SETS)
    pairs = [(a, b) for a in keys for b in keys if allowed((a, b))]
    for i, (a, b) in enumerate(pairs):
        out.append((f"set-{a}{b}", sequence, dict(sets=[a, b], names=ONE if i % 2 else TWO,
                                                 how="property" if i % 5 == 0 else "method")))
    triples = [("a", "b", "a"), ("a", "m", "n"), ("t", "u", "t"), ("a", "c", "n"), ("a", "d", "a"), ("m", "n", "m")]
    if tier != "quick":
        triples = [(a, b, c) for a in keys for b in keys for c in keys if allowed((a, b, c))]
    for k in triples:
        out.append((f"set-{''.join(k)}", sequence, dict(sets=list(k), names=ONE)))
        if tier != "quick":
            out.append((f"set-{''.join(k)}-2", sequence, dict(sets=list(k), names=TWO)))
    for f in ("a", "t", "x"):
        for ps in ((2030,), (2020, 2030), (2020, 2030, 2045)):
            out.append((f"periods-{f}-{len(ps)}", periods, dict(first=f, ps=list(ps), names=ONE if f != "t" else TWO,
                                                                 how="method" if len(ps) != 2 else "property")))
    out.append(("refused", refused, dict(names=ONE)))
    for g in ((1, 1), (3, 1), (1, 2, 24)):
        out.append((f"timedelta-{'-'.join(map(str, g))}", timedelta, dict(gaps=list(g), names=["g1", "l1"])))
    return out
