"""Shared harness pieces for the optimisation properties."""

from __future__ import annotations

from .formula import Bool
from .lp import LP
from .ref import Ref


def network(T=2, periods=None):
    import pypsa

    n = pypsa.Network()
    n.set_snapshots(range(T))
    if periods:
        n.investment_periods = list(periods)
    return n


def buses(ctx, n, names, **kw):
    for b in names:
        ctx.add(n, "Bus", b, **kw)


def model(ctx, n, sns=None, multi=False, losses=0, linear_uc=False, **kw):
    if ctx.sym:
        kw.setdefault("consistency_check", False)
    args = dict(kw)
    if multi:
        args["multi_investment_periods"] = True
    if losses:
        args["transmission_losses"] = losses
    if linear_uc:
        args["linearized_unit_commitment"] = True
    if sns is not None:
        args["snapshots"] = sns
    return n.optimize.create_model(**args)


GROUPS = ("dispatch", "capacity", "balance", "kvl", "storage_units", "spill", "stores", "fixed_dispatch",
          "energy_sums", "commitment", "ramps")


# which reference group a model constraint belongs to (first match wins);
# unknown names fall to "dispatch"/"capacity" checks via "other"
OWNER = (("Kirchhoff", "kvl"), ("nodal_balance", "balance"),
         ("energy_balance", "storage"), ("spill", "storage"), ("e_sum", "energy_sums"),
         ("ramp_limit", "ramps"), ("-loss", "losses"), ("_set", "fixed_dispatch"),
         ("-com-p-before", "commitment"), ("-com-p-current", "commitment"), ("partly", "commitment"),
         ("-com-p-", "dispatch"), ("-com-", "commitment"), ("-status", "commitment"),
         ("-start_up", "commitment"), ("-shut_down", "commitment"), ("GlobalConstraint", "global"),
         ("Carrier-growth", "global"), ("_limit", "global"), ("Bus-nom_", "global"))


def owner(name):
    for k, o in OWNER:
        if k in name:
            return o
    return "other"


def equiv(ctx, n, m, own=None, back=None, sns=None, multi=False, losses=0, linear_uc=False, extra=None, refcls=Ref,
          existence=False, lp=None):
    """model feasible set == reference feasible set, for all inputs and all
    values of the decision variables.

    own: reference groups whose every relation must follow from the model;
    back: owners of model constraints that must follow from the reference
    (default: own; "other" = everything without a more specific owner)."""
    lp = lp or LP(ctx, m)
    ref = refcls(ctx, n, lp, sns=sns, multi=multi, losses=losses, linear_uc=linear_uc)
    ctx.fingerprint([lp.objective] + [r.s for r in lp.rels])
    if existence:
        ctx.prove("decision quantities", ref.existence())
    groups = {g: getattr(ref, g)() for g in GROUPS}
    if losses:
        groups["losses"] = ref.loss_rels()
    if extra:
        groups["extra"] = extra(ref)
    allrefs = [r for g in groups.values() for r in g]
    goals = [r for g, rs in groups.items() if own is None or g in own for r in rs]
    ctx.prove("every feasible point satisfies", goals, given=lp.rels)
    back = own if back is None else back
    if back is None:
        rels = lp.rels
    else:
        rels = [r for g, rs in lp.groups.items() if owner(g) in back for r in rs]
    if rels:
        ctx.prove("nothing else is imposed", rels, given=allrefs)
    ctx.reach(lp.rels)
    return lp, ref


def series(ctx, name, T, varying, **kw):
    """a symbolic attribute: one static value or one value per snapshot."""
    return ctx.reals(name, T, **kw) if varying else ctx.real(name, **kw)
