"""Homotopy end points: the relaxed problem (factor one) is the trivial network,
and the factor only ever enters through the published scaling."""
from ._el import *

SEG = "logic.stamping.lagrangesegment"


def run(ctx):
    # at factor one: series admittances 21x, shunts/mutuals vanish, ratios one with zero angle
    laws(ctx, ALL, tx=ONE, yscale=21, shscale=0, unity=True)
    # every coefficient depends continuously on the factor: no condition on it, and no
    # denominator that vanishes between the end points
    E, EL = setup(ctx)
    tx = S("tx")
    for n in ALL:
        def one(n=n):
            o, st, loc = build(EL, n)
            sys_ = EL.system(o, st, tx)
            for r in sys_.order:
                t = sys_.rows[r]
                bad = [x for x in walk(t) if x.op in ("lt", "eq", "isnone", "truthy") and mentions(x, tx)]
                ctx.ob(f"{n}: row {show(r)} has no condition on the factor", f"condition {show(bad[0])}" if bad else None, loc)
        ctx.section(f"{n}: derivation with a symbolic factor", n, one)
