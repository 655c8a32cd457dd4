"""Automatic devices: each acts on its own measurement, in the restoring direction, and reports exactly its changes."""
from ..algebra import *
from ..interp import AnalysisError
from ._cl import *

WC, WF, WR = (f"src/models/components/{x}" for x in ("capacitor.py:Capacitor.try_adjust_device", "fuse.py:Fuse.try_adjust_device", "regulator.py:Regulator"))
HEAD = '''
from models.components.bus import Bus, GROUND
from models.components.capacitor import Capacitor, CapSwitchState, CapacitorMode
from models.components.fuse import Fuse, FuseStatus
from models.components.regulator import Regulator, RegType, RegControl
from itertools import count
def nodes():
    k = count(0)
    bs = [Bus(i, 1, 1.0, 0.0, 0, "n" + str(i), "A") for i in range(4)]
    for b in bs:
        b.assign_nodes(k, False)
    return bs, k
'''
CAP = HEAD + '''
def client(v, var, hi, lo):
    bs, k = nodes()
    c = Capacitor(bs[1], GROUND, var, 4, CapacitorMode.MODE, hi, lo)
    c.assign_nodes(k, False)
    c.switch = CapSwitchState.STATE
    n0 = len(c.get_stamps())
    r = c.try_adjust_device(v)
    return (r, c.switch == CapSwitchState.CLOSED, n0, len(c.get_stamps()))
'''
FUSE = HEAD + '''
def client(v, lim):
    bs, k = nodes()
    c = Fuse(bs[1], bs[2], bs[3], lim, FuseStatus.STATE, "A")
    c.assign_nodes(k, False)
    r = c.try_adjust_device(v)
    return (r, c.status == FuseStatus.GOOD, len(c.get_connections()))
'''
REG = HEAD + '''
def client(tap, step, lo, hi, inc, vl, vh, v):
    bs, k = nodes()
    c = Regulator(bs[1], bs[2], bs[3], tap, step, RegType.TYPE, RegControl.MANUAL, vl, vh, hi, lo)
    t0 = c.tap_position
    r0 = c.turn_ratio
    r = c.try_increment_tap_position(inc)
    t1 = c.tap_position
    m = c.try_adjust_device(v)
    return (t0, r0, r, t1, c.turn_ratio, c.transformer.tr, m, c.tap_position)
'''


def cond(t):
    """boolean term of a value used as a truth value"""
    if t.op == "ite":
        return OR(AND(t.a[0], cond(t.a[1])), AND(NOT(t.a[0]), cond(t.a[2])))
    if t.op == "c":
        return C(bool(t.a[0]))
    return t


def eqv(a, b, assume=TRUE):
    return equivalent(cond(a), cond(b), assume)[0]


def parts(o, n):
    """component i of the result as a gated value"""
    out = []
    for i in range(n):
        v = None
        for c, x, s in reversed(o.returns):
            y = items(x)[i]
            v = y if v is None else ITE(c, y, v)
        out.append(v)
    return out


def modulus(i, j):
    return mk("abs", mk("complex", mk("sub_", S("v"), C(i)), mk("sub_", S("v"), C(j))))


def run_(ctx, text):
    E = ctx.engine()
    E.load("logic.stamping.matrixstamper")
    E.fn("logic.stamping.matrixstamper.build_stamps_from_stamper")
    # the equations themselves are C02's concern; here only whether there are any
    E.models["logic.stamping.matrixstamper.build_stamps_from_stamper"] = lambda a, kw, st, fr: E.alloc(st, "list", [("i", S("stamp"))])
    return client(ctx, text, E=E)


def capacitor(ctx, state, mode):
    o = run_(ctx, CAP.replace("CapacitorMode.MODE", "CapacitorMode." + mode).replace("CapSwitchState.STATE", "CapSwitchState." + state))
    ctx.must(f"capacitor {mode} {state}: never fails", not o.raises, WC, "raises when " + show(o.raise_cond(), 5)[:200])
    r, closed, n0, n1 = parts(o, 4)
    name = f"capacitor {mode} {state}"
    changed = cond(closed) if state == "OPEN" else NOT(cond(closed))
    m = modulus(2, 3)
    above, below = LT(S("hi"), m), LT(m, S("lo"))
    # a voltage above the high and below the low limit at once is meaningless
    sane = NOT(AND(above, below))
    ctx.ob(f"{name}: an adjustment is reported exactly when the switch moved", eqv(r, changed, sane), WC)
    if mode == "MANUAL":
        ctx.ob(f"{name}: never moves", eqv(changed, FALSE), WC)
    else:
        opposite = eqv(changed, above if state == "OPEN" else below, sane)
        right = eqv(changed, below if state == "OPEN" else above, sane)
        ctx.ob(f"{name}: moves exactly when the voltage at its bus has left the band on one side", right and opposite, WC)
        ctx.ob(f"{name}: moves in the direction that restores the voltage", right if opposite is not None else
               f"{'closes when the voltage is above' if state == 'OPEN' else 'opens when the voltage is below'} the band", WC)
    ctx.must(f"{name}: an open capacitor has no equations, a closed one does", (n0 is ZERO) == (state == "OPEN"), WC, show(n0))
    ctx.ob(f"{name}: the equations follow the switch", eqv(EQ(n1, ZERO), NOT(cond(closed))), WC)


def fuse(ctx, state):
    o = run_(ctx, FUSE.replace("STATE", state))
    name = f"fuse {state}"
    ctx.must(f"{name}: never fails", o.raise_cond() is FALSE, WF, "raises when " + show(o.raise_cond(), 5)[:200])
    r, good, links = parts(o, 3)
    ctx.ob(f"{name}: an adjustment is reported exactly when it blew", eqv(r, NOT(cond(good)) if state == "GOOD" else FALSE), WF)
    if state == "GOOD":
        ctx.ob(f"{name}: blows exactly when the current through it exceeds its limit", eqv(NOT(cond(good)), LT(S("lim"), modulus(8, 9))), WF)
    else:
        ctx.ob(f"{name}: stays blown", eqv(good, FALSE), WF)
    ctx.ob(f"{name}: connects its buses exactly while good", eqv(EQ(links, ZERO), NOT(cond(good))), WF)


def regulator(ctx, typ):
    o = run_(ctx, REG.replace("RegType.TYPE", "RegType." + typ))
    name = f"regulator {typ}"
    ctx.must(f"{name}: never fails", o.raise_cond() is FALSE, WR, "raises when " + show(o.raise_cond(), 5)[:200])
    t0, r0, moved, t1, r1, tr, m, t2 = parts(o, 8)
    lo, hi = NEGT(S("lo")), S("hi")
    ok = LT(lo, hi)
    for label, t, w in (("at construction", t0, S("tap")), ("after a step", t1, arith("add", t0, S("inc")))):
        ctx.ob(f"{name}: tap {label} is the requested one held inside its range", bounded(t, w, lo, hi), WR)
    for label, t, r in (("at construction", t0, r0), ("after a step", t1, r1)):
        ctx.ob(f"{name}: ratio {label} follows the tap", ratio(typ, t, r), WR)
    ctx.must(f"{name}: the transformer carries the current ratio", tr is r1, WR, show(tr, 4))
    ctx.ob(f"{name}: a move is reported exactly when the tap changed", eqv(moved, NOT(EQ(t0, t1))), WR)
    ctx.ob(f"{name}: control without a change reports none", eqv(NOT(EQ(t1, t2)), m), WR)


def NEGT(t):
    return arith("neg", t)


def pick(t, known):
    while t.op == "ite":
        k = known(t.a[0])
        if k is None:
            raise AnalysisError("unexpected condition " + show(t.a[0], 4))
        t = t.a[1] if k else t.a[2]
    return t


def bounded(t, w, lo, hi):
    """t is w clamped to [lo, hi]"""
    for case in ("below", "lo", "inside", "hi", "above"):
        def known(c, case=case):
            neg = False
            if c.op == "not":
                k = known(c.a[0])
                return None if k is None else not k
            order = {"below": (-2, -1, 1), "lo": (-1, -1, 1), "inside": (0, -1, 1), "hi": (1, -1, 1), "above": (2, -1, 1)}[case]
            val = {w.id: order[0], lo.id: order[1], hi.id: order[2]}
            if c.op in ("lt", "eq") and all(isinstance(x, T) and x.id in val for x in c.a):
                x, y = (val[z.id] for z in c.a)
                return x < y if c.op == "lt" else x == y
            if c.op in ("and", "or"):
                ks = [known(x) for x in c.a]
                if c.op == "and": return False if False in ks else None if None in ks else True
                return True if True in ks else None if None in ks else False
            return None
        if t.op in ("max", "min"):
            raise AnalysisError("clamp is not a comparison")
        got = pick(t, known)
        want = {"below": (lo,), "lo": (lo, w), "inside": (w,), "hi": (hi, w), "above": (hi,)}[case]
        if got not in want:
            return f"{case} its range: becomes {show(got, 5)}"
    return None


def ratio(typ, tap, r):
    step = S("step")
    x = S("a tap")
    r = subst(r, {tap: x})
    one = arith("mul", step, x)
    want = arith("div", ONE, arith("add", ONE, one)) if typ == "A" else arith("sub", ONE, one)
    A = Alg()
    return None if A.equal(r, want) else f"ratio is {show(r, 6)}"


def run(ctx):
    for state in ("OPEN", "CLOSED"):
        for mode in ("MANUAL", "VOLT"):
            ctx.section(f"capacitor {mode} {state}", WC, capacitor, ctx, state, mode)
    for mode in ("VAR", "VARVOLT"):
        def other():
            o = run_(ctx, CAP.replace("CapacitorMode.MODE", "CapacitorMode." + mode).replace("CapSwitchState.STATE", "CapSwitchState.CLOSED"))
            ctx.must(f"capacitor {mode}: refused instead of ignored", not o.returns and o.raises, WC, "accepted")
        ctx.section(f"capacitor {mode}", WC, other)
    for state in ("GOOD", "BLOWN"):
        ctx.section(f"fuse {state}", WF, fuse, ctx, state)
    for typ in "AB":
        ctx.section(f"regulator {typ}", WR, regulator, ctx, typ)
