"""Current conservation of every element, for every homotopy factor and parameter value."""
from ._el import *


def total(sys_, buses):
    a = b = ZERO
    for x in buses:
        r, i = rowpair(sys_, x)
        a, b = arith("add", a, r), arith("add", b, i)
    return a, b


def balance(ctx, name, sys_, buses, loc, assume=TRUE):
    r, i = total(sys_, buses)
    ctx.ob(f"{name}: real current into {'+'.join(show(b) for b in buses)} cancels", compare(ZERO, r, assume), loc)
    ctx.ob(f"{name}: imaginary current into {'+'.join(show(b) for b in buses)} cancels", compare(ZERO, i, assume), loc)


def no_ground(ctx, name, sys_, loc, buses):
    extra = [b for b in buses_of(sys_) if b not in buses]
    ctx.ob(f"{name}: no other bus receives current", None if not extra else f"current at {[show(b) for b in extra]}", loc)


def run(ctx):
    E, EL = setup(ctx)
    tx = S("tx")
    f, t, i = S("f"), S("t"), S("i")

    def el(n):
        o, st, loc = build(EL, n)
        sys_ = EL.system(o, st, tx)
        return sys_, loc

    for n, groups in (("Load", [[f, t]]), ("Capacitor", [[f, t]]), ("Switch", [[f, t]]), ("Fuse", [[f, i, t]]), ("VoltageSource", [[f, t]]), ("CurrentSensor", [[f, t]]),
                      ("Transformer", [[S("fp"), S("fn")]])):
        def one(n=n, groups=groups):
            sys_, loc = el(n)
            for g in groups:
                balance(ctx, n, sys_, g, loc)
            no_ground(ctx, n, sys_, loc, [b for g in groups for b in g] + [S("tp"), S("tn")])
        ctx.section(f"{n}: balance", n, one)

    def line():
        sys_, loc = el("Line")
        s = {S("b"): ZERO}
        r, q = total(sys_, [f, t])
        ctx.ob("Line: series real current cancels", compare(ZERO, absorb(subst(r, s))), loc)
        ctx.ob("Line: series imaginary current cancels", compare(ZERO, absorb(subst(q, s))), loc)
        # what does not cancel is the shunt current of the two ends
        b = X(S("b")) / 2 * (1 - X(tx))
        sh = cpx(0, b) * (phasor(f) + phasor(t))
        ctx.ob("Line: unbalanced real current is the charging current", compare(sh.re.t, r), loc)
        ctx.ob("Line: unbalanced imaginary current is the charging current", compare(sh.im.t, q), loc)
        no_ground(ctx, "Line", sys_, loc, [f, t])
    ctx.section("Line: balance", "Line", line)

    def uline():
        sys_, loc = el("UnbalancedLine")
        m = {S("Ysh"): NONE}
        bs = [S(a + p) for a in "ft" for p in "ABC"]
        for p in "ABC":
            r, q = total(sys_, [S("f" + p), S("t" + p)])
            # a mutual term only feeds phase p of both ends with opposite sign
            r, q = absorb(subst(r, m)), absorb(subst(q, m))
            ctx.ob(f"UnbalancedLine: series real current of phase {p} cancels", compare(ZERO, r), loc)
            ctx.ob(f"UnbalancedLine: series imaginary current of phase {p} cancels", compare(ZERO, q), loc)
        no_ground(ctx, "UnbalancedLine", sys_, loc, bs)
    ctx.section("UnbalancedLine: balance", "UnbalancedLine", uline)

    def regulator():
        sys_, loc = el("Regulator")
        # secondary side: interior node, load node and internal node carry the transformed current
        I = free_pair(ctx, "Regulator", sys_, f, loc)
        sec = secondary(ctx, "Regulator", sys_, I, loc)
        if sec is None:
            return
        vs = cpx(V(sec[0]), V(sec[1]))
        power(ctx, "Regulator", sys_, f, I, vs, S("i"), loc)
    ctx.section("Regulator: balance", "Regulator", regulator)

    def xfmr():
        sys_, loc = el("Transformer")
        I = free_pair(ctx, "Transformer", sys_, S("fp"), loc)
        sec = secondary(ctx, "Transformer", sys_, I, loc)
        if sec is None:
            return
        vs = cpx(V(sec[0]), V(sec[1]))
        r, q = total(sys_, [S("tp"), S("tn")])
        r, q = arith("add", r, sys_.rows[sec[0]]), arith("add", q, sys_.rows[sec[1]])
        ctx.ob("Transformer: real current into the secondary side cancels", compare(ZERO, r), loc)
        ctx.ob("Transformer: imaginary current into the secondary side cancels", compare(ZERO, q), loc)
        power(ctx, "Transformer", sys_, S("fp"), I, vs, S("tp"), loc, S("fn"), S("tn"))
    ctx.section("Transformer: power balance", "Transformer", xfmr)

    def ct():
        sys_, loc = el("CenterTapTransformer")
        c0, c1, c2 = S("c0"), S("c1"), S("c2")
        fb, p = node(c0, "from_node"), node(c0, "primary_node")
        s1, t1 = node(c1, "sending_node"), node(c1, "to_node")
        s2, t2 = node(c2, "sending_node"), node(c2, "to_node")
        # series elements conserve current: what is left at each side is the ideal coil current
        I = []
        for a, b in ((fb, p), (s1, t1), (s2, t2)):
            r, q = total(sys_, [a, b])
            I.append(cpx(r, q))
        for nm, c in (("first", I[1]), ("second", I[2])):
            ok = all(single(x.t) is not None for x in (c.re, c.im))
            ctx.ob(f"CenterTapTransformer: current into the {nm} secondary side is the coil current", None if ok else f"rows leave {show(c.t)}", loc)
        # lossless ideal coupling: Vp Ip* + V1 I1* + V2 I2* = 0 when the coil equations hold
        tr = X(S("turn_ratio")) + (1 - X(S("turn_ratio"))) * X(tx)
        Vp = phasor(p)
        S_ = Vp * I[0].conj + (Vp / tr) * I[1].conj - (Vp / tr) * I[2].conj
        ctx.ob("CenterTapTransformer: coils are lossless (active)", compare(ZERO, S_.re.t), loc)
        ctx.ob("CenterTapTransformer: coils are lossless (reactive)", compare(ZERO, S_.im.t), loc)
        no_ground(ctx, "CenterTapTransformer", sys_, loc, [fb, p, s1, t1, s2, t2])
    ctx.section("CenterTapTransformer: balance", "CenterTapTransformer", ct)


def power(ctx, name, sys_, f, I, vs, far, loc, fneg=None, tneg=None):
    """ideal coupling is lossless for every factor: with the voltage equations solved for the primary
    voltage, (Vp) I* + (Vs) Is* = 0"""
    ints = internal_rows(sys_)
    used = [x.a[0] for x in walk(I.t) if x.op == "V"]
    vp = phasor(f) - (phasor(fneg) if fneg is not None else 0)
    vr, vi = V(node(f, "node_Vr")), V(node(f, "node_Vi"))
    # voltage equations: the internal rows that mention the primary voltage
    eq = {}
    for r in ints:
        t = sys_.rows[r]
        if mentions(t, vr): eq["r"] = t
        elif mentions(t, vi): eq["i"] = t
    if len(eq) != 2:
        ctx.ob(f"{name}: voltage equations of the ideal coupling", f"{len(eq)} internal rows relate the primary voltage", loc)
        return
    # primary voltage implied by the equations: Vp = Vp - eq (unit coefficient)
    Vp = cpx(X(vr) - X(eq["r"]), X(vi) - X(eq["i"])) - (phasor(fneg) if fneg is not None else 0)
    A = Alg()
    # coupled secondary current: terminal rows of the internal node with all voltages removed
    cur = []
    for s in (vs.t.a[0], vs.t.a[1]):
        row = sys_.rows.get(s.a[0])
        m = {x: ZERO for x in walk(row) if x.op == "V" and x.a[0] not in used}
        cur.append(absorb(subst(row, m)))
    Is = cpx(*cur)
    Vs = vs - (phasor(tneg) if tneg is not None else 0)
    S_ = Vp * I.conj + Vs * Is.conj
    ctx.ob(f"{name}: ideal coupling is lossless (active)", compare(ZERO, S_.re.t), loc)
    ctx.ob(f"{name}: ideal coupling is lossless (reactive)", compare(ZERO, S_.im.t), loc)
    # the series element conserves current between internal node and far terminal
    r, q = rowpair(sys_, far)
    tot = [arith("add", arith("sub", sys_.rows[s.a[0]], c), x) for s, c, x in zip(vs.t.a, cur, (r, q))]
    for nm, t in zip(("real", "imaginary"), tot):
        m = {x: ZERO for x in walk(t) if x.op == "V" and x.a[0] not in used and not (is_bus_row(x.a[0])) and x not in vs.t.a}
        ctx.ob(f"{name}: series element conserves {nm} current", compare(ZERO, absorb(subst(t, m))), loc)
