"""Catalogue of network elements: how they are built abstractly and the physical
law each one has to contribute (per terminal, complex current leaving the node)."""
import os
from ..term import *
from ..interp import AnalysisError, State
from ..algebra import Alg, Cases, compare, point_subst
from ..elements import *

BUSATTR = {"from_node", "primary_node", "sending_node", "to_node"}


def setup(ctx):
    E = ctx.engine()
    EL = Elements(E)
    for b in ("f", "t", "i", "fp", "fn", "tp", "tn", "bus", "fA", "fB", "fC", "tA", "tB", "tC"):
        E.hints[S(b)] = "models.components.bus.Bus"
        E.distinct_syms.add(S(b))
    E.hint_fn = lambda t: "models.components.bus.Bus" if t.op == "attr" and t.a[1] in BUSATTR else None
    return E, EL


def where(E, qual):
    c = E.cls(qual)
    return f"src/{os.path.relpath(c.mod.path, E.src)}:{c.node.lineno} class {c.name}"


class Spec:
    """expected contribution: currents[bus] = complex X ; eqs = list of X (==0) ; free = buses
    whose current is carried by a free (unknown) current pair"""
    def __init__(self, currents=None, eqs=(), assume=TRUE):
        self.currents = currents or {}
        self.eqs = list(eqs)
        self.assume = assume


def rowpair(sys_, b):
    r = sys_.rows.get(node(b, "node_Vr"), ZERO)
    i = sys_.rows.get(node(b, "node_Vi"), ZERO)
    return r, i


def rowcurrent(sys_, b):
    r, i = rowpair(sys_, b)
    return cpx(r, i)


def is_bus_row(r):
    return r.op == "attr" and r.a[1] in ("node_Vr", "node_Vi", "node_lambda_Vr", "node_lambda_Vi")


def buses_of(sys_):
    return {r.a[0] for r in sys_.rows if is_bus_row(r)}


def internal_rows(sys_):
    return [r for r in sys_.order if not is_bus_row(r)]


def scaled_zero(code, spec, assume):
    """code == k*spec for a non-zero constant k, in every case"""
    A = Alg()
    A.prep(code, spec, assume)
    cs = Cases(A)
    for asg, (s, c) in cs.enumerate([spec, code], assume):
        a, b = A.num(c)[0], A.num(s)[0]
        sub = point_subst(cs, asg)
        a, b = A.rsub(a, sub), A.rsub(b, sub)
        x, y = A.pmul(a[0], b[1]), A.pmul(b[0], a[1])
        if not x or not y:
            if not x and not y:
                continue
            return False
        m = max(x, key=lambda k: repr(k))
        if m not in y:
            return False
        k = x[m] / y[m]
        if not A.req((x, {(): 1}), ({q: v * k for q, v in y.items()}, {(): 1})):
            return False
    return True


def check_law(ctx, name, sys_, spec, loc):
    exp = {}
    for b, cur in spec.currents.items():
        exp[node(b, "node_Vr")] = X(cur).re.t
        exp[node(b, "node_Vi")] = X(cur).im.t
    ok = True
    for r, e in exp.items():
        got = sys_.rows.get(r, ZERO)
        ok &= ctx.ob(f"{name}: current at {show(r)}", compare(e, got, spec.assume), loc)
    for r in sys_.order:
        if is_bus_row(r) and r not in exp:
            ok &= ctx.ob(f"{name}: no contribution at {show(r)}", compare(ZERO, sys_.rows[r], spec.assume), loc)
    rows = list(internal_rows(sys_))
    for k, e in enumerate(spec.eqs):
        hit = None
        for r in rows:
            try:
                if scaled_zero(sys_.rows[r], X(e).t, spec.assume):
                    hit = r
                    break
            except Exception:
                pass
        if hit is not None:
            rows.remove(hit)
        ok &= ctx.ob(f"{name}: equation {k + 1} of {len(spec.eqs)}", None if hit is not None else
                     f"no internal row states {show(X(e).t, 7)} = 0; internal rows: " + "; ".join(f"{show(r)}: {show(sys_.rows[r], 6)}" for r in internal_rows(sys_)), loc)
    for r in rows:
        ok &= ctx.ob(f"{name}: no further equation", f"unexpected equation in row {show(r)}: {show(sys_.rows[r], 6)}", loc)
    return ok


def single(t):
    """(sign, unknown) when the term is plus or minus one solver unknown, else None"""
    while t.op == "ite":
        if t.a[2] is ZERO: t = t.a[1]
        elif t.a[1] is ZERO: t = t.a[2]
        else: return None
    A = Alg()
    A.prep(t)
    n = A.num(t)
    if n[1][0]:
        return None
    p, d = n[0]
    if set(d) != {()} or len(p) != 1:
        return None
    (m, c), = p.items()
    c = c / d[()]
    if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
        return None
    k = A.gname[m[0][0]]
    if isinstance(k, tuple) and k[0] == "t" and k[1].op == "V":
        return (1 if c > 0 else -1), k[1]
    return None


def constval(t):
    """exact numeric value of a constant expression, or None"""
    A = Alg()
    A.prep(t)
    try:
        n = A.num(t)
    except ZeroDivisionError:
        return None
    return None if n[1][0] else A.rconstval(n[0])


def stiff(G, B):
    g, b = constval(X(G).t), constval(X(B).t)
    return g is not None and b is not None and abs(complex(float(g), float(b))) >= 1e3


def free_pair(ctx, name, sys_, b, loc):
    """the current at bus b is a pair of two distinct unknowns (signed)"""
    out = [single(r) for r in rowpair(sys_, b)]
    good = all(out) and all(not is_bus_row(t.a[0]) for _, t in out) and out[0][1] is not out[1][1]
    ctx.ob(f"{name}: free current unknowns at {show(b)}", None if good else f"rows are {show(rowpair(sys_, b)[0], 6)} / {show(rowpair(sys_, b)[1], 6)}", loc)
    if not good:
        raise AnalysisError(f"current at {show(b)} is not a pair of free unknowns")
    return cpx(*[X(t) if s > 0 else -X(t) for s, t in out])


# ------------------------------------------------------------------ elements
COMP = "models.components."


def kw_syms(names):
    return {n: S(n) for n in names.split()}


def build(EL, name, opt=FALSE):
    """(object, state, location, assumption)"""
    E = EL.E
    q = {"Line": "line.Line", "Load": "load.Load", "Generator": "generator.Generator", "Slack": "slack.Slack",
         "Shunt": "shunt.Shunt", "Capacitor": "capacitor.Capacitor", "Switch": "switch.Switch", "Fuse": "fuse.Fuse",
         "VoltageSource": "voltagesource.VoltageSource", "CurrentSensor": "voltagesource.CurrentSensor",
         "Transformer": "transformer.Transformer", "CenterTapTransformer": "center_tap_transformer.CenterTapTransformer",
         "Regulator": "regulator.Regulator", "UnbalancedLine": "unbalanced_line.UnbalancedLine"}[name]
    q = COMP + q
    pre = None
    st = None
    f, t = S("f"), S("t")
    if name == "Line":
        kw = dict(from_bus=f, to_bus=t, **kw_syms("r x b status rateA rateB rateC"))
    elif name == "Load":
        kw = dict(from_bus=f, to_bus=t, **kw_syms("P Q Z IP IQ"))
    elif name == "Generator":
        kw = dict(bus=f, **kw_syms("P Vset Qmax Qmin Pmax Pmin Qinit RemoteBus RMPCT gen_type"))
    elif name == "Slack":
        kw = dict(bus=f, **kw_syms("Vset ang Pinit Qinit"))
    elif name == "Shunt":
        kw = dict(bus=f, **kw_syms("G_MW B_MVAR shunt_type Vhi Vlo Bmax Bmin Binit controlBus"))
    elif name == "Capacitor":
        kw = dict(from_bus=f, to_bus=t, **kw_syms("var nominal_voltage mode high_voltage low_voltage"))
        def pre(o, s):
            E.setattr(o, "switch", S("switch"), s, None)
    elif name == "Switch":
        kw = dict(from_node=f, to_node=t, **kw_syms("status phase"))
    elif name == "Fuse":
        kw = dict(from_node=f, to_node=t, interior_node=S("i"), **kw_syms("current_limit status phase"))
    elif name == "VoltageSource":
        kw = dict(from_bus=f, to_bus=t, **kw_syms("Vr_set Vi_set"))
    elif name == "CurrentSensor":
        kw = dict(from_bus=f, to_bus=t)
    elif name == "Transformer":
        kw = dict(from_bus_pos=S("fp"), from_bus_neg=S("fn"), to_bus_pos=S("tp"), to_bus_neg=S("tn"), **kw_syms("r x status tr ang G_shunt B_shunt rating"))
    elif name == "CenterTapTransformer":
        kw = dict(coil_1=S("c0"), coil_2=S("c1"), coil_3=S("c2"), **kw_syms("phase turn_ratio power_rating g_shunt b_shunt"))
    elif name == "Regulator":
        kw = dict(from_node=f, to_node=t, current_node=S("i"), **kw_syms("tap_position ar_step reg_type reg_control vlow vhigh raise_taps lower_taps"))
    elif name == "UnbalancedLine":
        st = State()
        net = S("network")
        loc = E.alloc(st, "dict", [("kv", C(a + "_" + p), S(a + p)) for a in "ft" for p in "ABC"])
        st.heap[("f", net, "bus_name_map")] = loc
        kw = dict(network_model=net, from_element=C("f"), to_element=C("t"), phases=C("ABC"), **kw_syms("impedances shunt_admittances length"))
        def pre(o, s):
            E.setattr(o, "admittances", S("Y"), s, None)
            E.setattr(o, "shunt_admittances", S("Ysh"), s, None)
    E.cls(q)
    o, st = EL.construct(q, kw, opt, st, pre)
    return o, st, where(E, q)


ALL = ["Line", "Load", "Generator", "Slack", "Shunt", "Capacitor", "Switch", "Fuse", "VoltageSource", "CurrentSensor", "Transformer", "CenterTapTransformer", "Regulator", "UnbalancedLine"]


def enumv(E, q, k):
    c = E.cls(q)
    v = c.ns.get(k)
    if v is None:
        raise AnalysisError(f"anchor enum member {q}.{k} not found")
    return v


def series(r, x):
    return 1 / cpx(r, x)


def law(ctx, EL, name, sys_, o, st, loc, yscale=1, shscale=1, unity=False):
    """Spec for an element; yscale multiplies series admittances, shscale shunt admittances,
    unity forces transformer ratios to one with zero angle (homotopy end point)"""
    E = EL.E
    f, t = S("f"), S("t")
    Vf, Vt = phasor(f), phasor(t)
    s = lambda n: X(S(n))
    fld = lambda n: X(E.getattr(o, n, st, None))
    if name == "Line":
        y = series(s("r"), s("x")) * yscale
        ysh = cpx(0, s("b") / 2) * shscale
        return Spec({f: y * (Vf - Vt) + ysh * Vf, t: y * (Vt - Vf) + ysh * Vt})
    if name == "Load":
        d = Vf - Vt
        I = (cpx(s("P"), s("Q")) / d).conj + cpx(s("IP"), s("IQ")) + ite(EQ(S("Z"), ZERO), 0, d / s("Z") * shscale)
        return Spec({f: I, t: -I})
    if name == "Generator":
        # injected P, reactive power is the unknown of the extra equation
        ints = internal_rows(sys_)
        Q = X(V(ints[0])) if ints else X(S("Q"))
        I = (cpx(-s("P"), Q) / Vf).conj
        return Spec({f: I}, [s("Vset") ** 2 - Vf.re ** 2 - Vf.im ** 2])
    if name == "Slack":
        I = free_pair(ctx, name, sys_, f, loc)
        d = Vf - polar(s("Vset"), s("ang"))
        return Spec({f: I}, [d.re, d.im])
    if name == "Shunt":
        return Spec({f: cpx(s("G_MW"), s("B_MVAR")) / 100 * shscale * Vf})
    if name == "Capacitor":
        op = EQ(S("switch"), enumv(E, COMP + "capacitor.CapSwitchState", "OPEN"))
        cl = EQ(S("switch"), enumv(E, COMP + "capacitor.CapSwitchState", "CLOSED"))
        I = ite(op, 0, cpx(0, s("var") / s("nominal_voltage") ** 2) * shscale * (Vf - Vt))
        return Spec({f: I, t: -I}, assume=OR(op, cl))
    if name == "Switch":
        cl = EQ(S("status"), enumv(E, COMP + "switch.SwitchStatus", "CLOSED"))
        I = free_pair(ctx, name, sys_, f, loc)
        d = Vf - Vt
        op = EQ(S("status"), enumv(E, COMP + "switch.SwitchStatus", "OPEN"))
        return Spec({f: ite(op, 0, I), t: ite(op, 0, -I)}, [d.re, d.im], assume=cl)
    if name in ("VoltageSource", "CurrentSensor"):
        I = free_pair(ctx, name, sys_, f, loc)
        d = Vf - Vt - (cpx(s("Vr_set"), s("Vi_set")) if name == "VoltageSource" else 0)
        return Spec({f: I, t: -I}, [d.re, d.im])
    if name == "Fuse":
        i = S("i")
        good = EQ(S("status"), enumv(E, COMP + "fuse.FuseStatus", "GOOD"))
        G, B = fld("G"), fld("B")
        ctx.ob(f"{name}: closed fuse is a low impedance", None if stiff(G, B) else f"G={show(G.t)} B={show(B.t)}", loc)
        y = cpx(G, B) * yscale
        Vi = phasor(i)
        tp = EL.system(o, st, ZERO)
        I = free_pair(ctx, name, sys_, t, loc)      # row at t is -I
        I = -I
        d = Vi - Vt
        return Spec({f: y * (Vf - Vi), i: y * (Vi - Vf) + I, t: -I}, [d.re, d.im], assume=good)
    if name == "Transformer":
        fp, fn, tp, tn = (S(x) for x in ("fp", "fn", "tp", "tn"))
        Ip = free_pair(ctx, name, sys_, fp, loc)
        a = X(ONE) if unity else polar(s("tr"), s("ang") * PI / 180)
        sec = secondary(ctx, name, sys_, Ip, loc)
        Vs = cpx(V(sec[0]), V(sec[1])) if sec else X(ZERO)
        y = series(s("r"), s("x")) * yscale
        Is = -(a.conj) * Ip
        d = (phasor(fp) - phasor(fn)) - a * (Vs - phasor(tn))
        k = Is + y * (Vs - phasor(tp))
        return Spec({fp: Ip, fn: -Ip, tp: y * (phasor(tp) - Vs), tn: -Is}, [d.re, d.im, k.re, k.im])
    if name == "Regulator":
        i = S("i")
        Ip = free_pair(ctx, name, sys_, f, loc)
        sec = secondary(ctx, name, sys_, Ip, loc)
        Vs = cpx(V(sec[0]), V(sec[1])) if sec else X(ZERO)
        tap = s("tap_position")
        up, lo = s("raise_taps"), s("lower_taps")
        tp_ = ite(NOT(LT(tap.t, up.t)), up, ite(NOT(LT((-lo).t, tap.t)), -lo, tap))
        A_ = EQ(S("reg_type"), enumv(E, COMP + "regulator.RegType", "A"))
        B_ = EQ(S("reg_type"), enumv(E, COMP + "regulator.RegType", "B"))
        a = X(ONE) if unity else ite(A_, 1 / (1 + s("ar_step") * tp_), 1 - s("ar_step") * tp_)
        tr = E.getattr(o, "transformer", st, None)
        G, B = (E.getattr(tr, n, st, None) for n in ("G_loss", "B_loss"))
        ctx.ob(f"{name}: internal series impedance is negligible", None if stiff(G, B) else f"G={show(G)} B={show(B)}", loc)
        y = cpx(G, B) * yscale
        Is = -a * Ip
        It = -free_pair(ctx, name, sys_, t, loc)
        d = Vf - a * Vs
        k = Is + y * (Vs - phasor(i))
        e = phasor(i) - Vt
        return Spec({f: Ip, i: y * (phasor(i) - Vs) + It, t: -It}, [d.re, d.im, k.re, k.im, e.re, e.im],
                    assume=AND(OR(A_, B_), NOT(LT(up.t, (-lo).t))))
    if name == "CenterTapTransformer":
        c0, c1, c2 = S("c0"), S("c1"), S("c2")
        g = lambda c, n: X(mk("attr", c, n))
        def ser(c):
            zb = g(c, "nominal_voltage") ** 2 / s("power_rating")
            r, x = g(c, "resistance") * zb, g(c, "reactance") * zb
            z = AND(EQ(r.t, ZERO), EQ(x.t, ZERO))
            r0 = AND(EQ(g(c, "resistance").t, ZERO), EQ(g(c, "reactance").t, ZERO))
            return ite(z, 0, series(r, x)) * yscale
        fb, p = node(c0, "from_node"), node(c0, "primary_node")
        s1, t1 = node(c1, "sending_node"), node(c1, "to_node")
        s2, t2 = node(c2, "sending_node"), node(c2, "to_node")
        tr = X(ONE) if unity else s("turn_ratio")
        y0, y1, y2 = ser(c0), ser(c1), ser(c2)
        # coil currents: rows at the two sending nodes minus the series element
        ints = internal_rows(sys_)
        I1 = ideal_pair(sys_, s1, ints)
        I2 = ideal_pair(sys_, s2, ints)
        ok = I1 is not None and I2 is not None
        ctx.ob(f"{name}: coil current unknowns", None if ok else f"internal rows {ints}", loc)
        if not ok:
            I1 = I2 = X(ZERO)
        Vp = phasor(p)
        d1 = phasor(s1) - Vp / tr
        d2 = phasor(s2) + Vp / tr
        Ip = (I2 - I1) / tr
        return Spec({fb: y0 * (phasor(fb) - Vp), p: y0 * (Vp - phasor(fb)) + Ip,
                     s1: I1 + y1 * (phasor(s1) - phasor(t1)), t1: y1 * (phasor(t1) - phasor(s1)),
                     s2: I2 + y2 * (phasor(s2) - phasor(t2)), t2: y2 * (phasor(t2) - phasor(s2))},
                    [d1.re, d1.im, d2.re, d2.im])
    if name == "UnbalancedLine":
        fr = [S("f" + p) for p in "ABC"]
        to = [S("t" + p) for p in "ABC"]
        item = lambda m, i, j: X(mk("sub_", mk("sub_", S(m), C(i)), C(j)))
        cur = {}
        for i in range(3):
            a = X(ZERO); b = X(ZERO)
            for j in range(3):
                y = item("Y", i, j)
                y = cpx(y.re, y.im) * (yscale if i == j else shscale)
                B = ite(ISNONE(S("Ysh")), 0, item("Ysh", i, j).im)
                sh = cpx(0, B / 2) * shscale
                a = a + y * (phasor(fr[j]) - phasor(to[j])) + sh * phasor(fr[j])
                b = b + y * (phasor(to[j]) - phasor(fr[j])) + sh * phasor(to[j])
            cur[fr[i]] = a
            cur[to[i]] = b
        # a matrix of the size of the phase list is indexed without an exception
        excs = {x for t in sys_.rows.values() for x in walk(t) if x.op == "exc"}
        return Spec(cur, assume=AND(*[NOT(x) for x in excs]))
    raise AnalysisError("no law for " + name)


def secondary(ctx, name, sys_, Ip, loc):
    """indices of the internal secondary voltage pair: internal unknowns that are not the primary current"""
    ints = internal_rows(sys_)
    used = {x.a[0] for x in walk(Ip.t) if x.op == "V"}
    rest = [r for r in ints if r not in used]
    far = S("tp") if S("tp") in buses_of(sys_) else S("i")
    r, im = rowpair(sys_, far)
    vs = {y.a[0] for x in (r, im) for y in walk(x) if y.op == "V"}
    cand = [x for x in rest if x in vs]
    if len(cand) < 2:
        ctx.ob(f"{name}: internal secondary node", f"no internal voltage pair found among {ints}", loc)
        return None
    # try both orders: the one for which the derivative of the real row w.r.t. Vr equals that of imag row w.r.t. Vi
    for a in cand:
        for b in cand:
            if a is b:
                continue
            d1 = arith("sub", subst(r, {mk("V", a): ONE}), subst(r, {mk("V", a): ZERO}))
            d2 = arith("sub", subst(im, {mk("V", b): ONE}), subst(im, {mk("V", b): ZERO}))
            d3 = arith("sub", subst(r, {mk("V", b): ONE}), subst(r, {mk("V", b): ZERO}))
            d4 = arith("sub", subst(im, {mk("V", a): ONE}), subst(im, {mk("V", a): ZERO}))
            if compare(d1, d2)[0] is None and compare(arith("neg", d3), d4)[0] is None:
                own = mk("V", node(far, "node_Vr"))
                d0 = arith("sub", subst(r, {own: ONE}), subst(r, {own: ZERO}))
                if compare(arith("neg", d0), d1)[0] is None:
                    return a, b
    ctx.ob(f"{name}: internal secondary node", "series element is not a complex admittance", loc)
    return None


def ideal_pair(sys_, b, ints):
    out = []
    for r in rowpair(sys_, b):
        vs = []
        for x in walk(r):
            if x.op == "V" and x.a[0] in ints and x not in vs:
                vs.append(x)
        if len(vs) != 1:
            return None
        d = arith("sub", subst(r, {vs[0]: ONE}), subst(r, {vs[0]: ZERO}))
        if compare(ONE, d)[0] is None:
            out.append(X(vs[0]))
        elif compare(C(-1), d)[0] is None:
            out.append(-X(vs[0]))
        else:
            return None
    return cpx(*out)


def laws(ctx, names, tx=ZERO, **k):
    E, EL = setup(ctx)
    for n in names:
        def one(n=n):
            o, st, loc = build(EL, n)
            sys_ = EL.system(o, st, tx)
            sp = law(ctx, EL, n, sys_, o, sys_.st, loc, **k)
            check_law(ctx, n, sys_, sp, loc)
        ctx.section(f"{n}: derivation of the contributed equations", n, one)
