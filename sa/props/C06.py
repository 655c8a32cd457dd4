"""Assembly of the linear system and of the residual from element contributions."""
from collections import Counter
from ._cl import *

Q = "logic.stamping."
SRC_TXT = '''
from sympy import symbols
from logic.stamping.matrixstamper import build_stamps_from_stamper, build_stamps_from_stampers, MatrixStamper
from logic.stamping.lagrangestampdetails import LagrangeStampDetails
from logic.stamping.lagrangesegment import LagrangeSegment
from models.wellknownvariables import tx_factor
k, x, y, dx, dy, h = symbols("k x y dx dy h")
class Rec:
    def __init__(self):
        self.log = []
    def stamp(self, r, c, v):
        self.log.append((r, c, v))
def vec():
    return {a1: 0, b1: 0, a2: 0, b2: 0, a3: 0, b3: 0, a4: 0, b4: 0, p1: 0, q1: 0, p2: 0, q2: 0, p3: 0, q3: 0, p4: 0, q4: 0}
def flatten(J):
    return [J[a1], J[b1], J[a2], J[b2], J[a3], J[b3], J[a4], J[b4], J[p1], J[q1], J[p2], J[q2], J[p3], J[q3], J[p4], J[q4]]
def both(a1, b1, a2, b2, a3, b3, a4, b4, p1, q1, p2, q2, p3, q3, p4, q4, L, L2, L3, k1, k2, k3, k4, m1, m2, m3, m4, m5, m6, m7, tx, tx2, va, vb, vc, opt):
    seg = LagrangeSegment(L, (k, tx_factor), (x, y), (dx, dy))
    seg2 = LagrangeSegment(L2, (k, tx_factor), (x, y), (dx, dy))
    seg3 = LagrangeSegment(L3, (h,), (x, y), (dx, dy))
    if opt:
        d1 = LagrangeStampDetails(seg, {x: a1, y: b1, dx: p1, dy: q1}, opt)
        d2 = LagrangeStampDetails(seg, {x: a2, y: None, dx: p2, dy: None}, opt)
        d3 = LagrangeStampDetails(seg, {x: a1, y: b1, dx: p1, dy: q1}, opt, {x: a3, y: b3, dx: p3, dy: q3})
        d4 = LagrangeStampDetails(seg2, {x: a1, y: b1, dx: p1, dy: q1}, opt)
        d5 = LagrangeStampDetails(seg3, {x: a4, y: b4, dx: p4, dy: q4}, opt)
        d6 = LagrangeStampDetails(seg, {x: a4, y: b4, dx: p1, dy: q1}, opt)
        d7 = LagrangeStampDetails(seg, {x: a1, y: b1, dx: p4, dy: q4}, opt)
    else:
        d1 = LagrangeStampDetails(seg, {x: a1, y: b1, dx: None, dy: None}, opt)
        d2 = LagrangeStampDetails(seg, {x: a2, y: None, dx: None, dy: None}, opt)
        d3 = LagrangeStampDetails(seg, {x: a1, y: b1, dx: None, dy: None}, opt, {x: a3, y: b3, dx: None, dy: None})
        d4 = LagrangeStampDetails(seg2, {x: a1, y: b1, dx: None, dy: None}, opt)
        d5 = LagrangeStampDetails(seg3, {x: a4, y: b4, dx: None, dy: None}, opt)
        d6 = LagrangeStampDetails(seg, {x: a4, y: b4, dx: None, dy: None}, opt)
        d7 = LagrangeStampDetails(seg, {x: a1, y: b1, dx: None, dy: None}, opt)
    stamps = build_stamps_from_stamper(m1, d1, [k1, 0])
    stamps = stamps + build_stamps_from_stampers(m2, (d2, [k2, 0]), (None, [k1, 0]))
    stamps = stamps + build_stamps_from_stampers(m3, (d3, [k1, 0]), (d4, [k4, 0]))
    stamps = stamps + build_stamps_from_stamper(m5, d5, [k3])
    stamps = stamps + build_stamps_from_stamper(m6, d6, [k1, 0]) + build_stamps_from_stamper(m7, d7, [k1, 0])
    ms = MatrixStamper(stamps, opt)
    Y = Rec()
    J = vec()
    ms.stamp_linear(Y, J, tx)
    Y2 = Rec()
    J2 = vec()
    ms.stamp_nonlinear(Y2, J2, va, 0)
    R1 = ms.calc_residuals(tx, vb, 0)
    Y3 = Rec()
    J3 = vec()
    ms.stamp_nonlinear(Y3, J3, vc, 1)
    R2 = ms.calc_residuals(tx, vc, 1)
    Y4 = Rec()
    J4 = vec()
    ms.stamp_linear(Y4, J4, tx2)
    Y5 = Rec()
    J5 = vec()
    ms.stamp_nonlinear(Y5, J5, va, 0)
    R3 = ms.calc_residuals(tx2, vc, 0)
    return (Y.log, flatten(J), Y2.log, flatten(J2), R1.residual_contributions, Y3.log, flatten(J3), R2.residual_contributions,
            Y4.log, flatten(J4), Y5.log, flatten(J5), R3.residual_contributions)
def client(a1, b1, a2, b2, a3, b3, b4, p1, q1, p2, q2, p3, q3, p4, q4, L, L2, L3, k1, k2, k3, k4, m1, m2, m3, m4, m5, m6, m7, tx, tx2, va, vb, vc):
    first = both(a1, b1, a2, b2, a3, b3, 0, b4, p1, q1, p2, q2, p3, q3, p4, q4, L, L2, L3, k1, k2, k3, k4, m1, m2, m3, m4, m5, m6, m7, tx, tx2, va, vb, vc, ORDER1)
    second = both(a1, b1, a2, b2, a3, b3, 0, b4, p1, q1, p2, q2, p3, q3, p4, q4, L, L2, L3, k1, k2, k3, k4, m1, m2, m3, m4, m5, m6, m7, tx, tx2, va, vb, vc, ORDER2)
    return (first, second)
'''.replace("vec()", "vec(a1, b1, a2, b2, a3, b3, a4, b4, p1, q1, p2, q2, p3, q3, p4, q4)").replace("flatten(J", "flatten(a1, b1, a2, b2, a3, b3, a4, b4, p1, q1, p2, q2, p3, q3, p4, q4, J").replace("q4, J):", "q4, J):")

def SL(n):
    return ZERO if n == "a4" else S(n)


SLOTS = [SL(n) for n in "a1 b1 a2 b2 a3 b3 a4 b4 p1 q1 p2 q2 p3 q3 p4 q4".split()]
sym = lambda n: mk("symb", n)
x, y, k, dx, dy, h = (sym(n) for n in ("x", "y", "k", "dx", "dy", "h"))

# free symbols of the pieces of each derivative: constant part and coefficient per unknown
# (first_order) -> (constant, {unknown: coefficient})
SHAPE = {
    "dx": ((x, k), {x: (k,), y: (y, "tx")}),
    "dy": ((), {x: (), y: (k, "tx")}),
    "x": (None, {dx: (k,), dy: (y,)}),
    "y": ((y, dx), {dx: (y, "tx"), y: (dx,)}),
}


class Pieces:
    """stand-in for the splitting of a derivative: its pieces are free, their symbols declared"""

    def __init__(self, E, txsym):
        self.E, self.tx = E, txsym
        self.info = {}

    def free(self, ds):
        return tuple(self.tx if d == "tx" else d for d in ds)

    def __call__(self, args, kw, st, fr):
        e = args[0]
        L, v = e.a[1], e.a[2]
        kc, co = SHAPE[v.a[0]]
        if L is S("L3"):
            fix = lambda ds: tuple(d for d in (h if d is k else d for d in ds) if d != "tx")
            kc, co = (None if kc is None else fix(kc)), {a: fix(b) for a, b in co.items()}
        d = self.E.alloc(st, "dict")
        ents = []
        if kc is None:
            K = ZERO
        else:
            K = self.piece(("K", L, v), kc, st)
        for u, fs in co.items():
            ents.append(("kv", u, self.piece(("A", L, v, u), fs, st)))
        st.heap[d] = tuple(ents)
        return mk("tuple", K, d)

    def piece(self, key, fs, st):
        t = S("piece(" + ",".join(x if isinstance(x, str) else str(x.a[0]) for x in key) + ")")
        self.E.distinct_syms.add(t)
        self.info[t] = self.free(fs)
        st.heap[("f", t, "free_symbols")] = mk("tuple", *self.info[t])
        return t


def norm(t, P):
    """code value -> ev(expr, params restricted to its symbols)"""
    if t.op == "ite":
        a, b = norm(t.a[1], P), norm(t.a[2], P)
        return a if a is b else mk("ite", t.a[0], a, b)
    if t.op in ("add", "sub", "mul", "neg"):
        return arith_or(t.op, [norm(q, P) for q in t.a])
    if t.op == "sub_" and t.a[0].op == "call" and t.a[1].op == "c":
        return ev(t.a[0], t.a[1].a[0], P)
    if t.op == "call":
        return ev(t, None, P)
    return t


def arith_or(op, a):
    return mk(op, *a)


def ev(call, i, P):
    lam = call.a[0]
    if not (lam.op == "call" and lam.a[0].op == "ext" and "lambdify" in str(lam.a[0].a[0])):
        return call
    params, expr = lam.a[1], lam.a[2]
    if expr in P.info:
        fs = P.info[expr]
    else:
        fs = None
    out = []
    for p, arg in zip(params.a, call.a[1:]):
        if fs is not None and p not in fs:
            continue
        vals = py(arg)
        if not isinstance(vals, list):
            return call
        if i is None:
            if len(set(vals)) == 1:
                out.append(mk("at", p, vals[0]))
            else:
                # a scalar result does not depend on the instance
                out.append(mk("at", p, S("*")))
        else:
            out.append(mk("at", p, vals[i]))
    return mk("ev", expr, *out)


def norm_result(t, P):
    if t.op == "ite" and t.a[0].op in ("eq", "isinstance", "not") and any(q.op == "ext" and "ndarray" in str(q.a[0]) for q in walk(t.a[0])):
        if t.a[1].op != "sub_" or t.a[2].op != "call":
            return t
        a, b = norm(t.a[1], P), norm(t.a[2], P)
        arr = a if any(q is S("*") for q in walk(b)) else b if any(q is S("*") for q in walk(a)) else None
        if arr is None:
            arr = a
        sc = b if arr is a else a
        if a.op == b.op == "ev" and a.a[0] is b.a[0] and all(u.a[1] is S("*") or w.a[1] is S("*") or u is w for u, w in zip(a.a[1:], b.a[1:])):
            return arr
        return mk("ite", t.a[0], a, b)
    if t.op in ("add", "sub", "mul", "neg"):
        return mk(t.op, *[norm_result(q, P) for q in t.a])
    return norm(t, P)


ELS = {  # name: (lagrange, constants, column map, row map, model)
    "e1": ("L", {k: "k1"}, dict(x="a1", y="b1", dx="p1", dy="q1"), None, "m1"),
    "e2": ("L", {k: "k2"}, dict(x="a2", y=None, dx="p2", dy=None), None, "m2"),
    "e3": ("L", {k: "k1"}, dict(x="a1", y="b1", dx="p1", dy="q1"), dict(x="a3", y="b3", dx="p3", dy="q3"), "m3"),
    "e4": ("L2", {k: "k4"}, dict(x="a1", y="b1", dx="p1", dy="q1"), None, "m3"),
    "e6": ("L", {k: "k1"}, dict(x="a4", y="b4", dx="p1", dy="q1"), None, "m6"),
    "e7": ("L", {k: "k1"}, dict(x="a1", y="b1", dx="p4", dy="q4"), None, "m7"),
    "e5": ("L3", {h: "k3"}, dict(x="a4", y="b4", dx="p4", dy="q4"), None, "m5"),
}


def expected(P, opt, what, tx, v, v0=None):
    """multiset of (row, column, piece, values) of the linear / nonlinear / residual part"""
    Y, J, R = Counter(), {}, Counter()
    for n, (L, cs, col, row, model) in ELS.items():
        row = row or col
        ispair = not opt
        consts = {c: S(q) for c, q in cs.items()}

        def value(p):
            if p in consts:
                return consts[p]
            if p is P.tx:
                return tx
            q = col[p.a[0]]
            if q is None or (p in (dx, dy) and not opt):
                return ZERO
            return mk("sub_", v, SL(q))
        params = ([k, P.tx] if L != "L3" else [h]) + [x, y, dx, dy]
        for fo in (("dx", "dy") if ispair else ("x", "y", "dx", "dy")):
            rv = {"dx": "x", "dy": "y"}[fo] if ispair else fo
            r = row[rv]
            if r is None:
                continue
            e = mk("call", mk("ext", "sympy.diff"), S(L), sym(fo))
            R[(S(model), SL(r), mk("ev", e, *[mk("at", p, value(p)) for p in params]))] += 1
            kc, co = SHAPE[fo]
            items = ([(None, ("K", S(L), sym(fo)))] if kc is not None else []) + [(u, ("A", S(L), sym(fo), u)) for u in co]
            for u, key in items:
                t = S("piece(" + ",".join(q if isinstance(q, str) else str(q.a[0]) for q in key) + ")")
                fs = P.info[t]
                lin = not any(q in (x, y, dx, dy) for q in fs)
                if lin != (what == "linear"):
                    continue
                val = mk("ev", t, *[mk("at", p, value(p)) for p in params if p in fs])
                if u is None:
                    J.setdefault(SL(r), Counter())[val] += 1
                else:
                    c = col[u.a[0]]
                    if c is None or (u in (dx, dy) and not opt):
                        continue
                    Y[(SL(r), SL(c), val)] += 1
    return Y, J, R


def addends(t):
    if t.op == "add":
        return addends(t.a[0]) + addends(t.a[1])
    return [] if t is ZERO else [t]


def cmp_counter(exp, got):
    miss, extra = exp - got, got - exp
    if not miss and not extra:
        return None
    f = lambda c: "; ".join("(" + ", ".join(show(q, 6) for q in (kk if isinstance(kk, tuple) else (kk,))) + f") x{n}" for kk, n in list(c.items())[:2])
    return (f"missing contribution {f(miss)}" if miss else "") + (" " if miss and extra else "") + (f"unexpected contribution {f(extra)}" if extra else "")


def scenario(ctx, order):
    E = ctx.engine()
    E.load(Q + "matrixstamper")
    E.load(Q + "lagrangesegment")
    m = E.load("models.wellknownvariables")
    txsym = E.modattr(m, "tx_factor") if hasattr(E, "modattr") else None
    P = Pieces(E, txsym)
    E.fn(Q + "lagrangesegment.split_expr")
    PK = "logic.stamping.lagrangepickler.LagrangePickler."
    E.fn(PK + "has_pickle")
    names = "a1 b1 a2 b2 a3 b3 b4 p1 q1 p2 q2 p3 q3 p4 q4 L L2 L3 k1 k2 k3 k4 m1 m2 m3 m4 m5 m6 m7".split()
    o = client(ctx, SRC_TXT.replace("ORDER1", str(order[0])).replace("ORDER2", str(order[1])), distinct=names, E=E,
               models={Q + "lagrangesegment.split_expr": P, PK + "has_pickle": lambda *a: FALSE, PK + "try_pickle": lambda *a: NONE})
    both = py(o.only())
    for opt, res, nth in zip(order, both, ("first network", "second network")):
        report(ctx, opt, res, P, nth)


def report(ctx, opt, res, P, nth):
    tag = ("with optimisation" if opt else "plain power flow") + ", " + nth
    where = "src/logic/stamping/matrixstamper.py:MatrixStamper"
    tx, tx2, va, vb, vc = (S(n) for n in ("tx", "tx2", "va", "vb", "vc"))
    plan = [("first linear assembly", 0, "linear", tx, va), ("first nonlinear assembly", 2, "nonlinear", tx, va), ("residual at another vector", 4, "res", tx, vb),
            ("second nonlinear assembly", 5, "nonlinear", tx, vc), ("residual at the new vector", 7, "res", tx, vc),
            ("linear assembly at a new factor", 8, "linear", tx2, va), ("nonlinear assembly of a new solve", 10, "nonlinear", tx2, va),
            ("residual at the new factor", 12, "res", tx2, vc)]
    for name, i, what, t, v in plan:
        Y, J, R = expected(P, opt, "linear" if what == "linear" else "nonlinear", t, v)
        if what == "res":
            got = Counter()
            for e in res[i]:
                got[(e[0], e[1], norm_result(e[2], P))] += 1
            ctx.ob(f"{tag}: {name}: one residual per equation row, model and instance", cmp_counter(R, got), where, len(R))
            continue
        got = Counter()
        for e in res[i]:
            got[(e[0], e[1], norm_result(e[2], P))] += 1
        ctx.ob(f"{tag}: {name}: matrix contributions", cmp_counter(Y, got), where, len(Y))
        ctx.ob(f"{tag}: {name}: all entries distinguishable", None if len(Y) > 3 else "too few", where)
        for s, t_ in zip(SLOTS, res[i + 1]):
            g = Counter(norm_result(q, P) for q in addends(t_))
            ctx.ob(f"{tag}: {name}: right-hand side row {s.a[0]}", cmp_counter(J.get(s, Counter()), g), where)


BUILDER = '''
from logic.stamping.matrixbuilder import MatrixBuilder
from logic.powerflowsettings import PowerFlowSettings
def client(r1, c1, r2, c2, r3, c3, v1, v2, v3, v4, v5, v6, v7):
    Y = MatrixBuilder(PowerFlowSettings())
    Y.stamp(r1, c1, v1)
    Y.stamp(r1, c2, 0)
    Y.stamp(r2, c2, v2)
    keep = Y.get_usage()
    Y.stamp(r1, c1, v3)
    Y.stamp(r2, c1, v4)
    Y.stamp(r3, c3, v5)
    first = Y.to_matrix()
    Y.clear(retain_idx=keep)
    Y.stamp(r1, c1, v6)
    Y.stamp(r2, c1, 0)
    second = Y.to_matrix()
    Y.clear(retain_idx=keep)
    Y.stamp(r3, c3, v7)
    Y.stamp(r3, c3, v7)
    Y.stamp(r2, c1, v5)
    Y.stamp(r3, r3, v1)
    third = Y.to_matrix()
    Y.clear()
    Y.stamp(r3, c1, v2)
    fourth = Y.to_matrix()
    return (first, second, third, fourth)
'''


def builder(ctx):
    where = "src/logic/stamping/matrixbuilder.py:MatrixBuilder"
    names = "r1 c1 r2 c2 r3 c3 v1 v2 v3 v4 v5 v6 v7".split()
    ctx_E = ctx.engine()
    ctx_E.fn(Q + "matrixbuilder.MatrixBuilder.to_matrix")

    def csc(args, kw, st, fr):
        return mk("matrix", ctx_E.freeze(args[0], st, 9))
    o = client(ctx, BUILDER, distinct=names, E=ctx_E, models={"scipy.sparse.csc_matrix": csc, "scipy.sparse.coo_matrix": csc, "scipy.sparse.csr_matrix": csc})
    res = py(o.only())
    base = [("r1", "c1", "v1"), ("r2", "c2", "v2")]
    exp = [base + [("r1", "c1", "v3"), ("r2", "c1", "v4"), ("r3", "c3", "v5")], base + [("r1", "c1", "v6")],
           base + [("r3", "c3", "v7"), ("r3", "c3", "v7"), ("r2", "c1", "v5"), ("r3", "r3", "v1")], [("r3", "c1", "v2")]]
    for nm, t, e in zip(("first iteration", "iteration with fewer entries", "iteration with more entries", "after a full clear"), res, exp):
        while t.op in ("call", "attr", "bm") and t.op != "matrix" and any(isinstance(q, T) and q.op == "matrix" for q in walk(t)):
            t = [q for q in walk(t) if q.op == "matrix"][0]
        if t.op != "matrix":
            ctx.ob(f"matrix of the {nm}", f"not built from triplets: {show(t, 4)}", where)
            continue
        v, rc = py(t.a[0])
        got = Counter((r, c, x) for r, c, x in zip(rc[0], rc[1], v) if x is not ZERO)
        ok = len(v) == len(rc[0]) == len(rc[1])
        ctx.ob(f"matrix of the {nm} holds exactly the retained and the newly stamped entries", cmp_counter(Counter(tuple(S(q) for q in x) for x in e), got) if ok else "triplet lengths differ", where, len(e))


def run(ctx):
    ctx.section("matrix entries across iterations", "src/logic/stamping/matrixbuilder.py", builder, ctx)
    for order in ((False, True), (True, False)):
        ctx.section("assembly of " + ("an ordinary and then an optimised network" if order[1] else "an optimised and then an ordinary network"), "src/logic/stamping/matrixstamper.py", scenario, ctx, order)
