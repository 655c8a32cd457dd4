"""Newton iteration: what is solved each turn and when success is reported."""
from ..algebra import *
from ._cl import *
from .C04 import truthof

TXT = '''
from logic.nrsolver import NRSolver
from logic.powerflowsettings import PowerFlowSettings
from oracle import jl, yl, jn, yn, peak, place, limited
class Network:
    def __init__(self):
        self.matrix_map = {}
class Details:
    def __init__(self, a, b):
        self.max_residual = a
        self.max_residual_idx = b
class Stamper:
    def stamp_linear(self, Y, J, tx_factor):
        J[0] += jl(tx_factor)
        Y.stamp(0, 0, ("linear", tx_factor))
    def stamp_nonlinear(self, Y, J, v_prev, iteration_num):
        J[1] += jn(v_prev)
        Y.stamp(1, 1, ("nonlinear", v_prev))
    def calc_residuals(self, tx_factor, v_result, iteration_num):
        return Details(peak(tx_factor, v_result), place(tx_factor, v_result))
class Limiter:
    def apply_limiting(self, v_next, v_previous):
        return limited(v_next, v_previous)
def client(v_init, tx, tol):
    s = NRSolver(PowerFlowSettings(max_iters=TURNS, tolerance=tol), Network(), LIMITER)
    return s.run_powerflow(Stamper(), v_init, tx)
'''
W = "src/logic/nrsolver.py:NRSolver.run_powerflow"


def orc(name, *a):
    return mk("call", mk("ext", "oracle." + name), *a)


TURNS = 3


def solver(ctx, lim, turns=TURNS):
    E = ctx.engine()
    E.fn("logic.nrsolver.NRSolver.run_powerflow")
    E.hints[S("v_init")] = None
    E.hints.pop(S("v_init"))

    def csc(args, kw, st, fr):
        return mk("matrix", E.freeze(args[0], st, 9))

    def solve(args, kw, st, fr):
        return mk("solved", E.freeze(args[0], st, 9), E.freeze(args[1], st, 9))

    def zeros(args, kw, st, fr):
        if args and args[0].op == "len":
            return E.alloc(st, "list", [("i", ZERO), ("i", ZERO)])
        return mk("call", mk("ext", "numpy.zeros"), *args)
    models = {"scipy.sparse.csc_matrix": csc, "scipy.sparse.linalg.spsolve": solve, "numpy.zeros": zeros, "numpy.zeros_like": lambda a, k, st, f: E.alloc(st, "list", [("i", ZERO), ("i", ZERO)]),
              "numpy.copy": lambda a, k, st, f: a[0], "numpy.array": lambda a, k, st, f: E.alloc(st, "list", E.entries(st, a[0])) if a[0].op == "loc" else a[0],
              "numpy.asarray": lambda a, k, st, f: a[0]}
    o = client(ctx, TXT.replace("TURNS", str(turns)).replace("LIMITER", lim), E=E, models=models)
    return E, o


def nan_of(v):
    """forms under which the code may ask whether the solution contains a nan"""
    return v


def system(t):
    """(matrix entries, rhs) of a solved(...) term"""
    m = t.a[0]
    while m.op != "matrix":
        m = [q for q in walk(m) if q.op == "matrix"][0]
    v, rc = items(m.a[0])
    rows, cols = map(items, items(rc))
    return sorted(zip(map(show, rows), map(show, cols), items(v)), key=lambda x: x[:2]), items(t.a[1])


def run(ctx):
    for lim in ("None", "Limiter()"):
        ctx.section("Newton iteration" + ("" if lim == "None" else " with voltage limiting"), W, iterate, ctx, lim)
    ctx.section("early termination", W, stall, ctx)
    ctx.section("largest residual", "src/logic/residualdetails.py:ResidualDetails", peaks, ctx)


def iterate(ctx, lim):
    E, o = solver(ctx, lim)
    tag = "" if lim == "None" else " with voltage limiting"
    v0, tx, tol = S("v_init"), S("tx"), S("tol")
    bad = {}
    n = succ = 0
    for c, v, s in o.returns:
        for known, x in outcomes(v, c):
            n += 1
            if x.op != "tuple" or len(x.a) != 3:
                raise AnalysisError("result is not a three part report")
            ok, vec, it = x.a
            t = truthof(ok, known)
            if t is False:
                # every solved vector's residual was not below tolerance on this path
                continue
            succ += 1
            base = vec
            small = known.get(LT(orc("peak", tx, base), tol))
            if t is None and truthof(ok, {}) is None and ok in (LT(orc("peak", tx, base), tol),):
                small = TRUE
            if small is not TRUE:
                bad["crit"] = f"success for {show(vec, 3)[:120]} does not follow from its largest residual being below the tolerance"
            if base.op != "solved":
                bad["vec"] = f"successful vector is {show(vec, 4)[:200]}"
            if not checked_nan(base, known, o):
                bad["nan"] = "a vector that is not a number can be returned as a success"
    # failing outcomes: no tested vector was good
    missed = None
    for c, v, s in o.returns:
        for known, x in outcomes(v, c):
            if truthof(x.a[0], known) is False:
                if any(k.op == "lt" and k.a[1] is tol and val is TRUE and k.a[0].op == "call" and k.a[0].a[0] is mk("ext", "oracle.peak") for k, val in known.items()):
                    missed = "failure is reported although a solved vector's residual is below the tolerance"
    ctx.ob("success" + tag + " implies the residual of the returned vector is below the tolerance", bad.get("crit"), W, n)
    ctx.ob("a successful vector" + tag + " is a solution of the linear system", bad.get("vec"), W, n)
    ctx.ob("a solution that is not a number" + tag + " is never a success", bad.get("nan"), W, n)
    ctx.ob("a small residual" + tag + " is recognised", missed or (None if succ else "no outcome is a success"), W, n)
    # what is solved
    sol = sorted({q for c, v, s in o.returns for _, x in outcomes(v, c) for q in walk(x) if q.op == "solved"}, key=lambda q: q.id)
    chain_bad = None
    prev = v0
    depth = {}
    for q in sol:
        ents, rhs = system(q)
        non = [e for e in ents if e[2].op == "tuple" and e[2].a[0] is C("nonlinear")]
        lin = [e for e in ents if e[2].op == "tuple" and e[2].a[0] is C("linear")]
        if len(ents) != 2 or len(non) != 1 or len(lin) != 1 or lin[0][2].a[1] is not tx:
            chain_bad = f"matrix holds {[(a, b, show(v, 3)[:80]) for a, b, v in ents]} instead of the retained linear part and one nonlinear part"
            continue
        p = non[0][2].a[1]
        if not (len(rhs) == 2 and same(rhs[0], orc("jl", tx)) and same(rhs[1], orc("jn", p))):
            chain_bad = f"right-hand side is {[show(r, 4)[:120] for r in rhs]}"
        depth[q] = p
    ctx.ob("every solved system" + tag + " is the linear part plus the nonlinear part at the iterate", chain_bad, W, len(sol))
    bad = None
    order = []
    for q, p in depth.items():
        ps = [x for _, x in outcomes(p)] if p.op == "ite" else [p]
        for x in ps:
            if x is v0:
                continue
            if lim == "None" and x.op != "solved":
                bad = f"an iteration continues from {show(x, 3)[:160]}"
            if lim != "None" and not (x.op == "call" and x.a[0] is mk("ext", "oracle.limited") and x.a[1].op == "solved" or x.op == "solved"):
                bad = f"an iteration continues from {show(x, 3)[:160]}"
            if x.op == "call" and x.a[0] is mk("ext", "oracle.limited"):
                y = x.a[1]
                want = depth.get(y)
                if want is not x.a[2]:
                    bad = f"limiting is relative to {show(x.a[2], 3)[:120]}, not to the iterate the step was taken from"
    ctx.ob("every iteration" + tag + " continues from the previous solution", bad, W, len(depth))
    def rank(q):
        k = 0
        while q is not None and k < 9:
            k += 1
            p = depth.get(q)
            q = p.a[1] if p is not None and p.op == "call" else p if p is not None and p.op == "solved" else None
        return k
    ctx.ob("every allowed iteration" + tag + " makes one solve", None if {rank(q) for q in sol} == set(range(1, TURNS + 1)) else f"solves of rank {sorted({rank(q) for q in sol})} in {TURNS} iterations", W)
    if lim != "None":
        used = any(x.op == "call" and x.a[0] is mk("ext", "oracle.limited") for q in sol for x in walk(q))
        ctx.ob("limiting acts on unconverged iterates", None if used else "the limiter never acts", W)


def same(a, b):
    bad, n = compare(b, a)
    return bad is None


def checked_nan(vec, known, o):
    """some literal on the path excludes nan in the vector: either an explicit test or a comparison
    of its own residual which is false for nan"""
    for k, val in known.items():
        if any(q is vec for q in walk(k)) and ("isnan" in show(k, 4) or "isfinite" in show(k, 4)):
            return True
    for c, v, s in o.raises:
        if any(q is vec for q in walk(c)) and "isnan" in show(c, 12):
            return True
    return any(k.op == "lt" and val is TRUE and any(q is vec for q in walk(k)) for k, val in known.items())


def stall(ctx):
    """number of turns unbounded: no other exit may claim success"""
    E, o = solver(ctx, "None", "turns")
    tx, tol = S("tx"), S("tol")
    bad = None
    n = 0
    for c, v, s in o.returns:
        n += 1
        for known, x in outcomes(v, c):
            if x.op != "tuple" or len(x.a) != 3:
                bad = f"result is {show(x, 3)[:200]}"
                continue
            if truthof(x.a[0], known) is False:
                continue
            need = LT(orc("peak", tx, x.a[1]), tol)
            if not (known.get(need) is TRUE or x.a[0] is need):
                bad = f"success without a residual test of {show(x.a[1], 3)[:120]}"
    ctx.ob("no exit reports success without testing the returned vector", bad, W, n)
    # the linear part is kept for every iteration: the builder is cut back to the linear entries
    E2 = ctx.engine()


PEAK = '''
from logic.residualdetails import ResidualDetails
def client(m1, m2, m3, r1, r2, r3, r4):
    d = ResidualDetails([(m1, 0, r1), (m2, 2, r2), (m3, 0, r3), (m1, 2, r4)], 4)
    return (d.residuals, d.max_residual, d.max_residual_idx)
'''


def peaks(ctx):
    W2 = "src/logic/residualdetails.py:ResidualDetails"
    E = ctx.engine()
    E.fn("logic.residualdetails.ResidualDetails.__init__")
    mod = lambda t: mk("abs", t)

    def npabs(args, kw, st, fr):
        it = E.seq_items(args[0], st, fr)
        if it is None:
            return mk("abs", args[0])
        return E.alloc(st, "list", [("i", mk("abs", x)) for x in it])
    red = lambda nm: (lambda args, kw, st, fr: mk(nm, E.freeze(args[0], st, 9)))
    models = {"numpy.abs": npabs, "numpy.absolute": npabs, "numpy.amax": red("amax"), "numpy.max": red("amax"), "numpy.argmax": red("argmax")}
    o = client(ctx, PEAK, E=E, models=models)
    v = o.only()
    res, mx, idx = v.a
    r = [S(f"r{i}") for i in range(5)]
    exp = [arith("add", r[1], r[3]), ZERO, arith("add", r[2], r[4]), ZERO]
    got = py(res)
    bad = None
    if not isinstance(got, list) or len(got) != 4:
        bad = f"residual vector is {show(res, 4)}"
    else:
        for i, (e, g) in enumerate(zip(exp, got)):
            if not same(g, e):
                bad = f"row {i} is {show(g, 5)}"
    ctx.ob("residual of a row is the sum of its contributions", bad, W2, 4)

    def isabs(t, op):
        while t.op in ("int", "float", "toint", "conv", "trunc"):
            t = t.a[-1]
        if t.op == "max" and op == "amax":
            xs = [x for x in t.a]
            return all(any(x.op == "abs" and same(x.a[0], e) for x in xs) for e in exp if e is not ZERO)
        if op == "amax":
            own = t.op != "abs"
            z = t if own else t.a[0]
            if z.op == "sub_" and isabs(z.a[1], "argmax"):
                xs = py(z.a[0])
                return isinstance(xs, list) and len(xs) == 4 and all((x.op == "abs" and same(x.a[0], e) if own else same(x, e)) or (e is ZERO and same(x, ZERO) or x is mk("abs", ZERO)) for x, e in zip(xs, exp))
        q = [z for z in walk(t) if z.op == op]
        if len(q) != 1:
            return False
        xs = py(q[0].a[0])
        return isinstance(xs, list) and len(xs) == 4 and all((x.op == "abs" and same(x.a[0], e)) or (e is ZERO and same(x, ZERO)) for x, e in zip(xs, exp))
    ctx.ob("largest residual is over the magnitudes of all rows", None if isabs(mx, "amax") else f"is {show(mx, 6)}", W2)
    ctx.ob("index of the largest residual is over the magnitudes of all rows", None if isabs(idx, "argmax") else f"is {show(idx, 6)}", W2)
