"""Homotopy: factor schedule, warm start, and what a success means."""
from ..algebra import *
from ._cl import *

TXT = '''
from logic.homotopycontroller import HomotopyController
from logic.powerflowsettings import PowerFlowSettings
from oracle import good, solution, count, residual
class Solver:
    def run_powerflow(self, matrix_stamper, v_init, tx_factor):
        return (good(v_init, tx_factor), solution(v_init, tx_factor), count(v_init, tx_factor))
class Stamper:
    def calc_residuals(self, tx_factor, v_result, iteration_num):
        return residual(tx_factor, v_result)
def client(v_init, network):
    h = HomotopyController(PowerFlowSettings(tx_stepping=STEP), network, Solver())
    return h.run_powerflow(v_init)
def stamper(network):
    return Stamper()
'''
W = "src/logic/homotopycontroller.py:HomotopyController.run_powerflow"


def orc(name, *a):
    return mk("call", mk("ext", "oracle." + name), *a)


def is_orc(t, name):
    return t.op == "call" and t.a[0] is mk("ext", "oracle." + name)


def chain(v):
    """[(previous vector, factor)] of nested solves, last solve first"""
    out = []
    while is_orc(v, "solution"):
        f = v.a[2]
        c = Alg()
        c.prep(f)
        n = c.num(f)
        k = None if n[1][0] else c.rconstval(n[0])
        out.append((v.a[1], k))
        v = v.a[1]
    return out, v


def outcome(ctx, step):
    E = ctx.engine()
    E.unroll = 300
    E.while_unroll = 300
    E.load("logic.stamping.matrixstamper")
    E.fn("logic.stamping.matrixstamper.build_matrix_stamper")
    E.fn("logic.homotopycontroller.HomotopyController.run_powerflow")
    built = []

    def stamper(args, kw, st, fr):
        built.append(args)
        m = [x for x in E.mods.values() if x.name.startswith("client")][-1]
        f = E.modattr(m, "stamper")
        return E.call(f, args, {}, st, fr, None)
    o = client(ctx, TXT.replace("STEP", step), E=E, models={"logic.stamping.matrixstamper.build_matrix_stamper": stamper})
    return o, built


def results(o):
    """(known literals, success, vector, iterations, factor, residual) for every distinguishable outcome"""
    for c, v, s in o.returns:
        for known, x in outcomes(v, c):
            if x.op != "tuple" or len(x.a) != 5:
                raise AnalysisError("result is not a five part report")
            yield (known,) + x.a


def truthof(t, known):
    t = subst(mk("truthy", t), known) if t.op != "c" else t
    t = subst(t, known)
    if t.op == "truthy": t = t.a[0]
    return bool(t.a[0]) if t.op == "c" else None


def zero(t):
    A = Alg()
    A.prep(t)
    n = A.num(t)
    return not n[1][0] and A.rconstval(n[0]) == 0


def run(ctx):
    v0 = S("v_init")
    ctx.section("plain solve", W, plain, ctx, v0)
    ctx.section("homotopy", W, stepping, ctx, v0)


def plain(ctx, v0):
    o, built = outcome(ctx, "False")
    ctx.ob("without stepping: no failure outside the solver", None if not o.raises else f"raises when {show(o.raise_cond(), 5)}", W)
    rs = list(results(o))
    bad = None
    for known, ok, v, it, f, r in rs:
        if v is not orc("solution", v0, ZERO) and not (is_orc(v, "solution") and v.a[1] is v0 and zero(v.a[2])):
            bad = f"returned vector is {show(v, 4)}"
        g = orc("good", v0, v.a[2]) if is_orc(v, "solution") else None
        t = truthof(ok, known)
        if ok is not g and (t is None or t != truthof(g, known)):
            bad = f"success flag is {show(ok, 4)}"
        if not zero(f):
            bad = f"reported factor is {show(f)}"
        if not (is_orc(r, "residual") and zero(r.a[1]) and r.a[2] is v):
            bad = f"residuals are {show(r, 4)}"
    ctx.ob("without stepping: one solve of the original problem from the initial vector, reported as is", bad, W, len(rs))


def stepping(ctx, v0):
    o, built = outcome(ctx, "True")
    ctx.ob("with stepping: no failure outside the solver", None if not o.raises else f"raises when {show(o.raise_cond(), 5)[:200]}", W)
    direct = full = fails = 0
    bad = dict(first=None, sched=None, warm=None, succ=None, vec=None, fac=None, res=None, stop=None, iters=None)
    for known, ok, v, it, f, r in results(o):
        ch, root = chain(v)
        if not ch:
            if truthof(ok, known) is False:
                fails += 1
                continue
            bad["vec"] = f"returned vector is {show(v, 4)}"
            continue
        if root is not v0:
            bad["warm"] = f"solves start at {show(root, 4)} instead of the initial vector"
        okt = truthof(ok, known)
        if okt is None:
            g = orc("good", v.a[1], v.a[2])
            okt = "flag" if ok is g or ok is mk("truthy", g) else None
        if not (is_orc(r, "residual") and zero(r.a[1]) and r.a[2] is v):
            bad["res"] = f"reported residuals are {show(r, 4)[:200]}, not those of the returned vector in the original problem"
        if okt is None:
            bad["succ"] = f"success flag is {show(ok, 4)[:200]}"
            continue
        facs = [k for _, k in reversed(ch)]
        if any(k is None for k in facs):
            bad["sched"] = "a factor is not a known number"
            continue
        single0 = len(facs) == 1 and facs[0] == 0
        if okt is True or okt == "flag":
            g = [orc("good", p, v2.a[2]) for p, v2 in solves(v)]
            if not zero(f):
                bad["fac"] = f"a success reports factor {show(f)}"
            if okt is True and truthof(g[0], known) is not True:
                bad["succ"] = f"success is reported although the solve of the original problem (factor {float(facs[-1])}) is not known to have succeeded"
            if facs[-1] != 0:
                bad["succ"] = f"success is reported for a vector that solves the problem at factor {float(facs[-1])}"
            if single0:
                direct += 1
            else:
                full += 1
                if facs[0] != 1:
                    bad["sched"] = f"stepping starts at factor {float(facs[0])}"
                if any(b >= a for a, b in zip(facs, facs[1:])):
                    bad["sched"] = "factor does not decrease strictly"
                if abs(facs[-1]) != 0:
                    bad["sched"] = f"stepping ends at factor {float(facs[-1])}"
                for x in g[1:]:
                    if truthof(x, known) is not True:
                        bad["stop"] = f"stepping continues after a failed step ({show(x, 3)[:160]})"
        if okt is False:
            fails += 1
            if single0 and truthof(orc("good", v0, v.a[2]), known) is not True and not any(is_orc(q.a[0], "good") and q.a[0].a[2] is not ZERO for q in known if q.op == "truthy"):
                # gave up after the direct attempt
                bad["first"] = "stepping is not attempted after the direct solve fails"
    ctx.ob("direct solve of the original problem is accepted when it succeeds", bad["first"] or (None if direct else "no outcome accepts the direct solve"), W)
    ctx.ob("a completed stepping is accepted", None if full else "no outcome completes the stepping", W)
    ctx.ob("a failed step is reported as failure", None if fails or full else "no failing outcome", W)
    ctx.ob("factor goes strictly from one to zero", bad["sched"], W, max(full, 1))
    ctx.ob("each step starts from the previous step's solution", bad["warm"], W, max(full, 1))
    ctx.ob("stepping stops at the first failed step", bad["stop"], W)
    ctx.ob("success means the original problem was solved by the returned vector", bad["succ"] or bad["vec"], W, direct + full)
    ctx.ob("success reports factor zero", bad["fac"], W)
    ctx.ob("residuals are those of the returned vector in the original problem", bad["res"], W)


def solves(v):
    while is_orc(v, "solution"):
        yield v.a[1], v
        v = v.a[1]
