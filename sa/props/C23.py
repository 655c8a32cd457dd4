"""Voltage limiting: bounded steps and bounded voltages for bus voltages, nothing else touched, right network version."""
from fractions import Fraction
from ..algebra import *
from ..interp import AnalysisError
from ._cl import *

W = "src/logic/v_limiting.py:PositiveSeqVoltageLimiting"
WP = "src/logic/powerflow.py:PowerFlow.execute"
TXT = '''
from logic.v_limiting import PositiveSeqVoltageLimiting
class B:
    def __init__(self, i, j):
        self.node_Vr = i
        self.node_Vi = j
class Net:
    pass
def client(v, w, x, y):
    n = Net()
    n.size_Y = 6
    n.buses = [B(0, 1), B(4, 3)]
    n.matrix_version = 0
    l = PositiveSeqVoltageLimiting(n)
    RUN
'''
FIRST = "return l.apply_limiting(v, w)"
LATER = '''l.apply_limiting(x, y)
    l.apply_limiting(x, y)
    n.size_Y = 8
    n.buses = [B(2, 5), B(6, 0), B(7, 1)]
    n.matrix_version = 1
    return l.apply_limiting(v, w)'''
SAME = '''l.apply_limiting(x, y)
    l.apply_limiting(x, y)
    n.buses = [B(2, 5), B(0, 4)]
    n.matrix_version = 1
    return l.apply_limiting(v, w)'''
AGAIN = '''l.apply_limiting(x, y)
    return l.apply_limiting(v, w)'''
RUNPF = '''
from logic.powerflow import PowerFlow
from logic.powerflowsettings import PowerFlowSettings
from logic.v_limiting import PositiveSeqVoltageLimiting
class Net:
    pass
def client():
    n = Net()
    n.is_three_phase = PHASES
    n.buses = []
    n.matrix_version = 0
    return PowerFlow(n, PowerFlowSettings(voltage_limiting=LIMIT)).execute()
'''
VMAX, STEP = 2, 1


class Elem:
    """value of one component of an array expression"""
    def __init__(self, st, n, E):
        self.st, self.n, self.E = st, n, E

    def mask(self, t):
        """indices an index expression selects, or None"""
        if t.op == "c" and isinstance(t.a[0], int) and not isinstance(t.a[0], bool):
            return {t.a[0]}
        if t.op in ("nparray",) or t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0].split(".")[-1] in ("array", "asarray", "nonzero", "flatnonzero"):
            return self.mask(t.a[-1])
        if t.op == "loc":
            t = self.E.freeze(t, self.st)
        if t.op == "slice":
            return set(range(self.n)) if all(x is NONE for x in t.a) else None
        try:
            xs = items(t)
        except AnalysisError:
            return None
        vals = [x.a[0] if x.op == "c" else None for x in xs]
        if vals and all(isinstance(v, bool) for v in vals) or vals and len(vals) == self.n and all(v in (0, 1) for v in vals) and t.op != "tuple":
            return {k for k, v in enumerate(vals) if v}
        if all(isinstance(v, int) for v in vals):
            return set(vals)
        return None

    def at(self, t, k):
        if t.op == "c":
            return t
        if t.op == "s":
            return mk("sub_", t, C(k))
        if t.op in ("add", "sub", "mul", "div", "neg"):
            return arith(t.op, *[self.at(x, k) for x in t.a])
        if t.op == "sub_":
            m = self.mask(t.a[1])
            if m is None:
                raise AnalysisError(f"index {show(t.a[1], 3)} is not a known selection")
            if k not in m and len(m) == 1 and t.a[1].op == "c":
                return self.at(t.a[0], next(iter(m)))
            if len(m) == 1 and t.a[1].op == "c":
                return self.at(t.a[0], t.a[1].a[0])
            if k not in m:
                raise AnalysisError("a component is read outside the selection")
            return self.at(t.a[0], k)
        if t.op == "ite":
            return ITE(self.cond(t.a[0], k), self.at(t.a[1], k), self.at(t.a[2], k))
        if t.op in ("max", "min"):
            return self.ext(t.op, [self.at(x, k) for x in t.a])
        if t.op in ("abs", "npcopy", "nparray"):
            x = self.at(t.a[0], k)
            return mk("abs", x) if t.op == "abs" else x
        if t.op == "call" and t.a[0].op == "ext":
            f = t.a[0].a[0].split(".")[-1]
            if f == "where":
                m = self.mask(t.a[1])
                if m is not None:
                    return self.at(t.a[2] if k in m else t.a[3], k)
                return ITE(self.cond(t.a[1], k), self.at(t.a[2], k), self.at(t.a[3], k))
            if f in ("copy", "array", "asarray"):
                return self.at(t.a[1], k)
            args = [x for x in t.a[1:] if isinstance(x, T)]
            return self.ext(f, [self.at(x, k) for x in args])
        if t.op == "mcall" and t.a[1] is C("copy"):
            return self.at(t.a[0], k)
        if t.op == "mcall" and t.a[1].op == "c":
            return self.ext(t.a[1].a[0], [self.at(x, k) for x in (t.a[0],) + t.a[2:]])
        if t.op == "store":
            return self.at(t.a[2], k) if k in self.sel(t.a[1]) else self.at(t.a[0], k)
        if t.op == "loc" or t.op == "box":
            return items(self.E.freeze(t, self.st) if t.op == "loc" else t)[k]
        raise AnalysisError(f"no component view of {t.op}: {show(t, 3)}")

    def sel(self, i):
        m = self.mask(i)
        if m is None:
            raise AnalysisError(f"assignment to an unknown selection {show(i, 3)}")
        return m

    def cond(self, c, k):
        if c.op in ("lt", "eq"):
            return rebuild(c.op, tuple(self.at(x, k) for x in c.a))
        if c.op in ("and", "or", "not"):
            return rebuild(c.op, tuple(self.cond(x, k) for x in c.a))
        return c

    def ext(self, f, a):
        if f in ("minimum", "min", "fmin"):
            return ITE(LT(a[1], a[0]), a[1], a[0])
        if f in ("maximum", "max", "fmax"):
            return ITE(LT(a[0], a[1]), a[1], a[0])
        if f == "clip":
            x = a[0] if a[1] is NONE else self.ext("maximum", [a[0], a[1]])
            return x if a[2] is NONE else self.ext("minimum", [x, a[2]])
        if f in ("subtract", "add", "multiply"):
            return arith({"subtract": "sub", "add": "add", "multiply": "mul"}[f], *a)
        if f in ("abs", "absolute"):
            return mk("abs", a[0])
        if f == "sign":
            return ITE(LT(a[0], ZERO), C(-1), ITE(LT(ZERO, a[0]), ONE, ZERO))
        raise AnalysisError(f"no component view of {f}")

    def result(self, r, k):
        es = self.E.hget(self.st, ("items", r)) or ()
        for e in reversed(es):
            if e[0] != "kv":
                raise AnalysisError("result is changed in an unknown way")
            if k in self.sel(e[1]):
                return self.at(e[2], k)
        return self.at(r, k)


def linear(t, x, y):
    """coefficients (x, y, 1) of a linear form"""
    if t is x: return (Fraction(1), Fraction(0), Fraction(0))
    if t is y: return (Fraction(0), Fraction(1), Fraction(0))
    if t.op == "c" and isinstance(t.a[0], (int, float)):
        return (Fraction(0), Fraction(0), Fraction(t.a[0]))
    if t.op in ("add", "sub", "neg"):
        ls = [linear(z, x, y) for z in t.a]
        if t.op == "neg": return tuple(-c for c in ls[0])
        out = ls[0]
        for l in ls[1:]:
            out = tuple(p + (q if t.op == "add" else -q) for p, q in zip(out, l))
        return out
    if t.op in ("mul", "div"):
        p, q = (linear(z, x, y) for z in t.a)
        if q[0] == q[1] == 0 and (t.op == "mul" or q[2]):
            return tuple(c * q[2] if t.op == "mul" else c / q[2] for c in p)
        if t.op == "mul" and p[0] == p[1] == 0:
            return tuple(c * p[2] for c in q)
    raise AnalysisError(f"{show(t, 4)} is not linear")


def feasible(cons):
    """strict linear inequalities p*x + q*y + r > 0 have a common solution"""
    for i in (0, 1):
        pos = [c for c in cons if c[i] > 0]
        neg = [c for c in cons if c[i] < 0]
        rest = [c for c in cons if c[i] == 0]
        cons = rest + [tuple(a * -n[i] + b * p[i] for a, b in zip(p, n)) for p in pos for n in neg]
        cons = list(set(cons))
    return all(c[2] > 0 for c in cons)


def piecewise_equal(s, t, x, y):
    """two continuous piecewise linear expressions of x and y agree everywhere: cell by cell"""
    n = [0]

    def atom(t):
        """a condition all of whose operands are free of further conditions"""
        for z in walk(t):
            if z.op in ("lt", "eq") and not any(w.op in ("ite", "abs") for w in walk(z)):
                return z
            if z.op == "abs" and not any(w.op in ("ite", "abs") for u in z.a for w in walk(u)):
                return LT(z.a[0], ZERO)
        return None

    def go(t, cons):
        n[0] += 1
        if n[0] > 3000:
            raise AnalysisError("too many cells")
        m = {z: ITE(LT(z.a[0], ZERO), arith("neg", z.a[0]), z.a[0]) for z in walk(t) if z.op == "abs" and not any(w.op == "abs" for u in z.a for w in walk(u))}
        if m:
            return go(subst(t, m), cons)
        a = atom(t)
        if a is None:
            d = linear(t, x, y)
            return None if not any(d) else "in the region " + ", ".join(f"{float(p):g}*new {float(q):+g}*old {float(r):+g} > 0" for p, q, r in cons) + f" they differ by {show(t, 5)}"
        if a.op == "eq":                    # a boundary: both sides are continuous
            return go(subst(t, {a: FALSE}), cons)
        if a.op != "lt":
            return go(subst(t, {a: TRUE}), cons) or go(subst(t, {a: FALSE}), cons)
        l, r = (linear(z, x, y) for z in a.a)
        d = tuple(q - p for p, q in zip(l, r))
        for val, c in ((TRUE, d), (FALSE, tuple(-z for z in d))):
            cs = cons + [c]
            if feasible(cs):
                bad = go(subst(t, {a: val}), cs)
                if bad:
                    return bad
        return None
    return go(arith("sub", s, t), []), n[0]


def limiting(ctx, label, body, n, buses):
    E = ctx.engine()
    E.while_unroll = E.unroll = 40
    o = client(ctx, TXT.replace("RUN", body), E=E)
    ctx.must(f"{label}: never fails", o.raise_cond() is FALSE, W, "raises when " + show(o.raise_cond(), 5)[:200])
    c, v, s = o.returns[-1]
    if len(o.returns) != 1:
        raise AnalysisError("several result forms")
    el = Elem(s, n, E)
    for k in range(n):
        got = el.result(v, k)
        new, old = mk("sub_", S("v"), C(k)), mk("sub_", S("w"), C(k))
        if k in buses:
            step = el.ext("clip", [arith("sub", new, old), C(-STEP), C(STEP)])
            want = el.ext("clip", [arith("add", old, step), C(-VMAX), C(VMAX)])
            bad, cases = piecewise_equal(want, got, new, old)
            ctx.ob(f"{label}: bus voltage component {k} moves at most {STEP} and stays within {VMAX}", bad, W, cases)
        else:
            ctx.must(f"{label}: unknown {k}, not a bus voltage, is left alone", got is new, W, f"becomes {show(got, 5)}")


def wiring(ctx, phases, limit):
    E = ctx.engine()
    E.load("logic.powerflow")
    got = []
    for q in ("logic.graphanalyzer.GraphAnalyzer.__init__", "logic.graphanalyzer.GraphAnalyzer.validate_voltage_islands"):
        E.fn(q)
        E.models[q] = lambda a, kw, st, fr: NONE
    E.models["logic.graphanalyzer.GraphAnalyzer.get_island_count"] = lambda a, kw, st, fr: ONE
    E.fn("logic.graphanalyzer.GraphAnalyzer.get_island_count")

    def solve(a, kw, st, fr):
        x = a[0]
        h = E.getattr(x, "homotopy", st, fr)
        nr = E.getattr(h, "nrsolver", st, fr)
        lim = E.getattr(nr, "v_limiting", st, fr)
        nets = [E.getattr(y, "network", st, fr) for y in (x, h, nr)] + ([E.getattr(lim, "network", st, fr)] if lim.op == "new" else [])
        got.append((lim, nets, [E.getattr(y, "settings", st, fr) for y in (x, h, nr)]))
        return mk("tuple", *[S(z) for z in ("ok", "v", "n", "tx", "res")])
    E.models["logic.devicecontroller.DeviceController.run_powerflow"] = solve
    E.fn("logic.devicecontroller.DeviceController.run_powerflow")
    E.models["logic.powerflowresults.PowerFlowResults.__init__"] = lambda a, kw, st, fr: NONE
    E.fn("logic.powerflowresults.PowerFlowResults.__init__")
    o = client(ctx, RUNPF.replace("PHASES", phases).replace("LIMIT", limit), E=E)
    name = f"{'three-phase' if phases == 'True' else 'positive sequence'}, limiting {'on' if limit == 'True' else 'off'}"
    if len(got) != 1:
        raise AnalysisError(f"{len(got)} solves")
    lim, nets, sets = got[0]
    if phases == "False" and limit == "True":
        ctx.must(f"{name}: the limiter is in force", lim.op == "new" and "PositiveSeqVoltageLimiting" in repr(lim), WP, show(lim))
    else:
        ctx.must(f"{name}: no limiting", lim is NONE, WP, show(lim))
    ctx.must(f"{name}: every part works on the same network", len({x.id for x in nets}) == 1, WP, show(nets[0]))
    ctx.must(f"{name}: every part works with the same settings", len({x.id for x in sets}) == 1, WP, show(sets[0]))


def run(ctx):
    ctx.section("first use", W, limiting, ctx, "first use", FIRST, 6, {0, 1, 3, 4})
    ctx.section("repeated use", W, limiting, ctx, "repeated use", AGAIN, 6, {0, 1, 3, 4})
    ctx.section("after renumbering", W, limiting, ctx, "after renumbering", LATER, 8, {2, 5, 6, 0, 7, 1})
    ctx.section("after renumbering to the same size", W, limiting, ctx, "after renumbering to the same size", SAME, 6, {0, 2, 4, 5})
    for phases in ("True", "False"):
        for limit in ("True", "False"):
            ctx.section(f"wiring {phases} {limit}", WP, wiring, ctx, phases, limit)
