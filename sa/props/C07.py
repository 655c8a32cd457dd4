"""Linearisation: the split of an equation into constant and per-variable parts is its
first-order expansion at the current point, for every sum of terms."""
from itertools import permutations
from ..algebra import *
from ._cl import *

TXT = '''
from sympy import Add
from oracle import symbols_of, powers_of, parts
from logic.stamping.lagrangesegment import split_expr
class Term:
    @property
    def free_symbols(self):
        return symbols_of(self)
    def atoms(self, *kind):
        return powers_of(self, kind)
    def has(self, *s):
        return any([x in symbols_of(self) for x in s])
    @property
    def args(self):
        return ()
class Sum(Add):
    @property
    def free_symbols(self):
        return symbols_of(self)
    def atoms(self, *kind):
        return powers_of(self, kind)
    def has(self, *s):
        return any([x in symbols_of(self) for x in s])
    @property
    def args(self):
        return parts(self)
def client(raw, x, y, z):
    k, a = split_expr(raw, (x, y, z))
    out = []
    for v in (x, y, z):
        out.append(a[v] if v in a else 0)
    return (k, out[0], out[1], out[2], len([q for q in a if q not in (x, y, z)]))
'''
# name: (symbols, contains a power)
KINDS = {"c1": ("p", False), "c2": ("p", True), "c3": ("", False), "l1": ("px", False), "l2": ("x", False), "l3": ("qy", False), "w1": ("x", True), "w2": ("px", True), "w3": ("xy", True),
         "m1": ("xy", False), "m2": ("pxyz", False), "m3": ("yz", False)}
LIN = {"l1": "x", "l2": "x", "l3": "y"}
W = "src/logic/stamping/lagrangesegment.py:split_expr"


def one(ctx, names):
    E = ctx.engine()
    E.fn("logic.stamping.lagrangesegment.split_expr")
    sy = lambda s: [S(c) for c in s]
    info = {S(n): KINDS[n] for n in KINDS}
    whole = S("whole")
    tot = "".join(sorted(set("".join(KINDS[n][0] for n in names))))
    info[whole] = (tot, any(KINDS[n][1] for n in names))
    exp = whole if len(names) > 1 else S(names[0])

    def syms(t):
        if t in info:
            return info[t][0]
        r = set()
        for q in walk(t):
            if q in info:
                r |= set(info[q][0])
            if q.op == "s" and q not in info and len(str(q.a[0])) == 1:
                r.add(q.a[0])
        return "".join(sorted(r))

    def expand(args, kw, st, fr):
        if args[0] is S("raw"):
            return exp
        return args[0]

    def diff(args, kw, st, fr):
        t, v = args[0], args[1]
        if t is S("raw"):
            t = whole if len(names) > 1 else exp
        if t is whole:
            r = ZERO
            for n in names:
                r = arith("add", r, diff([S(n), v], kw, st, fr))
            return r
        if t in info and v.a[0] not in info[t][0]:
            return ZERO
        return mk("D", t, v)
    E.models["sympy.expand"] = expand
    E.models["sympy.diff"] = diff
    E.models["oracle.symbols_of"] = lambda a, kw, st, fr: mk("tuple", *sy(syms(a[0])))
    E.models["oracle.powers_of"] = lambda a, kw, st, fr: mk("tuple", *([S("thepower")] if info.get(a[0], ("", False))[1] else []))
    E.models["oracle.parts"] = lambda a, kw, st, fr: mk("tuple", *[S(n) for n in names])
    hints = {n: "__client__.Term" for n in list(KINDS)}
    hints["whole"] = "__client__.Sum"
    # the equation as given is not expanded: nothing may be concluded from its own shape
    hints["raw"] = "__client__.Term"
    info[S("raw")] = (tot, True)
    for n in hints:
        E.exact.add(S(n))
    r = client(ctx, TXT, distinct=list("xyzpq"), E=E, hints=hints)
    v = py(r.only())
    if not isinstance(v, list) or len(v) != 5:
        raise AnalysisError("unexpected result form")
    m = {}
    for n, x in LIN.items():
        m[S(n)] = arith("mul", mk("D", S(n), S(x)), S(x))
    fix = lambda t: subst(t, m)
    K, A = ZERO, {c: ZERO for c in "xyz"}
    for n in names:
        ss, pw = KINDS[n]
        vs = [c for c in ss if c in "xyz"]
        if n not in LIN:
            K = arith("sub", K, S(n))
        for c in vs:
            d = mk("D", S(n), S(c))
            A[c] = arith("add", A[c], d)
            if n not in LIN:
                K = arith("add", K, arith("mul", d, S(c)))
    tag = " + ".join(names)
    # D(linear term) is itself free of the substitution
    unsub = {mk("D", subst(S(n), m), S(x)): mk("D", S(n), S(x)) for n, x in LIN.items()}
    ctx.ob(f"{tag}: right-hand side", compare(K, subst(fix(v[0]), unsub)), W)
    for c, t in zip("xyz", v[1:4]):
        ctx.ob(f"{tag}: coefficient of {c}", compare(A[c], subst(fix(t), unsub)), W)
    ctx.must(f"{tag}: no coefficient of a non-variable", v[4] is ZERO, W, show(v[4]))


def run(ctx):
    for n in KINDS:
        ctx.section(f"single term {n}", W, one, ctx, (n,))
    for names in (("c1", "l1"), ("l1", "c1"), ("l1", "l2"), ("l1", "w1", "l2"), ("w1", "l1"), ("m1", "m3", "w3"), ("c1", "c2", "m1", "l3", "l1", "w2", "m2", "c3"), ("m2", "l3", "c3", "w2", "l2", "c1", "m1")):
        ctx.section("sum " + " + ".join(names), W, one, ctx, names)
