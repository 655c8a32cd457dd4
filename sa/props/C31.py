"""Model definitions: the optimisation function is assembled from the declared equations, and an
equation mentioning an undeclared symbol is rejected."""
from ..algebra import *
from ._cl import *

TXT = '''
from sympy import symbols
from logic.stamping.lagrangesegment import TwoTerminalModelDefinition, ModelDefinition, KCL_r, KCL_i, Eq, Objective
from models.wellknownvariables import Vr_from, Vi_from, Vr_to, Vi_to
from oracle import symbols_of
class Eqn:
    @property
    def free_symbols(self):
        return symbols_of(self)
a, x = symbols("a x")
def client(r, i, rt, it, e, e2, o):
    m = BUILD
    return (m.lagrange, m.constants, m.primals, m.duals)
'''
W2 = "src/logic/stamping/lagrangesegment.py:TwoTerminalModelDefinition"
W1 = "src/logic/stamping/lagrangesegment.py:ModelDefinition"
TWO = "TwoTerminalModelDefinition([Vr_from, Vi_from, Vr_to, Vi_to, x], [a], KCL_r(r), KCL_i(i){})"
FORMS = [("plain two-terminal", W2, TWO.format(""), "ri"), ("two-terminal with own end equations", W2, TWO.format(", KCL_r(rt), KCL_i(it)"), "ri rt it".split()),
         ("two-terminal with equalities", W2, TWO.format(", equalities=[Eq(e), Eq(e2)]"), "r i e e2".split()),
         ("two-terminal with objective", W2, TWO.format(", equalities=[Eq(e)], objective=Objective(o)"), "r i e o".split()),
         ("general with equalities", W1, "ModelDefinition([x], [a], equalities=[Eq(e), Eq(e2)])", "e e2".split()),
         ("general with objective", W1, "ModelDefinition([x], [a], equalities=[Eq(e)], objective=Objective(o))", "e o".split())]
FORMS[1] = FORMS[1][:3] + ("r i rt it".split(),)


def build(ctx, text, odd=None):
    E = ctx.engine()
    E.cls("logic.stamping.lagrangesegment.TwoTerminalModelDefinition")
    E.cls("logic.stamping.lagrangesegment.ModelDefinition")
    names = "r i rt it e e2 o".split()
    m = E.load("models.wellknownvariables")
    vs = [E.modattr(m, v) for v in ("Vr_from", "Vi_from", "Vr_to", "Vi_to")]

    def syms(args, kw, st, fr):
        n = str(args[0].a[0])
        if n == odd:
            return mk("tuple", mk("symb", "a"), mk("symb", "stranger"))
        two = text.startswith("Two")
        return mk("tuple", mk("symb", "a"), mk("symb", "x"), *(vs if two else []))
    E.models["oracle.symbols_of"] = syms
    return E, client(ctx, TXT.replace("BUILD", text), E=E, distinct=names, hints={n: "__client__.Eqn" for n in names})


def run(ctx):
    for label, w, text, eqs in FORMS:
        def one(label=label, w=w, text=text, eqs=eqs):
            E, o = build(ctx, text)
            L, cs, ps, ds = items(o.only())
            cs, ps, ds = items(cs), items(ps), items(ds)
            two = w is W2
            ctx.must(f"{label}: constants and variables are the declared ones", cs == [mk("symb", "a")] and ps[-1] is mk("symb", "x") and len(ps) == (5 if two else 1), w, show(mk("tuple", *ps)))
            exp = ZERO
            if "o" in eqs:
                exp = arith("add", exp, S("o"))
            n = 4 if two else 0
            es = [q for q in eqs if q.startswith("e")]
            ctx.must(f"{label}: one multiplier per equation", len(ds) == n + len(es) and len(set(ds)) == len(ds), w, f"{len(ds)} multipliers")
            if two:
                to = ("rt", "it") if "rt" in eqs else ("r", "i")
                m = E.load("models.wellknownvariables")
                want = [E.modattr(m, v) for v in ("Lr_from", "Li_from", "Lr_to", "Li_to")]
                ctx.must(f"{label}: terminal multipliers come first", ds[:4] == want, w, show(mk("tuple", *ds[:4])))
                for d, (s, q) in zip(ds, ((1, "r"), (1, "i"), (-1, to[0]), (-1, to[1]))):
                    exp = arith("add" if s > 0 else "sub", exp, arith("mul", d, S(q)))
            for d, q in zip(ds[n:], es):
                exp = arith("add", exp, arith("mul", d, S(q)))
            ctx.ob(f"{label}: every equation enters once with its multiplier", compare(exp, L), w)
        ctx.section(label, w, one)
        for q in eqs:
            def odd(q=q, label=label, w=w, text=text):
                E, o = build(ctx, text, q)
                ctx.must(f"{label}: undeclared symbol in {q} is rejected", not o.returns and o.raises, w, "accepted")
            ctx.section(f"{label}: undeclared symbol in {q}", w, odd)
