"""Load scaling: every load's active and reactive power is scaled once by its own factor, nothing else changes."""
from ..algebra import *
from ..interp import AnalysisError
from ._cl import *
from .C08 import COMMON

W = "src/logic/network/loadfactor.py:modify_load_factor"
TXT = COMMON + '''
from logic.network.loadfactor import modify_load_factor
def facts(l):
    return [l.P, l.Q, l.Z, l.G, l.B, l.IP, l.IQ, l.load_num, l.phase, l.triplex_phase]
def client(p, q, r, s, z, i, j, f, g, x, y):
    n = KIND()
    b1 = bus(1, "one", "A")
    b2 = bus(2, "two", "B")
    n.buses = [b1, b2]
    n.slack = [Slack(b1, 1, 0, 0, 0)]
    n.generators = [Generator(b2, x, 1, 2, 1, 2, y, 1, None, None, None)]
    n.misc = [Capacitor(b2, GROUND, y, 2, None, None, None)]
    n.loads = [Load(b1, GROUND, p, q, 0, i, j, "7", "A"), Load(b1, b2, r, s, 0, 3, 4, "8", "B", "1"), Load(b2, GROUND, p, s, 0, j, 0, None, "C"), Load(b2, GROUND, 0, q, 0, i, i)]
    a, b = (FACTORS)
    had = n.loads
    first = [l for l in n.loads]
    want = [facts(l) for l in n.loads]
    others = [n.generators[0].P, n.generators[0].Qmax, n.generators[0].Qinit, n.slack[0].Vset, n.misc[0].B, n.misc[0].var]
    ASSIGN
    CALL
    for w in want:
        w[0] = w[0] * a
        w[1] = w[1] * b
    same = [u is v for u, v in zip(n.loads, first)]
    ends = [l.from_bus is b1 for l in n.loads] + [l.to_bus is b2 for l in n.loads]
    return ([facts(l) for l in n.loads], want, same, len(n.loads) == len(first), ends, ([n.generators[0].P, n.generators[0].Qmax, n.generators[0].Qinit, n.slack[0].Vset, n.misc[0].B, n.misc[0].var], others, n.optimization is None, len(n.buses), len(n.slack), len(n.generators), len(n.misc)))
'''
FORMS = [("both factors", "(f, g)", "modify_load_factor(n, f, g)"), ("both factors by name", "(f, g)", "modify_load_factor(n, loadfactor_Q=g, loadfactor_P=f)"),
         ("active factor alone", "(f, 1)", "modify_load_factor(n, f)"), ("reactive factor alone", "(1, g)", "modify_load_factor(n, loadfactor_Q=g)"),
         ("no factor", "(1, 1)", "modify_load_factor(n)")]
FACTS = ["active power", "reactive power", "impedance", "conductance", "susceptance", "constant current (real)", "constant current (imaginary)", "number", "phase", "triplex phase"]

def run(ctx):
    for kind in ("TxNetworkModel", "DxNetworkModel"):
        for label, fac, call in FORMS:
            def one(kind=kind, label=label, fac=fac, call=call):
                for assign in ("pass", "n.assign_matrix()"):
                    if assign != "pass" and (label != "both factors"):
                        continue
                    o = client(ctx, TXT.replace("KIND", kind).replace("FACTORS", fac).replace("CALL", call).replace("ASSIGN", assign))
                    got, want, same, n, ends, rest = items(o.only())
                    lab = f"{kind}, {label}" + ("" if assign == "pass" else ", after indices were assigned")
                    for k, (g, w) in enumerate(zip(items(got), items(want))):
                        for name, x, y in zip(FACTS, items(g), items(w)):
                            ctx.ob(f"{lab}: load {k + 1}: {name}", compare(y, x), W)
                    ctx.must(f"{lab}: the loads are the same objects", all(x is TRUE for x in items(same)) and n is TRUE, W)
                    now, was, opt, *ls = items(rest)
                    ctx.must(f"{lab}: nothing but loads is touched", opt is TRUE and [x.a[0] for x in ls] == [2, 1, 1, 1] and now is was, W)
                    ctx.must(f"{lab}: terminals are unchanged", [x is TRUE for x in items(ends)] == [True, True, False, False, False, True, False, False], W)
            ctx.section(f"{kind}: {label}", W, one)
