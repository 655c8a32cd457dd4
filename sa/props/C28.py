"""Infeasibility analysis: one penalised current pair per bus, entering that bus's own balance and nothing else."""
from ..algebra import *
from ..elements import *
from ..interp import AnalysisError, State
from ._cl import *
from .C08 import COMMON

TXT = COMMON + '''
from itertools import count
from models.optimization.L2infeasibility import load_infeasibility_analysis as L2
from models.optimization.L1infeasibility import load_infeasibility_analysis as L1
def client(p, q, t1, t2, t3, virt):
    n = KIND()
    b1 = Bus(7, t1, 1.0, 0.0, 0, "one", "A")
    b2 = Bus(8, t2, 0.1, 0.1, 0, "virtual", "B", True)
    b3 = Bus(9, t3, 0.1, 0.1, 0, "three", "C", virt)
    b4 = Bus(10, 3, 1.0, 0.0, 0, "slack", "A")
    n.buses = [b1, b2, b3, b4]
    n.slack = [Slack(b4, 1, 0, 0, 0)]
    n.loads = [Load(b1, b3, p, q, 0, 0, 0, "7", "A")]
    n.optimization = NORM(n)
    n.assign_matrix()
    AGAIN
    return (n.optimization, n.buses, n.size_Y)
'''
REFUSE = TXT.replace("    n.assign_matrix()\n", "").replace("AGAIN", "n.optimization.assign_nodes(count(100), False)").replace("return (n.optimization, n.buses, n.size_Y)", "return 1")


def total(EL, o, st, tx):
    """the element's contribution to the optimisation function, over indexed unknowns; row/column mismatches"""
    E = EL.E
    L, odd, used = ZERO, [], set()
    sts, st = EL.stamps(o, st)
    for g, stamper, consts in sts:
        if g is not TRUE:
            raise AnalysisError("stamps under a condition")
        seg = E.getattr(stamper, "lsegment", st, None)
        lag, cs, primals, duals = EL.segment(seg, st)
        if len(cs) != len(consts):
            raise AnalysisError("constants and values do not match")
        m = dict(zip(cs, consts))
        for v in primals + duals:
            if not mentions(lag, v):
                continue
            i, _, _ = E.call_method(stamper, "get_var_col_index", [v], st)
            r, _, _ = E.call_method(stamper, "get_eqn_row_index_str", [C(v.a[0])], st)
            if i.op != "c" or not isinstance(i.a[0], int):
                raise AnalysisError(f"index of {show(v)} is {show(i, 4)}")
            if r is not i:
                odd.append(f"{show(v)}: unknown {show(i)} but equation {show(r, 4)}")
            used.add(i.a[0])
            m[v] = V(i)
        L = arith("add", L, subst(lag, m))
    return absorb(L), odd, used


def mentions(t, x):
    return any(q is x for q in walk(t))


def at(L, vals):
    """L with the given unknowns set and every other one zero"""
    m = {t: C(vals.get(t.a[0].a[0], 0)) for t in walk(L) if t.op == "V" and t.a[0].op == "c"}
    return absorb(subst(L, m))


def number(t):
    from fractions import Fraction
    if t.op == "c" and isinstance(t.a[0], (int, float, Fraction)):
        return Fraction(str(t.a[0])) if not isinstance(t.a[0], Fraction) else t.a[0]
    for k in (1, -1, 2, -2, 0):
        if not compare(C(k), t)[0]:
            return Fraction(k)
    return None


def build(ctx, kind, norm, again):
    E = ctx.engine()
    EL = Elements(E)
    E.concrete_arrays = True
    f = E.client(TXT.replace("KIND", kind).replace("NORM", norm).replace("AGAIN", "n.assign_matrix()" if again else "pass"))
    r = E.analyse(f, st=State())
    if len(r.returns) != 1:
        raise AnalysisError(f"{len(r.returns)} result forms")
    s, v, n = r.returns[0]
    opt, buses, size = E.seq_items(v, s, None)
    idx = []
    for b in E.seq_items(buses, s, None):
        row = [E.getattr(b, a, s, None) for a in ("node_Vr", "node_Vi", "node_lambda_Vr", "node_lambda_Vi")]
        if any(x.op != "c" for x in row):
            raise AnalysisError("bus without indices")
        idx.append([x.a[0] for x in row])
    return EL, opt, s, idx, size.a[0]


def run(ctx):
    for kind in ("TxNetworkModel", "DxNetworkModel"):
        for again in (False, True):
            for norm in ("L2", "L1"):
                W = f"src/models/optimization/{norm}infeasibility.py:{norm}InfeasibilityOptimization"

                def one(kind=kind, again=again, norm=norm, W=W):
                    EL, opt, s, idx, size = build(ctx, kind, norm, again)
                    lab = f"{norm}, {kind}" + (", assigned again" if again else "")
                    L, odd, used = total(EL, opt, s, None)
                    ctx.must(f"{lab}: each stationarity equation sits at its own unknown", not odd, W, "; ".join(odd[:3]))
                    own = used - {i for b in idx for i in b}
                    ctx.must(f"{lab}: its unknowns are its own, inside the system", all(0 <= i < size for i in own), W, str(sorted(own)))
                    ctx.must(f"{lab}: bus voltages do not enter", not used & {i for b in idx for i in b[:2]}, W, "a voltage index is used")
                    taken, signs, weights = set(), set(), set()
                    base = at(L, {})
                    ctx.ob(f"{lab}: no cost without a current", compare(ZERO, base), W)
                    for k, b in enumerate(idx):
                        for part, lam in (("real", b[2]), ("imaginary", b[3])):
                            lb = f"{lab}: bus {k + 1}, {part} balance"
                            co = {i: number(absorb(arith("sub", arith("sub", at(L, {i: 1, lam: 1}), at(L, {i: 1})), at(L, {lam: 1})))) for i in own}
                            mine = {i: c for i, c in co.items() if c != 0}
                            ok = None not in co.values()
                            want = 1 if norm == "L2" else 2
                            ctx.must(f"{lb}: exactly its own current enters", ok and len(mine) == want and not set(mine) & taken and sorted(abs(c) for c in mine.values()) == [1] * want, W, f"coefficients {mine}" if ok else "coefficients are not numbers")
                            taken |= set(mine)
                            if norm == "L1":
                                ctx.must(f"{lb}: the two parts of the current oppose each other", sum(mine.values()) == 0, W, str(mine))
                                continue
                            if len(mine) != 1:
                                continue
                            i, c = next(iter(mine.items()))
                            signs.add(c)
                            w = number(at(L, {i: 1}))
                            ctx.must(f"{lb}: its current is penalised", w is not None and w > 0, W, f"weight {show(at(L, {i: 1}), 5)}")
                            weights.add(w)
                    ctx.must(f"{lab}: no current beyond those of the buses", taken == own, W, f"extra unknowns {sorted(own - taken)}")
                    if norm == "L2":
                        ctx.must(f"{lab}: all currents enter with the same sign", len(signs) == 1, W, str(signs))
                        ctx.must(f"{lab}: all currents are penalised alike", len(weights) == 1, W, str(weights))
                        if len(signs) == 1 and len(weights) == 1 and None not in weights:
                            c, sg = (int(x) if x == int(x) else float(x) for x in (weights.pop(), signs.pop()))
                            exp = ZERO
                            for b in idx:
                                for lam in (b[2], b[3]):
                                    i = [i for i in own if number(absorb(arith("sub", arith("sub", at(L, {i: 1, lam: 1}), at(L, {i: 1})), at(L, {lam: 1})))) != 0][0]
                                    x = V(C(i))
                                    exp = arith("add", exp, arith("add", arith("mul", C(c), arith("mul", x, x)), arith("mul", C(sg), arith("mul", x, V(C(lam))))))
                            ctx.ob(f"{lab}: the optimisation function is the penalty plus each balance weighted by its multiplier", compare(exp, L), W)
                ctx.section(f"{norm}, {kind}, {again}", W, one)
    for norm in ("L2", "L1"):
        W = f"src/models/optimization/{norm}infeasibility.py:{norm}InfeasibilityOptimization"

        def ref(norm=norm, W=W):
            o = client(ctx, REFUSE.replace("KIND", "TxNetworkModel").replace("NORM", norm))
            ctx.must(f"{norm}: refused when the network is not being optimised", not o.returns and o.raises, W, "accepted")
        ctx.section(f"{norm} without optimisation", W, ref)
