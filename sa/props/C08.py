"""Index allocation: every unknown has one index, one owner and one equation, in every network
built from the element kinds (structural solvability of the assembled system)."""
from ..elements import *
from ..term import *
from ..interp import AnalysisError, State
from ._cl import *

COMMON = '''
from models.components.bus import Bus, GROUND
from models.components.line import Line
from models.components.load import Load
from models.components.generator import Generator
from models.components.slack import Slack
from models.components.shunt import Shunt
from models.components.capacitor import Capacitor, CapSwitchState
from models.components.switch import Switch, SwitchStatus
from models.components.fuse import Fuse, FuseStatus
from models.components.voltagesource import VoltageSource
from models.components.transformer import Transformer
from models.components.center_tap_transformer import CenterTapTransformer, CenterTapTransformerCoil
from models.components.regulator import Regulator, RegType, RegControl
from models.components.unbalanced_line import UnbalancedLine
from models.optimization.L1infeasibility import L1InfeasibilityOptimization
from models.optimization.L2infeasibility import L2InfeasibilityOptimization
from logic.network.networkmodel import TxNetworkModel, DxNetworkModel
def bus(i, name, phase):
    return Bus(i, 1, 1.0, 0.0, 0, name, phase)
'''
TX = COMMON + '''
def client(a, b, c, d):
    n = TxNetworkModel()
    b1 = bus(1, "one", "A")
    b2 = bus(2, "two", "A")
    b3 = bus(3, "three", "A")
    b4 = bus(4, "four", "A")
    b5 = bus(5, "five", "A")
    n.buses = [b1, b2, b3, b4, b5]
    n.lines = [Line(b1, b2, 1, 2, 3, True, 0, 0, 0), Line(b2, b1, 1, 2, 3, True, 0, 0, 0)]
    n.transformers = [Transformer(b2, GROUND, b3, GROUND, 1, 2, True, 1, 30, 0, 0, 5)]
    n.slack = [Slack(b1, 1, 0, 0, 0)]
    n.generators = [Generator(b2, a, 1, 2, 1, 2, 1, 1, None, None, None), Generator(b2, b, 1, 2, 1, 2, 1, 1, None, None, None)]
    n.loads = [Load(b4, GROUND, a, b, 0, 0, 0), Load(b5, GROUND, a, b, 0, 0, 0), Load(b2, b4, c, d, 0, 0, 0)]
    n.switches = [Switch(b3, b5, SwitchStatus.CLOSED, "A"), Switch(b1, b4, SwitchStatus.OPEN, "A")]
    n.shunts = [Shunt(b2, 1, 2, 0, 0, 0, 0, 0, 0, 0)]
    n.voltage_sources = [VoltageSource(b4, GROUND, 1, 0), VoltageSource(b3, GROUND, 1, 0)] if VS else []
    n.misc = [Capacitor(b1, GROUND, 4, 2, None, None, None)]
    n.optimization = OPT
    n.assign_matrix()
    AGAIN
    ents = n.get_all_elements()
    if n.optimization != None:
        ents = ents + [n.optimization]
    return (n, ents, n.size_Y, n.buses, n.matrix_map)
'''
DX = COMMON + '''
def client(a, b, c, d):
    n = DxNetworkModel()
    i = 0
    bs = {}
    for name in ("f", "t", "u", "w", "x", "y", "z"):
        for p in ("A", "B", "C"):
            i = i + 1
            bs[name + "_" + p] = bus(i, name, p)
    n.bus_name_map = bs
    n.buses = [q for q in bs.values()]
    ul = UnbalancedLine(n, IMP, SHA, "f", "t", 2, "ABC")
    one = UnbalancedLine(n, IMP, None, "t", "u", 2, "B")
    n.lines = [ul, one]
    n.transformers = []
    for p in ("A", "B", "C"):
        n.transformers.append(Transformer(bs["t_" + p], GROUND, bs["w_" + p], GROUND, 1, 2, True, 1, 30, 0, 0, 5))
    n.transformers.append(Transformer(bs["t_A"], bs["t_B"], bs["u_A"], bs["u_C"], 1, 2, True, 1, 30, 0, 0, 5))
    k0 = CenterTapTransformerCoil(1, 2, None, 1, 2, 3)
    k0.from_node = bs["w_A"]
    k0.primary_node = bs["x_A"]
    k1 = CenterTapTransformerCoil(1, 2, None, 1, 2, 3)
    k1.sending_node = bs["x_B"]
    k1.to_node = bs["y_A"]
    k2 = CenterTapTransformerCoil(1, 2, None, 1, 2, 3)
    k2.sending_node = bs["x_C"]
    k2.to_node = bs["y_B"]
    n.transformers.append(CenterTapTransformer(k0, k1, k2, "A", 2, 3, 0, 0))
    n.slack = [Slack(bs["f_A"], 1, 0, 0, 0), Slack(bs["f_B"], 1, 2, 0, 0), Slack(bs["f_C"], 1, 4, 0, 0)]
    n.loads = [Load(bs["y_A"], bs["y_B"], a, b, 0, 0, 0), Load(bs["u_B"], GROUND, c, d, 0, 0, 0)]
    n.switches = [Switch(bs["u_C"], bs["w_C"], SwitchStatus.CLOSED, "C"), Switch(bs["u_C"], bs["w_A"], SwitchStatus.OPEN, "C")]
    n.regulators = [Regulator(bs["w_B"], bs["z_B"], bs["z_C"], a, b, RegType.A, RegControl.MANUAL, 1, 2, 16, 16), Regulator(bs["w_C"], bs["y_C"], bs["z_A"], a, b, RegType.B, RegControl.MANUAL, 1, 2, 16, 16)]
    n.fuses = []
    n.capacitors = [Capacitor(bs["w_B"], GROUND, 4, 2, None, None, None)]
    n.optimization = OPT
    n.assign_matrix()
    AGAIN
    ents = n.get_all_elements()
    if n.optimization != None:
        ents = ents + [n.optimization]
    return (n, ents, n.size_Y, n.buses, n.matrix_map)
'''
# fuses need an interior bus of their own
DX = DX.replace('n.fuses = []', 'n.fuses = [Fuse(bs["z_B"], bs["u_A"], bs["u_C"], 5, FuseStatus.GOOD, "B")]').replace('Switch(bs["u_C"], bs["w_C"]', 'Switch(bs["t_C"], bs["w_C"]')
W = "src/logic/network/networkmodel.py:NetworkModel.assign_matrix"


def classname(E, o):
    return E.classes[o.a[0]].name if o.op == "new" else show(o)


def mentions(t, x):
    return any(q is x for q in walk(t))


def pairing(EL, o, st, pair):
    """in the optimisation problem the multiplier of a bus equation is that bus's own multiplier"""
    E = EL.E
    bad, n = [], 0
    back = {b: a for a, b in pair.items()}
    sts, st = EL.stamps(o, st)
    for g, stamper, consts in sts:
        seg = E.getattr(stamper, "lsegment", st, None)
        L, cs, primals, duals = EL.segment(seg, st)
        for p, d in zip(primals, duals):
            for f in ("get_eqn_row_index_str", "get_var_col_index"):
                arg = (lambda v: C(v.a[0])) if f.endswith("str") else (lambda v: v)
                a, _, _ = E.call_method(stamper, f, [arg(p)], st)
                b, _, _ = E.call_method(stamper, f, [arg(d)], st)
                a, b = (x.a[0] if x.op == "c" else show(x) for x in (a, b))
                if (a in pair or b in back or a is None or b is None):
                    n += 1
                    if a is None or b is None:
                        if a is not b:
                            bad.append(f"{show(p)} at {a} but its multiplier {show(d)} at {b}")
                    elif pair.get(a) != b:
                        bad.append(f"{show(p)} at index {a} but its multiplier {show(d)} at {b} instead of {pair.get(a)}")
    return bad, n


def pattern(EL, o, st, opt, name):
    """[(row index, column index)] of one element, plus its ground rows"""
    E = EL.E
    out, allidx, bad = set(), set(), []
    sts, st = EL.stamps(o, st)
    for g, stamper, consts in sts:
        if g is FALSE:
            continue
        seg = E.getattr(stamper, "lsegment", st, None)
        L, cs, primals, duals = EL.segment(seg, st)
        col = {}
        for p in primals + (duals if opt else []):
            i, _, _ = E.call_method(stamper, "get_var_col_index", [p], st)
            col[p] = i
        zero = absorb(subst(L, {d: ZERO for d in duals}))
        gs = {d: absorb(arith("sub", absorb(subst(L, {e: (ONE if e is d else ZERO) for e in duals})), zero)) for d in duals}

        def row(v):
            r, _, _ = E.call_method(stamper, "get_eqn_row_index_str", [C(v.a[0])], st)
            return r
        for d in duals:
            r = row(d)
            ent = [(r, col[p]) for p in primals if mentions(gs[d], p)]
            if opt:
                ent += [(row(p), col[d]) for p in primals if mentions(gs[d], p)]
                for p in primals:
                    for q in primals:
                        if mentions(zero, p) and p is q:
                            ent.append((row(p), col[q]))
                rs = [row(p) for p in primals]
            else:
                rs = []
            for x in [r] + rs + list(col.values()):
                if x is NONE:
                    continue
                if x.op != "c" or not isinstance(x.a[0], int) or isinstance(x.a[0], bool):
                    bad.append(f"index {show(x, 4)} is not an allocated number")
                else:
                    allidx.add(x.a[0])
            for a, b in ent:
                if a is NONE or b is NONE or a.op != "c" or b.op != "c":
                    continue
                out.add((a.a[0], b.a[0]))
    return out, allidx, bad


def matching(n, pat):
    adj = {}
    for a, b in pat:
        adj.setdefault(a, []).append(b)
    mate = {}

    def aug(r, seen):
        for c in adj.get(r, ()):
            if c in seen:
                continue
            seen.add(c)
            if c not in mate or aug(mate[c], seen):
                mate[c] = r
                return True
        return False
    unmatched = [r for r in range(n) if not aug(r, set())]
    return len(mate), unmatched


def one(ctx, label, text, opt, again, vs=False):
    E = ctx.engine()
    EL = Elements(E)
    E.concrete_arrays = True
    E.models["models.components.unbalanced_line.calcInverse"] = lambda a, kw, st, fr: S("Y")
    E.models["numpy.allclose"] = lambda a, kw, st, fr: TRUE
    E.fn("models.components.unbalanced_line.calcInverse")
    E.cls("logic.network.networkmodel.TxNetworkModel")
    text = text.replace("OPT", "L2InfeasibilityOptimization(n.buses)" if opt == "L2" else "L1InfeasibilityOptimization(n.buses)" if opt == "L1" else "None").replace("AGAIN", "n.assign_matrix()" if again else "pass")
    text = text.replace("if VS", "if True" if vs else "if False").replace("IMP", "imp").replace("SHA", "sha").replace("client(a, b, c, d)", "client(a, b, c, d, imp, sha)")
    f = E.client(text)
    r = E.analyse(f, st=State())
    if len(r.returns) != 1:
        raise AnalysisError(f"{len(r.returns)} result forms")
    s, v, n = r.returns[0]
    net, ents, size, buses, mmap = [E.seq_items(v, s, None)[i] for i in range(5)]
    ents = E.seq_items(ents, s, None)
    buses = E.seq_items(buses, s, None)
    if ents is None or buses is None:
        raise AnalysisError("element list of unknown shape")
    if size.op != "c" or not isinstance(size.a[0], int):
        ctx.ob(f"{label}: system size is the number of allocated indices", f"size is {show(size, 5)}", W)
        return
    N = size.a[0]
    owner, pat, bad = {}, set(), []
    busidx = {}
    for b in buses:
        for a in ("node_Vr", "node_Vi") + (("node_lambda_Vr", "node_lambda_Vi") if opt else ()):
            x = E.getattr(b, a, s, None)
            if x.op != "c" or not isinstance(x.a[0], int):
                bad.append(f"bus attribute {a} is {show(x, 4)}")
                continue
            if x.a[0] in busidx:
                bad.append(f"bus index {x.a[0]} allocated twice")
            busidx[x.a[0]] = a
    ctx.ob(f"{label}: every bus quantity has an index of its own", "; ".join(bad[:3]) or None, W, len(busidx))
    pair = {}
    for b in buses:
        for a, l in (("node_Vr", "node_lambda_Vr"), ("node_Vi", "node_lambda_Vi")):
            x, y = E.getattr(b, a, s, None), E.getattr(b, l, s, None)
            if x.op == "c" and y.op == "c":
                pair[x.a[0]] = y.a[0]
    for k, o in enumerate(ents):
        nm = f"{classname(E, o)} #{k}"
        p, idx, errs = pattern(EL, o, s, bool(opt), nm)
        if classname(E, o) not in ("Bus",):
            ctx.ob(f"{label}: {nm}: indices are allocated and inside the system", "; ".join(errs[:3]) or (f"index {max(idx)} outside a system of {N}" if idx and max(idx) >= N or idx and min(idx) < 0 else None), W, max(1, len(idx)))
        pat |= p
        if opt and k < len(ents) - 1 and idx:
            pb, pn = pairing(EL, o, s, pair)
            ctx.ob(f"{label}: {nm}: multipliers belong to the equations they weigh", "; ".join(pb[:2]) or None, W, max(1, pn))
        shared = [i for i in idx if i not in busidx and i in owner]
        if classname(E, o) != "Bus":
            ctx.ob(f"{label}: {nm}: shares no internal index with another element", f"index {shared[0]} also belongs to {owner[shared[0]]}" if shared else None, W, max(1, len(idx)))
        for i in idx:
            owner.setdefault(i, nm)
    all_ = set(busidx) | set(owner)
    miss = sorted(set(range(N)) - all_)
    ctx.ob(f"{label}: no index is allocated without an owner", f"indices {miss[:6]} belong to nothing" if miss else None, W, N)
    over = sorted(x for x in all_ if x >= N or x < 0)
    ctx.ob(f"{label}: no index lies outside the system", f"indices {over[:6]} in a system of {N}" if over else None, W, N)
    rows, cols = {a for a, b in pat}, {b for a, b in pat}
    who = lambda i: owner.get(i) or busidx.get(i)
    mr, mc = sorted(set(range(N)) - rows), sorted(set(range(N)) - cols)
    ctx.ob(f"{label}: every index has an equation", f"row {mr[0]} ({who(mr[0])}) receives nothing" if mr else None, W, N)
    ctx.ob(f"{label}: every index is an unknown of some equation", f"column {mc[0]} ({who(mc[0])}) is never used" if mc else None, W, N)
    m, un = matching(N, pat)
    ctx.ob(f"{label}: equations can be matched one to one with unknowns", f"structural rank {m} of {N}; row {un[0]} ({who(un[0])}) has no unknown left" if un else None, W, N)
    mm = E.iter_entries(mmap, s, None) if mmap.op == "loc" else []
    out = [show(e[1]) for e in mm if e[0] == "kv" and not (e[1].op == "c" and isinstance(e[1].a[0], int) and 0 <= e[1].a[0] < N)]
    ctx.ob(f"{label}: labels describe indices of the system", f"label for {out[0]}" if out else None, W, max(1, len(mm)))
    ctx.sizes = getattr(ctx, "sizes", []) + [(label, N)]


def run(ctx):
    for kind, text in (("transmission", TX), ("distribution", DX)):
        for opt in ((None, "L2", "L1") if kind == "transmission" else (None, "L2")):
            for again in (False, True):
                lab = f"{kind} network, " + (f"{opt} optimisation" if opt else "plain") + (", assigned again" if again else "")
                ctx.section(lab, W, one, ctx, lab, text, opt, again)
    ctx.section("voltage source", W, one, ctx, "transmission network with a voltage source, plain", TX, None, False, True)
