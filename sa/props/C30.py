"""Initial estimate: every unknown starts from its own data, in both network kinds, flat or given."""
from ..algebra import *
from ..elements import *
from ..interp import AnalysisError, State
from ._cl import *
from .C08 import COMMON

WG = "src/models/components/generator.py:Generator"
WS = "src/models/components/slack.py:Slack"
W = "src/logic/network/networkmodel.py:{}.generate_v_init"
TX = COMMON + '''
import math
from logic.powerflowsettings import PowerFlowSettings
class Aux:
    """an element with unknowns of its own, first in the index order"""
    def assign_nodes(self, k, o):
        self.mine = (next(k), next(k))
    def get_connections(self):
        return []
    def get_stamps(self):
        return []
def put(v, i, x):
    v[i] = x
def client(m1, a1, m2, a2, m3, a3, qi, qn, qx, ri, rn, rx, ps, qs, pt, qt):
    n = TxNetworkModel()
    b1 = Bus(3, 1, m1, a1, 0, "one", "A")
    b2 = Bus(5, 2, m2, a2, 0, "two", "A")
    b3 = Bus(4, 3, m3, a3, 0, "three", "A")
    n.buses = [b1, b2, b3]
    n.lines = [Aux()]
    n.generators = [Generator(b2, 1, 1, qx, qn, 1, 0, qi, None, None, None), Generator(b1, 1, 1, rx, rn, 1, 0, ri, None, None, None)]
    n.slack = [Slack(b3, 1, 0, ps, qs), Slack(b1, 1, 0, pt, qt)]
    n.loads = [Load(b1, GROUND, 1, 2, 0, 0, 0)]
    n.misc = [Aux()]
    n.optimization = OPT
    n.assign_matrix()
    AGAIN
    got = n.generate_v_init(PowerFlowSettings(flat_start=FLAT))
    want = [0 for i in range(n.size_Y)]
    for b, m, a in ((b1, m1, a1), (b2, m2, a2), (b3, m3, a3)):
        want[b.node_Vr] = 1 if FLAT else m * math.cos(a)
        want[b.node_Vi] = 0 if FLAT else m * math.sin(a)
        if n.optimization is not None:
            want[b.node_lambda_Vr] = b.get_Lr_init()[1]
            want[b.node_lambda_Vi] = b.get_Li_init()[1]
    for g, q, lo, hi in ((n.generators[0], qi, qn, qx), (n.generators[1], ri, rn, rx)):
        want[g.get_Q_index()] = -(lo + hi) / 2 if FLAT else -q
        if n.optimization is not None:
            want[g.get_LQ_init()[0]] = g.get_LQ_init()[1]
    for s, p, q in ((n.slack[0], ps, qs), (n.slack[1], pt, qt)):
        want[s.get_slack_Ir_index()] = 0 if FLAT else p / 100
        want[s.get_slack_Ii_index()] = 0 if FLAT else q / 100
    return ([got[i] for i in range(n.size_Y)], want, n.size_Y, len(got))
'''
DX = COMMON + '''
import math
from logic.powerflowsettings import PowerFlowSettings
from itertools import count
def client(m1, a1, m2, a2, m3, a3):
    n = DxNetworkModel()
    b1 = Bus(3, 1, m1, a1, 0, "one", "A")
    b2 = Bus(5, 2, m2, a2, 0, "one", "B")
    b3 = Bus(4, 3, m3, a3, 0, "two", "C", True)
    n.buses = [b1, b2, b3]
    n.slack = [Slack(b1, 1, 0, 7, 8)]
    n.loads = [Load(b1, GROUND, 1, 2, 0, 0, 0)]
    n.optimization = OPT
    n.assign_matrix()
    AGAIN
    got = n.generate_v_init(PowerFlowSettings(flat_start=FLAT))
    want = [0 for i in range(n.size_Y)]
    for b, m, a in ((b1, m1, a1), (b2, m2, a2), (b3, m3, a3)):
        want[b.node_Vr] = m * math.cos(a)
        want[b.node_Vi] = m * math.sin(a)
    return ([got[i] for i in range(n.size_Y)], want, n.size_Y, len(got))
'''


WHO = COMMON + '''
from itertools import count
def client(qi, qn, qx, ps, qs):
    b1 = bus(3, "one", "A")
    b2 = bus(5, "two", "A")
    g = Generator(b1, 1, 1, qx, qn, 1, 0, qi, None, None, None)
    s = Slack(b2, 1, 0, ps, qs)
    k = count(0)
    for x in (b1, g, b2, s):
        x.assign_nodes(k, OPT)
    ids = [[b.node_Vr, b.node_Vi, b.node_lambda_Vr, b.node_lambda_Vi] for b in (b1, b2)]
    return (g, s, ids, g.get_Q_index(), LQ, s.get_slack_Ir_index(), s.get_slack_Ii_index())
'''


def meaning(ctx, opt):
    """the indices the devices name are those of the unknowns their equations give that role"""
    E = ctx.engine()
    EL = Elements(E)
    f = E.client(WHO.replace("OPT", opt).replace("LQ", "g.get_LQ_init()[0]" if opt == "True" else "None"))
    r = E.analyse(f, st=State())
    if len(r.returns) != 1:
        raise AnalysisError(f"{len(r.returns)} result forms")
    st, v, _ = r.returns[0]
    g, s, ids, iq, ilq, ir, ii = E.seq_items(v, st, None)
    buses = [E.seq_items(x, st, None) for x in E.seq_items(ids, st, None)]
    shared = {x for b in buses for x in b if x is not NONE}

    def own(o, b):
        """(primal, index, balances it enters), (multiplier, index) of the unknowns that belong to no bus"""
        (gate, stamper, consts), = EL.stamps(o, st)[0]
        lag, cs, primals, duals = EL.segment(E.getattr(stamper, "lsegment", st, None), st)
        ix = lambda z: E.call_method(stamper, "get_var_col_index", [z], st)[0]
        row = lambda z: E.call_method(stamper, "get_eqn_row_index_str", [C(z.a[0])], st)[0]
        real, imag = (b[2], b[3]) if opt == "True" else (b[0], b[1])
        P = []
        for p in primals:
            if ix(p) in shared or ix(p) is NONE:
                continue
            bal = set()
            for d in duals:
                if row(d) in (real, imag):
                    t = absorb(subst(lag, {e: ZERO for e in duals if e is not d}))
                    if any(q is p for q in walk(t)):
                        bal.add("real" if row(d) is real else "imaginary")
            P.append((p, ix(p), bal))
        return P, [(d, ix(d)) for d in duals if ix(d) not in shared and ix(d) is not NONE]
    tag = "with" if opt == "True" else "without"
    P, D = own(g, buses[0])
    ctx.must(f"{tag} optimisation: the generator's reactive power index is that of its own unknown", [x[1] for x in P] == [iq], WG, f"names {show(iq)}, owns {[show(x[1]) for x in P]}")
    if opt == "True":
        ctx.must("the multiplier a generator starts is that of its own voltage equation", [x[1] for x in D] == [ilq], WG, f"names {show(ilq)}, owns {[show(x[1]) for x in D]}")
    P, D = own(s, buses[1])
    for what, got, bal in (("real", ir, {"real"}), ("imaginary", ii, {"imaginary"})):
        ctx.must(f"{tag} optimisation: the slack's {what} current index is that of the unknown in its {what} balance", [x[1] for x in P if x[2] == bal] == [got], WS, f"names {show(got)}")


def run(ctx):
    for kind, text, flats, opts in (("TxNetworkModel", TX, ("False", "True"), (None, "L2")), ("DxNetworkModel", DX, ("False", "True"), (None, "L2"))):
        w = W.format(kind)
        for flat in flats:
            for opt in opts:
                for again in (False, True):
                    def one(text=text, flat=flat, opt=opt, again=again, kind=kind, w=w):
                        lab = f"{kind}, {'flat' if flat == 'True' else 'given'} start, {opt or 'no'} optimisation" + (", assigned again" if again else "")
                        E = ctx.engine()
                        E.unroll = 64
                        o = client(ctx, text.replace("FLAT", flat).replace("OPT", "L2InfeasibilityOptimization(n.buses)" if opt else "None").replace("AGAIN", "n.assign_matrix()" if again else "pass"), E=E)
                        got, want, size, n = items(o.only())
                        ctx.ob(f"{lab}: one entry per unknown", compare(size, n), w)
                        gs, ws = items(got), items(want)
                        ctx.must(f"{lab}: entries are known", len(gs) == len(ws), w)
                        for k, (g, x) in enumerate(zip(gs, ws)):
                            ctx.ob(f"{lab}: unknown {k}", compare(x, g), w)
                    ctx.section(f"{kind} {flat} {opt} {again}", w, one)
    for opt in ("False", "True"):
        ctx.section(f"meaning of indices {opt}", WG, meaning, ctx, opt)
