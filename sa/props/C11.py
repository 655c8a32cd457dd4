"""Every element of the network takes part: in the element list, in index assignment and in the assembled system."""
from ..algebra import *
from ..interp import AnalysisError
from ._cl import *

W = "src/logic/network/networkmodel.py:NetworkModel"
WB = "src/logic/stamping/matrixstamper.py:build_matrix_stamper"
THING = '''
from logic.network.networkmodel import TxNetworkModel, DxNetworkModel
from logic.stamping.matrixstamper import build_matrix_stamper
from oracle import ready
class Thing:
    def __init__(self, tag):
        self.tag = tag
        self.idx = None
        self.opt = None
    def assign_nodes(self, node_index, optimization_enabled):
        self.idx = [next(node_index)] if self.idx is None else self.idx + [next(node_index)]
        self.opt = optimization_enabled
    def get_stamps(self):
        return [self.tag + " p", self.tag + " q"]
    def get_connections(self):
        return []
'''
ALL = THING + '''
def client(a, b):
    n = KIND()
FILL
    return [e.tag for e in n.get_all_elements()]
'''
ASG = THING + '''
def client(a, b):
    n = KIND()
FILL
    things = [THINGS]
    opt = Thing("opt") if OPT else None
    n.optimization = opt
    v0 = n.matrix_version
    n.assign_matrix()
    v1 = n.matrix_version
    if OPT:
        things = things + [opt]
    return ([t.idx for t in things], [t.opt for t in things], n.size_Y, v0, v1)
'''
MANY = THING + '''
def client(a, b):
    n = KIND()
    p, q, r, t = Thing("p"), Thing("q"), Thing("r"), Thing("t")
    n.optimization = Thing("opt") if OPT else None
    n.loads = [p, q]
    n.assign_matrix()
    x = (n.matrix_version, n.size_Y)
    n.loads = [q, p]
    n.assign_matrix()
    y = (n.matrix_version, n.size_Y, p.idx[-1], q.idx[-1])
    n.loads = [r]
    n.lines = [q]
    n.assign_matrix()
    z = (n.matrix_version, n.size_Y, r.idx[-1], q.idx[-1])
    n.lines = [q, t, p]
    n.assign_matrix()
    w = (n.matrix_version, n.size_Y, r.idx[-1], q.idx[-1], t.idx[-1], p.idx[-1])
    n.assign_matrix()
    return (x, y, z, w, (n.matrix_version, n.size_Y))
'''
ST = THING + '''
def client(a, b):
    n = KIND()
FILL
    n.optimization = Thing("opt") if OPT else None
    return build_matrix_stamper(n)
'''
BASE = ["buses", "lines", "transformers", "slack", "switches", "generators", "loads", "misc"]
LISTS = {"TxNetworkModel": BASE + ["shunts", "voltage_sources"], "DxNetworkModel": BASE + ["regulators", "fuses", "capacitors"]}
SPECIAL = {"buses", "transformers", "slack"}          # assign_matrix names their unknowns, C08 covers them with real components


def fill(names, skip=()):
    out, tags = [], []
    for n in names:
        ts = [] if n in skip else [f"{n} 1", f"{n} 2"]
        out.append("    n.%s = [%s]" % (n, ", ".join(f'Thing("{t}")' for t in ts)))
        tags += ts
    return "\n".join(out), tags


def strs(t):
    return [x.a[0] if x.op == "c" else None for x in items(t)]


def run(ctx):
    for kind, names in LISTS.items():
        def everything():
            text, tags = fill(names)
            o = client(ctx, ALL.replace("KIND", kind).replace("FILL", text))
            got = strs(o.only())
            for t in tags:
                n = got.count(t)
                ctx.must(f"{kind}: {t} listed exactly once", n == 1, W + ".get_all_elements", f"{n} times")
            ctx.must(f"{kind}: nothing else is listed", set(got) <= set(tags), W + ".get_all_elements", str(got))
        ctx.section(f"{kind}: all elements", W, everything)
        for opt in ("False", "True"):
            mode = "with optimisation" if opt == "True" else "plain"

            def assign():
                text, tags = fill(names, SPECIAL)
                th = ", ".join(f"*n.{x}" for x in names if x not in SPECIAL)
                o = client(ctx, ASG.replace("KIND", kind).replace("FILL", text).replace("THINGS", th).replace("OPT", opt))
                idx, flags, size, v0, v1 = items(o.only())
                used = [items(x) for x in items(idx)]
                n = len(tags) + (opt == "True")
                ctx.must(f"{kind} {mode}: every element is assigned exactly once", all(len(u) == 1 for u in used) and len(used) == n, W + ".assign_matrix", str(used))
                ks = sorted(x.a[0] for u in used for x in u)
                ctx.must(f"{kind} {mode}: indices are handed out consecutively from one counter", ks == list(range(n)), W + ".assign_matrix", str(ks))
                ctx.must(f"{kind} {mode}: the system has as many rows as indices handed out", size is C(n), W + ".assign_matrix", show(size))
                ctx.must(f"{kind} {mode}: elements are told whether optimisation is on", all(x is C(opt == "True") for x in items(flags)), W + ".assign_matrix", show(flags, 3))
                ctx.must(f"{kind} {mode}: a new assignment has a new version", v1 is not v0 and v0.op == v1.op == "c", W + ".assign_matrix", f"{show(v0)} then {show(v1)}")
            ctx.section(f"{kind} {mode}: assignment", W, assign)

            def again():
                o = client(ctx, MANY.replace("KIND", kind).replace("OPT", opt))
                rs = [items(x) for x in items(o.only())]
                extra = int(opt == "True")
                vs = [r[0] for r in rs]
                ctx.must(f"{kind} {mode}: no two assignments share a version", all(v.op == "c" for v in vs) and len({v.a[0] for v in vs}) == len(vs), W + ".assign_matrix", str([show(v) for v in vs]))
                for k, (r, n) in enumerate(zip(rs, (2, 2, 2, 4, 4))):
                    ctx.must(f"{kind} {mode}: assignment {k + 1} has the size of what is there then", r[1] is C(n + extra), W + ".assign_matrix", show(r[1]))
                    ks = [x.a[0] if x.op == "c" else None for x in r[2:]]
                    ctx.must(f"{kind} {mode}: assignment {k + 1} starts from zero again", not ks or sorted(ks) == list(range(n)), W + ".assign_matrix", str(ks))
            ctx.section(f"{kind} {mode}: repeated assignment", W, again)

            def stamps():
                text, tags = fill(names)
                E = ctx.engine()
                E.load("logic.stamping.matrixstamper")
                got = []

                def init(a, kw, st, fr):
                    pos = dict(zip(("self", "all_stamps", "optimization_enabled"), a))
                    vals = list(a[1:]) + list(kw.values())
                    for v in vals:
                        if v.op == "loc":
                            E.setattr(a[0], "given", v, st, fr)
                        else:
                            E.setattr(a[0], "flag", v, st, fr)
                    return NONE
                E.models["logic.stamping.matrixstamper.MatrixStamper.__init__"] = init
                E.fn("logic.stamping.matrixstamper.MatrixStamper.__init__")
                o = client(ctx, ST.replace("KIND", kind).replace("FILL", text).replace("OPT", opt).replace("return build_matrix_stamper(n)", "m = build_matrix_stamper(n)\n    return (m.given, m.flag)"), E=E)
                given, flag = items(o.only())
                want = [f"{t} {x}" for t in tags + (["opt"] if opt == "True" else []) for x in "pq"]
                g = strs(given)
                for t in want:
                    ctx.must(f"{kind} {mode}: stamp {t} enters the system exactly once", g.count(t) == 1, WB, f"{g.count(t)} times")
                ctx.must(f"{kind} {mode}: no other stamps", len(g) == len(want), WB, str(len(g)))
                ctx.must(f"{kind} {mode}: the stamper knows whether optimisation is on", flag is C(opt == "True"), WB, show(flag))
            ctx.section(f"{kind} {mode}: stamps", WB, stamps)
