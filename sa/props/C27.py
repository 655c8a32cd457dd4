"""Island selection: what remains is exactly the selected island with everything attached to it."""
from ..algebra import *
from ..interp import AnalysisError
from ._cl import *
from ._graph import GRAPH, install
from .C08 import COMMON

W = "src/logic/network/timeseriesprocessor.py:TimeSeriesProcessor.select_island"
TXT = GRAPH + COMMON + '''
from logic.network.timeseriesprocessor import TimeSeriesProcessor
from logic.network.timeseriessettings import TimeSeriesSettings
class Flow:
    def __init__(self, network):
        self.network = network
def virtual(i, name):
    return Bus(i, 1, 0.1, 0.1, None, name, "A", True)
def tag(name, e):
    e.tag = name
    return e
def half(n, bs, s, i):
    """one island of four nodes, its parts named by the suffix s"""
    one, oneb, two, three, four = bs["1" + s], bs["1" + s + "_B"], bs["2" + s], bs["3" + s], bs["4" + s]
    v = [tag("v" + str(k) + s, virtual(i + k, "V" + str(k) + s)) for k in range(5)]
    n.buses = n.buses + [one, two, three, four, v[0], v[1], v[2], v[3], v[4], oneb]
    n.lines = n.lines + [tag("line12" + s, Line(one, two, 1, 2, 3, True, 0, 0, 0)), tag("line23" + s, Line(two, three, 1, 2, 3, True, 0, 0, 0)), tag("line12b" + s, Line(one, two, 1, 2, 3, True, 0, 0, 0))]
    n.switches = n.switches + [tag("switch" + s, Switch(one, three, SwitchStatus.CLOSED, "A"))]
    k0 = CenterTapTransformerCoil(1, 2, None, 1, 2, 3)
    k0.from_node = two
    k0.primary_node = v[0]
    k1 = CenterTapTransformerCoil(1, 2, None, 1, 2, 3)
    k1.sending_node = v[1]
    k1.to_node = bs["5" + s + "_1"]
    k2 = CenterTapTransformerCoil(1, 2, None, 1, 2, 3)
    k2.sending_node = v[2]
    k2.to_node = bs["5" + s + "_2"]
    n.buses = n.buses + [k1.to_node, k2.to_node]
    n.transformers = n.transformers + [tag("ct" + s, CenterTapTransformer(k0, k1, k2, "A", 2, 5, 6, 7)), tag("xf" + s, Transformer(three, GROUND, four, GROUND, 1, 2, True, 1, 30, 0, 0, 5))]
    n.fuses = n.fuses + [tag("fuse" + s, Fuse(one, four, v[3], 2, FuseStatus.GOOD, "A"))]
    n.regulators = n.regulators + [tag("reg" + s, Regulator(two, bs["6" + s], v[4], 1, 2, RegType.A, RegControl.MANUAL, 1, 2, 3, 4))]
    n.buses = n.buses + [bs["6" + s]]
    n.capacitors = n.capacitors + [tag("cap" + s, Capacitor(two, GROUND, 4, 2, None, None, None))]
    n.loads = n.loads + [tag("load2" + s, Load(two, GROUND, 1, 2, 0, 0, 0, "1", "A")), tag("load1" + s, Load(one, oneb, 1, 2, 0, 0, 0, "2", "AB"))]
    n.slack = n.slack + [tag("slack" + s, Slack(four, 1, 0, 0, 0))]
    n.generators = n.generators + [tag("gen" + s, Generator(three, 1, 1, 2, 1, 2, 1, 1, None, None, None))]
def network():
    n = DxNetworkModel()
    bs = {}
    i = 0
    for s in ("x", "y", "z"):
        for name, node, p in (("1", "1", "A"), ("1", "1", "B"), ("2", "2", "A"), ("3", "3", "A"), ("4", "4", "A"), ("5", "5", "1"), ("5", "5", "2"), ("6", "6", "A")):
            i = i + 1
            bs[name + s + ("" if p == "A" else "_" + p)] = tag("b" + name + s + p, bus(i, name + s, p))
    for k, s in ((40, FIRST), (60, SECOND), (80, "z")):
        half(n, bs, s, k)
    n.switches = n.switches + [tag("open", Switch(bs["3x"], bs["1y"], SwitchStatus.OPEN, "A"))]
    v = tag("vopen", virtual(99, "Vopen"))
    n.buses = n.buses + [v]
    n.fuses = n.fuses + [tag("blown", Fuse(bs["2x"], bs["2y"], v, 2, FuseStatus.BLOWN, "A"))]
    return n
def tags(n):
    return [[e.tag for e in l] for l in (n.buses, n.lines, n.switches, n.transformers, n.fuses, n.regulators, n.capacitors, n.loads, n.slack, n.generators)]
def client():
    n = network()
    before = tags(n)
    t = TimeSeriesProcessor(TimeSeriesSettings(SETTINGS), Flow(n))
    return (before, tags(n), t.powerflow.network is n)
'''
LISTS = "buses lines switches transformers fuses regulators capacitors loads slack generators".split()


def analyse(ctx, first, second, settings):
    E = ctx.engine()
    E.exact_try = E.strict_attr = True
    install(E)
    o = client(ctx, TXT.replace("FIRST", repr(first)).replace("SECOND", repr(second)).replace("SETTINGS", settings), E=E)
    before, after, same = items(o.only())
    if same is not TRUE:
        raise AnalysisError("the network object is replaced")
    return [[[str(x.a[0]) for x in items(l)] for l in items(v)] for v in (before, after)]


def run(ctx):
    for first, second in (("x", "y"), ("y", "x")):
        for pick, want in (("1x", "x"), ("4x", "x"), ("2y", "y"), ("6z", "z")):
            def one(first=first, second=second, pick=pick, want=want):
                before, after = analyse(ctx, first, second, f'artificialswingbus="{pick}", select_island=True')
                for name, b, a in zip(LISTS, before, after):
                    lab = f"island of node {pick} ({'first' if want == first else 'second' if want == second else 'third'} in the network): {name}"
                    keep = lambda t: t.rstrip("AB12").endswith(want)
                    a = [t for t in a if t != "open"]
                    ctx.must(lab + " of the island all remain", all(t in a for t in b if keep(t)), W, "lost: " + ", ".join(t for t in b if keep(t) and t not in a))
                    ctx.must(lab + " outside the island are all removed", all(keep(t) for t in a), W, "left: " + ", ".join(t for t in a if not keep(t)))
                    ctx.must(lab + " keep their order and number", a == [t for t in b if t in a], W, ", ".join(a))
            ctx.section(f"selecting the island of {pick} ({first} first)", W, one)
    for lab, s in (("not requested", 'artificialswingbus="1x"'), ("no swing bus given", "select_island=True"), ("turned off", 'artificialswingbus="1x", select_island=False')):
        def none(lab=lab, s=s):
            before, after = analyse(ctx, "x", "y", s)
            ctx.must(f"{lab}: the network is left as it is", before == after, W)
        ctx.section(lab, W, none)
