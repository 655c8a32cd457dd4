"""Networks are validated before they are solved: a single island, consistent nominal voltages."""
from ..algebra import *
from ._cl import *
from ._graph import GRAPH, install
from .C08 import COMMON

W = "src/logic/graphanalyzer.py:GraphAnalyzer"
WE = "src/logic/powerflow.py:PowerFlow.execute"
NET = COMMON + GRAPH + '''
from logic.graphanalyzer import GraphAnalyzer
from logic.powerflow import PowerFlow
from logic.powerflowsettings import PowerFlowSettings
def vb(i, name, phase, v, virtual=False):
    return Bus(i, 1, v, 0.0, 0, name, phase, virtual)
def coils(a, x, y):
    k0 = CenterTapTransformerCoil(1, 2, None, 1, 2, 3)
    k0.from_node = a
    k0.primary_node = x
    k1 = CenterTapTransformerCoil(1, 2, None, 1, 2, 3)
    k1.sending_node = x
    k1.to_node = y
    return CenterTapTransformer(k0, k1, k1, "A", 2, 3, 0, 0)
def make(v1, v2, v3, p, q, r, s, imp):
    n = KIND()
    a = vb(1, "one", "A", v1)
    b = vb(2, "two", "A", v2)
    c = vb(3, "three", "A", v3)
    a2 = vb(4, "one", "B", v1)
    b2 = vb(5, "two", "B", v2)
    c2 = vb(6, "three", "B", v3)
    m = vb(7, "inner", "A", v1, True)
    m2 = vb(8, "inner", "B", v1, True)
    n.buses = [a, a2, b, m, b2, m2, c, c2]
    n.bus_name_map = {"one_A": a, "two_A": b, "three_A": c, "one_B": a2, "two_B": b2, "three_B": c2}
    ELEMENTS
    return n
'''
COUNT = NET + '''
def client(v1, v2, v3, p, q, r, s, imp):
    g = GraphAnalyzer(make(v1, v2, v3, p, q, r, s, imp))
    return (g.get_island_count(), g.get_islands())
'''
VOLT = NET + '''
def client(v1, v2, v3, p, q, r, s, imp):
    g = GraphAnalyzer(make(v1, v2, v3, p, q, r, s, imp))
    g.validate_voltage_islands()
    return 1
'''
RUN = NET + '''
def client(v1, v2, v3, p, q, r, s, imp):
    PowerFlow(make(v1, v2, v3, p, q, r, s, imp), PowerFlowSettings()).execute()
    return 1
'''
REST = "n.lines = [Line({}, c, 1, 2, 3, True, 0, 0, 0)]\n    "
TXK, DXK = "TxNetworkModel", "DxNetworkModel"
UL = 'UnbalancedLine(n, [[5, 1], [1, 5]], None, "{}", "{}", 2, "AB")'
# (label, model, text connecting one and two besides three, groups of connected buses)
ONE, SEP, ALONE = ["one two three"], ["one", "two three"], ["one", "two", "three"]
KINDS = [
 ("line", TXK, REST.format("b") + "n.lines.append(Line(a, b, 1, 2, 3, True, 0, 0, 0))", ONE, True),
 ("transformer", TXK, REST.format("b") + "n.transformers = [Transformer(a, GROUND, b, GROUND, 1, 2, True, 1, 30, 0, 0, 5)]", ONE, False),
 ("line to ground side", TXK, REST.format("b") + "n.transformers = [Transformer(a, GROUND, GROUND, b, 1, 2, True, 1, 30, 0, 0, 5)]", SEP, None),
 ("closed switch", TXK, REST.format("b") + 'n.switches = [Switch(a, b, SwitchStatus.CLOSED, "A")]', ONE, True),
 ("open switch", TXK, REST.format("b") + 'n.switches = [Switch(a, b, SwitchStatus.OPEN, "A")]', SEP, None),
 ("voltage source", TXK, REST.format("b") + "n.voltage_sources = [VoltageSource(a, b, 1, 0)]", ONE, True),
 ("misc line", TXK, REST.format("b") + "n.misc = [Line(b, a, 1, 2, 3, True, 0, 0, 0)]", ONE, True),
 ("nothing", TXK, REST.format("b"), SEP, None),
 ("nothing at all", TXK, "pass", ALONE, None),
 ("loads, generators, slack and shunts", TXK, REST.format("b") + "n.loads = [Load(a, GROUND, p, q, 0, 0, 0), Load(b, GROUND, p, q, 0, 0, 0)]; n.generators = [Generator(a, p, 1, 2, 1, 2, 1, 1, None, None, None), Generator(b, p, 1, 2, 1, 2, 1, 1, None, None, None)]; "
  "n.slack = [Slack(a, 1, 0, 0, 0), Slack(b, 1, 0, 0, 0)]; n.shunts = [Shunt(a, 1, 2, 0, 0, 0, 0, 0, 0, 0), Shunt(b, 1, 2, 0, 0, 0, 0, 0, 0, 0)]; n.voltage_sources = [VoltageSource(a, GROUND, 1, 0), VoltageSource(GROUND, b, 1, 0)]", SEP, None),
 ("closed fuse", DXK, REST.format("b") + 'n.fuses = [Fuse(a, b, m, 5, FuseStatus.GOOD, "A")]', ONE, True),
 ("blown fuse", DXK, REST.format("b") + 'n.fuses = [Fuse(a, b, m, 5, FuseStatus.BLOWN, "A")]', SEP, None),
 ("capacitor to ground", DXK, REST.format("b") + "n.capacitors = [Capacitor(a, GROUND, 4, 2, None, None, None), Capacitor(b, GROUND, 4, 2, None, None, None)]", SEP, None),
 ("capacitor across phases", DXK, REST.format("b") + "n.capacitors = [Capacitor(a, a2, 4, 2, None, None, None)]; n.loads = [Load(b, b2, p, q, 0, 0, 0)]", SEP, None),
 ("regulator", DXK, REST.format("b") + "n.regulators = [Regulator(a, b, m, p, q, RegType.A, RegControl.MANUAL, 1, 2, 16, 16)]", ONE, False),
 ("centre-tap transformer", DXK, REST.format("b") + "n.transformers = [coils(a, m, b)]", ONE, False),
 ("unbalanced line", DXK, REST.format("b") + "n.lines.append(" + UL.format("one", "two") + ")", ONE, True),
 ("unbalanced line reversed", DXK, REST.format("b") + "n.lines.append(" + UL.format("two", "one") + ")", ONE, True),
 ("phases of different buses", DXK, "n.lines = [Line(a, b2, 1, 2, 3, True, 0, 0, 0), Line(b, c2, 1, 2, 3, True, 0, 0, 0)]", ONE, None),
 ("parallel lines and a transformer", DXK, REST.format("b") + "n.lines.append(Line(a, b, 1, 2, 3, True, 0, 0, 0)); n.lines.append(Line(a2, b2, 1, 2, 3, True, 0, 0, 0)); n.transformers = [Transformer(b, GROUND, c, GROUND, 1, 2, True, 1, 30, 0, 0, 5)]", ONE, True),
]


def eng(ctx):
    E = ctx.engine()
    E.cls("logic.graphanalyzer.GraphAnalyzer")
    install(E)
    E.concrete_arrays = True
    E.models["models.components.unbalanced_line.calcInverse"] = lambda a, kw, st, fr: S("Y")
    E.models["numpy.allclose"] = lambda a, kw, st, fr: TRUE
    return E


def text(t, kind, els):
    return t.replace("KIND", kind).replace("ELEMENTS", els)


def deviates(a, b):
    """the two nominal voltages differ by more than 10 (the reference one taken as a whole number)"""
    f = lambda u, w: mk("lt", C(10), mk("abs", arith("sub", w, mk("round", u))))
    return f(a, b), f(b, a)


def canon(t):
    """rounding of the reference voltage and the direction of a difference do not matter; no exception is raised by arithmetic"""
    m = {}
    for x in walk(t):
        if x.op == "exc":
            m[x] = FALSE
        elif x.op == "round":
            m[x] = x.a[0]
    t = subst(t, m)
    m = {}
    for x in walk(t):
        if x.op == "abs" and x.a[0].op == "sub" and x.a[0].a[0].id > x.a[0].a[1].id:
            m[x] = mk("abs", arith("sub", x.a[0].a[1], x.a[0].a[0]))
    return subst(t, m)


def same(a, b):
    return equivalent(canon(a), canon(b))[0] is None


def solving(o):
    return [c for c, v, s in o.raises + o.returns if any(x is mk("ext", "oracle.solve") for t in s.trace for y in flatten(t) for x in walk(y))]


def flatten(t):
    if isinstance(t, T):
        yield t
    elif isinstance(t, (tuple, list)):
        for x in t:
            yield from flatten(x)


def run(ctx):
    for label, kind, els, groups, link in KINDS:
        def islands(label=label, kind=kind, els=els, groups=groups):
            o = client(ctx, text(COUNT, kind, els), E=eng(ctx))
            o.raises = [x for x in o.raises if canon(x[0]) is not FALSE]
            n, isl = items(canon(o.only()))
            ctx.must(f"{label}: number of islands", n is C(len(groups)), W, f"expected {len(groups)} but {show(n, 5)}")
            got = sorted(sorted(x.a[0] for x in items(i)) for i in items(isl))
            ctx.must(f"{label}: members of the islands", got == sorted(sorted(g.split()) for g in groups), W, str(got))
        ctx.section(f"{label}: islands", W, islands)

        def volts(label=label, kind=kind, els=els, link=link):
            o = client(ctx, text(VOLT, kind, els), E=eng(ctx))
            rc = o.raise_cond()
            v = [S("v1"), S("v2"), S("v3")]
            alts = []
            for o1 in (0, 1):
                bc = deviates(v[1], v[2])[o1]
                if not link:
                    alts.append(bc)
                else:
                    # reference is the first bus of the region
                    for ref in range(3):
                        x = [deviates(v[ref], v[k])[0] for k in range(3) if k != ref]
                        alts.append(OR(*x))
            ok = any(same(rc, a) for a in alts)
            ctx.must(f"{label}: rejected exactly when nominal voltages differ inside a region", ok, W, f"raises when {show(rc, 7)[:400]}")
        if link is not None:
            ctx.section(f"{label}: nominal voltages", W, volts)

    def execute(label, kind, els, groups):
        E = eng(ctx)
        E.models["logic.devicecontroller.DeviceController.run_powerflow"] = lambda a, kw, st, fr: E.call(mk("ext", "oracle.solve"), [], {}, st, fr, None) and mk("tuple", *[S(x) for x in ("ok", "v", "it", "tx", "res")])
        E.models["logic.powerflowresults.PowerFlowResults.__init__"] = lambda a, kw, st, fr: NONE
        E.fn("logic.devicecontroller.DeviceController.run_powerflow")
        E.fn("logic.powerflowresults.PowerFlowResults.__init__")
        o = client(ctx, text(RUN, kind, els), E=E)
        if len(groups) > 1:
            ctx.must(f"{label}: a power flow of several islands is refused", not o.returns and o.raises, WE, f"solved when {show(o.return_cond(), 5)[:300]}")
            ctx.must(f"{label}: nothing is solved before the refusal", not solving(o), WE, "solver invoked")
        else:
            E2 = eng(ctx)
            ref = client(ctx, text(VOLT, kind, els), E=E2)
            ctx.must(f"{label}: refused exactly when the nominal voltages are inconsistent", same(o.raise_cond(), ref.raise_cond()), WE, f"raises when {show(o.raise_cond(), 6)[:300]}")
            for c, v, s in o.raises:
                ctx.must(f"{label}: nothing is solved before the refusal", not any(x is mk("ext", "oracle.solve") for t in s.trace for y in flatten(t) for x in walk(y)), WE, "solver invoked")
            ctx.must(f"{label}: a valid network is solved", len(solving(o)) >= 1, WE, "never solved")
    for label, kind, els, groups, link in KINDS:
        if link is not None and link or label in ("nothing", "nothing at all", "open switch", "blown fuse", "transformer"):
            ctx.section(f"{label}: power flow", WE, execute, label, kind, els, groups)
