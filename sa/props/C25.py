"""Time series runs: every hour is solved with that hour's loads, swing power is moved to the negative loads, ratings are judged."""
from ..algebra import *
from ..interp import AnalysisError
from ._cl import *
from .C08 import COMMON

W = "src/logic/network/timeseriesprocessor.py:TimeSeriesProcessor"
HEAD = COMMON + '''
import math
from logic.network.timeseriesprocessor import TimeSeriesProcessor
from logic.network.timeseriessettings import TimeSeriesSettings
from logic.powerflowresults import PowerFlowResults, QuasiTimeSeriesResults, GeneratorResult, BusResult
from oracle import datum, missing, event, given, verdict
class Hours:
    def __init__(self, name):
        self.name = name
    def __getitem__(self, hour):
        if missing(self.name, hour):
            raise KeyError(hour)
        return datum(self.name, hour)
class Frame:
    def __init__(self, names):
        self.columns = names
    def __getitem__(self, name):
        return Hours(name)
class Flow:
    def __init__(self, network):
        self.network = network
'''
NAMES = HEAD + '''
def client():
    n = DxNetworkModel()
    n.loads = [Load(GROUND, GROUND, 1, 2, 0, 0, 0, num, phase) for num, phase in (("7", "A"), ("7", "B"), ("ab", "ABC"), ("9", "1"), ("10", "12"), ("9", "2"), ("5", "A1"))]
    t = TimeSeriesProcessor(TimeSeriesSettings(), Flow(n))
    t.set_load_names()
    return [(k, [x is v for x in n.loads]) for k, v in n.load_name_map.items()]
'''
WANT_NAMES = ["cl_7A", "cl_7B", "cl_abABC", "rl_9_1", "rl_10_1", "rl_9_2", "5_A1"]
VALUES = HEAD + '''
def client(p, q, r, s):
    n = DxNetworkModel()
    n.loads = [Load(GROUND, GROUND, p, q, 3, 4, 5, "7", "A"), Load(GROUND, GROUND, r, s, 0, 0, 0, "8", "1", "A"), Load(GROUND, GROUND, 1, 2, 0, 0, 0, "9", "C")]
    t = TimeSeriesProcessor(TimeSeriesSettings(), Flow(n))
    t.load_data = Frame(["time", "cl_7A", "rl_8_1", "cl_nobody"])
    t.set_load_names()
    got = []
    want = []
    a = math.atan2(q, p)
    b = math.atan2(s, r)
    kept = []
    for h in (4, 5):
        t.set_load_values(h)
        got = got + [(l.P, l.Q) for l in n.loads]
        kept = kept + [[l.Z, l.IP, l.IQ] for l in n.loads]
        if not missing("cl_7A", h):
            p = datum("cl_7A", h) * math.cos(a)
            q = datum("cl_7A", h) * math.sin(a)
        if not missing("rl_8_1", h):
            r = datum("rl_8_1", h) * math.cos(b)
            s = datum("rl_8_1", h) * math.sin(b)
        want = want + [(p, q), (r, s), (1, 2)]
    return (got, want, kept)
'''
REFUSE = HEAD + '''
def client():
    t = TimeSeriesProcessor(TimeSeriesSettings(SETTINGS), Flow(TxNetworkModel()))
    return t.CALL
'''
ADJUST = HEAD + '''
class Found:
    def __init__(self, rows):
        self.generator_results = rows
def client(p, q, r, s, a, b, c, d, e, f, g, h):
    n = DxNetworkModel()
    swing = [Bus(1, 1, 1.0, 0.0, 0, "sw", "A"), Bus(2, 1, 1.0, 0.0, 0, "sw", "B"), Bus(3, 1, 1.0, 0.0, 0, "other", "A")]
    n.slack = [Slack(x, 1, 0, 0, 0) for x in swing]
    n.loads = [Load(GROUND, GROUND, p, q, 3, 4, 5, "7", "A"), Load(GROUND, GROUND, r, s, 0, 0, 0, "8", "1", "B"), Load(GROUND, GROUND, a, b, 0, 0, 0, "9", "A")]
    t = TimeSeriesProcessor(TimeSeriesSettings(artificialswingbus=SWING, negativeloads=NEGATIVE), Flow(n))
    more = t.adjust_generator_output(Found([GeneratorResult(n.slack[0], c, d, "Slack"), GeneratorResult(n.slack[1], e, f, "Slack"), GeneratorResult(n.slack[2], g, h, "Slack")]))
    got = [(l.P, l.Q) for l in n.loads]
    act = ON and not abs(complex(c, d)) + abs(complex(e, f)) < 0.1
    if act:
        p = p + c
        q = q + d
        r = r + e
        s = s + f
    return (more, act, got, [(p, q), (r, s), (a, b)])
'''
RATING = HEAD + '''
class Found:
    def __init__(self, v, network):
        self.v_final = v
        self.network = network
        self.bus_results = []
class Wire:
    def __init__(self, a, b):
        self.a = a
        self.b = b
    def get_nodes(self, state):
        return (self.a, self.b)
class Cable:
    def __init__(self, wires, amps):
        self.wires = wires
        self.ampacities = amps
        self.lines = [w[2] for w in wires]
    def loop_lines(self):
        return [(k, w[0], w[1], w[2]) for k, w in enumerate(self.wires)]
def client(v, limit, g, h, x, y):
    n = DxNetworkModel()
    b = [Bus(k, 1, 1.0, 0.0, 0, str(k), "A") for k in range(6)]
    n.buses = b
    over = False
    TRANSFORMERS
    n.assign_matrix()
    f = Found(v, n)
    VERDICT
    t = TimeSeriesProcessor(TimeSeriesSettings(), Flow(n))
    return (t.violates_equipment_ratings(f), over)
'''
DIFF = "dr = v[b[{0}].node_Vr] - v[b[{1}].node_Vr]; di = v[b[{0}].node_Vi] - v[b[{1}].node_Vi]; amp{2} = abs(complex(dr * {3} - di * {4}, dr * {4} + di * {3}))"
POW = "vr = {0}; vi = {1}; ir = v[n.transformers[0].node_primary_Ir]; ii = v[n.transformers[0].node_primary_Ii]; s = abs(complex(vr * ir + vi * ii, vi * ir - vr * ii))"
RATINGS = {
    "line current": ("pass", "n.lines = [Cable([(g, h, Wire(b[0], b[1]))], [limit])]; " + DIFF.format(0, 1, 1, "g", "h") + "; over = amp1 > limit"),
    "second phase of a line": ("pass", "n.lines = [Cable([(g, h, Wire(b[0], b[1])), (x, y, Wire(b[2], b[3]))], [None, limit])]; " + DIFF.format(2, 3, 1, "x", "y") + "; over = amp1 > limit"),
    "two lines": ("pass", "n.lines = [Cable([(g, h, Wire(b[0], b[1]))], [limit]), Cable([(x, y, Wire(b[2], b[3]))], [7])]; " + DIFF.format(0, 1, 1, "g", "h") + "; " + DIFF.format(2, 3, 2, "x", "y") + "; over = amp1 > limit or amp2 > 7"),
    "line without ampacity": ("pass", "n.lines = [Cable([(g, h, Wire(b[0], b[1]))], [None])]"),
    "transformer power": ("n.transformers = [Transformer(b[1], b[2], b[3], b[4], 1, 2, True, 1, 30, 0, 0, limit)]",
                          POW.format("v[b[1].node_Vr] - v[b[2].node_Vr]", "v[b[1].node_Vi] - v[b[2].node_Vi]") + "; over = limit != None and s > limit"),
    "transformer without rating": ("n.transformers = [Transformer(b[1], b[2], b[3], b[4], 1, 2, True, 1, 30, 0, 0, None)]", "pass"),
    "bus voltage": ("pass", "n.buses[0].V_Nominal = limit; f.bus_results = [BusResult(b[0], g, h, None, None)]; over = abs(abs(complex(g, h)) - limit) / limit >= 0.05"),
    "second bus voltage": ("pass", "f.bus_results = [BusResult(b[0], 1, 0, None, None), BusResult(b[1], g, h, None, None)]; b[0].V_Nominal = 1; b[1].V_Nominal = limit; over = abs(abs(complex(g, h)) - limit) / limit >= 0.05"),
    "nothing to judge": ("pass", "pass"),
}
STEP = HEAD + '''
class Result:
    def __init__(self, n, ok):
        self.n = n
        self.is_success = ok
class Runs:
    def __init__(self, net, ok):
        self.network = net
        self.n = 0
        self.ok = ok
    def execute(self):
        self.n = self.n + 1
        event("solve", self.n)
        return Result(self.n, self.ok)
class Stepper(TimeSeriesProcessor):
    def adjust_generator_output(self, snapshot_results):
        event("adjust", snapshot_results.n)
        return snapshot_results.n < TURNS
    def violates_equipment_ratings(self, snapshot_results):
        event("judge", snapshot_results.n)
        return verdict(snapshot_results.n)
def client(ok):
    t = Stepper(TimeSeriesSettings(), Runs(DxNetworkModel(), ok))
    r = t.execute_powerflow()
    return (r.n, r.violates_equipment_ratings if hasattr(r, "violates_equipment_ratings") else False, ok and verdict(r.n))
'''
SERIES = HEAD + '''
class Result:
    def __init__(self, n):
        self.n = n
    def output(self, outputfilepath):
        event("output", self.n, outputfilepath)
class Stepper(TimeSeriesProcessor):
    n = 0
    def set_load_names(self):
        event("names")
    def set_load_values(self, hour=0):
        event("loads", hour)
        self.hour = hour
    def execute_powerflow(self):
        event("solve", self.hour)
        return Result(self.hour)
def client():
    t = Stepper(TimeSeriesSettings(SETTINGS), Flow(DxNetworkModel()))
    r = t.execute()
    return RESULT
'''


def install(E, there=None):
    E.exact_try = True
    E.while_unroll = 6
    E.models["pandas.read_csv"] = lambda a, k, st, fr: mk("call", mk("ext", "pandas.read_csv"), *a)
    if there is not None:
        E.models["os.path.isfile"] = lambda a, k, st, fr: there
        E.models["os.path.exists"] = lambda a, k, st, fr: there


def go(ctx, text, there=TRUE):
    E = ctx.engine()
    install(E, there)
    return client(ctx, text, E=E)


def run(ctx):
    ctx.section("load names", W + ".set_load_names", names, ctx)
    ctx.section("load values", W + ".set_load_values", values, ctx)
    ctx.section("networks that are not three-phase", W + ".execute", refuse, ctx)
    for label, sw, neg, on in (("both given", '"sw"', '["cl_7", "x_8"]', "True"), ("no swing bus", "None", '["cl_7", "x_8"]', "False"), ("no negative loads", '"sw"', "None", "False")):
        ctx.section(f"generator adjustment, {label}", W + ".adjust_generator_output", adjust, ctx, label, sw, neg, on)
    for label, (tr, ver) in RATINGS.items():
        ctx.section(f"rating: {label}", W + ".violates_equipment_ratings", rating, ctx, label, tr, ver)
    for n in (1, 2, 4):
        ctx.section(f"hour with {n} solves", W + ".execute_powerflow", step, ctx, n)
    ctx.section("hour range", W + ".execute_quasi_time_series", series, ctx)


def names(ctx):
    o = go(ctx, NAMES)
    got = {}
    for row in items(o.only()):
        k, who = items(row)
        got.setdefault(k.a[0] if k.op == "c" else show(k, 4), []).append([i for i, x in enumerate(items(who)) if x is TRUE])
    for k, w in enumerate(WANT_NAMES):
        ctx.must(f"load {k} is known by the name {w}", got.get(w) == [[k]], W + ".get_load_name", str(got)[:200])


def values(ctx):
    o = go(ctx, VALUES)
    got, want, kept = [items(x) for x in items(o.only())]
    for k, (g, w) in enumerate(zip(got, want)):
        h, l = divmod(k, 3)
        who = ["load with data", "triplex load with data", "load without data"][l]
        for nm, a, b in zip("PQ", items(g), items(w)):
            bad, n = compare(b, a)
            ctx.ob(f"hour {h}: {nm} of the {who} is that hour's magnitude at the load's own angle", bad, W + ".set_load_values", n)
    ctx.must("the other load components are left alone", [[y for y in items(x)] for x in kept[:1]] == [[C(3), C(4), C(5)]] and kept[0] is kept[3], W + ".set_load_values", show(kept[0], 5))


def refuse(ctx):
    for label, st, call in (("time series", 'loadfile_name="f.csv", loadfile_start=0, loadfile_end=2', "execute()"), ("swing bus", 'artificialswingbus="sw", negativeloads=["cl_1"]', "execute()"),
                            ("loading an hour", "", "set_load_values(0)")):
        o = go(ctx, REFUSE.replace("SETTINGS", st).replace("CALL", call))
        ctx.must(f"refused on a transmission network: {label}", not o.returns and o.raises, W, "; ".join(show(v, 4)[:100] for c, v, s in o.returns))


def eqbool(ctx, name, where, got, want):
    got, want = TRUTHY(got), TRUTHY(want)
    bad, n = equivalent(want, got, TRUE)
    ctx.ob(name, bad, where, n)


def adjust(ctx, label, sw, neg, on):
    w = W + ".adjust_generator_output"
    o = go(ctx, ADJUST.replace("SWING", sw).replace("NEGATIVE", neg).replace("ON", on))
    more, act, got, want = items(o.only())
    eqbool(ctx, f"{label}: asks for another solve exactly while the swing bus carries power", w, more, act)
    for k, (g, x) in enumerate(zip(items(got), items(want))):
        for nm, a, b in zip("PQ", items(g), items(x)):
            bad, n = compare(b, a)
            ctx.ob(f"{label}: {nm} of {['the negative load', 'the triplex negative load', 'the other load'][k]} takes over its phase's swing power", bad, w, n)


def rating(ctx, label, tr, ver):
    E = ctx.engine()
    install(E)
    E.distinct_syms.add(S("limit"))
    o = client(ctx, RATING.replace("TRANSFORMERS", tr).replace("VERDICT", ver), E=E)
    got, want = items(o.only())
    nn = {ISNONE(S("limit")): FALSE}
    got, want = subst(TRUTHY(got), nn), subst(TRUTHY(want), nn)
    bad, n = equivalent(want, got, TRUE)
    ctx.ob(f"{label}: ratings are violated exactly when a measured quantity exceeds its limit", bad, W + ".violates_equipment_ratings", n)


def evs(st):
    out = []
    for g, e in events(st.trace):
        if e.op == "call" and e.a[0] is mk("ext", "oracle.event"):
            out.append((g, [x.a[0] if x.op == "c" else show_text(text_parts(x)) if x.op in ("fstr", "s") else x for x in e.a[1:]]))
    return out


def step(ctx, n):
    w = W + ".execute_powerflow"
    o = go(ctx, STEP.replace("TURNS", str(n)))
    k, got, want = items(o.only())
    ctx.must(f"{n} solves: the last result is returned", k is C(n), w, show(k, 4))
    eqbool(ctx, f"{n} solves: the rating verdict is recorded for successful results only", w, got, want)
    tr = [e for g, e in evs(o.returns[0][2]) if e[0] in ("solve", "adjust")]
    must = [x for i in range(1, n + 1) for x in (["solve", i], ["adjust", i])]
    ctx.must(f"{n} solves: every solve is followed by an adjustment of its own result", tr == must, w, str(tr)[:200])


def series(ctx):
    w = W + ".execute_quasi_time_series"
    for label, st, hours, out in (("start and end", 'loadfile_name="f.csv", loadfile_start="3", loadfile_end="6"', [3, 4, 5], False), ("start at zero", 'loadfile_name="f.csv", loadfile_end=2, outputfile="out"', [0, 1], True),
                                  ("empty range", 'loadfile_name="f.csv", loadfile_start=2, loadfile_end=2', [], False)):
        o = go(ctx, SERIES.replace("SETTINGS", st).replace("RESULT", "[(h, x.n) for h, x in r.powerflow_snapshot_results.items()]"))
        v = [[y for y in items(x)] for x in items(o.only())]
        ctx.must(f"{label}: one result per hour of the range, under its hour", v == [[C(h), C(h)] for h in hours], w, show(o.only(), 5))
        tr = evs(o.returns[0][2])
        ctx.must(f"{label}: nothing is conditional", all(g is TRUE for g, e in tr), w)
        tr = [e for g, e in tr]
        ctx.must(f"{label}: loads are named before any hour", tr[:1] == [["names"]] or not hours, w, str(tr)[:100])
        ctx.must(f"{label}: every hour is solved with its own loads", [e for e in tr if e[0] in ("loads", "solve")] == [x for h in hours for x in (["loads", h], ["solve", h])], w, str(tr)[:300])
        ctx.must(f"{label}: every hour is written under its own name", [e for e in tr if e[0] == "output"] == [["output", h, f"out_{h}"] for h in hours if out], w, str(tr)[:300])
    o = go(ctx, SERIES.replace("SETTINGS", 'loadfile_name="f.csv", loadfile_end=2').replace("RESULT", "1"), FALSE)
    ctx.must("a load file that does not exist is refused", not o.returns and o.raises, w)
    o = go(ctx, SERIES.replace("SETTINGS", 'artificialswingbus="sw"').replace("RESULT", "r.n").replace("hour=0):", "hour=0):\n        self.hour = hour").replace("n = 0\n", "n = 0\n    hour = 77\n"))
    tr = [e for g, e in evs(o.returns[0][2])]
    ctx.must("a swing bus without a load file is one solve", o.only() is C(77) and tr == [["solve", 77]], W + ".execute", str(tr)[:200])
    o = go(ctx, SERIES.replace("SETTINGS", "").replace("RESULT", "r"))
    ctx.must("without load file and swing bus nothing is done here", o.only() is NONE and not evs(o.returns[0][2]), W + ".execute", show(o.only(), 4))
