"""Command line and settings: every option reaches its destination, a plain run is neutral, files reach their parser."""
from ..algebra import *
from ..interp import AnalysisError
from ._cl import *
from .C08 import COMMON

W = "src/run_solver.py:main"
WS = "src/logic/powerflowsettings.py:PowerFlowSettings"
WT = "src/logic/network/timeseriessettings.py:TimeSeriesSettings"
WN = "src/logic/network/networkloader.py:NetworkLoader"
ARGS = '''
class Namespace:
    pass
class Parser:
    def __init__(self, *a, **kw):
        self.args = []
    def add_argument(self, *flags, action="store", default=None, nargs=None, required=False, dest=None, type=None, help=None, metavar=None, choices=None, const=None):
        if action == "store_true" and default is None:
            default = False
        if action == "store_false" and default is None:
            default = True
        name = dest
        if name is None:
            long = [f for f in flags if f.startswith("--")]
            name = (long[0][2:] if len(long) > 0 else flags[0]).replace("-", "_")
        self.args.append((flags, name, action, default, nargs, type))
    def parse_args(self, argv=None):
        ns = Namespace()
        given = GIVEN
        several = SEVERAL
        seen = []
        for flags, name, action, default, nargs, type in self.args:
            hit = [f for f in flags if f in given]
            if len(hit) == 0:
                setattr(ns, name, default)
            elif action == "store_true":
                setattr(ns, name, True)
            elif action == "store_false":
                setattr(ns, name, False)
            elif (nargs == "+" or nargs == "*") != (hit[0] in several):
                raise SystemExit(2)
            elif type is not None:
                setattr(ns, name, type(given[hit[0]]))
            else:
                setattr(ns, name, given[hit[0]])
            seen = seen + hit
        for g in given:
            if g not in seen:
                raise SystemExit(2)
        return ns
'''
MAIN = COMMON + ARGS + '''
from run_solver import main
from oracle import event, series, event_list
class Result:
    def __init__(self, kind):
        self.kind = kind
    def display(self, verbose=False):
        event("display", self.kind, verbose)
    def output(self, outputfilepath):
        event("output", self.kind, outputfilepath)
def setting(s):
    return [s.debug, s.max_iters, s.flat_start, s.tx_stepping, s.voltage_limiting, s.dump_matrix, s.device_control, s.tolerance, s.enable_line_capacitance]
def net_of(settings, uri):
    n = NETKIND()
    b1 = Bus(3, 1, 1.0, 0.0, 0, "one", "A")
    n.buses = [b1]
    n.slack = [Slack(b1, 1, 0, 0, 0)]
    n.loads = [Load(b1, GROUND, P1, Q1, 0, 0, 0, "7", "A"), Load(b1, GROUND, 3, 4, 0, 0, 0, "8", "A")]
    event("load file", uri, setting(settings), settings.load_factor)
    return n
def solve(pf):
    n = pf.network
    event("solve", [(l.P, l.Q) for l in n.loads], n.optimization is not None and [c.bus.Bus for c in n.optimization.infeasibility_currents], setting(pf.settings))
    return Result("plain")
def made(s):
    event("series", s.loadfile_name, s.loadfile_start, s.loadfile_end, s.artificialswingbus, s.negativeloads, s.select_island, s.outputfile)
def ran(pf):
    n = pf.network
    event("series run", [(l.P, l.Q) for l in n.loads], n.optimization is not None and [c.bus.Bus for c in n.optimization.infeasibility_currents], setting(pf.settings))
    OUTCOME
def client(CASE, P1, Q1, lf, f, a, b, o, sb, n1, n2, isl):
    main()
    return 1
'''
NEUTRAL = dict(debug=FALSE, max_iters=C(50), flat_start=FALSE, tx_stepping=FALSE, voltage_limiting=FALSE, dump_matrix=FALSE, device_control=TRUE, tolerance=C(1e-5), enable_line_capacitance=TRUE)
SCEN = [
    # label, options, expected changes
    ("case only", {}, {}),
    ("--debug", {"--debug": "True"}, dict(debug=TRUE)),
    ("--tx_stepping", {"--tx_stepping": "True"}, dict(tx_stepping=TRUE)),
    ("--verbose", {"--verbose": "True"}, dict(verbose=TRUE)),
    ("--infeasibility", {"--infeasibility": "True"}, dict(opt=True)),
    ("--load_factor", {"--load_factor": "lf"}, dict(factor=True)),
    ("--outputfile", {"--outputfile": "o"}, dict(out=True)),
    ("every flag", {"--debug": "True", "--tx_stepping": "True", "--verbose": "True", "--infeasibility": "True", "--load_factor": "lf", "--outputfile": "o"}, dict(debug=TRUE, tx_stepping=TRUE, verbose=TRUE, opt=True, factor=True, out=True)),
    ("--loadfile", {"--loadfile": "f", "--loadstart": "a", "--loadend": "b"}, dict(file=True, start=True, end=True)),
    ("--artificialswingbus and --negativeloads", {"--artificialswingbus": "sb", "--negativeloads": "[n1, n2]"}, dict(swing=True, neg=True)),
    ("--select_island", {"--select_island": "isl", "--artificialswingbus": "sb"}, dict(isl=True, swing=True)),
    ("series options with scaling", {"--loadfile": "f", "--loadstart": "a", "--loadend": "b", "--load_factor": "lf", "--infeasibility": "True", "--outputfile": "o", "--tx_stepping": "True"}, dict(file=True, start=True, end=True, factor=True, opt=True, out=True, tx_stepping=TRUE)),
]
OUT = {"none": "return None", "result": 'return Result("series")', "failure": 'raise Exception("no series")'}


def model(E, name):
    def f(args, kw, st, fr):
        m = [x for x in E.mods.values() if x.name.startswith("client")][-1]
        return E.call(E.modattr(m, name), args, kw, st, fr, None)
    return f


def analyse(ctx, netkind, given, outcome):
    E = ctx.engine()
    E.exact_try = E.strict_attr = True
    for q in ("logic.network.networkloader.NetworkLoader", "logic.powerflow.PowerFlow", "logic.network.timeseriesprocessor.TimeSeriesProcessor", "logic.powerflowsettings.PowerFlowSettings"):
        E.cls(q)
    for q in ("logic.network.networkloader.NetworkLoader.from_file", "logic.powerflow.PowerFlow.execute", "logic.network.timeseriesprocessor.TimeSeriesProcessor.__init__", "logic.network.timeseriesprocessor.TimeSeriesProcessor.execute"):
        E.fn(q)
    E.models["argparse.ArgumentParser"] = model(E, "Parser")

    def load(args, kw, st, fr):
        s = E.getattr(args[0], "settings", st, fr)
        return model(E, "net_of")([s] + list(args[1:]), kw, st, fr)
    E.models["logic.network.networkloader.NetworkLoader.from_file"] = load
    E.models["logic.powerflow.PowerFlow.execute"] = model(E, "solve")

    def init(args, kw, st, fr):
        s = args[1] if len(args) > 1 else kw["settings"]
        pf = args[2] if len(args) > 2 else kw["powerflow"]
        E.setattr(args[0], "powerflow", pf, st, fr)
        return model(E, "made")([s], {}, st, fr)
    if outcome != "real":
        E.models["logic.network.timeseriesprocessor.TimeSeriesProcessor.__init__"] = init
        E.models["logic.network.timeseriesprocessor.TimeSeriesProcessor.execute"] = lambda a, kw, st, fr: model(E, "ran")([E.getattr(a[0], "powerflow", st, fr)], kw, st, fr)
    text = MAIN.replace("NETKIND", netkind).replace("OUTCOME", OUT.get(outcome, "return None"))
    g = {"case": "CASE"}
    g.update(given)
    text = text.replace("GIVEN", "args_given").replace("def client(", "def client(").replace("class Namespace", "class Given:\n    pass\nclass Namespace")
    # the command line is a module-level table of symbols
    text = text.replace("given = args_given", "given = {" + ", ".join(f'"{k}": ' + word(v) for k, v in g.items()) + "}")
    text = text.replace("SEVERAL", repr([k for k, v in given.items() if v.startswith("[")]))
    text = text.replace("P1, Q1, 0, 0, 0", "num_p, num_q, 0, 0, 0")
    text = text.replace("from oracle import event, series, event_list", "from oracle import event, case_word, lf_word, f_word, a_word, b_word, o_word, sb_word, n1_word, n2_word, isl_word, num_p, num_q")
    o = client(ctx, text, E=E)
    o.only()
    out = []
    for c, v, s in o.returns:
        for g, e in events(s.trace):
            if e.op == "call" and e.a[0].op == "ext" and e.a[0].a[0] == "oracle.event":
                out.append((g, [x for x in e.a[1:]]))
    return out


PF = ["tolerance", "max_iters", "voltage_limiting", "debug", "flat_start", "tx_stepping", "dump_matrix", "device_control", "load_factor", "enable_line_capacitance"]
TS = ["loadfile_name", "loadfile_start", "loadfile_end", "artificialswingbus", "negativeloads", "loadfactor", "select_island", "outputfile"]
PFD = dict(tolerance=C(1e-5), max_iters=C(50), voltage_limiting=FALSE, debug=FALSE, flat_start=FALSE, tx_stepping=FALSE, dump_matrix=FALSE, device_control=TRUE, load_factor=NONE, enable_line_capacitance=TRUE)
TSD = dict(loadfile_name=NONE, loadfile_start=ZERO, loadfile_end=ZERO, artificialswingbus=NONE, negativeloads=NONE, loadfactor=NONE, select_island=FALSE, outputfile=NONE)


def settings_kept(ctx):
    for w, mod, cls, names, dflt in ((WS, "logic.powerflowsettings", "PowerFlowSettings", PF, PFD), (WT, "logic.network.timeseriessettings", "TimeSeriesSettings", TS, TSD)):
        src = f"from {mod} import {cls}\n"
        num = lambda n: f"str({n})" if n in ("loadfile_start", "loadfile_end") else n
        for how in ("all", "none") + tuple(names):
            given = names if how == "all" else [] if how == "none" else [how]
            text = src + f"def client({', '.join(names)}):\n    s = {cls}({', '.join(f'{n}={n}' for n in given)})\n    return [{', '.join('s.' + n for n in names)}]\n"
            o = client(ctx, text, distinct=[])
            for n, x in zip(names, items(o.only())):
                lab = f"{cls}({'...' if how == 'all' else ', '.join(given)}): {n}"
                if n not in given:
                    ctx.ob(lab + " has its default", compare(dflt[n], x), w)
                elif n in ("loadfile_start", "loadfile_end"):
                    ss = {q.a[0] for q in walk(x) if q.op == "s"}
                    ctx.must(lab + " is the given number, none meaning 0", ss == {n} and (x is mk("int", S(n)) or any(q is mk("int", S(n)) for q in walk(x))), w, show(x, 6))
                else:
                    ctx.must(lab + " is kept", x is S(n), w, show(x, 6))


LOAD = ARGS.split("class Parser")[0] + '''
from logic.network.networkloader import NetworkLoader
from logic.powerflowsettings import PowerFlowSettings
from oracle import event, code, given_settings, thing
class Reply:
    def getcode(self):
        return code(0)
    @property
    def status(self):
        return code(0)
    @property
    def code(self):
        return code(0)
def urlopen(uri, *a):
    event("open", uri)
    return Reply()
def urlretrieve(uri, path=None, *a):
    event("retrieve", uri, path)
    return ("/tmp/fetched" + EXT, None)
class Grid:
    pass
def parse_glm(path, settings):
    event("glm", path, settings)
    g = Grid()
    g.tag = "glm"
    return g
def parse_raw(path):
    event("raw", path)
    return {"buses": [thing("buses")], "loads": [thing("loads")], "slack": [thing("slack")], "generators": [thing("generators")], "xfmrs": [thing("xfmrs")], "branches": [thing("branches")], "shunts": [thing("shunts")], "other": 1}
def client():
    s = PowerFlowSettings(tolerance=given_settings)
    n = NetworkLoader(s).from_file(URI)
    if n.__class__ is Grid:
        return "glm"
    return (n.is_three_phase, n.buses, n.loads, n.slack, n.generators, n.transformers, n.lines, n.shunts, n.switches, n.voltage_sources, n.misc)
'''


def load_case(ctx, uri, local, code, ext=""):
    E = ctx.engine()
    E.exact_try = True
    E.fn("logic.network.networkloader.NetworkLoader.from_file")
    E.models["os.path.isfile"] = lambda a, k, st, fr: C(local)
    E.models["os.path.exists"] = lambda a, k, st, fr: C(local)
    E.models["urllib.request.urlopen"] = model(E, "urlopen")
    E.models["urllib.request.urlretrieve"] = model(E, "urlretrieve")
    E.models["oracle.code"] = lambda a, k, st, fr: C(code)
    E.models["oracle.thing"] = lambda a, k, st, fr: mk("call", mk("ext", "oracle.thing"), *a)
    E.cls("logic.network.parsers.threephase.threephaseparser.ThreePhaseParser")

    def init(a, kw, st, fr):
        names = ["input_file", "settings"]
        vals = list(a[1:]) + [kw[n] for n in names[len(a) - 1:] if n in kw]
        model(E, "note")(vals, {}, st, fr)
        return NONE
    E.models["logic.network.parsers.threephase.threephaseparser.ThreePhaseParser.__init__"] = init
    E.models["logic.network.parsers.threephase.threephaseparser.ThreePhaseParser.parse"] = lambda a, k, st, fr: model(E, "grid")([], {}, st, fr)
    E.models["logic.network.parsers.raw.parser.parse_raw"] = model(E, "parse_raw")
    text = LOAD.replace("URI", repr(uri)).replace("EXT", repr(ext)).replace("def parse_glm(path, settings):\n    event(\"glm\", path, settings)\n", "def note(path, settings):\n    event(\"glm\", path, settings.tolerance)\ndef grid():\n")
    text = text.replace('if n.__class__ is Grid:', 'if isinstance(n, Grid):')
    o = client(ctx, text, E=E)
    ev = []
    for c, v, s in o.returns:
        ev += [(str(e.a[1].a[0]), list(e.a[2:])) for g, e in events(s.trace) if e.op == "call" and e.a[0].op == "ext" and e.a[0].a[0] == "oracle.event"]
    return o, ev


def loading(ctx):
    thing = lambda n: [mk("call", mk("ext", "oracle.thing"), C(n))]
    for label, uri, local, code, ext in (("local", None, True, 200, None), ("http", "http://host.example/dir/", False, 200, ""), ("https", "https://host.example/", False, 200, "")):
        for kind in (".glm", ".RAW"):
            p = (uri or "some/dir/") + "case" + kind
            o, ev = load_case(ctx, p, local, code, kind)
            v = o.only()
            path = p if local else "/tmp/fetched" + kind
            lab = f"{label} {kind} file"
            ctx.must(f"{lab}: fetched from the given place only", [a[0].a[0] for k, a in ev if k == "retrieve"] == ([] if local else [p]), WN, str(ev)[:200])
            reads = [(k, a) for k, a in ev if k in ("glm", "raw")]
            ctx.must(f"{lab}: read once by the parser of its format", [k for k, a in reads] == [kind[1:].lower()] and reads[0][1][0] is C(path), WN, str(reads)[:200])
            if kind == ".glm":
                ctx.must(f"{lab}: with the given settings", reads and reads[0][1][1] is mk("ext", "oracle.given_settings"), WN, str(reads)[:200])
                ctx.must(f"{lab}: the parsed network is returned", v is C("glm"), WN, show(v, 4))
            else:
                ctx.must(f"{lab}: a transmission network is returned", items(v)[0] is FALSE, WN)
                names = ["buses", "loads", "slack", "generators", "xfmrs", "branches", "shunts"]
                for n, x in zip(names, items(v)[1:]):
                    ctx.must(f"{lab}: its {n} are those read", items(x) == thing(n), WN, show(x, 5))
                ctx.must(f"{lab}: nothing else is in it", all(not items(x) for x in items(v)[8:]), WN)
    for label, uri, local, code, ext in (("unknown format", "some/case.txt", True, 200, ""), ("no such file", "some/case.glm", False, 200, ""), ("no such raw file", "C:/case.RAW", False, 200, ""), ("unknown protocol", "ftp://host.example/case.glm", False, 200, ".glm"), ("failed download", "http://host.example/case.glm", False, 404, ".glm"), ("unknown format fetched", "http://host.example/case.m", False, 200, ".m")):
        o, ev = load_case(ctx, uri, local, code, ext)
        ctx.must(f"{label} is refused", not o.returns and o.raises, WN, "accepted")


def word(v):
    if v.startswith("["):
        return "[" + ", ".join(word(x.strip()) for x in v[1:-1].split(",")) + "]"
    return v if v == "True" else {"CASE": "case_word"}.get(v, v + "_word")


def run(ctx):
    ctx.section("settings", WS, settings_kept, ctx)
    ctx.section("loading", WN, loading, ctx)
    W_ = lambda n: mk("ext", "oracle." + n)
    for netkind in ("TxNetworkModel", "DxNetworkModel"):
        for label, given, exp in SCEN:
            series = any(k in exp for k in ("file", "swing"))
            for outcome in (("result", "none", "failure") if series else ("real", "none")):
                def one(netkind=netkind, label=label, given=given, exp=exp, outcome=outcome):
                    lab = f"{label} ({netkind}" + (f", series {outcome})" if outcome != "real" else ")")
                    ev = analyse(ctx, netkind, given, outcome)
                    ctx.must(f"{lab}: nothing depends on values", all(g is TRUE for g, e in ev), W, "; ".join(show(g, 3) for g, e in ev if g is not TRUE)[:200])
                    ev = [e for g, e in ev]
                    kinds = [e[0].a[0] for e in ev]
                    want = ["load file"]
                    if outcome != "real":
                        want += ["series", "series run"]
                    want += ["display"] if outcome == "result" else ["solve", "display", "output"]
                    ctx.must(f"{lab}: sequence of steps", kinds == want, W, ", ".join(map(str, kinds)))
                    st = {k: exp.get(k, v) for k, v in NEUTRAL.items()}

                    def settings(name, t):
                        for (k, x), y in zip(st.items(), items(t)):
                            ctx.ob(f"{lab}: {name} with {k}", compare(x, y), W)

                    def network(name, e):
                        fac = conv(W_("lf_word")) if "factor" in exp else ONE
                        for k, (l, pq) in enumerate(zip(items(e[1]), ((W_("num_p"), W_("num_q")), (C(3), C(4))))):
                            for which, x, y in zip(("active", "reactive"), items(l), pq):
                                ctx.ob(f"{lab}: {name} with {which} power of load {k + 1} scaled once", compare(arith("mul", y, fac), x), W)
                        want = e[2].op in ("box", "tuple") and [x.a[0] for x in items(e[2])] == [3] if "opt" in exp else e[2] is FALSE
                        ctx.must(f"{lab}: {name} with{'' if 'opt' in exp else 'out'} infeasibility currents", want, W, show(e[2], 5))
                        settings(name, e[3])
                    for e in ev:
                        k = e[0].a[0]
                        if k == "load file":
                            ctx.must(f"{lab}: the given case is loaded", e[1] is W_("case_word"), W, show(e[1], 4))
                            settings("case loaded", e[2])
                        elif k == "solve":
                            network("solved", e)
                        elif k == "series run":
                            network("series run", e)
                        elif k == "series":
                            src = [("file", "f", NONE), ("start", "a", ZERO), ("end", "b", ZERO), ("swing", "sb", NONE), ("neg", None, NONE), ("isl", "isl", FALSE), ("out", "o", NONE)]
                            for (n, sy, dflt), x in zip(src, e[1:]):
                                if n not in exp:
                                    ctx.must(f"{lab}: series {n} is off", x is dflt, W, show(x, 4))
                                elif n == "neg":
                                    ctx.must(f"{lab}: series {n}", items(x) == [W_("n1_word"), W_("n2_word")], W, show(x, 4))
                                elif n in ("start", "end"):
                                    ctx.must(f"{lab}: series {n} is the given number", any(q is W_(sy + "_word") for q in walk(x)) and not any(q.op == "ext" and q.a[0].endswith("_word") and q is not W_(sy + "_word") for q in walk(x)), W, show(x, 5))
                                else:
                                    ctx.must(f"{lab}: series {n}", x is W_(sy + "_word"), W, show(x, 4))
                        elif k == "display":
                            ctx.must(f"{lab}: the result shown is the one obtained", e[1].a[0] == ("series" if outcome == "result" else "plain"), W, show(e[1]))
                            if outcome != "result":
                                ctx.must(f"{lab}: verbosity as requested", e[2] is exp.get("verbose", FALSE), W, show(e[2]))
                        elif k == "output":
                            ctx.must(f"{lab}: written to the given file", e[1].a[0] == "plain" and e[2] is (W_("o_word") if "out" in exp else NONE), W, show(e[2]))
                ctx.section(f"{label} {netkind} {outcome}", W, one)


def conv(t):
    return mk("float", t)
