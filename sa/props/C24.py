"""Reported results are the quantities of the solved network."""
from ..algebra import *
from ..interp import AnalysisError
from ._cl import *
from .C08 import COMMON

W = "src/logic/powerflowresults.py:PowerFlowResults"
WT = "src/logic/powerflowresults.py:TransformerResult"
TXT = COMMON + '''
import math
import cmath
from logic.powerflowresults import *
from logic.powerflowsettings import PowerFlowSettings
class Res:
    def __init__(self, m, i):
        self.max_residual = m
        self.max_residual_idx = i
        self.residuals = [m, i]
        self.residual_contributions = []
def net(p, q):
    n = KIND()
    b1 = Bus(11, 1, 1.0, 0.0, 0, "one", "A")
    b2 = Bus(12, 1, 1.0, 0.0, 0, "two", "A", True)
    b3 = Bus(13, 1, 1.0, 0.0, 0, "three", "B")
    n.buses = [b1, b2, b3]
    n.loads = [Load(b3, GROUND, p, q, 0, 0, 0), Load(b1, b3, q, p, 0, 0, 0)]
    n.slack = [Slack(b1, 1, 0, 0, 0)]
    n.generators = [Generator(b3, p, 1, 2, 1, 2, 1, 1, None, None, None), Generator(b1, q, 1, 2, 1, 2, 1, 1, None, None, None)]
    n.optimization = OPT
    n.assign_matrix()
    return n
def results(v, ok, p, q, its, tx, sec, m, i):
    n = net(p, q)
    return (n, PowerFlowResults(ok, its, tx, sec, n, v, PowerFlowSettings(), Res(m, i)))
'''
ARGS = "v, ok, p, q, its, tx, sec, m, i"
VALUES = TXT + f'''
def client({ARGS}):
    n, r = results({ARGS})
    b1, b2, b3 = n.buses
    g1, g2 = n.generators
    s = n.slack[0]
    l1, l2 = n.loads
    buses = []
    for x, b in zip(r.bus_results, [b1, b3]):
        z = complex(v[b.node_Vr], v[b.node_Vi])
        buses.append((x.bus is b, [x.V_r, x.V_i, x.V, x.V_mag, x.V_deg], [v[b.node_Vr], v[b.node_Vi], z, abs(z), 0 if abs(z) < 1e-8 else cmath.phase(z) * 180 / math.pi],
                      x.lambda_r, x.lambda_i, v[b.node_lambda_Vr] if n.optimization != None else None, v[b.node_lambda_Vi] if n.optimization != None else None))
    sr = v[s.get_slack_Ir_index()]
    si = v[s.get_slack_Ii_index()]
    vr = v[b1.node_Vr]
    vi = v[b1.node_Vi]
    want = [(g1, -p, v[g1.get_Q_index()], "PV"), (g2, -q, v[g2.get_Q_index()], "PV"), (s, vr * sr + vi * si, vi * sr - vr * si, "Slack")]
    rest = [x for x in r.generator_results if x.type_str != "Inf"]
    gens = []
    for g, P, Q, kind in want:
        y = [x for x in rest if x.generator is g]
        gens.append((len(y), [[x.P, x.Q] for x in y], [x.type_str for x in y], [P, Q], kind))
    loads = []
    for l, P, Q in ((l1, p, q), (l2, q, p)):
        y = [x for x in r.load_results if x.load is l]
        loads.append((len(y), [[x.P, x.Q] for x in y], [P, Q]))
    kept = [r.is_success, r.iterations, r.tx_percent, r.duration_sec, r.v_final, r.max_residual, r.residuals.max_residual_idx, r.network is n]
    return (len(r.bus_results), buses, len(rest), gens, len(r.load_results), loads, kept)
'''
INF = TXT + f'''
def client({ARGS}):
    n, r = results({ARGS})
    cs = n.optimization.infeasibility_currents
    ys = [x for x in r.generator_results if x.type_str == "Inf"]
    ents = []
    for c in cs:
        y = [x for x in ys if x.generator is c]
        ents.append((len(y), [[x.P, x.Q] for x in y], CURRENTS, v[c.bus.node_Vr], v[c.bus.node_Vi]))
    return (len(ys), ents, r.infeasibility_totals, n.optimization != None)
'''
OUT = TXT + f'''
def client({ARGS}, path, over):
    n, r = results({ARGS})
    FLAG
    r.output(path)
    rows = []
    for b in n.buses:
        if b.IsVirtual == False:
            z = complex(v[b.node_Vr], v[b.node_Vi])
            d = 0 if abs(z) < 1e-8 else cmath.phase(z) * 180 / math.pi
            rows.append(f"{{b.Bus}},{{b.NodeName}}:{{b.NodePhase}},{{abs(z):.3f}},{{d:.3f}}")
    power = []
    for x in r.generator_results:
        power.append(f"{{x.generator.bus.Bus}},{{x.type_str}},{{x.P:.2f}},{{x.Q:.2f}}")
    for x in r.load_results:
        power.append(f"{{x.load.from_bus.NodeName}},{{x.type_str}},{{x.P:.2f}},{{x.Q:.2f}}")
    return (rows, power)
'''
SHOW = TXT + f'''
def client({ARGS}):
    n, r = results({ARGS})
    r.display(VERBOSE)
    return ([str(x) for x in r.bus_results], [str(x) for x in r.generator_results], [str(x) for x in r.load_results])
'''
SERIES = TXT + '''
from oracle import write, show
class Snap:
    def __init__(self, x):
        self.x = x
    def output(self, outputfilepath):
        write(self.x, outputfilepath)
    def display(self, verbose=False):
        show(self.x, verbose)
def client(one, two, path, verbose):
    r = QuasiTimeSeriesResults()
    r.add_powerflow_snapshot_results(7, Snap(one))
    r.add_powerflow_snapshot_results(8, Snap(two))
    r.display(verbose)
    r.output(path)
    return [(k, x.x) for k, x in r.powerflow_snapshot_results.items()]
'''
TRANSFORMER = TXT + '''
def client(v):
    n = DxNetworkModel()
    b = [Bus(k, 1, 1.0, 0.0, 0, str(k), "A") for k in range(5)]
    n.buses = b
    t = Transformer(b[1], NEG, b[3], b[4], 1, 2, True, 1, 30, 0, 0, 5)
    n.transformers = [t]
    n.assign_matrix()
    class Snapshot:
        v_final = v
    r = TransformerResult(t, Snapshot())
    vr = v[b[1].node_Vr] - (v[NEG.node_Vr] if NEG.node_Vr != None else 0)
    vi = v[b[1].node_Vi] - (v[NEG.node_Vi] if NEG.node_Vi != None else 0)
    ir = v[t.node_primary_Ir]
    ii = v[t.node_primary_Ii]
    return ([r.get_P(), r.get_Q()], [vr * ir + vi * ii, vi * ir - vr * ii])
'''
TAP = TXT + '''
def client(v):
    n = DxNetworkModel()
    b = [Bus(k, 1, 1.0, 0.0, 0, str(k), "A") for k in range(6)]
    n.buses = b
    k0 = CenterTapTransformerCoil(1, 2, None, 1, 2, 3)
    k1 = CenterTapTransformerCoil(1, 2, None, 1, 2, 3)
    k2 = CenterTapTransformerCoil(1, 2, None, 1, 2, 3)
    k0.from_node = b[0]
    k0.primary_node = b[1]
    k1.sending_node = b[2]
    k1.to_node = b[3]
    k2.sending_node = b[4]
    k2.to_node = b[5]
    t = CenterTapTransformer(k0, k1, k2, "A", 2, 3, 0, 0)
    n.transformers = [t]
    n.assign_matrix()
    class Snapshot:
        v_final = v
    r = CenterTapTransformerResult(t, Snapshot())
    P = 0
    Q = 0
    for k, ir, ii in ((2, t.node_L1_Ir, t.node_L1_Ii), (4, t.node_L2_Ir, t.node_L2_Ii)):
        P = P + v[b[k].node_Vr] * v[ir] + v[b[k].node_Vi] * v[ii]
        Q = Q + v[b[k].node_Vi] * v[ir] - v[b[k].node_Vr] * v[ii]
    return ([r.get_P(), r.get_Q()], [P, Q])
'''
OPTS = {"no optimisation": "None", "L2": "L2InfeasibilityOptimization(n.buses)", "L1": "L1InfeasibilityOptimization(n.buses)"}
CUR = {"L2": "[v[c.node_Ir_inf], v[c.node_Ii_inf]]", "L1": "[v[c.node_Ir_plus_inf] - v[c.node_Ir_minus_inf], v[c.node_Ii_plus_inf] - v[c.node_Ii_minus_inf]]"}


def fill(text, kind="DxNetworkModel", opt="None", **kw):
    text = text.replace("KIND", kind).replace("OPT", opt)
    for k, v in kw.items():
        text = text.replace(k, v)
    return text


def same(a, b):
    return a is b or not compare(a, b)[0]


def pairs(ctx, name, where, got, want):
    bad, n = None, 0
    if len(got) != len(want):
        bad = f"{len(got)} values instead of {len(want)}"
    for g, w in zip(got, want):
        b, k = compare(w, g)
        n += k
        if b:
            bad = b
    ctx.ob(name, bad, where, n)


def run(ctx):
    for kind in ("DxNetworkModel", "TxNetworkModel"):
        for label, opt in OPTS.items():
            ctx.section(f"results of a {kind} with {label}", W, values, ctx, kind, label, opt)
    for label in ("L2", "L1"):
        ctx.section(f"infeasibility power {label}", W + ".try_load_infeasibility_data", infeasible, ctx, label)
    ctx.section("infeasibility without optimisation", W, none, ctx)
    for label, flag in (("the rating verdict absent", "pass"), ("the rating verdict given", "r.violates_equipment_ratings = over")):
        ctx.section(f"result files with {label}", W + ".output", files, ctx, label, flag)
    for verbose in ("False", "True"):
        ctx.section(f"display verbose={verbose}", W + ".display", display, ctx, verbose)
    ctx.section("time series results", "src/logic/powerflowresults.py:QuasiTimeSeriesResults", series, ctx)
    for label, neg in (("across two buses", "b[2]"), ("to ground", "GROUND")):
        ctx.section(f"transformer power {label}", WT, trafo, ctx, TRANSFORMER.replace("NEG", neg), f"transformer {label}")
    ctx.section("centre-tap transformer power", WT, trafo, ctx, TAP, "centre-tap transformer secondaries")


def values(ctx, kind, label, opt):
    o = client(ctx, fill(VALUES, kind, opt))
    nb, buses, ng, gens, nl, loads, kept = items(o.only())
    pre = f"{kind}, {label}: "
    ctx.must(pre + "one voltage result per bus that is not virtual", nb is C(2) and len(items(buses)) == 2, W, show(nb, 4))
    for k, row in zip(("first", "last"), items(buses)):
        own, got, want, lr, li, wr, wi = items(row)
        ctx.must(pre + f"the {k} voltage result belongs to its bus", own is TRUE, W, show(own, 4))
        pairs(ctx, pre + f"{k} bus: rectangular and polar voltage of the solution", W, items(got), items(want))
        ctx.must(pre + f"{k} bus: multipliers of the solution", lr is wr and li is wi, W, f"{show(lr, 4)}, {show(li, 4)}")
    ctx.must(pre + "one power result per generator and slack", ng is C(3), W, show(ng, 4))
    for who, row in zip(("first generator", "second generator", "slack"), items(gens)):
        cnt, pq, typ, want, k = items(row)
        if not ctx.must(pre + f"{who} is reported once, by its kind", cnt is C(1) and items(typ)[0] is k, W, f"{show(cnt, 3)} {show(typ, 4)}"):
            continue
        pairs(ctx, pre + f"{who}: complex power of the solution", W, items(items(pq)[0]), items(want))
    ctx.must(pre + "one power result per load", nl is C(2), W, show(nl, 4))
    for who, row in zip(("first", "second"), items(loads)):
        cnt, pq, want = items(row)
        if ctx.must(pre + f"{who} load is reported once", cnt is C(1), W, show(cnt, 3)):
            pairs(ctx, pre + f"{who} load: its power", W, items(items(pq)[0]), items(want))
    for name, got, want in zip(("success flag", "iteration count", "homotopy factor", "duration", "solution vector", "largest residual", "its index", "network"),
                               items(kept), [S("ok"), S("its"), S("tx"), S("sec"), S("v"), S("m"), S("i"), TRUE]):
        ctx.must(pre + f"the {name} is passed through", got is want, W, show(got, 5))


def infeasible(ctx, label):
    w = W + ".try_load_infeasibility_data"
    o = client(ctx, fill(INF, "TxNetworkModel", OPTS[label], CURRENTS=CUR[label]))
    ny, ents, tot, on = items(o.only())
    ctx.must(f"{label}: one infeasibility result per bus", ny is C(3), w, show(ny, 4))
    sums = [ZERO, ZERO]
    first = None
    for k, row in enumerate(items(ents)):
        cnt, pq, cur, vr, vi = items(row)
        if not ctx.must(f"{label}: bus {k} has one infeasibility result", cnt is C(1), w, show(cnt, 4)):
            return
        P, Q = items(items(pq)[0])
        ir, ii = items(cur)
        own = set(leaf_reads(mk("tuple", vr, vi, ir, ii)))
        for nm, x in (("P", P), ("Q", Q)):
            alien = [r for r in leaf_reads(x) if r not in own]
            ctx.must(f"{label}: bus {k} infeasibility {nm} is made of its own voltage and current", not alien and leaf_reads(x), w, ", ".join(show(r, 4) for r in alien[:4]) or "constant")
        sums = [addt(sums[0], P), addt(sums[1], Q)]
        tiny = C(1e-5)
        floor = lambda x: ITE(LT(x, tiny), ZERO, x)
        for nm, x, full, part in (("P", P, addt(mult(vr, ir), mult(vi, ii)), mult(vr, ir)), ("Q", Q, subt(mult(vi, ir), mult(vr, ii)), mult(vi, ii))):
            bad, n = compare(floor(full), x)
            if bad and not first:
                first = f"bus {k} {nm}: {bad}"
            ctx.ob(f"{label}: bus {k} infeasibility {nm} pairs voltage and current (recorded or full form)", compare(floor(part), x)[0] if bad else None, w, n)
    ctx.ob(f"{label}: infeasibility power is complex power", first, w)
    pairs(ctx, f"{label}: infeasibility totals are the sums over all buses", w, items(tot), sums)


def addt(a, b): return mk("add", a, b)
def mult(a, b): return mk("mul", a, b)
def subt(a, b): return mk("sub", a, b)


def leaf_reads(t):
    """reads of the solution vector in a value"""
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "sub_" and x.a[0] is S("v"):
            out.append(x)
            continue
        todo.extend(y for y in x.a if isinstance(y, T))
    return out


def none(ctx):
    o = client(ctx, fill(INF, "TxNetworkModel", "None", CURRENTS="[0, 0]").replace("cs = n.optimization.infeasibility_currents", "cs = []"))
    ny, ents, tot, on = items(o.only())
    ctx.must("without optimisation there are no infeasibility results", ny is ZERO and tot is NONE, W, f"{show(ny, 3)} {show(tot, 4)}")


def handles(o, st):
    """text written to each file: path -> [(guard, parts)], and opening modes"""
    out, modes = {}, {}
    for g, e in events(st.trace):
        if e.op == "call" and e.a[0] is mk("builtin", "open"):
            modes.setdefault(path_text(e.a[1]), []).append((g, e))
        h = e.a[0] if e.op == "mcall" else None
        if h is not None and h.op == "mcall" and h.a[1] is C("open"):
            h = mk("call", mk("builtin", "open"), h.a[0], *h.a[2:])
        if h is None or h.op != "call" or h.a[0] is not mk("builtin", "open"):
            if e.op == "mcall" and e.a[1].a[0] in ("write_text", "writelines", "unlink", "open"):
                raise AnalysisError(f"unexpected file operation {show(e, 4)[:100]}")
            continue
        p = path_text(h.a[1])
        if e.a[1] is C("write"):
            out.setdefault(p, []).append((g, text_parts(e.a[2])))
        elif e.a[1] is C("writelines"):
            out.setdefault(p, []).append((g, join_parts([text_parts(x) for x in items(e.a[2])])))
        elif e.a[1].a[0] not in ("close", "flush", "__enter__", "__exit__"):
            raise AnalysisError(f"unexpected file operation {show(e, 4)[:100]}")
        m = [x for x in h.a[2:]]
        mode = next((x.a[1] for x in m if x.op == "kw" and x.a[0] == "mode"), m[0] if m and m[0].op != "kw" else C("r"))
        modes.setdefault(p, []).append((g, mode))
    return out, modes


def path_text(t):
    while t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("pathlib.Path", "os.fspath"):
        t = t.a[1]
    return show_text(text_parts(t))


def files(ctx, label, flag):
    w = W + ".output"
    o = client(ctx, fill(OUT, "DxNetworkModel", "None", FLAG=flag))
    ctx.must(f"{label}: writing the files never fails", all(c is FALSE for c, v, s in o.raises), w, "; ".join(show(c, 6)[:200] for c, v, s in o.raises))
    if len(o.returns) != 1:
        raise AnalysisError("several result forms")
    _, v, st = o.returns[0]
    rows, power = [[text_parts(x) for x in items(y)] for y in items(v)]
    writes, modes = handles(o, st)
    ctx.must(f"{label}: the two files are named after the output path", set(writes) == {"{path}_voltage.csv", "{path}_power.csv"}, w, ", ".join(sorted(writes)))
    ctx.must(f"{label}: the files are replaced", all(m.op != "c" or str(m.a[0]).startswith("w") for ms in modes.values() for g, m in ms), w, str([show(m, 3) for ms in modes.values() for g, m in ms])[:200])
    path, ok, over = [TRUTHY(S(x)) for x in ("path", "ok", "over")]

    def text(p, on, good, viol):
        parts = []
        for g, x in writes.get(p, []):
            g = subst(g, {path: on, ok: good, over: viol, S("ok"): good, S("over"): viol})
            if g is FALSE:
                continue
            if g is not TRUE:
                raise AnalysisError(f"writing depends on {show(g, 6)[:160]}")
            parts.append(x)
        return join_parts(parts)
    for p, head, body in (("{path}_voltage.csv", "bus,name,v_magnitude,v_ang_degrees", rows), ("{path}_power.csv", "bus,name,P(MW),Q(MVar)", power)):
        nm = p.split("_")[1]
        for viol in (TRUE, FALSE):
            vl = " (ratings violated)" if viol is TRUE else ""
            ctx.must(f"{label}: no {nm} without an output path{vl}", not text(p, FALSE, TRUE, viol) and not text(p, FALSE, FALSE, viol), w)
            t = text(p, TRUE, FALSE, viol)
            ctx.must(f"{label}: {nm} of a failed run holds FAILURE only{vl}", t in (["FAILURE"], ["FAILURE\n"]), w, show_text(t)[:300])
            ls = text_lines(text(p, TRUE, TRUE, viol))
            ctx.must(f"{label}: {nm} begins with its header{vl}", ls and ls[0] == [head], w, show_text(ls[0])[:200] if ls else "nothing")
            tail = ls[1:]
            mark = [["VIOLATED EQUIPMENT RATINGS"]] if viol is TRUE and flag != "pass" else []
            ctx.must(f"{label}: {nm} ends with the rating verdict exactly when ratings are violated{vl}", [x for x in tail if len(x) == 1] == mark and tail[len(tail) - len(mark):] == mark, w,
                     " / ".join(show_text(x) for x in tail if len(x) == 1)[:200])
            tail = tail[:len(tail) - len(mark)]
            left = list(tail)
            miss = []
            for r in body:
                hit = next((x for x in left if same_text(x, r, same)), None)
                if hit is None:
                    miss.append(show_text(r))
                else:
                    left.remove(hit)
            ctx.must(f"{label}: {nm} holds one row per reported result{vl}", not miss and not left, w, "missing " + " / ".join(miss)[:300] + " extra " + " / ".join(show_text(x) for x in left)[:300])


def display(ctx, verbose):
    w = W + ".display"
    E = ctx.engine()
    E.strict_attr = True
    o = client(ctx, fill(SHOW, "DxNetworkModel", "None", VERBOSE=verbose), E=E)
    ctx.must(f"verbose={verbose}: displaying the results never fails", all(c is FALSE for c, v, s in o.raises) and o.returns, w, "; ".join(show(v, 4)[:200] for c, v, s in o.raises))
    if not o.returns:
        return
    _, v, st = o.returns[-1]
    txt = [join_parts([text_parts(x) for x in e.a]) for g, e in events(st.trace) if e.op == "print" and g is TRUE]
    flat = [p for t in txt for p in t]
    for name, s in (("success flag", "ok"), ("iteration count", "its"), ("duration", "sec"), ("largest residual", "m")):
        ctx.must(f"verbose={verbose}: the {name} is shown", any(x is S(s) or isinstance(x, tuple) and x[2] is S(s) for x in flat), w)
    if verbose == "True":
        for name, lst in zip(("bus", "generator", "load"), items(v)):
            for k, x in enumerate(items(lst)):
                p = text_parts(x)
                ctx.must(f"verbose={verbose}: {name} result {k} is shown", any(same_text(t, p) for t in txt), w, show_text(p)[:200])


def series(ctx):
    w = "src/logic/powerflowresults.py:QuasiTimeSeriesResults"
    o = client(ctx, fill(SERIES))
    _, v, st = o.returns[0]
    ctx.must("snapshots are kept under their hour", len(o.returns) == 1 and [[y for y in items(x)] for x in items(v)] == [[C(7), S("one")], [C(8), S("two")]], w, show(v, 5))
    path = TRUTHY(S("path"))
    calls = [(subst(g, {path: TRUE}), subst(g, {path: FALSE}), e) for g, e in events(st.trace) if e.op == "call" and e.a[0].op == "ext" and e.a[0].a[0].startswith("oracle.")]
    for k, hour in (("one", 7), ("two", 8)):
        ws = [c for c in calls if c[2].a[0].a[0] == "oracle.write" and c[2].a[1] is S(k)]
        ctx.must(f"hour {hour} is written once, under its own name, when a path is given",
                 len(ws) == 1 and ws[0][0] is TRUE and ws[0][1] is FALSE and show_text(text_parts(ws[0][2].a[2])) == "{path}_%d" % hour, w, str([show(c[2], 5) for c in ws])[:200])
        ds = [c for c in calls if c[2].a[0].a[0] == "oracle.show" and c[2].a[1] is S(k)]
        ctx.must(f"hour {hour} is displayed", len(ds) == 1 and ds[0][1] is TRUE and ds[0][2].a[2] is S("verbose"), w, str([show(c[2], 5) for c in ds])[:200])


def trafo(ctx, text, label):
    o = client(ctx, fill(text))
    got, want = items(o.only())
    pairs(ctx, f"{label}: reported active and reactive power are the complex power of the solution", WT, items(got), items(want))
