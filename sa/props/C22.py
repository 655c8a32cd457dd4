"""Device control loop: what is reported is a solution of the network in the state the devices are left in."""
from ..algebra import *
from ..interp import AnalysisError
from ._cl import *
from . import C21 as dev

W = "src/logic/devicecontroller.py:DeviceController"
WH = "src/logic/homotopycontroller.py:HomotopyController.run_powerflow"
KINDS = {"fuse": "Fuse", "capacitor": "Capacitor", "regulator": "Regulator"}
TXT = '''
from logic.devicecontroller import DeviceController
from logic.powerflowsettings import PowerFlowSettings
from models.components.bus import Bus, GROUND
from models.components.capacitor import Capacitor, CapSwitchState, CapacitorMode
from models.components.fuse import Fuse, FuseStatus
from models.components.regulator import Regulator, RegType, RegControl
from models.components.line import Line
from oracle import good, solution, count, residual, start
class Net:
    def __init__(self, els):
        self.els = els
        self.is_three_phase = PHASES
        self.assigned = 0
        self.buses = []
        self.optimization = None
        self.size_Y = 4
        self.matrix_version = 0
    def get_all_elements(self):
        return self.els
    def assign_matrix(self):
        self.assigned = self.assigned + 1
    def generate_v_init(self, settings):
        return start(self.assigned)
class NR:
    def __init__(self, net):
        self.network = net
class Homotopy:
    def __init__(self, net):
        self.nrsolver = NR(net)
        self.network = net
    def run_powerflow(self, v_init):
        k = ([e.hist for e in DEV], self.network.assigned)
        v = solution(v_init, k)
        return (good(v), v, count(v), 0, residual(v))
def make():
    b = Bus(1, 1, 1.0, 0.0, 0, "a", "A")
    c = Bus(2, 1, 1.0, 0.0, 0, "b", "A")
    d = Bus(3, 1, 1.0, 0.0, 0, "c", "A")
    one = ONE
    two = TWO
    one.hist = ("one", )
    two.hist = ("two", )
    return [Line(b, c, 1, 2, 3, True, 0, 0, 0), ORDER]
def client():
    net = Net(make())
    dc = DeviceController(PowerFlowSettings(device_control=CONTROL), Homotopy(net))
    r = dc.run_powerflow()
    return (r, [e.hist for e in net.els[1:]], net.assigned)
'''.replace("DEV", "self.network.els[1:]")
MAKE = {"fuse": 'Fuse(b, c, d, 5, FuseStatus.GOOD, "A")', "capacitor": "Capacitor(b, c, 4, 2, CapacitorMode.VOLT, 5, 4)",
        "regulator": "Regulator(b, c, d, 1, 2, RegType.A, RegControl.OUTPUT_VOLTAGE, 4, 5, 16, 16)"}


def orc(name, *a):
    return mk("call", mk("ext", "oracle." + name), *a)


def is_orc(t, name):
    return t.op == "call" and t.a[0] is mk("ext", "oracle." + name)


def outcome(ctx, one, two, phases, control, order):
    E = ctx.engine()
    E.load("logic.devicecontroller")
    for kind, cls in KINDS.items():
        q = f"models.components.{kind}.{cls}.try_adjust_device"
        E.fn(q)

        def adjust(a, kw, st, fr):
            self, v = a[0], (a[1] if len(a) > 1 else list(kw.values())[0])
            h = E.freeze(E.getattr(self, "hist", st, fr), st)
            c = mk("truthy", orc("moves", h, E.freeze(v, st)))
            # the second device moves at most once: mixtures without exponential histories
            def once(x, c=c):
                if x.op == "ite":
                    return ITE(x.a[0], once(x.a[1]), once(x.a[2]))
                return mk("truthy", orc("moves", x, E.freeze(v, st))) if x.a[0].op == "c" else FALSE
            if root(h) is C("two"):
                c = once(h)
            E.setattr(self, "hist", ITE(c, mk("tuple", h, E.freeze(v, st)), h), st, fr)
            return c
        E.models[q] = adjust
    E.while_unroll = E.unroll = 60
    return client(ctx, TXT.replace("ONE", MAKE[one]).replace("TWO", MAKE[two]).replace("PHASES", phases).replace("ORDER", order).replace("CONTROL", control), E=E)


def root(h):
    """the device a history belongs to"""
    while h.op in ("tuple", "ite"):
        h = h.a[1] if h.op == "ite" else h.a[0]
    return h


def moved(h, v, known):
    if h.a[0].op != "c" and root(h) is C("two"):
        return FALSE
    return subst(mk("truthy", orc("moves", h, v)), known)


def loop(ctx, one, two, phases, control, order):
    name = f"{one} and {two}, {'three-phase' if phases == 'True' else 'positive sequence'}, control {'on' if control == 'True' else 'off'}, {order.split(', ')[0]} first"
    o = outcome(ctx, one, two, phases, control, order)
    active = phases == control == "True"
    v0 = orc("start", ONE)
    h0 = [mk("tuple", C(x)) for x in order.split(", ")]
    n = 0
    bad = dict.fromkeys(("report", "pending", "start", "state", "assigned"))
    for c, val, s in o.returns:
        for known, x in outcomes(val, c):
            n += 1
            r, hs, asg = items(x)
            ok, v, cnt, f, res = items(r)
            hs = items(hs)
            if not is_orc(v, "solution"):
                bad["report"] = f"reported vector is {show(v, 4)}"
                continue
            if v.a[1] is not v0:
                bad["start"] = f"a run starts from {show(v.a[1], 4)}"
            if subst(orc("good", v), known) is not subst(ok, known) and not sametruth(ok, v, known) or cnt is not orc("count", v) or res is not orc("residual", v):
                bad["report"] = f"reported {show(r, 3)}"
            key = items(v.a[2])
            solved = items(key[0])
            if asg is not ONE or key[1] is not ONE:
                bad["assigned"] = f"indices assigned {show(asg)} times"
            success = subst(mk("truthy", orc("good", v)), known)
            if success is not FALSE:
                if [h.id for h in solved] != [h.id for h in hs]:
                    bad["state"] = f"solved in state {[show(h, 3) for h in solved]}, left in {[show(h, 3) for h in hs]}"
                if active:
                    for h in hs:
                        if moved(h, v, known) is not FALSE:
                            bad["pending"] = "returned although a device would still move at the reported solution"
            if not active and [h.id for h in hs] != [h.id for h in h0]:
                bad["state"] = "devices moved although control is off or does not apply"
    w = W + ".run_powerflow"
    ctx.must(f"{name}: there is a result", n > 0, w, "never returns")
    ctx.ob(f"{name}: flag, count and residuals are those of the reported vector", bad["report"], w, n)
    ctx.ob(f"{name}: every run starts from the network's initial guess", bad["start"], w, n)
    ctx.ob(f"{name}: indices are assigned once, before anything uses them", bad["assigned"], w, n)
    ctx.ob(f"{name}: a success was solved with the devices in the state they are left in", bad["state"], w, n)
    if active:
        ctx.ob(f"{name}: a success is returned only when no device wants to move", bad["pending"], w, n)
        # giving up is an error, never a success
        lost = [c for c, v, s in o.raises]
        ctx.must(f"{name}: endless adjustment ends in an error", len(lost) > 0, w, "never raises")
        early = None
        for c in lost:
            for known, _ in outcomes(NONE, c):
                sols = {x for k in known for x in walk(k) if is_orc(x, "solution")}
                if any(subst(mk("truthy", orc("good", x)), known) is FALSE for x in sols):
                    early = "raises although a run failed"
                runs = {x for x in sols if subst(mk("truthy", orc("good", x)), known) is TRUE}
                if len(runs) < 5:
                    early = f"gives up after {len(runs)} runs"
        ctx.ob(f"{name}: gives up only after repeated successful runs with devices still moving", early, w)
    else:
        ctx.must(f"{name}: never fails outside the solver", o.raise_cond() is FALSE, w, "raises when " + show(o.raise_cond(), 5)[:200])


def sametruth(ok, v, known):
    a = subst(mk("truthy", ok) if ok.op != "c" else ok, known)
    b = subst(mk("truthy", orc("good", v)), known)
    if a.op == "truthy": a = a.a[0]
    return a is b or a.op == "c" and b.op == "c" and bool(a.a[0]) == bool(b.a[0])


FRESH = '''
from logic.homotopycontroller import HomotopyController
from logic.powerflowsettings import PowerFlowSettings
from oracle import good, solution, residual
class Net:
    def __init__(self):
        self.optimization = None
        self.state = "before"
    def get_all_elements(self):
        return [self.state]
class Stamper:
    def __init__(self, made):
        self.made = made
    def calc_residuals(self, tx_factor, v_result, iteration_num):
        return self.made
class Solver:
    def run_powerflow(self, matrix_stamper, v_init, tx_factor):
        return (True, solution(matrix_stamper.made, v_init), 1)
def client(v):
    n = Net()
    h = HomotopyController(PowerFlowSettings(), n, Solver())
    r1 = h.run_powerflow(v)
    n.state = "after"
    r2 = h.run_powerflow(v)
    return (r1[1], r1[4], r2[1], r2[4])
def build(network):
    return Stamper(network.state)
'''


def fresh(ctx):
    E = ctx.engine()
    E.load("logic.stamping.matrixstamper")
    E.fn("logic.stamping.matrixstamper.build_matrix_stamper")

    def build(args, kw, st, fr):
        m = [x for x in E.mods.values() if x.name.startswith("client")][-1]
        return E.call(E.modattr(m, "build"), args, kw, st, fr, None)
    E.models["logic.stamping.matrixstamper.build_matrix_stamper"] = build
    o = client(ctx, FRESH, E=E)
    a, ra, b, rb = items(o.only())
    ctx.must("equations of the first run are those of the network then", is_orc(a, "solution") and a.a[1] is C("before") and ra is C("before"), WH, show(a))
    ctx.must("a later run takes the network as the devices left it", is_orc(b, "solution") and b.a[1] is C("after"), WH, show(b))
    ctx.must("residuals of a later run use the same network", rb is C("after"), WH, show(rb))


def silent(ctx, label, where, text, changed, n):
    """a device that changed its state never claims it did not: the change would not be solved"""
    o = dev.run_(ctx, text)
    ps = dev.parts(o, n)
    ch, r = changed(ps)
    bad, cases = equivalent(AND(dev.cond(ch), NOT(dev.cond(r))), FALSE)
    ctx.ob(f"{label}: a change of state is always reported to the loop", bad and f"its state changes unreported: {bad}", where, cases)


def run(ctx):
    for state in ("OPEN", "CLOSED"):
        ctx.section(f"capacitor {state} reports", dev.WC, silent, ctx, f"capacitor {state}", dev.WC,
                    dev.CAP.replace("CapacitorMode.MODE", "CapacitorMode.VOLT").replace("CapSwitchState.STATE", "CapSwitchState." + state),
                    lambda ps, s=state: (ps[1] if s == "OPEN" else NOT(dev.cond(ps[1])), ps[0]), 4)
    for state in ("GOOD", "BLOWN"):
        ctx.section(f"fuse {state} reports", dev.WF, silent, ctx, f"fuse {state}", dev.WF, dev.FUSE.replace("STATE", state),
                    lambda ps, s=state: (NOT(dev.cond(ps[1])) if s == "GOOD" else ps[1], ps[0]), 3)
    for typ in ("A", "B"):
        ctx.section(f"regulator {typ} reports", dev.WR, silent, ctx, f"regulator {typ}", dev.WR, dev.REG.replace("RegType.TYPE", "RegType." + typ),
                    lambda ps: (NOT(EQ(ps[3], ps[7])), ps[6]), 8)
    for one, two in (("fuse", "capacitor"), ("capacitor", "regulator"), ("regulator", "fuse")):
        for phases, control in (("True", "True"), ("True", "False"), ("False", "True")):
            for order in ("one, two", "two, one"):
                ctx.section(f"{one} and {two} {phases} {control} {order}", W, loop, ctx, one, two, phases, control, order)
    ctx.section("fresh equations", WH, fresh, ctx)
