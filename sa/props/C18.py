"""Feeder files: switches, fuses, reclosers, capacitors and regulators become the devices they describe."""
from ._glm import *
from ._raw import differ

R = "src/ditto/readers/gridlabd/read.py:Reader.parse"
P = "src/logic/network/parsers/threephase/threephaseparser.py:ThreePhaseParser."
SEE = COMMON + '''
from models.components.fuse import FuseStatus
from models.components.switch import SwitchStatus
from models.components.capacitor import CapacitorMode, CapSwitchState
from models.components.regulator import RegType, RegControl
def order(rows):
    return sorted(rows, key=lambda r: r[0] + "." + r[1] + "." + r[2] + "." + r[3])
def fuses(n):
    return order([place(f.from_node) + place(f.to_node) + (f.current_limit, f.status, f.phase) for f in n.fuses])
def fuse_ends(n):
    at = {(b.NodeName, b.NodePhase): b for b in n.buses}
    ok = True
    inner = []
    for f in n.fuses:
        ok = ok and at[place(f.from_node)] is f.from_node and at[place(f.to_node)] is f.to_node and f.interior_node in n.buses and f.interior_node.IsVirtual and f.interior_node not in inner
        inner.append(f.interior_node)
    return ok
def switches(n):
    return order([place(f.from_node) + place(f.to_node) + (f.status, f.phase) for f in n.switches])
def switch_ends(n):
    at = {(b.NodeName, b.NodePhase): b for b in n.buses}
    ok = True
    for f in n.switches:
        ok = ok and at[place(f.from_node)] is f.from_node and at[place(f.to_node)] is f.to_node
    return ok
def capacitors(n):
    return order([place(c.from_bus) + place(c.to_bus) + (c.G, c.B, c.mode, c.switch) for c in n.capacitors])
def limits(n):
    return order([place(c.from_bus) + place(c.to_bus) + (c.G, c.B, c.mode, c.switch, c.high_voltage, c.low_voltage) for c in n.capacitors])
def capacitor_ends(n):
    at = {(b.NodeName, b.NodePhase): b for b in n.buses}
    ok = True
    for c in n.capacitors:
        ok = ok and at[place(c.from_bus)] is c.from_bus and c.to_bus is GROUND
    return ok
def regulators(n):
    return order([place(r.from_node) + place(r.to_node) + (r.tap_position, r.ar_step, r.reg_type, r.reg_control, r.vlow, r.vhigh, r.raise_taps, r.lower_taps) for r in n.regulators])
def regulator_ends(n):
    at = {(b.NodeName, b.NodePhase): b for b in n.buses}
    ok = True
    inner = []
    for r in n.regulators:
        ok = ok and at[place(r.from_node)] is r.from_node and at[place(r.to_node)] is r.to_node and r.current_node in n.buses and r.current_node.IsVirtual and r.current_node not in inner
        inner.append(r.current_node)
    return ok
def ends(p, f="n1", t="n2"):
    return (f, p, t, p)
def clip(tap, up, down):
    return up if tap >= up else (-down if tap <= -down else tap)
def reg(p, tap, kind, control, up=None, down=None, f="n1", t="n2"):
    u = N("up") if up is None else up
    d = N("down") if down is None else down
    return ends(p, f, t) + (clip(tap, u, d), N("rg") * 2 / (u + d), kind, control, N("bc") - N("bw") / 2, N("bc") + N("bw") / 2, u, d)
'''
NODES = 'object node {\n name n1;\n phases "ABCN";\n nominal_voltage <nv>;\n}\nobject node {\n name n2;\n phases "ABCN";\n nominal_voltage <nv>;\n}\n'
FN = ["from node", "from phase", "to node", "to phase"]


def run(ctx):
    def go(label, model, want, see, ends, names, where):
        def f():
            o = glm(ctx, SEE + f'''
def client():
    n = load(["case.glm"])
    return ({see}(n), order([{want}]), {ends}(n))
''', {"case.glm": SWING + NODES + model})
            v = o.only()
            differ(ctx, label, where, v.a[0], v.a[1], names)
            ctx.must(f"{label}: connected to the buses of the network", v.a[2] is TRUE, where, show(v.a[2], 6)[:200])
        ctx.section(label, where, f)

    # fuses
    def fuse(label, rows, want, ph="ABCN"):
        go(f"a fuse {label}", f'object fuse {{\n name f1;\n phases "{ph}";\n from n1;\n to n2;\n current_limit <cl>;\n' + "".join(f" {r};\n" for r in rows) + "}",
           ", ".join(f'ends("{p}") + (N("cl"), FuseStatus.{s}, "{p}")' for p, s in want), "fuses", "fuse_ends", FN + ["current limit", "status", "phase"], P + "create_transmission_line")
    fuse("closed", ["status CLOSED"], [("A", "GOOD"), ("B", "GOOD"), ("C", "GOOD")])
    fuse("without a status", [], [("A", "GOOD"), ("B", "GOOD"), ("C", "GOOD")])
    fuse("open", ["status OPEN"], [("A", "BLOWN"), ("C", "BLOWN")], "ACN")
    fuse("with a status by phase", ["phase_A_status GOOD", "phase_B_status BLOWN", "phase_C_status GOOD"], [("A", "GOOD"), ("B", "BLOWN"), ("C", "GOOD")])
    fuse("with a status of one phase", ["phase_C_status BLOWN"], [("A", "GOOD"), ("B", "GOOD"), ("C", "BLOWN")])
    fuse("of one phase", ["phase_B_status GOOD"], [("B", "GOOD")], "BN")

    # switches and reclosers
    def switch(kind, label, rows, want, ph="ABCN"):
        go(f"a {kind} {label}", f'object {kind} {{\n name f1;\n phases "{ph}";\n from n1;\n to n2;\n' + "".join(f" {r};\n" for r in rows) + "}",
           ", ".join(f'ends("{p}") + (SwitchStatus.{s}, "{p}")' for p, s in want), "switches", "switch_ends", FN + ["status", "phase"], P + "create_transmission_line")
    for k in ("switch", "recloser"):
        switch(k, "closed", ["status CLOSED"], [("A", "CLOSED"), ("B", "CLOSED"), ("C", "CLOSED")])
        switch(k, "without a status", [], [("A", "CLOSED"), ("B", "CLOSED"), ("C", "CLOSED")])
        switch(k, "open", ["status OPEN"], [("A", "OPEN"), ("C", "OPEN")], "ACN")
        switch(k, "with a state by phase", ["phase_A_state CLOSED", "phase_B_state OPEN", "phase_C_state CLOSED"], [("A", "CLOSED"), ("B", "OPEN"), ("C", "CLOSED")])
        switch(k, "with states of phases it lacks", ["phase_A_state CLOSED", "phase_B_state OPEN", "phase_C_state CLOSED"], [("B", "OPEN")], "BN")
        switch(k, "with a state of one phase", ["phase_A_state OPEN"], [("A", "OPEN"), ("B", "CLOSED"), ("C", "CLOSED")])

    # capacitors
    def cap(label, rows, want, ph="ABCN", lim=False, rated="cap_nominal_voltage <cv>"):
        go(f"a capacitor {label}", f'object capacitor {{\n name c1;\n parent n2;\n phases "{ph}";\n {rated};\n' + "".join(f" {r};\n" for r in rows) + "}",
           ", ".join(f'("n2", "{p}", "ground", "", 0, N("{v}"){k} / (N("cv") * N("cv")), CapacitorMode.{m}, CapSwitchState.{s}' + (', N("hi"), N("lo")' if lim else "") + ")" for p, v, k, m, s in want),
           "limits" if lim else "capacitors", "capacitor_ends", FN + ["conductance", "susceptance", "mode", "state"] + (["upper voltage", "lower voltage"] if lim else []), P + "create_capacitor")
    sizes = ["capacitor_A <qa>", "capacitor_B <qb>", "capacitor_C <qc>"]
    volt = ["voltage_set_high <hi>", "voltage_set_low <lo>"]
    cap("under manual control", ["control MANUAL", "switchA CLOSED", "switchB OPEN", "switchC CLOSED"] + sizes, [("A", "qa", "", "MANUAL", "CLOSED"), ("B", "qb", "", "MANUAL", "OPEN"), ("C", "qc", "", "MANUAL", "CLOSED")])
    cap("under manual control without states", ["control MANUAL"] + sizes, [("A", "qa", "", "MANUAL", "OPEN"), ("B", "qb", "", "MANUAL", "OPEN"), ("C", "qc", "", "MANUAL", "OPEN")])
    cap("under voltage control", ["control VOLT"] + volt + sizes, [("A", "qa", "", "VOLT", "CLOSED"), ("B", "qb", "", "VOLT", "CLOSED"), ("C", "qc", "", "VOLT", "CLOSED")], lim=True)
    cap("under voltage control with reactive limits as well", ["control VOLT", "VAr_set_high <h2>", "VAr_set_low <l2>"] + volt + sizes[:1], [("A", "qa", "", "VOLT", "CLOSED")], lim=True)
    cap("under voltage control without limits", ["control VOLT", "switchB CLOSED"] + sizes[:2], [("A", "qa", "", "MANUAL", "OPEN"), ("B", "qb", "", "MANUAL", "CLOSED")])
    for one in volt:
        cap(f"under voltage control with {one.split()[0]} alone", ["control VOLT", "switchA CLOSED", one] + sizes[:2], [("A", "qa", "", "MANUAL", "CLOSED"), ("B", "qb", "", "MANUAL", "OPEN")])
    cap("connected to some phases", ["control VOLT", "phases_connected AC"] + volt + sizes, [("A", "qa", "", "VOLT", "CLOSED"), ("C", "qc", "", "VOLT", "CLOSED")], lim=True)
    cap("of one phase", ["control MANUAL", "switchB CLOSED", sizes[1]], [("B", "qb", "", "MANUAL", "CLOSED")], "BN")
    cap("with a unit", ["control MANUAL", "switchC CLOSED", "capacitor_C <qc> MVAr"], [("C", "qc", " * 1000000", "MANUAL", "CLOSED")])

    cap("without a control", ["switchB CLOSED"] + sizes, [("A", "qa", "", "MANUAL", "OPEN"), ("B", "qb", "", "MANUAL", "CLOSED"), ("C", "qc", "", "MANUAL", "OPEN")])
    cap("without a rated voltage", ["control MANUAL", "switchA CLOSED"] + sizes[:1], [("A", "qa", "", "MANUAL", "CLOSED")], rated="nominal_voltage <cv>")
    cap("with both voltages", ["control MANUAL", "switchA CLOSED", "nominal_voltage <nv>"] + sizes[:1], [("A", "qa", "", "MANUAL", "CLOSED")])

    # regulators
    RN = FN + ["tap", "step", "type", "control", "lower voltage", "upper voltage", "highest tap", "lowest tap"]

    def regulator(label, rows, want, order_=False, two=False):
        c = 'object regulator_configuration {\n name rc;\n connect_type WYE_WYE;\n band_center <bc>;\n band_width <bw>;\n regulation <rg>;\n' + "".join(f" {r};\n" for r in rows) + "}\n"
        r = 'object regulator {\n name r1;\n phases "ABCN";\n from n1;\n to n2;\n configuration rc;\n}\n'
        if two:
            r = 'object node {\n name n3;\n phases "ABCN";\n nominal_voltage <nv>;\n}\n' + r + r.replace("r1", "r2").replace("to n2", "to n3")
        go(f"a regulator {label}", r + c if order_ else c + r, want, "regulators", "regulator_ends", RN, P + "create_regulator")
    taps = ["tap_pos_A <ta>", "tap_pos_B -<tb>", "tap_pos_C <tc>"]
    steps = ["raise_taps <up>", "lower_taps <down>"]
    three = lambda kind, control, **k: ", ".join(f'reg("{p}", {t}, RegType.{kind}, RegControl.{control}' + "".join(f", {a}={b}" for a, b in k.items()) + ")" for p, t in (("A", 'N("ta")'), ("B", '-N("tb")'), ("C", 'N("tc")')))
    for kind in "AB":
        regulator(f"of type {kind}", [f"Type {kind}", "Control OUTPUT_VOLTAGE"] + steps + taps, three(kind, "OUTPUT_VOLTAGE"))
    regulator("without a type", ["Control MANUAL"] + steps + taps, three("B", "MANUAL"))
    regulator("at the end of its range", ["Type A", "Control MANUAL", "raise_taps 16", "lower_taps 16", "tap_pos_A 16", "tap_pos_B -16", "tap_pos_C 0"],
              'reg("A", 16, RegType.A, RegControl.MANUAL, 16, 16), reg("B", -16, RegType.A, RegControl.MANUAL, 16, 16), reg("C", 0, RegType.A, RegControl.MANUAL, 16, 16)')
    regulator("with unequal steps", ["Type B", "Control MANUAL", "raise_taps 10", "lower_taps 6", "tap_pos_A 12", "tap_pos_B -8", "tap_pos_C 3"],
              'reg("A", 12, RegType.B, RegControl.MANUAL, 10, 6), reg("B", -8, RegType.B, RegControl.MANUAL, 10, 6), reg("C", 3, RegType.B, RegControl.MANUAL, 10, 6)')
    regulator("ahead of its configuration", ["Type B", "Control LINE_DROP_COMP"] + steps + taps, three("B", "LINE_DROP_COMP"), True)
    regulator("beside another at its node", ["Type A", "Control MANUAL"] + steps + taps, three("A", "MANUAL") + ", " + three("A", "MANUAL", t='"n3"'), two=True)
