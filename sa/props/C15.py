"""Feeder files: nodes, meters and loads become the buses, sources and loads they describe."""
from ._glm import *
from ._raw import differ

P = "src/logic/network/parsers/threephase/threephaseparser.py:ThreePhaseParser."
PL = "src/ditto/readers/gridlabd/load_parser.py:LoadParser"
BUSN = ["name", "phase", "real starting voltage", "imaginary starting voltage"]
LOADN = ["from node", "from phase", "to node", "to phase", "active power", "reactive power", "real current", "imaginary current", "conductance", "susceptance"]


def run(ctx):
    def case(label, model, want, fields, where, names, loads=False):
        def go():
            o = glm(ctx, COMMON + f'''
def client():
    n = load(["case.glm"])
    return ({fields}, {want}, own(n))
''', {"case.glm": SWING + model})
            v = o.only()
            differ(ctx, label, where, v.a[0], v.a[1], names)
            ctx.must(f"{label}: one bus per name and phase, numbered from zero, and everything attached to it", v.a[2] is TRUE, where, show(v.a[2], 6)[:200])
        ctx.section(label, where, go)

    def buses(label, model, want):
        case(f"buses of {label}", model, SRC + want, "seen_buses(n)", P + "create_buses", BUSN)

    def loads(label, model, want, where=PL):
        case(f"loads of {label}", model, f"ref([{want}])", "seen_loads(n)", where, LOADN)

    # --- buses
    for kind in ("node", "meter"):
        buses(f"a {kind} with its own voltages", f'object {kind} {{\n name n2;\n phases "ABCN";\n voltage_A <a2>+<b2>j;\n voltage_B -<a3>-<b3>j;\n voltage_C -<a4>+<b4>j;\n nominal_voltage <v2>;\n}}',
              ' + [("n2", "A", N("a2"), N("b2")), ("n2", "B", -N("a3"), -N("b3")), ("n2", "C", -N("a4"), N("b4"))]')
        buses(f"a {kind} without voltages", f'object {kind} {{\n name n2;\n phases "ABCN";\n nominal_voltage <v2>;\n}}', ' + nominal("n2", "ABC", N("v2"))')
        buses(f"a delta {kind} of two phases", f'object {kind} {{\n name n2;\n phases ACD;\n nominal_voltage <v2>;\n}}', ' + nominal("n2", "AC", N("v2"))')
        buses(f"a {kind} with one known voltage", f'object {kind} {{\n name n2;\n phases "BC|N";\n voltage_C <a2>-<b2>j;\n nominal_voltage <v2>;\n}}', ' + nominal("n2", "B", N("v2")) + [("n2", "C", N("a2"), -N("b2"))]')
    for kind in ("triplex_meter", "triplex_node"):
        buses(f"a {kind}", f'object {kind} {{\n name t1;\n phases AS;\n voltage_1 <a2>+<b2>j;\n voltage_2 <a3>-<b3>j;\n nominal_voltage <v2>;\n}}' + ("" if kind == "triplex_meter" else ""),
              ' + [("t1", "1", -60.0, 103.92), ("t1", "2", 60.0, -103.92)]')
    buses("a meter inside a node", 'object node {\n name n2;\n phases "ABCN";\n nominal_voltage <v2>;\n}\nobject meter {\n name m2;\n parent n2;\n phases "ABN";\n nominal_voltage <v2>;\n}', ' + nominal("n2", "ABC", N("v2"))')
    buses("a load of its own", 'object load {\n name l2;\n phases "ABN";\n nominal_voltage <v2>;\n constant_power_A <p>+<q>j;\n}', ' + nominal("l2", "AB", N("v2"))')
    buses("a triplex load of its own", 'object triplex_node {\n name t1;\n phases AS;\n power_1 <p>+<q>j;\n nominal_voltage <v2>;\n}', ' + [("t1", "1", -60.0, 103.92), ("t1", "2", 60.0, -103.92)]')
    buses("an unconnected load", 'object node {\n name n2;\n phases "ABCN";\n nominal_voltage <v2>;\n}\nobject load {\n name l2;\n parent n2;\n phases "ABCN";\n nominal_voltage <v2>;\n}', ' + nominal("n2", "ABC", N("v2"))')

    def slack():
        for nm, model, want in (
                ("with its voltages", "", '[("src", "A", N("ar"), N("ai")), ("src", "B", -N("br"), -N("bi")), ("src", "C", -N("cr"), N("ci"))]'),):
            o = glm(ctx, COMMON + f'''
def client():
    n = load(["case.glm"])
    return ([place(s.bus) + (s.Vr_set, s.Vi_set) for s in n.slack], {want}, own(n))
''', {"case.glm": SWING + 'object node {\n name n2;\n phases "ABCN";\n nominal_voltage <v2>;\n bustype PQ;\n}'})
            v = o.only()
            differ(ctx, f"a source {nm}", P + "create_buses", v.a[0], v.a[1], ["node", "phase", "real voltage", "imaginary voltage"])
    ctx.section("source", P + "create_buses", slack)

    # --- one model, written in different ways
    plain = 'object node {\n name n2;\n phases "ABCN";\n nominal_voltage <v2>;\n}\nobject load {\n name l2;\n parent n2;\n phases "ABCN";\n nominal_voltage <v2>;\n constant_power_A <p>+<q>j;\n constant_power_CA <p2>-<q2>j;\n}\n'
    drawn = 'draw("n2", "A", "ground", "", N("p"), N("q")), draw("n2", "C", "n2", "A", N("p2"), -N("q2"))'
    skipped = "object %s {\n name r1;\n parent n2;\n file out.csv;\n interval 60;\n}\n"
    for lab, text in (
            ("comments", "// a feeder\n" + plain.replace(" parent n2;", " // parent n9;\n parent n2; // parent n9;").replace("object load {", "object load { // name l9;\n //name l8;")),
            ("empty lines and tabs", plain.replace("\n ", "\n\n\t\t").replace(" n2;", "\tn2;")),
            ("closing brackets with a semicolon", plain.replace("}\n", "};\n")),
            ("numbered names", plain.replace("object node {\n name n2;", "object node:2 {").replace("object load {\n name l2;", "object load:7 {").replace("parent n2", "parent node:2")),
            ("quoted names", plain.replace("name n2", 'name "n2"').replace("parent n2", 'parent "n2"').replace("name l2", 'name "l2"')),
            ("unquoted phases", plain.replace('"ABCN"', "ABCN")),
            ("the order of the values changed", plain.replace(" name l2;\n parent n2;\n", "").replace("-<q2>j;\n", "-<q2>j;\n parent n2;\n name l2;\n").replace(' name n2;\n phases "ABCN";\n', ' phases "ABCN";\n name n2;\n')),
            ("units", plain.replace("+<q>j;", "+<q>j VA;").replace("nominal_voltage <v2>;", "nominal_voltage <v2> V;")),
            ("a clock and modules before it", "clock {\n timezone EST+5EDT;\n starttime '2000-01-01 0:00:00';\n}\nmodule powerflow {\n solver_method NR;\n};\nmodule tape;\n#set iteration_limit=100000;\n" + plain),
            ("a load after a recorder", plain.replace("object load", skipped % "recorder" + "object load")),
            ("a load after a player and a collector", plain.replace("object load", skipped % "player" + skipped % "collector" + "object load")),
            ("a load around a recorder", plain.replace(" constant_power_A", " object recorder {\n };\n constant_power_A")),
            ("everything at the margin", plain.replace("\n ", "\n"))):
        loads("a model written with " + lab, text, drawn.replace("n2", "node:2") if "numbered" in lab else drawn)

    # --- what a time series finds loads by
    def known():
        tri = 'object triplex_meter {{\n name t_{p};\n phases {p}S;\n nominal_voltage <v2>;\n}}\n{kind} {{\n name {n};\n parent t_{p};\n phases {p}S;\n nominal_voltage <v2>;\n{v}}}\n'
        o = glm(ctx, COMMON + '''
def client():
    n = load(["case.glm"])
    rows = sorted([(place(l.from_bus)[0] + "." + str(l.load_num) + "." + str(l.phase) + "." + str(l.triplex_phase), l.P) for l in n.loads], key=lambda r: r[0])
    want = [("n2.7.A.None", N("p")), ("n2.7.CA.None", N("p2")), ("t_A.12.12.A", N("p3")), ("t_B.own.1.B", N("p4")), ("t_C.3.2.C", N("p5"))]
    return (rows, want)
''', {"case.glm": SWING + 'object node {\n name n2;\n phases "ABCN";\n nominal_voltage <v2>;\n}\nobject load {\n name a_load_7;\n parent n2;\n phases "ABCN";\n nominal_voltage <v2>;\n constant_power_A <p>+<q>j;\n constant_power_CA <p2>+<q2>j;\n}\n'
           + tri.format(p="A", kind="object triplex_node", n="R1_tn_12", v=" power_12 <p3>+<q3>j;\n") + tri.format(p="B", kind="object triplex_load", n="own", v=" constant_power_1 <p4>+<q4>j;\n")
           + tri.format(p="C", kind="object triplex_node", n="tn_3", v=" power_2 <p5>+<q5>j;\n")})
        v = o.only()
        differ(ctx, "the number and phase a load is known by", P + "create_load", v.a[0], v.a[1], ["node, number, phase and primary phase", "power"])
    ctx.section("the number and phase a load is known by", P + "create_load", known)

    # --- loads
    node = 'object node {\n name n2;\n phases "ABCN";\n nominal_voltage <v2>;\n}\n'
    head = 'object load {\n name l2;\n parent n2;\n phases "%s";\n nominal_voltage <v2>;\n'
    loads("constant power by phase", node + head % "ABCN" + ' constant_power_A <p>+<q>j;\n constant_power_B <p2>-<q2>j;\n constant_power_C -<p3>+<q3>j;\n}',
          'draw("n2", "A", "ground", "", N("p"), N("q")), draw("n2", "B", "ground", "", N("p2"), -N("q2")), draw("n2", "C", "ground", "", -N("p3"), N("q3"))')
    loads("constant current by phase", node + head % "ABCN" + ' constant_current_A <p>+<q>j;\n constant_current_B <p2>-<q2>j;\n constant_current_C -<p3>+<q3>j;\n}',
          'draw("n2", "A", "ground", "", i=N("p"), j=N("q")), draw("n2", "B", "ground", "", i=N("p2"), j=-N("q2")), draw("n2", "C", "ground", "", i=-N("p3"), j=N("q3"))')
    loads("constant impedance by phase", node + head % "ABCN" + ' constant_impedance_A <p>+<q>j;\n constant_impedance_B <p2>-<q2>j;\n constant_impedance_C <p3>+<q3>j;\n}',
          'draw("n2", "A", "ground", "", z=complex(N("p"), N("q"))), draw("n2", "B", "ground", "", z=complex(N("p2"), -N("q2"))), draw("n2", "C", "ground", "", z=complex(N("p3"), N("q3")))')
    loads("mixed parts at one phase", node + head % "ABCN" + ' constant_power_B <p>+<q>j;\n constant_current_B <p2>-<q2>j;\n constant_impedance_B <p3>+<q3>j;\n}',
          'draw("n2", "B", "ground", "", N("p"), N("q"), N("p2"), -N("q2"), complex(N("p3"), N("q3")))')
    loads("purely reactive and purely active parts", node + head % "ABCN" + ' constant_power_A <p>+0j;\n constant_power_B 0+<q>j;\n constant_power_C 0+0j;\n}',
          'draw("n2", "A", "ground", "", N("p"), 0), draw("n2", "B", "ground", "", 0, N("q"))')
    loads("line to line parts", node + head % "ABCN" + ' constant_power_AB <p>+<q>j;\n constant_power_BC <p2>-<q2>j;\n constant_power_CA <p3>+<q3>j;\n}',
          'draw("n2", "A", "n2", "B", N("p"), N("q")), draw("n2", "B", "n2", "C", N("p2"), -N("q2")), draw("n2", "C", "n2", "A", N("p3"), N("q3"))')
    loads("delta loads named by phase", node + head % "ABCD" + ' constant_power_A <p>+<q>j;\n constant_current_B <p2>-<q2>j;\n constant_impedance_C <p3>+<q3>j;\n}',
          'draw("n2", "A", "n2", "B", N("p"), N("q")), draw("n2", "B", "n2", "C", i=N("p2"), j=-N("q2")), draw("n2", "C", "n2", "A", z=complex(N("p3"), N("q3")))')
    loads("delta loads named by pair", node + head % "ABCD" + ' constant_power_AB <p>+<q>j;\n constant_power_CA <p2>-<q2>j;\n}',
          'draw("n2", "A", "n2", "B", N("p"), N("q")), draw("n2", "C", "n2", "A", N("p2"), -N("q2"))')
    loads("a load with nodes of its own", head.replace(" parent n2;\n", "") % "ACN" + ' constant_power_A <p>+<q>j;\n constant_power_C <p2>-<q2>j;\n}',
          'draw("l2", "A", "ground", "", N("p"), N("q")), draw("l2", "C", "ground", "", N("p2"), -N("q2"))')
    loads("a load at a meter inside a node", node + 'object meter {\n name m2;\n parent n2;\n phases "ABCN";\n nominal_voltage <v2>;\n}\n' + head.replace("parent n2", "parent m2") % "ABCN" + ' constant_power_A <p>+<q>j;\n}',
          'draw("n2", "A", "ground", "", N("p"), N("q"))')
    tm = 'object triplex_meter {\n name t1;\n phases CS;\n nominal_voltage <v2>;\n}\n'
    for own_ in (False, True):
        at = "t2" if own_ else "t1"
        th = "object triplex_node {\n name t2;\n" + ("" if own_ else " parent t1;\n") + " phases CS;\n nominal_voltage <v2>;\n"
        lab = "a triplex node of its own" if own_ else "a triplex node at a meter"
        loads(f"{lab}, across", tm + th + " power_12 <p>+<q>j;\n}", f'draw("{at}", "1", "{at}", "2", N("p"), N("q"))')
        loads(f"{lab}, each leg", tm + th + " power_1 <p>+<q>j;\n power_2 <p2>-<q2>j;\n}", f'draw("{at}", "1", "ground", "", N("p"), N("q")), draw("{at}", "2", "ground", "", N("p2"), -N("q2"))')
        loads(f"{lab}, impedances", tm + th + " impedance_12 <p>+<q>j;\n impedance_1 <p2>-<q2>j;\n}", f'draw("{at}", "1", "{at}", "2", z=complex(N("p"), N("q"))), draw("{at}", "1", "ground", "", z=complex(N("p2"), -N("q2")))')
    loads("triplex loads", tm + "object triplex_load {\n name t2;\n parent t1;\n phases CS;\n nominal_voltage <v2>;\n constant_power_1 <p>+<q>j;\n constant_power_12 <p2>-<q2>j;\n\n constant_power_2 <p3>+<q3>j;\n}",
          'draw("t1", "1", "ground", "", N("p"), N("q")), draw("t1", "1", "t1", "2", N("p2"), -N("q2")), draw("t1", "2", "ground", "", N("p3"), N("q3"))')
    loads("several loads at one node", node + head % "ABCN" + ' constant_power_A <p>+<q>j;\n}\n' + head.replace("l2", "l3") % "ABCN" + ' constant_power_A <p2>-<q2>j;\n constant_power_B <p3>+<q3>j;\n}',
          'draw("n2", "A", "ground", "", N("p") + N("p2"), N("q") - N("q2")), draw("n2", "B", "ground", "", N("p3"), N("q3"))')
