"""Feeder files: transformers and their configurations become the couplings, impedances and ratios they describe."""
from ._glm import *
from ._raw import differ

TP = "src/logic/network/parsers/threephase/transformerparser.py:TransformerParser."
NM = ["primary node", "primary phase", "primary return node", "primary return phase", "secondary node", "secondary phase", "secondary return node", "secondary return phase",
      "turn ratio", "series resistance", "series reactance", "phase shift", "in service", "rating"]
CT = ["primary node", "primary phase", "first leg node", "first leg phase", "second leg node", "second leg phase", "turn ratio", "primary conductance", "primary susceptance",
      "first leg conductance", "first leg susceptance", "second leg conductance", "second leg susceptance", "rating"]
SEE = COMMON + '''
def seen(n):
    rows = [place(t.from_bus_pos) + place(t.from_bus_neg) + place(t.to_bus_pos) + place(t.to_bus_neg) + (t.tr, t.r, t.x, t.ang_rad, bool(t.status), t.power_rating) for t in n.transformers]
    return sorted(rows, key=lambda r: r[0] + "." + r[1])
def at_ends(n):
    at = {(b.NodeName, b.NodePhase): b for b in n.buses}
    ok = True
    for t in n.transformers:
        for b in (t.from_bus_pos, t.from_bus_neg, t.to_bus_pos, t.to_bus_neg):
            ok = ok and (b is GROUND or at[place(b)] is b)
    return ok
def want(pairs, v1, v2, s, r, x, k1=1, k2=1, f="n1", t="n2"):
    z = (v2 * k2) * (v2 * k2) / s
    rows = []
    for pp, pn, sp, sn in pairs:
        rows.append((f, pp) + (("ground", "") if pn == "N" else (f, pn)) + (t, sp) + (("ground", "") if sn == "N" else (t, sn)) + (v1 * k1 / (v2 * k2), r * z, x * z, 0, True, s))
    return rows
YY = [("A", "N", "A", "N"), ("B", "N", "B", "N"), ("C", "N", "C", "N")]
DD = [("A", "B", "A", "B"), ("B", "C", "B", "C"), ("C", "A", "C", "A")]
DY = [("A", "B", "A", "N"), ("B", "C", "B", "N"), ("C", "A", "C", "N")]
def tapped(n):
    out = []
    for t in n.transformers:
        a, b, c = t.coils
        out.append(place(a.from_node) + place(b.to_node) + place(c.to_node) + (t.turn_ratio, t.g0, t.b0, t.g1, t.b1, t.g2, t.b2, t.power_rating))
    return sorted(out, key=lambda r: r[0] + "." + r[1])
def tapped_ends(n):
    at = {(b.NodeName, b.NodePhase): b for b in n.buses}
    ok = True
    inner = []
    for t in n.transformers:
        a, b, c = t.coils
        for x in (a.from_node, b.to_node, c.to_node):
            ok = ok and at[place(x)] is x
        for x in (a.primary_node, b.sending_node, c.sending_node):
            ok = ok and at[place(x)] is x and x.IsVirtual and x not in inner
            inner.append(x)
    return ok
def adm(r, x, v, s):
    a = r * v * v / s
    b = x * v * v / s
    none = a == 0 and b == 0
    return (0 if none else a / (a * a + b * b), 0 if none else -b / (a * a + b * b))
def want_tapped(v1, v2, s, z, p="A", f="n1", t="t1"):
    return [(f, p, t, "1", t, "2", v1 / v2) + adm(z[0][0], z[0][1], v1, s) + adm(z[1][0], z[1][1], v2, s) + adm(z[2][0], z[2][1], v2, s) + (s,)]
'''
NODES = 'object node {\n name n1;\n phases "%s";\n nominal_voltage <nv>;\n}\nobject node {\n name n2;\n phases "%s";\n nominal_voltage <nv2>;\n}\n'
TRI = 'object node {\n name n1;\n phases "ABCN";\n nominal_voltage <nv>;\n}\nobject triplex_meter {\n name t1;\n phases %sS;\n nominal_voltage <nv2>;\n}\n'


def config(body, name="tc"):
    return f"object transformer_configuration {{\n name {name};\n" + "".join(f" {x};\n" for x in body) + "}\n"


def unit(ph="ABCN", f="n1", t="n2", name="tr", cfg="tc"):
    return f'object transformer {{\n name {name};\n phases "{ph}";\n from {f};\n to {t};\n configuration {cfg};\n}}\n'


def run(ctx):
    def go(label, model, want, see, ends, names, where):
        def f():
            o = glm(ctx, SEE + f'''
def client():
    n = load(["case.glm"])
    return ({see}(n), {want}, {ends}(n), len(n.transformers))
''', {"case.glm": SWING + model})
            v = o.only()
            differ(ctx, label, where, v.a[0], v.a[1], names)
            ctx.must(f"{label}: connected to the buses of the network", v.a[2] is TRUE, where, show(v.a[2], 6)[:200])
        ctx.section(label, where, f)

    def two(label, model, want):
        go(label, model, want, "seen", "at_ends", NM, TP + "create_three_phase_transformer")

    def tap(label, model, want):
        go(label, model, want, "tapped", "tapped_ends", CT, TP + "create_center_tap_transformer")

    base = ["power_rating <s>", "primary_voltage <v1>", "secondary_voltage <v2>", "resistance <r>", "reactance <x>"]
    N5 = 'N("v1"), N("v2"), N("s") * 1000, N("r"), N("x")'
    nodes = NODES % ("ABCN", "ABCN")
    for kind, pairs, k in (("WYE_WYE", "YY", ""), ("DELTA_DELTA", "DD", ", math.sqrt(3), math.sqrt(3)"), ("DELTA_GWYE", "DY", ", math.sqrt(3), 1")):
        two(f"a {kind} transformer", nodes + config(["connect_type " + kind] + base) + unit(), f"want({pairs}, {N5}{k})")
    two("a numbered connection", nodes + config(["connect_type 3"] + base) + unit(), f"want(DY, {N5}, math.sqrt(3), 1)")
    two("a single phase transformer", nodes + config(["connect_type SINGLE_PHASE"] + base) + unit("BN"), f"want(YY[1:2], {N5})")
    two("a two phase transformer", nodes + config(["connect_type WYE_WYE"] + base) + unit("ACN"), f"want([YY[0], YY[2]], {N5})")
    two("a configuration behind its transformer", nodes + unit() + config(["connect_type WYE_WYE"] + base), f"want(YY, {N5})")
    two("voltages and power with units", nodes + config(["connect_type WYE_WYE", "power_rating <s>kVA", "primary_voltage <v1>kV", "secondary_voltage <v2>kV", "resistance <r>", "reactance <x>"]) + unit(),
        'want(YY, N("v1") * 1000, N("v2") * 1000, N("s") * 1000, N("r"), N("x"))')
    two("voltages and power with units apart", nodes + config(["connect_type WYE_WYE", "power_rating <s> MVA", "primary_voltage <v1> kV", "secondary_voltage <v2> V", "resistance <r>", "reactance <x>"]) + unit(),
        'want(YY, N("v1") * 1000, N("v2"), N("s") * 1000000, N("r"), N("x"))')
    two("an impedance", nodes + config(["connect_type DELTA_DELTA", "power_rating <s>", "primary_voltage <v1>", "secondary_voltage <v2>", "impedance <r>+<x>j"]) + unit(), f"want(DD, {N5}, math.sqrt(3), math.sqrt(3))")
    two("ratings by phase", nodes + config(["connect_type WYE_WYE", "powerA_rating <s>", "powerB_rating <s2>", "powerC_rating <s3>kVA"] + base[1:]) + unit(),
        'want(YY, N("v1"), N("v2"), (N("s") + N("s2") + N("s3")) * 1000, N("r"), N("x"))')
    two("a rating and ratings by phase", nodes + config(["connect_type WYE_WYE", "powerA_rating <s2>", "powerB_rating <s2>"] + base) + unit(), f"want(YY, {N5})")
    two("two transformers of one configuration", nodes + config(["connect_type WYE_WYE"] + base) + unit("AN") + unit("BCN", name="ts", f="src"),
        f'want(YY[0:1], {N5}) + want(YY[1:], {N5}, f="src")')
    two("two configurations", nodes + config(["connect_type WYE_WYE"] + base) + config(["connect_type DELTA_GWYE"] + [b.replace(">", "b>") for b in base], "td") + unit("AN") + unit("ABC", name="ts", f="src", cfg="td"),
        f'want(YY[0:1], {N5}) + want(DY, N("v1b"), N("v2b"), N("sb") * 1000, N("rb"), N("xb"), math.sqrt(3), 1, f="src")')

    ct = ["connect_type SINGLE_PHASE_CENTER_TAPPED"]
    plain = '((N("r") / 2, N("x") * 8 / 10), (N("r"), N("x") * 4 / 10), (N("r"), N("x") * 4 / 10))'
    for ph in "ABC":
        tap(f"a center tapped transformer of phase {ph}", TRI % ph + config(ct + base) + unit(ph + "S", t="t1"), f'want_tapped(N("v1"), N("v2"), N("s") * 1000, {plain}, "{ph}")')
    tap("a center tapped transformer given an impedance", TRI % "B" + config(ct + base[:3] + ["impedance <r>+<x>j"]) + unit("BS", t="t1"), f'want_tapped(N("v1"), N("v2"), N("s") * 1000, {plain}, "B")')
    tap("a center tapped transformer with units", TRI % "B" + config(ct + ["power_rating <s>kVA", "primary_voltage <v1>kV", "secondary_voltage <v2>kV"] + base[3:]) + unit("BS", t="t1"), f'want_tapped(N("v1") * 1000, N("v2") * 1000, N("s") * 1000, {plain}, "B")')
    tap("a center tapped transformer with the rating of its phase", TRI % "C" + config(ct + ["powerC_rating <s>"] + base[1:]) + unit("CS", t="t1"), f'want_tapped(N("v1"), N("v2"), N("s") * 1000, {plain}, "C")')
    tap("a center tapped transformer with its connection by number", TRI % "A" + config(["connect_type 5"] + base) + unit("AS", t="t1"), f'want_tapped(N("v1"), N("v2"), N("s") * 1000, {plain})')
    tap("reactances of each winding", TRI % "A" + config(ct + base + ["impedance1 <r>+<x2>j", "impedance2 <r>+<x3>j"]) + unit("AS", t="t1"),
        'want_tapped(N("v1"), N("v2"), N("s") * 1000, ((N("r") / 2, N("x")), (N("r"), N("x2")), (N("r"), N("x3"))))')
