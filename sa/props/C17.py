"""Feeder files: overhead, underground and triplex lines become the impedance matrices of their conductors (Carson, Kron)."""
from ._glm import *
from ._raw import differ

LI = "src/ditto/readers/gridlabd/line_impedance.py:"
NM = ["from node", "to node", "row phase", "column phase", "resistance", "reactance"]
NY = ["from node", "to node", "row phase", "column phase", "shunt conductance", "shunt susceptance"]
SEE = COMMON + '''
from numpy import log, array
from numpy.linalg import inv
OH = (0.0953, 7.93402)
UG = (0.09327, 7.95153)
PER_MILE = 1609.344
FOOT = 0.3048
def order(rows):
    return sorted(rows, key=lambda r: r[0] + "." + r[1] + "." + r[2] + "." + r[3])
def impedances(n):
    out = []
    for l in n.lines:
        k = len(l.lines)
        out = out + [(l.from_element, l.to_element, l.lines[i].phase, l.lines[j].phase, l.impedances[i][j].real, l.impedances[i][j].imag) for i in range(k) for j in range(k)]
    return order(out)
def shunts(n):
    out = []
    for l in n.lines:
        k = len(l.lines)
        y = l.shunt_admittances
        out = out + [(l.from_element, l.to_element, l.lines[i].phase, l.lines[j].phase, 0 if y is None else y[i][j].real, 0 if y is None else y[i][j].imag) for i in range(k) for j in range(k)]
    return order(out)
def zii(r, g, e):
    return complex(r + e[0], 0.12134 * (log(1 / g) + e[1]))
def zij(d, e):
    return complex(e[0], 0.12134 * (log(1 / d) + e[1]))
def kron(m, n):
    a = [r[:n] for r in m[:n]]
    if len(m) == n:
        return a
    b = [r[n:] for r in m[:n]]
    c = [r[:n] for r in m[n:]]
    d = inv(array([r[n:] for r in m[n:]])).tolist()
    k = range(len(m) - n)
    return [[a[i][j] - sum([sum([b[i][x] * d[x][y] for x in k], 0) * c[y][j] for y in k], 0) for j in range(n)] for i in range(n)]
def span(z, phases, length, f="n1", t="n2"):
    return [(f, t, phases[i], phases[j], (z[i][j] / PER_MILE * length).real, (z[i][j] / PER_MILE * length).imag) for i in range(len(phases)) for j in range(len(phases))]
def overhead(wires, dist, phases, length, f="n1", t="n2"):
    """wires: (name, resistance, radius) in conductor order; dist: of a pair of names"""
    m = [[zii(w[1], w[2], OH) if w[0] == v[0] else zij(dist[w[0] + v[0]] if w[0] < v[0] else dist[v[0] + w[0]], OH) for v in wires] for w in wires]
    return span(kron(m, len(phases)), phases, length, f, t)
def cable(wires, dist, phases, length, f="n1", t="n2"):
    """wires: (name, resistance, radius, neutral resistance, neutral radius, strands, outer diameter, strand diameter); a bare neutral has no more than three"""
    own = [0 if len(w) == 3 else (w[6] - w[7]) / 24 for w in wires]
    core = [k for k, w in enumerate(wires) if len(w) > 3]
    gap = lambda i, j: dist[wires[i][0] + wires[j][0]] if wires[i][0] < wires[j][0] else dist[wires[j][0] + wires[i][0]]
    def to_ring(i, j):
        if i == j:
            return own[i]
        if len(wires[j]) == 3:
            return gap(i, j)
        k = wires[j][5]
        return (gap(i, j) ** k - own[j] ** k) ** (1 / k)
    m = []
    for i in core:
        m.append([zii(wires[i][1], wires[i][2], UG) if i == j else zij(gap(i, j), UG) for j in core] + [zij(to_ring(i, j), UG) for j in range(len(wires))])
    for i in range(len(wires)):
        w = wires[i]
        ring = zii(w[1], w[2], UG) if len(w) == 3 else zii(w[3] / w[5], (w[4] * w[5] * own[i] ** (w[5] - 1)) ** (1 / w[5]), UG)
        m.append([zij(to_ring(j, i), UG) for j in core] + [ring if i == j else zij(gap(i, j), UG) for j in range(len(wires))])
    return span(kron(m, len(core)), phases, length, f, t)
def triplex(wires, d, t, length):
    gap = lambda a, b: (d + t) / 12 if "N" in (a, b) else (d + 2 * t) / 12
    m = [[zii(w[1], w[2], OH) if w[0] == v[0] else zij(gap(w[0], v[0]), OH) for v in wires] for w in wires]
    return span(kron(m, 2), "12", length, "t1", "t2")
def matrix(y, phases, length, f="n1", t="n2"):
    return [(f, t, phases[i], phases[j], (y[i][j] / PER_MILE * length).real, (y[i][j] / PER_MILE * length).imag) for i in range(len(phases)) for j in range(len(phases))]
def uncharged(phases):
    return [("n1", "n2", a, b, 0, 0) for a in phases for b in phases]
def charging(wires, dist, phases, length, f="n1", t="n2"):
    """wires: (name, diameter in inches, height in feet); per end, as the reader halves it"""
    gap = lambda a, b: dist[a + b] if a < b else dist[b + a]
    p = [[11.17689 * (log(2 * w[2] / (w[1] / 24)) if w[0] == v[0] else log((gap(w[0], v[0]) ** 2 + 4 * w[2] * v[2]) ** 0.5 / gap(w[0], v[0]))) for v in wires] for w in wires]
    c = inv(array(kron(p, len(phases)))).tolist()
    return matrix([[2 * math.pi * 60 / 1000000 * 1j * x / 2 for x in r] for r in c], phases, length, f, t)
def cable_charging(wires, phases, length, share, f="n1", t="n2"):
    """wires: (outer diameter, strand diameter, conductor diameter, strands)"""
    def y(o, s, c, k):
        b = (o - s) / 2
        return 77.3619 / 1000000 * 1j / (log(b / (c / 2)) - log(k * s / 2 / b) / k)
    return matrix([[y(*wires[i]) / share if i == j else 0j for j in range(len(wires))] for i in range(len(wires))], phases, length, f, t)
def W(*names):
    return [(x, N("r" + x.lower()), N("g" + x.lower())) for x in names]
def D(*pairs):
    return {p: N("d" + p.lower()) for p in pairs}
'''
NODES = 'object node {\n name n1;\n phases "ABCN";\n nominal_voltage <nv>;\n}\nobject node {\n name n2;\n phases "ABCN";\n nominal_voltage <nv>;\n}\n'
FEET = 'N("len") * FOOT'


def pairs(names):
    return [a + b for i, a in enumerate(names) for b in names[i + 1:]]


def obj(kind, name, *rows):
    return f"object {kind} {{\n name {name};\n" + "".join(f" {r};\n" for r in rows if r) + "}\n"


def oh_wires(names, extra=()):
    return "".join(obj("overhead_line_conductor", "w" + x.lower(), f"geometric_mean_radius <g{x.lower()}>", f"resistance <r{x.lower()}>", *extra) for x in names)


def spacing(names, name="sp", unit=""):
    return obj("line_spacing", name, *[f"distance_{p} <d{p.lower()}>{unit}" for p in pairs(names)])


def config(names, name="lc", sp="sp", kind="line_configuration", pre="w"):
    return obj(kind, name, *[f"conductor_{x} {pre}{x.lower()}" for x in names], f"spacing {sp}" if sp else "")


def line(kind, phases, length="<len>", name="l1", f="n1", t="n2", cfg="lc"):
    return obj(kind, name, f'phases "{phases}"', f"from {f}", f"to {t}", f"length {length}", f"configuration {cfg}")


def run(ctx):
    def go(label, model, want, where, see="impedances", names=NM, cap=False, sample=None):
        def f():
            sm = dict(dab=3, dbc=4, dac=5, dan=5.5, dbn=4.5, dcn=4.6, dae=28, dbe=28, dce=28, dne=24)
            sm.update(sample or {})
            o = glm(ctx, SEE + f'''
def client():
    n = load(["case.glm"], enable_line_capacitance={cap})
    return ({see}(n), order({want}))
''', {"case.glm": SWING + NODES + model}, sample=sm)
            v = o.only()
            differ(ctx, label, where, v.a[0], v.a[1], names)
        ctx.section(label, where, f)

    def over(label, names, phases, want=None, conf=None, sp=None, more="", length="<len>", wires=None, feet=FEET, spname=None, unit=""):
        ph = phases.replace("N", "")
        q = ", ".join(f'"{x}"' for x in names)
        want = want or f'overhead(W({q}), D({", ".join(repr(p) for p in pairs(names))}), "{ph}", {feet})'
        go(label, (wires or oh_wires(names)) + spacing(sp or names, unit=unit) + (conf or config(names)) + line("overhead_line", phases, length) + more, want, LI + "compute_overhead_impedance")
    for lab, names, q in (("three phases and a neutral", "ABCN", "ABCN"), ("three phases", "ABC", "ABC"), ("two phases and a neutral", "BCN", "BCN"),
                          ("two phases", "AC", "AC"), ("one phase and a neutral", "BN", "BN")):
        over("an overhead line of " + lab, names, q)
    over("an overhead line of two phases whose spacing is that of three", "AC", "AC", sp="ABC")
    over("an overhead line of two phases and a neutral whose spacing is that of three", "ACN", "ACN", sp="ABCN")
    for q in ("ABN", "ACN", "BCN", "CN"):
        over(f"an overhead line of phases {q} of a configuration of three and a neutral", q, q, wires=oh_wires("ABCN"), conf=config("ABCN"), sp="ABCN")
    over("an overhead line of phases BC of a configuration of three", "BC", "BC", wires=oh_wires("ABC"), conf=config("ABC"), sp="ABC")
    two = line("overhead_line", "%s", "<len2>", "l2", "n2", "n1", "%s")
    other = 'overhead(W(%s), D(%s), "%s", N("len2") * FOOT, "n2", "n1")'
    over("two lines of one configuration on different phases", "ABN", "ABN", wires=oh_wires("ABCN"), conf=config("ABCN"), sp="ABCN", more=two % ("ACN", "lc"),
         want='overhead(W("A", "B", "N"), D("AB", "AN", "BN"), "AB", N("len") * FOOT) + ' + other % ('"A", "C", "N"', '"AC", "AN", "CN"', "AC"))
    over("two lines of one configuration, one with fewer phases", "BC", "BC", wires=oh_wires("ABC"), conf=config("ABC"), sp="ABC", more=two % ("B", "lc"),
         want='overhead(W("B", "C"), D("BC"), "BC", N("len") * FOOT) + ' + other % ('"B"', "", "B"))
    over("two configurations of the same conductors", "AB", "AB", more=obj("line_spacing", "sp2", "distance_AB <eab>") + config("AB", "lc2", "sp2") + two % ("AB", "lc2"),
         want='overhead(W("A", "B"), D("AB"), "AB", N("len") * FOOT) + overhead(W("A", "B"), {"AB": N("eab")}, "AB", N("len2") * FOOT, "n2", "n1")')
    over("two configurations of the same spacing", "AB", "AB", more=oh_wires("ab").replace("<g", "<h").replace("<r", "<q").replace("wa", "xa").replace("wb", "xb") + config("AB", "lc2", pre="x") + two % ("AB", "lc2"),
         want='overhead(W("A", "B"), D("AB"), "AB", N("len") * FOOT) + overhead([("A", N("qa"), N("ha")), ("B", N("qb"), N("hb"))], D("AB"), "AB", N("len2") * FOOT, "n2", "n1")')
    over("a spacing given in inches", "ABN", "ABN", unit=" in", want='overhead(W("A", "B", "N"), {"AB": N("dab") / 12, "AN": N("dan") / 12, "BN": N("dbn") / 12}, "AB", N("len") * FOOT)')
    for lab, text, metres in (("miles", "<len> mile", "N('len') * 1609.344"), ("kilometres", "<len> km", "N('len') * 1000"), ("kilometres, without a space", "<len>km", "N('len') * 1000"),
                              ("metres", "<len> m", "N('len')"), ("feet", "<len> ft", "N('len') * FOOT")):
        over("a length given in " + lab, "AC", "AC", length=text, feet=metres)
    one = obj("overhead_line_conductor", "w", "geometric_mean_radius <g>cm", "resistance <r>Ohm/km")
    same = 'overhead([(x, N("r") * 1.609344, N("g") / 30.48) for x in "ABN"], D("AB", "AN", "BN"), "AB", %s)'
    cfg1 = obj("line_configuration", "lc", *[f"conductor_{x} w" for x in "ABN"], "spacing sp")
    over("one conductor of metric units for every wire", "ABN", "ABN", wires=one, conf=cfg1, want=same % FEET)
    over("two lines of one configuration", "AC", "AC", more=line("overhead_line", "AC", "<len2>", "l2", "n2", "n1"),
         want='overhead(W("A", "C"), D("AC"), "AC", N("len") * FOOT) + overhead(W("A", "C"), D("AC"), "AC", N("len2") * FOOT, "n2", "n1")')
    over("lines of two configurations", "AC", "AC", more=oh_wires("ab").replace("<g", "<h").replace("<r", "<q").replace("wa", "xa").replace("wb", "xb")
         + obj("line_spacing", "sp2", "distance_AB <eab>") + config("AB", "lc2", "sp2", pre="x") + line("overhead_line", "AB", "<len2>", "l2", "n1", "n2", "lc2"),
         want='overhead(W("A", "C"), D("AC"), "AC", N("len") * FOOT) + overhead([("A", N("qa"), N("ha")), ("B", N("qb"), N("hb"))], {"AB": N("eab")}, "AB", N("len2") * FOOT)')

    def cables(names, strands, bare=""):
        out = ""
        for x in names:
            y = x.lower()
            if x in bare:
                out += obj("underground_line_conductor", "w" + y, f"conductor_gmr <g{y}>", f"conductor_resistance <r{y}>", f"outer_diameter <o{y}>")
            else:
                out += obj("underground_line_conductor", "w" + y, f"outer_diameter <o{y}>", f"conductor_gmr <g{y}>", f"conductor_diameter <c{y}>", f"conductor_resistance <r{y}>",
                           f"neutral_gmr <m{y}>", f"neutral_resistance <q{y}>", f"neutral_diameter <s{y}>", f"neutral_strands {strands[x]}")
        return out

    def cable_wants(names, strands, bare=""):
        return "[" + ", ".join(f'("{x}", N("r{x.lower()}"), N("g{x.lower()}"))' if x in bare else
                               f'("{x}", N("r{x.lower()}"), N("g{x.lower()}"), N("q{x.lower()}"), N("m{x.lower()}"), {strands[x]}, N("o{x.lower()}"), N("s{x.lower()}"))' for x in names) + "]"

    CF = dict(kind="line_configuration")

    def under(label, names, phases, strands, bare="", sp=None, length="<len>", feet=FEET, built=None, second=None):
        ph = phases.replace("N", "")
        sm = {k + x: v for x in "abcn" for k, v in (("o", 1.3), ("s", 0.06), ("c", 0.6), ("g", 0.017), ("m", 0.002), ("r", 0.4), ("q", 14.8))}
        want = f'cable({cable_wants(names, strands, bare)}, D({", ".join(repr(p) for p in pairs(names))}), "{ph}", {feet})'
        if second:
            want += f' + cable({cable_wants(second, strands, bare)}, D({", ".join(repr(p) for p in pairs(second))}), "{second}", N("len2") * FOOT, "n2", "n1")'
        go(label, cables(built or names, strands, bare) + spacing(sp or built or names) + config(built or names) + line("underground_line", phases, length) + (line("underground_line", second, "<len2>", "l2", "n2", "n1") if second else ""), want,
           LI + "compute_underground_impedance", sample=dict(sm, dab=0.5, dbc=0.6, dac=1.0, dan=1.1, dbn=0.7, dcn=0.8))
    under("a cable of one phase", "B", "B", {"B": 13}, sp="AB")
    under("cables of two phases", "AC", "AC", {"A": 13, "C": 13})
    under("cables of two phases with different strands", "AB", "AB", {"A": 13, "B": 16})
    under("cables of two phases and a bare neutral", "BCN", "BCN", {"B": 13, "C": 13}, "N")
    under("a cable of one phase and a bare neutral", "AN", "AN", {"A": 6}, "N")
    under("an underground line of two phases of a configuration of three", "AC", "AC", {"A": 13, "B": 13, "C": 13}, built="ABC")
    under("an underground line of one phase and a bare neutral of a configuration of two", "CN", "CN", {"B": 13, "C": 13}, "N", built="BCN")
    under("two lines of cables of one configuration on different phases", "AB", "AB", {"A": 13, "B": 13, "C": 16}, built="ABC", second="BC")
    under("two lines of cables of one configuration, one with fewer phases", "AC", "AC", {"A": 13, "C": 16}, second="C")
    under("cables of three phases", "ABC", "ABC", {"A": 13, "B": 13, "C": 13})

    TNODES = "".join(obj("triplex_node", t, 'phases "AS"', "nominal_voltage <nv>") for t in ("t1", "t2"))

    def trip(label, length="<len>", feet=FEET, metal=True):
        go(label, TNODES + "".join(obj("triplex_line_conductor", "w" + y, f"geometric_mean_radius <g{y}>", f"resistance <r{y}>") for y in "12n")
           + obj("triplex_line_configuration", "lc", *[f"conductor_{x} w{x.lower()}" for x in "12N"], "insulation_thickness <t>", "diameter <d>")
           + line("triplex_line", "AS", length, f="t1", t="t2"), f'triplex(W("1", "2", "N"), N("d"), N("t"), {feet})', LI + "compute_triplex_impedance")
    trip("a triplex line")
    trip("a triplex line whose length is given in metres", "<len> m", "N('len')")

    # ---- charging.  The reader halves it, and so does the line at each of its ends (known finding): what is compared here is the reader's value.
    def charge(label, names, phases, want=None, conf=None, wires=None, heights=None, q=None, more=""):
        heights = {x: "h" + x.lower() for x in names} if heights is None else heights
        ws = wires or oh_wires(names).replace("resistance", "diameter <xx>;\n resistance")
        for x in names:
            ws = ws.replace("<xx>", f"<d{x.lower()}x>", 1) if not wires else ws
        sp = obj("line_spacing", "sp", *[f"distance_{p} <d{p.lower()}>" for p in pairs(names)], *[f"distance_{x}E <{heights[x]}>" for x in names if heights.get(x)])
        ph = phases.replace("N", "")
        q = ", ".join(f'("{x}", N("d{x.lower()}x"), N("h{x.lower()}"))' for x in phases)
        want = want or f'charging([{q}], D({", ".join(repr(p) for p in pairs(names))}), "{ph}", {FEET})'
        go(label, ws + sp + config(names) + line("overhead_line", phases) + more, want, LI + "compute_overhead_capacitance", "shunts", NY, True,
           dict(ha=28, hb=28.5, hc=29, hn=24, dax=0.7, dbx=0.71, dcx=0.72, dnx=0.5, dan=5.5, dbn=4.5, dcn=4.6))
    charge("the charging of an overhead line of two phases", "AC", "AC")
    charge("the charging of an overhead line of one phase and a neutral", "BN", "BN")
    charge("the charging of an overhead line of two phases and a neutral", "ABN", "ABN")
    charge("the charging of an overhead line of three phases", "ABC", "ABC")
    charge("the charging of an overhead line of three phases and a neutral", "ABCN", "ABCN")
    charge("the charging of an overhead line of two phases of a configuration of three", "ABC", "AC")
    charge("the charging of an overhead line of one phase of a configuration of two and a neutral", "ACN", "CN")
    charge("the charging of two lines of one configuration on different phases", "ABC", "AB", """charging([("A", N("dax"), N("ha")), ("B", N("dbx"), N("hb"))], D("AB"), "AB", N("len") * FOOT)
           + charging([("A", N("dax"), N("ha")), ("C", N("dcx"), N("hc"))], D("AC"), "AC", N("len2") * FOOT, "n2", "n1")""", more=line("overhead_line", "AC", "<len2>", "l2", "n2", "n1"))
    charge("an overhead line whose height is not given has no charging", "AC", "AC", "uncharged('AC')", heights={})
    none = "uncharged('AC')"
    go("no charging when it is turned off", oh_wires("AC") + obj("line_spacing", "sp", "distance_AC <dac>", "distance_AE <h>", "distance_CE <h>") + config("AC") + line("overhead_line", "AC"),
       none, LI + "compute_overhead_capacitance", "shunts", NY, False)

    def ucharge(label, names, phases, strands, bare="", full=False, built=None, second=None):
        sm = {k + x: v for x in "abcn" for k, v in (("o", 1.3), ("s", 0.06), ("c", 0.6), ("g", 0.017), ("m", 0.002), ("r", 0.4), ("q", 14.8))}
        ph = phases.replace("N", "")
        each = lambda q: ", ".join(f'(N("o{x.lower()}"), N("s{x.lower()}"), N("c{x.lower()}"), {strands[x]})' for x in q)
        ws = each(ph)
        go(label, cables(built or names, strands, bare) + spacing(built or (names if len(names) > 1 else "AB")) + config(built or names) + line("underground_line", phases) + (line("underground_line", second, "<len2>", "l2", "n2", "n1") if second else ""),
           f'cable_charging([{ws}], "{ph}", {FEET}, {1 if full else 2})' + (f' + cable_charging([{each(second)}], "{second}", N("len2") * FOOT, 2, "n2", "n1")' if second else ""), LI + "compute_underground_capacitance", "shunts", NY, True, dict(sm, dab=0.5, dbc=0.6, dac=1.0, dbn=0.7, dcn=0.8))
    ucharge("the charging of a cable", "B", "B", {"B": 13})
    ucharge("the charging of cables of two phases", "AC", "AC", {"A": 13, "C": 16})
    ucharge("the charging of cables of two phases and a bare neutral", "BCN", "BCN", {"B": 13, "C": 16}, "N")
    ucharge("the charging of cables of two phases of a configuration of three", "BC", "BC", {"A": 13, "B": 16, "C": 18}, built="ABC")
    ucharge("the charging of two lines of cables of one configuration on different phases", "AB", "AB", {"A": 13, "B": 16, "C": 18}, built="ABC", second="BC")
    ucharge("the charging of a cable in full", "B", "B", {"B": 13}, full=True)

    def given():
        o = glm(ctx, SEE + """
from ditto.readers.gridlabd.read import read_gld_objects_and_schedules
from ditto.readers.gridlabd.line_impedance import try_load_direct_line_impedance
def client():
    feed(["case.glm"])
    found, schedules = read_gld_objects_and_schedules("case.glm")
    z = try_load_direct_line_impedance(found["lc"])
    got = [] if z is None else [(z[i][j].real, z[i][j].imag) for i in range(3) for j in range(3)]
    return (got, [(N("r" + i + j), N("x" + i + j)) for i in "123" for j in "123"])
""", {"case.glm": obj("line_configuration", "lc", *[f"z{i}{j} <r{i}{j}>+<x{i}{j}>j" for i in (1, 2, 3) for j in (1, 2, 3)])})
        v = o.only()
        differ(ctx, "the impedance matrix a configuration gives", LI + "try_load_direct_line_impedance", v.a[0], v.a[1], ["resistance", "reactance"])
    ctx.section("the impedance matrix a configuration gives", LI + "try_load_direct_line_impedance", given)
