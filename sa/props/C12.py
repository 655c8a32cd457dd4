"""RAW case files: every in-service record becomes one element at the bus with the record's number,
in per unit and radians; what is out of service or on an isolated bus becomes nothing."""
from ._raw import *

P = "src/logic/network/parsers/raw/"
ALL = (30, 32, 33, 34)
FULL = (32, 33, 34)


def base(v, *more):
    return [bus(v, 1, 3), bus(v, 2, 2), bus(v, 3, 1), bus(v, 9, 4)] + list(more)


SC = []


def sc(label, where, versions, sections, got, want, names, setup=""):
    SC.append((label, where, versions, sections, got, want, names, setup))


sc("buses", P + "data_classes.py:Bus_data", ALL,
   lambda v: dict(bus=[bus(v, 7, 1, "=vm1", "=va1", "Q7"), bus(v, 2, 2, "=vm2", "=va2"), bus(v, 40, 3, "=vm3", "=va3"), bus(v, 5, 4, "=vm4", "=va4"), bus(v, 41, 1, "_", "_")]),
   "[(b.Bus, b.Vr_init, b.Vi_init, b.NodeName) for b in n.buses]",
   "[(i, m * math.cos(a * math.pi / 180), m * math.sin(a * math.pi / 180), s) for i, m, a, s in ((2, N('vm2'), N('va2'), 'B2'), (7, N('vm1'), N('va1'), 'Q7'), (40, N('vm3'), N('va3'), 'B40'), (41, 1, 0, 'B41'))]",
   ["number", "real initial voltage", "imaginary initial voltage", "name"])

L = "[(l.from_bus.Bus, l.from_bus is at[l.from_bus.Bus], l.to_bus is GROUND, l.P, l.Q, l.G, l.B, l.IP, l.IQ) for l in n.loads]"
LN = ["bus", "attached to the network's bus", "returns to ground", "active power", "reactive power", "conductance", "susceptance", "real constant current", "imaginary constant current"]
sc("constant power loads", P + "data_classes.py:Load_data", ALL,
   lambda v: dict(bus=base(v), load=[loadrec(v, 3, "1", 1, "=p1", "=q1"), loadrec(v, 3, "2", 1, "=p2", "=q2"), loadrec(v, 2, "1", 0, "=p3", "=q3"), loadrec(v, 9, "1", 1, "=p4", "=q4"), loadrec(v, 1, "X", 1, "=p5", "=q5"),
                                     loadrec(v, 2, "2", "_", "_", "=q6")]),
   L, "[(b, True, True, p / 100, q / 100, 0, 0, 0, 0) for b, p, q in ((1, N('p5'), N('q5')), (2, 0, N('q6')), (3, N('p1'), N('q1')), (3, N('p2'), N('q2')))]", LN)
sc("constant current and impedance loads", P + "data_classes.py:Load_data", ALL,
   lambda v: dict(bus=base(v), load=[loadrec(v, 3, "1", 1, "=p1", "=q1", "=ip", "=iq"), loadrec(v, 2, "1", 1, "=p2", "=q2", yp="8.0", yq="-4.0"), loadrec(v, 1, "1", 1, "0", "0", "=ip3", "=iq3", "3.0", "0")]),
   L, "[(1, True, True, 0, 0, 3 / 100, 0, N('ip3') / 100, -N('iq3') / 100), (2, True, True, N('p2') / 100, N('q2') / 100, 8 / 100, -4 / 100, 0, 0), (3, True, True, N('p1') / 100, N('q1') / 100, 0, 0, N('ip') / 100, -N('iq') / 100)]", LN)

S = "[(s.bus.Bus, s.bus is at[s.bus.Bus], s.G, s.B) for s in n.shunts]"
SN = ["bus", "attached to the network's bus", "conductance", "susceptance"]
sc("fixed shunts", P + "data_classes.py:Fixed_shunt_data", FULL,
   lambda v: dict(bus=base(v), fshunt=["3 1 1 2.5 =b1", "3 2 1 =g2 -7.0", "2 1 0 3.0 4.0", "9 1 1 3.0 4.0", "1 1 1 _ 6.0", "2 2 1 0.0 0.0", "1 2 _ 5.0 0"]),
   S, "[(1, True, 0, 6.0 / 100), (1, True, 5 / 100, 0), (3, True, 2.5 / 100, N('b1') / 100), (3, True, N('g2') / 100, -7.0 / 100)]", SN)
sc("bus shunts of revision 30", P + "parser.py:parse_raw", (30,),
   lambda v: dict(bus=[bus(v, 1, 3, gl="2.5", bl="=b1"), bus(v, 2, 1, gl="0", bl="6.0"), bus(v, 9, 4, gl="2", bl="3"), bus(v, 4, 1)]),
   S, "[(1, True, 2.5 / 100, N('b1') / 100), (2, True, 0, 6.0 / 100)]", SN)
sc("locked switched shunts", P + "data_classes.py:Switched_shunt_data", ALL,
   lambda v: dict(bus=base(v, bus(v, 4, 1), bus(v, 5, 1)), sshunt=[sshunt(v, 3, 0, 1, "1.1", "0.9", "=b1", "2 =s1 1 =s2"), sshunt(v, 4, 1, 1, "1.1", "0.9", "=b2", "2 5.0 1 -3.0"), sshunt(v, 9, 0, 1, "1.1", "0.9", "9.0")]
                  + ([sshunt(v, 5, 0, 0, "1.1", "0.9", "8.0")] if v != 30 else [])),
   S, "[(3, True, 0, N('b1') / 100), (4, True, 0, N('b2') / 100)]", SN)

G = "[(g.bus.Bus, g.bus is at[g.bus.Bus], g.P, g.Vset, g.Qmax, g.Qmin, g.Qinit) for g in n.generators]"
GN = ["bus", "attached to the network's bus", "active power", "voltage setpoint", "upper reactive limit", "lower reactive limit", "initial reactive power"]
sc("generators", P + "data_classes.py:Generator_data", ALL,
   lambda v: dict(bus=base(v, bus(v, 4, 2), bus(v, 5, 2)), gen=[gen(v, 1, "1", 1, "=p0", "=q0", "9.0", "-9.0", "=v0"), gen(v, 4, "1", 1, "=p1", "=q1", "50.0", "-40.0", "=v1"), gen(v, 2, "1", 1, "=p2", "=q2", "_", "_", "_"),
                                                               gen(v, 5, "1", 0, "=p3", "=q3", "50.0", "-40.0", "1.0"), gen(v, 3, "1", 1, "=p4", "=q4", "50.0", "-40.0", "1.0"), gen(v, 9, "1", 1, "5.0", "1.0", "2.0", "-2.0", "1.0")]),
   G, "[(2, True, -N('p2') / 100, 1, -9999 / 100, 9999 / 100, -N('q2') / 100), (4, True, -N('p1') / 100, N('v1'), -50 / 100, 40 / 100, -N('q1') / 100)]", GN)
sc("generators sharing a bus", P + "parser.py:parse_raw", ALL,
   lambda v: dict(bus=base(v, bus(v, 4, 2)), gen=[gen(v, 2, "1", 1, "=p1", "=q1", "50.0", "-40.0", "=v1"), gen(v, 2, "2", 1, "=p2", "=q2", "30.0", "-10.0", "=v1"), gen(v, 2, "3", 0, "=p3", "=q3", "30.0", "-10.0", "=v1"),
                                                  gen(v, 2, "4", 1, "=p4", "=q4", "3.0", "-1.0", "=v1"), gen(v, 4, "1", 1, "=p5", "=q5", "3.0", "-1.0", "=v5")]),
   G, "[(2, True, -(N('p1') + N('p2') + N('p4')) / 100, N('v1'), -83 / 100, 51 / 100, -(N('q1') + N('q2') + N('q4')) / 100), (4, True, -N('p5') / 100, N('v5'), -3 / 100, 1 / 100, -N('q5') / 100)]", GN)
sc("generators of a bus regulating another bus", P + "parser.py:parse_raw", ALL,
   lambda v: dict(bus=base(v, bus(v, 4, 2)), gen=[gen(v, 2, "1", 1, "=p1", "=q1", "50.0", "-40.0", "=v1").replace("=v1 0 ", "=v1 4 "), gen(v, 2, "2", 1, "=p2", "=q2", "30.0", "-10.0", "=v1").replace("=v1 0 ", "=v1 4 "),
                                                  gen(v, 4, "1", 1, "=p5", "=q5", "3.0", "-1.0", "=v5")]),
   G, "[(2, True, -(N('p1') + N('p2')) / 100, N('v1'), -80 / 100, 50 / 100, -(N('q1') + N('q2')) / 100), (4, True, -N('p5') / 100, N('v5'), -3 / 100, 1 / 100, -N('q5') / 100)]", GN)
sc("generators without a reactive range", P + "data_classes.py:Generator_data", ALL,
   lambda v: dict(bus=base(v), load=[loadrec(v, 2, "1", 1, "=p1", "=q1")], gen=[gen(v, 2, "1", 1, "=p2", "=q2", "12.0", "12.0", "=v")]),
   f"{L} + [(0, 0, 0, 0, 0, 0, 0, 0, 0) for g in n.generators]", "[(2, True, True, -N('p2') / 100, -12 / 100, 0, 0, 0, 0), (2, True, True, N('p1') / 100, N('q1') / 100, 0, 0, 0, 0)]", LN)
for pf, s in (("0.8", "-"), ("-0.8", "")):
    sc(f"wind machine at a fixed power factor {pf}", P + "data_classes.py:Generator_data", FULL,
       lambda v, pf=pf: dict(bus=base(v), gen=[gen(v, 2, "1", 1, "40.0", "0", "12.0", "-12.0", "=v", wind(3, pf))]),
       f"{L} + [(0, 0, 0, 0, 0, 0, 0, 0, 0) for g in n.generators]", f"[(2, True, True, -40 / 100, {s}math.sqrt((40 / 0.8) ** 2 - 40 ** 2) / 100, 0, 0, 0, 0)]", LN)
sc("wind machine within a power factor", P + "data_classes.py:Generator_data", FULL,
   lambda v: dict(bus=base(v), gen=[gen(v, 2, "1", 1, "40.0", "=q", "12.0", "-12.0", "=v", wind(2, "0.8"))]),
   G, "[(2, True, -40 / 100, N('v'), -math.sqrt((40 / 0.8) ** 2 - 40 ** 2) / 100, math.sqrt((40 / 0.8) ** 2 - 40 ** 2) / 100, -N('q') / 100)]", GN)
sc("slack generators", P + "data_classes.py:Slack_generator_data", ALL,
   lambda v: dict(bus=[bus(v, 1, 3, "=vm1", "=va1"), bus(v, 6, 3, "=vm2", "=va2"), bus(v, 7, 3), bus(v, 2, 1)],
                  gen=[gen(v, 1, "1", 1, "=p1", "=q1", "50.0", "-40.0", "=v1"), gen(v, 6, "1", 1, "=p2", "=q2", "50.0", "-40.0", "=v2"), gen(v, 7, "1", 0, "=p3", "=q3", "50.0", "-40.0", "=v3"), gen(v, 1, "2", 1, "=p4", "=q4", "50.0", "-40.0", "=v1")]),
   "[(s.bus.Bus, s.bus is at[s.bus.Bus], s.Vr_set, s.Vi_set, s.Pinit) for s in n.slack] + [(0, 0, 0, 0, 0) for g in n.generators]",
   "[(b, True, v * math.cos(a * math.pi / 180), v * math.sin(a * math.pi / 180), p / 100) for b, v, a, p in ((1, N('v1'), N('va1'), N('p1') + N('p4')), (6, N('v2'), N('va2'), N('p2')))]",
   ["bus", "attached to the network's bus", "real voltage", "imaginary voltage", "initial active power"])
sc("continuous switched shunts", P + "parser.py:parse_raw", ALL,
   lambda v: dict(bus=base(v, bus(v, 4, 1)), sshunt=[sshunt(v, 3, 2, 1, "1.1", "=lo", "=b1", "2 5.0 1 -3.0 3 7.0"), sshunt(v, 9, 2, 1, "1.1", "0.9", "9.0")] + ([sshunt(v, 4, 2, 0, "1.1", "0.9", "8.0")] if v != 30 else [])),
   f"{G} + [(0, 0, 0, 0, 0, 0, 0) for s in n.shunts]", "[(3, True, 0, (1.1 + N('lo')) / 2, -(2 * 5 + 3 * 7) * 1.1 ** 2 / 100, 3 * 1.1 ** 2 / 100, -N('b1') * 1.1 ** 2 / 100)]", GN)
sc("a continuous switched shunt's blocks end at the first empty one", P + "parser.py:compute_bmin_bmax", ALL,
   lambda v: dict(bus=base(v), sshunt=[sshunt(v, 3, 2, 1, "1.1", "=lo", "=b1", "2 5.0 1 -3.0 0 0.0 3 7.0")]),
   G, "[(3, True, 0, (1.1 + N('lo')) / 2, -(2 * 5) * 1.1 ** 2 / 100, 3 * 1.1 ** 2 / 100, -N('b1') * 1.1 ** 2 / 100)]", GN)
sc("continuous switched shunt beside a generator", P + "parser.py:parse_raw", ALL,
   lambda v: dict(bus=base(v), gen=[gen(v, 2, "1", 1, "=p1", "=q1", "50.0", "-40.0", "=v1")], sshunt=[sshunt(v, 2, 2, 1, "1.1", "=lo", "=b1", "2 5.0 1 -3.0")]),
   f"{G} + [(0, 0, 0, 0, 0, 0, 0) for s in n.shunts]", "[(2, True, -N('p1') / 100, N('v1'), -(50 + 10 * 1.1 ** 2) / 100, (40 + 3 * 1.1 ** 2) / 100, -(N('q1') + N('b1') * 1.1 ** 2) / 100)]", GN)

B = "[(l.from_bus.Bus, l.to_bus.Bus, l.from_bus is at[l.from_bus.Bus] and l.to_bus is at[l.to_bus.Bus], l.G, l.B, l.B_line) for l in n.lines]"
sc("branches", P + "data_classes.py:Branch_data", ALL,
   lambda v: dict(bus=base(v), branch=[branch(v, 1, 2, "1", 1, "=r1", "=x1", "=b1"), branch(v, 2, 3, "1", 1, "=r2", "=x2", "=b2"), branch(v, 2, 3, "2", 1, "=r3", "=x3", "_"), branch(v, 1, 3, "1", 0, "0.1", "0.2", "0.3"),
                                       branch(v, 9, 2, "1", 1, "0.1", "0.2", "0.3"), branch(v, 1, 9, "1", 1, "0.1", "0.2", "0.3")]),
   f"{B} + [(0, 0, 0, 0, 0, 0) for s in n.shunts]",
   "[(i, j, True, r / (r * r + x * x), -x / (r * r + x * x), b / 2) for i, j, r, x, b in ((1, 2, N('r1'), N('x1'), N('b1')), (2, 3, N('r2'), N('x2'), N('b2')), (2, 3, N('r3'), N('x3'), 0))]",
   ["from bus", "to bus", "attached to the network's buses", "conductance", "susceptance", "charging per end"])
sc("line shunts of branches", P + "data_classes.py:Branch_data", ALL,
   lambda v: dict(bus=base(v), branch=[branch(v, 1, 2, "1", 1, "0.1", "0.2", "0", "0.25", "=b1", "0", "0"), branch(v, 2, 3, "1", 1, "0.1", "0.2", "0", "0", "0", "=g2", "-0.5"), branch(v, 1, 3, "1", 0, "0.1", "0.2", "0", "0.1", "0.2", "0.3", "0.4")]),
   S, "[(1, True, 0.25, N('b1')), (3, True, N('g2'), -0.5)]", SN)
sc("line shunts at both ends", P + "data_classes.py:Branch_data", ALL,
   lambda v: dict(bus=base(v), branch=[branch(v, 1, 2, "1", 1, "0.1", "0.2", "0", "0", "0.75", "0.5", "=b2")]),
   S, "[(1, True, 0, 0.75), (2, True, 0.5, N('b2'))]", SN)

IDS = ("1", "10", "01", "A1")
sc("identifiers tell records of a bus apart", P + "Data.py:Raw", FULL,
   lambda v: dict(bus=base(v), load=[loadrec(v, 3, k, 1, f"=p{k}", f"=q{k}") for k in IDS], fshunt=[f"3 {k} 1 0 =b{k}" for k in IDS], gen=[gen(v, 2, k, 1, f"=g{k}", "0", "50.0", "-40.0", "=v") for k in IDS],
                  branch=[branch(v, 1, 2, k, 1, "=r", "=x", f"=c{k}") for k in IDS]),
   "[(3, sum(l.P for l in n.loads), sum(l.Q for l in n.loads), sum(s.B for s in n.shunts), sum(g.P for g in n.generators), sum(l.B_line for l in n.lines))]",
   "[(3, " + ", ".join("(" + " + ".join(f"N('{f}{k}')" for k in IDS) + ") / " + d for f, d in (("p", "100"), ("q", "100"), ("b", "100"), ("g", "-100"), ("c", "2"))) + ")]",
   ["bus", "active power of all loads", "reactive power of all loads", "susceptance of all fixed shunts", "active power of all machines", "charging of all parallel branches"])

TXT = '''
from oracle import N
def client():
    n = load(ROWS)
    at = {b.Bus: b for b in n.buses}
    return (GOT, WANT)
'''


OTHER = [("loads", "data_classes.py:Load_data", lambda v: dict(bus=base(v), load=[loadrec(v, 3, "1", 1, "=p", "=q")]), "(n.loads[0].P, n.loads[0].Q)", "(N('p') / BASE, N('q') / BASE)"),
         ("generators", "data_classes.py:Generator_data", lambda v: dict(bus=base(v), gen=[gen(v, 2, "1", 1, "=p", "=q", "50.0", "-40.0", "=v")]), "(n.generators[0].P, n.generators[0].Qinit)", "(-N('p') / BASE, -N('q') / BASE)"),
         ("fixed shunts", "data_classes.py:Fixed_shunt_data", lambda v: dict(bus=base(v), fshunt=["3 1 1 2.5 =b"]), "(n.shunts[0].G, n.shunts[0].B)", "(2.5 / BASE, N('b') / BASE)"),
         ("line shunts", "data_classes.py:Branch_data", lambda v: dict(bus=base(v), branch=[branch(v, 1, 2, "1", 1, "=r", "=x", "=b", "0.25", "=bi")]), "(n.shunts[0].G, n.shunts[0].B, n.lines[0].B_line)", "(0.25, N('bi'), N('b') / 2)")]


def scene(ctx, label, where, v, sections, got, want, names, **kw):
    o = raw(ctx, TXT.replace("ROWS", rows(v, **sections, **kw)).replace("GOT", got).replace("WANT", want))
    g, w = items(o.only())
    differ(ctx, f"revision {v}: {label}", where, g, w, names)


def run(ctx):
    for label, where, vs, sec, got, want, names, _ in SC:
        for v in vs:
            ctx.section(f"revision {v}: {label}", where, lambda v=v: scene(ctx, label, where, v, sec(v), got, want, names))
    for label, where, sec, got, want in OTHER:
        def one():
            bad = []
            for b in ("50.0", "1000.0"):
                o = raw(ctx, TXT.replace("ROWS", rows(33, b, **sec(33))).replace("GOT", got).replace("WANT", want.replace("BASE", b)))
                g, w = items(o.only())
                bad += [r for r in (compare(y, x)[0] for x, y in zip(items(g), items(w))) if r]
            ctx.must(f"powers are per unit on the system base of the case: {label}", not bad, P + where, bad[0] if bad else "")
        ctx.section(f"powers are per unit on the system base of the case: {label}", P + where, one)
