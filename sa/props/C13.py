"""RAW transformers: ratio, phase shift and leakage impedance in the solver's per unit for every unit
convention of the record; a three-winding transformer becomes its star of three."""
from ._raw import *

P = "src/logic/network/parsers/raw/parse_transformers.py:"
KV = {1: "138.0", 2: "69.0", 3: "13.8", 4: "138.0"}
X2 = "[(x.from_bus_pos.Bus, x.to_bus_pos.Bus, x.from_bus_pos is at[x.from_bus_pos.Bus] and x.to_bus_pos is at[x.to_bus_pos.Bus], x.from_bus_neg is GROUND and x.to_bus_neg is GROUND, x.tr, x.ang_rad, x.G_loss, x.B_loss) for x in n.transformers]"
NAMES = ["primary bus", "secondary bus", "attached to the network's buses", "returns to ground", "turns ratio", "phase shift", "series conductance", "series susceptance"]
TXT = '''
from oracle import N
BASE = SBASE
def row(i, j, tr, ang, r, x):
    return (i, j, True, True, tr, ang * math.pi / 180, r / (r * r + x * x), -x / (r * r + x * x))
def client():
    n = load(ROWS)
    at = {b.Bus: b for b in n.buses}
    star = max(at)
    return (GOT, WANT)
'''
RATIO = {"1": ("N('w1')", "N('w2')"), "2": ("(N('w1') / 138.0)", "(N('w2') / 69.0)"), "3": ("(N('w1') * 140.0 / 138.0)", "(N('w2') * 66.0 / 69.0)")}
ZED = {"1": ("N('r')", "N('x')"), "2": ("(N('r') * BASE / 80.0)", "(N('x') * BASE / 80.0)"),
       "3": ("(N('r') / (1e6 * 80.0) * BASE / 80.0)", "(math.sqrt(N('x') ** 2 - (N('r') / (1e6 * 80.0)) ** 2) * BASE / 80.0)")}


def buses(v):
    return [bus(v, 1, 3, kv="138.0"), bus(v, 2, 1, kv="69.0"), bus(v, 3, 1, kv="13.8"), bus(v, 9, 4, kv="69.0")]


def go(ctx, label, v, base, sections, got, want, names=NAMES, where=P + "TwoWindingXfmrs"):
    o = raw(ctx, TXT.replace("SBASE", base).replace("ROWS", rows(v, base, **sections)).replace("GOT", got).replace("WANT", want))
    g, w = items(o.only())
    differ(ctx, label, where, g, w, names)
    return o


def pair(cw, cz, w1="w1", w2="w2"):
    ti, tj = RATIO[cw]
    r, x = ZED[cz]
    return f"row(1, 2, {ti} / {tj}, N('a'), {r} * {tj} ** 2, {x} * {tj} ** 2)"


def two(ctx):
    W = P + "TwoWindingXfmrs"
    for v in (30, 32, 33, 34):
        for base in ("100.0", "50.0"):
            for cw in "123":
                for cz in "123":
                    if v != 33 and (cw, cz) not in (("1", "1"), ("2", "3"), ("3", "2")):
                        continue
                    lab = f"revision {v}, base {base}: winding code {cw}, impedance code {cz}"
                    rec = xfmr2(v, 1, 2, "1", 1, cw, cz, r="=r", x="=x", sb="80.0", w1="=w1", n1="140.0", ang="=a", w2="=w2", n2="66.0")
                    ctx.section(lab, W, lambda: go(ctx, lab, v, base, dict(bus=buses(v), xfmr=rec), X2, f"[{pair(cw, cz)}]"))
    for v in (30, 32, 33, 34):
        lab = f"revision {v}: bus voltage stands in for a nominal voltage of zero"
        rec = xfmr2(v, 1, 2, "1", 1, "3", "1", r="=r", x="=x", w1="=w1", n1="0.0", ang="=a", w2="=w2", n2="0.0")
        ctx.section(lab, W, lambda: go(ctx, lab, v, "100.0", dict(bus=buses(v), xfmr=rec), X2, "[row(1, 2, N('w1') / N('w2'), N('a'), N('r') * N('w2') ** 2, N('x') * N('w2') ** 2)]"))
        for n1, n2, ti, tj in (("140.0", "0.0", "(N('w1') * 140.0 / 138.0)", "N('w2')"), ("0.0", "66.0", "N('w1')", "(N('w2') * 66.0 / 69.0)")):
            lab = f"revision {v}: nominal voltages {n1} and {n2}"
            rec = xfmr2(v, 1, 2, "1", 1, "3", "1", r="=r", x="=x", w1="=w1", n1=n1, ang="=a", w2="=w2", n2=n2)
            ctx.section(lab, W, lambda: go(ctx, lab, v, "100.0", dict(bus=buses(v), xfmr=rec), X2, f"[row(1, 2, {ti} / {tj}, N('a'), N('r') * {tj} ** 2, N('x') * {tj} ** 2)]"))
        lab = f"revision {v}: blank fields"
        rec = xfmr2(v, 1, 2, "1", "_", "_", "_", "_", "_ _", "_", "=x", "_", "_", "_", "_", "_", "_", "_", "_ _ _")
        ctx.section(lab, W, lambda: go(ctx, lab, v, "100.0", dict(bus=buses(v), xfmr=rec), X2, "[row(1, 2, 1, 0, 0, N('x'))]"))
        lab = f"revision {v}: in and out of service, parallel, turned round and at an isolated bus"
        rec = xfmr2(v, 1, 2, "1", 1, r="=r", x="=x", ang="=a") + xfmr2(v, 1, 2, "2", 1, r="=r2", x="=x2", w1="=t2") + xfmr2(v, 1, 3, "1", 0) + xfmr2(v, 9, 2, "1", 1) + xfmr2(v, 3, 9, "1", 1) + xfmr2(v, 3, 2, "1", 1, r="=r3", x="=x3")
        ctx.section(lab, W, lambda: go(ctx, lab, v, "100.0", dict(bus=buses(v), xfmr=rec), X2, "[row(1, 2, 1, N('a'), N('r'), N('x')), row(1, 2, N('t2'), 0, N('r2'), N('x2')), row(3, 2, 1, 0, N('r3'), N('x3'))]"))
        lab = f"revision {v}: circuit identifiers tell parallel transformers apart"
        rec = sum((xfmr2(v, 1, 2, k, 1, r="0.0", x=f"=x{k}") for k in ("1", "10", "01", "A1")), [])
        ctx.section(lab, W, lambda: go(ctx, lab, v, "100.0", dict(bus=buses(v), xfmr=rec), "[(1, sum(x.B_loss for x in n.transformers))]", "[(1, -sum(1 / N('x' + k) for k in ('1', '10', '01', 'A1')))]", ["bus", "susceptance of all of them"]))
        for cod in "123":
            lab = f"revision {v}: control mode {cod} leaves the solved position alone"
            rec = xfmr2(v, 1, 2, "1", 1, "1", "1", r="=r", x="=x", w1="=w1", ang="=a", w2="=w2", cod=cod, tap="1.2 0.8 1.05 0.95 17")
            ctx.section(lab, W, lambda: go(ctx, lab, v, "100.0", dict(bus=buses(v), xfmr=rec), X2, f"[{pair('1', '1')}]"))


Z3 = {"1": ([f"N('r{q}')" for q in range(3)], [f"N('x{q}')" for q in range(3)]),
      "2": ([f"N('r{q}') * BASE / {s}" for q, s in enumerate(("80.0", "50.0", "40.0"))], [f"N('x{q}') * BASE / {s}" for q, s in enumerate(("80.0", "50.0", "40.0"))])}
def loss3(q, s):
    return f"(N('r{q}') / (1e6 * {s}))"


Z3["3"] = ([f"{loss3(q, s)} * BASE / {s}" for q, s in enumerate(("80.0", "50.0", "40.0"))], [f"math.sqrt(N('x{q}') ** 2 - {loss3(q, s)} ** 2) * BASE / {s}" for q, s in enumerate(("80.0", "50.0", "40.0"))])
T3 = {"1": [f"N('w{q}')" for q in range(3)], "2": [f"N('w{q}') / {k}" for q, k in enumerate(("138.0", "69.0", "13.8"))], "3": [f"N('w{q}') * {m} / {k}" for q, (m, k) in enumerate((("140.0", "138.0"), ("66.0", "69.0"), ("14.0", "13.8")))]}


def star(cw, cz, parts=(0, 1, 2), at="star", ends=(1, 2, 3)):
    (a, b, c), (d, e, f) = Z3[cz]
    rs = [f"({a} + {c} - {b}) / 2", f"({a} + {b} - {c}) / 2", f"({b} + {c} - {a}) / 2"]
    xs = [f"({d} + {f} - {e}) / 2", f"({d} + {e} - {f}) / 2", f"({e} + {f} - {d}) / 2"]
    return "[" + ", ".join(f"row({ends[q]}, {at}, {T3[cw][q]}, N('a{q}'), {rs[q]}, {xs[q]})" for q in parts) + "]"


def rec3(v, st, cw="1", cz="1", ends=(1, 2, 3), ckt="1"):
    y = lambda n: tuple(f"={n}{q}" for q in range(3))
    return xfmr3(v, *ends, ckt, st, cw, cz, r=y("r"), x=y("x"), sb=("80.0", "50.0", "40.0"), w=y("w"), n=("140.0", "66.0", "14.0"), ang=y("a"), vm="=vm", va="=va")


def three(ctx):
    W = P + "ThreeWindingXfmrs"
    for v in (32, 33, 34):
        for base in ("100.0", "50.0"):
            for cw in "123":
                for cz in "123":
                    if v != 33 and cw != "3":
                        continue
                    lab = f"revision {v}, base {base}: three windings, winding code {cw}, impedance code {cz}"
                    ctx.section(lab, W, lambda: go(ctx, lab, v, base, dict(bus=buses(v), xfmr=rec3(v, 1, cw, cz)), X2, star(cw, cz), where=W))
        for zero, ratio in ((0, "N('w0')"), (1, "N('w1')"), (2, "N('w2')")):
            lab = f"revision {v}: three windings, bus voltage for the nominal voltage of winding {zero + 1}"
            noms = ["140.0", "66.0", "14.0"]
            noms[zero] = "0.0"
            keep = T3["3"][zero]

            def nominal():
                T3["3"][zero] = ratio
                try:
                    want = star("3", "1")
                finally:
                    T3["3"][zero] = keep
                rec = xfmr3(v, 1, 2, 3, "1", 1, "3", "1", r=("=r0", "=r1", "=r2"), x=("=x0", "=x1", "=x2"), w=("=w0", "=w1", "=w2"), n=tuple(noms), ang=("=a0", "=a1", "=a2"))
                go(ctx, lab, v, "100.0", dict(bus=buses(v), xfmr=rec), X2, want, where=W)
            ctx.section(lab, W, nominal)
        for st, parts in ((0, ()), (2, (0, 2)), (3, (0, 1)), (4, (1, 2))):
            lab = f"revision {v}: three windings, status {st}"
            ctx.section(lab, W, lambda: go(ctx, lab, v, "100.0", dict(bus=buses(v), xfmr=rec3(v, st)), X2, star("1", "1", parts), where=W))
        for ends, parts in (((9, 2, 3), (1, 2)), ((1, 9, 3), (0, 2)), ((1, 2, 9), (0, 1))):
            lab = f"revision {v}: three windings, winding {ends.index(9) + 1} at an isolated bus"
            ctx.section(lab, W, lambda: go(ctx, lab, v, "100.0", dict(bus=buses(v), xfmr=rec3(v, 1, "1", "1", ends)), X2, star("1", "1", parts, ends=ends), where=W))

        def node():
            lab = f"revision {v}: star bus"
            o = go(ctx, lab, v, "100.0", dict(bus=buses(v), xfmr=rec3(v, 1) + rec3(v, 1, ckt="2") + rec3(v, 0, ckt="3") + xfmr2(v, 1, 2, "1", 1)),
                   "[(b.Vr_init, b.Vi_init, b.Bus not in (1, 2, 3, 9)) for b in n.buses if b.Bus not in (1, 2, 3)]", "[(N('vm') * math.cos(N('va') * math.pi / 180), N('vm') * math.sin(N('va') * math.pi / 180), True)] * 2",
                   ["real initial voltage", "imaginary initial voltage", "number of its own"], where=W)
            o = go(ctx, lab + ", sharing", v, "100.0", dict(bus=buses(v), xfmr=rec3(v, 1) + rec3(v, 1, ckt="2")),
                   "[(len({b.Bus for b in n.buses}), len(n.buses), len(n.transformers), len({x.to_bus_pos.Bus for x in n.transformers[:3]}), len({x.to_bus_pos.Bus for x in n.transformers}))]", "[(5, 5, 6, 1, 2)]",
                   ["distinct numbers", "buses", "windings", "one star bus each", "not shared"], where=W)
        ctx.section(f"revision {v}: star bus", W, node)


def run(ctx):
    two(ctx)
    three(ctx)
