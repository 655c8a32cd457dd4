"""Feeder models as text: every line is concrete text, numbers may be symbols (one digit character each)."""
import json
import math
import os
from fractions import Fraction
from ..algebra import *
from ..interp import AnalysisError
from ._cl import *

DIGITS = [chr(c) for c in list(range(0x1D7CE, 0x1D800)) + list(range(0x660, 0x66A)) + list(range(0x6F0, 0x6FA)) + list(range(0x7C0, 0x7CA)) + list(range(0x966, 0x970)) + list(range(0x9E6, 0x9F0)) + list(range(0xA66, 0xA70)) + list(range(0xAE6, 0xAF0)) + list(range(0xB66, 0xB70))]
STAND = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stand")

HEAD = '''
import math
from logic.network.networkloader import NetworkLoader
from logic.powerflowsettings import PowerFlowSettings
from models.components.bus import GROUND
from oracle import N, feed
def load(files, **kw):
    feed(files)
    return NetworkLoader(PowerFlowSettings(**kw)).from_file("case.glm")
'''


def schema(src):
    """source text of the object classes the repository derives from its schema file"""
    p = os.path.join(src, "ditto", "formats", "gridlabd", "schema.json")
    try:
        objs = json.load(open(p))["objects"]
    except (OSError, KeyError, ValueError):
        raise AnalysisError("anchor src/ditto/formats/gridlabd/schema.json not found")
    out = ['''class GridLABDBase:
    _names = ()
    def __getitem__(self, k):
        return getattr(self, "_" + k)
    def __setitem__(self, k, v):
        if k not in self._names:
            raise AttributeError(k)
        setattr(self, "_" + k, v)
''']
    done = set()

    def names(k):
        o = objs[k]
        up = names(o["parent"]) if o["parent"] else []
        return up + [x["name"] for x in o["properties"]]

    def emit(k):
        if k in done:
            return
        done.add(k)
        par = objs[k]["parent"]
        if par:
            emit(par)
        out.append(f"class {k}({par or 'GridLABDBase'}):\n    _names = {tuple(dict.fromkeys(names(k)))!r}\n")
    for k in objs:
        emit(k)
    return "\n".join(out)


FILE = '''
class File:
    def __init__(self, lines):
        self.lines = lines
    def readlines(self):
        return list(self.lines)
    def read(self):
        return "".join(self.lines)
    def close(self):
        pass
    def __iter__(self):
        return list(self.lines)
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return False
'''


class Text:
    """text of a model in which {name} is a symbolic number"""

    def __init__(self):
        self.sym = {}

    def lines(self, text):
        def tok(m):
            n = m.group(1)
            if n not in self.sym:
                self.sym[n] = DIGITS[len(self.sym)]
            return self.sym[n]
        import re
        out = []
        for l in text.strip("\n").split("\n"):
            out.append(re.sub(r"<(\w+)>", tok, l) + "\n")
        return out


def logarithm(x):
    """of a positive number"""
    if x.op == "div":
        return arith("sub", logarithm(x.a[0]), logarithm(x.a[1]))
    if x.op == "mul" and not any(y.op == "neg" or y.op == "c" and y.a[0] < 0 for y in x.a):
        acc = ZERO
        for y in x.a:
            acc = arith("add", acc, logarithm(y))
        return acc
    if x.op == "pow":
        return arith("mul", x.a[1], logarithm(x.a[0]))
    if x.op == "c" and x.a[0] == 1:
        return ZERO
    if x.op == "c" and not isinstance(x.a[0], (bool, complex)) and x.a[0] > 0:
        v = Fraction(x.a[0])
        if v.denominator != 1:
            return arith("sub", logarithm(C(v.numerator)), logarithm(C(v.denominator)))
        f = next((f for f in range(2, min(1000, math.isqrt(v.numerator) + 1)) if v.numerator % f == 0), None)
        if f:
            return arith("add", logarithm(C(f)), logarithm(C(v.numerator // f)))
    return mk("f:log", x)


def is_zero(x):
    """identically zero (every other number is taken to differ from zero)"""
    if x.op == "c":
        return x.a[0] == 0
    if x.op == "complex":
        return is_zero(x.a[0]) and is_zero(x.a[1])
    return False


def glm(ctx, text, files, E=None, sample=None, **kw):
    """analyse `client` of the driver text; files: name -> model text with <name> for symbolic numbers"""
    E = E or ctx.engine()
    E.exact_try = True
    E.strict_attr = True
    E.while_unroll = 40
    T_ = Text()
    data = {n: T_.lines(t) for n, t in files.items()}
    for n, ch in T_.sym.items():
        E.tokens[ch] = S(n)
        E.distinct_syms.add(S(n))
    E.scalars = True
    E.sample.update({S(k): v for k, v in (sample or {}).items()})
    for m in ("numpy", "numpy.linalg", "traitlets"):
        f = {"numpy": "numpy_.py", "numpy.linalg": "numpy_linalg.py", "traitlets": "traitlets.py"}[m]
        E.modtext[m] = open(os.path.join(STAND, f)).read()
    E.modtext["traitlets.traitlets"] = "class ObserveHandler: pass\nclass _deprecated_method: pass\nclass _CallbackWrapper: pass\nclass EventHandler: pass\n"
    E.modtext["ditto.formats.gridlabd.gridlabd"] = schema(E.src)
    E.modtext["ditto.readers.abstract_reader"] = "class AbstractReader:\n    def __init__(self, **kw):\n        pass\n"
    E.modtext["ditto.store"] = "class Store:\n    def __init__(self):\n        self.model_store = []\n        self.model_names = {}\n    @property\n    def models(self):\n        return tuple(self.model_store)\n"
    E.modtext["filestand"] = FILE
    box = {}

    def feed(a, k, st, fr):
        box["files"] = [x.a[0] for x in E.seq_items(a[0], st, fr)]
        return NONE

    def opener(a, k, st, fr):
        n = a[0].a[0] if a[0].op == "c" else None
        name = box["files"][0] if n is None or n == "case.glm" else n
        if name not in data:
            raise AnalysisError(f"a file of another name is read: {n}")
        E.load("filestand")
        lines = E.alloc(st, "list", [("i", C(x)) for x in data[name]])
        for kk, vv in E.base.items():
            st.heap.setdefault(kk, vv)
        return E.instantiate(E.cls("filestand.File"), [lines], {}, st, fr, None)

    inverted = []

    def inverse(a, k, st, fr):
        rows = [E.seq_items(r, st, fr) for r in E.seq_items(a[0], st, fr)]
        n = len(rows)
        if any(len(r) != n for r in rows):
            E.raise_(S("LinAlgError"), st, fr)
        # adjugate over determinant
        def minor(m, i, j):
            return [[m[x][y] for y in range(len(m)) if y != j] for x in range(len(m)) if x != i]

        def det(m):
            if len(m) == 0:
                return ONE
            acc = ZERO
            for j, x in enumerate(m[0]):
                t = arith("mul", x, det(minor(m, 0, j)))
                acc = arith("sub" if j % 2 else "add", acc, t)
            return acc
        if n == 1:
            d = det(rows)
            out = [[arith("div", det(minor(rows, j, i)) if (i + j) % 2 == 0 else arith("neg", det(minor(rows, j, i))), d) for j in range(n)] for i in range(n)]
        else:
            key = mk("tuple", *[mk("tuple", *[E.fz(x, st) for x in r]) for r in rows])
            for old in inverted:        # one name per matrix, however its entries are written
                if len(old.a) == n and all(p is q or compare(p, q)[0] is None for u, v in zip(old.a, key.a) for p, q in zip(u.a, v.a)):
                    key = old
                    break
            else:
                inverted.append(key)
            out = [[mk("complex", *[mk("call", mk("ext", "inverse." + part), key, C(i), C(j)) for part in ("real", "imag")]) for j in range(n)] for i in range(n)]
        return E.alloc(st, "list", [("i", E.alloc(st, "list", [("i", x) for x in r])) for r in out])
    m = {"oracle.feed": feed, "oracle.N": lambda a, k, st, fr: S(a[0].a[0]), "oracle.inverse": inverse,
         "oracle.logarithm": lambda a, k, st, fr: logarithm(a[0]), "math.log": lambda a, k, st, fr: logarithm(a[0]) if len(a) == 1 else arith("div", logarithm(a[0]), logarithm(a[1])), "oracle.zero": lambda a, k, st, fr: C(is_zero(a[0])), "builtins.open": opener,
         "logic.network.networkloader.pull_network_file": lambda a, k, st, fr: a[0],
         "os.path.abspath": lambda a, k, st, fr: a[0]}
    return client(ctx, HEAD + text, E=E, models=m, **kw)


COMMON = '''
ANGLE = {"A": 0, "B": -2 * math.pi / 3, "C": 2 * math.pi / 3}
def rect(mag, ang):
    return (mag * math.cos(ang), mag * math.sin(ang))
def nominal(name, phases, v):
    return [(name, p) + rect(v, ANGLE[p]) for p in phases]
def seen_buses(n):
    return [(b.NodeName, b.NodePhase, b.Vr_init, b.Vi_init) for b in n.buses if not b.IsVirtual]
def place(b):
    return ("ground", "") if b is GROUND else (b.NodeName, b.NodePhase)
def own(n):
    """every element's bus is the bus of the network with its name and phase"""
    at = {(b.NodeName, b.NodePhase): b for b in n.buses}
    ok = len(at) == len(n.buses) and [b.Bus for b in n.buses] == list(range(len(n.buses)))
    for l in n.loads:
        ok = ok and at[place(l.from_bus)] is l.from_bus and (l.to_bus is GROUND or at[place(l.to_bus)] is l.to_bus)
    for s in n.slack:
        ok = ok and at[place(s.bus)] is s.bus
    return ok
def part(x, k):
    return getattr(x, k)
def seen_loads(n):
    """what is drawn between each pair of conductors, all loads there together"""
    keys = []
    for l in n.loads:
        k = place(l.from_bus) + place(l.to_bus)
        if k not in keys:
            keys.append(k)
    out = []
    for k in keys:
        here = [l for l in n.loads if place(l.from_bus) + place(l.to_bus) == k]
        y = sum([1 / l.Z for l in here if l.Z != 0], 0)
        out.append(k + (sum([l.P for l in here], 0), sum([l.Q for l in here], 0), sum([l.IP for l in here], 0), sum([l.IQ for l in here], 0), complex(y).real, complex(y).imag))
    return sorted(out, key=lambda r: r[0] + "." + r[1] + "." + r[2] + "." + r[3])
def ref(rows):
    return sorted(rows, key=lambda r: r[0] + "." + r[1] + "." + r[2] + "." + r[3])
def draw(f, fp, t, tp, p=0, q=0, i=0, j=0, z=None):
    y = 0 if z is None else 1 / z
    return (f, fp, t, tp, p, q, i, j, complex(y).real, complex(y).imag)
'''
SWING = '''
object node {
    name src;
    phases "ABCN";
    voltage_A <ar>+<ai>j;
    voltage_B -<br>-<bi>j;
    voltage_C -<cr>+<ci>j;
    nominal_voltage <nv>;
    bustype SWING;
}
'''
SRC = '[("src", "A", N("ar"), N("ai")), ("src", "B", -N("br"), -N("bi")), ("src", "C", -N("cr"), N("ci"))]'
