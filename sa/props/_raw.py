"""RAW case files as rows of fields: fields are either concrete text or symbolic tokens."""
from ..algebra import *
from ..interp import AnalysisError
from ._cl import *

TOK = "\u2039"        # marks a field whose number is not known: text that no literal equals


def tok(n):
    """the number in a field of the file"""
    return mk("float", C(TOK + n))


HEAD = '''
import csv
from logic.network.networkloader import NetworkLoader
from logic.powerflowsettings import PowerFlowSettings
from models.components.bus import GROUND
from oracle import feed
import math
def load(rows):
    feed(rows)
    return NetworkLoader(PowerFlowSettings()).from_file("case.RAW")
'''
ENDS = {"bus": "BUS DATA", "load": "LOAD DATA", "fshunt": "FIXED SHUNT DATA", "gen": "GENERATOR DATA", "branch": "BRANCH DATA", "xfmr": "TRANSFORMER DATA"}


def order(v):
    """sections of a case file of revision v, in file order"""
    s = []
    if v == 34:
        s.append("system")
    s += ["bus", "load"]
    if v != 30:
        s.append("fshunt")
    s += ["gen", "branch"]
    if v == 34:
        s.append("switching")
    s += ["xfmr", "area", "dc2", "vsc"]
    if v == 30:
        s.append("sshunt")
    s += ["imp", "mtdc", "msline", "zone", "transfer", "owner", "facts"]
    if v != 30:
        s.append("sshunt")
    if v in (33, 34):
        s.append("gne")
    if v == 34:
        s += ["induction", "substation"]
    return s


def fields(x):
    """'1 B1 =vm 0' -> python list text; =name is a symbolic token, _ an empty field"""
    out = []
    for f in x.split():
        out.append(f'"{TOK}{f[1:]}"' if f[0] == "=" else '""' if f == "_" else repr(f))
    return "[" + ", ".join(out) + "]"


def rows(v, sbase="100.0", keys=False, **sections):
    out = []
    if v == 30:
        out.append(f'["0", "{sbase}"]')
    else:
        out.append(f'["0", "{sbase}", "{v}", "0", "0", "60.00       / date"]')
    out += ['["title"]', '["more"]']
    for s in order(v):
        if keys and s != "system":
            out.append('["@!   I", "ID"]')
        for r in sections.get(s, []):
            out.append(fields(r))
        out.append(f'["0 / END OF {s.upper()} DATA", "BEGIN NEXT DATA"]')
    out.append('["Q"]')
    return "[" + ",\n    ".join(out) + "]"


def raw(ctx, text, E=None, **kw):
    E = E or ctx.engine()
    E.exact_try = True
    E.while_unroll = 40
    box = {}

    def feed(a, k, st, fr):
        box["rows"] = a[0]
        return NONE
    m = {"oracle.feed": feed, "oracle.N": lambda a, k, st, fr: tok(a[0].a[0]), "csv.reader": lambda a, k, st, fr: box["rows"],
         "logic.network.networkloader.pull_network_file": lambda a, k, st, fr: a[0]}
    return client(ctx, HEAD + text, E=E, models=m, **kw)


def bus(v, i, ide, vm="1.0", va="0.0", name=None, kv="138.0", gl="0", bl="0"):
    name = name or f"B{i}"
    if v == 30:
        return f"{i} {name} {kv} {ide} {gl} {bl} 1 1 {vm} {va} 1"
    return f"{i} {name} {kv} {ide} 1 1 1 {vm} {va}" + (" 1.1 0.9 1.15 0.85" if v in (33, 34) else "")


def loadrec(v, i, id, st, pl, ql, ip="0", iq="0", yp="0", yq="0"):
    return f"{i} {id} {st} 1 1 {pl} {ql} {ip} {iq} {yp} {yq} 1" + {30: "", 32: " 1", 33: " 1 0", 34: " 1 0 0 0 1"}[v]


def gen(v, i, id, st, pg, qg, qt, qb, vs, tail=""):
    return f"{i} {id} {pg} {qg} {qt} {qb} {vs} 0 90.0 0.01 1.0 0.02 0.03 1.05 {st} 80.0 999.0 11.0 1 1.0{tail}"


def wind(mode, pf):
    return f" 0 1.0 0 1.0 0 1.0 {mode} {pf}"


def branch(v, i, j, ckt, st, r, x, b, gi="0", bi="0", gj="0", bj="0"):
    rates = " ".join(f"{100 + k}.0" for k in range(12 if v == 34 else 3))
    name = " NAME" if v == 34 else ""
    return f"{i} {j} {ckt} {r} {x} {b}{name} {rates} {gi} {bi} {gj} {bj} {st} 1 3.5 1 1.0"


def sshunt(v, i, mode, st, hi, lo, binit, blocks=""):
    if v == 30:
        return f"{i} {mode} {hi} {lo} 0 90.0 RM {binit} {blocks}"
    return f"{i} {mode} 0 {st} {hi} {lo} 0 90.0 RM {binit} {blocks}"


def xfmr2(v, i, j, ckt, st, cw="1", cz="1", cm="1", mag="0.0 0.0", r="0.01", x="0.1", sb="100.0", w1="1.0", n1="0.0", ang="0.0", w2="1.0", n2="0.0", cod="0", rates="0.0 0.0 0.0", tap="1.1 0.9 1.1 0.9 33", k="0"):
    tail = " 0 1.0 0 1.0 0 1.0 YNyn0" if v in (33, 34) else ""
    cn = " 0.0" if v in (33, 34) else ""
    return [f"{i} {j} {k} {ckt} {cw} {cz} {cm} {mag} 2 NAME {st} 1 1.0{tail}", f"{r} {x} {sb}", f"{w1} {n1} {ang} {rates} {cod} 0 {tap} 0 0.0 0.0{cn}", f"{w2} {n2}"]


def xfmr3(v, i, j, k, ckt, st, cw="1", cz="1", mag="0.0 0.0", r=("0.01", "0.02", "0.03"), x=("0.1", "0.2", "0.15"), sb=("100.0",) * 3, w=("1.0",) * 3, n=("0.0",) * 3, ang=("0.0",) * 3, vm="1.0", va="0.0"):
    tail = " 0 1.0 0 1.0 0 1.0 YNyn0d1" if v in (33, 34) else ""
    cn = " 0.0" if v in (33, 34) else ""
    out = [f"{i} {j} {k} {ckt} {cw} {cz} 1 {mag} 2 NAME {st} 1 1.0{tail}", " ".join(f"{r[q]} {x[q]} {sb[q]}" for q in range(3)) + f" {vm} {va}"]
    return out + [f"{w[q]} {n[q]} {ang[q]} 0.0 0.0 0.0 0 0 1.1 0.9 1.1 0.9 33 0 0.0 0.0{cn}" for q in range(3)]


def differ(ctx, label, where, got, want, names=None, assume=None):
    """obligation: two lists of records agree field by field"""
    place = lambda r: next(((x.a[0],) for x in items(r)[:1] if x.op == "c" and isinstance(x.a[0], int)), ())
    g, w = sorted(items(got), key=place), sorted(items(want), key=place)     # elements of different buses may come in any order
    ctx.must(f"{label}: as many as the file describes", len(g) == len(w), where, f"{len(g)} instead of {len(w)}")
    for k, (a, b) in enumerate(zip(g, w)):
        fa, fb = items(a), items(b)
        for q, (x, y) in enumerate(zip(fa, fb)):
            nm = names[q] if names else f"field {q}"
            if x is y:
                ctx.ob(f"{label} {k + 1}: {nm}", None, where)
            else:
                ctx.ob(f"{label} {k + 1}: {nm}", compare(y, x), where)
