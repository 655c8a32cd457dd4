"""Equation system contributed by a network element, derived from its source.

An element object is constructed abstractly, its `assign_nodes` and
`get_stamps` are analysed, and every (equation segment, index map, constants)
triple handed to the stamp builder is composed into equations per matrix row.
"""
import ast
from .term import *
from .interp import AnalysisError, State, Frame
from .algebra import Alg, compare, Cases

MS = "logic.stamping.matrixstamper"


def builders(E):
    """functions of the stamper module that create a StampCollection"""
    m = E.load(MS)
    if m is None:
        raise AnalysisError("anchor module logic.stamping.matrixstamper not found")
    out = set()
    for k, v in m.ns.items():
        if v.op == "func":
            f = E.fns[v.a[0]]
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "StampCollection":
                    out.add(f.qual)
    if not out:
        raise AnalysisError("no function building a StampCollection found in " + MS)
    return out


def V(idx):
    return ZERO if idx is NONE else mk("V", idx)


class System:
    """rows: row index -> term ; cols: set of column indices"""
    def __init__(self):
        self.rows = {}
        self.order = []
        self.parts = []     # (guard, lsegment, constants, rowmap, colmap)
        self.ground = ZERO


class Elements:
    def __init__(self, E):
        self.E = E
        self.b = builders(E)
        E.opaque |= self.b

    def construct(self, qual, kw, opt=FALSE, st=None, pre=None):
        E = self.E
        o, st, fr = E.new_object(qual, [], st, kw)
        if pre is not None:
            st = pre(o, st) or st
        _, st, _ = E.call_method(o, "assign_nodes", [S("node_index"), opt], st)
        return o, st

    def stamps(self, o, st):
        v, st, fr = self.E.call_method(o, "get_stamps", [], st)
        out = []
        self.flatten(self.E.iter_entries(v, st, fr), TRUE, out, st)
        return out, st

    def flatten(self, es, g, out, st):
        for e in es:
            if e[0] == "i":
                self.item(e[1], g, out, st)
            elif e[0] == "g":
                self.flatten(e[2], AND(g, e[1]), out, st)
            elif e[0] == "rest" and e[1].op == "box":
                self.flatten(self.E.unfreeze(e[1]), g, out, st)
            else:
                raise AnalysisError(f"stamp list of unknown shape: {e[0]} {e[1]!r}")

    def item(self, t, g, out, st):
        if t.op == "ite":
            self.item(t.a[1], AND(g, t.a[0]), out, st)
            self.item(t.a[2], AND(g, NOT(t.a[0])), out, st)
            return
        if t.op == "c" and t.a[0] is None:
            return
        if t.op != "call" or t.a[0].op != "func" or t.a[0].a[0] not in self.b:
            raise AnalysisError(f"element stamp is not built by the stamp builder: {t!r}")
        stamper = consts = None
        for x in t.a[1:]:
            y = x.a[1] if x.op == "kw" else x
            for z, gg in self.alts(y):
                c = self.E.class_of(z)
                if c is not None and self.E.class_attr(c, "get_eqn_row_index_str") is not None:
                    stamper = y
            if y.op in ("box", "tuple", "loc"):
                consts = y
        if stamper is None or consts is None:
            raise AnalysisError(f"cannot identify stamper/constants in {t!r}")
        if consts.op == "box":
            consts = [e[1] for e in self.E.unfreeze(consts)]
        elif consts.op == "tuple":
            consts = list(consts.a)
        else:
            consts = [e[1] for e in self.E.entries(st, consts)]
        for s, gg in self.alts(stamper):
            if s is NONE:
                continue
            out.append((AND(g, gg), s, consts))

    def alts(self, t, g=TRUE):
        if t.op == "ite":
            return self.alts(t.a[1], AND(g, t.a[0])) + self.alts(t.a[2], AND(g, NOT(t.a[0])))
        return [(t, g)]

    def seq(self, t, st):
        its = self.E.seq_items(t, st, None)
        if its is None:
            raise AnalysisError(f"unknown sequence {t!r}")
        return its

    def segment(self, seg, st):
        E = self.E
        g = lambda n: E.getattr(seg, n, st, None)
        return g("lagrange"), self.seq(g("constants"), st), self.seq(g("primals"), st), self.seq(g("duals"), st)

    def dual_expr(self, L, duals, k):
        one = absorb(subst(L, {d: (ONE if i == k else ZERO) for i, d in enumerate(duals)}))
        zero = absorb(subst(L, {d: ZERO for d in duals}))
        return absorb(arith("sub", one, zero))

    def system(self, o, st, tx=S("tx")):
        """non-optimisation rows (one per dual)"""
        E = self.E
        sys_ = System()
        sts, st = self.stamps(o, st)
        txsym = E.load("models.wellknownvariables").ns.get("tx_factor")
        sys_.st = st
        for g, stamper, consts in sts:
            seg = E.getattr(stamper, "lsegment", st, None)
            L, cs, primals, duals = self.segment(seg, st)
            if len(cs) != len(consts):
                sys_.parts.append((g, stamper, None))
                raise Mismatch(f"{len(consts)} constant values supplied for constants {[show(c) for c in cs]}", stamper)
            m = {c: v for c, v in zip(cs, consts) if c is not txsym}
            if txsym in cs:
                m[txsym] = tx
            elif txsym is not None:
                m[txsym] = tx
            cols = {}
            for p in primals:
                cols[p], _, _ = E.call_method(stamper, "get_var_col_index", [p], st)
                m[p] = V(cols[p])
            rows = {}
            for k, d in enumerate(duals):
                r, _, _ = E.call_method(stamper, "get_eqn_row_index_str", [C(d.a[0])], st)
                rows[d] = r
                ex = absorb(subst(self.dual_expr(L, duals, k), m))
                if g is not TRUE:
                    ex = ITE(g, ex, ZERO)
                if r is NONE:
                    continue
                if r not in sys_.rows:
                    sys_.rows[r] = ex
                    sys_.order.append(r)
                else:
                    sys_.rows[r] = arith("add", sys_.rows[r], ex)
            sys_.parts.append((g, stamper, dict(seg=seg, L=L, consts=m, cols=cols, rows=rows, primals=primals, duals=duals)))
        return sys_


class Mismatch(Exception):
    pass


# ------------------------------------------------------------------ small term DSL
class X:
    """operator wrapper for writing specifications"""
    def __init__(self, t):
        self.t = t.t if isinstance(t, X) else (t if isinstance(t, T) else C(t))

    def _b(self, op, o, r=False):
        o = X(o)
        return X(arith(op, o.t, self.t) if r else arith(op, self.t, o.t))
    def __add__(s, o): return s._b("add", o)
    def __radd__(s, o): return s._b("add", o, True)
    def __sub__(s, o): return s._b("sub", o)
    def __rsub__(s, o): return s._b("sub", o, True)
    def __mul__(s, o): return s._b("mul", o)
    def __rmul__(s, o): return s._b("mul", o, True)
    def __truediv__(s, o): return s._b("div", o)
    def __rtruediv__(s, o): return s._b("div", o, True)
    def __pow__(s, o): return s._b("pow", o)
    def __neg__(s): return X(arith("neg", s.t))
    @property
    def conj(s): return X(mk("conj", s.t))
    @property
    def re(s): return X(mk("re", s.t))
    @property
    def im(s): return X(mk("im", s.t))
    def attr(s, n): return X(mk("attr", s.t, n))


def cpx(a, b):
    return X(mk("complex", X(a).t, X(b).t))

def bus(name):
    return S(name)

def node(b, n):
    return mk("attr", b, n)

def phasor(b):
    """complex voltage of a bus"""
    if b is None:
        return X(ZERO)
    return X(mk("complex", V(node(b, "node_Vr")), V(node(b, "node_Vi"))))

PI = X(mk("ext", "math.pi"))
def cos(x): return X(mk("f:cos", X(x).t))
def sin(x): return X(mk("f:sin", X(x).t))
def sqrt(x): return X(mk("f:sqrt", X(x).t))
def polar(m, a): return cpx(X(m) * cos(a), X(m) * sin(a))
def ite(c, a, b): return X(ITE(c.t if isinstance(c, X) else c, X(a).t, X(b).t))
