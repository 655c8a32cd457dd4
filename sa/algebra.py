"""Algebraic normal form of terms.

Numeric terms are put into a rational-function normal form over exact
rationals (complex values as a pair of real parts); sin/cos of sums are
expanded, even powers of sin and of roots are reduced, any other operation is
an uninterpreted generator identified up to equality of its arguments.
Two terms denote the same function when the cross-multiplied difference
reduces to the zero polynomial.  Gated (`ite`) values are compared by case
analysis over the condition atoms that occur in them.
"""
from fractions import Fraction
from .term import *

EPS = Fraction(1, 10 ** 9)


class Alg:
    def __init__(self, complex_terms=()):
        self.cx = set(complex_terms)     # opaque terms known to be complex
        self.reduce_sq = {}              # gen -> Rat  (gen**2 == Rat)
        self.funs = []                   # (op, args(list of Cx), extra, Cx)
        self.memo = {}
        self.gens = {}
        self.gname = []
        self.hook = None                 # callable(term)->Cx or None

    # ------------------------------------------------ polynomials
    # poly: dict monomial(tuple of (gen,exp)) -> Fraction
    def gen(self, key):
        g = self.gens.get(key)
        if g is None:
            g = len(self.gname)
            self.gens[key] = g
            self.gname.append(key)
        return g

    @staticmethod
    def pconst(c):
        c = Fraction(c)
        return {(): c} if c else {}

    @staticmethod
    def padd(a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    @staticmethod
    def mmul(m, n):
        if not m: return n
        if not n: return m
        d = dict(m)
        for g, e in n:
            d[g] = d.get(g, 0) + e
        return tuple(sorted(d.items()))

    def pmul(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = self.mmul(m, n)
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return r

    # ------------------------------------------------ rationals  (num, den)
    def rconst(self, c):
        return (self.pconst(c), {(): Fraction(1)})

    def rgen(self, key):
        return ({((self.gen(key), 1),): Fraction(1)}, {(): Fraction(1)})

    def norm(self, r):
        n, d = r
        if not n:
            return ({}, {(): Fraction(1)})
        # reduce squares
        n2, den2 = self.preduce(n)
        d2, den3 = self.preduce(d)
        if den2 is not None or den3 is not None:
            n = self.pmul(n2, den3) if den3 is not None else n2
            d = self.pmul(d2, den2) if den2 is not None else d2
        else:
            n, d = n2, d2
        if not n:
            return ({}, {(): Fraction(1)})
        # cancel common monomial
        g = None
        for p in (n, d):
            for m in p:
                dm = dict(m)
                if g is None:
                    g = dm
                else:
                    g = {k: min(v, dm[k]) for k, v in g.items() if k in dm}
                if not g:
                    break
            if not g:
                break
        if g:
            def dv(p):
                out = {}
                for m, c in p.items():
                    out[tuple((k, e - g.get(k, 0)) for k, e in m if e - g.get(k, 0))] = c
                return out
            n, d = dv(n), dv(d)
        # constant normalisation: leading coefficient of den = 1
        lead = d[max(d)]
        if lead != 1:
            n = {m: c / lead for m, c in n.items()}
            d = {m: c / lead for m, c in d.items()}
        if n == d:
            return (self.pconst(1), {(): Fraction(1)})
        if len(d) > 1 and len(n) >= len(d):
            q = self.pdiv(n, d)
            if q is not None:
                return (q, {(): Fraction(1)})
        return (n, d)

    def pdiv(self, n, d):
        """exact polynomial division, or None"""
        n = dict(n)
        q = {}
        ld = max(d, key=self._mkey)
        dl = dict(ld)
        steps = 0
        while n:
            steps += 1
            if steps > 400:
                return None
            ln = max(n, key=self._mkey)
            dn = dict(ln)
            m = {}
            for g, e in dn.items():
                m[g] = e
            for g, e in dl.items():
                if m.get(g, 0) < e:
                    return None
                m[g] -= e
            mm = tuple(sorted((g, e) for g, e in m.items() if e))
            c = n[ln] / d[ld]
            q[mm] = q.get(mm, 0) + c
            n = self.padd(n, self.pmul({mm: c}, d), -1)
        return q

    def _mkey(self, m):
        # lexicographic order on exponent vectors (an admissible order)
        d = dict(m)
        return tuple(d.get(g, 0) for g in range(len(self.gname)))

    def preduce(self, p):
        """apply gen**2 = Rat; returns (poly, common denominator poly or None)"""
        if not self.reduce_sq:
            return p, None
        den = None
        while True:
            hit = None
            for m in p:
                for g, e in m:
                    if e >= 2 and g in self.reduce_sq:
                        hit = g
                        break
                if hit is not None:
                    break
            if hit is None:
                return p, den
            rn, rd = self.reduce_sq[hit]
            # max power to clear
            kmax = max((e // 2 for m in p for g, e in m if g == hit), default=0)
            out = {}
            for m, c in p.items():
                dm = dict(m)
                e = dm.pop(hit, 0)
                k = e // 2
                if e % 2:
                    dm[hit] = 1
                q = {tuple(sorted(dm.items())): c}
                for _ in range(k):
                    q = self.pmul(q, rn)
                for _ in range(kmax - k):
                    q = self.pmul(q, rd)
                out = self.padd(out, q)
            dpow = {(): Fraction(1)}
            for _ in range(kmax):
                dpow = self.pmul(dpow, rd)
            if dpow != {(): Fraction(1)}:
                den = dpow if den is None else self.pmul(den, dpow)
            p = out

    def radd(self, a, b, s=1):
        if not a[0]:
            return b if s == 1 else self.rneg(b)
        if not b[0]:
            return a
        if a[1] == b[1]:
            return self.norm((self.padd(a[0], b[0], s), a[1]))
        return self.norm((self.padd(self.pmul(a[0], b[1]), self.pmul(b[0], a[1]), s), self.pmul(a[1], b[1])))

    def rneg(self, a):
        return ({m: -c for m, c in a[0].items()}, a[1])

    def rmul(self, a, b):
        if not a[0] or not b[0]:
            return ({}, {(): Fraction(1)})
        if a[0] == b[1]: return self.norm((b[0], a[1]))
        if b[0] == a[1]: return self.norm((a[0], b[1]))
        return self.norm((self.pmul(a[0], b[0]), self.pmul(a[1], b[1])))

    def rdiv(self, a, b):
        if not b[0]:
            raise ZeroDivisionError
        return self.rmul(a, (b[1], b[0]))

    def rzero(self, a):
        return self.nearzero(a[0], None)

    def nearzero(self, p, scale):
        if not p:
            return True
        if scale is None:
            return False
        return max(abs(c) for c in p.values()) <= EPS * scale

    def req(self, a, b):
        x, y = self.pmul(a[0], b[1]), self.pmul(b[0], a[1])
        d = self.padd(x, y, -1)
        if not d:
            return True
        d, _ = self.preduce(d)
        if not d:
            return True
        sc = max([abs(c) for c in x.values()] + [abs(c) for c in y.values()])
        if self.nearzero(d, sc):
            # guard against tiny but genuine coefficients: compare per monomial
            for m, c in d.items():
                ref = max(abs(x.get(m, 0)), abs(y.get(m, 0)))
                if ref == 0 or abs(c) > EPS * ref:
                    return False
            return True
        return False

    def rconstval(self, a):
        if not a[0]:
            return Fraction(0)
        if set(a[0]) == {()} and set(a[1]) == {()}:
            return a[0][()] / a[1][()]
        return None

    # ------------------------------------------------ complex
    def cre(self, r):
        return (r, ({}, {(): Fraction(1)}))

    def cadd(self, a, b, s=1):
        return (self.radd(a[0], b[0], s), self.radd(a[1], b[1], s))

    def cmul(self, a, b):
        if not a[1][0] and not b[1][0]:
            return self.cre(self.rmul(a[0], b[0]))
        return (self.radd(self.rmul(a[0], b[0]), self.rmul(a[1], b[1]), -1),
                self.radd(self.rmul(a[0], b[1]), self.rmul(a[1], b[0])))

    def cdiv(self, a, b):
        if not b[1][0]:
            return (self.rdiv(a[0], b[0]), self.rdiv(a[1], b[0]))
        n = self.radd(self.rmul(b[0], b[0]), self.rmul(b[1], b[1]))
        c = self.cmul(a, (b[0], self.rneg(b[1])))
        return (self.rdiv(c[0], n), self.rdiv(c[1], n))

    def ceq(self, a, b):
        return self.req(a[0], b[0]) and self.req(a[1], b[1])

    # ------------------------------------------------ functions
    def rsub(self, r, m):
        """substitute generators by rational constants (gen -> Fraction)"""
        def ps(p):
            out = {}
            for mono, c in p.items():
                k = []
                for g, e in mono:
                    if g in m:
                        c = c * m[g] ** e
                    else:
                        k.append((g, e))
                k = tuple(k)
                v = out.get(k, 0) + c
                if v:
                    out[k] = v
                else:
                    out.pop(k, None)
            return out
        return (ps(r[0]), ps(r[1]))

    def csub(self, c, m):
        if not m:
            return c
        return (self.rsub(c[0], m), self.rsub(c[1], m))

    def func(self, op, args, extra=()):
        for (o, xs, ex, v) in self.funs:
            if o == op and ex == extra and len(xs) == len(args) and all(self.ceq(p, q) for p, q in zip(xs, args)):
                return v
        v = self.cre(self.rgen((op, len(self.funs))))
        self.funs.append((op, list(args), extra, v))
        return v

    def root(self, r):
        """sqrt of a rational"""
        c = self.rconstval(r)
        if c is not None and c >= 0:
            from math import isqrt
            n, d = c.numerator, c.denominator
            if isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
                return self.rconst(Fraction(isqrt(n), isqrt(d)))
            if d != 1:
                return self.rdiv(self.root(self.rconst(n * d)), self.rconst(d))
            # extract square factors
            f = 1
            i = 2
            while i * i <= n and i < 2000:
                while n % (i * i) == 0:
                    n //= i * i
                    f *= i
                i += 1
            for (o, xs, ex, v) in self.funs:
                if o == "root" and self.req(xs[0][0], self.rconst(n)):
                    return self.rmul(self.rconst(f), v[0])
            g = self.gen(("root", n))
            self.reduce_sq[g] = self.rconst(n)
            v = ({((g, 1),): Fraction(1)}, {(): Fraction(1)})
            self.funs.append(("root", [self.cre(self.rconst(n))], (), self.cre(v)))
            return self.rmul(self.rconst(f), v)
        for (o, xs, ex, v) in self.funs:
            if o == "root" and self.req(xs[0][0], r):
                return v[0]
            if o == "root":
                # scaled by a constant?
                q = self.norm((self.pmul(r[0], xs[0][0][1]), self.pmul(r[1], xs[0][0][0]))) if xs[0][0][0] else None
                k = self.rconstval(q) if q is not None else None
                if k is not None and k > 0:
                    return self.rmul(self.root(self.rconst(k)), v[0])
        g = self.gen(("root", len(self.funs)))
        self.reduce_sq[g] = r
        v = ({((g, 1),): Fraction(1)}, {(): Fraction(1)})
        self.funs.append(("root", [self.cre(r)], (), self.cre(v)))
        return v

    def pi(self):
        return self.rgen("pi")

    def trig(self, r):
        """(cos, sin) of a rational"""
        n, d = r
        if not n:
            return self.rconst(1), self.rconst(0)
        if set(d) == {()}:
            items = sorted(n.items())
            if len(items) > 1:
                m, c = items[0]
                a = self.trig(({m: c}, d))
                b = self.trig((dict(items[1:]), d))
                return (self.radd(self.rmul(a[0], b[0]), self.rmul(a[1], b[1]), -1),
                        self.radd(self.rmul(a[1], b[0]), self.rmul(a[0], b[1])))
            m, c = items[0]
            pig = self.gen("pi")
            if m == ((pig, 1),):
                return self.trigpi(c)
            if c < 0:
                a = self.trig(({m: -c}, d))
                return a[0], self.rneg(a[1])
            # floats: snap to a known argument
            for (o, xs, ex, v) in self.funs:
                if o == "cos" and self.req(xs[0][0], r):
                    return v[0], ex[0]
            # phase(z) / atan2(y, x)
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                key = self.gname[m[0][0]]
                if isinstance(key, tuple) and key[0] == "atan2":
                    y, x = self.funs_args(key)
                    h = self.root(self.radd(self.rmul(x[0], x[0]), self.rmul(y[0], y[0])))
                    return self.rdiv(x[0], h), self.rdiv(y[0], h)
        for (o, xs, ex, v) in self.funs:
            if o == "cos" and self.req(xs[0][0], r):
                return v[0], ex[0]
            if o == "cos" and self.req(xs[0][0], self.rneg(r)):
                return v[0], self.rneg(ex[0])
        i = len(self.funs)
        cg = self.rgen(("cos", i))
        sg = self.rgen(("sin", i))
        self.reduce_sq[self.gen(("sin", i))] = self.radd(self.rconst(1), self.rmul(cg, cg), -1)
        self.funs.append(("cos", [self.cre(r)], (sg,), self.cre(cg)))
        return cg, sg

    def funs_args(self, key):
        return self.funs[key[1]][1]

    def trigpi(self, c):
        c = c % 2
        # snap to multiples of 1/12
        k = round(c * 12)
        if abs(c * 12 - k) > Fraction(1, 10 ** 6):
            g1, g2 = self.rgen(("cospi", c)), self.rgen(("sinpi", c))
            self.reduce_sq[self.gen(("sinpi", c))] = self.radd(self.rconst(1), self.rmul(g1, g1), -1)
            return g1, g2
        k %= 24
        def cosk(k):
            k %= 24
            if k > 12: k = 24 - k
            if k > 6: return self.rneg(cosk(12 - k))
            h = Fraction(1, 2)
            if k == 0: return self.rconst(1)
            if k == 6: return self.rconst(0)
            if k == 4: return self.rconst(h)
            if k == 2: return self.rmul(self.rconst(h), self.root(self.rconst(3)))
            if k == 3: return self.rmul(self.rconst(h), self.root(self.rconst(2)))
            s2, s6 = self.root(self.rconst(2)), self.root(self.rconst(6))
            if k == 1: return self.rmul(self.rconst(Fraction(1, 4)), self.radd(s6, s2))
            return self.rmul(self.rconst(Fraction(1, 4)), self.radd(s6, s2, -1))
        return cosk(k), cosk(k - 6)

    # ------------------------------------------------ terms
    def prep(self, *ts):
        """note which opaque terms are used as complex numbers"""
        new = set()
        for t in ts:
            for x in walk(t):
                if x.op in ("re", "im", "conj", "tocomplex", "phase"):
                    if self.opaque(x.a[0]) and x.a[0] not in self.cx:
                        new.add(x.a[0])
        if new:
            self.cx |= new
            self.memo.clear()

    NUMOPS = {"c", "add", "sub", "mul", "div", "pow", "neg", "complex", "tocomplex", "re", "im", "conj", "abs", "float",
              "f:cos", "f:sin", "f:sqrt", "f:tan", "f:exp", "f:atan2", "f:atan", "phase", "ite"}

    def opaque(self, t):
        return t.op not in self.NUMOPS

    def num(self, t):
        v = self.memo.get(t.id)
        if v is None:
            v = self._num(t)
            self.memo[t.id] = v
        return v

    def frac(self, v):
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return None
            return Fraction(repr(v))
        return Fraction(v)

    def _num(self, t):
        if self.hook is not None:
            h = self.hook(t)
            if h is not None:
                return h
        op = t.op
        a = t.a
        if op == "c":
            v = a[0]
            if isinstance(v, complex):
                return (self.rconst(self.frac(v.real)), self.rconst(self.frac(v.imag)))
            if isinstance(v, (int, float)):
                f = self.frac(v)
                if f is None:
                    return self.cre(self.rgen(("const", repr(v))))
                return self.cre(self.rconst(f))
            return self.cre(self.rgen(("const", type(v).__name__, v)))
        if op == "add": return self.cadd(self.num(a[0]), self.num(a[1]))
        if op == "sub": return self.cadd(self.num(a[0]), self.num(a[1]), -1)
        if op == "neg":
            x = self.num(a[0])
            return (self.rneg(x[0]), self.rneg(x[1]))
        if op == "mul": return self.cmul(self.num(a[0]), self.num(a[1]))
        if op == "div":
            try:
                return self.cdiv(self.num(a[0]), self.num(a[1]))
            except ZeroDivisionError:
                return self.func("div0", [self.num(a[0])])
        if op == "pow":
            b, e = self.num(a[0]), self.num(a[1])
            k = self.rconstval(e[0]) if not e[1][0] else None
            if k is not None and k.denominator == 1 and abs(k) <= 12:
                k = int(k)
                r = self.cre(self.rconst(1))
                for _ in range(abs(k)):
                    r = self.cmul(r, b)
                if k < 0:
                    try:
                        r = self.cdiv(self.cre(self.rconst(1)), r)
                    except ZeroDivisionError:
                        return self.func("div0", [b])
                return r
            if k is not None and k.denominator == 2 and not b[1][0]:
                rt = self.root(b[0])
                r = self.cre(self.rconst(1))
                for _ in range(abs(k.numerator)):
                    r = self.cmul(r, self.cre(rt))
                return r if k > 0 else self.cdiv(self.cre(self.rconst(1)), r)
            return self.func("pow", [b, e])
        if op == "complex":
            x, y = self.num(a[0]), self.num(a[1])
            return self.cadd(x, self.cmul((self.rconst(0), self.rconst(1)), y))
        if op in ("tocomplex", "float", "npreal"):
            return self.num(a[0])
        if op == "re": return self.cre(self.num(a[0])[0])
        if op == "im": return self.cre(self.num(a[0])[1])
        if op == "conj":
            x = self.num(a[0])
            return (x[0], self.rneg(x[1]))
        if op == "abs":
            x = self.num(a[0])
            if not x[1][0]:
                k = self.rconstval(x[0])
                if k is not None:
                    return self.cre(self.rconst(abs(k)))
                return self.cre(self.root(self.rmul(x[0], x[0])))
            return self.cre(self.root(self.radd(self.rmul(x[0], x[0]), self.rmul(x[1], x[1]))))
        if op == "f:sqrt":
            x = self.num(a[0])
            if not x[1][0]:
                return self.cre(self.root(x[0]))
            return self.func("sqrt", [x])
        if op in ("f:cos", "f:sin", "f:tan"):
            x = self.num(a[0])
            if not x[1][0]:
                c, s = self.trig(x[0])
                if op == "f:tan":
                    return self.cre(self.rdiv(s, c))
                return self.cre(c if op == "f:cos" else s)
            return self.func(op, [x])
        if op == "f:exp":
            x = self.num(a[0])
            if not x[0][0]:
                return self.trig(x[1])
            return self.func(op, [x])
        if op == "f:atan2":
            return self.atan2(self.num(a[0]), self.num(a[1]))
        if op == "phase":
            x = self.num(a[0])
            return self.atan2(self.cre(x[1]), self.cre(x[0]))
        if op == "ext" and a[0] in ("math.pi", "numpy.pi", "cmath.pi", "pi", "sympy.pi"):
            return self.cre(self.pi())
        if op == "ite":
            return self.func("ite", [self.num(a[1]), self.num(a[2])], (a[0].id,))
        # opaque
        base = t
        if base in self.cx:
            return (self.rgen(("re", base)), self.rgen(("im", base)))
        if op in ("max", "min", "sum", "fold", "last") or op.startswith("f:") or op in ("int", "round", "mod", "floordiv"):
            nums = [x for x in a if isinstance(x, T)]
            if op in ("max", "min"):
                vs = [self.num(x) for x in nums]
                vs.sort(key=lambda v: repr(sorted(v[0][0].items())))
                return self.func(op, vs)
            if op.startswith("f:") or op in ("int", "round", "mod", "floordiv"):
                return self.func(op, [self.num(x) for x in nums])
        return self.cre(self.rgen(("t", base)))

    def atan2(self, y, x):
        for (o, xs, ex, v) in self.funs:
            if o == "atan2" and self.ceq(xs[0], y) and self.ceq(xs[1], x):
                return v
        # atan2(r sin a, r cos a) is not folded (range reduction); generator
        i = len(self.funs)
        v = self.cre(self.rgen(("atan2", i)))
        self.funs.append(("atan2", [y, x], (), v))
        return v

    def equal(self, s, t):
        self.prep(s, t)
        return self.ceq(self.num(s), self.num(t))

    # ------------------------------------------------ printing
    def showp(self, p):
        out = []
        for m, c in sorted(p.items(), key=lambda x: repr(x[0])):
            ms = "*".join((self.showg(g) + (f"^{e}" if e != 1 else "")) for g, e in m)
            out.append((f"{float(c):g}*" if c != 1 and ms else ("" if ms else f"{float(c):g}")) + ms)
        return " + ".join(out) if out else "0"

    def showg(self, g):
        k = self.gname[g]
        if isinstance(k, tuple):
            return "(" + " ".join(show(x, 4) if isinstance(x, T) else str(x) for x in k) + ")"
        return str(k)

    def shows(self, c):
        def r(x):
            return self.showp(x[0]) + ("" if set(x[1]) == {()} and x[1][()] == 1 else f" / ({self.showp(x[1])})")
        return r(c[0]) + ("" if not c[1][0] else f"  +j[{r(c[1])}]")


# ---------------------------------------------------------------- case analysis
class Cases:
    """enumerates the consistent assignments of the condition atoms of terms"""

    def __init__(self, alg=None, limit=4096):
        self.alg = alg or Alg()
        self.limit = limit
        self.lin = []       # (poly-normalised nonconstant Rat, name)
        self.atoms = {}     # term id -> ("ord", var, thr, kind) | ("val", var, const) | ("bool", term)
        self.thr = {}       # var -> sorted thresholds
        self.vals = {}

    def numericish(self, t):
        if t.op == "c":
            return isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool)
        if t.op in ("enum", "class", "new", "tuple", "box", "fstr", "str", "loc", "func", "ite", "typeof", "builtin"):
            return False
        return True

    def classify(self, t):
        r = self.atoms.get(t.id)
        if r is not None:
            return r
        r = ("bool", t)
        if t.op in ("lt", "eq"):
            x, y = t.a
            if t.op == "lt" or (self.numericish(x) and self.numericish(y) and (x.op in ARITH or y.op in ARITH or x.op == "c" or y.op == "c" or self.num_like(x) or self.num_like(y))):
                self.alg.prep(x, y)
                d = self.alg.cadd(self.alg.num(y), self.alg.num(x), -1)   # y - x
                if not d[1][0]:
                    r = self.ordvar(d[0], t.op)
                elif t.op == "eq":
                    r = ("bool", self.canon_c(d, t))
            elif x.op in ("c", "enum", "class", "builtin") or y.op in ("c", "enum", "class", "builtin"):
                v, k = (y, x) if x.op in ("c", "enum", "class", "builtin") else (x, y)
                r = ("val", v, k)
        elif t.op == "isnone":
            r = ("val", t.a[0], NONE)
        self.atoms[t.id] = r
        if r[0] == "val":
            self.vals.setdefault(r[1], [])
            if r[2] not in self.vals[r[1]]:
                self.vals[r[1]].append(r[2])
        return r

    def num_like(self, t):
        return t.op in ("abs", "re", "im", "float", "int", "len", "sum")

    def canon_c(self, d, t):
        for (e, u) in getattr(self, "_cz", []):
            if self.alg.ceq(d, e) or self.alg.ceq(d, (self.alg.rneg(e[0]), self.alg.rneg(e[1]))):
                return u
        self._cz = getattr(self, "_cz", []) + [(d, t)]
        return t

    def ordvar(self, d, kind):
        """d > 0 (kind lt) or d == 0 (kind eq)"""
        A = self.alg
        n, den = d
        if set(den) == {()}:
            c0 = n.get((), Fraction(0))
            p = {m: c for m, c in n.items() if m != ()}
            if not p:
                v = c0
                return ("const", (v > 0) if kind == "lt" else (v == 0))
            lead = p[max(p, key=lambda m: repr(m))]
            p = {m: c / lead for m, c in p.items()}
            thr = -c0 / lead         # d = lead*(P - thr)
            pos = lead > 0
            key = None
            for i, q in enumerate(self.lin):
                if q[0] == "p" and (q[1] == p or self._close(q[1], p)):
                    key = i
                    break
            if key is None:
                self.lin.append(("p", p))
                key = len(self.lin) - 1
        else:
            thr, pos, key = Fraction(0), True, None
            for i, q in enumerate(self.lin):
                if q[0] == "r" and A.req(q[1], d):
                    key = i; break
                if q[0] == "r" and A.req(q[1], A.rneg(d)):
                    key = i; pos = False; break
            if key is None:
                self.lin.append(("r", d))
                key = len(self.lin) - 1
        ts = self.thr.setdefault(key, [])
        hit = None
        for x in ts:
            if x == thr or abs(x - thr) <= EPS * max(abs(x), abs(thr)):
                hit = x
        if hit is None:
            ts.append(thr)
            ts.sort()
            hit = thr
        return ("ord", key, hit, kind, pos)

    def _close(self, p, q):
        if set(p) != set(q):
            return False
        return all(abs(p[m] - q[m]) <= EPS * max(abs(p[m]), abs(q[m])) for m in p)

    def register(self, *ts):
        self.alg.prep(*ts)
        for t in ts:
            for x in walk(t):
                if x.op in ("lt", "eq", "isnone"):
                    self.classify(x)

    # assignment: dict key->value ; ord var value is a position index in 0..2k ; val var is const or "other"
    def eval_atom(self, t, asg):
        """True/False/None(undetermined)"""
        r = self.classify(t)
        if r[0] == "const":
            return r[1]
        if r[0] == "ord":
            _, key, thr, kind, pos = r
            v = asg.get(("o", key))
            if v is None:
                return None
            lo, hi = v                      # interval (lo, hi) open or point lo==hi
            if lo == hi and lo is not None:
                s = (lo > thr) - (lo < thr)
            else:
                # open interval between consecutive thresholds
                if lo is not None and lo >= thr:
                    s = 1
                elif hi is not None and hi <= thr:
                    s = -1
                else:
                    return None             # a new threshold splits the interval
            if not pos:
                s = -s
            return s > 0 if kind == "lt" else s == 0
        if r[0] == "val":
            v = asg.get(("v", r[1]))
            if v is None:
                return None
            if v == "other":
                return False
            return v is r[2]
        u = asg.get(("b", r[1]))
        return u

    def split(self, t, asg):
        """successor assignments deciding atom t"""
        r = self.classify(t)
        out = []
        if r[0] == "ord":
            key = r[1]
            ts = self.thr[key]
            cells = []
            prev = None
            for x in ts:
                cells.append((prev, x) if True else None)
                cells.append((x, x))
                prev = x
            cells.append((prev, None))
            for c in cells:
                a = dict(asg)
                a[("o", key)] = c
                out.append(a)
        elif r[0] == "val":
            for k in self.vals[r[1]] + ["other"]:
                a = dict(asg)
                a[("v", r[1])] = k
                out.append(a)
        else:
            for b in (True, False):
                a = dict(asg)
                a[("b", r[1])] = b
                out.append(a)
        return out

    def eval(self, t, asg):
        """boolean value of a condition: True/False or the undecided atom"""
        if t.op == "c":
            return bool(t.a[0])
        if t.op == "not":
            v = self.eval(t.a[0], asg)
            return (not v) if isinstance(v, bool) else v
        if t.op in ("and", "or"):
            und = None
            for x in t.a:
                v = self.eval(x, asg)
                if isinstance(v, bool):
                    if v == (t.op == "or"):
                        return v
                elif und is None:
                    und = v
            return und if und is not None else (t.op == "and")
        if t.op == "ite":
            c = self.eval(t.a[0], asg)
            if not isinstance(c, bool):
                return c
            return self.eval(t.a[1] if c else t.a[2], asg)
        if t.op == "truthy" and t.a[0].op == "ite":
            c = self.eval(t.a[0].a[0], asg)
            if not isinstance(c, bool):
                return c
            return self.eval(TRUTHY(t.a[0].a[1] if c else t.a[0].a[2]), asg)
        v = self.eval_atom(t, asg)
        return t if v is None else v

    def resolve(self, t, asg, memo):
        """(resolved term, None) or (None, undecided atom)"""
        if not any(x.op == "ite" for x in walk(t)):
            return t, None
        r = memo.get(t.id)
        if r is not None:
            return r, None
        if t.op == "ite":
            c = self.eval(t.a[0], asg)
            if not isinstance(c, bool):
                return None, c
            r, u = self.resolve(t.a[1] if c else t.a[2], asg, memo)
            if u is not None:
                return None, u
            memo[t.id] = r
            return r, None
        na = []
        for x in t.a:
            if isinstance(x, T):
                y, u = self.resolve(x, asg, memo)
                if u is not None:
                    return None, u
                na.append(y)
            else:
                na.append(x)
        r = rebuild(t.op, na)
        memo[t.id] = r
        return r, None

    def enumerate(self, terms, assume=TRUE, asg=None):
        """yield (assignment, resolved terms) for every consistent case in which `assume` holds"""
        self.register(assume, *terms)
        n = [0]

        def go(asg):
            n[0] += 1
            if n[0] > self.limit:
                raise OverflowError("too many cases")
            v = self.eval(assume, asg)
            if v is False:
                return
            if v is not True:
                for a in self.split(v, asg):
                    yield from go(a)
                return
            out = []
            memo = {}
            for t in terms:
                if t.op in BOOL_OPS:
                    b = self.eval(t, asg)
                    if not isinstance(b, bool):
                        for a in self.split(b, asg):
                            yield from go(a)
                        return
                    out.append(TRUE if b else FALSE)
                    continue
                r, u = self.resolve(t, asg, memo)
                if u is not None:
                    for a in self.split(u, asg):
                        yield from go(a)
                    return
                out.append(r)
            yield asg, out
        yield from go(asg or {})

    def showasg(self, asg):
        out = []
        for (k, x), v in asg.items():
            if k == "o":
                q = self.lin[x]
                nm = self.alg.showp(q[1]) if q[0] == "p" else self.alg.shows((q[1], ({}, {(): Fraction(1)})))
                lo, hi = v
                if lo == hi and lo is not None:
                    out.append(f"{nm} = {float(lo):g}")
                else:
                    out.append((f"{float(lo):g} < " if lo is not None else "") + nm + (f" < {float(hi):g}" if hi is not None else ""))
            elif k == "v":
                out.append(f"{show(x, 5)} == {v if isinstance(v, str) else show(v, 3)}")
            else:
                out.append(f"{'' if v else 'not '}{show(x, 5)}")
        return " and ".join(out) if out else "always"


NUMERIC_LEAF = {"c", "add", "sub", "mul", "div", "pow", "neg", "complex", "re", "im", "conj", "abs", "float", "sum", "tocomplex"}


def point_subst(cs, asg):
    m = {}
    for (k, x), v in asg.items():
        if k == "o" and cs.lin[x][0] == "p" and v[0] == v[1] and v[0] is not None:
            p = cs.lin[x][1]
            if len(p) == 1:
                (mono, c), = p.items()
                if len(mono) == 1 and mono[0][1] == 1:
                    m[mono[0][0]] = v[0] / c
    return m


def same_value(A, s, t, sub=None):
    if s is t:
        return True
    for x, y in ((s, t), (t, s)):
        if x.op == "c" and (x.a[0] is None or isinstance(x.a[0], (str, bool))):
            return x is y
        if x.op in ("tuple", "box", "enum", "new", "class", "fstr"):
            if x.op in ("tuple", "box") and y.op == x.op and len(x.a) == len(y.a):
                return all(same_value(A, p, q, sub) if isinstance(p, T) and isinstance(q, T) else p == q for p, q in zip(x.a, y.a))
            return False
    try:
        A.prep(s, t)
        x, y = A.num(s), A.num(t)
        if A.ceq(x, y):
            return True
        if sub:
            x, y = A.csub(x, sub), A.csub(y, sub)
            if not x[0][1] or not y[0][1] or not x[1][1] or not y[1][1]:
                return False
            return A.ceq(x, y)
        return False
    except (ZeroDivisionError, RecursionError):
        return False


def compare(spec, code, assume=TRUE, complex_terms=(), limit=4096):
    """None when equal in every case, else a description of the first differing case.
    Returns (mismatch or None, number of cases)"""
    A = Alg(complex_terms)
    A.prep(spec, code, assume)
    cs = Cases(A, limit)
    n = 0
    for asg, (s, c) in cs.enumerate([spec, code], assume):
        n += 1
        if not same_value(A, s, c, point_subst(cs, asg)):
            def sh(t):
                try:
                    return A.shows(A.num(t)) if t.op in NUMERIC_LEAF else show(t, 6)
                except Exception:
                    return show(t, 6)
            return (f"when {cs.showasg(asg)}: expected {sh(s)[:400]} but code gives {sh(c)[:400]}", n)
    return (None, n)


def equivalent(c1, c2, assume=TRUE, complex_terms=()):
    """boolean equivalence of two conditions; None or a distinguishing case"""
    A = Alg(complex_terms)
    cs = Cases(A)
    cs.register(c1, c2, assume)
    n = 0
    stack = [{}]
    while stack:
        asg = stack.pop()
        n += 1
        if n > 20000:
            return ("too many cases", n)
        v = cs.eval(assume, asg)
        if v is False:
            continue
        if v is not True:
            stack.extend(cs.split(v, asg)); continue
        a = cs.eval(c1, asg)
        if not isinstance(a, bool):
            stack.extend(cs.split(a, asg)); continue
        b = cs.eval(c2, asg)
        if not isinstance(b, bool):
            stack.extend(cs.split(b, asg)); continue
        if a != b:
            return (f"when {cs.showasg(asg)}: expected {a} but code gives {b}", n)
    return (None, n)
