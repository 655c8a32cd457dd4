"""Client programs: short drivers, written in the analysed language, that compose repository
functions; the engine derives their effect from the repository's source."""
from ..interp import *
from ..interp import AnalysisError
from ..term import *
from ..term import rebuild


def client(ctx, src, args=(), kw=None, opaque=(), distinct=(), hints=None, models=None, concrete=True, st=None, E=None, symvals=None):
    """analyse function `client` of the driver text; returns Outcome"""
    E = E or ctx.engine(opaque)
    E.concrete_arrays = concrete
    for n in distinct:
        E.distinct_syms.add(S(n))
    E.models.update(models or {})
    f = E.client(src)
    for k, v in (hints or {}).items():
        E.hints[S(k)] = v.replace("__client__", f.mod.name)
    st = st or State()
    r = E.analyse(f, st=st)
    return Outcome(E, r)


class Outcome:
    def __init__(self, E, r):
        self.E, self.r = E, r
        self.returns = [(AND(*s.pc), E.freeze(v, s, 30), s) for s, v, n in r.returns]
        self.raises = [(AND(*s.pc), E.freeze(v, s, 10), s) for s, v, n in r.raises]

    def raise_cond(self):
        return OR(*[c for c, v, s in self.raises])

    def return_cond(self):
        return OR(*[c for c, v, s in self.returns])

    def value(self):
        """result as one gated value"""
        if not self.returns:
            raise AnalysisError("the driver never returns")
        v = self.returns[-1][1]
        for c, x, s in reversed(self.returns[:-1]):
            v = ITE(c, x, v)
        return v

    def only(self):
        live = self.returns
        if len(live) != 1:
            raise AnalysisError(f"{len(live)} result forms instead of one")
        if self.raises and any(c is not FALSE for c, v, s in self.raises):
            raise AnalysisError("may raise when " + "; ".join(show(c, 5)[:120] for c, v, s in self.raises[:3]))
        return live[0][1]


def py(t):
    """frozen term -> python lists / dicts of terms (None when not a concrete structure)"""
    if t.op == "tuple":
        return [py(x) for x in t.a]
    if t.op == "box" and t.a[0] == "list" and all(x.op == "i" for x in t.a[1:]):
        return [py(x.a[0]) for x in t.a[1:]]
    if t.op == "box" and t.a[0] == "set" and all(x.op == "i" for x in t.a[1:]):
        return [py(x.a[0]) for x in t.a[1:]]
    if t.op == "box" and t.a[0] == "dict" and all(x.op == "kv" for x in t.a[1:]):
        return {x.a[0]: py(x.a[1]) for x in t.a[1:]}
    return t


def gate_atom(c):
    """a basic condition occurring in a gate"""
    while c.op in ("and", "or", "not"):
        c = c.a[0]
    return c


def first_gate(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "ite":
            return x.a[0]
        st.extend(y for y in reversed(x.a) if isinstance(y, T))
    return None


def outcomes(v, pc=TRUE, limit=4000):
    """split a gated value into (known atoms, ungated value)"""
    n = [0]

    def go(pc, v, known):
        n[0] += 1
        if n[0] > limit:
            raise AnalysisError("too many distinguishable outcomes")
        if pc is FALSE:
            return
        g = None if pc is TRUE else pc
        if g is None:
            g = first_gate(v)
        if g is None:
            out = dict(known)
            for _ in range(6):
                new = {}
                for k, val in out.items():
                    k2 = rebuild(k.op, tuple(subst(x, out) if isinstance(x, T) else x for x in k.a))
                    if k2 not in out:
                        new[k2] = val
                if not new:
                    break
                out.update(new)
            yield out, v
            return
        a = gate_atom(g)
        for val in (TRUE, FALSE):
            m = {a: val}
            known[a] = val
            yield from go(subst(pc, m), subst(v, m), known)
            del known[a]
    yield from go(pc, v, {})


def items(t):
    """entries of a frozen concrete list, one level"""
    if t.op == "tuple":
        return list(t.a)
    if t.op == "box" and t.a[0] in ("list", "set") and all(x.op == "i" for x in t.a[1:]):
        return [x.a[0] for x in t.a[1:]]
    raise AnalysisError(f"not a sequence of known length: {show(t, 3)}")


def events(trace, pc=TRUE):
    """(guard, effect) of every logged effect in order"""
    for t in trace:
        if not isinstance(t, tuple):
            continue
        if t[0] == "e":
            yield pc, t[1]
        elif t[0] == "g":
            yield from events(t[2], AND(pc, t[1]))
        else:
            yield pc, mk("effects", C(str(t[0])))


def text_parts(t):
    """parts of a string value: literals (adjacent ones merged) and ("num", format, value)"""
    out = []

    def go(t):
        if t.op in ("fstr", "add"):
            for x in t.a:
                go(x)
        elif t.op == "str":
            go(t.a[0])
        elif t.op == "c" and isinstance(t.a[0], (str, int, float)):
            if out and isinstance(out[-1], str):
                out[-1] += str(t.a[0])
            elif t.a[0] != "":
                out.append(str(t.a[0]))
        elif t.op == "fmt":
            out.append(("num", t.a[1].a[0] if t.a[1].op == "c" else show(t.a[1]), t.a[0]))
        else:
            out.append(t)
    go(t)
    return out


def join_parts(ps):
    out = []
    for p in ps:
        for x in p:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
    return out


def text_lines(parts):
    """parts split at line ends"""
    out = [[]]
    for p in parts:
        if isinstance(p, str):
            ls = p.split("\n")
            if ls[0]:
                out[-1].append(ls[0])
            for x in ls[1:]:
                out.append([x] if x else [])
        else:
            out[-1].append(p)
    if out and not out[-1]:
        out.pop()
    return out


def same_part(x, y, same):
    if isinstance(x, str) or isinstance(y, str):
        return x == y
    if isinstance(x, tuple) != isinstance(y, tuple):
        return False
    if isinstance(x, tuple):
        return x[1] == y[1] and same(x[2], y[2])
    return x is y or same(x, y)


def same_text(a, b, same=lambda x, y: x is y):
    return len(a) == len(b) and all(same_part(x, y, same) for x, y in zip(a, b))


def show_text(p):
    return "".join(x if isinstance(x, str) else "{" + (show(x[2], 6) + ":" + x[1] if isinstance(x, tuple) else show(x, 5)) + "}" for x in p)
