"""Hash-consed term domain used by the value-flow analysis (value numbers)."""
import itertools

class T:
    __slots__ = ("op", "a", "id")
    def __repr__(self):
        return show(self)

_tab = {}
_cnt = itertools.count()

def _key(x):
    if isinstance(x, T):
        return x.id
    return (type(x).__name__, x)

def mk(op, *a):
    k = (op,) + tuple(_key(x) for x in a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = next(_cnt)
        _tab[k] = t
    return t

def C(v):
    return mk("c", v)

NONE = C(None)
TRUE = C(True)
FALSE = C(False)
ZERO = C(0)
ONE = C(1)

def S(name):
    return mk("s", name)

def is_const(t):
    return t.op == "c"

def cval(t):
    return t.a[0]

# ---------------------------------------------------------------- booleans
_not = {}

def NOT(c):
    if c.op == "c":
        return C(not c.a[0])
    if c.op == "not":
        return c.a[0]
    r = _not.get(c.id)
    if r is None:
        if c.op == "and":
            r = OR(*[NOT(x) for x in c.a])
        elif c.op == "or":
            r = AND(*[NOT(x) for x in c.a])
        else:
            r = mk("not", c)
        _not[c.id] = r
        _not.setdefault(r.id, c)
    return r

def AND(*cs):
    out = []
    seen = set()
    for c in cs:
        for x in (c.a if c.op == "and" else (c,)):
            if x is TRUE or (x.op == "c" and x.a[0]):
                continue
            if x.op == "c":
                return FALSE
            if x.id in seen:
                continue
            seen.add(x.id)
            out.append(x)
    for x in out:
        if NOT(x).id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk("and", *out)

def OR(*cs):
    out = []
    seen = set()
    for c in cs:
        for x in (c.a if c.op == "or" else (c,)):
            if x.op == "c" and not x.a[0]:
                continue
            if x.op == "c":
                return TRUE
            if x.id in seen:
                continue
            seen.add(x.id)
            out.append(x)
    for x in out:
        if NOT(x).id in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk("or", *out)

BOOL_OPS = {"eq", "lt", "not", "and", "or", "isnone", "in", "isinstance", "truthy", "hasattr", "exc"}

def ITE(c, a, b):
    if a is b:
        return a
    if c.op == "c":
        return a if c.a[0] else b
    if c.op == "not":
        return ITE(c.a[0], b, a)
    if a.op == "undef":
        return b
    if b.op == "undef":
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return NOT(c)
    if a.op in BOOL_OPS or b.op in BOOL_OPS:
        if a in (TRUE, FALSE) or a.op in BOOL_OPS:
            if b in (TRUE, FALSE) or b.op in BOOL_OPS:
                return OR(AND(c, a), AND(NOT(c), b))
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return mk("ite", c, a, b)

_known = {}


def known(t):
    """the number a term made of literals stands for, else None"""
    if t.op == "c":
        v = t.a[0]
        return v if isinstance(v, (int, float, complex)) and not isinstance(v, bool) else None
    if t.op not in ("add", "sub", "mul", "div", "pow", "neg", "abs", "complex", "float", "f:sqrt", "re", "im"):
        return None
    if t.id in _known:
        return _known[t.id]
    xs = [known(x) if isinstance(x, T) else None for x in t.a]
    r = None
    if xs and all(x is not None for x in xs):
        try:
            if t.op == "add": r = sum(xs[1:], xs[0])
            elif t.op == "mul":
                r = xs[0]
                for x in xs[1:]: r = r * x
            elif t.op == "sub": r = xs[0] - xs[1]
            elif t.op == "div": r = xs[0] / xs[1]
            elif t.op == "pow": r = xs[0] ** xs[1]
            elif t.op == "neg": r = -xs[0]
            elif t.op == "abs": r = abs(xs[0])
            elif t.op == "complex": r = complex(xs[0], xs[1])
            elif t.op == "float": r = float(xs[0])
            elif t.op == "f:sqrt": r = xs[0] ** 0.5
            elif t.op == "re": r = complex(xs[0]).real
            elif t.op == "im": r = complex(xs[0]).imag
        except Exception:
            r = None
    _known[t.id] = r
    return r


def EQ(a, b):
    if a is b:
        return TRUE
    if not (a.op == "c" and b.op == "c"):
        ka = known(a)
        if ka is not None:
            kb = known(b)
            # literals closer than rounding are left undecided
            if kb is not None and abs(ka - kb) > 1e-9 * max(1.0, abs(ka), abs(kb)):
                return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == "c" and isinstance(x.a[0], (int, float, str)) and y.op in ("builtin", "func", "class"):
            return FALSE
    if a.op == "new" and b.op == "new":
        return FALSE
    if a is NONE:
        return ISNONE(b)
    if b is NONE:
        return ISNONE(a)
    if a.op == "c" and a.a[0] is True: a = ONE
    if b.op == "c" and b.a[0] is True: b = ONE
    if a.op == "c" and a.a[0] is False: a = ZERO
    if b.op == "c" and b.a[0] is False: b = ZERO
    if a.op == "c" and b.op == "c":
        try:
            return C(bool(a.a[0] == b.a[0]))
        except Exception:
            pass
    if a.op == "ite" and b.op in ("c", "enum"):
        return ITE(a.a[0], EQ(a.a[1], b), EQ(a.a[2], b))
    if b.op == "ite" and a.op in ("c", "enum"):
        return ITE(b.a[0], EQ(a, b.a[1]), EQ(a, b.a[2]))
    if a.op == "enum" and b.op == "enum" or a.op == "class" and b.op == "class" or a.op == "new" and b.op == "class" or a.op == "class" and b.op == "new":
        return C(a is b)
    if (a.op == "tuple" and b.op == "c") or (b.op == "tuple" and a.op == "c"):
        x, y = (a, b) if b.op == "c" else (b, a)
        if not isinstance(y.a[0], tuple):
            return FALSE
    if a.op == "tuple" and b.op == "tuple":
        if len(a.a) != len(b.a):
            return FALSE
        return AND(*[EQ(x, y) for x, y in zip(a.a, b.a)])
    if a.op == "c" and isinstance(a.a[0], float) and a.a[0] == int(a.a[0] if abs(a.a[0]) < 1e15 else 0):
        a = C(int(a.a[0])) if abs(a.a[0]) < 1e15 else a
    if b.op == "c" and isinstance(b.a[0], float) and abs(b.a[0]) < 1e15 and b.a[0] == int(b.a[0]):
        b = C(int(b.a[0]))
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)

NOT_NONE_OPS = {"slice", "new", "loc", "tuple", "add", "sub", "mul", "div", "pow", "neg", "class", "func", "fstr", "enum", "symb", "lambda", "bound", "box", "complex", "dictv", "setv", "round", "abs", "int", "float", "nparray", "len", "rematch"}

def ISNONE(a):
    if a.op == "c":
        return C(a.a[0] is None)
    if a.op in NOT_NONE_OPS:
        return FALSE
    if a.op == "ite":
        return ITE(a.a[0], ISNONE(a.a[1]), ISNONE(a.a[2]))
    return mk("isnone", a)

def LT(a, b):
    if a.op == "c" and b.op == "c":
        try:
            return C(bool(a.a[0] < b.a[0]))
        except Exception:
            pass
    if a is b:
        return FALSE
    ka = known(a)
    if ka is not None and not isinstance(ka, complex):
        kb = known(b)
        if kb is not None and not isinstance(kb, complex) and abs(ka - kb) > 1e-9 * max(abs(ka), abs(kb)):
            return C(bool(ka < kb))
    return mk("lt", a, b)

def TRUTHY(t):
    if t.op == "c":
        return C(bool(t.a[0]))
    if t.op in BOOL_OPS:
        return t
    if t.op == "ite":
        return ITE(t.a[0], TRUTHY(t.a[1]), TRUTHY(t.a[2]))
    if t.op == "tuple":
        return C(len(t.a) > 0)
    if t.op in ("new", "class", "func", "lambda", "bound", "enum", "rematch"):
        return TRUE
    return mk("truthy", t)

# ---------------------------------------------------------------- utilities
def walk(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for y in x.a:
            if isinstance(y, T):
                stack.append(y)

def contains(t, pred):
    return any(pred(x) for x in walk(t))

def mentions(t, sub):
    return any(x is sub for x in walk(t))

def rebuild(op, args):
    if op == "ite": return ITE(*args)
    if op == "and": return AND(*args)
    if op == "or": return OR(*args)
    if op == "not": return NOT(*args)
    if op == "eq": return EQ(*args)
    if op == "lt": return LT(*args)
    if op == "isnone": return ISNONE(*args)
    if op == "truthy": return TRUTHY(*args)
    if op in ARITH: return arith(op, *args)
    if op in ("max", "min") and len(args) > 1 and all(x.op == "c" and _num(x.a[0]) for x in args):
        return C((max if op == "max" else min)(x.a[0] for x in args))
    return mk(op, *args)

def subst(t, m, memo=None):
    """replace terms (identity keyed dict T->T) bottom up"""
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    if not any(isinstance(x, T) for x in t.a):
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    na = tuple(subst(x, m, memo) if isinstance(x, T) else x for x in t.a)
    r = t if all(x is y for x, y in zip(na, t.a)) else rebuild(t.op, na)
    r = m.get(r, r)
    memo[t.id] = r
    return r

ARITH = {"add", "sub", "mul", "div", "pow", "neg", "mod", "floordiv"}

def _num(v):
    return isinstance(v, (int, float, complex)) and not isinstance(v, bool)

def arith(op, *a):
    if all(x.op == "c" for x in a):
        v = [x.a[0] for x in a]
        try:
            if op == "neg": return C(-v[0])
            if op == "add": return C(v[0] + v[1])
            if op == "sub": return C(v[0] - v[1])
            if op == "mul": return C(v[0] * v[1])
            if op == "div": return C(v[0] / v[1])
            if op == "pow":
                if isinstance(v[0], int) and isinstance(v[1], int) and abs(v[1]) < 64:
                    return C(v[0] ** v[1])
            if op == "mod": return C(v[0] % v[1])
            if op == "floordiv": return C(v[0] // v[1])
        except Exception:
            pass
    if op == "add":
        if a[0].op == "tuple" and a[1].op == "tuple":
            return mk("tuple", *(a[0].a + a[1].a))
        if a[0].op == "c" and _num(a[0].a[0]) and a[0].a[0] == 0: return a[1]
        if a[1].op == "c" and _num(a[1].a[0]) and a[1].a[0] == 0: return a[0]
    if op == "mul":
        for i in (0, 1):
            if a[i].op == "c" and _num(a[i].a[0]) and a[i].a[0] == 1: return a[1 - i]
    return mk(op, *a)

_SHOW = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "**", "eq": "==", "lt": "<", "mod": "%", "floordiv": "//"}

def show(t, depth=8):
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    o = t.op
    if o == "c": return repr(t.a[0])
    if o in ("s", "symb"):
        return t.a[0] if isinstance(t.a[0], str) else f"symb({show(t.a[0], d)})"
    if o in _SHOW: return "(" + f" {_SHOW[o]} ".join(show(x, d) for x in t.a) + ")"
    if o == "neg": return f"-{show(t.a[0], d)}"
    if o == "attr": return f"{show(t.a[0], d)}.{t.a[1]}"
    if o == "sub_": return f"{show(t.a[0], d)}[{show(t.a[1], d)}]"
    if o == "not": return f"not({show(t.a[0], d)})"
    if o == "ite": return f"({show(t.a[1], d)} if {show(t.a[0], d)} else {show(t.a[2], d)})"
    if o == "elem": return f"elem<{show(t.a[0], d)}>"
    if o == "isnone": return f"({show(t.a[0], d)} is None)"
    if o == "truthy": return f"bool({show(t.a[0], d)})"
    return f"{o}(" + ", ".join(show(x, d) if isinstance(x, T) else str(x) for x in t.a) + ")"


def absorb(t, memo=None):
    """bottom up removal of exact zeros (0*x, x+0, 0/x, x-x)"""
    if memo is None:
        memo = {}
    if not any(isinstance(x, T) for x in t.a):
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    a = [absorb(x, memo) if isinstance(x, T) else x for x in t.a]
    z = lambda x: x.op == "c" and _num(x.a[0]) and x.a[0] == 0
    one = lambda x: x.op == "c" and _num(x.a[0]) and x.a[0] == 1
    o = t.op
    r = None
    if o == "mul":
        if z(a[0]) or z(a[1]): r = ZERO
    elif o == "sub":
        if z(a[1]): r = a[0]
        elif z(a[0]): r = absorb(mk("neg", a[1]), {})
        elif a[0] is a[1]: r = ZERO
    elif o == "div":
        if z(a[0]) and not z(a[1]): r = ZERO
        elif one(a[1]): r = a[0]
    elif o == "neg":
        if z(a[0]): r = ZERO
        elif a[0].op == "neg": r = a[0].a[0]
    if r is None:
        r = t if all(x is y for x, y in zip(a, t.a)) else rebuild(o, a)
    memo[t.id] = r
    return r


def leaves(t):
    """the values a conditional value can take"""
    while t.op == "ite":
        yield from leaves(t.a[1])
        t = t.a[2]
    yield t
