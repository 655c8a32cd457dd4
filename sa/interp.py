"""Interprocedural value-flow analysis of the repository's Python source.

The analysis computes, for a function, the value number (term) of every result,
store and call argument as a function of its inputs.  Control flow is gated:
at a join the values of both predecessors are merged into an `ite` term, so no
path is enumerated and nothing is executed or handed to a solver.  Loops over
unknown collections are summarised once (havoc of everything the body assigns,
then an `each`/`fold` summary).  Calls to functions of the repository are
inlined (helpers are transparent); everything else is an uninterpreted term.
"""
import ast
import re
import math
import os
import string
import warnings
import builtins as _pyb
from .term import *

UNROLL = 16
MAX_DEPTH = 40
MAX_REC = 2


class AnalysisError(Exception):
    pass


class Dead(Exception):
    """the current straight-line code cannot continue (always raises)"""


class Fn:
    __slots__ = ("qual", "node", "mod", "cls", "defaults", "kwdefaults", "closure", "kind", "isgen")


class Cls:
    __slots__ = ("qual", "name", "mod", "bases", "ns", "node", "isenum", "mro_cache", "ann")


class Mod:
    __slots__ = ("name", "path", "tree", "ns", "state", "src")


class State:
    __slots__ = ("env", "heap", "pc", "trace")

    def __init__(self, env=None, heap=None, pc=(), trace=()):
        self.env = {} if env is None else env
        self.heap = {} if heap is None else heap
        self.pc = pc
        self.trace = trace

    def fork(self, *lits):
        s = State(dict(self.env), dict(self.heap), self.pc, self.trace)
        for l in lits:
            s.assume(l)
        return s

    def assume(self, l):
        for x in (l.a if l.op == "and" else (l,)):
            if x.op == "c":
                continue
            if x not in self.pc:
                self.pc = self.pc + (x,)

    def become(self, o):
        self.env, self.heap, self.pc, self.trace = o.env, o.heap, o.pc, o.trace


class Frame:
    def __init__(self, fn, base_pc, depth):
        self.fn = fn
        self.returns = []      # (state, value)
        self.raises = []       # (pc_extra tuple, excterm, state)
        self.loops = []        # stack of dict(breaks=[], continues=[])
        self.base_pc = base_pc
        self.depth = depth
        self.yields = None
        self.trycnt = 0


TEMPLATE_PURE_EXT = ("math.", "cmath.", "numpy.", "sympy.", "os.path.")


def iscont(k):
    return isinstance(k, T) or k[0] == "items"


def contkey(k):
    return k if isinstance(k, T) else mk("itemsof", k[1])


def has_undef(v):
    return isinstance(v, T) and (v.op == "undef" or v.op == "ite" and (has_undef(v.a[1]) or has_undef(v.a[2])))


def gate_undef(c, a, b):
    """gated value of a field which may not exist on one side"""
    if a is b or c.op == "c" or not (has_undef(a) or has_undef(b)):
        return ITE(c, a, b)
    return mk("ite", c, a, b)


def count_parts(t):
    """(gated integer terms, constant) whose sum is t, or None"""
    if t.op == "c" and isinstance(t.a[0], int):
        return [], int(t.a[0])
    if t.op == "add" and len(t.a) == 2:
        x, y = count_parts(t.a[0]), count_parts(t.a[1])
        return None if x is None or y is None else (x[0] + y[0], x[1] + y[1])
    if t.op == "ite" and all(count_parts(x) is not None for x in t.a[1:]):
        return [t], 0
    return None


def counted(rel, a, b):
    """a comparison of a sum of gated integers with an integer, as a condition on the gates"""
    if b.op == "c" and isinstance(b.a[0], int):
        p, k, r = count_parts(a), b.a[0], rel
    elif a.op == "c" and isinstance(a.a[0], int):
        p, k, r = count_parts(b), a.a[0], lambda x, y: rel(y, x)
    else:
        return None
    if p is None or not p[0] or len(p[0]) > 8:
        return None

    def go(parts, acc):
        if not parts:
            return C(bool(r(acc, k)))
        t = parts[0]

        def each(u):
            if u.op == "ite":
                return ITE(u.a[0], each(u.a[1]), each(u.a[2]))
            q = count_parts(u)
            return go(q[0] + parts[1:], acc + q[1])
        return each(t)
    return go(p[0], p[1])


def defined_part(v):
    return ITE(v.a[0], defined_part(v.a[1]), defined_part(v.a[2])) if v.op != "undef" and has_undef(v) else v


def is_defined(v):
    if v.op == "undef":
        return FALSE
    if has_undef(v):
        return OR(AND(v.a[0], is_defined(v.a[1])), AND(NOT(v.a[0]), is_defined(v.a[2])))
    return TRUE


class Engine:
    def __init__(self, src, opaque=(), unroll=UNROLL):
        self.src = src
        self.mods = {}
        self.modtext = {}        # stand-in source of external modules: name -> text in the analysed language
        self.tokens = {}         # character standing for the digits of a symbolic number -> symbol
        self.sample_memo = {}
        self.scalars = False     # free symbols and arithmetic over them are plain numbers
        self.sample = {}         # symbol -> value that fixes its place in an order (comparisons only)
        self.fns = {}
        self.classes = {}
        self.hints = {}
        self.exact = set()          # term -> class qualname
        self.hint_fn = None      # callable(term) -> class qualname or None
        self.opaque = set(opaque)
        self.distinct_syms = set()
        self.models = {}         # summaries supplied for a function: qual -> f(args, kw, st, fr)
        self.base = {}           # module level heap
        self.base_state = State()
        self.n = 0
        self.active = {}         # active symbolic loops per iter term
        self.callstack = []
        self.unroll = unroll
        self.calls_inlined = set()
        self.unresolved = []
        self.alloc_site = {}
        self.trace_site = {}
        self.curfile = None
        self.nodestack = []

    # ------------------------------------------------------------- modules
    def modpath(self, name):
        if name in self.modtext:
            return "<" + name + ">"
        p = os.path.join(self.src, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py"
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.isdir(p):
            return p
        return None

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        p = self.modpath(name)
        if p is None:
            return None
        m = Mod()
        m.name, m.path, m.ns, m.state, m.tree = name, p, {}, "loading", None
        self.mods[name] = m
        m.ns["__name__"] = C(name)
        if name in self.modtext or os.path.isfile(p):
            if name in self.modtext:
                m.src = self.modtext[name]
            else:
                with open(p, encoding="utf-8", errors="replace") as f:
                    m.src = f.read()
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                m.tree = ast.parse(m.src, p)
            fr = Frame(None, (), 0)
            st = State(m.ns, self.base, (), ())
            saved = self.cur
            self.cur = (fr, m, None)
            try:
                out = self.block(m.tree.body, st, fr)
            except Dead:
                out = None
            finally:
                self.cur = saved
            if out is not None:
                m.ns.update(out.env)
                self.base = out.heap
        m.state = "done"
        return m

    cur = (None, None, None)
    strict_attr = False
    exact_try = False
    concrete_arrays = False
    while_unroll = 0

    def client(self, text, name="client"):
        """a client function written in the analysed language: it composes repository
        functions so that their combined effect is derived by the same analysis"""
        m = Mod()
        m.name, m.path, m.ns, m.state = f"client{self.fresh()}", "<client>", {}, "loading"
        m.src, m.tree = text, ast.parse(text)
        self.mods[m.name] = m
        fr = Frame(None, (), 0)
        saved = self.cur
        self.cur = (fr, m, None)
        try:
            out = self.block(m.tree.body, State(m.ns, self.base, (), ()), fr)
        finally:
            self.cur = saved
        m.ns.update(out.env)
        m.state = "done"
        return self.fns[m.ns[name].a[0]]

    def modattr(self, m, name):
        if name in m.ns:
            return m.ns[name]
        sub = self.modpath(m.name + "." + name)
        if sub:
            self.load(m.name + "." + name)
            return mk("mod", m.name + "." + name)
        if m.state == "loading":
            return mk("lazy", m.name, name)
        return None

    def resolve_lazy(self, t):
        if t.op == "lazy":
            m = self.mods[t.a[0]]
            if t.a[1] in m.ns:
                return m.ns[t.a[1]]
        return t

    # ------------------------------------------------------------- lookup API
    def cls(self, qual):
        """'models.components.line.Line' -> Cls"""
        mod, _, name = qual.rpartition(".")
        m = self.load(mod)
        if m is None:
            raise AnalysisError(f"anchor module {mod} not found")
        t = m.ns.get(name)
        if t is None or t.op != "class":
            raise AnalysisError(f"anchor class {qual} not found")
        return self.classes[t.a[0]]

    def fn(self, qual):
        """'logic.x.func' or 'logic.x.Class.method'"""
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            if self.modpath(".".join(parts[:i])) and (os.path.isfile(self.modpath(".".join(parts[:i])))):
                m = self.load(".".join(parts[:i]))
                rest = parts[i:]
                t = m.ns.get(rest[0])
                if t is None:
                    raise AnalysisError(f"anchor {qual} not found")
                if len(rest) == 1:
                    if t.op != "func":
                        raise AnalysisError(f"anchor {qual} is not a function")
                    return self.fns[t.a[0]]
                if t.op != "class":
                    raise AnalysisError(f"anchor {qual} not found")
                f = self.class_attr(self.classes[t.a[0]], rest[1])
                if f is None or f.op != "func":
                    raise AnalysisError(f"anchor method {qual} not found")
                return self.fns[f.a[0]]
        raise AnalysisError(f"anchor {qual} not found")

    def where(self, fn):
        return f"{os.path.relpath(fn.mod.path, os.path.dirname(self.src))}:{fn.node.lineno} {fn.qual}"

    # ------------------------------------------------------------- classes
    def mro(self, c):
        if c.mro_cache is None:
            out = [c]
            for b in c.bases:
                b = self.resolve_lazy(b)
                if b.op == "class":
                    for x in self.mro(self.classes[b.a[0]]):
                        if x not in out:
                            out.append(x)
            c.mro_cache = out
        return c.mro_cache

    def class_attr(self, c, name):
        for k in self.mro(c):
            if name in k.ns:
                return k.ns[name]
        return None

    def is_subclass(self, c, d):
        return d in self.mro(c)

    def has_unknown_base(self, c):
        for k in self.mro(c):
            for b in k.bases:
                b = self.resolve_lazy(b)
                if b.op != "class" and not (b.op == "builtin" and b.a[0] == "object"):
                    return True
        return False

    def class_of(self, t, st=None):
        if t.op == "new":
            return self.classes[t.a[0]]
        q = self.hints.get(t)
        if q is None and self.hint_fn is not None:
            q = self.hint_fn(t)
        if q is not None:
            return self.cls(q)
        return None

    # ------------------------------------------------------------- heap
    def hget(self, st, k):
        v = st.heap.get(k)
        if v is None:
            v = self.base.get(k)
        return v

    def fresh(self):
        self.n += 1
        return self.n

    def alloc(self, st, kind, entries=(), node=None):
        loc = mk("loc", kind, self.fresh())
        st.heap[loc] = tuple(entries)
        return loc

    def entries(self, st, loc):
        v = self.hget(st, loc)
        if v is None:
            return (("rest", loc),)
        return v

    def freeze(self, t, st, depth=6, _stack=()):
        """structural snapshot of a value (containers/objects expanded)"""
        if t.op == "loc":
            if depth <= 0 or t in _stack:
                return t
            return mk("box", t.a[0], *self.freeze_entries(self.entries(st, t), st, depth - 1, _stack + (t,)))
        if t.op == "new":
            return t
        if t.op in ("tuple",):
            return mk("tuple", *[self.freeze(x, st, depth, _stack) for x in t.a])
        if t.op == "ite":
            return ITE(t.a[0], self.freeze(t.a[1], st, depth, _stack), self.freeze(t.a[2], st, depth, _stack))
        return t

    def freeze_entries(self, es, st, depth, stk):
        out = []
        for e in es:
            k = e[0]
            if k == "i":
                out.append(mk("i", self.freeze(e[1], st, depth, stk)))
            elif k == "kv":
                out.append(mk("kv", self.freeze(e[1], st, depth, stk), self.freeze(e[2], st, depth, stk)))
            elif k == "g":
                out.append(mk("g", e[1], *self.freeze_entries(e[2], st, depth, stk)))
            elif k == "each":
                out.append(mk("each", e[1], C(e[2]), *self.freeze_entries(e[3], st, depth, stk)))
            elif k == "rest":
                out.append(mk("rest", e[1]))
            elif k == "del":
                out.append(mk("del", e[1]))
            else:
                out.append(mk(str(k), *[x for x in e[1:] if isinstance(x, T)]))
        return out

    # ------------------------------------------------------------- merge
    def freeze_cont(self, k, st):
        if isinstance(k, T):
            return self.freeze(k, st)
        return mk("box", "items", *self.freeze_entries(self.hget(st, k) or (), st, 6, ()))

    def merge_entries(self, c, a, b):
        if a == b:
            return a
        i = 0
        while i < len(a) and i < len(b) and a[i] == b[i]:
            i += 1
        ra, rb = a[i:], b[i:]
        # element-wise merge of plain items of same length
        if len(ra) == len(rb) and all(x[0] == "i" and y[0] == "i" for x, y in zip(ra, rb)):
            return a[:i] + tuple(("i", ITE(c, x[1], y[1])) for x, y in zip(ra, rb))
        if len(ra) == len(rb) and all(x[0] == "kv" and y[0] == "kv" and x[1] is y[1] for x, y in zip(ra, rb)):
            return a[:i] + tuple(("kv", x[1], ITE(c, x[2], y[2])) for x, y in zip(ra, rb))
        out = list(a[:i])
        if ra:
            out.append(("g", c, ra))
        if rb:
            out.append(("g", NOT(c), rb))
        return tuple(out)

    def default_of(self, k):
        if isinstance(k, tuple) and k[0] == "f":
            return mk("attr", k[1], k[2])
        return None

    def merge(self, c, s1, s2, base_pc=None):
        """join of two states under gate c (c true -> s1)"""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        out = State()
        e1, e2 = s1.env, s2.env
        env = {}
        for k in e1.keys() | e2.keys():
            a, b = e1.get(k), e2.get(k)
            if a is b:
                env[k] = a
            elif a is None:
                env[k] = b
            elif b is None:
                env[k] = a
            else:
                env[k] = ITE(c, a, b)
        out.env = env
        h1, h2 = s1.heap, s2.heap
        heap = {}
        for k in h1.keys() | h2.keys():
            a, b = h1.get(k), h2.get(k)
            if a is b:
                heap[k] = a
                continue
            if a is None: a = self.base.get(k)
            if b is None: b = self.base.get(k)
            if iscont(k):                      # container
                if not isinstance(k, T):
                    a, b = a or (), b or ()
                if a is None or b is None:
                    heap[k] = a if a is not None else b
                else:
                    heap[k] = self.merge_entries(c, a, b)
            else:                              # scalar slot
                if a is None or b is None:
                    d = None
                    if k[0] == "f" and k[1].op != "new":
                        d = self.default_of(k)
                    if k[0] == "f" and k[1].op == "new":
                        # object field assigned on one side only
                        cl = self.classes.get(k[1].a[0])
                        ca = self.class_attr(cl, k[2]) if cl else None
                        if ca is not None and ca.op != "func":
                            d = ca
                        elif ("live", k[1]) in (h1 if a is None else h2):
                            d = mk("undef", k[2])
                    if k[0] == "cnt":
                        d = ZERO
                    if d is not None:
                        a = a if a is not None else d
                        b = b if b is not None else d
                        heap[k] = gate_undef(c, a, b)
                    else:
                        heap[k] = a if a is not None else b
                else:
                    heap[k] = gate_undef(c, a, b)
        out.heap = heap
        # path condition: common prefix + implications
        p1, p2 = s1.pc, s2.pc
        i = 0
        while i < len(p1) and i < len(p2) and p1[i] is p2[i]:
            i += 1
        x1 = [x for x in p1[i:] if x is not c]
        nc = NOT(c)
        x2 = [x for x in p2[i:] if x is not nc]
        if c.op == "and":
            x1 = [x for x in x1 if x not in c.a]
        if nc.op == "and":
            x2 = [x for x in x2 if x not in nc.a]
        pc = list(p1[:i])
        for x in x1:
            if x in x2:
                if x not in pc:
                    pc.append(x)
            else:
                y = OR(nc, x)
                if y.op != "c" and y not in pc:
                    pc.append(y)
        for x in x2:
            if x not in x1:
                y = OR(c, x)
                if y.op != "c" and y not in pc:
                    pc.append(y)
        out.pc = tuple(pc)
        # trace
        t1, t2 = s1.trace, s2.trace
        i = 0
        while i < len(t1) and i < len(t2) and t1[i] is t2[i]:
            i += 1
        tr = list(t1[:i])
        if t1[i:]:
            tr.append(("g", c, t1[i:]))
        if t2[i:]:
            tr.append(("g", nc, t2[i:]))
        out.trace = tuple(tr)
        return out

    def simp(self, c, st):
        """simplify a condition under the path condition"""
        if c.op == "c":
            return c
        pcs = st.pc
        if c in pcs:
            return TRUE
        n = NOT(c)
        if n in pcs:
            return FALSE
        if c.op in ("and", "or"):
            parts = [self.simp(x, st) for x in c.a]
            r = AND(*parts) if c.op == "and" else OR(*parts)
            return r
        # eq(x, k1) known  => eq(x, k2) false
        if c.op == "eq":
            for p in pcs:
                if p.op == "eq":
                    for i in (0, 1):
                        for j in (0, 1):
                            if p.a[i] is c.a[j]:
                                o1, o2 = p.a[1 - i], c.a[1 - j]
                                if o1.op == o2.op == "c" and o1 is not o2:
                                    return FALSE
                                if o1.op == o2.op == "enum" and o1 is not o2:
                                    return FALSE
        return c

    # ------------------------------------------------------------- statements
    def block(self, stmts, st, fr):
        for s in stmts:
            if st is None:
                return None
            self.nodestack.append(s)
            try:
                st = self.stmt(s, st, fr)
            except Dead:
                st = None
            finally:
                self.nodestack.pop()
        return st

    def stmt(self, s, st, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise AnalysisError(f"unsupported statement {type(s).__name__} at {self.cur[1].path}:{s.lineno}")
        return m(s, st, fr)

    def s_Pass(self, s, st, fr):
        return st

    def s_Expr(self, s, st, fr):
        self.ev(s.value, st, fr)
        return st

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)
        return st

    def s_AugAssign(self, s, st, fr):
        import copy
        tgt = s.target
        load = copy.copy(tgt)
        load.ctx = ast.Load()
        if isinstance(tgt, ast.Name):
            cur = self.ev(load, st, fr)
            val = self.ev(s.value, st, fr)
            if isinstance(s.op, ast.Add) and cur.op == "loc" and cur.a[0] == "list":
                self.list_extend(cur, val, st, fr)
                return st
            self.assign(tgt, self.binop(s.op, cur, val, st, fr), st, fr)
        elif isinstance(tgt, ast.Attribute):
            o = self.ev(tgt.value, st, fr)
            cur = self.getattr(o, tgt.attr, st, fr)
            val = self.ev(s.value, st, fr)
            if isinstance(s.op, ast.Add) and cur.op == "loc" and cur.a[0] == "list":
                self.list_extend(cur, val, st, fr)
                return st
            self.setattr(o, tgt.attr, self.binop(s.op, cur, val, st, fr), st, fr)
        elif isinstance(tgt, ast.Subscript):
            o = self.ev(tgt.value, st, fr)
            i = self.ev_index(tgt.slice, st, fr)
            cur = self.getitem(o, i, st, fr)
            val = self.ev(s.value, st, fr)
            if isinstance(s.op, ast.Add) and cur.op == "loc" and cur.a[0] == "list":
                self.list_extend(cur, val, st, fr)
                return st
            self.setitem(o, i, self.binop(s.op, cur, val, st, fr), st, fr, aug=val)
        return st

    def s_If(self, s, st, fr):
        c = self.simp(self.truth(s.test, st, fr), st)
        if c is TRUE:
            return self.block(s.body, st, fr)
        if c is FALSE:
            return self.block(s.orelse, st, fr)
        a = self.block(s.body, st.fork(c), fr)
        b = self.block(s.orelse, st.fork(NOT(c)), fr)
        return self.merge(c, a, b)

    def s_Return(self, s, st, fr):
        v = NONE if s.value is None else self.ev(s.value, st, fr)
        fr.returns.append((st, v, s))
        return None

    def s_Raise(self, s, st, fr):
        v = NONE
        if s.exc is not None:
            try:
                v = self.ev(s.exc, st, fr)
            except Dead:
                pass
        fr.raises.append((st, v, s))
        return None

    def s_Assert(self, s, st, fr):
        c = self.simp(self.truth(s.test, st, fr), st)
        if c is FALSE:
            fr.raises.append((st, S("AssertionError"), s))
            return None
        if c is not TRUE:
            fr.raises.append((st.fork(NOT(c)), S("AssertionError"), s))
            st.assume(c)
        return st

    def s_FunctionDef(self, s, st, fr):
        st.env[s.name] = self.mkfn(s, st, fr)
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def mkfn(self, s, st, fr, name=None):
        f = Fn()
        mod, cl = self.cur[1], self.cur[2]
        f.node = s
        f.mod = mod
        f.cls = cl
        nm = name or s.name
        outer = ""
        if fr is not None and fr.fn is not None:
            outer = fr.fn.qual + ".<locals>."
            f.qual = outer + nm
        else:
            f.qual = (cl.qual if cl else mod.name) + "." + nm
        f.defaults = [self.ev(d, st, fr) for d in s.args.defaults]
        f.kwdefaults = [self.ev(d, st, fr) if d is not None else None for d in s.args.kw_defaults]
        f.closure = st.env if (fr is not None and fr.fn is not None) else None
        f.kind = "func"
        for d in getattr(s, "decorator_list", []):
            if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property"):
                f.kind = d.id
        f.isgen = False
        body = s.body if isinstance(s.body, list) else [s.body]
        stack = list(body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                f.isgen = True
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(x))
        key = f.qual
        if f.closure is not None or key in self.fns and self.fns[key].node is not s:
            key = f"{f.qual}#{self.fresh()}"
        self.fns[key] = f
        return mk("func", key)

    def s_ClassDef(self, s, st, fr):
        c = Cls()
        mod = self.cur[1]
        c.name = s.name
        c.qual = mod.name + "." + s.name
        c.mod = mod
        c.node = s
        c.mro_cache = None
        c.bases = [self.ev(b, st, fr) for b in s.bases]
        c.isenum = any((b.op == "ext" and b.a[0].startswith("enum.")) or (b.op == "class" and self.classes[b.a[0]].isenum) for b in c.bases)
        c.ns = {}
        c.ann = {}
        self.classes[c.qual] = c
        t = mk("class", c.qual)
        saved = self.cur
        self.cur = (fr, mod, c)
        inner = State(dict(st.env), st.heap, st.pc, st.trace)
        before = dict(st.env)
        try:
            out = self.block(s.body, inner, Frame(None, (), 0))
        finally:
            self.cur = saved
        if out is not None:
            for k, v in out.env.items():
                if before.get(k) is not v:
                    c.ns[k] = v
            # names assigned in class body identical to outer value
            for b in s.body:
                if isinstance(b, ast.Assign):
                    for tg in b.targets:
                        if isinstance(tg, ast.Name):
                            c.ns[tg.id] = out.env.get(tg.id)
            st.heap = out.heap
        if c.isenum:
            for k in list(c.ns):
                if c.ns[k] is not None and c.ns[k].op != "func" and not k.startswith("_"):
                    c.ns[k] = mk("enum", c.qual, k, c.ns[k])
        st.env[s.name] = t
        return st

    def s_Import(self, s, st, fr):
        for a in s.names:
            nm = a.name
            top = nm.split(".")[0]
            if self.modpath(top):
                self.load(nm)
                parts = nm.split(".")
                for i in range(1, len(parts) + 1):
                    self.load(".".join(parts[:i]))
                st.env[a.asname or top] = mk("mod", nm if a.asname else top)
            else:
                st.env[a.asname or top] = mk("ext", nm if a.asname else top)
        return st

    def s_ImportFrom(self, s, st, fr):
        nm = s.module or ""
        if s.level:
            base = self.cur[1].name.split(".")
            if not self.cur[1].path.endswith("__init__.py"):
                base = base[:-1]
            base = base[: len(base) - (s.level - 1)]
            nm = ".".join(base + ([nm] if nm else []))
        if nm == "builtins":
            for a in s.names:
                st.env.pop(a.asname or a.name, None)
            return st
        if nm and self.modpath(nm.split(".")[0]):
            m = self.load(nm)
            for a in s.names:
                if a.name == "*":
                    if m:
                        for k, v in m.ns.items():
                            if not k.startswith("_"):
                                st.env[k] = v
                    continue
                v = self.modattr(m, a.name) if m else None
                st.env[a.asname or a.name] = v if v is not None else mk("ext", nm + "." + a.name)
            # module loading may extend base heap while we hold it
            if st.heap is not self.base and self.cur[0] is not None and self.cur[0].fn is None:
                for k, v in self.base.items():
                    st.heap.setdefault(k, v)
        else:
            for a in s.names:
                if a.name == "*":
                    continue
                st.env[a.asname or a.name] = mk("ext", (nm + "." if nm else "") + a.name)
        return st

    def s_Global(self, s, st, fr):
        return st

    s_Nonlocal = s_Global

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, fr)
                i = self.ev_index(t.slice, st, fr)
                items = self.seq_items(o, st, fr) if o.op == "loc" and o.a[0] == "list" else None
                if items is not None and (i.op == "slice" and all(x.op == "c" for x in i.a) or i.op == "c" and isinstance(i.a[0], int)):
                    items = list(items)
                    del items[slice(*[x.a[0] for x in i.a]) if i.op == "slice" else i.a[0]]
                    st.heap[o] = tuple(("i", x) for x in items)
                elif o.op == "loc":
                    st.heap[o] = self.entries(st, o) + (("del", i),)
                else:
                    self.log(st, mk("delitem", o, i))
            elif isinstance(t, ast.Attribute):
                pass
        return st

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        return self.block(s.body, st, fr)

    def exc_kind(self, v):
        """name of the builtin exception class of a raised value (None: unknown)"""
        if v.op == "keyerror": return "KeyError"
        if v.op == "attributeerror": return "AttributeError"
        if v.op == "s": return v.a[0]
        if v.op == "excval": return v.a[0].a[0]
        if v.op in ("call", "builtin"):
            f = v.a[0] if v.op == "call" else v
            if isinstance(f, T) and f.op == "builtin" and isinstance(getattr(_pyb, f.a[0], None), type):
                return f.a[0]
        if v.op == "new":
            return v
        return None

    def catches(self, h, v, st, fr):
        if h is None:
            return True
        if isinstance(h, ast.Tuple):
            return any(self.catches(x, v, st, fr) for x in h.elts)
        t = self.resolve_lazy(self.ev(h, st, fr))
        if t.op == "builtin" and t.a[0] in ("Exception", "BaseException"):
            return True
        k = self.exc_kind(v)
        if k is None:
            raise AnalysisError(f"unknown exception {show(v, 4)[:80]} at a typed handler")
        if isinstance(k, T):
            if t.op == "class":
                return self.is_subclass(self.classes[k.a[0]], self.classes[t.a[0]])
            raise AnalysisError("own exception class at a builtin handler")
        if t.op != "builtin":
            return False
        a, b = getattr(_pyb, k, None), getattr(_pyb, t.a[0], None)
        return isinstance(a, type) and isinstance(b, type) and issubclass(a, b)

    def merge_many(self, states, base_pc):
        acc = None
        for s in reversed(states):
            if acc is None:
                acc = s
                continue
            extra = [x for x in s.pc if x not in base_pc and x not in acc.pc]
            g = AND(*extra)
            acc = s if g is TRUE else self.merge(g, s, acc)
        return acc

    def raise_(self, v, st, fr, node=None):
        fr.raises.append((st.fork(), v, node))
        raise Dead()

    def try_exact(self, s, st, fr):
        """handlers run from the states in which the body raises; operations not modelled as raising do not raise"""
        base = st.pc
        nr = len(fr.raises)
        body = self.block(s.body, st, fr)
        caught = fr.raises[nr:]
        del fr.raises[nr:]
        outs = []
        if body is not None and s.orelse:
            body = self.block(s.orelse, body, fr)
        for rs, v, n in caught:
            h = next((h for h in s.handlers if self.catches(h.type, v, rs, fr)), None)
            if h is None:
                fr.raises.append((rs, v, n))
                continue
            if h.name:
                rs.env[h.name] = v
            k = len(fr.raises)
            o = self.block(h.body, rs, fr)
            for i in range(k, len(fr.raises)):
                if fr.raises[i][1] is NONE:
                    fr.raises[i] = (fr.raises[i][0], v, fr.raises[i][2])
            if o is not None:
                outs.append(o)
        if body is not None:
            outs.append(body)
        out = self.merge_many(outs, base)
        if s.finalbody:
            for i in range(nr, len(fr.raises)):
                rs = fr.raises[i][0]
                o = self.block(s.finalbody, rs, fr)
                if o is not None:
                    fr.raises[i] = (o, fr.raises[i][1], fr.raises[i][2])
            if out is not None:
                out = self.block(s.finalbody, out, fr)
        return out

    def s_Try(self, s, st, fr):
        if self.exact_try:
            return self.try_exact(s, st, fr)
        fr.trycnt += 1
        # a gate for "an exception reached the handler of this try"
        key = (fr.fn.qual if fr.fn else self.cur[1].name) + f"#{fr.trycnt}"
        gate = mk("exc", key, *[x for x in st.pc if x.op == "iter"])
        pre = st.fork()
        nr = len(fr.raises)
        body = self.block(s.body, st, fr)
        caught = fr.raises[nr:]
        catch_all = any(h.type is None or (isinstance(h.type, ast.Name) and h.type.id in ("Exception", "BaseException")) for h in s.handlers)
        if s.handlers and catch_all:
            del fr.raises[nr:]
        if body is not None:
            body.trace = body.trace
        if body is not None and s.orelse:
            body = self.block(s.orelse, body, fr)
        out = body
        hs = None
        for h in s.handlers:
            h0 = pre.fork(gate)
            if caught and body is None and len(s.handlers) == 1:
                pass
            h0.trace = h0.trace
            if h.name:
                h0.env[h.name] = S("exception")
            # trace performed by the body before the exception is recorded as "maybe"
            hstate = self.block(h.body, h0, fr)
            if hs is None:
                hs = hstate
            elif hstate is not None:
                hs = self.merge(mk("exc", key, C(type(h).__name__), C(h.lineno)), hs, hstate)
        if hs is not None and out is not None:
            out.assume(NOT(gate))
            out = self.merge(gate, hs, out)
        elif out is None:
            out = hs
        elif s.handlers:
            out.assume(NOT(gate))
        if s.finalbody:
            if out is None:
                # still account for the effects
                self.block(s.finalbody, pre.fork(), fr)
                return None
            out = self.block(s.finalbody, out, fr)
        return out

    def s_Break(self, s, st, fr):
        fr.loops[-1]["breaks"].append(st)
        return None

    def s_Continue(self, s, st, fr):
        fr.loops[-1]["continues"].append(st)
        return None

    def s_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)

        def bind(state, v):
            self.assign(s.target, v, state, fr)
        out = self.loop(it, lambda state, v: (bind(state, v), self.block(s.body, state, fr))[1], st, fr)
        if s.orelse and out is not None:
            out = self.block(s.orelse, out, fr)
        return out

    def s_While(self, s, st, fr):
        site = (fr.fn.qual if fr.fn else self.cur[1].name)
        n = sum(1 for x in self.active if x.op == "while")
        # occurrence number of this while within the function
        idx = 0
        if fr.fn is not None:
            whiles = [x for x in ast.walk(fr.fn.node) if isinstance(x, ast.While)]
            idx = whiles.index(s) if s in whiles else 0
        it = mk("while", site, idx)

        def body(state, _):
            c = self.simp(self.truth(s.test, state, fr), state)
            if c is FALSE:
                return None
            if c is not TRUE:
                state.assume(c)
            return self.block(s.body, state, fr)
        if self.while_unroll:
            def turn(state, k):
                c = self.simp(self.truth(s.test, state, fr), state)
                if c is not TRUE:
                    stop = state.fork(NOT(c)) if c is not FALSE else state
                    fr.loops[-1]["breaks"].append(stop)
                    if c is FALSE:
                        return None
                    state.assume(c)
                if k is ONE:
                    raise AnalysisError("loop does not end within the analysed number of turns")
                return self.block(s.body, state, fr)
            return self.loop_entries([("i", ZERO)] * self.while_unroll + [("i", ONE)], turn, st, fr)
        # loop never entered?
        c0 = self.simp(self.truth(s.test, st.fork(), fr), st)
        if c0 is FALSE:
            return self.block(s.orelse, st, fr) if s.orelse else st
        out = self.sym_loop(it, it, body, st, fr, wtest=s.test)
        return out

    # ------------------------------------------------------------- loops
    def loop(self, it, run, st, fr):
        """run(state, elem) -> state or None ; st is the state before the loop"""
        return self.loop_entries(self.iter_entries(it, st, fr), run, st, fr)

    def elem(self, it):
        return mk("elem", it, self.active.get(it, 0))

    def iter_entries(self, it, st, fr):
        """the iteration structure of a value, as container entries"""
        it = self.resolve_lazy(it)
        r = self.dunder(it, "__iter__", [], st, fr)
        if r is not None and r is not it:
            return self.iter_entries(r, st, fr)
        if it.op == "tuple":
            return tuple(("i", x) for x in it.a)
        if it.op == "loc":
            es = self.entries(st, it)
            if any(e[0] == "del" for e in es):
                return (("rest", self.freeze(it, st)),)
            if it.a[0] == "dict":
                return self.map_kv(es, lambda k, v: k)
            return es
        if it.op == "c" and isinstance(it.a[0], str):
            return tuple(("i", C(ch)) for ch in it.a[0])
        if it.op == "enumclass":
            return (("rest", it),)
        if it.op == "class" and self.classes[it.a[0]].isenum:
            return tuple(("i", v) for v in self.classes[it.a[0]].ns.values() if v is not None and v.op == "enum")
        if it.op == "range_":
            a, b, s_ = it.a
            if a.op == b.op == s_.op == "c":
                try:
                    r = range(a.a[0], b.a[0], s_.a[0])
                    if len(r) <= self.unroll:
                        return tuple(("i", C(i)) for i in r)
                except Exception:
                    pass
            return (("rest", it),)
        if it.op == "enumerate_":
            es = self.iter_entries(it.a[0], st, fr)
            if all(e[0] == "i" for e in es):
                start = it.a[1]
                return tuple(("i", mk("tuple", arith("add", start, C(i)), e[1])) for i, e in enumerate(es))
            src = it.a[0]
            base = src
            if len(es) == 1 and es[0][0] == "rest":
                base = es[0][1]
            elif src.op == "loc":
                base = self.freeze(src, st)
            return (("restm", mk("enumerate_", base, it.a[1]), lambda: mk("tuple", arith("add", it.a[1], mk("idx", base, self.active.get(mk("enumerate_", base, it.a[1]), 1) - 1)), mk("elem", base, self.active.get(mk("enumerate_", base, it.a[1]), 1) - 1))),)
        if it.op == "zip_":
            ess = [self.iter_entries(x, st, fr) for x in it.a]
            if all(all(e[0] == "i" for e in es) for es in ess) and ess:
                return tuple(("i", mk("tuple", *[e[1] for e in z])) for z in zip(*ess))
            bases = []
            for x, es in zip(it.a, ess):
                bases.append(es[0][1] if len(es) == 1 and es[0][0] == "rest" else (self.freeze(x, st) if x.op == "loc" else x))
            z = mk("zip_", *bases)
            return (("restm", z, lambda: mk("tuple", *[mk("elem", b, self.active.get(z, 1) - 1) for b in bases])),)
        if it.op == "items_":
            d = it.a[0]
            if d.op == "loc":
                return self.map_kv(self.entries(st, d), lambda k, v: mk("tuple", k, v))
            return (("restm", mk("items_", d), lambda: mk("tuple", mk("keyof", d, self.active.get(mk("items_", d), 1) - 1), self.getitem(d, mk("keyof", d, self.active.get(mk("items_", d), 1) - 1), st, fr))),)
        if it.op == "values_":
            d = it.a[0]
            if d.op == "loc":
                return self.map_kv(self.entries(st, d), lambda k, v: v)
            return (("restm", mk("values_", d), lambda: self.getitem(d, mk("keyof", d, self.active.get(mk("values_", d), 1) - 1), st, fr)),)
        if it.op == "keys_":
            d = it.a[0]
            if d.op == "loc":
                return self.map_kv(self.entries(st, d), lambda k, v: k)
            return (("rest", it),)
        if it.op == "reversed_":
            es = self.iter_entries(it.a[0], st, fr)
            if all(e[0] == "i" for e in es):
                return tuple(reversed(es))
            return (("rest", mk("reversed_", self.freeze(it.a[0], st))),)
        if it.op == "add":
            # concatenation of (opaque) sequences
            return self.iter_entries(it.a[0], st, fr) + self.iter_entries(it.a[1], st, fr)
        if it.op == "box":
            return self.unfreeze(it)
        if it.op == "ite":
            a = self.iter_entries(it.a[1], st, fr)
            b = self.iter_entries(it.a[2], st, fr)
            return (("g", it.a[0], a), ("g", NOT(it.a[0]), b))
        return (("rest", it),)

    def unfreeze(self, t):
        out = []
        for e in t.a[1:]:
            if e.op == "i": out.append(("i", e.a[0]))
            elif e.op == "kv": out.append(("kv", e.a[0], e.a[1]))
            elif e.op == "g": out.append(("g", e.a[0], self.unfreeze(mk("box", "x", *e.a[1:]))))
            elif e.op == "each": out.append(("each", e.a[0], e.a[1].a[0], self.unfreeze(mk("box", "x", *e.a[2:]))))
            elif e.op == "rest": out.append(("rest", e.a[0]))
            else: out.append(("rest", t))
        return tuple(out)

    def map_kv(self, es, f):
        out = []
        for e in es:
            if e[0] == "kv":
                v = ("i", f(e[1], e[2]))
                out.append(v)
            elif e[0] == "g":
                out.append(("g", e[1], self.map_kv(e[2], f)))
            elif e[0] == "each":
                out.append(("each", e[1], e[2], self.map_kv(e[3], f)))
            elif e[0] == "rest":
                k = mk("elem", mk("keys_", e[1]), 0)
                out.append(("rest", mk("mapkv", e[1], f(k, mk("sub_", e[1], k)))))
        # duplicate key overwrites: keep it simple (keys are distinct in practice)
        return tuple(out)

    def loop_entries(self, es, run, st, fr):
        frame = {"breaks": [], "continues": []}
        fr.loops.append(frame)
        try:
            out = self._loop_entries(es, run, st, fr, frame)
        finally:
            fr.loops.pop()
        # states that broke out of a (concretely unrolled) loop
        return self.join_pending(out, frame["breaks"], st)

    def join_pending(self, out, pend, base):
        for b in reversed(pend):
            extra = [x for x in b.pc if x not in base.pc]
            g = AND(*extra) if extra else TRUE
            if g is TRUE or out is None:
                if out is None:
                    out = b
                    continue
                out = b
            else:
                out = self.merge(g, b, out)
        return out

    def _loop_entries(self, es, run, st, fr, frame):
        for e in es:
            if st is None:
                return None
            k = e[0]
            if k == "i":
                base = st.fork()
                cont0 = frame["continues"]
                frame["continues"] = []
                try:
                    r = run(st, e[1])
                except Dead:
                    r = None
                st = self.join_pending(r, frame["continues"], base)
                frame["continues"] = cont0
            elif k == "g":
                c = self.simp(e[1], st)
                if c is TRUE:
                    st = self._loop_entries(e[2], run, st, fr, frame)
                elif c is FALSE:
                    continue
                else:
                    a = self._loop_entries(e[2], run, st.fork(c), fr, frame)
                    b = st.fork(NOT(c))
                    st = self.merge(c, a, b)
            elif k == "each":
                inner = e[3]
                st = self.sym_loop(e[1], e[1], lambda s2, el, inner=inner: self._loop_entries(inner, run, s2, fr, fr.loops[-1]), st, fr, cnt=e[2])
            elif k == "rest":
                t = e[1]
                st = self.sym_loop(t, t, lambda s2, el: self._run1(run, s2, el, fr), st, fr)
            elif k == "restm":
                t = e[1]
                mkv = e[2]
                st = self.sym_loop(t, t, lambda s2, el: self._run1(run, s2, mkv(), fr), st, fr)
            elif k == "kv":
                st = run(st, e[1])
            else:
                pass
        return st

    def _run1(self, run, s2, el, fr):
        try:
            return run(s2, el)
        except Dead:
            return None

    def sym_loop(self, it, key, body, st, fr, wtest=None, cnt=None):
        n = self.active.get(it, 0)
        if cnt is not None:
            n = cnt
        self.active[it] = n + 1
        el = mk("elem", it, n)
        lit = mk("iter", it, C(n))
        try:
            changed_env, changed_heap = {}, {}
            result = None
            for attempt in range(6):
                s0 = st.fork()
                for k in changed_env:
                    s0.env[k] = mk("phi", it, n, k)
                for k, kind in changed_heap.items():
                    if iscont(k):
                        s0.heap[k] = (("rest", mk("phi", it, n, contkey(k))),)
                    else:
                        s0.heap[k] = mk("phi", it, n, mk("slot", *[x if isinstance(x, T) else C(x) for x in k]))
                s0.pc = s0.pc + (lit,)
                s0.trace = ()
                fm = {"breaks": [], "continues": []}
                fr.loops.append(fm)
                nret, nrai = len(fr.returns), len(fr.raises)
                entry = s0.fork()
                try:
                    out = body(s0, el)
                except Dead:
                    out = None
                finally:
                    fr.loops.pop()
                out = self.join_pending(out, fm["continues"], entry)
                rets, rais = fr.returns[nret:], fr.raises[nrai:]
                del fr.returns[nret:]
                del fr.raises[nrai:]
                ends = [x for x in [out] + fm["breaks"] if x is not None]
                new = False
                for o in ends:
                    for k, v in o.env.items():
                        if k in entry.env and entry.env[k] is not v and k not in changed_env:
                            changed_env[k] = 1
                            new = True
                    for k, v in o.heap.items():
                        ev = entry.heap.get(k)
                        if ev is None:
                            ev = self.base.get(k)
                        if ev is None:
                            if not isinstance(k, T) and k[0] in ("f", "cnt") and k[1].op not in ("new", "loc") and k not in changed_heap:
                                # field of a symbolic object
                                if not (mentions(k[1], el)):
                                    changed_heap[k] = 1
                                    new = True
                            continue
                        if ev is not v and ev != v and k not in changed_heap:
                            changed_heap[k] = 1
                            new = True
                if not new:
                    break
            res = st.fork()
            # ---- summaries
            bguard = FALSE
            for b in fm["breaks"]:
                extra = [x for x in b.pc if x not in entry.pc]
                bguard = OR(bguard, AND(*extra))
            itx = it if bguard is FALSE else mk("until", it, bguard)
            allout = out
            for b in fm["breaks"]:
                extra = [x for x in b.pc if x not in entry.pc]
                allout = self.merge(AND(*extra) if extra else TRUE, b, allout) if allout is not None else b
            if allout is not None:
                for k in allout.env:
                    if k in changed_env:
                        phi = mk("phi", it, n, k)
                        res.env[k] = self.summ(itx, n, phi, st.env[k], allout.env[k])
                    elif k not in st.env:
                        # variables first assigned in the loop: value of last iteration
                        res.env[k] = mk("last", itx, n, allout.env[k]) if mentions(allout.env[k], el) or True else allout.env[k]
                for k, v in allout.heap.items():
                    if k in changed_heap:
                        if iscont(k):
                            init = st.heap.get(k)
                            if init is None:
                                init = self.base.get(k, ())
                            pre = (("rest", mk("phi", it, n, contkey(k))),)
                            if v[:1] == pre:
                                app = v[1:]
                                if any(x[0] == "del" for x in app):
                                    res.heap[k] = tuple(init) + (("each", itx, n, tuple(app)),)
                                else:
                                    res.heap[k] = tuple(init) + ((("each", itx, n, tuple(app)),) if app else ())
                            elif v == pre:
                                res.heap[k] = init
                            else:
                                res.heap[k] = (("rest", mk("fold", itx, n, mk("phi", it, n, contkey(k)), self.freeze_cont(k, st), self.freeze_cont(k, allout))),)
                        else:
                            phi = mk("phi", it, n, mk("slot", *[x if isinstance(x, T) else C(x) for x in k]))
                            init = st.heap.get(k)
                            if init is None:
                                init = self.base.get(k)
                            if init is None:
                                init = self.default_of(k) or ZERO
                            res.heap[k] = self.summ(itx, n, phi, init, v)
                    elif k not in res.heap and k not in self.base:
                        res.heap[k] = v
                    elif k not in res.heap:
                        pass
            tr = allout.trace if allout is not None else ()
            dead_tr = [x.trace for x, *_ in rets + rais]
            if tr:
                res.trace = st.trace + (("each", itx, n, tr),)
            for (s, v, node) in rets:
                s2 = s
                s2.trace = st.trace + ((("each", itx, n, s.trace),) if s.trace else ())
                fr.returns.append((s2, v, node))
            for (s, v, node) in rais:
                fr.raises.append((s, v, node))
            if wtest is not None and out is not None:
                # after a while loop: either a break happened or the test failed
                tmp = res.fork()
                try:
                    c = self.truth(wtest, tmp, fr)
                    if not fm["breaks"]:
                        if c is TRUE:
                            return None if not fm["breaks"] else res
                        res.assume(NOT(c))
                    elif NOT(c).op != "c":
                        res.assume(OR(mk("brk", it, bguard), NOT(c)))
                except Dead:
                    pass
            elif wtest is not None and out is None and not fm["breaks"]:
                # body never completes normally: loop body runs at most once then returns/raises
                pass
            return res
        finally:
            if n == 0:
                self.active.pop(it, None)
            else:
                self.active[it] = n

    def summ(self, itx, n, phi, init, out):
        if out is phi:
            return init
        if not mentions(out, phi):
            return mk("fold", itx, n, phi, init, out)
        if out.op == "add":
            for i in (0, 1):
                if out.a[i] is phi and not mentions(out.a[1 - i], phi):
                    return arith("add", init, mk("sum", itx, n, out.a[1 - i])) if not (init is ZERO) else mk("sum", itx, n, out.a[1 - i])
        return mk("fold", itx, n, phi, init, out)

    # ------------------------------------------------------------- assignment
    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            if fr is not None and fr.fn is not None and fr.fn.closure is not None and self.is_nonlocal(fr, t.id):
                fr.fn.closure[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.resolve_lazy(v)
            parts = self.seq_items(v, st, fr)
            if parts is not None and not any(isinstance(x, ast.Starred) for x in t.elts) and len(parts) == len(t.elts):
                for x, y in zip(t.elts, parts):
                    self.assign(x, y, st, fr)
            else:
                for i, x in enumerate(t.elts):
                    if isinstance(x, ast.Starred):
                        self.assign(x.value, mk("rest_of", v, i), st, fr)
                    else:
                        self.assign(x, self.getitem(v, C(i), st, fr), st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            self.setattr(o, t.attr, v, st, fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            i = self.ev_index(t.slice, st, fr)
            self.setitem(o, i, v, st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)

    def is_nonlocal(self, fr, name):
        for x in fr.fn.node.body if isinstance(fr.fn.node.body, list) else []:
            if isinstance(x, ast.Nonlocal) and name in x.names:
                return True
        return False

    def seq_items(self, v, st, fr):
        """list of items if the sequence is fully known else None"""
        v = self.resolve_lazy(v)
        if v.op == "tuple":
            return list(v.a)
        if v.op in ("loc", "zip_", "enumerate_", "range_", "reversed_", "items_", "values_", "keys_"):
            es = self.iter_entries(v, st, fr)
            if all(e[0] == "i" for e in es):
                return [e[1] for e in es]
        if v.op == "c" and isinstance(v.a[0], str):
            return [C(x) for x in v.a[0]]
        return None

    def setattr(self, o, name, v, st, fr):
        o = self.resolve_lazy(o)
        if o.op == "ite":
            c = o.a[0]
            a = st.fork(c)
            self.setattr(o.a[1], name, v, a, fr)
            b = st.fork(NOT(c))
            self.setattr(o.a[2], name, v, b, fr)
            st.become(self.merge(c, a, b))
            return
        if o.op == "class":
            self.classes[o.a[0]].ns[name] = v
            return
        st.heap[("f", o, name)] = v
        if o.op not in ("new",):
            self.log(st, mk("setattr", o, C(name), v))

    def getattr(self, o, name, st, fr, default=None):
        o = self.resolve_lazy(o)
        op = o.op
        if op == "ite":
            a = self.getattr(o.a[1], name, st, fr, default)
            b = self.getattr(o.a[2], name, st, fr, default)
            return ITE(o.a[0], a, b)
        if op == "mod":
            m = self.mods.get(o.a[0]) or self.load(o.a[0])
            v = self.modattr(m, name)
            if v is not None:
                return v
            return mk("ext", o.a[0] + "." + name)
        if op == "ext":
            return mk("ext", o.a[0] + "." + name)
        if op == "class":
            c = self.classes[o.a[0]]
            v = self.class_attr(c, name)
            if v is not None:
                return v
            if name == "__name__":
                return C(c.name)
            return mk("attr", o, name)
        if op == "enum":
            if name == "name": return C(o.a[1])
            if name == "value": return o.a[2]
        if op == "super":
            cl, self_t = o.a
            c = self.classes[cl.a[0]]
            for b in self.mro(c)[1:]:
                if name in b.ns:
                    v = b.ns[name]
                    if v.op == "func":
                        return mk("bound", self_t, v)
                    return v
            return mk("superattr", self_t, name)
        v = self.hget(st, ("f", o, name))
        if v is not None:
            return defined_part(v)
        c = self.class_of(o, st)
        if c is not None:
            a = self.class_attr(c, name)
            if a is not None:
                a = self.resolve_lazy(a)
                if a.op == "func":
                    f = self.fns[a.a[0]]
                    if f.kind == "property":
                        return self.call(mk("bound", o, a), [], {}, st, fr, None)
                    if f.kind == "staticmethod":
                        return a
                    return mk("bound", o, a)
                if o.op == "new" and a.op == "new":
                    if st is not None:
                        st.heap[("f", a, "name")] = C(name)
                    g = self.dunder(a, "__get__", [o, mk("class", c.qual)], st, fr)
                    if g is not None:
                        return g
                if o.op == "new" or a.op in ("loc",):
                    return a
                return a if self.field_never_assigned(c, name) else mk("attr", o, name)
            if o.op == "new":
                if default is not None and not self.has_unknown_base(c):
                    return default
                if self.strict_attr and fr is not None and default is None and not self.has_unknown_base(c) and not name.startswith("__") and self.class_attr(c, "__getattr__") is None and self.class_attr(c, "__slots__") is None:
                    self.raise_(mk("attributeerror", C(c.name), C(name)), st, fr)
                return mk("attr", o, name)
        if op == "loc":
            if name == "shape" and self.concrete_arrays and o.a[0] == "list" and all(e[0] == "i" for e in self.entries(st, o)):
                es = self.entries(st, o)
                sub = [self.entries(st, e[1]) if e[1].op == "loc" and e[1].a[0] == "list" else None for e in es]
                if es and all(x is not None and all(y[0] == "i" for y in x) for x in sub) and len({len(x) for x in sub}) == 1:
                    return mk("tuple", C(len(es)), C(len(sub[0])))
                return mk("tuple", C(len(es)))
            return mk("bm", o, name)
        if op in ("c", "tuple", "fstr") :
            return mk("bm", o, name)
        if op == "attr_" or name in ("real", "imag"):
            return self.reim(o, name)
        return mk("attr", o, name)

    def field_never_assigned(self, c, name):
        for k in self.mro(c):
            for x in ast.walk(k.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == name:
                    return False
        return True

    def reim(self, o, name):
        if o.op == "complex":
            return o.a[0] if name == "real" else o.a[1]
        if o.op == "c" and isinstance(o.a[0], (int, float, complex)):
            return C(getattr(complex(o.a[0]), name))
        return mk("re" if name == "real" else "im", o)

    # ------------------------------------------------------------- items
    def ev_index(self, sl, st, fr):
        if isinstance(sl, ast.Slice):
            return mk("slice", *[NONE if x is None else self.ev(x, st, fr) for x in (sl.lower, sl.upper, sl.step)])
        return self.ev(sl, st, fr)

    def dunder(self, o, name, args, st, fr):
        """result of an operator method the object's own class defines, else None"""
        if o.op != "new":
            return None
        f = self.class_attr(self.classes[o.a[0]], name)
        if f is None or f.op != "func":
            return None
        return self.inline(self.fns[f.a[0]], [o] + list(args), {}, st, fr, None, f)

    def getitem(self, o, i, st, fr):
        o = self.resolve_lazy(o)
        if o.op == "loc" and o.a[0] == "dict" and st is not None and fr is not None:
            f = self.hget(st, ("factory", o))
            if f is not None:
                has = self.contains_(o, i, st, fr)
                if has is not TRUE:
                    d = self.call(f, [], {}, st, fr, None)
                    if has is not FALSE:
                        d = ITE(has, self.dict_get(o, self.entries(st, o), i, st, default=d), d)
                    self.setitem(o, i, d, st, fr)
                    return d
        r = self.dunder(o, "__getitem__", [i], st, fr)
        if r is not None:
            return r
        if o.op == "ite":
            return ITE(o.a[0], self.getitem(o.a[1], i, st, fr), self.getitem(o.a[2], i, st, fr))
        if o.op == "class" and self.classes[o.a[0]].isenum:
            if i.op == "c" and isinstance(i.a[0], str):
                v = self.classes[o.a[0]].ns.get(i.a[0])
                if v is not None:
                    return v
            if i.op == "ite":
                return ITE(i.a[0], self.getitem(o, i.a[1], st, fr), self.getitem(o, i.a[2], st, fr))
            return mk("sub_", o, i)
        if i.op == "slice":
            items = self.seq_items(o, st, fr)
            if items is not None and all(x.op == "c" for x in i.a):
                sl = slice(*[x.a[0] for x in i.a])
                if o.op == "c":
                    return C(o.a[0][sl])
                if o.op == "tuple":
                    return mk("tuple", *items[sl])
                return self.alloc(st, "list", [("i", x) for x in items[sl]])
            return mk("sub_", self.freeze(o, st), i)
        if o.op == "tuple" and i.op == "c" and isinstance(i.a[0], int):
            try:
                return o.a[i.a[0]]
            except IndexError:
                if self.exact_try and fr is not None:
                    self.raise_(S("IndexError"), st, fr)
                return mk("sub_", o, i)
        if o is NONE and self.exact_try and fr is not None:
            self.raise_(S("TypeError"), st, fr)
        if o.op == "c" and i.op == "c":
            try:
                return C(o.a[0][i.a[0]])
            except Exception:
                return mk("sub_", o, i)
        if o.op == "loc":
            es = self.entries(st, o)
            if o.a[0] == "list":
                if i.op == "c" and isinstance(i.a[0], int):
                    k = i.a[0]
                    if k >= 0:
                        if k < len(es) and all(e[0] == "i" for e in es[: k + 1]):
                            return es[k][1]
                    elif -k <= len(es) and all(e[0] == "i" for e in es[k:]):
                        return es[k][1]
                    if self.exact_try and fr is not None and all(e[0] == "i" for e in es):
                        self.raise_(S("IndexError"), st, fr)
                if i.op == "ite":
                    return ITE(i.a[0], self.getitem(o, i.a[1], st, fr), self.getitem(o, i.a[2], st, fr))
                return mk("sub_", self.freeze(o, st), i)
            if o.a[0] == "dict":
                if i.op == "ite":
                    return ITE(i.a[0], self.getitem(o, i.a[1], st, fr), self.getitem(o, i.a[2], st, fr))
                return self.dict_get(o, es, i, st)
            return mk("sub_", self.freeze(o, st), i)
        # symbolic container with recorded stores
        es = self.hget(st, ("items", o))
        if es is not None:
            return self.dict_get(o, es, i, st, sym=o)
        return mk("sub_", o, i)

    def dict_get(self, o, es, i, st, sym=None, default=None):
        v = self._dict_get(o, es, i, st, sym, default)
        return v

    def _dict_get(self, o, es, i, st, sym, default):
        for idx in range(len(es) - 1, -1, -1):
            e = es[idx]
            if e[0] == "kv":
                q = EQ(e[1], i)
                q = self.simp(q, st)
                if q is TRUE:
                    return e[2]
                if q is FALSE or self.distinct(e[1], i):
                    continue
                return ITE(q, e[2], self._dict_get(o, es[:idx], i, st, sym, default))
            if e[0] == "g":
                c = self.simp(e[1], st)
                rest = es[:idx]
                if c is TRUE:
                    return self._dict_get(o, rest + e[2], i, st, sym, default)
                if c is FALSE:
                    continue
                return ITE(c, self._dict_get(o, rest + e[2], i, st, sym, default), self._dict_get(o, rest, i, st, sym, default))
            if e[0] == "rest":
                return mk("sub_", e[1], i)
            if e[0] == "each":
                return mk("dget", self.freeze(o, st) if o.op == "loc" else mk("box", "items", *self.freeze_entries(es, st, 4, ())), i)
            if e[0] == "del":
                continue
        if sym is not None:
            return mk("sub_", sym, i)
        if default is not None:
            return default
        return mk("missing", i)

    def distinct(self, a, b):
        if a.op == "c" and b.op == "c":
            return True
        if a.op == "symb" and b.op == "symb":
            return a is not b
        if a.op == "enum" and b.op == "enum":
            return a is not b
        if a in self.distinct_syms and b in self.distinct_syms:
            return a is not b
        if (a in self.distinct_syms and b.op == "c") or (b in self.distinct_syms and a.op == "c"):
            return True
        if a.op == "tuple" and b.op == "tuple":
            return len(a.a) != len(b.a) or any(self.distinct(x, y) for x, y in zip(a.a, b.a))
        if a.op in ("str", "repr") and b.op == a.op and len(a.a) == len(b.a) == 1:
            return self.distinct(a.a[0], b.a[0])
        if a.op == "box" and b.op == "box" and a.a[0] == b.a[0] == "list" and all(x.op == "i" for x in a.a[1:] + b.a[1:]):
            return len(a.a) != len(b.a) or any(self.distinct(x.a[0], y.a[0]) for x, y in zip(a.a[1:], b.a[1:]))
        if a.op == "add" and b.op == "add":
            pa, pb = self.chain(a), self.chain(b)
            # text concatenation is unambiguous when every part is a bracketed sequence
            if len(pa) == len(pb) and all(x.op == "c" or (x.op in ("str", "repr") and x.a[0].op in ("box", "tuple")) for x in pa + pb):
                return any(self.distinct(x, y) for x, y in zip(pa, pb))
        if a.op == "fstr" and b.op == "fstr" and len(a.a) == len(b.a):
            return any(isinstance(x, T) and isinstance(y, T) and self.distinct(x, y) for x, y in zip(a.a, b.a))
        return False

    def chain(self, t):
        return self.chain(t.a[0]) + self.chain(t.a[1]) if t.op == "add" else [t]

    def setitem(self, o, i, v, st, fr, aug=None):
        o = self.resolve_lazy(o)
        if self.dunder(o, "__setitem__", [i, v], st, fr) is not None:
            return
        if o.op == "ite":
            c = o.a[0]
            a = st.fork(c); self.setitem(o.a[1], i, v, a, fr, aug)
            b = st.fork(NOT(c)); self.setitem(o.a[2], i, v, b, fr, aug)
            st.become(self.merge(c, a, b))
            return
        if o.op == "loc":
            es = self.entries(st, o)
            if o.a[0] == "list":
                if i.op == "c" and isinstance(i.a[0], int):
                    k = i.a[0]
                    if k < 0: k += len(es)
                    if 0 <= k < len(es) and all(e[0] == "i" for e in es[: k + 1]):
                        st.heap[o] = es[:k] + (("i", v),) + es[k + 1:]
                        return
                if i.op == "slice" and all(x is NONE for x in i.a) and all(e[0] == "i" for e in es) and aug is None and v.op not in ("tuple", "loc", "box"):
                    st.heap[o] = tuple(("i", v) for e in es)
                    return
                if all(e[0] == "i" for e in es) and len(es) <= 8 and i.op != "slice":
                    st.heap[o] = tuple(("i", ITE(EQ(i, C(k)), v, e[1])) for k, e in enumerate(es))
                    return
                self.log(st, mk("setitem", self.freeze(o, st), i, v) if aug is None else mk("augitem", self.freeze(o, st), i, aug))
                st.heap[o] = (("rest", mk("store", self.freeze(o, st), i, v)),)
                return
            if o.a[0] == "dict":
                out = []
                hit = False
                for e in es:
                    if e[0] == "kv" and e[1] is i:
                        out.append(("kv", i, v))
                        hit = True
                    else:
                        out.append(e)
                # an exact overwrite in place is only sound if no later entry may alias
                if hit and all(e[0] == "kv" and (e[1] is i or self.distinct(e[1], i)) for e in es):
                    st.heap[o] = tuple(out)
                else:
                    st.heap[o] = es + (("kv", i, v),)
                return
        key = ("items", o)
        es = self.hget(st, key) or ()
        self.log(st, mk("setitem", o, i, v) if aug is None else mk("augitem", o, i, aug))
        st.heap[key] = tuple(e for e in es if not (e[0] == "kv" and e[1] is i)) + (("kv", i, v),)

    def log(self, st, t, node=None):
        st.trace = st.trace + (("e", t),)
        if t not in self.trace_site and self.nodestack and self.cur[1] is not None:
            self.trace_site[t] = (self.cur[1].path, self.nodestack[-1].lineno)

    # ------------------------------------------------------------- lists
    def list_extend(self, loc, v, st, fr):
        v = self.resolve_lazy(v)
        es = self.iter_entries(v, st, fr)
        es = tuple(("rest", e[1]) if e[0] == "restm" else e for e in es)
        st.heap[loc] = self.entries(st, loc) + es

    def dict_update(self, loc, src, st, fr):
        """dict.update / dict(...) from a mapping or from an iterable of pairs"""
        src = self.resolve_lazy(src)
        if src.op == "loc" and src.a[0] == "dict":
            for e in self.entries(st, src):
                if e[0] == "kv":
                    self.setitem(loc, e[1], e[2], st, fr)
                else:
                    st.heap[loc] = self.entries(st, loc) + (e,)
            return

        def pairs(es):
            out = []
            for e in es:
                if e[0] == "i":
                    kv = self.seq_items(e[1], st, fr)
                    if kv is None or len(kv) != 2:
                        return None
                    out.append(("kv", kv[0], kv[1]))
                elif e[0] in ("g", "each"):
                    inner = pairs(e[-1])
                    if inner is None:
                        return None
                    out.append(e[:-1] + (tuple(inner),))
                else:
                    return None
            return out
        es = pairs(self.iter_entries(src, st, fr)) if src.op in ("loc", "tuple", "zip_", "enumerate_", "items_", "reversed_") else None
        if es is None:
            st.heap[loc] = self.entries(st, loc) + (("rest", self.fz(src, st)),)
            return
        for e in es:
            if e[0] == "kv":
                self.setitem(loc, e[1], e[2], st, fr)
            else:
                st.heap[loc] = self.entries(st, loc) + (e,)

    def find_decided(self, xs, x, st, fr):
        """position of x in xs when every comparison is decided (-1: absent), else None"""
        for k, y in enumerate(xs):
            h = self.simp(self.obj_eq(y, x, st, fr), st)
            if h is TRUE:
                return k
            if h is not FALSE:
                return None
        return -1

    def as_set(self, xs, st, fr):
        """distinct members of xs, or None when not decided"""
        out = []
        for x in xs:
            k = self.find_decided(out, x, st, fr)
            if k is None:
                return None
            if k < 0:
                out.append(x)
        return out

    def set_op(self, kind, a, b, st, fr):
        """members of a (list of terms) combined with b, or None"""
        a, b = self.as_set(a, st, fr), self.as_set(b, st, fr)
        if a is None or b is None:
            return None
        ina = [self.find_decided(b, x, st, fr) for x in a]
        inb = [self.find_decided(a, x, st, fr) for x in b]
        if None in ina or None in inb:
            return None
        if kind in ("BitAnd", "intersection"):
            return [x for x, k in zip(a, ina) if k >= 0]
        if kind in ("sub", "difference"):
            return [x for x, k in zip(a, ina) if k < 0]
        if kind in ("BitOr", "union"):
            return a + [x for x, k in zip(b, inb) if k < 0]
        if kind in ("BitXor", "symmetric_difference"):
            return [x for x, k in zip(a, ina) if k < 0] + [x for x, k in zip(b, inb) if k < 0]
        if kind == "issubset":
            return C(all(k >= 0 for k in ina))
        if kind == "issuperset":
            return C(all(k >= 0 for k in inb))
        if kind == "isdisjoint":
            return C(all(k < 0 for k in ina))
        return None

    def sort_items(self, xs, kw, st, fr):
        """xs in order, when every key is a constant, else None"""
        key = kw.get("key")
        ks = []
        for x in xs:
            k = x if key is None or key is NONE else self.call(key, [x], {}, st, fr, None)
            k = self.resolve_lazy(k)
            ks.append(tuple(y.a[0] for y in k.a) if k.op == "tuple" and all(y.op == "c" for y in k.a) else k.a[0] if k.op == "c" else None)
        rev = kw.get("reverse", FALSE)
        if None in ks or rev not in (TRUE, FALSE):
            return None
        try:
            order = sorted(range(len(xs)), key=lambda j: ks[j], reverse=rev is TRUE)
        except TypeError:
            return None
        return [xs[j] for j in order]

    def container_method(self, o, name, args, kw, st, fr):
        kind = o.a[0]
        es = self.entries(st, o)
        flat = all(e[0] == "i" for e in es)
        if kind == "set" and flat and name in ("difference", "union", "intersection", "symmetric_difference", "issubset", "issuperset", "isdisjoint", "update", "difference_update") and len(args) == 1:
            other = self.seq_items(args[0], st, fr)
            r = None if other is None else self.set_op({"update": "union", "difference_update": "difference"}.get(name, name), [e[1] for e in es], other, st, fr)
            if isinstance(r, T):
                return r
            if r is not None:
                r = tuple(("i", x) for x in r)
                if name in ("update", "difference_update"):
                    st.heap[o] = r
                    return NONE
                return self.alloc(st, "set", r)
        if kind == "set" and flat and name in ("remove", "discard", "add") and len(args) == 1:
            k = self.find_decided([e[1] for e in es], args[0], st, fr)
            if k is not None:
                if name == "add":
                    st.heap[o] = es if k >= 0 else es + (("i", args[0]),)
                elif k >= 0:
                    st.heap[o] = es[:k] + es[k + 1:]
                elif name == "remove":
                    self.raise_(S("KeyError"), st, fr)
                return NONE
        if kind == "list" and name in ("max", "min", "argmax", "argmin", "sum", "any", "all") and not args and not kw:
            return self.call(mk("ext", "numpy." + name), [o], {}, st, fr, None)
        if kind == "list" and flat:
            if name == "insert" and args[0].op == "c" and isinstance(args[0].a[0], int):
                l = list(es)
                l.insert(args[0].a[0], ("i", args[1]))
                st.heap[o] = tuple(l)
                return NONE
            if name == "pop" and len(args) == 1 and args[0].op == "c" and isinstance(args[0].a[0], int) and -len(es) <= args[0].a[0] < len(es):
                l = list(es)
                r = l.pop(args[0].a[0])
                st.heap[o] = tuple(l)
                return r[1]
            if name == "reverse":
                st.heap[o] = tuple(reversed(es))
                return NONE
            if name == "sort":
                r = self.sort_items([e[1] for e in es], kw, st, fr)
                if r is not None:
                    st.heap[o] = tuple(("i", x) for x in r)
                    return NONE
            if name == "index" and len(args) == 1:
                k = self.find_decided([e[1] for e in es], args[0], st, fr)
                if k is not None and k >= 0:
                    return C(k)
                if k == -1 and self.exact_try:
                    self.raise_(S("ValueError"), st, fr)
            if name == "count" and len(args) == 1:
                hs = [self.simp(self.obj_eq(e[1], args[0], st, fr), st) for e in es]
                if all(h in (TRUE, FALSE) for h in hs):
                    return C(sum(h is TRUE for h in hs))
        if kind in ("list", "set"):
            if name in ("append", "add"):
                if kind == "set" and ("i", args[0]) in es:
                    return NONE
                st.heap[o] = es + (("i", args[0]),)
                return NONE
            if name in ("extend", "update"):
                self.list_extend(o, args[0], st, fr)
                return NONE
            if name == "insert":
                if args[0] is ZERO:
                    st.heap[o] = (("i", args[1]),) + es
                else:
                    st.heap[o] = es + (("i", args[1]),)
                return NONE
            if name == "remove" and kind == "list" and all(e[0] == "i" for e in es):
                hit = [self.simp(self.obj_eq(e[1], args[0], st, fr), st) for e in es]
                k = next((k for k, h in enumerate(hit) if h is not FALSE), None)
                if k is None and self.exact_try:
                    self.raise_(S("ValueError"), st, fr)
                if k is not None and hit[k] is TRUE:
                    st.heap[o] = es[:k] + es[k + 1:]
                    return NONE
            if name in ("remove", "discard"):
                st.heap[o] = es + (("del", args[0]),)
                return NONE
            if name == "copy":
                return self.alloc(st, kind, es)
            if name == "clear":
                st.heap[o] = ()
                return NONE
            if name == "pop":
                if not args and es and es[-1][0] == "i":
                    st.heap[o] = es[:-1]
                    return es[-1][1]
                v = mk("pop", self.freeze(o, st), *args)
                st.heap[o] = (("rest", mk("afterpop", self.freeze(o, st), *args)),)
                return v
            if name == "index":
                items = self.seq_items(o, st, fr)
                if items is not None:
                    for k, x in enumerate(items):
                        if x is args[0]:
                            return C(k)
                return mk("index", self.freeze(o, st), args[0])
            if name in ("sort", "reverse"):
                st.heap[o] = (("rest", mk(name + "ed", self.freeze(o, st))),)
                return NONE
        if kind == "dict":
            if name == "items": return mk("items_", o)
            if name == "values": return mk("values_", o)
            if name == "keys": return mk("keys_", o)
            if name == "get":
                d = args[1] if len(args) > 1 else NONE
                has = self.contains_(o, args[0], st, fr)
                if has is FALSE: return d
                v = self.dict_get(o, es, args[0], st, default=d)
                return v if has is TRUE else ITE(has, v, d)
            if name == "setdefault":
                has = self.contains_(o, args[0], st, fr)
                if has is TRUE:
                    return self.dict_get(o, es, args[0], st)
                d = args[1] if len(args) > 1 else NONE
                if has is not FALSE:
                    d = ITE(has, self.dict_get(o, es, args[0], st, default=d), d)
                self.setitem(o, args[0], d, st, fr)
                return d
            if name == "copy":
                return self.alloc(st, kind, es)
            if name == "update":
                if args:
                    self.dict_update(o, args[0], st, fr)
                for k, v in (kw or {}).items():
                    self.setitem(o, C(k), v, st, fr)
                return NONE
            if name == "pop":
                v = self.dict_get(o, es, args[0], st, default=args[1] if len(args) > 1 else None)
                st.heap[o] = tuple(e for e in es if not (e[0] == "kv" and e[1] is args[0]))
                return v
        if name == "clear":
            st.heap[o] = ()
            return NONE
        t = mk("mcall", self.freeze(o, st), C(name), *[self.freeze(a, st) for a in args])
        return t

    def contains_(self, coll, x, st, fr):
        """boolean term: x in coll"""
        coll = self.resolve_lazy(coll)
        if coll.op == "keys_" and coll.a[0].op in ("loc", "ite"):
            coll = coll.a[0]

        def plain_entries(es):
            return all(y[0] == "i" or y[0] == "g" and plain_entries(y[2]) for y in es)

        def gated_in(e, x):
            return AND(e[1], OR(*[gated_in(y, x) if y[0] == "g" else EQ(y[1], x) for y in e[2] if y[0] == "g" or y[1] is x or not self.distinct(y[1], x)]))
        if coll.op == "ite":
            return ITE(coll.a[0], self.contains_(coll.a[1], x, st, fr), self.contains_(coll.a[2], x, st, fr))
        r = self.dunder(coll, "__contains__", [x], st, fr)
        if r is not None:
            return self.truthy(r, st) if hasattr(self, "truthy") else r
        if coll.op in ("tuple",) or (coll.op == "loc"):
            es = self.iter_entries(coll, st, fr) if coll.op == "tuple" else (self.map_kv(self.entries(st, coll), lambda k, v: k) if coll.a[0] == "dict" else self.entries(st, coll))
            r = FALSE
            plain = True
            for e in es:
                if e[0] == "i":
                    if "new" in (e[1].op, x.op):
                        r = OR(r, self.obj_eq(e[1], x, st, fr))
                        continue
                    if self.distinct(e[1], x) and e[1] is not x:
                        continue
                    r = OR(r, EQ(e[1], x))
                elif e[0] == "g" and plain_entries(e[2]):
                    r = OR(r, gated_in(e, x))
                else:
                    plain = False
            if r is TRUE:
                return TRUE
            if plain:
                return r
            return mk("in", x, self.freeze(coll, st))
        if coll.op == "c" and x.op == "c":
            try:
                return C(x.a[0] in coll.a[0])
            except Exception:
                pass
        if coll.op == "c" and isinstance(coll.a[0], str) and x.op == "ite":
            return ITE(x.a[0], self.contains_(coll, x.a[1], st, fr), self.contains_(coll, x.a[2], st, fr))
        es = self.hget(st, ("items", coll))
        if es:
            return mk("in", x, mk("box", "items", coll, *self.freeze_entries(es, st, 3, ())))
        return mk("in", x, coll)

    # ------------------------------------------------------------- expressions
    def truth(self, e, st, fr):
        if isinstance(e, ast.BoolOp):
            return self.boolop(e, st, fr, want_truth=True)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return NOT(self.truth(e.operand, st, fr))
        v = self.ev(e, st, fr)
        return self.truth_of(v, st)

    def gated_len(self, es, kind):
        """length of a container whose possible items are all known"""
        if kind != "list" and len(es) > 1:
            return None
        acc = ZERO
        for e in es:
            if e[0] == "i" or (e[0] == "kv" and len(es) == 1):
                acc = arith("add", acc, ONE)
            elif e[0] == "g":
                k = self.gated_len(e[2], kind)
                if k is None:
                    return None
                acc = arith("add", acc, ITE(e[1], k, ZERO))
            else:
                return None
        return acc

    def truth_of(self, v, st):
        if v.op == "loc":
            es = self.entries(st, v)
            if not es:
                return FALSE
            if any(e[0] == "i" or e[0] == "kv" for e in es):
                return TRUE
            if all(e[0] == "g" for e in es):
                some = lambda xs: OR(*[TRUE if e[0] in ("i", "kv") else AND(e[1], some(e[2])) if e[0] == "g" else FALSE for e in xs])
                flat = lambda xs: all(e[0] in ("i", "kv") or e[0] == "g" and flat(e[2]) for e in xs)
                if flat(es):
                    return some(es)
            return mk("truthy", self.freeze(v, st))
        if v.op == "ite":
            return ITE(v.a[0], self.truth_of(v.a[1], st), self.truth_of(v.a[2], st))
        return TRUTHY(v)

    def boolop(self, e, st, fr, want_truth=False):
        isand = isinstance(e.op, ast.And)
        vals = e.values
        if want_truth:
            acc = TRUE if isand else FALSE
            cur = st
            first = True
            for x in vals:
                if first:
                    c = self.simp(self.truth(x, st, fr), st)
                    first = False
                else:
                    g = acc if isand else NOT(acc)
                    g = self.simp(g, st)
                    if g is FALSE:
                        break
                    s2 = st.fork(g)
                    ok = True
                    try:
                        c = self.simp(self.truth(x, s2, fr), s2)
                    except Dead:
                        ok = False
                        c = FALSE if isand else TRUE
                    if ok and self.effects(s2, st):
                        m = self.merge(g, s2, st.fork(NOT(g)))
                        st.become(m)
                acc = AND(acc, c) if isand else OR(acc, c)
            return acc
        # value semantics
        v = self.ev(vals[0], st, fr)
        for x in vals[1:]:
            c = self.simp(self.truth_of(v, st), st)
            g = c if isand else NOT(c)
            if g is FALSE:
                return v
            s2 = st.fork(g)
            w = self.ev(x, s2, fr)
            if self.effects(s2, st):
                st.become(self.merge(g, s2, st.fork(NOT(g))))
            if self.is_boolish(v) and self.is_boolish(w):
                v = AND(v, w) if isand else OR(v, w)
            else:
                v = ITE(g, w, v)
        return v

    def is_boolish(self, v):
        return v.op in BOOL_OPS or v in (TRUE, FALSE)

    def effects(self, s2, st):
        return s2.heap != st.heap or s2.trace is not st.trace or s2.env != st.env

    def ev(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisError(f"unsupported expression {type(e).__name__} at {self.cur[1].path}:{e.lineno}")
        return self.resolve_lazy(m(e, st, fr))

    def e_Constant(self, e, st, fr):
        if e.value is Ellipsis:
            return S("...")
        return C(e.value)

    def e_Name(self, e, st, fr):
        n = e.id
        v = st.env.get(n)
        if v is not None:
            return v
        f = fr.fn if fr is not None else None
        if f is not None and f.closure is not None and n in f.closure:
            return f.closure[n]
        m = self.cur[1]
        if m is not None and n in m.ns:
            return m.ns[n]
        if n in BUILTINS or hasattr(_pyb, n):
            return mk("builtin", n)
        return mk("undef", n)

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_Tuple(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.ev(x.value, st, fr)
                    its = self.seq_items(v, st, fr)
                    if its is None:
                        out.append(mk("star", v))
                    else:
                        out.extend(its)
                else:
                    out.append(self.ev(x, st, fr))
            return mk("tuple", *out)
        return mk("tuple", *[self.ev(x, st, fr) for x in e.elts])

    def e_List(self, e, st, fr):
        es = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                es.extend(tuple(("rest", y[1]) if y[0] == "restm" else y for y in self.iter_entries(self.ev(x.value, st, fr), st, fr)))
            else:
                es.append(("i", self.ev(x, st, fr)))
        return self.alloc(st, "list", es)

    def e_Set(self, e, st, fr):
        return self.alloc(st, "set", [("i", self.ev(x, st, fr)) for x in e.elts])

    def e_Dict(self, e, st, fr):
        es = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, st, fr)
                es.extend(self.entries(st, d) if d.op == "loc" else [("rest", d)])
            else:
                kk = self.ev(k, st, fr)
                es.append(("kv", kk, self.ev(v, st, fr)))
        return self.alloc(st, "dict", es)

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                x = self.ev(v.value, st, fr)
                if v.format_spec is None and x.op == "new":
                    x = self.to_text(x, st, fr)
                if x.op == "loc":
                    x = self.freeze(x, st)
                if v.format_spec is not None:
                    x = mk("fmt", x, self.ev(v.format_spec, st, fr))
                elif x.op == "c" and not isinstance(x.a[0], float):
                    x = C(str(x.a[0]))
                parts.append(x)
        return self.fstr(parts)

    def to_text(self, x, st, fr):
        r = self.dunder(x, "__str__", [], st, fr)
        return x if r is None else r

    def fstr(self, parts):
        # flatten constants
        out = []
        for p in parts:
            if p.op == "fstr":
                out.extend(p.a)
            elif p.op == "str" and len(p.a) == 1:
                out.append(p.a[0])
            else:
                out.append(p)
        res = []
        for p in out:
            if res and res[-1].op == "c" and p.op == "c" and isinstance(res[-1].a[0], str) and isinstance(p.a[0], str):
                res[-1] = C(res[-1].a[0] + p.a[0])
            else:
                res.append(p)
        if not res:
            return C("")
        if len(res) == 1 and res[0].op == "c":
            return res[0]
        if len(res) == 1 and res[0].op != "fmt":
            return mk("str", res[0])
        return mk("fstr", *res)

    def e_FormattedValue(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Attribute(self, e, st, fr):
        return self.getattr(self.ev(e.value, st, fr), e.attr, st, fr)

    def e_Subscript(self, e, st, fr):
        o = self.ev(e.value, st, fr)
        v = self.getitem(o, self.ev_index(e.slice, st, fr), st, fr)
        if v.op == "missing":
            self.raise_(mk("keyerror", v.a[0]), st, fr, e)
        return v

    def e_Slice(self, e, st, fr):
        return self.ev_index(e, st, fr)

    def e_Starred(self, e, st, fr):
        return mk("star", self.ev(e.value, st, fr))

    def e_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            return NOT(self.truth(e.operand, st, fr))
        v = self.ev(e.operand, st, fr)
        r = self.dunder(v, "__neg__" if isinstance(e.op, ast.USub) else "__invert__" if isinstance(e.op, ast.Invert) else "__pos__", [], st, fr)
        if r is not None:
            return r
        if isinstance(e.op, ast.USub):
            return arith("neg", v)
        if isinstance(e.op, ast.UAdd):
            return v
        return mk("invert", v)

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        return self.binop(e.op, a, b, st, fr)

    DUNDER = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.Pow: "pow", ast.Mod: "mod", ast.FloorDiv: "floordiv", ast.MatMult: "matmul", ast.BitAnd: "and", ast.BitOr: "or"}
    OPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.Pow: "pow", ast.Mod: "mod", ast.FloorDiv: "floordiv"}

    def binop(self, op, a, b, st, fr=None):
        o = self.OPS.get(type(op))
        if (o is None or o == "sub") and a.op == "loc" and b.op == "loc" and a.a[0] == "set" == b.a[0]:
            ea, eb = self.entries(st, a), self.entries(st, b)
            if all(e[0] == "i" for e in ea + eb):
                r = self.set_op(o or type(op).__name__, [e[1] for e in ea], [e[1] for e in eb], st, fr)
                if r is not None:
                    return self.alloc(st, "set", tuple(("i", x) for x in r))
        if a.op == "new" or b.op == "new":
            r = None
            nm = self.DUNDER.get(type(op))
            if nm and fr is not None:
                r = self.dunder(a, "__" + nm + "__", [b], st, fr)
                if r is None:
                    r = self.dunder(b, "__r" + nm + "__", [a], st, fr)
            if r is not None:
                return r
        if o is None:
            return mk(type(op).__name__, a, b)
        if o == "add":
            if a.op == "loc" and a.a[0] == "list":
                ea = self.entries(st, a)
                eb = self.iter_entries(b, st, fr)
                return self.alloc(st, "list", tuple(ea) + tuple(("rest", y[1]) if y[0] == "restm" else y for y in eb))
            if b.op == "loc" and b.a[0] == "list":
                ea = self.iter_entries(a, st, fr)
                return self.alloc(st, "list", tuple(("rest", y[1]) if y[0] == "restm" else y for y in ea) + tuple(self.entries(st, b)))
            isstr = lambda x: x.op in ("fstr", "fmt", "str") or x.op == "c" and isinstance(x.a[0], str)
            if isstr(a) or isstr(b):
                if not (a.op == "c" and b.op == "c"):
                    return self.fstr([self.fz(a, st), self.fz(b, st)])
        if o == "mul" and b.op == "loc" and b.a[0] == "list" and a.op != "loc":
            a, b = b, a
        if o == "mul" and a.op == "loc" and a.a[0] == "list" and b.op == "c" and isinstance(b.a[0], int):
            return self.alloc(st, "list", tuple(self.entries(st, a)) * b.a[0])
        if o == "mul" and a.op == "loc" and a.a[0] == "list":
            return mk("repeat", self.freeze(a, st), b)
        if o == "mod" and a.op == "c" and isinstance(a.a[0], str):
            r = self.percent(a.a[0], b, st, fr)
            return r if r is not None else mk("fmtmod", a, self.fz(b, st))
        if a.op == "loc": a = self.freeze(a, st)
        if b.op == "loc": b = self.freeze(b, st)
        return arith(o, a, b)

    def percent(self, text, b, st, fr):
        args = list(b.a) if b.op == "tuple" else [b]
        parts = []
        for lit, spec, conv in re.findall(r"([^%]+)|%([-+ #0]*\d*(?:\.\d+)?)([sdifgeGEr%])", text):
            if lit:
                parts.append(C(lit))
            elif conv == "%":
                parts.append(C("%"))
            else:
                if not args or conv == "r" or (conv in "sid" and spec):
                    return None
                x = args.pop(0)
                if conv in "sid":
                    x = self.to_text(x, st, fr)
                    x = self.fz(x, st)
                    parts.append(C(str(x.a[0])) if x.op == "c" and not isinstance(x.a[0], float) else x)
                else:
                    parts.append(mk("fmt", self.fz(x, st), C(spec + conv)))
        return self.fstr(parts) if not args else None

    def e_BoolOp(self, e, st, fr):
        return self.boolop(e, st, fr)

    def e_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        res = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, fr)
            res = AND(res, self.compare(op, left, right, st, fr))
            left = right
        return res

    def compare(self, op, a, b, st, fr):
        if isinstance(op, ast.Is): return self.eq(a, b, st)
        if isinstance(op, ast.IsNot): return NOT(self.eq(a, b, st))
        if isinstance(op, ast.Eq): return self.obj_eq(a, b, st, fr)
        if isinstance(op, ast.NotEq): return NOT(self.obj_eq(a, b, st, fr))
        if isinstance(op, ast.Lt): return self.lt(a, b, st)
        if isinstance(op, ast.Gt): return self.lt(b, a, st)
        if isinstance(op, ast.LtE): return NOT(self.lt(b, a, st))
        if isinstance(op, ast.GtE): return NOT(self.lt(a, b, st))
        if isinstance(op, ast.In): return self.contains_(b, a, st, fr)
        if isinstance(op, ast.NotIn): return NOT(self.contains_(b, a, st, fr))
        raise AnalysisError("compare")

    def lt(self, a, b, st):
        if self.sample:
            x, y = self.sampled(a, st), self.sampled(b, st)
            if x is not None and y is not None and abs(x - y) > 1e-9 * max(1.0, abs(x), abs(y)):
                return C(x < y)
        r = counted(lambda x, y: x < y, a, b)
        return r if r is not None else LT(self.fz(a, st), self.fz(b, st))

    def sampled(self, t, st):
        """the real number a term stands for at the sample point, None when it has none"""
        try:
            r = self.sample_value(self.fz(t, st))
        except (ArithmeticError, ValueError, TypeError):
            return None
        return None if r is None or isinstance(r, complex) else r

    def sample_value(self, t):
        if t.op == "c":
            v = t.a[0]
            return v if isinstance(v, (int, float)) and not isinstance(v, bool) else None
        if t in self.sample:
            return self.sample[t]
        if t.id in self.sample_memo:
            return self.sample_memo[t.id]
        self.sample_memo[t.id] = r = self.sample_apply(t)
        return r

    def sample_apply(self, t):
        if t.op == "ext":
            return math.pi if t.a[0].split(".")[-1] == "pi" else None
        fn = {"add": lambda *v: sum(v), "mul": lambda *v: math.prod(v), "sub": lambda x, y: x - y, "div": lambda x, y: x / y, "pow": lambda x, y: x ** y,
              "neg": lambda x: -x, "abs": abs, "float": float}.get(t.op)
        args = t.a
        if t.op == "call" and isinstance(t.a[0], T) and t.a[0].op == "ext" and t.a[0].a[0].split(".")[0] in ("math", "numpy"):
            fn, args = getattr(math, t.a[0].a[0].split(".")[-1], None), t.a[1:]
        elif t.op.startswith("f:"):
            fn = getattr(math, t.op[2:], None)
        if fn is None or not args or not all(isinstance(x, T) for x in args):
            return None
        v = [self.sample_value(x) for x in args]
        try:
            return None if any(x is None for x in v) else fn(*v)
        except (ArithmeticError, ValueError, TypeError):
            return None

    def fz(self, a, st):
        return self.freeze(a, st) if a.op in ("loc", "tuple", "ite") else a

    def obj_eq(self, a, b, st, fr):
        """a == b, through the operator method of the objects' own class when there is one"""
        a, b = self.resolve_lazy(a), self.resolve_lazy(b)
        for x, y, flip in ((a, b, False), (b, a, True)):
            if x.op == "ite" and any(w.op == "new" for w in leaves(x)):
                f = (lambda u, w: self.obj_eq(w, u, st, fr)) if flip else (lambda u, w: self.obj_eq(u, w, st, fr))
                return ITE(x.a[0], f(x.a[1], y), f(x.a[2], y))
        for x, y in ((a, b), (b, a)):
            r = self.dunder(x, "__eq__", [y], st, fr)
            if r is not None:
                return r
        ka, kb = (x.a[0] if x.op == "loc" else x.op for x in (a, b))
        if a is not b and ka == kb and ka in ("list", "tuple", "set") and (ka == "tuple" or all(e[0] == "i" for e in self.entries(st, a) + self.entries(st, b))):
            xa, xb = ([e[1] for e in self.entries(st, x)] if x.op == "loc" else list(x.a) for x in (a, b))
            if ka == "set":
                r = self.set_op("symmetric_difference", xa, xb, st, fr)
                if r is not None:
                    return C(not r)
            elif len(xa) != len(xb):
                return FALSE
            else:
                hs = [self.simp(self.obj_eq(x, y, st, fr), st) for x, y in zip(xa, xb)]
                if all(h in (TRUE, FALSE) for h in hs):
                    return C(all(h is TRUE for h in hs))
        r = counted(lambda x, y: x == y, a, b)
        return r if r is not None else self.eq(a, b, st)

    def eq(self, a, b, st):
        if a is b:
            return TRUE
        if a.op == "new" and b.op == "new":
            return FALSE
        if self.scalars and (a is NONE and b.op == "s" or b is NONE and a.op == "s"):
            return FALSE
        if a.op in ("new", "loc") and b.op in ("new", "loc"):
            if a.op == "loc":
                ia, ib = self.fz(a, st), self.fz(b, st)
                if ia is ib:
                    return TRUE
                if b.op == "loc" and all(x[0] == "i" for x in self.entries(st, a)) and all(x[0] == "i" for x in self.entries(st, b)):
                    ea, eb = self.entries(st, a), self.entries(st, b)
                    if len(ea) != len(eb):
                        return FALSE
                return mk("eq", *sorted((ia, ib), key=lambda t: t.id))
        for x, y in ((a, b), (b, a)):
            if y.op == "c" and y.a[0] == 0 and not isinstance(y.a[0], bool):
                if x.op == "abs" and x.a[0].op == "complex":
                    return self.eq(x.a[0], ZERO, st)
                if x.op == "complex":
                    return AND(self.eq(x.a[0], ZERO, st), self.eq(x.a[1], ZERO, st))
            if x.op == "class" and y.op == "typeof":
                return mk("typeis", y.a[0], x)
        a, b = self.fz(a, st), self.fz(b, st)
        if self.sample and not (a.op == "c" and b.op == "c"):
            x, y = self.sampled(a, st), self.sampled(b, st)
            if x is not None and y is not None and abs(x - y) > 1e-9 * max(1.0, abs(x), abs(y)):
                return FALSE
        if (a in self.distinct_syms or b in self.distinct_syms) and self.distinct(a, b):
            return FALSE
        return EQ(a, b)

    def e_IfExp(self, e, st, fr):
        c = self.simp(self.truth(e.test, st, fr), st)
        if c is TRUE: return self.ev(e.body, st, fr)
        if c is FALSE: return self.ev(e.orelse, st, fr)
        s1, s2 = st.fork(c), st.fork(NOT(c))
        a = b = None
        try:
            a = self.ev(e.body, s1, fr)
        except Dead:
            s1 = None
        try:
            b = self.ev(e.orelse, s2, fr)
        except Dead:
            s2 = None
        if s1 is None and s2 is None:
            raise Dead()
        st.become(self.merge(c, s1, s2))
        if a is None: return b
        if b is None: return a
        return ITE(c, a, b)

    def e_Lambda(self, e, st, fr):
        f = Fn()
        f.node = e
        f.mod, f.cls = self.cur[1], self.cur[2]
        f.qual = (fr.fn.qual if fr and fr.fn else f.mod.name) + ".<lambda>"
        f.defaults = [self.ev(d, st, fr) for d in e.args.defaults]
        f.kwdefaults = []
        f.closure = st.env
        f.kind = "lambda"
        f.isgen = False
        key = f"{f.qual}#{self.fresh()}"
        self.fns[key] = f
        return mk("func", key)

    def comp(self, e, st, fr, kind, emit):
        out = self.alloc(st, kind)
        saved = dict(st.env)

        def gen(i, state):
            if i == len(e.generators):
                emit(state, out)
                return state
            g = e.generators[i]
            it = self.ev(g.iter, state, fr)

            def run(s2, v):
                self.assign(g.target, v, s2, fr)
                conds = TRUE
                cs = s2
                for c in g.ifs:
                    conds = AND(conds, self.simp(self.truth(c, cs, fr), cs))
                if conds is TRUE:
                    return gen(i + 1, s2)
                if conds is FALSE:
                    return s2
                a = gen(i + 1, s2.fork(conds))
                return self.merge(conds, a, s2.fork(NOT(conds)))
            return self.loop(it, run, state, fr)
        r = gen(0, st)
        if r is None:
            raise Dead()
        st.become(r)
        st.env = dict(saved)
        return out

    def e_ListComp(self, e, st, fr):
        def emit(s2, out):
            v = self.ev(e.elt, s2, fr)
            s2.heap[out] = self.entries(s2, out) + (("i", v),)
        return self.comp(e, st, fr, "list", emit)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st, fr):
        def emit(s2, out):
            v = self.ev(e.elt, s2, fr)
            es = self.entries(s2, out)
            if all(x[0] == "i" for x in es):
                k = self.find_decided([x[1] for x in es], v, s2, fr)
                if k is not None and k >= 0:
                    return
            s2.heap[out] = es + (("i", v),)
        return self.comp(e, st, fr, "set", emit)

    def e_DictComp(self, e, st, fr):
        def emit(s2, out):
            k = self.ev(e.key, s2, fr)
            v = self.ev(e.value, s2, fr)
            es = self.entries(s2, out)
            if all(x[0] == "kv" for x in es) and all(x[1] is k or self.distinct(x[1], k) for x in es):
                s2.heap[out] = tuple(x if x[1] is not k else ("kv", k, v) for x in es) + (() if any(x[1] is k for x in es) else (("kv", k, v),))
                return
            s2.heap[out] = es + (("kv", k, v),)
        return self.comp(e, st, fr, "dict", emit)

    def e_Yield(self, e, st, fr):
        v = NONE if e.value is None else self.ev(e.value, st, fr)
        if fr.yields is not None:
            st.heap[fr.yields] = self.entries(st, fr.yields) + (("i", v),)
        return NONE

    def e_YieldFrom(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        if fr.yields is not None:
            self.list_extend(fr.yields, v, st, fr)
        return NONE

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    # ------------------------------------------------------------- calls
    def e_Call(self, e, st, fr):
        # zero-arg super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            if fr.fn is not None and fr.fn.cls is not None:
                a0 = fr.fn.node.args.args[0].arg
                cl = mk("class", fr.fn.cls.qual)
                if e.args:
                    cl = self.ev(e.args[0], st, fr)
                    return mk("super", cl, self.ev(e.args[1], st, fr))
                return mk("super", cl, st.env[a0])
        f = self.ev(e.func, st, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                its = self.seq_items(v, st, fr)
                if its is None:
                    args.append(mk("star", self.fz(v, st)))
                else:
                    args.extend(its)
            else:
                args.append(self.ev(a, st, fr))
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                if v.op == "loc" and all(x[0] == "kv" and x[1].op == "c" for x in self.entries(st, v)):
                    for x in self.entries(st, v):
                        kw[x[1].a[0]] = x[2]
                else:
                    kw["**"] = self.fz(v, st)
            else:
                kw[k.arg] = v
        self.nodestack.append(e)
        try:
            return self.call(f, args, kw, st, fr, e)
        finally:
            self.nodestack.pop()

    def call(self, f, args, kw, st, fr, node):
        f = self.resolve_lazy(f)
        op = f.op
        if op == "ite":
            c = f.a[0]
            s1, s2 = st.fork(c), st.fork(NOT(c))
            a = self.call(f.a[1], args, kw, s1, fr, node)
            b = self.call(f.a[2], args, kw, s2, fr, node)
            st.become(self.merge(c, s1, s2))
            return ITE(c, a, b)
        if op == "func":
            fn = self.fns[f.a[0]]
            if fn.kind == "classmethod" and fn.cls is not None:
                args = [mk("class", fn.cls.qual)] + args
            return self.inline(fn, args, kw, st, fr, node, f)
        if op == "bound":
            fn = self.fns[f.a[1].a[0]]
            if fn.kind == "classmethod":
                return self.inline(fn, [mk("class", fn.cls.qual)] + args, kw, st, fr, node, f)
            return self.inline(fn, [f.a[0]] + args, kw, st, fr, node, f)
        if op == "class":
            return self.instantiate(self.classes[f.a[0]], args, kw, st, fr, node)
        if op == "new":
            g = self.class_attr(self.classes[f.a[0]], "__call__")
            if g is not None and g.op == "func":
                return self.inline(self.fns[g.a[0]], [f] + list(args), kw, st, fr, node, g)
        if op == "bm":
            return self.builtin_method(f.a[0], f.a[1], args, kw, st, fr)
        if op == "builtin":
            return self.call_builtin(f.a[0], args, kw, st, fr, node)
        if op == "ext":
            model = self.models.get(f.a[0])
            if model is not None:
                return model(args, kw, st, fr)
            return self.call_ext(f.a[0], args, kw, st, fr, node)
        if op == "attr":
            if args and f.a[0].op == "builtin" and f.a[0].a[0] in ("list", "dict", "set", "str", "tuple"):
                g = self.getattr(args[0], f.a[1], st, fr)
                if g.op == "bm":
                    return self.call(g, args[1:], kw, st, fr, node)
            return self.opaque_method(f.a[0], f.a[1], args, kw, st, fr)
        if op == "superattr":
            if f.a[1] == "__init__":
                return NONE
            return mk("mcall", f.a[0], C("super." + f.a[1]), *[self.fz(a, st) for a in args])
        t = mk("call", f, *[self.fz(a, st) for a in args], *[mk("kw", C(k), self.fz(v, st)) for k, v in sorted(kw.items())])
        self.log(st, t)
        return t

    def opaque_method(self, o, name, args, kw, st, fr):
        if o.op == "regex" and name in ("sub", "search", "match", "fullmatch") and all(x.op == "c" and isinstance(x.a[0], str) for x in args):
            return self.call_ext("re." + name, [o.a[0]] + list(args), kw, st, fr, None)
        if o.op == "rematch" and name == "group" and all(x.op == "c" for x in args) and len(args) < 2:
            return C(o.a[args[0].a[0] if args else 0])
        if name == "items" and not args: return mk("items_", o)
        if name == "values" and not args: return mk("values_", o)
        if name == "keys" and not args: return mk("keys_", o)
        if name == "conjugate" and not args: return mk("conj", o)
        if name == "get" and len(args) in (1, 2):
            return mk("dictget", o, *args)
        ver = []
        t = mk("mcall", o, C(name), *[self.fz(a, st) for a in args], *[mk("kw", C(k), self.fz(v, st)) for k, v in sorted(kw.items())])
        if name in ("read", "readline", "pop", "popleft", "next"):
            t = mk("nth", t, C(self.fresh()))
        self.log(st, t)
        if name in ("append", "add", "extend", "insert", "remove", "update", "clear"):
            # mutation of an opaque container: later reads differ, reflected in the trace only
            return NONE
        return t

    def builtin_method(self, o, name, args, kw, st, fr):
        if o.op == "loc":
            return self.container_method(o, name, args, kw, st, fr)
        if o.op == "tuple":
            if name == "index":
                for i, x in enumerate(o.a):
                    if x is args[0]:
                        return C(i)
            if name == "count":
                return mk("count_", o, *args)
        flat = lambda x: x.op == "c" or x.op == "tuple" and all(y.op == "c" for y in x.a)
        if o.op == "c" and isinstance(o.a[0], str) and all(flat(a) for a in args) and all(flat(v) for v in kw.values()):
            if name in ("lower", "upper", "strip", "split", "replace", "startswith", "endswith", "isalpha", "isnumeric", "lstrip", "rstrip", "find", "format", "title", "count", "isdigit", "partition", "rpartition",
                        "rsplit", "splitlines", "rfind", "isdecimal", "isalnum", "isspace", "isupper", "islower", "casefold", "capitalize", "swapcase", "zfill", "ljust", "rjust", "center", "removeprefix", "removesuffix", "index"):
                val = lambda x: x.a[0] if x.op == "c" else tuple(y.a[0] for y in x.a)
                try:
                    r = getattr(o.a[0], name)(*[val(a) for a in args], **{k: val(v) for k, v in kw.items()})
                    if isinstance(r, list):
                        return self.alloc(st, "list", [("i", C(x)) for x in r])
                    if isinstance(r, tuple):
                        return mk("tuple", *[C(x) for x in r])
                    return C(r)
                except Exception:
                    pass
        if o.op == "c" and isinstance(o.a[0], str) and name == "join" and args:
            its = self.seq_items(args[0], st, fr)
            if its is not None and all(x.op == "c" for x in its):
                return C(o.a[0].join(str(x.a[0]) for x in its))
            if its is not None:
                return self.fstr([y for k, x in enumerate(its) for y in ([C(o.a[0])] if k and o.a[0] else []) + [self.fz(x, st)]])
        if o.op == "c" and isinstance(o.a[0], str) and name == "format" and not kw:
            try:
                parts, k = [], 0
                for lit, field, spec, conv in string.Formatter().parse(o.a[0]):
                    if lit:
                        parts.append(C(lit))
                    if field is None:
                        continue
                    if conv or "{" in spec or not (field == "" or field.isdigit()):
                        raise ValueError(field)
                    x = args[k if field == "" else int(field)]
                    k += 1
                    if not spec:
                        x = self.to_text(x, st, fr)
                    x = self.fz(x, st)
                    parts.append(mk("fmt", x, C(spec)) if spec else C(str(x.a[0])) if x.op == "c" and not isinstance(x.a[0], float) else x)
                return self.fstr(parts)
            except (ValueError, IndexError):
                pass
        if o.op == "c" and isinstance(o.a[0], str) and name == "format":
            return mk("format", o, *[self.fz(a, st) for a in args])
        if o.op == "c" and name in ("real", "imag"):
            return C(getattr(o.a[0], name))
        if o.op == "c" and name == "conjugate":
            return C(o.a[0].conjugate())
        return mk("mcall", o, C(name), *[self.fz(a, st) for a in args])

    def instantiate(self, c, args, kw, st, fr, node):
        if c.isenum:
            if len(args) == 1:
                for v in c.ns.values():
                    if v is not None and v.op == "enum" and v.a[2] is args[0]:
                        return v
                return mk("enumof", mk("class", c.qual), args[0])
        o = mk("new", c.qual, self.fresh())
        self.alloc_site[o] = (self.cur[1].path if self.cur[1] else "?", getattr(node, "lineno", 0))
        st.heap[("live", o)] = ONE
        st.heap[("ctor", o)] = mk("tuple", *[self.fz(a, st) for a in args], *[mk("kw", C(k), self.fz(v, st)) for k, v in kw.items()])
        init = self.class_attr(c, "__init__")
        if init is not None and init.op == "func" and (c.qual not in self.opaque):
            self.inline(self.fns[init.a[0]], [o] + args, kw, st, fr, node, init)
        return o

    def bind(self, fn, args, kw, st):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        extra = []
        for i, v in enumerate(args):
            if v.op == "star":
                rest = names[i:]
                for j, nme in enumerate(rest):
                    if nme not in kw:
                        env[nme] = mk("sub_", v.a[0], C(j))
                break
            if i < len(names):
                env[names[i]] = v
            else:
                extra.append(v)
        if a.vararg is not None:
            env[a.vararg.arg] = mk("tuple", *extra)
        kwextra = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in konly:
                env[k] = v
            else:
                kwextra[k] = v
        nd = len(fn.defaults)
        for i, d in enumerate(fn.defaults):
            nme = names[len(names) - nd + i]
            if nme not in env:
                env[nme] = d
        for k, d in zip(konly, fn.kwdefaults):
            if k not in env and d is not None:
                env[k] = d
        for k in names + konly:
            if k not in env:
                env[k] = mk("undef", k)
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.alloc(st, "dict", [("kv", C(k), v) for k, v in kwextra.items()])
        return env

    def inline(self, fn, args, kw, st, fr, node, fterm):
        key = fn.qual
        model = self.models.get(key)
        if model is not None:
            return model(args, kw, st, fr)
        if key in self.opaque or len(self.callstack) >= MAX_DEPTH or self.callstack.count(key) >= (6 if fn.qual.startswith("numpy.") else MAX_REC):
            shown = args
            t = mk("call", mk("func", key), *[self.fz(a, st) for a in shown], *[mk("kw", C(k), self.fz(v, st)) for k, v in sorted(kw.items())])
            self.log(st, t)
            return t
        self.calls_inlined.add(key)
        env = self.bind(fn, args, kw, st)
        # parameter annotations give classes for otherwise unknown objects
        f2 = Frame(fn, st.pc, (fr.depth + 1) if fr else 1)
        s = State(env, st.heap, st.pc, st.trace)
        if fn.isgen:
            f2.yields = self.alloc(s, "list")
        saved = self.cur
        self.cur = (f2, fn.mod, fn.cls)
        self.callstack.append(key)
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.ev(fn.node.body, s, f2)
                f2.returns.append((s, v, fn.node))
            else:
                out = self.block(fn.node.body, s, f2)
                if out is not None:
                    f2.returns.append((out, NONE, fn.node))
        finally:
            self.callstack.pop()
            self.cur = saved
        # raises propagate to the caller's frame
        if fr is not None:
            for (s2, v, n2) in f2.raises:
                fr.raises.append((State(dict(st.env), s2.heap, s2.pc, s2.trace), v, n2))
        if not f2.returns:
            raise Dead()
        state, val = self.merge_returns(f2.returns, st.pc)
        st.heap, st.pc, st.trace = state.heap, state.pc, state.trace
        if fn.isgen:
            return f2.yields
        return val

    def merge_returns(self, returns, base_pc):
        acc, val = None, None
        for (s, v, _) in reversed(returns):
            if acc is None:
                acc, val = State({}, s.heap, s.pc, s.trace), v
                # strip literals that are only about being the last return
                continue
            extra = [x for x in s.pc if x not in base_pc and x not in acc.pc]
            # condition distinguishing this return from the later ones
            g = AND(*[x for x in extra]) if extra else TRUE
            if g is TRUE:
                acc, val = State({}, s.heap, s.pc, s.trace), v
                continue
            s1 = State({}, s.heap, s.pc, s.trace)
            m = self.merge(g, s1, acc)
            acc = m
            val = ITE(g, v, val)
        # drop branch literals beyond the base that do not hold on every return
        return acc, val

    # ------------------------------------------------------------- builtins / externals
    def is_scalar(self, o):
        return self.scalars and (o.op in ("s", "symb", "float", "complex", "re", "im", "abs", "conj") or o.op in ARITH or o.op.startswith("f:")
                                 or o.op == "call" and o.a[0].op == "ext" and o.a[0].a[0].startswith("inverse."))

    def isinst(self, o, c, st):
        if c.op == "tuple":
            return OR(*[self.isinst(o, x, st) for x in c.a])
        c = self.resolve_lazy(c)
        if o.op == "ite":
            return ITE(o.a[0], self.isinst(o.a[1], c, st), self.isinst(o.a[2], c, st))
        if c.op == "class":
            k = self.class_of(o, st)
            if k is not None:
                d = self.classes[c.a[0]]
                if self.is_subclass(k, d):
                    return TRUE
                if o.op == "new" or not self.is_subclass(d, k):
                    if o.op == "new":
                        return FALSE
            elif o.op in ("c", "loc", "tuple"):
                return FALSE
        if c.op == "ext":
            k = self.class_of(o, st)
            if k is not None:
                if any(self.resolve_lazy(b) is c for q in self.mro(k) for b in q.bases):
                    return TRUE
                if o in self.exact:
                    return FALSE
        if c.op == "builtin" and o.op == "c":
            ty = getattr(_pyb, c.a[0], None)
            if isinstance(ty, type):
                return C(isinstance(o.a[0], ty))
        if c.op == "builtin" and o.op == "loc":
            return C(o.a[0] == c.a[0])
        if c.op == "builtin" and (o.op in ("tuple", "slice") or o.op == "new" and c.a[0] in ("int", "float", "complex", "bool", "str", "list", "tuple", "slice", "dict", "set")):
            ty = getattr(_pyb, c.a[0], None)
            k = self.class_of(o, st) if o.op == "new" else None
            if isinstance(ty, type):
                if o.op in ("tuple", "slice"):
                    return C(issubclass(tuple if o.op == "tuple" else slice, ty))
                if k is not None and all(self.resolve_lazy(b).op in ("class", "builtin") and (self.resolve_lazy(b).op == "class" or self.resolve_lazy(b).a[0] == "object")
                                         for q in self.mro(k) for b in q.bases):
                    return FALSE
        if self.is_scalar(o) and (
                c.op == "class" or c.op == "builtin" and c.a[0] in ("bool", "str", "bytes", "list", "tuple", "slice", "dict", "set", "frozenset")):
            return FALSE
        return mk("isinstance", o, c)

    def call_builtin(self, n, args, kw, st, fr, node):
        if n == "isinstance" and len(args) == 2:
            c = args[1]
            if c.op == "loc":
                its = self.seq_items(c, st, fr)
                c = mk("tuple", *its)
            return self.isinst(args[0], c, st)
        if n == "type" and len(args) == 1:
            if args[0].op == "new":
                return mk("class", args[0].a[0])
            if args[0].op == "c":
                return mk("builtin", type(args[0].a[0]).__name__)
            if args[0].op == "loc":
                return mk("builtin", args[0].a[0])
            return mk("typeof", args[0])
        if n == "len" and len(args) == 1:
            r = self.dunder(args[0], "__len__", [], st, fr)
            if r is not None:
                return r
            if args[0].op == "new" and not self.has_unknown_base(self.classes[args[0].a[0]]):
                self.raise_(S("TypeError"), st, fr, node)
            its = self.seq_items(args[0], st, fr)
            if its is not None:
                return C(len(its))
            if args[0].op == "ite":
                return ITE(args[0].a[0], self.call_builtin("len", [args[0].a[1]], {}, st, fr, node), self.call_builtin("len", [args[0].a[2]], {}, st, fr, node))
            if args[0].op == "loc":
                k = self.gated_len(self.entries(st, args[0]), args[0].a[0])
                return k if k is not None else mk("len", self.freeze(args[0], st))
            return mk("len", args[0])
        if n == "range":
            a = list(args)
            if len(a) == 1: a = [ZERO, a[0], ONE]
            elif len(a) == 2: a = [a[0], a[1], ONE]
            return mk("range_", *a)
        if n == "enumerate":
            return mk("enumerate_", args[0], args[1] if len(args) > 1 else kw.get("start", ZERO))
        if n == "zip":
            return mk("zip_", *args)
        if n == "reversed":
            return mk("reversed_", args[0])
        if n in ("list", "tuple", "set", "sorted"):
            if not args:
                return mk("tuple") if n == "tuple" else self.alloc(st, n)
            if n == "sorted":
                its = self.seq_items(args[0], st, fr)
                its = None if its is None else self.sort_items(its, kw, st, fr)
                if its is not None:
                    return self.alloc(st, "list", tuple(("i", x) for x in its))
                t = mk("sorted", self.fz(args[0], st) if args[0].op == "loc" else args[0])
                return self.alloc(st, "list", (("rest", t),))
            its = self.seq_items(args[0], st, fr)
            if n == "tuple":
                return mk("tuple", *its) if its is not None else mk("totuple", self.fz(args[0], st))
            es = self.iter_entries(args[0], st, fr)
            es = tuple(("rest", e[1]) if e[0] == "restm" else e for e in es)
            if n == "set" and all(e[0] == "i" for e in es):
                ms = self.as_set([e[1] for e in es], st, fr)
                if ms is not None:
                    es = tuple(("i", x) for x in ms)
            return self.alloc(st, n, es)
        if n == "dict":
            l = self.alloc(st, "dict")
            if args:
                self.dict_update(l, args[0], st, fr)
            for k, v in kw.items():
                st.heap[l] = self.entries(st, l) + (("kv", C(k), v),)
            return l
        if n in ("float", "int", "str", "bool", "complex", "abs", "round"):
            return self.conv(n, args, st, fr)
        if n == "format" and len(args) == 2 and args[1].op == "c":
            return self.fstr([mk("fmt", self.fz(args[0], st), args[1])])
        if n in ("max", "min"):
            xs = args
            if len(args) == 1:
                its = self.seq_items(args[0], st, fr)
                if its is None:
                    return mk(n, self.fz(args[0], st))
                xs = its
            if all(x.op == "c" for x in xs) and xs:
                try:
                    return C(getattr(_pyb, n)(*[x.a[0] for x in xs]))
                except Exception:
                    pass
            flat = []
            for x in xs:
                if x.op == n and len(x.a) > 1:
                    flat.extend(x.a)
                else:
                    flat.append(x)
            if not flat:
                return mk(n, *[self.fz(a, st) for a in args])
            return mk(n, *sorted(set(flat), key=lambda t: t.id)) if len(set(flat)) > 1 else flat[0]
        if n == "sum":
            its = self.seq_items(args[0], st, fr)
            if its is not None:
                acc = args[1] if len(args) > 1 else ZERO
                for x in its:
                    acc = arith("add", acc, x)
                return acc
            acc = args[1] if len(args) > 1 else ZERO
            es = self.iter_entries(args[0], st, fr)
            return self.sum_entries(es, acc)
        if n in ("any", "all"):
            its = self.seq_items(args[0], st, fr)
            if its is not None:
                ts = [self.truth_of(x, st) for x in its]
                return OR(*ts) if n == "any" else AND(*ts)
            f = self.fz(args[0], st)
            return mk("truthy", mk(n, f))
        if n == "hasattr" and len(args) == 2 and args[1].op == "c":
            o, name = args[0], args[1].a[0]
            if o.op == "new":
                v = self.hget(st, ("f", o, name))
                c = self.classes[o.a[0]]
                if v is not None:
                    return self.simp(is_defined(v), st)
                if self.class_attr(c, name) is not None:
                    return TRUE
                if not self.has_unknown_base(c):
                    return FALSE
            elif self.hget(st, ("f", o, name)) is not None:
                return TRUE
            elif self.is_scalar(o):
                return C(hasattr(0j, name))
            return mk("hasattr", o, args[1])
        if n == "hasattr":
            return mk("hasattr", *args)
        if n == "getattr":
            if args[1].op == "c":
                if len(args) == 3:
                    h = self.call_builtin("hasattr", args[:2], {}, st, fr, node)
                    if h is FALSE:
                        return args[2]
                    v = self.getattr(args[0], args[1].a[0], st, fr)
                    return v if h is TRUE else ITE(h, v, args[2])
                return self.getattr(args[0], args[1].a[0], st, fr)
            return mk("getattr", *args)
        if n == "setattr":
            if args[1].op == "c":
                self.setattr(args[0], args[1].a[0], args[2], st, fr)
            else:
                self.log(st, mk("setattr", args[0], args[1], args[2]))
                st.heap[("fdyn", args[0], args[1])] = args[2]
            return NONE
        if n == "next":
            it = args[0]
            k = ("cnt", it)
            cur = self.hget(st, k)
            if cur is None:
                cur = ZERO
            if it.op == "count_":
                st.heap[k] = arith("add", cur, ONE)
                return arith("add", it.a[0], cur)
            if it.op == "elem" or it.op in ("s", "attr"):
                st.heap[k] = arith("add", cur, ONE)
                return mk("next", it, cur)
            its = self.seq_items(it, st, fr)
            if its is not None and cur.op == "c":
                st.heap[k] = arith("add", cur, ONE)
                if cur.a[0] < len(its):
                    return its[cur.a[0]]
            t = mk("next", self.fz(it, st), cur)
            st.heap[k] = arith("add", cur, ONE)
            return t
        if n == "iter":
            return args[0]
        if n == "print":
            self.log(st, mk("print", *[self.fz(self.to_text(a, st, fr), st) for a in args]))
            return NONE
        if n == "map" and len(args) == 2:
            es = self.iter_entries(args[1], st, fr)
            out = self.alloc(st, "list")

            def run(s2, v):
                r = self.call(args[0], [v], {}, s2, fr, node)
                s2.heap[out] = self.entries(s2, out) + (("i", r),)
                return s2
            r = self.loop(args[1], run, st, fr)
            if r is None:
                raise Dead()
            st.become(r)
            return out
        if n == "filter" and len(args) == 2:
            out = self.alloc(st, "list")

            def run(s2, v):
                c = self.truth_of(self.call(args[0], [v], {}, s2, fr, node), s2)
                a = s2.fork(c)
                a.heap[out] = self.entries(a, out) + (("i", v),)
                return self.merge(c, a, s2.fork(NOT(c)))
            r = self.loop(args[1], run, st, fr)
            st.become(r)
            return out
        if n == "id":
            return mk("id_", args[0])
        if "builtins." + n in self.models:
            return self.models["builtins." + n](args, kw, st, fr)
        if n == "open":
            t = mk("call", mk("builtin", "open"), *[self.fz(a, st) for a in args])
            self.log(st, t)
            return t
        if n in ("exit", "quit"):
            raise Dead()
        return mk("call", mk("builtin", n), *[self.fz(a, st) for a in args])

    def sum_entries(self, es, acc):
        for e in es:
            if e[0] == "i":
                acc = arith("add", acc, e[1])
            elif e[0] == "g":
                inner = self.sum_entries(e[2], ZERO)
                acc = arith("add", acc, ITE(e[1], inner, ZERO))
            elif e[0] == "each":
                acc = arith("add", acc, mk("sum", e[1], e[2], self.sum_entries(e[3], ZERO)))
            elif e[0] == "rest":
                acc = arith("add", acc, mk("sum", e[1], 0, mk("elem", e[1], 0)))
            elif e[0] == "restm":
                acc = arith("add", acc, mk("sum", e[1], 0, e[2]()))
        return acc

    def number_text(self, n, text):
        """value of a text with symbolic digits (self.tokens: character -> symbol), else None"""
        num = r"([+-]?)([%s]|\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+)" % "".join(self.tokens)
        val = lambda sg, d: arith("neg", v) if sg == "-" and (v := self.tokens.get(d) or C(float(d))) is not None else self.tokens.get(d) or C(float(d))
        t = text.strip()
        if n == "complex" and t[:1] == "(" and t[-1:] == ")":
            t = t[1:-1]
        if n in ("float", "int"):
            m = re.fullmatch(num, t)
            return val(*m.groups()) if m else None
        if n == "complex":
            m = re.fullmatch(num + r"[jJ]", t)
            if m:
                return mk("complex", ZERO, val(*m.groups()))
            m = re.fullmatch(num + "(?:" + num.replace("?)", ")", 1) + r"[jJ])?", t)
            if m:
                g = m.groups()
                return mk("complex", val(*g[:2]), val(*g[2:]) if g[3] is not None else ZERO)
        return None

    def digits(self, t):
        if t.op == "c":
            return str(t.a[0])
        for k, v in self.tokens.items():
            if v is t or v == t:
                return k
        k = next(ch for ch in map(chr, range(0xC66, 0x1FBFA)) if ch.isdecimal() and ch not in self.tokens and not 0x1D7CE <= ord(ch) < 0x1D800)
        self.tokens[k] = t
        return k

    def conv(self, n, args, st, fr):
        if args and args[0].op == "c" and isinstance(args[0].a[0], str) and n in ("float", "int", "complex") and len(args) == 1:
            if self.tokens and any(ch in self.tokens for ch in args[0].a[0]):
                v = self.number_text(n, args[0].a[0])
                if v is not None:
                    return v
                self.raise_(S("ValueError"), st, fr)
            if self.exact_try and self.tokens:
                try:
                    getattr(_pyb, n)(args[0].a[0])
                except ValueError:
                    self.raise_(S("ValueError"), st, fr)
        if n == "complex":
            if len(args) == 1:
                if args[0].op == "c" and isinstance(args[0].a[0], (int, float)):
                    return mk("complex", args[0], ZERO)
                if args[0].op == "c":
                    try:
                        z = complex(args[0].a[0])
                        return mk("complex", C(z.real), C(z.imag))
                    except Exception:
                        pass
                if args[0].op in ("complex", "tocomplex"):
                    return args[0]
                return mk("tocomplex", args[0])
            return mk("complex", *(list(args) + [ZERO])[:2])
        if not args:
            return C({"float": 0.0, "int": 0, "str": "", "bool": False}[n])
        a = args[0]
        if n == "str" and self.tokens and len(args) == 1:
            # text of a symbolic number: digits of its own (numbers are taken to be positive and written without exponent)
            if a.op == "complex" and (a.a[0].op != "c" or a.a[1].op != "c"):
                return C("(" + self.digits(a.a[0]) + "+" + self.digits(a.a[1]) + "j)")
            if a in self.distinct_syms or a.op in ("add", "sub", "mul", "div"):
                return C(self.digits(a))
        if n == "abs":
            if a.op == "c": return C(abs(a.a[0]))
            return mk("abs", a)
        if a.op == "c" and len(args) == 1:
            try:
                return C(getattr(_pyb, n)(a.a[0]))
            except Exception:
                pass
        if n == "bool":
            return self.truth_of(a, st)
        if a.op == "ite" and n in ("float", "int", "str"):
            return ITE(a.a[0], self.conv(n, [a.a[1]], st, fr), self.conv(n, [a.a[2]], st, fr))
        if n == "float":
            if a.op == "float": return a
            return mk("float", a)
        if n == "str":
            if a.op in ("fstr", "str"): return a
            if a.op == "symb" and isinstance(a.a[0], str): return C(a.a[0])
            if a.op == "enum": return C(a.a[0].split(".")[-1] + "." + a.a[1])
            if a.op == "new":
                r = self.to_text(a, st, fr)
                if r is not a: return r
            return mk("str", self.fz(a, st))
        return mk(n, *[self.fz(x, st) for x in args])

    EXT_ALIAS = {"math.pi": "pi", "numpy.pi": "pi", "cmath.pi": "pi"}

    def call_ext(self, n, args, kw, st, fr, node):
        fz = [self.fz(a, st) for a in args]
        short = n.split(".")[-1]
        if n in ("itertools.count",):
            return mk("count_", args[0] if args else ZERO, C(self.fresh()))
        if n in ("sympy.symbols", "sympy.Symbol", "sympy.var"):
            if args and args[0].op == "c":
                names = parse_symbols(args[0].a[0]) if short != "Symbol" else [args[0].a[0]]
                many = "," in args[0].a[0].replace("\\,", "") or len(names) > 1
                ss = [mk("symb", x) for x in names]
                return mk("tuple", *ss) if many and short != "Symbol" else ss[0]
            return mk("symb", args[0])
        root = n.split(".")[0]
        if n == "re.compile" and len(args) == 1 and args[0].op == "c":
            return mk("regex", args[0])
        if n in ("re.sub",) and all(x.op == "c" and isinstance(x.a[0], str) for x in args):
            return C(re.sub(*[x.a[0] for x in args]))
        if n in ("re.search", "re.match", "re.fullmatch") and len(args) == 2 and all(x.op == "c" and isinstance(x.a[0], str) for x in args):
            m = getattr(re, short)(args[0].a[0], args[1].a[0])
            return NONE if m is None else mk("rematch", m.group(0), *m.groups())
        if root in ("math", "numpy", "cmath", "sympy"):
            if short in ("real", "imag") and len(args) == 1:
                return self.reim(args[0], short)
            if short in ("cos", "sin", "tan", "sqrt", "exp", "log", "log10", "radians", "degrees", "atan2", "arctan2", "atan", "arctan", "ceil", "floor"):
                nm = {"arctan2": "atan2", "arctan": "atan"}.get(short, short)
                if nm == "radians": return arith("div", arith("mul", args[0], mk("ext", "math.pi")), C(180))
                if nm == "degrees": return arith("div", arith("mul", args[0], C(180)), mk("ext", "math.pi"))
                if nm in ("sqrt",) and args[0].op == "c" and args[0].a[0] in (0, 1):
                    return args[0]
                if nm == "sqrt" and args[0].op == "c" and isinstance(args[0].a[0], int) and 0 < args[0].a[0] < 10 ** 9 and math.isqrt(args[0].a[0]) ** 2 == args[0].a[0]:
                    return C(math.isqrt(args[0].a[0]))
                return mk("f:" + nm, *args)
            if short in ("abs", "absolute", "fabs"):
                return mk("abs", fz[0])
            if short in ("conj", "conjugate"):
                return mk("conj", fz[0])
            if short in ("pow", "power") and len(args) == 2:
                return arith("pow", args[0], args[1])
            if short == "sign" and len(args) == 1 and known(args[0]) is not None and not isinstance(known(args[0]), complex):
                k = known(args[0])
                return C((k > 0) - (k < 0))
            if short == "phase":
                return mk("phase", args[0])
            if n == "cmath.polar":
                return mk("tuple", mk("abs", args[0]), mk("phase", args[0]))
            if n == "numpy.angle":
                d = args[1] if len(args) > 1 else kw.get("deg", FALSE)
                r = mk("phase", args[0])
                return ITE(self.truth_of(d, st), arith("div", arith("mul", r, C(180)), mk("ext", "math.pi")), r)
            if n in ("numpy.rad2deg", "numpy.deg2rad"):
                return self.call_ext("math.degrees" if short == "rad2deg" else "math.radians", args, kw, st, fr, node)
            if short == "rect" and n == "cmath.rect":
                return mk("complex", arith("mul", args[0], mk("f:cos", args[1])), arith("mul", args[0], mk("f:sin", args[1])))
            if short == "isnan" and root in ("math", "numpy"):
                return mk("isnan", fz[0])
            if short == "dot" and root == "numpy" and len(args) == 2:
                a, b = self.seq_items(args[0], st, fr), self.seq_items(args[1], st, fr)
                if a is not None and b is not None and len(a) == len(b):
                    acc = ZERO
                    for x, y in zip(a, b):
                        acc = arith("add", acc, arith("mul", x, y))
                    return acc
            two = {"multiply": "mul", "divide": "div", "true_divide": "div", "add": "add", "subtract": "sub", "floor_divide": "floordiv", "mod": "mod"}
            if short in two and len(args) == 2 and root == "numpy":
                return arith(two[short], fz[0], fz[1])
            if short == "square" and len(args) == 1:
                return arith("mul", fz[0], fz[0])
            if short == "negative" and len(args) == 1:
                return arith("sub", ZERO, fz[0])
            if short == "reciprocal" and len(args) == 1:
                return arith("div", ONE, fz[0])
            if short == "hypot" and len(args) == 2:
                return mk("f:sqrt", arith("add", arith("mul", args[0], args[0]), arith("mul", args[1], args[1])))
            if self.concrete_arrays and short in ("zeros", "ones", "full", "empty") and args[0].op == "c" and isinstance(args[0].a[0], int):
                fill = ONE if short == "ones" else args[1] if short == "full" and len(args) > 1 else ZERO
                return self.alloc(st, "list", [("i", fill)] * args[0].a[0])
            if self.concrete_arrays and short in ("array", "asarray") and args and args[0].op == "loc":
                return self.alloc(st, "list", self.entries(st, args[0]))
            if short == "array" or short == "asarray":
                return mk("nparray", fz[0])
            if short == "copy" and root == "numpy":
                return mk("npcopy", fz[0])
        if n == "copy.deepcopy" or n == "copy.copy":
            if args and args[0].op == "loc":
                return self.alloc(st, args[0].a[0], self.entries(st, args[0]))
            return args[0] if args else NONE
        if n == "collections.defaultdict":
            l = self.alloc(st, "dict")
            if len(args) > 1:
                self.dict_update(l, args[1], st, fr)
            if args and args[0] is not NONE:
                st.heap[("factory", l)] = args[0]
            return l
        if n in ("collections.OrderedDict",):
            return self.call_builtin("dict", args, kw, st, fr, node)
        if n in ("sys.exit", "os._exit"):
            raise Dead()
        if n.startswith("typing."):
            return mk("ext", n)
        if n == "functools.reduce" and len(args) >= 2:
            its = self.seq_items(args[1], st, fr)
            if its is not None:
                acc = args[2] if len(args) > 2 else its.pop(0)
                for x in its:
                    acc = self.call(args[0], [acc, x], {}, st, fr, node)
                return acc
        t = mk("call", mk("ext", n), *fz, *[mk("kw", C(k), self.fz(v, st)) for k, v in sorted(kw.items())])
        self.log(st, t)
        return t

    # ------------------------------------------------------------- driver
    def analyse(self, fn, args=None, self_t=None, st=None, kw=None):
        """analyse a function; returns Result"""
        if isinstance(fn, str):
            fn = self.fn(fn)
        names = [x.arg for x in fn.node.args.posonlyargs + fn.node.args.args]
        kwonly = [x.arg for x in fn.node.args.kwonlyargs]
        a = {}
        args = dict(args or {})
        if fn.cls is not None and fn.kind not in ("staticmethod",) and names:
            if names[0] not in args:
                a[names[0]] = self_t if self_t is not None else S("self")
                if self_t is None:
                    self.hints.setdefault(a[names[0]], fn.cls.qual)
        nd = len(fn.defaults)
        for i, n in enumerate(names):
            if n in args:
                a[n] = args[n]
            elif n not in a:
                a[n] = S(n)
        for n in kwonly:
            a[n] = args.get(n, S(n))
        if fn.node.args.vararg:
            a[fn.node.args.vararg.arg] = args.get(fn.node.args.vararg.arg, S("*" + fn.node.args.vararg.arg))
        if fn.node.args.kwarg:
            a[fn.node.args.kwarg.arg] = args.get(fn.node.args.kwarg.arg, S("**" + fn.node.args.kwarg.arg))
        base = st.fork() if st is not None else State({}, {}, (), ())
        fr = Frame(fn, base.pc, 0)
        s = State(a, base.heap, base.pc, base.trace)
        if fn.isgen:
            fr.yields = self.alloc(s, "list")
        saved = self.cur
        self.cur = (fr, fn.mod, fn.cls)
        self.callstack.append(fn.qual)
        self.calls_inlined.add(fn.qual)
        try:
            out = self.block(fn.node.body, s, fr)
            if out is not None:
                fr.returns.append((out, NONE, fn.node))
        finally:
            self.callstack.pop()
            self.cur = saved
        r = Result()
        r.engine = self
        r.fn = fn
        r.returns = list(fr.returns)
        r.raises = list(fr.raises)
        r.args = a
        if fr.returns:
            r.state, r.value = self.merge_returns([(State(x.env, x.heap, x.pc, x.trace), v, n) for x, v, n in fr.returns], base.pc)
            if fn.isgen:
                r.value = fr.yields
        else:
            r.state, r.value = None, None
        return r

    def new_object(self, qual, args=None, st=None, kw=None):
        """abstractly construct an instance; returns (object term, state)"""
        c = self.cls(qual)
        st = st.fork() if st is not None else State({}, {}, (), ())
        fr = Frame(None, st.pc, 0)
        o = self.instantiate(c, list(args or []), dict(kw or {}), st, fr, None)
        return o, st, fr

    def call_method(self, o, name, args, st):
        fr = Frame(None, st.pc, 0)
        st = st.fork()
        m = self.getattr(o, name, st, fr)
        v = self.call(m, list(args), {}, st, fr, None)
        return v, st, fr

    def call_fn(self, qual, args, st=None, kw=None):
        fr = Frame(None, (), 0)
        st = st.fork() if st is not None else State({}, {}, (), ())
        f = self.fn(qual)
        v = self.inline(f, list(args), dict(kw or {}), st, fr, None, None)
        return v, st, fr


class Result:
    pass


BUILTINS = set(dir(_pyb))


def parse_symbols(s):
    out, cur, i = [], "", 0
    while i < len(s):
        ch = s[i]
        if ch == "\\" and i + 1 < len(s):
            cur += s[i + 1]
            i += 2
            continue
        if ch in ", \t\n":
            if cur:
                out.append(cur)
            cur = ""
        else:
            cur += ch
        i += 1
    if cur:
        out.append(cur)
    return out
