"""Derivative caching: nothing that influences a cached result is missing from its key, and a cached
result replaces exactly the computation it stands for."""
from itertools import combinations
from ._cl import *

SEG = "logic.stamping.lagrangesegment"
W1 = "src/logic/stamping/lagrangesegment.py:LagrangeSegment"
W2 = "src/logic/stamping/lagrangepickler.py:LagrangePickler"
W3 = "src/logic/stamping/matrixstamper.py:get_or_build_stamp_expressions"
HEAD = '''
from logic.stamping.lagrangesegment import LagrangeSegment
from logic.stamping.lagrangepickler import LagrangePickler
from logic.stamping.matrixstamper import get_or_build_stamp_expressions
from oracle import stored, load, broken, derivatives
VARIANTS = {"reference": 0, "another expression": 1, "another constant": 2, "constants swapped": 3, "a constant that is a variable": 4, "variables swapped": 5, "another variable": 6,
            "multipliers swapped": 7, "another multiplier": 8, "a variable that is a multiplier": 9}
def segs(L, M, a, b, c, x, y, z, d, e, f):
    return [LagrangeSegment(L, (a, b), (x, y), (d, e)), LagrangeSegment(M, (a, b), (x, y), (d, e)), LagrangeSegment(L, (a, c), (x, y), (d, e)), LagrangeSegment(L, (b, a), (x, y), (d, e)),
            LagrangeSegment(L, (a,), (b, x, y), (d, e)), LagrangeSegment(L, (a, b), (y, x), (d, e)), LagrangeSegment(L, (a, b), (x, z), (d, e)), LagrangeSegment(L, (a, b), (x, y), (e, d)),
            LagrangeSegment(L, (a, b), (x, y), (d, f)), LagrangeSegment(L, (a, b), (x, y, d), (e,))]
'''
NAMES = ["reference", "another expression", "another constant", "constants swapped", "a constant turned into a variable", "variables swapped", "another variable", "multipliers swapped",
         "another multiplier", "a variable turned into a multiplier"]
KEYS = HEAD + '''
class Store:
    def __init__(self):
        self.log = []
    def has_pickle(self, k):
        self.log.append(k)
        return False
    def try_unpickle(self, k):
        self.log.append(k)
        raise Exception("nothing stored")
    def try_pickle(self, k, v):
        self.log.append(k)
def client(L, M, a, b, c, x, y, z, d, e, f):
    out = []
    for s in segs(L, M, a, b, c, x, y, z, d, e, f):
        store = Store()
        LagrangeSegment._pickler = store
        s.get_derivatives()
        out.append(store.log)
    return out
'''
FILE = HEAD + '''
class Store:
    def has_pickle(self, k):
        return stored(k)
    def try_unpickle(self, k):
        if broken(k):
            raise Exception("unreadable")
        return {"stored": load(k)}
    def try_pickle(self, k, v):
        self.key = k
        self.value = v
def client(L, a, x, y, d, e):
    s = LagrangeSegment(L, (a,), (x, y), (d, e))
    LagrangeSegment._pickler = Store()
    v1 = s.get_derivatives()
    v2 = s.get_derivatives()
    return (v1, v2)
'''

PATH = '''
from logic.stamping.lagrangepickler import LagrangePickler
from oracle import digest
class Hash:
    def __init__(self, *data):
        self.parts = list(data)
    def update(self, data):
        self.parts.append(data)
    def hexdigest(self, *n):
        return digest(tuple(self.parts))
    def digest(self, *n):
        return digest(tuple(self.parts))
def client(k1, k2):
    p = LagrangePickler()
    return (p._get_pickle_file(k1), p._get_pickle_file(k2), p._get_pickle_file(k1))
'''


def flat(tr):
    for x in tr:
        if isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    yield from flat([y] if y and isinstance(y[0], str) else y)


def run(ctx):
    names = "L M a b c x y z d e f".split()

    def setup():
        E = ctx.engine()
        E.fn(SEG + ".LagrangeSegment.get_derivatives")
        E.cls("logic.stamping.lagrangepickler.LagrangePickler")
        E.models[SEG + ".split_expr"] = lambda a, kw, st, fr: mk("tuple", S("K"), E.alloc(st, "dict", []))
        return E

    def keys():
        E = setup()
        E.models[SEG + ".DerivativeEntry"] = lambda a, kw, st, fr: mk("call", mk("ext", "oracle.derivatives"), *[x if x.op != "loc" else E.freeze(x, st) for x in a])
        o = client(ctx, KEYS, distinct=names, E=E)
        logs = [items(x) for x in items(o.only())]
        ctx.must("the cache is consulted", all(logs), W1)
        for n, l in zip(NAMES, logs):
            ctx.must(f"{n}: a single key is used for lookup and storing", len(set(l)) == 1, W1, "; ".join(show(k, 6)[:120] for k in l))
        for (n, k), (m, l) in combinations([(n, l[0]) for n, l in zip(NAMES, logs)], 2):
            ctx.must(f"key distinguishes: {n} / {m}", k is not l, W1, f"both are stored under {show(k, 6)[:200]}")
    ctx.section("cache key", W1, keys)

    def use():
        E = setup()
        o = client(ctx, FILE, distinct=names, E=E)
        ctx.must("reading derivatives never fails because of the cache", not o.raises, W1, "raises")
        kinds = set()
        for known, v in outcomes(o.value()):
            val, again = items(v)
            f = lambda name: next((known[t] is TRUE for t in known if any(q.op == "ext" and q.a[0] == "oracle." + name for q in walk(t)) and not any(q.op == "exc" for q in walk(t))), None)
            ex = next((known[t] is TRUE for t in known if t.op == "exc"), None)
            st_, br = f("stored"), f("broken")
            if st_ and br and ex is False:
                continue        # reading fails exactly when the stored file is unreadable
            d = py(val)
            isload = any(q.op == "ext" and q.a[0] == "oracle.load" for q in walk(val))
            case = f"stored={st_} unreadable={br} failed={ex}"
            kinds.add((st_, isload))
            if st_ and not ex:
                ctx.must(f"{case}: stored derivatives are used", isload and isinstance(d, dict) and len(d) == 1, W1, show(val, 5))
            else:
                ok = isinstance(d, dict) and set(d) == {S("x"), S("y"), S("d"), S("e")} and not isload
                ctx.must(f"{case}: derivatives for every variable and multiplier are computed", ok, W1, show(val, 5))
                if ok:
                    for k, rec in d.items():
                        g = lambda n: E.freeze(E.getattr(rec, n, o.returns[0][2], None), o.returns[0][2], 8)
                        ctx.must(f"{case}: the record of {k.a[0]} is the derivative by {k.a[0]}", g("variable") is k and g("expr") is mk("call", mk("ext", "sympy.diff"), S("L"), k), W1, show(g("expr"), 4))
                        ctx.must(f"{case}: the second query returns the computed derivatives", again is val, W1, show(again, 5))
        ctx.must("hits and misses are distinguished", (True, True) in kinds and (False, False) in kinds, W1, str(kinds))
    ctx.section("cache use", W1, use)

    def path():
        E = setup()
        f = E.fn("logic.stamping.lagrangepickler.LagrangePickler._get_pickle_file")

        def digest(args, kw, st, fr):
            m = [x for x in E.mods.values() if x.name.startswith("client")][-1]
            return E.call(E.modattr(m, "Hash"), args, {}, st, fr, None)
        for h in ("md5", "sha1", "sha224", "sha256", "sha384", "sha512", "blake2b", "blake2s", "sha3_256", "new"):
            E.models["hashlib." + h] = digest
        o = client(ctx, PATH, distinct=["k1", "k2"], E=E)
        a, b, c = items(o.only())
        for n, t, k in (("first", a, "k1"), ("second", b, "k2")):
            whole = [q for q in walk(t) if q.op == "call" and q.a[0] is mk("ext", "oracle.digest")]
            ctx.must(f"the file of the {n} key is named by a digest", len(whole) == 1, W2, f"file {show(t, 7)}")
            for q in whole:
                ks = [x for x in walk(q) if x is S(k)]
                cut = [x for x in walk(q) if x.op == "sub_"]
                ctx.must(f"the digest of the {n} key covers the whole key", ks and not cut and not any(x in (S("k1"), S("k2")) and x is not S(k) for x in walk(q)), W2, f"digest of {show(q, 7)}")
                lens = [x.a[1] for x in walk(t) if x.op == "sub_" and any(y is q for y in walk(x.a[0]))]
                for s in lens:
                    p_ = [y.a[0] if y.op == "c" else "?" for y in s.a] if s.op == "slice" else ["?"]
                    n_ = p_[1] - (p_[0] or 0) if len(p_) == 3 and isinstance(p_[1], int) and p_[1] > 0 and (p_[2] or 1) == 1 and isinstance(p_[0] or 0, int) else 99 if len(p_) == 3 and p_[1] is None and (p_[0] or 0) < 20 else 0
                    ctx.must(f"the {n} file name keeps enough of the digest", n_ >= 8, W2, f"only {n_} digits of the digest are used")
        ctx.must("different keys have different files", a is not b, W2, show(a, 6))
        ctx.must("a key always has the same file", a is c, W2, show(c, 6))
        for meth, k in (("has_pickle", "has"), ("try_unpickle", "load"), ("try_pickle", "store")):
            fn = E.fn("logic.stamping.lagrangepickler.LagrangePickler." + meth)
            E2 = ctx.engine()
            E2.models["logic.stamping.lagrangepickler.LagrangePickler._get_pickle_file"] = lambda args, kw, st, fr: mk("call", mk("ext", "oracle.file"), args[-1])
            ob, st, _ = E2.new_object("logic.stamping.lagrangepickler.LagrangePickler", [])
            args = [S("key")] + ([S("value")] if k == "store" else [])
            v, st, _ = E2.call_method(ob, meth, args, st)
            eff = mk("tuple", v, *[x for x in flat(st.trace)])
            other = [q for q in walk(eff) if q.op == 'call' and q.a[0] is mk('ext', 'oracle.file') and q.a[1] is not S('key')]
            ctx.must(f'{meth}: no file of another key', not other, W2, '; '.join(show(q) for q in other))
            file = mk("call", mk("ext", "oracle.file"), S("key"))
            ctx.must(f"{meth}: uses the file of its key", any(q is file for q in walk(eff)), W2, show(eff, 5)[:200])
            if k == "store":
                ctx.must("try_pickle: stores the given derivatives", any(q.op == "call" and "dump" in str(q.a[0].a[0]) and len(q.a) > 1 and q.a[1] is S("value") for q in walk(eff)), W2, show(eff, 5)[:300])
            if k == "load":
                ctx.must("try_unpickle: returns what the file holds", any(q.op == "call" and "load" in str(q.a[0].a[0]) for q in walk(v)), W2, show(v, 5))
    ctx.section("cache files", W2, path)

    def exprs():
        E = setup()
        PK = "logic.stamping.lagrangepickler.LagrangePickler."
        E.models[PK + "has_pickle"] = lambda *a: FALSE
        E.models[PK + "try_pickle"] = lambda *a: NONE
        txt = HEAD + '''
def client(L, M, a, b, c, x, y, z, d, e, f):
    s = segs(L, M, a, b, c, x, y, z, d, e, f)
    p = get_or_build_stamp_expressions(s[0], False)
    q = get_or_build_stamp_expressions(s[0], True)
    r = get_or_build_stamp_expressions(s[1], False)
    t = get_or_build_stamp_expressions(s[0], False)
    w = get_or_build_stamp_expressions(s[5], False)
    return (vars_of(p[1]) , vars_of(q[1]), vars_of(r[1]), vars_of(t[1]), vars_of(w[1]), own(p, s[0]), own(q, s[0]), own(r, s[1]), own(t, s[0]), own(w, s[5]))
def vars_of(l):
    return [z.first_order for z in l]
def own(p, s):
    return [z.lsegment is s for z in p[0]]
'''
        o = client(ctx, txt, distinct=names, E=E)
        v = items(o.only())
        show_ = lambda t: [show(x) for x in items(t)]
        for k, n in ((0, "plain"), (3, "plain again"), (4, "other segment")):
            ctx.must(f"{n}: residual expressions per multiplier", [x for x in items(v[k])] == [S("d"), S("e")], W3, str(show_(v[k])))
        ctx.must("with optimisation: residual expressions per variable and multiplier", set(items(v[1])) == {S("x"), S("y"), S("d"), S("e")} and len(items(v[1])) == 4, W3, str(show_(v[1])))
        for k in range(5, 10):
            leaves = [q.a[0] for q in walk(v[k]) if q.op == "i"]
            ctx.must(f"expressions belong to the requested segment ({k - 4})", leaves and all(q is TRUE for q in leaves), W3, show(v[k], 5))
    ctx.section("expression cache", W3, exprs)
