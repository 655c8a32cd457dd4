"""RAW case files: what a file describes does not depend on how it is written down - column header lines,
records of equipment the solver does not model, remarks, padding and separators, an early end of file -
and a reader keeps nothing from one file to the next."""
from ._raw import *

P = "src/logic/network/parsers/raw/"
ALL = (30, 32, 33, 34)
NET = '''
from oracle import lines_of
def seen(n):
    at = {b.Bus: b for b in n.buses}
    return [
        [(b.Bus, b.Vr_init, b.Vi_init, b.NodeName) for b in n.buses],
        [(l.from_bus.Bus, l.from_bus is at[l.from_bus.Bus], l.P, l.Q, l.G, l.B, l.IP, l.IQ) for l in n.loads],
        [(s.bus.Bus, s.bus is at[s.bus.Bus], s.Vr_set, s.Vi_set, s.Pinit) for s in n.slack],
        [(g.bus.Bus, g.bus is at[g.bus.Bus], g.P, g.Vset, g.Qmax, g.Qmin, g.Qinit) for g in n.generators],
        [(x.from_bus_pos.Bus, x.to_bus_pos.Bus, x.from_bus_pos is at[x.from_bus_pos.Bus], x.tr, x.ang_rad, x.G_loss, x.B_loss) for x in n.transformers],
        [(l.from_bus.Bus, l.to_bus.Bus, l.from_bus is at[l.from_bus.Bus], l.G, l.B, l.B_line) for l in n.lines],
        [(s.bus.Bus, s.bus is at[s.bus.Bus], s.G, s.B) for s in n.shunts]]
'''
KINDS = ["buses", "loads", "slack generators", "generators", "transformers", "lines", "shunts"]
SAME = NET + '''
def client():
    a = seen(load(ONE))
    return (a, [LIST])
'''


def sections(v):
    """a case with something of everything the solver models"""
    d = dict(bus=[bus(v, 1, 3, "=vm1", "=va1"), bus(v, 2, 2, "=vm2", "=va2"), bus(v, 3, 1), bus(v, 4, 1), bus(v, 9, 4)],
             load=[loadrec(v, 3, "1", 1, "=p1", "=q1", "=ip", "=iq"), loadrec(v, 4, "1", 1, "=p2", "=q2"), loadrec(v, 4, "2", 1, "=p3", "=q3")],
             gen=[gen(v, 1, "1", 1, "=p4", "=q4", "50.0", "-40.0", "=v1"), gen(v, 2, "1", 1, "=p5", "=q5", "50.0", "-40.0", "=v2")],
             branch=[branch(v, 1, 2, "1", 1, "=r1", "=x1", "=b1"), branch(v, 2, 3, "1", 1, "=r2", "=x2", "=b2"), branch(v, 2, 3, "2", 1, "=r3", "=x3", "=b3")],
             xfmr=xfmr2(v, 3, 4, "1", 1, r="=r4", x="=x4", w1="=w1", ang="=a", w2="=w2") + xfmr3(v, 1, 2, 3, "1", 1) + xfmr2(v, 2, 4, "1", 1, r="=r5", x="=x5"),
             sshunt=[sshunt(v, 4, 0, 1, "1.1", "0.9", "=b5", "2 5.0"), sshunt(v, 3, 1, 1, "1.1", "0.9", "=b6", "2 5.0")])
    if v != 30:
        d["fshunt"] = ["3 1 1 2.5 =b4", "4 1 1 0 6.0"]
    return d


def unused(v):
    """records of the sections whose equipment is not modelled"""
    d = dict(area=["1 1 0.0 5.0 NORTH", "2 3 10.0 5.0 SOUTH"], zone=["1 Z1", "2 Z2"], owner=["1 O1", "7 O7"], transfer=["1 2 A 10.0"], mtdc=["MT1 3 4 2 0 0 0.0 0"],
             dc2=["DC1 0 8.0 1.0 500.0 400.0 0.0 0.1 I 0.0 20 1.0", "1 2 13.0 5.0 0.0 6.0 230.0 0.4 1.0 1.1 0.9 0.01 0 0 0 1 0.0", "2 2 21.0 18.0 0.0 6.0 230.0 0.4 1.0 1.1 0.9 0.01 0 0 0 1 0.0"],
             vsc=["V1 1 0.7 1 1.0", "1 2 1 1.0 1.0 0.0 0.0 0.0 400.0 1200.0 0.1 100.0 -110.0 0 100.0", "2 1 1 1.0 1.0 0.0 0.0 0.0 400.0 1200.0 0.1 100.0 -110.0 0 100.0"],
             imp=["1 -30.0 1.1 0.0 1.0 30.0 1.1"] if v != 34 else ["1 0.9 1.0 0.0 1.1 1.0 0.0"],
             msline=["1 3 &1 1 2"], facts=["F1 1 0 1 0.0 0.0 1.0 9999.0 9999.0 0.9 1.1 1.0 0.0 0.05 100.0 1 0.0 0.0 0" + ("" if v == 30 else " 0 M")])
    if v in (33, 34):
        d["gne"] = ["G1 MODEL 1 3 0 0 1 1 NONE"]
    if v == 34:
        d.update(system=["GENERAL, THRSHZ=0.0001", "RATING 1 RATE1"], switching=["1 3 1 0.0001 100.0 1 1 1 2 SW"], induction=["3 1 1 1 1 1 1 1"], substation=["1 S1 40.0 -80.0 0.1"])
    return d


def same(ctx, where, one, variants, need=()):
    """each of the variants (label, rows) reads as the same network as one"""
    whole = variants[0][0] + (f" (and {len(variants) - 1} more)" if len(variants) > 1 else "")

    def go():
        o = raw(ctx, SAME.replace("ONE", one).replace("LIST", ", ".join(f"seen(load({t}))" for _, t in variants)))
        a, bs = items(o.only())
        for k, x in zip(KINDS, items(a)):
            if k in need:
                ctx.must(f"{variants[0][0]}: {k} are there", len(items(x)) > 0, where, "the case has them but none was built")
        for (label, _), b in zip(variants, items(bs)):
            for k, x, y in zip(KINDS, items(a), items(b)):
                bad = mismatch(x, y)
                ctx.ob(f"{label}: the same {k}", None if bad is None else bad, where)
    ctx.section(whole, where, go)


def mismatch(want, got):
    w, g = items(want), items(got)
    if len(w) != len(g):
        return f"{len(g)} instead of {len(w)}"
    place = lambda r: next(((x.a[0],) for x in items(r)[:1] if x.op == "c" and isinstance(x.a[0], int)), ())
    cases = 0
    for a, b in zip(sorted(w, key=place), sorted(g, key=place)):
        for q, (x, y) in enumerate(zip(items(a), items(b))):
            if x is not y:
                r = compare(x, y)
                if r[0]:
                    return f"field {q} of {str(a)[:60]}: {r[0]}"
    return None


def run(ctx):
    W = P + "Data.py:Raw.read_from_rows"
    for v in ALL:
        sec = sections(v)
        plain = rows(v, **sec)
        R = f"revision {v}"
        same(ctx, W, plain, [(f"{R}: a second file reads like the first", plain)], [k for k in KINDS])
        vs = [(f"{R}: column header lines", rows(v, keys=True, **sec)), (f"{R}: a column header line on top of the file", "[[\"@!IC\", \"SBASE\", \"REV\"], " + plain[1:])]
        un = unused(v)
        for k in un:
            vs.append((f"{R}: equipment that is not modelled: {k}", rows(v, **{k: un[k]}, **sec)))
        vs.append((f"{R}: equipment that is not modelled, headed columns", rows(v, keys=True, **un, **sec)))
        vs.append((f"{R}: records after the end of the file", plain[:-1] + ', ["1", "X", "138.0"], ["0"]]'))
        vs.append((f"{R}: buses in another order", rows(v, **dict(sec, bus=sec["bus"][::-1]))))
        for k in range(0, len(vs), 6):
            same(ctx, W, plain, vs[k:k + 6])
        # a file may end after any section
        seq = order(v)
        later = []
        for k, s in enumerate(seq):
            kept = {q: r for q, r in sec.items() if q in seq[:k + 1]}
            if "gen" not in kept:
                continue
            if kept == sec:
                later.append((f"{R}: a file ending after its {s} section", head(v, seq[:k + 1], kept)))
            else:
                same(ctx, W, rows(v, **kept), [(f"{R}: a file ending after its {s} section", head(v, seq[:k + 1], kept))])
        same(ctx, W, plain, later)
        # a remark behind the last field of a record
        sure = concrete(sec)
        same(ctx, P + "Data.py:pad_row", rows(v, **sure), [(f"{R}: remarks behind bus records", rows(v, **dict(sure, bus=[r + "/remark" for r in sure["bus"]])))])
    text(ctx)


def concrete(d):
    """numbers instead of unknowns (a remark is cut out of known text)"""
    n = [0]

    def f(x):
        n[0] += 1
        return str(n[0] / 100)
    return {q: [" ".join(f(x) if x[0] == "=" else x for x in r.split()) for r in rs] for q, rs in d.items()}


def head(v, done, kept):
    """the case up to and including the sections done, then the end of the file"""
    full = rows(v, **kept).split(",\n    ")
    last = f'["0 / END OF {done[-1].upper()} DATA"'
    i = next(k for k, r in enumerate(full) if r.startswith(last))
    return ",\n    ".join(full[:i + 1]) + ',\n    ["Q"]]'


def text(ctx):
    """from the text of the file to rows of fields"""
    W = P + "Data.py:Raw.read"
    sec = sections(33)

    def blanks():
        src = rows(33, **sec)
        import ast as A
        wide = repr([[f"{f}  " if f[0] != TOK else f for f in r] for r in A.literal_eval(src)])
        same(ctx, W, src, [("blanks round a field mean nothing", wide)])
    blanks()

    def reading():
        got = []
        E = ctx.engine()
        box = {}

        def reader(a, k, st, fr):
            got.append((a[0], dict(k), st.path if hasattr(st, "path") else None))
            return box["rows"]
        E.exact_try = True
        E.while_unroll = 40

        def feed(a, k, st, fr):
            box["rows"] = a[0]
            return NONE

        m = {"oracle.feed": feed, "csv.reader": reader, "logic.network.networkloader.pull_network_file": lambda a, k, st, fr: a[0]}
        client(ctx, HEAD + f'''
def client():
    load({rows(33, **sec)})
    return 0
''', E=E, models=m)
        ctx.must("the lines of the file are split into fields once", len(got) == 1, W, f"{len(got)} calls")
        lines_, kw, _ = got[0]
        txt = str(lines_)
        ctx.must("the lines come from the file that was asked for", "case.RAW" in txt and "open" in txt, W, txt[:120])
        ctx.must("fields are quoted by apostrophes", kw.get("quotechar") is C("'"), W, str(kw.get("quotechar")))
        ctx.must("blanks after a separator are skipped", kw.get("skipinitialspace") is TRUE, W, str(kw.get("skipinitialspace")))
        d = kw.get("delimiter")
        ok = d is not None and d.op == "ite" and {d.a[1], d.a[2]} == {C(","), C(" ")}
        ctx.must("the separator is a comma or a blank", ok, W, str(d)[:200])
        if ok:
            yes = d.a[1] is C(",")
            c = d.a[0] if yes else NOT(d.a[0])
            t = str(c)
            ctx.must("it is a comma when the first line has one", c.op != "not" and "','" in t or "const str ," in t, W, t[:200])
    ctx.section("from text to fields", W, reading)
