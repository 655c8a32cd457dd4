"""Obligations, evidence and verdict of one check run."""
import json
import os
import signal
import sys
import time
import traceback
from .interp import Engine, AnalysisError
from .term import show, T

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("VERIF_SRC", "/repo/src")


def budget(*a):
    raise AnalysisError("analysis budget exhausted")


class Ctx:
    budget = 100

    def __init__(self, pid):
        self.pid = pid
        self.obs = []
        self.deadline = time.time() + 600
        self.known_hit = []
        self.engines = []
        self.notes = []
        self.assumptions = []
        self.tier = os.environ.get("VERIF_TIER", "quick")

    def engine(self, opaque=()):
        e = Engine(SRC, opaque)
        self.engines.append(e)
        return e

    def ob(self, name, bad, where, cases=1):
        """one obligation; `bad` is None/"" when discharged, else the reason"""
        if isinstance(bad, tuple):
            bad, cases = bad
        self.obs.append(dict(name=name, where=where, ok=not bad, detail=str(bad) if bad else "", cases=cases))
        return not bad

    def must(self, name, cond, where, detail="not established"):
        return self.ob(name, None if cond else detail, where)

    def section(self, name, where, fn, *a):
        """run a group of obligations; an unexpected shape fails the group"""
        left = self.deadline - time.time()
        try:
            if left < 5:
                raise AnalysisError("analysis budget exhausted")
            signal.signal(signal.SIGALRM, budget)
            signal.alarm(int(min(left, self.budget)))
            try:
                return fn(*a)
            finally:
                signal.alarm(0)
        except AnalysisError as e:
            if "anchor" in str(e):
                raise
            self.ob(name, f"could not be established: {e}", where)
        except RecursionError:
            raise
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.ob(name, f"could not be established: {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})", where)


def known_findings():
    p = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: "):
                rest = line[len("KNOWN-FINDING: "):]
                prop, _, txt = rest.partition(" ")
                key, _, what = txt.partition(" :: ")
                out.append((prop.split("=")[1], key.strip(), what.strip()))
    return out


def run(pid, fn, title=""):
    t0 = time.time()
    ctx = Ctx(pid)
    sys.setrecursionlimit(20000)
    fn(ctx)
    wall = time.time() - t0
    known = [(k, w) for p, k, w in known_findings() if p == pid]
    bad = []
    for o in ctx.obs:
        if o["ok"]:
            continue
        hit = [w for k, w in known if k == o["name"]]
        if hit:
            o["known"] = True
            ctx.known_hit.append((o, hit[0]))
        else:
            bad.append(o)
    if not ctx.obs:
        raise AnalysisError("no obligation was generated")
    fns = set()
    for e in ctx.engines:
        fns |= e.calls_inlined
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = dict(property=pid, tier=ctx.tier if ctx.tier in ("quick", "thorough") else "quick", seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
              coverage=dict(explanation="static value-flow analysis of /repo/src: every obligation below is a statement about all inputs of the named construct, decided from the source text by gated value numbering and algebraic normal form; nothing was executed",
                            obligations=len(ctx.obs), discharged=sum(1 for o in ctx.obs if o["ok"]),
                            cases=sum(o["cases"] for o in ctx.obs),
                            modules=sum(len(e.mods) for e in ctx.engines[:1]),
                            functions_analysed=sorted(fns),
                            samples=[{k: o[k] for k in ("name", "where", "ok", "cases")} for o in ctx.obs],
                            rule="an obligation is one rule applied to one construct; cases = condition cases distinguished while comparing"),
              assumptions=ctx.assumptions, wall_s=round(wall, 3), violations=len(bad))
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rp = os.path.join(ROOT, "evidence", pid + ".violations.txt")
    print(f"{pid}: {len(ctx.obs)} obligations, {ev['coverage']['discharged']} discharged, {len(fns)} functions analysed, {wall:.1f}s")
    for o, w in ctx.known_hit:
        print(f"KNOWN-FINDING: property={pid} {o['name']} :: {w}")
    if bad:
        with open(rp, "w") as f:
            for o in bad:
                f.write(f"{o['where']}\n  rule: {o['name']}\n  {o['detail']}\n")
        for o in bad:
            print(f"  {o['where']}: {o['name']}: {o['detail'][:600]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if os.path.exists(rp):
        os.unlink(rp)
    return 0


def main(pid):
    import importlib
    try:
        m = importlib.import_module("sa.props." + pid)
        return run(pid, m.run)
    except AnalysisError as e:
        print(f"{pid}: analysis error: {e}")
        return 2
    except SyntaxError as e:
        print(f"{pid}: source does not parse: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2
