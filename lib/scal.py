"""Straight-line rule: the terms an entry point stores through its first argument, evaluated at sampled values of its
inputs, have to satisfy a relation (algebraic identity testing with a semantic oracle instead of a term)."""
from val import *
from flow import rpo
from num import Point, BadPoint, code_types
import random

class Fail(Exception):
    def __init__(self, why, ins=None):
        Exception.__init__(self, why); self.ins = ins

def check_scalar(c, key, fn, mod, setup, judge, count=60, minimum=10, seed=11, loops_ok=False):
    """setup(rnd) -> {"force": {atom key: value}, ...} or None (point skipped); judge(vals, env) -> error text or None,
    with vals = {byte offset from argument 0: (value, size)}.  Values are exact for integers."""
    T = Terms(fn, mod=mod)
    c.cover(fn)
    try:
        st = writes(T)
        order = {b: n for n, b in enumerate(rpo(fn))}
        per, other = under(st, {}, [("arg", 0)])
        if other: raise NotDecided("writes elsewhere", other[0].ins)
        sts = sorted(per[("arg", 0)], key=lambda x: (order.get(x.ins.blk, 0), x.ins.idx))
        for x in sts:
            if x.loops: raise NotDecided("store inside a loop", x.ins)
            x.vals = [T.full(v) if isinstance(v, RF) else v for v in x.vals]
        types = code_types(fn)
        seen = 0
        for t in range(count * 4):
            if seen >= count: break
            r = random.Random(seed * 1000003 + t)
            env = setup(r)
            if env is None: continue
            p = Point(seed * 7919 + t, types=types)
            p.force.update(env["force"])
            vals, last = {}, None
            try:
                for x in sts:
                    if not p.ev(x.pc): continue
                    o = int(p.ev(x.off))
                    for j, v in enumerate(x.vals):
                        if not isinstance(v, RF): raise NotDecided("value not resolved", x.ins)
                        vals[o + j * x.es] = (p.ev(v), x.es); last = x
                        if p.opaque: raise NotDecided("value not resolved: %s" % show(v)[:200], x.ins)
            except BadPoint: continue
            w = judge(vals, env)
            if w: raise NotCovered(w, last.ins if last is not None else [i for i in fn.all()][-1])
            seen += 1
        if seen < minimum: raise NotDecided("not exercised (%d)" % seen)
        c.ok(1, "%s: %d result terms" % (key, len(sts)))
    except NotDecided as e: c.skip(key, "%s (%s)" % (e, e.ins.loc() if e.ins is not None else ""))
    except NotCovered as e: c.bad(key, str(e), e.ins.loc(), e.ins.chain())
    except TooBig: c.skip(key, "terms too large")

def load(a, off=0, size=4): return atom(("load", arg(a) + off, size)).single_atom()
def argk(n): return ("arg", n)
