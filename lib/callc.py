"""Call-argument rule: on every execution of an entry point exactly one call among the named (opaque) functions runs,
and its arguments are the specified terms."""
from val import *
from mapc import *
from num import points, BadPoint, code_types, close
import re

def calls_of(T, rx):
    r = re.compile(rx)
    pcs = path_conditions(T)
    out = []
    for i in T.f.all():
        if i.op in ("call", "invoke") and (r.search(i.dem or "") or r.search(i.callee or "")):
            out.append((i, pcs.get(i.blk, rf(0)), T.execs(i)))
    return out

def operand_terms(T, i, n=None):
    ops = i.ops[:n] if n else i.ops
    out = []
    for o in ops:
        try: out.append(T.full(T.opnd(o)))
        except NotDecided: out.append(None)
    return out

def object_field(T, i, q, off, size=8):
    """field of an object passed by address to call i, as last written before the call"""
    k, o0 = T._alloca_of(i.ops[q])
    if k is None or o0 is None:
        a = T.full(T.opnd(i.ops[q]))
        return atom(("load", a + off, size)) if a is not None else None
    w = T.reaching_writer(k, o0 + off, size, i)
    r = T._from_writer(w, o0 + off, size, i) if w is not None else None
    return T.full(r) if r is not None else None

def check_call(c, key, fn, mod, rx, alts, ranges=None, legal=None, count=150, none_ok=None, intloads=False, what=(), fixed=None, minimum=10, T=None, assume=None, fields=()):
    """alts: list of alternatives (each a list of expected argument terms, None = any), or function T -> such a list.
    At sampled values of the entry's arguments the extracted path conditions select the executing call; its argument
    terms have to agree with one alternative.  `fields` lists (argument, byte offset) of pointers inside objects passed by address; their terms follow
    the operands' (call operands include the callee).  Returns the Terms object and the calls, or None if nothing was decided."""
    T = T or Terms(fn, mod=mod)
    ctx = Ctx.of(fn, ranges=ranges)
    c.cover(fn)
    try:
        cs = calls_of(T, rx)
        if not cs: raise NotDecided("no call of %s is reached" % rx)
        for i, pc, lp in cs:
            if lp: raise NotDecided("call inside a loop", i)
        cs = [(i, pc, operand_terms(T, i) + [object_field(T, i, q, o) for q, o in fields]) for i, pc, _ in cs]
        al = alts(T) if callable(alts) else alts
        seen = 0; opq = None
        for p in points(assume or {}, ctx.types, ranges, count, fixed=fixed, intloads=intloads, seed=5):
            if legal is not None and not legal(p): continue
            try:
                act = []
                for i, pc, a in cs:
                    v = p.ev(pc)
                    if v != 0: act.append((i, a))
            except BadPoint: continue
            if p.opaque: opq = opq or cs[0][0]; p.opaque = False; continue
            if not act:
                if none_ok is None or not none_ok(p): raise NotCovered("no call is made %s" % at(p, ctx), cs[0][0])
                continue
            if len(act) > 1: raise NotDecided("several calls in one execution", act[1][0])
            i, a = act[0]
            best = None
            for alt in al:
                bad = None
                for q, w in enumerate(alt):
                    if w is None: continue
                    if q >= len(a) or a[q] is None: bad = (q, None, w); break
                    try: x, y = p.ev(a[q]), p.ev(w)
                    except BadPoint: bad = (q, None, w); break
                    if p.opaque: bad = (q, None, w); p.opaque = False; break
                    if not close(x, y): bad = (q, a[q], w); break
                if bad is None: best = None; break
                if best is None or bad[0] > best[0] or best[1] is None: best = bad
            if best is not None:
                q, g, w = best
                if g is None: raise NotDecided("argument %d not resolved" % q, i)
                nm = what[q] if q < len(what) else "argument %d" % q
                raise NotCovered("%s of %s is %s, expected %s %s" % (nm, (i.dem or i.callee or "?").split("<")[0].split("(")[0], show(g)[:200], show(w)[:200], at(p, ctx)), i)
            seen += 1
        if opq is not None and seen < minimum: raise NotDecided("executing call not resolved", opq)
        if seen < minimum: raise NotDecided("argument combinations not exercised (%d)" % seen)
        c.ok(1, "%s: %d call sites, argument terms agree" % (key, len(cs)))
        return T, cs
    except NotDecided as e: c.skip(key, "%s (%s)" % (e, e.ins.loc() if e.ins is not None else ""))
    except NotCovered as e: c.bad(key, str(e), e.ins.loc() if e.ins is not None else "", e.ins.chain() if e.ins is not None else None)
    except TooBig: c.skip(key, "terms too large")
    return None

def at(p, ctx):
    return "(at %s)" % ", ".join("arg%d=%s" % (n, p.at(intern(("arg", n)))) for n, t in enumerate(ctx.types) if t not in ("ptr",))
