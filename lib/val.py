"""Scalar results: the value an entry point stores at fixed offsets of its result argument, compared with a formula."""
from red import *

def outputs(T, st, asm, base=("arg", 0)):
    """{byte offset: (value, store)} of the straight-line result stores that run under asm"""
    per, other = under(st, asm, [base])
    out = {}
    for s in per[base]:
        if s.loops: raise NotDecided("result written in a loop", s.ins)
        if isinstance(s.es, str): raise NotDecided("bulk result write", s.ins)
        off = subst(s.off, asm)
        if not off.isconst(): raise NotDecided("result offset not constant", s.ins)
        for j, v in enumerate(s.vals):
            out.setdefault(int(off.cval()) + j * s.es, []).append((s.pc, subst(v, asm), s))
    res = {}
    for o, xs in out.items():
        tot = rf(0); val = rf(0)
        for pc, v, s in xs: tot = tot + pc; val = val + pc * v
        if len(xs) > 1 and tot != rf(1):
            # later unconditional store wins
            un = [x for x in xs if x[0] == rf(1)]
            last = [x for x in un if all(x is y or T.f.ins_dominates(y[2].ins, x[2].ins) for y in xs)]
            if not last: raise NotDecided("result written several times", xs[0][2].ins)
            val, s = last[0][1], last[0][2]
        res[o] = (val, xs[-1][2])
    return res, other

def check_values(c, key, fn, mod, want, arrays=(), n=None, ctx=None, assume=None, skip_empty=False, allow_other=False, intloads=False, ranges=None, fixed=None, need=None, args=None):
    """want: {offset: RF} (may contain ('SUM', g) atoms) or function asm -> that"""
    T = cut_terms(fn, mod, args) if arrays else Terms(fn, mod=mod, args=args)
    if n is not None: T.nnset |= set(n.atoms())
    ctx = ctx or Ctx.of(fn, ranges=ranges, intloads=intloads, fixed=fixed)
    c.cover(fn)
    try:
        st = writes(T)
        terms = write_terms(st) + [v for s in st for v in s.vals]
        if arrays: terms = terms + list(T.fin.values())
        wants = want if callable(want) else (lambda asm: want)
        if not callable(want): terms = terms + list(want.values())
        cases = 0
        for asm in case_split(terms, 14):
            if assume:
                asm = dict(asm); asm.update(assume)
            if infeasible(asm): continue
            if n is not None and skip_empty and subst(n, asm).iszero(): continue
            res, other = outputs(T, st, asm)
            if other and not allow_other: raise NotDecided("writes besides the result", other[0].ins)
            w = wants(asm)
            for off, exp in w.items():
                if off not in res:
                    if need is not None and not need(asm): continue
                    from num import points
                    if not any(True for _ in points(asm, ctx.types, ctx.ranges, 1, intloads=ctx.intloads, fixed=ctx.fixed)): continue
                    raise NotCovered("result component at offset %d is not written" % off)
                v, s = res[off]
                exp = subst(exp, asm) if isinstance(exp, RF) else rf(exp)
                if arrays:
                    try: v = canon_fins(v, T, asm, arrays, subst(n, asm), ctx)
                    except NotReduction as e:
                        # an infeasible case cannot refute
                        from num import points
                        if not any(True for _ in points(asm, ctx.types, ctx.ranges, 1, intloads=ctx.intloads, fixed=ctx.fixed)): continue
                        raise (NotCovered if e.definite else NotDecided)(str(e), e.ins or s.ins)
                    if n is not None and subst(n, asm).iszero(): exp = drop_sums(exp)
                if same(v, exp): cases += 1; continue
                vd = ctx.eq(v, exp, asm)
                if vd == "differ": raise Mismatch(s.ins, rf(off), 0, v, exp)
                if vd == "unknown": raise NotDecided("value not resolved: %s" % show(v)[:300], s.ins)
                cases += 1
        c.ok(1, "%s: equal to the formula in %d cases" % (key, cases))
    except Mismatch as e:
        c.bad(key, "result component at offset %s is %s, expected %s" % (show(e.e), show(e.got)[:400], show(e.want)[:400]), e.ins.loc(), e.ins.chain())
    except NotDecided as e:
        c.skip(key, "%s (%s)" % (e, e.ins.loc() if e.ins is not None else ""))
    except NotCovered as e:
        c.bad(key, str(e), e.ins.loc() if e.ins is not None else "", e.ins.chain() if e.ins is not None else None)
    except TooBig: c.skip(key, "terms too large")

def drop_sums(r): return subst(r, {k: rf(0) for k in all_heads(r, "SUM")})
def all_heads(r, head):
    out = set()
    def wk(k):
        if isinstance(k, RF):
            for a in k.atoms(): wk(a)
        elif isinstance(k, tuple):
            if k and k[0] == head: out.add(k); return
            for x in k: wk(x)
    wk(r)
    return out
def SUM(g): return atom(("SUM", g))
def X(n=0, c=0): return atom(("x", n, c))
