"""Index-mapping rule (superset of the element-wise rule): bulk copies, several passes over the result, result
lengths differing from the operands', expected values given per result index."""
from val import *
from num import points, BadPoint

def feasible_case(ctx, asm, krange=None):
    return any(True for _ in points(asm, ctx.types, ctx.ranges, 1, intloads=ctx.intloads, fixed=ctx.fixed, krange=krange))

def phased(T, st, asm, bk, total, elt, ctx, lo=rf(0)):
    """final contents of the result: segments that tile [0,total), later passes replacing earlier ones"""
    per, other = under(st, asm, [bk])
    segs = segments(per[bk], asm, ctx, elt)
    segs = [s for s in segs if ctx.eq(s.start, s.end, asm) not in ("same", "vacuous")]
    segs = resolve_phases(T, segs, bk, asm, ctx)
    # drop segments completely replaced by later ones
    keep = []
    for n, s in enumerate(segs):
        rep = replaced(ctx, s, segs[n + 1:], asm)
        if not rep: keep.append(s)
    return chain(keep, lo, total, ctx, asm), other

def ge(ctx, a, b, asm):
    n = 0
    for p in points(asm, ctx.types, ctx.ranges, 12, intloads=ctx.intloads, fixed=ctx.fixed):
        try: x, y = p.ev(a), p.ev(b)
        except BadPoint: continue
        if p.opaque or x < y: return False
        n += 1
    return n > 0

def replaced(ctx, s, later, asm):
    """at every sampled point the later segments together cover s"""
    if not later: return False
    n = 0
    for p in points(asm, ctx.types, ctx.ranges, 24, intloads=ctx.intloads, fixed=ctx.fixed):
        try: a, b = p.ev(s.start), p.ev(s.end); iv = sorted((p.ev(g.start), p.ev(g.end)) for g in later)
        except BadPoint: continue
        if p.opaque: return False
        for x, y in iv:
            if x <= a: a = max(a, y)
        if a < b: return False
        n += 1
    return n > 0

def check_map(c, key, fn, mod, out, tout, n, expected, args=None, ranges=None, assume=None, intloads=False, fixed=None, skip=None, base=None, allow_other=False, lo=rf(0), filt=None, covers_fn=True):
    """out: argument key or 'sink'; expected(e) -> list of component RFs for result element e; n: result length (elements)"""
    T = Terms(fn, mod=mod, args=args)
    T.nnset |= set(n.atoms())
    ctx = Ctx.of(fn, ranges=ranges, intloads=intloads, fixed=fixed)
    c.cover(fn)
    _, es, nc = TY[tout]
    try:
        if base is not None: base_rf, _sz = base(T), None
        else: base_rf, _sz = result_base(T, out)
        if base_rf is None: raise NotDecided("result never produced")
        st = [s for s in writes(T) if filt is None or filt(T, s)]
        ncases = 0
        for asm in case_split(write_terms(st) + [base_rf] + ([_sz] if _sz is not None else []), 16):
            if assume: asm = {**asm, **assume}
            if infeasible(asm) or not feasible_case(ctx, asm): continue
            total = subst(n * (es * nc), asm)
            b = subst(base_rf, asm)
            if _sz is not None: must(ctx, subst(_sz, asm), subst(n, asm), asm, "result has %s elements, expected %s" % (show(subst(_sz, asm)), show(subst(n, asm))), None)
            low = subst(lo * (es * nc), asm)
            if ctx.eq(total, low, asm) == "same" or ge(ctx, low, total, asm):
                ncases += 1
                continue
            bk = b.single_atom()
            if bk is None: raise NotDecided("result array not identified: %s" % show(b)[:200])
            segs, other = phased(T, st, asm, bk, total, (es, nc), ctx, low)
            if other and not allow_other: raise NotDecided("write outside the result array at %s" % show(other[0].addr)[:200], other[0].ins)
            for sg in segs:
                k = ("k", sg.header)
                kr = {k: sg.N} if sg.header is not None else {}
                for (o0, stride, ses, v, s) in sg.slots:
                    if ses != es: raise NotDecided("element stored with %d bytes instead of %d" % (ses, es), s.ins)
                    off = o0 + stride * atom(k) if sg.header is not None else o0
                    e, comp = slot_index(off, tout)
                    if e is None: raise NotDecided("unresolved element index %s" % show(off)[:200], s.ins)
                    want = subst(expected(e)[comp], asm)
                    got = subst(v, asm)
                    if same(got, want): continue
                    vd = ctx.eq(got, want, asm, kr, 40)
                    if vd == "unknown": raise NotDecided("stored value not resolved: %s" % show(got)[:200], s.ins)
                    if vd == "differ": raise Mismatch(s.ins, e, comp, got, want)
            ncases += 1
        if not ncases: raise NotDecided("no feasible case")
        c.ok(1, "%s: %s" % (key, "mapping proved in %d cases" % ncases))
    except Mismatch as e:
        c.bad(key, "stored element %s component %d is %s, expected %s" % (show(e.e)[:120], e.comp, show(e.got)[:300], show(e.want)[:300]), e.ins.loc(), e.ins.chain())
    except NotDecided as e:
        from refute import refute_map
        r = None
        try: r = refute_map(T, st, base_rf, n, expected, (es, nc), ctx, lo, asm=assume)
        except (UnboundLocalError, NotCovered, TooBig): pass
        if r:
            p = r[5]
            args = ", ".join("arg%d=%s" % (q, p.at(intern(("arg", q)))) for q, t in enumerate(ctx.types) if t != "ptr")
            c.bad(key, "element %s component %d %s (at %s)" % (r[1], r[2], r[0], args), e.ins.loc() if e.ins is not None else "", e.ins.chain() if e.ins is not None else None)
            return
        c.skip(key, "%s (%s)" % (e, e.ins.loc() if e.ins is not None else ""))
    except NotCovered as e:
        c.bad(key, str(e), e.ins.loc() if e.ins is not None else "", e.ins.chain() if e.ins is not None else None)
    except TooBig:
        c.skip(key, "terms too large")
