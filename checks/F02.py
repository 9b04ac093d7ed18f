from vf import *
from mapc import *

PRE = """#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <dspbb/Math/FFT.hpp>
using namespace dspbb;
template<class T> using V = BasicSignalView<T, FREQUENCY_DOMAIN>;
template<class T> using CV = BasicSignalView<const T, FREQUENCY_DOMAIN>;
extern "C" void sink_(const void* p, size_t n);
template <class T> void sink(const BasicSignal<T, FREQUENCY_DOMAIN>& s) { sink_(s.data(), s.size()); }
"""
def run(c):
    n = arg(2)
    up = idiv(n + 1, rf(2)); dn = idiv(n, rf(2))
    jobs, meta = [], []
    for t in ["f", "cd"] + (["d", "cf"] if c.thorough else []):
        A = TY[t][0]
        src = PRE; ents = []
        for f, sh in (("FftShift", up), ("IfftShift", dn)):
            for form, body, out in (("into", "%s(V<%s>(o,n), CV<%s>(a,n));" % (f, A, A), ("arg", 0)),
                                    ("inplace", "V<%s> v(o,n); %s(v, v);" % (A, f), "rotate"), ("inplace2", "%s(V<%s>(o,n), V<%s>(o,n));" % (f, A, A), "rotate"), ("retview", "sink(%s(CV<%s>(a,n)));" % (f, A), "sink")):
                e = "e_%s_%s_%s" % (f, form, t)
                src += 'extern "C" void %s(%s* o, const %s* a, size_t n) { %s }\n' % (e, A, A, body)
                ents.append((e, sh, out, form))
        jobs.append((c.ir, "s_" + t, src, ["^sink_", r"std::(_V2::)?(__)?rotate<"])); meta.append((t, ents))
    for m, (t, ents) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        for e, sh, out, form in ents:
            if out == "rotate": rotate(c, e, m.fns[e], m, sh, t)
            else:
                src_ = arg(1)
                def exp(i, sh=sh):
                    j = i + sh
                    return elem(src_, t, j - n * idiv(j, n))
                check_map(c, e, m.fns[e], m, out, t, n, exp, ranges={2: (0, 40)})

def rotate(c, key, fn, mod, sh, t):
    """in place: exactly one rotation of the whole range about element `sh`"""
    T = Terms(fn, mod=mod); T.nnset.add(("arg", 2))
    ctx = Ctx.of(fn, ranges={2: (0, 40)})
    c.cover(fn)
    _, es, nc = TY[t]
    try:
        calls = [i for i in fn.all() if i.op == "call" and "rotate<" in i.dem and i.blk in fn.returning]
        st = writes(T)
        if len(calls) != 1: raise NotDecided("no single rotation of the range")
        if st: raise NotDecided("other writes", st[0].ins)
        i = calls[0]
        pcs = path_conditions(T)
        a = [T.full(T.opnd(o)) for o in i.ops[:3]]
        n = arg(2)
        for q, w in zip(a, (arg(0), arg(0) + sh * es * nc, arg(0) + n * es * nc)):
            for asm in case_split([q]):
                if infeasible(asm) or not feasible_case(ctx, asm) or ctx.eq(n, rf(0), asm) == "same": continue
                must(ctx, subst(q, asm), subst(w, asm), asm, "rotates about %s, expected %s" % (show(subst(q, asm)), show(w)), i)
        c.ok(1, key + ": one rotation of the whole range")
    except NotDecided as e: c.skip(key, "%s (%s)" % (e, e.ins.loc() if e.ins is not None else ""))
    except NotCovered as e: c.bad(key, str(e), e.ins.loc() if e.ins is not None else "", e.ins.chain() if e.ins is not None else None)

main("F02", run, "The index mapping of every spectrum-shift entry point is extracted from its IR (bulk copies as affine segments) and compared with the rotation by ceil(n/2) resp. floor(n/2), which are inverse to each other for every n.")
