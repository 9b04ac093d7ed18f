from vf import *
from val import *

PRE = """#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <dspbb/Math/Statistics.hpp>
#include <dspbb/Math/DotProduct.hpp>
using namespace dspbb;
template<class T> using CV = BasicSignalView<const T, TIME_DOMAIN>;
"""

def run(c):
    types = ["f", "d", "cf"] + (["cd"] if c.thorough else [])
    variants = [("", ())] + ([("avx2", ("-mavx2", "-mfma"))] if c.thorough else [])
    jobs, meta = [], []
    for tag, fl in variants:
        for t in types:
            cpx = t[0] == "c"
            A = TY[t][0]
            es = TY[t][1]
            src = PRE; ents = []
            def E(name, body, want, arrays, **kw):
                nonlocal src
                n = "e_%s_%s" % (name, t)
                src += 'extern "C" void %s(%s* o, const %s* a, const %s* b, size_t n) { *o = %s; }\n' % (n, A, A, A, body)
                ents.append((n, want, arrays, kw))
            a1 = [(arg(1), t)]; ab = [(arg(1), t), (arg(2), t)]
            V = "CV<%s>" % A
            if not cpx:
                E("Sum", "Sum(%s(a,n))" % V, {0: SUM(X())}, a1)
                E("SumSquare", "SumSquare(%s(a,n))" % V, {0: SUM(X() * X())}, a1)
                E("Dot", "DotProduct(%s(a,n),%s(b,n))" % (V, V), {0: SUM(X(0) * X(1))}, ab)
                E("Max", "Max(%s(a,n))" % V, "fmax", a1)
                E("Min", "Min(%s(a,n))" % V, "fmin", a1)
            else:
                E("Sum", "Sum(%s(a,n))" % V, {0: SUM(X(0, 0)), es: SUM(X(0, 1))}, a1)
                E("SumSquare", "SumSquare(%s(a,n))" % V, {0: SUM(X(0, 0) ** 2 - X(0, 1) ** 2), es: SUM(2 * X(0, 0) * X(0, 1))}, a1)
                E("Dot", "DotProduct(%s(a,n),%s(b,n))" % (V, V), {0: SUM(X(0, 0) * X(1, 0) + X(0, 1) * X(1, 1)), es: SUM(X(0, 1) * X(1, 0) - X(0, 0) * X(1, 1))}, ab)
            jobs.append((c.ir, "r_%s%s" % (t, tag), src, [], True, fl)); meta.append((tag, t, ents))
    for m, (tag, t, ents) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        for n, want, arrays, kw in ents:
            key = n + (":" + tag if tag else "")
            if isinstance(want, str): ext(c, key, m.fns[n], m, want, arrays)
            else: check_values(c, key, m.fns[n], m, want, arrays, arg(3))

def ext(c, key, fn, mod, kind, arrays):
    T = Terms(fn, mod=mod); T.nnset.add(("arg", 3))
    c.cover(fn)
    ctx = Ctx.of(fn)
    try:
        st = writes(T)
        for asm in case_split(write_terms(st) + [v for s in st for v in s.vals], 14):
            if infeasible(asm) or subst(arg(3), asm).iszero(): continue
            if not any(True for _ in points(asm, ctx.types, None, 1)): continue
            res, other = outputs(T, st, asm)
            v, s = res[0]
            try: recognise_ext(v, kind, arrays, subst(arg(3), asm), ctx, asm)
            except NotReduction as e: raise (NotCovered if e.definite else NotDecided)(str(e), s.ins)
        c.ok(1, key + ": extremum over all elements")
    except NotDecided as e: c.skip(key, "%s (%s)" % (e, e.ins.loc() if e.ins is not None else ""))
    except NotCovered as e: c.bad(key, str(e), e.ins.loc() if e.ins is not None else "", e.ins.chain() if e.ins is not None else None)

from num import points
main("R01", run, "Each reduction entry point is inlined to IR; the accumulation loops' recurrences are solved in closed form and the result must be the fold of one map over every element index of [0,n) exactly once (loop segments tile the index range), in every branch of the size dispatch; the folded map must be the documented one.")
