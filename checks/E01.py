from vf import *
from ew import *

PRE = """#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <dspbb/Primitives/SignalArithmetic.hpp>
using namespace dspbb;
template<class T> using V = BasicSignalView<T, TIME_DOMAIN>;
template<class T> using CV = BasicSignalView<const T, TIME_DOMAIN>;
template<class T> using S = BasicSignal<T, FREQUENCY_DOMAIN>;
extern "C" void sink_(const void* p, size_t n);
template<class R, class U> void sink(const BasicSignal<R, TIME_DOMAIN>& s) { static_assert(std::is_same_v<R, U>); sink_(s.data(), s.size()); }
"""
OPS = {"Add": ("+", c_add), "Subtract": ("-", c_sub), "Multiply": ("*", c_mul), "Divide": ("/", c_div)}
RES = {("f", "f"): "f", ("d", "d"): "d", ("f", "d"): "d", ("d", "f"): "d", ("cf", "cf"): "cf", ("cf", "f"): "cf", ("f", "cf"): "cf", ("cd", "cd"): "cd", ("cd", "d"): "cd", ("d", "cd"): "cd", ("i", "i"): "i"}

def entries(pairs):
    out = []
    for ta, tb in pairs:
        tr = RES[(ta, tb)]
        A, B, R = TY[ta][0], TY[tb][0], TY[tr][0]
        for op, (sym, f) in OPS.items():
            if (ta, tb) == ("i", "i") and op == "Divide": continue
            n = "e_%s_%%s_%s%s" % (op, ta, tb)
            O = ("arg", 0)
            a = lambda e, ta=ta: elem(arg(1), ta, e)
            b = lambda e, tb=tb: elem(arg(2), tb, e)
            sa = lambda e, ta=ta: elem(arg(1), ta, rf(0))
            sb = lambda e, tb=tb: elem(arg(2), tb, rf(0))
            sig = "(%s* o, const %s* a, const %s* b, size_t n)" % (R, A, B)
            def add(form, body, ex, outk=O, tout=tr):
                out.append((n % form, 'extern "C" void %s%s { %s }\n' % (n % form, sig, body), ex, outk, tout))
            add("vv", "%s(V<%s>(o,n), CV<%s>(a,n), CV<%s>(b,n));" % (op, R, A, B), lambda e, f=f, a=a, b=b: f(a(e), b(e)))
            add("vs", "%s(V<%s>(o,n), CV<%s>(a,n), *b);" % (op, R, A), lambda e, f=f, a=a, b=sb: f(a(e), b(e)))
            add("sv", "%s(V<%s>(o,n), *a, CV<%s>(b,n));" % (op, R, B), lambda e, f=f, a=sa, b=b: f(a(e), b(e)))
            add("opvv", "sink<%s, %s>(CV<%s>(a,n) %s CV<%s>(b,n));" % (R, R, A, sym, B), lambda e, f=f, a=a, b=b: f(a(e), b(e)), "sink")
            add("opvs", "sink<%s, %s>(CV<%s>(a,n) %s *b);" % (R, R, A, sym), lambda e, f=f, a=a, b=sb: f(a(e), b(e)), "sink")
            add("opsv", "sink<%s, %s>(*a %s CV<%s>(b,n));" % (R, R, sym, B), lambda e, f=f, a=sa, b=b: f(a(e), b(e)), "sink")
            if tr == ta:
                o = lambda e, tr=tr: elem(arg(0), tr, e)
                add("asv", "V<%s> v(o,n); v %s= CV<%s>(b,n);" % (R, sym, B), lambda e, f=f, o=o, b=b: f(o(e), b(e)))
                add("ass", "V<%s> v(o,n); v %s= *b;" % (R, sym), lambda e, f=f, o=o, b=sb: f(o(e), b(e)))
                add("self", "V<%s> v(o,n); %s(v, v, v);" % (R, op), lambda e, f=f, o=o: f(o(e), o(e)))
    return out

def run(c):
    groups = [[("f", "f")], [("cf", "cf")], [("cf", "f")], [("f", "cf")], [("d", "d")], [("f", "d"), ("d", "f")]]
    if c.thorough: groups += [[("cd", "cd")], [("cd", "d")], [("d", "cd")], [("i", "i")]]
    variants = [("", ())] + ([("avx2", ("-mavx2", "-mfma")), ("avx512", ("-mavx512f", "-mavx512dq", "-mavx512bw", "-mavx512vl", "-mfma"))] if c.thorough else [])
    jobs, meta = [], []
    for tag, fl in variants:
        for gi, g in enumerate(groups):
            es = entries(g)
            jobs.append((c.ir, "g%d%s" % (gi, tag), PRE + "".join(x[1] for x in es), ["^sink_"], True, fl))
            meta.append((tag, es))
    mods = c.parallel(jobs)
    ne = 0
    for m, (tag, es) in zip(mods, meta):
        if isinstance(m, Exception): raise m
        for name, code, ex, out, tout in es:
            ne += 1
            check_elementwise(c, name + (":" + tag if tag else ""), m.fns[name], m, out, tout, arg(3), ex)
    c.cov["entries"] = ne

main("E01", run, "Every arithmetic entry point is inlined to IR; each store to the result is resolved to an affine element index over its loop counter and the value term is compared, as an exact rational function of the operand elements, with the operator applied to the same-index elements; stores must tile [0,n) exactly, write nothing else, and read before overwriting (so results may alias operands).")
