from vf import *
from contract import *

PRE = """#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <dspbb/Primitives/SignalArithmetic.hpp>
#include <dspbb/Math/Functions.hpp>
using namespace dspbb;
template<class T> using V = BasicSignalView<T, TIME_DOMAIN>;
template<class T> using CV = BasicSignalView<const T, TIME_DOMAIN>;
extern "C" void sink_(const void* p, size_t n);
template <class S> void sink(const S& s) { sink_(s.data(), s.size()); }
"""
FUN = {"f": ["Abs", "Log", "Log2", "Log10", "Exp", "Sqrt", "Cbrt", "Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Sinh", "Cosh", "Tanh", "Asinh", "Acosh", "Atanh", "Erf", "Erfc", "TGamma", "LGamma"],
       "cf": ["Log", "Log10", "Exp", "Sqrt", "Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Sinh", "Cosh", "Tanh", "Asinh", "Acosh", "Atanh"]}
OPS = {"Add": "+", "Subtract": "-", "Multiply": "*", "Divide": "/"}

def run(c):
    jobs, meta = [], []
    three = lambda v: v["r"] == v["a"] == v["b"]
    two = lambda v: v["r"] == v["a"]
    ab = lambda v: v["a"] == v["b"]
    for t in ["f", "cf"] + (["d", "cd"] if c.thorough else []):
        A = TY[t][0]
        sig = "(%s* o, const %s* a, const %s* b, size_t r, size_t na, size_t nb)" % (A, A, A)
        src = PRE; ents = []
        def E(n, body, legal, names):
            nonlocal src
            e = "e_%s_%s" % (n, t)
            src += 'extern "C" void %s%s { %s }\n' % (e, sig, body)
            ents.append((e, legal, names))
        R, NA, NB = {"r": 3}, {"a": 4}, {"b": 5}
        for op, s in OPS.items():
            E(op + "_vv", "%s(V<%s>(o,r), CV<%s>(a,na), CV<%s>(b,nb));" % (op, A, A, A), three, {**R, **NA, **NB})
            E(op + "_vs", "%s(V<%s>(o,r), CV<%s>(a,na), *b);" % (op, A, A), two, {**R, **NA})
            E(op + "_sv", "%s(V<%s>(o,r), *b, CV<%s>(a,na));" % (op, A, A), two, {**R, **NA})
            E(op + "_as", "V<%s> v(o,r); v %s= CV<%s>(a,na);" % (A, s, A), two, {**R, **NA})
            E(op + "_op", "sink(CV<%s>(a,na) %s CV<%s>(b,nb));" % (A, s, A), ab, {**NA, **NB})
        base = "f" if t in ("f", "d") else "cf"
        for f in FUN[base]: E(f, "%s(V<%s>(o,r), CV<%s>(a,na));" % (f, A, A), two, {**R, **NA})
        E("Pow", "Pow(V<%s>(o,r), CV<%s>(a,na), *b);" % (A, A), two, {**R, **NA})
        if base == "cf":
            B = A[13:-1]
            for f in ("Abs", "Arg", "Real", "Imag"): E(f, "%s(V<%s>((%s*)o,r), CV<%s>(a,na));" % (f, B, B, A), two, {**R, **NA})
            E("Conj", "Conj(V<%s>(o,r), CV<%s>(a,na));" % (A, A), two, {**R, **NA})
        jobs.append((c.ir, "m_" + t, src, ["^sink_"])); meta.append(ents)
    for m, ents in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        for e, legal, names in ents:
            check_contract(c, e, m.fns[e], m, legal, names, {3: (0, 9), 4: (0, 9), 5: (0, 9)}, count=400)

main("E03", run, "For every element-wise entry point the path conditions of each return and of each write to the result are computed from the branches of the inlined function; under unequal sizes no return and no write may be reachable (the operation fails), and under equal sizes the failing branch must be unreachable.")
