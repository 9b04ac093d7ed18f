from vf import *
from ew import *

PRE = """#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <dspbb/Math/Functions.hpp>
using namespace dspbb;
template<class T> using V = BasicSignalView<T, TIME_DOMAIN>;
template<class T> using CV = BasicSignalView<const T, TIME_DOMAIN>;
template<class T> using S = BasicSignal<T, TIME_DOMAIN>;
extern "C" void sink_(const void* p, size_t n);
template<class R, class U> void sink(const BasicSignal<R, TIME_DOMAIN>& s) { static_assert(std::is_same_v<R, U>); sink_(s.data(), s.size()); }
"""
REAL = {"Abs": "fabs", "Log": "log", "Log2": "log2", "Log10": "log10", "Exp": "exp", "Sqrt": "sqrt", "Cbrt": "cbrt", "Sin": "sin", "Cos": "cos", "Tan": "tan", "Asin": "asin", "Acos": "acos", "Atan": "atan",
        "Sinh": "sinh", "Cosh": "cosh", "Tanh": "tanh", "Asinh": "asinh", "Acosh": "acosh", "Atanh": "atanh", "Erf": "erf", "Erfc": "erfc", "TGamma": "tgamma", "LGamma": "lgamma"}
CPLX = {"Log": "clog", "Exp": "cexp", "Sqrt": "csqrt", "Sin": "csin", "Cos": "ccos", "Tan": "ctan", "Asin": "casin", "Acos": "cacos", "Atan": "catan",
        "Sinh": "csinh", "Cosh": "ccosh", "Tanh": "ctanh", "Asinh": "casinh", "Acosh": "cacosh", "Atanh": "catanh"}

def fn1(n, a): return [atom(("f", n, a[0]))]
def fnc(n, a): return [atom(("f", n, a[0], a[1], ("part", p))) for p in (0, 1)]

def entries(t):
    out = []
    cx = t[0] == "c"
    T = TY[t][0]
    rt = t[-1] if cx else t
    def both(name, tr, ex):
        R = TY[tr][0]
        sig = "(%s* o, const %s* a, size_t n)" % (R, T)
        x = lambda e: ex(elem(arg(1), t, e))
        out.append(("e_%s_out_%s" % (name, t), 'extern "C" void e_%s_out_%s%s { %s(V<%s>(o,n), CV<%s>(a,n)); }\n' % (name, t, sig, name, R, T), x, ("arg", 0), tr))
        out.append(("e_%s_ret_%s" % (name, t), 'extern "C" void e_%s_ret_%s%s { sink<%s, %s>(%s(CV<%s>(a,n))); }\n' % (name, t, sig, R, R, name, T), x, "sink", tr))
        if tr == t:
            out.append(("e_%s_inp_%s" % (name, t), 'extern "C" void e_%s_inp_%s%s { %s(V<%s>(o,n), V<%s>(o,n)); }\n' % (name, t, sig, name, R, R), (lambda e: ex(elem(arg(0), t, e))), ("arg", 0), tr))
    if not cx:
        for n, f in REAL.items(): both(n, t, lambda a, f=f: fn1(f, a))
        both("Real", t, lambda a: [a[0]])
        both("Imag", t, lambda a: [rf(0)])
        P = lambda e: [atom(("f", "pow", elem(arg(1), t, e)[0], elem(arg(2), t, rf(0))[0]))]
    else:
        for n, f in CPLX.items(): both(n, t, lambda a, f=f: fnc(f, a))
        both("Log10", t, lambda a: [x * LOG10E for x in fnc("clog", a)])
        both("Abs", rt, lambda a: [atom(("f", "cabs", a[0], a[1]))])
        both("Arg", rt, lambda a: [atom(("f", "carg", a[0], a[1]))])
        both("Real", rt, lambda a: [a[0]])
        both("Imag", rt, lambda a: [a[1]])
        both("Conj", t, lambda a: [a[0], -a[1]])
        P = lambda e: fnc4("cpow", elem(arg(1), t, e), elem(arg(2), t, rf(0)))
    out.append(("e_Pow_out_%s" % t, 'extern "C" void e_Pow_out_%s(%s* o, const %s* a, const %s* p, size_t n) { Pow(V<%s>(o,n), CV<%s>(a,n), *p); }\n' % (t, T, T, T, T, T), P, ("arg", 0), t))
    out.append(("e_Pow_ret_%s" % t, 'extern "C" void e_Pow_ret_%s(%s* o, const S<%s>& a, const %s* p, size_t n) { sink<%s, %s>(Pow(a, *p)); }\n' % (t, T, T, T, T, T),
                (lambda e, P=P: P(e)), "sink", t))
    return out

def fnc4(n, a, b): return [atom(("f", n, a[0], a[1], b[0], b[1], ("part", p))) for p in (0, 1)]

def run(c):
    variants = [("", ())] + ([("avx2", ("-mavx2", "-mfma"))] if c.thorough else [])
    jobs, meta = [], []
    for tag, fl in variants:
        for t in ("f", "cf", "d", "cd") if True else ():
            es = entries(t)
            h = (len(es) + 1) // 2
            for part, sub in enumerate((es[:h], es[h:])):
                jobs.append((c.ir, "m%s%d%s" % (t, part, tag), PRE + "".join(x[1] for x in sub), ["^sink_"], True, fl))
                meta.append((tag, sub))
    mods = c.parallel(jobs)
    ne = 0
    for m, (tag, es) in zip(mods, meta):
        if isinstance(m, Exception): raise m
        for name, code, ex, out, tout in es:
            ne += 1
            n = arg(3) if name.startswith("e_Pow") else arg(2)
            args = None
            if name.startswith("e_Pow_ret"):
                # operand is an owning signal: its element storage and size are the vector's begin/end fields
                es_ = TY[tout][1] * TY[tout][2]
                b, e = atom(("load", arg(1), 8)), atom(("load", arg(1) + 8, 8))
                pw = elem(arg(2), tout, rf(0))
                ex2 = (lambda i: [atom(("f", "pow", elem(b, tout, i)[0], pw[0]))]) if len(pw) == 1 else (lambda i: fnc4("cpow", elem(b, tout, i), pw))
                check_elementwise(c, name, m.fns[name], m, out, tout, (e - b) / es_, ex2)
                continue
            check_elementwise(c, name + (":" + tag if tag else ""), m.fns[name], m, out, tout, n, ex)
    c.cov["entries"] = ne

main("E02", run, "Every element-wise mathematical function is inlined to IR with the library/SIMD primitives as opaque named functions; each stored element must be the same-named function of the same-index operand element on both the vector and the scalar path, stores must tile [0,n) exactly, and operands are read before being overwritten.")
