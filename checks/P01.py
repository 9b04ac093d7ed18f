from vf import *
from spec import *

PRE = """#include <dspbb/Math/Polynomials.hpp>
using namespace dspbb;
using T = %s; using C = std::complex<T>;
using F = FactoredPolynomial<T>;
static inline void set(F& p, const T* a) { for (auto& r : p.real_roots()) r = *a++; for (auto& r : p.complex_pairs()) { r = { a[0], a[1] }; a += 2; } }
static inline T* put(T* o, C z) { *o++ = z.real(); *o++ = z.imag(); return o; }
"""
def horner(cs, x):
    y = CX(0)
    for k in reversed(cs): y = x * y + k
    return y
def roots(es, r, p): return [CX(L(k, es)) for k in range(r)] + [z for k in range(p) for z in (CX(L(r + 2 * k, es), L(r + 2 * k + 1, es)), CX(L(r + 2 * k, es), -L(r + 2 * k + 1, es)))]
def expand(zs):
    co = [CX(1)]
    for z in zs: co = [(co[k - 1] if k > 0 else CX(0)) - (co[k] * z if k < len(co) else CX(0)) for k in range(len(co) + 1)]
    return co
def product(zs, x):
    y = CX(1)
    for z in zs: y = y * (x - z)
    return y

def run(c):
    N, R = (7, 4) if c.thorough else (5, 3)
    jobs, meta = [], []
    for t, es in (("float", 4), ("double", 8)):
        X, Z = CX(L(30, es)), CX(L(30, es), L(31, es))
        cases = []
        for n in range(N + 1):
            mk = "Polynomial<T> p(a, a + %d); " % n
            cs = [CX(L(k, es)) for k in range(n)]
            cases.append(("eval_%d" % n, mk + "*o = p(a[30]);", lambda cs=cs, X=X: [horner(cs, X).re]))
            if n <= 5: cases.append(("eval_complex_%d" % n, mk + "put(o, p(C{ a[30], a[31] }));", lambda cs=cs, Z=Z: [horner(cs, Z).re, horner(cs, Z).im]))
        for r in range(R + 1):
            for p in range(R + 1):
                if r + 2 * p > 6: continue
                mk = "F p; p.resize(%d, %d); set(p, a); " % (r, p)
                cases.append(("eval_factored_%d_%d" % (r, p), mk + "*o = p(a[30]);", lambda r=r, p=p, X=X, es=es: [product(roots(es, r, p), X).re]))
                if r + 2 * p <= 4: cases.append(("eval_factored_complex_%d_%d" % (r, p), mk + "put(o, p(C{ a[30], a[31] }));", lambda r=r, p=p, Z=Z, es=es: [product(roots(es, r, p), Z).re, product(roots(es, r, p), Z).im]))
                cases.append(("expand_%d_%d" % (r, p), mk + "const auto q = ExpandPolynomial(p); *o++ = T(q.size()); for (const auto& x : q.coefficients()) *o++ = x;",
                              lambda r=r, p=p, es=es: [rf(r + 2 * p + 1)] + [z.re for z in expand(roots(es, r, p))]))
        src = PRE % t + "".join('extern "C" void e_%s(T* o, const T* a) { %s }\n' % (nm, b) for nm, b, w in cases)
        jobs.append((spec, c, "poly_%s" % t, src, es)); meta.append((t, es, cases))
    units = []
    for m, (t, es, cases) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        for g in range(0, len(cases), 4):
            def unit(m=m, t=t, es=es, part=cases[g:g + 4]):
                for nm, b, w in part: check_spec(c, "%s<%s>" % (nm, t), m.fns["e_" + nm], m, w, es, where="Math/Polynomials.hpp")
            units.append(unit)
    c.each(units)

if __name__ == "__main__": main("P01", run, "partial evaluation of polynomial evaluation and expansion at fixed degrees; normal forms over symbolic coefficients, roots and argument compared with the definition")
