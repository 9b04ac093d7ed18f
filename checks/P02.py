from vf import *
from spec import *
import itertools

PRE = """#include <dspbb/Math/Polynomials.hpp>
using namespace dspbb;
using T = %s; using C = std::complex<T>;
using F = FactoredPolynomial<T>;
static inline void show(T* o, const F& p) {
	*o++ = T(p.num_roots()); *o++ = T(p.num_real_roots()); *o++ = T(p.num_complex_pairs()); *o++ = T(p.order());
	for (const auto& r : p.real_roots()) *o++ = r;
	for (const auto& r : p.complex_pairs()) { *o++ = r.real(); *o++ = r.imag(); }
}
"""
KINDS = [(1.0, 0.0), (0.25, 2.0), (0.25, -2.0), (0.0, 1.0), (0.0, -1.0), (-0.25, 2.0)]
def valid(l):
    from collections import Counter
    n = Counter(l)
    return all(n[z] == n[(z[0], -z[1] if z[1] else 0.0)] for z in l)
def expected(l, es):
    re_ = [L(i, es) for i, z in enumerate(l) if z[1] == 0]; cx = [z for z in l if z[1] > 0]
    return [len(l), len(re_), len(cx), len(l)] + re_ + [x for z in cx for x in z]
def lists(thorough):
    out = [()]
    for n in range(1, 4): out += list(itertools.product(KINDS[:6] if n == 3 else KINDS, repeat=n)) if n < 3 else [l for l in itertools.product(KINDS[:5], repeat=3)]
    for l in itertools.combinations_with_replacement(KINDS, 4):
        out.append(l)
        if len(set(l)) > 1: out.append((l[2], l[0], l[3], l[1]))
    if thorough:
        for l in itertools.combinations_with_replacement(KINDS[:5], 5): out += [l, l[::-1]]
    r, u, d, v, w = KINDS[:5]
    out += [(u, u, u, d, d, d), (u, d, v, w, u, d), (u, u, d, r, d, r), (u, u, u, u, d, d), (u, u, u, d, d), (u, u, u, d, r), (v, w, u, d, r, r), (w, v, d, u, r), (d, d, d, u), (u, u, u, d), (u, v, d, w, r, u), (u, v, w, d, d, u)]
    seen = []
    for l in out:
        if l not in seen: seen.append(l)
    return seen

def run(c):
    jobs, meta = [], []
    for t, es in (("double", 8),) + ((("float", 4),) if c.thorough else ()):
        ls = lists(c.thorough)
        for k in range(0, len(ls), 60):
            src = PRE % t; cases = []
            for j, l in enumerate(ls[k:k + 60]):
                arr = ", ".join("C(T(%r), T(%r))" % z if z[1] else "C(a[%d])" % i for i, z in enumerate(l))
                via = "F p{ %s };" % arr if (j % 3 or not l) else "const C in[] = { %s }; F p(in, in + %d);" % (arr, len(l))
                src += 'extern "C" void e_r%d(T* o, const T* a) { %s show(o, p); }\n' % (k + j, via)
                cases.append(("e_r%d" % (k + j), l))
            jobs.append((spec, c, "roots_%s_%d" % (t, k), src, es)); meta.append((t, es, cases))
    units = []
    for m, (t, es, cases) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        def unit(m=m, t=t, es=es, cases=cases):
            for nm, l in cases:
                key = "roots %s<%s>" % (", ".join("%g%+gi" % z for z in l) or "none", t)
                if valid(l): check_spec(c, key, m.fns[nm], m, [x if isinstance(x, RF) else rf(Fraction(x)) for x in expected(l, es)], es, where="Math/Polynomials.hpp")
                else: check_never(c, key, m.fns[nm], m, es, where="Math/Polynomials.hpp", what="rejected")
        units.append(unit)
    c.each(units)

if __name__ == "__main__": main("P02", run, "partial evaluation of construction from every list of roots over a set of real and complex values up to a length: rejected exactly when unbalanced, otherwise the stored roots compared with the list")
