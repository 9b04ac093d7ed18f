from vf import *
from spec import *

PRE = """#include <dspbb/Math/Polynomials.hpp>
#include <optional>
using namespace dspbb;
using T = %s;
using F = FactoredPolynomial<T>;
static inline void set(F& p, const T* a) { for (auto& r : p.real_roots()) r = *a++; for (auto& r : p.complex_pairs()) { r = { a[0], a[1] }; a += 2; } }
static inline T* get(T* o, const F& p) {
	*o++ = T(p.num_real_roots()); *o++ = T(p.num_complex_pairs()); *o++ = T(p.num_complex_roots()); *o++ = T(p.num_roots()); *o++ = T(p.order());
	for (const auto& r : p.real_roots()) *o++ = r;
	for (const auto& r : p.complex_pairs()) { *o++ = r.real(); *o++ = r.imag(); }
	return o;
}
"""
def run(c):
    R = 4 if c.thorough else 3
    jobs, meta = [], []
    for t, es in (("float", 4), ("double", 8)):
        A = lambda k: L(k, es)
        def state(r, p, vals): return [rf(x) for x in (r, p, 2 * p, r + 2 * p, r + 2 * p)] + vals
        cases = []
        def add(nm, body, want): cases.append((nm, body, want))
        shapes = [(r, p) for r in range(R) for p in range(R)]
        for r, p in shapes:
            own = lambda o, r=r, p=p: [A(o + k) for k in range(r + 2 * p)]
            n = r + 2 * p
            mk = "F p; p.resize(%d, %d); set(p, a);" % (r, p)
            add("set_%d_%d" % (r, p), mk + " get(o, p);", state(r, p, own(0)))
            for r2, p2 in shapes:
                v = [A(n), A(n + 1), A(n + 2)]
                res = [A(k) if k < r else v[0] for k in range(r2)]
                for k in range(p2): res += [A(r + 2 * k), A(r + 2 * k + 1)] if k < p else [v[1], v[2]]
                add("resize_%d_%d_to_%d_%d" % (r, p, r2, p2), mk + " p.resize(%d, %d, a[%d], { a[%d], a[%d] }); get(o, p);" % (r2, p2, n, n + 1, n + 2), state(r2, p2, res))
                q = "F q; q.resize(%d, %d); set(q, a + %d);" % (r2, p2, n)
                if (r + p + r2 + p2) % 2 or c.thorough:
                    add("copy_assign_%d_%d_over_%d_%d" % (r, p, r2, p2), mk + q + " F& s = (q = p); set(p, a + 40); o = get(o, q); get(o, p); if (&s != &q) o[0] = T(-1);", state(r, p, own(0)) + state(r, p, own(40)))
                    add("move_assign_%d_%d_over_%d_%d" % (r, p, r2, p2), "F q; q.resize(%d, %d); { %s F& s = (q = std::move(p)); if (&s != &q) o[0] = T(-1); o = get(o, p); } get(o, q);" % (r2, p2, mk), state(0, 0, []) + state(r, p, own(0)))
            for r2 in range(n % 2, n + 1, 2):
                p2 = (n - r2) // 2
                v = [A(n), A(n + 1), A(n + 2)]
                res = [A(k) if k < r else v[0] for k in range(r2)]
                for k in range(p2): res += [A(r + 2 * k), A(r + 2 * k + 1)] if k < p else [v[1], v[2]]
                add("regroup_%d_%d_to_%d" % (r, p, r2), mk + " p.regroup(%d, a[%d], { a[%d], a[%d] }); get(o, p);" % (r2, n, n + 1, n + 2), state(r2, p2, res))
            add("copy_%d_%d" % (r, p), mk + " F q{ p }; set(p, a + 20); o = get(o, q); o = get(o, p); set(q, a + 40); get(o, p);", state(r, p, own(0)) + state(r, p, own(20)) * 2)
            add("copy_outlives_%d_%d" % (r, p), "std::optional<F> q; { %s q.emplace(p); } get(o, *q);" % mk, state(r, p, own(0)))
            add("move_%d_%d" % (r, p), "std::optional<F> q; { %s q.emplace(std::move(p)); o = get(o, p); } get(o, *q);" % mk, state(0, 0, []) + state(r, p, own(0)))
            add("self_assign_%d_%d" % (r, p), mk + " const F& w = p; p = w; get(o, p);", state(r, p, own(0)))
        add("default", "F p; get(o, p);", state(0, 0, []))
        # coefficients
        for n in range(0, R + 2):
            for m in range(0, R + 2):
                add("polynomial_resize_%d_%d" % (n, m), "Polynomial<T> p(a, a + %d); p.resize(%d, a[%d]); *o++ = T(p.size()); *o++ = T(p.order()); for (const auto& x : p.coefficients()) *o++ = x;" % (n, m, n), [rf(m), rf(max(m - 1, 0))] + [A(min(k, n)) for k in range(m)])
        for g in range(0, len(cases), 120):
            part = cases[g:g + 120]
            src = PRE % t + "".join('extern "C" void e_%s(T* o, const T* a) { %s }\n' % (nm, b) for nm, b, w in part)
            jobs.append((spec, c, "fp_%s_%d" % (t, g), src, es)); meta.append((t, es, part))
    units = []
    for m, (t, es, cases) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        for g in range(0, len(cases), 24):
            def unit(m=m, t=t, es=es, part=cases[g:g + 24]):
                for nm, b, w in part: check_spec(c, "%s<%s>" % (nm, t), m.fns["e_" + nm], m, w, es, where="Math/Polynomials.hpp")
            units.append(unit)
    c.each(units)

main("N03", run, "partial evaluation of the compiled storage operations at fixed sizes; the resulting contents are compared as terms over the symbolic roots")
