from vf import *
from spec import *
import ell, ir, num

PARTS = [f + q for f in ("ellsn", "ellcn", "elldn") for q in ("re_", "im_")]
for nm in PARTS + ["ellcn_", "elldn_"]: ir.KNOWN.add(nm)
for nm in ("ellK_", "ellsn_", "ellasre_", "ellasim_", "modulus_", "rootof_"): ir.KNOWN.add(nm)
def _r(x): return float(x.real if isinstance(x, complex) else x)
def _mod(k):
    k = _r(k)
    if not 0 <= k < 1: raise ValueError
    return k
num.FUN.update({
    "ellK_": lambda k: ell.K(_mod(k)), 
    "ellasre_": lambda x, y, k: ell.arcsn(complex(_r(x), _r(y)), _mod(k)).real, "ellasim_": lambda x, y, k: ell.arcsn(complex(_r(x), _r(y)), _mod(k)).imag})

for z, f in enumerate(("ellsn", "ellcn", "elldn")):
    num.FUN[f + "_"] = lambda u, k, z=z: ell.jacobi(_r(u), _mod(k))[z]
    num.FUN[f + "re_"] = lambda x, y, k, z=z: ell.jacobi(complex(_r(x), _r(y)), _mod(k))[z].real
    num.FUN[f + "im_"] = lambda x, y, k, z=z: ell.jacobi(complex(_r(x), _r(y)), _mod(k))[z].imag

PRE = """#include <cassert>
#include <cmath>
#include <complex>
#include <limits>
#include <tuple>
using T = %s;
#define PURE noexcept __attribute__((const))
extern "C" { T ellK_(T) PURE; T ellsn_(T, T) PURE; T ellcn_(T, T) PURE; T elldn_(T, T) PURE; T ellsnre_(T, T, T) PURE; T ellsnim_(T, T, T) PURE; T ellcnre_(T, T, T) PURE; T ellcnim_(T, T, T) PURE; T elldnre_(T, T, T) PURE; T elldnim_(T, T, T) PURE; T ellasre_(T, T, T) PURE; T ellasim_(T, T, T) PURE; }
extern "C" { T modulus_() PURE; T rootof_(T, T, T, T, T) PURE; }
namespace dspbb { // the elliptic functions and the root finder are replaced by their definitions
inline T EllipticK(T k) { return ellK_(k); }
#define JACOBI(NAME, f) inline T NAME(T u, T k) { return f##_(u, k); } inline std::complex<T> NAME(std::complex<T> u, T k) { return { f##re_(u.real(), u.imag(), k), f##im_(u.real(), u.imag(), k) }; }
JACOBI(EllipticSN, ellsn) JACOBI(EllipticCN, ellcn) JACOBI(EllipticDN, elldn)
inline std::tuple<T, T, T> EllipticSNCNDN(T u, T k) { return { EllipticSN(u, k), EllipticCN(u, k), EllipticDN(u, k) }; }
inline std::tuple<std::complex<T>, std::complex<T>, std::complex<T>> EllipticSNCNDN(std::complex<T> u, T k) { return { EllipticSN(u, k), EllipticCN(u, k), EllipticDN(u, k) }; }
inline std::complex<T> EllipticArcSN(std::complex<T> x, T k) { return { ellasre_(x.real(), x.imag(), k), ellasim_(x.real(), x.imag(), k) }; }
template <class F> static inline T Bisect(F f, T a, T b, T tolerance = T(0)) { return rootof_(modulus_(), f(modulus_()), a, b, tolerance); }
}
#include <dspbb/Filtering/IIR/Elliptic.hpp>
using namespace dspbb;
template <class P> static inline T value(const P& p, T x) { T y = 1; for (auto r : p.real_roots()) y *= x - r; for (auto r : p.complex_pairs()) y *= (x - r.real()) * (x - r.real()) + r.imag() * r.imag(); return y; }
template <class S> static inline void show(T* o, const S& s, T x) {
	*o++ = s.gain * s.gain * value(s.zeros, x) * value(s.zeros, -x) / (value(s.poles, x) * value(s.poles, -x));
	*o++ = s.gain * value(s.zeros, T(0)) / value(s.poles, T(0));
	*o++ = T(s.zeros.num_roots()); *o++ = T(s.zeros.num_real_roots()); *o++ = T(s.poles.num_roots()); *o++ = T(s.poles.num_real_roots());
	for (auto r : s.poles.real_roots()) *o++ = r;
	for (auto r : s.poles.complex_pairs()) { *o++ = r.real(); *o++ = r.imag(); }
	for (auto r : s.zeros.complex_pairs()) { *o++ = r.real(); *o++ = r.imag(); }
}
"""
def rational(n, k, W):
    """the square of the elliptic rational function of order n and modulus k, as a function of the squared frequency"""
    K = ell.K(k); f = lambda W: 1.0
    zs = []
    for i in range(1, n // 2 + 1):
        s, c, d = ell.jacobi((2 * i - 1) / n * K, k); zs.append((c / d) ** 2)
    def v(W):
        y = W if n % 2 else 1.0
        for z in zs: y *= ((W - z) / (1 - k * k * z * W)) ** 2
        return y
    return v(W) / v(1.0)

def parameters(p, n):
    u = lambda s: p.h(s) / 2.0**64
    for t in range(40):
        k = 0.3 + 0.69 * u("k%d" % t); rip = 0.02 + 0.6 * u("r%d" % t)
        k1 = ell.degree_k1(n, k)
        if k1 > 1e-4: break
    else:
        k = 0.99; k1 = ell.degree_k1(n, k)
    e = math.sqrt(1 / (1 - rip) ** 2 - 1)
    return k, rip, k1 / math.sqrt(k1 * k1 + e * e), e, 0.2 + 1.6 * u("x"), k1

def rootof(k, residual, a, b, tolerance):
    """the root of the degree equation near k, searched for between a and b: k itself, unless the equation does not hold there"""
    d = _r(residual)
    if abs(d) > 1e-6: k = _r(k) - 0.3 * max(-1.0, min(1.0, d)) - math.copysign(0.05, d)
    lo, hi = sorted((_r(a), _r(b)))
    return min(0.99, max(0.01, min(hi, max(lo, _r(k))) + _r(tolerance) / 2))
num.FUN["rootof_"] = rootof

def run(c):
    N = 10 if c.thorough else 7
    jobs, meta = [], []
    for t, es in (("double", 8),) + ((("float", 4),) if c.thorough else ()):
        for n in range(1, N + 1):
            src = PRE % t + 'extern "C" void e_Elliptic_%d(T* __restrict o, const T* __restrict a) { const T x = a[3]; show(o, Elliptic<T>(%d, a[1], a[2]), x); }\n' % (n, n)
            jobs.append((spec, c, "elliptic_%s_%d" % (t, n), src, es)); meta.append((t, es, n))
    units = []
    for m, (t, es, n) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        cache = {}
        def par(p, n=n, cache=cache):
            key = p.h("id")
            if key not in cache: cache[key] = parameters(p, n)
            return cache[key]
        def mem(p, s, par=par): return (None, par(p)[1], par(p)[2], par(p)[4])[s]
        def rel(p, v, par=par, n=n, t=t):
            k, rip, stop, e, x, k1 = par(p)
            tol = 1e-6 if t == "double" else 1e-4
            v = [complex(z) for z in v]
            what = "elliptic order %d, pass band ripple %.4g, stop band ripple %.4g: " % (n, rip, stop)
            if any(abs(z.imag) > 1e-9 for z in v): raise BadPoint("complex")
            v = [z.real for z in v]
            w = [1 / (1 + e * e * rational(n, k, -x * x)), 1.0 if n % 2 else 1 - rip, 2 * (n // 2), 0, n, n % 2]
            names = ("squared magnitude at s = %.4g" % x, "gain at zero frequency", "number of zeros", "number of real zeros", "number of poles", "number of real poles")
            for j in range(6):
                if abs(v[j] - w[j]) > tol * (1 + abs(w[j])): return what + "%s is %.8g, expected %.8g (modulus %.6g, a root of the equation solved)" % (names[j], v[j], w[j], k)
            r = v[6:]
            for j in range(n % 2 + n // 2):
                re_ = r[0] if n % 2 and j == 0 else r[n % 2 + 2 * (j - n % 2)]
                if not re_ < -1e-9: return what + "pole %d has the real part %.4g" % (j, re_)
            for j in range(n // 2):
                im = r[n % 2 + 2 * j + 1]
                if abs(im) < 1e-9: return what + "the pole pair %d is on the real axis" % j
                zr, zi = r[n % 2 + 2 * (n // 2) + 2 * j:][:2]
                if abs(zr) > 1e-9 or abs(zi) < 1 / k - 1e-6: return what + "zero pair %d at %.4g%+.4gj is not in the stop band, which starts at %.6g" % (j, zr, zi, 1 / k)
        def unit(m=m, t=t, es=es, n=n, rel=rel, mem=mem, par=par):
            num.PFUN["modulus_"] = lambda p: par(p)[0]
            check_rel(c, "Elliptic_%d<%s>" % (n, t), m.fns["e_Elliptic_%d" % n], m, 6 + n % 2 + 4 * (n // 2), rel, es, where="Filtering/IIR/Elliptic.hpp", mem=mem, count=16, obligations=7 + n, total=True)
        units.append(unit)
    c.each(units)

if __name__ == "__main__": main("J01", run, "partial evaluation of the elliptic prototype at fixed orders, over the elliptic functions as uninterpreted symbols; the extracted terms compared with the elliptic rational function and the degree equation")
