from vf import *
from spec import *
from I04 import F
import cmath, ir, num

PRE = """#include <dspbb/Filtering/IIR/Butterworth.hpp>
#include <dspbb/Filtering/IIR/Chebyshev.hpp>
using namespace dspbb;
using T = %s;
template <class P> static inline T value(const P& p, T x) { T y = 1; for (auto r : p.real_roots()) y *= x - r; for (auto r : p.complex_pairs()) y *= (x - r.real()) * (x - r.real()) + r.imag() * r.imag(); return y; }
template <class S> static inline void show(T* o, const S& s, T x) {
	*o++ = s.gain * s.gain * value(s.zeros, x) * value(s.zeros, -x) / (value(s.poles, x) * value(s.poles, -x));
	*o++ = s.gain * value(s.zeros, T(0)) / value(s.poles, T(0));
	*o++ = T(s.zeros.num_roots()); *o++ = T(s.poles.num_roots()); *o++ = T(s.poles.num_real_roots());
	for (auto r : s.poles.real_roots()) *o++ = r;
	for (auto r : s.poles.complex_pairs()) { *o++ = r.real(); *o++ = r.imag(); }
	for (auto r : s.zeros.complex_pairs()) *o++ = r.imag();
}
"""
def cheb2(n, x):
    """T_n(x)^2 / x^(2(n mod 2)) and so on would do; the square is a polynomial in x*x: evaluated at x*x = u"""
    a, b = [rf(1)], [rf(0), rf(1)]
    if n == 0: p = a
    else:
        for _ in range(n - 1):
            c = [rf(0)] + [2 * v for v in b]
            for i, v in enumerate(a): c[i] = c[i] - v
            a, b = b, c
        p = b
    sq = [rf(0)] * (2 * len(p) - 1)
    for i, v in enumerate(p):
        for j, w in enumerate(p): sq[i + j] = sq[i + j] + v * w
    y = rf(0)
    for k in range(len(sq) - 1, -1, -2): y = y * x + sq[k]
    return y
# products kept symbolic, so that high orders stay small
for z in ("mul_", "div_"): ir.KNOWN.add(z)
num.FUN.update({"mul_": lambda a, b: complex(a).real * complex(b).real, "div_": lambda a, b: complex(a).real / complex(b).real})
HIGH = PRE.replace("template <class P> static inline T value", 'extern "C" { T mul_(T, T) noexcept __attribute__((const)); T div_(T, T) noexcept __attribute__((const)); }\ntemplate <class P> static inline T value')
HIGH = re.sub(r"template <class P> static inline T value.*\n", "template <class P> static inline T value(const P& p, T x) { T y = 1; for (auto r : p.real_roots()) y = mul_(y, x - r); for (auto r : p.complex_pairs()) y = mul_(y, mul_(x - r.real(), x - r.real()) + mul_(r.imag(), r.imag())); return y; }\n", HIGH)
HIGH = HIGH.replace("*o++ = s.gain * s.gain * value(s.zeros, x) * value(s.zeros, -x) / (value(s.poles, x) * value(s.poles, -x));", "*o++ = mul_(div_(mul_(s.gain, value(s.zeros, x)), value(s.poles, x)), div_(mul_(s.gain, value(s.zeros, -x)), value(s.poles, -x)));").replace("*o++ = s.gain * value(s.zeros, T(0)) / value(s.poles, T(0));", "*o++ = div_(mul_(s.gain, value(s.zeros, T(0))), value(s.poles, T(0)));")
def chebyshev(n, W):
    """T_n(x)^2 at x^2 = W, any real number"""
    return abs(cmath.cos(n * cmath.acos(cmath.sqrt(W)))) ** 2 * (1 if W >= 0 or n % 2 == 0 else -1)
def high(c, units):
    jobs, meta = [], []
    for n in (7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20) if not c.thorough else tuple(range(7, 21)):
        for fam, call in (("Butterworth", "Butterworth<T>(%d)"), ("Chebyshev1", "Chebyshev1<T>(%d, a[0])"), ("Chebyshev2", "Chebyshev2<T>(%d, a[0])")):
            if fam == "Butterworth" and n < 16: continue
            jobs.append((spec, c, "high_%s_%d" % (fam, n), HIGH % "double" + 'extern "C" void e_x(T* o, const T* a) { const T x = a[1]; show(o, %s, x); }\n' % (call % n), 8, (), (), 8, 0, 0, (), 4000)); meta.append((fam, n))
    for m, (fam, n) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        mem = lambda p, k: 0.05 + 0.85 * p.h("ripple") / 2.0**64 if k == 0 else 0.25 + 1.5 * p.h("x") / 2.0**64
        def rel(p, v, fam=fam, n=n, mem=mem):
            R, x = mem(p, 0), mem(p, 1); W = -x * x
            if fam == "Butterworth": w = 1 / (1 + W ** n); z = 0; g = 1
            elif fam == "Chebyshev1": w = 1 / (1 + (1 / (1 - R) ** 2 - 1) * chebyshev(n, W)); z = 0; g = 1 if n % 2 else 1 - R
            else: w = 1 - 1 / (1 + R * R / (1 - R * R) * chebyshev(n, 1 / W)); z = 2 * (n // 2); g = 1
            v = [complex(y).real for y in v]
            what = "%s of order %d (ripple %.4g): " % (fam, n, R)
            if abs(v[0] - w) > 1e-6 * (1e-3 + abs(w)): return what + "squared magnitude at s = %.4g is %.8g, expected %.8g" % (x, v[0], w)
            if abs(v[1] - g) > 1e-6: return what + "gain at zero frequency is %.8g, expected %.8g" % (v[1], g)
            if v[2:5] != [z, n, n % 2]: return what + "%g zeros, %g poles, %g real poles, expected %d, %d, %d" % (*v[2:5], z, n, n % 2)
            r = v[5:]
            for j in range(n % 2 + n // 2):
                if not r[0 if n % 2 and j == 0 else n % 2 + 2 * (j - n % 2)] < -1e-9: return what + "pole %d is not in the left half plane" % j
            if any(abs(y) < 1e-9 for y in r[n % 2 + 1:n % 2 + n:2] + r[n % 2 + 2 * (n // 2):]): return what + "a pair of roots on the real axis"
        units.append(lambda m=m, fam=fam, n=n, rel=rel, mem=mem: check_rel(c, "%s_%d<double>" % (fam, n), m.fns["e_x"], m, 5 + n % 2 + 2 * (n // 2) + (n // 2 if fam == "Chebyshev2" else 0), rel, 8, where="Filtering/IIR/%s.hpp" % ("Butterworth" if fam[0] == "B" else "Chebyshev"), mem=mem, count=16, obligations=5 + n, total=True))

neg = (lambda x: complex(x).real < -1e-9, "a negative real part")

some = (lambda x: abs(x) > 1e-9, "an imaginary part other than zero")
def run(c):
    N = 9 if c.thorough else 7
    jobs, meta = [], []
    for t, es in (("double", 8),) + ((("float", 4),) if c.thorough else ()):
        X, R = L(1, es), L(0, es)
        W = -X * X  # the squared frequency at s = x
        cases = []
        for n in range(1, N + 1):
            st = [neg] * (n % 2) + [neg, some] * (n // 2)
            cases.append(("Butterworth_%d" % n, "show(o, Butterworth<T>(%d), a[1]);" % n, lambda n=n, W=W, st=st: [1 / (1 + W ** n), rf(1), rf(0), rf(n), rf(n % 2)] + st))
            e = 1 / ((1 - R) * (1 - R)) - 1
            cases.append(("Chebyshev1_%d" % n, "show(o, Chebyshev1<T>(%d, a[0]), a[1]);" % n,
                          lambda n=n, W=W, st=st, e=e, R=R: [1 / (1 + e * cheb2(n, W)), rf(1) if n % 2 else 1 - R, rf(0), rf(n), rf(n % 2)] + st))
            e2 = R * R / (1 - R * R)
            cases.append(("Chebyshev2_%d" % n, "show(o, Chebyshev2<T>(%d, a[0]), a[1]);" % n,
                          lambda n=n, W=W, st=st, e2=e2, R=R: [1 - 1 / (1 + e2 * cheb2(n, 1 / W)), rf(1), rf(2 * (n // 2)), rf(n), rf(n % 2)] + st + [some] * (n // 2)))
        for n in (10, 11, 12, 13, 14, 15, 16, 17):
            st = [neg] * (n % 2) + [neg, some] * (n // 2)
            cases.append(("Butterworth_%d" % n, "show(o, Butterworth<T>(%d), a[1]);" % n, lambda n=n, W=W, st=st: [1 / (1 + W ** n), rf(1), rf(0), rf(n), rf(n % 2)] + st))
        for k in range(0, len(cases), 3):
            part = cases[k:k + 3]
            jobs.append((spec, c, "proto_%s_%d" % (t, k), PRE % t + "".join('extern "C" void e_%s(T* o, const T* a) { %s }\n' % (nm, b) for nm, b, w in part), es)); meta.append((t, es, part))
    units = []
    mem = lambda p, k: 0.05 + 0.85 * p.h("ripple") / 2.0**64 if k == 0 else None
    for m, (t, es, cases) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        for nm, b, w in cases:
            units.append(lambda m=m, t=t, es=es, nm=nm, w=w: check_spec(c, "%s<%s>" % (nm, t), m.fns["e_" + nm], m, w, es, where="Filtering/IIR/%s.hpp" % ("Butterworth" if nm[0] == "B" else "Chebyshev"), mem=mem, tol=1e-5))
    high(c, units)
    c.each(units)

if __name__ == "__main__": main("I05", run, "partial evaluation of the analog prototypes at fixed orders with symbolic ripple; squared magnitude at a symbolic point compared with the defining Butterworth or Chebyshev polynomial, real parts of the poles negative")
