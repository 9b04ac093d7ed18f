from vf import *
from spec import *
import num, ir, math
from fractions import Fraction

# the transforms of PocketFFT by definition; the roots of unity stay opaque functions of two integers
num.FUN["twc_"] = lambda k, n: math.cos(2 * math.pi * k / n)
num.FUN["tws_"] = lambda k, n: math.sin(2 * math.pi * k / n)
ir.KNOWN.update(("twc_", "tws_"))
from F01 import STUB as _STUB
STUB = _STUB[:_STUB.index("template <class T> void c2c(")].replace("std::complex<T>* o, T fct", "std::complex<T>* o, T fct") + """
extern "C" double twc_(int k, int n) __attribute__((const, nothrow));
extern "C" double tws_(int k, int n) __attribute__((const, nothrow));
template <class T> inline void dft_(size_t n, const T* i, std::complex<T>* o) {
	for (int k = 0; k < int(n / 2 + 1); ++k) {
		T re = 0, im = 0;
		for (int j = 0; j < int(n); ++j) {
			re += i[j] * (k * j %% int(n) ? T(twc_(k * j %% int(n), int(n))) : T(1));
			if (k * j %% int(n)) im -= i[j] * T(tws_(k * j %% int(n), int(n)));
		}
		o[k] = { re, im };
	}
}
template <class T> void c2c(const shape_t& s, const stride_t&, const stride_t&, const shape_t&, bool, const std::complex<T>*, std::complex<T>*, T, size_t = 1);
template <class T> void r2c(const shape_t& s, const stride_t&, const stride_t&, size_t, bool, const T* i, std::complex<T>* o, T, size_t = 1) { dft_(s[0], i, o); }
template <class T> void r2c(const shape_t& s, const stride_t&, const stride_t&, const shape_t&, bool, const T* i, std::complex<T>* o, T, size_t = 1) { dft_(s[0], i, o); }
template <class T> void c2r(const shape_t&, const stride_t&, const stride_t&, size_t, bool, const std::complex<T>*, T*, T, size_t = 1);
template <class T> void c2r(const shape_t&, const stride_t&, const stride_t&, const shape_t&, bool, const std::complex<T>*, T*, T, size_t = 1);
}
"""
# lane by lane, so that the transcendental functions stay calls
LANES = """#include <xsimd/xsimd.hpp>
namespace xsimd {
template <class A, class T, class F> inline batch<T, A> lanes_(const batch<std::complex<T>, A>& z, F f) {
	T re[batch<T, A>::size], im[batch<T, A>::size], r[batch<T, A>::size];
	z.real().store_unaligned(re); z.imag().store_unaligned(im);
	for (size_t i = 0; i < batch<T, A>::size; ++i) r[i] = f(std::complex<T>(re[i], im[i]));
	return batch<T, A>::load_unaligned(r);
}
#define LANES_(T) template <class A> inline batch<T, A> arg(const batch<std::complex<T>, A>& z) { return lanes_<A, T>(z, [](const auto& x) { return std::arg(x); }); } template <class A> inline batch<T, A> abs(const batch<std::complex<T>, A>& z) { return lanes_<A, T>(z, [](const auto& x) { return std::abs(x); }); }
LANES_(float)
LANES_(double)
}
"""
PRE = STUB + LANES.replace("%", "%%") + """#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <dspbb/Math/FFT.hpp>
#include <dspbb/Filtering/MeasureFilter.hpp>
#include <cmath>
using namespace dspbb;
using T = %s;
using C = std::complex<T>;
template <class P> void put(T* o, const P& r, size_t n) {
	*o++ = T(r.first.size()); *o++ = T(r.second.size());
	for (size_t i = 0; i < n; ++i) { *o++ = r.first[i]; *o++ = T(2) + std::cos(r.second[i]); *o++ = T(2) + std::sin(r.second[i]); }
}
"""
def run(c):
    jobs, meta = [], []
    def gen(t):
        es = 4 if t == "float" else 8
        l = lambda k: CX(L(k, es))
        cases = []
        def resp(z):
            z = CX.of(z)
            ph = atom(("f", "carg", z.re, z.im))
            return [atom(("f", "cabs", z.re, z.im)), rf(2) + atom(("f", "cos", ph)), rf(2) + atom(("f", "sin", ph))]
        # impulse responses: the bins of the zero-padded transform
        def dft(n, g, m):
            N = max(n, 2 * g - 1)
            r = [rf(N // 2 + 1)] * 2
            for k in range(m):
                z = CX(0)
                for j in range(n):
                    f = Fraction(k * j, N); z = z + CX(Fraction(math.cos(2 * math.pi * f)), Fraction(-math.sin(2 * math.pi * f))) * l(j)
                r += resp(z)
            return r
        for n, g in ([(1, 1), (1, 2), (1, 4), (2, 1), (2, 2), (3, 1), (3, 2), (3, 5), (4, 1), (4, 2), (4, 3), (5, 2), (5, 3), (6, 2), (6, 4)] + ([(7, 4), (8, 3), (8, 7), (2, 9)] if c.thorough else [])):
            N = max(n, 2 * g - 1); m = N // 2 + 1
            cases.append(("impulse_%d_%d" % (n, g), "put(o, FrequencyResponse(SignalView<const T>(a, %d), %d), %d);" % (n, g, m), lambda n=n, g=g, m=m: dft(n, g, m)))
            if n in (2, 3, 4): cases.append(("impulse_signal_%d_%d" % (n, g), "const Signal<T> s(a, a + %d); put(o, FrequencyResponse(s, %d), %d);" % (n, g, m), lambda n=n, g=g, m=m: dft(n, g, m)))
        for n in (1, 2, 3):
            cases.append(("impulse_default_%d" % n, "put(o, FrequencyResponse(SignalView<const T>(a, %d)), %d);" % (n, 10 * n if n == 1 else 4), lambda n=n: dft(n, 10 * n, 10 if n == 1 else 4)))
        # systems: the value at points of the unit circle from 0 to pi
        def grid(g, H, m=None):
            r = [rf(g)] * 2
            for k in range(m or g):
                w = math.pi * k / (g - 1)
                r += resp(H(CX(Fraction(math.cos(w)), Fraction(math.sin(w)))))
            return r
        conj = lambda z: CX(z.re, rf(0) - z.im)
        def prod(z, r, p, at):
            v = CX(1)
            for i in range(r): v = v * (z - l(at + i))
            for i in range(p): q = CX(L(at + r + 2 * i, es), L(at + r + 2 * i + 1, es)); v = v * (z - q) * (z - conj(q))
            return v
        poly = lambda z, n, at: (lambda v: [v := v * z + l(at + n - 1 - i) for i in range(n)][-1])(CX(0))
        sizes = [(0, 0, 0, 0), (1, 0, 0, 0), (0, 0, 1, 0), (1, 0, 2, 0), (0, 1, 0, 0), (0, 0, 0, 1), (1, 1, 0, 1), (0, 1, 1, 1), (2, 0, 1, 1)]
        gs = (2, 3, 4, 6)
        for q, (zr, zp, pr, pp) in enumerate(sizes):
            mk = "DiscreteZeroPoleGain<T> s; s.gain = a[0]; s.zeros.resize(%d, %d); s.poles.resize(%d, %d); " % (zr, zp, pr, pp)
            for f, r, p, at in (("zeros", zr, zp, 1), ("poles", pr, pp, 9)):
                mk += "".join("s.%s.real_roots()[%d] = a[%d]; " % (f, i, at + i) for i in range(r)) + "".join("s.%s.complex_pairs()[%d] = { a[%d], a[%d] }; " % (f, i, at + r + 2 * i, at + r + 2 * i + 1) for i in range(p))
            H = lambda z, zr=zr, zp=zp, pr=pr, pp=pp: l(0) * prod(z, zr, zp, 1) / prod(z, pr, pp, 9)
            for g in gs if q < 4 else gs[q % 3:q % 3 + 2]: cases.append(("zpk_%d%d%d%d_%d" % (zr, zp, pr, pp, g), mk + "put(o, FrequencyResponse(s, %d), %d);" % (g, g), lambda H=H, g=g: grid(g, H)))
            d = 20 * (1 + max(zr + 2 * zp, pr + 2 * pp))
            if d <= 60: cases.append(("zpk_default_%d%d%d%d" % (zr, zp, pr, pp), mk + "put(o, FrequencyResponse(s), 3);", lambda H=H, d=d: grid(d, H, 3)))
        for nb, na in ((1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (4, 4)):
            mk = "DiscreteTransferFunction<T> s; s.numerator.resize(%d); s.denominator.resize(%d); " % (nb, na) + "".join("s.numerator.coefficients()[%d] = a[%d]; " % (i, i) for i in range(nb)) + "".join("s.denominator.coefficients()[%d] = a[%d]; " % (i, 9 + i) for i in range(na))
            H = lambda z, nb=nb, na=na: poly(z, nb, 0) / poly(z, na, 9)
            for g in (2, 3, 5): cases.append(("tf_%d%d_%d" % (nb, na, g), mk + "put(o, FrequencyResponse(s, %d), %d);" % (g, g), lambda H=H, g=g: grid(g, H)))
            d = 20 * max(nb, na)
            if d <= 60: cases.append(("tf_default_%d%d" % (nb, na), mk + "put(o, FrequencyResponse(s), 3);", lambda H=H, d=d: grid(d, H, 3)))
        for ns in (1, 2):
            for on, od in ((2, 2), (1, 2), (2, 1), (1, 1), (0, 2)):
                mk = "CascadedBiquad<T> s; s.sections.resize(%d); " % ns
                for i in range(ns):
                    mk += "{ auto& q = s.sections[%d]; q.numerator = { a[%d], a[%d], a[%d] }; q.denominator = { a[%d], a[%d] }; q.numOrder = %d; q.denOrder = %d; } " % ((i,) + tuple(5 * i + j for j in range(5)) + (on, od))
                def H(z, ns=ns, on=on, od=od):
                    v = CX(1); xs = [CX(0), CX(1), z, z * z]
                    for i in range(ns): v = v * (l(5 * i) + xs[on] * l(5 * i + 1) + xs[1 + on] * l(5 * i + 2)) / (l(5 * i + 3) + xs[od] * l(5 * i + 4) + xs[1 + od])
                    return v
                for g in (2, 4): cases.append(("biquad_%d_%d%d_%d" % (ns, on, od, g), mk + "put(o, FrequencyResponse(s, %d), %d);" % (g, g), lambda H=H, g=g: grid(g, H)))
                d = 20 * (1 + ns * max(on, od))
                if d <= 60: cases.append(("biquad_default_%d_%d%d" % (ns, on, od), mk + "put(o, FrequencyResponse(s), 3);", lambda H=H, d=d: grid(d, H, 3)))
        for g in range(0, len(cases), 20):
            part = cases[g:g + 20]
            jobs.append((spec, c, "resp_%s_%d" % (t, g), PRE % t + "".join('extern "C" void e_%s(T* o, const T* a) { %s }\n' % (nm, b) for nm, b, w in part), es, (), ("-fno-math-errno",))); meta.append((t, es, part))
    gen("float"); gen("double")
    units = []
    for m, (t, es, cases) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        for g in range(0, len(cases), 5):
            def unit(m=m, t=t, es=es, part=cases[g:g + 5]):
                for nm, b, w in part: check_spec(c, "%s<%s>" % (nm, t), m.fns["e_" + nm], m, w, es, where="Filtering/MeasureFilter.hpp", tol=1e-2 if t == "float" else 1e-6)
            units.append(unit)
    c.each(units)

if __name__ == "__main__": main("M01", run, "partial evaluation of the frequency responses of impulse responses and systems over symbolic samples, roots, coefficients and gains; bins compared with the transform and the system by definition")
