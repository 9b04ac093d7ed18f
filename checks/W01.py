from vf import *
from mapc import *
import spec as SP

PRE = """#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <dspbb/Filtering/Windowing.hpp>
using namespace dspbb;
template<class T> using V = SignalView<T>;
extern "C" void sink_(const void* p, size_t n);
template <class T, eSignalDomain D> void sink(const BasicSignal<T, D>& s) { sink_(s.data(), s.size()); }
"""
def F(n, *a): return atom(("f", n, *a))
def formulas(t):
    bits = 24 if t in ("f", "cf") else 53
    def K(x):
        import struct
        v = struct.unpack("<f", struct.pack("<f", x))[0] if bits == 24 else x
        return snap(Fraction(v), bits)
    n = arg(1)
    cos = lambda x: F("cos", x)
    ph = lambda i: 2 * PI * i / (n - 1)
    u = lambda i: 2 * i / (n - 1) - 1          # -1 .. 1
    p = arg(2)                                  # window parameter
    return {
        "Hamming": ("hamming", lambda i: K(0.54) - K(0.46) * cos(ph(i))),
        "FlatTop": ("flattop", lambda i: K(0.21557895) - K(0.41663158) * cos(ph(i)) + K(0.277263158) * cos(2 * ph(i)) - K(0.083578947) * cos(3 * ph(i)) + K(0.006947368) * cos(4 * ph(i))),
        "Rectangular": ("rectangular", lambda i: rf(1)),
        "Triangular": ("triangular", lambda i: 1 - F("fabs", u(i))),
        "Blackman": ("blackman", lambda i: K(0.42) - K(0.5) * cos(ph(i)) + K(0.08) * cos(2 * ph(i))),
        "BlackmanHarris": ("blackmanHarris", lambda i: K(0.35875) - K(0.48829) * cos(ph(i)) + K(0.14128) * cos(2 * ph(i)) - K(0.01168) * cos(3 * ph(i))),
        "Gaussian": ("gaussian.sigma(p)", lambda i: F("exp", rf(Fraction(-1, 2)) * (u(i) / p) * (u(i) / p))),
        "Kaiser": ("kaiser.alpha(p)", lambda i: F("cyl_bessel_i", rf(0), PI * p * F("sqrt", F("fmax", rf(0), 1 - u(i) * u(i)))) / F("cyl_bessel_i", rf(0), PI * p)),
        "Lanczos": ("lanczos", lambda i: F("sinc_", PI * u(i))),
    }
def sinc_(x):
    return math.sin(x) / x if abs(x) > 1e-9 else 1.0
import num
num.FUN["sinc_"] = lambda x: sinc_(float(x.real if isinstance(x, complex) else x))

def gains(c):
    """coherent gain = mean of the window, energy gain = mean square"""
    n = arg(3); x = X(0)
    jobs = []
    for t in ("f", "d"):
        A = TY[t][0]
        src = PRE
        for e, b in (("coh", "CoherentGain"), ("ene", "EnergyGain")):
            src += 'extern "C" void e_%s(%s* o, const %s* a, const %s*, size_t n) { *o = %s(BasicSignalView<const %s, TIME_DOMAIN>(a, n)); }\n' % (e, A, A, A, b, A)
        jobs.append((c.ir, "gain_" + t, src))
    for t, m in zip(("f", "d"), c.parallel(jobs)):
        if isinstance(m, Exception): raise m
        for e, w in (("coh", SUM(x) / n), ("ene", SUM(x * x) / n)):
            check_values(c, "e_%s<%s>" % (e, t), m.fns["e_" + e], m, {0: w}, [(arg(1), t)], n, skip_empty=True)

DOLPH = """#include <algorithm>
#include <cmath>
#include <complex>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using T = %s;
template <class It> static inline It turn_(It first, It mid, It last) { T t[16]; const ptrdiff_t n = last - first, s = mid - first; for (ptrdiff_t i = 0; i < n; ++i) t[i] = first[i]; for (ptrdiff_t i = 0; i < n; ++i) first[i] = t[i + s < n ? i + s : i + s - n]; return last - s; }
template <> inline T* std::rotate<T*>(T* first, T* mid, T* last) { return turn_(first, mid, last); } // the standard algorithm, in a form that unrolls
template <> inline Signal<T>::iterator std::rotate<Signal<T>::iterator>(Signal<T>::iterator first, Signal<T>::iterator mid, Signal<T>::iterator last) { return turn_(first, mid, last); }
namespace dspbb::impl { // stands in for the transform: its definition
inline void Ifft(SignalView<T> out, SpectrumView<const std::complex<T>> in) {
	const size_t n = out.size();
	for (size_t j = 0; j < n; ++j) {
		T s = in[0].real();
		for (size_t k = 1; k <= n / 2; ++k) {
			const double p = 2 * 3.14159265358979323846 * double(j) * double(k) / double(n);
			s += (2 * k == n ? T(1) : T(2)) * (in[k].real() * T(std::cos(p)) - in[k].imag() * T(std::sin(p)));
		}
		out[j] = s / T(n);
	}
}
}
#include <dspbb/Filtering/Windowing.hpp>
"""
def dolph_reference(n, att):
    M = n - 1
    b = math.cosh(math.acosh(1 / att) / M)
    def cheb(x):
        if x > 1: return math.cosh(M * math.acosh(x))
        if x < -1: return (-1) ** M * math.cosh(M * math.acosh(-x))
        return math.cos(M * math.acos(x))
    w = [sum(cheb(b * math.cos(math.pi * k / n)) * math.cos(2 * math.pi * k * (j - M / 2) / n) for k in range(n)) for j in range(n)]
    top = max(abs(x) for x in w)
    return [x / top for x in w]
def dolph(c, units):
    sizes = (2, 3, 4, 5, 6, 7) if c.thorough else (2, 3, 4, 5)
    jobs, meta = [], []
    for t in ("f", "d"):
        A, es, _ = TY[t]
        cases = []
        for n in sizes:
            for f, b, nc in (("view", "DolphChebyshevWindow(SignalView<T>(o, %d), a[0]);" % n, 1), ("functor", "SignalView<T> v(o, %d); windows::dolphChebyshev.attenuation(a[0])(v);" % n, 1),
                             ("ret", "auto w = DolphChebyshevWindow<T, TIME_DOMAIN>(%d, a[0]); for (size_t i = 0; i < %d; ++i) o[i] = w[i];" % (n, n), 1),
                             ("functor_ret", "auto w = windows::dolphChebyshev.attenuation(a[0]).operator()<T, TIME_DOMAIN>(%d); for (size_t i = 0; i < %d; ++i) o[i] = w[i];" % (n, n), 1),
                             ("complex_view", "DolphChebyshevWindow(SignalView<std::complex<T>>(reinterpret_cast<std::complex<T>*>(o), %d), a[0]);" % n, 2)):
                cases.append(("dolph_%s_%d" % (f, n), b, n, nc))
        jobs.append((SP.spec, c, "dolph_" + t, DOLPH % A + "".join('extern "C" void e_%s(T* o, const T* a) { %s }\n' % (x[0], x[1]) for x in cases), es, (), ("-fno-math-errno",))); meta.append((t, es, cases))
    for m, (t, es, cases) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        for nm, b, n, nc in cases:
            mem = lambda p, k: (0.5, 0.1, 0.01, 0.001)[p.h("k") % 4] * (0.5 + p.h("a") / 2.0**64)
            def rel(p, v, n=n, nc=nc):
                want = dolph_reference(n, mem(p, 0))
                for j in range(n):
                    for z in range(nc):
                        g = v[nc * j + z]; w = want[j] if z == 0 else 0.0
                        if abs(g - w) > 2e-4: return "sample %d of a Dolph-Chebyshev window of %d with attenuation %.4g is %.6g, expected %.6g" % (j, n, mem(p, 0), complex(g).real, w)
            units.append(lambda nm=nm, t=t, m=m, n=n, nc=nc, es=es, rel=rel: SP.check_rel(c, "%s<%s>" % (nm, t), m.fns["e_" + nm], m, n * nc, rel, es, where="Filtering/Windowing.hpp", mem=mem, obligations=n * nc))

def run(c):
    jobs, meta = [], []
    for t in ("f", "d", "cf", "cd"):
        A, es, nc = TY[t]
        R = "float" if es == 4 else "double"
        src = PRE; ents = []
        for w, (fn, f) in formulas(t).items():
            par = ", %s(p)" % R if "(p)" in fn else ""
            forms = [("view", "%sWindow(V<%s>(o, n)%s);" % (w, A, par), ("arg", 0)), ("ret", "sink(%sWindow<%s, TIME_DOMAIN>(n%s));" % (w, A, ", %s(p)" % A if par and nc == 1 else par), "sink"),
                     ("functor", "V<%s> v(o, n); windows::%s(v);" % (A, fn), ("arg", 0)), ("functor_ret", "sink(windows::%s.operator()<%s, FREQUENCY_DOMAIN>(n));" % (fn, A), "sink")]
            for form, body, out in forms:
                if nc == 2 and form in ("ret", "functor_ret") and par: continue
                e = "e_%s_%s" % (w, form)
                src += 'extern "C" void %s(%s* o, size_t n, double p) { %s }\n' % (e, A, body)
                ents.append((e, f, out))
        jobs.append((c.ir, "win_" + t, src, ["^sink_", "cyl_bessel_i"])); meta.append((t, nc, ents))
    units = []
    for m, (t, nc, ents) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        for e, f, out in ents:
            exp = (lambda i, f=f: [f(i)]) if nc == 1 else (lambda i, f=f: [f(i), rf(0)])
            units.append(lambda e=e, t=t, m=m, out=out, exp=exp: check_map(c, "%s<%s>" % (e, t), m.fns[e], m, out, t, arg(1), exp, ranges={1: (2, 50, 301, 1001), 2: (0.3, 2.5, 0.05, 9.0, 1.0, 0.5, 3.0)}))
    dolph(c, units)
    c.each(units)

    gains(c)

main("W01", run, "The passes of every window generator are composed into one value per sample (index-mapping of the extracted stores) and compared with the window's formula in normal form.")
