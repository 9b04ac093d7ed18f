from vf import *
from spec import *
from I04 import F, PI

PRE = """#include <dspbb/Math/FFT.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using T = %s;
struct Values { const T* w; template <class S> void operator()(S&& s) const { for (size_t i = 0; i < s.size(); ++i) s[i] = w[i]; } };
#include <dspbb/Filtering/FIR.hpp>
using namespace dspbb;
static inline BasicSignalView<T, TIME_DOMAIN> out_(T* o, size_t n) { return { o, n }; }
static inline BasicSignalView<const T, TIME_DOMAIN> in_(const T* a, size_t n) { return { a, n }; }
"""
W = 2  # the window starts at this input, 0 and 1 are the band edges
def sinc(i, n, cut):
    x = (i - n // 2) * cut * PI
    return rf(1) if 2 * i == n - 1 else F("sin", x) / x
def low(n, cut, w):
    c = [w[i] * sinc(i, n, cut) for i in range(n)]
    s = sum(c[1:], c[0])
    return [x / s for x in c]
def comp(c): return [(1 if 2 * i == len(c) - 1 else 0) - x for i, x in enumerate(c)]
def shift(c, f): return [2 * F("cos", (i - len(c) // 2) * PI * f) * x for i, x in enumerate(c)]
def hilbert(h):
    """the halfband filter times 2 sin(pi k / 2)"""
    m = len(h) // 2
    return [rf(0) if (i - m) % 2 == 0 else 2 * x if (i - m) % 4 == 1 else -2 * x for i, x in enumerate(h)]
def designs(n, es):
    w = [L(W + i, es) for i in range(n)]
    a, b = L(0, es), L(1, es)
    yield "Lowpass", "Cutoff(a[0])", low(n, a, w)
    yield "Highpass", "Cutoff(a[0])", comp(low(n, a, w))
    bp = shift(low(n, (b - a) / 2, w), (a + b) / 2)
    yield "Bandpass", "Band(a[0], a[1])", bp
    yield "Bandstop", "Band(a[0], a[1])", comp(bp)

ARB = """
namespace dspbb::impl { template <> inline void Ifft<T>(SignalView<T> out, SpectrumView<const std::complex<T>> in) {
	const size_t n = out.size();
	for (size_t k = 0; k < n; ++k) {
		T s = in[0].real();
		for (size_t m = 1; m < in.size(); ++m) s += (n %% 2 == 0 && m == n / 2 ? 1 : 2) * (in[m].real() * std::cos(2 * pi_v<T> * T((m * k) %% n) / T(n)) - in[m].imag() * std::sin(2 * pi_v<T> * T((m * k) %% n) / T(n)));
		out[k] = s / T(n);
	}
} }
struct Poly { const T* c; template <class U> U operator()(U x) const { return U(c[0]) + U(c[1]) * x + U(c[2]) * x * x; } };
"""
def arbitrary(n, es, w):
    import math
    h = n // 2
    X = []
    for m in range(h + 1):
        f = Fraction(m, h)
        X.append(L(0, es) + L(1, es) * rf(f) + L(W_ARB, es) * rf(f * f))
    y = []
    for k in range(n):
        s = X[0]
        for m in range(1, h + 1): s = s + 2 * X[m] * rf(math.cos(2 * math.pi * ((m * k) % n) / n))
        y.append(s / n)
    return [w[i] * y[(i - h) % n] for i in range(n)]
W_ARB = 2
LSQ = """#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using T = %s;
namespace dspbb::fir { // stands in for the solver: shows what it was asked for
template <class R, class WF> void KernelLeastSquares(BasicSignalView<T, TIME_DOMAIN>& out, R r, WF w, size_t grid = 0) { const T f = out[1]; out[0] = r(f); out[2] = w(f); out[4] = T(grid); }
}
#include <dspbb/Filtering/FIR.hpp>
using namespace dspbb;
static inline BasicSignalView<T, TIME_DOMAIN> out_(T* o, size_t n) { return { o, n }; }
"""
def smooth(x):
    x = min(max(x, 0.0), 1.0)
    return 3 * x * x - 2 * x ** 3
def lsq(c, key, fn, m, kind, es):
    """f at 0, edges from 1, weights after them"""
    ne, nw = {"low": (2, 3), "high": (2, 3), "pass": (4, 5), "stop": (4, 5), "hilbert": (0, 0)}[kind]
    def mem(p, k):
        if k == 0:
            e = sorted([0.0, 1.0] + [mem(p, 1 + j) for j in range(ne)] if ne else [0.0, 0.5 - mem(p, 1), 0.5 + mem(p, 1), 1.0])
            g = p.h("gap") % (len(e) - 1)
            return e[g] + (e[g + 1] - e[g]) * (0.05 + 0.9 * p.h("f") / 2.0**64)
        if kind == "hilbert": return (0.05 + 0.4 * p.h("tw") / 2.0**64, 0.3)[k - 1] if k < 3 else None
        if k <= ne: return sorted(0.02 + 0.96 * p.h("e", j) / 2.0**64 for j in range(ne))[k - 1]
        return 0.1 + p.h("w", k) / 2.0**64
    def rel(p, v):
        v = [complex(x).real for x in v]
        f = mem(p, 0)
        e = [mem(p, 1 + j) for j in range(ne)]
        w = [mem(p, 1 + ne + j) for j in range(nw)]
        if kind == "hilbert":
            t = mem(p, 1); e = [0.5 - t, 0.5 + t]; w = [1.0, mem(p, 2), 1.0]
            v[0] /= -2; v[1] /= 2; v[2] /= -2
        step = lambda a, b: smooth((f - a) / (b - a))
        if len(e) == 2: r = step(e[1], e[0]) if kind != "high" else step(e[0], e[1])
        else:
            up = f < (e[1] + e[2]) / 2
            r = (step(e[0], e[1]) if up else step(e[3], e[2])) if kind == "pass" else (step(e[1], e[0]) if up else step(e[2], e[3]))
        ww = w[sum(1 for x in e if f > x)]
        at = "at frequency %.4g with edges %s" % (f, ", ".join("%.4g" % x for x in e))
        if abs(v[0] - r) > 1e-4: return "the desired response %s is %.5g, expected %.5g" % (at, v[0], r)
        if abs(v[1] - ww) > 1e-4: return "the weight %s is %.5g, expected %.5g" % (at, v[1], ww)
        if abs(v[2] - 77) > 1e-6: return "the grid size is %g, expected 77" % v[2]
    check_rel(c, key, fn, m, [0, 2, 4], rel, es, where="Filtering/FIR.hpp", mem=mem, count=60, obligations=3)
SOLVE = """#include <Eigen/Dense>
#include <Eigen/QR>
using T = %s;
namespace Eigen { // stands in for the least squares solution: the product of the weighted system with its right hand side, which shows both
template <> class CompleteOrthogonalDecomposition<Matrix<T, Dynamic, Dynamic>> {
public:
	template <class M> explicit CompleteOrthogonalDecomposition(const M& m) : a(m) {}
	template <class V> Matrix<T, Dynamic, 1> solve(const V& v) const { const Matrix<T, Dynamic, 1> b = v; Matrix<T, Dynamic, 1> x(a.cols()); for (Index j = 0; j < a.cols(); ++j) { T s = 0; for (Index i = 0; i < a.rows(); ++i) s += T(i + 1) * a(i, j) * b(i); x(j) = s; } return x; }
	Matrix<T, Dynamic, Dynamic> a;
};
}
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <dspbb/Filtering/FIR.hpp>
using namespace dspbb;
static inline BasicSignalView<T, TIME_DOMAIN> out_(T* o, size_t n) { return { o, n }; }
struct Lin { const T* c; template <class U> U operator()(U x) const { return U(c[0]) + U(c[1]) * x; } };
"""
def system(n, grid, es):
    import math
    h = (n + 1) // 2
    x = []
    for j in range(h):
        s = rf(0)
        for i in range(grid):
            f = Fraction(i, grid - 1)
            w, r = L(2, es) + L(3, es) * rf(f), L(0, es) + L(1, es) * rf(f)
            s = s + (i + 1) * w * w * r * (rf(1) if j == 0 else rf(2 * math.cos(math.pi * i * j / (grid - 1))))
        x.append(s)
    return [x[h - 1 - i] for i in range(h - 1)] + x

def run(c):
    jobs, meta = [], []
    for t, es in (("double", 8),) + ((("float", 4),) if c.thorough else ()):
        cases = []
        for n in (1, 3, 5, 7) + ((9, 11) if c.thorough else ()):
            for nm, st, want in designs(n, es):
                for k, win in (("function", "Values{ a + %d }" % W), ("signal", "in_(a + %d, %d)" % (W, n))):
                    d = "Fir.%s.Windowed.%s.Window(%s)" % (nm, st, win)
                    cases.append(("%s_%s_%d" % (nm, k, n), "DesignFilter(out_(o, %d), %s);" % (n, d), want))
                    if n == 3: cases.append(("%s_%s_%d_returned" % (nm, k, n), "const auto r = DesignFilter<T, TIME_DOMAIN>(%d, %s); for (auto& x : r) *o++ = x;" % (n, d), want))
        for n in (1, 2, 3, 4, 5, 8, 9):
            x = [L(i, es) for i in range(n)]
            for io, pre, dst in (("out", "", "in_(a, %d)" % n), ("in", "std::copy(a, a + %d, o); " % n, "out_(o, %d)" % n)):
                cases.append(("Mirror_%s_%d" % (io, n), pre + "fir::MirrorResponse(out_(o, %d), %s);" % (n, dst), [(-1) ** i * v for i, v in enumerate(x)]))
                if n % 2:
                    cases.append(("Complementary_%s_%d" % (io, n), pre + "fir::ComplementaryResponse(out_(o, %d), %s);" % (n, dst), comp(x)))
                    cases.append(("Shift_%s_%d" % (io, n), pre + "fir::ShiftResponse(out_(o, %d), %s, a[%d]);" % (n, dst, n), shift(x, L(n, es))))
        for n in [1, 3, 5, 7, 9, 29, 31, 33, 35, 63, 65, 67] + ([11, 13, 15, 17, 37, 61, 69, 95, 97, 99, 127, 129] if c.thorough else []):
            x = [L(i, es) for i in range(n)]
            cases.append(("HilbertOdd_%d" % n, "auto r = out_(o, %d); fir::HalfbandToHilbertOdd(r, in_(a, %d));" % (n, n), hilbert(x)))
            cases.append(("HilbertOdd_in_%d" % n, "std::copy(a, a + %d, o); auto r = out_(o, %d); fir::HalfbandToHilbertOdd(r, r);" % (n, n), hilbert(x)))
        for n in [2, 4, 6, 14, 16, 18, 32, 34] + ([8, 10, 12, 20, 30, 36, 48, 50, 64, 66] if c.thorough else []):
            x = [L(i, es) for i in range(2 * n - 1)]
            cases.append(("HilbertEven_%d" % n, "auto r = out_(o, %d); fir::HalfbandToHilbertEven(r, in_(a, %d));" % (n, 2 * n - 1), hilbert(x)[::2]))
        half = rf(Fraction(1, 2))
        for n in (1, 3, 5, 7):
            for k, win in (("function", "Values{ a + %d }" % W), ("signal", "in_(a + %d, %d)" % (W, n))):
                cases.append(("Hilbert_%s_%d" % (k, n), "DesignFilter(out_(o, %d), Fir.Hilbert.Windowed.Window(%s));" % (n, win), hilbert(low(n, half, [L(W + i, es) for i in range(n)]))))
        for n in (2, 4):
            cases.append(("Hilbert_function_%d" % n, "DesignFilter(out_(o, %d), Fir.Hilbert.Windowed.Window(Values{ a + %d }));" % (n, W), hilbert(low(2 * n - 1, half, [L(W + i, es) for i in range(2 * n - 1)]))[::2]))
        lcases = [("ls_Lowpass", "low", "Fir.Lowpass.LeastSquares.Cutoff(a[1], a[2]).Weight(a[3], a[4], a[5])"), ("ls_Highpass", "high", "Fir.Highpass.LeastSquares.Cutoff(a[1], a[2]).Weight(a[3], a[4], a[5])"),
                  ("ls_Bandpass", "pass", "Fir.Bandpass.LeastSquares.Band(a[1], a[2], a[3], a[4]).Weight(a[5], a[6], a[7], a[8], a[9])"),
                  ("ls_Bandstop", "stop", "Fir.Bandstop.LeastSquares.Band(a[1], a[2], a[3], a[4]).Weight(a[5], a[6], a[7], a[8], a[9])"),
                  ("ls_Hilbert", "hilbert", "Fir.Hilbert.LeastSquares.TransitionWidth(a[1]).TransitionWeight(a[2])")]
        jobs.append((spec, c, "lsq_%s" % t, LSQ % t + "".join('extern "C" void e_%s(T* o, const T* a) { o[1] = a[0]; auto v = out_(o, 11); DesignFilter(v, %s.Grid(77)); }\n' % (nm, d) for nm, kind, d in lcases), es, (), ("-fno-math-errno", "-UNDEBUG")))
        meta.append((t, es, lcases))
        part = []
        for n in (3, 5) + ((7,) if c.thorough else ()):
            for k, win in (("function", "Values{ a + 3 }"), ("signal", "in_(a + 3, %d)" % n)):
                part.append(("Arbitrary_%s_%d" % (k, n), "auto v = out_(o, %d); DesignFilter(v, Fir.Arbitrary.Windowed.Response(Poly{ a }).Window(%s));" % (n, win), arbitrary(n, es, [L(3 + i, es) for i in range(n)])))
        jobs.append((spec, c, "arb_%s" % t, PRE % t + ARB % () + "".join('extern "C" void e_%s(T* o, const T* a) { %s }\n' % (nm, b) for nm, b, w in part), es, (), ("-fno-math-errno", "-UNDEBUG"))); meta.append((t, es, part))
        part = [("solve_%d" % n, "DesignFilter(out_(o, %d), Fir.Arbitrary.LeastSquares.Response(Lin{ a }).Weight(Lin{ a + 2 }));" % n, system(n, 2 * (n + 1), es)) for n in (1, 3)]
        part += [("grid%d_%d" % (g, n), "DesignFilter(out_(o, %d), Fir.Arbitrary.LeastSquares.Response(Lin{ a }).Weight(Lin{ a + 2 }).Grid(%d));" % (n, g), system(n, max(g, (n + 1) // 2), es)) for n, g in ((1, 2), (1, 5), (3, 1), (3, 2), (3, 5))]
        jobs.append((spec, c, "solve_%s" % t, SOLVE % t + "".join('extern "C" void e_%s(T* o, const T* a) { %s }\n' % (nm, b) for nm, b, w in part), es, (), ("-fno-math-errno", "-DEIGEN_DONT_VECTORIZE"))); meta.append((t, es, part))
        for k in range(0, len(cases), 8):
            part = cases[k:k + 8]
            jobs.append((spec, c, "fir_%s_%d" % (t, k), PRE % t + "".join('extern "C" void e_%s(T* o, const T* a) { %s }\n' % (nm, b) for nm, b, w in part), es, (), ("-fno-math-errno", "-UNDEBUG"))); meta.append((t, es, part))
    units = []
    mem = lambda p, k: (0.05 + 0.4 * p.h("lo") / 2.0**64, 0.5 + 0.45 * p.h("hi") / 2.0**64)[k] if k < 2 else 0.2 + p.h("w", k) / 2.0**64
    for m, (t, es, cases) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        for nm, b, w in cases:
            if nm.startswith("ls_"): units.append(lambda m=m, t=t, es=es, nm=nm, b=b: lsq(c, "%s<%s>" % (nm, t), m.fns["e_" + nm], m, b, es)); continue
            units.append(lambda m=m, t=t, es=es, nm=nm, w=w: check_spec(c, "%s<%s>" % (nm, t), m.fns["e_" + nm], m, w, es, where="Filtering/FIR.hpp", mem=mem))
    c.each(units)

if __name__ == "__main__": main("I06", run, "partial evaluation of the windowed designs and FIR band transformations at fixed lengths; every coefficient compared with its definition over a symbolic window, band edge and prototype")
