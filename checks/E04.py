from vf import *
from contract import *

PRE = """#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <dspbb/Primitives/SignalArithmetic.hpp>
#include <dspbb/Math/Functions.hpp>
#include <dspbb/Math/FFT.hpp>
#include <dspbb/Math/DotProduct.hpp>
#include <dspbb/Math/Statistics.hpp>
#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Math/OverlapAdd.hpp>
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/IIR.hpp>
#include <dspbb/Filtering/Polyphase.hpp>
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Math/Rational.hpp>
#include <dspbb/LTISystems/Systems.hpp>
using namespace dspbb;
struct Flat { template <class S> void operator()(S&&) const {} };
template<class T> using V = SignalView<T>;
template<class T> using CV = SignalView<const T>;
template<class T> using F = SpectrumView<T>;
"""
# the work behind the size checks stays calls
WORK = ["dspbb::kernels::", "pocketfft_dspbb::", "dspbb::impl::ShiftFilterState", "dspbb::impl::ola::OptimalPracticalSize", "dspbb::fir::impl::", "std::vector<", "dspbb::impl::Prototype", "dspbb::Halfband2", "gcd"]
def run(c):
    jobs, meta = [], []
    R, A, B, X = 3, 4, 5, 6
    conv = lambda a, b: a + b - 1 if a and b else 0
    central = lambda a, b: max(a, b) - min(a, b) + 1
    for t in ("float", "double") if c.thorough else ("float",):
        E = []
        C = "std::complex<%s>" % t
        o, a, b = "V<%s>(o, r)" % t, "CV<%s>(a, na)" % t, "CV<%s>(b, nb)" % t
        oc, ac = "V<%s>((%s*)o, r)" % (C, C), "CV<%s>((const %s*)a, na)" % (C, C)
        fo, fi = "F<%s>((%s*)o, r)" % (C, C), "F<const %s>((const %s*)a, na)" % (C, C)
        def add(n, body, legal, **ranges): E.append((n, body, legal, ranges))
        add("DotProduct", "o[0] = DotProduct(%s, %s);" % (a, b), lambda v: v["a"] == v["b"])
        add("DotProduct_complex", "((%s*)o)[0] = DotProduct(%s, %s);" % (C, ac, b), lambda v: v["a"] == v["b"])
        add("Covariance", "o[0] = Covariance(%s, %s);" % (a, b), lambda v: v["a"] == v["b"] if v["a"] and v["b"] else None)
        add("CorrectedCovariance", "o[0] = CorrectedCovariance(%s, %s);" % (a, b), lambda v: v["a"] == v["b"] and v["a"] >= 2)
        add("Correlation", "o[0] = Correlation(%s, %s);" % (a, b), lambda v: v["a"] == v["b"] if v["a"] and v["b"] else None)
        for nm, n in (("CorrectedVariance", 2), ("CorrectedStandardDeviation", 2), ("CorrectedSkewness", 3), ("CorrectedKurtosis", 4)):
            add(nm, "o[0] = %s(%s);" % (nm, a), lambda v, n=n: v["a"] >= n)
        for nm in ("Max", "Min"): add(nm, "o[0] = %s(%s);" % (nm, a), lambda v: v["a"] > 0)
        add("Fft_real", "Fft(%s, %s);" % (fo, a), lambda v: v["r"] in (v["a"], v["a"] // 2 + 1) if v["a"] else None)
        add("Fft_complex", "Fft(%s, %s);" % (fo, ac), lambda v: v["r"] == v["a"])
        add("Ifft_real", "Ifft(%s, %s);" % (o, fi), lambda v: v["a"] in (v["r"], v["r"] // 2 + 1) if v["r"] else None)
        add("Ifft_complex", "Ifft(%s, %s);" % (oc, fi), lambda v: v["r"] == v["a"])
        add("FftShift", "FftShift(%s, %s);" % (fo, fi), lambda v: v["r"] == v["a"])
        add("IfftShift", "IfftShift(%s, %s);" % (fo, fi), lambda v: v["r"] == v["a"])
        ok = lambda v: v["a"] > 0 and v["b"] > 0
        for f, extra in (("Convolution", ""), ("OverlapAdd", ", 64")):
            add(f + "_offset", "%s(%s, %s, %s, x%s);" % (f, o, a, b, extra), lambda v: v["x"] + v["r"] <= conv(v["a"], v["b"]) if ok(v) else None)
            add(f + "_offset_add", "%s(%s, %s, %s, x%s, false);" % (f, o, a, b, extra), lambda v: v["x"] + v["r"] <= conv(v["a"], v["b"]) if ok(v) else None)
            add(f + "_full", "%s(%s, %s, %s, CONV_FULL%s);" % (f, o, a, b, extra), lambda v: v["r"] == conv(v["a"], v["b"]) if ok(v) else None)
            add(f + "_central", "%s(%s, %s, %s, CONV_CENTRAL%s);" % (f, o, a, b, extra), lambda v: v["r"] == central(v["a"], v["b"]) if ok(v) else None)
        add("OverlapAdd_chunk", "OverlapAdd(%s, %s, %s, 0, x + 1);" % (o, a, b), lambda v: v["x"] + 1 >= 2 * min(v["a"], v["b"]) - 1 if ok(v) and v["r"] <= conv(v["a"], v["b"]) else None, x=(0, 15))
        for m, e in (("FILTER_CONV", ""), ("FILTER_OLA", ", 64")):
            add("Filter_state_" + m[7:], "auto s = V<%s>(st, x); Filter(%s, %s, %s, s, %s%s);" % (t, o, a, b, m, e), lambda v: v["r"] == v["a"] and v["x"] == v["b"] - 1 if ok(v) and v["b"] > 1 else None)
            add("Filter_full_" + m[7:], "Filter(%s, %s, %s, CONV_FULL, %s%s);" % (o, a, b, m, e), lambda v: v["r"] == conv(v["a"], v["b"]) if ok(v) else None)
            add("Filter_central_" + m[7:], "Filter(%s, %s, %s, CONV_CENTRAL, %s%s);" % (o, a, b, m, e), lambda v: v["r"] == central(v["a"], v["b"]) if ok(v) else None)
        add("MirrorResponse", "fir::MirrorResponse(%s, %s);" % (o, a), lambda v: v["r"] == v["a"])
        add("ComplementaryResponse", "fir::ComplementaryResponse(%s, %s);" % (o, a), lambda v: v["a"] % 2 == 1 if v["r"] == v["a"] else None)
        add("ShiftResponse", "fir::ShiftResponse(%s, %s, b[0]);" % (o, a), lambda v: v["r"] == v["a"])
        add("HalfbandToHilbertOdd", "auto w = %s; fir::HalfbandToHilbertOdd(w, %s);" % (o, a), lambda v: v["a"] % 2 == 1 and v["r"] == v["a"])
        add("HalfbandToHilbertEven", "auto w = %s; fir::HalfbandToHilbertEven(w, %s);" % (o, a), lambda v: v["r"] % 2 == 0 and 2 * v["r"] - 1 == v["a"] if v["r"] else None, a=(0, 19))
        add("PolyphaseDecompose", "PolyphaseDecompose(%s, %s, x + 1);" % (o, a), lambda v: v["r"] == v["a"] if v["a"] else None)
        add("iir_Filter", "Filter(%s, %s, *sys, *df);" % (o, a), lambda v: v["r"] == v["a"])
        add("Decimate", "Decimate(%s, %s, x + 1);" % (o, a), lambda v: v["r"] == -(-v["a"] // (v["x"] + 1)))
        add("Expand", "Expand(%s, %s, x + 1);" % (o, a), lambda v: v["r"] == v["a"] * (v["x"] + 1), x=(0, 3))
        show = "const auto q = %s; auto w = V<" + t + ">(o, 2); w[0] = T(q.size()); w[1] = T(q.data() - a);"
        add("view_subsignal", ("using T = %s; " % t + show) % (a + ".subsignal(x)"), lambda v: v["x"] <= v["a"])
        add("view_subsignal_count", ("using T = %s; " % t + show) % (a + ".subsignal(x, nb)"), lambda v: v["x"] + v["b"] <= v["a"])
        add("view_first", ("using T = %s; " % t + show) % (a + ".first(x)"), lambda v: v["x"] <= v["a"])
        add("view_last", ("using T = %s; " % t + show) % (a + ".last(x)"), lambda v: v["x"] <= v["a"])
        for band, args in (("Lowpass", ".Cutoff(st[0])"), ("Highpass", ".Cutoff(st[0])"), ("Bandpass", ".Band(st[0], st[1])"), ("Bandstop", ".Band(st[0], st[1])")):
            add("DesignFilter_%s_window" % band, "auto w = %s; DesignFilter(w, Fir.%s.Windowed.Window(%s));" % (o, band, a), lambda v: v["r"] % 2 == 1 and v["r"] == v["a"])
            add("DesignFilter_%s" % band, "auto w = %s; DesignFilter(w, Fir.%s.Windowed.Window(Flat{}));" % (o, band), lambda v: v["r"] % 2 == 1)
        for band in ("Bandpass", "Bandstop"):
            for m in ("Butterworth", "Chebyshev1.Band(0.25f, 0.75f)", "Chebyshev2.Band(0.25f, 0.75f)", "Elliptic.Band(0.25f, 0.75f)"):
                add("DesignFilter_%s_%s" % (band, m.split(".")[0]), "o[0] = DesignFilter<%s>(x, Iir.%s.%s).gain;" % (t, band, m), lambda v: v["x"] % 2 == 0)
        add("Rational", "const Rational<int64_t> q{ int64_t(na), int64_t(x) }; o[0] = %s(q.Numerator());" % t, lambda v: v["x"] > 0)
        for k, part in enumerate(([e for e in E if "OverlapAdd" not in e[0] and "OLA" not in e[0]], [e for e in E if "OverlapAdd" in e[0] or "OLA" in e[0]])):
          src = PRE
          for n, body, legal, ranges in part:
            src += 'extern "C" void e_%s_%s(%s* o, const %s* a, const %s* b, size_t r, size_t na, size_t nb, size_t x, %s* st, const DiscreteTransferFunction<%s>* sys, DirectFormI<%s>* df) { %s }\n' % (n, t, t, t, t, t, t, t, body)
          jobs.append((c.ir, "m_%s_%d" % (t, k), src, WORK + (["dspbb::(impl::)?I?[Ff]ft<", "dspbb::operator[-*+/]=?<dspbb::Basic", "dspbb::(Add|Multiply|Conj|Subtract)<", "std::(fill|copy)<"] if k else []), True, ("-UNDEBUG",), None, (), "^e_", False, ("--unrec", "2"))); meta.append((t, part))
    for m, (t, E) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        for n, body, legal, ranges in E:
            e = "e_%s_%s" % (n, t)
            rg = {R: (0, 9), A: (0, 9), B: (0, 6), X: (0, 9)}
            for k, v in ranges.items(): rg[{"r": R, "a": A, "b": B, "x": X}[k]] = v
            names = {"r": R, "a": A, "b": B, "x": X}
            check_contract(c, e, m.fns[e], m, legal, names, rg, bases=(("arg", 0),), count=600, accept=n != "iir_Filter", normal_exits=True)

if __name__ == "__main__": main("E04", run, "path conditions of every return and of every write to the result, from the branches of the inlined entry points compiled with assertions; compared with the size contract over sampled size combinations")
