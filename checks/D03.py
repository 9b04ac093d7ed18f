from vf import *
from probe import *

HEAD = """#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Math/OverlapAdd.hpp>
#include <dspbb/Math/DotProduct.hpp>
#include <dspbb/Math/Functions.hpp>
#include <dspbb/Math/Statistics.hpp>
#include <dspbb/Math/FFT.hpp>
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/IIR.hpp>
#include <dspbb/Filtering/Polyphase.hpp>
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Filtering/Windowing.hpp>
#include <dspbb/Generators/Spaces.hpp>
#include <dspbb/Generators/Waveforms.hpp>
using namespace dspbb;
using f = float; using d = double; using cf = std::complex<float>; using cd = std::complex<double>;
constexpr auto TM = TIME_DOMAIN; constexpr auto FQ = FREQUENCY_DOMAIN; constexpr auto QF = QUEFRENCY_DOMAIN;
template <class T, eSignalDomain D> using S = BasicSignal<T, D>; template <class T, eSignalDomain D> using V = BasicSignalView<T, D>; template <class T, eSignalDomain D> using K = BasicSignalView<const T, D>;
template <class T> T& o();
template <class A, class B> constexpr bool same = std::is_same_v<A, B>;
#define ALL
"""
def run(c):
    P = []
    def T(key, expr, ty, why="the result has the element type and domain of the operation"): P.append((key, "static_assert(same<decltype(%s), %s>);" % (expr, ty), True, why))
    def A(key, cond, why): P.append((key, "static_assert(%s);" % cond, True, why))
    prod = {("f", "f"): "f", ("d", "d"): "d", ("f", "cf"): "cf", ("cf", "f"): "cf", ("cf", "cf"): "cf", ("d", "cd"): "cd", ("cd", "d"): "cd", ("cd", "cd"): "cd", ("f", "d"): "d", ("d", "f"): "d"}
    kinds = [("S", "S"), ("V", "K"), ("K", "V"), ("S", "K"), ("K", "S")]
    kshort = kinds if c.thorough else kinds[:1] + kinds[2:3]
    for (x, y), r in prod.items():
        for D in ("TM", "FQ"):
            for p, q in (kinds if c.thorough or (x, y) in (("f", "cf"), ("cf", "f")) else kshort):
                a, b = "o<%s<%s, %s>>()" % (p, x, D), "o<%s<%s, %s>>()" % (q, y, D)
                k = "%s<%s>,%s<%s> %s" % (p, x, q, y, D)
                R = "S<%s, %s>" % (r, D)
                for op in "+-*/": T("operator%s(%s)" % (op, k), "%s %s %s" % (a, op, b), R)
                if D == "TM":
                    for fn in ("Convolution", "OverlapAdd"):
                        if fn == "OverlapAdd" and "d" in (x, y) and "f" in (x, y): continue
                        for nm, e in (("full", "CONV_FULL"), ("central", "CONV_CENTRAL"), ("range", "1, 1")): T("%s %s(%s)" % (fn, nm, k), "%s(%s, %s, %s)" % (fn, a, b, e), R)
                    for cv in ("CONV_FULL", "CONV_CENTRAL"):
                        for ft in ("FILTER_CONV", "FILTER_OLA"):
                            if ft == "FILTER_OLA" and "d" in (x, y) and "f" in (x, y): continue
                            T("Filter %s %s(%s)" % (cv, ft, k), "Filter(%s, %s, %s, %s)" % (a, b, cv, ft), R)
                    T("DotProduct(%s)" % k, "DotProduct(%s, %s)" % (a, b), r)
    for (x, y), r in prod.items():
        for p in ("S", "K", "V"):
            a, b = "o<%s<%s, FQ>>()" % (p, x), "o<%s>()" % y
            if y == "d" and x in ("cf",): continue
            for op in "+-*/":
                T("operator%s(%s<%s>,%s)" % (op, p, x, y), "%s %s %s" % (a, op, b), "S<%s, FQ>" % r); T("operator%s(%s,%s<%s>)" % (op, y, p, x), "%s %s %s" % (b, op, a), "S<%s, FQ>" % r)
    for x in ("f", "d", "cf", "cd"):
        re = x[-1]
        for p in ("S", "V", "K"):
            for D in ("TM", "FQ", "QF"):
                a = "o<%s<%s, %s>>()" % (p, x, D)
                for fn in ("Abs", "Arg", "Real", "Imag"): T("%s(%s<%s> %s)" % (fn, p, x, D), "%s(%s)" % (fn, a), "S<%s, %s>" % (re, D))
                T("Conj(%s<%s> %s)" % (p, x, D), "Conj(%s)" % a, "S<c%s, %s>" % (re, D))
                if D != "QF" or c.thorough:
                    for fn in ["Exp", "Log", "Log10", "Sqrt", "Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Sinh", "Cosh", "Tanh", "Asinh", "Acosh", "Atanh"] + ([] if x[0] == "c" else ["Log2", "Cbrt", "Erf", "Erfc", "TGamma", "LGamma"]):
                        T("%s(%s<%s> %s)" % (fn, p, x, D), "%s(%s)" % (fn, a), "S<%s, %s>" % (x, D))
            a = "o<%s<%s, TM>>()" % (p, x)
            T("Decimate(%s<%s>)" % (p, x), "Decimate(%s, 2)" % a, "S<%s, TM>" % x); T("Expand(%s<%s>)" % (p, x), "Expand(%s, 2)" % a, "S<%s, TM>" % x)
            for fn in ("Sum", "Mean", "SumSquare", "MeanSquare", "RootMeanSquare"): T("%s(%s<%s>)" % (fn, p, x), "%s(%s)" % (fn, a), x, "a statistic has the element type of its operand")
            if x[0] != "c":
                for fn in ("Max", "Min", "StandardDeviation", "Variance", "Skewness", "Kurtosis", "CorrectedStandardDeviation", "CorrectedVariance", "CorrectedSkewness", "CorrectedKurtosis"): T("%s(%s<%s>)" % (fn, p, x), "%s(%s)" % (fn, a), x, "a statistic has the element type of its operand")
                T("Covariance(%s<%s>)" % (p, x), "Covariance(%s, %s)" % (a, a), x); T("Correlation(%s<%s>)" % (p, x), "Correlation(%s, %s)" % (a, a), x)
            for q, y in (("f", "f"), ("d", "d")):
                if x[-1] != y: continue
                T("Interpolate(%s<%s>)" % (p, x), "Interpolate(%s, o<PolyphaseView<const %s, TM>>(), 1, 1)" % (a, y), "S<%s, TM>" % x)
                for nm, e in (("full", "CONV_FULL"), ("central", "CONV_CENTRAL"), ("range", "{1, 1}, 1")): T("Resample %s(%s<%s>)" % (nm, p, x), "Resample(%s, o<PolyphaseView<const %s, TM>>(), Rational<int64_t>{1, 2}, %s)" % (a, y, e), "S<%s, TM>" % x)
    for x in ("f", "d"):
        for p in ("S", "K"):  # the transforms deduce const views only; a mutable view has to be passed as a const view
            t, z, s = "o<%s<%s, TM>>()" % (p, x), "o<%s<c%s, TM>>()" % (p, x), "o<%s<c%s, FQ>>()" % (p, x)
            for nm, e in (("full", "FFT_FULL"), ("half", "FFT_HALF")): T("Fft %s(%s<%s>)" % (nm, p, x), "Fft(%s, %s)" % (t, e), "S<c%s, FQ>" % x)
            T("Fft(%s<c%s>)" % (p, x), "Fft(%s)" % z, "S<c%s, FQ>" % x); T("Ifft(%s<c%s>)" % (p, x), "Ifft(%s)" % s, "S<c%s, TM>" % x); T("Ifft full(%s<c%s>)" % (p, x), "Ifft(%s, FFT_FULL)" % s, "S<%s, TM>" % x); T("Ifft half(%s<c%s>)" % (p, x), "Ifft(%s, FFT_HALF, true)" % s, "S<%s, TM>" % x)
            for D in ("TM", "FQ"):
                for fn in ("FftShift", "IfftShift"): T("%s(%s<%s> %s)" % (fn, p, x, D), "%s(o<%s<%s, %s>>())" % (fn, p, x, D), "S<%s, %s>" % (x, D))
        for D in ("TM", "FQ"):
            for fn, a in (("HammingWindow", ""), ("FlatTopWindow", ""), ("RectangularWindow", ""), ("TriangularWindow", ""), ("BlackmanWindow", ""), ("BlackmanHarrisWindow", ""), ("LanczosWindow", ""), ("GaussianWindow", ", %s(1)" % x), ("KaiserWindow", ", %s(1)" % x), ("DolphChebyshevWindow", ", %s(1)" % x),
                          ("LinSpace", None), ("LogSpace", None), ("SineWave", ", 100, 1.0"), ("SawtoothWave", ", 100, 1.0"), ("PwmWave", ", 100, 1.0"), ("SquareWave", ", 100, 1.0"), ("SineChirp", ", 100, 1.0, 2.0"), ("SawtoothChirp", ", 100, 1.0, 2.0"), ("PwmChirp", ", 100, 1.0, 2.0"), ("SquareChirp", ", 100, 1.0, 2.0")):
                e = "%s<%s, %s>(8%s)" % (fn, x, D, a) if a is not None else "%s<%s, %s>(%s(0), %s(1), 8, true)" % (fn, x, D, x, x)
                if fn == "LogSpace": e = "%s<%s, %s>(%s(0), %s(1), 8, %s(10), true)" % (fn, x, D, x, x, x)
                T("%s(%s %s)" % (fn, x, D), e, "S<%s, %s>" % (x, D), "a generator has the requested element type and domain")
    # views
    for x in ("f", "cd"):
        for D in ("TM", "FQ"):
            for e, r in (("AsView(o<S<{x}, {D}>>())", "V"), ("AsView(o<const S<{x}, {D}>>())", "K"), ("AsView(o<V<{x}, {D}>>())", "V"), ("AsView(o<K<{x}, {D}>>())", "K"), ("AsConstView(o<S<{x}, {D}>>())", "K"), ("AsConstView(o<V<{x}, {D}>>())", "K"), ("AsConstView(o<K<{x}, {D}>>())", "K"),
                         ("AsView<{D}>(o<{x}*>(), 3)", "V"), ("AsView<{D}>(o<{x}*>(), o<{x}*>())", "V"), ("AsConstView<{D}>(o<{x}*>(), 3)", "K"), ("AsConstView<{D}>(o<{x}*>(), o<{x}*>())", "K"),
                         ("o<V<{x}, {D}>>().subsignal(1)", "V"), ("o<V<{x}, {D}>>().subsignal(1, 2)", "V"), ("o<K<{x}, {D}>>().subsignal(1)", "K"), ("o<V<{x}, {D}>>().first(1)", "V"), ("o<K<{x}, {D}>>().last(1)", "K")):
                e = e.format(x=x, D=D); T("view: " + e, e, "%s<%s, %s>" % (r, x, D), "a view keeps element type, domain and constness of what it views")
            T("extract_front<%s %s>" % (x, D), "o<S<%s, %s>>().extract_front(1)" % (x, D), "S<%s, %s>" % (x, D)); T("extract_back<%s %s>" % (x, D), "o<S<%s, %s>>().extract_back(1)" % (x, D), "S<%s, %s>" % (x, D))
    # traits
    tw = "the type traits describe the type"
    for t, sig, view in (("S<f, TM>", 1, 0), ("V<f, TM>", 0, 1), ("K<cf, FQ>", 0, 1), ("std::vector<f>", 0, 0), ("f", 0, 0)):
        A("is_signal " + t, "is_signal_v<%s> == %d" % (t, sig), tw); A("is_signal_view " + t, "is_signal_view_v<%s> == %d" % (t, view), tw); A("is_signal_like " + t, "is_signal_like_v<%s> == %d" % (t, sig or view), tw)
    for t, m in (("S<f, TM>", 1), ("S<f, TM>&", 1), ("const S<f, TM>&", 0), ("const S<f, TM>", 0), ("V<f, TM>", 1), ("const V<f, TM>&", 1), ("K<f, TM>", 0), ("K<f, TM>&", 0), ("const K<cf, FQ>&", 0), ("f", 0), ("std::vector<f>", 0)): A("is_mutable_signal " + t, "is_mutable_signal_v<%s> == %d" % (t, m), tw)
    for a, b, s in (("S<f, TM>", "V<cf, TM>&", 1), ("const S<f, TM>&", "K<d, TM>", 1), ("S<f, TM>", "S<f, FQ>", 0), ("K<f, QF>", "S<f, TM>&", 0), ("S<f, TM>", "f", 0)): A("is_same_domain %s %s" % (a, b), "is_same_domain_v<%s, %s> == %d" % (a, b, s), tw)
    for a, s in (("S<f, TM>, S<f, TM>, S<f, FQ>", 0), ("S<f, TM>, S<f, FQ>, S<f, TM>", 0), ("S<f, FQ>, S<f, TM>, S<f, TM>", 0), ("S<f, FQ>, K<f, FQ>, V<cf, FQ>", 1), ("S<f, TM>, S<f, FQ>, S<f, FQ>", 0)): A("is_same_domain3 " + a, "is_same_domain_v<%s> == %d" % (a, s), tw)
    for t, r, z in (("f", "f", 0), ("cf", "f", 1), ("const cd", "const d", 1), ("volatile f", "volatile f", 0)): A("is_complex " + t, "is_complex_v<%s> == %d" % (t, z), tw); A("remove_complex " + t, "same<remove_complex_t<%s>, %s>" % (t, r), tw)
    for t, ty, D in (("S<f, TM>", "f", "TM"), ("V<cf, FQ>", "cf", "FQ"), ("K<d, QF>", "const d", "QF")): A("signal_traits " + t, "same<signal_traits<%s>::type, %s> && signal_traits<%s>::domain == %s" % (t, ty, t, D), tw)
    step = (len(P) + 7) // 8
    chunks = [P[i::8] for i in range(8)]
    for r in c.parallel([(run_probes, c, "type%d" % n, HEAD, ch) for n, ch in enumerate(chunks)]):
        if isinstance(r, Exception): raise r

main("D03", run, "Witness programs: the type of every public expression, for signals, views and read-only views, real and complex, is asserted at compile time (the expression has to type-check and have exactly the specified type).")
