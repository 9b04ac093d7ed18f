from vf import *
from probe import *

HEAD = """#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Math/OverlapAdd.hpp>
#include <dspbb/Math/Functions.hpp>
#include <dspbb/Math/FFT.hpp>
#include <dspbb/Math/Polynomials.hpp>
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/IIR.hpp>
#include <dspbb/Filtering/Polyphase.hpp>
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Filtering/Windowing.hpp>
#include <dspbb/Generators/Spaces.hpp>
#include <dspbb/Generators/Waveforms.hpp>
using namespace dspbb;
using cpx = std::complex<float>;
using Sig = Signal<float>; using View = SignalView<float>; using CView = SignalView<const float>;
#define ALL Sig& s, const Sig& c, View& v, CView& k, Signal<cpx>& zs, const Signal<cpx>& zc, SignalView<const cpx>& zk, Spectrum<cpx>& f, const Spectrum<cpx>& fc, SpectrumView<const cpx>& fk, Spectrum<float>& g, const Spectrum<float>& gc, SpectrumView<const float>& gk, \\
 Polynomial<float>& p, const Polynomial<float>& pc, FactoredPolynomial<float>& q, const FactoredPolynomial<float>& qc, PolyphaseView<float, TIME_DOMAIN>& y, PolyphaseView<const float, TIME_DOMAIN>& yk, PolyphaseFilter<float, TIME_DOMAIN>& pf, const PolyphaseFilter<float, TIME_DOMAIN>& pfc, \\
 size_t n, float x, float* m, const float* mk, Rational<int64_t> r, DiscreteTransferFunction<float>& tf, CascadedBiquad<float>& cb, DirectFormI<float>& d1, DirectFormII<float>& d2, CascadedForm<float>& fs
"""
def run(c):
    P = []
    def pair(key, tmpl, good, bad, why="read-only samples cannot be written"):
        for o in good: P.append(("%s(%s)" % (key, o), tmpl.replace("@", o), True, "mutable operands are accepted"))
        for o in bad: P.append(("%s(%s)" % (key, o), tmpl.replace("@", o), False, why))
    # element access
    for key, t in (("index", "@[0] = x;"), ("begin", "*@.begin() = x;"), ("rbegin", "*@.rbegin() = x;"), ("data", "*@.data() = x;"), ("end", "*(@.end() - 1) = x;"), ("range for", "for (auto& e : @) e = x;")):
        pair(key, t, ["s", "v"], ["c", "k"])
    for key, t in (("cbegin", "*@.cbegin() = x;"), ("cend", "*(@.cend() - 1) = x;"), ("crbegin", "*@.crbegin() = x;"), ("crend", "*(@.crend() - 1) = x;")): pair(key, t, [], ["s", "v", "c", "k"])
    for key, t in (("front", "@.front() = x;"), ("back", "@.back() = x;"), ("first", "@.first(n)[0] = x;"), ("last", "@.last(n)[0] = x;"), ("subsignal", "@.subsignal(n)[0] = x;"), ("subsignal2", "@.subsignal(n, n)[0] = x;")): pair(key, t, ["v"], ["k"])
    # editing a constant signal
    for key, t in (("resize", "@.resize(n);"), ("clear", "@.clear();"), ("append", "@.append(c);"), ("prepend", "@.prepend(c);"), ("push_back", "@.push_back(x);"), ("insert", "@.insert(n, c);"), ("erase", "@.erase(@.cbegin());"), ("extract_front", "auto e = @.extract_front(n);"),
                   ("extract_back", "auto e = @.extract_back(n);"), ("reserve", "@.reserve(n);"), ("assign", "@ = c;")): pair(key, t, ["s"], ["c"], "a constant signal cannot be edited")
    # views
    pair("AsView", "AsView(@)[0] = x;", ["s", "v"], ["c", "k"]); pair("AsConstView", "AsConstView(@)[0] = x;", [], ["s", "v", "c", "k"])
    pair("AsConstView pointer", "AsConstView<TIME_DOMAIN>(@, n)[0] = x;", [], ["m", "mk"]); pair("AsView pointer", "AsView<TIME_DOMAIN>(@, n)[0] = x;", ["m"], ["mk"])
    pair("AsView pointers", "AsView<TIME_DOMAIN>(@, @ + n)[0] = x;", ["m"], ["mk"])
    pair("mutable view of", "View w(@);", ["s", "v"], ["c", "k", "Sig{}"], "a mutable view cannot be made of read-only or temporary samples"); pair("mutable view of range", "View w(@.begin(), @.end());", ["s", "v"], ["c", "k"]); pair("mutable view of range and size", "View w(@.begin(), n);", ["s", "v"], ["c", "k"])
    pair("assign mutable view", "v = @;", ["s", "v"], ["c", "k"], "a mutable view cannot be made of read-only samples"); pair("const view of", "CView w(@);", ["s", "v", "c", "k"], [])
    pair("implicit mutable view", "auto h = [](View) {}; h(@);", ["s", "v"], ["c", "k"], "a mutable view cannot be made of read-only samples"); pair("implicit const view", "auto h = [](CView) {}; h(@);", ["s", "v", "c", "k"], [])
    # arithmetic output
    for op in "+-*/":
        pair("compound " + op, "@ %s= c;" % op, ["s", "v"], ["c", "k"], "the output has to be writable"); pair("compound scalar " + op, "@ %s= x;" % op, ["s", "v"], ["c", "k"], "the output has to be writable")
    out = "the output has to be writable"
    for fn in ("Add", "Subtract", "Multiply", "Divide"):
        for nm, a in (("", "c, c"), (" scalar", "c, x"), (" scalar left", "x, c")): pair(fn + nm, fn + "(@, %s);" % a, ["s", "v"], ["c", "k"], out)
    for fn in "Abs Arg Real Imag Log Log2 Log10 Exp Sqrt Cbrt Sin Cos Tan Asin Acos Atan Sinh Cosh Tanh Asinh Acosh Atanh Erf Erfc TGamma LGamma".split(): pair(fn, fn + "(@, c);", ["s", "v"], ["c", "k"], out)
    pair("Pow", "Pow(@, c, x);", ["s", "v"], ["c", "k"], out)
    for fn in ("Convolution", "OverlapAdd"):
        for nm, a in (("full", "CONV_FULL"), ("central", "CONV_CENTRAL"), ("range", "n")): pair(fn + " " + nm, fn + "(@, c, k, %s);" % a, ["s", "v"], ["c", "k"], out)
    for cv in ("CONV_FULL", "CONV_CENTRAL"):
        for ft in ("FILTER_OLA", "FILTER_CONV"): pair("Filter %s %s" % (cv, ft), "Filter(@, c, k, %s, %s);" % (cv, ft), ["s", "v"], ["c", "k"], out)
    for ft in ("FILTER_OLA", "FILTER_CONV"):
        pair("Filter state out " + ft, "Filter(@, c, k, s, %s);" % ft, ["s", "v"], ["c", "k"], out); pair("Filter state " + ft, "Filter(s, c, k, @, %s);" % ft, ["s", "v"], ["c", "k"], "the filter state has to be writable")
    pair("IIR direct form 1", "Filter(@, c, tf, d1);", ["s", "v"], ["c", "k"], out); pair("IIR direct form 2", "Filter(@, c, tf, d2);", ["s", "v"], ["c", "k"], out); pair("IIR cascade", "Filter(@, c, cb, fs);", ["s", "v"], ["c", "k"], out)
    pair("IIR state", "Filter(s, c, tf, @);", ["d1", "d2"], ["std::as_const(d1)", "std::as_const(d2)"], "the filter state has to be writable"); pair("IIR cascade state", "Filter(s, c, cb, @);", ["fs"], ["std::as_const(fs)"], "the filter state has to be writable")
    pair("Decimate", "Decimate(@, c, n);", ["s", "v"], ["c", "k"], out); pair("Expand", "Expand(@, c, n);", ["s", "v"], ["c", "k"], out); pair("Interpolate", "Interpolate(@, c, yk, n);", ["s", "v"], ["c", "k"], out)
    pair("Resample", "Resample(@, c, yk, r);", ["s", "v"], ["c", "k"], out); pair("PolyphaseDecompose", "PolyphaseDecompose(@, c, n);", ["s", "v"], ["c", "k"], out); pair("PolyphaseNormalize", "PolyphaseNormalize(@);", ["y"], ["yk"], out)
    for fn in "Hamming FlatTop Rectangular Triangular Blackman BlackmanHarris Lanczos".split(): pair(fn + "Window", fn + "Window(@);", ["s", "v"], ["c", "k"], out)
    pair("GaussianWindow", "GaussianWindow(@, x);", ["s", "v"], ["c", "k"], out); pair("KaiserWindow", "KaiserWindow(@, x);", ["s", "v"], ["c", "k"], out); pair("DolphChebyshevWindow", "DolphChebyshevWindow(@, x);", ["s", "v"], ["c", "k"], out)
    pair("LinSpace", "LinSpace(@, x, x, true);", ["s", "v"], ["c", "k"], out); pair("LogSpace", "LogSpace(@, x, x, x, true);", ["s", "v"], ["c", "k"], out)
    for fn in "Sine Sawtooth Pwm Square".split(): pair(fn + "Wave", fn + "Wave(@, 100, 1.0);", ["s", "v"], ["c", "k"], out); pair(fn + "Chirp", fn + "Chirp(@, 100, 1.0, 2.0);", ["s", "v"], ["c", "k"], out)
    # transforms
    pair("Fft", "Fft(AsView(@), AsConstView(c));", ["f"], ["fc", "fk"], out); pair("Fft complex", "Fft(AsView(@), AsConstView(zc));", ["f"], ["fc", "fk"], out); pair("Ifft", "Ifft(AsView(@), AsConstView(fc));", ["zs"], ["zc", "zk"], out); pair("Ifft real", "Ifft(AsView(@), AsConstView(fc));", ["s", "v"], ["c", "k"], out)
    pair("FftShift", "FftShift(@, gc);", ["g"], ["gc", "gk"], out); pair("IfftShift", "IfftShift(@, gc);", ["g"], ["gc", "gk"], out)
    # design
    pair("DesignFilter", "DesignFilter(@, Fir.Lowpass.Windowed.Cutoff(x).Window(windows::hamming));", ["s", "v"], ["c", "k"], out); pair("DesignFilter least squares", "DesignFilter(@, Fir.Lowpass.LeastSquares.Cutoff(x, x));", ["s", "v"], ["c", "k"], out)
    # containers of coefficients
    pair("coefficients", "@.coefficients()[0] = x;", ["p"], ["pc"]); pair("real_roots", "@.real_roots()[0] = x;", ["q"], ["qc"]); pair("complex_pairs", "@.complex_pairs()[0] = x;", ["q"], ["qc"])
    pair("Polynomial::resize", "@.resize(n);", ["p"], ["pc"], "a constant polynomial cannot be edited"); pair("FactoredPolynomial::resize", "@.resize(n, n);", ["q"], ["qc"], "a constant polynomial cannot be edited")
    pair("phase", "@[0][0] = x;", ["y"], ["yk"]); pair("Buffer", "@.Buffer()[0] = x;", ["pf"], ["pfc"])
    # element types do not convert between views
    pair("view element type", "@ w(s);", ["View", "CView"], ["SignalView<double>", "SignalView<cpx>", "SignalView<const double>"], "a view has the element type of its signal")
    step = (len(P) + 7) // 8
    chunks = [P[i:i + step] for i in range(0, len(P), step)]
    for r in c.parallel([(run_probes, c, "const%d" % n, HEAD, ch) for n, ch in enumerate(chunks)]):
        if isinstance(r, Exception): raise r

main("D02", run, "Witness programs: every access path and output parameter instantiated with writable operands has to type-check, and with read-only operands has to be rejected.")
