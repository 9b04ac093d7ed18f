from vf import *
from probe import *

HEAD = """#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Math/OverlapAdd.hpp>
#include <dspbb/Math/DotProduct.hpp>
#include <dspbb/Math/Functions.hpp>
#include <dspbb/Math/Statistics.hpp>
#include <dspbb/Math/FFT.hpp>
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/IIR.hpp>
#include <dspbb/Filtering/Polyphase.hpp>
#include <dspbb/Filtering/Resample.hpp>
using namespace dspbb;
using CF = std::complex<float>;
template <class T, eSignalDomain D> using S = BasicSignal<T, D>;
template <class T, eSignalDomain D> using V = BasicSignalView<T, D>;
constexpr auto TM = TIME_DOMAIN; constexpr auto FQ = FREQUENCY_DOMAIN; constexpr auto QF = QUEFRENCY_DOMAIN; constexpr auto NO = DOMAINLESS;
"""
DOM = {"t": "TM", "f": "FQ", "q": "QF", "n": "NO"}
# operands: kind + domain: s signal, v view, k const view, c complex signal
def decl():
    out = []
    for d, D in DOM.items():
        out += ["S<float, %s>& s%s" % (D, d), "V<float, %s>& v%s" % (D, d), "V<const float, %s>& k%s" % (D, d), "S<CF, %s>& c%s" % (D, d), "PolyphaseView<const float, %s>& p%s" % (D, d), "const S<float, %s>& w%s" % (D, d)]
    out += ["size_t n", "Rational<int64_t> r", "DiscreteTransferFunction<float>& tf", "CascadedBiquad<float>& cb", "DirectFormI<float>& d1", "DirectFormII<float>& d2", "CascadedForm<float>& fs"]
    return ", ".join(out)

def forms():
    """(name, template over a, b[, o]): a and b have to be of one domain"""
    F = []
    for nm, op in (("plus", "+"), ("minus", "-"), ("times", "*"), ("over", "/")):
        F.append((nm, "auto r_ = {a} %s {b}; (void)r_;" % op, "skv", "skv"))
        F.append((nm + "_assign", "{a} %s= {b};" % op, "sv", "skv"))
    for f in ("Add", "Subtract", "Multiply", "Divide"):
        F.append((f + "_operand", f + "({a}, {a}, {b});", "sv", "skv"))
        F.append((f + "_output", f + "({a}, {b}, {b});", "sv", "skv"))
        F.append((f + "_scalar", f + "({a}, {b}, 2.0f);", "sv", "skv"))
        F.append((f + "_scalar_left", f + "({a}, 2.0f, {b});", "sv", "skv"))
    for f in ("Abs", "Exp", "Log", "Sqrt", "Sin", "Tanh", "Erf", "Real"):
        F.append((f, f + "({a}, {b});", "sv", "skv"))
    F += [("Pow", "Pow({a}, {b}, 2.0f);", "sv", "skv"),
          ("DotProduct", "auto r_ = DotProduct({a}, {b}); (void)r_;", "skv", "skv"),
          ("Convolution_full", "auto r_ = Convolution({a}, {b}, CONV_FULL);", "skv", "skv"), ("Convolution_central", "auto r_ = Convolution({a}, {b}, CONV_CENTRAL);", "skv", "skv"), ("Convolution_range", "auto r_ = Convolution({a}, {b}, n, n);", "skv", "skv"),
          ("Convolution_out", "Convolution({a}, {b}, {b}, CONV_FULL);", "sv", "skv"), ("Convolution_out2", "Convolution({a}, {a}, {b}, CONV_CENTRAL);", "sv", "skv"), ("Convolution_out3", "Convolution({a}, {b}, {a}, n);", "sv", "skv"),
          ("OverlapAdd_full", "auto r_ = OverlapAdd({a}, {b}, CONV_FULL);", "skv", "skv"), ("OverlapAdd_central", "auto r_ = OverlapAdd({a}, {b}, CONV_CENTRAL);", "skv", "skv"), ("OverlapAdd_range", "auto r_ = OverlapAdd({a}, {b}, n, n);", "skv", "skv"),
          ("OverlapAdd_out", "OverlapAdd({a}, {b}, {b}, CONV_FULL);", "sv", "skv"), ("OverlapAdd_out2", "OverlapAdd({a}, {a}, {b}, CONV_CENTRAL);", "sv", "skv"), ("OverlapAdd_out3", "OverlapAdd({a}, {b}, {a}, n);", "sv", "skv"),
          ("Filter_central_ola", "auto r_ = Filter({a}, {b}, CONV_CENTRAL, FILTER_OLA);", "skv", "skv"), ("Filter_central_conv", "auto r_ = Filter({a}, {b}, CONV_CENTRAL, FILTER_CONV);", "skv", "skv"),
          ("Filter_full_ola", "auto r_ = Filter({a}, {b}, CONV_FULL, FILTER_OLA);", "skv", "skv"), ("Filter_full_conv", "auto r_ = Filter({a}, {b}, CONV_FULL, FILTER_CONV);", "skv", "skv"),
          ("Filter_out", "Filter({a}, {b}, {b}, CONV_FULL, FILTER_CONV);", "sv", "skv"), ("Filter_out_ola", "Filter({a}, {b}, {b}, CONV_CENTRAL, FILTER_OLA);", "sv", "skv"), ("Filter_out2", "Filter({a}, {a}, {b}, CONV_FULL, FILTER_OLA);", "sv", "skv"), ("Filter_out3", "Filter({a}, {b}, {a}, CONV_CENTRAL, FILTER_CONV);", "sv", "skv"),
          ("Filter_state", "auto r_ = Filter({a}, {a}, {b}, FILTER_CONV);", "s", "s"), ("Filter_state_ola", "auto r_ = Filter({a}, {a}, {b}, FILTER_OLA);", "s", "s"), ("Filter_state2", "auto r_ = Filter({a}, {b}, {b}, FILTER_CONV);", "s", "s"),
          ("Filter_state_out", "Filter({a}, {b}, {b}, {b}, FILTER_CONV);", "sv", "s"), ("Filter_state_out2", "Filter({a}, {a}, {b}, {a}, FILTER_OLA);", "sv", "s"), ("Filter_state_out3", "Filter({a}, {a}, {a}, {b}, FILTER_OLA);", "sv", "s"),
          ("IIR_d1", "Filter({a}, {b}, tf, d1);", "sv", "skv"), ("IIR_d2", "Filter({a}, {b}, tf, d2);", "sv", "skv"), ("IIR_cascade", "Filter({a}, {b}, cb, fs);", "sv", "skv"),
          ("Decimate", "Decimate({a}, {b}, n);", "sv", "skv"), ("Expand", "Expand({a}, {b}, n);", "sv", "skv"), ("PolyphaseDecompose", "PolyphaseDecompose({a}, {b}, n);", "sv", "skv"),
          ("Interpolate", "auto r_ = Interpolate({a}, {b}, n, n);", "skv", "p"), ("Interpolate_out", "Interpolate({a}, {a}, {b}, n);", "sv", "p"), 
          ("Resample", "auto r_ = Resample({a}, {b}, r, CONV_FULL);", "skv", "p"), ("Resample_out", "Resample({a}, {a}, {b}, r);", "sv", "p"),
          ("assign", "{a} = {b};", "sv", "sv"), ("construct", "std::decay_t<decltype({a})> r_({b});", "sv", "sv"), ("const_view", "std::decay_t<decltype({a})> r_({b});", "k", "skv"), ("convert", "BasicSignal<double, signal_traits<std::decay_t<decltype({a})>>::domain> r_({b});", "s", "s"),
          ("convert_assign", "BasicSignal<double, signal_traits<std::decay_t<decltype({a})>>::domain> r_; r_ = {b};", "s", "s"),
          ("append", "{a}.append({b});", "s", "s"), ("prepend", "{a}.prepend({b});", "s", "s"), ("insert", "{a}.insert(n, {b});", "s", "s"), ("insert_it", "{a}.insert({a}.cbegin(), {b});", "s", "s")]
    return F

def run(c):
    pre = HEAD + "#define ALL " + decl() + "\n"
    doms = [("t", "f"), ("f", "t"), ("q", "t"), ("t", "n"), ("n", "f")]
    if c.thorough: doms = [(a, b) for a in "tfqn" for b in "tfqn" if a != b]
    P = []
    for nm, tmpl, ka, kb in forms():
        if nm == "convert" or nm == "construct" or nm == "const_view": pass
        kinds = [(x, y) for x in ka for y in kb]
        if not c.thorough:
            kinds = kinds[:1] + kinds[-1:] if len(kinds) > 1 else kinds
        for x, y in kinds:
            if nm == "assign" and x == "s" and y == "v": continue
            if nm == "construct" and x == "s" and y == "v": continue
            P.append(("%s(%s%s)" % (nm, x, y), tmpl.format(a=x + "t", b=y + "t"), True, "operands of one domain are accepted"))
            for d, e in doms:
                P.append(("%s(%s%s,%s%s)" % (nm, x, d, y, e), tmpl.format(a=x + d, b=y + e), False, "mixing signal domains is a type error"))
    # transforms fix the domain of operand and result
    for k in "sk":
        if k == "s":
            P += [("Fft(time)", "Spectrum<CF> r_ = Fft(st, FFT_FULL);", True, "the transform of a signal is a spectrum"), ("Fft(time) half", "Spectrum<CF> r_ = Fft(st, FFT_HALF);", True, "the transform of a signal is a spectrum"), ("Fft(time) complex", "Spectrum<CF> r_ = Fft(ct);", True, "the transform of a signal is a spectrum"),
                  ("Ifft(freq)", "Signal<CF> r_ = Ifft(cf_);".replace("cf_", "cf0"), True, "")][:3]
            P += [("Ifft(frequency)", "Signal<CF> r_ = Ifft(AsConstView(S<CF, FQ>{}));", True, "the inverse transform of a spectrum is a signal"), ("Ifft(frequency) full", "Signal<float> r_ = Ifft(AsConstView(S<CF, FQ>{}), FFT_FULL);", True, "the inverse transform of a spectrum is a signal"),
                  ("Ifft(frequency) half", "Signal<float> r_ = Ifft(AsConstView(S<CF, FQ>{}), FFT_HALF, true);", True, "the inverse transform of a spectrum is a signal")]
    for d in "fqn":
        P += [("Fft(%s)" % d, "auto r_ = Fft(s%s, FFT_FULL);" % d, False, "only time signals are transformed"), ("Fft half(%s)" % d, "auto r_ = Fft(s%s, FFT_HALF);" % d, False, "only time signals are transformed"), ("Fft complex(%s)" % d, "auto r_ = Fft(c%s);" % d, False, "only time signals are transformed"),
              ("Fft view(%s)" % d, "auto r_ = Fft(k%s, FFT_HALF);" % d, False, "only time signals are transformed")]
        D = DOM[d]
        P += [("Fft result(%s)" % d, "S<CF, %s> r_ = Fft(ct);" % (D if d != "f" else "TM"), False, "the transform yields a spectrum"), ("Fft out(%s)" % d, "Fft(V<CF, %s>{}, st);" % (D if d != "f" else "TM"), False, "the transform yields a spectrum")]
    for d in "tqn":
        D = DOM[d]
        P += [("Ifft(%s)" % d, "auto r_ = Ifft(c%s);" % d, False, "only spectra are transformed back"), ("Ifft full(%s)" % d, "auto r_ = Ifft(c%s, FFT_FULL);" % d, False, "only spectra are transformed back"), ("Ifft half(%s)" % d, "auto r_ = Ifft(c%s, FFT_HALF, true);" % d, False, "only spectra are transformed back"),
              ("Ifft out(%s)" % d, "Ifft(V<CF, %s>{}, V<const CF, FQ>{});" % (D if d != "t" else "FQ"), False, "the inverse transform yields a time signal")]
    step = (len(P) + 7) // 8
    chunks = [P[i:i + step] for i in range(0, len(P), step)]
    for r in c.parallel([(run_probes, c, "domain%d" % n, pre, ch) for n, ch in enumerate(chunks)]):
        if isinstance(r, Exception): raise r

main("D01", run, "Witness programs: every operation instantiated with operands of one domain has to type-check, and with operands of two different domains has to be rejected.")
