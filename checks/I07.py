from vf import *
from spec import *
import itertools

PRE = """#include <dspbb/Math/FFT.hpp>
#include <dspbb/Utility/Numbers.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using T = %s;
namespace dspbb::impl { // the transforms by their definition
template <> inline void Fft<T>(SpectrumView<std::complex<T>> out, SignalView<const T> in) {
	const size_t n = in.size();
	for (size_t m = 0; m < out.size(); ++m) { T re = 0, im = 0; for (size_t k = 0; k < n; ++k) { const T w = 2 * pi_v<T> * T((m * k) %% n) / T(n); re += in[k] * std::cos(w); im -= in[k] * std::sin(w); } out[m] = std::complex<T>(re, im); }
}
template <> inline void Ifft<T>(SignalView<T> out, SpectrumView<const std::complex<T>> in) {
	const size_t n = out.size();
	for (size_t k = 0; k < n; ++k) {
		T s = in[0].real();
		for (size_t m = 1; m <= n / 2; ++m) s += (2 * m == n ? 1 : 2) * (in[m].real() * std::cos(2 * pi_v<T> * T((m * k) %% n) / T(n)) - in[m].imag() * std::sin(2 * pi_v<T> * T((m * k) %% n) / T(n)));
		out[k] = s / T(n);
	}
}
}
#include <dspbb/Filtering/FIR/Filter.hpp>
using namespace dspbb;
static inline BasicSignalView<T, TIME_DOMAIN> out_(T* o, size_t n) { return { o, n }; }
static inline BasicSignalView<const T, TIME_DOMAIN> in_(const T* a, size_t n) { return { a, n }; }
static inline BasicSignal<T, TIME_DOMAIN> sig(const T* a, size_t n) { return BasicSignal<T, TIME_DOMAIN>(a, a + n); }
"""
def conv(x, h, lo=0, n=None):
    full = [sum((x[i] * h[k - i] for i in range(len(x)) if 0 <= k - i < len(h)), rf(0)) for k in range(len(x) + len(h) - 1)]
    return full[lo:lo + n] if n is not None else full
def chunks(total, N):
    """ways of feeding `total` samples"""
    if total == 0: yield (); return
    for first in range(1, min(N, total) + 1):
        for rest in chunks(total - first, N): yield (first,) + rest

# longer filters: a few ways of cutting the signal, with pieces shorter than, as long as and longer than the state and its half
LONG = {(6, 8): [(3, 3, 2), (4, 4), (5, 3), (6, 2), (2, 5, 1)], (8, 9): [(4, 5), (5, 4), (6, 3), (7, 2), (8, 1), (3, 6), (2, 3, 4), (1, 7, 1)]}
def run(c):
    jobs, meta = [], []
    for t, es in (("double", 8),) + ((("float", 4),) if c.thorough else ()):
        cases = []
        H = 12  # the filter starts at this input, the state at 20
        for n, f in itertools.product((1, 2, 3, 5), (1, 2, 3, 4)):
            x, h = [L(i, es) for i in range(n)], [L(H + i, es) for i in range(f)]
            full = conv(x, h)
            lo, ln = min(n, f) - 1, max(n, f) - min(n, f) + 1
            big = 2 * min(n, f) - 1
            for form, want in (("FULL", full), ("CENTRAL", full[lo:lo + ln])):
                for tag, extra, cs in [("CONV", "", 0)] + [("OLA", ", %d" % k, k) for k in sorted({big, big + 1, big + 2})]:
                    if n + f > 7 and tag == "OLA" and cs != big + 1 and not c.thorough: continue
                    args = "in_(a, %d), in_(a + %d, %d), CONV_%s, FILTER_%s%s" % (n, H, f, form, tag, extra)
                    nm = "%s_%s%s_%d_%d" % (form, tag, cs or "", n, f)
                    cases.append((nm, "Filter(out_(o, %d), %s);" % (len(want), args), want))
                    cases.append((nm + "_returned", "const auto y = Filter(%s); for (auto& v : y) *o++ = v; *o = T(y.size());" % args, want + [rf(len(want))]))
            # any part of the convolution, accumulated or not
            for off, ln in itertools.product(range(n + f - 1), range(1, n + f)):
                if off + ln > n + f - 1 or (n + f > 5 and (off + ln + n) % 3 and not c.thorough): continue
                cases.append(("part_CONV_%d_%d_%d_%d" % (n, f, off, ln), "Convolution(out_(o, %d), in_(a, %d), in_(a + %d, %d), %d);" % (ln, n, H, f, off), full[off:off + ln]))
                cases.append(("part_OLA_%d_%d_%d_%d" % (n, f, off, ln), "OverlapAdd(out_(o, %d), in_(a, %d), in_(a + %d, %d), %d, %d);" % (ln, n, H, f, off, big + 1), full[off:off + ln]))
                if ln == 2:
                    acc = [L(24 + i, es) + v for i, v in enumerate(full[off:off + ln])]
                    cases.append(("add_CONV_%d_%d_%d" % (n, f, off), "std::copy(a + 24, a + 26, o); Convolution(out_(o, 2), in_(a, %d), in_(a + %d, %d), %d, false);" % (n, H, f, off), acc))
                    cases.append(("add_OLA_%d_%d_%d" % (n, f, off), "std::copy(a + 24, a + 26, o); OverlapAdd(out_(o, 2), in_(a, %d), in_(a + %d, %d), %d, %d, false);" % (n, H, f, off, big), acc))
        # streaming: every way of cutting the input into calls
        S = 20
        for f, total in ((1, 3), (2, 4), (3, 4), (4, 4), (6, 8), (8, 9)) + (((3, 6), (4, 6), (5, 4)) if c.thorough else ()):
            h = [L(H + i, es) for i in range(f)]
            for tag, fresh in (("CONV", False), ("CONV", True), ("OLA", False)):
                st = [rf(0) if fresh else L(S + i, es) for i in range(f - 1)]
                x = st + [L(i, es) for i in range(total)]
                want = [sum((h[k] * x[f - 1 + i - k] for k in range(f)), rf(0)) for i in range(total)] + x[len(x) - f + 1 if f > 1 else len(x):]
                for ch in LONG.get((f, total)) or chunks(total, total):
                    if tag == "OLA" and len(ch) > 2 and not c.thorough: continue
                    code, pos = ("BasicSignal<T, TIME_DOMAIN> s(%d, T(0)); " % (f - 1) if fresh else "auto s = sig(a + %d, %d); " % (S, f - 1)), 0
                    for q, k in enumerate(ch):
                        ex = ", FILTER_CONV" if tag == "CONV" else ", FILTER_OLA, %d" % (2 * f + q)
                        if q % 2: code += "{ const auto y = Filter(in_(a + %d, %d), in_(a + %d, %d), s%s); std::copy(y.begin(), y.end(), o + %d); } " % (pos, k, H, f, ex, pos)
                        else: code += "Filter(out_(o + %d, %d), in_(a + %d, %d), in_(a + %d, %d), s%s); " % (pos, k, pos, k, H, f, ex)
                        pos += k
                    code += "std::copy(s.begin(), s.end(), o + %d);" % total
                    cases.append(("stream_%s%s_%d_%s" % (tag, "_fresh" if fresh else "", f, "_".join(map(str, ch))), code, want))
        for k in range(0, len(cases), 16):
            part = cases[k:k + 16]
            jobs.append((spec, c, "filt_%s_%d" % (t, k), PRE % t + "".join('extern "C" void e_%s(T* o, const T* a) { %s }\n' % (nm, b) for nm, b, w in part), es, (), ("-fno-math-errno", "-UNDEBUG"), 9)); meta.append((t, es, part))
    units = []
    for m, (t, es, cases) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        for nm, b, w in cases:
            units.append(lambda m=m, t=t, es=es, nm=nm, w=w: check_spec(c, "%s<%s>" % (nm, t), m.fns["e_" + nm], m, w, es, where="Filtering/FIR/Filter.hpp"))
    c.each(units)

if __name__ == "__main__": main("I07", run, "partial evaluation of the FIR filters and convolutions at fixed sizes; every output and the final state compared with the convolution sum over symbolic samples, coefficients and state")
