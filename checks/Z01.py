from vf import *
from spec import *
from fractions import Fraction as Q
import itertools, math

# the loop of std::gcd and std::lcm is evaluated by the tool (it is always applied to constants here)
PRE = """#include <numeric>
#include <cstdint>
extern "C" unsigned long constant_gcd(unsigned long, unsigned long) noexcept __attribute__((const));
#define GCD_OF(U) template <> constexpr U __gcd<U>(U a, U b) { if (__builtin_is_constant_evaluated()) { while (b != 0) { const U r = a %% b; a = b; b = r; } return a; } return constant_gcd(a, b); }
namespace std::__detail { GCD_OF(unsigned long) GCD_OF(unsigned long long) }
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using T = %s; using C = std::complex<T>;
static inline BasicSignalView<T, TIME_DOMAIN> out_(T* o, size_t n) { return { o, n }; }
static inline BasicSignalView<const T, TIME_DOMAIN> in_(const T* a, size_t n) { return { a, n }; }
static inline BasicSignal<T, TIME_DOMAIN> sig(const T* a, size_t n) { return BasicSignal<T, TIME_DOMAIN>(a, a + n); }
static inline BasicSignal<C, TIME_DOMAIN> csig(const T* a, size_t n) { BasicSignal<C, TIME_DOMAIN> s(n); for (auto& x : s) { x = { a[0], a[1] }; a += 2; } return s; }
template <class S> static inline T* put(T* o, const S& s) { for (const auto& v : s) { if constexpr (is_complex_v<std::decay_t<decltype(v)>>) { *o++ = v.real(); *o++ = v.imag(); } else *o++ = v; } return o; }
template <class P> static inline T* phases(T* o, const P& p) { *o++ = T(p.num_phases()); *o++ = T(p.size_original()); *o++ = T(p.size_per_phase()); for (size_t i = 0; i < p.num_phases(); ++i) { *o++ = T(p[i].size()); for (auto& v : p[i]) *o++ = v; } return o; }
"""
F0 = 12
def layout(f, P):
    """coefficients of each phase, reversed, scaled by the number of phases"""
    return [[f[k] * P for k in reversed(range(p, len(f), P))] for p in range(P)]
def shown(ph, n):
    P = len(ph)
    return [rf(P), rf(n), rf(-(-n // P))] + [v for x in ph for v in [rf(len(x))] + x]
def interp(x, f, P):
    n = len(x) * P + len(f) - 1
    return [sum((x[i] * f[k - i * P] * P for i in range(len(x)) if 0 <= k - i * P < len(f)), rf(0)) for k in range(n)]
def resample(x, f, P, rate, start, n):
    """linear interpolation between the samples of the interpolated signal"""
    h = interp(x, f, P) + [rf(0)] * 2
    y = []
    for k in range(n):
        t = (start + k) * rate * P
        i = t.numerator // t.denominator; w = t - i
        y.append((h[i] * (w.denominator - w.numerator) + h[i + 1] * w.numerator) / w.denominator)
    return y
def rat(q): return "Rational<int64_t>{ %dll, %dll }" % (q.numerator, q.denominator)
def clen(a, b, full): return 0 if not a or not b else a + b - 1 if full else max(a, b) - min(a, b) + 1

def run(c):
    jobs, meta = [], []
    big = c.thorough
    for t, es in (("double", 8),) + ((("float", 4),) if big else ()):
        cases = []
        def add(nm, body, want): cases.append((nm, body, want))
        X = lambda n, o=0: [L(o + i, es) for i in range(n)]
        for n, r in itertools.product(range(1, 7), range(1, 5)):
            w = X(n)[::r]
            add("Decimate_%d_%d" % (n, r), "Decimate(out_(o, %d), in_(a, %d), %d);" % (len(w), n, r), w)
            add("Decimate_returned_%d_%d" % (n, r), "const auto y = Decimate(%s(a, %d), %d); *put(o, y) = T(y.size());" % ("sig" if n % 2 else "in_", n, r), w + [rf(len(w))])
            if n <= 3:
                w = [v for x in X(n) for v in [x] + [rf(0)] * (r - 1)]
                add("Expand_%d_%d" % (n, r), "Expand(out_(o, %d), in_(a, %d), %d);" % (len(w), n, r), w)
                add("Expand_returned_%d_%d" % (n, r), "const auto y = Expand(%s(a, %d), %d); *put(o, y) = T(y.size());" % ("sig" if n % 2 else "in_", n, r), w + [rf(len(w))])
        add("Decimate_complex", "put(o, Decimate(csig(a, 5), 2));", [L(i, es) for i in (0, 1, 4, 5, 8, 9)])
        add("Expand_complex", "put(o, Expand(csig(a, 2), 2));", [L(0, es), L(1, es), rf(0), rf(0), L(2, es), L(3, es), rf(0), rf(0)])
        # decomposition
        for n, P in itertools.product(range(1, 8), range(1, 5)):
            f = X(n); ph = layout(f, P); sh = shown(ph, n)
            add("decompose_%d_%d" % (n, P), "const auto p = PolyphaseDecompose(%s(a, %d), %d); phases(o, p);" % ("sig" if n % 2 else "in_", n, P), sh)
            add("decompose_into_%d_%d" % (n, P), "T b[%d]; const auto p = PolyphaseDecompose(out_(b, %d), in_(a, %d), %d); phases(o, p);" % (n, n, n, P), sh)
            if P <= n and (n <= 5 or big):
                nrm = shown([[v / sum(x[1:], x[0]) for v in x] for x in ph], n)
                add("normalize_%d_%d" % (n, P), "auto p = PolyphaseDecompose(in_(a, %d), %d); PolyphaseNormalize(p); phases(o, p);" % (n, P), nrm)
                add("normalized_%d_%d" % (n, P), "const auto p = PolyphaseDecompose(in_(a, %d), %d); const auto q = PolyphaseNormalized(p); phases(phases(o, q), p);" % (n, P), nrm + sh)
            if n in (3, 4):
                other = shown(layout(X(5, F0), 2), 5)
                twice = shown([[2 * v for v in x] for x in ph], n)
                mk, mo = "auto p = PolyphaseDecompose(in_(a, %d), %d); " % (n, P), "auto q = PolyphaseDecompose(in_(a + %d, 5), 2); " % F0
                add("copy_%d_%d" % (n, P), mk + "auto q = p; for (auto& v : q.Buffer()) v *= 2; phases(phases(o, p), q);", sh + twice)
                add("copy_assign_%d_%d" % (n, P), mk + mo + "q = p; for (auto& v : q.Buffer()) v *= 2; phases(phases(o, p), q);", sh + twice)
                add("move_%d_%d" % (n, P), mk + "auto q = std::move(p); for (auto& v : q.Buffer()) v *= 2; phases(o, q);", twice)
                add("move_assign_%d_%d" % (n, P), mk + mo + "q = std::move(p); for (auto& v : q.Buffer()) v *= 2; p = PolyphaseDecompose(in_(a + %d, 5), 2); phases(phases(o, q), p);" % F0, twice + other)
                add("swap_%d_%d" % (n, P), mk + mo + "std::swap(p, q); phases(phases(o, q), p);", sh + other)
                add("self_assign_%d_%d" % (n, P), mk + "auto& q = p; p = q; phases(o, p);", sh)
        # interpolation: every part
        for n, nf, P in itertools.product((1, 2, 3), (1, 2, 3, 4, 5, 7), (1, 2, 3)):
            x, f = X(n), X(nf, F0)
            full = interp(x, f, P)
            mk = "const auto p = PolyphaseDecompose(in_(a + %d, %d), %d); " % (F0, nf, P)
            N = len(full)
            add("Interpolate_%d_%d_%d" % (n, nf, P), mk + "Interpolate(out_(o, %d), in_(a, %d), p, 0);" % (N, n), full)
            add("Interpolate_returned_%d_%d_%d" % (n, nf, P), mk + "const auto y = Interpolate(in_(a, %d), p, 0, InterpolLength(%d, %d, %d, CONV_FULL)); *put(o, y) = T(y.size());" % (n, n, nf, P), full + [rf(N)])
            lo, ln = min(n * P, nf) - 1, clen(n * P, nf, False)
            add("Interpolate_central_%d_%d_%d" % (n, nf, P), mk + "const auto y = Interpolate(sig(a, %d), p, %d, InterpolLength(%d, %d, %d, CONV_CENTRAL)); *put(o, y) = T(y.size());" % (n, lo, n, nf, P), full[lo:lo + ln] + [rf(ln)])
            for off in range(1, N):
                if (off + n + nf) % 2 and not big: continue
                ln = 1 + (off * 5 + n + P) % (N - off)
                add("Interpolate_part_%d_%d_%d_%d" % (n, nf, P, off), mk + "Interpolate(out_(o, %d), in_(a, %d), p, %d);" % (ln, n, off), full[off:off + ln])
                # suspended after `off` outputs of a shorter input, continued on what the suspension point asks for
                add("Interpolate_resumed_%d_%d_%d_%d" % (n, nf, P, off), mk + "const auto s = Interpolate(out_(o, %d), in_(a, %d), p, 0); Interpolate(out_(o + %d, %d), in_(a + s.firstInputSample, %d - s.firstInputSample), p, s.startPoint);" % (off, n, off, N - off, n), full)
        # resampling
        rates = [Q(1), Q(2), Q(1, 2), Q(2, 3), Q(3, 2), Q(5, 7), Q(7, 5)]
        for n, nf, P, r in itertools.product((1, 2, 4), (1, 3, 4, 6), (1, 2, 3), rates):
            if (n + nf + P + r.numerator + r.denominator) % 3 and not big: continue
            x, f = X(n), X(nf, F0)
            mk = "const auto p = PolyphaseDecompose(in_(a + %d, %d), %d); " % (F0, nf, P)
            tag = "%d_%d_%d_%d_%d" % (n, nf, P, r.numerator, r.denominator)
            R = rat(r)
            ml = Q(clen(n * P, nf, True)) / r / P
            N = ml.numerator // ml.denominator
            full = resample(x, f, P, r, Q(0), N)
            if N: add("Resample_%s" % tag, mk + "Resample(out_(o, %d), in_(a, %d), p, %s);" % (N, n, R), full)
            add("Resample_full_%s" % tag, mk + "const auto y = Resample(in_(a, %d), p, %s, CONV_FULL); *put(o, y) = T(y.size());" % (n, R), full + [rf(N)])
            cl = Q(clen(n * P, nf, False)) / r / P; M = cl.numerator // cl.denominator
            st = Q(min(nf, n * P) - 1, P) / r
            add("Resample_central_%s" % tag, mk + "const auto y = Resample(%s(a, %d), p, %s, CONV_CENTRAL); *put(o, y) = T(y.size());" % ("sig" if n % 2 else "in_", n, R), resample(x, f, P, r, st, M) + [rf(M)])
            for st in (Q(1, 3), Q(1), Q(5, 4)):
                K = ml - st; K = K.numerator // K.denominator
                if K <= 0: continue
                K = min(K, 4)
                want = resample(x, f, P, r, st, K)
                add("Resample_part_%s_%d_%d" % (tag, st.numerator, st.denominator), mk + "put(o, Resample(in_(a, %d), p, %s, %s, %d));" % (n, R, rat(st), K), want)
                for k in range(1, K):
                    if (k + n) % 2 and not big: continue
                    add("Resample_resumed_%s_%d_%d_%d" % (tag, st.numerator, st.denominator, k), mk + "const auto s = Resample(out_(o, %d), in_(a, %d), p, %s, %s); Resample(out_(o + %d, %d), in_(a + s.firstInputSample, %d - s.firstInputSample), p, %s, s.startPoint);" % (k, n, R, rat(st), k, K - k, n, R), want)
        # suspension points ask for no sample that is not needed, lengths, delays and cutoffs
        for n, nf, P in itertools.product((1, 3, 8), (1, 4, 9), (1, 2, 5)):
            add("lengths_%d_%d_%d" % (n, nf, P), "*o++ = T(InterpolLength(%d, %d, %d, CONV_FULL)); *o++ = T(InterpolLength(%d, %d, %d, CONV_CENTRAL)); *o = InterpolFilterCutoff(%d);" % ((n, nf, P) * 2 + (P,)),
                [rf(clen(n * P, nf, True)), rf(clen(n * P, nf, False)), rf(1) / P])
            for r in rates:
                if (n + nf + P + r.numerator) % 2 and not big: continue
                fl, ce, d = Q(clen(n * P, nf, True)) / r / P, Q(clen(n * P, nf, False)) / r / P, Q(nf - 1, 2 * P) / r
                put = "".join("{ const auto q = %s; *o++ = T(q.Numerator()) / T(q.Denominator()); } " % e for e in
                              ("ResampleLength(%d, %d, %d, %s, CONV_FULL)" % (n, nf, P, rat(r)), "ResampleLength(%d, %d, %d, %s, CONV_CENTRAL)" % (n, nf, P, rat(r)), "ResampleDelay(%d, %d, %s)" % (nf, P, rat(r))))
                add("rlengths_%d_%d_%d_%d_%d" % (n, nf, P, r.numerator, r.denominator), put + "*o = T(ResampleFilterCutoff(%s, %d));" % (rat(r), P),
                    [rf(q.numerator) / q.denominator for q in (fl, ce, d, min(Q(1), 1 / r) / P)])
        g = 60
        for k in range(0, len(cases), g):
            part = cases[k:k + g]
            jobs.append((spec, c, "rs_%s_%d" % (t, k), PRE % t + "".join('extern "C" void e_%s(T* o, const T* a) { %s }\n' % (nm, b) for nm, b, w in part), es, (), ("-UNDEBUG",))); meta.append((t, es, part))
    units = []
    for m, (t, es, cases) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        for g in range(0, len(cases), 10):
            def unit(m=m, t=t, es=es, part=cases[g:g + 10]):
                for nm, b, w in part: check_spec(c, "%s<%s>" % (nm, t), m.fns["e_" + nm], m, lambda w=w: w, es, where="Filtering/Polyphase.hpp" if nm[0] in "dncms" else "Filtering/Resample.hpp")
            units.append(unit)
    c.each(units)

if __name__ == "__main__": main("Z01", run, "partial evaluation of decimation, expansion, polyphase decomposition, interpolation and resampling at fixed sizes and rates with symbolic samples; every output compared with the definition")
