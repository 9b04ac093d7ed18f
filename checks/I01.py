from vf import *
from spec import *
import cmath, math

# Stand-ins for the four analog prototypes: they hand out the order and the ripples they were asked for through the gain, with fixed roots.
PRE = """#include <dspbb/LTISystems/Systems.hpp>
namespace dspbb {
template <class T> ZeroPoleGain<T, eDiscretization::CONTINUOUS> Butterworth(size_t order);
template <class T> ZeroPoleGain<T, eDiscretization::CONTINUOUS> Chebyshev1(size_t order, T passbandRipple);
template <class T> ZeroPoleGain<T, eDiscretization::CONTINUOUS> Chebyshev2(size_t order, T stopbandRipple);
template <class T> ZeroPoleGain<T, eDiscretization::CONTINUOUS> Elliptic(size_t order, T passbandRipple, T stopbandRipple);
using T = %s;
static inline ZeroPoleGain<T, eDiscretization::CONTINUOUS> standin(T g) {
	ZeroPoleGain<T, eDiscretization::CONTINUOUS> s; s.gain = g; s.zeros.resize(0, 1); s.poles.resize(0, 1);
	*s.zeros.complex_pairs().begin() = { T(-0.5), T(2) }; *s.poles.complex_pairs().begin() = { T(-0.75), T(0.5) };
	return s;
}
template <> inline ZeroPoleGain<T, eDiscretization::CONTINUOUS> Butterworth<T>(size_t n) { return standin(T(1000 + n)); }
template <> inline ZeroPoleGain<T, eDiscretization::CONTINUOUS> Chebyshev1<T>(size_t n, T p) { return standin(T(2000 + n) + 16 * p); }
template <> inline ZeroPoleGain<T, eDiscretization::CONTINUOUS> Chebyshev2<T>(size_t n, T s) { return standin(T(3000 + n) + 48 * s); }
template <> inline ZeroPoleGain<T, eDiscretization::CONTINUOUS> Elliptic<T>(size_t n, T p, T s) { return standin(T(4000 + n) + 16 * p + 48 * s); }
}
#include <dspbb/Filtering/IIR.hpp>
using namespace dspbb;
using Z = DiscreteZeroPoleGain<T>;
static inline void show(T* o, const Z& s) {
	*o++ = s.gain; *o++ = T(s.zeros.num_real_roots()); *o++ = T(s.zeros.num_complex_pairs()); *o++ = T(s.poles.num_real_roots()); *o++ = T(s.poles.num_complex_pairs());
	for (auto r : s.zeros.complex_pairs()) { *o++ = r.real(); *o++ = r.imag(); }
	for (auto r : s.poles.complex_pairs()) { *o++ = r.real(); *o++ = r.imag(); }
}
"""
METHODS = (("Butterworth", 1000, ()), ("Chebyshev1", 2000, ("PassbandRipple",)), ("Chebyshev2", 3000, ("StopbandRipple",)), ("Elliptic", 4000, ("PassbandRipple", "StopbandRipple")))
PAR = {"PassbandRipple": (2, 16, 0.1), "StopbandRipple": (3, 48, 0.1)}

def design(c, key, fn, mod, es, band, base, n, sets, edges):
    two = band in ("Bandpass", "Bandstop")
    k = 2 if two else 1
    slots = 5 + 4 * k
    def rel(p, v):
        def cp(j): return complex(p.ev(L(j, es))).real
        lo, hi = (cp(0), cp(1)) if edges else ((0.25, 0.75) if two else (0.5, None))
        g = base + (n // 2 if two else n)
        for s in METHODS_OF[base]:
            g += PAR[s][1] * (cp(PAR[s][0]) if s in sets else PAR[s][2])
        if tuple(round(complex(x).real) for x in v[1:5]) != (0, k, 0, k): return "the result has %s real zeros, zero pairs, real poles and pole pairs, expected 0, %d, 0 and %d" % (", ".join("%g" % complex(x).real for x in v[1:5]), k, k)
        q = [complex(complex(v[5 + 2 * i]).real, complex(v[6 + 2 * i]).real) for i in range(2 * k)]
        def H(g, zs, ps, x):
            y = g
            for r in zs: y *= (x - r) * (x - r.conjugate())
            for r in ps: y /= (x - r) * (x - r.conjugate())
            return y
        for x in (0.3 + 0j, -1.7 + 0j, 0.4 + 0.8j, cmath.exp(1j), cmath.exp(2.5j)):
            if not two:
                t = math.tan(math.pi * lo / 2)
                s = (x - 1) / (x + 1) / t
                if band == "Highpass": s = (x + 1) / (x - 1) * t
            else:
                al = math.cos(math.pi * (lo + hi) / 2) / math.cos(math.pi * (hi - lo) / 2)
                t = math.tan(math.pi * (hi - lo) / 2)
                s = (x * x - 2 * al * x + 1) / (t * (x * x - 1))
                if band == "Bandstop": s = 1 / s
            want = H(g, [-0.5 + 2j], [-0.75 + 0.5j], s)
            got = H(complex(v[0]).real, q[:k], q[k:], x)
            if abs(got - want) > (1e-6 if es == 8 else 1e-3) * (1 + abs(want)): return "response at z = %.3g%+.3gj is %.6g%+.6gj, expected %.6g%+.6gj (prototype of order %d, edges %.4g%s)" % (x.real, x.imag, got.real, got.imag, want.real, want.imag, n // 2 if two else n, lo, ", %.4g" % hi if two else "")
    def mem(p, j):
        lo, hi = sorted((0.06 + 0.88 * p.h("w", 1) / 2.0**64, 0.06 + 0.88 * p.h("w", 2) / 2.0**64))
        if two and hi - lo < 0.05: lo, hi = 0.2, 0.57
        return {0: lo, 1: hi, 2: 0.05 + 0.4 * p.h("pr") / 2.0**64, 3: 0.05 + 0.4 * p.h("sr") / 2.0**64}.get(j)
    check_rel(c, key, fn, mod, slots, rel, es, where="Filtering/IIR.hpp", mem=mem, obligations=5, ignore=re.compile("AreRootsConjugatePair"))
METHODS_OF = {b: s for _, b, s in METHODS}

def run(c):
    jobs, meta = [], []
    for t, es in (("double", 8), ("float", 4)):
        if t == "float" and not c.thorough: continue
        for m, base, setters in METHODS:
            cases = []
            for band in ("Lowpass", "Highpass", "Bandpass", "Bandstop"):
                two = band in ("Bandpass", "Bandstop")
                for n in ((2, 4, 6, 10) if two else (1, 2, 3, 8)):
                    for edges in (True, False):
                        subsets = [s for r in range(len(setters) + 1) for s in __import__("itertools").combinations(setters, r)] if n == 4 or n == 3 else [setters]
                        for sub in subsets:
                            for form in ("value", "in_place", "other") if n in (2, 3) else ("value",):
                                if form == "in_place" and n != 2: continue
                                # a descriptor of the other floating point type
                                d = "Iir.%s.%s" % (band, m)
                                cast = ("double" if t == "float" else "float") if form == "other" else "T"
                                if form == "other" and not edges: continue
                                if edges: d += (".Band(%s(a[0]), %s(a[1]))" % (cast, cast) if two else ".Cutoff(%s(a[0]))" % cast)
                                for s in sub: d += ".%s(%s(a[%d]))" % (s, cast, PAR[s][0])
                                if not edges and sub != setters: continue
                                nm = "%s_%s_%d_%s_%s_%s" % (m, band, n, "edges" if edges else "default", "".join(x[0] for x in sub) or "none", form)
                                if form == "in_place": body = "Z z; z.gain = 7; z.zeros.resize(%d, %d, T(0.5)); z.poles.resize(%d, %d, T(0.25)); DesignFilter(z, %s); show(o, z);" % (n % 2, n // 2, n % 2, n // 2, d)
                                else: body = "show(o, DesignFilter<T>(%d, %s));" % (n, d)
                                cases.append((nm, body, band, base, n, sub, edges))
            for k in range(0, len(cases), 12):
                part = cases[k:k + 12]
                jobs.append((spec, c, "iir_%s_%s_%d" % (t, m, k), PRE % t + "".join('extern "C" void e_%s(T* o, const T* a) { %s }\n' % (x[0], x[1]) for x in part), es, (), ("-fno-math-errno",))); meta.append((t, es, part))
    units = []
    for m, (t, es, cases) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        for g in range(0, len(cases), 4):
            def unit(m=m, t=t, es=es, part=cases[g:g + 4]):
                for nm, b, band, base, n, sub, edges in part: design(c, "%s<%s>" % (nm, t), m.fns["e_" + nm], m, es, band, base, n, sub, edges)
            units.append(unit)
    c.each(units)

if __name__ == "__main__": main("I01", run, "partial evaluation of every recursive filter design with stand-in analog prototypes that encode the order and ripples they are given; the response of the result compared with the prototype's response at the mapped point")
