from vf import *
from spec import *
import ell, ir, num
import cmath
import J01
from J01 import _r

EPS = 1.1920928955078125e-07
NUM = """#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <limits>
#include <stdexcept>
#include <tuple>
#define PURE noexcept __attribute__((const))
extern "C" { double mul_(double, double) PURE; double div_(double, double) PURE; double rem_(double, double) PURE; int quo_(double, double) PURE;
double rf_(double, double, double) PURE; double rfre_(double, double, double, double, double, double) PURE; double rfim_(double, double, double, double, double, double) PURE; 
double am_(double, double) PURE; double ellK_(double) PURE; double ellsn_(double, double) PURE; double ellcn_(double, double) PURE; double elldn_(double, double) PURE; }
// a number whose products and quotients stay symbolic, and whose order can be asked for a given number of times
struct Num {
	double v;
	bool literal;
	constexpr Num(double v = 0) : v(v), literal(false) {}
	constexpr Num(int v) : v(v), literal(true) {}
	constexpr explicit operator double() const { return v; }
	friend constexpr Num operator+(Num a, Num b) { return a.v + b.v; }
	friend constexpr Num operator-(Num a, Num b) { return a.v - b.v; }
	friend constexpr Num operator-(Num a) { return -a.v; }
	friend constexpr Num operator+(Num a) { return a; }
	friend constexpr Num operator*(Num a, Num b) { return __builtin_is_constant_evaluated() ? a.v * b.v : mul_(a.v, b.v); }
	friend constexpr Num operator/(Num a, Num b) { return __builtin_is_constant_evaluated() ? a.v / b.v : div_(a.v, b.v); }
	constexpr Num& operator+=(Num b) { return *this = *this + b; }
	constexpr Num& operator-=(Num b) { return *this = *this - b; }
	constexpr Num& operator*=(Num b) { return *this = *this * b; }
	constexpr Num& operator/=(Num b) { return *this = *this / b; }
	friend constexpr bool operator==(Num a, Num b) { return a.v == b.v; }
	friend constexpr bool operator!=(Num a, Num b) { return a.v != b.v; }
	friend inline bool operator<(Num a, Num b) { return less(a, b); }
	friend inline bool operator>(Num a, Num b) { return less(b, a); }
	friend inline bool operator<=(Num a, Num b) { return !less(b, a); }
	friend inline bool operator>=(Num a, Num b) { return !less(a, b); }
	static inline bool less(Num a, Num b);
};
#ifdef BUDGET
static int left_; static double big_, small_;
inline bool Num::less(Num a, Num b) {
	if (a.literal || b.literal) return a.v < b.v; // a range check
	big_ = b.v; small_ = a.v; return left_-- > 0;
}
#else
inline bool Num::less(Num a, Num b) { return a.v < b.v; }
#endif
namespace std {
template <> struct numeric_limits<Num> { static constexpr bool is_specialized = true; static constexpr Num epsilon() { return %r; } static constexpr Num infinity() { return 1e300; } static constexpr Num max() { return 1.7e308; } static constexpr Num min() { return 2.2e-308; } static constexpr Num lowest() { return -1.7e308; } };
inline Num sqrt(Num a) { return __builtin_sqrt(a.v); }
inline Num abs(Num a) { return __builtin_fabs(a.v); }
inline Num fabs(Num a) { return __builtin_fabs(a.v); }
inline Num pow(Num a, Num b) { return __builtin_pow(a.v, b.v); }
inline Num exp(Num a) { return __builtin_exp(a.v); }
inline Num log(Num a) { return __builtin_log(a.v); }
inline Num sin(Num a) { return __builtin_sin(a.v); }
inline Num cos(Num a) { return __builtin_cos(a.v); }
inline Num tan(Num a) { return __builtin_tan(a.v); }
inline Num tanh(Num a) { return __builtin_tanh(a.v); }
inline Num asin(Num a) { return __builtin_asin(a.v); }
inline Num acos(Num a) { return __builtin_acos(a.v); }
inline Num atan(Num a) { return __builtin_atan(a.v); }
inline Num atan2(Num a, Num b) { return __builtin_atan2(a.v, b.v); }
inline Num remquo(Num a, Num b, int* q) { *q = quo_(a.v, b.v); return rem_(a.v, b.v); }
inline Num max(initializer_list<Num> l) { Num m = *l.begin(); for (Num x : l) m = __builtin_fmax(m.v, x.v); return m; }
inline Num min(initializer_list<Num> l) { Num m = *l.begin(); for (Num x : l) m = __builtin_fmin(m.v, x.v); return m; }
template <> inline const Num& max<Num>(const Num& a, const Num& b) { return a.v < b.v ? b : a; }
template <> inline const Num& min<Num>(const Num& a, const Num& b) { return b.v < a.v ? b : a; }
inline Num fmax(Num a, Num b) { return __builtin_fmax(a.v, b.v); }
inline Num fmin(Num a, Num b) { return __builtin_fmin(a.v, b.v); }
inline Num copysign(Num a, Num b) { return __builtin_copysign(a.v, b.v); }
inline Num sinh(Num a) { return __builtin_sinh(a.v); }
inline Num cosh(Num a) { return __builtin_cosh(a.v); }
inline Num floor(Num a) { return __builtin_floor(a.v); }
inline Num round(Num a) { return __builtin_round(a.v); }
inline Num fma(Num a, Num b, Num c) { return a * b + c; }
inline Num hypot(Num a, Num b) { return __builtin_sqrt((a * a + b * b).v); }
inline Num cbrt(Num a) { return __builtin_cbrt(a.v); }
inline Num ldexp(Num a, int n) { return a * Num((double)(1ul << n)); }
inline bool signbit(Num a) { return a.v < 0; }
inline bool isnan(Num) { return false; }
inline bool isinf(Num) { return false; }
inline bool isfinite(Num) { return true; }
inline Num abs(const complex<Num>& z) { return __builtin_sqrt(mul_(z.real().v, z.real().v) + mul_(z.imag().v, z.imag().v)); }
inline complex<Num> sqrt(const complex<Num>& z);
}
extern "C" { double csqrtre_(double, double) PURE; double csqrtim_(double, double) PURE; double cdivre_(double, double, double, double) PURE; double cdivim_(double, double, double, double) PURE; }
inline std::complex<Num> std::sqrt(const std::complex<Num>& z) { return { csqrtre_(z.real().v, z.imag().v), csqrtim_(z.real().v, z.imag().v) }; }
using C = std::complex<Num>;
""" % EPS
for nm in ("mul_", "div_", "rem_", "quo_", "rf_", "rfre_", "rfim_", "am_", "csqrtre_", "csqrtim_", "cdivre_", "cdivim_"): ir.KNOWN.add(nm)
def _rf(*a):
    z = ell.RF(*a)
    if z != z: raise ValueError
    return z
def csq(x, y):
    return cmath.sqrt(complex(_r(x), _r(y)))
num.FUN.update({"mul_": lambda a, b: _r(a) * _r(b), "div_": lambda a, b: _r(a) / _r(b), "rem_": lambda a, b: math.remainder(_r(a), _r(b)) if abs(_r(b)) < 1e30 else _r(a),
    "quo_": lambda a, b: (lambda q: (abs(q) % 8) * (1 if q >= 0 else -1))(round(_r(a) / _r(b))),
    "rf_": lambda x, y, z: _rf(_r(x), _r(y), _r(z)).real, "rfre_": lambda a, b, d, e, f, g: _rf(complex(_r(a), _r(b)), complex(_r(d), _r(e)), complex(_r(f), _r(g))).real,
    "rfim_": lambda a, b, d, e, f, g: _rf(complex(_r(a), _r(b)), complex(_r(d), _r(e)), complex(_r(f), _r(g))).imag,
    "am_": lambda u, k: ell.am(_r(u), J01._mod(k)), "csqrtre_": lambda x, y: csq(x, y).real, "csqrtim_": lambda x, y: csq(x, y).imag})

INC = "#define thread_local\n#include <dspbb/Math/EllipticFunctions.hpp>\nusing namespace dspbb;\n"
U = lambda p, s: p.h(s) / 2.0**64
W = "Math/EllipticFunctions.hpp"
def near(g, w, tol=1e-6): return abs(complex(g) - w) <= tol * (1 + abs(w))

def converged(kind, oracle, inputs, say):
    """a loop that stops when its two operands no longer compare must have arrived at the value"""
    def rel(p, v):
        big, small = _r(v[-2]), _r(v[-1])
        if small < big * (1 + 1e-9): return None  # the loop would go on
        w = oracle(*inputs(p))
        g = complex(_r(v[0]), _r(v[1])) if len(v) == 4 else _r(v[0])
        if not near(g, w, 5e-7): return "%s(%s) is %.9g%+.3gj when the iteration stops, expected %.9g%+.3gj" % (say, ", ".join("%.6g" % x if not isinstance(x, complex) else "%.4g%+.4gj" % (x.real, x.imag) for x in inputs(p)), complex(g).real, complex(g).imag, complex(w).real, complex(w).imag)
    return rel
def stops(say, inputs):
    def rel(p, v):
        big, small = _r(v[-2]), _r(v[-1])
        if small < big * (1 - 1e-9): return "the iteration of %s(%s) has not stopped after as many steps as are ever needed" % (say, ", ".join("%.6g" % complex(x).real for x in inputs(p)))
    return rel

def run(c):
    units = []
    jobs, meta = [], []
    B = "#define BUDGET\n" + NUM + INC
    # -- Carlson's RF
    xs = lambda p: tuple(0.0 if p.h("zero") % 4 == n else 0.05 + 4 * U(p, "x%d" % n) ** 2 for n in range(3))
    def cxs(p):
        return tuple(cmath.rect(0.1 + 3 * U(p, "r%d" % n), (U(p, "a%d" % n) - 0.5) * 2.6) for n in range(3))
    N = 8
    for n in range(N + 1):
        src = B + 'extern "C" void e_rf(double* o, const double* a) { const double x = a[0], y = a[1], z = a[2]; big_ = 0; small_ = 1; left_ = %d; const Num r = CarlsonRF(Num(x), Num(y), Num(z)); const double p = big_, q = small_; o[0] = r.v; o[1] = p; o[2] = q; }\n' % n
        src += 'extern "C" void e_crf(double* o, const double* a) { const C x(a[0], a[1]), y(a[2], a[3]), z(a[4], a[5]); big_ = 0; small_ = 1; left_ = %d; const C r = CarlsonRF(x, y, z); const double p = big_, q = small_; o[0] = r.real().v; o[1] = r.imag().v; o[2] = p; o[3] = q; }\n' % n
        jobs.append((spec, c, "rf_%d" % n, src, 8, (), ("-fno-math-errno",), n + 6, 0, n + 2))
        R = lambda x, y, z: ell.RF(x, y, z).real
        mem = lambda p, s: xs(p)[s]
        cmem = lambda p, s: (cxs(p)[s // 2].real, cxs(p)[s // 2].imag)[s % 2]
        meta.append((("e_rf", "RF<%d steps>" % n, 3, converged("RF", R, xs, "CarlsonRF") if n < N else stops("CarlsonRF", xs), mem),
                     ("e_crf", "RF<complex, %d steps>" % n, 4, converged("RF", ell.RF, cxs, "CarlsonRF") if n < N else stops("CarlsonRF", cxs), cmem)))
    # -- the amplitude
    uk = lambda p: (-6 + 12 * U(p, "u"), (0.0, 1.0)[p.h("end") % 2] if p.h("special") % 4 == 0 else 0.02 + 0.978 * U(p, "k"))
    for n in range(N):
        src = B + 'extern "C" void e_am(double* o, const double* a) { const double x = a[0], k = a[1]; big_ = 0; small_ = 1; left_ = %d; const Num r = EllipticAM(Num(x), Num(k)); const double p = big_, q = small_; o[0] = r.v; o[1] = p; o[2] = q; }\n' % n
        jobs.append((spec, c, "am_%d" % n, src, 8, (), ("-fno-math-errno",), n + 6, 0, n + 2))
        meta.append((("e_am", "AM<%d steps>" % n, 3, converged("am", lambda u, k: ell.am(u, k), uk, "EllipticAM") if n < N - 1 else stops("EllipticAM", uk), lambda p, s: uk(p)[s]),))
    # -- the rest, over those
    OP = """namespace dspbb {
inline Num CarlsonRF(Num x, Num y, Num z) { return rf_(x.v, y.v, z.v); }
inline C CarlsonRF(C x, C y, C z) { return { rfre_(x.real().v, x.imag().v, y.real().v, y.imag().v, z.real().v, z.imag().v), rfim_(x.real().v, x.imag().v, y.real().v, y.imag().v, z.real().v, z.imag().v) }; }
%s}
"""
    two = lambda p: (0.1 + 0.88 * U(p, "x"), 0.02 + 0.97 * U(p, "k"))
    kk = lambda p: (0.98 * U(p, "k"),)
    sgn = lambda p: ((two(p)[0]) * (1 if p.h("sign") % 2 else -1), two(p)[1])
    def rel1(oracle, inputs, say, nc=1, tol=1e-6):
        def rel(p, v):
            a = inputs(p); w = oracle(*a)
            w = list(w) if isinstance(w, (tuple, list)) else [w]
            g = [complex(_r(v[2 * i]), _r(v[2 * i + 1])) for i in range(len(v) // 2)] if nc == 2 else [_r(x) for x in v]
            for i, (x, y) in enumerate(zip(g, w)):
                if not near(x, y, tol): return "%s(%s): result %d is %.8g%+.3gj, expected %.8g%+.3gj" % (say, ", ".join("%.6g" % z if not isinstance(z, complex) else "%.4g%+.4gj" % (z.real, z.imag) for z in a), i, complex(x).real, complex(x).imag, complex(y).real, complex(y).imag)
        return rel
    def flat(inputs):
        def mem(p, s):
            l = []
            for z in inputs(p): l += [z.real, z.imag] if isinstance(z, complex) else [z]
            return l[s]
        return mem
    asn = lambda x, k: ell.arcsn(x, k).real
    def acn(x, k):
        lo, hi = 0.0, ell.K(k)
        for _ in range(60):
            m = (lo + hi) / 2
            if ell.jacobi(m, k)[1] > x: lo = m
            else: hi = m
        return lo
    def adn(x, k):
        lo, hi = 0.0, ell.K(k)
        for _ in range(60):
            m = (lo + hi) / 2
            if ell.jacobi(m, k)[2] > x: lo = m
            else: hi = m
        return lo
    def dnin(p):
        k = 0.05 + 0.93 * U(p, "k"); kp = math.sqrt(1 - k * k)
        return kp + (1 - kp) * (0.02 + 0.96 * U(p, "d")), k
    def cxk(p):  # the value of sn, cn or dn at a point of the fundamental quarter
        k = 0.1 + 0.85 * U(p, "k")
        return complex((0.05 + 0.9 * U(p, "re")) * ell.K(k), (0.05 + 0.9 * U(p, "im")) * ell.K(math.sqrt(1 - k * k)) * (1 if p.h("s") % 2 else -1)), k
    # the quarter is mirrored for sn only: the others are even
    def cval(z, odd):
        def inp(p):
            u, k = cxk(p)
            if odd and p.h("mirror") % 2: u = -u
            return ell.jacobi(u, k)[z], k
        return inp
    def cinv(z, odd):
        def f(x, k): raise NotImplementedError
        return f
    ents = [("K", "o[0] = EllipticK(Num(a[0])).v;", 1, rel1(ell.K, kk, "EllipticK"), flat(kk)),
            ("ArcSN", "o[0] = EllipticArcSN(Num(a[0]), Num(a[1])).v;", 1, rel1(asn, sgn, "EllipticArcSN"), flat(sgn)),
            ("ArcCN", "o[0] = EllipticArcCN(Num(a[0]), Num(a[1])).v;", 1, rel1(acn, two, "EllipticArcCN"), flat(two)),
            ("ArcDN", "o[0] = EllipticArcDN(Num(a[0]), Num(a[1])).v;", 1, rel1(adn, dnin, "EllipticArcDN"), flat(dnin))]
    for z, nm in enumerate(("SN", "CN", "DN")):
        # inverse: the function of the result is the argument, and the result lies in the fundamental quarter
        inp = cval(z, z == 0)
        def rel(p, v, z=z, nm=nm, inp=inp):
            x, k = inp(p); g = complex(_r(v[0]), _r(v[1])); w = ell.jacobi(g, k)[z]
            if not near(w, x, 1e-5): return "EllipticArc%s(%.4g%+.4gj, %.4g) is %.6g%+.6gj, of which %s is %.4g%+.4gj" % (nm, x.real, x.imag, k, g.real, g.imag, nm.lower(), w.real, w.imag)
            if abs(g.real) > ell.K(k) * 1.00001 or abs(g.imag) > ell.K(math.sqrt(1 - k * k)) * 1.00001: return "EllipticArc%s(%.4g%+.4gj, %.4g) is not in the fundamental quarter" % (nm, x.real, x.imag, k)
        ents.append(("CArc" + nm, "const C r = EllipticArc%s(C(a[0], a[1]), Num(a[2])); o[0] = r.real().v; o[1] = r.imag().v;" % nm, 2, rel, flat(inp)))
    src = NUM + OP % "" + INC + "".join('extern "C" void e_%s(double* o, const double* a) { %s }\n' % (e[0], e[1]) for e in ents)
    jobs.append((spec, c, "inverse", src, 8, (), ("-fno-math-errno",))); meta.append([("e_" + e[0], "Elliptic" + e[0], e[2], e[3], e[4]) for e in ents])
    # -- sn, cn, dn
    real = lambda p: (-20 + 60 * U(p, "u"), 0.02 + 0.978 * U(p, "k"))
    three = "o[0] = %s.v; o[1] = %s.v; o[2] = %s.v;"
    ents = [("SNCNDN", "const auto [s, c, d] = EllipticSNCNDN(Num(a[0]), Num(a[1])); " + three % ("s", "c", "d"), 3, rel1(ell.jacobi, real, "EllipticSNCNDN"), flat(real)),
            ("SN", "const Num x(a[0]), k(a[1]); o[0] = EllipticSN(x, k).v; ", 1, rel1(lambda u, k: ell.jacobi(u, k)[0], real, "EllipticSN"), flat(real)),
            ("CN", "const Num x(a[0]), k(a[1]); o[0] = EllipticCN(x, k).v; ", 1, rel1(lambda u, k: ell.jacobi(u, k)[1], real, "EllipticCN"), flat(real)),
            ("DN", "const Num x(a[0]), k(a[1]); o[0] = EllipticDN(x, k).v; ", 1, rel1(lambda u, k: ell.jacobi(u, k)[2], real, "EllipticDN"), flat(real))]
    src = NUM + OP % "inline Num EllipticAM(Num x, Num k) { return am_(x.v, k.v); }\ninline Num EllipticK(Num k) { return ellK_(k.v); }\n" + INC + "".join('extern "C" void e_%s(double* o, const double* a) { %s }\n' % (e[0], e[1]) for e in ents)
    jobs.append((spec, c, "jacobi", src, 8, (), ("-fno-math-errno",))); meta.append([("e_" + e[0], "Elliptic" + e[0], e[2], e[3], e[4]) for e in ents])
    cx = lambda p: (complex(-3 + 6 * U(p, "re"), -1.2 + 2.4 * U(p, "im")), 0.05 + 0.93 * U(p, "k"))
    six = "o[0] = s.real().v; o[1] = s.imag().v; o[2] = c.real().v; o[3] = c.imag().v; o[4] = d.real().v; o[5] = d.imag().v;"
    ents = [("CSNCNDN", "const auto [s, c, d] = EllipticSNCNDN(C(a[0], a[1]), Num(a[2])); " + six, 6, rel1(ell.jacobi, cx, "EllipticSNCNDN", 2), flat(cx)),
            ("CPARTS", "const C x(a[0], a[1]); const Num k(a[2]); const C s = EllipticSN(x, k), c = EllipticCN(x, k), d = EllipticDN(x, k); " + six, 6, rel1(ell.jacobi, cx, "Elliptic SN, CN, DN", 2), flat(cx))]
    src = NUM + OP % "inline std::tuple<Num, Num, Num> EllipticSNCNDN(Num x, Num k) { return { ellsn_(x.v, k.v), ellcn_(x.v, k.v), elldn_(x.v, k.v) }; }\n" + INC + "".join('extern "C" void e_%s(double* o, const double* a) { %s }\n' % (e[0], e[1]) for e in ents)
    jobs.append((spec, c, "cjacobi", src, 8, (), ("-fno-math-errno",))); meta.append([("e_" + e[0], "Elliptic" + e[0], e[2], e[3], e[4]) for e in ents])
    for m, es in zip(c.parallel(jobs), meta):
        if isinstance(m, CompileError):
            c.skip("%s and others" % es[0][1], "the code does not instantiate with the symbolic number type: %s" % (first_errors(m.diag) or [""])[0]); continue
        if isinstance(m, Exception): raise m
        for e, key, slots, rel, mem in es:
            units.append(lambda m=m, e=e, key=key, slots=slots, rel=rel, mem=mem: check_rel(c, key, m.fns[e], m, slots, rel, 8, where=W, mem=mem, count=40, obligations=slots, total=True))
    c.each(units)

if __name__ == "__main__": main("J02", run, "the elliptic functions are instantiated with a symbolic number type whose comparisons are answered by a fixed schedule, partially evaluated to straight-line terms, and compared with the functions they approximate wherever the schedule is the one the code would follow")
