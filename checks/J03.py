from vf import *
from spec import *
import ir, num
from J01 import _r
from J02 import NUM, U

for nm in ("fun_", "der_"): ir.KNOWN.add(nm)
# the function searched is one of a family with a single root, chosen by the point
def family(p):
    r = -2 + 4 * U(p, "root"); s = 0.3 + 2 * U(p, "scale"); g = 1 if p.h("up") % 2 else -1; k = p.h("kind") % 3
    f = (lambda x: g * (math.exp(s * (x - r)) - 1), lambda x: g * s * (x - r), lambda x: g * math.sinh(s * (x - r)))[k]
    d = (lambda x: g * s * math.exp(s * (x - r)), lambda x: g * s, lambda x: g * s * math.cosh(s * (x - r)))[k]
    return r, f, d
num.PFUN["fun_"] = lambda p, x: family(p)[1](_r(x))
num.PFUN["der_"] = lambda p, x: family(p)[2](_r(x))
PRE = "#define BUDGET\n" + NUM + """extern "C" { double fun_(double) PURE; double der_(double) PURE; }
#include <dspbb/Math/Solvers.hpp>
using namespace dspbb;
#define BEGIN big_ = 0; small_ = 0; left_ = %d; const double x = a[0], y = a[1], t = a[2]; const auto f = [](Num x) { return Num(fun_(x.v)); }; const auto d = [](Num x) { return Num(der_(x.v)); };
#define END const double p = big_, q = small_; o[0] = r.v; o[1] = p; o[2] = q;
"""
def bracket(p):
    r = family(p)[0]
    lo, hi = r - 0.1 - 3 * U(p, "lo"), r + 0.1 + 3 * U(p, "hi")
    e = p.h("edge") % 8
    if e == 0: lo = r
    if e == 1: hi = r
    return (lo, hi) if p.h("order") % 2 else (hi, lo)
def tol(p): return 10.0 ** (-4 * U(p, "tol"))
def start(p):
    return family(p)[0] + (-1 + 2 * U(p, "start"))

def by_tolerance(v, errs):
    """the comparison that ended the loop is one that would really end it, and is not between two successive errors (no progress any more)"""
    big, small = _r(v[1]), _r(v[2])
    if big > small * (1 - 1e-9): return False
    err = lambda x: x > 1e300 or any(abs(x - e) <= 1e-9 * e for e in errs)
    return not (err(big) and err(small))

def run(c):
    units = []; jobs = []; meta = []
    N = 9 if c.thorough else 6
    for n in range(0, 15 if c.thorough else 13):
        def bis(p, v, n=n, tolerance=None):
            r = family(p)[0]; a, b = bracket(p); g = _r(v[0])
            if abs(g - r) > abs(b - a) * 2.0 ** -(n // 4) * (1 + 1e-9): return "Bisect(%.5g, %.5g) is %.6g after %d comparisons that let it go on, which is %.3g from the root" % (a, b, g, n, abs(g - r))
            if tolerance is not None and by_tolerance(v, [abs(b - a) * 2.0 ** -j for j in range(30)]):
                if abs(g - r) > tol(p) * (1 + 1e-6): return "Bisect(%.5g, %.5g, tolerance %.3g) stops at %.6g, which is %.3g from the root" % (a, b, tol(p), g, abs(g - r))
        def newton(p, v, n=n, tolerance=None):
            r, f, d = family(p); x = start(p); g = _r(v[0]); best = None; its = []
            for j in range(n + 3):
                x1 = x - f(x) / d(x); its.append((x1, abs(x1 - x))); x = x1
            k = next((j for j, z in enumerate(its) if abs(z[0] - g) <= 1e-9 * (1 + abs(g))), None)
            if k is None: return "NewtonRaphson from %.6g arrives at %.9g, which is not one of the iterates %s" % (start(p), g, ", ".join("%.9g" % z[0] for z in its[:4]))
            last = max(j for j, z in enumerate(its) if abs(z[0] - g) <= 1e-9 * (1 + abs(g)))
            if last + 1 < n // 4: return "NewtonRaphson from %.6g stops at the iterate %d although %d comparisons let it go on" % (start(p), k + 1, n)
            if tolerance is not None and by_tolerance(v, [z[1] for z in its]):
                if its[last][1] > tol(p) * (1 + 1e-6): return "NewtonRaphson from %.6g stops at %.9g although the last step was %.3g and the tolerance %.3g" % (start(p), g, its[last][1], tol(p))
        bm = lambda p, s: (bracket(p) + (tol(p),))[s]
        nm = lambda p, s: (start(p), 0.0, tol(p))[s]
        ents = [("bisect", "const Num r = Bisect(f, Num(x), Num(y));", bis, bm), ("bisect_tol", "const Num r = Bisect(f, Num(x), Num(y), Num(t));", lambda p, v, f=bis: f(p, v, tolerance=1), bm),
                ("newton", "const Num r = NewtonRaphson(f, d, Num(x));", newton, nm), ("newton_tol", "const Num r = NewtonRaphson(f, d, Num(x), Num(t));", lambda p, v, f=newton: f(p, v, tolerance=1), nm)]
        for half in (ents[:2], ents[2:])[n > N:]:
            src = PRE % n + "".join('extern "C" void e_%s(double* o, const double* a) { BEGIN %s END }\n' % (e[0], e[1]) for e in half)
            jobs.append((spec, c, "solve_%s_%d" % (half[0][0], n), src, 8, (), ("-fno-math-errno",), n // 2 + 8, 0, n + 2)); meta.append([("e_" + e[0], "%s, %d comparisons" % (e[0], n), e[2], e[3]) for e in half])
    for m, es in zip(c.parallel(jobs), meta):
        if isinstance(m, CompileError):
            c.skip("%s and others" % es[0][1], "the code does not instantiate with the symbolic number type: %s" % (first_errors(m.diag) or [""])[0]); continue
        if isinstance(m, Exception): raise m
        for e, key, rel, mem in es:
            units.append(lambda m=m, e=e, key=key, rel=rel, mem=mem: check_rel(c, key, m.fns[e], m, 3, rel, 8, where="Math/Solvers.hpp", mem=mem, count=40, obligations=2, total=True))
    c.each(units)

if __name__ == "__main__": main("J03", run, "the root finders are instantiated with a symbolic number type and an unknown function, unrolled for every schedule of comparison results up to a bound, and the extracted iterate compared with bisection and Newton's method")
