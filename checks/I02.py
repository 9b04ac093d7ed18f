from vf import *
from spec import *
from flat import flat
from P01 import horner, expand, product

PRE = """#include <dspbb/LTISystems/Systems.hpp>
using namespace dspbb;
using T = %s; using C = std::complex<T>;
using F = FactoredPolynomial<T>;
using Z = %s<T>;
static inline void set(F& p, const T* a) { for (auto& r : p.real_roots()) r = *a++; for (auto& r : p.complex_pairs()) { r = { a[0], a[1] }; a += 2; } }
static inline T* put(T* o, C z) { *o++ = z.real(); *o++ = z.imag(); return o; }
static inline Z zpk(size_t zr, size_t zc, size_t pr, size_t pc, const T* a) {
	Z s; s.gain = *a++; s.zeros.resize(zr, zc); s.poles.resize(pr, pc);
	set(s.zeros, a); set(s.poles, a + zr + 2 * zc);
	return s;
}
"""
def roots(es, o, r, p): return [CX(L(o + k, es)) for k in range(r)] + [z for k in range(p) for z in (CX(L(o + r + 2 * k, es), L(o + r + 2 * k + 1, es)), CX(L(o + r + 2 * k, es), -L(o + r + 2 * k + 1, es)))]
def H(es, sh, x):
    zr, zc, pr, pc = sh
    return CX(L(0, es)) * product(roots(es, 1, zr, zc), x) / product(roots(es, 1 + zr + 2 * zc, pr, pc), x)

def run(c):
    jobs, meta = [], []
    for t, es in (("float", 4), ("double", 8)):
        X, Z = CX(L(30, es)), CX(L(30, es), L(31, es))
        for Zt in ("DiscreteZeroPoleGain", "ContinuousZeroPoleGain"):
            disc = Zt[0] == "D"
            if not disc and not c.thorough and t == "double": continue
            cases = []
            shapes = [(zr, zc, pr, pc) for zr in range(3) for zc in range(3) for pr in range(3) for pc in range(3) if zr + 2 * zc <= 4 and pr + 2 * pc <= 4 and (c.thorough or zr + 2 * zc + pr + 2 * pc <= 6)]
            for sh in shapes:
                zr, zc, pr, pc = sh
                nz, npl = zr + 2 * zc, pr + 2 * pc
                s = "%d_%d_%d_%d" % sh
                mk = "const Z s = zpk(%d, %d, %d, %d, a); " % sh
                cases.append(("value_" + s, mk + "*o = s(a[30]);", lambda sh=sh, es=es, X=X: [H(es, sh, X).re]))
                cases.append(("order_" + s, mk + "*o++ = T(s.order()); *o = T(TransferFunction{ s }.order());", [rf(max(nz, npl))] * 2))
                def coef(sh=sh, es=es, nz=nz, npl=npl):
                    zr, zc, pr, pc = sh
                    g = L(0, es)
                    return [rf(nz + 1)] + [g * k.re for k in expand(roots(es, 1, zr, zc))] + [rf(npl + 1)] + [k.re for k in expand(roots(es, 1 + nz, pr, pc))]
                if nz <= 3 and npl <= 3: cases.append(("expand_" + s, mk + "const TransferFunction tf{ s }; *o++ = T(tf.numerator.size()); for (const auto& x : tf.numerator.coefficients()) *o++ = x; *o++ = T(tf.denominator.size()); for (const auto& x : tf.denominator.coefficients()) *o++ = x;", coef))
                if nz + npl <= 3: cases.append(("value_complex_" + s, mk + "put(o, s(C{ a[30], a[31] }));", lambda sh=sh, es=es, Z=Z: [H(es, sh, Z).re, H(es, sh, Z).im]))
                if disc and t == "double" and zr + pr <= 2 and zr < 2 and pr < 2 and zc + pc <= 2 and zc < 2 and pc < 2:
                    cases.append(("biquad_" + s, mk + "const CascadedBiquad<T> b{ s }; *o++ = b(a[30]); *o++ = T(b.sections.size()); *o++ = T(b.order());", lambda sh=sh, es=es, X=X, nz=nz, npl=npl: [H(es, sh, X).re, rf(max(sh[0] + sh[1], sh[2] + sh[3])), rf(max(nz, npl))]))
            for n in range(4):
                for m in range(4):
                    if m == 0: continue
                    mk = "TransferFunction<T, eDiscretization::DISCRETE> s{ Polynomial<T>(a, a + %d), Polynomial<T>(a + %d, a + %d) }; " % (n, n, n + m)
                    cn, cd = [CX(L(k, es)) for k in range(n)], [CX(L(n + k, es)) for k in range(m)]
                    cases.append(("tf_value_%d_%d" % (n, m), mk + "*o++ = s(a[30]); *o = T(s.order());", lambda cn=cn, cd=cd, X=X, n=n, m=m: [(horner(cn, X) / horner(cd, X)).re, rf(max(n - 1, m - 1, 0))]))
                    if n + m <= 4: cases.append(("tf_value_complex_%d_%d" % (n, m), mk + "put(o, s(C{ a[30], a[31] }));", lambda cn=cn, cd=cd, Z=Z: [(horner(cn, Z) / horner(cd, Z)).re, (horner(cn, Z) / horner(cd, Z)).im]))
            if disc:
                # biquads: any orders, symbolic coefficients
                orders = [(a, b) for a in range(3) for b in range(3)]
                lists = [[x] for x in orders] + [[x, y] for x in orders for y in (orders if c.thorough else orders[::2])] + [[]]
                for k, ls in enumerate(lists):
                    mk = "CascadedBiquad<T> b; b.sections.resize(%d); " % len(ls)
                    def val(x, ls=ls, es=es):
                        y = CX(1)
                        for i, (no, do) in enumerate(ls):
                            q = 5 * i
                            xp = [CX(0), CX(1), x, x * x]
                            y = y * (CX(L(q, es)) + xp[no] * L(q + 1, es) + xp[1 + no] * L(q + 2, es)) / (CX(L(q + 3, es)) + xp[do] * L(q + 4, es) + xp[1 + do])
                        return y
                    for i, (no, do) in enumerate(ls): mk += "b.sections[%d] = { { a[%d], a[%d], a[%d] }, { a[%d], a[%d] }, %d, %d }; " % ((i,) + tuple(range(5 * i, 5 * i + 5)) + (no, do))
                    nm = "_".join("%d%d" % x for x in ls)
                    cases.append(("cascade_" + nm, mk + "*o++ = b(a[30]); *o = T(b.order());", lambda val=val, X=X, ls=ls: [val(X).re, rf(max(sum(x[0] for x in ls), sum(x[1] for x in ls)))]))
                    if len(ls) == 1: cases.append(("cascade_complex_" + nm, mk + "put(o, b(C{ a[30], a[31] }));", lambda val=val, Z=Z: [val(Z).re, val(Z).im]))
                # biquads of given root sets: the pairing and ordering of roots depends on their values
                import itertools
                vals = ["-2.5", "-0.5", "0", "0.25", "1.5"]  # ascending: sorting changes nothing, and the order of the sections does not matter
                sets = [s for n in range(5) for s in itertools.combinations(vals, n)] + [("0.5", "0.5"), ("-0.5", "-0.5", "-0.5"), ("-1", "0.5", "0.5", "0.5")]
                cx = [(), (("0.5", "0.25"),), (("-1", "2"), ("0.125", "0.5"))]
                for k, rs in enumerate(sets if t == "double" else []):  # one template; the byte-sized orders of the float layout do not resolve
                    for w in range(3 if c.thorough else 2):
                        zs, ps = (rs, sets[(7 * k + 3) % len(sets)])
                        zc, pc = cx[(k + w) % 3], cx[(k // 3 + 2 * w) % 3]
                        n = len(zs) + 2 * len(zc); m = len(ps) + 2 * len(pc)
                        if max(n, m) == 0: continue
                        mk = "Z s; s.gain = a[0]; s.zeros.resize(%d, %d); s.poles.resize(%d, %d); " % (len(zs), len(zc), len(ps), len(pc))
                        for w2, (f, rr, cc) in enumerate((("zeros", zs, zc), ("poles", ps, pc))):
                            for i, v in enumerate(rr): mk += "s.%s.real_roots()[%d] = T(%s); " % (f, i, v)
                            for i, v in enumerate(cc): mk += "s.%s.complex_pairs()[%d] = { T(%s), T(%s) }; " % (f, i, v[0], v[1])
                        def val(zs=zs, ps=ps, zc=zc, pc=pc, X=X, es=es):
                            rt = lambda rr, cc: [CX(Fraction(v)) for v in rr] + [z for v in cc for z in (CX(Fraction(v[0]), Fraction(v[1])), CX(Fraction(v[0]), -Fraction(v[1])))]
                            return (CX(L(0, es)) * product(rt(zs, zc), X) / product(rt(ps, pc), X)).re
                        ns = max((len(zs) + 1) // 2 + len(zc), (len(ps) + 1) // 2 + len(pc))
                        cases.append(("biquad_roots_%d_%d" % (k, w), mk + "const CascadedBiquad<T> b{ s }; *o++ = b(a[30]); *o++ = T(b.order()); *o = T(b.sections.size());", lambda val=val, n=n, m=m, ns=ns: [val(), rf(max(n, m)), rf(ns)]))
                        perm = lambda rr: rr[1::2] + rr[::2][::-1]
                        if k % 2 == w and perm(rs) != rs:
                            mk2 = "Z s; s.gain = a[0]; s.zeros.resize(%d, %d); s.poles.resize(%d, %d); " % (len(zs), len(zc), len(ps), len(pc))
                            for f, rr, cc in (("zeros", perm(zs), zc[::-1]), ("poles", perm(ps), pc[::-1])):
                                for i, v in enumerate(rr): mk2 += "s.%s.real_roots()[%d] = T(%s); " % (f, i, v)
                                for i, v in enumerate(cc): mk2 += "s.%s.complex_pairs()[%d] = { T(%s), T(%s) }; " % (f, i, v[0], v[1])
                            cases.append(("bisort_roots_%d_%d" % (k, w), mk2 + "const CascadedBiquad<T> b{ s }; *o++ = b(a[30]); *o++ = T(b.order()); *o = T(b.sections.size());", lambda val=val, n=n, m=m, ns=ns: [val(), rf(max(n, m)), rf(ns)]))
            for part_nm, sel, args in (("sorted", lambda nm: nm.startswith("bisort"), (10, 7, 6)), ("biquad", lambda nm: nm.startswith("biquad"), (10, 7, 6, ("^void std::sort<",))), ("sys", lambda nm: not nm.startswith("bi"), (6, 0))):
                some = [x for x in cases if sel(x[0])]
                k = 10 if args[0] > 6 else 60
                for g in range(0, len(some), k):
                    part = some[g:g + k]
                    src = (flat(8) if args[0] > 6 else "") + PRE % (t, Zt) + "".join('extern "C" void e_%s(T* o, const T* a) { %s }\n' % (nm, b) for nm, b, w in part)
                    jobs.append((spec, c, "%s_%s_%s_%d_%d" % (part_nm, t, Zt[0], g, k), src, es, (), ()) + args); meta.append((t, es, Zt, part))
    units = []
    for m, (t, es, Zt, cases) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        for g in range(0, len(cases), 8):
            def unit(m=m, t=t, es=es, Zt=Zt, part=cases[g:g + 8]):
                for nm, b, w in part: check_spec(c, "%s<%s>%s" % (nm, t, "" if Zt[0] == "D" else " continuous"), m.fns["e_" + nm], m, w, es, where="LTISystems/Systems.hpp")
            units.append(unit)
    c.each(units)

if __name__ == "__main__": main("I02", run, "partial evaluation of the conversions between zero-pole-gain, transfer function and biquad cascade and of their evaluation; normal forms over symbolic roots, gain and argument compared")
