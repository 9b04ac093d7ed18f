from vf import *
from spec import *
from callc import *
import cmath, math
from P01 import product
from I02 import PRE as SYS, roots

PRE = SYS.replace("#include <dspbb/LTISystems/Systems.hpp>", "#include <dspbb/Filtering/IIR.hpp>") + """
template <class P> static inline T value(const P& p, T x) { T y = 1; for (auto r : p.real_roots()) y *= x - r; for (auto r : p.complex_pairs()) y *= (x - r.real()) * (x - r.real()) + r.imag() * r.imag(); return y; }
template <class S> static inline void show(T* o, const S& s, T x) { *o++ = s.gain * value(s.zeros, x) / value(s.poles, x); *o++ = T(s.zeros.num_roots()); *o++ = T(s.poles.num_roots()); }
"""
def F(n, *a): return atom(("f", n) + tuple(rf(x) for x in a))
PI = rf(3.141592653589793)
def H(es, sh, x):
    zr, zc, pr, pc = sh
    return CX(L(0, es)) * product(roots(es, 1, zr, zc), x) / product(roots(es, 1 + zr + 2 * zc, pr, pc), x)
BANDS = (("Lowpass", 1), ("Highpass", 1), ("Bandpass", 2), ("Bandstop", 2))
def band(c, key, fn, mod, nm, ar):
    """the frequency map handed to MapZDomain sends the band edges to the prototype's band edge +-j, and 1 and -1 to the prototype's pass or stop end"""
    c.cover(fn)
    try:
        T = Terms(fn, mod=mod)
        cs = [x for x in calls_of(T, "MapZDomain") if x[0].blk in fn.returning]
        if len(cs) != 1 or cs[0][2]: raise NotDecided("not a single MapZDomain call")
        i, pc, _ = cs[0]
        a = [T.full(T.opnd(o)) for o in i.ops if not (isinstance(o, dict) and o.get("k") == "fn")]
        a = a[:2 + (3 if ar == 1 else 4)]
        if len(a) != 2 + (3 if ar == 1 else 4) or any(x is None for x in a): raise NotDecided("arguments not resolved", i)
        if a[1] != arg(1): raise NotCovered("the system transformed is not the one given", i)
        s, co = a[2], a[3:]
        n = bad = 0; wit = None
        one = {"Lowpass": (1, -1), "Highpass": (-1, 1), "Bandpass": (-1, -1), "Bandstop": (1, 1)}[nm]
        special = [(0.5, 0.75), (0.25, 0.75), (0.2, 0.7), (0.3, 0.8), (0.1, 0.6), (0.4, 0.9), (0.5, 0.9), (0.1, 0.5)]
        for p in points(None, None, None, 400, seed=9):
            lo, hi = sorted((0.03 + 0.94 * p.h("w", 1) / 2.0**64, 0.03 + 0.94 * p.h("w", 2) / 2.0**64))
            exact = bool(special)
            if exact: lo, hi = special.pop()
            if hi - lo < 0.02: continue
            p.fixed = {2: lo, 3: hi}
            try: sv, cv = p.ev(s), [p.ev(x) for x in co]
            except BadPoint:
                if exact: raise NotCovered("the map is not defined (a division by zero) at the admissible band edge%s %g%s" % ("s" if ar == 2 else "", lo, ", %g" % hi if ar == 2 else ""), i)
                continue
            if p.opaque: raise NotDecided("the map depends on unknown values", i)
            def g(z):
                z = complex(z)
                num = cv[1] * z + cv[0] if ar == 1 else cv[2] * z * z + cv[1] * z + cv[0]
                den = cv[1] + cv[0] * z if ar == 1 else cv[2] + cv[1] * z + cv[0] * z * z
                if abs(den) < 1e-12: raise BadPoint("pole")
                return sv * num / den
            inside = (0.5 * lo,) if ar == 1 else (lo + 0.2 * (hi - lo), 0.5 * (lo + hi), hi - 0.2 * (hi - lo))
            outside = (0.5 * (1 + lo),) if ar == 1 else (0.5 * lo, 0.5 * (1 + hi))
            sg = 1 if nm in ("Lowpass", "Bandpass") else -1
            try: side = all(sg * g(cmath.exp(1j * math.pi * w)).real > 0 for w in inside) and all(sg * g(cmath.exp(1j * math.pi * w)).real < 0 for w in outside)
            except BadPoint: continue
            try: got = [g(1), g(-1)] + [g(cmath.exp(1j * math.pi * w)) for w in ((lo,) if ar == 1 else (lo, hi))]
            except BadPoint: continue
            n += 1
            ok = abs(got[0] - one[0]) < 1e-5 and abs(got[1] - one[1]) < 1e-5 and all(abs(x.real) < 1e-4 and abs(abs(x.imag) - 1) < 1e-4 for x in got[2:])
            if ar == 2: ok = ok and got[2].imag * got[3].imag < 0
            ok = ok and side
            if not ok: bad += 1; wit = wit or (lo, hi, got)
        if n < 20: raise NotDecided("too few comparable points")
        if bad: raise NotCovered("band edges %.4g%s: 1, -1 and the edges map to %s" % (wit[0], ", %.4g" % wit[1] if ar == 2 else "", ", ".join("%.4g%+.4gj" % (z.real, z.imag) for z in wit[2])), i)
        c.ok(3 + ar, "%s: map agrees" % key)
    except NotDecided as e: c.skip(key, "%s (%s)" % (e, e.ins.loc() if e.ins is not None else ""))
    except NotCovered as e: c.bad(key, str(e), e.ins.loc(), e.ins.chain())
def rel2(c, key, fn, mod, sh, es):
    zr, zc, pr, pc = sh
    def cp(p, k): return complex(p.ev(L(k, es)).real if isinstance(p.ev(L(k, es)), complex) else p.ev(L(k, es)))
    def rel(p, v):
        if (round(v[1].real), round(v[2].real), round(v[3].real), round(v[4].real)) != (0, 2 * zc, 0, 2 * pc): return "the result has %g real zeros, %g zero pairs, %g real poles and %g pole pairs, expected 0, %d, 0 and %d" % (v[1].real, v[2].real, v[3].real, v[4].real, 2 * zc, 2 * pc)
        q = [complex(v[5 + 2 * k].real, v[6 + 2 * k].real) for k in range(2 * zc + 2 * pc)]
        old = [cp(p, 1 + 2 * k) + 1j * cp(p, 2 + 2 * k) for k in range(zc + pc)]
        g, s, a0, a1, a2 = cp(p, 0), *(cp(p, Q + 1 + j) for j in range(4))
        def H(g, zs, ps, x):
            y = g
            for r in zs: y *= (x - r) * (x - r.conjugate())
            for r in ps: y /= (x - r) * (x - r.conjugate())
            return y
        for x in (0.3 + 0j, -1.2 + 0j, 0.4 + 0.8j, cmath.exp(1j)):
            want = H(g, old[:zc], old[zc:], s * (a2 * x * x + a1 * x + a0) / (a2 + a1 * x + a0 * x * x))
            got = H(v[0], q[:2 * zc], q[2 * zc:], x)
            if abs(got - want) > 1e-6 * (1 + abs(want)): return "the response at %s is %.6g%+.6gj, the original response at the mapped point is %.6g%+.6gj" % (x, got.real, got.imag, want.real, want.imag)
    check_rel(c, key, fn, mod, 5 + 4 * (zc + pc), rel, es, where="Filtering/IIR/BandTransforms.hpp", obligations=4)
Q = 24  # map parameters start here
def run(c):
    jobs, meta = [], []
    for t, es in (("double", 8), ("float", 4)) if c.thorough else (("double", 8),):
        cases = []
        X = L(Q, es)
        shapes = [(zr, zc, pr, pc) for zr in range(3) for zc in range(3) for pr in range(3) for pc in range(3) if zr + 2 * zc <= 4 and pr + 2 * pc <= 4 and (c.thorough or zr + 2 * zc + pr + 2 * pc <= 5)]
        for sh in shapes:
            zr, zc, pr, pc = sh
            nz, npl = zr + 2 * zc, pr + 2 * pc
            s = "%d_%d_%d_%d" % sh
            n = max(nz, npl)
            # continuous to discrete
            for nm, call, k in (("bilinear", "BilinearTransform(s, a[%d])" % (Q + 1), 2 * L(Q + 1, es)),
                                ("prewarp", "BilinearTransform(s, a[%d], { a[%d] })" % (Q + 1, Q + 2), L(Q + 2, es) / F("tan", L(Q + 2, es) / L(Q + 1, es) / 2))):
                cases.append(("%s_%s" % (nm, s), "const ContinuousZeroPoleGain<T> s = zpk_c(%d, %d, %d, %d, a); show(o, %s, a[%d]);" % (sh + (call, Q)),
                              lambda sh=sh, k=k, es=es, X=X, n=n: [H(es, sh, CX(k * (X - 1) / (X + 1))).re, rf(n), rf(n)], None))
            if n <= 3: cases.append(("halfband_%s" % s, "const ContinuousZeroPoleGain<T> s = zpk_c(%d, %d, %d, %d, a); show(o, impl::DiscretizePrototype(s), a[%d]);" % (sh + (Q,)),
                          lambda sh=sh, es=es, X=X, n=n: [H(es, sh, CX((X - 1) / (X + 1))).re, rf(n), rf(n)], None))
            # allpass maps
            S, A0, A1, A2 = (L(Q + 1 + j, es) for j in range(4))
            if nz + npl > 0:
                cases.append(("map1_%s" % s, "const Z s = zpk(%d, %d, %d, %d, a); show(o, impl::MapZDomain(s, a[%d], a[%d], a[%d]), a[%d]);" % (sh + (Q + 1, Q + 2, Q + 3, Q)),
                              lambda sh=sh, es=es, X=X, S=S, A0=A0, A1=A1, n=n: [H(es, sh, CX(S * (A1 * X + A0) / (A1 + A0 * X))).re, rf(n), rf(n)], None))
                if zr + pr == 0 and nz == npl:
                    if n <= 2: cases.append(("roots2_%s" % s, "const Z s = zpk(%d, %d, %d, %d, a); const Z r = impl::MapZDomain(s, a[%d], a[%d], a[%d], a[%d]); *o++ = r.gain; *o++ = T(r.zeros.num_real_roots()); *o++ = T(r.zeros.num_complex_pairs()); *o++ = T(r.poles.num_real_roots()); *o++ = T(r.poles.num_complex_pairs()); for (auto x : r.zeros.complex_pairs()) o = put(o, x); for (auto x : r.poles.complex_pairs()) o = put(o, x);" % (sh + (Q + 1, Q + 2, Q + 3, Q + 4)), "rel", sh))
                    cases.append(("map2_%s" % s, "const Z s = zpk(%d, %d, %d, %d, a); show(o, impl::MapZDomain(s, a[%d], a[%d], a[%d], a[%d]), a[%d]);" % (sh + (Q + 1, Q + 2, Q + 3, Q + 4, Q)),
                                  lambda sh=sh, es=es, X=X, S=S, A0=A0, A1=A1, A2=A2, n=n: [H(es, sh, CX(S * (A2 * X * X + A1 * X + A0) / (A2 + A1 * X + A0 * X * X))).re, rf(2 * n), rf(2 * n)], None))
        # the root transformation itself: real roots to reals or to conjugate pairs, padding with reals or a pair
        J = CX(0, 1)
        for fn_, code, img in (("scale", "[](const auto& p) { return std::array{ C(T(2) * p), C(p) + T(1) }; }", lambda z: [z * 2, z + 1]),
                               ("split", "[](const auto& p) { return std::array{ C(p) + C(0, 1), C(p) - C(0, 1) }; }", lambda z: [z + J, z - J]),
                               ("one", "[](const auto& p) { return std::array{ T(3) - C(p) }; }", lambda z: [3 - z])):
            for pn, pads in (("reals", ["C(5)", "C(7)"]), ("pair", ["C(5, 2)", "C(5, -2)"])):
                od = 1 if fn_ == "one" else 2
                if od == 1 and pn == "pair": continue
                pz = [CX(5), CX(7)][:od] if pn == "reals" else [CX(5, 2), CX(5, -2)]
                for r in range(3):
                    for q in range(3):
                        for extra in (None, 0, 1, 2):
                            n = r + 2 * q
                            if n == 0 and extra == 0 or n > 4: continue
                            body = "F p; p.resize(%d, %d); set(p, a); const auto y = TransformRoots(p, %s, %d, std::array{ %s }); *o++ = value(y, a[%d]); *o++ = T(y.num_roots()); *o = T(y.num_real_roots());" % (r, q, code, 0 if extra is None else n + extra, ", ".join(pads[:od]), Q)
                            def want(r=r, q=q, n=n, extra=extra or 0, img=img, pz=pz, es=es, X=X, od=od, fn_=fn_, pn=pn):
                                zs = [w for z in roots(es, 0, r, q) for w in img(z)] + pz * extra
                                return [product(zs, CX(X)).re, rf(od * (n + extra)), rf((0 if fn_ == "split" else od * r) + (0 if pn == "pair" else od * extra))]
                            cases.append(("roots_%s_%s_%d_%d_%s" % (fn_, pn, r, q, "none" if extra is None else extra), body, want, None))
        g = 12
        for k in range(0, len(cases), g):
            part = cases[k:k + g]
            src = PRE % (t, "DiscreteZeroPoleGain") + "static inline ContinuousZeroPoleGain<T> zpk_c(size_t zr, size_t zc, size_t pr, size_t pc, const T* a) { Z s = zpk(zr, zc, pr, pc, a); return { s.gain, std::move(s.zeros), std::move(s.poles) }; }\n"
            src += "".join('extern "C" void e_%s(T* o, const T* a) { %s }\n' % (nm, b) for nm, b, w, f in part)
            jobs.append((spec, c, "trans_%s_%d" % (t, k), src, es)); meta.append((t, es, part))
    for t in ("float", "double"):
        src = "#include <dspbb/Filtering/IIR.hpp>\nusing namespace dspbb; using T = %s; using Z = DiscreteZeroPoleGain<T>;\n" % t
        for nm, ar in BANDS:
            for sfx, ty in (("", "T"), ("_conv", "double" if t == "float" else "float")):
                src += 'extern "C" void e_%s%s(Z& o, const Z& s, %s) { o = Halfband2%s(s, %s); }\n' % (nm, sfx, ", ".join("%s t%d" % (ty, i) for i in range(ar)), nm, ", ".join("t%d" % i for i in range(ar)))
        jobs.append((c.ir, "bands_%s" % t, src, ("MapZDomain",))); meta.append((t, None, None))
    units = []
    for m, (t, es, cases) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        if es is None:
            for nm, ar in BANDS:
                for sfx in ("", "_conv"): units.append(lambda m=m, t=t, nm=nm, ar=ar, sfx=sfx: band(c, "Halfband2%s%s<%s>" % (nm, sfx, t), m.fns["e_%s%s" % (nm, sfx)], m, nm, ar))
            continue
        for g in range(0, len(cases), 4):
            def unit(m=m, t=t, es=es, part=cases[g:g + 4]):
                for nm, b, w, f in part: rel2(c, "%s<%s>" % (nm, t), m.fns["e_" + nm], m, f, es) if w == "rel" else check_spec(c, "%s<%s>" % (nm, t), m.fns["e_" + nm], m, w, es, where="Filtering/IIR/BandTransforms.hpp", ignore=re.compile("AreRootsConjugatePairs"))
            units.append(unit)
    c.each(units)

if __name__ == "__main__": main("I04", run, "partial evaluation of the frequency transformations at fixed root counts; the response of the result at a symbolic point compared with the original response at the mapped point")
