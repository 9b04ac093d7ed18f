from vf import *
from mapc import *

STUB = """
#define POCKETFFT_HDRONLY_H
#include <complex>
#include <cstddef>
#include <initializer_list>
#include <type_traits>
#include <vector>
extern "C" {
void c2c_(const void* in, void* out, double fct, size_t n, ptrdiff_t si, ptrdiff_t so, size_t axis, bool fwd, size_t dims);
void r2c_(const void* in, void* out, double fct, size_t n, ptrdiff_t si, ptrdiff_t so, size_t axis, bool fwd, size_t dims);
void c2r_(const void* in, void* out, double fct, size_t n, ptrdiff_t si, ptrdiff_t so, size_t axis, bool fwd, size_t dims);
}
// declared interface of PocketFFT: the transforms themselves stay uninterpreted
namespace pocketfft_dspbb {
template <class T> struct vec_ {
	T v[2] = {}; size_t cnt = 0;
	vec_() = default;
	vec_(std::initializer_list<T> l) { for (const auto& x : l) push_back(x); }
	vec_(size_t n, T x) { for (size_t i = 0; i < n; ++i) push_back(x); }
	void push_back(T x) { v[cnt & 1] = x; ++cnt; }
	T& operator[](size_t i) { return v[i]; }
	const T& operator[](size_t i) const { return v[i]; }
	size_t size() const { return cnt; }
	T* begin() { return v; } T* end() { return v + cnt; }
	const T* begin() const { return v; } const T* end() const { return v + cnt; }
};
using shape_t = vec_<size_t>;
using stride_t = vec_<ptrdiff_t>;
constexpr bool FORWARD = true, BACKWARD = false;
template <class T> void c2c(const shape_t& s, const stride_t& si, const stride_t& so, const shape_t& ax, bool f, const std::complex<T>* i, std::complex<T>* o, T fct, size_t = 1) { c2c_(i, o, fct, s[0], si[0], so[0], ax[0], f, s.size() * 100 + si.size() * 10 + so.size() * 1 + ax.size() * 1000); }
template <class T> void r2c(const shape_t& s, const stride_t& si, const stride_t& so, size_t ax, bool f, const T* i, std::complex<T>* o, T fct, size_t = 1) { r2c_(i, o, fct, s[0], si[0], so[0], ax, f, s.size() * 100 + si.size() * 10 + so.size() * 1 + 1000); }
template <class T> void r2c(const shape_t& s, const stride_t& si, const stride_t& so, const shape_t& ax, bool f, const T* i, std::complex<T>* o, T fct, size_t = 1) { r2c_(i, o, fct, s[0], si[0], so[0], ax[0], f, s.size() * 100 + si.size() * 10 + so.size() * 1 + ax.size() * 1000); }
template <class T> void c2r(const shape_t& s, const stride_t& si, const stride_t& so, size_t ax, bool f, const std::complex<T>* i, T* o, T fct, size_t = 1) { c2r_(i, o, fct, s[0], si[0], so[0], ax, f, s.size() * 100 + si.size() * 10 + so.size() * 1 + 1000); }
template <class T> void c2r(const shape_t& s, const stride_t& si, const stride_t& so, const shape_t& ax, bool f, const std::complex<T>* i, T* o, T fct, size_t = 1) { c2r_(i, o, fct, s[0], si[0], so[0], ax[0], f, s.size() * 100 + si.size() * 10 + so.size() * 1 + ax.size() * 1000); }
}
"""
PRE = STUB + """#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <dspbb/Math/FFT.hpp>
using namespace dspbb;
template<class T> using V = SignalView<T>;
template<class T> using F = SpectrumView<T>;
extern "C" void sink_(const void* p, size_t n);
template <class T, eSignalDomain D> void sink(const BasicSignal<T, D>& s) { sink_(s.data(), s.size()); }
"""
# name, body, transform, n of the transform (in terms of argument n), result length, result is spectrum, out ('arg' or 'sink')
def entries(t):
    R, C = t, "std::complex<%s>" % t
    es = 4 if t == "float" else 8
    n = arg(2)
    E = []
    def add(name, body, call, N, res, cplx_out, cplx_in, scale, fwd, mirror, out, lo=1):
        E.append((name, body % {"R": R, "C": C}, call, N, res, cplx_out, cplx_in, scale, fwd, mirror, out, lo))
    half = idiv(n, rf(2)) + 1
    for out in ("into", "ret"):
        I = out == "into"
        add("rfull_" + out, "Fft(F<%(C)s>((%(C)s*)o, n), V<const %(R)s>((const %(R)s*)a, n));" if I else "sink(Fft(V<const %(R)s>((const %(R)s*)a, n), FFT_FULL));", "r2c_", n, n, 1, 0, 0, 1, True, out)
        add("rhalf_" + out, "Fft(F<%(C)s>((%(C)s*)o, n / 2 + 1), V<const %(R)s>((const %(R)s*)a, n));" if I else "sink(Fft(V<const %(R)s>((const %(R)s*)a, n), FFT_HALF));", "r2c_", n, half, 1, 0, 0, 1, False, out)
        add("c_" + out, "Fft(F<%(C)s>((%(C)s*)o, n), V<const %(C)s>((const %(C)s*)a, n));" if I else "sink(Fft(V<const %(C)s>((const %(C)s*)a, n)));", "c2c_", n, n, 1, 1, 0, 1, False, out)
        add("ic_" + out, "Ifft(V<%(C)s>((%(C)s*)o, n), F<const %(C)s>((const %(C)s*)a, n));" if I else "sink(Ifft(F<const %(C)s>((const %(C)s*)a, n)));", "c2c_", n, n, 1, 1, 1, 0, False, out)
        add("irfull_" + out, "Ifft(V<%(R)s>((%(R)s*)o, n), F<const %(C)s>((const %(C)s*)a, n));" if I else "sink(Ifft(F<const %(C)s>((const %(C)s*)a, n), FFT_FULL));", "c2r_", n, n, 0, 1, 1, 0, False, out)
    add("irhalf_into", "Ifft(V<%(R)s>((%(R)s*)o, n), F<const %(C)s>((const %(C)s*)a, n / 2 + 1));", "c2r_", n, n, 0, 1, 1, 0, False, "into")
    add("irhalf_even", "sink(Ifft(F<const %(C)s>((const %(C)s*)a, n), FFT_HALF, true));", "c2r_", n * 2 - 2, n * 2 - 2, 0, 1, 1, 0, False, "ret", 2)
    add("irhalf_odd", "sink(Ifft(F<const %(C)s>((const %(C)s*)a, n), FFT_HALF, false));", "c2r_", n * 2 - 1, n * 2 - 1, 0, 1, 1, 0, False, "ret")
    return E

def one(c, key, fn, mod, e, es):
    name, body, callname, N, res, cplx_out, cplx_in, scale, fwd, mirror, out, lo = e
    T = Terms(fn, mod=mod); T.nnset.add(("arg", 2))
    ctx = Ctx.of(fn, ranges={2: (lo, 60)})
    c.cover(fn)
    try:
        calls = [i for i in fn.all() if i.op == "call" and (i.callee or "") in ("c2c_", "r2c_", "c2r_")]
        if not calls: raise NotDecided("no PocketFFT transform is reached")
        i = calls[0]
        if len(calls) > 1: raise NotDecided("several transform calls", calls[1])
        if i.callee != callname: raise NotCovered("performs the %s transform, expected %s" % (i.callee, callname), i)
        pcs = path_conditions(T)
        si, so = es * (2 if cplx_in else 1), es * (2 if cplx_out else 1)
        a = [T.full(T.opnd(o)) for o in i.ops[:9]]
        pc = pcs.get(i.blk, rf(0))
        if out == "ret": ob, on = result_base(T, "sink")
        else: ob, on = atom(("arg", 0)), None
        if ob is None: raise NotDecided("result never produced")
        want = [atom(("arg", 1)), ob, rf(1) / N if scale else rf(1), N, rf(si), rf(so), rf(0), rf(fwd), rf(1111)]
        what = ["input", "output", "scale factor", "transform length", "input stride", "output stride", "axis", "direction (1 = forward)", "dimensions"]
        seen = 0
        for asm in case_split([pc] + a + ([on] if on is not None else [])):
            if infeasible(asm) or not feasible_case(ctx, asm): continue
            if ctx.eq(N, rf(0), asm) == "same": continue
            must(ctx, subst(pc, asm), rf(1), asm, "the transform is skipped for some lengths", i)
            if on is not None: must(ctx, subst(on, asm), res, asm, "result has %s elements, expected %s" % (show(subst(on, asm)), show(res)), i)
            for w, x, y in zip(what, a, want):
                must(ctx, subst(x, asm), subst(y, asm), asm, "%s of the transform is %s, expected %s" % (w, show(subst(x, asm))[:200], show(subst(y, asm))[:200]), i)
            seen += 1
        if not seen: raise NotDecided("no feasible case")
        c.ok(1, key + ": transform arguments proved")
    except NotDecided as x: c.skip(key, "%s (%s)" % (x, x.ins.loc() if x.ins is not None else "")); return
    except NotCovered as x: c.bad(key, str(x), x.ins.loc() if x.ins is not None else "", x.ins.chain() if x.ins is not None else None); return
    after = lambda T, s: fn.ins_dominates(i, s.ins)
    t = {4: "cf", 8: "cd"}[es] if cplx_out else {4: "f", 8: "d"}[es]
    n = arg(2)
    outk = ("arg", 0) if out == "into" else "sink"
    low = idiv(n, rf(2)) + 1 if mirror else res
    exp = lambda x: [comp * s for comp, s in zip(elem(ob, t, n - x), (1, -1))]
    check_map(c, key + " tail", fn, mod, outk, t, res, exp, ranges={2: (lo, 60)}, lo=low, filt=after)

def run(c):
    jobs, meta = [], []
    for t, es in (("float", 4), ("double", 8)):
        es_ = entries(t)
        src = PRE
        for e in es_: src += 'extern "C" void e_%s(void* o, const void* a, size_t n) { %s }\n' % (e[0], e[1])
        jobs.append((c.ir, "fft_" + t, src, ["^sink_", "^c2c_", "^r2c_", "^c2r_"])); meta.append((t, es, es_))
    for m, (t, es, es_) in zip(c.parallel(jobs), meta):
        if isinstance(m, CompileError):
            c.skip("fft_" + t, "does not compile against the declared PocketFFT interface: %s" % first_errors(str(m))); continue
        if isinstance(m, Exception): raise m
        for e in es_: one(c, "%s<%s>" % (e[0], t), m.fns["e_" + e[0]], m, e, es)

if __name__ == "__main__": main("F01", run, "Every FFT entry point is reduced to its PocketFFT call (left uninterpreted): which transform, its direction, length, strides, scale and buffers are compared with the specification, and what is written afterwards (the mirrored half) is proved to be exactly the conjugate of the opposite bin.")
