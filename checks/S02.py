from vf import *
from spec import *
import itertools

PRE = """#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/IIR.hpp>
using namespace dspbb;
using T = %s;
struct Tag { T tag; template <class S> void operator()(S&&) const {} };
struct Fun { T tag; template <class U> U operator()(U x) const { return x; } };
"""
# family: (bands, {setter: [(field, ...)]}, field order)
LOW, BAND = ("Lowpass", "Highpass"), ("Bandpass", "Bandstop")
def families():
    """(name, expression of the default descriptor, {setter: fields set}, [(field, default)], frequencies checked by the setter, file)"""
    I = "Filtering/IIR/Descs.hpp"; R = "Filtering/FIR/Descs.hpp"
    half, q1, q3, rip = Fraction(1, 2), Fraction(1, 4), Fraction(3, 4), Fraction("0.1")
    for b in LOW + BAND:
        pos, setter = ([("cutoff", half)], "Cutoff") if b in LOW else ([("lower", q1), ("upper", q3)], "Band")
        for m, rs in (("Butterworth", ()), ("Chebyshev1", ("PassbandRipple",)), ("Chebyshev2", ("StopbandRipple",)), ("Elliptic", ("PassbandRipple", "StopbandRipple"))):
            fields = pos + [(r[0].lower() + r[1:], rip) for r in rs]
            st = {setter: [f for f, _ in pos]}
            for r in rs: st[r] = [r[0].lower() + r[1:]]
            yield "Iir.%s.%s" % (b, m), st, fields, setter, I
        yield "Fir.%s.Windowed" % b, {setter: [f for f, _ in pos]}, pos, setter, R
        if b in LOW:
            pos = [("cutoffBegin", Fraction("0.45")), ("cutoffEnd", Fraction("0.55"))]
            w = [("weightLow", 1), ("weightTransition", 0), ("weightHigh", 1)]
        else:
            pos = [("lowerBegin", Fraction("0.2")), ("lowerEnd", Fraction("0.3")), ("upperBegin", Fraction("0.7")), ("upperEnd", Fraction("0.8"))]
            w = [("weightLow", 1), ("weightTransition1", 0), ("weightMid", 1), ("weightTransition2", 0), ("weightHigh", 1)]
        yield "Fir.%s.LeastSquares" % b, {setter: [f for f, _ in pos], "Weight": [f for f, _ in w], "Grid": ["grid"]}, pos + w + [("grid", 0)], setter, R
    yield "Fir.Hilbert.LeastSquares", {"TransitionWidth": ["transitionWidth"], "TransitionWeight": ["transitionWeight"], "Grid": ["grid"]}, [("transitionWidth", None), ("transitionWeight", 1), ("grid", 0)], None, R
def chain(order, st):
    """setter calls in the given order; every argument is the next input sample; returns (code, {field: index})"""
    s, got, k = "", {}, 0
    for n in order:
        args = []
        for f in st[n]:
            args.append("size_t(%d)" % (100 + k) if f == "grid" else "a[%d]" % k)
            got[f] = ("g", 100 + k) if f == "grid" else ("a", k)
            k += 1
        s += ".%s(%s)" % (n, ", ".join(args))
    return s, got
def orders(st, fam):
    for n in range(1, len(st) + 1):
        for p in itertools.permutations(st, n):
            if p[0] == "Grid" and n > 1: continue
            yield p
    for x in st:
        if x != "Grid" and len(st) > 1:
            for y in st:
                if y != x and y != "Grid": yield (x, y, x)

def carriers():
    """descriptors that carry a window, a response or a weight: (name, setters with several kinds of argument, observers, file)"""
    for b in LOW + BAND + ("Hilbert", "Arbitrary"):
        pos = [] if b in ("Hilbert", "Arbitrary") else ["cutoff"] if b in LOW else ["lower", "upper"]
        st = {"Window": "window"}
        if pos: st["Cutoff" if b in LOW else "Band"] = pos
        if b == "Arbitrary": st["Response"] = "responseFunc"
        yield "Fir.%s.Windowed" % b, st, pos
    yield "Fir.Arbitrary.LeastSquares", {"Response": "responseFunc", "Weight": "weightFunc", "Grid": "grid"}, []
def sequences(st):
    kinds = [(n, k) for n in st for k in ((0, 1, 2) if n == "Window" else (0,))]
    for n in range(0, 4):
        for seq in itertools.product(kinds, repeat=n):
            if any(seq[i][0] == seq[i + 1][0] and seq[i][0] != "Window" for i in range(n - 1)): continue
            yield seq
def carried(fam, st, pos, seq, es):
    """setter calls with functions of their own type, views, and ready made windows; what the descriptor then has to hold"""
    code, k, at = "", 0, {}
    for n, kind in seq:
        if n == "Window":
            if kind == 0: code += ".Window(Tag{ a[%d] })" % k
            elif kind == 1: code += ".Window(BasicSignalView<const T, TIME_DOMAIN>(a + %d, size_t(2)))" % k
            else: code += ".Window(windows::kaiser.alpha(T(a[%d])))" % k
            at[n] = (kind, k); k += 2
        elif n in ("Cutoff", "Band"):
            code += ".%s(%s)" % (n, ", ".join("a[%d]" % (k + j) for j in range(len(pos)))); at[n] = (0, k); k += len(pos)
        elif n == "Grid": code += ".Grid(size_t(%d))" % (100 + k); at[n] = (0, 100 + k); k += 1
        else: code += ".%s(Fun{ a[%d] })" % (n, k); at[n] = (0, k); k += 1
    show, want, pre = "", [], ""
    for n, f in st.items():
        if n in ("Cutoff", "Band"):
            df = {"cutoff": Fraction(1, 2), "lower": Fraction(1, 4), "upper": Fraction(3, 4)}
            for j, x in enumerate(f): show += "*o++ = T(d.%s); " % x; want.append(L(at[n][1] + j, es) if n in at else rf(df[x]))
        elif n == "Grid": show += "*o++ = T(d.grid); "; want.append(rf(at[n][1] if n in at else 0))
        elif n not in at:
            ty = "windows::Hamming" if n == "Window" else "decltype(impl::Default%s)" % n
            pre += "static_assert(std::is_same_v<std::decay_t<decltype(d.%s)>, std::decay_t<%s>>); " % (f, ty)
        elif n == "Window" and at[n][0] == 1: show += "*o++ = d.window[0]; *o++ = d.window[1]; *o++ = T(d.window.size()); "; want += [L(at[n][1], es), L(at[n][1] + 1, es), rf(2)]
        elif n == "Window" and at[n][0] == 2: show += "*o++ = T(d.window.m_alpha); "; want.append(L(at[n][1], es))
        else: show += "*o++ = d.%s.tag; " % f; want.append(L(at[n][1], es))
    return code, pre + show, want

def run(c):
    jobs, meta = [], []
    for t, es in (("float", 4), ("double", 8)):
        cases = []
        for fam, st, fields, setter, where in families():
            for o in orders(st, fam):
                if o[0] == "Grid": continue  # the untyped default descriptors take their type from another setter first
                code, got = chain(o, st)
                nm = "%s_%s" % (fam.replace(".", "_"), "_".join(o))
                code_ = 'extern "C" void e_%s(T* o, const T* a) { const auto d = %s%s; %s}\n' % (nm, fam, code, "".join("*o++ = T(d.%s); " % f for f, _ in fields))
                def want(fields=fields, got=got, es=es):
                    r = []
                    for f, dv in fields:
                        g = got.get(f)
                        r.append((None if dv is None else rf(dv)) if g is None else rf(g[1]) if g[0] == "g" else L(g[1], es))
                    return r
                cases.append((nm, want, where, code_))
        for fam, st, pos in carriers():
            for seq in sequences(st):
                code, show, w = carried(fam, st, pos, seq, es)
                nm = "%s_%s" % (fam.replace(".", "_"), "_".join("%s%d" % x for x in seq))
                code_ = 'extern "C" void e_%s(T* o, const T* a) { const auto d = %s%s; %s}\n' % (nm, fam, code, show)
                if w: cases.append((nm, lambda w=w: w, "Filtering/FIR/Descs.hpp", code_))
                else: cases.append((nm, lambda: [], "Filtering/FIR/Descs.hpp", code_))
        for k in range(0, len(cases), 120):
            part = cases[k:k + 120]
            jobs.append((c.ir, "descs_%s_%d" % (t, k), PRE % t + "".join(x[3] for x in part))); meta.append((t, es, part))
    units = []
    for m, (t, es, cases) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        for g in range(0, len(cases), 8):
            def unit(m=m, t=t, es=es, part=cases[g:g + 8]):
                for nm, w, where, valid in part:
                    check_spec(c, "%s<%s>" % (nm, t), m.fns["e_" + nm], m, w, es, where=where)
            units.append(unit)
    c.each(units)

if __name__ == "__main__": main("S02", run, "value flow of every sequence of descriptor setters; each field holds what its last setter was given, or its default")
