from vf import *
from spec import *
from P01 import horner

PRE = """#include <dspbb/Filtering/IIR/Filter.hpp>
#include <dspbb/Filtering/IIR/Realizations.hpp>
using namespace dspbb;
using T = %s;
template <class S> using TF = DiscreteTransferFunction<S>;
template <class S> static inline TF<S> tf(size_t nb, size_t na, const S* a) { return { Polynomial<S>(a, a + nb), Polynomial<S>(a + nb, a + nb + na) }; }
"""
def difference(b, a, x, state=None):
    """y[n] = (sum_k b_(M-k) x[n-k] - sum_(k>=1) a_(N-k) y[n-k]) / a_N; coefficients by ascending power"""
    y = []
    for n in range(len(x)):
        s = rf(0)
        for k in range(len(b)):
            if n >= k: s = s + b[len(b) - 1 - k] * x[n - k]
        for k in range(1, len(a)):
            if n >= k: s = s - a[len(a) - 1 - k] * y[n - k]
        y.append(s / a[-1])
    return y
def vary(systems, x):
    """the difference equation with the coefficients of each sample's system"""
    y = []
    for n, (b, a) in enumerate(systems):
        s = rf(0)
        for k in range(len(b)):
            if n >= k: s = s + b[len(b) - 1 - k] * x[n - k]
        for k in range(1, len(a)):
            if n >= k: s = s - a[len(a) - 1 - k] * y[n - k]
        y.append(s / a[-1])
    return y
IN = 16  # the input samples start here
DRIVE = {
    # name: (code, how the outputs relate: list of (input indices))
    "single": "for (size_t i = 0; i < K; ++i) o[i] = st.feed(x[i], sys);",
    "range": "st.feed(x, x + K, o, sys);",
    "chunks": "st.feed(x, x + 1, o, sys); st.feed(x + 1, x + 1, o + 1, sys); st.feed(x + 1, x + K, o + 1, sys);",
    "mixed": "o[0] = st.feed(x[0], sys); st.feed(x + 1, x + K, o + 1, sys);",
    "inplace": "T y[K]; for (size_t i = 0; i < K; ++i) y[i] = x[i]; st.feed(y, y + K, y, sys); for (size_t i = 0; i < K; ++i) o[i] = y[i];",
    "reset": "T y[K]; for (size_t i = 0; i < K; ++i) y[i] = x[i] * x[i] + T(1); st.feed(y, y + K, y, sys); st.reset(); st.feed(x, x + K, o, sys);",
    "ordered": "S st2; st2.order(st.order()); st2.feed(x, x + K, o, sys);",
    "copied": "const T z = x[0]; o[0] = st.feed(z, sys); S st2 = st; st.feed(x[0] * x[0], sys); st2.feed(x + 1, x + K, o + 1, sys);",
    "out": "Signal<T> u(x, x + K), v(K); Filter(v, u, sys, st); for (size_t i = 0; i < K; ++i) o[i] = v[i];",
    "ret": "Signal<T> u(x, x + K); const auto v = Filter(u, sys, st); for (size_t i = 0; i < K; ++i) o[i] = v[i];",
    "stream": "Signal<T> u(x, x + 1), w(x + 1, x + K); const auto v1 = Filter(u, sys, st); const auto v2 = Filter(w, sys, st); o[0] = v1[0]; for (size_t i = 1; i < K; ++i) o[i] = v2[i - 1];",
    "views": "Signal<T> u(x, x + K), v(K); Filter(AsView(v), AsConstView(u), sys, st); for (size_t i = 0; i < K; ++i) o[i] = v[i];",
    "self": "Signal<T> u(x, x + K); Filter(u, u, sys, st); for (size_t i = 0; i < K; ++i) o[i] = u[i];",
    "retview": "Signal<T> u(x, x + K); const auto v = Filter(AsConstView(u), sys, st); for (size_t i = 0; i < K; ++i) o[i] = v[i];",
}
def run(c):
    jobs, meta = [], []
    for t, es in (("float", 4), ("double", 8)):
        if t == "float" and not c.thorough: drives = ("single", "range", "ret")
        else: drives = tuple(DRIVE)
        cases = []
        tfs = [(nb, na) for nb in range(1, 5) for na in range(1, 5)] if c.thorough else [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (3, 3), (2, 4), (4, 2), (3, 2)]
        for F in ("DirectFormI", "DirectFormII"):
            for nb, na in tfs:
                order = max(nb, na) - 1
                for extra in (0, 1, 2):
                    for d in drives:
                        if extra and d not in ("range", "single", "ordered", "reset"): continue
                        if extra == 2 and d != "range": continue
                        K = 4 if nb + na <= 4 else 3
                        body = "const auto sys = tf<T>(%d, %d, a); using S = %s<T>; S st(%d); const T* const x = a + %d; constexpr size_t K = %d; %s" % (nb, na, F, order + extra, IN, K, DRIVE[d])
                        def want(nb=nb, na=na, K=K, es=es):
                            return difference([L(k, es) for k in range(nb)], [L(nb + k, es) for k in range(na)], [L(IN + k, es) for k in range(K)])
                        cases.append(("%s_%d_%d_%d_%s" % (F, nb, na, order + extra, d), body, want))
            cases.append(("%s_order" % F, "using S = %s<T>; S s0; *o++ = T(s0.order()); S s1(3); *o++ = T(s1.order()); s1.order(5); *o++ = T(s1.order()); s1.order(0); *o++ = T(s1.order()); s1.reset(); *o = T(s1.order());" % F, lambda: [rf(v) for v in (0, 3, 5, 0, 0)]))
        orders = [(p, q) for p in range(3) for q in range(3)]
        lists = [[x] for x in orders] + [[x, orders[(4 * k + 3) % 9]] for k, x in enumerate(orders)]
        for k, ls in enumerate(lists):
            for extra in (0, 1, 3):
                for d in drives:
                    if (extra or len(ls) > 1) and d not in ("range", "single", "ordered", "reset", "ret"): continue
                    if extra and d in ("reset", "ret"): continue
                    if extra == 3 and d != "range": continue
                    if k % 3 and d not in ("range", "single", "ret"): continue
                    K = 4 if len(ls) == 1 else 3
                    body = "CascadedBiquad<T> sys; sys.sections.resize(%d); " % len(ls)
                    for i, (p, q) in enumerate(ls): body += "sys.sections[%d] = { { %s }, { %s }, %d, %d }; " % (i, ", ".join("a[%d]" % (5 * i + j) if j >= 2 - p else "T(0)" for j in range(3)), ", ".join("a[%d]" % (5 * i + 3 + j) if j >= 2 - q else "T(0)" for j in range(2)), p, q)
                    body += "using S = CascadedForm<T>; S st(%d); const T* const x = a + %d; constexpr size_t K = %d; %s" % (2 * len(ls) + extra, IN, K, DRIVE[d])
                    def want(ls=ls, K=K, es=es):
                        y = [L(IN + k, es) for k in range(K)]
                        for i, (p, q) in enumerate(ls):
                            b = [L(5 * i + j, es) if j >= 2 - p else rf(0) for j in range(3)]
                            a = [L(5 * i + 3 + j, es) if j >= 2 - q else rf(0) for j in range(2)] + [rf(1)]
                            y = difference(b, a, y)
                        return y
                    cases.append(("Cascaded_%s_%d_%s" % ("_".join("%d%d" % x for x in ls), 2 * len(ls) + extra, d), body, want))
        cases.append(("Cascaded_order", "using S = CascadedForm<T>; S s0; *o++ = T(s0.order()); S s1(4); *o++ = T(s1.order()); s1.order(6); *o++ = T(s1.order()); s1.order(0); *o++ = T(s1.order()); s1.order(3); *o = T(s1.order() >= 3);", lambda: [rf(v) for v in (0, 4, 6, 0, 1)]))
        cases.append(("Cascaded_empty", "CascadedBiquad<T> sys; CascadedForm<T> st(0); *o++ = st.feed(a[0], sys); *o++ = st.feed(a[1], sys);", lambda es=es: [L(0, es), L(1, es)]))
        # a filter that changes between samples goes on from the inputs and outputs so far
        FEED = {"range": lambda k, n, sy: "st.feed(x + %d, x + %d, o + %d, %s); " % (k, k + n, k, sy), "single": lambda k, n, sy: "for (size_t i = %d; i < %d; ++i) o[i] = st.feed(x[i], %s); " % (k, k + n, sy),
                "ranges": lambda k, n, sy: "".join("st.feed(x + %d, x + %d, o + %d, %s); " % (j, j + 1, j, sy) for j in range(k, k + n))}
        for f in FEED:
            if t == "float" and f != "range" and not c.thorough: continue
            for (b1, a1), (b2, a2) in (((2, 2), (3, 2)), ((3, 3), (2, 2)), ((1, 1), (2, 3)), ((3, 2), (1, 1)), ((2, 3), (3, 1))):
                def want(b1=b1, a1=a1, b2=b2, a2=a2, es=es):
                    x = [L(IN + k, es) for k in range(4)]
                    s1 = [L(k, es) for k in range(b1)], [L(b1 + k, es) for k in range(a1)]
                    s2 = [L(8 + k, es) for k in range(b2)], [L(8 + b2 + k, es) for k in range(a2)]
                    return vary([s1, s1, s2, s2], x)
                cases.append(("DirectFormI_switch_%s_%d%d_%d%d" % (f, b1, a1, b2, a2), "const auto s1 = tf<T>(%d, %d, a), s2 = tf<T>(%d, %d, a + 8); DirectFormI<T> st(%d); const T* const x = a + %d; %s%s" % (b1, a1, b2, a2, max(b1, a1, b2, a2) - 1, IN, FEED[f](0, 2, "s1"), FEED[f](2, 2, "s2")), want))
            for n1, n2, n3 in ((0, 1, 0), (1, 0, 1), (0, 0, 1), (1, 1, 0)):
                def want(n=(n1, n2, n3), es=es):
                    x = [L(IN + k, es) for k in range(6)]
                    sec = lambda k: ([L(5 * k + j, es) for j in range(3)], [L(5 * k + 3, es), L(5 * k + 4, es), rf(1)])
                    none = ([rf(0)] * 2 + [rf(1)], [rf(0)] * 2 + [rf(1)])
                    return vary([sec(k) if n[k] else none for k in range(3) for _ in range(2)], x)
                body = "CascadedBiquad<T> s0, s1, s2; "
                for k, n in enumerate((n1, n2, n3)):
                    if n: body += "s%d.sections.resize(1); s%d.sections[0] = { { a[%d], a[%d], a[%d] }, { a[%d], a[%d] }, 2, 2 }; " % (k, k, *range(5 * k, 5 * k + 5))
                if n2 == n1 == 0 and n3: pass
                cases.append(("Cascaded_switch_%s_%d%d%d" % (f, n1, n2, n3), body + "CascadedForm<T> st(2); const T* const x = a + %d; " % IN + "".join(FEED[f](2 * k, 2, "s%d" % k) for k in range(3)), want))
        k = 24
        for g in range(0, len(cases), k):
            part = cases[g::-(-len(cases) // k)] if False else cases[g:g + k]
            jobs.append((spec, c, "real_%s_%d" % (t, g), PRE % t + "".join('extern "C" void e_%s(T* o, const T* a) { %s }\n' % (nm, b) for nm, b, w in part), es, (), (), 6, 0, 0, (), 3000, ("-enable-pre=false",))); meta.append((t, es, part))
    units = []
    for m, (t, es, cases) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        for g in range(0, len(cases), 8):
            def unit(m=m, t=t, es=es, part=cases[g:g + 8]):
                for nm, b, w in part: check_spec(c, "%s<%s>" % (nm, t), m.fns["e_" + nm], m, w, es, where="Filtering/IIR/Realizations.hpp")
            units.append(unit)
    c.each(units)

main("I03", run, "partial evaluation of the filter realisations over the first steps from the zero state; the normal form of every output sample compared with the difference equation")
