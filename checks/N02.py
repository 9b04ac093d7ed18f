from vf import *
from scal import *

PRE = """#include <cstddef>
#include <dspbb/Utility/Interval.hpp>
using namespace dspbb;
"""
def run(c):
    jobs, meta = [], []
    def inter(a, b): return (max(a[0], b[0]), min(a[1], b[1]))
    OPS = [
        ("plus", "auto r = x + k; o[0] = r.first; o[1] = r.last;", lambda x, y, k: [x[0] + k, x[1] + k]),
        ("minus", "auto r = x - k; o[0] = r.first; o[1] = r.last;", lambda x, y, k: [x[0] - k, x[1] - k]),
        ("plus_assign", "auto& r = (x += k); o[0] = x.first; o[1] = x.last; o[2] = &r == &x;", lambda x, y, k: [x[0] + k, x[1] + k, 1]),
        ("minus_assign", "auto& r = (x -= k); o[0] = x.first; o[1] = x.last; o[2] = &r == &x;", lambda x, y, k: [x[0] - k, x[1] - k, 1]),
        ("size", "o[0] = x.size();", lambda x, y, k: [x[1] - x[0]]),
        ("eq", "o[0] = x == y;", lambda x, y, k: [int(x == y)]), ("ne", "o[0] = x != y;", lambda x, y, k: [int(x != y)]),
        ("disjoint", "o[0] = IsDisjoint(x, y);", lambda x, y, k: [int(not (lambda i: i[0] < i[1])(inter(x, y)))]),
        ("intersection", "auto r = Intersection(x, y); o[0] = r.first; o[1] = r.last;", None),
        ("hull", "auto r = EncompassingUnion(x, y); o[0] = r.first; o[1] = r.last;", lambda x, y, k: [min(x[0], y[0]), max(x[1], y[1])]),
        ("union", "auto r = Union(x, y); o[0] = r.has_value(); o[1] = r ? r->first : x.first; o[2] = r ? r->last : x.first;", lambda x, y, k: [1, min(x[0], y[0]), max(x[1], y[1])] if inter(x, y)[0] < inter(x, y)[1] else [0, x[0], x[0]]),
    ]
    for t, z in (("long", 8), ("size_t", 8), ("double", 8)):
        src = PRE
        for nm, body, _ in OPS: src += 'extern "C" void e_%s(%s* o, %s a, %s b, %s p, %s q, %s k) { Interval<%s> x(a, b), y(p, q); %s }\n' % (nm, *[t] * 7, body)
        jobs.append((c.ir, "iv_" + t, src)); meta.append((t, z))
    units = []
    for m, (t, z) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        for nm, body, f in OPS:
            def setup(r, t=t, nm=nm):
                lo = 0 if t == "size_t" else -9
                k = r.randint(0 if t == "size_t" else -5, 6)
                if t == "size_t" and nm.startswith("minus"): lo = k
                def iv():
                    a = r.randint(lo, lo + 12); return (a, a + r.randint(0, 8))
                x, y = iv(), iv()
                u = r.random()
                if u < 0.1: y = x
                elif u < 0.2: y = (x[0], y[1] if y[1] >= x[0] else x[1])
                elif u < 0.3: y = (x[1], x[1] + 3)
                elif u < 0.4: y = (min(y[0], x[1]), x[1])
                return {"force": {argk(1): x[0], argk(2): x[1], argk(3): y[0], argk(4): y[1], argk(5): k}, "x": x, "y": y, "k": k}
            def judge(v, e, f=f, z=z, nm=nm):
                x, y, k = e["x"], e["y"], e["k"]
                def val(n):
                    return v[n * z][0] if n * z in v else None
                ops = "x = %s, y = %s, k = %s" % (list(x), list(y), k)
                if f is None:
                    w = inter(x, y); g = [val(0), val(1)]
                    if None in g: return "no result is produced for " + ops
                    if w[0] < w[1] and g != list(w) or w[0] >= w[1] and g[0] != g[1]: return "result is [%s, %s], expected %s for %s" % (g[0], g[1], list(w) if w[0] < w[1] else "an empty interval", ops)
                    return
                w = f(x, y, k); g = [val(n) for n in range(len(w))]
                if None in g: return "no result is produced for " + ops
                if g != w: return "result is %s, expected %s for %s" % (g, w, ops)
            def unit(m=m, t=t, nm=nm, setup=setup, judge=judge): check_scalar(c, "%s<%s>" % (nm, t), m.fns["e_" + nm], m, setup, judge, count=150)
            units.append(unit)
    c.each(units)

main("N02", run, "Every operation on Interval is reduced to terms in the bounds and compared with the set operation it names, at sampled (also touching, nested, equal and empty) intervals.")
