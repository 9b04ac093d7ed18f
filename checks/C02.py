from vf import *
from callc import *
from refute import run_point, Unknown
import num
PRE = """#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Kernels/Convolution.hpp>
#include <dspbb/Math/Convolution.hpp>
using namespace dspbb;
"""
SELF = r"dspbb::kernels::Convolution%s<"

def kernel(c, key, fn, m, T, o, a, b, na, nb, n, off, acc, ts, selfcall, count):
    """at sampled lengths the index relation of the extracted loop nests (which products enter which output) is
    enumerated and compared with the definition; the data stay uninterpreted"""
    ta, tb, to = ts
    (ea, ca), (eb, cb), (es, nc) = TY[ta][1:], TY[tb][1:], TY[to][1:]
    c.cover(fn)
    ctx = Ctx.of(fn)
    try:
        st = writes(T)
        selfs = [(i, pc, operand_terms(T, i)) for i, pc, _ in calls_of(T, selfcall)]
        hints = ctx.types.hints
        types = num.Types(list(ctx.types) + ["ptr"] * (20 - len(ctx.types)) + ["i64"] * 5); types.hints = tuple(h for h in hints if h < 4000)
        R = {20: (1, 11), 21: (1, 11), 22: (1, 14), 23: (0, 18), 24: (0, 1)}
        base = [20 + k for k in range(5)]
        seen = rec = longs = 0
        lim = {20: 11, 21: 11, 22: 14, 23: 18}
        import itertools
        near = dict(R); near[20] = near[21] = (500, 530)
        for p in itertools.chain(points({}, types, R, count, seed=11), points({}, types, near, 60, seed=12)):
            v = {q: int(p.at(intern(("arg", q)))) for q in base}
            if v[23] + v[22] > v[20] + v[21] - 1: continue
            try:
                ps = [p.ev(pc) for _, pc, _ in selfs]
                if p.opaque: raise NotDecided("recursion condition")
            except BadPoint: continue
            act = [x for x, y in zip(selfs, ps) if y]
            if act:
                i, _, ar = act[0]
                want = [b, b + nb * eb * cb, a, a + na * ea * ca, o, o + n * es * nc, off, acc]
                what = ["first operand", "its end", "second operand", "its end", "output", "its end", "offset", "accumulate flag"]
                for g, w, nm in zip(ar, want, what):
                    x, y = p.ev(g), p.ev(w)
                    if p.opaque: raise NotDecided("argument of the recursive call", i)
                    if x != y: raise NotCovered("the call with exchanged operands passes %s as %s" % (show(g)[:120], nm), i)
                # exchanging the operands again must not apply
                q = num.Point(p.seed, p.fixed, p.types, p.ranges, p.intloads)
                q.force = dict(p.force); q.force.update({("arg", 20): v[21], ("arg", 21): v[20]})
                if any(q.ev(pc) for _, pc, _ in selfs): raise NotCovered("exchanging the operands never ends (lengths %d and %d)" % (v[20], v[21]), i)
                rec += 1
                continue
            if any(v[k] > lim[k] for k in lim): longs += 1; continue
            try: mem = run_point(T, st, p, es)
            except Unknown as e: raise NotDecided("loop nest not resolved: %s" % e, st[0].ins if st else None)
            ob, ab, bb = (int(p.ev(x)) for x in (o, a, b))
            def data(base, e, es_, nc_):
                w = [p.raw_load(base + (e * nc_ + k) * es_, es_) for k in range(nc_)]
                return w[0] if nc_ == 1 else complex(w[0], w[1])
            for j in range(v[22]):
                w = data(ob, j, es, nc) if v[24] else 0
                for k in range(max(0, v[23] + j - v[21] + 1), min(v[20], v[23] + j + 1)):
                    w += data(ab, k, ea, ca) * data(bb, v[23] + j - k, eb, cb)
                for q in range(nc):
                    got = mem.get(ob + (j * nc + q) * es)
                    if got is None: got = p.raw_load(ob + (j * nc + q) * es, es)
                    ww = w if nc == 1 else (w.real if q == 0 else w.imag)
                    if not close(got, ww):
                        raise NotCovered("output %d does not sum exactly the overlapping products (lengths %d and %d, %d outputs from offset %d%s)" % (j, v[20], v[21], v[22], v[23], ", accumulating" if v[24] else ""), st[-1].ins)
            stray = [x for x in mem if not ob <= x < ob + v[22] * nc * es]
            if stray: raise NotCovered("writes outside the output (lengths %d and %d, %d outputs from offset %d)" % (v[20], v[21], v[22], v[23]), st[-1].ins)
            seen += 1
        if seen < 20: raise NotDecided("index combinations not exercised (%d)" % seen)
        c.ok(1, "%s: index relation agrees at %d length combinations, %d exchanges of operands" % (key, seen, rec))
    except NotDecided as e: c.skip(key, "%s (%s)" % (e, e.ins.loc() if e.ins is not None else ""))
    except NotCovered as e: c.bad(key, str(e), e.ins.loc() if e.ins is not None else "", e.ins.chain() if e.ins is not None else None)
    except TooBig: c.skip(key, "terms too large")

def run(c):
    S = lambda k: atom(("arg", 20 + k))
    jobs, meta = [], []
    combos = [("d", "d", "d"), ("f", "f", "f"), ("cf", "f", "cf"), ("f", "cf", "cf"), ("cd", "cd", "cd")]
    for ta, tb, to in combos:
        A, B, O = (TY[t][0] for t in (ta, tb, to))
        src = PRE
        for k in ("Slide", "Naive"):
            src += 'extern "C" void e_%s(%s* o, const %s* a, const %s* b, size_t na, size_t nb, size_t n, size_t off, bool acc) { kernels::Convolution%s(a, a + na, b, b + nb, o, o + n, ptrdiff_t(off), acc); }\n' % (k, O, A, B, k)
        jobs.append((c.ir, "conv_%s_%s" % (ta, tb), src, [])); meta.append((ta, tb, to))
    units = []
    for m, ts in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        sz = [TY[t][1] * TY[t][2] for t in ts]
        for k in ("Slide", "Naive"):
            def unit(m=m, ts=ts, sz=sz, k=k):
                rec = [f for nm, f in m.fns.items() if nm.startswith("_Z") and "Convolution" + k in nm]
                names = "%s<%s,%s>" % (k, ts[0], ts[1])
                o, a, b, na, nb, n, off, acc = arg(4), arg(0), arg(2), S(0), S(1), S(2), S(3), S(4)
                done = 0
                for fn in rec:
                    # template instances of either operand order
                    t1, t2 = ptypes(fn)
                    if (t1, t2) == (ts[0], ts[1]):
                        done = 1
                        T = Terms(fn, mod=m, args={1: a + na * sz[0], 3: b + nb * sz[1], 5: o + n * sz[2], 6: off, 7: acc})
                        kernel(c, names, fn, m, T, o, a, b, na, nb, n, off, acc, ts, SELF % k, c.thorough and 1500 or 500)
                if not done:
                    o, a, b = arg(0), arg(1), arg(2)
                    T = Terms(m.fns["e_" + k], mod=m, args={3: na, 4: nb, 5: n, 6: off, 7: acc})
                    kernel(c, names, m.fns["e_" + k], m, T, o, a, b, na, nb, n, off, acc, ts, SELF % k, c.thorough and 1500 or 500)
            units.append(unit)
    c.each(units)

def ptypes(fn):
    """element types of the two operands of a kernel instance, from its demangled name"""
    d = demangled(fn)
    m = re.search(r"Convolution\w+<(.*?) const\*, (.*?) const\*,", d)
    names = {TY[t][0]: t for t in ("f", "d", "cf", "cd")}
    return tuple(names.get(x) for x in m.groups()) if m else (None, None)
def demangled(fn):
    import subprocess
    return subprocess.run(["c++filt", fn.name], capture_output=True, text=True).stdout.strip()

main("C02", run, "The loop nest of each direct convolution kernel is extracted (trip counts, addresses, values as terms in the lengths and the offset); the resulting index relation - which products are added to which output - is enumerated for all small lengths, offsets and vector remainders and compared with the definition of the convolution, the recursion by its arguments.")
