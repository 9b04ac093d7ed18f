from vf import *
from callc import *

PRE = """#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
template<class T> using V = BasicSignalView<T, TIME_DOMAIN>;
template<class T> using S = BasicSignal<T, TIME_DOMAIN>;
struct R { const void* p; size_t n; };
template <class T, eSignalDomain D> void put(R* o, const BasicSignalView<T, D>& v) { o->p = v.begin(); o->n = v.size(); }
"""
def run(c):
    jobs, meta = [], []
    n, i, k = arg(2), arg(3), arg(4)
    I = lambda x: atom(("icmp",))
    for t in ("f", "d", "cf", "cd"):
        A, es, nc = TY[t]
        z = es * nc
        a = arg(1)
        sb, se = atom(("load", arg(5), 8)), atom(("load", arg(5) + 8, 8))
        E = [
            ("begin", "o->p = v.begin(); o->n = v.size();", a, n), ("cbegin", "o->p = v.cbegin(); o->n = v.end() - v.begin();", a, n),
            ("end", "o->p = v.end(); o->n = 0;", a + n * z, 0), ("cend", "o->p = v.cend(); o->n = 0;", a + n * z, 0),
            ("rbegin", "o->p = &*v.rbegin(); o->n = v.rend() - v.rbegin();", a + (n - 1) * z, n), ("crbegin", "o->p = &*v.crbegin(); o->n = v.crend() - v.crbegin();", a + (n - 1) * z, n),
            ("front", "o->p = &v.front(); o->n = v.size_bytes();", a, n * z), ("back", "o->p = &v.back(); o->n = v.empty();", a + (n - 1) * z, 0),
            ("index", "o->p = &v[i]; o->n = 0;", a + i * z, 0), ("data", "o->p = v.data(); o->n = 0;", a, 0),
            ("first", "put(o, v.first(k));", a, k), ("last", "put(o, v.last(k));", a + (n - k) * z, k),
            ("subsignal1", "put(o, v.subsignal(i));", a + i * z, n - i), ("subsignal2", "put(o, v.subsignal(i, k));", a + i * z, k),
            ("asview_view", "put(o, AsView(v));", a, n), ("asconst_view", "put(o, AsConstView(v));", a, n), ("asview_cview", "put(o, AsView(V<const %s>(v)));" % A, a, n),
            ("asconst_cview", "put(o, AsConstView(V<const %s>(v)));" % A, a, n),
            ("asview_ptr", "put(o, AsView<TIME_DOMAIN>(a, a + n));", a, n), ("asview_ptrn", "put(o, AsView<TIME_DOMAIN>(a, n));", a, n),
            ("asconst_ptr", "put(o, AsConstView<TIME_DOMAIN>(a, a + n));", a, n), ("asconst_ptrn", "put(o, AsConstView<TIME_DOMAIN>(a, n));", a, n),
            ("asconst_cptr", "put(o, AsConstView<TIME_DOMAIN>((const %s*)a, n));" % A, a, n), ("asconst_cptr2", "put(o, AsConstView<TIME_DOMAIN>((const %s*)a, (const %s*)a + n));" % (A, A), a, n),
            ("asview_sig", "put(o, AsView(s));", sb, "s"), ("asview_csig", "put(o, AsView((const S<%s>&)s));" % A, sb, "s"), ("asconst_sig", "put(o, AsConstView(s));", sb, "s"),
            ("view_sig", "put(o, V<%s>(s));" % A, sb, "s"), ("cview_sig", "put(o, V<const %s>((const S<%s>&)s));" % (A, A), sb, "s"),
            ("view_iter", "put(o, V<%s>(s.begin(), s.end()));" % A, sb, "s"), ("view_itern", "put(o, V<%s>(s.begin(), s.size()));" % A, sb, "s"),
            ("copy", "V<%s> w; w = v; put(o, w);" % A, a, n), ("sig_index", "o->p = &s[i]; o->n = s.size();", sb + i * z, "s"), ("csig_index", "const auto& q = s; o->p = &q[i]; o->n = q.size();", sb + i * z, "s"),
            ("sig_data", "o->p = s.data(); o->n = s.end() - s.begin();", sb, "s"), ("csig_data", "const auto& q = s; o->p = q.data(); o->n = q.cend() - q.cbegin();", sb, "s"),
            ("sig_rbegin", "o->p = &*s.rbegin(); o->n = s.rend() - s.rbegin();", se - z, "s"), ("sig_begin", "o->p = &*s.begin(); o->n = s.empty();", sb, 0),
            ("default", "put(o, V<%s>());" % A, 0, 0),
        ]
        src = PRE
        for nm, body, p, sz in E:
            src += 'extern "C" void e_%s(R* o, %s* a, size_t n, size_t i, size_t k, S<%s>& s) { V<%s> v(a, n); %s }\n' % (nm, A, A, A, body)
        jobs.append((c.ir, "view_" + t, src)); meta.append((t, z, E, sb, se))
    units = []
    for m, (t, z, E, sb, se) in zip(c.parallel(jobs), meta):
        if isinstance(m, CompileError): raise m
        if isinstance(m, Exception): raise m
        for nm, body, p, sz in E:
            def unit(m=m, t=t, z=z, nm=nm, p=p, sz=sz, sb=sb, se=se): geometry(c, "%s<%s>" % (nm, t), m.fns["e_" + nm], m, p, sz, z, sb, se)
            units.append(unit)
    c.each(units)

def geometry(c, key, fn, m, p, sz, z, sb, se):
    T = Terms(fn, mod=m)
    ctx = Ctx.of(fn)
    # a signal's storage: begin pointer, and end = begin + size elements
    ns = atom(("arg", 20))
    args = {}
    size = ns if sz == "s" else sz if isinstance(sz, RF) else rf(sz)
    c.cover(fn)
    try:
        res, other = None, None
        st = writes(T)
        types = num.Types(list(ctx.types) + ["ptr"] * (20 - len(ctx.types)) + ["i64"])
        R = {2: (0, 40), 3: (0, 30), 4: (0, 30), 20: (0, 40)}
        sbk, sek = sb.single_atom(), se.single_atom()
        import num as N
        seen = 0
        per, other = under(st, {}, [("arg", 0)])
        if other: raise NotDecided("writes elsewhere", other[0].ins)
        for q in points({}, types, R, 60, seed=3):
            n, i, k, s = (q.at(intern(("arg", x))) for x in (2, 3, 4, 20))
            needs_s = any(uses(x, ("arg", 5)) for x in [p if isinstance(p, RF) else rf(p)]) or sz == "s"
            lim = s if needs_s else n
            nonempty = key.split("<")[0] in ("rbegin", "crbegin", "front", "back", "index", "sig_index", "csig_index", "sig_rbegin", "sig_begin")
            if nonempty and (i >= lim or lim == 0): continue
            if key.startswith("sig_begin") and s == 0: continue
            if i + k > n and not needs_s: continue
            q.force[sbk] = 9 * 10**9; q.force[sek] = 9 * 10**9 + s * z
            want = {0: p, 8: size}
            # the pointer of an empty view is immaterial
            empty = q.ev(size) == 0 and not nonempty and key.split("<")[0] not in ("end", "cend")
            vals = {}
            for x in per[("arg", 0)]:
                o = q.ev(x.off)
                if q.ev(x.pc):
                    for j, v in enumerate(x.vals): vals[int(o) + j * x.es] = (v, x)
            if q.opaque: raise NotDecided("result not resolved")
            for o in (0, 8):
                if o == 0 and (empty or (n == 0 and not needs_s)): continue
                if o not in vals: raise NotDecided("result not written")
                g, w = q.ev(vals[o][0]), q.ev(want[o] if isinstance(want[o], RF) else rf(want[o]))
                if q.opaque: raise NotDecided("result not resolved: %s" % show(vals[o][0])[:200])
                if g != w: raise Mismatch(vals[o][1].ins, rf(o), 0, vals[o][0], want[o] if isinstance(want[o], RF) else rf(want[o]))
            seen += 1
        if seen < 5: raise NotDecided("not exercised")
        c.ok(1, key + ": position and length terms agree")
    except Mismatch as e:
        c.bad(key, "%s is %s, expected %s" % ("position" if e.e.iszero() else "length", show(e.got)[:300], show(e.want)[:300]), e.ins.loc(), e.ins.chain())
    except BadPoint as e: c.skip(key, "value not resolved: %s" % e)
    except NotDecided as e: c.skip(key, "%s (%s)" % (e, e.ins.loc() if e.ins is not None else ""))
    except TooBig: c.skip(key, "terms too large")

import num
main("V01", run, "Every accessor and constructor of views and signals is reduced to the pointer and length it yields, as terms in the operand's start, length, offset and count, and compared with the specification.")
