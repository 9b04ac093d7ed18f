from vf import *
from callc import *
from flow import rpo
import num

PRE = """#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <new>
using namespace dspbb;
template<class T> using S = BasicSignal<T, TIME_DOMAIN>;
template<class T> using V = BasicSignalView<T, TIME_DOMAIN>;
"""
VEC = r"std::vector<.*>::(insert|erase|resize|reserve|push_back|emplace_back|clear|assign|pop_back|vector|operator=)[<(]"
A0, A1, A2, A3, B1, B2, CAP = 10**9, 2 * 10**9, 3 * 10**9, 4 * 10**9, 5 * 10**9, 6 * 10**9, 400

def sl(tag, lo, hi): return [(tag, x) for x in range(lo, hi)]
# (name, body, expected self, expected result, precondition); s, q: sizes of *this and of the other signal; n, k: integer arguments
def SPEC(T, U):
    v = ("v", 0)
    return [
        ("append", "s.append(q);", lambda s, q, n, k: sl("s", 0, s) + sl("q", 0, q), None, None),
        ("prepend", "s.prepend(q);", lambda s, q, n, k: sl("q", 0, q) + sl("s", 0, s), None, None),
        ("insert", "s.insert(n, q);", lambda s, q, n, k: sl("s", 0, n) + sl("q", 0, q) + sl("s", n, s), None, lambda s, n, k: n <= s),
        ("insert_it", "s.insert(s.cbegin() + n, q);", lambda s, q, n, k: sl("s", 0, n) + sl("q", 0, q) + sl("s", n, s), None, lambda s, n, k: n <= s),
        ("insert_range", "s.insert(s.cbegin() + n, a, a + k);", lambda s, q, n, k: sl("s", 0, n) + sl("a", 0, k) + sl("s", n, s), None, lambda s, n, k: n <= s),
        ("erase", "s.erase(s.cbegin() + n);", lambda s, q, n, k: sl("s", 0, n) + sl("s", n + 1, s), None, lambda s, n, k: n < s),
        ("erase_range", "s.erase(s.cbegin() + n, s.cbegin() + k);", lambda s, q, n, k: sl("s", 0, n) + sl("s", k, s), None, lambda s, n, k: n <= k <= s),
        ("push_back", "s.push_back(*a);", lambda s, q, n, k: sl("s", 0, s) + sl("a", 0, 1), None, None),
        ("resize", "s.resize(n);", lambda s, q, n, k: sl("s", 0, min(s, n)) + [v] * max(0, n - s), None, None),
        ("resize_value", "s.resize(n, *a);", lambda s, q, n, k: sl("s", 0, min(s, n)) + sl("a", 0, 1) * max(0, n - s), None, None),
        ("reserve", "s.reserve(n);", lambda s, q, n, k: sl("s", 0, s), None, None),
        ("clear", "s.clear();", lambda s, q, n, k: [], None, None),
        ("extract_front", "new (o) S<%s>(s.extract_front(n));" % T, lambda s, q, n, k: sl("s", n, s), lambda s, q, n, k: sl("s", 0, n), lambda s, n, k: n <= s),
        ("extract_back", "new (o) S<%s>(s.extract_back(n));" % T, lambda s, q, n, k: sl("s", 0, s - n), lambda s, q, n, k: sl("s", s - n, s), lambda s, n, k: n <= s),
        ("construct_count", "new (o) S<%s>(n);" % T, None, lambda s, q, n, k: [v] * n, None),
        ("construct_value", "new (o) S<%s>(n, *a);" % T, None, lambda s, q, n, k: sl("a", 0, 1) * n, None),
        ("construct_pointer", "new (o) S<%s>(n, a);" % T, None, lambda s, q, n, k: sl("a", 0, n), None),
        ("construct_range", "new (o) S<%s>(a + k, a + n);" % T, None, lambda s, q, n, k: sl("a", k, n), lambda s, n, k: k <= n),
        ("construct_view", "V<const %s> v(a, n); new (o) S<%s>(v.begin(), v.end());" % (T, T), None, lambda s, q, n, k: sl("a", 0, n), None),
        ("construct_copy", "new (o) S<%s>(q);" % T, None, lambda s, q, n, k: sl("q", 0, q), None),
        ("construct_convert", "new (o) S<%s>(q);" % U, None, lambda s, q, n, k: sl("q", 0, q), None),
        ("assign_copy", "s = q;", lambda s, q, n, k: sl("q", 0, q), None, None),
        ("assign_convert", "S<%s>& w = *(S<%s>*)&s; w = q;" % (U, U), lambda s, q, n, k: sl("q", 0, q), None, None),
    ]

def run(c):
    jobs, meta = [], []
    for t in ("f", "d", "cf", "cd"):
        A, es, nc = TY[t]
        U = TY[{"f": "d", "d": "cd", "cf": "cd", "cd": "cf"}[t]][0]
        if t == "cd": U = "std::complex<float>"
        sp = SPEC(A, U)
        if t == "cd": sp = [x for x in sp if "convert" not in x[0]]
        src = PRE
        for nm, body, *_ in sp:
            src += 'extern "C" void e_%s(void* o, S<%s>& s, const S<%s>& q, const %s* a, size_t n, size_t k) { %s }\n' % (nm, A, A, A, body)
        jobs.append((c.ir, "edit_" + t, src, [VEC])); meta.append((t, es * nc, sp))
    units = []
    for m, (t, z, sp) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        for nm, body, ws, wr, pre in sp:
            def unit(m=m, t=t, z=z, nm=nm, ws=ws, wr=wr, pre=pre): editing(c, "%s<%s>" % (nm, t), m.fns["e_" + nm], m, z, ws, wr, pre, {"f": 8, "d": 16, "cf": 16}[t] if nm == "assign_convert" else z)
            units.append(unit)
    c.each(units)

IGN = re.compile(r"^llvm\.(lifetime|dbg|assume|experimental|usub|umin|umax|smin|smax|abs)|__cxa|_Unwind|__clang_call_terminate|operator delete|_ZdlPv|std::__throw|_ZSt\d+__throw")
def editing(c, key, fn, m, z, ws, wr, pre, zs):
    c.cover(fn)
    try:
        T = Terms(fn, mod=m)
        order = {b: n for n, b in enumerate(rpo(fn))}
        pcs = path_conditions(T)
        ops = []
        for i in sorted(fn.all(), key=lambda i: (order.get(i.blk, 1 << 30), i.idx)):
            if i.blk not in order or i.blk not in pcs: continue
            if i.op == "store":
                if T._alloca_of(i.ops[1])[0] is None: ops.append((i, pcs[i.blk], "store", T, None))
                continue
            if i.op not in ("call", "invoke"): continue
            nm = i.dem or i.callee or ""
            mt = re.search(VEC, nm)
            if mt is None:
                if re.match(r"llvm\.(memcpy|memmove)\.", i.callee or "") and T._alloca_of(i.ops[0])[0] is None:
                    if T.execs(i): raise NotDecided("block copy inside a loop", i)
                    ops.append((i, pcs[i.blk], "memmove", T, None)); continue
                if IGN.search(nm) or IGN.search(i.callee or ""): continue
                raise NotDecided("calls %s" % nm[:60], i)
            if T.execs(i): raise NotDecided("edit inside a loop", i)
            # the method is the last class-qualified name of the pattern
            meth = [x for x in re.findall(r"std::vector<.*>::(insert|erase|resize|reserve|push_back|emplace_back|clear|assign|pop_back|vector|operator=)[<(]", nm)][0]
            a = operand_terms(T, i)
            ref = []
            for q, o in enumerate(i.ops): ref.append(T._alloca_of(o)[0] is not None)
            ops.append((i, pcs[i.blk], meth, a, ref))
        types = num.code_types(fn)
        seen = 0
        R = {4: (0, 12), 5: (0, 12)}
        for p in points({}, types, R, 80, seed=3):
            n, k = int(p.at(intern(("arg", 4)))), int(p.at(intern(("arg", 5))))
            s, q = p.h("size s") % 12, p.h("size q") % 9
            if pre and not pre(s, n, k): continue
            for x, v in ((0, A0), (1, A1), (2, A2), (3, A3)): p.force[("arg", x)] = v
            for b, adr, sz, z1 in ((1, B1, s, zs), (2, B2, q, z)):
                for off, v in ((0, adr), (8, adr + sz * z1), (16, adr + CAP * z1)): p.force[atom(("load", arg(b) + off, 8)).single_atom()] = v
            p.memo.clear()
            objs = {A1: sl("s", 0, s), A2: sl("q", 0, q), A0: None}
            touched = None
            for i, pc, meth, a, ref in ops:
                v = p.ev(pc)
                if p.opaque: raise NotDecided("path condition not resolved", i)
                if not v: continue
                touched = i
                if meth in ("store", "memmove"): direct(T, p, i, meth, objs, z, zs, i is not ops[0][0])
                else: step(T, p, i, meth, a, ref, objs, z)
            for tag, addr, w in (("the edited signal", A1, ws), ("the result", A0, wr)):
                if w is None: continue
                want = w(s, q, n, k)
                if objs[addr] is None: raise NotDecided("result not built")
                if objs[addr] != want:
                    if touched is None: touched = ops[0][0] if ops else [i for i in fn.all()][-1]
                    raise Wrong("%s holds %s, expected %s (size %d, other size %d, n %d, k %d)" % (tag, text(objs[addr]), text(want), s, q, n, k), touched)
            if objs[A2] != sl("q", 0, q): raise Wrong("the other operand is modified", touched)
            seen += 1
        if seen < 5: raise NotDecided("not exercised")
        c.ok(1, "%s: %d container operations" % (key, len(ops)))
    except Wrong as e: c.bad(key, str(e), e.ins.loc(), e.ins.chain())
    except BadPoint as e: c.skip(key, "value not resolved: %s" % e)
    except NotDecided as e: c.skip(key, "%s (%s)" % (e, e.ins.loc() if e.ins is not None else ""))
    except TooBig: c.skip(key, "terms too large")

class Wrong(Exception):
    def __init__(self, why, ins):
        Exception.__init__(self, why); self.ins = ins
def text(l):
    out, j = [], 0
    while j < len(l):
        e = j
        while e + 1 < len(l) and l[e + 1][0] == l[j][0] and l[e + 1][1] == l[e][1] + 1: e += 1
        out.append({"s": "old", "q": "other", "a": "argument", "v": "zero"}[l[j][0]] + ("[%d..%d]" % (l[j][1], l[e][1]) if l[j][0] != "v" else "")); j = e + 1
    return " + ".join(out) or "nothing"

def direct(T, p, i, meth, objs, z, zs, late):
    """samples written without a container operation: element by element, through the address of the signal's own storage"""
    ends = [atom(("load", arg(b) + 8, 8)).single_atom() for b in (1, 2)][:1]
    def check(t):
        if late and any(uses(t, e) for e in ends): raise NotDecided("size read after an edit", i)
        return t
    def place(x, reading):
        for b, o, z1 in ((B1, A1, zs), (B2, A2, z), (A3, None, z)):
            if b - z1 <= x <= b + CAP * z1:
                if (x - b) % z1: raise NotDecided("part of an element", i)
                j = (x - b) // z1
                if o is None: return None, j
                if not 0 <= j < len(objs[o]): raise Wrong("%s element %d of %d" % ("reads" if reading else "writes", j, len(objs[o])), i)
                return o, j
        raise NotDecided("unknown memory", i)
    def read(x):
        o, j = place(x, True)
        return ("a", j) if o is None else objs[o][j]
    def write(x, v):
        o, j = place(x, False)
        if o is None: raise Wrong("writes into its argument", i)
        objs[o] = objs[o][:j] + [v] + objs[o][j + 1:]
    def ev(t, bind=None):
        v = p.inner(bind, check(t)) if bind else p.ev(check(t))
        if p.opaque: raise NotDecided("value not resolved", i)
        return int(v)
    if meth == "memmove":
        d, s, n = (ev(T.full(T.opnd(i.ops[q]))) for q in range(3))
        if n % z or z != zs: raise NotDecided("part of an element", i)
        for x, v in [(d + x, read(s + x)) for x in range(0, n, z)]: write(x, v)
        return
    loops = T.execs(i)
    if len(loops) > 1: raise NotDecided("nested loops", i)
    v = veclen(i.d["vty"])
    es, lanes = (SIZES.get(v[1], 0), v[0]) if v else (i.d["size"], 1)
    addr = T.full(T.opnd(i.ops[1]))
    vals = [T.full(T.opnd(i.ops[0], l)) for l in range(lanes)] if v else [T.full(T.opnd(i.ops[0]))]
    n = ev(loops[0][1]) if loops and loops[0][1] is not None else 1
    if loops and loops[0][1] is None: raise NotDecided("unknown number of stores", i)
    for j in range(n):
        bind = {("k", loops[0][0]): j} if loops else {}
        at = ev(addr, bind)
        for l, w in enumerate(vals):
            x = at + l * es
            for b, z1 in ((B1, zs), (B2, z), (A3, z)):
                if b - z1 <= x <= b + CAP * z1 and (x - b) % z1: break
            else:
                if w.iszero(): write(x, ("v", 0)); continue
                key = w.single_atom()
                if key is None or key[0] != "load": raise NotDecided("stored value not a sample", i)
                write(x, read(ev(key[1], bind)))

def step(T, p, i, meth, a, ref, objs, z):
    def ev(n):
        if n >= len(a) or a[n] is None: raise NotDecided("operand %d not resolved" % n, i)
        v = p.ev(a[n])
        if p.opaque: raise NotDecided("operand %d not resolved" % n, i)
        return int(v)
    this = ev(0)
    if this not in objs: raise NotDecided("edits another object", i)
    cur = objs[this]
    nargs = len(a) - 1 if a and a[-1] is None else len(a)
    base = {A1: B1, A2: B2}.get(this)
    def pos(n, limit):
        v = ev(n)
        if base is None or (v - base) % z: raise Wrong("position %s is not an element of the signal (offset %s)" % (show(a[n]), v - base), i) if base else NotDecided("position", i)
        x = (v - base) // z
        if not 0 <= x <= limit: raise Wrong("position %d lies outside the signal: element %d of %d" % (n, x, limit), i)
        return x
    def rng(n, m):
        lo, hi = ev(n), ev(m)
        for tag, b, lst in (("s", B1, objs[A1]), ("q", B2, objs[A2]), ("a", A3, None)):
            if b - z <= lo <= b + CAP * z:
                if (lo - b) % z or (hi - b) % z: raise Wrong("range is not made of whole elements", i)
                x, y = (lo - b) // z, (hi - b) // z
                if x > y or x < 0: raise Wrong("range [%d, %d) of the source is reversed or out of bounds" % (x, y), i)
                if lst is None: return sl("a", x, y)
                if y > len(lst): raise Wrong("range [%d, %d) exceeds the source of %d elements" % (x, y, len(lst)), i)
                return lst[x:y]
        raise NotDecided("range of unknown memory", i)
    def value(n):
        if n < len(ref) and ref[n]:
            for size in (8, 4):
                ws = [object_field(T, i, n, o, size) for o in range(0, z, size)] if size <= z else [None]
                if all(w is not None for w in ws):
                    if all(p.ev(w) == 0 for w in ws) and not p.opaque: return ("v", 0)
                    p.opaque = False
            raise NotDecided("value not resolved", i)
        v = ev(n)
        if v < A3 or (v - A3) % z: raise NotDecided("value not resolved", i)
        return ("a", (v - A3) // z)
    sig = i.dem or ""
    par = sig[sig.rfind(">::" + meth) + len(meth) + 3:] if False else sig
    small = lambda n: 0 <= ev(n) < 10**6
    if meth == "insert":
        n = pos(1, len(cur))
        real = [x for x in range(2, nargs)]
        if len(real) >= 2 and not small(2): new = rng(2, 3)
        elif len(real) >= 2: new = [value(3)] * ev(2)
        else: new = [value(2)]
        if this == A1 and any(x[0] == "s" for x in new): raise NotDecided("self insertion", i)
        objs[this] = cur[:n] + new + cur[n:]
    elif meth == "erase":
        n = pos(1, len(cur))
        if nargs >= 3:
            k = pos(2, len(cur))
            if k < n: raise Wrong("erases a reversed range", i)
        else:
            k = n + 1
            if k > len(cur): raise Wrong("erases past the end", i)
        objs[this] = cur[:n] + cur[k:]
    elif meth == "resize":
        n = ev(1); v = value(2) if nargs >= 3 else ("v", 0)
        objs[this] = cur[:n] + [v] * max(0, n - len(cur))
    elif meth == "reserve": pass
    elif meth in ("push_back",): objs[this] = cur + [value(1)]
    elif meth == "pop_back":
        if not cur: raise Wrong("removes an element of an empty signal", i)
        objs[this] = cur[:-1]
    elif meth == "clear": objs[this] = []
    elif meth in ("assign", "vector"):
        if meth == "vector" and ev(1) in objs and ev(1) != this: objs[this] = list(objs[ev(1)])
        elif not small(1) and nargs >= 3 and not ref[2]: objs[this] = rng(1, 2)
        elif nargs >= 3 and not ref[2] and ev(1) == ev(2): objs[this] = []
        elif small(1): objs[this] = [value(2) if nargs >= 3 and "const&" in sig and (nargs >= 4 or meth == "assign") else ("v", 0)] * ev(1)
        else: raise NotDecided("unknown construction", i)
    elif meth == "operator=" and ev(1) in objs: objs[this] = list(objs[ev(1)])
    else: raise NotDecided("unknown operation %s" % meth, i)

main("V02", run, "Every editing operation and constructor of BasicSignal is reduced to the container operations it performs, with positions and ranges as terms; executing them on labelled contents must give the specified sequence.")
