"""Specialisation rule: entry points written for fixed sizes are partially evaluated by the compiler (inlining, full
unrolling, constant propagation, promotion of memory) until only straight-line expressions over the symbolic input
values remain; the normal form of every result is then compared with the normal form of its definition.  Nothing is
executed; an entry point that does not reduce completely is reported as undecided."""
from val import *
from flow import rpo
from num import points, BadPoint, close, INDICATORS
from ir import fname

_R = "sroa,early-cse<memssa>,%s,sroa,instcombine<no-verify-fixpoint>,simplifycfg,correlated-propagation,jump-threading,%s,scalarize,gvn,sccp,instcombine<no-verify-fixpoint>,simplifycfg,loop-mssa(loop-rotate),loop-simplify,lcssa,unroll-all,simplifycfg,bdce,adce,fold-abs"
def pipe(word, rounds, late, peel=0):
    out = "function(lower-expect,lowerinvoke,simplifycfg),always-inline"
    for n in range(rounds):
        e = "expand-%s%d" % ("small" if n < late else "mem", word)
        out += ",function(%s)" % (_R % (e, e))
        if n < peel: out += ",function(loop-simplify,lcssa,peel-all)"
    return out + ",globaldce"

def spec(c, name, src, word=4, opaque=(), flags=(), rounds=6, late=0, peel=0, noop=(), scan=3000, opts=("-enable-pre=false",), passes=None):
    return c.ir(name, src, opaque, xopaque=False, passes=passes or pipe(word, rounds, late, peel), flags=flags,
                extra=["--unrec", "2"] + [x for n in ("^void std::__introsort_loop<",) + tuple(noop) for x in ("--noop", n)] + [x for o in ("memdep-block-scan-limit", "memssa-check-limit", "earlycse-mssa-optimization-cap") if scan for x in ("--llvm", "-%s=%d" % (o, scan))] + [x for o in opts for x in ("--llvm", o)])  # does nothing for the at most 16 elements of a specialised range

def L(k, es=4, a=1): return atom(("load", arg(a) + k * es, es))
class CX:
    """complex normal forms"""
    __slots__ = ("re", "im")
    def __init__(s, re, im=0): s.re = rf(re); s.im = rf(im)
    def of(x): return x if isinstance(x, CX) else CX(x)
    def __add__(a, b): b = CX.of(b); return CX(a.re + b.re, a.im + b.im)
    __radd__ = __add__
    def __neg__(a): return CX(-a.re, -a.im)
    def __sub__(a, b): return a + (-CX.of(b))
    def __rsub__(a, b): return CX.of(b) - a
    def __mul__(a, b): b = CX.of(b); return CX(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
    __rmul__ = __mul__
    def __truediv__(a, b):
        b = CX.of(b)
        if b.im.iszero(): return CX(a.re / b.re, a.im / b.re)
        n = b.re * b.re + b.im * b.im
        return CX((a.re * b.re + a.im * b.im) / n, (a.im * b.re - a.re * b.im) / n)
    def __rtruediv__(a, b): return CX.of(b) / a
    def conj(a): return CX(a.re, -a.im)

class Undefined(Exception): pass
def vet(r, nargs, why="", funcs=True, seen=None):
    """every atom is an input sample, a comparison, or a known function of such"""
    if seen is None: seen = set()
    if r in seen: return
    seen.add(r)
    for k in r.atoms():
        if k == "pi": continue
        if isinstance(k, tuple) and k[0] == "undef": raise Undefined()
        if isinstance(k, tuple) and k[0] == "load":
            b, off = split_base(k[1], [("arg", n) for n in range(1, nargs)])
            if b is None or not off.isconst(): raise NotDecided("value read from memory that was not resolved: %s" % show(k[1])[:80])
            continue
        if isinstance(k, tuple) and k[0] == "arg" and len(k) == 2: continue
        if isinstance(k, tuple) and k[0] in ("f", "cmp", "bit", "div0", "inv", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "rem", "div", "floor", "and"):
            for x in k[1:]:
                if isinstance(x, RF): vet(x, nargs, why, funcs, seen)
            continue
        raise NotDecided("unresolved %s" % show_atom(k)[:100])

ALLOWED_CALLS = re.compile(r"^(llvm\.(lifetime|dbg|assume|experimental|expect|objectsize|stacksave|stackrestore)|_Znwm|_ZdlPv|free$|malloc$|_Znam|_ZdaPv|__cxa_|_ZNSt.*C[12]E|_ZNSt.*D[012]Ev|_ZSt\d+__throw|_Unwind|__clang_call_terminate)")
def results(fn, mod, es, base=0, nargs=None, ignore=None):
    """{slot: (value RF, last store ins)}; slots in units of es bytes from argument `base`"""
    T = Terms(fn, mod=mod)
    for h in fn.loops:
        if h in fn.returning:
            i = [i for i in fn.all() if i.blk == h]
            raise NotDecided("a loop was not unrolled", i[0] if i else None)
    order = {b: n for n, b in enumerate(rpo(fn))}
    for i in fn.all():
        if i.op in ("call", "invoke") and i.blk in fn.returning:
            nm = i.callee or ""
            if ALLOWED_CALLS.match(nm) or nm.startswith("llvm.") or i.d.get("pure"): continue
            if ignore and ignore.search(i.dem or nm): continue
            if fname(i) in KNOWN or re.match(r"(x86\.|xsimd::)", fname(i)): continue
            raise NotDecided("call to %s not resolved" % (i.dem or nm or "?")[:80], i)
    pcs = path_conditions(T)
    st = []
    for s in all_stores(T):
        s.pc = pcs.get(s.ins.blk, rf(0))
        b, off = split_base(s.addr, [("arg", base)])
        if b is None: continue
        if s.es in ("memcpy", "memmove", "memset"): raise NotDecided("bulk copy into the result", s.ins)
        if not off.isconst(): raise NotDecided("result position depends on data: %s" % show(off)[:80], s.ins)
        st.append((order.get(s.ins.blk, 0), s.ins.idx, int(off.cval()), s))
    out = {}
    for _, _, o, s in sorted(st, key=lambda x: x[:2]):
        if s.es != es and len(s.vals) == 1: raise NotDecided("result stored with another width", s.ins)
        for j, v in enumerate(s.vals):
            k, r = divmod(o + j * s.es, es)
            if r: raise NotDecided("misaligned result", s.ins)
            old = out.get(k)
            pc = s.pc
            if pc == rf(1): val = v
            elif old is None: val = (pc, v)
            else:
                if isinstance(old[0], tuple): val = (old[0][0] + pc - old[0][0] * pc, old[0][1] * (1 - pc) + v * pc)
                else: val = old[0] * (1 - pc) + v * pc
            out[k] = (val, s.ins)
    ret = [i for i in fn.all() if i.op == "ret" and i.blk in order]
    return T, out, ret

SIGNED = ("fabs", "abs", "cabs", "carg", "arg", "hypot", "atan2", "sqrt", "copysign")  # what they hide of the sign of a sample
def branches(r, seen=None):
    """2: a comparison of input samples decides about the value, 1: their sign may be lost"""
    if seen is None: seen = {}
    if r in seen: return seen[r]
    seen[r] = n = 0
    for k in r.atoms():
        if isinstance(k, tuple):
            if k[0] in INDICATORS: n = 2
            elif k[0] in SIGNED or k[0] in ("f", "call") and len(k) > 1 and k[1] in SIGNED: n = max(n, 1)
            for x in k[1:]:
                if n < 2 and isinstance(x, RF): n = max(n, branches(x, seen))
        if n == 2: break
    seen[r] = n
    return n

def check_spec(c, key, fn, mod, want, es=4, nargs=None, ranges=None, tol=1e-6, exact=True, ignore=None, fixed=None, what="result", where="", mem=None, funcs=(), count=12):
    """want: list of RF (or None: not compared, or (predicate, description)) for the consecutive result slots, or a callable returning it"""
    c.cover(fn)
    nargs = nargs or len(fn.args)
    last = None
    try:
        T, out, ret = results(fn, mod, es, ignore=ignore)
        if callable(want): want = want()
        if not ret: raise NotCovered("no execution completes: the operation always throws or has undefined behaviour for these sizes", [i for i in fn.all()][-1])
        n = 0
        from num import code_types
        ty = code_types(fn)
        for k, w in enumerate(want):
            if w is None: continue
            pred = None
            if isinstance(w, tuple): pred, w = w[0], rf(atom(("?", w[1])))
            else: w = rf(w)
            if k not in out:
                if any(True for i in ret): raise NotCovered("%s %d is never produced, or is an indeterminate value (expected %s)" % (what, k, show(w)[:120]), ret[0])
            v, ins = out[k]
            if isinstance(v, tuple): raise NotDecided("%s %d is produced conditionally" % (what, k), ins)
            try: vet(v, nargs)
            except Undefined: raise NotCovered("%s %d is an indeterminate value (expected %s)" % (what, k, show(w)[:120]), ins)
            if pred is None and (v == w or v.close(w)): n += 1; continue
            bad = same = 0; wit = None
            more = mem is None and ranges is None and pred is None and branches(v)
            for p in points(None, ty, ranges, count + (0, 24, 150)[more or 0], fixed=fixed):
                if more and bad + same >= count:  # a comparison decides: other magnitudes as well
                    if bad: break
                    p.wide = True
                    p.signed = (bad + same) % 2 == 1
                if mem is not None: p.memhook = lambda a, sz, p=p: mem(p, int(round(a - 2e9)) // es)  # representative input samples
                try: x, y = p.ev(v), (None if pred else p.ev(w))
                except BadPoint: continue
                if pred is not None:
                    y = x if pred(x) else x + 1 + abs(x)
                if p.opaque: raise NotDecided("%s %d not comparable: %s" % (what, k, show(v)[:160]), ins)
                if isinstance(x, float) and x != x or isinstance(y, float) and y != y: continue
                if close(x, y, tol): same += 1
                else:
                    bad += 1
                    if wit is None: wit = (x, y)
            if bad and bad + same >= 4: raise NotCovered("%s %d is %s, expected %s (for example %.6g instead of %.6g)" % (what, k, show(v)[:260], show(w)[:260], complex(wit[0]).real, complex(wit[1]).real), ins)
            if bad or same < 4: raise NotDecided("%s %d not comparable: %s" % (what, k, show(v)[:160]), ins)
            n += 1
        extra = [k for k in out if k >= len(want)]
        if extra: raise NotCovered("a result beyond the expected %d is produced" % len(want), out[extra[0]][1])
        c.ok(max(n, 1), "%s: %d results" % (key, n))
    except NotDecided as e: c.skip(key, "%s (%s)" % (e, e.ins.loc() if e.ins is not None else ""))
    except NotCovered as e:
        l, ch = e.ins.loc(), e.ins.chain()
        if "include/dspbb" not in l and where: l = "include/dspbb/" + where
        c.bad(key, str(e), l, ch)
    except TooBig: c.skip(key, "terms too large")

def check_rel(c, key, fn, mod, slots, rel, es=4, what="", where="", mem=None, count=12, ignore=None, obligations=1, total=False):
    """the results (their number, or a list of the slots) satisfy a relation: rel(point, values) -> None (holds), a string (what is wrong), or raises BadPoint"""
    c.cover(fn)
    try:
        T, out, ret = results(fn, mod, es, ignore=ignore)
        if not ret: raise NotCovered("no execution completes: the operation always throws or has undefined behaviour for these sizes", [i for i in fn.all()][-1])
        from num import code_types
        ty = code_types(fn)
        vs = []
        for k in (range(slots) if isinstance(slots, int) else slots):
            if k not in out: raise NotCovered("result %d is never produced, or is an indeterminate value" % k, ret[0])
            v, ins = out[k]
            if isinstance(v, tuple): raise NotDecided("result %d is produced conditionally" % k, ins)
            try: vet(v, len(fn.args))
            except Undefined: raise NotCovered("result %d is an indeterminate value" % k, ins)
            vs.append((v, ins))
        n = bad = nov = 0; wit = None
        for p in points(None, ty, None, count):
            if mem is not None: p.memhook = lambda a, sz, p=p: mem(p, int(round(a - 2e9)) // es)
            try: vals = [p.ev(v) for v, _ in vs]
            except BadPoint: nov += 1; continue
            try: r = rel(p, vals)
            except BadPoint: continue
            if p.opaque: raise NotDecided("results not comparable", vs[0][1])
            n += 1
            if r: bad += 1; wit = wit or r
        if total and not n and nov >= 8: raise NotCovered("a result has no value (a division by zero, or an argument outside the domain of a function) at any of %d points" % nov, vs[0][1])
        if n < 4: raise NotDecided("too few comparable points", vs[0][1])
        if bad: raise NotCovered(wit, vs[0][1])
        c.ok(obligations, "%s: relation holds" % key)
    except NotDecided as e: c.skip(key, "%s (%s)" % (e, e.ins.loc() if e.ins is not None else ""))
    except NotCovered as e:
        l, ch = e.ins.loc(), e.ins.chain()
        if "include/dspbb" not in l and where: l = "include/dspbb/" + where
        c.bad(key, str(e), l, ch)
    except TooBig: c.skip(key, "terms too large")

def check_returns(c, key, fn, mod, pred, es=4, where="", mem=None, count=300, what="completes", ignore=None):
    """the entry point returns exactly for the inputs that satisfy pred(point)"""
    c.cover(fn)
    try:
        T = Terms(fn, mod=mod)
        for h in fn.loops:
            if h in fn.returning: raise NotDecided("a loop was not unrolled", next((i for i in fn.all() if i.blk == h), None))
        rets = [i for i in fn.all() if i.op == "ret"]
        if not rets: raise NotCovered("never completes", [i for i in fn.all()][-1])
        pcs = path_conditions(T, throwing="ret")
        from num import code_types
        ty = code_types(fn)
        yes = no = 0; wit = None
        for p in points(None, ty, None, count):
            if mem is not None: p.memhook = lambda a, sz, p=p: mem(p, int(round(a - 2e9)) // es)
            try: r = sum(p.ev(pcs.get(i.blk, rf(0))) for i in rets)
            except BadPoint: continue
            if p.opaque: raise NotDecided("the condition is not comparable", rets[0])
            w = pred(p)
            if w: yes += 1
            else: no += 1
            if bool(r) != bool(w) and wit is None: wit = (w, p)
        if wit: raise NotCovered("%s valid arguments" % ("rejects" if wit[0] else "accepts in") if False else ("valid arguments are rejected" if wit[0] else "invalid arguments are accepted"), rets[0])
        if yes < 4 or no < 4: raise NotDecided("too few comparable points", rets[0])
        c.ok(1, "%s: accepted exactly when valid" % key)
    except NotDecided as e: c.skip(key, "%s (%s)" % (e, e.ins.loc() if e.ins is not None else ""))
    except NotCovered as e:
        l, ch = e.ins.loc(), e.ins.chain()
        if "include/dspbb" not in l and where: l = "include/dspbb/" + where
        c.bad(key, str(e), l, ch)
    except TooBig: c.skip(key, "terms too large")

def check_never(c, key, fn, mod, es=4, where="", mem=None, count=60, what="is rejected"):
    """the entry point never returns normally"""
    c.cover(fn)
    try:
        T = Terms(fn, mod=mod)
        for h in fn.loops:
            if h in fn.returning: raise NotDecided("a loop was not unrolled", next((i for i in fn.all() if i.blk == h), None))
        rets = [i for i in fn.all() if i.op == "ret" and i.blk in fn.returning]
        if rets:
            pcs = path_conditions(T, throwing="ret")
            from num import code_types
            n = 0
            for p in points(None, code_types(fn), None, count):
                if mem is not None: p.memhook = lambda a, sz, p=p: mem(p, int(round(a - 2e9)) // es)
                try: r = sum(p.ev(pcs.get(i.blk, rf(0))) for i in rets)
                except BadPoint: continue
                if p.opaque: raise NotDecided("the condition is not comparable", rets[0])
                n += 1
                if r: raise NotCovered("invalid arguments are accepted", rets[0])
            if n < 4: raise NotDecided("too few comparable points", rets[0])
        c.ok(1, "%s: %s" % (key, what))
    except NotDecided as e: c.skip(key, "%s (%s)" % (e, e.ins.loc() if e.ins is not None else ""))
    except NotCovered as e:
        l, ch = e.ins.loc(), e.ins.chain()
        if "include/dspbb" not in l and where: l = "include/dspbb/" + where
        c.bad(key, str(e), l, ch)
    except TooBig: c.skip(key, "terms too large")
