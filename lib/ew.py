"""Element-wise rule: an entry writes every element of its result exactly once, each from the same-index
elements of its operands by the stated formula, reading an element before overwriting it, and writes nothing else."""
from flow import *

TY = {"f": ("float", 4, 1), "d": ("double", 8, 1), "cf": ("std::complex<float>", 4, 2), "cd": ("std::complex<double>", 8, 2),
      "i": ("int", 4, 1), "l": ("long", 8, 1)}

def elem(base, t, e):
    """components of element e of the array at `base`"""
    _, es, nc = TY[t]
    return [atom(("load", base + e * (es * nc) + c * es, es)) for c in range(nc)]

def slot_index(off, t):
    """byte offset -> (element index RF, component) of an array with element type t"""
    _, es, nc = TY[t]
    r = off / es
    if nc == 1: return r, 0
    const = Fraction(0)
    for m, v in r.n.items():
        if m == ONE: const = v
        elif v.denominator != 1 or v % nc != 0: return None, None
    if const.denominator != 1: return None, None
    c = int(const) % nc
    return (r - c) / nc, c

def loads_of(T, o, seen=None):
    """load instructions feeding an operand inside the same iteration (stops at phis)"""
    out = []
    seen = set() if seen is None else seen
    if o["k"] != "i" or o["v"] in seen: return out
    seen.add(o["v"])
    i = T.f.ins[o["v"]]
    if i.op == "load":
        out.append(i)
        k, _ = T._alloca_of(i.ops[0])
        if k is not None:
            for w in T.alloc_writers().get(k, []):
                for q in w[0].ops: out += loads_of(T, q, seen)
        return out
    if i.op == "phi": return out
    for q in i.ops: out += loads_of(T, q, seen)
    if i.op == "call":
        for q in i.ops:
            k, _ = T._alloca_of(q)
            if k is not None:
                for w in T.alloc_writers().get(k, []):
                    if w[0] is i: continue
                    for z in w[0].ops: out += loads_of(T, z, seen)
    return out

def result_base(T, spec):
    """base atom key of the result array: an argument, or the memory handed to the opaque sink"""
    if spec != "sink": return atom(spec), None
    for i in T.f.all():
        if i.op == "call" and (i.callee or "").startswith("sink_"):
            return T.full(T.opnd(i.ops[0])), T.full(T.opnd(i.ops[1]))
    return None, None

def final_segments(T, st, asm, base, total, ctx=None, allow_init=True):
    """segments tiling [0,total); a complete earlier initialisation pass over the array is dropped"""
    ctx = ctx or Ctx.of(T.f)
    per, other = under(st, asm, [base])
    mine = per[base]
    # bulk zero/initialisation passes: loops whose stores are all dominated-before a later full tiling
    loops = {}
    for s in mine:
        g = s.loops[0][0] if s.loops else ("once", s.ins.id)
        loops.setdefault(g, []).append(s)
    err = None
    try: return chain(segments([s for s in mine], asm, ctx), rf(0), total, ctx, asm), other
    except NotCovered as e: err = e
    if not allow_init: raise err
    # an initialisation pass with constants that runs completely before the others does not matter
    order = {b: n for n, b in enumerate(rpo(T.f))}
    gs = sorted(loops, key=lambda g: min(order[s.ins.blk] for s in loops[g]))
    rest = mine
    while len(gs) > 1:
        g = gs.pop(0)
        if not all(s.es == "memset" or (not isinstance(s.es, str) and all(T.full(v).isconst() for v in s.vals)) for s in loops[g]): break
        if any(T.f.dominates(r.ins.blk, s.ins.blk) for s in loops[g] for q in gs for r in loops[q]): break
        rest = [s for q in gs for s in loops[q]]
        try: return chain(segments(rest, asm, ctx), rf(0), total, ctx, asm), other
        except NotCovered: pass
    raise err

def check_elementwise(c, key, fn, mod, out, tout, n, expected, args=None, where_hint="", inplace=True, ranges=None):
    """out: argument key or 'sink'; expected(e) -> list of component RFs"""
    T = Terms(fn, mod=mod, args=args)
    T.nnset |= {a for a in n.atoms()} if isinstance(n, RF) else set()
    ctx = Ctx.of(fn, ranges=ranges)
    c.cover(fn)
    _, es, nc = TY[tout]
    try:
        base_rf, _sz = result_base(T, out)
        if base_rf is None: raise NotDecided("result never produced")
        st = writes(T)
        ncases = 0
        for asm in case_split(write_terms(st) + [base_rf] + ([_sz] if _sz is not None else [])):
            if infeasible(asm): continue
            total = subst(n * (es * nc), asm)
            b = subst(base_rf, asm)
            if _sz is not None: must(ctx, subst(_sz, asm), subst(n, asm), asm, "result has %s elements, expected %s" % (show(subst(_sz, asm)), show(subst(n, asm))), None)
            if total.iszero(): 
                per, other = under(st, asm, [b.single_atom()] if b.single_atom() else [])
                extra = [s for l in per.values() for s in l] + [s for s in other]
                if extra: raise NotCovered("write although the operands are empty", extra[0].ins)
                ncases += 1
                continue
            bk = b.single_atom()
            if bk is None: raise NotDecided("result array not identified: %s" % show(b)[:200])
            segs, other = final_segments(T, st, asm, bk, total, ctx)
            if other:
                raise NotCovered("write outside the result array at %s" % show(other[0].addr)[:200], other[0].ins)
            for sg in segs:
                k = ("k", sg.header)
                for (o0, stride, ses, v, s) in sg.slots:
                    if ses != es: raise NotDecided("element stored with %d bytes instead of %d" % (ses, es), s.ins)
                    off = o0 + stride * atom(k) if sg.header is not None else o0
                    e, comp = slot_index(off, tout)
                    if e is None: raise NotDecided("unresolved element index %s" % show(off)[:200], s.ins)
                    want = subst(expected(e)[comp], asm)
                    got = subst(v, asm)
                    if not same(got, want):
                        vd = ctx.eq(got, want, asm)
                        if vd == "unknown": raise NotDecided("stored value not resolved: %s" % show(got)[:200], s.ins)
                        if vd == "differ": raise Mismatch(s.ins, e, comp, got, want)
                if inplace: check_read_before_write(T, sg)
            ncases += 1
        c.ok(1, "%s: %s" % (key, "tiled [0,n) in %d cases" % ncases))
    except Mismatch as e:
        c.bad(key, "stored element %s component %d is %s, expected %s" % (show(e.e)[:120], e.comp, show(e.got)[:300], show(e.want)[:300]), e.ins.loc(), e.ins.chain())
    except NotDecided as e:
        c.skip(key, "%s (%s)" % (e, e.ins.loc() if e.ins is not None else ""))
    except NotCovered as e:
        c.bad(key, str(e), e.ins.loc() if e.ins is not None else where_hint, e.ins.chain() if e.ins is not None else None)
    except TooBig:
        c.skip(key, "terms too large")

class Mismatch(Exception):
    def __init__(self, ins, e, comp, got, want):
        self.ins = ins; self.e = e; self.comp = comp; self.got = got; self.want = want

def same(a, b):
    if a == b or a.close(b): return True
    # differing only in coefficients inside opaque function atoms: compare structurally
    return struct_same(a, b)

def struct_same(a, b, depth=0):
    if isinstance(a, RF) and isinstance(b, RF):
        if a == b or a.close(b): return True
        if depth > 6: return False
        # match atoms one by one
        A = [k for k in a.atoms()]; B = [k for k in b.atoms()]
        onlyA = [k for k in A if k not in B]; onlyB = [k for k in B if k not in A]
        if len(onlyA) != len(onlyB) or not onlyA: return False
        m = {}
        left = list(onlyB)
        for k in onlyA:
            hit = next((q for q in left if key_same(k, q, depth + 1)), None)
            if hit is None: return False
            left.remove(hit); m[k] = atom(hit)
        return subst(a, m).close(b)
    return a == b

def key_same(p, q, depth):
    if isinstance(p, RF) and isinstance(q, RF): return struct_same(p, q, depth)
    if isinstance(p, tuple) and isinstance(q, tuple): return len(p) == len(q) and all(key_same(x, y, depth) for x, y in zip(p, q))
    return p == q

def check_read_before_write(T, seg):
    """within one iteration, an element is read before it (or its other component) is overwritten, so that the
    result may be one of the operands"""
    st = {}
    for (o0, stride, es, v, s) in seg.slots: st[s.ins.id] = s.ins
    ins = list(st.values())
    for s in ins:
        for l in loads_of(T, s.ops[0]):
            if T.f.loop_of(l.blk) != T.f.loop_of(s.blk): continue
            for t in ins:
                if T.f.ins_dominates(t, l) and may_share(T, t, l):
                    raise NotCovered("operand element is read after the result element was already overwritten", l)

def may_share(T, st, ld):
    """same element index, i.e. equal offsets if the arrays coincide"""
    a = T.full(T.opnd(st.ops[1])); b = T.full(T.opnd(ld.ops[0]))
    ka = [k for k in a.atoms() if isinstance(k, tuple) and k[0] in ("arg", "call")]
    kb = [k for k in b.atoms() if isinstance(k, tuple) and k[0] in ("arg", "call")]
    for x in ka:
        for y in kb:
            d = (a - atom(x)) - (b - atom(y))
            if d.isconst():
                lo, hi = d.cval(), d.cval() + st.d["size"]
                if lo < ld.d["size"] and hi > 0: return True
    return False

# -- expected formulas ------------------------------------------------------------------------
def c_add(a, b):
    a, b = promote(a, b); return [x + y for x, y in zip(a, b)]
def c_sub(a, b):
    a, b = promote(a, b); return [x - y for x, y in zip(a, b)]
def c_mul(a, b):
    if len(a) == 1 and len(b) == 1: return [a[0] * b[0]]
    if len(a) == 1: return [a[0] * x for x in b]
    if len(b) == 1: return [x * b[0] for x in a]
    return [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]
def c_div(a, b):
    if len(b) == 1: return [x / b[0] for x in a]
    if len(a) == 1: a = [a[0], rf(0)]
    q = b[0] * b[0] + b[1] * b[1]
    return [(a[0] * b[0] + a[1] * b[1]) / q, (a[1] * b[0] - a[0] * b[1]) / q]
def promote(a, b):
    n = max(len(a), len(b))
    return a + [rf(0)] * (n - len(a)), b + [rf(0)] * (n - len(b))
