"""Whole-array facts: which elements an entry function writes, under which conditions, with which value."""
from ir import *
from num import verdict, Types, code_types
import itertools

def arg(n): return atom(("arg", n))

def edge_cond(T, b, s):
    """condition of taking edge b->s given block b runs (indicator polynomial)"""
    f = T.f
    t = f.term(b)
    su = f.succs(b)
    if len(su) == 1: return rf(1)
    if t.op == "br":
        c = T.full(T.opnd(t.ops[0]))
        r = rf(0)
        if su[0] == s: r = r + c
        if su[1] == s: r = r + 1 - c
        return r
    if t.op == "switch":
        x = T.full(T.opnd(t.ops[0]))
        hit = rf(0); other = rf(0)
        for cv, d in t.d["cases"]:
            e = cmp_("icmp", "eq", x, rf(int(cv["v"])))
            if d == s: hit = hit + e
            else: other = other + e
        if t.d["def"] == s: return 1 - other
        return hit
    return atom(("ucond", "edge", b, s))

def rpo(f):
    """Reverse postorder in which the body of a loop comes before the code after the loop."""
    if getattr(f, '_rpo', None): return f._rpo
    def order(b):
        ls = [L for L in f.loops.values() if b in L.blocks]
        return sorted(f.succs(b), key=lambda s: -sum(s not in L.blocks for L in ls))
    seen, out = set(), []
    st = [(f.order[0], iter(order(f.order[0])))]
    seen.add(f.order[0])
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(order(s)))); break
        else:
            out.append(b); st.pop()
    f._rpo = out[::-1]
    return f._rpo

def path_conditions(T, throwing=False):
    """block -> condition under which it runs (per entry; inside loops, per iteration, continuation tests excluded).
    Normal executions only: branches into non-returning code are taken as not taken, unless `throwing`."""
    f = T.f
    live = set(f.blocks) if throwing is True else f.returning   # "ret": conditions of reaching a return
    pc = {}
    for b in rpo(f):
        if b not in live: continue
        if b == f.order[0]: pc[b] = rf(1); continue
        tot = rf(0)
        for p in set(f.preds[b]):
            if p not in live or p not in pc: continue
            if b in f.loops and p in f.loops[b].blocks: continue    # back edge
            # leaving loops
            left = [h for h in f.loops_of(p) if b not in f.loops[h].blocks]
            if left:
                h = left[-1]
                ex = {(x, y) for x, y in f.loops[h].exits if y in live}
                base = pc[h]
                if len(ex) == 1: tot = tot + base
                else: tot = tot + base * atom(("ucond", "exit", p, b))
                continue
            ls = [s for s in f.succs(p) if s in live or throwing]
            if len(set(ls)) == 1: tot = tot + pc[p]; continue
            hs = f.loops_of(p)
            cont = False
            for h in hs:
                L = f.loops[h]
                if any(x == p for x, y in L.exits) and b in L.blocks:
                    inl = {s for s in f.succs(p) if s in L.blocks}
                    if len(inl) == 1: cont = True
            if cont: tot = tot + pc[p]; continue
            tot = tot + pc[p] * edge_cond(T, p, b)
        pc[b] = tot
    return pc

def ind_atoms(r, out, loopvar=False):
    """indicator atom keys occurring anywhere in r (also nested), not depending on loop counters"""
    def walk_key(k):
        if isinstance(k, RF): walk(k); return
        if isinstance(k, tuple):
            if k and k[0] in INDICATORS and (loopvar or not has_head(atom(k), {"k", "phi", "kx"})): out.add(k)
            for x in k: walk_key(x)
    def walk(r):
        for a in r.atoms(): walk_key(a)
    walk(r)
    return out

class Store:
    __slots__ = ("ins", "addr", "vals", "es", "pc", "loops", "base", "off")

def all_stores(T, live=None):
    """stores to memory that is not a local stack slot, as [Store] (addresses and lane values fully resolved)"""
    f = T.f
    out = []
    for i in f.all():
        if i.blk not in f.returning: continue
        if i.op == "store":
            if T._alloca_of(i.ops[1])[0] is not None: continue
            s = Store()
            s.ins = i
            s.addr = T.full(T.opnd(i.ops[1]))
            v = veclen(i.d["vty"])
            if v:
                s.es = SIZES.get(v[1], 0)
                s.vals = [T.full(T.opnd(i.ops[0], l)) for l in range(v[0])]
            else:
                s.es = i.d["size"]
                s.vals = [T.full(T.opnd(i.ops[0]))]
            s.loops = T.execs(i)
            out.append(s)
        elif i.op == "call" and fname(i) in ("memcpy", "memmove", "memset"):
            if T._alloca_of(i.ops[0])[0] is not None: continue
            s = Store()
            s.ins = i
            s.addr = T.full(T.opnd(i.ops[0]))
            s.es = fname(i)
            s.vals = [T.full(T.opnd(i.ops[1])), T.full(T.opnd(i.ops[2]))]
            s.loops = T.execs(i)
            out.append(s)
    return out

def feasible(cs):
    return True

class Segment:
    """contiguous run of component slots written by one loop (or once): offset of slot j in iteration k is
    start + k*stride + j*es"""
    __slots__ = ("start", "end", "stride", "header", "N", "slots", "es")

def base_of(addr, bases):
    k, off = split_base(addr, bases)
    return k, off

def linear(off, k):
    p = poly_in(off, k)
    if p is None or len(p) > 2: return None
    if len(p) < 2: p = p + [rf(0)]
    return p

class NotCovered(Exception):
    """the rule is broken at a definite construct"""
    def __init__(self, why, ins=None):
        self.ins = ins
        super().__init__(why)
class NotDecided(NotCovered):
    """the construct is outside what the analysis can resolve: no verdict"""

class Ctx:
    """argument types and value ranges used when two terms have to be compared by identity testing"""
    def __init__(self, types=(), ranges=None, intloads=False, fixed=None):
        self.types = types if isinstance(types, Types) else Types(types); self.ranges = ranges; self.intloads = intloads; self.fixed = fixed
    def eq(self, a, b, asm=None, krange=None, count=12):
        if a == b or a.close(b): return "same"
        return verdict(a, b, asm, self.types, self.ranges, self.intloads, self.fixed, krange=krange, count=count)[0]
    def witness(self, a, b, asm=None):
        w = verdict(a, b, asm, self.types, self.ranges, self.intloads, self.fixed)[1]
        if not w: return ""
        p, x, y = w
        args = []
        for n, t in enumerate(self.types):
            if t != "ptr": args.append("arg%d=%s" % (n, p.at(intern(("arg", n)))))
        return "e.g. at %s: %s vs %s" % (", ".join(args), x, y)
    @staticmethod
    def of(fn, **kw): return Ctx(code_types(fn), **kw)

def must(ctx, a, b, asm, why, ins):
    """a == b, else a definite violation or no verdict"""
    v = ctx.eq(a, b, asm)
    if v in ("same", "vacuous"): return
    raise (NotCovered if v == "differ" else NotDecided)(why, ins)

def bulk_segment(s, asm, elt):
    """memcpy/memmove/memset(0) of whole elements as a segment with loop symbol ('k', ('bulk', id))"""
    es, nc = elt
    h = "bulk%d" % s.ins.id
    k = atom(("k", h))
    n = subst(s.vals[1], asm)
    g = Segment()
    g.header = h; g.es = es; g.stride = rf(es * nc)
    g.start = subst(s.off, asm); g.end = g.start + n; g.N = n / (es * nc)
    g.slots = []
    for c in range(nc):
        if s.es == "memset":
            if not s.vals[0].iszero(): return None
            v = rf(0)
        else: v = atom(("load", subst(s.vals[0], asm) + k * (es * nc) + c * es, es))
        g.slots.append((g.start + c * es, g.stride, es, v, s))
    return g

def seg_order(T, seg):
    order = {b: n for n, b in enumerate(rpo(T.f))}
    i = seg.slots[0][4].ins
    return (order.get(i.blk, 0), i.idx if hasattr(i, "idx") else 0)

def resolve_phases(T, segs, base, asm, ctx):
    """segments of one array in program order: loads of elements written by an earlier segment are replaced by the
    value stored there; returns the segments in order"""
    segs = sorted(segs, key=lambda g: seg_order(T, g))
    bk = [base]
    for n, g in enumerate(segs):
        kg = ("k", g.header)
        kr = {kg: g.N} if g.header is not None else {}
        new = []
        for (o0, st, es, v, s) in g.slots:
            m = {}
            for a in loads_in(subst(v, asm)):
                b, off = split_base(a[1], bk)
                if b is None: continue
                parts, closed = [], False
                for e in reversed(segs[:n]):
                    ins = inside(ctx, off, e, asm, kr)
                    if ins == "no": continue
                    val = slot_value(ctx, e, off, a[2], asm, kr)
                    if val is None: raise NotDecided("operand element not matched to an earlier write", s.ins)
                    parts.append((e, val))
                    if ins == "yes": closed = True; break
                if not parts: continue
                r = parts[-1][1] if closed or tiles(ctx, off, [e for e, _ in parts], asm, kr) else atom(a)
                for e, val in reversed(parts[:-1] if r is parts[-1][1] else parts):
                    if val == r: continue
                    i = (1 - cmp_("icmp", "slt", off, e.start)) * cmp_("icmp", "slt", off, e.end)
                    r = i * val + (1 - i) * r
                m[a] = r
            new.append((o0, st, es, subst(subst(v, asm), m) if m else v, s))
        g.slots = new
    return segs

def slot_value(ctx, e, off, es, asm, kr):
    """value a segment leaves at byte offset off (of an array element of es bytes) inside it"""
    slots = [x for x in e.slots if x[2] == es]
    if not slots or len(slots) != len(e.slots): return None
    def at(p0, pst, pv, kk): return subst(subst(pv, asm), {("k", e.header): kk})
    for (p0, pst, pes, pv, ps) in slots:
        if pst.iszero():
            if ctx.eq(off, p0, asm, kr) == "same": return at(p0, pst, pv, rf(0))
        elif whole(ctx, (off - p0) / pst, asm, kr, off, e): return at(p0, pst, pv, (off - p0) / pst)
    if any(x[1].iszero() for x in slots):
        if not all(x[1].iszero() for x in slots): return None
        r = None
        for (p0, pst, pes, pv, ps) in slots:
            v = subst(pv, asm)
            r = v if r is None else (lambda i: i * v + (1 - i) * r)(cmp_("icmp", "eq", off, p0))
        return r
    # the same function of the address for every slot
    vals = [at(p0, pst, pv, (off - p0) / pst) for (p0, pst, pes, pv, ps) in slots]
    if all(v == vals[0] for v in vals): return vals[0]
    r = None
    for (p0, pst, pes, pv, ps) in slots:
        d = off - p0
        q = idiv(d, pst)
        v = at(p0, pst, pv, q)
        r = v if r is None else (lambda i: i * v + (1 - i) * r)(cmp_("icmp", "eq", d, q * pst))
    return r

def tiles(ctx, off, segs, asm, kr):
    """every sampled instance of off lies in one of the segments"""
    from num import points, BadPoint
    n = 0
    for p in points(asm, ctx.types, ctx.ranges, 30, intloads=ctx.intloads, fixed=ctx.fixed, krange=kr):
        try: o = p.ev(off); ab = [(p.ev(g.start), p.ev(g.end)) for g in segs]
        except BadPoint: continue
        if p.opaque or not any(a <= o < b for a, b in ab): return False
        n += 1
    return n > 0

def loads_in(r):
    out = set()
    def wk(k):
        if isinstance(k, RF):
            for a in k.atoms(): wk(a)
        elif isinstance(k, tuple):
            if k and k[0] == "load": out.add(k)
            for x in k[1:]: wk(x)
    wk(r)
    return out

def inside(ctx, off, seg, asm, kr):
    from num import points, BadPoint
    yes = no = 0
    for p in points(asm, ctx.types, ctx.ranges, 20, intloads=ctx.intloads, fixed=ctx.fixed, krange=kr):
        try: o, a, b = p.ev(off), p.ev(seg.start), p.ev(seg.end)
        except BadPoint: continue
        if p.opaque: return "?"
        if a <= o < b: yes += 1
        else: no += 1
    return "yes" if yes and not no else "no" if no and not yes else "none" if not yes else "?"

def whole(ctx, kk, asm, kr, off, seg):
    from num import points, BadPoint
    n = 0
    for p in points(asm, ctx.types, ctx.ranges, 20, intloads=ctx.intloads, fixed=ctx.fixed, krange=kr):
        try: v = p.ev(kk); o, a, b = p.ev(off), p.ev(seg.start), p.ev(seg.end)
        except BadPoint: continue
        if not a <= o < b: continue
        if isinstance(v, Fraction) and v.denominator != 1: return False
        n += 1
    return n > 0

def segments(stores, asm, ctx=None, elt=None):
    """group stores (already restricted to one base; .off set) into contiguous segments under assumptions asm"""
    ctx = ctx or Ctx()
    groups = {}
    for s in stores:
        pc = subst(s.pc, asm)
        if pc.iszero(): continue
        loops = [(h, subst(n, asm) if n is not None else None) for h, n in s.loops]
        if any(n is not None and n.iszero() for h, n in loops): continue
        if len(loops) > 1: raise NotDecided("write in nested loops", s.ins)
        if isinstance(s.es, str) and elt and not loops and pc == rf(1):
            seg = bulk_segment(s, asm, elt)
            if seg is not None: groups[("bulk", s.ins.id)] = seg; continue
        groups.setdefault(loops[0][0] if loops else ("once", s.ins.blk, s.ins.id), []).append((s, loops, pc))
    segs = [g for g in groups.values() if isinstance(g, Segment)]
    groups = {k: v for k, v in groups.items() if not isinstance(v, Segment)}
    for g, lst in groups.items():
        seg = Segment()
        loops = lst[0][1]
        seg.header = loops[0][0] if loops else None
        seg.N = loops[0][1] if loops else rf(1)
        if seg.N is None: raise NotDecided("loop with undetermined trip count", lst[0][0].ins)
        k = ("k", seg.header)
        raw = []
        for s, lp, pc in lst:
            es, vals = s.es, s.vals
            if es in ("memcpy", "memmove"):
                z = subst(vals[1], asm)
                if elt and z.isconst() and 0 < z.cval() <= 64 and z.cval() % elt[0] == 0:
                    es = elt[0]
                    vals = [atom(("load", vals[0] + j * es, es)) for j in range(int(z.cval()) // es)]
            if isinstance(es, str): raise NotDecided("bulk " + es, s.ins)
            if elt and es == 2 * elt[0]:
                ks = [v.single_atom() for v in vals]
                if all(k is not None and k[0] == "load" and k[2] == es for k in ks):
                    es = elt[0]
                    vals = [atom(("load", k[1] + j * es, es)) for k in ks for j in (0, 1)]
            off = subst(s.off, asm)
            if loops:
                l = linear(off, k)
                if l is None: raise NotDecided("non-affine write address %s" % show(off)[:200], s.ins)
                if lp[0][1] != seg.N: raise NotDecided("partial iteration write", s.ins)
            else: l = [off, rf(0)]
            for j, v in enumerate(vals): raw.append((l[0] + j * es, l[1], es, v, s, pc))
        # several stores to one slot in one iteration: complementary conditions merge into one value
        by = {}
        for x in raw: by.setdefault((x[0], x[1]), []).append(x)
        slots = []
        for xs in by.values():
            if len({x[2] for x in xs}) > 1: raise NotDecided("writes of different width to one element", xs[0][4].ins)
            tot = rf(0); val = rf(0)
            for x in xs: tot = tot + x[5]; val = val + x[5] * x[3]
            if len(xs) > 1 and all(x[5] == rf(1) for x in xs): raise NotDecided("element written twice in one iteration", xs[1][4].ins)
            if tot != rf(1):
                v = ctx.eq(tot, rf(1), asm)
                if v == "unknown": raise NotDecided("conditionally executed write (%s)" % show(tot)[:200], xs[0][4].ins)
                if v == "differ": raise NotCovered("element is written only if %s" % show(tot)[:200], xs[0][4].ins)
            slots.append((xs[0][0], xs[0][1], xs[0][2], val if len(xs) > 1 else xs[0][3], xs[0][4]))
        strides = {x[1] for x in slots}
        if len(strides) != 1: raise NotDecided("writes with different strides in one loop", lst[0][0].ins)
        seg.stride = strides.pop()
        ref = slots[0][0]
        dd = []
        for x in slots:
            d = x[0] - ref
            if not d.isconst(): raise NotDecided("writes of one loop at unrelated addresses", x[4].ins)
            dd.append((d.cval(), x))
        dd.sort(key=lambda t: t[0])
        seg.es = dd[0][1][2]
        for a, b in zip(dd, dd[1:]):
            if b[0] - a[0] != a[1][2]: raise NotCovered("gap between elements written by one iteration", b[1][4].ins)
        total = dd[-1][0] - dd[0][0] + dd[-1][1][2]
        first = dd[0][1][0]
        seg.slots = [x for _, x in dd]
        if loops:
            if seg.stride == rf(total): seg.start, seg.end = first, first + seg.N * seg.stride
            elif seg.stride == rf(-total):
                seg.end, seg.start = first + total, first + total + seg.N * seg.stride
            else:
                must(ctx, seg.stride, rf(total), asm, "iterations write %s bytes but advance by %s" % (total, show(seg.stride)), dd[0][1][4].ins)
                seg.start, seg.end = first, first + seg.N * total
        else: seg.start, seg.end = first, first + total
        segs.append(seg)
    return segs

def chain(segs, lo, hi, ctx=None, asm=None):
    """order segments so that they tile [lo, hi) exactly; raises NotCovered"""
    ctx = ctx or Ctx()
    cur = lo
    left = list(segs)
    out = []
    while True:
        nxt = next((s for s in left if s.start == cur and s.start != s.end), None)
        if nxt is None:
            for s in left:
                if ctx.eq(s.start, cur, asm) == "same" and ctx.eq(s.start, s.end, asm) != "same": nxt = s; break
        if nxt is None: break
        left.remove(nxt); out.append(nxt); cur = nxt.end
    left = [s for s in left if ctx.eq(s.start, s.end, asm) not in ("same", "vacuous")]
    where = left[0].slots[0][4].ins if left else out[-1].slots[0][4].ins if out else None
    v = ctx.eq(cur, hi, asm)
    if v in ("same", "vacuous"):
        if left and v == "same": raise NotDecided("elements are written more than once", where)
        return out
    if v == "unknown": raise NotDecided("extent of writes not resolved: reached %s of %s" % (show(cur), show(hi)), where)
    if left: raise NotCovered("writes start at byte offset %s, expected %s" % (show(left[0].start), show(cur)), where)
    raise NotCovered("writes end at byte offset %s, expected %s %s" % (show(cur), show(hi), ctx.witness(cur, hi, asm)), where)

def case_split(terms, limit=10):
    """all assignments of the loop-invariant indicator atoms in `terms`"""
    at = set()
    for t in terms: ind_atoms(t, at)
    at = sorted(at, key=lambda k: show_atom(k))
    if len(at) > limit: raise NotDecided("too many independent conditions (%d)" % len(at))
    for vals in itertools.product((0, 1), repeat=len(at)):
        m = {k: rf(v) for k, v in zip(at, vals)}
        yield consistent(m)

def consistent(m):
    """closes an assignment under substitution of equalities (var == affine) it contains"""
    m = dict(m)
    for k, v in list(m.items()):
        if k[0] == "cmp" and k[1] == "eq" and v == rf(1):
            d = k[2]
            # solve for a plain atom with constant coefficient
            best = None
            for mono, c in d.n.items():
                if len(mono) == 1 and mono[0][1] == 1:
                    a = keyof(mono[0][0])
                    if isinstance(a, tuple) and a[0] in ("arg", "load"):
                        if sum(1 for mm in d.n if any(x == mono[0][0] for x, _ in mm)) == 1: best = (a, c, mono)
            if best:
                a, c, mono = best
                rest = RF({mm: cc for mm, cc in d.n.items() if mm != mono})
                if not uses(rest, a): m[a] = -rest / c
    return m

def infeasible(m):
    """assignment contradicts itself after substitution"""
    subs = {k: v for k, v in m.items() if k[0] not in INDICATORS}
    if not subs: return False
    for k, v in m.items():
        if k[0] in INDICATORS:
            w = subst(atom(k), subs)
            if w.isconst() and w != v: return True
    return False

def writes(T):
    pcs = path_conditions(T)
    st = all_stores(T)
    for s in st: s.pc = pcs.get(s.ins.blk, rf(0))
    return st

def write_terms(st):
    out = []
    for s in st:
        out += [s.pc, s.addr] + [n for _, n in s.loops if n is not None]
    return out

def under(st, asm, bases):
    """stores that execute under the assumptions, with base/offset resolved: ({base: [Store]}, [others])"""
    per = {b: [] for b in bases}
    other = []
    for s in st:
        pc = subst(s.pc, asm)
        if pc.iszero(): continue
        if any(n is not None and subst(n, asm).iszero() for _, n in s.loops): continue
        a = subst(s.addr, asm)
        b, off = split_base(a, bases)
        x = Store()
        x.ins = s.ins; x.addr = a; x.es = s.es; x.pc = pc; x.loops = s.loops; x.base = b; x.off = off
        x.vals = s.vals
        (per[b] if b is not None else other).append(x)
    return per, other
