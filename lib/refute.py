"""Witness search for mappings the segment rules leave undecided: the extracted effect summaries (loop trip counts,
addresses, path conditions and values of all stores, as terms) are evaluated at sampled lengths, in program order, and
the final contents are compared with the specification.  Only a definite mismatch is reported."""
from flow import *
from num import points, BadPoint, close, Point
from ir import *

class Unknown(Exception): pass

def feeds(T, st):
    """loads whose value reaches a store, and whether a non-integer value is carried from an earlier iteration"""
    loads, seen, carried = [], set(), False
    work = [o for o in st.ops]
    while work:
        o = work.pop()
        if o["k"] != "i" or o["v"] in seen: continue
        seen.add(o["v"])
        i = T.f.ins[o["v"]]
        if i.op == "load": loads.append(i)
        if i.op == "phi" and i.blk in T.f.loops:
            ty = i.d.get("ty", "")
            if not (ty == "ptr" or (ty.startswith("i") and ty[1:].isdigit())): carried = True
        if i.op == "load" or i.op == "call":
            for q in i.ops:
                k, _ = T._alloca_of(q)
                if k is not None:
                    for w in T.alloc_writers().get(k, []):
                        if w[0] is not i: work += list(w[0].ops)
        work += list(i.ops)
    return loads, carried

def order_of(T):
    return {b: n for n, b in enumerate(rpo(T.f))}

def run_point(T, st, p, elt, pc_of=None, calls=()):
    """final memory {address: value} of the stores `st` at point p (elements of elt bytes)"""
    es = elt
    mem = {}
    who = {}
    cur = [None, None]
    order = order_of(T)
    def pos(i): return (order.get(i.blk, 0), getattr(i, "idx", 0))
    cache = {}
    def feeding(s):
        if s.ins.id not in cache: cache[s.ins.id] = feeds(T, s.ins)
        return cache[s.ins.id]
    def fresh(t, tb):
        """were the loads feeding the current store executed after store t (bindings tb) had run?"""
        s, sb = cur
        loads, carried = feeding(s)
        hs = [h for h, _ in reversed(s.loops)]; ht = [h for h, _ in reversed(t.loops)]
        for a, b in zip(hs, ht):
            if a != b: break
            if sb[("k", a)] != tb[("k", a)]:
                return not carried and all(a in T.f.loops_of(l.blk) for l in loads)
        common = [a for a, b in zip(hs, ht) if a == b]
        if carried and common: return False
        # same iteration of all common loops
        return all(all(h in T.f.loops_of(l.blk) for h in common) and pos(t.ins) < pos(l) for l in loads)
    def hook(addr, size):
        a = int(addr)
        if size == es:
            v = mem.get(a)
            if v is None: return None
            if not fresh(*who[a]): raise Unknown("value read before it was overwritten")
            return v
        if any(a + d in mem for d in range(0, size)): raise Unknown("mixed sizes")
        return None
    top = {}
    seq = sorted(st, key=lambda s: (order.get(s.ins.blk, 0), getattr(s.ins, "idx", 0)))
    budget = [6000]
    def ex(s, bind):
        cur[0], cur[1] = s, bind
        budget[0] -= 1
        if budget[0] < 0: raise Unknown("too long")
        q = Point(p.seed, p.fixed, p.types, p.ranges, p.intloads)
        q.force = p.force; q.bind = dict(bind); q.memhook = hook
        def ev(t):
            v = q.ev(t)
            if q.opaque: raise Unknown("opaque")
            return v
        pc = ev(s.pc)
        if pc == 0: return
        if pc != 1: raise Unknown("path condition")
        a = int(ev(s.addr))
        if s.es == "memset":
            n = int(ev(s.vals[1]))
            if ev(s.vals[0]) != 0: raise Unknown("memset")
            for j in range(0, n, es): mem[a + j] = 0; who[a + j] = (s, bind)
            return
        if isinstance(s.es, str):
            n = int(ev(s.vals[1])); b = int(ev(s.vals[0]))
            if n % es or n > 20000: raise Unknown("partial element copy")
            vs = []
            for j in range(0, n, es):
                v = mem.get(b + j)
                vs.append(v if v is not None else q.raw_load(b + j, es))
            for j, v in enumerate(vs): mem[a + j * es] = v; who[a + j * es] = (s, bind)
            return
        vals, w = s.vals, s.es
        if w == 2 * es:
            ks = [v.single_atom() for v in vals]
            if not all(k is not None and k[0] == "load" and k[2] == w for k in ks): raise Unknown("wide store")
            vals = [atom(("load", k[1] + j * es, es)) for k in ks for j in (0, 1)]; w = es
        if w != es: raise Unknown("element size")
        vs = [ev(v) for v in vals]
        for j, v in enumerate(vs): mem[a + j * es] = v; who[a + j * es] = (s, bind)
    def group(items, depth, bind):
        n = 0
        while n < len(items):
            s = items[n]
            if len(s.loops) <= depth:
                ex(s, bind); n += 1; continue
            h, N = s.loops[-1 - depth]
            grp = [x for x in items[n:] if len(x.loops) > depth and x.loops[-1 - depth][0] == h]
            if any(x.loops[-1 - depth][1] != N for x in grp): raise Unknown("partial iterations")
            if N is None: raise Unknown("trip count")
            q = Point(p.seed, p.fixed, p.types, p.ranges, p.intloads)
            q.force = p.force; q.bind = dict(bind); q.memhook = hook
            # a loop that is never entered contributes nothing
            cur[0], cur[1] = s, bind
            N = q.ev(N)
            if q.opaque: raise Unknown("trip count")
            for k in range(max(0, int(N))):
                b = dict(bind); b[("k", h)] = k
                group(grp, depth + 1, b)
            items = items[:n] + [x for x in items[n:] if x not in grp]
    group(seq, 0, {})
    return mem

def refute_map(T, st, base_rf, n, expected, elt, ctx, lo=rf(0), small=26, count=14, asm=None):
    """None, or (instruction, element, component, got, want, point) of a definite mismatch"""
    es, nc = elt
    if any(isinstance(s.es, int) and s.es not in (es, 2 * es) for s in st): return None
    ranges = dict(ctx.ranges or {})
    for k, (a, b) in list(ranges.items()):
        if isinstance(a, int): ranges[k] = (a, max(a, min(b, small)))
    seen = 0
    for p in points(asm or {}, list(ctx.types), ranges, count, intloads=ctx.intloads, fixed=ctx.fixed, seed=3):
        try:
            N = int(p.ev(n)); L = int(p.ev(lo)); b = int(p.ev(base_rf))
            if p.opaque or N > 300: return None
            if L >= N: continue
            mem = run_point(T, st, p, es)
            for e in range(L, N):
                want = expected(rf(e))
                for c in range(nc):
                    got = mem.get(b + (e * nc + c) * es)
                    w = p.ev(want[c])
                    if p.opaque: return None
                    if got is None: return ("never written", e, c, None, w, p)
                    if not close(got, w): return ("differs", e, c, got, w, p)
            stray = [a for a in mem if b - 4096 <= a < b + L * nc * es or b + N * nc * es <= a < b + N * nc * es + 4096]
            if stray: return ("write outside the result", (stray[0] - b) // (nc * es), 0, None, None, p)
            seen += 1
        except Unknown: return None
        except (BadPoint, NotDecided): continue
    return None
