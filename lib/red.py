"""Reductions: recognise the exit value of a chain of accumulation loops as SUM / MAX / MIN over every element
of the operand arrays exactly once, with one combining function g."""
from ew import *

class NotReduction(Exception):
    def __init__(self, why, ins=None, definite=False):
        self.ins = ins
        self.definite = definite
        super().__init__(why)

PASS = {"phi", "select", "extractelement", "insertelement", "shufflevector", "fadd", "freeze", "bitcast", "insertvalue", "extractvalue"}

def users(f):
    u = {}
    for i in f.all():
        for o in i.ops:
            if o["k"] == "i": u.setdefault(o["v"], []).append(i)
    return u

def is_fp(ty):
    v = veclen(ty)
    return (v[1] if v else ty) in ("float", "double")

def accumulators(T):
    """[(loop header, phi)] fp loop-carried values whose solved recurrence accumulates over the loop"""
    out = []
    for h in T.f.loops:
        for i in T.f.blocks[h]["I"]:
            if i.op == "phi" and is_fp(i.ty): out.append((h, i))
    return out

def final_exits(T):
    """scalar accumulators whose exit value does not seed another accumulation loop"""
    f = T.f
    us = users(f)
    res = []
    for h, p in accumulators(T):
        L = f.loops[h]
        seen = set(); work = [p]; feeds = False
        while work and not feeds:
            x = work.pop()
            if x.id in seen: continue
            seen.add(x.id)
            for u in us.get(x.id, []):
                if u.op == "phi" and u.blk in f.loops and u.blk != h and x.blk not in f.loops[u.blk].blocks: feeds = True; break
                if x.blk in L.blocks and u.blk in L.blocks and u.op != "phi" : continue
                if u.op in PASS and not (u.blk == h): work.append(u)
                elif u.op == "store":
                    k, _ = T._alloca_of(u.ops[1])
                    if k is not None:
                        for w in f.all():
                            if w.op == "load" and T._alloca_of(w.ops[0])[0] == k: work.append(w)
        if not feeds: res.append((h, p))
    return res

def walk_sums(r, heads=("sum", "loopext")):
    return [k for k in r.atoms() if isinstance(k, tuple) and k[0] in heads]

def load_offsets(D, arrays):
    """{array index: [offset]} of the loads occurring in D"""
    out = {}
    def wk(k):
        if isinstance(k, RF):
            for a in k.atoms(): wk(a)
        elif isinstance(k, tuple):
            if k and k[0] == "load":
                for n, (base, t) in enumerate(arrays):
                    b, off = split_base(k[1], [base.single_atom()])
                    if b is not None: out.setdefault(n, set()).add(off); return
            for x in k[1:]: wk(x)
    wk(D)
    return out

def place(D, arrays, e):
    """substitute loads at element e by placeholders"""
    m = {}
    for n, (base, t) in enumerate(arrays):
        for c, v in enumerate(elem(base, t, e)): m[v.single_atom()] = atom(("x", n, c))
    return subst(D, m)

def unplace(g, arrays, e):
    m = {}
    for n, (base, t) in enumerate(arrays):
        for c, v in enumerate(elem(base, t, e)): m[("x", n, c)] = v
    return subst(g, m)

def elems_of(D, arrays):
    s = set()
    for n, offs in load_offsets(D, arrays).items():
        for o in offs:
            e, c = slot_index(o, arrays[n][1])
            if e is None: raise NotReduction("unresolved element index %s" % show(o)[:160])
            s.add(e)
    return s

def order_consts(es):
    """sort element indices that differ by constants; None if unrelated"""
    es = list(es)
    ref = es[0]
    r = []
    for e in es:
        d = e - ref
        if not d.isconst(): return None
        r.append((d.cval(), e))
    r.sort(key=lambda x: x[0])
    return r

def recognise_sum(total, arrays, n, g=None, ctx=None, asm=None):
    """total == init + SUM_{j<n} g(element j)?  returns (g, init); arrays: [(base RF, type)]"""
    rest = total
    runs = {}
    for s in walk_sums(total, ("sum",)):
        _, h, D, up = s
        co, rem = rest.coeff_of(s)
        if co is None or not co.isconst() or co.cval() != 1: raise NotReduction("accumulated loop value is scaled or used non-linearly")
        rest = rem
        runs[(h, up.key())] = (h, up, runs.get((h, up.key()), (0, 0, rf(0)))[2] + D)
    if g is None:
        cand = [D for _, _, D in runs.values()] + [rest]
        for D in cand:
            es = elems_of(D, arrays)
            if not es: continue
            e0 = next(iter(es))
            keep = place(D, arrays, e0)
            # terms of D that mention element e0 only
            if len(es) > 1:
                m = {}
                for e in es:
                    if e == e0: continue
                    for nn_, (base, t) in enumerate(arrays):
                        for c_, v in enumerate(elem(base, t, e)): m[v.single_atom()] = atom(("x", nn_, c_))
                # all elements equal: D = count * g
                keep = subst(keep, m) / rf(len(es))
            if D is rest and len(cand) > 1: break
            g = keep; break
        if g is None: return None, rest
    segs = []
    for h, up, D in runs.values():
        k = ("k", h)
        es = elems_of(D, arrays)
        if not es: raise NotReduction("loop accumulates values that are not operand elements")
        oc = order_consts(es)
        if oc is None: raise NotReduction("one iteration reads elements at unrelated indices")
        exp = rf(0)
        for _, e in oc: exp = exp + unplace(g, arrays, e)
        if not same(D, exp): raise NotReduction("iteration adds %s, expected %s" % (show(D)[:240], show(exp)[:240]), definite=True)
        for a, b in zip(oc, oc[1:]):
            if b[0] - a[0] != 1: raise NotReduction("iteration skips or repeats an element", definite=True)
        l = linear(oc[0][1], k)
        if l is None or l[1] != rf(len(oc)): raise NotReduction("iteration consumes %d elements but advances by %s" % (len(oc), show(l[1]) if l else "?"), definite=True)
        segs.append((l[0], l[0] + up * len(oc)))
    es = elems_of(rest, arrays)
    for e in es:
        rest = rest - unplace(g, arrays, e)
        segs.append((e, e + 1))
    init = rest
    if elems_of(init, arrays): raise NotReduction("elements outside the loops are not combined with the same function", definite=True)
    tile(segs, n, ctx, asm)
    return g, init

def tile(segs, n, ctx, asm, overlap=False):
    """segs [(start, end)] tile [0, n) exactly (overlap: cover it, staying inside)"""
    ctx = ctx or Ctx()
    cur = rf(0)
    left = list(segs)
    while True:
        nx = next((s for s in left if s[0] == cur and s[0] != s[1]), None)
        if nx is None: nx = next((s for s in left if ctx.eq(s[0], cur, asm) == "same" and ctx.eq(s[0], s[1], asm) != "same"), None)
        if nx is None: break
        left.remove(nx); cur = nx[1]
    left = [s for s in left if ctx.eq(s[0], s[1], asm) not in ("same", "vacuous")]
    v = ctx.eq(cur, n, asm)
    if v == "unknown": raise NotReduction("extent not resolved: %s vs %s" % (show(cur), show(n)))
    if v == "differ":
        if left: raise NotReduction("elements [%s, %s) are consumed, but coverage reached only %s" % (show(left[0][0]), show(left[0][1]), show(cur)), definite=True)
        raise NotReduction("elements are consumed up to %s, expected %s %s" % (show(cur), show(n), ctx.witness(cur, n, asm)), definite=True)
    if left and v == "same" and not overlap: raise NotReduction("elements [%s, %s) are consumed twice" % (show(left[0][0]), show(left[0][1])), definite=True)

def recognise_ext(total, kind, arrays, n, ctx=None, asm=None):
    k = total.single_atom()
    other = {"fmin": "fmax", "fmax": "fmin"}[kind]
    if isinstance(k, tuple) and (k[:2] == ("f", other) or k[:2] == ("loopext", other)): raise NotReduction("computes the opposite extremum", definite=True)
    if isinstance(k, tuple) and k[:2] == ("f", kind): parts = list(k[2:])
    else: parts = [total]
    segs = []
    singles = []
    for p in parts:
        a = p.single_atom()
        if isinstance(a, tuple) and a[0] == "loopext":
            _, kd, h, D, up = a
            if kd != kind: raise NotReduction("mixed minimum/maximum")
            es = elems_of(D, arrays)
            if len(es) != 1: raise NotReduction("unexpected element in extremum loop")
            e = next(iter(es))
            if not same(D, unplace(atom(("x", 0, 0)), arrays, e)): raise NotReduction("extremum of something else than the element: %s" % show(D)[:160])
            l = linear(e, ("k", h))
            segs.append((l[0], l[1], up))
        else:
            es = elems_of(p, arrays)
            if len(es) != 1 or not same(p, unplace(atom(("x", 0, 0)), arrays, next(iter(es)))): raise NotReduction("extremum of something else than the element: %s" % show(p)[:200])
            singles.append(next(iter(es)))
    # merge interleaved strided runs of one loop
    runs = []
    by = {}
    for st, sd, up in segs: by.setdefault((sd, up), []).append(st)
    for (sd, up), sts in by.items():
        if not sd.isconst(): raise NotReduction("non-constant stride")
        w = int(sd.cval())
        sts = list(sts)
        while sts:
            # group of w consecutive starts
            oc = None
            for s0 in sts:
                grp = [s0 + j for j in range(w)]
                if all(x in sts for x in grp): oc = grp; break
            if oc is None: raise NotReduction("strided loop does not read every element of its stride")
            for x in oc: sts.remove(x)
            runs.append((oc[0], oc[0] + up * w))
    runs += [(s, s + 1) for s in singles]
    # the seed element may be inspected twice
    seeds = [r for r in runs if r[1] - r[0] == rf(1) and r[0].iszero()]
    rest = [r for r in runs if r not in seeds]
    try: tile(rest, n, ctx, asm)
    except NotReduction as e:
        if not seeds: raise
        tile(rest + seeds[:1], n, ctx, asm)
    return True

def cut_terms(f, mod, args=None):
    """Terms in which the exit value of every completed accumulation is an atom ('fin', header, phi)"""
    T = Terms(f, mod=mod, args=args)
    T2 = Terms(f, mod=mod, args=args)
    for h, p in final_exits(T): 
        v = veclen(p.ty)
        T2.cut.setdefault(h, []).extend([("phi", p.id, l) for l in range(v[0])] if v else [("phi", p.id)])
    return T2

def canon_fins(t, T, asm, arrays, n, ctx=None):
    """replace every accumulation in t by ('SUM', g) after proving that it folds g over all n elements from 0"""
    done = {}
    def fix(r):
        m = {}
        for k in fins(r):
            if k not in done:
                closed = fix(subst(T.fin[k], asm))
                g, init = recognise_sum(closed, arrays, n, None, ctx, asm)
                if not init.iszero(): raise NotReduction("accumulation starts from %s" % show(init)[:120], definite=True)
                done[k] = rf(0) if g is None else atom(("SUM", g))
            m[k] = done[k]
        return subst(r, m) if m else r
    return fix(t)

def fins(r):
    out = set()
    def wk(k):
        if isinstance(k, RF):
            for a in k.atoms(): wk(a)
        elif isinstance(k, tuple):
            if k and k[0] == "fin": out.add(k); return
            for x in k: wk(x)
    wk(r)
    return out
