"""Size contracts: on every path of an entry point, illegal argument sizes must end in a failure (exception or failed
assertion) before anything is written or returned, and legal ones must be accepted."""
from val import *
from num import points, BadPoint, code_types

def exit_atoms(r, out, seen=None):
    if seen is None: seen = set()
    if r in seen: return
    seen.add(r)
    for k in r.atoms():
        if isinstance(k, tuple):
            if k[0] == "ucond" and k[1] == "exit": out.setdefault(k[2], set()).add(k)
            for x in k[1:]:
                if isinstance(x, RF): exit_atoms(x, out, seen)

def check_contract(c, key, fn, mod, legal, names, ranges, bases=(("arg", 0),), count=250, accept=True, fixed=None, intloads=False, noreturn_only=False, normal_exits=False):
    """legal(dict name->value) for integer arguments; names: {name: arg index}"""
    T = Terms(fn, mod=mod)
    c.cover(fn)
    types = code_types(fn)
    try:
        pcs = path_conditions(T, throwing=True)
        rets = [i for i in fn.all() if i.op == "ret"]
        stores = []
        for i in fn.all():
            if i.op == "store" and T._alloca_of(i.ops[1])[0] is None:
                a = T.full(T.opnd(i.ops[1]))
                b, off = split_base(a, bases)
                if b is None and not any(uses(a, k) for k in bases): continue
                stores.append((i, pcs.get(i.blk, rf(0)), [n for _, n in T.execs(i)]))
            elif i.op == "call" and fname(i) in ("memcpy", "memmove", "memset"):
                a = T.full(T.opnd(i.ops[0]))
                b, off = split_base(a, bases)
                if b is None and not any(uses(a, k) for k in bases): continue
                stores.append((i, pcs.get(i.blk, rf(0)), [T.full(T.opnd(i.ops[2]))]))
        rpc = rf(0)
        for r in rets: rpc = rpc + pcs.get(r.blk, rf(0))
        local = "alloca(" in show(rpc)
        seen_l = seen_i = 0
        unk = None
        # a loop with one way out that returns is left that way
        exits = {}
        for pc in [rpc] + [q[1] for q in stores]: exit_atoms(pc, exits)
        exits = [k for ks in exits.values() if len(ks) == 1 for k in ks] if normal_exits else []
        for p in points({}, types, ranges, count, fixed=fixed, intloads=intloads, seed=7):
            v = {}
            for k in exits: p.force[k] = 1
            for nm, ix in names.items(): v[nm] = p.at(intern(("arg", ix)))
            ok = legal(v)
            if ok is None: continue
            try: ret = p.ev(rpc)
            except BadPoint: continue
            if p.opaque: unk = "outcome depends on unresolved conditions"; p.opaque = False; continue
            if ok:
                seen_l += 1
                if accept and ret != 1 and local: raise NotDecided("the outcome depends on a local variable an unresolved call may change")
                if accept and ret != 1: raise NotCovered("legal sizes %s are rejected" % v, rets[0] if rets else None)
            else:
                seen_i += 1
                if ret != 0 and local: raise NotDecided("the outcome depends on a local variable an unresolved call may change")
                if ret != 0: raise NotCovered("returns normally for mismatched sizes %s" % v, rets[0])
                for i, pc, ns in stores:
                    try:
                        x = p.ev(pc)
                        nn = [p.ev(n) if n is not None else 1 for n in ns]
                    except BadPoint: continue
                    if x != 0 and all(q > 0 for q in nn) and not p.opaque: raise NotCovered("writes output for mismatched sizes %s" % v, i)
        if unk and not (seen_l and seen_i): raise NotDecided(unk)
        if not seen_i or (accept and not seen_l): raise NotDecided("size combinations not exercised")
        c.ok(1, "%s: %d stores and %d returns guarded" % (key, len(stores), len(rets)))
    except NotDecided as e: c.skip(key, "%s (%s)" % (e, e.ins.loc() if e.ins is not None else ""))
    except NotCovered as e: c.bad(key, str(e), e.ins.loc() if e.ins is not None else "", e.ins.chain() if e.ins is not None else None)
    except TooBig: c.skip(key, "terms too large")
