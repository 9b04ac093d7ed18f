"""Facts over normalised LLVM IR: value-flow terms (gated SSA), loop summaries from scalar evolution."""
import json, math, re, struct
from fractions import Fraction
from alg import *

# ---------------------------------------------------------------------------------------------
# constants
# ---------------------------------------------------------------------------------------------
_PI = Fraction(math.pi)
PI = atom("pi")
LOG10E = rf(Fraction(math.log10(math.e)))

def snap(fr, bits):
    """Map a rounded binary constant to the simple real number the source wrote (rational or multiple of pi)."""
    if abs(fr) < Fraction(1, 10**300): return rf(0)          # denormals guard against division by zero only
    eps = Fraction(1, 2**bits) * 2
    if abs(fr) > 10**15 or abs(fr) < Fraction(1, 10**15): return rf(fr)
    for lim in (1, 64):
        q = fr.limit_denominator(lim)
        if q != 0 and abs(q - fr) <= eps * abs(fr): return rf(q)
    for lim in (64,):
        q = (fr / _PI).limit_denominator(lim)
        if q != 0 and abs(q * _PI - fr) <= eps * abs(fr): return PI * rf(q)
        q = (fr * _PI).limit_denominator(lim)
        if q != 0 and abs(q / _PI - fr) <= eps * abs(fr): return rf(q) / PI
    q = fr.limit_denominator(10**4)
    if q != 0 and abs(q - fr) <= eps * abs(fr): return rf(q)
    q = fr.limit_denominator(10**7)
    if q != 0 and abs(q - fr) <= eps * abs(fr): return rf(q)
    q = fr.limit_denominator(10**11)
    if q != 0 and abs(q - fr) <= eps * abs(fr): return rf(q)
    return rf(fr)

def fpconst(o):
    ty = o["ty"]
    h = int(o["hex"], 16)
    if ty == "float": v = struct.unpack("<f", struct.pack("<I", h))[0]; bits = 24
    elif ty == "double": v = struct.unpack("<d", struct.pack("<Q", h))[0]; bits = 53
    else:
        try: v = float(o["v"])
        except ValueError: return atom(("fp", ty, o["hex"]))
        bits = 53
    if math.isnan(v): return atom(("nan",))
    if math.isinf(v): return atom(("inf",)) if v > 0 else -atom(("inf",))
    return snap(Fraction(v), bits)

# ---------------------------------------------------------------------------------------------
class Ins:
    __slots__ = ("id", "op", "ty", "ops", "blk", "d", "idx")
    def __init__(self, d, blk, idx):
        self.id = d["id"]; self.op = d["op"]; self.ty = d["ty"]; self.ops = d["ops"]; self.blk = blk; self.d = d; self.idx = idx
    def __repr__(self): return "%%%d=%s" % (self.id, self.op)
    @property
    def callee(self): return self.d.get("callee")
    @property
    def dem(self): return self.d.get("dem") or ""
    def loc(self):
        """innermost location inside the analysed headers, else innermost"""
        best = None
        for e in self.d.get("loc", []):
            f = e.get("f", "")
            if "dspbb/" in f and "PocketFFT" not in f: return "%s:%d (%s)" % (short(f), e["l"], e.get("s", ""))
            if best is None: best = "%s:%d (%s)" % (short(f), e["l"], e.get("s", ""))
        return best or "?"
    def chain(self):
        return ["%s:%d (%s)" % (short(e.get("f", "")), e["l"], e.get("s", "")) for e in self.d.get("loc", []) if "dspbb/" in e.get("f", "")]

def short(f):
    i = f.find("include/dspbb/")
    return f[i:] if i >= 0 else f

class Loop:
    def __init__(self, d):
        self.header = d["header"]; self.depth = d["depth"]; self.parent = d.get("parent"); self.blocks = set(d["blocks"])
        self.exits = d["exits"]; self.latch = d.get("latch"); self.pre = d.get("pre"); self.btc = d.get("btc"); self.exiting = d["exiting"]

NORETURN = {"__cxa_throw", "abort", "__assert_fail", "_ZSt9terminatev", "__cxa_rethrow", "_ZSt17__throw_bad_allocv", "exit", "_Exit"}

class Fn:
    def __init__(self, d):
        self.d = d
        self.name = d["name"]; self.dem = d["dem"]; self.args = d["args"]
        self.blocks = {}
        self.ins = {}
        self.order = []
        for b in d.get("blocks", []):
            self.blocks[b["id"]] = b
            self.order.append(b["id"])
            li = []
            for k, i in enumerate(b["ins"]):
                x = Ins(i, b["id"], k); li.append(x); self.ins[x.id] = x
            b["I"] = li
        self.loops = {l["header"]: Loop(l) for l in d.get("loops", [])}
        self.preds = {b: [] for b in self.blocks}
        for b in self.blocks.values():
            for s in b["succ"]: self.preds[s].append(b["id"])
        self.idom = {b: self.blocks[b].get("idom") for b in self.blocks}
        self.ipdom = {b: self.blocks[b].get("ipdom") for b in self.blocks}
        self._dead()
    def _dead(self):
        # blocks from which no return is reachable (throw / abort / unreachable)
        live = set()
        work = [b for b in self.blocks if self.term(b).op == "ret"]
        while work:
            b = work.pop()
            if b in live: continue
            live.add(b)
            work += self.preds[b]
        self.returning = live
    def term(self, b): return self.blocks[b]["I"][-1]
    def all(self):
        for b in self.order:
            for i in self.blocks[b]["I"]: yield i
    def loop_of(self, b): return self.blocks[b].get("loop")
    def loops_of(self, b):
        """enclosing loop headers, innermost first"""
        r = []
        l = self.loop_of(b)
        while l is not None:
            r.append(l); l = self.loops[l].parent
        return r
    def dominates(self, a, b):
        while b is not None:
            if a == b: return True
            b = self.idom[b]
        return False
    def ins_dominates(self, a, b):
        if a.blk == b.blk: return a.idx < b.idx
        return self.dominates(a.blk, b.blk)
    def succs(self, b): return self.blocks[b]["succ"]
    def reachable_from(self, b, stop=()):
        seen = set(); w = [b]
        while w:
            x = w.pop()
            if x in seen or x in stop: continue
            seen.add(x); w += self.succs(x)
        return seen

class Mod:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.fns = {}
        self.decls = {}
        for f in d["functions"]:
            if f["decl"]: self.decls[f["name"]] = f
            else: self.fns[f["name"]] = Fn(f)
        self.globals = {g["name"]: g for g in d["globals"]}
        self.opaque = d["opaque"]

# ---------------------------------------------------------------------------------------------
# call canonicalisation
# ---------------------------------------------------------------------------------------------
_XM = re.compile(r"^_ZN5xsimd(\d+)")

def xsimd_name(mangled):
    m = _XM.match(mangled)
    if not m: return None
    n = int(m.group(1)); st = m.end()
    return mangled[st:st + n]

KNOWN = {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "pow", "sqrt", "cbrt", "erf", "erfc", "tgamma", "lgamma",
         "cabs", "carg", "cexp", "clog", "clog10", "csqrt", "csin", "ccos", "ctan", "casin", "cacos", "catan", "csinh", "ccosh", "ctanh", "casinh", "cacosh", "catanh", "cpow", "hypot", "atan2", "fmod", "modf", "floor", "ceil", "round", "trunc", "fabs",
         "nearbyint", "rint", "fmin", "fmax", "fma", "creal", "cimag", "conj", "ldexp", "frexp", "copysign", "nextafter", "remainder", "lround", "llround", "lrint", "roundeven"}
COMPLEXF = {n for n in KNOWN if n[0] == "c" and n not in ("cos", "cosh", "cbrt", "ceil", "copysign", "conj")}

# functions kept as calls whose result depends on their (scalar) arguments only
PURE_CALLS = [(re.compile(r"(^| )std::(__detail::_*)?cyl_bessel_i[fl]?[<(]"), "cyl_bessel_i"),
    (re.compile(r"(^| )std::gcd<"), "gcd"), (re.compile(r"(^| )std::lcm<"), "lcm")]
KNOWN |= {n for _, n in PURE_CALLS}

def fname(ins):
    c = ins.callee
    if c is None: return "?"
    for r, n in PURE_CALLS:
        if r.search(ins.dem): return n
    if c.startswith("llvm."):
        p = c.split(".")
        if p[1] == "x86": return "x86." + ".".join(p[3:])
        return {"minnum": "fmin", "maxnum": "fmax"}.get(p[1], p[1])
    x = xsimd_name(c)
    if x: return "xsimd::" + x
    if not c.startswith("_Z"):
        base = c
        if base.startswith("__") and base.endswith("_finite"): base = base[2:-7]
        if base in KNOWN: return base
        if base[:-1] in KNOWN and base[-1] in "fl": return base[:-1]
        return base
    return ins.dem

def veclen(ty):
    m = re.match(r"<(\d+) x (.+)>$", ty)
    return (int(m.group(1)), m.group(2)) if m else None

SIZES = {"float": 4, "double": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8, "i1": 1, "i128": 16}

class Undecided(Exception): pass

# ---------------------------------------------------------------------------------------------
# integer / boolean term algebra
# ---------------------------------------------------------------------------------------------
def isatom(r, head=None):
    k = r.single_atom()
    if k is None: return None
    if head is not None and not (isinstance(k, tuple) and k[0] == head): return None
    return k

def intcontent(r):
    """gcd of integer coefficients (denominator 1) or None"""
    if r.d is not DEN1: return None
    g = 0
    for v in r.n.values():
        if v.denominator != 1: return None
        g = math.gcd(g, int(v))
    return g or None

def idiv(a, b, kind="udiv"):
    if a.iszero(): return rf(0)
    if a.isconst() and b.isconst() and b.cval() != 0:
        q = a.cval() / b.cval()
        return rf(math.floor(q) if q >= 0 else -math.floor(-q))
    if b.isconst():
        c = b.cval()
        if c == 1: return a
        g = intcontent(a)
        if g and g % c == 0: return a / c
        if g and c % g == 0 and g > 1: return idiv(a / g, rf(c / g), kind)
        k = isatom(a, "idiv")
        if k and k[2].isconst(): return idiv(k[1], k[2] * b, kind)
        if a.d is DEN1 and kind == "udiv":
            div = {m: v for m, v in a.n.items() if v % c == 0}
            if div and len(div) < len(a.n):
                rest = {m: v for m, v in a.n.items() if v % c != 0}
                if all(v > 0 for v in rest.values()):
                    return RF(div) / c + idiv(RF(rest), b, kind)
    q = a / b
    if q.d is DEN1 and all(v.denominator == 1 for v in q.n.values()) and all(e > 0 for m in q.n for _, e in m): return q
    return atom(("idiv", a, b))

INTW = {"i64": 64, "i32": 32, "i16": 16, "i8": 8}
def imod(a, b, kind="urem"): return a - b * idiv(a, b)

def bitof(a, j):
    """bit j of the nonnegative integer a"""
    g = intcontent(a)
    if a.isconst(): return rf((int(a.cval()) >> j) & 1)
    t = 0
    if g:
        while g % 2 == 0: g //= 2; t += 1
    if t: 
        if j < t: return rf(0)
        a = a / (2 ** t); j -= t
    k = isatom(a, "idiv")
    if k and k[2].isconst():
        c = int(k[2].cval())
        if c & (c - 1) == 0: return bitof(k[1], j + c.bit_length() - 1)
    return atom(("bit", a, j))

def nonneg(r, nn):
    """syntactic nonnegativity: all coefficients >= 0 over atoms known nonnegative"""
    if r.d is not DEN1: return False
    return all(v >= 0 for v in r.n.values()) and all(nn(keyof(k)) for m in r.n for k, _ in m)

def minmax(kind, ops):
    flat = []
    for o in ops:
        k = isatom(o, kind)
        flat += list(k[1:]) if k else [o]
    uniq = []
    for o in flat:
        if o not in uniq: uniq.append(o)
    # constants / constant differences
    changed = True
    while changed and len(uniq) > 1:
        changed = False
        for x in range(len(uniq)):
            for y in range(x + 1, len(uniq)):
                d = uniq[x] - uniq[y]
                if d.isconst():
                    drop = (x if (d.cval() > 0) == (kind == "min") else y)
                    uniq.pop(drop); changed = True; break
            if changed: break
    if len(uniq) == 1: return uniq[0]
    return atom((kind,) + tuple(sorted(uniq, key=okey)))

def fminmax(kind, ops):
    flat = []
    for o in ops:
        k = o.single_atom()
        flat += list(k[2:]) if isinstance(k, tuple) and k[:2] == ("f", kind) else [o]
    uniq = []
    for o in flat:
        if o not in uniq: uniq.append(o)
    if len(uniq) == 1: return uniq[0]
    return atom(("f", kind) + tuple(sorted(uniq, key=okey)))

def b_not(c): return 1 - c
def b_and(a, b): return a * b
def b_or(a, b): return a + b - a * b

def only_indicators(r): return r.d is DEN1 and all(is_indicator(keyof(i)) for i in r.atom_ids())

def cmp_(op, pred, a, b):
    """truth value as RF over indicator atoms; integers mathematically, floats with IEEE predicates"""
    if op == "icmp":
        if pred == "eq" or pred == "ne":
            d = a - b
            if d.isconst(): t = rf(int(d.cval() == 0))
            else:
                ids = d.atom_ids()
                t = None
                if only_indicators(d) and len(ids) == 1:
                    (i,) = ids
                    at = atom(keyof(i))
                    v0 = p_cval(d.n); v1 = v0 + d.n.get(((i, 1),), 0)
                    t = (at if v1 == 0 else rf(0)) + ((1 - at) if v0 == 0 else rf(0))
                if t is None:
                    c = d.n[min(d.n, key=lambda m: (m == ONE, m))]
                    d = d / c
                    t = atom(("cmp", "eq", d))
            return t if pred == "eq" else 1 - t
        if pred[1:] in ("gt", "ge"): a, b, pred = b, a, {"sgt": "slt", "ugt": "ult", "sge": "sle", "uge": "ule"}[pred]
        if pred[1:] == "le": return 1 - cmp_("icmp", pred[0] + "lt", b, a)
        d = a - b
        if d.isconst() and not (pred == "ult" and (a.isconst() and a.cval() < 0 or b.isconst() and b.cval() < 0)): return rf(int(d.cval() < 0))
        g1, g2 = intcontent(a), intcontent(b)
        if a.iszero(): g1 = g2
        if b.iszero(): g2 = g1
        if g1 and g2:
            g = math.gcd(g1, g2)
            if g > 1: a, b = a / g, b / g
        if pred == "ult" and b.isconst() and b.cval() == 1: return cmp_("icmp", "eq", a, rf(0))
        if pred == "ult" and a.iszero(): return 1 - cmp_("icmp", "eq", b, rf(0))
        return atom(("cmp", pred, a, b))
    # floating point
    if pred == "true": return rf(1)
    if pred == "false": return rf(0)
    if pred in ("ogt", "oge"): a, b, pred = b, a, {"ogt": "olt", "oge": "ole"}[pred]
    if pred in ("uge", "ugt", "ult", "ule"):
        q = {"uge": ("olt", a, b), "ugt": ("ole", a, b), "ult": ("ole", b, a), "ule": ("olt", b, a)}[pred]
        return 1 - cmp_("fcmp", *q)
    if pred in ("une", "ord", "ueq"): return 1 - cmp_("fcmp", {"une": "oeq", "ord": "uno", "ueq": "one"}[pred], a, b)
    if a.isconst() and b.isconst():
        x, y = a.cval(), b.cval()
        return rf(int({"olt": x < y, "ole": x <= y, "oeq": x == y, "one": x != y, "uno": False}[pred]))
    if pred in ("oeq", "uno", "one"): a, b = sorted((a, b), key=okey)
    return atom(("cmp", "f" + pred, a, b))

def select(c, a, b):
    if c.isconst(): return a if c.cval() != 0 else b
    if a == b: return a
    for cc, x, y in ((c, a, b), (1 - c, b, a)):
        k = isatom(cc, "cmp")
        if k and len(k) == 4:
            l, r = k[2], k[3]
            if k[1] in ("slt", "ult"):
                if (x, y) == (l, r): return minmax("min", [x, y])
                if (x, y) == (r, l): return minmax("max", [x, y])
            if k[1] in ("folt", "fole"):
                if (x, y) == (l, r): return fminmax("fmin", [x, y])
                if (x, y) == (r, l): return fminmax("fmax", [x, y])
    return b + c * (a - b)

def uses_key(key, k):
    if key == k: return True
    if isinstance(key, tuple): return any(uses_key(x, k) for x in key)
    if isinstance(key, RF): return uses(key, k)
    return False

_uses_memo = {}
def uses(r, k):
    m = (r, k)
    v = _uses_memo.get(m)
    if v is None:
        v = any(uses_key(a, k) for a in r.atoms())
        _uses_memo[m] = v
    return v

def has_head(r, heads):
    def hk(k):
        if isinstance(k, RF): return has_head(k, heads)
        if isinstance(k, tuple):
            if k and k[0] in heads: return True
            return any(hk(x) for x in k)
        return False
    return any(hk(a) for a in r.atoms())

def rebuild(h, a):
    if h == "idiv": return idiv(*a)
    if h in ("min", "max"): return minmax(h, a)
    if h == "bit": return bitof(a[0], a[1])
    if h == "cmp":
        if a[0] == "eq": return cmp_("icmp", "eq", a[1], rf(0))
        if a[0] in ("slt", "ult"): return cmp_("icmp", a[0], a[1], a[2])
        return cmp_("fcmp", a[0][1:], a[1], a[2])
    if h == "f" and a[0] in ("fmin", "fmax"): return fminmax(a[0], a[1:])
    return None

def subst(r, m, memo=None):
    """substitute atoms (keys of m) by RFs, re-normalising bottom-up"""
    if not m: return r
    if memo is None: memo = {}
    ks = list(m)
    def sub_rf(r):
        if r in memo: return memo[r]
        if not any(uses(r, k) for k in ks):
            memo[r] = r
            return r
        def poly(p):
            s = {}
            tot = rf(0)
            for mono, c in p.items():
                t = None
                plain = []
                for i, e in mono:
                    q = sub_atom(i)
                    if q is None: plain.append((i, e))
                    else: t = (q ** e) if t is None else t * (q ** e)
                base = RF({tuple(plain): c})
                if t is None: s[tuple(plain)] = c
                else: tot = tot + base * t
            return tot + RF(s)
        n = poly(r.n)
        res = n if r.d is DEN1 else n / poly(r.d)
        memo[r] = res
        return res
    amemo = {}
    def sub_atom(i):
        if i in amemo: return amemo[i]
        key = keyof(i)
        if key in m: v = m[key]
        elif not any(uses_key(key, k) for k in ks): v = None
        else: v = sub_key(key)
        amemo[i] = v
        return v
    def sub_any(x):
        if isinstance(x, RF): return sub_rf(x)
        if isinstance(x, tuple):
            if x in m: return m[x]
            return tuple(sub_any(y) for y in x)
        return x
    def sub_key(key):
        if not isinstance(key, tuple): return atom(key)
        h = key[0]
        if h == "sum":  # ('sum', loop, D, upper): bound variable ('k', loop) in D
            _, lh, D, up = key
            bk = ("k", lh)
            if bk in m:
                m2 = {a: b for a, b in m.items() if a != bk}
                return mksum(lh, subst(D, m2), sub_rf(up))
            return mksum(lh, sub_rf(D), sub_rf(up))
        if h == "SUM":
            return atom(("SUM", subst(key[1], {a: b for a, b in m.items() if not (isinstance(a, tuple) and a[0] == "x")})))
        if h == "loopext":
            _, kind, lh, D, up = key
            m2 = {a: b for a, b in m.items() if a != ("k", lh)}
            return atom(("loopext", kind, lh, subst(D, m2), sub_rf(up)))
        a = [sub_any(x) for x in key[1:]]
        r = rebuild(h, a)
        return r if r is not None else atom((h,) + tuple(a))
    return sub_rf(r)

def mksum(lh, D, up):
    if D.iszero() or up.iszero(): return rf(0)
    k = ("k", lh)
    if not uses(D, k): return D * up
    if up.isconst() and up.cval().denominator == 1 and 0 < up.cval() <= 16:
        r = rf(0)
        for j in range(int(up.cval())): r = r + subst(D, {k: rf(j)})
        return r
    lin = poly_in(D, k)
    if lin is not None and len(lin) <= 3:
        c = lin + [rf(0)] * (3 - len(lin))
        return c[0] * up + c[1] * up * (up - 1) / 2 + c[2] * up * (up - 1) * (2 * up - 1) / 6
    return atom(("sum", lh, D, up))

def poly_in(r, k):
    """coefficients of r as polynomial in atom k, or None"""
    if any(uses_key(a, k) for a in r.atoms() if a != k): return None
    i = intern(k)
    for m in r.d:
        if any(x == i for x, _ in m): return None
    out = {}
    for m, c in r.n.items():
        e = dict(m).get(i, 0)
        if e < 0: return None
        rest = tuple(x for x in m if x[0] != i)
        out.setdefault(e, {})[rest] = c
    n = max(out) if out else 0
    return [RF(out.get(e, {}), r.d) for e in range(n + 1)]

def split_base(addr, bases):
    """addr as (base atom, offset) for a base in `bases` (iterable of atom keys)"""
    for k in bases:
        i = intern(k)
        if addr.d is DEN1 and addr.n.get(((i, 1),)) == 1:
            off = addr - atom(k)
            if i not in off.atom_ids(): return k, off
    return None, None

# ---------------------------------------------------------------------------------------------
class Terms:
    """Value-flow terms for one function (gated SSA, loops summarised in closed form over iteration
    symbols ('k', header)).  Machine integers are treated as mathematical integers."""
    def __init__(self, fn, args=None, assume=None, nonneg_atoms=(), mod=None):
        self.f = fn
        self.mod = mod
        self.memo = {}
        self.args = args or {}
        self.assume = assume or {}     # indicator key -> 0/1
        self.nnset = set(nonneg_atoms)
        self._active = set()
        self.loops = {}                # header -> dict(sol, N)
        self._solving = set()
        self.calls_defined = {}
        self._allocw = None
        self.cut = {}                  # header -> [phi keys] whose exit value is abstracted by a ('fin', key) atom
        self.fin = {}
    def nn(self, k):
        if k in self.nnset: return True
        if isinstance(k, tuple):
            if k[0] in ("k", "bit", "cmp", "ucond"): return True
            if k[0] == "idiv": return all(nonneg(x, self.nn) for x in k[1:])
            if k[0] == "max": return any(nonneg(x, self.nn) for x in k[1:])
            if k[0] == "min": return all(nonneg(x, self.nn) for x in k[1:])
        return False
    # -- operands ------------------------------------------------------------------------------
    def argval(self, n, lane=None):
        v = self.args.get(n if lane is None else (n, lane))
        if v is not None: return v
        return atom(("arg", n)) if lane is None else atom(("arg", n, lane))
    def opnd(self, o, lane=None):
        k = o["k"]
        if k == "int": return rf(abs(int(o["v"]))) if o.get("ty") == "i1" else rf(int(o["v"]))
        if k == "fp": return fpconst(o)
        if k == "null": return rf(0)
        if k == "arg": return self.argval(o["v"], lane)
        if k == "i": return self.val(self.f.ins[o["v"]], lane)
        if k in ("undef", "poison"): return atom(("undef",))
        if k == "zero": return rf(0)
        if k == "glob": return atom(("glob", o["v"]))
        if k == "fn": return atom(("fn", o["v"]))
        if k == "agg":
            if lane is None: return atom(("agg", json.dumps(o, sort_keys=True)))
            return self.opnd(o["el"][lane])
        if k == "cexpr":
            if o["op"] in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast"): return self.opnd(o["el"][0], lane)
            return atom(("cexpr", json.dumps(o, sort_keys=True)))
        return atom(("?", json.dumps(o, sort_keys=True)))
    # -- values --------------------------------------------------------------------------------
    def val(self, i, lane=None):
        key = (i.id, lane)
        r = self.memo.get(key)
        if r is not None: return r
        if key in self._active: return self._phiatom(i, lane)
        self._active.add(key)
        try: r = self._val(i, lane)
        finally: self._active.discard(key)
        if self.assume and only_any_assumed(r, self.assume): r = subst(r, self.assume)
        self.memo[key] = r
        return r
    def _phiatom(self, i, lane): return atom(("phi", i.id)) if lane is None else atom(("phi", i.id, lane))
    def _val(self, i, lane):
        op = i.op
        O = i.ops
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = self.opnd(O[0], lane), self.opnd(O[1], lane)
            if op == "fadd": return a + b
            if op == "fsub": return a - b
            if op == "fmul": return a * b
            return a / b
        if op == "fneg": return -self.opnd(O[0], lane)
        if op == "frem": return atom(("f", "fmod", self.opnd(O[0], lane), self.opnd(O[1], lane)))
        if op in ("add", "sub", "mul", "shl", "or"):
            a, b = self.opnd(O[0], lane), self.opnd(O[1], lane)
            if i.ty == "i1":
                if op == "or": return b_or(a, b)
                if op == "mul": return b_and(a, b)
                return a + b - 2 * a * b
            if op == "add": return a + b
            if op == "sub": return a - b
            if op == "mul": return a * b
            if op == "shl" and b.isconst(): return a * (2 ** int(b.cval()))
            if op == "or" and b.isconst():
                g = intcontent(a)
                if g and b.cval() < (g & -g): return a + b   # disjoint or
                if not g and a.iszero(): return b
            if op == "or" and i.d.get("scev", {}).get("t") == "add": return a + b
            return atom((op,) + tuple(sorted((a, b), key=okey))) if op == "or" else atom((op, a, b))
        if op in ("and", "xor"):
            a, b = self.opnd(O[0], lane), self.opnd(O[1], lane)
            if i.ty == "i1" or (veclen(i.ty) or (0, ""))[1] == "i1":
                return b_and(a, b) if op == "and" else a + b - 2 * a * b
            if op == "and" and b.isconst():
                c = int(b.cval())
                if c > 0 and (c & (c - 1)) == 0: return bitof(a, c.bit_length() - 1) * c
                if c > 0 and (c & (c + 1)) == 0: return imod(a, rf(c + 1))
                nb = {"i64": 64, "i32": 32, "i16": 16, "i8": 8}.get(i.ty, 64)
                low = c & -c
                if c < 0 and (-c & (-c - 1)) == 0: return a - imod(a, rf(-c))
                if c > 0 and low > 1 and ((c + low) & (c + low - 1)) == 0 and (c + low).bit_length() >= nb - 8: return a - imod(a, rf(low))
            if op == "xor" and b.isconst() and b.cval() == -1: return -a - 1
            if op == "xor" and a == b: return rf(0)
            return atom((op,) + tuple(sorted((a, b), key=okey)))
        if op in ("lshr", "ashr"):
            a, b = self.opnd(O[0], lane), self.opnd(O[1], lane)
            if b.isconst() and int(b.cval()) == INTW.get(i.ty, 0) - 1:   # the sign bit
                neg = cmp_("icmp", "slt", a, rf(0))
                return -neg if op == "ashr" else neg
            if b.isconst(): return a / (2 ** int(b.cval())) if i.d.get("exact") else idiv(a, rf(2 ** int(b.cval())))
            return atom((op, a, b))
        if op in ("udiv", "sdiv") and i.d.get("exact"): return self.opnd(O[0], lane) / self.opnd(O[1], lane)
        if op in ("udiv", "sdiv"): return idiv(self.opnd(O[0], lane), self.opnd(O[1], lane), op)
        if op in ("urem", "srem"): return imod(self.opnd(O[0], lane), self.opnd(O[1], lane), op)
        if op in ("zext", "trunc", "ptrtoint", "inttoptr", "freeze", "fpext", "fptrunc"):
            if op == "trunc" and i.ty == "i1": return bitof(self.opnd(O[0], lane), 0)
            return self.opnd(O[0], lane)
        if op == "sext":
            a = self.opnd(O[0], lane)
            t = self.opty(O[0])
            return -a if t == "i1" or (veclen(t) or (0, ""))[1] == "i1" else a
        if op in ("uitofp", "sitofp"): return self.opnd(O[0], lane)
        if op in ("fptoui", "fptosi"):
            a = self.opnd(O[0], lane)
            return a if a.isconst() and a.cval().denominator == 1 else atom(("toint", a))
        if op == "bitcast": return self._bitcast(i, lane)
        if op == "getelementptr":
            if "goff" in i.d:
                r = self.opnd(O[0]) + i.d["goff"]
                for o, s in i.d["gvar"]: r = r + self.opnd(o) * s
                return r
            return atom(("gep", i.id))
        if op == "alloca": return atom(("alloca", i.id))
        if op == "load": return self._load(i, lane)
        if op in ("icmp", "fcmp"): return cmp_(op, i.d["pred"], self.opnd(O[0], lane), self.opnd(O[1], lane))
        if op == "select":
            sc = veclen(self.opty(O[0])) is None
            return select(self.opnd(O[0], None if sc else lane), self.opnd(O[1], lane), self.opnd(O[2], lane))
        if op == "phi": return self._phi(i, lane)
        if op == "extractelement":
            idx = self.opnd(O[1])
            if idx.isconst(): return self.opnd(O[0], int(idx.cval()))
            return atom(("extract", i.id, lane))
        if op == "insertelement":
            idx = self.opnd(O[2])
            if idx.isconst() and lane is not None:
                return self.opnd(O[1]) if int(idx.cval()) == lane else self.opnd(O[0], lane)
            return atom(("insert", i.id, lane))
        if op == "shufflevector":
            m = i.d["mask"][lane]
            if m < 0: return atom(("undef",))
            n = veclen(self.opty(O[0]))[0]
            return self.opnd(O[0], m) if m < n else self.opnd(O[1], m - n)
        if op == "extractvalue":
            idx = tuple(i.d["idx"])
            o = O[0]
            while o["k"] == "i":
                src = self.f.ins[o["v"]]
                if src.op == "insertvalue":
                    if tuple(src.d["idx"]) == idx: return self.opnd(src.ops[1], lane)
                    o = src.ops[0]; continue
                if src.op == "call":
                    return self._call(src, idx[0] if lane is None else idx + (lane,))
                break
            return atom(("extractvalue", self.opnd(O[0]), idx, lane))
        if op == "insertvalue": return atom(("insertvalue", i.id))
        if op == "call": return self._call(i, lane)
        return atom((op, i.id, lane))
    def opty(self, o):
        if o["k"] == "i": return self.f.ins[o["v"]].ty
        if o["k"] == "arg": return self.f.args[o["v"]]["ty"]
        return o.get("ty", "ptr")
    def _bitcast(self, i, lane):
        src, dst = self.opty(i.ops[0]), i.ty
        vs, vd = veclen(src), veclen(dst)
        es, ed = (vs[1] if vs else src), (vd[1] if vd else dst)
        if SIZES.get(es) == SIZES.get(ed):
            a = self.opnd(i.ops[0], lane if vs else None)
            if (es in ("float", "double")) == (ed in ("float", "double")): return a
            k = isatom(a, "bits")
            if k: return k[1]
            return a if a.iszero() else atom(("bits", a))
        if vd and lane is not None and SIZES.get(es) and SIZES.get(ed) and not vs and SIZES[es] > SIZES[ed]:
            # scalar integer viewed as several lanes (e.g. complex<float> moved as i64/double)
            src_i = self.f.ins.get(i.ops[0].get("v")) if i.ops[0]["k"] == "i" else None
            if src_i is not None and src_i.op == "load":
                return atom(("load", self.opnd(src_i.ops[0]) + lane * SIZES[ed], SIZES[ed]))
        return atom(("bitcast", i.id, lane))
    # -- memory --------------------------------------------------------------------------------
    def alloc_writers(self):
        """alloca id -> list of (ins, kind, offset, size)"""
        if self._allocw is None:
            w = {}
            for i in self.f.all():
                if i.op == "store":
                    k, off = self._alloca_of(i.ops[1])
                    if k is not None: w.setdefault(k, []).append((i, "store", off, i.d["size"]))
                elif i.op == "call":
                    at = i.d.get("at", [])
                    for n, o in enumerate(i.ops):
                        k, off = self._alloca_of(o)
                        if k is None: continue
                        if fname(i).startswith("lifetime") or fname(i) in ("dbg.declare",): continue
                        a = at[n] if n < len(at) else {}
                        if a.get("sret"): w.setdefault(k, []).append((i, "sret", off, a["size"]))
                        elif fname(i) in ("memcpy", "memmove", "memset"):
                            if n == 0: w.setdefault(k, []).append((i, "mem", off, None))
                        elif not a.get("ro") and not (xsimd_name(i.callee or "")): w.setdefault(k, []).append((i, "call", off, None))
            self._allocw = w
        return self._allocw
    def _alloca_of(self, o):
        off = 0
        while o["k"] == "i":
            x = self.f.ins[o["v"]]
            if x.op == "alloca": return x.id, off
            if x.op == "getelementptr" and "goff" in x.d and off is not None:
                off = off + x.d["goff"] if not x.d["gvar"] else None
                o = x.ops[0]; continue
            if x.op == "getelementptr": off = None; o = x.ops[0]; continue
            break
        return None, None
    def reaching_writer(self, alloca, off, size, at):
        """the unique last writer covering [off, off+size) of an alloca before instruction `at`, or None"""
        cands = []
        for (i, kind, o, s) in self.alloc_writers().get(alloca, []):
            if o is None or s is None:
                if kind in ("mem", "call") or o is None:
                    if i is not at: cands.append((i, kind, o, s, True))
                continue
            if o < off + size and off < o + s: cands.append((i, kind, o, s, False))
        dom = [c for c in cands if self.f.ins_dominates(c[0], at)]
        if not dom: return None
        last = dom[0]
        for c in dom[1:]:
            if self.f.ins_dominates(last[0], c[0]): last = c
        if last[4]: return None
        if last[2] > off or last[2] + last[3] < off + size: return None
        for c in cands:
            if c in dom: continue
            # a non-dominating writer may intervene unless it cannot reach `at` after `last`
            if c[0].blk == at.blk and c[0].idx > at.idx and not self.f.loops_of(at.blk): continue
            if at.blk not in self.f.reachable_from(c[0].blk): continue
            return None
        return last
    def _load(self, i, lane):
        k, off = self._alloca_of(i.ops[0])
        v = veclen(i.ty)
        if k is not None and off is not None:
            es = SIZES.get(v[1]) if v else i.d["size"]
            o2 = off + (lane * es if lane is not None and v else 0)
            if es:
                w = self.reaching_writer(k, o2, es, i)
                if w is not None:
                    r = self._from_writer(w, o2, es, i)
                    if r is not None: return r
        a = self.opnd(i.ops[0])
        if lane is not None and v:
            es = SIZES[v[1]]
            return atom(("load", a + lane * es, es))
        if i.ty == "i1": return atom(("ucond", "load", a))
        return self.load_atom(a, i.d["size"], i)
    def load_atom(self, a, size, i): 
        # constant tables
        if self.mod is not None:
            for key in a.atoms():
                if isinstance(key, tuple) and key[0] == "glob":
                    off = a - atom(key)
                    g = self.mod.globals.get(key[1])
                    if off.isconst() and g and g.get("init"):
                        r = const_at(g["init"], int(off.cval()), size)
                        if r is not None: return r
        return atom(("load", a, size))
    def _from_writer(self, w, off, size, at):
        i, kind, o, s = w[:4]
        if kind == "store":
            vt = i.d["vty"]
            v = veclen(vt)
            if v:
                es = SIZES.get(v[1])
                if es and es == size and (off - o) % es == 0: return self.opnd(i.ops[0], (off - o) // es)
                return None
            if s == size and off == o: return self.opnd(i.ops[0])
            return None
        if kind == "sret":
            return self._call(i, ("mem", off - o, size))
        return None
    # -- calls ---------------------------------------------------------------------------------
    def _ptrlanes(self, i, o, lane):
        """values of lane `lane` of the vectors stored in the alloca passed by reference"""
        k, off = self._alloca_of(o)
        if k is None or off is None: return None
        ws = sorted({(x[2]) for x in self.alloc_writers().get(k, []) if x[1] in ("store", "sret") and x[2] is not None})
        out = []
        for wo in ws:
            w = None
            for x in self.alloc_writers()[k]:
                if x[2] == wo and self.f.ins_dominates(x[0], i) and (w is None or self.f.ins_dominates(w[0], x[0])): w = x
            if w is None: continue
            if w[1] == "store":
                v = veclen(w[0].d["vty"])
                if v: out.append(self.opnd(w[0].ops[0], lane))
                else: out.append(self.opnd(w[0].ops[0]))
            else:
                # produced by another vector call returning through memory: 16-byte parts
                n = w[3] // 16
                for p in range(n): out.append(self._call(w[0], ("mem", p * 16 + (lane or 0) * 4, None)))
        return out or None
    def _call(self, i, lane):
        n = fname(i)
        at = i.d.get("at", [])
        if n in ("expect", "launder", "ssa_copy"): return self.opnd(i.ops[0], lane)
        if n in ("fmuladd", "fma"): return self.opnd(i.ops[0], lane) * self.opnd(i.ops[1], lane) + self.opnd(i.ops[2], lane)
        if n in ("umin", "smin", "umax", "smax"): return minmax(n[1:], [self.opnd(o, lane) for o in i.ops])
        if n in ("usub.sat", "usub") and "usub.sat" in (i.callee or ""): return minmax("max", [rf(0), self.opnd(i.ops[0]) - self.opnd(i.ops[1])])
        if n == "abs" and i.d.get("intr"): 
            a = self.opnd(i.ops[0], lane)
            return minmax("max", [a, -a])
        m = re.match(r"x86\.(min|max)\.(p|s)[sd]$", n)
        if m: return fminmax("f" + m.group(1), [self.opnd(o, lane) for o in i.ops])
        if n in ("fmin", "fmax"): return fminmax(n, [self.opnd(o, lane) for o in i.ops])
        if n.startswith("xsimd::"):
            args = []
            part = None
            mem = None
            if isinstance(lane, tuple) and lane[0] == "mem":
                mem = lane
            ln = lane
            if mem is not None:
                part = mem[1] // 16
                ln = (mem[1] % 16) // (mem[2] or 4)
            base = n[7:]
            for q, o in enumerate(i.ops):
                a = at[q] if q < len(at) else {}
                if a.get("sret"): continue
                if self.opty(o) == "ptr":
                    pl = self._ptrlanes(i, o, ln)
                    if pl is None: return atom(("call", n, i.id, lane))
                    args += pl
                elif veclen(self.opty(o)): args.append(self.opnd(o, ln))
                else: args.append(self.opnd(o))
            nm = base
            if nm == "abs": nm = "cabs" if len(args) == 2 else "fabs"
            elif nm in ("min", "max"): return fminmax("f" + nm, args)
            elif nm == "arg": nm = "carg" if len(args) == 2 else "arg"
            elif len(args) >= 2 and nm in ("exp", "log", "log2", "log10", "sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh"): nm = "c" + nm
            elif nm == "pow" and len(args) == 4: nm = "cpow"
            if nm == "clog10": return atom(("f", "clog", *args, ("part", part))) * LOG10E
            return atom(("f", nm, *args) if part is None else ("f", nm, *args, ("part", part)))
        pure = n in KNOWN or (i.d.get("intr") and i.d.get("pure"))
        if pure:
            args = []
            for o in i.ops:
                v = veclen(self.opty(o))
                if v and n in COMPLEXF: args += [self.opnd(o, l) for l in range(v[0])]
                elif v: args.append(self.opnd(o, lane))
                else: args.append(self.opnd(o))
            if n in ("modf", "frexp"): args = args[:1]
            if n == "clog10":
                return atom(("f", "clog", *args, ("part", lane[-1] if isinstance(lane, tuple) else lane))) * LOG10E
            if n in COMPLEXF and lane is not None: return atom(("f", n, *args, ("part", lane[-1] if isinstance(lane, tuple) else lane)))
            return atom(("f", n, *args))
        return atom(("call", n, i.id) if lane is None else ("call", n, i.id, lane))
    # -- merges --------------------------------------------------------------------------------
    def _phi(self, i, lane):
        f = self.f
        if i.blk in f.loops: return self._phiatom(i, lane)
        inc = list(zip(i.ops, i.d["in"]))
        live = [(o, b) for o, b in inc if b in f.returning] or inc
        allv = {}
        for o, b in live:
            v = self.opnd(o, lane)
            allv[b] = self._leave(v, b, i.blk)
        vs = list(allv.values())
        if all(v == vs[0] for v in vs): return vs[0]
        return self.gate(i.blk, allv, i, lane)
    def _leave(self, v, src, dst):
        """value v available at the end of block src, used in dst outside src's loops"""
        f = self.f
        for h in f.loops_of(src):
            if dst in f.loops[h].blocks: break
            v = self.at_exit(v, h, src)
        return v
    def at_exit(self, v, h, exiting):
        L = self.solve(h)
        for q in self.cut.get(h, ()):
            if uses(v, q) and q in L["sol"] and L["N"] is not None and L["exiting"] == exiting:
                fk = ("fin", h, "%s" % (q,))
                self.fin[fk] = subst(L["sol"][q], {("k", h): L["N"]})
                v = subst(v, {q: atom(fk)})
        v = self.res(v, h)
        if not uses(v, ("k", h)): return v
        if L["N"] is not None and L["exiting"] == exiting: return subst(v, {("k", h): L["N"]})
        return subst(v, {("k", h): atom(("kx", h, exiting))})
    def res(self, v, h=None):
        """substitute solved loop phis by their closed forms"""
        for hh in ([h] if h is not None else list(self.f.loops)):
            S = self.solve(hh)["sol"]
            if S: v = subst(v, S)
        return v
    def full(self, v):
        for _ in range(3):
            w = v
            for h in self.f.loops:
                S = self.solve(h)["sol"]
                if S: w = subst(w, S)
            if w == v: return v
            v = w
        return v
    def gate(self, B, vals, phi, lane):
        f = self.f
        D = f.idom[B]
        memo = {}
        onpath = set()
        cond_i = self
        def edge(src, dst):
            if dst == B: return vals.get(src)
            if dst not in f.returning: return None
            return walk(dst)
        def walk(b):
            if b in memo: return memo[b]
            if b in onpath: raise Undecided("loop in gate")
            onpath.add(b)
            s = f.succs(b)
            if b in f.loops and B not in f.loops[b].blocks:
                L = f.loops[b]
                outs = {}
                for (x, y) in L.exits:
                    if y in f.returning: outs.setdefault(y, x)
                if len(outs) != 1: raise Undecided("multi-exit loop in gate")
                (y, x), = outs.items()
                r = vals.get(x) if y == B else walk(y)
            else:
                t = f.term(b)
                if not s: r = None
                elif len(s) == 1: r = edge(b, s[0])
                elif t.op == "br":
                    a = edge(b, s[0]); c = edge(b, s[1])
                    if a is None: r = c
                    elif c is None: r = a
                    elif a == c: r = a
                    else: r = select(self._leave(self.opnd(t.ops[0]), b, B), a, c)
                elif t.op == "switch":
                    x = self._leave(self.opnd(t.ops[0]), b, B)
                    r = edge(b, t.d["def"])
                    for cv, dst in t.d["cases"]:
                        w = edge(b, dst)
                        if w is None: continue
                        r = w if r is None or r == w else select(cmp_("icmp", "eq", x, rf(int(cv["v"]))), w, r)
                else: raise Undecided("terminator " + t.op)
            onpath.discard(b)
            memo[b] = r
            return r
        try:
            r = walk(D)
            if r is not None: return r
        except Undecided: pass
        return self._phiatom(phi, lane)
    # -- loops ---------------------------------------------------------------------------------
    def solve(self, h):
        if h in self.loops: return self.loops[h]
        if h in self._solving: return {"sol": {}, "N": None, "exiting": None}
        self._solving.add(h)
        try: r = self._solve(h)
        finally: self._solving.discard(h)
        self.loops[h] = r
        return r
    def _solve(self, h):
        f = self.f
        L = f.loops[h]
        phis = [i for i in f.blocks[h]["I"] if i.op == "phi"]
        k = ("k", h)
        ent, lat = {}, {}
        if L.latch is None or L.pre is None: return {"sol": {}, "N": None, "exiting": None}
        for p in phis:
            v = veclen(p.ty)
            for lane in (range(v[0]) if v else [None]):
                key = ("phi", p.id) if lane is None else ("phi", p.id, lane)
                for o, b in zip(p.ops, p.d["in"]):
                    if b == L.latch: lat[key] = self.opnd(o, lane)
                    elif b == L.pre: ent[key] = self._leave(self.opnd(o, lane), b, h)
        sol = {}
        unsolved = [q for q in lat if q in ent]
        progress = True
        while unsolved and progress:
            progress = False
            C = list(unsolved)
            while C:
                m = {q: ent[q] for q in C}
                m.update(sol)
                bad = [q for q in C if subst(lat[q], m) != ent[q]]
                if not bad: break
                C = [q for q in C if q not in bad]
            for q in C:
                sol[q] = ent[q]; progress = True
            unsolved = [q for q in unsolved if q not in sol]
            for q in list(unsolved):
                v = subst(lat[q], sol) if sol else lat[q]
                D = v - atom(q)
                if not any(uses(D, u) for u in unsolved):
                    # D is invariant here iff it has no loop-local atoms; loads inside the loop are kept symbolic in k
                    sol[q] = ent[q] + mksum(h, D, atom(k))
                    progress = True
                    unsolved.remove(q)
                    continue
                a = v.single_atom()
                if isinstance(a, tuple) and a[0] == "f" and a[1] in ("fmin", "fmax") and atom(q) in a[2:]:
                    rest = [x for x in a[2:] if x != atom(q)]
                    if not any(uses(x, u) for x in rest for u in unsolved):
                        sol[q] = fminmax(a[1], [ent[q]] + [atom(("loopext", a[1], h, x, atom(k))) for x in rest])
                        progress = True
                        unsolved.remove(q)
        N, exiting = None, None
        self.loops[h] = {"sol": sol, "N": None, "exiting": None}
        exits = [(x, y) for x, y in L.exits if y in f.returning]
        xs = {x for x, y in exits}
        if len(xs) == 1:
            x = xs.pop()
            t = f.term(x)
            if t.op == "br" and len(t.ops) >= 1 and len(f.succs(x)) == 2:
                c = self.opnd(t.ops[0])
                s = f.succs(x)
                cont = c if s[0] in L.blocks else 1 - c
                cont = subst(cont, sol)
                N = self.tripcount(cont, k)
                if N is not None: exiting = x
        return {"sol": sol, "N": N, "exiting": exiting}
    def tripcount(self, cont, k):
        """number of consecutive k=0,1,.. for which `cont` holds"""
        if cont.isconst(): return None
        neg = False
        a = cont.single_atom()
        if a is None:
            a = (1 - cont).single_atom(); neg = True
        if not (isinstance(a, tuple) and a[0] == "cmp"): return None
        if a[1] == "eq":
            if not neg: return None
            p = poly_in(a[2], k)
            if p is None or len(p) != 2: return None
            return (-p[0]) / p[1]
        if a[1] in ("slt", "ult"):
            lo, hi = a[2], a[3]
            # not neg: lo < hi continues ; neg: hi <= lo continues
            d = (lo - hi) if not neg else (hi - lo)
            p = poly_in(d, k)
            if p is None or len(p) != 2 or not p[1].isconst(): return None
            s = p[1].cval()
            if s <= 0: return None
            z = -p[0]
            if not neg: N = z / s if s == 1 else idiv(z + (s - 1), rf(s))
            else: N = (z if s == 1 else idiv(z, rf(s))) + 1
            if not nonneg(z if not neg else z + 1, self.nn): 
                N = minmax("max", [rf(0), N])
            return N
        return None
    def execs(self, ins):
        """(list of (header, count)) for the loops around ins: how often it runs per entry of each loop"""
        out = []
        for h in self.f.loops_of(ins.blk):
            L = self.solve(h)
            if L["N"] is None: out.append((h, None)); continue
            x = L["exiting"]
            if self.f.dominates(x, ins.blk) and x != ins.blk: out.append((h, self.full(L["N"])))
            else: out.append((h, self.full(L["N"] + 1)))
        return out

def only_any_assumed(r, assume): return any(uses(r, k) for k in assume)

def const_at(init, off, size):
    """constant of `size` bytes at byte offset `off` of a constant initialiser (arrays of scalars, nested)"""
    if init["k"] == "zero": return rf(0)
    if init["k"] in ("fp", "int"):
        s = SIZES.get(init["ty"])
        if off == 0 and s == size: return fpconst(init) if init["k"] == "fp" else rf(int(init["v"]))
        return None
    if init["k"] == "agg":
        pos = 0
        for e in init["el"]:
            s = csize(e)
            if s is None: return None
            if pos <= off < pos + s: return const_at(e, off - pos, size)
            pos += s
    return None

def csize(c):
    if c["k"] in ("fp", "int"): return SIZES.get(c["ty"])
    if c["k"] == "agg":
        t = 0
        for e in c["el"]:
            s = csize(e)
            if s is None: return None
            t += s
        return t
    if c["k"] == "zero":
        m = re.match(r"\[(\d+) x (\w+)\]$", c["ty"])
        if m and m.group(2) in SIZES: return int(m.group(1)) * SIZES[m.group(2)]
        return SIZES.get(c["ty"])
    return None
