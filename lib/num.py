"""Equality of normal forms that differ syntactically: identity testing of the two terms at pseudo-random points
(Schwartz-Zippel).  Terms are evaluated, not programs; functions without a known meaning are uninterpreted."""
import cmath, hashlib, math, random
from fractions import Fraction
from ir import *

class Opaque(Exception): pass
class BadPoint(Exception): pass

OPAQUE_HEADS = {"phi", "kx", "ucond", "undef", "gep", "insert", "extract", "insertvalue", "extractvalue", "bits", "bitcast", "?", "cexpr", "agg"}

def rnd(v):
    if isinstance(v, (int, Fraction)) and not isinstance(v, bool):
        f = Fraction(v)
        if f.denominator == 1: return "%d" % f
        v = float(f)
    if isinstance(v, complex):
        if abs(v.imag) <= 1e-12 * max(1.0, abs(v.real)): v = v.real
        else: return "%.7g|%.7g" % (v.real, v.imag)
    if isinstance(v, float):
        if v == int(v) and abs(v) < 1e15: return "%d" % int(v)
        return "%.7g" % v
    return str(v)

class Types(list):
    """argument types of a function, with the integer constants of its code (lengths around them are sampled too)"""
    hints = ()
    fhints = ()

def code_types(fn):
    t = Types(x["ty"] for x in fn.args)
    hs = set(); fs = set()
    for i in fn.all():
        for o in list(getattr(i, "ops", [])):
            if i.op == "fcmp" and isinstance(o, dict) and o.get("k") == "fp":
                try: v = abs(float(o["v"]))
                except (KeyError, TypeError, ValueError): continue
                if 8 <= v <= 1e12: fs.add(v)
            if not isinstance(o, dict) or o.get("k") != "int": continue
            try: v = int(o["v"])
            except (KeyError, TypeError, ValueError): continue
            if v < 0: v = -v
            if 20 < v <= 20000:
                for d in (1, 2, 4, 8, 16):
                    if v // d > 8: hs.add(v // d)
    t.hints = tuple(sorted(hs)); t.fhints = tuple(sorted(fs))
    return t

class Point:
    def __init__(self, seed, args=None, types=None, ranges=None, intloads=False):
        self.seed = seed
        self.r = random.Random(seed)
        self.types = types or []
        self.fixed = args or {}
        self.ranges = ranges or {}
        self.intloads = intloads
        self.memo = {}
        self.opaque = False
        self.krange = {}
        self.memhook = None
        self.wide = self.signed = False
        self.bind = {}
        self.force = {}
        self.depth = 0
    def h(self, *what):
        s = "%d|" % self.seed + "|".join(rnd(w) if not isinstance(w, str) else w for w in what)
        return int.from_bytes(hashlib.sha256(s.encode()).digest()[:8], "big")
    def hf(self, *what):
        return 0.2 + 1.6 * (self.h(*what) / 2.0**64)
    def unusual(self, n):
        """now and then a length near a constant of the code, a large one, or the same as another argument's"""
        r = self.h("unusual", str(n))
        m = r % 16
        r >>= 8
        hs = getattr(self.types, "hints", ())
        if m < 4 and hs: return max(0, hs[(r >> 4) % len(hs)] + [0, 1, -1, 2, -2, 3, 7, 16][r % 8])
        if m == 4: return 71 + r % 2000
        if m == 5 and r % 8 == 0: return 65536 + r % 200
        if m in (6, 7): return 0
        if m == 8: return 1 + r % 2
        return None
    def ev(self, r):
        n = self.poly(r.n)
        if r.d is DEN1: return n
        d = self.poly(r.d)
        if d == 0 or abs(d) < 1e-300: raise BadPoint("division by zero")
        if isinstance(n, int): n = Fraction(n)
        return self.guard(n / d)
    def guard(self, v):
        if isinstance(v, Fraction):
            return int(v) if v.denominator == 1 else v
        if isinstance(v, complex):
            if not (math.isfinite(v.real) and math.isfinite(v.imag)): raise BadPoint("overflow")
        elif isinstance(v, float) and not math.isfinite(v): raise BadPoint("overflow")
        return v
    def exact(self, p):
        """the polynomial over the values of its atoms, without rounding; None if one of them is complex"""
        tot = Fraction(0)
        for mono, c in p.items():
            t = Fraction(c)
            for i, e in mono:
                a = self.at(i)
                if isinstance(a, complex): return None
                t = t * Fraction(a) ** e
            tot += t
        return float(tot)
    def poly(self, p):
        tot = 0; mag = 0.0
        try:
            for mono, c in p.items():
                t = c
                for i, e in mono:
                    a = self.at(i)
                    if isinstance(a, int): a = Fraction(a)
                    if e < 0 and a == 0: raise BadPoint("division by zero")
                    if isinstance(t, Fraction) and not isinstance(a, Fraction): t = float(t)
                    if isinstance(a, Fraction) and not isinstance(t, Fraction): a = float(a)
                    t = t * a ** e
                if isinstance(t, Fraction) and not isinstance(tot, (Fraction, int)): t = float(t)
                if isinstance(tot, (Fraction, int)) and not isinstance(t, Fraction): tot = float(tot)
                tot = tot + t
                if isinstance(t, float): mag += abs(t)
            if isinstance(tot, float) and abs(tot) < 1e-6 * mag and math.isfinite(mag):  # most digits cancelled: terms that the normal form multiplied out
                x = self.exact(p)
                if x is not None: tot = x
        except OverflowError: raise BadPoint("overflow")
        return self.guard(tot)
    def at(self, i):
        if i in self.memo: return self.memo[i]
        k = keyof(i)
        if k in self.force: v = self.force[k]
        elif k in self.bind: v = self.bind[k]
        else: v = self.key(k)
        v = self.guard(v)
        self.memo[i] = v
        return v
    def inner(self, bind, r):
        """evaluate r with extra bindings"""
        p = Point(self.seed, self.fixed, self.types, self.ranges, self.intloads)
        p.force = self.force
        p.krange = self.krange
        p.memhook = self.memhook
        p.bind = dict(self.bind); p.bind.update(bind)
        p.depth = self.depth + 1
        v = p.ev(r)
        self.opaque |= p.opaque
        return v
    def raw_load(self, addr, size):
        if self.intloads: return self.h("load", rnd(addr)) % 61
        return self.hf("load", rnd(addr))
    def real(self, v):
        if isinstance(v, complex):
            return v.real
        return v
    def num(self, x):
        if isinstance(x, RF): return self.ev(x)
        return x
    def key(self, k):
        if k == "pi": return math.pi
        if not isinstance(k, tuple): return self.hf("key", str(k))
        h = k[0]
        if h == "arg":
            if k[1:] in self.fixed: return self.fixed[k[1:]]
            if k[1] in self.fixed and len(k) == 2: return self.fixed[k[1]]
            ty = self.types[k[1]] if k[1] < len(self.types) else ""
            if k[1] in self.ranges:
                lo, hi, *special = self.ranges[k[1]]
                if special and self.h("special", k[1]) % 2: return special[self.h("which", k[1]) % len(special)]
                if isinstance(lo, float): return lo + (hi - lo) * (self.h("arg", k[1]) / 2.0**64)
                if hi - lo >= 20:
                    v = self.unusual(k[1])
                    if v is not None and v >= lo: return v
                return lo + self.h("arg", k[1]) % (hi - lo + 1)
            if ty == "ptr": return (k[1] + 1) * 10**9
            if ty == "i64":
                v = self.unusual(k[1])
                if v is not None: return v
            if ty.startswith("i") and ty[1:].isdigit(): return self.h("arg", str(k[1:])) % (2 if ty == "i1" else 71)
            return self.hf("arg", str(k[1:]))
        if h == "load":
            a = self.num(k[1])
            if self.memhook is not None:
                v = self.memhook(self.real(a), k[2])
                if v is not None: return v
            if self.intloads: return self.h("load", rnd(self.real(a))) % 61
            fs = getattr(self.types, "fhints", ())
            if fs and self.seed % 3 == 0 and self.h("huge", rnd(self.real(a))) % 2:  # values around a large constant samples are compared with
                return fs[self.h("which", self.seed) % len(fs)] * (0.25 + 8 * self.h("load", rnd(self.real(a))) / 2.0**64)
            v = self.hf("load", rnd(self.real(a)))
            if self.wide and self.h("wide", rnd(self.real(a))) % 2: v *= 10.0 ** (3 * self.h("exponent", rnd(self.real(a))) / 2.0**64 - 1.5)
            if self.signed and self.h("sign", rnd(self.real(a))) % 2: v = -v
            return v
        if h == "k":
            N = self.krange.get(k)
            if N is not None:
                n = self.ev(N) if isinstance(N, RF) else N
                if n <= 0: raise BadPoint("empty loop")
                return self.h("k", str(k[1])) % int(n)
            return self.h("k", str(k[1])) % 23
        if h in ("x",): return self.hf("x", str(k))
        if h == "cmp": return self.cmp(k)
        if h == "bit": return (int(self.integer(k[1])) >> k[2]) & 1
        if h == "idiv":
            a, b = self.integer(k[1]), self.integer(k[2])
            if b == 0: raise BadPoint("division by zero")
            q = abs(a) // abs(b)
            return q if (a >= 0) == (b >= 0) else -q
        if h in ("and", "or", "xor", "shl", "lshr", "ashr"):
            a, b = self.integer(k[1]), self.integer(k[2])
            return {"and": a & b, "or": a | b, "xor": a ^ b, "shl": a << min(b, 64) if b >= 0 else 0, "lshr": a >> b if b >= 0 else 0, "ashr": a >> b if b >= 0 else 0}[h]
        if h in ("min", "max"):
            vs = [self.real(self.num(x)) for x in k[1:]]
            return min(vs) if h == "min" else max(vs)
        if h == "toint":
            v = self.real(self.num(k[1]))
            return int(v)
        if h == "f": return self.fun(k)
        if h == "sum":
            n = self.integer(k[3])
            if n < 0 or n > 2000: raise BadPoint("range")
            t = 0
            for j in range(n): t = t + self.fl(self.inner({("k", k[1]): j}, k[2]))
            return t
        if h == "loopext":
            n = self.integer(k[4])
            if n <= 0 or n > 2000: raise BadPoint("empty extremum")
            vs = [self.fl(self.inner({("k", k[2]): j}, k[3])) for j in range(n)]
            return min(vs) if k[1] == "fmin" else max(vs)
        if h == "SUM":
            t = 0
            for j in range(3):
                b = {("x", a, c): self.hf("SUMx", str(j), str(a), str(c)) for a in range(4) for c in range(2)}
                t = t + self.fl(self.inner(b, k[1]))
            return t
        if h in OPAQUE_HEADS or h == "call":
            self.opaque |= h in OPAQUE_HEADS
            if h == "ucond": return self.h("u", str(k)) & 1
            return self.hf("op", *[self.flat(x) for x in k])
        return self.hf("op", *[self.flat(x) for x in k])
    def fl(self, v):
        return float(v) if isinstance(v, Fraction) else v
    def flat(self, x):
        if isinstance(x, RF): return rnd(self.real(self.ev(x)))
        if isinstance(x, tuple): return "(" + ",".join(self.flat(y) for y in x) + ")"
        return str(x)
    def integer(self, x):
        v = self.real(self.num(x))
        if isinstance(v, Fraction): return math.floor(v)
        return int(math.floor(v)) if isinstance(v, float) else int(v)
    def cmp(self, k):
        if k[1] == "eq":
            v = self.num(k[2])
            return int(abs(v) < 1e-12) if not isinstance(v, (int, Fraction)) else int(v == 0)
        a, b = self.real(self.num(k[2])), self.real(self.num(k[3]))
        if k[1] == "slt": return int(a < b)
        if k[1] == "ult":
            if a < 0: a = a + 2**64
            if b < 0: b = b + 2**64
            return int(a < b)
        if k[1] == "folt": return int(a < b)
        if k[1] == "fole": return int(a <= b)
        if k[1] == "foeq": return int(a == b)
        if k[1] == "fone": return int(a != b)
        if k[1] == "funo": return 0
        return self.h("cmp", str(k[1]), rnd(a), rnd(b)) & 1
    def fun(self, k):
        n = k[1]
        part = None
        args = list(k[2:])
        if args and isinstance(args[-1], tuple) and args[-1] and args[-1][0] == "part": part = args.pop()[1]
        vs = [self.num(a) if isinstance(a, RF) else a for a in args]
        if any(not isinstance(v, (int, float, complex, Fraction)) for v in vs):
            return self.hf("f", n, *[self.flat(a) for a in args], str(part))
        fv = [self.fl(v) for v in vs]
        try: r = FUN[n](*fv) if n in FUN else PFUN[n](self, *fv) if n in PFUN else None
        except (ValueError, OverflowError, ZeroDivisionError, TypeError): raise BadPoint("domain of " + n)
        if r is None:
            return self.hf("f", n, *[rnd(v) for v in fv], str(part))
        if part is not None:
            r = complex(r)
            return r.real if part in (0, (0,)) else r.imag if part in (1, (1,)) else self.hf("f", n, *[rnd(v) for v in fv], str(part))
        if isinstance(r, complex) and abs(r.imag) < 1e-14: r = r.real
        return r

def _c(f):
    return lambda x, y=0.0: f(complex(x, y)) if not isinstance(x, complex) and not isinstance(y, complex) else f(x + 1j * y)
PFUN = {}  # functions of the point as well
FUN = {n: (lambda x, f=getattr(cmath, n): f(x)) for n in ("sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "log", "log10", "sqrt")}
FUN.update({"c" + n: _c(getattr(cmath, n)) for n in ("sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "log", "sqrt")})
def _re(x):
    return x.real if isinstance(x, complex) else x
FUN.update({
    "exp2": lambda x: 2.0 ** x, "log2": lambda x: cmath.log(x) / math.log(2), "log1p": lambda x: cmath.log(1 + x), "expm1": lambda x: cmath.exp(x) - 1,
    "pow": lambda x, y: complex(x) ** y, "cbrt": lambda x: math.copysign(abs(_re(x)) ** (1 / 3), _re(x)),
    "cabs": lambda x, y: abs(complex(x, y)), "hypot": lambda x, y: math.hypot(x, y), "carg": lambda x, y: math.atan2(y, x), "atan2": lambda y, x: math.atan2(y, x),
    "cpow": lambda a, b, c, d: complex(a, b) ** complex(c, d),
    "fabs": lambda x: abs(_re(x)), "floor": lambda x: math.floor(_re(x)), "ceil": lambda x: math.ceil(_re(x)), "trunc": lambda x: math.trunc(_re(x)),
    "round": lambda x: math.floor(abs(_re(x)) + 0.5) * (1 if _re(x) >= 0 else -1), "lround": lambda x: math.floor(abs(_re(x)) + 0.5) * (1 if _re(x) >= 0 else -1),
    "rint": lambda x: round(_re(x)), "nearbyint": lambda x: round(_re(x)), "roundeven": lambda x: round(_re(x)),
    "fmod": lambda x, y: math.fmod(_re(x), _re(y)), "remainder": lambda x, y: math.remainder(_re(x), _re(y)),
    "fmin": lambda *a: min(_re(x) for x in a), "fmax": lambda *a: max(_re(x) for x in a),
    "tgamma": lambda x: math.gamma(_re(x)), "lgamma": lambda x: math.lgamma(_re(x)), "erf": lambda x: math.erf(_re(x)), "erfc": lambda x: math.erfc(_re(x)),
    "gcd": lambda x, y: math.gcd(int(x), int(y)), "lcm": lambda x, y: math.lcm(int(x), int(y)),
    "copysign": lambda x, y: math.copysign(_re(x), _re(y)),
})

def points(asm=None, types=None, ranges=None, count=12, tries=3000, intloads=False, fixed=None, seed=1, nice=None, krange=None):
    """pseudo-random points that satisfy the assumed conditions"""
    asm = asm or {}
    conds = [(k, int(v.cval())) for k, v in asm.items() if isinstance(k, tuple) and k[0] in INDICATORS]
    eqs = [(k, v) for k, v in asm.items() if not (isinstance(k, tuple) and k[0] in INDICATORS)]
    mk = None
    if nice is None:
        mk = (tuple(conds), tuple(eqs), repr(ranges), repr(types), getattr(types, "hints", None), intloads, repr(fixed), tuple(krange.items()) if krange else None, seed)
        st = _SEEDS.setdefault(mk, [[], 0, list(range(len(conds)))])
    else: st = [[], 0, list(range(len(conds)))]
    def make(t):
        p = Point(seed * 100003 + t, types=types, ranges=ranges, intloads=intloads, args=fixed)
        if krange: p.krange = krange
        for k, v in eqs:
            x = p.force[k] = p.ev(v)
            if ranges and isinstance(k, tuple) and k[0] == "arg" and len(k) == 2 and k[1] in ranges and isinstance(ranges[k[1]][0], int) and x < ranges[k[1]][0]: raise BadPoint("range")
        return p
    def conditions(p):
        for k, want in conds:
            if k[0] == "ucond": p.force[k] = want
        order = st[2]
        for n, c in enumerate(order):
            k, want = conds[c]
            if k[0] == "ucond": continue
            try: ok = p.at(intern(k)) == want
            except BadPoint: ok = False
            if not ok:
                if n: order.insert(0, order.pop(n))
                return False
        return True
    got = 0
    for t in list(st[0]):
        try:
            p = make(t)
            if not conditions(p): continue
        except BadPoint: continue
        yield p
        got += 1
        if got >= count: return
    while st[1] < tries:
        t = st[1]; st[1] += 1
        try:
            p = make(t)
            if not conditions(p): continue
            if nice is not None and not nice(p): continue
        except BadPoint: continue
        st[0].append(t)
        yield p
        got += 1
        if got >= count: return

_SEEDS = {}

def close(x, y, tol=1e-7):
    x, y = complex(x) if not isinstance(x, int) else x, complex(y) if not isinstance(y, int) else y
    if x == y: return True
    return abs(x - y) <= tol * max(1e-6, abs(x), abs(y))

def verdict(a, b, asm=None, types=None, ranges=None, intloads=False, fixed=None, count=12, nice=None, krange=None):
    """'same' | 'differ' (with witness) | 'unknown'"""
    if a == b: return "same", None
    n = bad = failed = 0
    op = False
    wit = None
    for p in points(asm, types, ranges, count, intloads=intloads, fixed=fixed, nice=nice, krange=krange):
        try: x = p.ev(a); y = p.ev(b)
        except BadPoint as e:
            if str(e) not in ("empty loop", "range"): failed += 1
            continue
        n += 1
        if p.opaque: op = True
        if not close(x, y):
            bad += 1
            if wit is None: wit = (p, x, y)
            if bad >= 3: break
    if n == 0: return "unknown" if failed else "vacuous", None
    if not bad: return "same", None
    if op: return "unknown", wit
    return "differ", wit
