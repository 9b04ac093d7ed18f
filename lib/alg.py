"""Exact rational-function normal forms over opaque atoms.

A value is RF(num, den); num/den are polynomials {monomial: Fraction}, monomial = tuple of
(atom id, exponent) sorted by id.  Atom keys are hashable tuples/strings (they may contain RFs) and
are interned.  Indicator atoms (truth values) are idempotent, so polynomials over them are canonical
forms of boolean functions.  Equality against a reference is decided by cross multiplication with a
relative tolerance on coefficients (float constants of the analysed code are rounded decimals)."""
from fractions import Fraction

ONE = ()
F1 = Fraction(1)
_ids = {}
_keys = []
_indic = []
INDICATORS = {"cmp", "bit", "ucond"}

def intern(k):
    i = _ids.get(k)
    if i is None:
        i = len(_keys)
        _ids[k] = i
        _keys.append(k)
        _indic.append(isinstance(k, tuple) and len(k) > 0 and k[0] in INDICATORS)
    return i

def keyof(i): return _keys[i]

def _mono_mul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) + e
        if _indic[k] and n > 1: n = 1
        if n == 0: del d[k]
        else: d[k] = n
    return tuple(sorted(d.items()))

def p_const(c):
    c = Fraction(c)
    return {ONE: c} if c != 0 else {}

def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0: r.pop(m, None)
        else: r[m] = v
    return r

MAXTERMS = 20000
class TooBig(Exception): pass

def p_mul(a, b):
    if len(a) * len(b) > 400000: raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0: r.pop(m, None)
            else: r[m] = v
    if len(r) > MAXTERMS: raise TooBig()
    return r

def p_scale(a, c): return {m: v * c for m, v in a.items()} if c != 0 else {}
def p_isconst(a): return all(m == ONE for m in a)
def p_cval(a): return a.get(ONE, Fraction(0))

TOL = Fraction(1, 10**6)
DEN1 = {ONE: F1}

def p_close(a, b, tol=TOL):
    ks = set(a) | set(b)
    if not ks: return True
    scale = max([abs(v) for v in a.values()] + [abs(v) for v in b.values()])
    for m in ks:
        x, y = a.get(m, 0), b.get(m, 0)
        if x == y: continue
        if abs(x - y) > tol * max(abs(x), abs(y)) and abs(x - y) > tol * scale * Fraction(1, 10**6): return False
    return True

class RF:
    __slots__ = ("n", "d", "_k", "_h", "_at")
    def __init__(self, n, d=None):
        self.n = n
        self.d = d if d is not None else DEN1
        self._k = None; self._h = None; self._at = None
        if self.d is not DEN1: self._norm()
    def _norm(self):
        if self.d == DEN1:
            self.d = DEN1
            return
        if not self.n:
            self.d = DEN1
            return
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if not any(_indic[k] for k, e in m):
                inv = tuple((k, -e) for k, e in m)
                self.n = {_mono_mul(mm, inv): v / c for mm, v in self.n.items()}
                self.d = DEN1
                return
        lead = self.d[min(self.d)]
        if lead != 1:
            self.d = p_scale(self.d, 1 / lead)
            self.n = p_scale(self.n, 1 / lead)
        if len(self.n) == len(self.d) and self.n.keys() == self.d.keys():
            m0 = next(iter(self.n))
            q = self.n[m0] / self.d[m0]
            if all(self.n[m] == q * self.d[m] for m in self.n):
                self.n, self.d = p_const(q), DEN1
    def __add__(a, b):
        b = rf(b)
        if a.d is b.d or a.d == b.d: return RF(p_add(a.n, b.n), a.d)
        return RF(p_add(p_mul(a.n, b.d), p_mul(b.n, a.d)), p_mul(a.d, b.d))
    __radd__ = __add__
    def __neg__(a): return RF(p_scale(a.n, Fraction(-1)), a.d)
    def __sub__(a, b): return a + (-rf(b))
    def __rsub__(a, b): return rf(b) - a
    def __mul__(a, b):
        b = rf(b)
        if a.d is DEN1 and b.d is DEN1: return RF(p_mul(a.n, b.n))
        return RF(p_mul(a.n, b.d if False else b.n), p_mul(a.d, b.d))
    __rmul__ = __mul__
    def __truediv__(a, b):
        b = rf(b)
        if not b.n: return atom(("div0", a))
        return RF(p_mul(a.n, b.d), p_mul(a.d, b.n))
    def __rtruediv__(a, b): return rf(b) / a
    def __pow__(a, k):
        r = rf(1)
        for _ in range(abs(k)): r = r * a
        return r if k >= 0 else rf(1) / r
    def key(self):
        if self._k is None: self._k = (frozenset(self.n.items()), frozenset(self.d.items()))
        return self._k
    def __hash__(self):
        if self._h is None: self._h = hash(self.key())
        return self._h
    def __eq__(a, b):
        if a is b: return True
        return isinstance(b, RF) and hash(a) == hash(b) and a.n == b.n and a.d == b.d
    def isconst(self): return self.d is DEN1 and p_isconst(self.n) or (p_isconst(self.n) and p_isconst(self.d))
    def cval(self): return p_cval(self.n) / p_cval(self.d)
    def iszero(self): return not self.n
    def close(a, b, tol=TOL):
        b = rf(b)
        if a == b: return True
        return p_close(p_mul(a.n, b.d), p_mul(b.n, a.d), tol)
    def atom_ids(self):
        if self._at is None:
            s = set()
            for p in (self.n, self.d):
                for m in p:
                    for k, _ in m: s.add(k)
            self._at = frozenset(s)
        return self._at
    def atoms(self): return [keyof(i) for i in sorted(self.atom_ids())]
    def single_atom(self):
        if len(self.n) == 1 and self.d is DEN1:
            (m, c), = self.n.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1: return keyof(m[0][0])
        return None
    def coeff_of(self, k):
        """coefficient polynomial of atom k (exponent 1) as RF, and the remainder; None if k occurs otherwise"""
        i = intern(k)
        co, rest = {}, {}
        for m, c in self.n.items():
            e = dict(m).get(i, 0)
            if e == 0: rest[m] = c
            elif e == 1: co[tuple(x for x in m if x[0] != i)] = c
            else: return None, None
        for m in self.d:
            if dict(m).get(i, 0): return None, None
        return RF(co, self.d), RF(rest, self.d)
    def __repr__(self): return show(self)

_rfc = {}
def rf(x):
    if isinstance(x, RF): return x
    r = _rfc.get(x)
    if r is None:
        r = RF(p_const(x))
        _rfc[x] = r
    return r

def atom(k): return RF({((intern(k), 1),): F1})

def is_indicator(k): return _indic[intern(k)]

def okey(r):
    """deterministic ordering key for commutative arguments"""
    return show(r)

def show_atom(k, depth=0):
    if isinstance(k, RF): return show(k, depth + 1)
    if isinstance(k, tuple):
        if depth > 8: return "…"
        if not k: return "()"
        if k[0] == "arg": return "#" + "_".join(map(str, k[1:]))
        if k[0] == "cmp": return "[%s %s %s]" % (show_atom(k[2], depth + 1), k[1], show_atom(k[3], depth + 1) if len(k) > 3 else "0")
        if k[0] == "load": return "M[%s;%s]" % (show_atom(k[1], depth + 1), k[2])
        if k[0] == "f": return "%s(%s)" % (k[1], ", ".join(show_atom(x, depth + 1) for x in k[2:]))
        return str(k[0]) + "(" + ", ".join(show_atom(x, depth + 1) for x in k[1:]) + ")"
    return str(k)

def show_p(p, depth=0):
    if not p: return "0"
    out = []
    for m, c in p.items():
        f = []
        for k, e in m: f.append(show_atom(keyof(k), depth) + ("" if e == 1 else "^%d" % e))
        f.sort()
        if c != 1 or m == ONE: f.insert(0, str(c) if c.denominator < 10**7 else "%.9g" % float(c))
        out.append("*".join(f))
    return " + ".join(sorted(out))

def show(r, depth=0):
    if depth > 10: return "…"
    if r.d is DEN1 or r.d == DEN1: return show_p(r.n, depth)
    return "(%s)/(%s)" % (show_p(r.n, depth), show_p(r.d, depth))
