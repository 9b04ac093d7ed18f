"""Elliptic integrals and Jacobi functions (the oracle of J01 and J02), after NIST DLMF chapters 19 and 22."""
import math, cmath

def K(k):
    a, b = 1.0, math.sqrt((1 - k) * (1 + k))
    for _ in range(60):
        if abs(a - b) <= 1e-15 * a: break
        a, b = (a + b) / 2, math.sqrt(a * b)
    return math.pi / (a + b)

def am(u, k):
    """Jacobi's amplitude for real u and 0 <= k <= 1"""
    if k >= 1: return 2 * math.atan(math.exp(u)) - math.pi / 2
    a, b, c = 1.0, math.sqrt((1 - k) * (1 + k)), k
    f = []
    while abs(c) > 1e-16 and len(f) < 40:
        a, b, c = (a + b) / 2, math.sqrt(a * b), (a - b) / 2
        f.append(c / a)
    phi = 2.0 ** len(f) * a * u
    for x in reversed(f): phi = (phi + math.asin(max(-1.0, min(1.0, x * math.sin(phi))))) / 2
    return phi

def jacobi(u, k):
    """sn, cn, dn for real or complex u and real 0 <= k <= 1"""
    if not isinstance(u, complex):
        p = am(u, k); s, c = math.sin(p), math.cos(p)
        return s, c, math.sqrt(max(0.0, 1 - k * k * s * s))
    s, c, d = jacobi(u.real, k)
    s1, c1, d1 = jacobi(u.imag, math.sqrt((1 - k) * (1 + k)))
    q = c1 * c1 + k * k * s * s * s1 * s1
    return complex(s * d1, c * d * s1 * c1) / q, complex(c * c1, -s * d * s1 * d1) / q, complex(d * c1 * d1, -k * k * s * c * s1) / q

def RF(x, y, z):
    """Carlson's symmetric integral of the first kind, principal branch"""
    x, y, z = complex(x), complex(y), complex(z)
    for _ in range(60):
        A = (x + y + z) / 3
        if max(abs(A - x), abs(A - y), abs(A - z)) < 1e-3 * abs(A): break
        l = cmath.sqrt(x) * cmath.sqrt(y) + cmath.sqrt(x) * cmath.sqrt(z) + cmath.sqrt(y) * cmath.sqrt(z)
        x, y, z = (x + l) / 4, (y + l) / 4, (z + l) / 4
    X, Y, Z = (A - x) / A, (A - y) / A, (A - z) / A
    E2, E3 = X * Y + X * Z + Y * Z, X * Y * Z
    return (1 - E2 / 10 + E3 / 14 + E2 * E2 / 24 - 3 * E2 * E3 / 44 - 5 * E2 ** 3 / 208 + 3 * E3 * E3 / 104 + E2 * E2 * E3 / 16) / cmath.sqrt(A)

def arcsn(x, k):
    x = complex(x)
    return x * RF(1 - x * x, 1 - k * k * x * x, 1)

def degree_k1(n, k):
    """the modulus k1 for which K'(k1)/K(k1) = n K'(k)/K(k): the selectivity of an elliptic filter of order n"""
    q = math.exp(-math.pi * n * K(math.sqrt((1 - k) * (1 + k))) / K(k))
    t2 = sum(q ** (m * (m + 1)) for m in range(8)); t3 = 1 + 2 * sum(q ** (m * m) for m in range(1, 12))
    return 4 * math.sqrt(q) * (t2 / t3) ** 2
