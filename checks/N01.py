from vf import *
from scal import *
from fractions import Fraction
import math

PRE = """#include <dspbb/Math/Rational.hpp>
#include <new>
using namespace dspbb;
"""
def run(c):
    jobs, meta = [], []
    for t, z in (("long", 8),):
        R = "Rational<%s>" % t
        # name, body, value of the result as a function of (x, y, k), excluded operands
        F = Fraction
        E = []
        for nm, op, f, bad in (("add", "+", lambda x, y: x + y, None), ("sub", "-", lambda x, y: x - y, None), ("mul", "*", lambda x, y: x * y, None), ("div", "/", lambda x, y: x / y, "zero")):
            E += [(nm, "res = R(p %s q);" % op, lambda x, y, k, f=f: f(x, y), bad and "y"), (nm + "_int", "res = R(p %s k);" % op, lambda x, y, k, f=f: f(x, F(k)), bad and "k"),
                  ("int_" + nm, "res = R(k %s q);" % op, lambda x, y, k, f=f: f(F(k), y), bad and "y"),
                  (nm + "_assign", "R t(p); t %s= q; res = t;" % op, lambda x, y, k, f=f: f(x, y), bad and "y"), (nm + "_assign_int", "R t(p); t %s= k; res = t;" % op, lambda x, y, k, f=f: f(x, F(k)), bad and "k"),
                  (nm + "_ref", "R t(p); res = (t %s= q);" % op, lambda x, y, k, f=f: f(x, y), bad and "y")]
        E += [("pre_inc", "R t(p); res = ++t;", lambda x, y, k: x + 1, None), ("pre_dec", "R t(p); res = --t;", lambda x, y, k: x - 1, None), ("inc", "R t(p); t++; res = t;", lambda x, y, k: x + 1, None),
              ("dec", "R t(p); t--; res = t;", lambda x, y, k: x - 1, None), ("post_inc", "R t(p); res = t++;", lambda x, y, k: x, None), ("post_dec", "R t(p); res = t--;", lambda x, y, k: x, None),
              ("make", "res = R(k, n);", lambda x, y, k, n=None: None, None), ("from_int", "res = R(k);", lambda x, y, k: F(k), None), ("copy", "res = R(p);", lambda x, y, k: x, None),
              ("frac", "res = R(frac(p));", lambda x, y, k: x - math.floor(x), None)]
        I = [("floor", "*o = floor(p);", lambda x, y, k: math.floor(x)), ("ceil", "*o = ceil(p);", lambda x, y, k: math.ceil(x)), ("num", "*o = p.Numerator();", lambda x, y, k: x.numerator), ("den", "*o = p.Denominator();", lambda x, y, k: x.denominator)]
        for nm, op, f in (("eq", "==", lambda x, y: x == y), ("ne", "!=", lambda x, y: x != y), ("lt", "<", lambda x, y: x < y), ("gt", ">", lambda x, y: x > y), ("le", "<=", lambda x, y: x <= y), ("ge", ">=", lambda x, y: x >= y)):
            I += [(nm, "*o = p %s q;" % op, lambda x, y, k, f=f: int(f(x, y))), (nm + "_int", "*o = p %s k;" % op, lambda x, y, k, f=f: int(f(x, F(k)))), ("int_" + nm, "*o = k %s q;" % op, lambda x, y, k, f=f: int(f(F(k), y)))]
        D = [("double", "*o = double(p);", lambda x, y, k: x)]
        src = PRE + "using R = %s;\n" % R
        for nm, body, *_ in E: src += 'extern "C" void e_%s(%s* o, %s an, %s ad, %s bn, %s bd, %s k, %s n) { const R p(an, ad), q(bn, bd); R res(1); %s o[0] = res.Numerator(); o[1] = res.Denominator(); }\n' % (nm, *[t] * 7, body)
        for nm, body, *_ in I: src += 'extern "C" void e_%s(%s* o, %s an, %s ad, %s bn, %s bd, %s k, %s n) { const R p(an, ad), q(bn, bd); %s }\n' % (nm, *[t] * 7, body)
        for nm, body, *_ in D: src += 'extern "C" void e_%s(double* o, %s an, %s ad, %s bn, %s bd, %s k, %s n) { const R p(an, ad), q(bn, bd); %s }\n' % (nm, *[t] * 6, body)
        jobs.append((c.ir, "rat_" + t, src, ["std::gcd<", "std::lcm<"])); meta.append((t, z, E, I, D))
    units = []
    for m, (t, z, E, I, D) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        def add(nm, judge, bad, m=m, t=t, z=z):
            def setup(r):
                def q(): return Fraction(r.randint(-24, 24), r.choice((1, 1, 2, 3, 4, 5, 6, 7, 9, 12)))
                x, y, k, n = q(), q(), r.randint(-12, 12), r.randint(1, 12)
                if r.random() < 0.15: y = x
                if r.random() < 0.15: x = Fraction(k)
                if r.random() < 0.15: y = Fraction(k)
                u, w = r.choice((1, 1, 2, 3)), r.choice((1, 1, 2, 5))
                if (bad == "y" and y == 0) or (bad == "k" and k == 0): return None
                return {"force": {argk(1): x.numerator * u, argk(2): x.denominator * u, argk(3): y.numerator * w, argk(4): y.denominator * w, argk(5): k, argk(6): n}, "x": x, "y": y, "k": k, "n": n}
            def unit(): check_scalar(c, "%s<%s>" % (nm, t), m.fns["e_" + nm], m, setup, judge)
            units.append(unit)
        for nm, body, f, bad in E:
            def judge(v, e, nm=nm, f=f, z=z):
                if 0 not in v or z not in v: return "no result is produced"
                n, d = v[0][0], v[z][0]
                w = Fraction(e["k"], e["n"]) if nm == "make" else f(e["x"], e["y"], e["k"])
                ops = "x = %s, y = %s, k = %s, n = %s" % (e["x"], e["y"], e["k"], e["n"])
                if d == 0 or Fraction(int(n), int(d)) != w: return "result is %s/%s, expected %s for %s" % (n, d, w, ops)
                if d != w.denominator: return "result %s/%s is not in lowest terms with a positive denominator for %s" % (n, d, ops)
            add(nm, judge, bad)
        for nm, body, f in I + D:
            def judge(v, e, nm=nm, f=f):
                if 0 not in v: return "no result is produced"
                w = f(e["x"], e["y"], e["k"])
                if abs(v[0][0] - w) > 1e-9: return "result is %s, expected %s for x = %s, y = %s, k = %s" % (v[0][0], w, e["x"], e["y"], e["k"])
            add(nm, judge, None)
    c.each(units)

main("N01", run, "Every arithmetic, comparison and rounding operation of Rational is reduced to terms in the operands' numerators and denominators and compared with exact rational arithmetic; results have to be in lowest terms with a positive denominator.")
