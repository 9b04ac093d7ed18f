from vf import *
from mapc import *
import math, num

PRE = """#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <dspbb/Generators/Spaces.hpp>
#include <dspbb/Generators/Waveforms.hpp>
using namespace dspbb;
template<class T> using V = SignalView<T>;
extern "C" void sink_(const void* p, size_t n);
template <class T, eSignalDomain D> void sink(const BasicSignal<T, D>& s) { sink_(s.data(), s.size()); }
"""
def F(n, *a): return atom(("f", n, *a))
def _re(x): return float(x.real if isinstance(x, complex) else x)
def frac(x): return x - math.floor(x)
def saw(ph, tilt):
    u = frac(_re(ph)); tilt = _re(tilt)
    d = (1 - tilt) if u > tilt else tilt + 5e-324
    if abs(u - tilt) < 1e-6 or min(u, 1 - u) < 1e-6: raise num.BadPoint("at a corner")
    return 2 * (1 - abs(u - tilt) / d) - 1
def pwm(ph, fill):
    u = frac(_re(ph)); fill = _re(fill)
    if abs(u - fill) < 1e-6 or min(u, 1 - u) < 1e-6: raise num.BadPoint("at a corner")
    return float(u < fill or fill >= 1.0)
num.FUN["saw_"] = saw; num.FUN["pwm_"] = pwm

# entry(o, n, sr, f0, f1, phase, tilt): arg1 .. arg6
n, sr, f0, f1, ph, tilt = (arg(i) for i in range(1, 7))
def tone(i): return 2 * PI * (i / sr) * f0 + ph
def chirp(i):
    t = i / sr
    return 2 * PI * (t * f0 + t * t / 2 * (f1 - f0) / (n / sr)) + ph
def waves():
    for nm, fr, p in (("Wave", "f0", tone), ("Chirp", "f0, f1", chirp)):
        yield "Sine" + nm, fr + ", ph", lambda i, p=p: F("sin", p(i))
        yield "Sawtooth" + nm, fr + ", ph, tilt", lambda i, p=p: F("saw_", p(i) / (2 * PI), tilt)
        yield "Pwm" + nm, fr + ", ph, tilt", lambda i, p=p: F("pwm_", p(i) / (2 * PI), tilt)
        yield "Square" + nm, fr + ", ph", lambda i, p=p: 2 * F("pwm_", p(i) / (2 * PI), rf(Fraction(1, 2))) - 1
def run(c):
    jobs, meta = [], []
    for t in ("f", "d", "cf", "cd"):
        A, es, nc = TY[t]
        R = "float" if es == 4 else "double"
        src = PRE; ents = []
        for w, a, f in waves():
            for form in ("view", "ret"):
                e = "e_%s_%s" % (w, form)
                b = "%s(V<%s>(o, n), sr, %s);" % (w, A, a) if form == "view" else "sink(%s<%s, TIME_DOMAIN>(n, sr, %s));" % (w, A, a)
                src += 'extern "C" void %s(%s* o, size_t n, uint64_t sr, double f0, double f1, double ph, double tilt) { %s }\n' % (e, A, b)
                rg = {1: (1, 40), 2: (3, 50), 3: (0.1, 4.0, 0.0, 0.003, 40.0, -1.7), 4: (0.1, 9.0, 0.0, 0.002, 60.0, -2.3), 5: (-9.0, 9.0, 0.0, 500.3, 1e-4), 6: (0.05, 0.95, 1.0, 0.004, 0.5, 0.9999, 0.0005)}
                ents.append((e, f, ("arg", 0) if form == "view" else "sink", rg))
        # spaces: entry(o, n, start, end, base)
        lin = lambda k: arg(2) + (arg(3) - arg(2)) * k
        one = rf(1)
        for w in ("Lin", "Log"):
            for incl in (1, 0, None):
                for form in ("view", "ret"):
                    e = "e_%sSpace_%s_%s" % (w, "default" if incl is None else "incl" if incl else "excl", form)
                    last = "" if incl is None else ", true" if incl else ", false"
                    a = "s, e" + (", b" if w == "Log" else "") + last
                    if form == "view": b = "%sSpace(V<%s>(o, n), %s);" % (w, A, a)
                    else:
                        a = "s, e, n" + (", b" if w == "Log" else "") + last
                        b = "sink(%sSpace<%s, TIME_DOMAIN>(%s));" % (w, A, a)
                    src += 'extern "C" void %s(%s* o, size_t n, %s s, %s e, %s b) { %s }\n' % (e, A, R, R, R, b)
                    def f(i, incl=incl, w=w):
                        d = n - 1 if incl in (1, None) else n
                        x = arg(2) + (arg(3) - arg(2)) * i / d
                        return x if w == "Lin" else F("pow", arg(4), x)
                    ents.append((e, f, ("arg", 0) if form == "view" else "sink", {1: (2, 40), 2: (-3.0, 3.0, 0.0, 1e-3, 70.0), 3: (-3.0, 3.0, 0.0, 1e-3, 50.0), 4: (0.4, 5.0, 0.01, 10.0, 2.0, 1.0)}))
        jobs.append((c.ir, "gen_" + t, src, ["^sink_"])); meta.append((t, nc, ents))
    for m, (t, nc, ents) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        for e, f, out, rg in ents:
            exp = (lambda i, f=f: [f(i)]) if nc == 1 else (lambda i, f=f: [f(i), rf(0)])
            check_map(c, "%s<%s>" % (e, t), m.fns[e], m, out, t, arg(1), exp, ranges=rg)

main("G01", run, "The loops of every generator are composed into one value per sample index and compared with the waveform's formula (normal form, else agreement of the two formulas as functions of index, length, rate, frequencies, phase and tilt).")
