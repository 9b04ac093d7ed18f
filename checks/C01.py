from vf import *
from callc import *

F01 = open(os.path.join(VERIF, "checks", "F01.py")).read()
STUB = F01[F01.index('STUB = """') + 10:F01.index('"""\nPRE')]      # PocketFFT stays uninterpreted
PRE = STUB + """#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Math/OverlapAdd.hpp>
using namespace dspbb;
template<class T> using V = SignalView<T>;
extern "C" void sink_(const void* p, size_t n);
template <class T, eSignalDomain D> void sink(const BasicSignal<T, D>& s) { sink_(s.data(), s.size()); }
"""
KERNEL = r"dspbb::kernels::Convolution(Slide|ReduceVec|Naive|Reduce)<"
OLA = r"void dspbb::OverlapAdd<.*\(.*, unsigned long, unsigned long, bool\)"

# entry(o, a, b, na, nb, n, off, chunk, flag)
na, nb, n, off, chunk, flag = (arg(i) for i in range(3, 9))
full = na + nb - 1
mx = lambda p: max(p.at(intern(("arg", 3))), p.at(intern(("arg", 4))))
mn = lambda p: min(p.at(intern(("arg", 3))), p.at(intern(("arg", 4))))

def minmax():
    lt = cmp_("icmp", "slt", na, nb)
    return lt * na + (1 - lt) * nb, lt * nb + (1 - lt) * na
def run(c):
    lo, hi = minmax()
    central = hi - lo + 1
    R = {3: (1, 80), 4: (1, 80), 5: (1, 90), 6: (0, 90), 7: (0, 400), 8: (0, 1)}
    jobs, meta = [], []
    for ta, tb, to in (("d", "d", "d"), ("f", "f", "f"), ("cf", "f", "cf"), ("d", "cd", "cd")):
        A, B, O = TY[ta][0], TY[tb][0], TY[to][0]
        sa, sb, so = (TY[t][1] * TY[t][2] for t in (ta, tb, to))
        src = PRE; ents = []
        U = "V<const %s>(a, na), V<const %s>(b, nb)" % (A, B)
        sig = "(%s* o, const %s* a, const %s* b, size_t na, size_t nb, size_t n, size_t off, size_t chunk, bool flag)" % (O, A, B)
        def add(nm, body):
            nonlocal src
            src += 'extern "C" void e_%s%s { %s }\n' % (nm, sig, body)
        o = "V<%s>(o, %s)"
        # into a given output: (form, output length, offset)
        forms = [("off", "n", "off", n, off), ("full", "na + nb - 1", "CONV_FULL", full, rf(0)), ("central", "(na < nb ? nb - na : na - nb) + 1", "CONV_CENTRAL", central, lo - 1)]
        for nm, ln, mode, L, O0 in forms:
            for fl, ftext, fv in (("clear", "", rf(1)), ("flag", ", flag", flag)):
                add("conv_into_%s_%s" % (nm, fl), "Convolution(%s, %s, %s%s);" % (o % (O, ln), U, mode, ftext)); ents.append(("k", "conv_into_%s_%s" % (nm, fl), L, O0, fv, None))
                add("ola_into_%s_%s" % (nm, fl), "OverlapAdd(%s, %s, %s, chunk%s);" % (o % (O, ln), U, mode, ftext)); ents.append(("o", "ola_into_%s_%s" % (nm, fl), L, O0, fv, chunk))
            add("ola_into_%s_chunk" % nm, "OverlapAdd(%s, %s, %s);" % (o % (O, ln), U, mode)); ents.append(("o", "ola_into_%s_chunk" % nm, L, O0, rf(1), rf(0)))
            m2 = "off, n" if nm == "off" else mode
            add("conv_ret_%s" % nm, "sink(Convolution(%s, %s));" % (U, m2)); ents.append(("kr", "conv_ret_%s" % nm, L, O0, None, None))
            add("ola_ret_%s" % nm, "sink(OverlapAdd(%s, %s, chunk));" % (U, m2)); ents.append(("or", "ola_ret_%s" % nm, L, O0, None, chunk))
        jobs.append((c.ir, "conv_%s_%s" % (ta, tb), src, ["^sink_", KERNEL, OLA])); meta.append((ta, tb, to, sa, sb, so, ents))
    w = ["first operand", "end of the first operand", "second operand", "end of the second operand", "output", "end of the output", "offset", "accumulate flag"]
    wo = ["output", "first operand", "second operand", "offset", "chunk size", "clear flag"]
    def legal(p):
        v = lambda i: p.at(intern(("arg", i)))
        return v(6) + v(5) <= v(3) + v(4) - 1
    def one(m, ta, tb, to, sa, sb, so, kind, e, L, O0, clear, ch):
        fn = m.fns["e_" + e]
        lg = legal if "_off" in e else None
        key = "%s<%s,%s>" % (e, ta, tb)
        a, b = arg(1), arg(2)
        if kind[0] == "k":
            def alts(T):
                ob = arg(0) if kind == "k" else result_base(T, "sink")[0]
                if ob is None: raise NotDecided("result never produced")
                acc = (1 - clear) if kind == "k" else None
                u, v = [a, a + na * sa], [b, b + nb * sb]
                return [u + v + [ob, ob + L * so, O0, acc], v + u + [ob, ob + L * so, O0, acc]]
            r = check_call(c, key, fn, m, KERNEL, alts, R, lg, what=w)
            if r and kind == "kr": fresh(c, key, fn, m, r, to, L, R, 7, 0, legal=lg)
        else:
            views(c, key, fn, m, kind, a, b, L, O0, clear, ch, R, lg, to, (sa, sb, so))
    units = []
    for m, (ta, tb, to, sa, sb, so, ents) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        for kind, e, L, O0, clear, ch in ents:
            units.append(lambda z=(m, ta, tb, to, sa, sb, so, kind, e, L, O0, clear, ch): one(*z))
    c.each(units)
    lengths(c)

def views(c, key, fn, m, kind, a, b, L, O0, clear, ch, R, lg, to, sizes):
    # operands and output are passed as objects holding begin and end pointers
    sa, sb, so = sizes
    wa = ["output", "first operand", "second operand", "offset", "chunk size", "clear flag", "begin of the output", "end of the output"] + ["operand"] * 4
    def alts(T):
        i = calls_of(T, OLA)[0][0]
        ob = arg(0) if kind == "o" else object_field(T, i, 0, 0)
        if kind == "or":
            # the object filled is the one returned
            o = T._alloca_of(i.ops[0])
            sk = [j for j in T.f.all() if j.op == "call" and (j.callee or "").startswith("sink_")]
            ld = T.f.ins[sk[0].ops[0]["v"]] if sk and sk[0].ops[0]["k"] == "i" else None
            if ld is None or ld.op != "load" or T._alloca_of(ld.ops[0]) != o: ob = None
        if ob is None: raise NotDecided("result never produced")
        nops = len(calls_of(T, OLA)[0][0].ops)
        pad = [None] * (nops - 6)
        return [[None, None, None, O0, ch, clear] + pad + [ob, ob + L * so] + o for o in ([a, a + na * sa, b, b + nb * sb], [b, b + nb * sb, a, a + na * sa])]
    r = check_call(c, key, fn, m, OLA, alts, R, lg, what=wa, fields=[(0, 0), (0, 8), (1, 0), (1, 8), (2, 0), (2, 8)])
    if r and kind == "or": fresh(c, key, fn, m, r, to, L, R, 5, 1, base=lambda T: object_field(T, calls_of(T, OLA)[0][0], 0, 0))

def fresh(c, key, fn, m, r, to, L, R, accpos, accfalse, legal=None, base=None):
    """a returned result that the kernel accumulates into starts out as zeros, and has the stated length"""
    T, cs = r
    before = lambda T, s: all(fn.ins_dominates(s.ins, i) or not fn.ins_dominates(i, s.ins) for i, _, _ in cs)
    accs = [a[accpos] for _, _, a in cs]
    if all(x is not None and x == rf(accfalse) for x in accs): return
    nc = TY[to][2]
    asm = None
    check_map(c, key + " initial contents", fn, m, "sink", to, L, lambda e: [rf(0)] * nc, ranges=R, filt=before, base=base)

def lengths(c):
    src = '''#include <dspbb/Math/Convolution.hpp>
using namespace dspbb;
extern "C" void e_full(size_t* o, size_t, size_t, size_t na, size_t nb) { *o = ConvolutionLength(na, nb, CONV_FULL); }
extern "C" void e_central(size_t* o, size_t, size_t, size_t na, size_t nb) { *o = ConvolutionLength(na, nb, CONV_CENTRAL); }
'''
    m = c.ir("len", src)
    lo, hi = minmax()
    z = (1 - cmp_("icmp", "eq", na, rf(0))) * (1 - cmp_("icmp", "eq", nb, rf(0)))
    check_values(c, "ConvolutionLength full", m.fns["e_full"], m, {0: z * full}, ranges={3: (0, 40), 4: (0, 40)})
    check_values(c, "ConvolutionLength central", m.fns["e_central"], m, {0: z * (hi - lo + 1)}, ranges={3: (0, 40), 4: (0, 40)})

main("C01", run, "Every convolution and overlap-add entry form is reduced to the single kernel call it makes (kernels left uninterpreted); operand, output, offset and accumulation arguments are compared with the specification on all paths.")
