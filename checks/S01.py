from vf import *
from spec import *
from S02 import families, PRE
VALS = (-0.4, -1e-3, 0.0, 0.1, 0.25, 0.25, 0.5, 0.5, 0.75, 0.9, 1.0, 1.0, 1.001, 1.7)
def run(c):
    jobs, meta = [], []
    for t, es in (("float", 4), ("double", 8)):
        src, cases = "", []
        for fam, st, fields, setter, where in families():
            for n in st:
                if n == "Grid": continue
                for pre in [""] + [x for x in st if x not in (n, "Grid")]:
                    k = len(st[n])
                    code = (".%s(%s)" % (pre, ", ".join(["T(0.5)"] * len(st[pre]))) if pre and pre != setter else ".%s(%s)" % (pre, ", ".join("T(%s)" % v for v in ("0.1", "0.2", "0.3", "0.4")[:len(st[pre])])) if pre else "")
                    nm = "%s_%s_%s" % (fam.replace(".", "_"), pre, n)
                    args = [["a[%d]" % i for i in range(k)]]
                    if k == 4: args = [["T(0)"] * w + ["a[0]", "a[1]"] + ["T(1)"] * (2 - w) for w in range(3)]  # two symbolic neighbours at a time
                    for w, ar in enumerate(args):
                      src += 'extern "C" void e_%s(T* o, const T* a) { const auto d = %s%s.%s(%s); *o = T(d.%s); }\n' % (nm + "_%d" % w, fam, code, n, ", ".join(ar), fields[0][0])
                      cases.append((nm + "_%d" % w, k if k != 4 else 2, n == setter, where))
        for fam, st, fields, setter, where in families():
            if setter is None: continue
            k = len(st[setter])
            for w in range(k):  # a frequency that is not a number
                nm = "nan_%s_%d" % (fam.replace(".", "_"), w)
                src += 'extern "C" void e_%s(T* o, const T* a) { const auto d = %s.%s(%s); *o = T(d.%s); }\n' % (nm, fam, setter, ", ".join("T(__builtin_nan(\"\"))" if i == w else "a[%d]" % i for i in range(k)), fields[0][0])
                cases.append((nm, k, None, where))
        jobs.append((c.ir, "valid_%s" % t, PRE % t + src)); meta.append((t, es, cases))
    mem = lambda p, k: VALS[p.h("v", k) % len(VALS)] if p.h("m") % 3 else sorted(VALS[2 + p.h("w", j) % 10] for j in range(5))[k] if p.h("m") % 2 else sorted(0.02 + 0.96 * p.h("u", j) / 2.0**64 for j in range(5))[k]
    units = []
    for m, (t, es, cases) in zip(c.parallel(jobs), meta):
        if isinstance(m, Exception): raise m
        for nm, k, checked, where in cases:
            def unit(m=m, t=t, es=es, nm=nm, k=k, checked=checked, where=where):
                fn = m.fns["e_" + nm]
                def pred(p):
                    v = [mem(p, i) for i in range(k)]
                    return all(0 <= x <= 1 for x in v) and all(x <= y for x, y in zip(v, v[1:]))
                if checked is None: check_never(c, "%s<%s>" % (nm, t), fn, m, es, where=where, mem=mem, what="rejected")
                elif checked: check_returns(c, "%s<%s>" % (nm, t), fn, m, pred, es, where=where, mem=mem)
                else: check_spec(c, "%s<%s>" % (nm, t), fn, m, [None], es, where=where)
            units.append(unit)
    c.each(units)

main("S01", run, "path condition under which each descriptor setter returns, compared with: every frequency in [0, 1] and none smaller than the one before")
