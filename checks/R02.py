from vf import *
from val import *

PRE = """#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <dspbb/Math/Statistics.hpp>
using namespace dspbb;
template<class T> using CV = BasicSignalView<const T, TIME_DOMAIN>;
"""
def F(n, *a): return atom(("f", n) + tuple(rf(x) for x in a))

def run(c):
    types = ["f"] + (["d"] if True else [])
    n = arg(3)
    x, y = X(0), X(1)
    mean, meany = SUM(x) / n, SUM(y) / n
    m = lambda k, mu=mean, v=x: SUM((v - mu) ** k) / n
    u, w, kk = arg(4), arg(5), arg(6)
    var, vary = m(2), SUM((y - meany) ** 2) / n
    cov = SUM((x - mean) * (y - meany)) / n
    par = bitof(kk, 0)
    dg = x - u
    ad = F("fabs", dg)
    S1 = n * n / ((n - 1) * (n - 2)) * m(3)
    cvar = n / (n - 1) * var
    Kx = (n - 1) / (n ** 3) * ((n * n - 3 * n + 3) * m(4) + (6 * n - 9) * var * var)
    s2x = (n - 1) / n * var
    K1 = n * n / ((n - 1) ** 3 * (n * n - 3 * n + 3)) * ((n * (n - 1) ** 2 + (6 * n - 9)) * Kx - n * (6 * n - 9) * s2x * s2x)
    def moment(asm):
        # the order k is an argument of the entry: one formula per value
        return SUM(par * dg * F("pow", ad, kk - 1) + (1 - par) * ad * F("pow", ad, kk - 1)) / n
    E = [
        ("Mean", "Mean(A)", mean, 1, {}), ("MeanSquare", "MeanSquare(A)", SUM(x * x) / n, 1, {}),
        ("RootMeanSquare", "RootMeanSquare(A)", F("sqrt", SUM(x * x) / n), 1, {}), ("Norm", "Norm(A)", F("sqrt", SUM(x * x)), 1, {}),
        ("CentralMoment1", "CentralMoment(A,1,u)", rf(0), 1, {}),
        ("CentralMoment2", "CentralMoment(A,2,u)", m(2, u), 1, {}), ("CentralMoment3", "CentralMoment(A,3,u)", m(3, u), 1, {}), ("CentralMoment4", "CentralMoment(A,4,u)", m(4, u), 1, {}),
        ("CentralMomentK", "CentralMoment(A,k,u)", None, 1, {}),
        ("CentralMoment2m", "CentralMoment(A,2)", m(2), 1, {}), ("CentralMoment3m", "CentralMoment(A,3)", m(3), 1, {}), ("CentralMoment4m", "CentralMoment(A,4)", m(4), 1, {}),
        ("Standardized3", "StandardizedMoment(A,3,u)", m(3, u) / F("pow", m(2, u), rf(Fraction(3, 2))), 1, {}),
        ("Standardized4m", "StandardizedMoment(A,4)", m(4) / (var * var), 1, {}),
        ("StandardDeviation", "StandardDeviation(A)", F("sqrt", var), 1, {}), ("StandardDeviationU", "StandardDeviation(A,u)", F("sqrt", m(2, u)), 1, {}),
        ("Variance", "Variance(A)", var, 1, {}), ("VarianceU", "Variance(A,u)", m(2, u), 1, {}),
        ("Skewness", "Skewness(A)", m(3) / F("pow", var, rf(Fraction(3, 2))), 1, {}), ("SkewnessU", "Skewness(A,u)", m(3, u) / F("pow", m(2, u), rf(Fraction(3, 2))), 1, {}),
        ("Kurtosis", "Kurtosis(A)", m(4) / (var * var), 1, {}), ("KurtosisU", "Kurtosis(A,u)", m(4, u) / (m(2, u) ** 2), 1, {}),
        ("CorrectedVariance", "CorrectedVariance(A)", cvar, 1, {}), ("CorrectedStandardDeviation", "CorrectedStandardDeviation(A)", F("sqrt", cvar), 1, {}),
        ("CorrectedSkewness", "CorrectedSkewness(A)", S1 / F("pow", cvar, rf(Fraction(3, 2))), 1, {}),
        ("CorrectedKurtosis", "CorrectedKurtosis(A)", K1 / (cvar * cvar), 1, {}),
        ("CovarianceU", "Covariance(A,B,u,v)", SUM((x - u) * (y - w)) / n, 2, {}), ("Covariance", "Covariance(A,B)", cov, 2, {}),
        ("CorrectedCovariance", "CorrectedCovariance(A,B)", n / (n - 1) * cov, 2, {}),
        ("Correlation", "Correlation(A,B)", cov / (F("sqrt", var) * F("sqrt", vary)), 2, {}),
    ]
    zero = {"Mean", "MeanSquare", "RootMeanSquare", "Norm", "CentralMoment1"}
    jobs, meta = [], []
    for t in types:
        A = TY[t][0]
        half = (len(E) + 3) // 4
        for gi in range(4):
            src = PRE; ents = []
            for name, body, want, na, kw in E[gi * half:(gi + 1) * half]:
                e = "e_%s_%s" % (name, t)
                src += 'extern "C" void %s(%s* o, const %s* a, const %s* b, size_t n, %s u, %s v, size_t k) { *o = %s; }\n' % (e, A, A, A, A, A, body.replace("A", "CV<%s>(a,n)" % A, 1).replace("B", "CV<%s>(b,n)" % A) if not body.startswith(("CentralMoment", "StandardizedMoment", "Standard", "Corrected", "Covariance", "Correlation", "Skew", "Kurt", "Variance", "Mean", "Root", "Norm")) else body.split("(", 1)[0] + "(" + body.split("(", 1)[1].replace("A", "CV<%s>(a,n)" % A).replace("B", "CV<%s>(b,n)" % A))
                ents.append((e, name, want, [(arg(1), t), (arg(2), t)][:na]))
            jobs.append((c.ir, "s_%s%d" % (t, gi), src)); meta.append(ents)
    for mm, ents in zip(c.parallel(jobs), meta):
        if isinstance(mm, Exception): raise mm
        for e, name, want, arrays in ents:
            if name == "CentralMomentK":
                for k in (2, 3, 4, 5, 6, 7, 8):
                    w = SUM((x - u) ** k) / n if k <= 4 else SUM((dg if k % 2 else ad) * F("pow", ad, rf(k - 1))) / n
                    check_values(c, "%s:k=%d" % (e, k), mm.fns[e], mm, {0: w}, arrays, n, skip_empty=True, args={6: rf(k)})
            else:
                check_values(c, e, mm.fns[e], mm, {0: want}, arrays, n, skip_empty=name not in zero)

main("R02", run, "Every statistics entry point is inlined to IR; each accumulation is proved to be a sum over all elements exactly once, and the remaining expression over those sums, the element count and the parameters is compared with the textbook formula as a normal form.")
