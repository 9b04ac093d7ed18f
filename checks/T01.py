from vf import *

PRE = """#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <dspbb/Primitives/SignalTraits.hpp>
#include <dspbb/Utility/TypeTraits.hpp>
#include <dspbb/Utility/Numbers.hpp>
#include <list>
#include <forward_list>
#include <string>
#include <utility>
#include <vector>
using namespace dspbb;
struct Alien {}; // a type without any operator
struct Product { }; struct Left {}; struct Right {}; // operators that exist in one order only and return a type of their own
Product operator*(Left, Right); Product operator+(Left, Right); Product& operator/(Left, Right); const Product operator-(Left, Right);
template <class, template <class, class> class R, class T, class U> struct answers_ : std::false_type {};
template <template <class, class> class R, class T, class U> struct answers_<std::void_t<typename R<T, U>::type>, R, T, U> : std::true_type {};
template <template <class, class> class R, class T, class U> constexpr bool answers = answers_<void, R, T, U>::value;
template <class T, class U> constexpr bool same = std::is_same_v<T, U>;
"""
CV = [("", 0, 0), ("const ", 1, 0), ("volatile ", 0, 1), ("const volatile ", 1, 1)]
SCALARS = ["float", "double", "long double", "int", "short", "unsigned long", "int64_t", "bool"]
REALS = ["float", "double", "long double"]
DOMAINS = ["eSignalDomain::TIME", "eSignalDomain::FREQUENCY", "eSignalDomain::QUEFRENCY", "eSignalDomain::DOMAINLESS"]
ELEMS = ["float", "double", "int", "std::complex<float>", "std::complex<double>"]

def facts():
    F = []
    def f(group, cond, why): F.append((group, cond, why))
    # complex numbers
    for p, cn, vn in CV:
        for t in REALS + ["int"]:
            f("is_complex", "is_complex_v<%sstd::complex<%s>> && is_complex<%sstd::complex<%s>>::value" % (p, t, p, t), "%scomplex<%s> is a complex number" % (p, t))
            f("remove_complex", "same<remove_complex_t<%sstd::complex<%s>>, %s%s> && same<remove_complex<%sstd::complex<%s>>::type, %s%s>" % (p, t, p, t, p, t, p, t), "the real type behind %scomplex<%s> is %s%s" % (p, t, p, t))
        for t in SCALARS:
            f("is_complex", "!is_complex_v<%s%s>" % (p, t), "%s%s is no complex number" % (p, t))
            f("remove_complex", "same<remove_complex_t<%s%s>, %s%s>" % (p, t, p, t), "a real type is its own real type")
        for t in ("Alien", "std::vector<std::complex<float>>", "BasicSignal<std::complex<float>, eSignalDomain::TIME>", "std::pair<float, float>"):
            f("is_complex", "!is_complex_v<%s%s>" % (p, t), "%s%s is no complex number" % (p, t))
    # conditional qualifiers
    for t in ("float", "std::complex<double>", "Alien", "int*"):
        for p, cn, vn in CV:
            q = lambda k, v: "std::add_const_t<std::add_volatile_t<%s>>" % t if k and v else "std::add_const_t<%s>" % t if k else "std::add_volatile_t<%s>" % t if v else t
            src = q(cn, vn)
            for b in (0, 1):
                f("add_const_conditional", "same<add_const_conditional_t<%s, %s>, %s> && same<add_const_conditional<%s, %s>::type, %s>" % (src, "true" if b else "false", q(cn or b, vn), src, "true" if b else "false", q(cn or b, vn)), "const is added exactly when asked for")
                f("add_volatile_conditional", "same<add_volatile_conditional_t<%s, %s>, %s>" % (src, "true" if b else "false", q(cn, vn or b)), "volatile is added exactly when asked for")
                for d in (0, 1):
                    f("add_cv_conditional", "same<add_cv_conditional_t<%s, %s, %s>, %s>" % (src, "true" if b else "false", "true" if d else "false", q(cn or b, vn or d)), "const and volatile are added exactly when asked for, in this order")
    # result types of the operators
    ops = [("multiplies_result", "*"), ("plus_result", "+"), ("divides_result", "/"), ("minus_result", "-")]
    pairs = [(a, b) for a in SCALARS[:6] for b in SCALARS[:6]] + [("std::complex<%s>" % t, "std::complex<%s>" % t) for t in REALS] + \
            [("std::complex<%s>" % t, t) for t in REALS] + [(t, "std::complex<%s>" % t) for t in REALS] + [("const float&", "double"), ("int&", "const float&"), ("const std::complex<float>&", "float&"), ("Left", "Right"), ("const Left&", "Right&&")]
    for tr, op in ops:
        for a, b in pairs:
            e = "decltype(std::declval<%s>() %s std::declval<%s>())" % (a, op, b)
            f(tr, "same<%s_t<%s, %s>, %s> && same<typename %s<%s, %s>::type, %s>" % (tr, a, b, e, tr, a, b, e), "the type of %s %s %s" % (a, op, b))
            f(tr, "answers<%s, %s, %s>" % (tr, a, b), "%s %s %s exists" % (a, op, b))
        for a, b in (("Alien", "Alien"), ("Alien", "float"), ("double", "Alien"), ("Right", "Left"), ("Left", "Left"), ("void", "float"), ("std::complex<float>", "Alien"), ("float", "std::vector<float>")):
            f(tr, "!answers<%s, %s, %s>" % (tr, a, b), "there is no %s %s %s" % (a, op, b))
    f("plus_result", "answers<plus_result, int*, int> && !answers<plus_result, int*, int*> && answers<plus_result, int, int*>", "pointers can be advanced but not added")
    f("minus_result", "same<minus_result_t<int*, int*>, std::ptrdiff_t> && answers<minus_result, int*, int> && !answers<minus_result, int, int*>", "pointers have a difference")
    f("plus_result", "answers<plus_result, std::string, std::string> && !answers<multiplies_result, std::string, std::string> && !answers<minus_result, std::string, std::string> && !answers<divides_result, std::string, std::string>", "strings can only be added")
    # iterators
    for it, ra in (("std::vector<float>::iterator", 1), ("std::vector<float>::const_iterator", 1), ("float*", 1), ("const float*", 1), ("std::list<int>::iterator", 0), ("std::forward_list<int>::iterator", 0),
                   ("std::istream_iterator<int>", 0), ("std::vector<float>::reverse_iterator", 1), ("std::list<int>::reverse_iterator", 0), ("std::back_insert_iterator<std::vector<int>>", 0), ("std::string::iterator", 1)):
        f("is_random_access_iterator", "%sis_random_access_iterator_v<%s> && is_random_access_iterator<%s>::value == %s" % ("" if ra else "!", it, it, "true" if ra else "false"), "%s %s random access" % (it, "has" if ra else "has no"))
    # signals, views and their traits
    for d in DOMAINS:
        for t in ELEMS:
            s = "BasicSignal<%s, %s>" % (t, d)
            f("is_signal", "is_signal_v<%s> && is_signal<%s>::value && !is_signal_view_v<%s> && is_signal_like_v<%s>" % (s, s, s, s), "%s is a signal and no view" % s)
            f("signal_traits", "same<signal_traits<%s>::type, %s> && signal_traits<%s>::domain == %s" % (s, t, s, d), "element type and domain of %s" % s)
            for it in ("iterator", "const_iterator", "reverse_iterator", "const_reverse_iterator"): f("is_random_access_iterator", "is_random_access_iterator_v<%s::%s>" % (s, it), "the %s of a signal has random access" % it)
            for k in ("", "const "):
                v = "BasicSignalView<%s%s, %s>" % (k, t, d)
                f("is_signal_view", "is_signal_view_v<%s> && is_signal_view<%s>::value && !is_signal_v<%s> && is_signal_like_v<%s> && is_signal_like<%s>::value" % (v, v, v, v, v), "%s is a view and owns nothing" % v)
                f("signal_traits", "same<signal_traits<%s>::type, %s%s> && signal_traits<%s>::domain == %s" % (v, k, t, v, d), "element type, const or not, and domain of %s" % v)
                for ref in ("", "&", "&&"):
                    for q in ("", "const "):
                        f("is_mutable_signal", "is_mutable_signal_v<%s%s%s> == %s && is_mutable_signal<%s%s%s>::value == %s" % (q, v, ref, "false" if k else "true", q, v, ref, "false" if k else "true"), "a view can be written through exactly when its elements are not const, const itself or not: %s%s%s" % (q, v, ref))
                for it in ("iterator", "const_iterator"): f("is_random_access_iterator", "is_random_access_iterator_v<%s::%s>" % (v, it), "the %s of a view has random access" % it)
            for ref in ("", "&", "&&"):
                for q in ("", "const "):
                    f("is_mutable_signal", "is_mutable_signal_v<%s%s%s> == %s" % (q, s, ref, "false" if q else "true"), "a signal can be written exactly when it is not const: %s%s%s" % (q, s, ref))
    for t in ("float", "std::vector<float>", "std::complex<float>", "float*", "Alien", "std::pair<float, float>"):
        f("is_signal", "!is_signal_v<%s> && !is_signal_view_v<%s> && !is_signal_like_v<%s>" % (t, t, t), "%s is neither a signal nor a view" % t)
        for ref in ("", "&"):
            f("is_mutable_signal", "!is_mutable_signal_v<%s%s>" % (t, ref), "%s is no signal that could be written" % t)
            for o in ("BasicSignal<float, eSignalDomain::TIME>", "BasicSignalView<const float, eSignalDomain::TIME>"):
                f("is_same_domain", "!is_same_domain_v<%s%s, %s> && !is_same_domain_v<%s, %s%s> && !is_same_domain_v<%s, %s, %s%s>" % (t, ref, o, o, t, ref, o, o, t, ref), "%s%s has no domain" % (t, ref))
    # every pair and triple of domains, in every shape of operand
    shape = ["BasicSignal<float, %s>", "BasicSignalView<float, %s>", "BasicSignalView<const std::complex<double>, %s>", "const BasicSignal<double, %s>&", "BasicSignal<int, %s>&&", "const BasicSignalView<float, %s>&"]
    for i, a in enumerate(DOMAINS):
        for s in shape: f("is_same_domain", "is_same_domain_v<%s> && is_same_domain<%s>::value" % (s % a, s % a), "a single signal is in one domain")
        for j, b in enumerate(DOMAINS):
            for s in shape:
                for u in shape:
                    f("is_same_domain", "%sis_same_domain_v<%s, %s>" % ("" if a == b else "!", s % a, u % b), "%s and %s are in %s" % (s % a, u % b, "one domain" if a == b else "different domains"))
            for k, e in enumerate(DOMAINS):
                for r in range(3):
                    x, y, z = shape[r] % a, shape[r + 1] % b, shape[r + 3] % e
                    one = a == b == e
                    f("is_same_domain", "%sis_same_domain_v<%s, %s, %s>" % ("" if one else "!", x, y, z), "%s, %s and %s are%s all in one domain" % (x, y, z, "" if one else " not"))
                for m, g in enumerate(DOMAINS):
                    f("is_same_domain", "%sis_same_domain_v<%s>" % ("" if a == b == e == g else "!", ", ".join(shape[0] % w for w in (a, b, e, g))), "four signals are in one domain exactly when all of them are")
    # constants
    for t, v in (("float", "3.14159265358979323846264338327950288f"), ("double", "3.14159265358979323846264338327950288")):
        f("pi_v", "pi_v<%s> == %s" % (t, v), "pi is pi")
    f("pi_v", "pi_v<long double> > 3.14159265358979L && pi_v<long double> < 3.141592653589794L && same<decltype(pi_v<long double>), const long double>", "pi is pi")
    for t in REALS: f("i_v", "i_v<%s>.real() == static_cast<%s>(0) && i_v<%s>.imag() == static_cast<%s>(1)" % (t, t, t, t), "i is the imaginary unit")
    return F

def run(c):
    F = facts()
    base = PRE.count("\n")
    # the condition is evaluated by the type checker for every line; a line whose condition is no constant expression at all
    # (a trait that does not answer) is an error of that line too
    def group(k, fs):
        src = PRE + "".join("static_assert(%s, \"\");\n" % x[1] for x in fs)
        return c.syntax("traits_%s" % k, src, ("-ferror-limit=0", "-ftemplate-backtrace-limit=0"))
    names = sorted({x[0] for x in F})
    res = c.parallel([(group, k, [x for x in F if x[0] == k]) for k in names])
    if any(isinstance(r, Exception) for r in res): raise [r for r in res if isinstance(r, Exception)][0]
    if any(not r[0] for r in res):
        good, out = c.syntax("traits_pre", PRE, ())
        if not good: c.bad("headers", "the trait headers do not compile on their own: %s" % next((l for l in out.splitlines() if "error" in l), "")[:200], "include/dspbb/Primitives/SignalTraits.hpp"); return
    for k, (good, out) in zip(names, res):
        fs = [x for x in F if x[0] == k]
        wrong = {}
        cur = None
        for l in out.splitlines():
            m = re.match(r"(.*?):(\d+):(?:\d+:)? (fatal error|error|note|warning): (.*)", l)
            if not m: continue
            mine = os.path.basename(m.group(1)) == "traits_%s.cpp" % k
            if "error" in m.group(3): cur = (m.group(4), re.sub(r"^.*include/dspbb", "include/dspbb", m.group(1)) + ":" + m.group(2))
            elif m.group(3) == "warning": cur = None
            n = int(m.group(2)) - base - 1
            if cur and mine and 0 <= n < len(fs) and "because" not in m.group(4): wrong.setdefault(n, cur)
        if not good and not wrong:
            c.bad(k, "the trait cannot be evaluated: %s" % next((l for l in out.splitlines() if "error" in l), "")[:200], ""); continue
        c.ok(len(fs) - len(wrong), "%s: %d answers" % (k, len(fs) - len(wrong)))
        for n in sorted(wrong)[:6]:
            c.bad("%s %d" % (k, n), "%s, but `%s` is not true: %s" % (fs[n][2], fs[n][1][:300], wrong[n][0][:160]), wrong[n][1] if "include/dspbb" in wrong[n][1] else where(k))

def where(k):
    return "include/dspbb/" + ("Primitives/SignalTraits.hpp" if k in ("is_signal", "is_signal_view", "signal_traits", "is_same_domain", "is_mutable_signal") else "Utility/Numbers.hpp" if k in ("pi_v", "i_v") else "Utility/TypeTraits.hpp") + " " + k

main("T01", run, "each trait is instantiated by the type checker for every listed combination of types and has to give the stated answer")
