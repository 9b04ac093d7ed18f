from vf import *
import re, subprocess

RULE = "hidden state: query over the syntax tree of every header (templates included): objects with static or thread storage duration, their types, initialisers and first uses; mutable members; calls to sources of nondeterminism and input or output"

class Node:
    __slots__ = ("kind", "text", "parent", "kids", "file", "line", "depth")

LINE = re.compile(r"^([| `-]*)(?:(\w+) (0x[0-9a-f]+)?(.*)|<<<NULL>>>|\.\.\.)$")
def parse(txt):
    """the indented dump as a tree; locations continue those printed before them"""
    root = Node(); root.kind = "root"; root.text = ""; root.parent = None; root.kids = []; root.depth = -1; root.file = ""; root.line = 0
    stack = [root]; file = ""; line = 0
    for l in txt.split("\n"):
        if l.startswith("Dumping "): stack = [root]; continue
        m = re.match(r"^([| `-]*)(.*)$", l)
        pre, body = m.groups()
        if not body: continue
        d = len(pre) // 2
        n = Node(); n.kind = body.split(" ", 1)[0].rstrip(":"); n.text = body; n.kids = []; n.depth = d
        loc = re.match(r"\w+ 0x[0-9a-f]+ (?:parent 0x[0-9a-f]+ )?(?:prev 0x[0-9a-f]+ )?<([^>]*(?:<[^>]*>[^>]*)*)>(?: ((?:[^ :]+:\d+:\d+|line:\d+:\d+|col:\d+)))?", body)
        first = None
        if loc:
            for part in re.split(r", ", loc.group(1)) + ([loc.group(2)] if loc.group(2) else []):
                q = re.match(r"(?:(line|col)|(.+?)):(\d+)(?::(\d+))?$", part)
                if not q: continue
                if q.group(1) == "line": line = int(q.group(3))
                elif q.group(1) == "col": pass
                elif q.group(4): file = q.group(2); line = int(q.group(3))
                if first is None: first = (file, line)
        n.file, n.line = first or (file, line)
        while stack[-1].depth >= d: stack.pop()
        n.parent = stack[-1]; n.parent.kids.append(n)
        stack.append(n)
    return root

def walk(n):
    st = [n]
    while st:
        x = st.pop(); yield x
        st.extend(reversed(x.kids))

SCOPE = ("NamespaceDecl", "LinkageSpecDecl", "root", "VarTemplateDecl", "ExportDecl")
BODY = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl", "LambdaExpr", "CXXDeductionGuideDecl")
def name_type(n):
    m = re.search(r"(?:^|\s)((?:implicit |used |referenced |constexpr |invalid )*)([A-Za-z_]\w*) '([^']*)'(?::'([^']*)')?(.*)$", re.sub(r"^\w+ 0x[0-9a-f]+ (?:parent 0x[0-9a-f]+ )?(?:prev 0x[0-9a-f]+ )?<.*?> (?:(?:\S+:\d+:\d+|col:\d+) )?", " ", n.text))
    return (m.group(2), m.group(3), m.group(4) or m.group(3), m.group(5)) if m else (None, "", "", "")
def function_of(n):
    p = n.parent
    while p is not None:
        if p.kind in BODY and p.kind != "LambdaExpr":
            m = re.search(r" (operator[^ ]*|~?[A-Za-z_]\w*) '", p.text)
            return p, (m.group(1) if m else "?")
        p = p.parent
    return None, None
def short(n):
    f = os.path.normpath(n.file)
    i = f.find("include/dspbb")
    return "%s:%d" % (f[i:] if i >= 0 else f, n.line)
def const(ty):
    ty = ty.strip()
    while ty.endswith("]"): ty = ty[:ty.rindex("[")].strip()
    if ty.endswith("&"): return False
    if ty.endswith("*"): return False
    if re.search(r"\*\s*(__restrict )?const$", ty): return True
    if "*" in re.sub(r"<.*>", "", ty): return False
    return bool(re.match(r"(volatile )?const\b", ty)) and True

FORBIDDEN = {"rand", "srand", "rand_r", "drand48", "random", "time", "clock", "clock_gettime", "gettimeofday", "getenv", "secure_getenv", "setenv", "printf", "fprintf", "puts", "putchar", "fopen", "fwrite", "fputs", "scanf", "system", "popen", "getpid", "gettid", "random_device", "cout", "cerr", "clog", "cin", "wcout", "system_clock", "steady_clock", "high_resolution_clock", "ofstream", "ifstream", "fstream", "this_thread", "setlocale", "fesetround", "fesetenv", "feupdateenv", "strtok", "signal", "raise", "sleep", "usleep", "atexit", "thread", "jthread", "async"}
def run(c):
    root = os.path.join(INC, "dspbb")
    files = sorted(os.path.relpath(os.path.join(d, f), INC) for d, _, fs in os.walk(root) for f in fs if f.endswith((".hpp", ".h")))
    src = os.path.join(c.work, "all.cpp")
    open(src, "w").write("".join("#include <%s>\n" % f for f in files))
    p = subprocess.run([CLANG] + BASEFLAGS + ["-fsyntax-only", "-Xclang", "-ast-dump", "-Xclang", "-ast-dump-filter=dspbb", "-fno-color-diagnostics", src], capture_output=True, text=True)
    if p.returncode: raise RuntimeError("the headers do not compile: " + p.stderr[:300])
    tree = parse(p.stdout)
    nodes = [n for n in walk(tree)]
    # classes that hold a lock of their own
    locks = set(); mutable = 0; nvars = nfun = ncall = 0; seen = set(); inside = set()
    for n in nodes:
        if n.kind == "FieldDecl" and re.search(r"'(?:const )?std::(?:recursive_|shared_|timed_)?mutex'", n.text):
            q = n.parent; m = re.search(r"(?:class|struct) (\w+)(?: definition)?", q.text)
            if m: locks.add(m.group(1))
    for n in nodes:  # and those that keep their work in one
        if n.kind == "FieldDecl" and any(re.search(r"\b%s\b" % l, n.text) for l in list(locks)):
            m = re.search(r"(?:class|struct) (\w+)(?: definition)?", n.parent.text)
            if m: locks.add(m.group(1))
    byid = {}
    for n in nodes:
        m = re.match(r"\w+ (0x[0-9a-f]+)", n.text)
        if m and n.kind.endswith("Decl"): byid.setdefault(m.group(1), n)
    static = {}
    for n in nodes:
        if n.kind not in ("VarDecl", "VarTemplateSpecializationDecl", "VarTemplatePartialSpecializationDecl"): continue
        nm, ty, can, rest = name_type(n)
        words = rest.split()
        kw = {w for w in words if w in ("static", "extern", "inline", "constexpr", "constinit") or w.startswith("tls")}
        if n.parent.kind in SCOPE: kw.add("global")
        if not kw & {"static", "extern", "global"} and not any(w.startswith("tls") for w in kw): continue
        static[re.match(r"\w+ (0x[0-9a-f]+)", n.text).group(1)] = (n, nm, ty, can, kw)
    for ident, (n, nm, ty, can, kw) in static.items():
        where = (n.file, n.line, nm)
        if where in seen: continue
        seen.add(where); nvars += 1
        fn, fname = function_of(n)
        key = "%s in %s" % (nm, fname) if fname else str(nm)
        tls = any(w.startswith("tls") for w in kw)
        shared = [x for x in (ty, can)]
        synchronised = any(re.search(r"\b(?:mutex|once_flag|atomic(?:_\w+|<.*>)?|condition_variable)\b", x) for x in shared) or any(re.search(r"(?:^|::|\s)%s$" % re.escape(l), x) for l in locks for x in shared)
        if "constexpr" in kw: c.ok(1, "%s: constant" % key); continue
        if tls:
            # scratch space of one thread: what a call finds there was written by it
            if fn is None: c.bad("X01 " + key, "the thread's object %s ('%s') outlives the calls and is not confined to one function: results depend on what the thread did before" % (nm, ty), short(n)); continue
            if "pocketfft_dspbb" in space(n): c.ok(1, "%s: per thread" % key); continue
            ref = next((x for x in uses(fn, ident, n)), None)
            if ref is None: c.ok(1, "%s: not used" % key)
            elif written(ref): c.ok(1, "%s: scratch of one thread, written first" % key)
            else: c.bad("X01 " + key, "the thread's object %s ('%s') is read before the call has written to it: the result depends on earlier calls" % (nm, ty), short(ref))
            continue
        if fn is not None:
            # initialised once, by the first call
            dep = None
            for k in n.kids:
                for x in walk(k):
                    if x.kind == "CXXThisExpr": dep = (x, "the object of the first call")
                    m = re.search(r" (ParmVar|Var|Binding) (0x[0-9a-f]+) '(\w*)'", x.text) if x.kind == "DeclRefExpr" else None
                    if m:
                        d = byid.get(m.group(2))
                        if m.group(1) == "ParmVar" and not within(d, k) or m.group(1) != "ParmVar" and d is not None and not within(d, k) and m.group(2) not in static and function_of(d)[0] is not None and not re.search(r"\bconstexpr\b", d.text): dep = (x, "'%s' of the first call" % m.group(3))
                if dep: break
            if dep: c.bad("X01 " + key, "the static object %s ('%s') is initialised from %s and keeps that value for all later calls" % (nm, ty, dep[1]), short(n)); continue
        if const(ty) or const(can): c.ok(1, "%s: constant" % key); continue
        if synchronised: c.ok(1, "%s: synchronises its accesses" % key); continue
        if fn is not None and mutexes(fn):
            r = locked(fn, ident)
            if r is True: c.ok(1, "%s: every access holds the lock" % key)
            elif r is None: c.skip(key, "locking not followed")
            else: c.bad("X01 " + key, "%s ('%s') is shared by all threads and accessed here without holding its lock" % (nm, ty), short(r))
            continue
        if ty.strip().endswith("&") and fn is not None: c.skip(key, "static reference"); continue
        c.bad("X01 " + key, "%s ('%s') is a modifiable object shared by all calls and threads" % (nm, ty), short(n))
    for n in nodes:
        if n.kind in BODY and n.kind != "LambdaExpr" and any(k.kind == "CompoundStmt" for k in n.kids):
            m = re.search(r" (operator[^ ]*|~?[A-Za-z_]\w*) '", n.text)
            nfun += 1; c.functions.add((short(n).split(":")[0].replace("include/dspbb/", ""), m.group(1) if m else "?"))
        if n.kind.endswith(("Stmt", "Expr", "Operator", "Literal", "Decl")): c.lines.add((short(n).split(":")[0], n.line))
        if n.kind == "FieldDecl" and re.search(r"' mutable|\bmutable\b(?![^']*')", re.sub(r"'[^']*'", "''", n.text)) and "pocketfft_dspbb" not in space(n):
            nm = name_type(n)[0]
            if any(x in n.text for x in ("mutex", "atomic")): c.ok(1, "mutable %s" % nm); continue
            c.bad("X01 mutable %s" % nm, "the member %s can change under const access: reading one object from two threads is not free of races" % nm, short(n))
        if n.kind in ("DeclRefExpr", "UnresolvedLookupExpr", "CXXTemporaryObjectExpr", "CXXConstructExpr", "DependentScopeDeclRefExpr") and "pocketfft_dspbb" not in space(n):
            ncall += 1
            m = re.search(r" (?:Function|Var|CXXMethod) 0x[0-9a-f]+ '([^']+)'", n.text) or re.search(r"= '([^']+)'", n.text)
            nm = m.group(1) if m else None
            if n.kind in ("CXXTemporaryObjectExpr", "CXXConstructExpr"):
                m = re.search(r"'(?:const )?(?:std::)?(?:chrono::)?(\w+)", n.text); nm = m.group(1) if m else None
                if nm not in ("random_device", "ofstream", "ifstream", "fstream", "thread", "jthread"): continue
            elif nm and function_of_ref_std(n, byid) is False: continue
            if nm in FORBIDDEN:
                fn, fname = function_of(n)
                c.bad("X01 %s in %s" % (nm, fname), "%s is used: the result, or an effect, depends on more than the arguments" % nm, short(n))
    c.ok(1, "%d references of %d functions name no source of nondeterminism and no input or output" % (ncall, nfun))

def space(n):
    s = []
    p = n
    while p is not None:
        if p.kind == "NamespaceDecl":
            m = re.search(r"(\w+)(?: nested)?(?: inline)?$", p.text)
            if m: s.append(m.group(1))
        p = p.parent
    return s
def within(d, k):
    while d is not None:
        if d is k: return True
        d = d.parent
    return False
def mutexes(fn):
    return ["mutex" for x in walk(fn) if x.kind == "VarDecl" and "std::mutex" in x.text and re.search(r" static\b", x.text) and " tls" not in x.text]
def owner(n):
    """the function or lambda body around"""
    p = n.parent
    while p is not None and p.kind not in BODY: p = p.parent
    return p
def locked(fn, ident, depth=0):
    """True: every use is in a block after a lock guard; a node: one that is not; None: not known"""
    if any(re.search(r"[.>](lock|unlock|try_lock)\b", x.text) for x in walk(fn) if x.kind in ("MemberExpr", "CXXDependentScopeMemberExpr")): return None
    for u in uses(fn, ident, None):
        held = False
        x = u; p = u.parent
        while p is not None and p is not fn and not held:
            if p.kind == "CompoundStmt":
                for k in p.kids:
                    if k is x: break
                    if k.kind == "DeclStmt" and any(d.kind == "VarDecl" and re.search(r"(lock_guard|scoped_lock|unique_lock)\b", d.text) and not re.search(r"defer_lock|try_to_lock", " ".join(y.text for y in walk(d))) for d in k.kids): held = True
            if p.kind == "LambdaExpr":
                # a named local function: all its calls count
                q = p.parent
                while q is not None and q.kind not in ("VarDecl", "CompoundStmt", "CallExpr"): q = q.parent
                if q is None or q.kind != "VarDecl" or depth > 3: return None
                r = locked(fn, re.match(r"\w+ (0x[0-9a-f]+)", q.text).group(1), depth + 1)
                if r is not True: return r
                held = True
            x = p; p = p.parent
        if not held: return u
    return True
def uses(fn, ident, decl):
    for x in walk(fn):
        if x.kind == "DeclRefExpr" and " Var %s " % ident in x.text: yield x
WRITERS = ("assign", "clear", "fill", "resize")
def written(ref):
    """the first mention of the object is as the target of an assignment, or of a call that sets all of it"""
    x = ref; p = ref.parent
    while p is not None:
        if p.kind in ("ParenExpr", "ImplicitCastExpr", "ArraySubscriptExpr", "CXXDependentScopeMemberExpr", "MemberExpr"):
            if p.kind in ("CXXDependentScopeMemberExpr", "MemberExpr") and re.search(r"[.>](%s)\b" % "|".join(WRITERS), p.text): return True
            if p.kind == "ArraySubscriptExpr" and p.kids and p.kids[0] is not x: return False
            if p.kind == "ImplicitCastExpr" and "LValueToRValue" in p.text: return False
            x = p; p = p.parent; continue
        if p.kind in ("BinaryOperator",) and re.search(r"'='$", p.text): return p.kids[0] is x
        if p.kind == "CXXOperatorCallExpr":
            if "'[]'" in p.text or any("operator[]" in k.text for k in p.kids[:1]) or p.kids and any("operator[]" in y.text for y in walk(p.kids[0])):
                if len(p.kids) > 1 and p.kids[1] is not x and not within(x, p.kids[1]): return False
                x = p; p = p.parent; continue
            if "'='" in p.text: return within(x, p.kids[1] if len(p.kids) > 1 else p.kids[0])
            return False
        return False
    return False
def function_of_ref_std(n, byid):
    """False: the name is declared by the library itself"""
    m = re.search(r" (?:Function|Var|CXXMethod) (0x[0-9a-f]+) ", n.text) or re.search(r"= '[^']+' (0x[0-9a-f]+)", n.text)
    if m and m.group(1) in byid: return False
    return None

if __name__ == "__main__": main("X01", run, RULE)
