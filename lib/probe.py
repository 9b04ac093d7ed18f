"""Compile-time witnesses: small functions, one per line, that have to compile or have to be rejected by the type system.
All probes of a group are type-checked together; every probe whose outcome is not the expected one is type-checked again
on its own, so that errors are attributed reliably."""
import re
from vf import *

def run_probes(c, name, pre, probes, flags=()):
    """probes: [(key, statement, should_compile, meaning)]"""
    base = pre.count("\n")
    line = {}
    src = pre
    for n, (key, stmt, ok, why) in enumerate(probes):
        line[base + n + 1] = n
        src += "[[maybe_unused]] static void probe_%d(ALL) { %s }\n" % (n, stmt)
    good, out = c.syntax(name, src, flags)
    errs = set()
    fatal = None
    cur = None
    for l in out.splitlines():
        m = re.match(r"(.*?):(\d+):(?:\d+:)? (fatal error|error|note|warning): (.*)", l)
        if not m: continue
        here = line.get(int(m.group(2))) if os.path.basename(m.group(1)) == name + ".cpp" else None
        if m.group(3) == "fatal error": fatal = m.group(4)
        if m.group(3) in ("error", "fatal error"):
            cur = True
            if here is not None: errs.add(here)
        elif m.group(3) == "note" and cur and here is not None: errs.add(here)
        elif m.group(3) == "warning": cur = None
    todo = [n for n, p in enumerate(probes) if fatal or (n in errs) == p[2]]
    redo = {}
    if todo:
        one = lambda n: c.syntax("%s_%d" % (name, n), pre + "[[maybe_unused]] static void probe_%d(ALL) { %s }\n" % (n, probes[n][1]), flags)
        for n, r in zip(todo, c.parallel([(one, n) for n in todo])):
            if isinstance(r, Exception): raise r
            redo[n] = r
    # the preamble on its own has to compile, or nothing can be said
    if any(not r[0] for r in redo.values()):
        g, o = c.syntax(name + "_pre", pre + "[[maybe_unused]] static void probe(ALL) {}\n", flags)
        if not g:
            c.skip(name, "the headers do not compile on their own: " + first_error(o)); return
    for n, (key, stmt, ok, why) in enumerate(probes):
        compiles = redo[n][0] if n in redo else ok
        if compiles == ok: c.ok(1, "%s: %s" % (key, "compiles" if ok else "is rejected"))
        elif ok: c.bad(key, "%s: `%s` does not compile: %s" % (why, stmt, first_error(redo[n][1])), location(redo[n][1]))
        else: c.bad(key, "%s: `%s` compiles" % (why, stmt), "witness %s_%d.cpp" % (name, n))

def first_error(o):
    m = re.search(r"(?:fatal )?error: (.*)", o)
    return m.group(1)[:300] if m else o[:200]
def location(o):
    m = re.search(r"([^\s:]*include/dspbb/[^\s:]*:\d+)", o)
    if m: return re.sub(r"^.*include/dspbb", "include/dspbb", m.group(1))
    m = re.search(r"(\S+:\d+):\d+: (?:fatal )?error", o)
    return m.group(1) if m else ""
