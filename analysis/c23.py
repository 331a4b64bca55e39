"""C23: the lock primitive: typestate of ownership word, recursion count and pending mark over all paths of the
acquire/release functions and guards, in every lock implementation the build can select."""
from .core import *
from . import lockprim


def run(ctx):
    R = ctx.rule("primitive", "ownership is taken only by an acquiring compare-and-exchange from the free state (or the mutex), released only at count zero with release semantics, counts and pending marks are conserved on every path")
    G = ctx.rule("init-before-use", "every Lock object is initialized before the library uses it")
    for cfg in ("full", "stdmutex", "debug") if ctx.tier != "quick" else ("full", "stdmutex"):
        prog = ctx.prog(cfg)
        lockprim.check_prims(ctx, R, prog, cfg)
    prog = ctx.prog("full")
    # every Lock-typed field or variable is passed to lock_init once in a constructor / initializer
    inits = {}
    for f in prog.repo_fns(("src/", "include/")):
        for e in f.events():
            if e["k"] == "call" and e.get("q") == "lock_init":
                x = f.canon(e["a"][0])
                inits.setdefault(x[2] if x[0] == "m" else estr(x, f), []).append((f, e))
    locks = [(r["q"], fl[0]) for r in prog.recs.values() for fl in r["fields"] if fl[1] == "Lock"]
    for q, fl in locks:
        ctx.ok(G, 1, "%s::%s" % (q, fl))
        s = inits.get(fl, [])
        if not s: ctx.violation(G, "%s::%s" % (q, fl), "src/internal.h", "lock '%s::%s' is never initialized" % (q, fl))
        for f, e in s:
            if not f.q.split("::")[-1] == q: ctx.violation(G, "%s|%s" % (f.display, fl), f.loc(e), "lock '%s' is re-initialized outside of the constructor of its owner: a held lock would be forcibly freed" % fl)
    ctx.floor(R, 30); ctx.floor(G, 1)
    ctx.assume("std::atomic, std::mutex and __builtin_thread_pointer behave as specified; Windows and macOS variants of thread_id() are not compiled here")
