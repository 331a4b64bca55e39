"""Rules about the lock primitive itself (used by C03 and C23).  Everything is matched by types and value flow:
the owner word is the std::atomic field of `Lock`, the count its plain integral field, an optional std mutex field."""
from .core import *

ACQ_ORD, REL_ORD = {2, 4, 5}, {3, 4, 5}
LOCKFILES = ("src/lock.h", "src/log.cpp")


class Prim:
    def __init__(s, prog):
        s.prog = prog
        r = prog.rec("Lock")
        s.owner = s.count = s.mutex = None
        for f in r["fields"]:
            t = f[1]
            if t.startswith("std::atomic"): s.owner = f[0]
            elif "mutex" in t: s.mutex = f[0]
            elif t in ("unsigned long", "unsigned int", "unsigned long long", "size_t"): s.count = f[0]
        if not s.owner or not s.count: raise AnalysisBroken("struct Lock: owner/count fields not found")
        s.small = {f.key for f in prog.fns.values() if f.file == "src/lock.h"}

    def inlined(s, fn, stop=()):
        keep = {"lock_acquire", "lock_release", "lock_release_pending", "lock_set_pending", "thread_id", "lock_pause"} | set(stop)
        return inline(s.prog, fn, lambda f, e, t: t.key in s.small and t.q not in keep and t.key != fn.key)

    def field(s, fn, e):
        """'owner' / 'count' / 'mutex' if e denotes a field of a Lock"""
        e = fn.canon(e)
        if is_expr(e) and e[0] == "m" and e[3] == "Lock":
            return {s.owner: "owner", s.count: "count", s.mutex: "mutex"}.get(e[2])
        return None

    def is_self(s, fn, e):
        """expression is this thread's identifier, unmodified and at full width"""
        x = e
        for _ in range(10):
            if not is_expr(x): return False
            if x[0] == "ic" or x[0] == "cast":
                if x[1] not in ("unsigned long", "uintptr_t", "unsigned long long", "size_t", "void *"): return False
                x = x[3]; continue
            if x[0] == "def": x = x[1]; continue
            if x[0] == "v":
                u = fn.unique_def(x[1])
                if u is None: return False
                x = u; continue
            if x[0] == "ev":
                ev = fn.evi.get(x[1])
                return bool(ev and ev["k"] == "call" and ev.get("q") == "thread_id")
            return False
        return False

    def is_owner_load(s, fn, e, depth=0):
        x = strip(e)
        if is_expr(x) and x[0] == "v" and depth < 6:
            ds = fn.defs().get(x[1], [])
            return any(d[1] is not None and s.is_owner_load(fn, d[1], depth + 1) for d in ds if d[0] == "decl")
        if is_expr(x) and x[0] == "ev":
            ev = fn.evi.get(x[1])
            if ev and ev["k"] == "call" and s.field(fn, ev.get("obj")) == "owner" and (ev["q"].endswith("::load") or "operator" in ev["q"]): return True
        return False

    def self_fact(s, fn, facts, lock=None):
        """True/False if facts decide `<lock>.owner == self`, else None"""
        for c, v in facts:
            c = strip(c)
            if c[0] == "bi" and c[1] in ("==", "!="):
                for a, b in ((c[2], c[3]), (c[3], c[2])):
                    if s.is_owner_load(fn, a) and s.is_self(fn, b) and (lock is None or s.load_lock(fn, a) == lock): return v == (c[1] == "==")
        return None

    def load_lock(s, fn, e):
        x = fn.canon(e)
        for y in walk(x):
            if y[0] == "m" and y[3] == "Lock" and y[2] == s.owner: return estr(y[1], fn)
        return None


def order(fn, a):
    return const_int(a) if a is not None else 5


def check_prims(ctx, R, prog, cfg):
    """R: rule name.  Reports violations for acquire/release/pending/guards in one configuration."""
    P = Prim(prog)
    tag = "" if cfg == "full" else " [%s]" % cfg

    def bad(f, what, e, msg): ctx.violation(R, "%s|%s%s" % (f.display, what, tag), f.loc(e) if e is not None else "%s:%d" % (f.file, f.line), msg + tag)
    # ------------------------------------------------------------------ acquire
    f0 = prog.fn("lock_acquire"); f = P.inlined(f0)
    def step(u, e, blk, env):
        own, cnt = u
        k = e["k"]
        if k == "call" and e.get("obj") is not None:
            fld = P.field(f, e["obj"]); m = e["q"].split("::")[-1]
            if fld == "owner":
                if m == "store" or m == "exchange" or m.startswith("operator="):
                    if P.mutex and own == "A" and P.is_self(f, e["a"][0]): return [("A", cnt)]
                    if P.mutex and own == "AM" and P.is_self(f, e["a"][0]): return [("A", cnt)]
                    bad(f0, "plain-store", e, "lock_acquire() changes the owner word without an atomic compare-and-exchange from the free state")
                elif m.startswith("compare_exchange"):
                    ctx.ok(R)
                    x = strip(e["a"][0]); z = const_int(x)
                    if is_expr(x) and x[0] == "v": z = dict(env).get(x[1])
                    if z != 0: bad(f0, "cas-expected", e, "the compare-and-exchange that takes the lock may succeed while another thread owns it (expected value is not the free marker)")
                    if not P.is_self(f, e["a"][1]): bad(f0, "cas-desired", e, "the compare-and-exchange that takes the lock does not store this thread's identifier")
                    if order(f, e["a"][2] if len(e["a"]) > 2 else None) not in ACQ_ORD: bad(f0, "cas-order", e, "taking the lock does not have acquire semantics")
            if fld == "mutex" and m == "lock": return [("AM", cnt)]
        if k == "asg" and P.field(f, e["l_"]) == "count":
            ctx.ok(R)
            if e["op"] == "=" and const_int(e["r"]) == 1: return [(own, "=1" if cnt in ("-", "=1") else "bad")]
            if e["op"] == "+=" and const_int(e["r"]) == 1: return [(own, "+1" if cnt == "-" else "bad")]
            c = strip(e["r"])
            if e["op"] == "=" and c[0] == "bi" and c[1] == "+" and P.field(f, c[2]) == "count" and const_int(c[3]) == 1: return [(own, "+1" if cnt == "-" else "bad")]
            return [(own, "bad")]
        if k == "inc" and P.field(f, e["e"]) == "count": return [(own, "+1" if cnt == "-" and e["op"] == "++" else "bad")]
        return [u]
    def branch(u, facts, blk, i):
        own, cnt = u
        sf = P.self_fact(f, facts)
        if sf is not None and own in ("U", "S", "N"):
            if own != "U" and (own == "S") != sf: return None
            own = "S" if sf else "N"
        for c, v in facts:
            c = strip(c)
            ev = f.evi.get(c[1]) if c[0] == "ev" else None
            if ev is not None and ev["k"] == "call" and "compare_exchange" in (ev.get("q") or "") and P.field(f, ev.get("obj")) == "owner":
                if v: own = "A"
            if ev is not None and ev["k"] == "call" and (ev.get("q") or "").endswith("try_lock") and P.field(f, ev.get("obj")) == "mutex" and v: own = "AM"
        return (own, cnt)
    ins, ex, _ = paths(f, ("U", "-"), step, branch)
    exits = ex
    for u in sorted(exits):
        ctx.ok(R, 1, "lock_acquire%s returns with ownership/count state %s" % (tag, u))
        if u not in (("S", "+1"), ("A", "=1")):
            bad(f0, "exit-%s%s" % u, None, "lock_acquire() can return in state %s: expected either a recursive entry counted once or a fresh ownership with the count set to one" % (u,))
    if not exits: bad(f0, "noexit", None, "lock_acquire() never returns")
    # ------------------------------------------------------------------ release
    f0 = prog.fn("lock_release"); f = P.inlined(f0)
    def cmp_fact(facts):
        out = []
        for c, v in facts:
            c = strip(c)
            if c[0] == "bi" and c[1] in ("==", "!="):
                for a, b in ((c[2], c[3]), (c[3], c[2])):
                    if P.field(f, a) == "count" or (strip(a)[0] == "v" and has_count(f, a)):
                        x = P_const(prog, f, b)
                        if x is not None: out.append((x, v == (c[1] == "==")))
            elif c[0] == "u" and c[1] == "!" and P.field(f, c[2]) == "count": out.append((0, v))
            elif P.field(f, c) == "count": out.append((0, not v))
        return out
    def has_count(f, a):
        u = f.unique_def(strip(a)[1])
        return u is not None and (P.field(f, u) == "count" or (strip(u)[0] == "ev" and f.evi.get(strip(u)[1], {}).get("k") == "inc" and P.field(f, f.evi[strip(u)[1]]["e"]) == "count"))
    # state: (decremented, known: None/'zero'/'nonzero'/'pending'/'other', freed, delivered)
    def step(u, e, blk, env):
        dec, kn, freed, dl = u
        k = e["k"]
        if freed and k in ("asg", "inc", "deref") and P.field(f, e.get("l_") or e.get("e")) == "count":
            bad(f0, "use-after-free", e, "lock fields are accessed after the lock was handed over")
        if (k == "inc" and e["op"] == "--" and P.field(f, e["e"]) == "count") or (k == "asg" and e["op"] == "-=" and const_int(e["r"]) == 1 and P.field(f, e["l_"]) == "count"):
            ctx.ok(R); return [(dec + 1, None, freed, dl)]
        if k == "asg" and P.field(f, e["l_"]) == "count":
            c = strip(e["r"])
            if e["op"] == "=" and c[0] == "bi" and c[1] == "-" and P.field(f, c[2]) == "count" and const_int(c[3]) == 1: return [(dec + 1, None, freed, dl)]
            bad(f0, "count-write", e, "lock_release() overwrites the recursion count"); return [u]
        if k == "call" and e.get("obj") is not None:
            fld = P.field(f, e["obj"]); m = e["q"].split("::")[-1]
            if fld == "owner" and (m in ("store", "exchange") or m.startswith("operator=")):
                ctx.ok(R)
                if const_int(e["a"][0]) != 0: bad(f0, "store-value", e, "lock_release() stores a value other than the free marker")
                if kn != "zero": bad(f0, "early-free", e, "the lock is handed over although the recursion count is not known to be zero")
                if not P.mutex and order(f, e["a"][1] if len(e["a"]) > 1 else None) not in REL_ORD: bad(f0, "store-order", e, "handing over the lock does not have release semantics")
                if P.mutex and freed: bad(f0, "store-late", e, "the owner word is cleared after the mutex was unlocked")
                return [(dec, kn, freed if P.mutex else True, dl)] if not P.mutex else [(dec, kn, "o", dl)]
            if fld == "mutex" and m == "unlock":
                if kn != "zero": bad(f0, "early-free", e, "the mutex is unlocked although the recursion count is not known to be zero")
                if freed != "o": bad(f0, "owner-stale", e, "the mutex is unlocked while the owner word still names this thread")
                return [(dec, kn, True, dl)]
        if k == "call" and e.get("q") == "lock_release_pending":
            ctx.ok(R)
            if kn != "pending": bad(f0, "pending-early", e, "deferred delivery is triggered although this is not the outermost release")
            return [(dec, kn, True, True)]
        return [u]
    def branch(u, facts, blk, i):
        dec, kn, freed, dl = u
        for x, v in cmp_fact(facts):
            if x == 0:
                if v: kn = "zero" if kn is None else (None if kn in ("pending",) else kn)
                else: kn = kn or "nonzero"
                if kn is None: return None
            elif x == pend:
                if v:
                    if kn == "zero": return None
                    kn = "pending"
                else: kn = "other" if kn == "nonzero" else kn
        return (dec, kn, freed, dl)
    pend = P_const(prog, f, ["g", "LOCK_PENDING"])
    if pend is None: raise AnalysisBroken("LOCK_PENDING constant not found")
    ins, ex, _ = paths(f, (0, None, False, False), step, branch)
    exits = ex
    seen = set()
    for u in sorted(exits, key=str):
        ctx.ok(R, 1, "lock_release%s returns in state %s" % (tag, u))
        dec, kn, freed, dl = u
        if dec != 1: bad(f0, "dec", None, "lock_release() decrements the recursion count %d times on some path" % dec)
        if kn == "zero" and not freed: bad(f0, "kept", None, "lock_release() keeps the lock although the recursion count reached zero")
        if kn in (None, "nonzero"): bad(f0, "pending-lost", None, "lock_release() returns without deciding whether deferred work is due at the outermost release")
        seen.add(kn)
    if "zero" not in seen: bad(f0, "never-freed", None, "lock_release() never hands the lock over")
    if "pending" not in seen: bad(f0, "pending-lost", None, "the outermost release does not trigger the deferred work")
    # pending bit: the top bit of the count
    for w in ("unsigned long",):
        if bin(pend).count("1") != 1 or pend < 1 << 31: ctx.violation(R, "LOCK_PENDING" + tag, "src/lock.h", "LOCK_PENDING must be a single high bit that a recursion count never reaches")
    # ------------------------------------------------------------------ release with pending work
    f0 = prog.fn("lock_release_pending"); f = P.inlined(f0)
    reach = reaches(prog, lambda t: t.q in ("jit_log_flush",) or calls_user_log(prog, t))
    def step(u, e, blk, env):
        one, rel, fl = u
        k = e["k"]
        if k == "asg" and P.field(f, e["l_"]) == "count": return [(e["op"] == "=" and const_int(e["r"]) == 1, rel, fl)]
        if k == "call" and e.get("q") == "lock_release":
            if not one: bad(f0, "count", e, "the lock is released with a count other than one: it stays locked or re-enters the pending path")
            return [(one, rel + 1, fl)]
        if k == "call" and e.get("q") == "lock_set_pending" and rel:
            return [(one, rel, True)]        # handed over to an outer lock (ownership checked by the foreign-write rule)
        if k == "call" and any(t.key in reach for t in prog.targets(e)):
            ctx.ok(R)
            if rel == 0: bad(f0, "locked-delivery", e, "deferred messages are delivered while the lock is still held")
            return [(one, rel, True)]
        return [u]
    ins, ex, _ = paths(f, (False, 0, False), step)
    for _ in (1,):
        for u in ex:
            if u[1] != 1: bad(f0, "release", None, "lock_release_pending() releases the lock %d times" % u[1])
            if not u[2]: bad(f0, "undelivered", None, "lock_release_pending() does not deliver the deferred messages on some path")
    # ------------------------------------------------------------------ set pending
    f0 = prog.fn("lock_set_pending"); f = P.inlined(f0)
    good = False
    for e in f.events():
        if e["k"] == "asg" and P.field(f, e["l_"]) == "count":
            c = strip(e["r"])
            good = (e["op"] == "|=" and P_const(prog, f, e["r"]) == pend) or (e["op"] == "=" and c[0] == "bi" and c[1] == "|" and any(P.field(f, x) == "count" for x in c[2:4]) and any(P_const(prog, f, x) == pend for x in c[2:4]))
    ctx.ok(R)
    if not good: bad(f0, "bit", None, "lock_set_pending() does not set the pending bit while preserving the count")
    # ------------------------------------------------------------------ guards
    for cls, ctor, dtor in (("lock_guard", "lock_acquire", "lock_release"), ("unlock_guard", "lock_release", "lock_acquire")):
        r = prog.rec(cls)
        for m in r["methods"]:
            if m.get("sm") in ("copyctor", "copyasg", "movector", "moveasg") and not m.get("deleted"):
                ctx.violation(R, "%s|%s%s" % (cls, m["sm"], tag), "%s:%d" % (r["file"], r["line"]), "%s can be copied: the lock would be released or acquired twice" % cls)
        for name, prim, isc in ((cls, ctor, True), ("~" + cls, dtor, False)):
            g0 = prog.fn(cls + "::" + name); g = P.inlined(g0)
            def step(u, e, blk, env):
                n, saved, cleared, restored = u
                k = e["k"]
                if k == "call" and e.get("q") in (ctor, dtor):
                    if e["q"] != prim: bad(g0, "wrong-primitive", e, "%s calls %s" % (g0.display, e["q"]))
                    if isc and cls == "unlock_guard" and not (saved and cleared): bad(g0, "pending", e, "the pending mark is not saved and cleared before the temporary release: deferred work would run or be lost in the middle of an outer critical section")
                    return [(n + 1, saved, cleared, restored)]
                if k == "asg":
                    c = g.canon(e["r"])
                    if P.field(g, e["l_"]) == "count":
                        if e["op"] == "&=" : return [(n, saved, n == 0, restored)]
                        if e["op"] == "=" and is_expr(c) and c[0] == "bi" and c[1] == "&": return [(n, saved, n == 0, restored)]
                        if e["op"] in ("|=", "="):
                            ok = any(x[0] == "m" and x[3] == cls and x[2] != "m_lock" for x in walk(c))
                            return [(n, saved, cleared, ok and n == 1 and (e["op"] == "|=" or any(P.field(g, x) == "count" for x in walk(e["r"]) if x[0] == "m")))]
                    else:
                        l = strip(e["l_"])
                        if l[0] == "m" and l[3] == cls and pending_expr(c): return [(n, not cleared and n == 0, cleared, restored)]
                if k == "minit" and e.get("init") is not None and pending_expr(g.canon(e["init"])): return [(n, True, cleared, restored)]
                return [u]
            def pending_expr(c):
                if not (is_expr(c) and c[0] == "bi" and c[1] == "&"): return False
                return any(P.field(g, x) == "count" for x in c[2:4]) and any(P_const(prog, g, x) == pend for x in c[2:4])
            ins, ex, _ = paths(g, (0, False, False, False), step)
            for _ in (1,):
                for u in ex:
                    ctx.ok(R)
                    if u[0] != 1: bad(g0, "count", None, "%s calls %s %d times on some path" % (g0.display, prim, u[0]))
                    if cls == "unlock_guard" and not isc and not u[3]: bad(g0, "restore", None, "the pending mark saved at the temporary release is not restored: queued messages are not delivered")
    # ------------------------------------------------------------------ identity of threads, initial state
    g0 = prog.fn("thread_id")
    for e in g0.events():
        if e["k"] == "ret":
            ctx.ok(R)
            x = e["e"]; okk = False
            while is_expr(x) and x[0] in ("ic", "cast"):
                if x[1] not in ("unsigned long", "uintptr_t", "void *", "unsigned long long"): break
                x = x[3]
            if is_expr(x) and x[0] == "ev" and g0.evi[x[1]].get("q") == "__builtin_thread_pointer": okk = True
            if is_expr(x) and x[0] == "u" and x[1] == "&":
                y = strip(x[2])
                okk = any(v.get("tls") and v["q"].split("::")[-1] == estr(y, g0) for v in prog.allvars) or any(d["k"] == "decl" and d.get("v") == (y[1] if y[0] == "v" else None) and d.get("tls") for d in g0.events())
            if not okk: bad(g0, "identity", e, "thread_id() is not a full-width value unique to the running thread")
    g0 = prog.fn("lock_init")
    zeroed = set()
    for e in P.inlined(g0).events():
        if e["k"] == "call" and P.field(g0, e.get("obj")) == "owner" and const_int(e["a"][0]) == 0: zeroed.add("owner")
        if e["k"] == "asg" and P.field(g0, e["l_"]) == "count" and const_int(e["r"]) == 0: zeroed.add("count")
    ctx.ok(R)
    if zeroed != {"owner", "count"}: bad(g0, "init", None, "lock_init() leaves %s uninitialized" % sorted({"owner", "count"} - zeroed))
    # fields may only be touched in the primitive, the log module and under ownership tests
    r = prog.rec("Lock")
    for fl in r["fields"]:
        if fl[0] == P.owner and not fl[1].startswith("std::atomic<unsigned long"): ctx.violation(R, "Lock|owner-type" + tag, "src/lock.h", "the owner word is not an atomic of pointer width")
    # foreign writes to lock fields
    for f in prog.repo_fns(("src/", "include/")):
        if f.file == "src/lock.h": continue
        for e in f.events():
            tgt = e.get("l_") if e["k"] == "asg" else e.get("e") if e["k"] == "inc" else None
            if tgt is not None and P.field(f, tgt):
                ctx.ok(R)
                # only allowed when this thread is known to own the lock (tested, or by contract of lock_release_pending)
                if f.q == "lock_release_pending": continue
                if not owned_at(P, f, e): bad(f, "foreign-write", e, "%s writes a field of a lock without having established that the calling thread owns it" % f.display)
            if e["k"] == "call" and e.get("obj") is not None and P.field(f, e["obj"]) == "owner" and not (e["q"].endswith("::load") or "operator unsigned" in e["q"] or "operator __integral" in e["q"]):
                bad(f, "foreign-write", e, "%s modifies the owner word outside of the lock primitive" % f.display)
    return P


def owned_at(P, f, e):
    def step(u, x, blk, env):
        if x is e: hit.append(u)
        return [u]
    hit = []
    def branch(u, facts, blk, i):
        sf = P.self_fact(f, facts)
        return u if sf is None else sf
    paths(f, False, step, branch)
    return bool(hit) and all(hit)


def P_const(prog, fn, e):
    c = const_int(e)
    if c is not None: return c
    e = strip(fn.canon(e))
    if is_expr(e) and e[0] == "g":
        v = prog.vars.get(e[1])
        if v is not None and v.get("init") is not None: return const_int(v["init"])
        if v is not None and v.get("val") is not None: return v["val"]
    if is_expr(e) and e[0] == "u" and e[1] == "~":
        x = P_const(prog, fn, e[2]); return None if x is None else (~x) & ((1 << 64) - 1)
    return None


def calls_user_log(prog, t):
    return any(e["k"] == "call" and not e.get("fn") and e.get("q") is None and "log_callback" in estr(t.canon(e.get("ce")), t) for e in t.events())


def reaches(prog, pred):
    """Keys of functions from which a function satisfying pred is reachable (including itself)."""
    seed = {t.key for t in prog.fns.values() if pred(t)}
    cal = prog.callers()
    work = list(seed)
    while work:
        k = work.pop()
        for f, e in cal.get(k, ()):
            if f.key not in seed: seed.add(f.key); work.append(f.key)
    return seed
