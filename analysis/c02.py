"""C02: lock balance on every path (normal and exceptional), one global acquisition order, no blocking wait while
the state lock is held, no discarded guards."""
from .core import *
from .locks import *

LOCKS = ("state.lock", "state.eval_lock", "state.alloc_free_lock", "log_mutex")
# blocking primitives of the worker pool, the driver and the standard library
WAITS = {"task_wait", "task_wait_and_release", "pool_destroy", "pool_set_size", "cuStreamSynchronize", "cuEventSynchronize", "cuCtxSynchronize",
         "std::thread::join", "std::condition_variable::wait", "drjit::parallel_for"}
# functions whose contract is to change the depth: exported lock/unlock pair and the abort path
BALANCE_EXEMPT = {
    "jit_state_lock": {"state.lock": 1}, "jit_state_unlock": {"state.lock": -1},
    "jitc_vfail": None,           # terminates the process after dropping the lock
    "lock_release_pending": None, # part of the lock itself (C23)
}
# roots that wait with the lock held by contract
WAIT_EXEMPT = {
    "jit_init": "initialization: no work exists", "jit_shutdown": "final drain: the library must not be used concurrently with shutdown",
    "jit_llvm_set_thread_count": "holds no lock",
}


def explicit_effect(fn, e):
    if e["k"] == "call" and e.get("q") in ACQ: return [(lock_id(fn, e["a"][0]), 1)]
    if e["k"] == "call" and e.get("q") in REL: return [(lock_id(fn, e["a"][0]), -1)]
    if e["k"] == "call" and e.get("q") == "std::mutex::lock": return [(lock_id(fn, e["obj"]), 1)]
    if e["k"] == "call" and e.get("q") == "std::mutex::unlock": return [(lock_id(fn, e["obj"]), -1)]
    return []


def may_throw_fns(prog):
    """Functions from which an exception can escape (throw reachable outside a catch-all)."""
    T = set()
    changed = True
    info = {}
    for f in prog.repo_fns(("src/", "include/")):
        if f.nothrow: continue
        H = f.handlers()
        catchall = set()
        for b in f.blocks.values():
            if b.label and b.label[0] == "catch" and (len(b.label) < 3 or b.label[2] in (None, "", "...")): catchall.add(b.label[1])
        direct, calls = False, []
        for e in f.events():
            if "try" in e and e["try"] in catchall: continue
            if e["k"] == "throw" or e.get("q") == "std::rethrow_exception": direct = True
            elif e["k"] in ("call", "ctor"):
                for t in prog.targets(e): calls.append(t.key)
        info[f.key] = (direct, calls)
    T = {k for k, (d, c) in info.items() if d}
    rev = defaultdict(set)
    for k, (d, c) in info.items():
        for x in c: rev[x].add(k)
    work = list(T)
    while work:
        k = work.pop()
        for c in rev[k]:
            if c not in T: T.add(c); work.append(c)
    return T


def closure_locks(prog, lm, f, e):
    """May the closure passed to a fork-join primitive acquire a lock?"""
    seen, work = set(), [k for a in e["a"] for k in callable_refs(prog, f, a)]
    if not work: return True
    while work:
        k = work.pop()
        if k in seen or k not in prog.fns: continue
        seen.add(k); fn = prog.fns[k]
        for x in fn.events():
            if any(d > 0 for _, d in lm.effect(fn, x)): return True
            for t in prog.targets(x): work.append(t.key)
            if x["k"] == "call":
                for a in x["a"]: work.extend(callable_refs(prog, fn, a))
    return False


def run(ctx):
    B = ctx.rule("balanced", "a function leaves every lock at its entry depth on every normal exit, and explicit acquire/release pairs are not interrupted by an exception")
    D = ctx.rule("named-guard", "every lock guard is bound to a variable whose scope covers the critical section (no discarded temporary)")
    O = ctx.rule("order", "acquisition edges between locks (held -> acquired) over all call paths form no cycle")
    W = ctx.rule("no-wait-while-held", "no path from an exported function reaches a blocking wait with the state lock held")
    prog = ctx.prog("full")
    lm = LockModel(prog)
    net = net_effects(prog, lm)
    throws = may_throw_fns(prog)
    acq = defaultdict(dict)    # fn -> {(L1, L2): (max rel depth of L1 at acquisition of L2, event, via)}
    waits = defaultdict(dict)  # fn -> {wait site id: (max rel depth, event, via)}
    callsites = defaultdict(list)
    flowless = {L: 0 for L in LOCKS}
    work = []
    for f in prog.repo_fns():
        if f.q in PRIMS or f.q in ("State::State", "State::~State"): continue
        manip = any(lm.effect(f, e) or any(net.get(t.key) for t in prog.targets(e)) for e in f.events())
        fl = {}
        if manip:
            for L in LOCKS: fl[L] = depth_flow(prog, lm, f, L, net)
            # ---- balance on normal exits
            if f.q not in BALANCE_EXEMPT:
                for L in LOCKS:
                    ins, tr = fl[L]
                    out = set()
                    for b, st in ins.items():
                        blk = f.blocks[b]
                        if f.exit in blk.succ and not dead_end(f, blk):
                            for e in blk.ev: st = tr(st, e, blk)
                            out |= st
                    ctx.ok(B)
                    if out and out != {0}:
                        ctx.violation(B, "%s|%s" % (f.display, L), "%s:%d" % (f.file, f.line), "%s returns with '%s' at relative depth %s on some path" % (f.display, L, sorted(out)))
                # ---- exceptions between explicit release/acquire
                if any(explicit_effect(f, e) for e in f.events()):
                    for L in LOCKS:
                        def tr2(st, e, b):
                            for l, x in explicit_effect(f, e):
                                if l == L: st = frozenset(y + x for y in st)
                            return st
                        ins = forward(f, frozenset([0]), tr2, lambda a, b: a | b)
                        for b, st in ins.items():
                            for e in f.blocks[b].ev:
                                if st != frozenset([0]) and "try" not in e:
                                    thr = e["k"] == "throw" or (e["k"] in ("call", "ctor") and any(t.key in throws and t.q not in PRIMS for t in prog.targets(e)))
                                    if thr:
                                        ctx.violation(B, "%s|%s|exception" % (f.display, L), f.loc(e), "an exception leaving %s from '%s' skips the matching %s of '%s'" % (f.display, evstr(e, f), "acquire" if min(st) < 0 else "release", L))
                                st = tr2(st, e, None)
        for e in f.events():
            if e["k"] == "ctor" and e["q"] in ("lock_guard::lock_guard", "unlock_guard::unlock_guard") or (e["k"] == "ctor" and e["ty"].startswith(("std::lock_guard", "std::unique_lock", "std::scoped_lock"))):
                bound = any(x["k"] in ("decl", "minit") and is_expr(strip(x.get("init"))) and ["ev", e.get("i")] in list(walk(x["init"])) for b in f.blocks.values() for x in b.ev)
                ctx.ok(D)
                if not bound: ctx.violation(D, "%s|%s" % (f.display, evstr(e, f)), f.loc(e), "lock guard '%s' is a temporary: the lock is released immediately" % evstr(e, f))
        # ---- acquisitions, waits, calls with relative depths
        for b in f.rpo():
            blk = f.blocks[b]
            st = {L: fl[L][0].get(b) for L in LOCKS} if manip else None
            if manip and any(v is None for v in st.values()): continue
            for e in blk.ev:
                d = {L: max(st[L]) for L in LOCKS} if manip else flowless
                for l, x in lm.effect(f, e):
                    # ordinary acquisition, not the re-acquisition at the end of a release scope
                    if x > 0 and l in LOCKS:
                        for L1 in LOCKS:
                            if L1 != l and not (e["k"] == "dtor"):
                                put(acq[f.key], (L1, l), d[L1], e, None)
                            elif L1 != l and e["k"] == "dtor":
                                put(acq[f.key], (L1, l), d[L1], e, None)
                if e["k"] == "call":
                    q = e.get("q") or estr(e.get("ce"), f)
                    if q == "drjit::parallel_for" and not closure_locks(prog, lm, f, e): q = None  # waits for its own lock-free closure only
                    if q in WAITS:
                        ctx.ok(W, 1, "%s in %s (%s)" % (q, f.display, f.loc(e)))
                        put(waits[f.key], (f.key, q, f.loc(e)), d["state.lock"], e, None)
                for t in prog.targets(e):
                    if t.q not in PRIMS: callsites[t.key].append((f.key, d, e))
                if e["k"] in ("call", "ctor") and (e.get("q") or estr(e.get("ce"), f)) not in ASYNC_SUBMIT | {"std::thread::thread", "jitc_var_set_callback"}:
                    tk = {t.key for t in prog.targets(e)}
                    for a in e["a"]:
                        for kk in callable_refs(prog, f, a):
                            if kk in prog.fns and kk not in tk: callsites[kk].append((f.key, d, e))
                if manip:
                    for L in LOCKS: st[L] = fl[L][1](st[L], e, blk)
    # ---- propagate to callers
    work = list(set(acq) | set(waits))
    n = 0
    while work:
        k = work.pop(); n += 1
        if n > 500000: raise AnalysisBroken("lock propagation did not converge")
        for c, d, e in callsites[k]:
            ch = False
            for (L1, l), (dd, _, _) in list(acq[k].items()):
                ch |= put(acq[c], (L1, l), clamp(dd + d[L1]), e, k)
            for w, (dd, _, _) in list(waits[k].items()):
                ch |= put(waits[c], w, clamp(dd + d["state.lock"]), e, k)
            if ch: work.append(c)
    pub = {d["key"] for d in prog.decls if d["file"].startswith("include/")}
    roots = {f.key: f.q for f in prog.repo_fns() if f.key in pub}
    for t, f, e in async_roots(prog): roots[t.key] = t.display
    edges = {}
    for r, name in roots.items():
        for (L1, l), (dd, e, via) in acq.get(r, {}).items():
            if dd >= 1: edges.setdefault((L1, l), (r, name))
        if name in WAIT_EXEMPT: continue
        for w, (dd, e, via) in waits.get(r, {}).items():
            if dd >= 1:
                path, kk = [], r
                while kk is not None and len(path) < 60:
                    _, e2, nk = waits[kk][w]
                    path.append("%s:%s" % (prog.fns[kk].display, e2["l"])); kk = nk
                fn = prog.fns[w[0]]
                ctx.violation(W, "%s|%s" % (fn.display, w[1]), w[2], "blocking wait '%s' in %s is reached with the state lock held: %s" % (w[1], fn.display, " -> ".join(path)))
    for (a, b), (r, name) in edges.items():
        ctx.ok(O, 1, "%s -> %s (e.g. via %s)" % (a, b, name))
    # cycles
    def reach(a, seen):
        for (x, y) in edges:
            if x == a and y not in seen: seen.add(y); reach(y, seen)
        return seen
    for (a, b) in sorted(edges):
        if a in reach(b, set()):
            r, name = edges[(a, b)]
            path, kk = [], r
            while kk is not None and len(path) < 60:
                _, e2, nk = acq[kk][(a, b)]
                path.append("%s:%s" % (prog.fns[kk].display, e2["l"])); kk = nk
            ctx.violation(O, "%s->%s" % (a, b), path[-1], "'%s' is acquired while '%s' is held, contrary to another path: %s" % (b, a, " -> ".join(path)))
    ctx.floor(B, 300); ctx.floor(D, 250); ctx.floor(O, 2); ctx.floor(W, 8)
    ctx.assume("lock depths are tracked relative to function entry in the interval [-3,3]")


def clamp(x): return max(-3, min(3, x))


def put(m, k, d, e, via):
    o = m.get(k)
    if o is None or d > o[0]: m[k] = (d, e, via); return True
    return False
