"""C03: application code (function pointers that enter through the public interface) is only invoked with no library
lock held; queued log text is delivered in order, exactly once, after the outermost release."""
from .core import *
from .locks import *
from . import lockprim


def fptr(t): return "(*)" in t or "(*" in t or t.split("::")[-1].replace("const ", "").strip() in ("LogCallback", "LogDeferCallback")


def taint(prog):
    """Places holding function pointers supplied by the application: ('p', fn key, param id) / ('f', record, field) / ('g', global)."""
    pub = {d["key"] for d in prog.decls if d["file"].startswith("include/")}
    T = {}
    for f in prog.repo_fns():
        if f.key in pub:
            for p, t in zip(f.params, f.ptypes):
                if fptr(t): T[("p", f.key, p)] = f.q
    fns = prog.repo_fns(("src/", "include/"))
    parent = {l: f for f in fns for l in f.lams}

    def src(f, e, d=0):
        """taint source of expression e or None"""
        e = strip(e)
        if not is_expr(e) or d > 8: return None
        if e[0] == "v":
            g = f
            while g is not None:
                if ("p", g.key, e[1]) in T: return T[("p", g.key, e[1])]
                if ("l", g.key, e[1]) in T: return T[("l", g.key, e[1])]
                g = parent.get(g.key)
            return None
        if e[0] == "m": return T.get(("f", e[3], e[2]))
        if e[0] == "g": return T.get(("g", e[1]))
        if e[0] == "u" and e[1] in ("*", "&"): return src(f, e[2], d + 1)
        if e[0] == "ev":
            ev = f.evi.get(e[1])
            if ev is not None and ev["k"] == "asg": return src(f, ev["r"], d + 1)
            if ev is not None and ev["k"] == "call" and ev.get("obj") is not None and ev["q"].split("::")[-1] in ("load", "exchange", "get"): return src(f, ev["obj"], d + 1)
        if e[0] == "?": return src(f, e[2], d + 1) or src(f, e[3], d + 1)
        return None
    changed = True
    while changed:
        changed = False
        def add(k, v):
            nonlocal changed
            if k not in T: T[k] = v; changed = True
        for f in fns:
            for e in f.events():
                if e["k"] == "asg" and e["op"] == "=":
                    s = src(f, e["r"])
                    if s:
                        l = strip(e["l_"])
                        if l[0] == "m": add(("f", l[3], l[2]), s)
                        elif l[0] == "g": add(("g", l[1]), s)
                        elif l[0] == "v": add(("l", f.key, l[1]), s)
                elif e["k"] == "decl" and is_expr(strip(e.get("init"))):
                    s = src(f, e["init"])
                    if s and fptr(e["ty"]) : add(("l", f.key, e["v"]), s)
                elif e["k"] in ("call", "ctor"):
                    for t in prog.targets(e):
                        for i, a in enumerate(e["a"]):
                            if i < len(t.params) and fptr(t.ptypes[i]):
                                s = src(f, a)
                                if s: add(("p", t.key, t.params[i]), s)
    return T, src


def run(ctx):
    U = ctx.rule("callback-unlocked", "no call path from an exported function or asynchronous entry invokes an application-supplied function pointer while a library lock is held")
    I = ctx.rule("internal-callback", "a callback invoked with the lock held was registered by the library itself")
    Q = ctx.rule("log-queue", "queued messages are appended at the end, followed on every path by a delivery request, taken out as a whole under the queue mutex and delivered once each in order")
    P = ctx.rule("pending-release", "the pending mark survives temporary releases and triggers delivery after the outermost release")
    A = ctx.rule("snapshot", "a callback record is copied before the lock protecting it is dropped")
    for cfg in (("full",) if ctx.tier == "quick" else ("full", "llvm", "debug")):
        prog = ctx.prog(cfg)
        analyse(ctx, prog, U, I, Q, A)
    for cfg in ("full", "stdmutex"): lockprim.check_prims(ctx, P, ctx.prog(cfg), cfg)
    ctx.floor(U, 5); ctx.floor(Q, 3); ctx.floor(P, 20); ctx.floor(I, 5)


def analyse(ctx, prog, U, I, Q, A):
    T, src = taint(prog)
    lf = LockFlow(prog)
    sites = []
    for f in prog.repo_fns(("src/", "include/")):
        for e in f.events():
            if e["k"] != "call" or e.get("fn") or e.get("q") is not None: continue
            s = src(f, e.get("ce"))
            if not s: continue
            # invoked under the lock only if flagged as the library's own callback
            if internal_at(f, e):
                ctx.ok(I, 1, "%s: '%s' runs with the lock held for internal callbacks only" % (f.loc(e), evstr(e, f))); continue
            ctx.ok(U, 1, "%s: '%s' (from %s)" % (f.loc(e), evstr(e, f), s))
            sites.append((f.key, e, "%s|%s" % (f.display, estr(f.canon(e["ce"]), f))))
            # the record was read before the lock was dropped
            gv = lf.lm.guard_vars(f)
            if any(x[1] == -1 for x in gv.values()) and strip(e["ce"])[0] == "m":
                ctx.ok(A)
                ctx.violation(A, "%s|%s" % (f.display, estr(e["ce"], f)), f.loc(e), "the callback record '%s' is read after the lock that protects it was released: another thread may relocate it" % estr(e["ce"], f))
    loc = {x[2]: "%s" % prog.fns[x[0]].loc(x[1]) for x in sites}
    # jitc_vfail: the process is about to abort; only the main lock, which other threads spin on, is dropped first
    bad, reached = lf.propagate(sites, lambda q, L: q == "jitc_vfail" and L != "state.lock")
    for site, root, L, path in bad:
        if site.startswith("jitc_vfail|") and L != "state.lock": continue
        ctx.violation(U, "%s|%s" % (site, L), loc[site], "application callback invoked while '%s' is held: %s" % (L, " -> ".join(path)))
    # ---- registration of internal callbacks
    for f in prog.repo_fns():
        for e in f.events():
            if e["k"] == "call":
                for t in prog.targets(e):
                    for i, a in enumerate(e["a"]):
                        if i < len(t.params) and fptr(t.ptypes[i]):
                            s = src(f, a)
                            for j, b in enumerate(e["a"]):
                                if j < len(t.params) and t.ptypes[j] == "bool" and "internal" in t.params[j]:
                                    ctx.ok(I)
                                    if s and const_int(b) != 0:
                                        ctx.violation(I, "%s|%s" % (f.display, t.q), f.loc(e), "%s registers an application callback as internal: it would run with the lock held" % f.display)
    # the flag stored next to a callback is the one the registration asked for
    for f in prog.repo_fns():
        for e in f.events():
            if e["k"] == "asg" and e["op"] == "=" and strip(e["l_"])[0] == "m" and ("f", strip(e["l_"])[3], strip(e["l_"])[2]) in T and strip(e["l_"])[3] == "VariableExtra":
                r = strip(e["r"])
                if not src(f, e["r"]) or r[0] == "m" and r[2] == strip(e["l_"])[2]: continue
                ctx.ok(I)
                fl = [x for x in f.events() if x["k"] == "asg" and strip(x["l_"])[0] == "m" and strip(x["l_"])[3] == "VariableExtra" and "internal" in strip(x["l_"])[2]]
                if not fl: ctx.violation(I, "%s|noflag" % f.display, f.loc(e), "a callback is registered without recording whether it is internal")
                for x in fl:
                    c = f.canon(x["r"])
                    if not (c[0] == "v" and c[1] in f.params) and const_int(c) != 0:
                        ctx.violation(I, "%s|flag" % f.display, f.loc(x), "a registered callback is marked internal regardless of who registers it")
    # ---- queue
    gq = [q for q, v in prog.vars.items() if v["file"] == "src/log.cpp" and "vector" in v["ty"] and "LogMessage" in v["ty"]] or \
         [q for q, v in prog.vars.items() if v["file"] == "src/log.cpp" and any(c in v["ty"] for c in ("vector", "deque", "list"))]
    if not gq: raise AnalysisBroken("log queue not found")
    q = gq[0]
    deliver = lockprim.reaches(prog, lambda t: t.file.startswith("src/") and any(k == t.key and "log_callback" in n for k, e, n in sites))
    direct = {k for k, e, n in sites if prog.fns[k].file == "src/log.cpp"}
    deliver = set(direct)
    for _ in range(4):
        for f in prog.repo_fns():
            if f.file == "src/log.cpp" and any(t.key in deliver for e in f.events() for t in prog.targets(e)) and f.q not in ("jitc_vfail",): deliver.add(f.key)
    Pm = lf.prim
    for f in prog.repo_fns():
        refs = [e for e in f.events() if any(x == ["g", q] for key in ("obj", "a", "l_", "r", "init", "e") if e.get(key) is not None for x in walk(e[key] if key != "a" else ["il", ""] + e[key]))]
        if not refs: continue
        pushes = []
        for e in refs:
            if e["k"] == "call" and e.get("obj") is not None and strip(e["obj"]) == ["g", q]:
                m = e["q"].split("::")[-1]
                if m in ("push_back", "emplace_back"): pushes.append(e); ctx.ok(Q, 1, "%s: append" % f.loc(e))
                elif m in ("swap",): ctx.ok(Q, 1, "%s: drain" % f.loc(e)); drain(ctx, Q, prog, f, e, e["a"][0], src)
                elif m == "operator=": pass
                elif m in ("size", "empty", "reserve", "shrink_to_fit", "begin", "end", "cbegin", "cend", "capacity"): pass
                elif m in ("clear",): 
                    # allowed only after the contents were moved out
                    if not any("move" in (x.get("q") or "") or x["k"] == "ctor" and x.get("move") for x in refs): ctx.violation(Q, "%s|%s" % (f.display, m), f.loc(e), "queued messages are discarded")
                else: ctx.violation(Q, "%s|%s" % (f.display, m), f.loc(e), "queued messages are reordered or dropped by '%s'" % m)
            elif e["k"] == "call" and e.get("obj") is not None and e["q"].endswith("::swap") and any(strip(a) == ["g", q] for a in e["a"]):
                ctx.ok(Q, 1, "%s: drain" % f.loc(e)); drain(ctx, Q, prog, f, e, e["obj"], src)
            elif e["k"] == "call" and e.get("q", "").endswith("::operator="):
                drain(ctx, Q, prog, f, e, e["obj"] if e.get("obj") is not None else e["a"][0], src); copied(ctx, Q, f, e, q, refs)
            elif e["k"] == "ctor" and e.get("copy"): copied(ctx, Q, f, e, q, refs)
            elif e["k"] == "decl": drain(ctx, Q, prog, f, e, ["v", e["v"]], src)
            elif e["k"] == "call" and e.get("q", "").startswith("std::swap"):
                other = [a for a in e["a"] if strip(a) != ["g", q]]
                if other: drain(ctx, Q, prog, f, e, other[0], src)
        for pe in pushes:
            # after the append: every path requests or performs delivery
            def step(u, e, blk, env):
                pushed, owned, done = u
                if e is pe: return [(True, owned, False)]
                if e["k"] == "call":
                    if e.get("q") == "lock_set_pending":
                        if owned != lock_id(f, e["a"][0]): ctx.violation(Q, "%s|pending-unowned" % f.display, f.loc(e), "the pending mark is set by a thread that does not hold the lock")
                        return [(pushed, owned, True)]
                    if any(t.key in deliver for t in prog.targets(e)):
                        return [(pushed, owned, True)]
                return [u]
            def branch(u, facts, blk, i):
                own = u[1]
                for L in ("state.lock", "state.eval_lock"):
                    sf = Pm.self_fact(f, facts, L)
                    if sf is True: own = L
                    elif sf is False and own in (L, None): own = False
                return (u[0], own, u[2])
            ins, ex, _ = paths(f, (False, None, False), step, branch)
            for u in ex:
                ctx.ok(Q)
                if u[0] and not u[2]: ctx.violation(Q, "%s|unrequested" % f.display, f.loc(pe), "a message is queued but on some path neither delivered nor marked as pending")


def internal_at(f, e):
    """dominated by a test that the callback is internal"""
    hit = []
    def step(u, x, blk, env):
        if x is e: hit.append(u)
        return [u]
    def branch(u, facts, blk, i):
        for c, v in facts:
            c = f.canon(c)
            if is_expr(c) and c[0] == "m" and "internal" in c[2]: u = v
        return u
    paths(f, "?", step, branch)
    return bool(hit) and all(x is True for x in hit)


def drain(ctx, Q, prog, f, ev, local, src):
    """messages moved out of the queue into `local`: each is handed to the callback once, in order"""
    l = strip(local)
    if l[0] != "v":
        return
    cbs = [(b, e) for b in f.rpo() for e in f.blocks[b].ev if e["k"] == "call" and not e.get("fn") and e.get("q") is None and src(f, e.get("ce"))]
    if len(cbs) != 1:
        ctx.violation(Q, "%s|sites" % f.display, f.loc(ev), "the drained messages are handed to the callback at %d call sites" % len(cbs)); return
    blk, ce = cbs[0]
    # the local is the range of a loop whose element is passed on
    for e in f.events():
        if e["k"] == "call" and e.get("obj") is not None:
            o = f.canon(e["obj"])
            m = e["q"].split("::")[-1]
            if o == l and m in ("rbegin", "crbegin", "pop_back", "back"): ctx.violation(Q, "%s|order" % f.display, f.loc(e), "queued messages are delivered in reverse order")
            if o == l and m in ("clear", "erase", "resize"): 
                ctx.violation(Q, "%s|dropped" % f.display, f.loc(e), "drained messages are dropped before delivery") if not after(f, ce, e) else None
    # loop advance: exactly once per delivery, no message skipped
    L = loops_of(f, blk)
    ctx.ok(Q)
    if len(L) != 1:
        ctx.violation(Q, "%s|loop" % f.display, f.loc(ce), "the callback is invoked in %d nested loops over the drained messages" % len(L)); return
    head, body, latches = L[0]
    dec = {strip(e["e"])[1] for e in f.events() if e["k"] == "inc" and e["op"] == "--" and strip(e["e"])[0] == "v"} | {strip(e["l_"])[1] for e in f.events() if e["k"] == "asg" and e["op"] == "-=" and strip(e["l_"])[0] == "v"}
    for x in body:
        for e in f.blocks[x].ev:
            for key in ("a", "init", "r", "obj"):
                if e.get(key) is None: continue
                for y in walk(e[key] if key != "a" else ["il", ""] + e[key]):
                    if y[0] == "v" and y[1] in dec: ctx.violation(Q, "%s|order" % f.display, f.loc(e), "queued messages are delivered in reverse order"); break
    cb = f.canon(ce["ce"])
    def null_cb(facts):
        for c, v in facts:
            c = f.canon(c)
            if c == cb and not v: return True
            if is_expr(c) and c[0] == "bi" and c[1] in ("==", "!=") and (f.canon(c[2]) == cb and const_int(c[3]) == 0) and v == (c[1] == "=="): return True
        return False
    def step(u, e, b, env): return ["d" if e is ce else u]
    def branch(u, facts, b, i):
        t = b.succ[i]
        if b.id in body and t == head and u == "n": ctx.violation(Q, "%s|skipped" % f.display, f.loc(ce), "a drained message can be skipped")
        if b.id in body and t not in body and t is not None:
            if b.id != head and not null_cb(facts) and not is_cond(b, head): ctx.violation(Q, "%s|abandoned" % f.display, f.loc(ce), "delivery stops before all drained messages were handed over")
            return "o"
        if t == head: return "n"
        return "x" if null_cb(facts) else u
    def is_cond(b, head):
        # the loop test may be split into several blocks before the body proper
        x = b.id
        for _ in range(4):
            if x == head: return True
            ps = [p for p in f.blocks[x].pred if p in body]
            if len(ps) != 1 or any(e["k"] == "call" and e is ce for e in f.blocks[x].ev): return False
            if f.blocks[ps[0]].term and ps[0] != head: return False
            x = ps[0]
        return False
    ins, ex, _ = paths(f, "o", step, branch, exc=lambda u, e: "d" if e is ce else u, track=False)


def copied(ctx, Q, f, e, q, refs):
    src = e["a"][-1]
    if strip(src) == ["g", q] and not any(x["k"] == "call" and strip(x.get("obj")) == ["g", q] and x["q"].endswith("::clear") for x in refs):
        ctx.violation(Q, "%s|copied" % f.display, f.loc(e), "the queued messages are copied without being removed: they would be delivered again")


def after(f, a, b):
    seen = []
    for e in f.events():
        if e is a: seen.append("a")
        if e is b: return bool(seen)
    return False


def loops_of(f, b):
    """natural loops containing block b: [(header, body, latches)]"""
    dom = dominators(f)
    out = {}
    for x in f.rpo():
        for t in f.blocks[x].succ:
            if t is not None and t in dom.get(x, ()):      # back edge x -> t
                body, work = {t, x}, [x] if x != t else []
                while work:
                    y = work.pop()
                    ps = list(f.blocks[y].pred)
                    if f.blocks[y].label and f.blocks[y].label[0] == "catch":
                        ps += [z.id for z in f.blocks.values() if any(e.get("try") == f.blocks[y].label[1] for e in z.ev)]
                    for p in ps:
                        if p not in body and p in dom: body.add(p); work.append(p)
                o = out.setdefault(t, (t, set(), set()))
                o[1].update(body); o[2].add(x)
    return [o for o in out.values() if b in o[1]]


def dominators(f):
    R = f.rpo(); allb = set(R)
    H = f.handlers()
    preds = {b: set(p for p in f.blocks[b].pred if p in allb) for b in R}
    for b in R:
        for e in f.blocks[b].ev:
            if "try" in e:
                for h in H.get(e["try"], []):
                    if h in preds: preds[h].add(b)
    dom = {b: set(allb) for b in R}; dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for b in R:
            if b == f.entry: continue
            ps = [dom[p] for p in preds[b]]
            n = (set.intersection(*ps) if ps else set()) | {b}
            if n != dom[b]: dom[b] = n; ch = True
    return dom
