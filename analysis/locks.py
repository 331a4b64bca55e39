"""Lock model: which lock an expression denotes, per-function lock depth, requirement propagation."""
from collections import defaultdict
from .core import *

ACQ = {"lock_acquire"}
REL = {"lock_release"}


def lock_id(fn, e):
    """Name of the Lock object denoted by expression e."""
    e = fn.canon(e)
    if is_expr(e) and e[0] == "u" and e[1] in ("&", "*"): e = e[2]
    if is_expr(e) and e[0] == "m": return estr(e, fn)
    if is_expr(e) and e[0] in ("g", "v"): return estr(e, fn)
    return "?" + estr(e, fn)


class LockModel:
    """Effect of one event on lock depths: list of (lock, delta)."""

    def __init__(s, prog):
        s.prog = prog
        s.guards = {}

    def guard_vars(s, fn):
        g = getattr(fn, "_guards", None)
        if g is not None: return g
        g = {}
        for b in fn.blocks.values():
            for e in b.ev:
                if e["k"] == "decl":
                    t = e["ty"].replace("const ", "")
                    if t in ("lock_guard", "unlock_guard"):
                        i = strip(e["init"])
                        ev = fn.evi.get(i[1]) if is_expr(i) and i[0] == "ev" else None
                        if ev is not None and ev["a"]:
                            g[e["v"]] = (lock_id(fn, ev["a"][0]), 1 if t == "lock_guard" else -1)
                    elif "std::lock_guard" in t or "std::unique_lock" in t or "std::scoped_lock" in t:
                        i = strip(e["init"])
                        ev = fn.evi.get(i[1]) if is_expr(i) and i[0] == "ev" else None
                        if ev is not None and ev["a"]: g[e["v"]] = (lock_id(fn, ev["a"][0]), 1)
        fn._guards = g
        return g

    def effect(s, fn, e):
        k = e["k"]
        if k == "decl":
            g = s.guard_vars(fn).get(e["v"])
            if g: return [g]
        elif k == "dtor":
            g = s.guard_vars(fn).get(e.get("v"))
            if g: return [(g[0], -g[1])]
        elif k == "call":
            q = e.get("q")
            if q in ACQ: return [(lock_id(fn, e["a"][0]), 1)]
            if q in REL: return [(lock_id(fn, e["a"][0]), -1)]
            if q in ("std::mutex::lock",): return [(lock_id(fn, e["obj"]), 1)]
            if q in ("std::mutex::unlock",): return [(lock_id(fn, e["obj"]), -1)]
        return []


PRIMS = {"lock_acquire", "lock_release", "lock_init", "lock_destroy", "lock_set_pending", "lock_guard::lock_guard",
         "lock_guard::~lock_guard", "unlock_guard::unlock_guard", "unlock_guard::~unlock_guard", "lock_release_pending"}


def depth_flow(prog, lm, fn, lock, net=None):
    """Forward analysis of the depth of `lock` relative to function entry.
    Returns (in-states {block: frozenset(depths)}, imbalance list)."""
    net = net or {}

    def tr(st, e, b):
        d = 0
        for l, x in lm.effect(fn, e):
            if l == lock: d += x
        if d == 0 and e["k"] in ("call", "ctor") and e.get("q") not in PRIMS:
            for t in prog.targets(e):
                n = net.get(t.key, {}).get(lock, 0)
                if n: d += n; break
        if d: st = frozenset(max(-3, min(3, x + d)) for x in st)
        return st
    return forward(fn, frozenset([0]), tr, lambda a, b: a | b), tr


def net_effects(prog, lm, locks=("state.lock", "state.eval_lock", "state.alloc_free_lock")):
    """Net lock effect of functions that manipulate locks by explicit acquire/release calls."""
    net = {}
    cand = [f for f in prog.repo_fns() if any(e["k"] == "call" and e.get("q") in ACQ | REL for e in f.events()) and f.q not in PRIMS]
    for f in cand:
        for l in locks:
            ins, tr = depth_flow(prog, lm, f, l)
            out = set()
            for b, st in ins.items():
                blk = f.blocks[b]
                if f.exit in blk.succ and not dead_end(f, blk):
                    for e in blk.ev: st = tr(st, e, blk)
                    out |= st
            if len(out) == 1 and 0 not in out: net.setdefault(f.key, {})[l] = out.pop()
    return net


def sync_lambda_calls(prog, fn, e):
    """Lambdas handed to code outside the repository (std::sort, ...): executed at the call, unless async."""
    out = []
    if e["k"] in ("call", "ctor"):
        for a in e["a"]:
            for x in walk(a):
                if x[0] == "lam" and x[1] in prog.fns: out.append(prog.fns[x[1]])
                elif x[0] == "v":
                    u = fn.unique_def(x[1])
                    if is_expr(u) and strip(u)[0] == "lam" and strip(u)[1] in prog.fns: out.append(prog.fns[strip(u)[1]])
    return out


ASYNC_SUBMIT = {"task_submit_dep", "task_submit", "cuLaunchHostFunc"}


def callable_refs(prog, fn, e):
    """Function keys referenced (address taken / lambda) in expression e, through conversions and locals."""
    out = []
    def go(e, d=0):
        if d > 6: return
        for x in walk(e):
            if x[0] == "fn": out.append(x[1])
            elif x[0] == "lam": out.append(x[1])
            elif x[0] == "ev":
                ev = fn.evi.get(x[1])
                if ev is not None and ev["k"] in ("call", "ctor"):
                    if ev.get("q", "").startswith("lambda"):  # lambda -> function pointer conversion
                        if ev.get("obj"): go(ev["obj"], d + 1)
                        for a in ev["a"]: go(a, d + 1)
                    elif ev["k"] == "ctor":
                        for a in ev["a"]: go(a, d + 1)
            elif x[0] == "v":
                u = fn.unique_def(x[1])
                if u is not None: go(u, d + 1)
    go(e)
    return out


def async_roots(prog):
    """Functions executed by worker threads / driver threads: (Fn, submitting Fn, event)."""
    out = []
    for f in prog.repo_fns():
        for b in f.blocks.values():
            for e in b.ev:
                if e["k"] != "call": continue
                q = e.get("q") or estr(e.get("ce"), f)
                if q in ASYNC_SUBMIT:
                    for a in e["a"]:
                        for k in callable_refs(prog, f, a):
                            if k in prog.fns: out.append((prog.fns[k], f, e))
    return out


FREE = -100


class LockFlow:
    """Maximum relative depth of every lock at every event + call edges carrying depths; sites can be propagated to roots."""

    def __init__(s, prog, locks=("state.lock", "state.eval_lock", "state.alloc_free_lock", "log_mutex"), skip=()):
        from .lockprim import Prim
        s.prog, s.locks = prog, locks
        s.lm = lm = LockModel(prog)
        s.net = net_effects(prog, lm)
        s.prim = Prim(prog)
        s.calls = defaultdict(list)    # callee key -> [(caller key, depths, event)]
        s.at = {}                      # (fn key, id(event)) -> depths
        zero = {L: 0 for L in locks}
        subm = {f.key for f in prog.repo_fns() if any(t == "(lambda" or "lambda at" in t for t in f.ptypes) and any(e["k"] == "call" and e.get("q") in ASYNC_SUBMIT for e in f.events())}
        wrappers = set()
        for f in prog.repo_fns():
            for e in f.events():
                if e["k"] == "call" and e.get("fn") in subm:
                    for a in e["a"]:
                        wrappers.update(kk for kk in callable_refs(prog, f, a) if kk in prog.fns)
        for f in prog.repo_fns(("src/", "include/")):
            if f.q in PRIMS and f.q != "lock_release_pending" or f.q in ("State::State", "State::~State"): continue
            manip = any(lm.effect(f, e) or any(s.net.get(t.key) for t in prog.targets(e)) or (e["k"] == "call" and s.prim.field(f, e.get("obj")) == "owner") for e in f.events() if e["k"] in ("call", "ctor", "decl", "dtor"))
            fl = {L: s.flow(f, L) for L in locks} if manip else None
            for b in f.rpo():
                blk = f.blocks[b]
                st = {L: fl[L][0].get(b) for L in locks} if manip else None
                if manip and any(v is None for v in st.values()): continue
                for e in blk.ev:
                    d = {L: max(st[L]) for L in locks} if manip else zero
                    if e["k"] in ("call", "ctor", "new", "dtor"):
                        s.at[(f.key, id(e))] = d
                        tk = set()
                        for t in prog.targets(e):
                            if t.q not in PRIMS: s.calls[t.key].append((f.key, d, e)); tk.add(t.key)
                        if e["k"] in ("call", "ctor") and (e.get("q") or estr(e.get("ce"), f)) not in ASYNC_SUBMIT | {"std::thread::thread", "jitc_var_set_callback"} | set(skip):
                            for a in e["a"]:
                                for kk in callable_refs(prog, f, a):
                                    if kk in prog.fns and kk not in tk: s.calls[kk].append((f.key, d, e))
                    if manip:
                        for L in locks: st[L] = fl[L][1](st[L], e, blk)
        # callables handed to a submission wrapper run later, on another thread, without the submitter's locks
        for t in wrappers:
            for c, d, e in s.calls.pop(t, []): pass
        pub = {d["key"] for d in prog.decls if d["file"].startswith("include/")}
        s.roots = {f.key: f.q for f in prog.repo_fns() if f.key in pub}
        for t, f, e in async_roots(prog): s.roots[t.key] = t.display
        for t in wrappers: s.roots[t] = prog.fns[t].display

    def flow(s, fn, lock):
        prog, lm, net = s.prog, s.lm, s.net
        def tr(st, e, b):
            d = 0
            for l, x in lm.effect(fn, e):
                if l == lock: d += x
            if d == 0 and e["k"] in ("call", "ctor") and e.get("q") not in PRIMS:
                for t in prog.targets(e):
                    n = net.get(t.key, {}).get(lock, 0)
                    if n: d += n; break
            if e["k"] == "asg" and s.prim.field(fn, e["l_"]) == "count" and estr(fn.canon(strip(e["l_"])[1]), fn) == lock and e["op"] == "=" and const_int(e["r"]) == 1:
                return frozenset([FREE + 1])      # absolute depth one
            if d: st = frozenset(max(-3, min(3, x + d)) if x > -50 else x + d for x in st)
            return st
        def edge(st, blk, i):
            sf = s.prim.self_fact(fn, edge_facts(fn, blk, i), lock)
            if sf is False: return frozenset([FREE])
            return st
        return forward(fn, frozenset([0]), tr, lambda a, b: a | b, edge), tr

    def propagate(s, sites, cut=None):
        """sites: [(fn key, event, name)] -> list of (name, root, lock, path) for sites reached with a lock held."""
        hold = defaultdict(dict)
        def put(k, key, d, e, via):
            o = hold[k].get(key)
            if o is None or d > o[0]: hold[k][key] = (d, e, via); return True
            return False
        work = []
        s.site_fn = {name: k for k, e, name in sites}
        for k, e, name in sites:
            d = s.at.get((k, id(e)))
            if d is None: continue
            for L in s.locks:
                put(k, (name, L), d[L], e, None)
            work.append(k)
        n = 0
        while work:
            k = work.pop(); n += 1
            if n > 500000: raise AnalysisBroken("lock propagation did not converge")
            for c, d, e in s.calls[k]:
                ch = False
                for key, (dd, _, _) in list(hold[k].items()):
                    if cut and cut(s.prog.fns[c].q, key[1]): continue
                    if s.site_fn.get(key[0]) == c: continue   # recursive evaluation of the same construct
                    x = dd + d[key[1]] if dd > -50 else dd
                    if d[key[1]] < -50: x = d[key[1]]
                    ch |= put(c, key, x if x < -50 else max(-3, min(3, x)), e, k)
                if ch: work.append(c)
        out = []
        for r, name in s.roots.items():
            for (site, L), (dd, e, via) in hold.get(r, {}).items():
                if dd >= 1 or (dd < -50 and dd > FREE):
                    path, kk = [], r
                    seen = set()
                    while kk is not None and kk not in seen:
                        seen.add(kk)
                        _, e2, nk = hold[kk][(site, L)]
                        path.append("%s:%s" % (s.prog.fns[kk].display, e2["l"])); kk = nk
                    out.append((site, name, L, path))
        reached = {site for r in s.roots for (site, L) in hold.get(r, {})}
        return out, reached
