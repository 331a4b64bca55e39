"""C01: lockset analysis.  Every shared mutable object must be accessed, on every path from every exported
function and every asynchronous entry point, at a program point where one and the same lock is held."""
from .core import *
from .locks import *

LOCKS = ("state.lock", "state.eval_lock", "state.alloc_free_lock", "log_mutex")


def shared_refs(fn, e, owner="State"):
    """Shared objects mentioned in e: 'state.<field>' (any access to a field of the State record) or '<global>'."""
    out = []
    def go(e):
        if not isinstance(e, list) or not e: return
        if isinstance(e[0], str):
            k = e[0]
            if k == "m":
                if e[3] == owner: out.append("state." + e[2])
                go(e[1]); return
            if k == "g":
                if e[1] != "state": out.append(e[1])
                return
            if k in ("i", "s", "f", "e", "v", "fn", "b", "this", "null", "sizeof", "zero", "ev", "lam"): return
            for x in e[1:]:
                if isinstance(x, list): go(x)
            return
        for x in e: go(x)
    go(e)
    return out


def write_root(fn, e):
    """Object written by an assignment/increment/mutating call event, or None."""
    MUT = ("push_back", "emplace_back", "pop_back", "clear", "erase", "erase_fast", "resize", "swap", "insert", "emplace",
           "try_emplace", "operator=", "reset", "release", "append", "reserve", "put")
    k = e["k"]
    x = None
    if k == "asg": x = e["l_"]
    elif k == "inc": x = e["e"]
    elif k == "call" and e.get("obj") is not None and (e.get("q") or "").split("::")[-1] in MUT: x = e["obj"]
    elif k == "call" and (e.get("q") or "").endswith("operator=") and e["a"]: x = e["a"][0]
    while x is not None and is_expr(x):
        x = strip(x)
        if x[0] == "m":
            if x[3] == "State": return "state." + x[2]
            x = x[1]
        elif x[0] == "ix": x = x[1]
        elif x[0] == "u": x = x[2]
        elif x[0] == "g": return x[1]
        elif x[0] == "ev":
            ev = fn.evi.get(x[1])
            x = ev.get("obj") if ev and ev["k"] == "call" and (ev.get("q") or "").endswith("operator[]") else None
        else: return None
    return None


# ---- exceptions: one symbol, one reason ---------------------------------------------------------------
# Reads without a lock are tolerated (writes are not, except where noted "rw").
EXEMPT = {
    "state.log_level_stderr": ("rw", "independent scalar setting: verbosity, any value is acceptable"),
    "state.log_level_callback": ("rw", "independent scalar setting: verbosity"),
    "state.log_level_combined": ("rw", "independent scalar setting: verbosity"),
    "state.log_callback": ("r", "read while delivering messages, which must happen with no lock held"),
    "state.leak_warnings": ("rw", "independent scalar setting"),
    "state.backends": ("r", "changes only during initialization and shutdown"),
    "state.devices": ("r", "changes only during initialization and shutdown"),
    "state.metal_devices": ("r", "changes only during initialization and shutdown"),
    "llvm_expand_threshold": ("rw", "independent scalar setting"),
    "jitc_llvm_block_size": ("rw", "independent scalar setting"),
    "jitc_llvm_vector_width": ("r", "target configuration: changes during initialization or by an explicit target request"),
    "jitc_llvm_context": ("r", "changes only during initialization and shutdown"),
    "jitc_llvm_tm": ("r", "target configuration"),
    "jitc_llvm_target_cpu": ("r", "target configuration"),
    "jitc_llvm_target_features": ("r", "target configuration"),
    "jitc_llvm_use_orcv2": ("r", "changes only during initialization and shutdown"),
    "jitc_llvm_lljit": ("r", "changes only during initialization and shutdown"),
    "jitc_llvm_lljit_dylib": ("r", "changes only during initialization and shutdown"),
    "log_defer_callback": ("rw", "registered once by the embedding application before threads exist"),
    "nvtxDomain": ("r", "created once when the profiler library is loaded"),
    "jitc_profile_active": ("r", "toggle, written under the lock"),
    "fatal_error_msg": ("r", "points to a string constant"),
    "type_name": ("r", "constant table"),
    "stderr": ("rw", "stdio locks internally"), "stdout": ("rw", "stdio locks internally"),
    "timer_value": ("rw", "statistics only"),
}
for _x in ("jitc_llvm_has_pb_legacy", "jitc_llvm_has_pb_new"): EXEMPT[_x] = ("r", "changes only during initialization and shutdown")
# Exported functions that run without protection by contract.
ENTRY_EXEMPT = {
    "jit_fail": "terminates the process",
}
# Initialization and shutdown run while no evaluation is possible: evaluation scratch state needs no eval_lock there.
LIFECYCLE = {"jit_init", "jit_init_async", "jit_shutdown", "jit_llvm_set_target"}
IMMUTABLE_TYPES = ("ProfilerRegion",)     # constant after construction


def loader_pointers(prog):
    """Globals of function-pointer type: dynamically loaded entry points (property C17)."""
    return {q for q, v in prog.vars.items() if "(*" in v["ty"] or q.startswith(("nvtxEti",))}


def analyse(ctx, prog):
    lm = LockModel(prog)
    net = net_effects(prog, lm)
    skip_ptrs = loader_pointers(prog)
    shared = {q for q, v in prog.vars.items() if v["file"].startswith("src/") and not v.get("const") and not v.get("tls")
              and q not in skip_ptrs and not v["ty"].startswith(("std::mutex", "const char *[") + IMMUTABLE_TYPES) and q not in ("state",)}
    lockobjs = {"state.lock", "state.eval_lock", "state.alloc_free_lock"}

    def is_shared(g):
        if g in lockobjs: return False
        return g.startswith("state.") or g in shared

    ASYNC = ASYNC_SUBMIT | {"std::thread::thread", "jitc_var_set_callback"}
    roots = {}
    acc, calls = defaultdict(list), defaultdict(list)    # acc[fn] = (depths per lock, obj, write, event)
    flows_done = 0
    naccess = 0
    for f in prog.repo_fns():
        if f.q in PRIMS or f.name.startswith("~State") or f.q in ("State::State", "State::~State"): continue
        gv = lm.guard_vars(f)
        manip = any(lm.effect(f, e) or any(net.get(t.key) for t in prog.targets(e)) for e in f.events())
        flows = {}
        for L in LOCKS:
            flows[L] = depth_flow(prog, lm, f, L, net) if manip else None
        flows_done += 1
        for b in f.rpo():
            blk = f.blocks[b]
            if manip:
                st = {L: flows[L][0].get(b) for L in LOCKS}
                if any(v is None for v in st.values()): continue
            else: st = None
            zero = (0,) * len(LOCKS)
            for e in blk.ev:
                d = tuple(min(st[L]) for L in LOCKS) if manip else zero
                if e["k"] not in ("lam",) and e.get("v") not in gv and not (e["k"] == "ctor" and e.get("q") in PRIMS):
                    w = write_root(f, e)
                    refs = set()
                    for k in EXPR_KEYS:
                        x = e.get(k)
                        if x is not None: refs.update(shared_refs(f, ["il", ""] + x if k == "a" else x))
                    for g in refs:
                        if is_shared(g): acc[f.key].append((d, g, w == g, e)); naccess += 1
                for t in prog.targets(e):
                    if t.q not in PRIMS: calls[f.key].append((d, t.key, e))
                if e["k"] in ("call", "ctor"):
                    q = e.get("q") or estr(e.get("ce"), f)
                    tk = {t.key for t in prog.targets(e)}
                    for a in e["a"]:
                        for kk in callable_refs(prog, f, a):
                            if kk not in prog.fns or kk in tk: continue
                            if q == "jitc_var_set_callback" and len(e["a"]) >= 4 and const_int(e["a"][3]) == 1:
                                continue   # internal callbacks run with the lock held (enforced by C03)
                            if q in ASYNC: roots[kk] = "%s submitted by %s" % (prog.fns[kk].display, f.q)
                            else: calls[f.key].append((d, kk, e))
                if manip:
                    for L in LOCKS: st[L] = flows[L][1](st[L], e, blk)
            if blk.term and blk.term[1] is not None:
                d = tuple(min(st[L]) for L in LOCKS) if manip else zero
                for g in set(shared_refs(f, blk.term[1])):
                    if is_shared(g): acc[f.key].append((d, g, False, {"l": f.line, "k": "cond"})); naccess += 1
    pub = {d["key"] for d in prog.decls if d["file"].startswith("include/")}
    for f in prog.repo_fns():
        if f.key in pub and f.q not in ENTRY_EXEMPT: roots[f.key] = f.q
    rc = defaultdict(list)
    for k, cl in calls.items():
        for d, t, e in cl: rc[t].append((k, d, e))
    # unprotected witnesses per (object, lock)
    bad = defaultdict(lambda: defaultdict(list))
    touched = defaultdict(set)
    for li, L in enumerate(LOCKS):
        why = defaultdict(dict)
        work = []
        for k, lst in acc.items():
            for d, g, w, e in lst:
                touched[g].add(k)
                ex = EXEMPT.get(g)
                if ex and (ex[0] == "rw" or not w): continue
                if d[li] < 0: bad[g][L].append((p_loc(prog, k, e), "accessed after the lock was released in %s" % prog.fns[k].display, prog.fns[k].q))
                elif d[li] == 0 and g not in why[k]: why[k][g] = (e, None)
        work = list(why)
        while work:
            k = work.pop()
            for c, d, e in rc[k]:
                new = False
                for g in list(why[k]):
                    if d[li] < 0:
                        bad[g][L].append((p_loc(prog, c, e), "%s releases the lock and then calls %s, which accesses it" % (prog.fns[c].display, prog.fns[k].display), prog.fns[c].q))
                    elif d[li] == 0 and g not in why[c]:
                        why[c][g] = (e, k); new = True
                if new: work.append(c)
        for k, name in roots.items():
            if L != "state.lock" and (name in LIFECYCLE or name.split(" submitted by ")[-1] in LIFECYCLE): continue
            for g in why.get(k, {}):
                path, kk = [], k
                while kk is not None and len(path) < 60:
                    e, nk = why[kk][g]
                    path.append("%s (%s)" % (prog.fns[kk].display, p_loc(prog, kk, e))); kk = nk
                bad[g][L].append((path[-1].split("(")[-1].rstrip(")"), "reached without the lock: " + " -> ".join(path), name))
    return shared, touched, bad, roots, naccess, flows_done


def p_loc(prog, k, e):
    f = prog.fns[k]
    return "%s:%d" % (f.file, e.get("l") or f.line)


def run(ctx):
    R = ctx.rule("consistent-lock", "each shared mutable object (field of the global state, file-level variable) is accessed only with one and the same lock held, on every call path from exported functions and asynchronous entries")
    E = ctx.rule("entry-point", "exported functions and asynchronously executed functions used as roots (no lock held on entry)")
    A = ctx.rule("access", "syntactic accesses to shared objects examined")
    for cfg in (("full",) if ctx.tier == "quick" else ("full", "llvm", "debug", "stdmutex")):
        prog = ctx.prog(cfg)
        shared, touched, bad, roots, nacc, nf = analyse(ctx, prog)
        ctx.ok(E, len(roots)); ctx.ok(A, nacc)
        by_who = {}
        for g in sorted(touched):
            b = bad.get(g, {})
            if any(not b.get(L) for L in LOCKS):
                ctx.ok(R, 1, "%s: consistently protected by %s" % (g, [L for L in LOCKS if not b.get(L)][0] if g not in EXEMPT else EXEMPT[g][1]))
                continue
            L = min(LOCKS, key=lambda L: len({x[2] for x in b[L]}))
            seen = set()
            for loc, msg, who in b[L]:
                if who in seen: continue
                seen.add(who)
                by_who.setdefault((who, L), []).append((g, loc, msg))
        for (who, L), lst in by_who.items():
            g, loc, msg = lst[0]
            ctx.violation(R, who, loc, "shared state {%s} is not consistently protected (lock that protects the other accesses: %s): %s" % (", ".join(x[0] for x in lst[:6]) + (", ..." if len(lst) > 6 else ""), L, msg))
    ctx.floor(R, 80); ctx.floor(E, 250); ctx.floor(A, 1500)
    ctx.assume("objects reached through pointers stored in shared containers (ThreadState, CallData, ...) are owned by the thread that uses them",
               "the standard library and the external driver libraries synchronize their own state")
