"""C25: shutdown resets global state, releases owned resources and reports leaks.
Effect analysis: every mutable global that the library modifies must be reset to its initial value on every path of jitc_shutdown() (or by jitc_init()), where
branches on the global itself, or on a guard that is set whenever the global is, are accepted; owned pointers are released before they are overwritten."""
from .core import forward, strip, walk, is_expr, const_int, edge_facts, estr, normal_exits, dead_end
from .c20 import dom_facts

KEEP = {  # mutable globals that intentionally survive: reason
    "ThreadLocal.def_backend": "configuration of a thread", "ThreadLocal.flags": "configuration of a thread",
    "State.leak_warnings": "configuration", "State.log_callback": "configuration", "State.log_level_callback": "configuration", "State.log_level_stderr": "configuration",
    "State.log_level_combined": "configuration", "log_defer_callback": "configuration", "State.print_limit": "configuration",
    "jitc_llvm_block_size": "configuration", "llvm_expand_threshold": "configuration", "State.lock": "lock", "State.eval_lock": "lock", "State.alloc_free_lock": "lock",
    "State.scope_ctr": "monotonic identifier, variables may outlive the shutdown", "State.kernel_cache_generation": "monotonic generation counter",
    "State.variables": "variables held by the user outlive the shutdown", "State.unused_variables": "belongs to State.variables", "State.extra": "variables held by the user outlive the shutdown",
    "State.unused_extra": "belongs to State.extra", "State.lvn_map": "entries live as long as their variables (C05)", "State.alloc_used": "allocations held by the user outlive the shutdown",
    "State.alloc_usage": "counts live allocations (C13)", "call_reduce_cache": "entries live as long as their variables", "State.record_tss": "entries live as long as their recordings",
    "jitc_flush_malloc_cache_warned": "one-time warning", "jitc_metal_warn_float64_demotion": "one-time warning", "jitc_lz4_dict_ready": "constant table",
    "log_postponed": "flushed when the lock is released (C01)",
    "jitc_optix_cache_global_disable": "sticky driver limitation", "State.optix_default_pipeline": "owned by the variable State.optix_default_sbt_index", "State.optix_default_sbt": "owned by the variable State.optix_default_sbt_index",
}
OWNED_NOT = {("jitc_llvm_mcjit_shutdown", "jitc_llvm_tm"): "belongs to the execution engine; jitc_llvm_orcv2_shutdown() disposes its own before","jitc_llvm_context": "the global LLVM context is not owned", "jitc_cuda_kernels": "points into jitc_cuda_kernels_alloc", "jitc_llvm_lljit_dylib": "belongs to the LLJIT instance",
             "ThreadLocal.ts_llvm": "owned by State.tss", "ThreadLocal.ts_cuda": "owned by State.tss", "ThreadLocal.ts_metal": "owned by State.tss"}
INIT = "determined by each initialization"
KEEP.update({k: INIT for k in ("jitc_cache_max_size", "jitc_cache_verbose", "jitc_cuda_arg_limit", "jitc_cuda_cuinit_result", "jitc_cuda_version_major", "jitc_cuda_version_minor", "jitc_llvm_has_avx",
                               "jitc_llvm_has_avx512", "jitc_llvm_has_neon", "jitc_llvm_max_align", "jitc_llvm_use_orcv2", "jitc_optix_has_abi_105")})
KEEP.update({"jitc_optix_cache_hit": "result of one compilation", "jitc_optix_max_coopvec_size": "recomputed by each evaluation", "scheduled_tasks": "scratch memory of a kernel launch",
             "State.ptr_to_variable": "debug information, entries live as long as their variables", "State.alloc_allocated": "counts live allocations (C13)", "buffer": "scratch memory, cleared before each use", "jitc_cuda_ptx_buf": "scratch memory, cleared before each use",
             "nvtxCallbacks.GetModuleFunctionTable": "constant callback table", "nvtxCallbacks.struct_size": "constant callback table", "nvtxPointers_p": "constant callback table",
             "nvtxVersionInfo.SetInjectionNvtxVersion": "constant callback table", "nvtxVersionInfo.struct_size": "constant callback table", "nvtxVersionInfo.version": "constant callback table",
             "registry.rev_map": "the entries of leaked instances are marked so that they can still be removed (C12)"})
SHARED = ("llvm_core", "llvm_api", "llvm_memmgr", "llvm_orcv2", "llvm_mcjit", "cuda_core", "cuda_api", "optix_core", "optix_api", "nvtx_api", "profile", "registry", "io", "malloc", "init", "log", "util", "llvm_ts")
OWNED = ("State.kernel_cache", "State.tss", "State.devices")
RESET = ("clear", "reset", "swap")


def nm(e): return (e.get("q") or "").split("::")[-1]


def root(f, x, d=0):
    """name of the global (or field of the global state) that an lvalue denotes, and whether it is the complete object"""
    whole = True
    fld = None
    x = f.canon(x)
    while is_expr(x) and d < 14:
        d += 1
        x = strip(x)
        if x[0] == "g": return (x[1] if fld is None else x[1] + "." + fld), whole
        if x[0] == "m":
            r = str(x[3]).split("::")[-1].split(" ")[-1]
            if r in ("State", "ThreadLocal"): return r + "." + x[2], whole
            if x[4]: return None, False     # reached through a pointer
            fld = x[2]; x = x[1]; continue
        if x[0] == "ix": whole = False; x = x[1]; continue
        if x[0] in ("cast", "ic"): x = x[3]; continue
        if x[0] == "def": x = x[1]; continue
        if x[0] == "u" and x[1] in ("&", "*"): x = x[2]; continue
        if x[0] == "ev":
            ev = f.evi.get(x[1])
            if ev is not None and ev["k"] == "call" and nm(ev) in ("operator[]", "data") and ev.get("obj") is not None: x = f.canon(ev["obj"]); continue
            return None, False
        if x[0] == "v":
            u = f.unique_def(x[1])
            if u is None: return None, False
            x = u; continue
        return None, False
    return None, False


def initial(p, g):
    v = p.vars.get(g)
    if v is None or v.get("init") is None: return None
    return v["init"]


def const_of(x):
    x = strip(x)
    if not is_expr(x): return None
    while is_expr(x) and x[0] in ("cast", "ic"): x = strip(x[3])
    if not is_expr(x): return None
    if x[0] == "null": return 0
    if x[0] == "b": return int(bool(x[1]))
    if x[0] == "e": return x[2]
    if x[0] == "i": return x[1]
    return const_int(x)


class Globals:
    def __init__(s, p):
        s.p = p
        s.mut = {}     # global -> [(fn, event, kind)]
        for f in p.fns.values():
            if not f.file.startswith(("src/", "include/")) or not f.blocks: continue
            for e in f.events():
                for g, w, kind in s.effects(f, e): s.mut.setdefault(g, []).append((f, e, kind))

    def globalvar(s, g):
        if g is None: return False
        if g.startswith(("State.", "ThreadLocal.")): return True
        g = g.split(".")[0]
        v = s.p.vars.get(g)
        return v is not None and not v.get("const") and not v.get("extern_only") and str(v.get("file", "")).startswith(("src/", "include/"))

    def effects(s, f, e):
        """(global, complete object, 'set'|'reset')"""
        k = e["k"]
        out = []
        if k == "asg":
            g, w = root(f, e["l_"])
            if s.globalvar(g):
                r = strip(e["r"])
                if r[0] == "ev" and f.evi.get(r[1], {}).get("k") == "asg": r = f.evi[r[1]]["r"]
                c = const_of(r)
                out.append((g, w, "reset" if e.get("op", "=") == "=" and (c is not None and s.is_initial(g, c) or empty(f, e["r"]) or root(f, e["r"])[0] in ("State.alloc_allocated", "State.alloc_usage")) else "set"))
        elif k == "inc":
            g, w = root(f, e["e"])
            if s.globalvar(g): out.append((g, w, "set"))
        elif k == "call" and e.get("obj") is not None:
            g, w = root(f, e["obj"])
            m = nm(e)
            if s.globalvar(g):
                if m in RESET: out.append((g, w, "reset"))
                elif m == "operator=" and e["a"] and empty(f, e["a"][0]): out.append((g, w, "reset"))
                elif m in ("push_back", "emplace_back", "emplace", "insert", "try_emplace", "try_emplace_hash", "append", "push", "operator=", "put", "resize", "insert_or_assign"): out.append((g, w, "set"))
        if k == "call":
            for i, a in enumerate(e.get("a") or []):
                x = strip(a)
                if is_expr(x) and x[0] == "u" and x[1] == "&":
                    g, w = root(f, x[2])
                    if s.globalvar(g) and not nm(e).startswith(("memc", "launder")): out.append((g, w, "set"))
                if nm(e) in ("memset", "bzero") and i == 0:
                    g, w = root(f, a)
                    if s.globalvar(g): out.append((g, w, "reset"))
        return out

    def is_initial(s, g, c):
        i = initial(s.p, g)
        if i is None: return c == 0
        v = const_of(i)
        return v is None or v == c


def must(p, g):
    """state shared by the operations of a session, in contrast to scratch memory"""
    if g.startswith(("State.", "ThreadLocal.")): return True
    v = p.vars.get(g.split(".")[0])
    return v is not None and str(v.get("file")).split("/")[-1].split(".")[0] in SHARED


def empty(f, x):
    x = strip(x)
    if not is_expr(x): return False
    if x[0] in ("cast", "ic"): return empty(f, x[3])
    if x[0] in ("ctor", "il"): return len(x) <= 2
    if x[0] == "ev":
        ev = f.evi.get(x[1])
        if ev is not None and ev["k"] == "ctor": return not ev["a"] or all(empty(f, a) for a in ev["a"])
        if ev is not None and ev["k"] == "call" and nm(ev) == "move": return empty(f, ev["a"][0])
    if x[0] == "v":
        ds = [e for e in f.events() if e["k"] == "decl" and e["v"] == x[1]]
        return len(ds) == 1 and (ds[0].get("init") is None or empty(f, ds[0]["init"]))
    return False


def zero_fact(f, c, v):
    """(global, complete) that the fact shows to be zero / null / empty"""
    c = strip(c)
    while is_expr(c) and c[0] in ("ic", "cast"): c = strip(c[3])
    if is_expr(c) and c[0] == "u" and c[1] == "!": return zero_fact(f, c[2], not v)
    if is_expr(c) and c[0] == "bi" and c[1] in ("==", "!=", ">") and const_of(c[3]) == 0:
        return zero_fact(f, c[2], v if c[1] != "==" else not v)
    if is_expr(c) and c[0] == "ev":
        ev = f.evi.get(c[1])
        if ev is not None and ev["k"] == "call" and ev.get("obj") is not None:
            if nm(ev) == "empty": return root(f, ev["obj"])[0] if v else None
            if nm(ev) == "size": return root(f, ev["obj"])[0] if not v else None
        return None
    if v: return None
    return root(f, c)[0] if is_expr(c) and c[0] in ("g", "m", "v", "ix") else None


class Shutdown:
    def __init__(s, ctx, p):
        s.ctx, s.p, s.G = ctx, p, Globals(p)
        s.memo = {}
        s.closure = set()
        s.root = p.fn("jitc_shutdown")
        if isinstance(s.root, list): s.root = s.root[0]
        todo = [s.root]
        while todo:
            f = todo.pop()
            if f.key in s.closure: continue
            s.closure.add(f.key)
            for e in f.events():
                if e["k"] == "call":
                    for t in p.targets(e):
                        if t.blocks and t.file.startswith("src/"): todo.append(t)
        s.guards = {}
        s.initc = set()
        todo = list(p.by_q.get("jitc_init", []))
        while todo:
            f = todo.pop()
            if f.key in s.initc or f.key in s.closure: continue
            s.initc.add(f.key)
            for e in f.events():
                if e["k"] == "call":
                    for t in p.targets(e):
                        if t.blocks and t.file.startswith("src/"): todo.append(t)

    def guarded(s, g, h):
        """g only differs from its initial value while h does"""
        if (g, h) in s.guards: return s.guards[g, h]
        ok = True
        hs = {}
        for f, e, k in s.G.mut.get(h, []):
            if k == "set": hs.setdefault(f.key, []).append(e)
        for f, e, k in s.G.mut.get(g, []):
            if k != "set" or f.key in s.closure and f.key not in hs: continue
            if f.key not in hs: continue           # runtime use, after the initialization
            # on every path to an exit: h is set as well, or a function of the shutdown sequence is called
            def tr(st, x, b):
                gs, hset = st
                if any(x is y for y in hs[f.key]): return (False, True)
                if x is e: return (not hset, hset)
                if x["k"] == "call" and any(t.key in s.closure and s.sets(t, g) for t in s.p.targets(x)): return (False, hset)
                return st
            def edge(st, b, i):
                for c, v in edge_facts(f, b, i):
                    if zero_fact(f, c, v) == h: return (st[0], False)
                    if zero_fact(f, c, not v) == h: return (st[0], True)
                return st
            ins = forward(f, (False, False), tr, lambda a, b: (a[0] or b[0], a[1] and b[1]), edge)
            for b in normal_exits(f):
                if b not in ins: continue
                st = ins[b]
                for x in f.blocks[b].ev: st = tr(st, x, f.blocks[b])
                if any(edge(st, f.blocks[b], i)[0] for i, t in enumerate(f.blocks[b].succ) if t == f.exit): ok = False
        s.guards[g, h] = ok
        return ok

    def sets(s, f, g, d=0):
        """the function contains a reset of g"""
        for e in f.events():
            if any(x[0] == g and x[2] == "reset" for x in s.G.effects(f, e)): return True
            if d < 3 and e["k"] == "call" and any(t.key in s.closure and t.key != f.key and s.sets(t, g, d + 1) for t in s.p.targets(e)): return True
        return False

    def effect(s, f, stack=()):
        """globals reset on every path of f"""
        if f.key in s.memo: return s.memo[f.key]
        if f.key in stack or not f.blocks: return frozenset()
        touched = set()
        calls = {}
        for e in f.events():
            for g, w, k in s.G.effects(f, e):
                if k == "reset": touched.add(g)
            if e["k"] == "call":
                ts = [t for t in s.p.targets(e) if t.file.startswith("src/") and t.key in s.closure]
                if ts:
                    r = None
                    for t in ts:
                        x = s.effect(t, stack + (f.key,)); r = x if r is None else r & x
                    calls[id(e)] = r; touched |= r
        # resets in loops with constant trip counts, or over the elements of the global, are executed
        inloop = {}
        for b in f.blocks.values():
            for e in b.ev:
                for g, w, k in s.G.effects(f, e):
                    if k == "reset": inloop.setdefault(b.id, set()).add(g)
        from .c03 import loops_of
        heads = {}
        for b in f.blocks.values():
            if b.term is None or b.term[0] not in ("for", "while", "range", "do") or len(b.succ) != 2: continue
            c = strip(b.term[1]) if is_expr(b.term[1]) else None
            if b.term[0] == "for" and c is not None and c[0] == "bi" and c[1] in ("<", "!=", "<=") and const_of(f.canon(c[3])) not in (None, 0): heads[b.id] = None
        def tr(st, e, b):
            for g, w, k in s.G.effects(f, e):
                st = st | {g} if k == "reset" else st - {g}
            if id(e) in calls: st = st | calls[id(e)]
            return st
        def edge(st, b, i):
            for c, v in edge_facts(f, b, i):
                h = zero_fact(f, c, v)
                for g in touched:
                    if not v and own_eq(f, c, g): st = st | {g}
                if h is not None and s.G.globalvar(h):
                    st = st | {h} | {g for g in touched if s.guarded(g, h)}
                x = strip(c)
                if f is s.root and light(f, x, v): st = st | {g for g in touched if s.backend_only(g)}
            if b.id in heads and i == 1:
                # everything reset unconditionally in the body
                for blk, gs in inloop.items():
                    for g in gs:
                        if in_body(f, b.id, blk) and uncond(f, b.id, blk, g, s): st = st | {g}
            return st
        ins = forward(f, frozenset(), tr, lambda a, b: a & b, edge)
        out = None
        for b in normal_exits(f):
            if b not in ins: continue
            st = ins[b]
            for e in f.blocks[b].ev: st = tr(st, e, f.blocks[b])
            for i, t in enumerate(f.blocks[b].succ):
                if t == f.exit:
                    x = edge(st, f.blocks[b], i)
                    out = x if out is None else out & x
        s.memo[f.key] = frozenset(out or ())
        return s.memo[f.key]

    def backend_only(s, g):
        """state of a backend, which survives a light shutdown together with the backend"""
        ms = [f for f, e, k in s.G.mut.get(g, [])]
        return bool(ms) and all(backend_file(f.file) for f in ms if f is not s.root) and not any(f is s.root for f in ms)


def backend_file(x): return x.split("/")[-1].split("_")[0] in ("llvm", "cuda", "optix", "metal") or x.split("/")[-1].split(".")[0] in ("llvm", "cuda", "optix", "metal")


def own_eq(f, c, g):
    """comparison of the global with its previous value: another thread replaced it"""
    c = strip(c)
    return is_expr(c) and c[0] == "bi" and c[1] == "==" and any(is_expr(strip(x)) and root(f, x)[0] == g for x in (c[2], c[3])) and not any(const_of(x) is not None for x in (c[2], c[3]))


def light(f, c, v):
    """the fact states that the backends aren't shut down"""
    c = f.canon(c)
    vs = {y[1] for y in walk(c) if y[0] == "v"}
    if not vs or not vs <= set(f.params): return False
    while is_expr(c) and c[0] in ("ic", "cast"): c = strip(c[3])
    if c[0] == "u" and c[1] == "!": return not v
    if c[0] == "bi" and c[1] in ("==", "!=") and const_of(c[3]) == 0: return v == (c[1] == "!=")
    return v


def in_body(f, head, blk):
    """blk lies on a cycle through head"""
    seen, todo = set(), [f.blocks[head].succ[0]]
    while todo:
        b = todo.pop()
        if b is None or b in seen or b == head: continue
        seen.add(b); todo += f.blocks[b].succ
    if blk not in seen: return False
    seen, todo = set(), [blk]
    while todo:
        b = todo.pop()
        if b is None or b in seen: continue
        seen.add(b); todo += f.blocks[b].succ
        if head in f.blocks[b].succ: return True
    return False


def uncond(f, head, blk, g, s):
    """every iteration passes blk (or a constant loop around it) unless the global's own value says otherwise"""
    hs = set()
    for b in f.blocks.values():
        if b.term is not None and b.term[0] == "for" and is_expr(b.term[1]): hs.add(b.id)
    outer = dom_facts(f, f.blocks[head])
    for fs in dom_facts(f, f.blocks[blk]):
        if fs in outer: continue
        for c, v in fs:
            c = f.canon(c)
            loopc = any(f.blocks[h].term[1] is not None and strip(f.canon(f.blocks[h].term[1])) == strip(c) for h in hs)
            own = any(root(f, y)[0] == g for y in walk(c) if y[0] in ("g", "m", "ix"))
            if not (loopc or own): return False
    return True


def logs(f, e): return nm(e) in ("jitc_log",) or nm(e).startswith(("jitc_log", "jitc_fail", "jitc_raise"))


def release(ctx, S):
    """owned pointers are released before they are overwritten; owned elements before their container is cleared"""
    p = S.p
    for k in S.closure:
        f = p.fns[k]
        if not f.file.startswith("src/"): continue
        for b in f.blocks.values():
            for i, e in enumerate(b.ev):
                for g, w, kind in S.G.effects(f, e):
                    if kind != "reset": continue
                    v = p.vars.get(g)
                    if e["k"] == "asg" and v is not None and "(*" not in str(v.get("ty")) and ("*" in str(v.get("ty")) or str(v.get("ty")).endswith("Ref")):
                        if g in OWNED_NOT or (f.display, g) in OWNED_NOT: continue
                        # acquired with a call?
                        acq = [x for x in S.G.mut[g] if x[2] == "set"]
                        if not acq: continue
                        before = False
                        for b2, e2 in reaching(f, b, i):
                            if e2["k"] == "call" and not logs(f, e2) and release_name(e2) and any(root(f, a)[0] == g for a in list(e2.get("a") or []) if is_expr(a)): before = True
                            if e2["k"] == "delete" and root(f, e2["e"])[0] == g: before = True
                        # .. or afterwards using a copy of the handle
                        for e2 in b.ev[i:]:
                            if e2["k"] == "call" and release_name(e2) and any(strip(a)[0] == "v" and root(f, a)[0] == g for a in e2.get("a") or [] if is_expr(a)): before = True
                        if before: ctx.ok("release", 1, "%s: %s" % (f.loc(e), g))
                        else: ctx.violation("release", "%s|%s" % (f.display, g), f.loc(e), "'%s' is overwritten without releasing the resource it refers to" % g)
    for g in OWNED:
        fld = g.split(".")[1]
        if not any(x[0] == fld for x in (p.rec("State") or {"fields": []})["fields"]): continue
        where = [(p.fns[k], e) for k in S.closure for e in p.fns[k].events() for g2, w, kind in S.G.effects(p.fns[k], e) if g2 == g and kind == "reset"]
        if not where: continue
        if not any(S.G.effects(p.fns[k], e) for k in S.closure for e in p.fns[k].events() if False) and not S.G.mut.get(g): continue
        ok = False
        for f, e in where:
            if element_release(p, f, g): ok = True
        if ok: ctx.ok("release", 1, g)
        else: ctx.violation("release", g, where[0][0].loc(where[0][1]), "the elements of '%s' aren't released before the container is cleared" % g)


def reaching(f, b, i):
    """events that may precede event i of block b"""
    out = [(b, e) for e in b.ev[:i]]
    seen, todo = set(), list(b.pred)
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        out += [(f.blocks[x], e) for e in f.blocks[x].ev]
        todo += f.blocks[x].pred
    return out


def element_release(p, f, g):
    """a loop over the container releases each element, unconditionally"""
    rng = [e["v"] for e in f.events() if e["k"] == "decl" and e.get("init") is not None and root(f, e["init"])[0] == g and e["v"].startswith("__range")]
    if not rng: 
        return any(root(f, e.get("obj"))[0] == g and nm(e) in ("begin", "operator[]", "back") for e in f.events() if e["k"] == "call" and e.get("obj") is not None)
    for b in f.blocks.values():
        if b.term is None or b.term[0] != "range": continue
        body = set()
        todo = [b.succ[0]]
        while todo:
            x = todo.pop()
            if x is None or x in body or x == b.id: continue
            body.add(x); todo += f.blocks[x].succ
        # element variable: declared in the first block of the body from *__begin
        els = {e["v"] for e in f.blocks[b.succ[0]].ev if e["k"] == "decl" and not e["v"].startswith("__")}
        ev = f.evi.get(b.term[1][1]) if b.term[1][0] == "ev" else None
        beg = [y[1] for a in (ev or {}).get("a", []) for y in walk(a) if y[0] == "v" and y[1].startswith("__begin")] + [y[1] for y in walk(b.term[1]) if y[0] == "v" and y[1].startswith("__begin")]
        if not any(x.replace("__range", "__begin").split(":")[:2] == y.split(":")[:2] for x in rng for y in beg): continue
        for x in body:
            for e in f.blocks[x].ev:
                if e["k"] == "delete" and any(y[0] == "v" and y[1] in els for y in walk(e["e"])) or \
                   e["k"] == "call" and not logs(f, e) and nm(e) not in ("stopwatch",) and any(release_name(e) and y[0] == "v" and y[1] in els for a in e.get("a") or [] if is_expr(a) for y in walk(a)):
                    # every iteration passes this block
                    seen, todo = set(), [b.succ[0]]
                    skip = False
                    while todo:
                        y = todo.pop()
                        if y is None or y in seen or y == x: continue
                        seen.add(y)
                        if y == b.id: skip = True; break
                        todo += f.blocks[y].succ
                    if not skip: return True
    return False


def release_name(e):
    n = (nm(e) or "").lower() + estr(e.get("ce")).lower() if e.get("ce") is not None else nm(e).lower()
    return any(w in n for w in ("free", "release", "destroy", "unload", "dispose", "close", "delete", "dec_ref"))


LEAKS = (("mask_stack", "masks that are still active"), ("prefix_stack", "prefixes that are still active"), ("variables", "variables"), ("extra", "extra records"), ("rev_map", "registered instances"), ("alloc_used", "allocations"))


def report(ctx, S):
    """each kind of leak is reported with a warning"""
    p = S.p
    warn = []
    for k in S.closure:
        f = p.fns[k]
        for b in f.blocks.values():
            for e in b.ev:
                if e["k"] == "call" and nm(e) == "jitc_log" and e["a"] and const_of(val(p, e["a"][0])) == 2: warn.append((f, b, e))
    for fld, what in LEAKS:
        hit = None
        for f, b, e in warn:
            fs = [(f.canon(c), v) for x in dom_facts(f, b) for c, v in x]
            dep = set()
            for c, v in fs: dep |= fields(p, f, c)
            for a in e["a"]: dep |= fields(p, f, a)
            if fld not in dep: continue
            lc = [strip(f.canon(y.term[1])) for y in f.blocks.values() if y.term is not None and y.term[0] in ("for", "range", "while") and is_expr(y.term[1])]
            bad = [c for c, v in fs if strip(c) not in lc and not allowed(p, f, c, v, fld)]
            if not bad: hit = (f, e)
        if hit: ctx.ok("report", 1, "%s: %s" % (hit[0].loc(hit[1]), what))
        else: ctx.violation("report", fld, S.root.loc(), "leaked %s aren't reported when the library shuts down" % what)


def val(p, x):
    x = strip(x)
    if is_expr(x) and x[0] == "g" and x[1] in p.vars and p.vars[x[1]].get("init") is not None: return p.vars[x[1]]["init"]
    return x


def fields(p, f, c, d=0, seen=None):
    seen = set() if seen is None else seen
    out = set()
    for y in walk(c):
        if y[0] == "m": out.add(y[2])
        if y[0] == "g": out.add(y[1])
        if y[0] == "ev" and d < 6:
            ev = f.evi.get(y[1])
            if ev is not None:
                if ev.get("obj") is not None: out |= fields(p, f, f.canon(ev["obj"]), d + 1, seen)
                if ev["k"] == "call": out.add(nm(ev) + "()")
                for a in ev.get("a") or []:
                    if is_expr(a): out |= fields(p, f, f.canon(a), d + 1, seen)
        if y[0] == "v" and d < 6 and y[1] not in seen:
            seen.add(y[1])
            for e in f.events():
                for key, tgt in (("init", e.get("v") if e["k"] == "decl" else None), ("r", strip(e["l_"])[1] if e["k"] == "asg" and strip(e["l_"])[0] == "v" else (base_v(e["l_"]) if e["k"] == "asg" else None))):
                    if tgt == y[1] and e.get(key) is not None: out |= fields(p, f, f.canon(e[key]), d + 1, seen)
                if e["k"] in ("inc",) and base_v(e["e"]) == y[1]:
                    for b in f.blocks.values():
                        if e in b.ev:
                            for x in dom_facts(f, b):
                                for c2, v2 in x: out |= fields(p, f, f.canon(c2), d + 2, seen)
            if y[1].startswith("__") : pass
    return out


def base_v(x):
    x = strip(x)
    while is_expr(x) and x[0] in ("ix", "m", "cast", "ic"): x = strip(x[1] if x[0] in ("ix", "m") else x[3])
    return x[1] if is_expr(x) and x[0] == "v" else None


def allowed(p, f, c, v, fld):
    d = fields(p, f, c)
    if "leak_warnings" in d or "jit_leak_warnings()" in d or any("log_active" in x for x in d): return bool(v) == (not (is_expr(strip(c)) and strip(c)[0] == "u" and strip(c)[1] == "!"))
    if fld in d:
        x = strip(c)
        while is_expr(x) and x[0] in ("ic", "cast"): x = strip(x[3])
        if is_expr(x) and x[0] == "bi" and x[1] in (">", ">=", "<", "<=", "==", "!="):
            n = const_of(x[3])
            return n is None or (x[1], n) in ((">", 0), ("!=", 0), ("==", 0), (">=", 1), ("<", 1))
        return True
    return not d - {x for x in d if x.startswith(("operator", "__", "begin", "end", "n_leaked", "size()"))} or bool({"tss", "begin()"} & d)


def run(ctx):
    for r, d in (("reset", "every global that the library modifies is reset to its initial value on every path of the shutdown sequence (or when the library is initialized again)"),
                 ("release", "resources owned by a global are released before the global is reset"),
                 ("report", "every kind of leak is reported with a warning")):
        ctx.rule(r, d)
    for cfg in (["full"] if ctx.tier == "quick" else ["full", "llvm", "debug", "nooptix"]):
        p = ctx.prog(cfg)
        S = Shutdown(ctx, p)
        eff = set(S.effect(S.root))
        ini = set()
        for q in ("jitc_init", "jitc_cache_init"):
            for f in p.by_q.get(q, []):
                for b in f.blocks.values():
                    for e in b.ev:
                        for g, w, k in S.G.effects(f, e):
                            if k == "reset" and w: ini.add(g)
        for g, ms in sorted(S.G.mut.items()):
            sets = [(f, e) for f, e, k in ms if k == "set"]
            if not sets: continue
            if g in KEEP: ctx.ok("reset", 1, "%s: kept (%s)" % (g, KEEP[g])); continue
            if g in eff: ctx.ok("reset", 1, "%s: shutdown" % g)
            elif g in ini: ctx.ok("reset", 1, "%s: initialization" % g)
            elif not must(p, g) and not any(f.key in S.initc for f, e in sets) and not any(f.key in S.closure for f, e, k in ms if k == "reset"): ctx.ok("reset", 1, "%s: scratch memory of an operation, emptied by its users (C19)" % g)
            else:
                f, e = sets[0]
                ctx.violation("reset", g, f.loc(e), "'%s' is modified here but isn't reset to its initial value on every path of the shutdown sequence" % g)
        release(ctx, S)
        report(ctx, S)
