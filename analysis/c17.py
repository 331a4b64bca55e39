"""C17: dynamically loaded entry points: resolved under their own name, null-checked before initialization succeeds (or guarded at
each call), reset when the library is unloaded."""
import re
from .core import *
from .c20 import dom_facts

# entry points whose current header definition is the versioned symbol (cuda.h: #define X X_v2)
CUDA_V2 = {"cuDeviceTotalMem", "cuDevicePrimaryCtxRelease", "cuDevicePrimaryCtxReset", "cuCtxPushCurrent", "cuCtxPopCurrent", "cuCtxCreate", "cuCtxDestroy",
           "cuStreamDestroy", "cuEventDestroy", "cuMemAlloc", "cuMemAllocHost", "cuMemAllocPitch", "cuMemFree", "cuMemGetInfo", "cuArrayCreate",
           "cuArray3DCreate", "cuArrayGetDescriptor", "cuArray3DGetDescriptor", "cuMemcpy2DAsync", "cuMemcpy3DAsync", "cuMemcpy2D", "cuMemcpy3D",
           "cuMemcpyDtoH", "cuMemcpyHtoD", "cuMemcpyDtoD", "cuMemsetD8", "cuMemsetD16", "cuMemsetD32", "cuMemHostGetDevicePointer", "cuModuleGetGlobal"}
# slots of the NVTX "CORE2" callback module (nvtx3 NvtxCallbackIdCore2)
NVTX = {"nvtxDomainMarkEx": 1, "nvtxDomainRangeStartEx": 2, "nvtxDomainRangeEnd": 3, "nvtxDomainRangePushEx": 4, "nvtxDomainRangePop": 5,
        "nvtxDomainResourceCreate": 6, "nvtxDomainResourceDestroy": 7, "nvtxDomainNameCategoryA": 8, "nvtxDomainNameCategoryW": 9,
        "nvtxDomainRegisterStringA": 10, "nvtxDomainRegisterStringW": 11, "nvtxDomainCreateA": 12, "nvtxDomainCreateW": 13, "nvtxDomainDestroy": 14,
        "nvtxInitialize": 15}
NVTX_MODULES = [16, 9, 15, 7, 16, 7]
# slots of the OptiX function tables (optix_function_table.h of ABI 87 and ABI 105)
OPTIX = {"optixGetErrorName": (0, 0), "optixGetErrorString": (1, 1), "optixDeviceContextCreate": (2, 2), "optixDeviceContextDestroy": (3, 3),
         "optixDeviceContextSetCacheEnabled": (6, 6), "optixDeviceContextSetCacheLocation": (7, 7), "optixModuleCreate": (12, 12),
         "optixModuleCreateWithTasks": (13, 13), "optixModuleGetCompilationState": (14, 14), "optixModuleDestroy": (15, 15), "optixTaskExecute": (17, 17),
         "optixProgramGroupCreate": (18, 18), "optixProgramGroupDestroy": (19, 19), "optixProgramGroupGetStackSize": (20, 20),
         "optixPipelineCreate": (21, 21), "optixPipelineDestroy": (22, 22), "optixPipelineSetStackSize": (23, 23), "optixSbtRecordPackHeader": (38, 40),
         "optixLaunch": (39, 41), "optixCoopVecMatrixConvert": (None, 42), "optixCoopVecMatrixComputeSize": (None, 43)}
# optional entry points whose availability follows from another established fact
EXC = {"cuMemAllocAsync": "every driver accepted by jitc_cuda_init() (>= 12.2) exports the stream-ordered allocator (introduced in 11.2)",
       "cuMemFreeAsync": "every driver accepted by jitc_cuda_init() (>= 12.2) exports the stream-ordered allocator (introduced in 11.2)"}


def gname(f, e):
    e = f.canon(e) if f is not None else strip(e)
    return e[1] if is_expr(e) and e[0] == "g" else None


def is_null(e): return const_int(e) == 0


def strings(f, e, env):
    """possible string values of e, or None"""
    e = strip(e)
    if not is_expr(e): return None
    if e[0] == "s": return {e[1]}
    if e[0] == "v":
        if e[1] in env: return env[e[1]]
        u = f.unique_def(e[1])
        return strings(f, u, env) if u is not None else None
    if e[0] == "?":
        c = truth(f, e[1])
        if c is not None: return strings(f, e[2 if c else 3], env)
        a, b = strings(f, e[2], env), strings(f, e[3], env)
        return a | b if a is not None and b is not None else None
    return None


def truth(f, e):
    e = f.canon(e)
    if is_expr(e) and e[0] == "bi" and e[1] in (">", "!=", "=="):
        n = [len(x[3][1]) if is_expr(x) and x[0] == "call" and x[1] == "strlen" and strip(x[3])[0] == "s" else const_int(x) for x in (strip(e[2]), strip(e[3]))]
        if None not in n: return {">": n[0] > n[1], "!=": n[0] != n[1], "==": n[0] == n[1]}[e[1]]
    c = const_int(e)
    return None if c is None else bool(c)


def atoms_of(f, facts):
    """(kind, name, polarity) of the known facts: global variables and calls"""
    out = set()
    for c, v in facts:
        c = f.canon(c)
        while is_expr(c) and (c[0] == "u" and c[1] == "!" or c[0] == "bi" and c[1] in ("==", "!=") and (is_null(c[2]) or is_null(c[3]))):
            if c[0] == "u": c, v = strip(c[2]), not v
            else:
                if c[1] == "==": v = not v
                c = strip(c[2] if is_null(c[3]) else c[3])
        if not is_expr(c): continue
        if c[0] == "g": out.add(("g", c[1], v))
        elif c[0] == "call": out.add(("call", c[1], v))
    return out


class Mod: pass


def modules(prog):
    """init function (after inlining file-local helpers) -> resolved entry points"""
    fp = {q for q, v in prog.vars.items() if "(*)(" in v["ty"] and v["file"].startswith("src/") and "[" not in v["ty"]}
    out = []
    want = lambda f, e, t: e["k"] == "call" and not t.cls and t.internal and t.file == f.file
    called = {k for k in prog.callers()}
    for f in prog.repo_fns():
        if f.internal or f.q == "lambda": continue
        g = None
        def touched(h, seen):
            if h.key in seen: return set()
            seen.add(h.key); r = set()
            for e in h.events():
                if e["k"] == "asg" and strip(e["l_"])[0] == "g" and strip(e["l_"])[1] in fp and not is_null(e["r"]): r.add(strip(e["l_"])[1])
                for key in ("init", "r"):
                    if e["k"] in ("decl", "asg") and e.get(key) is not None:
                        for x in walk(e[key]):
                            if x[0] == "il" and any(strip(y)[0] == "s" for y in x[2:] if is_expr(y)):
                                for y in x[2:]:
                                    y = strip(y)
                                    if is_expr(y) and y[0] == "u" and y[1] == "&" and strip(y[2])[0] == "g" and strip(y[2])[1] in fp: r.add(strip(y[2])[1])
                for t in prog.targets(e):
                    if want(h, e, t): r |= touched(t, seen)
            return r
        t = touched(f, set())
        if len(t) >= 3:
            m = Mod(); m.file = f.file; m.init = inline(prog, f, want, 3); m.q = f.q; m.key = f.key
            m.ptrs = {q for q in fp if prog.vars[q]["file"] in (f.file, f.file[:-4] + ".h")}
            m.raw = f; out.append(m)
    # unloading: the function of the same file that nulls the most pointers
    for m in out:
        best = None
        for f in prog.repo_fns():
            if f.file != m.file or f.internal or f.q in ("lambda", m.q): continue
            g = inline(prog, f, want, 3)
            n = {strip(e["l_"])[1] for e in g.events() if e["k"] == "asg" and strip(e["l_"])[0] == "g" and is_null(e["r"])} & m.ptrs
            if len(n) >= 3 and (best is None or len(n) > best[0]): best = (len(n), g, f)
        m.down = best[1] if best else None; m.downq = best[2].q if best else None; m.downkey = best[2].key if best else None
    return out


def run(ctx):
    N = ctx.rule("name", "each entry point is resolved under its own (versioned) name or slot")
    U = ctx.rule("resolved", "every entry point is resolved, and initialization only succeeds once the mandatory ones are known to be present")
    G = ctx.rule("guard", "entry points that may be absent are only called where their presence was established")
    F = ctx.rule("fail-clean", "a failing initialization leaves no library handle behind that a later one would take for success")
    R = ctx.rule("reset", "unloading resets every entry point, the capability flags and the handle")
    for cfg in (("full",) if ctx.tier == "quick" else ("full", "llvm", "nooptix", "debug")):
        prog = ctx.prog(cfg)
        mods = modules(prog)
        for m in mods:
            resolution(ctx, prog, m, N, U, F)
            reset(ctx, prog, m, R)
        guards(ctx, prog, mods, G)
        for m in mods:
            if m.file == "src/optix_api.cpp": optix(ctx, prog, m, N)
    ctx.floor(N, 60); ctx.floor(U, 60); ctx.floor(G, 60); ctx.floor(F, 2); ctx.floor(R, 60)
    ctx.assume("backend code other than initialization runs only after the backend's initialization function reported success",
               "the versioned names of the CUDA driver API, the NVTX callback slots and the OptiX table slots are the ones of the vendor headers",
               "a shared library does not lose symbols while loaded")


def resolution(ctx, prog, m, N, U, F):
    f = m.init
    m.handle = {q for q, v in prog.vars.items() if v["file"] == m.file and v["ty"] == "void *"}
    resolved, checked_name = set(), {}
    flags = {strip(e["l_"])[1] for e in f.events() if e["k"] == "asg" and strip(e["l_"])[0] == "g" and e["ty"] == "bool"}
    local_ptrs = {e["v"] for e in f.events() if e["k"] == "decl" and e["ty"].startswith("const char *")}
    nonempty = m.handle | {q for q, v in prog.vars.items() if v["file"] == m.file and v["ty"].endswith("*") and "(" not in v["ty"]}
    downs = {m.downkey} if m.downkey else set()

    def names(e, env):
        """names used by the lookup call(s) in e"""
        out = None
        for ev in f.deep_events(e) if strip(e)[0] != "ev" else [f.evi[strip(e)[1]]] + f.deep_events(e):
            if ev["k"] != "call": continue
            if not (ev.get("q") in ("dlsym", "GetProcAddress") or prog.targets(ev)): continue
            for a in ev["a"]:
                s = strings(f, a, env)
                if s is not None: out = (out or set()) | s
        return out

    # user state: (nonnull entry points, flag -> implied entry points, local string vars, true facts, handle known null?)
    def step(u, e, blk, env):
        nn, fl, st, at = u
        k = e["k"]
        if k == "decl" and e["v"] in local_ptrs or k == "asg" and strip(e["l_"])[0] == "v" and strip(e["l_"])[1] in local_ptrs:
            v = e["v"] if k == "decl" else strip(e["l_"])[1]
            r = e["init"] if k == "decl" else e["r"]
            st = frozenset(x for x in st if x[0] != v)
            if r is not None:
                if is_null(r): st |= {(v, None)}
                else:
                    s = strings(f, r, dict((a, frozenset({b}) if b else None) for a, b in st))
                    for x in s or (): st |= {(v, x)}
        if k == "asg" and strip(e["l_"])[0] == "g":
            g = strip(e["l_"])[1]
            at = frozenset(x for x in at if x[1] != g)
            if g in m.ptrs:
                nn = nn - {g}
                fl = frozenset((a, b) for a, b in fl if b != g)
                if not is_null(e["r"]):
                    resolved.add(g)
                    envs = {}
                    for a, b in st: envs.setdefault(a, set()).add(b)
                    s = names(e["r"], {a: b for a, b in envs.items() if None not in b})
                    checked_name.setdefault(g, []).append((e, s))
                    if s and lookup_raises(prog, f, e["r"], s, blk): nn = nn | {g}
            elif g in flags:
                add = {x[1] for x in atoms_of(f, cond_facts(f, e["r"], True)) if x[0] == "g" and x[2]}
                if e["op"] == "&=": fl |= {(g, a) for a in add if a in m.ptrs}
                elif e["op"] == "=":
                    fl = frozenset((a, b) for a, b in fl if a != g) | {(g, a) for a in add if a in m.ptrs}
                    if const_int(e["r"]) == 0: fl |= {(g, "*false")}
                else: fl = frozenset((a, b) for a, b in fl if a != g)
            if g in nonempty and is_null(e["r"]): at |= {("g", g, False)}
        if k == "call" and any(t.key in downs for t in prog.targets(e)):
            nn = frozenset(); at = frozenset(x for x in at if x[1] not in nonempty) | {("g", h, False) for h in nonempty}
        return [(nn, fl, st, at)]

    def branch(u, facts, blk, i):
        nn, fl, st, at = u
        for c, v in facts:
            c2 = strip(c)
            if c2[0] == "v" and c2[1] in local_ptrs:
                vals = {b for a, b in st if a == c2[1]}
                if vals and (None in vals) == v and len(vals) == 1: return None
        for k, g, v in atoms_of(f, facts):
            if k == "g":
                if g in m.ptrs:
                    if v: nn = nn | {g}
                elif g in nonempty:
                    if ("g", g, not v) in at: return None
                    at = at | {("g", g, v)}
        return (nn, fl, st, at)
    init = (frozenset(), frozenset(), frozenset(), frozenset())
    ins, exits, tr = paths(f, init, step, branch)
    # states at the return events
    outs = []
    for b in f.rpo():
        if b not in ins: continue
        blk = f.blocks[b]; st = ins[b]
        for e in blk.ev:
            if e["k"] == "ret" and st:
                for u, env in st: outs.append((e, u))
            st = tr(st, e, blk) if st else None
            if st is None: break
    outs_ok, guard_null = [], set()
    if m.down is not None:
        guard_null = {strip(e["l_"])[1] for e in m.down.events() if e["k"] == "asg" and strip(e["l_"])[0] == "g" and is_null(e["r"])} - m.ptrs
    for e, u in outs:
        rv = const_int(e["e"]) if e.get("e") is not None else None
        already = not u[0] and not u[1] and any(k == "g" and v and g in guard_null for k, g, v in u[3])
        if rv == 0:
            # a guard that says "already initialized" must be null now
            g0 = {g for g in guard_null if g in m.handle and any(k == "g" and g == x and v for b in f.blocks.values() for i in (0, 1) if len(b.succ) == 2 for k, x, v in atoms_of(f, edge_facts(f, b, i)))
                  and early(f, g)}
            ctx.ok(F, 1, "%s: failure return at line %d" % (m.q, e["l"]))
            for g in g0:
                if ("g", g, False) not in u[3]:
                    ctx.violation(F, "%s|%s" % (m.q, g), f.loc(e), "initialization fails with '%s' still set: the next attempt would report success with unresolved entry points" % g)
        elif not already: outs_ok.append((e, u))
    if not outs_ok: raise AnalysisBroken("no successful return found in " + m.q)
    m.sure = frozenset.intersection(*[u[0] for _, u in outs_ok])
    m.flagged = {}
    for e, u in outs_ok:
        cur = {}
        for a, b in u[1]: cur.setdefault(a, set()).add(b)
        for a in set(cur) | set(m.flagged): m.flagged.setdefault(a, []).append(cur.get(a, set()))
    m.flag_of = {}
    for a, l in m.flagged.items():
        l = [x for x in l if "*false" not in x]
        if l and len(l[0]):
            for v in set.intersection(*l): m.flag_of.setdefault(v, set()).add(a)
    m.resolved = resolved
    # table-driven resolution
    table = {}
    for e in list(f.events()):
        for key in ("init", "r"):
            if e["k"] in ("decl", "asg") and e.get(key) is not None:
                for x in walk(e[key]):
                    if x[0] != "il": continue
                    ps = [strip(strip(y)[2])[1] for y in x[2:] if is_expr(y) and strip(y)[0] == "u" and strip(y)[1] == "&" and strip(strip(y)[2])[0] == "g"]
                    ss = [strip(y)[1] for y in x[2:] if is_expr(y) and strip(y)[0] == "s"]
                    if len(ps) == 1 and len(ss) == 1 and ps[0] in m.ptrs: table[ps[0]] = (e, {ss[0]})
    m.table = set(table)
    for g, v in table.items(): resolved.add(g); checked_name.setdefault(g, []).append(v)
    used = set()
    for h in prog.fns.values():
        for e in h.events():
            if e["k"] == "call" and not e.get("q") and e.get("ce") is not None: used.add(gname(None, e["ce"]))
    m.called = used
    for g in sorted(m.ptrs):
        ctx.ok(U, 1, "%s resolved in %s()" % (g, m.q) if g in resolved else None)
        if g not in resolved and (g in used):
            ctx.violation(U, g, "%s:%d" % (prog.vars[g]["file"], prog.vars[g]["line"]), "entry point '%s' is called but never resolved by %s()" % (g, m.q))
    for g, l in sorted(checked_name.items()):
        for e, s in l:
            base = m.file == "src/cuda_api.cpp" and g in CUDA_V2
            want = {g + "_v2"} if base else {g}
            if s is None:
                r = f.canon(e["r"])
                if is_expr(r) and r[0] == "ix" and g in NVTX:
                    ctx.ok(N, 1, "%s: %s from callback slot" % (f.loc(e), g))
                    idx = const_int(r[2]); sizes = prog.vars.get("nvtxSizes", {}).get("init")
                    want = sum(NVTX_MODULES[:4]) + NVTX[g]
                    if idx != want: ctx.violation(N, g, f.loc(e), "'%s' is taken from slot %s of the callback table, expected %d" % (g, idx, want))
                    mods = [const_int(x) for x in sizes[2:]] if sizes else None
                    if mods is not None and mods != NVTX_MODULES: ctx.violation(N, "nvtx-modules", "%s:%d" % (m.file, prog.vars["nvtxSizes"]["line"]), "callback module sizes %s differ from the NVTX interface %s" % (mods, NVTX_MODULES))
                continue
            ctx.ok(N, 1, "%s: %s resolved as %s" % (f.loc(e), g, "/".join(sorted(x for x in s if x))))
            bad = {x for x in s if x not in want and not (not base and re.fullmatch(re.escape(g) + r"_v\d+", x or ""))}
            if bad: ctx.violation(N, g, f.loc(e), "entry point '%s' is resolved under the name '%s' (expected '%s')" % (g, "/".join(sorted(map(str, bad))), "/".join(want)))


def lookup_raises(prog, f, r, names, blk):
    """the address comes from a repository function that raises unless the name is found, and the name is in its table"""
    r = strip(r)
    ev = f.evi.get(r[1]) if r[0] == "ev" else None
    if ev is None or ev["k"] != "call": return False
    T = prog.targets(ev)
    if len(T) != 1 or any(e["k"] == "ret" and is_null(e.get("e")) for e in T[0].events()): return False
    if not any(T[0].blocks[b].noret or any(e.get("noret") for e in T[0].blocks[b].ev) for b in T[0].rpo()): return False
    tabs = []
    for e in T[0].events():
        for key in EXPR_KEYS:
            if e.get(key) is None: continue
            for x in walk(["il", ""] + e[key] if key == "a" else e[key]):
                if x[0] == "g" and x[1] in prog.vars and prog.vars[x[1]]["ty"].startswith("const char *["):
                    t = {strip(y)[1] for y in prog.vars[x[1]]["init"][2:] if strip(y)[0] == "s"}
                    if t not in tabs: tabs.append(t)
    if not tabs: return False
    guarded = any(k == "g" and v for fs in dom_facts(f, blk) for k, n, v in atoms_of(f, fs))
    return all(all(n in t for t in tabs) or guarded and any(n in t for t in tabs) for n in names)


def early(f, g):
    """is there an early successful return guarded by g being set?"""
    for b in f.blocks.values():
        for e in b.ev:
            if e["k"] == "ret" and e.get("e") is not None and const_int(e["e"]) not in (0, None):
                if any(x == ("g", g, True) for fs in dom_facts(f, b) for x in atoms_of(f, fs)): return True
    return False


def reset(ctx, prog, m, R):
    if m.down is None:
        ctx.violation(R, m.q, m.raw.loc(), "no function resets the entry points resolved by %s()" % m.q); return
    f = m.down
    # places nulled on every path to a normal exit (paths that return because nothing was loaded are exempt)
    def step(u, e, blk, env):
        if e["k"] == "asg" and strip(e["l_"])[0] == "g":
            g = strip(e["l_"])[1]
            return [(u[0] | {g} if const_int(e["r"]) is not None and e["op"] == "=" else u[0] - {g}, u[1])]
        if e["k"] == "call":
            q = e.get("q")
            if q == "memset" and len(e["a"]) == 3 and gname(f, e["a"][0]): return [(u[0] | {gname(f, e["a"][0])}, u[1])]
        return [u]

    def branch(u, facts, blk, i):
        n = {g for k, g, v in atoms_of(f, facts) if k == "g" and not v}
        return (u[0], u[1] | n)
    ins, exits, _ = paths(f, (frozenset(), frozenset()), step, branch)
    handles = {strip(e["l_"])[1] for e in f.events() if e["k"] == "asg" and strip(e["l_"])[0] == "g" and is_null(e["r"])} & m.handle
    live = [(a, n) for a, n in exits if not (n & m.handle and not a)]
    if not live: live = list(exits)
    for g in sorted(m.resolved):
        ctx.ok(R, 1, "%s reset by %s()" % (g, m.downq))
        if any(g not in a and g not in n for a, n in live):
            ctx.violation(R, g, f.loc(), "entry point '%s' keeps its stale address when the library is unloaded by %s()" % (g, m.downq))
    set_h = {strip(e["l_"])[1] for e in m.init.events() if e["k"] == "asg" and strip(e["l_"])[0] == "g" and strip(e["l_"])[1] in m.handle and not is_null(e["r"])
             and not (is_expr(m.init.canon(e["r"])) and m.init.canon(e["r"])[0] == "call" and m.init.canon(e["r"])[1] == "?")}
    for h in sorted(set_h):
        ctx.ok(R, 1, "handle %s" % h)
        if any(h not in a and h not in n for a, n in live):
            ctx.violation(R, h, f.loc(), "'%s' is not reset by %s(): a later initialization would skip loading the library" % (h, m.downq))
    # capability flags: cleared on unload or definitely assigned before initialization succeeds
    flags = {strip(e["l_"])[1] for e in m.init.events() if e["k"] == "asg" and strip(e["l_"])[0] == "g" and e["ty"] in ("bool", "int") and prog.vars.get(strip(e["l_"])[1], {}).get("file", m.file) == m.file}
    for g in sorted(flags):
        ctx.ok(R, 1, "state %s" % g)
        if any(g not in a and g not in n for a, n in live):
            def st(u, e, blk, env):
                if e["k"] == "asg" and strip(e["l_"]) == ["g", g] and e["op"] == "=": return ["set"]
                if e["k"] == "ret" and u == "unset" and (e.get("e") is None or const_int(e["e"]) != 0):
                    guard = any(k == "g" and v and x in m.handle | {"nvtxDomain"} for fs in dom_facts(m.init, blk) for k, x, v in atoms_of(m.init, fs))
                    return ["ok" if guard else "bad"]
                return [u]
            _, ex, _ = paths(m.init, "unset", st)
            if "bad" in ex: ctx.violation(R, g, f.loc(), "'%s' is neither reset by %s() nor set on every path of %s()" % (g, m.downq, m.q))


def guards(ctx, prog, mods, G):
    callers = prog.callers()
    refs = {}
    for f in prog.fns.values():
        for e in f.events():
            for key in EXPR_KEYS:
                x = e.get(key)
                if x is None: continue
                for y in walk(["il", ""] + x if key == "a" else x):
                    if y[0] == "fn": refs.setdefault(y[1], []).append((f, e))
    blk_of = {}

    def block(f, e):
        if f.key not in blk_of: blk_of[f.key] = {id(x): b for b in f.blocks.values() for x in b.ev}
        return blk_of[f.key][id(e)]
    fcache = {}

    def local(f, b):
        k = (f.key, b.id)
        if k not in fcache: fcache[k] = {x for fs in dom_facts(f, b) for x in atoms_of(f, fs)}
        return fcache[k]
    # getters: functions returning one flag
    getter = {}
    for f in prog.fns.values():
        rs = [e for e in f.events() if e["k"] == "ret"]
        if len(rs) == 1 and rs[0].get("e") is not None and gname(f, rs[0]["e"]) and not f.params: getter[f.q] = gname(f, rs[0]["e"])
    writes = {}
    for f in prog.fns.values():
        for b in f.blocks.values():
            for e in b.ev:
                if e["k"] == "asg" and strip(e["l_"])[0] == "g": writes.setdefault(strip(e["l_"])[1], []).append((f, b, e, const_int(e["r"])))
                for key in ("a",):
                    for x in walk(["il", ""] + (e.get("a") or [])):
                        if x[0] == "u" and x[1] == "&" and strip(x[2])[0] == "g": writes.setdefault(strip(x[2])[1], []).append((f, b, e, None))
    ctors, own = {}, {r['q'] for r in prog.recs.values() if r['file'].startswith('src/')}
    for f in prog.fns.values():
        for b in f.blocks.values():
            for e in b.ev:
                if e["k"] == "new": ctors.setdefault(e["ty"].split("[")[0].strip(), []).append((f, b))
    for m in mods:
        gates = {f.key: f for f, e in callers.get(m.key, ())}
        post = {}
        for gk, g in gates.items(): post[gk] = poststates(prog, g, m, getter)
        opt = [v for v in sorted(m.resolved & m.called) if v not in m.table]
        for v in opt:
            fl = m.flag_of.get(v, set())
            sure = v in m.sure
            if v in EXC and not sure: continue

            def holds(facts):
                for k, n, val in facts:
                    if k == "g" and val and (n == v or n in fl): return True
                    if k == "call" and val and (getter.get(n) in fl or sure and n == m.q): return True
                return False
            derived = {}

            def derived_ok(n, val, depth):
                """does the fact `global n is val` imply that v is present?"""
                key = (n, val)
                if key in derived: return derived[key]
                derived[key] = True   # coinductive
                ws = [w for w in writes.get(n, ()) if (w[3] is None or bool(w[3]) == val)]
                init = prog.vars.get(n, {}).get("init")
                start = bool(const_int(init)) if init is not None and const_int(init) is not None else False
                ok = val != start and bool(ws) and n not in m.ptrs and all(guarded(f, b, depth + 1) for f, b, e, c in ws)
                derived[key] = ok
                return ok
            memo = {}

            def fn_guarded(f, depth):
                if f.key in memo: return memo[f.key]
                memo[f.key] = True
                r = None
                if f.key in gates: r = False
                elif f.parent and f.parent in prog.fns:
                    p = prog.fns[f.parent]; r = fn_guarded(p, depth + 1) or any(guarded(p, block(p, e), depth + 1, e) for e in p.events() if any(x[0] == "lam" and x[1] == f.key for key in EXPR_KEYS if e.get(key) is not None for x in walk(["il", ""] + e[key] if key == "a" else e[key])))
                else:
                    # an object that is only created where v is present
                    for t in f.ptypes:
                        ty = t.replace("const ", "").rstrip("*& ")
                        if ty in ctors and ty in own and t.endswith('*') and all(guarded(g, b, depth + 1) for g, b in ctors[ty]): r = True
                    if r is None:
                        sites = callers.get(f.key, []) + refs.get(f.key, [])
                        sites = [(g, e) for g, e in sites if g.key != f.key]
                        if not sites: r = root_ok(frozenset())
                        else: r = all(guarded(g, block(g, e), depth + 1, e) for g, e in sites)
                memo[f.key] = r
                return r

            def root_ok(facts):
                if sure: return True
                if not post: return False
                for gk, states in post.items():
                    for at, vals in states:
                        if any(k == "g" and (n, not val) in vals for k, n, val in facts): continue
                        if not holds(at): return False
                return True

            def guarded(f, b, depth=0, e=None):
                if depth > 40: return False
                if f.key in gates and sure and e is not None: return not gate_bad(prog, f, m, e)
                facts = local(f, b)
                if holds(facts): return True
                if f.key == m.key or f.key == m.downkey: return holds(facts)
                if f.key not in gates and facts and not sure and root_ok(frozenset(facts)) and not init_only(f): return True
                if any(k == "g" and derived_ok(n, val, depth + 1) for k, n, val in facts): return True
                return fn_guarded(f, depth)
            iocache = {}

            def init_only(f):
                """reachable only from the initialization function"""
                if f.key in iocache: return iocache[f.key]
                iocache[f.key] = True
                s = callers.get(f.key, [])
                iocache[f.key] = bool(s) and all(g.key in gates or init_only(g) for g, _ in s)
                return iocache[f.key]
            for f in prog.fns.values():
                for b in f.blocks.values():
                    for e in b.ev:
                        if e["k"] != "call" or e.get("q") or e.get("ce") is None or gname(None, e["ce"]) != v: continue
                        ctx.ok(G, 1, "%s: call of %s" % (f.loc(e), v) if not sure else None)
                        if f.key in gates and sure:
                            if gate_bad(prog, f, m, e): ctx.violation(G, "%s|%s" % (f.display, v), f.loc(e), "'%s' is called although %s() may have failed or was not called" % (v, m.q))
                        elif f.key == m.key:
                            if not holds(local(f, b)) and v not in self_known(m, f, b): ctx.violation(G, "%s|%s" % (f.display, v), f.loc(e), "'%s' is called before it is known to be present" % v)
                        elif f.key == m.downkey and sure: pass
                        elif not guarded(f, b):
                            ctx.violation(G, "%s|%s" % (f.display, v), f.loc(e), "'%s' may be missing from the loaded library (initialization does not insist on it) and is called without a check" % v)


def self_known(m, f, b):
    return {n for fs in dom_facts(f, b) for k, n, v in atoms_of(f, fs) if k == "g" and v}


def gate_bad(prog, f, m, e):
    """in the function that loads the library: can e be reached without a successful load?"""
    hit = []

    def step(u, x, blk, env):
        if x is e and u != "ok": hit.append(u)
        return [u]

    def branch(u, facts, blk, i):
        for k, n, v in atoms_of(f, facts):
            if k == "call" and n == m.q: u = "ok" if v else "failed"
        if u == "none" and any(v and is_expr(strip(c)) and strip(c)[0] in ("v", "g", "m") for c, v in facts): u = "ok"
        return u
    paths(f, "none", step, branch)
    return bool(hit)


def poststates(prog, g, m, getter):
    """(facts, values of boolean globals) at every successful return of the function that loads the library"""
    out = set()

    def step(u, e, blk, env):
        at, vals = u
        if e["k"] == "asg" and strip(e["l_"])[0] == "g" and e["op"] == "=" and e["ty"] == "bool":
            n = strip(e["l_"])[1]; c = const_int(e["r"])
            vals = frozenset(x for x in vals if x[0] != n)
            if c is not None: vals |= {(n, bool(c))}
        if e["k"] == "ret" and (e.get("e") is None or const_int(e["e"]) != 0):
            out.add((at, vals))
        return [(at, vals)]

    def branch(u, facts, blk, i):
        at, vals = u
        new = {x for x in atoms_of(g, facts) if x[0] == "call" and (x[1] in getter or x[1] == m.q) or x[0] == "g" and x[1] in m.ptrs}
        return (at | new, vals)
    init = frozenset()
    # initial value of boolean globals
    names = {strip(e["l_"])[1] for e in g.events() if e["k"] == "asg" and strip(e["l_"])[0] == "g" and e["ty"] == "bool"}
    vals = frozenset((n, bool(const_int(prog.vars[n]["init"]))) for n in names if n in prog.vars and prog.vars[n].get("init") is not None and const_int(prog.vars[n]["init"]) is not None)
    early = set()
    paths(g, (init, vals), step, branch)
    # an early return because initialization already ran says nothing new
    return {(a, v) for a, v in out if any(x[0] == "call" for x in a)} or out


def optix(ctx, prog, m, N):
    for col, nm in ((0, "jitc_optix_table_names_87"), (1, "jitc_optix_table_names_105")):
        v = prog.vars.get(nm)
        if v is None: continue
        init = v["init"]; names = [strip(x)[1] for x in init[2:] if strip(x)[0] == "s"]
        size = int(re.search(r"\[(\d+)\]", v["ty"]).group(1))
        tbl = prog.vars.get(nm.replace("_names", ""))
        ctx.ok(N, 1, "%s: %d names" % (nm, len(names)))
        if len(names) != size or tbl is not None and tbl["ty"] != "void *[%d]" % size:
            ctx.violation(N, nm, "%s:%d" % (v["file"], v["line"]), "%s names %d entry points for a table of %d slots" % (nm, len(names), size))
        for fn, slots in OPTIX.items():
            if slots[col] is None: continue
            ctx.ok(N)
            if fn not in names or names.index(fn) != slots[col]:
                ctx.violation(N, "%s|%s" % (nm, fn), "%s:%d" % (v["file"], v["line"]), "'%s' is not at slot %d of %s" % (fn, slots[col], nm))
    # every literal handed to the table lookup exists
