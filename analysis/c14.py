"""C14: asynchronous work only uses memory that outlives it."""
from .core import *
from .c02 import may_throw_fns
from .c20 import dom_facts
import re


def mname(q): return (q or "").split("::")[-1]
SUBMIT = ("task_submit", "task_submit_dep")
RELEASE = ("jitc_free",)          # releasing registered memory: failure means corrupt bookkeeping (C13)
ALLOC = ("jitc_malloc",)
WAIT = ("task_wait", "task_wait_and_release")
SYNC = ("jitc_sync_thread", "jitc_sync_all_devices", "jitc_sync_device")


def is_head(e):
    e = strip(e) if e is not None else None
    return is_expr(e) and e[0] == "g" and e[1].split("::")[-1] == "jitc_task"


def var_ty(f, v):
    m = f.__dict__.get("_c14_ty")
    if m is None:
        m = {}
        for e in f.events():
            if e["k"] == "decl": m[e["v"]] = e.get("ty") or ""
        for a, t in zip(f.params, f.ptypes): m.setdefault(a, t)
        f.__dict__["_c14_ty"] = m
    return m.get(v, "")


def is_ptr(t): return (t or "").rstrip().replace("const", "").rstrip().endswith("*")
def is_ref(t): return (t or "").rstrip().endswith("&")
def is_arr(t): return "[" in (t or "")


def peel(x):
    """strip casts and pointer arithmetic from a pointer expression"""
    x = strip(x) if x is not None else None
    while is_expr(x):
        if x[0] in ("cast", "ic"): x = strip(x[-1]); continue
        if x[0] == "bi" and x[1] in ("+", "-"): x = strip(x[2]); continue
        if x[0] == "u" and x[1] == "&" and is_expr(strip(x[2])) and strip(x[2])[0] == "ix":
            x = strip(strip(x[2])[1]); continue
        return x
    return x


def root_var(x):
    """the local variable that owns the storage of lvalue x (no pointer dereference in between), or None"""
    x = strip(x) if x is not None else None
    while is_expr(x):
        if x[0] == "v": return x[1]
        if x[0] == "m" and not x[4]: x = strip(x[1]); continue
        if x[0] == "ix": x = strip(x[1]); continue
        if x[0] in ("cast", "ic"): x = strip(x[-1]); continue
        return None
    return None


def stack_addr(p, f, x, depth=0):
    """name of the local object of f whose storage the pointer (or struct) value x refers to, or None"""
    if depth > 6: return None
    x = peel(x)
    if not is_expr(x): return None
    if x[0] == "u" and x[1] == "&":
        r = root_var(x[2])
        if r is not None and not is_ref(var_ty(f, r)): return r if owned(f, r, x[2]) else None
        return None
    if x[0] == "v":
        t = var_ty(f, x[1])
        if is_arr(t) and x[1] not in f.params: return x[1]
        if x[1] in f.params: return None
        for kind, d, _ in f.defs().get(x[1], []):
            if d is not None:
                s = stack_addr(p, f, d, depth + 1)
                if s: return s
        return None
    if x[0] == "m" and not x[4]:
        r = root_var(x)
        if r and r not in f.params and not is_ptr(var_ty(f, r)):
            for e in f.events():   # fields of local structs
                if e["k"] == "asg" and estr(e["l_"], f) == estr(x, f):
                    s = stack_addr(p, f, e["r"], depth + 1)
                    if s: return s
        return None
    if x[0] == "?": return stack_addr(p, f, x[2], depth + 1) or stack_addr(p, f, x[3], depth + 1)
    if x[0] == "il":
        for y in x[2:]:
            s = stack_addr(p, f, y, depth + 1)
            if s: return s
        return None
    q, obj, args, tgt = None, None, [], []
    if x[0] == "ev" and x[1] in f.evi:
        e = f.evi[x[1]]
        if e["k"] == "ctor" and len(e["a"]) == 1: return stack_addr(p, f, e["a"][0], depth + 1)
        if e["k"] != "call": return None
        q, obj, args, tgt = e.get("q"), e.get("obj"), e["a"], p.targets(e)
    elif x[0] == "call": q, obj, args = x[1], x[2], x[3:]
    else: return None
    if mname(q) in ("get", "data", "c_str", "begin") and obj is not None:
        r = root_var(obj)
        if r and r not in f.params and not is_ref(var_ty(f, r)) and not is_ptr(var_ty(f, r)): return r
        return None
    for t in tgt:      # records with pointers built from a reference to a local object
        R = [r for r in p.recs.values() if r["q"] == t.ret.replace("const", "").strip()]
        if R and any(is_ptr(fl[1]) for fl in R[0]["fields"]):
            for a, ty in zip(args, t.ptypes):
                if is_ref(ty) or is_ptr(ty):
                    y = strip(a)
                    if is_ref(ty) and is_expr(y) and root_var(y) and not is_ref(var_ty(f, root_var(y))): return root_var(y)
                    s = stack_addr(p, f, a, depth + 1)
                    if s: return s
    return None


def owned(f, r, lv):
    """the storage of lvalue lv belongs to local r (not to memory r points to)"""
    x = strip(lv)
    while is_expr(x) and x[0] in ("m", "ix", "cast", "ic"):
        if x[0] == "m" and x[4]: return False
        if x[0] == "ix":
            b = strip(x[1])
            if is_expr(b) and b[0] == "v" and is_ptr(var_ty(f, b[1])): return False
            if is_expr(b) and b[0] == "m":  # member array vs. member pointer is not distinguished: arrays only
                pass
        x = strip(x[1]) if x[0] in ("m", "ix") else strip(x[-1])
    return True


class Async:
    def __init__(s, ctx, p):
        s.ctx, s.p = ctx, p
        s.MT = may_throw_fns(p)
        # functions that run a functor asynchronously
        s.takers = {f.key for f in p.fns.values() if any(e["k"] == "call" and mname(e.get("q")) in SUBMIT for e in f.events())}
        changed = True
        while changed:
            changed = False
            for f in p.repo_fns(("src/",)):
                if f.key in s.takers or not f.params: continue
                for e in f.events():
                    if e["k"] == "call" and any(t.key in s.takers for t in p.targets(e)):
                        for a in e["a"]:
                            for w in walk(f.canon(a)):
                                if w[0] == "v" and w[1] in f.params and "lambda" in (var_ty(f, w[1]) or ""):
                                    s.takers.add(f.key); changed = True
        s.wcache = {}

    def relevant(s, f): return any(mname(e.get("q")) in SUBMIT for e in f.events() if e["k"] == "call")

    def inlined(s, f):
        """static helpers that wait or read the chain head are analysed in the context of their caller"""
        c = s.wcache.get(f.key)
        if c is None:
            def want(h, e, t):
                return t.file == f.file and t.internal and any(y["k"] == "call" and mname(y.get("q")) in WAIT + SYNC for y in t.events()) and not s.relevant(t)
            c = s.wcache[f.key] = inline(s.p, f, want, 2)
        return c

    def wait_after(s, f, ev):
        """None if all paths from submission 'ev' wait for it before leaving f; else (event or None, reason)"""
        p = s.p
        g = f
        bad = []

        def step(u, e, blk, env):
            pend, heads = u
            if e is ev: return [(1, frozenset())]
            if not pend: return [u]
            if e["k"] == "decl" and is_head(e.get("init")): return [(1, heads | {e["v"]})]
            if e["k"] == "asg" and strip(e["l_"])[0] == "v":
                v = strip(e["l_"])[1]
                return [(1, heads | {v} if is_head(e["r"]) else heads - {v})]
            if e["k"] == "call" and mname(e.get("q")) in WAIT and e["a"]:
                x = strip(e["a"][0])
                if is_head(x) or (is_expr(x) and x[0] == "v" and x[1] in heads): return [(0, frozenset())]
            if e["k"] in ("call", "ctor"):
                T = p.targets(e)
                if mname(e.get("q")) not in RELEASE and any(t.key in s.MT for t in T) and "try" not in e:
                    bad.append((e, "may raise an exception before the work has finished"))
                if mname(e.get("q")) in SYNC: return [(0, frozenset())]
            if e["k"] == "throw" and "try" not in e: bad.append((e, "raises an exception before the work has finished"))
            return [u]

        def branch(u, facts, blk, i):
            for c, v in facts:
                x = strip(c)
                if is_expr(x) and x[0] == "v" and x[1] in u[1] and not v: return None
                if is_expr(x) and x[0] == "u" and x[1] == "!" and is_expr(strip(x[2])) and strip(x[2])[0] == "v" and strip(x[2])[1] in u[1] and v: return None
            return u
        ins, exits, tr = paths(g, (0, frozenset()), step, branch, limit=2000, track=False)
        for u in exits:
            if u[0]: return (None, "is not waited for on some path before the function returns")
        return bad[0] if bad else None


def run(ctx):
    ctx.rule("capture", "work executed by other threads captures by reference (or through pointers) only storage of the submitter that is kept alive until the work was waited for, including when errors are raised")
    ctx.rule("payload", "payloads of tasks are copied with their full size, or handed over together with a deleter")
    ctx.rule("argument", "storage of the calling function is passed to asynchronous operations only if the caller waits for them")
    ctx.rule("scratch", "temporary device/host buffers are released exactly once on every normal path, and not used by work submitted after their release")
    p = ctx.prog("full")
    A = Async(ctx, p)
    ap = {}
    capture(ctx, p, A, ap)
    arguments(ctx, p, A, ap)
    for cfg in (("full",) if ctx.tier == "quick" else ("full", "cuda", "llvm")): scratch(ctx, ctx.prog(cfg), A if cfg == "full" else None)
    ctx.floor("capture", 10); ctx.floor("payload", 2); ctx.floor("scratch", 15)


def lam_of(f, x):
    x = f.canon(x)
    for w in walk(x):
        if w[0] == "lam": return w
    return None


def capture(ctx, p, A, ap):
    for f0 in p.repo_fns():
        f = A.inlined(f0)
        for e in list(f.events()):
            if e["k"] not in ("call", "ctor"): continue
            q = e.get("q") or e.get("ty") or ""
            thread = "std::thread" in q and (e["k"] == "ctor" or mname(q) == "thread")
            task = e["k"] == "call" and (mname(q) in SUBMIT or any(t.key in A.takers and any("lambda" in (ty or "") for ty in t.ptypes) for t in p.targets(e)))
            if not thread and not task: continue
            if e["k"] == "call" and mname(q) in SUBMIT: payload(ctx, p, A, f, f0, e, ap)
            for a in e["a"]:
                L = lam_of(f, a)
                if L is None: continue
                problems = []
                for cap in (L[2] or []):
                    v, byref, ty, init = cap[0], cap[1], cap[2], cap[3]
                    if v == "this": continue
                    if byref:
                        if v in f.params and is_ref(var_ty(f, v)): ap.setdefault(f0.key, {})[f.params.index(v)] = e; continue
                        problems.append((v, "captures '%s' by reference" % v.split(":")[0]))
                    else:
                        x = peel(f.canon(init)) if init is not None else None
                        if is_expr(x) and x[0] == "v" and x[1] in f.params and (is_ptr(var_ty(f, x[1]))):
                            ap.setdefault(f0.key, {}).setdefault(f.params.index(x[1]), e)
                        s_ = stack_addr(p, f, init)
                        if s_: problems.append((v, "captures '%s', which points to the local variable '%s'" % (v.split(":")[0], s_.split(":")[0])))
                w = None
                if problems:
                    w = ("thread", "is executed by a detached thread") if thread else A.wait_after(f, e)
                if problems and w is not None:
                    for v, m in problems:
                        ctx.violation("capture", "%s:%s" % (f0.q, v.split(":")[0]), f0.loc(e), "asynchronous work %s, but %s" % (m, ("the submitting function %s" % w[1]) if w[0] is not None and w[0] != "thread" else ("it %s" % w[1])))
                else: ctx.ok("capture", 1, "%s:%d" % (f0.q, e["l"]))


def sizeof_of(x):
    for w in walk(x):
        if w[0] == "sizeof": return w
    return None


def payload(ctx, p, A, f, f0, e, ap):
    """task_submit_dep(pool, parent, parent_count, size, func, payload, payload_size, payload_deleter, ..)"""
    a = e["a"]
    off = 0 if mname(e["q"]) == "task_submit_dep" else -2
    if len(a) < 6 + off: return
    pl = a[5 + off]; size = a[6 + off] if len(a) > 6 + off else None; dele = a[7 + off] if len(a) > 7 + off else None
    x = strip(f.canon(pl))
    none = lambda y: y is None or (is_expr(strip(y)) and (strip(y)[0] in ("null", "def") and (strip(y)[0] == "null" or strip(y)[-1] is None or (is_expr(strip(y)[-1]) and strip(y)[-1][0] == "null") or const_int(strip(y)) == 0)) or (const_int(y) == 0))
    if none(pl): ctx.ok("payload", 1, f0.q); return
    if not none(dele):
        s_ = stack_addr(p, f, pl)
        y = peel(pl); y = f.evi.get(y[1]) if is_expr(y) and y[0] == "ev" else None
        z = peel(f.canon(pl))
        if s_ and not (y is not None and mname(y.get("q")) == "release"):
            ctx.violation("payload", "%s:payload" % f0.q, f0.loc(e), "the task deletes its payload although '%s' keeps owning it" % s_.split(":")[0])
        else: ctx.ok("payload", 1, f0.q)
        return
    c = const_int(size) if size is not None else 0
    if c == 0:
        s_ = stack_addr(p, f, pl)
        if s_ and A.wait_after(f, e) is not None: ctx.violation("payload", "%s:payload" % f0.q, f0.loc(e), "the task payload '%s' is neither copied nor kept alive" % s_.split(":")[0])
        else: ctx.ok("payload", 1, f0.q)
        return
    # copied: the size must cover the object
    y = peel(pl)
    ok, why = True, ""
    cs = f.canon(size)
    if peel(size) is not None and is_expr(peel(size)) and peel(size)[0] == "sizeof": cs = peel(size)
    so = sizeof_of(cs) if is_expr(cs) else None
    if is_expr(y) and y[0] == "u" and y[1] == "&":
        r = root_var(y[2])
        t = var_ty(f, r) if r else None
        if t and so is not None and so[1].replace("const", "").strip() == t.replace("const", "").strip() and is_expr(strip(peel(size))) and strip(peel(size))[0] == "sizeof": pass
        elif t and c is not None:
            want = type_size(p, t)
            if want is not None and want != c: ok, why = False, "%d of %d bytes are copied" % (c, want)
    else:
        z = f.canon(pl)
        names = [w[2] for w in walk(z) if w[0] == "call" and mname(w[1]) in ("data", "get")]
        if names:
            o = estr(names[0], f)
            szs = [w for w in walk(cs) if w[0] == "call" and mname(w[1]) == "size"]
            if not szs or estr(szs[0][2], f) != o: ok, why = False, "the number of copied bytes is not derived from its size"
            elif not (is_expr(strip(cs)) and any(w[0] == "bi" and w[1] == "*" for w in walk(cs))): ok, why = False, "the number of elements is used as the number of bytes"
    if ok: ctx.ok("payload", 1, f0.q)
    else: ctx.violation("payload", "%s:payload" % f0.q, f0.loc(e), "the task payload is copied incompletely (%s)" % why)


def type_size(p, t):
    t = t.replace("const", "").strip()
    if is_ptr(t): return 8
    R = [r for r in p.recs.values() if r["q"] == t or r.get("key") == t]
    if len(R) > 1: return None
    for r in R:
        if True: return (r["size"] // 8 if r.get("size") and r["size"] > 4096 * 8 else r.get("size"))
    return {"int": 4, "unsigned int": 4, "float": 4, "double": 8, "unsigned long": 8, "long": 8, "char": 1}.get(t)


def arguments(ctx, p, A, ap):
    """pointer parameters that reach asynchronous work, and the call sites that pass local storage for them"""
    for f in p.fns.values():   # callbacks executed by the driver
        pass
    # parameters of waiting functions do not escape
    def settle(fk, i, e): return A.wait_after(A.inlined(p.fns[fk]), e) is None
    AP = set()
    work = []
    for fk, d in ap.items():
        for i, e in d.items():
            if not settle(fk, i, e): AP.add((fk, i)); work.append((fk, i))
    for f in p.repo_fns():
        for e in f.events():
            if e["k"] == "call" and mname(e.get("q") or "") == "cuLaunchHostFunc" and len(e["a"]) > 2:
                x = peel(f.canon(e["a"][2]))
                if is_expr(x) and x[0] == "v" and x[1] in f.params and (f.key, f.params.index(x[1])) not in AP:
                    AP.add((f.key, f.params.index(x[1]))); work.append((f.key, f.params.index(x[1])))
    C = p.callers()
    sites = []
    while work:
        fk, i = work.pop()
        # virtual dispatch: callers() already includes all overriders
        for c, e in C.get(fk, ()):
            if not c.file.startswith("src/"): continue
            if i >= len(e["a"]): continue
            t = p.fns[fk]
            if is_ref(t.ptypes[i]) and not is_ptr(t.ptypes[i]): a = ["u", "&", e["a"][i]]
            else: a = e["a"][i]
            x = peel(c.canon(a))
            if is_expr(x) and x[0] == "v" and x[1] in c.params and is_ptr(var_ty(c, x[1])):
                k = (c.key, c.params.index(x[1]))
                if k not in AP and not settle(c.key, k[1], e): AP.add(k); work.append(k)
            sites.append((c, e, a, fk, i))
    n = 0
    for c, e, a, fk, i in sites:
        s_ = stack_addr(p, c, a)
        if s_ is None: n += 1; continue
        if "LLVMThreadState" in fk or (p.fns[fk].cls or "").startswith("LLVM"):
            if other_backend(c, e): n += 1; continue
        w = A.wait_after(c, e)
        if w is None: n += 1; continue
        ctx.violation("argument", "%s:%s" % (c.q, s_.split(":")[0]), c.loc(e), "the local variable '%s' is passed to the asynchronous operation %s(), which %s" % (s_.split(":")[0], mname(e.get("q")), w[1]))
    ctx.ok("argument", n, "%d asynchronous pointer parameters" % len(AP))


def other_backend(f, e):
    blk = next((b for b in f.blocks.values() if any(x is e for x in b.ev)), None)
    if blk is None: return False
    for c, v in dom_facts(f, blk.id):
        s = estr(f.canon(c), f)
        if ("jitc_is_cuda" in s or "JitBackend::CUDA" in s or "jitc_is_metal" in s or "JitBackend::Metal" in s) and "!" not in s and v: return True
        if "jitc_is_llvm" in s and not v: return True
    return False


# ---------------------------------------------------------------- scratch buffers
def keeps(p):
    """{(fn key, param index)}: functions that take over a pointer argument (store it outside of the frame, or release it)"""
    K, Fr = set(), set()
    changed = True
    # recorders remember pointers to identify them, they do not take them over
    fns = [f for f in p.repo_fns(("src/", "include/")) if any(is_ptr(t) for t in f.ptypes) and "Record" not in (f.cls or "")]
    first = True
    while changed:
        changed = False
        for f in fns:
            pm = {a: i for i, a in enumerate(f.params) if is_ptr(f.ptypes[i])}
            for e in f.events():
                hit = []
                if e["k"] == "asg":
                    x = peel(f.canon(e["r"])); l = strip(e["l_"])
                    if is_expr(x) and x[0] == "v" and x[1] in pm and is_expr(l) and l[0] != "v" and (root_var(l) is None or is_ref(var_ty(f, root_var(l))) or is_ptr(var_ty(f, root_var(l))) or var_ty(f, root_var(l)).strip() == "Variable"): hit.append((pm[x[1]], K))
                elif e["k"] == "ret" and e.get("e") is not None:
                    x = peel(f.canon(e["e"]))
                    if is_expr(x) and x[0] == "v" and x[1] in pm: hit.append((pm[x[1]], K))
                elif e["k"] == "call":
                    for j, a in enumerate(e["a"]):
                        x = peel(f.canon(a))
                        if not (is_expr(x) and x[0] == "v" and x[1] in pm): continue
                        if mname(e.get("q")) in RELEASE: hit.append((pm[x[1]], Fr)); continue
                        if mname(e.get("q")) in ("push_back", "emplace_back", "insert", "emplace", "try_emplace"): hit.append((pm[x[1]], K))
                        for t in p.targets(e):
                            if (t.key, j) in K: hit.append((pm[x[1]], K))
                            if (t.key, j) in Fr: hit.append((pm[x[1]], Fr))
                for i, S in hit:
                    if (f.key, i) not in S: S.add((f.key, i)); changed = True
    return K, Fr


def scratch(ctx, p, A):
    K, Fr = keeps(p)
    nfun = 0
    for f0 in p.repo_fns():
        if not any(e["k"] == "call" and mname(e.get("q")) in ALLOC for e in f0.events()): continue
        if f0.q in ("jit_malloc", "jitc_malloc"): continue
        f = f0
        r = typestate(ctx, p, f, K, Fr)
        nfun += 1
        seen = set()
        for e, var, m in r:
            if (var, m) in seen: continue
            seen.add((var, m))
            ctx.violation("scratch", "%s:%s" % (f0.q, var), f0.loc(e), m)
        if not r: ctx.ok("scratch", sum(1 for e in f.events() if e["k"] == "call" and mname(e.get("q")) in ALLOC), f0.q)


def typestate(ctx, p, f, K, Fr):
    out = []
    allocs = {e["i"]: e for e in f.events() if e["k"] == "call" and mname(e.get("q")) in ALLOC}
    AT = f.address_taken()
    # conditions that occur more than once and depend on never-modified values only: correlated
    def stable(x):
        for w in walk(x):
            if w[0] == "v" and w[1] in AT: return False
            if w[0] in ("ev", "call"):
                e = f.evi.get(w[1]) if w[0] == "ev" else None
                if not (e is not None and e["k"] == "call" and mname(e.get("q")) in ("jitc_is_cuda", "jitc_is_llvm", "jitc_is_metal", "jitc_is_gpu", "jitc_is_host")): return False
        return True

    def atoms(c, v):
        todo, res = [(c, v)], []
        while todo:
            x, w = todo.pop()
            x = strip(x)
            if is_expr(x) and x[0] == "ev" and x[1] in f.evi:
                y = f.evi[x[1]]
                if y["k"] == "call" and mname(y.get("q")) == "__builtin_expect": todo.append((y["a"][0], w)); continue
            if is_expr(x) and x[0] == "u" and x[1] == "!": todo.append((x[2], not w)); continue
            res.append((x, w))
            if is_expr(x) and x[0] == "v":
                d = strip(f.unique_def(x[1])) if f.unique_def(x[1]) is not None else None
                if is_expr(d) and d[0] in ("bi", "u"): todo.append((d, w))
            if is_expr(x) and x[0] == "bi" and x[1] == "&&" and w: todo += [(x[2], w), (x[3], w)]
            if is_expr(x) and x[0] == "bi" and x[1] == "||" and not w: todo += [(x[2], w), (x[3], w)]
        return res

    def vars_in(x):
        vs = set()
        for w in walk(x):
            if w[0] == "v": vs.add(w[1])
            if w[0] == "ev" and w[1] in f.evi:
                for a in f.evi[w[1]].get("a", []): vs |= vars_in(a)
        return frozenset(vs)

    def uncast(x):
        x = strip(x)
        while is_expr(x) and x[0] in ("cast", "ic"): x = strip(x[-1])
        return x

    def key(x):
        """normal form of a condition: (text, negated); counts are assumed to be positive, hence 'n == 1' is 'not n > 1'"""
        x = uncast(x)
        if is_expr(x) and x[0] == "bi" and x[1] in (">", "<", "<=", ">=", "==", "!="):
            op, a, b = x[1], uncast(x[2]), uncast(x[3])
            if const_int(a) is not None and const_int(b) is None:
                a, b = b, a; op = {">": "<", "<": ">", "<=": ">=", ">=": "<="}.get(op, op)
            c = const_int(b)
            if c is not None and (op, c) in ((">", 1), ("!=", 1), (">=", 2)): return estr(a, f) + " > 1", False
            if c is not None and (op, c) in (("==", 1), ("<", 2), ("<=", 1)): return estr(a, f) + " > 1", True
            neg = {"<=": ">", ">=": "<", "!=": "=="}
            if op in neg: return "%s %s %s" % (estr(a, f), neg[op], estr(b, f)), True
            return "%s %s %s" % (estr(a, f), op, estr(b, f)), False
        return estr(x, f), False

    def lkey(x):
        """key of a tracked place: local variable or field of a local record"""
        x = strip(x)
        if not is_expr(x): return None
        if x[0] == "v": return x[1]
        if x[0] == "m" and not x[4]:
            r = root_var(x)
            if r and r not in f.params and not is_ref(var_ty(f, r)): return r + "." + estr(x, f).split(".", 1)[1]
        return None

    def val(env, x):
        x = peel(x)
        if not is_expr(x): return None
        if x[0] == "ev" and x[1] in allocs: return ("tok", x[1])
        if x[0] == "null" or const_int(x) == 0: return ("null",)
        if x[0] == "ev" and x[1] in f.evi and f.evi[x[1]]["k"] == "asg": return val(env, f.evi[x[1]]["l_"])
        k = lkey(x)
        if k is not None:
            if k in env: return env[k]
            if x[0] == "v": return ("var", k)
        if x[0] == "asg": return None
        return None

    def reads(env, st, e, x):
        if "F" not in st.values(): return
        for w in walk(x):
            y = w[1] if w[0] == "ix" else w[2] if w[0] == "u" and w[1] == "*" else w[1] if w[0] == "m" and w[4] else None
            v = val(env, y) if y is not None else None
            if v and v[0] == "tok" and st.get(v[1]) == "F": out.append((e, name(v[1]), "accesses a temporary buffer after its release"))

    def name(t):
        for e in f.events():
            for l, r in ([(e["v"], e.get("init"))] if e["k"] == "decl" else [(estr(e["l_"], f), e["r"])] if e["k"] == "asg" else []):
                if r is not None and any(w[0] == "ev" and w[1] == t for w in walk(r)): return l.split(":")[0]
        return "buffer"

    def freeze(env, st, facts): return (tuple(sorted(env.items())), tuple(sorted(st.items())), facts)

    def toks(env, x):
        """tokens mentioned in an expression (through single-definition locals, captures and local records)"""
        res = set()
        vs = set()
        for w in walk(x):
            if w[0] == "lam":
                for cap in (w[2] or []): vs.add(cap[0])
            if w[0] == "v": vs.add(w[1])
            if w[0] == "ev" and w[1] in allocs: res.add(w[1])
            if w[0] == "ev" and w[1] in f.evi and w[1] not in allocs:
                y = f.evi[w[1]]
                if y["k"] == "ctor":
                    for b in y["a"]: res |= toks(env, b)
        for v in vs:
            for k, t in env.items():
                if (k == v or k.startswith(v + ".")) and t and t[0] == "tok": res.add(t[1])
            u = f.unique_def(v)
            if u is not None and v not in env and is_expr(peel(u)) and peel(u)[0] in ("lam", "v", "il"): res |= toks(env, u)
        return res

    def step(u, e, blk, env_):
        env, st, facts = dict(u[0]), dict(u[1]), u[2]
        k = e["k"]
        mod = e["v"] if k == "decl" else root_var(e["l_"]) if k == "asg" else root_var(e["e"]) if k == "inc" else None
        if mod is not None and any(mod in y[2] for y in facts):
            facts = frozenset(y for y in facts if mod not in y[2])
            u = (u[0], u[1], facts)
        for xx in ("init", "r", "e"):
            if k in ("decl", "asg", "ret") and is_expr(e.get(xx)): reads(env, st, e, e[xx])
        for a in (e["a"] if k == "call" else []): reads(env, st, e, a)
        def assign(l, r, e):
            x = peel(r)
            if is_expr(x) and x[0] == "?":
                res = []
                for v, b in ((True, x[2]), (False, x[3])):
                    ok, fs = True, facts
                    for a, w in atoms(x[1], v):
                        if not stable(a): continue
                        n, neg = key(a)
                        if any(y[:2] == (n, w == neg) for y in fs): ok = False   # contradiction
                        fs = fs | {(n, w != neg, vars_in(a))}
                    if ok:
                        e2, s2 = dict(env), dict(st)
                        put(e2, s2, l, b, e)
                        res.append(freeze(e2, s2, fs))
                return res
            put(env, st, l, r, e)
            return [freeze(env, st, facts)]
        def put(env, st, l, r, e):
            v = val(env, r)
            lk = lkey(l)
            x = peel(r)
            if v and v[0] == "tok" and st.get(v[1]) is None: st[v[1]] = "A"
            if lk is None:
                if v and v[0] == "tok":
                    if st.get(v[1]) == "F": out.append((e, name(v[1]), "stores a buffer that was already released"))
                    st[v[1]] = "E"
                return
            if v is None or (v[0] == "null" and not is_ptr(var_ty(f, lk)) and "." not in lk) or (v[0] == "var" and not is_ptr(var_ty(f, v[1]))): env.pop(lk, None)
            else: env[lk] = v
        if k == "call" and e.get("i") in allocs:
            st[e["i"]] = "A"
            return [freeze(env, st, facts)]
        if k == "decl":
            if e.get("init") is None: env.pop(e["v"], None); return [freeze(env, st, facts)]
            x = peel(e["init"])
            if is_ref(e.get("ty")): return [u]
            if is_expr(x) and x[0] == "il":
                R = None
                # aggregate initialisation: fields in order
                for y in x[2:]:
                    for t in toks(env, y):
                        env[e["v"] + ".#%d" % t] = ("tok", t)
                return [freeze(env, st, facts)]
            return assign(["v", e["v"]], e["init"], e)
        if k == "asg" and e.get("op", "=") == "=": return assign(e["l_"], e["r"], e)
        if k == "ret" and e.get("e") is not None:
            x = peel(e["e"])
            parts = [x]
            if is_expr(x) and x[0] == "il": parts = x[2:]
            if is_expr(x) and x[0] == "ev" and x[1] in f.evi and f.evi[x[1]]["k"] == "ctor": parts = f.evi[x[1]]["a"]
            for y in parts:
                v = val(env, y)
                if v and v[0] == "tok":
                    if st.get(v[1]) == "F": out.append((e, name(v[1]), "returns a buffer that was already released"))
                    st[v[1]] = "E"
            return [freeze(env, st, facts)]
        if k in ("call", "ctor"):
            q = mname(e.get("q"))
            if q in RELEASE and e["a"]:
                v = val(env, e["a"][0])
                if v and v[0] == "tok":
                    t = v[1]
                    if st.get(t) == "F": out.append((e, name(t), "releases a temporary buffer twice"))
                    elif st.get(t) == "E": pass
                    st[t] = "F"
                return [freeze(env, st, facts)]
            T = p.targets(e)
            for j, a in enumerate(e["a"]):
                for t in toks(env, a):
                    if st.get(t) == "F": out.append((e, name(t), "uses a temporary buffer after its release (passed to %s())" % (q or "function"))); continue
                    x = peel(a)
                    direct = is_expr(x) and (val(env, x) == ("tok", t))
                    if any((tt.key, j) in Fr for tt in T) and direct: st[t] = "F"
                    elif q in ("jitc_var_mem_map", "jit_var_mem_map") and len(e["a"]) == 5 and const_int(e["a"][4]) == 0: pass   # not owned by the new variable
                    elif any((tt.key, j) in K for tt in T) and direct: st[t] = "E"
                    elif q in ("push_back", "emplace_back", "insert", "emplace", "try_emplace") and e.get("obj") is not None:
                        st[t] = st.get(t)
                    elif is_expr(x) and x[0] == "v" and var_ty(f, x[1]).replace("const", "").strip() == "Variable": st[t] = "E"
                    elif is_expr(x) and x[0] == "lam" : pass
            return [freeze(env, st, facts)]
        return [u]

    def branch(u, facts, blk, i):
        env, st, fs = dict(u[0]), dict(u[1]), u[2]
        for c, v in facts:
            for x, w in atoms(c, v):
                if is_expr(x) and x[0] in ("v", "m"):
                    t = val(env, x)
                    if t == ("null",) and w: return None
                    if t and t[0] == "tok" and not w: return None
                    if t and t[0] == "tok": continue
                if is_expr(x) and x[0] == "bi" and x[1] in ("==", "!="):
                    a, b = val(env, x[2]), val(env, x[3])
                    if a and b and ("tok" in (a[0], b[0]) or a == b):
                        if (a == b) != ((x[1] == "==") == w): return None
                        continue
                if stable(x):
                    n, neg = key(x)
                    val_ = w != neg
                    if any(y[:2] == (n, not val_) for y in fs): return None
                    if n in repeated(): fs = fs | {(n, val_, vars_in(x))}
        return freeze(env, st, fs)

    rep = []
    def repeated():
        if not rep:
            cnt = {}
            for b in f.blocks.values():
                if b.term and b.term[1] is not None and len(b.succ) == 2:
                    for x, w in atoms(b.term[1], True) + atoms(b.term[1], False):
                        n, _ = key(x); cnt[n] = cnt.get(n, 0) + 1
            for e in f.events():
                for xx in (e.get("init"), e.get("r")):
                    if is_expr(xx):
                        for w_ in walk(xx):
                            if w_[0] == "?":
                                for x, w in atoms(w_[1], True): n, _ = key(x); cnt[n] = cnt.get(n, 0) + 2
            rep.append({n for n, c in cnt.items() if c > 2})
        return rep[0]

    ins, exits, tr = paths(f, freeze({}, {}, frozenset()), step, branch, limit=4000, track=False)
    for u in exits:
        for t, s_ in u[1]:
            if s_ == "A": out.append((allocs[t], name(t), "the temporary buffer '%s' is not released on some path" % name(t)))
    return out
