"""C13: allocator bookkeeping.  Every function that changes the allocation tables is executed abstractly for every combination of backend, sharing and
ownership; the changes made to tables and statistics along each path must cancel.  Further rules: operating-system allocation primitives, pairing of
allocation and release primitives, reuse of released buffers, deferred releases, draining of the cache."""
from .core import *
from .absint import Interp, Blowup
from .c02 import may_throw_fns
from .c03 import loops_of, dominators
import itertools, re

TAB = ("alloc_used", "alloc_free", "alloc_usage", "alloc_allocated", "alloc_watermark")
OS_ALLOC = {"posix_memalign": "malloc", "aligned_alloc": "malloc", "malloc": "malloc", "mmap": "mmap", "cuMemAllocHost": "cuHost", "cuMemAllocAsync": "cuAsync", "cuMemAlloc": "cuDev", "metal_buffer_new": "metal"}
OS_FREE = {"free": "malloc", "munmap": "mmap", "cuMemFreeHost": "cuHost", "cuMemFreeAsync": "cuAsync", "cuMemFree": "cuDev", "metal_buffer_free": "metal"}


# raises only for pointers unknown to the recording, and is only active for known ones
NOTHROW = ("ThreadState::notify_free",)


def nm(e):
    q = e.get("q")
    if q: return q.split("::")[-1]
    c = e.get("ce")
    c = strip(c) if c is not None else None
    return c[1].split("::")[-1] if is_expr(c) and c[0] == "g" else ""


def tab(f, e):
    """name of the allocation table (member of the library state) an expression denotes"""
    e = strip(f.canon(e)) if e is not None else None
    if is_expr(e) and e[0] == "u" and e[1] == "*": e = strip(e[2])
    if is_expr(e) and e[0] == "m" and e[2] in TAB and e[3] == "State": return e[2]
    return None


def mentions(f, e, t):
    return e is not None and any(x[0] == "m" and x[2] == t and x[3] == "State" for x in walk(f.canon(e)))


def mutates(f):
    for e in f.events():
        if e["k"] in ("asg", "inc"):
            l = e.get("l_", e.get("e"))
            if any(mentions(f, l, t) for t in TAB): return True
        if e["k"] == "call" and e.get("obj") is not None and nm(e) in ("emplace", "insert", "insert_or_assign", "try_emplace", "erase", "erase_fast", "push_back", "emplace_back", "pop_back", "swap", "clear") \
                and any(mentions(f, e["obj"], t) for t in TAB): return True
    return False


class Unit:
    """one function whose effect on the tables is balanced"""
    def __init__(s, ctx, p, f, rules, thr):
        s.ctx, s.p, s.f, s.R, s.thr = ctx, p, f, rules, thr
        s.bound = {}   # structured binding -> (origin key, type)
        for e in f.events():
            if e["k"] == "decl" and e.get("bind") and "tuple" in (e.get("ty") or ""):
                for b in e["bind"]: s.bound[b] = e["v"]
        s.btype = {}
        for e in f.events():
            if e["k"] == "decl" and e["v"] in s.bound: s.btype[e["v"]] = e["ty"].replace("&", "").strip()
        s.case = {}

    def origin(s, e):
        """the search in the table of live allocations that an expression was read from"""
        for x in walk(s.f.canon(e)):
            if x[0] == "call" and x[1].split("::")[-1] in ("find", "at") and mentions(s.f, x, "alloc_used"): return "entry(%s)" % repr(x[3:])
        return None

    def decoded(s, v):
        """(origin) of a variable bound to a component of an allocation record"""
        if v not in s.bound: return None
        d = [e for e in s.f.events() if e["k"] == "decl" and e["v"] == s.bound[v]]
        return s.origin(d[0]["init"]) if d else None

    def special(s, it, e, env):
        if e[0] == "ev":
            v = s.f.evi.get(e[1])
            if v is not None and v["k"] == "call" and nm(v) == "get" and v.get("ty") in ("JitBackend", "bool") and v["a"] and strip(v["a"][0])[0] == "v" and strip(v["a"][0])[1] in s.bound.values():
                return s.case.get(("dec", v["ty"]))
            if v is not None and v["k"] == "call" and (nm(v) in ("back", "front") or (v.get("ty") or "").replace(" ", "") in ("void*", "void*&", "void*const&")) and mentions(s.f, v.get("obj"), "alloc_free"): return "nz"
        return None

    def amount(s, e, ver):
        """symbolic amount of an expression of type size"""
        e = strip(e)
        while is_expr(e) and e[0] == "v" and s.decoded(e[1]) is None:
            u = s.f.unique_def(e[1])
            if u is None or strip(u)[0] not in ("v", "cast", "ic"): break
            e = strip(u)
        if e[0] == "v":
            d = s.decoded(e[1])
            if d: return ("size of", d)
            return ("var", e[1], dict(ver).get(e[1], 0))
        return ("expr", estr(s.f.canon(e)), 0)

    def enc(s, it, e, env, eff):
        """(amount, backend, shared) of an allocation record expression"""
        ver = dict(eff[1]); e0 = strip(e)
        if is_expr(e0) and e0[0] == "v":
            for x in eff[2]:
                if x[0] == "rec" and x[1] == e0[1]: return x[2]
        c = s.f.canon(e)
        o = s.origin(e)
        if o: return (("size of", o), s.case.get(("dec", "JitBackend")), s.case.get(("dec", "bool")))
        v = e0
        if is_expr(v) and v[0] == "ev": v = s.f.evi.get(v[1])
        if isinstance(v, dict) and v["k"] == "call" and nm(v) == "alloc_info_encode":
            return (s.amount(v["a"][0], eff[1]), it.ev(v["a"][1], env), it.ev(v["a"][2], env))
        return (("expr", estr(c), 0), None, None)

    def hook(s, it, e, env, eff):
        f = s.f; toks, ver, aux = eff; k = e["k"]
        def out(*t, aux2=None): return [(env, (tuple(sorted(toks + t, key=repr))[:24], ver, aux2 if aux2 is not None else aux))]
        if k == "decl" and e.get("init") is not None and (e.get("ty") or "").replace("const", "").strip() in ("unsigned long", "AllocInfo", "size_t", "uint64_t"):
            i = strip(e["init"])
            if is_expr(i) and i[0] == "ev" and i[1] in f.evi and f.evi[i[1]]["k"] == "call" and nm(f.evi[i[1]]) == "alloc_info_encode":
                return [(env, (toks, ver, frozenset([x for x in aux if x[:2] != ("rec", e["v"])]) | {("rec", e["v"], s.enc(it, i, env, eff))}))]
        if k == "asg":
            l = strip(e["l_"])
            if l[0] == "v" and (s.vty(l[1]) or "").rstrip().endswith("&") and any(mentions(f, l, t) for t in TAB): pass
            elif l[0] == "v":
                r = f.canon(e["r"])
                if s.sized(l[1]): ver = frozenset([x for x in ver if x[0] != l[1]]) | {(l[1], min(dict(ver).get(l[1], 0) + 1, 9))}
                env2 = env
                if "*" in (s.vty(l[1]) or "") and any(x[0] == "m" and x[2] == "alloc_free" for x in walk(r)):
                    return [(it.put(env, l[1], "nz"), (toks, ver, aux | {("cached", l[1])}))] if it.ev(e["r"], env) is None else [(env, (toks, ver, aux | {("cached", l[1])}))]
                return [(env, (toks, ver, aux))]
            for t in ("alloc_usage", "alloc_allocated"):
                lx = strip(f.canon(e["l_"]))
                if lx[0] == "ix" and tab(f, lx[1]) == t and e["op"] in ("+=", "-="):
                    b = it.ev(s.index(e["l_"]), env)
                    a2 = aux
                    if t == "alloc_allocated":
                        a2 = frozenset(aux | {("watermark", b)}) if e["op"] == "+=" else aux
                    return out((t, e["op"][0], s.amount(e["r"], ver), b), aux2=a2)
                if lx[0] == "ix" and tab(f, lx[1]) == t:  # x = x + size
                    r = strip(f.canon(e["r"]))
                    if r[0] == "bi" and r[1] in "+-" and repr(strip(r[2])) == repr(lx):
                        raw = strip(e["r"])
                        return out((t, r[1], s.amount(raw[3], ver), it.ev(s.index(e["l_"]), env)), aux2=frozenset(aux | {("watermark", it.ev(s.index(e["l_"]), env))}) if t == "alloc_allocated" and r[1] == "+" else aux)
                    return out((t, "?", ("expr", estr(r), 0), None))
            lx = strip(f.canon(e["l_"]))
            if lx[0] == "ix" and tab(f, lx[1]) == "alloc_watermark":
                if mentions(f, e["r"], "alloc_allocated"):
                    b = it.ev(s.index(e["l_"]), env)
                    return [(env, (toks, ver, frozenset(x for x in aux if x != ("watermark", b))))]
            if (lx[0] == "call" or (lx[0] == "m" and lx[2] == "second")) and s.origin(lx):   # it.value() = record
                old = (("size of", s.origin(lx)), s.case.get(("dec", "JitBackend")))
                new = s.enc(it, e["r"], env, eff)
                s.retag(e, old[1], new[1], toks)
                return out(("alloc_used", "-") + old, ("alloc_used", "+", new[0], new[1]))
        if k in ("call", "ctor"):
            n = nm(e); o = e.get("obj")
            if o is not None and tab(f, o) == "alloc_used" and n in ("emplace", "insert", "insert_or_assign", "try_emplace"):
                a = list(e["a"])
                if n == "insert" and len(a) == 1:
                    c = strip(a[0]); v = f.evi.get(c[1]) if c[0] == "ev" else None
                    a = list(v["a"]) if v is not None else list(c[2:])
                r = s.enc(it, a[1], env, eff)
                pv = it.ev(a[0], env)
                s.n_reg += 1
                if pv in (None, 0):
                    s.bad("register", "registers a buffer that may be a null pointer", e)
                return out(("alloc_used", "+", r[0], r[1]))
            if o is not None and tab(f, o) == "alloc_used" and n.startswith("erase"):
                s.n_reg += 1
                return out(("alloc_used", "-", ("size of", s.origin(e["a"][0]) or "?"), s.case.get(("dec", "JitBackend"))))
            if o is not None and n == "pop_back" and mentions(f, o, "alloc_free"):
                key = [x[3] if len(x) > 3 else None for x in walk(f.canon(o)) if x[0] == "call" and x[1].split("::")[-1] in ("find", "at", "operator[]")]
                r = s.key(it, o, env, eff)
                return out(("cache", "-", r[0], r[1]), aux2=aux | {("popkey", r)})
            if o is not None and n in ("push_back", "emplace_back") and mentions(f, o, "alloc_free"):
                r = s.key(it, o, env, eff)
                s.direct(e, r, env, toks)
                return out(("cache", "+", r[0], r[1]))
            if o is not None and n in ("push_back", "emplace_back"):
                x = strip(o)
                x = s.choose(it, x, env)
                x = strip(f.canon(x)) if x is not None else None
                if is_expr(x) and x[0] == "m" and (x[3], x[2]) in s.lists:
                    v = e["a"]
                    if n == "push_back" and len(v) == 1:
                        c = strip(v[0]); c = f.evi.get(c[1]) if c[0] == "ev" else None
                        v = c["a"] if c is not None else v
                    r = s.enc(it, v[0], env, eff)
                    s.deferred(e, x, r, env)
                    return out(("cache", "+", r[0], r[1]))
            if toks and k == "call" and not e.get("noret") and e.get("q") not in NOTHROW and any(t.key in s.thr for t in s.p.targets(e)): it.raises.add((toks, e["l"], nm(e)))
            if e.get("noret") and toks: it.raises.add((toks, e["l"], nm(e)))
        return [(env, (toks, ver, aux))]

    def onbranch(s, it, facts, env, eff):
        """`watermark < allocated` is false: the watermark is up to date"""
        for c, v in facts:
            c = strip(c)
            if c[0] == "bi" and c[1] in ("<", ">", "<=", ">="):
                a, b = (c[2], c[3]) if c[1] in (">", ">=") else (c[3], c[2])     # a > b
                if mentions(s.f, a, "alloc_allocated") and mentions(s.f, b, "alloc_watermark") and not v:
                    return (eff[0], eff[1], frozenset(x for x in eff[2] if x[0] != "watermark"))
                if mentions(s.f, a, "alloc_watermark") and mentions(s.f, b, "alloc_allocated") and v:
                    return (eff[0], eff[1], frozenset(x for x in eff[2] if x[0] != "watermark"))
        return eff

    def index(s, e):
        e = strip(e)
        if e[0] == "v" and s.f.unique_def(e[1]) is not None: e = strip(s.f.unique_def(e[1]))
        if e[0] == "ix": return e[2]
        return strip(s.f.canon(e))[2]

    def key(s, it, o, env, eff):
        """allocation record by which a list of cached buffers was looked up"""
        f = s.f
        todo, seen = [o], set()
        while todo:
            x = todo.pop()
            for y in walk(x) if is_expr(x) else []:
                if y[0] == "ev" and y[1] in f.evi and y[1] not in seen:
                    seen.add(y[1]); v = f.evi[y[1]]
                    if v["k"] == "call" and nm(v) in ("find", "at", "operator[]", "try_emplace") and tab(f, v.get("obj")) == "alloc_free": return s.enc(it, v["a"][0], env, eff)
                    todo += [z for z in [v.get("obj")] + list(v.get("a", [])) if z is not None]
                if y[0] == "v" and y[1] not in seen:
                    seen.add(y[1]); u = f.unique_def(y[1])
                    if u is not None: todo.append(u)
        return (("?",), None, None)

    def choose(s, it, x, env):
        x = strip(x)
        if is_expr(x) and x[0] == "v":
            u = s.f.unique_def(x[1])
            if u is not None: return s.choose(it, u, env)
        if is_expr(x) and x[0] == "?":
            c = it.ev(x[1], env)
            if c is None: return None
            return s.choose(it, x[3] if c == 0 else x[2], env)
        if is_expr(x) and x[0] == "u" and x[1] in ("*", "&"): return s.choose(it, x[2], env)
        return x

    def vty(s, v):
        for e in s.f.events():
            if e["k"] == "decl" and e["v"] == v: return e.get("ty")
        if v in s.f.params: return s.f.ptypes[s.f.params.index(v)]
        return ""

    def sized(s, v):
        if not hasattr(s, "_sz"): s._sz = {}
        if v not in s._sz: s._sz[v] = (s.vty(v) or "").replace("const", "").strip() in ("unsigned long", "size_t", "unsigned int")
        return s._sz[v]

    def bad(s, rule, msg, e=None, extra=""):
        s.ctx.violation(s.R[rule], "%s|%s" % (s.f.display, msg + extra), s.f.loc(e), msg + " [%s]" % s.desc())

    def desc(s): return ", ".join("%s=%s" % (k if isinstance(k, str) else {"JitBackend": "buffer backend", "bool": "buffer shared"}.get(k[1], k[1]), s.bname.get(v, v) if "ackend" in str(k) else v) for k, v in s.case.items())

    # ---- reuse -----------------------------------------------------------------------------------------------------------------
    def direct(s, e, r, env, toks):
        if not any(t[0] == "alloc_used" and t[1] == "-" for t in toks): return
        s.n_reuse += 1
        b, sh = s.bname.get(r[1]), r[2]
        nots = any(x == 0 for v, x in env if (s.vty(v) or "").replace(" ", "").endswith("ThreadState*"))
        if b in ("JitBackend::None",): return
        if sh: s.bad("reuse", "a shared buffer becomes reusable before pending work on it has completed", e)
        elif b == "JitBackend::Metal" and not nots: s.bad("reuse", "a Metal buffer becomes reusable before the work using it was submitted", e)

    def deferred(s, e, x, r, env):
        s.n_reuse += 1
        if r[2] and (x[3], x[2]) in s.early: s.bad("reuse", "a shared buffer is parked in the list of buffers that become reusable once work is submitted", e)

    def retag(s, e, old, new, toks):
        s.n_reuse += 1
        if s.bname.get(old) == "JitBackend::LLVM" and s.bname.get(new) == "JitBackend::None":
            s.bad("reuse", "a buffer that pending work may use is turned into one that is reusable immediately after its release", e)

    def run(s, lists, early, bname):
        s.lists, s.early, s.bname = lists, early, bname
        s.n_reg = s.n_reuse = 0
        f = s.f
        backs = [v for v, n in bname.items() if n.split("::")[-1] in ("None", "CUDA", "LLVM", "Metal")]
        dims = []
        if any(t == "JitBackend" for t in s.btype.values()): dims += [[(("dec", "JitBackend"), b) for b in backs], [(("dec", "bool"), b) for b in (0, 1)]]
        for p_, t in zip(f.params, f.ptypes):
            if t.replace("const", "").strip() == "JitBackend": dims.append([(p_, b) for b in backs])
            elif t in ("bool", "int"): dims.append([(p_, b) for b in (0, 1)])
        n = 0
        for combo in itertools.product(*dims):
            s.case = dict(combo)
            it = Interp(s.p, f, s.hook, s.special, onbranch=s.onbranch)
            it.run(frozenset((k, v) for k, v in s.case.items() if isinstance(k, str)), ((), frozenset(), frozenset()))
            for (toks, ver, aux), env in it.exits:
                n += 1
                s.check(toks, aux, env)
            for r in it.raises:
                n += 1
                if len(r) == 3 and isinstance(r[1], int):
                    if s.net(r[0], "alloc_used") or s.net(r[0], "alloc_usage") or s.net(r[0], "alloc_allocated"):
                        s.ctx.violation(s.R["balance"], "%s|raise:%s" % (f.display, r[2]), f.loc({"l": r[1]}), "an error raised by %s() leaves the tables or statistics changed [%s]" % (r[2], s.desc()))
        return n

    def net(s, toks, *names):
        d = {}
        for t in toks:
            if t[0] in names: d[(t[2], t[3])] = d.get((t[2], t[3]), 0) + {"+": 1, "-": -1}.get(t[1], 100)
        return {k: v for k, v in d.items() if v}

    def check(s, toks, aux, env):
        used, usage, alloc, cache = s.net(toks, "alloc_used"), s.net(toks, "alloc_usage"), s.net(toks, "alloc_allocated"), s.net(toks, "cache")
        if used != usage: s.bad("balance", "memory usage statistics do not follow the table of live allocations", None, ":%s" % ("missing" if not usage else "mismatch"))
        phys = dict(used)
        for k, v in cache.items(): phys[k] = phys.get(k, 0) + v
        phys = {k: v for k, v in phys.items() if v}
        leak = used and min(used.values()) < 0 and not cache and not alloc
        if leak:
            nots = any(x == 0 for v, x in env if (s.vty(v) or "").replace(" ", "").endswith("ThreadState*"))
            if s.case.get(("dec", "bool")) and nots: phys = {}     # documented: shared buffers released after shutdown are leaked
            elif not any(t[0] == "alloc_used" and t[1] == "+" for t in toks):
                s.bad("balance", "a released buffer is neither returned to the cache nor parked"); return
        if phys != alloc: s.bad("balance", "the amount of allocated memory does not follow the live and cached buffers", None, ":%s" % ("missing" if not alloc else "mismatch"))
        if any(a[0] == "watermark" for a in aux): s.bad("balance", "the watermark is not updated after allocated memory grew")


def mods(ctx, p, cfg, R):
    ts = [r for r in p.recs.values() if r["q"] in ("ThreadState", "ThreadStateBase")]
    T = [f for f in p.repo_fns(("src/",)) if mutates(f) or drains(f)]
    keys = {f.key for f in T}
    called = {}
    for f in T:
        for e in f.events():
            if e["k"] == "call":
                for t in p.targets(e):
                    if t.key in keys: called.setdefault(t.key, set()).add(f.key)
    return T, keys, called


def run_cfg(ctx, cfg, R):
    p = ctx.prog(cfg)
    en = p.enum("JitBackend")
    bname = {v: n for n, v in enum_vals(en)}
    T, keys, called = mods(ctx, p, cfg, R)
    thr = may_throw_fns(p)
    lists, early = deferred_lists(ctx, p, R, keys)
    nb = nr = 0
    dr = {f.key for f in T if drains(f)}
    dr |= {f.key for f in T if any(t.key in dr and t.internal for e in f.events() if e["k"] == "call" for t in p.targets(e))}
    for f in T:
        if f.internal and called.get(f.key): continue      # analysed as a part of its callers
        if is_release(f):      # primitive: parameters describe the buffer
            release_fn(ctx, p, R, f); continue
        if f.key in dr: continue
        g = inline(p, f, lambda c, e, t: t.key in keys and t.key not in dr and (t.internal or is_release(t)), depth=3)
        u = Unit(ctx, p, g, R, thr)
        try: n = u.run(lists, early, bname)
        except Blowup: raise AnalysisBroken("path explosion in %s" % f.display)
        nb += n; nr += u.n_reuse
        if u.n_reg or n: ctx.ok(R["balance"], n, "%s: %d paths" % (f.display, n))
        ctx.ok(R["register"], u.n_reg, f.display if u.n_reg else None); ctx.ok(R["reuse"], u.n_reuse, f.display if u.n_reuse else None)
    drain_rule(ctx, p, R, T, keys, bname)
    primitives(ctx, p, R)


def enum_vals(en):
    out = []
    for v in en["vals"]:
        n, x = (v[0], v[1]) if isinstance(v, (list, tuple)) else (v["n"], v["v"])
        out.append((n if "::" in n else "JitBackend::" + n, x))
    return out


def is_release(f):
    """pushes a buffer described by its parameters onto the cache, and nothing else"""
    tabs = set()
    for e in f.events():
        for t in TAB:
            if e["k"] in ("asg", "inc") and mentions(f, e.get("l_", e.get("e")), t): tabs.add(t)
            if e["k"] == "call" and e.get("obj") is not None and nm(e) in ("push_back", "emplace_back", "emplace", "erase", "erase_fast", "pop_back", "insert") and mentions(f, e["obj"], t): tabs.add(t)
    return tabs == {"alloc_free"}


def release_fn(ctx, p, R, f):
    """every described buffer is returned to the cache once, under its own record"""
    pushes = [e for e in f.events() if e["k"] == "call" and nm(e) in ("push_back", "emplace_back") and mentions(f, e.get("obj"), "alloc_free")]
    blk_of = {id(e): b for b in f.blocks.values() for e in b.ev}
    for e in pushes:
        ctx.ok(R["deferred"], 1, "%s: %s" % (f.display, evstr(e, f)))
        kv, pv = rawvars(f, e["obj"]), rawvars(f, e["a"][0])
        ks = [x for x in walk(f.canon(e["obj"])) if x[0] == "m" and x[2] in ("first", "second")]; ps = [x for x in walk(f.canon(e["a"][0])) if x[0] == "m" and x[2] in ("first", "second")]
        if ks or ps:
            if not (ks and ps and repr(ks[-1][1]) == repr(ps[-1][1]) and ks[-1][2] == "first" and ps[-1][2] == "second"):
                ctx.violation(R["deferred"], "%s|mixed" % f.display, f.loc(e), "a buffer is returned to the cache under the record of another one")
        Ls = loops_of(f, blk_of[id(e)].id)
        if Ls:
            L = min(Ls, key=lambda x: len(x[1]))
            h = f.blocks[L[0]]
            ids = {id(x) for x in pushes}
            for s_ in h.succ:
                if s_ in L[1] and s_ != L[0] and skip_path(f, s_, L, ids): ctx.violation(R["deferred"], "%s|skipped" % f.display, f.loc(e), "some buffers of a batch are not returned to the cache")
            from .c20 import full_range
            if not full_range(f, L): ctx.violation(R["deferred"], "%s|range" % f.display, f.loc(e), "some buffers of a batch are not returned to the cache")
    def step(u, e, blk, env):
        if e in pushes: return [min(u + 1, 2)]
        return [u]
    if not any(loops_of(f, blk_of[id(e)].id) for e in pushes):
        ins, ex, tr = paths(f, 0, step)
        for u in ex:
            if u != 1: ctx.violation(R["deferred"], "%s|count" % f.display, f.loc(), "a buffer is returned to the cache %s" % ("twice" if u > 1 else "only on some paths"))
    # the batch itself is released
    if any("vector" in (e.get("ty") or "") for e in f.events() if e["k"] == "decl") and len(f.params) == 1:
        ins, ex, tr = paths(f, 0, lambda u, e, blk, env: [u + 1 if e["k"] == "delete" and u < 2 else u])
        for u in ex:
            if u != 1: ctx.violation(R["deferred"], "%s|batch" % f.display, f.loc(), "the batch itself is not deleted exactly once")


def drains(f):
    out = []
    for e in f.events():
        if e["k"] == "call" and nm(e) == "swap":
            xs = ([e["obj"]] if e.get("obj") is not None else []) + list(e["a"])
            for i, x in enumerate(xs):
                if tab(f, x) == "alloc_free": out.append((e, xs[1 - i] if len(xs) > 1 else None, "all"))
                elif listof(f, x): out.append((e, xs[1 - i] if len(xs) > 1 else None, "list"))
        if e["k"] == "call" and nm(e) == "operator=" and e.get("obj") is not None and e["a"]:
            if tab(f, e["a"][0]) == "alloc_free" or any(x[0] == "call" and x[1].split("::")[-1] in ("move", "exchange") and mentions(f, x, "alloc_free") for x in walk(f.canon(e["a"][0]))): out.append((e, e["obj"], "all"))
        if e["k"] == "decl" and e.get("init") is not None:
            i = strip(e["init"]); v = f.evi.get(i[1]) if is_expr(i) and i[0] == "ev" else None
            if v is not None and any(x[0] == "call" and x[1].split("::")[-1] in ("move", "exchange") and len(x) > 2 and any(tab(f, y) == "alloc_free" for y in x[2:] if is_expr(y)) for x in walk(f.canon(i))): out.append((e, ["v", e["v"]], "all"))
    return out


def listof(f, x):
    """a list of cached buffers inside the table of cached buffers"""
    if not mentions_deep(f, x, "alloc_free"): return False
    c = strip(f.canon(x))
    return tab(f, x) is None and any(y[0] == "call" and y[1].split("::")[-1] in ("value", "operator[]", "at", "operator->", "operator*") for y in walk(c)) or (is_expr(c) and c[0] == "m" and c[2] == "second")


def mentions_deep(f, x, t, d=0, seen=None):
    seen = set() if seen is None else seen
    if x is None: return False
    c = f.canon(x)
    if mentions(f, c, t): return True
    for y in walk(c):
        if y[0] == "v" and y[1] not in seen:
            seen.add(y[1])
            for k, i, _ in f.defs().get(y[1], []):
                if i is not None and d < 6 and mentions_deep(f, i, t, d + 1, seen): return True
    return False


# ---- deferred releases ----------------------------------------------------------------------------------------------------------
def deferred_lists(ctx, p, R, keys):
    D = R["deferred"]
    lists = set()
    for r in p.recs.values():
        for fl in r["fields"]:
            if r["q"].startswith("ThreadState") and re.search(r"vector<std::pair<(unsigned long|uint64_t|AllocInfo), void \*>>", fl[1]): lists.add((r["q"], fl[0]))
    if not lists: raise AnalysisBroken("no list of deferred releases found")
    owners = {q for q, _ in lists}
    # no record containing such a list is overwritten
    for f in p.repo_fns(("src/",)):
        for e in f.events():
            if e["k"] == "call" and nm(e) == "operator=":
                q = (e.get("q") or "").rsplit("::", 1)[0]
                rs = [r for r in p.recs.values() if r["q"] == q]
                if not rs: continue
                seen, todo = set(), [rs[0]]
                while todo:
                    r = todo.pop(); seen.add(r["q"])
                    for b in r.get("bases", []):
                        bq = b if isinstance(b, str) else b[0]
                        todo += [x for x in p.recs.values() if (x["key"] == bq or x["q"] == bq) and x["q"] not in seen]
                if seen & owners:
                    ctx.violation(D, "%s|overwrites:%s" % (f.display, q), f.loc(e), "overwrites a '%s', which contains buffers waiting for their release" % q)
    # classification: lists that are released upon submission (not by a batch handed to a completion callback)
    batch = set(); early = set()
    for f in p.repo_fns(("src/",)):
        for e in f.events():
            c = None
            if e["k"] in ("ctor", "call") and nm(e) in ("vector", "move", "swap", "exchange"):
                for a in ([e["obj"]] if e.get("obj") is not None else []) + list(e["a"]):
                    x = strip(f.canon(a))
                    if is_expr(x) and x[0] == "m" and (x[3], x[2]) in lists: batch.add((x[3], x[2]))
    early = lists - batch
    ctx.ok(D, len(lists), "lists of parked buffers: %s" % sorted(lists))
    # taking a list empties it, the batch is returned
    takers = []
    for f in p.repo_fns(("src/",)):
        mv = [e for e in f.events() if e["k"] == "call" and nm(e) in ("move", "swap", "exchange") and any(is_list(f, a, lists) for a in ([e["obj"]] if e.get("obj") is not None else []) + list(e["a"]))]
        if not mv or not any(e["k"] == "new" for e in f.events()): continue
        takers.append(f)
        def step(u, e, blk, env, f=f, mv=mv):
            if e in mv: return [("moved",)] if nm(e) == "move" else [()]
            if e["k"] == "call" and nm(e) in ("clear", "swap") and is_list(f, e.get("obj"), lists): return [()]
            if e["k"] == "asg" and is_list(f, e["l_"], lists): return [()]
            return [u]
        ins, ex, tr = paths(f, (), step)
        ctx.ok(D, 1, "%s empties the list" % f.display)
        for u in ex:
            if u: ctx.violation(D, "%s|not emptied" % f.display, f.loc(), "buffers waiting for their release stay in the list after they were taken, and are released twice")
    tk = {f.key for f in takers}
    # each taken batch reaches exactly one release
    rel = {f.key: f for f in p.repo_fns(("src/",)) if any(e["k"] == "delete" for e in f.events()) and mutates(f)}
    relq = {f.q for f in rel.values()}
    def is_rel_fn(e):
        e = strip(e) if e is not None else None
        if not is_expr(e): return False
        if e[0] == "fn": return e[1] in rel or e[1] in relq or (len(e) > 2 and e[2] in relq) or any(x in relq or x in rel for x in e[1:] if isinstance(x, str))
        if e[0] in ("u", "cast", "ic"): return is_rel_fn(e[2] if e[0] == "u" else e[3])
        return False
    for f in p.repo_fns(("src/",)):
        src = [e for e in f.events() if e["k"] == "call" and any(t.key in tk for t in p.targets(e))]
        if not src: continue
        for lam in f.lams: pass
        def relcalls(e, v, f=f):
            """does event e hand the batch in local v to a release?"""
            if e["k"] != "call": return None
            uses = any(x[0] == "v" and x[1] in v for a in e["a"] for x in walk(f.canon(a)) if is_expr(x)) or any(x[0] == "v" and x[1] in v for a in e["a"] for x in walk(a) if is_expr(x))
            if not uses: return None
            if any(t.key in rel for t in p.targets(e)): return "now"
            if any(is_rel_fn(f.canon(a)) or is_rel_fn(a) for a in e["a"]): return "later"
            for a in e["a"]:
                for x in walk(f.canon(a)):
                    if x[0] == "lam" or x[0] == "fn" or (x[0] == "mf"):
                        k2 = x[1]
                        g = p.fns.get(k2)
                        if g is None:
                            for h in p.fns.values():
                                if h.q == "lambda" and h.key == k2: g = h
                        if g is not None and any(any(t.key in rel for t in p.targets(y)) for y in g.events() if y["k"] == "call"): return "later"
            # conversion of a lambda
            for a in e["a"]:
                for x in walk(a):
                    if x[0] == "ev" and x[1] in f.evi and f.evi[x[1]]["k"] == "call" and (f.evi[x[1]].get("q") or "").startswith("lambda"):
                        o = f.evi[x[1]].get("obj")
                        for y in walk(f.canon(o)) if o is not None else []:
                            if y[0] == "lam":
                                g = p.fns.get(y[1])
                                if g is not None and any(any(t.key in rel for t in p.targets(z)) for z in g.events() if z["k"] == "call"): return "later"
            return None
        vs = {e["v"] for e in f.events() if e["k"] == "decl" and e.get("init") is not None and any(x == ["ev", s["i"]] for s in src for x in walk(e["init"]))}
        def step(u, e, blk, env, f=f, vs=vs, src=src):
            if e in src: return ["held"]
            r = relcalls(e, vs)
            if r is not None:
                ctx.ok(D, 1, "%s:%s releases the batch %s" % (f.display, e["l"], r))
                if r == "now" and not idle(f, e, blk):
                    ctx.violation(D, "%s|too early" % f.display, f.loc(e), "buffers become reusable although pending work may still use them")
                if r == "later" and nm(e).startswith("task_submit"):
                    par = e["a"][1] if len(e["a"]) > 1 else None
                    if par is None or not any(x[0] == "g" and x[1].split("::")[-1] == "jitc_task" for x in walk(f.canon(par))):
                        ctx.violation(D, "%s|unordered" % f.display, f.loc(e), "the task that releases buffers does not depend on the work that may use them")
                if u == "released": ctx.violation(D, "%s|twice" % f.display, f.loc(e), "releases a batch of buffers twice")
                return ["released"]
            return [u]
        def branch(u, facts, blk, i, f=f, vs=vs):
            for c, v in facts:
                c = strip(c)
                if c[0] == "v" and c[1] in vs and not v and u == "held": return "none"
                if c[0] == "bi" and c[1] in ("==", "!=") and strip(c[2])[0] == "v" and strip(c[2])[1] in vs and strip(c[3])[0] == "null" and (c[1] == "==") == v and u == "held": return "none"
            return u
        ins, ex, tr = paths(f, "none", step, branch)
        for u in ex:
            if u == "held": ctx.violation(D, "%s|lost" % f.display, f.loc(), "a batch of buffers waiting for their release is dropped on some path")
    if not takers: raise AnalysisBroken("no function takes the parked buffers")
    return lists, early


def is_list(f, e, lists):
    x = strip(f.canon(e)) if e is not None else None
    return is_expr(x) and x[0] == "m" and (x[3], x[2]) in lists


def idle(f, e, blk):
    """no pending work: destructor of the thread state, or the task chain is empty"""
    if "~" in f.q: return True
    from .c20 import dom_facts
    for c, v in [x for fs in dom_facts(f, blk) for x in fs]:
        c = strip(f.canon(c))
        if c[0] == "g" and c[1].split("::")[-1] == "jitc_task" and not v: return True
        if c[0] == "bi" and c[1] in ("==", "!=") and strip(c[2])[0] == "g" and strip(c[2])[1].split("::")[-1] == "jitc_task" and (c[1] == "==") == v: return True
    return False


# ---- draining the cache ---------------------------------------------------------------------------------------------------------
def drain_rule(ctx, p, R, T, keys, bname):
    D = R["drain"]
    wrap = {f.key for f in p.fns.values() if f.q == "jitc_sync_all_devices"}
    for f in T:
        if not drains(f) and not any(drains(p.fns[t.key]) for e in f.events() if e["k"] == "call" for t in p.targets(e) if t.key in keys and t.internal): continue
        g = inline(p, f, lambda c, e, t: t.internal and t.file == f.file, depth=3)
        ds = drains(g)
        for e, dst, kind in ds:
            ctx.ok(D, 1, "%s: %s" % (g.display, evstr(e, g)))
            one_drain(ctx, p, D, g, e, dst, kind, wrap, bname)


def rawvars(f, e):
    """local variables an expression reads (through the values of the calls it contains)"""
    out, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        if x is None: continue
        for y in walk(x):
            if y[0] == "v": out.add(y[1])
            if y[0] == "ev" and y[1] not in seen and y[1] in f.evi:
                seen.add(y[1]); v = f.evi[y[1]]
                todo += [z for z in [v.get("obj"), v.get("e"), v.get("r")] + list(v.get("a", [])) if is_expr(z)]
    return out


def mentions_var(f, e, vs):
    """does e (transitively, through definitions of locals) derive from one of the variables?"""
    todo, seen = [e], set()
    binds = {b: ev["init"] for ev in f.events() if ev["k"] == "decl" for b in ev.get("bind", ())}
    while todo:
        x = todo.pop()
        for v in rawvars(f, x):
            if v in vs: return True
            if v in seen: continue
            seen.add(v)
            todo += [i for k, i, _ in f.defs().get(v, []) if i is not None]
            if v in binds: todo.append(binds[v])
    return False


def one_drain(ctx, p, D, g, e0, dst, kind, wrap, bname):
    dv = {strip(dst)[1]} if dst is not None and strip(dst)[0] == "v" else set()
    if not dv: raise AnalysisBroken("%s: cached buffers are moved to an unknown place" % g.display)
    blk_of = {id(e): b for b in g.blocks.values() for e in b.ev}
    # sinks: reductions of the statistics
    subs = [e for e in g.events() if e["k"] == "asg" and e["op"] == "-=" and strip(g.canon(e["l_"]))[0] == "ix" and tab(g, strip(g.canon(e["l_"]))[1]) == "alloc_allocated"]
    if not subs:
        ctx.violation(D, "%s|statistics" % g.display, g.loc(e0), "buffers leave the cache, but the amount of allocated memory is not reduced"); return
    direct = [e for e in subs if counts(g, e["r"], dv)]
    arr = {}
    for e in subs:
        r = strip(e["r"])
        if r[0] == "v": r = strip(g.unique_def(r[1]) or r)
        if r[0] == "ix" and strip(r[1])[0] == "v": arr[strip(r[1])[1]] = e
    acc = list(direct)
    for e in g.events():
        if e["k"] == "asg" and e["op"] == "+=":
            l = strip(e["l_"])
            if l[0] == "v" and g.unique_def(l[1]) is not None: l = strip(g.unique_def(l[1]))
            if l[0] == "ix" and strip(l[1])[0] == "v" and strip(l[1])[1] in arr:
                if counts(g, e["r"], dv): acc.append(e)
    if not acc:
        ctx.violation(D, "%s|amount" % g.display, g.loc(e0), "the amount of allocated memory is not reduced by the sizes of the buffers that leave the cache"); return
    for e in acc:   # indexed by the backend of the drained buffers
        ix = strip(e["l_"])
        ix = ix[2] if ix[0] == "ix" else strip(g.canon(e["l_"]))[2]
        if strip(ix)[0] == "v" or True:
            vs = [x[1] for x in walk(ix) if x[0] == "v"]
            tys = {ev["v"]: ev.get("ty") or "" for ev in g.events() if ev["k"] == "decl"}
            if not any("JitBackend" in tys.get(v, "") for v in vs) and not any("JitBackend" in tys.get(x[1], "") for v in vs for u in [g.unique_def(v)] if u is not None for x in walk(u) if x[0] == "v"):
                ctx.violation(D, "%s|backend" % g.display, g.loc(e), "the statistics of a fixed or unrelated backend are reduced")
    accid = {id(e) for e in acc}
    # (a) per group of buffers
    if kind == "all":
        heads = []
        for b in g.blocks.values():
            if b.term and b.term[1] is not None and mentions_var(g, b.term[1], dv) and b.term[0] in ("range", "for", "while") and len(b.succ) == 2:
                L = [x for x in loops_of(g, b.id) if x[0] == b.id]
                if L and any(id(e) in accid for x in L[0][1] for e in g.blocks[x].ev): heads.append((b, L[0]))
        if not heads:
            ctx.violation(D, "%s|accounting" % g.display, g.loc(e0), "the buffers that leave the cache are not counted one by one"); return
        for b, L in heads:
            if b.term[0] == "range" or True:
                bad = skip_path(g, b.succ[0], L, accid)
                ctx.ok(D, 1, "%s: every entry is counted" % g.display)
                if bad: ctx.violation(D, "%s|uncounted" % g.display, g.loc(e0), "some buffers leave the cache without being counted")
    else:
        b = blk_of[id(e0)]
        Ls = loops_of(g, b.id)
        L = min(Ls, key=lambda x: len(x[1])) if Ls else None
        if skip_path(g, b.id, L, accid, after=e0): ctx.violation(D, "%s|uncounted" % g.display, g.loc(e0), "some buffers leave the cache without being counted")
    # (b) local totals are subtracted on every path
    for v, e in arr.items():
        if not any(v in rawvars(g, a["l_"]) or any(v in rawvars(g, g.unique_def(x)) for x in rawvars(g, a["l_"]) if g.unique_def(x) is not None) for a in acc): continue
        sb = blk_of[id(e)]
        Ls = loops_of(g, sb.id)
        h = max(Ls, key=lambda x: len(x[1]))[0] if Ls else sb.id
        def step(u, x, blk, env): return [u]
        reach = avoid(g, blk_of[id(e0)].id, {h})
        ctx.ok(D, 1, "%s: totals are subtracted" % g.display)
        if g.exit in reach: ctx.violation(D, "%s|totals" % g.display, g.loc(e), "a path leaves the function without reducing the amount of allocated memory")
        if Ls:
            hb = g.blocks[h]
            c = g.canon(hb.term[1]) if hb.term and hb.term[1] is not None else None
            en = max(bname, key=lambda x: x if bname[x].endswith("Count") else -1)
            ok = is_expr(c) and any(const_int(x) == en for x in walk(c)) if c is not None else False
            if not ok: ctx.violation(D, "%s|range" % g.display, g.loc(e), "the totals of some backends are not subtracted")
            # unconditional within the loop
            Lb = max(Ls, key=lambda x: len(x[1]))
            if skip_path(g, hb.succ[0], Lb, {id(e)}): ctx.violation(D, "%s|partial" % g.display, g.loc(e), "the totals of some backends are not subtracted")
    # (c) synchronization between the removal and the release to the operating system
    def st(u, e, blk, env):
        if e is e0: return ["taken"]
        if e["k"] == "call" and any(t.key in wrap for t in p.targets(e)): return ["synced"] if u == "taken" else [u]
        if e["k"] == "call" and u == "taken" and nm(e) in OS_FREE and not nm(e).endswith("Async") and e["a"] and mentions_var(g, e["a"][0], dv):
            ctx.violation(D, "%s|sync" % g.display, g.loc(e), "memory is returned to the system although work submitted by other threads during the last synchronization may still use it (no synchronization after the buffers left the cache)")
        return [u]
    paths(g, "none", st, track=False)
    ctx.ok(D, 1, "%s: work using the buffers is awaited" % g.display)
    # (d) release primitive
    pair_free(ctx, p, D, g, dv, bname, e0)


def counts(g, r, dv):
    """size of an entry times the number of its buffers (or the size itself, once per buffer)"""
    r = strip(r)
    m = mentions_var(g, r, dv)
    has_dec = False
    tys = {ev["v"]: ev for ev in g.events() if ev["k"] == "decl"}
    for x in walk(r):
        if x[0] == "v":
            if any(x[1] in ev.get("bind", ()) for ev in tys.values()) and "unsigned long" in (tys[x[1]].get("ty") or ""): has_dec = True
            u = g.unique_def(x[1])
            if u is not None and any(y[0] == "v" and any(y[1] in ev.get("bind", ()) for ev in tys.values()) for y in walk(u)): has_dec = True
    c = g.canon(r)
    has_n = any(x[0] == "call" and x[1].split("::")[-1] == "size" for x in walk(c))
    mul = any(x[0] == "bi" and x[1] == "*" for x in walk(g.canon(r)))
    return has_dec and has_n and mul and m


def avoid(g, start, stop):
    seen, todo = set(), [start]
    while todo:
        b = todo.pop()
        if b in seen or b in stop: continue
        seen.add(b)
        if g.blocks[b].noret: continue
        todo += [x for x in g.blocks[b].succ if x is not None]
    return seen


def skip_path(g, start, L, accid, after=None):
    """can control go from `start` back to the loop header (or leave) without an event of accid?"""
    seen, todo = set(), [(start, after)]
    while todo:
        b, aft = todo.pop()
        if b in seen: continue
        seen.add(b)
        hit, on = False, aft is None
        for e in g.blocks[b].ev:
            if not on:
                on = e is aft; continue
            if id(e) in accid: hit = True; break
            if e.get("noret") or e["k"] == "throw": hit = True; break
        if hit: continue
        for x in g.blocks[b].succ:
            if x is None: continue
            if L is not None and (x == L[0] or x not in L[1]): return True
            if L is None and x == g.exit: return True
            todo.append((x, None))
    return False


def case_reach(p, f, case, names, seed=None, arg=None):
    """OS primitives reached under an assignment of backend / sharing"""
    out = set()
    bound = {b for e in f.events() if e["k"] == "decl" for b in e.get("bind", ())}
    tup = {e["v"] for e in f.events() if e["k"] == "decl" and e.get("bind")}
    def special(it, e, env):
        if e[0] == "ev":
            v = f.evi.get(e[1])
            if v is not None and v["k"] == "call" and nm(v) == "get" and v["a"] and strip(v["a"][0])[0] == "v" and strip(v["a"][0])[1] in tup: return case.get(v.get("ty"))
        if e[0] == "m" and e[2] == "memory_pool": return case.get("pool")
        if e[0] == "bi" and e[1] == "&" and any(x[0] == "m" and x[2] == "backends" for x in walk(e)): return "nz"
        return None
    def hook(it, e, env, eff):
        if e["k"] == "call" and nm(e) in names and (arg is None or (e["a"] and mentions_var(f, e["a"][0], arg))): out.add((names[nm(e)], nm(e), e["l"]))
        return [(env, None)]
    dv = bound | {v for v, _ in seed or ()}
    only = dv | {v for v in f.defs() if mentions_var(f, ['v', v], dv)}
    it = Interp(p, f, hook, special, only=only)
    it.run(frozenset(seed or ()), None)
    return out


def pair_free(ctx, p, D, g, dv, bname, e0):
    """the primitive that releases a cached buffer matches the one that allocated it"""
    al = allocator(p)
    for b, n in bname.items():
        if n.split("::")[-1] not in ("None", "CUDA", "LLVM", "Metal"): continue
        for sh in (0, 1):
            for pool in (0, 1):
                if n.split("::")[-1] in ("None", "LLVM") and pool: continue
                seed = []
                for v, t in zip(al.params, al.ptypes):
                    if t == "JitBackend": seed.append((v, b))
                    elif t == "bool": seed.append((v, sh))
                A = {x[0] for x in case_reach(p, al, {"pool": pool}, OS_ALLOC, seed)}
                F = case_reach(p, g, {"JitBackend": b, "bool": sh, "pool": pool}, OS_FREE, None, dv)
                ctx.ok(D, 1, "%s: %s shared=%d pool=%d: allocated by %s, released by %s" % (g.display, n, sh, pool, sorted(A), sorted({x[0] for x in F})))
                if n.endswith("None") and sh: continue
                for k, name, l in sorted(F):
                    if k not in A and A:
                        ctx.violation(D, "%s|%s:%s:%d" % (g.display, name, n.split("::")[-1], sh), g.loc({"l": l}), "releases %s%s memory using %s(), although it was allocated differently" % ("shared " if sh else "", n.split("::")[-1], name))
                if A and not F and not (n.endswith("LLVM") and False):
                    if drains_case(g): ctx.violation(D, "%s|unreleased:%s:%d" % (g.display, n.split("::")[-1], sh), g.loc(e0), "cached %s%s buffers are discarded without releasing them" % ("shared " if sh else "", n.split("::")[-1]))


def drains_case(g): return any(k == "all" for _, _, k in drains(g))


_al = {}
def allocator(p):
    """the function that registers new buffers, with its allocation primitives inlined"""
    if id(p) in _al: return _al[id(p)][1]
    c = [f for f in p.repo_fns(("src/",)) if any(e["k"] == "call" and nm(e) in ("emplace", "insert", "insert_or_assign", "try_emplace") and tab(f, e.get("obj")) == "alloc_used" for e in f.events())]
    if not c: raise AnalysisBroken("no function registers allocations")
    f = [x for x in c if not x.internal] or c
    f = f[0]
    g = inline(p, f, lambda c, e, t: t.internal and t.file == f.file, depth=3)
    if not any(nm(e) in OS_ALLOC for e in g.events() if e["k"] == "call"):
        cl = p.callers().get(f.key, [])
        for h, e in cl:
            g2 = inline(p, h, lambda c, e, t: t.file == h.file, depth=3)
            if any(nm(e) in OS_ALLOC for e in g2.events() if e["k"] == "call"): g = g2
    _al[id(p)] = (p, g)
    return g


# ---- operating-system primitives -------------------------------------------------------------------------------------------------
def primitives(ctx, p, R):
    P = R["primitive"]
    al = [f for f in p.repo_fns(("src/",)) if f.file == "src/malloc.cpp" and any(e["k"] == "call" and nm(e) in ("posix_memalign", "mmap", "aligned_alloc") for e in f.events()) and f.ret.strip().endswith("*")]
    fr = [f for f in p.repo_fns(("src/",)) if f.file == "src/malloc.cpp" and any(e["k"] == "call" and nm(e) in ("munmap",) for e in f.events())]
    if not al: raise AnalysisBroken("host allocation primitive not found")
    for f in al:
        # failed(x): variables that may hold MAP_FAILED / the unset result of posix_memalign
        mapv = {}
        def step(u, e, blk, env, f=f):
            u = set(u)
            if e["k"] in ("asg", "decl"):
                l = strip(e["l_"]) if e["k"] == "asg" else ["v", e["v"]]
                r = e.get("r") if e["k"] == "asg" else e.get("init")
                if l[0] == "v" and r is not None:
                    u -= {x for x in u if x[0] == l[1]}
                    ce = call_of(f, r)
                    if ce is not None and nm(ce) == "mmap": u.add((l[1], "map"))
                    elif strip(r)[0] == "v": u |= {(l[1], k) for v, k in u if v == strip(r)[1]}
                    elif ce is not None and nm(ce) == "posix_memalign": u.add((l[1], "status", addr(ce["a"][0])))
            if e["k"] == "ret" and e.get("e") is not None:
                ctx.ok(P, 1, "%s:%d returns %s" % (f.display, e["l"], estr(e["e"], f)))
                for v in may_return(f, e["e"], u):
                    ctx.violation(P, "%s|MAP_FAILED" % f.display, f.loc(e), "a failed mmap() is returned as a valid address")
            return [frozenset(u)]
        def branch(u, facts, blk, i, f=f):
            for c, v in facts:
                c = strip(c)
                if c[0] == "bi" and c[1] in ("==", "!="):
                    for a, b in ((c[2], c[3]), (c[3], c[2])):
                        if strip(a)[0] == "v" and is_failed(f, b) and (c[1] == "==") != v:
                            u = frozenset(x for x in u if x[0] != strip(a)[1])
            return u
        ins, ex, tr = paths(f, frozenset(), step, branch)
        # posix_memalign: result only used if it succeeded, or preset
        for e in f.events():
            if e["k"] == "call" and nm(e) == "posix_memalign":
                a = strip(e["a"][0]); v = strip(a[2])[1] if a[0] == "u" else None
                d = [x for x in f.defs().get(v, []) if x[0] == "decl"]
                ini = d and d[0][1] is not None and strip(d[0][1])[0] == "null"
                ctx.ok(P, 1, "%s: posix_memalign" % f.display)
                used = "i" in e and any(x == ["ev", e["i"]] for y in f.events() if y is not e for ex_ in [y.get("init"), y.get("r"), y.get("e")] if ex_ is not None for x in walk(ex_)) or any(b.term and b.term[1] is not None and any(x == ["ev", e.get("i")] for x in walk(b.term[1])) for b in f.blocks.values())
                if not used and not ini: ctx.violation(P, "%s|posix_memalign" % f.display, f.loc(e), "the status of posix_memalign() is ignored, although its result is undefined when it fails")
    # pairing by size
    for f in al:
        sv = [v for v, t in zip(f.params, f.ptypes) if t in ("unsigned long", "size_t")]
        for g in fr:
            gv = [v for v, t in zip(g.params, g.ptypes) if t in ("unsigned long", "size_t")]
            if not sv or not gv: continue
            for size in [1 << k for k in range(6, 41)] + [(1 << 21) - 64, (1 << 21) + 64, (1 << 20) * 3]:
                A = {x[0] for x in case_reach(p, f, {}, OS_ALLOC, [(sv[0], size)])}
                F = {x[0] for x in case_reach(p, g, {}, OS_FREE, [(gv[0], size)])}
                ctx.ok(P, 1)
                if A != F:
                    ctx.violation(P, "%s|size" % g.display, g.loc(), "a host buffer of %d bytes is allocated by %s, but released by %s" % (size, sorted(A), sorted(F))); break
            for h, n, v in ((f, "mmap", sv[0]), (g, "munmap", gv[0])):
                for e in h.events():
                    if e["k"] == "call" and nm(e) == n:
                        x = strip(h.canon(e["a"][1])); ctx.ok(P, 1)
                        if x != ["v", v]: ctx.violation(P, "%s|%s size" % (h.display, n), h.loc(e), "%s() is called with a size other than that of the buffer" % n)


def call_of(f, r):
    r = strip(r)
    if is_expr(r) and r[0] == "ev" and r[1] in f.evi and f.evi[r[1]]["k"] == "call": return f.evi[r[1]]
    return None
def addr(e):
    e = strip(e); return strip(e[2])[1] if e[0] == "u" and strip(e[2])[0] == "v" else None
def is_failed(f, e):
    e = strip(e)
    for _ in range(4):
        if is_expr(e) and e[0] in ("cast", "ic"): e = strip(e[3])
    if const_int(e) == -1: return True
    return is_expr(e) and e[0] == "u" and e[1] == "-" and const_int(e[2]) == 1
def may_return(f, e, u):
    e = strip(e)
    bad = {x[0] for x in u if x[1] == "map"}
    if e[0] == "?":
        c = strip(e[1]); out = []
        for arm, val in ((e[2], True), (e[3], False)):
            u2 = u
            if c[0] == "bi" and c[1] in ("==", "!="):
                for a, b in ((c[2], c[3]), (c[3], c[2])):
                    if strip(a)[0] == "v" and is_failed(f, b) and (c[1] == "==") != val: u2 = frozenset(x for x in u2 if x[0] != strip(a)[1])
            out += may_return(f, arm, u2)
        return out
    if e[0] == "v": return [e[1]] if e[1] in bad else []
    ce = call_of(f, e)
    if ce is not None and nm(ce) == "mmap": return ["mmap"]
    return []


def run(ctx):
    R = {k: ctx.rule(k, d) for k, d in (
        ("balance", "along every path of every function that changes the allocation tables (executed abstractly per backend/sharing/ownership), the changes to the table of live buffers, the cache, usage, allocated and watermark statistics agree; a raised error leaves them unchanged"),
        ("register", "only non-null buffers are registered; released ones are removed"),
        ("reuse", "a released buffer only becomes immediately reusable if no pending work can use it (host, queue-ordered device memory); otherwise it is parked"),
        ("deferred", "parked buffers are released exactly once, only ordered after pending work, and are never overwritten"),
        ("drain", "buffers that leave the cache are counted and subtracted per backend, no longer in use, and released by the primitive matching their allocation"),
        ("primitive", "operating-system allocation failures are turned into a null result; allocation and release agree on the primitive and size"))}
    for cfg in ("full",) + (("llvm", "cuda") if ctx.tier == "thorough" else ()): run_cfg(ctx, cfg, R)
    ctx.floor("balance", 10); ctx.floor("register", 2); ctx.floor("reuse", 3); ctx.floor("deferred", 3); ctx.floor("drain", 4); ctx.floor("primitive", 5)
    ctx.assume("CUDA and LLVM device memory that is not shared may be reused immediately, since all work is executed in submission order (C15)", "std::vector and robin_map behave as specified", "the host compiler defines no _WIN32; the Metal runtime (metal_ts.mm) cannot be parsed here")
