"""C18: the public interface exists, consistently, in every build configuration.

The witness unit witness/public.cpp includes every public header, so each configuration yields the interface an
application sees.  Definitions are matched by mangled name, i.e. by signature and language linkage."""
from collections import defaultdict
from .core import strip, walk, estr

# configurations whose library is complete here (Metal needs Objective-C++ units that cannot be parsed)
COMPLETE = ["cuda", "nooptix", "llvm", "stdmutex"]
ALL = ["full", "cuda", "nooptix", "llvm", "debug", "stdmutex"]
# backend -> (header or name prefix of its functions, configurations without it)
BACKEND = {"cuda": (("jit_cuda_",), ("gl_interop.h",), ["llvm", "stdmutex"]),
           "optix": (("jit_optix_",), ("optix.h",), ["nooptix", "llvm", "stdmutex"]),
           "metal": (("jit_metal_",), ("metal.h",), ["cuda", "nooptix", "llvm", "stdmutex"])}
# functions of a disabled backend that have a meaningful answer
QUIET = {"jit_cuda_version": "reports version 0.0",
         "jit_metal_lookup_buffer": "no pointer belongs to a Metal buffer",
         "jit_metal_scene_set_cleanup": "takes a scene, and jit_metal_configure_scene() cannot create one"}

base = lambda v: v.split(":")[0].strip("_")


def is_pub(d): return d["file"].startswith("include/") and (d["q"].startswith("jit_")) and not d.get("method")


def of_backend(name, files):
    for b, (pre, hdr, cfgs) in BACKEND.items():
        if name.startswith(pre) or any(f.endswith("/" + h) for f in files for h in hdr): return b, cfgs
    return None, []


def run(ctx):
    for r, d in (("defined", "every function declared in a public header has exactly one definition with that signature and linkage in every configuration, and is exported"),
                 ("link", "every library function and global variable referred to in a configuration is defined in it, once"),
                 ("stable", "the declared interface (functions, parameter types, structure layouts, enumerator values) is identical in every configuration"),
                 ("disabled", "a function of a disabled backend raises on every path, or is a query without effects that returns a constant"),
                 ("forward", "jit_X() hands each parameter to the parameter of the same name of the implementation jitc_X(), uses all of them and its result; no call in the library exchanges two arguments of the same type against the names of the parameters")):
        ctx.rule(r, d)
    iface = {}
    for cfg in ALL:
        p = ctx.prog(cfg)
        by = defaultdict(list)
        for d in p.decls: by[d["key"]].append(d)
        pub = {k: v for k, v in by.items() if any(is_pub(d) for d in v)}
        check_defined(ctx, cfg, p, by, pub)
        check_link(ctx, cfg, p, by)
        iface[cfg] = interface(p, pub)
        check_disabled(ctx, cfg, p, pub)
    check_stable(ctx, iface)
    check_forward(ctx, ctx.prog("full"))
    ctx.floor("defined", 1000); ctx.floor("link", 3000); ctx.floor("forward", 150); ctx.floor("disabled", 30)
    ctx.assume("The Metal units written in Objective-C++ (*.mm) are not analysed: the configurations that enable Metal are only checked for functions defined elsewhere.")


def check_defined(ctx, cfg, p, by, pub):
    for k, v in pub.items():
        d0 = next(d for d in v if is_pub(d)); q = d0["q"]
        where = "%s:%d" % (d0["file"], d0["line"])
        defs = [d for d in v if d.get("def")]
        ctx.ok("defined", 1, "%s in configuration %s" % (q, cfg))
        if not any(d.get("inline") for d in v) and len(defs) > 1:
            ctx.violation("defined", q + "|dup", where, "%s() has %d definitions in configuration '%s': %s" % (q, len(defs), cfg, ", ".join("%s:%d" % (d["file"], d["line"]) for d in defs)))
        if defs: 
            if not any(d.get("inline") for d in v) and not any(d.get("export") for d in v):
                ctx.violation("defined", q + "|export", where, "%s() is not exported from the shared library" % q)
            continue
        if cfg not in COMPLETE and "metal" in q: continue
        near = [d for d in p.decls if d["q"] == q and d.get("def")]
        why = " (a function of that name with other parameters or linkage is defined at %s:%d)" % (near[0]["file"], near[0]["line"]) if near else ""
        ctx.violation("defined", q, where, "%s() is declared for applications but not defined in configuration '%s'%s" % (q, cfg, why))


def check_link(ctx, cfg, p, by):
    if cfg not in COMPLETE: return
    seen = set()
    inl = {k for k, v in by.items() if any(d.get("inline") for d in v)}
    needed, todo = set(), [f for k, f in p.fns.items() if k not in inl and not f.parent]
    while todo:
        f = todo.pop()
        if f.key in needed: continue
        needed.add(f.key)
        todo += lambdas(p, f)
        for b in f.blocks.values():
            for e in b.ev:
                g = p.fns.get(e.get("fn"))
                if g and g.key not in needed: todo.append(g)
    for f in p.fns.values():
        if f.file.startswith("witness/") or f.key not in needed: continue
        for b in f.blocks.values():
            for e in b.ev:
                k = e.get("fn")
                if e.get("k") not in ("call", "ctor") or not k or k in seen: continue
                v = by.get(k)
                if not v or e.get("virt"): continue
                seen.add(k); ctx.ok("link", 1, "%s -> %s (%s)" % (f.display, e.get("q"), cfg))
                if not any(d.get("def") for d in v) and any(d["file"].startswith("src/") for d in v) and k not in p.fns:
                    ctx.violation("link", "%s|%s" % (e["q"], cfg), "%s:%d" % (f.file, e["l"]), "%s() calls %s(), which is not defined in configuration '%s'" % (f.display, e["q"], cfg))
    for k, v in by.items():
        defs = {(d["file"], d["line"]) for d in v if d.get("def")}
        if len(defs) > 1 and not any(d.get("inline") or d.get("method") for d in v) and not any(f.internal for f in p.fns.values() if f.key == k):
            ctx.violation("link", v[0]["q"] + "|dup", "%s:%d" % sorted(defs)[0], "%s() is defined more than once in configuration '%s'" % (v[0]["q"], cfg))


def interface(p, pub):
    out = {}
    for k, v in pub.items():
        for d in v:
            if d["file"].startswith("include/"):
                out["function " + d["q"] + " (" + ", ".join(x[1] for x in d["params"]) + ") -> " + d["ret"]] = ("%s:%d" % (d["file"], d["line"]), d["q"])
    for n, r in p.recs.items():
        f = r.get("file", "")
        if f.startswith("include/"):
            out["record %s {%s}" % (n, "; ".join("%s %s:%s" % (x[1], x[0], x[2]) for x in r["fields"]) + " size %s" % r.get("size"))] = ("%s:%d" % (f, r["line"]), n)
    for n, en in p.enums.items():
        f = en.get("file", "")
        if f.startswith("include/"):
            vals = en["vals"]
            out["enum %s %s" % (n, vals)] = ("%s:%d" % (f, en["line"]), n)
    return out


def check_stable(ctx, iface):
    allk = {}
    for c, d in iface.items():
        for k, w in d.items(): allk.setdefault(k, w)
    for k, (where, name) in sorted(allk.items()):
        missing = [c for c in ALL if k not in iface[c]]
        ctx.ok("stable", 1, k[:100])
        if missing:
            ctx.violation("stable", name, where, "the public declaration of '%s' depends on build options: configurations %s lack '%s'" % (name, ", ".join(missing), k[:160]))


def is_const(e):
    e = strip(e) if e else None
    if e is None: return True
    if e[0] in ("i", "b", "n", "null", "f", "e"): return True
    if e[0] == "u" and e[1] == "-": return is_const(e[2])
    return e[0] in ("nullptr",)


def check_disabled(ctx, cfg, p, pub):
    if cfg not in COMPLETE: return
    memo = {}

    def raises(f, depth=0):
        """every path ends in a call that does not return"""
        if f.key in memo: return memo[f.key]
        memo[f.key] = False
        from .core import paths

        def step(u, e, blk, env):
            if e["k"] == "call" and depth < 4 and u == 0:
                ts = p.targets(e)
                if ts and all(raises(t, depth + 1) for t in ts if t.key != f.key): return []
            return [u]
        _, ex, _ = paths(f, 0, step)
        ok = not ex
        memo[f.key] = ok
        return ok

    for k, v in pub.items():
        d0 = next(d for d in v if is_pub(d)); q = d0["q"]
        b, cfgs = of_backend(q, [d["file"] for d in v])
        if not b or cfg not in cfgs: continue
        f = p.fns.get(k)
        if f is None: continue
        ctx.ok("disabled", 1, "%s (%s disabled)" % (q, b))
        if raises(f): continue
        bad = None
        for blk in f.blocks.values():
            for e in blk.ev:
                if e["k"] == "call" and not e.get("noret"):
                    t = p.targets(e)
                    if (e.get("q") or "").split("::")[-1] in ("lock", "unlock", "lock_acquire", "lock_release"): continue
                    bad = "calls %s()" % (e.get("q") or "a function pointer")
                elif e["k"] == "ret" and not is_const(e.get("e")): bad = "returns '%s'" % estr(e["e"])
        if bad:
            ctx.violation("disabled", q, f.loc(), "%s() belongs to the %s backend, which configuration '%s' disables, and %s instead of raising" % (q, b, cfg, bad))
        elif q not in QUIET and (d0["params"] or d0["ret"] == "void"):
            ctx.violation("disabled", q, f.loc(), "%s() belongs to the %s backend, which configuration '%s' disables, and returns without raising an error" % (q, b, cfg))


def arg_name(a):
    """the variable an argument denotes (through casts and comparisons with zero): (name, id, negated)"""
    a = strip(a); neg = False
    if a and a[0] == "bi" and a[1] in ("!=", "==") and strip(a[3])[:2] == ["i", 0]:
        neg = a[1] == "=="; a = strip(a[2])
    elif a and a[0] == "u" and a[1] == "!": neg = True; a = strip(a[2])
    if a and a[0] == "v": return base(a[1]), a[1], neg
    return None, None, False


def mentions_param(f, p_):
    for b in f.blocks.values():
        for e in b.ev:
            for x in e.values():
                if isinstance(x, list) and any(y[0] == "v" and y[1] == p_ for y in walk(x)): return True
        if b.term:
            for x in b.term:
                if isinstance(x, list) and any(y[0] == "v" and y[1] == p_ for y in walk(x)): return True
    return False


def check_forward(ctx, p):
    pubnames = {d["q"] for d in p.decls if is_pub(d)}
    for f in p.fns.values():
        # library-wide: two arguments exchanged
        for b in f.blocks.values():
            for e in b.ev:
                if e.get("k") not in ("call", "ctor"): continue
                for t in p.targets(e)[:1]:
                    pn = [base(x) for x in t.params]
                    an = [arg_name(a) for a in e.get("a", [])][:len(pn)]
                    for i in range(len(an)):
                        for j in range(i + 1, len(an)):
                            if an[i][0] and an[j][0] and an[i][0] != an[j][0] and an[i][0] == pn[j] and an[j][0] == pn[i] and t.ptypes[i] == t.ptypes[j]:
                                ctx.violation("forward", "%s|%s|swap" % (f.display, t.q), "%s:%d" % (f.file, e["l"]), "%s() passes '%s' for the parameter '%s' of %s() and '%s' for '%s'" % (f.display, an[i][0], pn[i], t.q, an[j][0], pn[j]))
        q = f.q
        if q not in pubnames or f.internal: continue
        jc = "jitc_" + q[4:]
        impl = p.by_q.get(jc)
        calls = [e for g in [f] + lambdas(p, f) for b in g.blocks.values() for e in b.ev if e.get("k") == "call"]
        mine = [e for e in calls if e.get("q") == jc]
        if impl:
            ctx.ok("forward", 1, "%s -> %s" % (q, jc))
            others = [e["q"] for e in calls if (e.get("q") or "").startswith("jitc_") and "jit_" + e["q"][5:] in pubnames and e["q"] != jc]
            if not mine and others and not any(len(t.params) != len(f.params) for t in impl):
                ctx.violation("forward", q + "|impl", f.loc(), "%s() calls %s() instead of its implementation %s()" % (q, others[0], jc))
        for e in mine:
            t = p.targets(e)
            if not t: continue
            t = t[0]
            pn = [base(x) for x in t.params]
            args = e.get("a", [])
            an = [arg_name(a) for a in args][:len(pn)]
            for i, (n, vid, neg) in enumerate(an):
                if n is None or vid not in f.params: continue
                if neg:
                    ctx.violation("forward", "%s|%s|inverted" % (q, n), "%s:%d" % (f.file, e["l"]), "%s() passes the inverse of its parameter '%s' to %s()" % (q, n, jc))
                if n != pn[i] and n in pn and pn.index(n) < len(an) and an[pn.index(n)][0] != n:
                    ctx.violation("forward", "%s|%s|order" % (q, n), "%s:%d" % (f.file, e["l"]), "%s() passes its parameter '%s' to %s() as '%s'" % (q, n, jc, pn[i]))
            if e.get("disc") and f.ret not in ("void",) and t.ret == f.ret:
                ctx.violation("forward", q + "|result", "%s:%d" % (f.file, e["l"]), "%s() discards the result of %s()" % (q, jc))
        if mine:
            body = [f] + lambdas(p, f)
            for prm in f.params:
                if not base(prm): continue
                if not any(mentions_param(g, prm) for g in body):
                    ctx.violation("forward", "%s|%s|unused" % (q, base(prm)), f.loc(), "%s() ignores its parameter '%s'" % (q, base(prm)))


def lambda_index(p):
    out = defaultdict(list)
    for g in p.fns.values():
        if g.parent: out[g.parent].append(g)
    return out


def lambdas(p, f): return p.__dict__.setdefault("_c18_lams", lambda_index(p)).get(f.key, [])
