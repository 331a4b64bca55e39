"""C20: the instance registry: typestate of registration/removal over all paths, guarded lookups, complete clearing, free-slot
allocator invariants."""
from .core import *
from .c03 import dominators
from .c11 import place

MAXU = 0xffffffff


def roles(prog):
    """identify the registry's data structures by their types"""
    R = {}
    for r in prog.recs.values():
        names = {f[0]: f[1] for f in r["fields"]}
        if any("FreeSlots" == t for t in names.values()) and any("vector" in t for t in names.values()) and r["file"] == "src/registry.cpp":
            R["domain"] = r["q"]
            R["slots"] = [n for n, t in names.items() if t == "FreeSlots"][0]
            R["fwd"] = [n for n, t in names.items() if "vector" in t][0]
            R["entry"] = names[R["fwd"]].split("<")[1].split(">")[0].split(",")[0].strip()
            R["bound"] = [n for n, t in names.items() if t == "unsigned int"][0]
    for r in prog.recs.values():
        if r["file"] != "src/registry.cpp": continue
        for f in r["fields"]:
            if "robin_map<void *" in f[1]:
                R["rev"] = f[0]; R["key"] = f[1].split("robin_map<void *,")[1].split(",")[0].strip()
            elif "robin_map<" in f[1]: R["ids"] = f[0]
            elif "vector<" + R.get("domain", "?") in f[1]: R["domains"] = f[0]
    for n in ("domain", "rev", "ids", "domains", "key"):
        if n not in R: raise AnalysisBroken("registry data structures not recognized (%s)" % n)
    kr = [r for r in prog.recs.values() if r["q"] == R["key"]][0]
    R["kidx"] = kr["fields"][1][0]; R["kfields"] = [x[0] for x in kr["fields"]]
    er = [r for r in prog.recs.values() if r["q"] == R["entry"]][0]
    R["eptr"] = [x[0] for x in er["fields"] if "*" in x[1]][0]
    R["eact"] = ([x[0] for x in er["fields"] if x[1] == "bool"] or [None])[0]
    return R


def short(e): return (e.get("q") or "").split("::")[-1]


def has_m(e, name):
    return is_expr(e) and any(x[0] == "m" and x[2] == name for x in walk(e))


def run(ctx):
    P = ctx.rule("register", "a successful registration sets forward entry, reverse entry, bound and identifier for one and the same index; a duplicate raises before anything changes")
    D = ctx.rule("remove", "a removal deletes both directions, frees the index once and keeps the bound tight; unknown pointers are rejected first")
    L = ctx.rule("lookup", "every access to a registry entry is guarded by the check that it exists and is active, and identifiers are index plus one")
    C = ctx.rule("clear", "clearing covers every domain and every reverse entry")
    F = ctx.rule("free-slots", "the free-slot set counts, marks and returns each slot consistently")
    for cfg in (("full",) if ctx.tier == "quick" else ("full", "llvm", "debug")):
        prog = ctx.prog(cfg)
        R = roles(prog)
        want = lambda f, e, t: e["k"] == "call" and not t.cls and t.file == "src/registry.cpp" and not t.q.startswith("jitc_") and t.q.split("::")[0] not in ("DomainKey", "Ptr")
        fns = [inline(prog, f, want) for f in prog.repo_fns() if f.file == "src/registry.cpp" and f.q.startswith("jitc_")]
        for f in fns:
            ins = [e for e in f.events() if e["k"] == "call" and e.get("obj") is not None and is_m(f, e["obj"], R["rev"]) and short(e) in ("try_emplace", "emplace", "insert", "insert_or_assign", "operator[]")]
            era = [e for e in f.events() if e["k"] == "call" and e.get("obj") is not None and is_m(f, e["obj"], R["rev"]) and short(e) in ("erase", "erase_fast")]
            if ins: register(ctx, P, f, R, ins)
            freed = any(e["k"] == "call" and e.get("obj") is not None and is_m(f, e["obj"], R["slots"]) and short(e) == "push" for e in f.events())
            if era or freed: remove(ctx, D, f, R, era)
            lookups(ctx, L, f, R)
            clearing(ctx, C, prog, f, R)
        slots(ctx, F, prog)
    ctx.floor(P, 6); ctx.floor(D, 3); ctx.floor(L, 10); ctx.floor(C, 5); ctx.floor(F, 8)
    ctx.assume("pointer arguments of the registry functions are object addresses that stay valid while registered",
               "out-of-memory exceptions of the standard containers are outside the registry's error contract")


def is_m(f, e, name):
    e = place(f, e)
    return is_expr(e) and e[0] == "m" and e[2] == name


def cmp_max(f, c, v, R):
    """True/False: the reverse entry is known to be / not to be a cleared one"""
    c = strip(c)
    if c[0] == "bi" and c[1] in ("==", "!="):
        for x, y in ((c[2], c[3]), (c[3], c[2])):
            if const_int(f.canon(y)) in (MAXU, -1) and has_m(f.canon(x), R["kidx"]): return v == (c[1] == "==")
    return None


def entry_args(f, e):
    """(pointer expression, active) of a written forward entry"""
    a = e["a"]
    if short(e) == "operator=":
        x = strip(a[0])
        ev = f.evi.get(x[1]) if x[0] == "ev" else None
        if ev is not None and ev["k"] == "ctor": a = ev["a"]
        elif x[0] == "il": a = x[2:]
        else: return None
    elif len(a) == 1:
        x = strip(a[0])
        ev = f.evi.get(x[1]) if x[0] == "ev" else None
        if ev is not None and ev["k"] == "ctor": a = ev["a"]
        elif x[0] == "il": a = x[2:]
    if len(a) < 2: return None
    return strip(f.canon(a[0])), const_int(f.canon(a[1]))


def elem(f, e, R):
    """index expression if e denotes an element of the forward map"""
    e = strip(e)
    if e[0] == "ev":
        ev = f.evi.get(e[1])
        if ev is not None and short(ev) in ("operator[]", "at") and ev.get("obj") is not None and is_m(f, ev["obj"], R["fwd"]): return ev["a"][0]
    if e[0] == "v":
        D_ = f.defs().get(e[1], [])
        if len(D_) == 1 and D_[0][0] == "decl" and D_[0][2]["ty"].rstrip().endswith("&"): return elem(f, D_[0][1], R)
    if e[0] == "u" and e[1] == "*": return elem(f, e[2], R)
    return None


def keyval(f, e, R):
    """is e the value part of a reverse entry?"""
    c = f.canon(e)
    if not is_expr(c): return False
    return any(x[0] == "m" and x[2] in ("second",) or x[0] == "call" and x[1].split("::")[-1] in ("value",) for x in walk(c))


def register(ctx, P, f, R, ins):
    ptr = [p for p, t in zip(f.params, f.ptypes) if "void" in t]
    res = []
    def sym(d, e):
        """symbolic index: where the value of e came from on this path"""
        c = strip(e)
        if c[0] == "v":
            for v, x in d.get("env", ()):
                if v == c[1]: return x
        c = f.canon(c)
        if not is_expr(c): return None
        if c[0] == "v":
            for v, x in d.get("env", ()):
                if v == c[1]: return x
            return None
        if c[0] == "call" and c[1].split("::")[-1] == "pop" and has_m(c, R["slots"]): return "pop"
        off = 0
        if c[0] == "bi" and c[1] == "-" and const_int(c[3]) == 1: c = c[2]; off = -1
        if c[0] == "call" and c[1].split("::")[-1] == "size" and is_expr(c[2]) and is_m(f, c[2], R["fwd"]):
            app = -1 if d.get("fwd", ("",))[0] == "append" else 0
            return "size" if app == off else "badsize"
        if c[0] == "call" and c[1].split("::")[-1] in ("min", "max"): return None
        return None
    def setv(d, v, s_):
        env = dict(d.get("env", ()))
        if s_ is None: env.pop(v, None)
        else: env[v] = s_
        d["env"] = tuple(sorted(env.items()))
    def plus1(d, e):
        return [sym(d, x[2]) for x in walk(f.canon(e)) if x[0] == "bi" and x[1] == "+" and const_int(x[3]) == 1]
    def step(u, e, blk, env):
        d = dict(u)
        if e["k"] == "call":
            m = short(e)
            if e in ins: d["ins"] = 1; d["isnew"] = None
            elif e.get("obj") is not None and is_m(f, e["obj"], R["fwd"]) and m in ("emplace_back", "push_back"):
                d["fwd"] = ("append", repr(entry_args(f, e)), e["l"]); d["n"] = d.get("n", 0) + 1
            elif e.get("obj") is not None and m == "operator=" and elem(f, e["obj"], R) is not None:
                d["fwd"] = ("set:%s" % sym(d, elem(f, e["obj"], R)), repr(entry_args(f, e)), e["l"]); d["n"] = d.get("n", 0) + 1
            elif m == "operator=" and e.get("obj") is not None and keyval(f, e["obj"], R):
                x = strip(e["a"][0])
                while x[0] == "ev" and f.evi[x[1]]["k"] == "ctor" and len(f.evi[x[1]]["a"]) == 1: x = strip(f.evi[x[1]]["a"][0])
                if x[0] == "v": x = f.canon(x)
                if x[0] == "il" and len(x) >= 4: d["rev"] = (repr(f.canon(x[2])), sym(d, x[3]), e["l"])
                elif x[0] == "ev" and len(f.evi[x[1]]["a"]) == 2: d["rev"] = (repr(f.canon(f.evi[x[1]]["a"][0])), sym(d, f.evi[x[1]]["a"][1]), e["l"])
                else: d["rev"] = ("?", "?", e["l"])
            elif e.get("obj") is not None and is_m(f, e["obj"], R["slots"]) and m == "pop": d["pop"] = d.get("pop", 0) + 1
            elif e.get("obj") is not None and is_m(f, e["obj"], R["slots"]) and m == "push": d["push"] = 1
            if m in ("jitc_raise",) and (d.get("fwd") or d.get("rev") or d.get("pop")):
                ctx.violation(P, "%s|late-error" % f.display, f.loc(e), "registration raises after the registry was already modified")
        elif e["k"] == "asg":
            l = strip(e["l_"])
            if is_m(f, e["l_"], R["bound"]) and const_int(e["r"]) != 0: d["bound"] = repr(plus1(d, e["r"]))
            elif l[0] == "v": setv(d, l[1], sym(d, e["r"]) if e["op"] == "=" else None)
            elif l[0] == "m" and l[2] in R["kfields"] and keyval(f, l[1], R):
                a = list(d.get("rev", ("-", "-", e["l"])))
                a[R["kfields"].index(l[2])] = repr(f.canon(e["r"])) if l[2] != R["kidx"] else sym(d, e["r"]); d["rev"] = tuple(a)
        elif e["k"] == "inc" and strip(e["e"])[0] == "v": setv(d, strip(e["e"])[1], None)
        elif e["k"] == "decl" and e.get("init") is not None: setv(d, e["v"], sym(d, e["init"]))
        elif e["k"] == "ret": d["ret"] = repr(plus1(d, e["e"])) if e.get("e") is not None and strip(f.canon(e["e"]))[0] == "bi" else "?"; res.append((d, e))
        return [tuple(sorted(d.items(), key=lambda x: x[0]))]
    def branch(u, facts, blk, i):
        d = dict(u)
        for c, v in facts:
            c0 = strip(c)
            # a conjunction that fails although one side holds: the other side failed
            while c0[0] == "bi" and c0[1] in ("&&", "||") and v == (c0[1] == "||"):
                rest = []
                for o in c0[2:4]:
                    fs = cond_facts(f, o, not v)
                    known = len(fs) == 1 and is_flag(f, fs[0][0], ins) and d.get("isnew") is fs[0][1]
                    if not known: rest.append(o)
                if len(rest) != 1: break
                fs = cond_facts(f, rest[0], v)
                if len(fs) != 1: break
                c, v = fs[0]; c0 = strip(c)
            cc = f.canon(c)
            k = cmp_max(f, c, v, R)
            if k is not None: d["cleared"] = k
            # the inserted flag of the emplacement
            if is_expr(cc) and (c0[0] == "v" or cc[0] == "m" and cc[2] == "second") and is_flag(f, c0, ins):
                if d.get("isnew") not in (None, v): return None
                d["isnew"] = v
            if is_expr(cc) and cc[0] == "bi" and cc[1] in ("<", ">", "<=", ">=") and has_m(cc, R["bound"]): d.setdefault("bound", repr(plus1(d, c)))
        return tuple(sorted(d.items(), key=lambda x: x[0]))
    paths(f, (), step, branch, track=False)
    if not res: raise AnalysisBroken("no normal exit of " + f.display)
    for d, e in res:
        ctx.ok(P, 1, "%s: path to the return with %s index" % (f.display, d.get("rev", ("", "?"))[1]))
        def bad(k, msg): ctx.violation(P, "%s|%s" % (f.display, k), f.loc(e), msg)
        if "ins" not in d: bad("no-insert", "a registration path does not create the reverse entry"); continue
        if d.get("isnew") is not True and d.get("cleared") is not True: bad("duplicate", "an already registered pointer is accepted" + (" (the result of the insertion is not checked)" if d.get("isnew") is None else "")); continue
        fw, rv = d.get("fwd"), d.get("rev")
        if fw is None or d.get("n") != 1: bad("forward", "a registration path %s" % ("does not create the forward entry" if fw is None else "writes several forward entries")); continue
        if rv is None: bad("reverse", "a registration path leaves the reverse entry unset"); continue
        ix = rv[1]
        if ix not in ("pop", "size"): bad("agree", "the index in the reverse entry is not the one allocated for the forward entry"); continue
        if (fw[0] == "append") != (ix == "size") or fw[0] != "append" and fw[0] != "set:pop": bad("agree", "the forward entry is written at another position than the allocated index")
        try: args = eval(fw[1])
        except Exception: args = None
        if args is None or not ptr or args[0] != ["v", ptr[0]] or args[1] != 1: bad("entry", "the forward entry does not hold the registered pointer as an active instance")
        if d.get("pop", 0) != (ix == "pop") or d.get("push"): bad("slots", "a free slot is taken without being used")
        if repr(ix) not in (d.get("bound") or ""): bad("bound", "the bound on identifiers is not raised to cover the new index")
        if d.get("ret") != repr([ix]): bad("id", "the returned identifier is not the stored index plus one")
        dm = rv[0]
        if "second" not in dm and "size" not in dm and "get" not in dm: bad("domain", "the reverse entry does not name the domain that was looked up")


def is_flag(f, c, ins, d=0):
    """does variable c hold the 'inserted' flag of one of the given emplacements?"""
    c = strip(c)
    if d > 4: return False
    if c[0] == "v":
        for x in f.defs().get(c[1], []):
            if x[1] is not None and is_flag(f, x[1], ins, d + 1): return True
        return False
    if c[0] == "m": return c[2] == "second" and from_(f, c[1], ins)
    if c[0] == "ev":
        ev = f.evi.get(c[1])
        if ev is None: return False
        if ev["k"] == "call" and (ev.get("q") or "").endswith("std::get") or (ev.get("q") or "") == "std::get": return any(from_(f, a, ins) for a in ev["a"])
    return False


def from_(f, e, ins, d=0):
    e = strip(e)
    if d > 6: return False
    if e[0] == "ev":
        ev = f.evi.get(e[1])
        return ev in ins or ev is not None and ev["k"] == "ctor" and len(ev["a"]) == 1 and from_(f, ev["a"][0], ins, d + 1)
    if e[0] == "v": return any(x[1] is not None and from_(f, x[1], ins, d + 1) for x in f.defs().get(e[1], []))
    return False


def remove(ctx, D, f, R, era):
    ptr = [p for p, t in zip(f.params, f.ptypes) if "void" in t]
    rks = [e for e in f.events() if e["k"] == "decl" and e["ty"].replace("const ", "").rstrip(" &") == R["key"]]
    res = []
    def fin(d, where):
        res.append((d, where))
    def idx(e):
        c = f.canon(e)
        return has_m(c, R["kidx"])
    def step(u, e, blk, env):
        d = dict(u)
        if e["k"] == "call":
            m = short(e)
            if e in era:
                if d.get("found") is not True and not (e["a"] and strip(f.canon(e["a"][0])) == ["v", ptr[0]] if ptr else False):
                    ctx.violation(D, "%s|unknown" % f.display, f.loc(e), "the reverse entry is erased without checking that the pointer is registered")
                d["era"] = d.get("era", 0) + 1
            elif e.get("obj") is not None and is_m(f, e["obj"], R["slots"]) and m == "push":
                d["push"] = d.get("push", 0) + 1
                if not idx(e["a"][0]): ctx.violation(D, "%s|slot" % f.display, f.loc(e), "the slot returned to the free list is not the index of the removed instance")
            elif e.get("obj") is not None and m == "operator=" and elem(f, e["obj"], R) is not None:
                a = entry_args(f, e)
                d["fwd"] = d.get("fwd", 0) + 1; d["tight"] = 0
                if a is None or const_int(a[0]) != 0 and strip(a[0])[0] != "null" or a[1] != 0: ctx.violation(D, "%s|entry" % f.display, f.loc(e), "the forward entry of a removed instance is not fully reset")
                if not idx(elem(f, e["obj"], R)): ctx.violation(D, "%s|index" % f.display, f.loc(e), "another forward entry than that of the removed instance is reset")
        elif e["k"] == "inc" and is_m(f, e["e"], R["bound"]): d["tight"] = 0
        elif e["k"] == "asg" and is_m(f, e["l_"], R["bound"]): d["tight"] = 0
        elif e["k"] == "asg" and elem(f, strip(e["l_"])[1] if strip(e["l_"])[0] == "m" else ["?"], R) is not None:
            n = strip(e["l_"])[2]
            if const_int(f.canon(e["r"])) == 0: d["f_" + n] = 1
            if d.get("f_" + R["eptr"]) and (R["eact"] is None or d.get("f_" + R["eact"])): d["fwd"] = 1; d["tight"] = 0
        elif e["k"] == "ret": fin(d, f.loc(e))
        return [tuple(sorted(d.items()))]
    def branch(u, facts, blk, i):
        d = dict(u)
        for c, v in facts:
            cc = f.canon(c); k = cmp_max(f, c, v, R)
            if k is not None: d["cleared"] = k
            if not is_expr(cc): continue
            if cc[0] == "call" and cc[1].split("::")[-1] in ("operator==", "operator!=") and any(x[0] == "call" and x[1].split("::")[-1] in ("end", "cend") for x in walk(cc)):
                d["found"] = (v is False) == (cc[1].split("::")[-1] == "operator==")
            if cc[0] == "bi" and has_m(cc, R["bound"]):
                if cc[1] in ("==", "!=") and any(x[0] == "bi" and (x[1] == "+" and has_m(x[2], R["kidx"]) or x[1] == "-" and has_m(x[2], R["bound"])) and const_int(x[3]) == 1 for x in walk(cc)) and has_m(cc, R["kidx"]) and v == (cc[1] == "!="): d["tight"] = 1
                if cc[1] == ">" and const_int(cc[3]) == 0 and not v or cc[1] in ("==",) and const_int(cc[3]) == 0 and v or cc[1] == "!=" and const_int(cc[3]) == 0 and not v: d["tight"] = 1
            c1 = cc
            if c1[0] == "bi" and c1[1] in ("!=", "==") and const_int(c1[3]) == 0 and (c1[1] == "!=" ): c1 = c1[2]
            elif c1[0] == "bi" and c1[1] == "==" and (const_int(c1[3]) == 0 or strip(c1[3])[0] == "null"): c1, v = c1[2], not v
            if c1[0] == "m" and c1[2] in (R["eptr"], R["eact"]) and has_m(c1, R["bound"]) and v: d["tight"] = 1
        return tuple(sorted(d.items()))
    ex = paths(f, (), step, branch, track=False)[1]
    for u in ex: fin(dict(u), f.loc())
    done = set()
    for d, w in res:
        if repr(d) in done: continue
        done.add(repr(d))
        ctx.ok(D, 1, "%s: exit with %s" % (f.display, d))
        def bad(k, msg): ctx.violation(D, "%s|%s" % (f.display, k), w, msg)
        if not d.get("era"): bad("reverse", "a removal path keeps the reverse entry"); continue
        if d.get("era") > 1: bad("reverse", "the reverse entry is erased twice")
        if d.get("cleared") is True:
            if d.get("push") or d.get("fwd"): bad("cleared", "the forward map is modified for an instance that was already cleared")
            continue
        if d.get("cleared") is None: bad("cleared", "the removal does not distinguish instances cleared earlier: their index is used to address the forward map")
        if d.get("push", 0) != 1: bad("slot", "the index of a removed instance is returned to the free list %d times" % d.get("push", 0))
        if not d.get("fwd"): bad("forward", "a removal path keeps the forward entry")
        elif not d.get("tight"): bad("bound", "the bound on identifiers is not lowered when the topmost instance is removed")
    for e in rks:
        ctx.ok(D)
        if e["ty"].rstrip().endswith("&"): ctx.violation(D, "%s|dangling" % f.display, f.loc(e), "the reverse entry is read through a reference that the erasure invalidates")
    # decrements step over inactive entries only
    for b in f.blocks.values():
        for e in b.ev:
            if e["k"] == "inc" and e["op"] == "--" and is_m(f, e["e"], R["bound"]):
                ctx.ok(D)
                facts = [x for p in dom_facts(f, b) for x in p]
                if not any(v is False and is_expr(f.canon(c)) and has_m(f.canon(c), R["bound"]) and f.canon(c)[0] == "m" and f.canon(c)[2] in (R["eptr"], R["eact"]) or
                           v and f.canon(c)[0] == "bi" and f.canon(c)[1] == "==" and has_m(f.canon(c)[2], R["fwd"]) for c, v in facts):
                    ctx.violation(D, "%s|overshoot" % f.display, f.loc(e), "the bound is lowered past an entry without checking that it is unused")


def dom_facts(f, blk):
    """facts of every edge that dominates blk (each as list)"""
    dom = dominators(f)
    out = []
    for b in dom.get(blk.id, set()):
        bl = f.blocks[b]
        if len(bl.succ) != 2 or bl.succ[0] == bl.succ[1]: continue
        for i in (0, 1):
            s = bl.succ[i]
            if s is None: continue
            # edge dominates blk if its target does and the target has this block as only predecessor
            if (s in dom[blk.id]) and set(f.blocks[s].pred) == {b} and bl.succ[1 - i] != s: out.append(edge_facts(f, bl, i))
    return out


def lookups(ctx, L, f, R):
    dom = None
    for b in f.blocks.values():
        for e in b.ev:
            if e["k"] != "call": continue
            m = short(e)
            # dereferencing the result of find()
            if m in ("operator->", "value", "key", "operator*") and e.get("obj") is not None:
                o = strip(e["obj"])
                if o[0] != "v": continue
                u = f.unique_def(o[1])
                fe = f.evi.get(strip(u)[1]) if u is not None and strip(u)[0] == "ev" else None
                if fe is None or short(fe) != "find": continue
                ctx.ok(L, 1, "%s: use of a search result" % f.loc(e))
                facts = [x for p in dom_facts(f, b) for x in p]
                if not any((f.evi.get(strip(c)[1]) or {}).get("k") == "call" and short(f.evi[strip(c)[1]]) in ("operator==", "operator!=") and v == (short(f.evi[strip(c)[1]]) == "operator!=") and
                           any(strip(a) == o for a in f.evi[strip(c)[1]]["a"] + ([f.evi[strip(c)[1]]["obj"]] if f.evi[strip(c)[1]].get("obj") is not None else []))
                           for c, v in facts if strip(c)[0] == "ev"):
                    ctx.violation(L, "%s|find|%s" % (f.display, o[1].split(":")[0]), f.loc(e), "the result of a search is used without checking that the search succeeded")
            if e.get("obj") is not None and is_m(f, e["obj"], R["fwd"]) and m in ("operator[]", "at"):
                ix = f.canon(e["a"][0]); raw = strip(e["a"][0])
                facts = [(f.canon(c), v) for p in dom_facts(f, b) for c, v in p]
                ctx.ok(L, 1, "%s: forward entry '%s'" % (f.loc(e), estr(ix, f)))
                def cmp_ok(a, ops):
                    for c, v in facts:
                        if not is_expr(c) or c[0] != "bi": continue
                        for x, y, op in ((c[2], c[3], c[1]), (c[3], c[2], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(c[1], c[1]))):
                            if strip(x) != a: continue
                            if not v: op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]
                            if ops(op, y): return True
                    return False
                ok = False
                size = lambda y: is_expr(y) and any(z[0] == "call" and z[1].split("::")[-1] == "size" for z in walk(y)) or has_m(y, R["bound"])
                if has_m(ix, R["kidx"]): ok = True if any(cmp_max_c(c, v, R) for c, v in facts) else False; why = "the index of a possibly cleared instance addresses the forward map"
                elif has_m(ix, R["bound"]):
                    why = "the entry below the bound is read although the bound may be zero"
                    ok = any(is_expr(c) and c[0] == "bi" and (has_m(c[2], R["bound"]) or strip(c[2])[0] == "v") and const_int(c[3]) == 0 and (c[1] == ">" and v or c[1] == "!=" and v or c[1] == "==" and not v or c[1] == "<=" and not v) for c, v in facts) or \
                         any(is_expr(c) and has_m(c, R["bound"]) and v and c[0] == "m" for c, v in facts)
                elif ix[0] == "bi" and ix[1] == "-" and const_int(ix[3]) == 1:
                    why = "an identifier is used as an index without checking that it is in range"
                    ok = cmp_ok(ix, lambda op, y: op == "<" and size(y)) or cmp_ok(strip(ix[2]), lambda op, y: op == "<=" and size(y))
                    if ok and not (cmp_ok(strip(ix[2]), lambda op, y: op in ("!=", ">") and const_int(y) == 0)) and not any(c == strip(ix[2]) and v for c, v in facts): ok = False; why = "identifier zero is used as an index"
                elif ix[0] == "v":
                    why = "an index is used without a bound check"
                    D_ = f.defs().get(ix[1], [])
                    ok = cmp_ok(ix, lambda op, y: op == "<" and size(y))
                    if not ok: ok = any(x[1] is not None and is_expr(f.canon(x[1])) and any(z[0] == "call" and z[1].split("::")[-1] in ("pop",) for z in walk(f.canon(x[1]))) for x in D_)
                elif any(z[0] == "call" and z[1].split("::")[-1] == "pop" for z in walk(ix)): ok = True
                else: why = "an identifier is used directly as an index: identifiers are index plus one"
                if not ok: ctx.violation(L, "%s|index|%s" % (f.display, estr(ix, f)), f.loc(e), why)
    # results
    for b in f.blocks.values():
        for e in b.ev:
            if e["k"] == "ret" and e.get("e") is not None:
                r = f.canon(e["e"])
                if not is_expr(r): continue
                if f.ret == "unsigned int" and has_m(r, R["kidx"]):
                    ctx.ok(L)
                    if not (r[0] == "bi" and r[1] == "+" and const_int(r[3]) == 1): ctx.violation(L, "%s|id" % f.display, f.loc(e), "the identifier returned is not the index plus one")
                    facts = [(f.canon(c), v) for p in dom_facts(f, b) for c, v in p]
                    if not any(cmp_max_c(c, v, R) for c, v in facts): ctx.violation(L, "%s|cleared" % f.display, f.loc(e), "an identifier is returned for an instance that was cleared")
                if f.ret == "unsigned int" and has_m(r, R["bound"]):
                    ctx.ok(L)
                    if r[0] != "m": ctx.violation(L, "%s|bound" % f.display, f.loc(e), "the bound returned is not the stored bound")
            # pointers handed out
            src = None
            if e["k"] == "ret" and e.get("e") is not None and "void" in f.ret and "*" in f.ret: src = e["e"]
            elif e["k"] == "asg" and "void" in (e.get("ty") or "void"): src = e["r"]
            if src is None: continue
            c = f.canon(src)
            if is_expr(c) and c[0] == "m" and c[2] == R["eptr"] and R["eact"]:
                ctx.ok(L, 1, "%s: pointer handed out" % f.loc(e))
                facts = [(f.canon(x), v) for p in dom_facts(f, b) for x, v in p]
                if not (any(is_expr(x) and x[0] == "m" and x[2] == R["eact"] and v for x, v in facts) or has_m(c, R["bound"])):
                    ctx.violation(L, "%s|inactive" % f.display, f.loc(e), "the pointer of an entry is handed out without checking that the entry is active")
                l = strip(e["l_"]) if e["k"] == "asg" else None
                if l is not None and l[0] == "ix":
                    i1 = f.canon(l[2]); i2 = [x for x in walk(c) if x[0] == "call" and x[1].split("::")[-1] == "operator[]"]
                    if i2 and i2[0][-1] != i1: ctx.violation(L, "%s|slot" % f.display, f.loc(e), "a pointer is stored at another position than its index")
    # domain keys name variant and domain in this order
    cp = [p for p, t in zip(f.params, f.ptypes) if "char" in t]
    for e in f.events():
        if e["k"] == "call" and e.get("obj") is not None and is_m(f, e["obj"], R["ids"]) and short(e) in ("find", "try_emplace", "emplace", "insert", "operator[]"):
            il = [x for x in walk(f.canon(e["a"][0])) if x[0] == "il" and len(x) == 4]
            if il and len(cp) == 2:
                ctx.ok(L)
                if il[0][2:] != [["v", cp[0]], ["v", cp[1]]]: ctx.violation(L, "%s|domain-key" % f.display, f.loc(e), "the domain is looked up under another (variant, domain) pair than requested")


def cmp_max_c(c, v, R):
    if not is_expr(c) or c[0] != "bi" or c[1] not in ("==", "!="): return False
    for x, y in ((c[2], c[3]), (c[3], c[2])):
        if const_int(y) in (MAXU, -1) and has_m(x, R["kidx"]) and v == (c[1] == "!="): return True
    return False


def whole_range(f, latch, R, name):
    return True


def clearing(ctx, C, prog, f, R):
    dom = dominators(f)
    def loop_of(b):
        """innermost (header, latches) natural loop containing block b"""
        best = None
        for h in f.blocks.values():
            lat = [p for p in h.pred if h.id in dom.get(p, ())]
            if not lat: continue
            body = {h.id}; work = list(lat)
            while work:
                x = work.pop()
                if x in body: continue
                body.add(x); work += f.blocks[x].pred
            if b.id in body and (best is None or len(body) < len(best[2])): best = (h.id, lat, body)
        return best
    ops = []
    for b in f.blocks.values():
        for e in b.ev:
            o = e.get("obj")
            if e["k"] == "call" and o is not None and is_m(f, o, R["fwd"]) and short(e) in ("clear", "resize") : ops.append(("fwd", b, e))
            if e["k"] == "call" and o is not None and is_m(f, o, R["slots"]) and short(e) in ("operator=", "clear"): ops.append(("slots", b, e))
            if e["k"] == "asg" and is_m(f, e["l_"], R["bound"]) and const_int(e["r"]) == 0: ops.append(("bound", b, e))
            if e["k"] == "asg" and strip(e["l_"])[0] == "m" and strip(e["l_"])[2] == R["kidx"] and const_int(f.canon(e["r"])) in (MAXU, -1): ops.append(("rev", b, e))
            if e["k"] == "call" and o is not None and is_m(f, o, R["rev"]) and short(e) == "clear": ops.append(("rev*", b, e))
            if e["k"] == "call" and o is not None and is_m(f, o, R["domains"]) and short(e) == "clear": ops.append(("domains*", b, e))
            if e["k"] == "call" and o is not None and is_m(f, o, R["ids"]) and short(e) == "clear": ops.append(("ids*", b, e))
            if e["k"] == "call" and e.get("q") == "jitc_registry_clear": ops.append(("clear*", b, e))
    kinds = {k for k, _, _ in ops}
    if "fwd" in kinds:
        need = {"fwd": "forward map", "slots": "free list", "bound": "bound"}
        groups = {}
        for k, b, e in ops:
            if k in need:
                lp = loop_of(b); groups.setdefault(lp[0] if lp else None, {})[k] = (b, e, lp)
        for h, g in groups.items():
            for k, n in need.items():
                ctx.ok(C, 1, "%s resets the %s" % (f.display, n))
                if k not in g: ctx.violation(C, "%s|%s" % (f.display, k), f.loc(), "clearing a domain does not reset its %s" % n); continue
                b, e, lp = g[k]
                if lp and not all(b.id in dom[l] for l in lp[1]): ctx.violation(C, "%s|%s" % (f.display, k), f.loc(e), "the %s is not reset in every domain" % n)
                if lp and not full_range(f, lp): ctx.violation(C, "%s|range" % f.display, f.loc(e), "clearing skips some domains")
        ctx.ok(C)
        if not ("rev" in kinds or "rev*" in kinds): ctx.violation(C, "%s|rev" % f.display, f.loc(), "clearing keeps reverse entries: pointers resolve to identifiers that no longer exist")
    for k, b, e in ops:
        if k == "rev":
            lp = loop_of(b); ctx.ok(C)
            if not lp or not all(b.id in dom[l] for l in lp[1]) or not full_range(f, lp): ctx.violation(C, "%s|rev" % f.display, f.loc(e), "clearing does not reach every reverse entry")
    if "domains*" in kinds:
        for k, n in (("ids*", "the domain identifiers"), ("rev", "the reverse map")):
            ctx.ok(C)
            if not (k in kinds or k == "rev" and kinds & {"rev*", "clear*"}): ctx.violation(C, "%s|%s" % (f.display, k), f.loc(), "domains are deleted while %s still refer to them" % n)
    if "ids*" in kinds and "domains*" not in kinds: ctx.violation(C, "%s|domains" % f.display, f.loc(), "domain identifiers are deleted while their domains remain")


def full_range(f, lp):
    """the loop runs from the beginning to the end of a container"""
    h = f.blocks[lp[0]]
    if h.term is None: return False
    c = f.canon(h.term[1])
    allx = list(walk(c)) if is_expr(c) else []
    for x in list(allx):
        if x[0] == "v":
            for d in f.defs().get(x[1], []):
                if d[1] is not None: allx += list(walk(f.canon(d[1])))
    calls = [x[1].split("::")[-1] for x in allx if x[0] == "call"]
    if "end" in calls or "cend" in calls: return "begin" in calls or "cbegin" in calls
    if "size" in calls:
        iv = [x for x in walk(c) if x[0] == "v"]
        return any(d[0] == "decl" and const_int(d[1]) == 0 for v in iv for d in f.defs().get(v[1], []))
    return False


def slots(ctx, F, prog):
    q = "FreeSlots"
    rec = [r for r in prog.recs.values() if r["q"] == q][0]
    names = {x[0]: x[1] for x in rec["fields"]}
    W = [n for n, t in names.items() if "vector" in t][0]; CNT = [n for n, t in names.items() if t == "unsigned long"][0]; CUR = [n for n, t in names.items() if t == "unsigned int"][0]
    T = lambda n: ["m", ["this"], n]
    def this(f, e, n):
        e = place(f, e); return is_expr(e) and e[0] == "m" and e[2] == n and strip(e[1]) == ["this"]
    push, pop, empty = prog.fn(q + "::push"), prog.fn(q + "::pop"), prog.fn(q + "::empty")
    def bad(f, k, msg, e=None): ctx.violation(F, "%s|%s" % (f.display, k), f.loc(e), msg)
    def count(f, sign):
        def step(u, e, blk, env):
            if e["k"] == "inc" and this(f, e["e"], CNT): return [u + (1 if e["op"] == "++" else -1)]
            if e["k"] == "asg" and this(f, e["l_"], CNT): return [u + (1 if e["op"] == "+=" else -1 if e["op"] == "-=" else 9) * (const_int(e["r"]) or 1)]
            if e["k"] == "ret": fin.add(u)
            return [u]
        fin = set(); _, ex, _ = paths(f, 0, step); fin |= set(ex)
        ctx.ok(F, 1, "%s adjusts the count" % f.display)
        if fin != {sign}: bad(f, "count", "the number of free slots is not adjusted by one on every path")
    count(push, 1); count(pop, -1)
    # push
    p = ["v", push.params[0]]
    sets = [e for e in push.events() if e["k"] == "asg" and any(x[0] == "call" and x[1].split("::")[-1] in ("operator[]", "at") and is_expr(x[2]) and this(push, x[2], W) for x in walk(push.canon(e["l_"])))]
    ctx.ok(F)
    w_ok = lambda x: x == ["bi", "/", p, ["i", 64]] or is_expr(x) and x[0] == "bi" and (x[1] == "/" and const_int(x[3]) == 64 or x[1] == ">>" and const_int(x[3]) == 6) and strip(x[2]) == p
    b_ok = lambda x: is_expr(x) and x[0] == "bi" and (x[1] == "%" and const_int(x[3]) == 64 or x[1] == "&" and const_int(x[3]) == 63) and strip(x[2]) == p
    if len(sets) != 1: bad(push, "mark", "a freed slot is not marked exactly once")
    else:
        e = sets[0]; l, r = push.canon(e["l_"]), push.canon(e["r"])
        if not w_ok(strip(l[3])): bad(push, "word", "the slot is marked in the wrong word", e)
        sh = r if e["op"] == "|=" else (r[3] if r[0] == "bi" and r[1] == "|" else None)
        if sh is None or sh[0] != "bi" or sh[1] != "<<" or const_int(sh[2]) != 1 or not b_ok(strip(sh[3])): bad(push, "bit", "the slot is marked with the wrong bit", e)
        raw = [x for x in walk(e["r"]) if x[0] == "bi" and x[1] == "<<"]
        if raw and not (raw[0][4] if len(raw[0]) > 4 else "unsigned long").startswith(("unsigned long", "uint64")): bad(push, "bit", "the bit is computed in 32-bit arithmetic: slots beyond the first 32 of a word are lost", e)
        # in range
        b = [x for x in push.blocks.values() if e in x.ev][0]
        def step(u, x, blk, env):
            if x is e and not u: bad(push, "range", "a word beyond the end of the set is written", e)
            if x["k"] == "call" and short(x) == "resize" and this(push, x["obj"], W):
                a = push.canon(x["a"][0])
                return [is_expr(a) and a[0] == "bi" and a[1] == "+" and w_ok(strip(a[2])) and (const_int(a[3]) or 0) >= 1]
            return [u]
        def branch(u, facts, blk, i):
            for c, v in facts:
                c = push.canon(c)
                if is_expr(c) and c[0] == "bi":
                    if w_ok(strip(c[2])) and (c[1] == ">=" and not v or c[1] == "<" and v): return True
                    if w_ok(strip(c[3])) and (c[1] == "<=" and not v or c[1] == ">" and v): return True
            return u
        paths(push, False, step, branch)
    cu = [e for e in push.events() if e["k"] == "asg" and this(push, e["l_"], CUR)]
    ctx.ok(F)
    if not cu: bad(push, "cursor", "the cursor is not lowered to the freed slot: it is never found again")
    for e in cu:
        r = push.canon(e["r"])
        if r[0] == "call" and r[1].split("::")[-1] == "min" and any(w_ok(strip(x)) for x in r[2:]) and any(is_expr(x) and x[0] == "m" and x[2] == CUR for x in r[2:]): continue
        if r[0] == "?:" or r[0] == "cond" or w_ok(strip(r)): continue
        bad(push, "cursor", "the cursor may move past a free slot", e)
    # pop
    r = [e for e in pop.events() if e["k"] == "ret"]
    ctx.ok(F)
    st = [e for e in pop.events() if e["k"] == "asg" and any(x[0] == "call" and x[1].split("::")[-1] == "operator[]" for x in walk(pop.canon(e["l_"])))]
    iswd = lambda x: is_expr(x) and x[0] == "call" and x[1].split("::")[-1] in ("operator[]", "at") and this(pop, x[2], W) and is_expr(x[3]) and x[3][0] == "m" and x[3][2] == CUR
    if len(st) != 1: bad(pop, "unmark", "the returned slot is not removed from the set exactly once")
    else:
        e = st[0]; l, v = pop.canon(e["l_"]), pop.canon(e["r"])
        ok = iswd(l) and (e["op"] == "=" and v[0] == "bi" and v[1] == "&" and any(strip(x) == l and is_expr(strip(y)) and strip(y)[0] == "bi" and strip(y)[1] == "-" and strip(strip(y)[2]) == l and const_int(strip(y)[3]) == 1 for x, y in ((v[2], v[3]), (v[3], v[2])))
                          or e["op"] == "&=" and v[0] == "bi" and v[1] == "-" and const_int(v[3]) == 1 or any(x[0] == "u" and x[1] == "~" for x in walk(v)))
        if not ok: bad(pop, "unmark", "removing the lowest free slot clears other bits", e)
    for e in r:
        v = pop.canon(e["e"])
        ok = v[0] == "bi" and v[1] in ("+", "|") and any(is_expr(strip(x)) and strip(x)[0] == "bi" and (strip(x)[1] == "*" and const_int(strip(x)[3]) == 64 or strip(x)[1] == "<<" and const_int(strip(x)[3]) == 6) and has_m(x, CUR) for x in v[2:4]) and any(is_expr(x) and any(z[0] == "call" and ("tz" in z[1] or "ctz" in z[1]) for z in walk(x)) for x in v[2:4])
        if not ok: bad(pop, "value", "the returned slot is not the one that was removed", e)
    # the count-trailing-zeros argument is the word before clearing
    for e in pop.events():
        if e["k"] == "call" and ("tz" in short(e)) and strip(e["a"][0])[0] != "v" and st:
            order = list(pop.events())
            if order.index(e) > order.index(st[0]): bad(pop, "value", "the position is computed after the bit was cleared", e)
    for b in pop.blocks.values():
        for e in b.ev:
            if e["k"] == "inc" and this(pop, e["e"], CUR):
                ctx.ok(F)
                facts = [(pop.canon(c), v) for p_ in dom_facts(pop, b) for c, v in p_]
                if not any(is_expr(c) and (c[0] == "bi" and c[1] == "==" and const_int(c[3]) == 0 and iswd(strip(c[2])) and v or c[0] == "bi" and c[1] == "!=" and const_int(c[3]) == 0 and iswd(strip(c[2])) and not v or iswd(c) and not v) for c, v in facts):
                    bad(pop, "cursor", "the cursor moves past a word that still holds free slots", e)
    for e in empty.events():
        if e["k"] == "ret":
            ctx.ok(F); v = empty.canon(e["e"])
            if not (v[0] == "bi" and v[1] == "==" and has_m(v[2], CNT) and const_int(v[3]) == 0 or v[0] == "u" and v[1] == "!" and has_m(v[2], CNT)): bad(empty, "empty", "emptiness does not reflect the number of free slots", e)
    # taking a slot requires that one exists
    for f in prog.repo_fns():
        for b in f.blocks.values():
            for e in b.ev:
                if e["k"] == "call" and e.get("q") == q + "::pop":
                    ctx.ok(F, 1, "%s: slot taken" % f.loc(e))
                    o = f.canon(e["obj"])
                    facts = [(c, v) for p_ in dom_facts(f, b) for c, v in p_]
                    if not any(is_expr(f.canon(c)) and f.canon(c)[0] == "call" and f.canon(c)[1].split("::")[-1] == "empty" and not v and f.canon(c)[2] == o or
                               is_expr(f.canon(c)) and f.canon(c)[0] == "call" and f.canon(c)[1].split("::")[-1] == "size" and v for c, v in facts):
                        ctx.violation(F, "%s|empty-pop" % f.display, f.loc(e), "a free slot is taken without checking that one exists")
