"""C10: leaving a recording restores the thread on every normal and exceptional path (typestate over the inlined begin/end/abort
functions); forbidden operations of disabled backends raise; replay restores what it modified."""
from .core import *
from .c02 import may_throw_fns
from .c03 import dominators
from .c11 import place

REC, DIS = "RecordThreadState", "DisabledThreadState"
# ThreadState methods that are notifications or queries, not operations with an effect
QUERY = {"actual_state": "query", "is_recording": "query", "flush_deferred_free": "releases memory of already executed work"}


def tls_slot(f, e):
    e = place(f, e)
    if is_expr(e) and e[0] == "m" and is_expr(e[1]) and strip(e[1])[0] == "g" and e[2].startswith("ts_"): return e[2]
    if is_expr(e) and e[0] == "g" and "thread_state_" in e[1]: return e[1]
    return None


def cty(e):
    """type name of the outermost cast of e"""
    while is_expr(e):
        if e[0] == "cast": return e[1]
        if e[0] in ("ic", "paren") : e = e[-1]; continue
        return None
    return None


def raw_def(f, e):
    """definition of a local without stripping casts"""
    s = strip(e)
    if is_expr(s) and s[0] == "v":
        u = f.unique_def(s[1])
        if u is not None: return raw_def(f, u) if cty(u) is None else u
    return e


def is_dyn(f, e, cls):
    t = cty(raw_def(f, e)) or cty(e)
    return t is not None and t.split()[0].split("::")[-1] == cls


def member(f, e, name):
    e = f.canon(e)
    return is_expr(e) and e[0] == "m" and e[2] == name


def deletes(prog, key, cls, depth=3):
    """does function `key` (transitively) delete an object of class cls"""
    f = prog.fns.get(key)
    if f is None or depth == 0: return False
    for e in f.events():
        if e["k"] == "delete": return True
        if e["k"] in ("call", "dtor"):
            if any(deletes(prog, t.key, cls, depth - 1) for t in prog.targets(e)): return True
    return False


def forgets(prog, key, depth=3):
    f = prog.fns.get(key)
    if f is None or depth == 0: return False
    for e in f.events():
        if e["k"] in ("call", "dtor"):
            if e["k"] == "call" and (e.get("q") or "").split("::")[-1] in ("pop_back", "erase") and e.get("obj") is not None and \
               any(x[0] == "m" and x[2] == "record_tss" for x in walk(f.canon(place(f, e["obj"])))): return True
            if any(forgets(prog, t.key, depth - 1) for t in prog.targets(e)): return True
    return False


def touching(prog):
    """functions that (transitively) write what a recording changes"""
    S = set(); rev = defaultdict(set)
    for f in prog.repo_fns():
        for e in f.events():
            if e["k"] == "asg":
                l = place(f, e["l_"])
                if tls_slot(f, l) or (is_expr(l) and l[0] == "m" and l[2] in ("recording_mode", "m_paused", "m_exception")) or \
                   (is_expr(l) and l[0] == "u" and l[1] == "*") or (is_expr(l) and l[0] == "v" and "ThreadState *&" in str(f.ptypes)): S.add(f.key)
            if e["k"] == "call" and e.get("q") == "jitc_set_flag": S.add(f.key)
            if e["k"] == "throw": S.add(f.key)
            if e["k"] == "call":
                for t in prog.targets(e): rev[t.key].add(f.key)
    work = list(S)
    while work:
        for c in rev[work.pop()]:
            if c not in S: S.add(c); work.append(c)
    return S


def roots(prog, name, T):
    w = prog.by_q.get(name, [])
    if not w: raise AnalysisBroken("entry point %s not found" % name)
    w = w[0]
    files = {w.file}
    for e in w.events():
        if e["k"] == "call":
            for t in prog.targets(e):
                if t.file.startswith("src/") and t.q.startswith("jitc_freeze"): files.add(t.file)
    def want(f, e, t):
        if e["k"] != "call" or t.key not in T: return False
        return t.file in files and not t.q.startswith(("jitc_raise", "jitc_fail")) and t.cls in (None, "", DIS, REC) and \
            not (t.cls == REC and len(t.blocks) > 8)
    return inline(prog, w, want, 6)


class Ctl:
    """shared event classification"""
    def __init__(s, prog, f, MT):
        s.p, s.f, s.MT = prog, f, MT
        H = f.handlers(); s.ca = set()
        for b in f.blocks.values():
            if b.label and b.label[0] == "catch" and (len(b.label) < 3 or b.label[2] in (None, "", "...")): s.ca.add(b.label[1])
        s.hs = {t for t in H}

    def escapes(s, e):
        """can an exception leave the function here"""
        if e["k"] not in ("call", "ctor", "throw"): return False
        if "try" in e and e["try"] in s.ca: return False
        if e.get("nothrow"): return False
        if e["k"] == "throw" or e.get("q") in ("std::rethrow_exception", "jitc_raise"): return True
        return any(t.key in s.MT for t in s.p.targets(e))


def pending(s): return {x[1] for x in s if x[0] == "pend"}


def restore(ctx, R, prog, name, MT, T, cfg):
    f = roots(prog, name, T)
    c = Ctl(prog, f, MT)
    fld = error_fields(prog)
    slots = sorted({tls_slot(f, e["l_"]) for e in f.events() if e["k"] == "asg" and tls_slot(f, e["l_"])})
    if not slots: raise AnalysisBroken("%s: no assignment to a thread state found" % name)
    exits = []
    reg = {}
    def step(u, e, blk, env):
        k = e["k"]
        if c.escapes(e): exits.append((u, e))
        def add(*t): return [u | set(t)]
        if k == "asg":
            l = place(f, e["l_"])
            sl = tls_slot(f, l)
            if sl:
                if member(f, e["r"], "m_internal"):
                    src = f.canon(e["r"])[1]
                    s0 = strip(e["r"])
                    base = s0 if s0[0] == "m" else strip(f.unique_def(s0[1]) or s0) if s0[0] == "v" else s0
                    while is_expr(base) and base[0] == "v" and f.unique_def(base[1]) is not None: base = strip(f.unique_def(base[1]))
                    rec = base[3] if is_expr(base) and base[0] == "m" and len(base) > 3 else ""
                    if rec == DIS or is_dyn(f, base[1], DIS):
                        x = str(f.canon(place(f, base[1])))
                        return add(("un", sl)) if ("owned", x) in u else add(("un", sl), ("pend", x))
                    return add(("own", sl))
                return [frozenset(x for x in u if x not in (("own", sl), ("un", sl))) | {("bad", sl)}]
            if is_expr(l) and l[0] == "m":
                if l[2] == "recording_mode":
                    r = f.canon(e["r"])
                    tgt = f.canon(l[1])
                    if is_expr(r) and r[0] == "e" and r[1].endswith("::Inactive") and member(f, l[1], "m_internal"): return add(("mode",))
                    if member(f, l[1], "m_internal"): return [u - {("mode",)}]
                if l[2] == "scope" and member(f, l[1], "m_internal"):
                    r = f.canon(e["r"])
                    if is_expr(r) and r[0] == "m" and r[2] == "scope" and not (is_expr(strip(r[1])) and strip(r[1])[0] == "m"): return add(("scope",))
        if k == "call" and e.get("q") == "jitc_set_flag" and len(e["a"]) == 2:
            a0 = f.canon(e["a"][0])
            if is_expr(a0) and a0[0] == "e" and a0[1].endswith("::FreezingScope"):
                v = const_int(f.canon(e["a"][1]))
                return add(("flag",)) if v == 0 else [u - {("flag",)}]
        if k == "decl" and "init" in e and e["init"] is not None:
            i = e["init"]
            if is_expr(strip(i)) and any(is_dyn(f, x, REC) for x in walk(i) if x[0] == "v") and prog.recs:
                d = [b for b in f.events() if b["k"] == "dtor" and b.get("v") == e["v"]]
                if d and any(forgets(prog, t.key) for b in d for t in prog.targets(b)) and any(deletes(prog, t.key, REC) for b in d for t in prog.targets(b)):
                    return add(("guard",), ("act",))
            if e["ty"].startswith("std::unique_ptr") and DIS in e["ty"]:
                # ownership may be established before the slot is restored
                X = {str(x) for y in walk(f.canon(i)) for x in (y, f.canon(place(f, y)))}
                return [frozenset(x for x in u if not (x[0] == "pend" and x[1] in X)) | {("owned", x) for x in X if "ts_" in x}]
        if k == "ctor" and "unique_ptr" in (e.get("q") or e.get("ty") or "") and DIS in str(e.get("ty")):
            n = u
            for a in e["a"]:
                for x in walk(f.canon(place(f, a))) if is_expr(f.canon(a)) else ():
                    n = n - {("pend", str(x))}
            return [n]
        if k == "delete":
            x = str(f.canon(place(f, e["e"])))
            n = u - {("pend", x)}
            if is_dyn(f, e["e"], REC): n = n | {("del",)}
            return [n]
        if k == "call" and e.get("obj") is not None and (e.get("q") or "").split("::")[-1] in ("pop_back", "erase") and "record_tss" in str(f.canon(place(f, e["obj"]))):
            return add(("forget",))
        return [u]
    def branch(u, facts, blk, i):
        for cnd, v in facts:
            cc = strip(cnd)
            neg = False
            while is_expr(cc) and (cc[0] == "u" and cc[1] == "!" or cc[0] == "bi" and cc[1] in ("==", "!=") and (const_int(cc[2]) == 0 or const_int(cc[3]) == 0)):
                if cc[0] == "u": cc = strip(cc[2]); v = not v
                else:
                    if cc[1] == "==": v = not v
                    cc = strip(cc[2] if const_int(cc[3]) == 0 else cc[3])
            if is_dyn(f, cc, REC):
                if v: u = u | {("act",)}
                elif ("act",) not in u: u = u | {("none",)}
            sl = tls_slot(f, cc)
            if sl and not v: u = u | {("null", sl)}
            if is_dyn(f, cc, DIS) and not v:
                pass
            ca = f.canon(cc)
            if is_expr(ca) and ca[0] == "m" and not v and ca[2] in fld:
                u = u | {("chk", s) for s in slots if s in str(f.canon(place(f, ca[1])))}
            if is_expr(ca) and ca[0] == "call" and (ca[1] or "").startswith("jitc_is_"):
                if v: u = u | {("be", ca[1][8:])}
        return u
    ins, ex, _ = paths(f, frozenset(), step, branch)
    allslots = sorted({x[0] for q in ("ThreadLocal",) for r in prog.recs.values() if r["q"] == q for x in r["fields"] if x[0].startswith("ts_")}) or slots
    n = 0
    def judge(u, how, where, tag):
        if ("none",) in u and ("act",) not in u: return 0
        if ("act",) not in u:
            # before the recording thread state was looked up: nothing has changed, unless something did
            if not any(x[0] in ("own", "un", "mode", "flag", "scope") for x in u): return 0
        bad = []
        own = [x[1] for x in u if x[0] == "own"]
        be = {x[1] for x in u if x[0] == "be"}
        if ("guard",) not in u and not (("del",) in u and ("forget",) in u): bad.append("the recording thread state is not unregistered and freed")
        if not own: bad.append("the recorded backend keeps the recording thread state")
        for b in be:
            if own and "ts_" + b not in own: bad.append("the thread state of another backend is restored")
        if not be and own and own[0] not in ("ts_llvm",) and len(allslots) > 1: pass
        for s in allslots:
            if s in own: continue
            if ("un", s) not in u and ("null", s) not in u: bad.append("backend slot %s stays disabled" % s)
            elif how == "normal" and ("un", s) in u and ("chk", s) not in u: bad.append("an error of backend slot %s is dropped" % s)
        if ("mode",) not in u: bad.append("the recording mode stays active")
        if ("flag",) not in u: bad.append("JitFlag::FreezingScope stays set")
        if ("scope",) not in u: bad.append("the scope counter of the recording is lost")
        if pending(u): bad.append("the wrapper of a disabled backend is leaked")
        for b in bad:
            ctx.violation(R, "%s:%s:%s" % (name, how, b), where, "%s: on %s, %s" % (name, tag, b))
        return 1
    last = {}
    for u in ex: n += judge(u, "normal", f.loc(), "a normal exit")
    seen = set()
    for u, e in exits:
        if (u, id(e)) in seen: continue
        seen.add((u, id(e)))
        n += judge(u, "exception", f.loc(e), "the exception raised by '%s'" % (e.get("q") or "throw"))
    ctx.ok(R, n, "%s (%s): %d exits, slots %s" % (name, cfg, n, allslots))


def start(ctx, R, prog, MT, T, cfg):
    f = roots(prog, "jit_freeze_start", T)
    c = Ctl(prog, f, MT)
    allslots = sorted({x[0] for r in prog.recs.values() if r["q"] == "ThreadLocal" for x in r["fields"] if x[0].startswith("ts_")})
    exits = []
    def isnew(e, cls):
        e = f.canon(e)
        return is_expr(e) and cls in str(e) and ("new" in str(e[0]) or e[0] == "ctor" or any(x[0] == "new" for x in walk(e)))
    def step(u, e, blk, env):
        if c.escapes(e): exits.append((u, e))
        if e["k"] == "asg":
            sl = tls_slot(f, e["l_"])
            if sl:
                x = f.canon(e["r"]); ev = f.evi.get(x[1]) if is_expr(x) and x[0] == "ev" else None
                ty = str(x) + str(cty(raw_def(f, e["r"])) or "") + str(ev.get("ty") if ev else "")
                return [u | {("dis" if DIS in ty else "own", sl)}]
            l = place(f, e["l_"])
            if is_expr(l) and l[0] == "m" and l[2] == "recording_mode":
                r = f.canon(e["r"])
                if is_expr(r) and r[0] == "e" and r[1].endswith("::Recorded"): return [u | {("mode",)}]
        if e["k"] == "call" and e.get("q") == "jitc_set_flag":
            a0 = f.canon(e["a"][0])
            if is_expr(a0) and a0[0] == "e" and a0[1].endswith("::FreezingScope") and const_int(f.canon(e["a"][1])) not in (0, None): return [u | {("flag",)}]
        if e["k"] == "call" and (e.get("q") or "").split("::")[-1] in ("push_back", "emplace_back") and e.get("obj") is not None and "record_tss" in str(place(f, e["obj"])):
            return [u | {("reg",)}]
        return [u]
    def branch(u, facts, blk, i):
        for cnd, v in facts:
            cc = strip(cnd)
            while is_expr(cc) and cc[0] == "u" and cc[1] == "!": cc = strip(cc[2]); v = not v
            sl = tls_slot(f, cc)
            if sl and not v: u = u | {("null", sl)}
            ca = f.canon(cc)
            if is_expr(ca) and ca[0] == "call" and (ca[1] or "").startswith("jitc_is_") and v: u = u | {("be", ca[1][8:])}
        return u
    ins, ex, _ = paths(f, frozenset(), step, branch)
    n = 0
    for u in ex:
        n += 1
        own = [x[1] for x in u if x[0] == "own"]
        bad = []
        if len(own) != 1: bad.append("the recording thread state is not installed")
        for b in {x[1] for x in u if x[0] == "be"}:
            if own and "ts_" + b not in own: bad.append("the recording thread state is installed for another backend")
        for s in allslots:
            if s not in own and ("dis", s) not in u and ("null", s) not in u: bad.append("backend slot %s stays enabled during the recording" % s)
        for t, m in ((("mode",), "the recording mode is not set"), (("flag",), "JitFlag::FreezingScope is not set"), (("reg",), "the recording is not registered")):
            if t not in u: bad.append(m)
        for b in bad: ctx.violation(R, "jit_freeze_start:" + b, f.loc(), "jit_freeze_start: " + b)
    for u, e in exits:
        if any(x[0] in ("own", "dis") for x in u):
            ctx.violation(R, "jit_freeze_start:exception:" + (e.get("q") or "throw"), f.loc(e),
                          "jit_freeze_start: '%s' may raise after the thread states were replaced" % (e.get("q") or "throw"))
        n += 1
    ctx.ok(R, n, "jit_freeze_start (%s): %d exits" % (cfg, n))


def raises(prog, f, fld, depth=3):
    """every normal path through f records the error (field of the wrapper set) or f never returns normally"""
    f = inline(prog, f, lambda g, e, t: e["k"] == "call" and t.cls == f.cls and len(t.blocks) < 6, 3)
    ni = {e["i"] for e in f.events() if "i" in e}
    def step(u, e, blk, env):
        if e["k"] == "asg":
            l = f.canon(e["l_"])
            if is_expr(l) and l[0] == "m" and l[2] in fld and const_int(f.canon(e["r"])) != 0: return [True]
        if e["k"] == "call" and e.get("obj") is None and e.get("q") in ("jitc_raise",): return [True]
        return [u]
    ins, ex, _ = paths(f, False, step)
    return False not in ex


def error_fields(prog):
    # fields of the wrapper that lead to an error when the wrapper is removed
    fld = set(); own = {x[0] for x in prog.rec(DIS)["fields"] if x[1] in ("bool", "std::exception_ptr", "int", "unsigned int")}
    for f in prog.repo_fns():
        if f.cls == DIS:
            g = inline(prog, f, lambda *a: False)
            for b in f.blocks.values():
                if b.term and b.term[1] is not None and len(b.succ) == 2:
                    for i in (0, 1):
                        for c, v in edge_facts(f, b, i):
                            c = f.canon(c)
                            if v and is_expr(c) and c[0] == "m" and c[2] in own and b.succ[i] is not None and dead_from(f, b.succ[i]): fld.add(c[2])
    return fld


def forbidden(ctx, R, prog, cfg):
    """every operation of the backend interface is rejected by a disabled thread state"""
    base = prog.rec("ThreadState"); dis = prog.rec(DIS)
    fld = error_fields(prog)
    if not fld: ctx.violation(R, "no-error", "src/record_ts.cpp", "a disabled backend has no field whose value leads to an error"); return
    over = {}
    for m in dis["methods"]:
        for o in m.get("over", []): over[o] = m
    for m in base["methods"]:
        if not m.get("virtual") or m.get("sm") == "dtor": continue
        o = over.get(m["key"])
        bf = prog.fns.get(m["key"])
        eff = prog.fns.get(o["key"]) if o else bf
        if eff is None:
            ctx.violation(R, "missing:" + m["n"], "src/record_ts.cpp", "ThreadState::%s has no implementation for disabled backends" % m["n"]); continue
        if not eff.ret.startswith(("void", "unsigned", "Task")) or (bf is not None and not any(e["k"] in ("call", "throw", "asg", "new") for e in bf.events()) ):
            ctx.ok(R); continue      # query or notification (no effect in the base class)
        if bf is not None and o is None and not bf.cls == DIS:
            # inherited: acceptable if it always raises, or only forwards to other (checked) operations
            if raises(prog, bf, fld): ctx.ok(R); continue
            if m["n"] in ("take_deferred_free", "reset_state"): ctx.ok(R); continue
            calls = [e for e in bf.events() if e["k"] == "call" and e.get("virt")]
            if calls and not any(e["k"] == "asg" and strip(e["l_"])[0] == "m" for e in bf.events()): ctx.ok(R); continue
            ctx.violation(R, "inherited:" + m["n"], eff.loc(), "DisabledThreadState inherits ThreadState::%s, which takes effect" % m["n"]); continue
        if raises(prog, eff, fld): ctx.ok(R, 1, m["n"])
        else: ctx.violation(R, "silent:" + m["n"], eff.loc(), "a disabled backend accepts ThreadState::%s() without reporting an error" % m["n"])


def dead_from(f, b, seen=None):
    """every path from block b ends without returning normally"""
    seen = seen or set()
    if b in seen: return True
    seen.add(b)
    if b == f.exit: return False
    blk = f.blocks[b]
    if dead_end(f, blk) or any(e["k"] == "call" and e.get("q") in ("jitc_raise", "jitc_fail") for e in blk.ev): return True
    return all(s is None or dead_from(f, s, seen) for s in blk.succ)


def pause(ctx, R, prog, MT, T, cfg):
    """pausing and resuming keep recording mode, flag and the paused state together"""
    for name, mode, flag in (("jit_freeze_pause", "Inactive", 0), ("jit_freeze_resume", "Recorded", 1)):
        f = roots(prog, name, T)
        def step(u, e, blk, env):
            if e["k"] == "asg":
                l = place(f, e["l_"])
                if is_expr(l) and l[0] == "m" and l[2] == "recording_mode":
                    r = f.canon(e["r"])
                    return [(u - {"mode"}) | ({"mode"} if is_expr(r) and r[0] == "e" and r[1].endswith("::" + mode) else set())]
                if is_expr(l) and l[0] == "m" and l[2] == "m_paused":
                    v = const_int(f.canon(e["r"]))
                    return [(u - {"paused"}) | ({"paused"} if v is not None and bool(v) != bool(flag) else set())]
            if e["k"] == "decl" and e.get("init") is not None and e["ty"] == "bool" and not e.get("retv"):
                x = f.canon(e["init"])
                if is_expr(x) and x[0] == "m" and x[2] == "m_paused" and "paused" not in u: return [u | {"prev:" + e["v"]}]
            if e["k"] == "call" and e.get("q") == "jitc_set_flag":
                a0 = f.canon(e["a"][0]); v = const_int(f.canon(e["a"][1]))
                if is_expr(a0) and a0[0] == "e" and a0[1].endswith("::FreezingScope"):
                    return [(u - {"flag"}) | ({"flag"} if v is not None and bool(v) == bool(flag) else set())]
            return [u]
        ins, ex, _ = paths(f, frozenset(), step)
        for u in ex:
            if not u & {"mode", "flag", "paused"}:
                # only when nothing is being recorded
                continue
            miss = [w for w in ("mode", "flag", "paused") if w not in u]
            if miss: ctx.violation(R, name + ":" + ",".join(miss), f.loc(), "%s(): %s inconsistent with the paused state on a path" % (name, ", ".join(miss)))
            else: ctx.ok(R, 1, "%s (%s)" % (name, cfg))
        if not any(u >= {"mode", "flag", "paused"} for u in ex): ctx.violation(R, name + ":effect", f.loc(), "%s(): no path updates mode, flag and paused state" % name)
    # scoped pause: the destructor writes back the value that was current at construction
    n = 0
    for f in prog.repo_fns():
        if "~" not in f.q or not f.cls: continue
        for e in f.events():
            if e["k"] != "asg": continue
            l = f.canon(e["l_"])
            if not (is_expr(l) and l[0] == "m" and l[2] == "m_paused"): continue
            n += 1
            r = f.canon(e["r"])
            if not (is_expr(r) and r[0] == "m" and strip(r[1])[0] == "this"):
                ctx.violation(R, f.cls + ":restore", f.loc(e), "%s does not restore the saved pause state" % f.q); continue
            good = False
            for c in prog.repo_fns():
                if c.cls != f.cls: continue
                for x in c.events():
                    if x["k"] == "minit" and x.get("n", x.get("f")) == r[2] or x["k"] == "minit" and r[2] in str(x):
                        v = c.canon(x.get("init") if x.get("init") is not None else x.get("e"))
                        if is_expr(v) and v[0] == "call":
                            for t in prog.by_q.get(v[1], []):
                                rets = [y for y in t.events() if y["k"] == "ret"]
                                ok = bool(rets)
                                for y in rets:
                                    s = strip(y["e"])
                                    d = t.defs().get(s[1], []) if s[0] == "v" else []
                                    if not (len(d) == 1 and is_expr(d[0][1]) and t.canon(d[0][1])[0] == "m" and t.canon(d[0][1])[2] == "m_paused"): ok = False
                                    else:
                                        order = [z for z in t.events()]
                                        di = [i for i, z in enumerate(order) if z["k"] == "decl" and z["v"] == s[1]]
                                        ai = [i for i, z in enumerate(order) if z["k"] == "asg" and strip(z["l_"])[0] == "m" and strip(z["l_"])[2] == "m_paused"]
                                        if len(t.blocks) <= 3 and di and ai and min(ai) < di[0]: ok = False
                                good |= ok
                        elif is_expr(v) and v[0] == "m" and v[2] == "m_paused": good = True
            if good: ctx.ok(R, 1, f.q)
            else: ctx.violation(R, f.cls + ":saved", f.loc(e), "%s: the value restored is not the one current when the scope began" % f.cls)


def replay(ctx, R, prog, MT, T, cfg):
    """the recording mode set for a replay is reset on every exit"""
    f = roots(prog, "jit_freeze_replay", T)
    c = Ctl(prog, f, MT)
    for b in f.blocks.values():
        if b.label and b.label[0] == "catch" and len(b.label) > 2 and "std::exception" in str(b.label[2]): c.ca.add(b.label[1])
    exits = []
    conds = lambda u: u
    def step(u, e, blk, env):
        if c.escapes(e): exits.append((u, e))
        if e["k"] == "asg":
            l = place(f, e["l_"])
            if is_expr(l) and l[0] == "m" and l[2] == "recording_mode":
                r = f.canon(e["r"])
                on = not (is_expr(r) and r[0] == "e" and r[1].endswith("::Inactive"))
                return [(u - {"on"}) | ({"on"} if on else set())]
            if is_expr(l) and l[0] == "g":
                u = frozenset(x for x in u if not (isinstance(x, tuple) and x[0] == l[1]))
                v = const_int(f.canon(e["r"]))
                if v is not None: u = u | {(l[1], bool(v))}
                return [u]
        return [u]
    def branch(u, facts, blk, i):
        for cnd, v in facts:
            x = f.canon(cnd)
            if is_expr(x) and x[0] == "g":
                if (x[1], not v) in u: return None
                u = u | {(x[1], v)}
        return u
    ins, ex, _ = paths(f, frozenset(), step, branch)
    for u in ex:
        if "on" in u: ctx.violation(R, "jit_freeze_replay:normal", f.loc(), "jit_freeze_replay(): the recording mode stays 'Replayed' on a normal exit")
        else: ctx.ok(R)
    for u, e in exits:
        if "on" in u: ctx.violation(R, "jit_freeze_replay:exception", f.loc(e), "jit_freeze_replay(): the recording mode stays 'Replayed' when '%s' raises" % (e.get("q") or "throw"))
        else: ctx.ok(R)


def reported(ctx, R, prog, MT, T, cfg):
    """an error captured during the recording is raised before a recording is returned"""
    f = roots(prog, "jit_freeze_stop", T)
    sets = set()
    for g in prog.repo_fns():
        if any(e["k"] == "asg" and member(g, e["l_"], "m_exception") or e["k"] == "call" and e.get("obj") is not None and (e.get("q") or "").endswith("operator=") and member(g, e["obj"], "m_exception") for e in g.events()): sets.add(g.key)
    if not sets: raise AnalysisBroken("no function stores a recording error")
    direct = set(sets)
    for g in prog.repo_fns():
        if any(t.key in direct for e in g.events() if e["k"] == "call" for t in prog.targets(e)): sets.add(g.key)
    def step(u, e, blk, env):
        if e["k"] == "call" and any(t.key in sets for t in prog.targets(e)) or e["k"] == "inl" and e.get("call") and any(t.key in sets for t in prog.targets(e["call"])): return ["dirty"]
        return [u]
    def branch(u, facts, blk, i):
        for cnd, v in facts:
            x = f.canon(cnd)
            if "m_exception" in str(x) and is_expr(x):
                neg = False
                if x[0] == "bi" and x[1] in ("==", "!="): neg = x[1] == "=="
                elif x[0] == "call" and (x[1] or "").endswith("operator=="): neg = True
                if v == neg: u = "clean"
        return u
    ins, ex, _ = paths(f, "none", step, branch)
    # states that reach a return of a recording
    bad = [u for u in ex if u == "dirty"]
    if bad: ctx.violation(R, "jit_freeze_stop:lost", f.loc(), "jit_freeze_stop(): an error stored while adding outputs is not raised")
    elif "none" in ex: ctx.violation(R, "jit_freeze_stop:unchecked", f.loc(), "jit_freeze_stop(): a path returns a recording without testing for a stored error")
    else: ctx.ok(R, 1, "jit_freeze_stop")


def run(ctx):
    A = ctx.rule("restore", "every normal and exceptional exit of jit_freeze_stop()/jit_freeze_abort() restores thread states, mode, flag and scope and frees the wrappers")
    B = ctx.rule("start", "jit_freeze_start() switches every backend, mode and flag on every path, and cannot fail half-way")
    C = ctx.rule("forbidden", "a disabled backend reports an error for every operation of the backend interface")
    D = ctx.rule("pause", "pause and resume update recording mode, flag and paused state together; scoped pauses restore the previous state")
    E = ctx.rule("replay", "the recording mode of a replay ends on every normal and exceptional exit")
    G = ctx.rule("reported", "an error stored during the recording is raised before a recording is handed out")
    for cfg in ("llvm", "cuda", "metal") if ctx.tier == "quick" else ("llvm", "cuda", "metal", "nooptix"):
        prog = ctx.prog(cfg)
        MT = may_throw_fns(prog)
        T = touching(prog)
        for name in ("jit_freeze_stop", "jit_freeze_abort"): restore(ctx, A, prog, name, MT, T, cfg)
        start(ctx, B, prog, MT, T, cfg)
        pause(ctx, D, prog, MT, T, cfg)
        replay(ctx, E, prog, MT, T, cfg)
        reported(ctx, G, prog, MT, T, cfg)
        forbidden(ctx, C, prog, cfg)
    ctx.floor(A, 4); ctx.floor(B, 2); ctx.floor(C, 10)
    ctx.assume("exceptions of the repository derive from std::exception", "a thread uses either the CUDA or the Metal backend, never both (they exist on different systems)")
