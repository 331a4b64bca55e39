"""C19: a failed evaluation is rolled back and scratch structures are emptied before use.
Effect analysis of the evaluation driver: the catch-all handler around the evaluation releases what the evaluation had acquired (derived from the acquisition sites
reachable from it), and every scratch structure is emptied on every path before the first element is added."""
from .core import forward, strip, walk, is_expr, const_int, edge_facts, normal_exits, AnalysisBroken
from .c02 import may_throw_fns
from .c03 import loops_of, dominators
from .c20 import dom_facts
from .c25 import Globals, root, nm, const_of, zero_fact

INC = ("jitc_var_inc_ref",)
DEC = ("jitc_var_dec_ref",)
ADD = ("push_back", "emplace_back", "emplace", "insert", "try_emplace")
KEEPS = {  # scratch globals that carry information from one evaluation to the next: reason
    "visit_gen": "generation counter, increasing",
    "buffer": "code generators append and rewind; emptied at the start of each kernel (C21 terminate)",
}
# functions whose effects don't belong to an evaluation in progress
OUTSIDE = ("jitc_shutdown", "jitc_init")


def src(f, x, d=0, seen=None):
    """globals (paths) that a value derives from"""
    if seen is None: seen = set()
    out = set()
    x = f.canon(x) if d == 0 else x
    if not is_expr(x) or d > 14: return out
    g = root(f, x)[0] if x[0] in ("g", "m") else None
    if g is not None: out.add(g)
    for y in walk(x):
        if y[0] in ("g", "m"):
            g = root(f, y)[0]
            if g is not None: out.add(g)
        elif y[0] == "ev":
            e = f.evi.get(y[1])
            if e is not None and e["k"] in ("call", "ctor"):
                for a in ([e["obj"]] if e.get("obj") is not None else []) + list(e.get("a") or []): out |= src(f, a, d + 1, seen)
        elif y[0] == "v" and y[1] not in seen:
            seen.add(y[1])
            for e in f.events():
                if e["k"] == "decl" and e["v"] == y[1] and e.get("init") is not None: out |= src(f, e["init"], d + 1, seen)
                elif e["k"] == "asg" and strip(e["l_"]) == ["v", y[1]]: out |= src(f, e["r"], d + 1, seen)
    return out


def vname(f, x):
    """identity of an index: variable or member path"""
    x = strip(x)
    while is_expr(x) and x[0] in ("cast", "ic"): x = strip(x[3])
    if is_expr(x) and x[0] == "v":
        u = f.unique_def(x[1])
        u = strip(u) if u is not None else None
        return vname(f, u) if is_expr(u) and u[0] in ("v", "m") else repr(x)
    x = strip(f.canon(x))
    return repr(x) if is_expr(x) and x[0] in ("m", "ix") else None


class Eval:
    def __init__(s, ctx, p, cfg):
        s.ctx, s.p, s.cfg = ctx, p, cfg
        s.G = Globals(p)
        s.T = may_throw_fns(p)
        s.memo = {}
        s.cyc = set()
        d = p.fn("jitc_eval")
        s.cands = [d] + [t for e in d.events() if e["k"] == "call" for t in p.targets(e) if t.blocks and t.file.startswith("src/")]
        s.find_driver()

    def closure(s, evs):
        out, todo = {}, []
        for e in evs:
            if e["k"] in ("call", "ctor"): todo += s.p.targets(e)
        while todo:
            f = todo.pop()
            if f.key in out or not f.blocks or not f.file.startswith("src/") or f.q in OUTSIDE: continue
            out[f.key] = f
            for e in f.events():
                if e["k"] in ("call", "ctor", "lam", "fn"):
                    todo += s.p.targets(e)
        return out

    def launches(s, f):
        """functions that assemble kernels: they add entries to an owned container and generate code"""
        c = s.closure(list(f.events())) if not isinstance(f, list) else s.closure(f)
        return c

    def find_driver(s):
        s.driver = None
        for f in s.cands:
            for t, hs in f.handlers().items():
                tev = [e for b in f.blocks.values() for e in b.ev if e.get("try") == t]
                c = s.closure(tev)
                if any(s.T_has(g, "jitc_assemble") for g in c.values()) or any(g.q == "jitc_assemble" for g in c.values()):
                    s.driver, s.tid, s.handler, s.tev, s.impl = f, t, hs, tev, c
        if s.driver is None:
            f = s.cands[0]
            s.ctx.violation("handler", "jitc_eval", f.loc(), "no exception handler encloses the evaluation: a failure isn't rolled back")

    def T_has(s, g, q): return False

    def stores(s, e):
        """the failure is kept to be raised later"""
        if e["k"] != "call": return False
        return e.get("q") == "std::current_exception" or any(x.get("q") == "std::current_exception" for t in s.p.targets(e) if t.blocks for x in t.events() if x["k"] == "call")

    def throws(s, e):
        if e["k"] == "throw": return True
        if e["k"] not in ("call", "ctor"): return False
        return any(t.key in s.T for t in s.p.targets(e))

    # --------------------------------------------------------------------------------------------------------------------
    def acquired(s):
        """global container -> [(kind, fn, event)] where elements with an owned reference are added during an evaluation"""
        out = {}
        for f in s.impl.values():
            evs = list(f.events())
            incs = {}
            for e in evs:
                if e["k"] == "call" and nm(e) in INC and e["a"]:
                    k = vname(f, e["a"][0])
                    if k: incs.setdefault(k, e)
            adds = {}
            for e in evs:
                if e["k"] == "call" and nm(e) in ADD and e.get("obj") is not None:
                    g, w = root(f, e["obj"])
                    if g is None or g.startswith(("State.", "ThreadLocal.")): continue
                    adds.setdefault(g, []).append(e)
            for g, es in adds.items():
                for e in es:
                    kind = None
                    args = [y for a in e["a"] for y in s.parts(f, a)]
                    for y in args:
                        # the reference was taken by this function for this element
                        k = vname(f, y)
                        if k in incs: kind = "inc"
                        # a pointer whose node was referenced: inc_ref(x->id); push(x)
                        for kk, ie in incs.items():
                            a = strip(f.canon(ie["a"][0]))
                            if is_expr(a) and a[0] == "m" and repr(strip(a[1])) == k: kind = "inc"
                        if k is not None:
                            x = strip(y)
                            if x[0] == "v" and s.loop_member(f, x[1]): kind = kind or "moved"
                            if s.owned_value(f, x): kind = kind or "inc"
                    if kind == "inc" and any(y2 for y2 in s.adds_same(f, e, adds, g)) : kind = "shared"
                    if kind: out.setdefault(g, []).append((kind, f, e))
        # a reference that two containers record in sequence belongs to the one that is drained together with the roots
        return out

    def adds_same(s, f, e, adds, g):
        """another container records the same element of the same loop iteration afterwards, in the same block (it owns the reference)"""
        b = next((b for b in f.blocks.values() if e in b.ev), None)
        if b is None: return []
        ks = {vname(f, y) for a in e["a"] for y in s.parts(f, a)} - {None}
        after = b.ev[b.ev.index(e) + 1:]
        return [x for g2, es in adds.items() if g2 != g for x in es if x in after and ks & {vname(f, y) for a in x["a"] for y in s.parts(f, a)}]

    def parts(s, f, a, d=0):
        x = strip(a)
        while is_expr(x) and x[0] in ("cast", "ic", "def"): x = strip(x[3] if x[0] != "def" else x[1])
        out = [x]
        if d > 4 or not is_expr(x): return []
        if x[0] in ("il", "ctor"):
            for y in x[2:]: out += s.parts(f, y, d + 1)
        if x[0] == "call":
            for y in x[3:]:
                if is_expr(y): out += s.parts(f, y, d + 1)
        if x[0] == "ev":
            e = f.evi.get(x[1])
            if e is not None and e["k"] in ("ctor", "call"):
                for y in e.get("a") or []: out += s.parts(f, y, d + 1)
        return [y for y in out if is_expr(y)]

    def owned_value(s, f, x):
        """a local that received a newly created variable and isn't released by the function"""
        if x[0] != "v": return False
        ds = [e for e in f.events() if e["k"] == "decl" and e["v"] == x[1]]
        if len(ds) != 1 or ds[0].get("init") is None: return False
        y = strip(ds[0]["init"])
        e = f.evi.get(y[1]) if is_expr(y) and y[0] == "ev" else None
        return e is not None and e["k"] == "call" and nm(e).startswith("jitc_var_") and "unsigned int" in str(ds[0].get("ty")) and \
            not any(c["k"] == "call" and nm(c) in DEC and vname(f, c["a"][0]) == repr(x) for c in f.events())

    def loop_member(s, f, v):
        """variable of a loop over a list of references of the thread state (its ownership moves)"""
        for e in f.events():
            if e["k"] == "decl" and e["v"] == v and e.get("init") is not None:
                seen, todo = set(), [e["init"]]
                while todo:
                    x = todo.pop()
                    for y in walk(f.canon(x)):
                        if y[0] == "m" and str(y[3]).split("::")[-1] == "ThreadStateBase" or y[0] == "m" and str(y[3]).endswith("ThreadState"):
                            m = y[2]
                            if m == "side_effects" or m.startswith("side_effects"): return True
                        if y[0] == "v" and y[1] not in seen:
                            seen.add(y[1])
                            for d in f.events():
                                if d["k"] == "decl" and d["v"] == y[1] and d.get("init") is not None: todo.append(d["init"])
                        if y[0] == "ev":
                            ev = f.evi.get(y[1])
                            if ev is not None and ev["k"] == "call": todo += [a for a in ([ev.get("obj")] + list(ev["a"])) if a is not None]
        return False

    # --------------------------------------------------------------------------------------------------------------------
    def summary(s, f, start=None, stack=()):
        """facts that hold at every normal exit: ('rel', G) elements of G released one by one; ('clr', G) emptied; ('free', G) memory of elements; ('set0', field)"""
        key = (f.key, start)
        if key in s.memo: return s.memo[key]
        if f.key in stack: s.cyc.add(f.key); return frozenset()
        heads = {}
        dom = dominators(f)
        for b in f.blocks.values():
            for e in b.ev:
                for fact in s.element_fact(f, b, e):
                    for h, body, latch in loops_of(f, b.id):
                        # executed by every iteration, except where the element itself says otherwise
                        if all(b.id in dom.get(l, ()) for l in latch) or s.elem_cond(f, b, h, fact[1]): heads.setdefault(h, set()).add(fact)

        def tr(st, e, b):
            st = set(st)
            if b.id in heads: st |= heads[b.id]
            for g, w, k in s.G.effects(f, e):
                if k == "reset" and w: st.add(("clr", g))
            if e["k"] == "call" and nm(e) in ("pop_back", "resize", "erase") and e.get("obj") is not None:
                g = root(f, e["obj"])[0]
                if g: st.add(("pop", g))
            if e["k"] == "call" and nm(e) == "free" and e["a"]:
                g = root(f, e["a"][0])[0]
                if g: st.add(("rawfree", g))
            if e["k"] == "call" and nm(e) == "barrier": st.add(("barrier", ""))
            for g, w, k in s.G.effects(f, e):
                if k == "set": st.discard(("clr", g))
            if e["k"] in ("call", "ctor"):
                ts = [t for t in s.p.targets(e) if t.blocks and t.file.startswith("src/")]
                for t in ts:
                    for g in s.may_add(t): st.discard(("clr", g))
                if ts and len(stack) < 8:
                    st |= frozenset.intersection(*[s.summary(t, None, stack + (f.key,)) for t in ts])
            return frozenset(st)
        ins = forward(f, frozenset(), tr, lambda a, b: a & b, edge=lambda st, b, i: s.edge(f, st, b, i, heads), start=start)
        res = None
        for b, st in ins.items():
            blk = f.blocks[b]
            for e in blk.ev: st = tr(st, e, blk)
            if b in heads: st = st | heads[b]
            end = any(e["k"] == "throw" for e in blk.ev) if start is not None else False
            if end or (start is None and f.exit in blk.succ and not blk.noret and not any(e["k"] == "throw" for e in blk.ev)): res = st if res is None else res & st
        res = frozenset(res or ())
        s.cyc.discard(f.key)
        if not s.cyc: s.memo[key] = res
        elif not stack: s.cyc.clear(); s.memo[key] = res
        return res

    def may_add(s, t):
        """structures that a call may add elements to"""
        if not hasattr(s, "_add"):
            direct = {}
            for f in s.impl.values():
                for e in f.events():
                    for g, w, k in s.G.effects(f, e):
                        if k == "set": direct.setdefault(f.key, set()).add(g)
            cal = s.p.callers()
            todo = list(direct)
            while todo:
                k = todo.pop()
                for c, e in cal.get(k, ()):
                    if c.key not in s.impl: continue
                    o = direct.setdefault(c.key, set())
                    if not direct[k] <= o: o |= direct[k]; todo.append(c.key)
            s._add = direct
        return s._add.get(t.key, ())

    def edge(s, f, st, b, i, heads):
        if b.id in heads: st = st | heads[b.id]
        for c, v in edge_facts(f, b, i):
            g = zero_fact(f, c, v)
            if g is not None: st = st | {("clr", g)}
        # the false side of a backend test needs no barrier
        for c, v in edge_facts(f, b, i):
            for y in walk(f.canon(c)):
                if y[0] in ("call", "ev"):
                    q = y[1] if y[0] == "call" else (f.evi.get(y[1]) or {}).get("q")
                    if q == "jitc_is_llvm" and not v: st = st | {("barrier", "")}
                    if q in ("jitc_is_gpu", "jitc_is_cuda", "jitc_is_metal") and v: st = st | {("barrier", "")}
        return frozenset(st)

    def elem_cond(s, f, b, h, g):
        """conditions between the loop header and the block only inspect the element, a member of it or the size of the list"""
        dom = dominators(f)
        ok = False
        for facts in dom_facts(f, b):
            pass
        for x in dom.get(b.id, ()):
            if h not in dom.get(x, ()) or x == h: continue
            bl = f.blocks[x]
            if len(bl.succ) == 2 and x != b.id:
                for c, v in edge_facts(f, bl, 0):
                    if g not in src(f, c) or s.calls(f, c): return False
                    ok = True
        return ok

    def calls(s, f, c):
        """the condition depends on more than the contents of the element"""
        def go(x, d=0):
            for y in walk(f.canon(x)):
                if y[0] == "call" and str(y[1]).startswith("jitc_"): return True
                if y[0] == "ev":
                    e = f.evi.get(y[1])
                    if e is not None and e["k"] == "call":
                        if str(e.get("q")).startswith("jitc_"): return True
                        if d < 4 and any(go(a, d + 1) for a in list(e["a"]) + ([e["obj"]] if e.get("obj") is not None else [])): return True
            return False
        return go(c)

    def element_fact(s, f, b, e):
        out = []
        if e["k"] == "call" and nm(e) in DEC and e["a"]:
            for g in src(f, e["a"][0]): out.append(("rel", g))
        if e["k"] == "call" and nm(e) == "pop_back" and e.get("obj") is not None: out += [("pop", g) for g in [root(f, e["obj"])[0]] if g]
        if e["k"] == "call" and nm(e) == "jitc_free" and e["a"]:
            for g in src(f, e["a"][0]): out.append(("free", g))
        if e["k"] == "asg" and e.get("op", "=") == "=" and const_of(e["r"]) == 0:
            l = strip(e["l_"])
            if l[0] == "m" and str(l[3]).split("::")[-1] == "Variable":
                for g in src(f, l[1]): out.append(("set0:" + l[2], g))
        return out

    # --------------------------------------------------------------------------------------------------------------------
    def check_handler(s):
        f, ctx = s.driver, s.ctx
        for h in s.handler:
            lab = f.blocks[h].label
            if len(lab) > 2 and lab[2] not in (None, "", "..."):
                ctx.violation("handler", "handler", f.loc(), "the handler around the evaluation only intercepts '%s': other failures aren't rolled back" % lab[2]); continue
            # every path from the handler ends with a rethrow
            seen, todo, esc = set(), [h], None
            while todo:
                b = todo.pop()
                if b in seen: continue
                seen.add(b)
                blk = f.blocks[b]
                if any(e["k"] == "throw" or e.get("noret") or e.get("q") == "std::rethrow_exception" for e in blk.ev) or blk.noret: continue
                for t in blk.succ:
                    if t == f.exit or t is not None and any(e["k"] == "ret" for e in blk.ev): esc = blk
                    elif t is not None: todo.append(t)
            if esc is not None: ctx.violation("handler", "rethrow", f.loc(esc.ev[-1] if esc.ev else None), "the handler doesn't propagate the failure on this path")
            else: ctx.ok("handler", 1, "%s: rethrown" % f.display)
            s.hblocks = seen
        # every way to reach code generation passes through the handler
        for e in f.events():
            if e in s.tev or e["k"] not in ("call", "ctor"): continue
            if any(t.q in ("jitc_assemble", "jitc_run") for t in s.closure([e]).values()) and not any(e in f.blocks[b].ev for b in s.hblocks):
                ctx.violation("handler", "bypass", f.loc(e), "code is generated outside of the exception handler")
        # nothing below the driver intercepts the failure
        for g in s.impl.values():
            H = g.handlers()
            for t, hs in H.items():
                for h in hs:
                    seen, todo, esc = set(), [h], None
                    while todo:
                        b = todo.pop()
                        if b in seen: continue
                        seen.add(b)
                        blk = g.blocks[b]
                        if any(e["k"] == "throw" or e.get("noret") or e.get("q") == "std::rethrow_exception" or s.stores(e) for e in blk.ev) or blk.noret: continue
                        for x in blk.succ:
                            if x is not None: todo.append(x)
                        if g.exit in blk.succ: esc = blk
                    if esc is not None and any(s.throws(e) for b in g.blocks.values() for e in b.ev if e.get("try") == t) and (g.q not in SWALLOW):
                        ctx.violation("handler", "%s:%s" % (g.q, t), g.loc(g.blocks[h].ev[0] if g.blocks[h].ev else None), "%s intercepts a failure of the evaluation without propagating it" % g.display)
                    else: ctx.ok("handler", 1, g.display)

    def check_rollback(s):
        f, ctx = s.driver, s.ctx
        acq = s.acquired()
        R = None
        for h in s.handler:
            x = s.summary(f, h)
            R = x if R is None else R & x
        R = R or frozenset()
        s.R = R
        for g, es in sorted(acq.items()):
            kinds = {k for k, _, _ in es}
            if kinds == {"shared"}: continue
            fn, ev = next((a, b) for k, a, b in es if k != "shared")
            if ("rel", g) not in R: ctx.violation("rollback", g, fn.loc(ev), "%s adds an element that owns a reference to '%s', which isn't released when the evaluation fails" % (fn.display, g))
            elif ("clr", g) not in R and ("pop", g) not in R and ("rel", g) in R and not s.pops(g): ctx.violation("rollback", g + ":clear", fn.loc(ev), "'%s' keeps its released elements when the evaluation fails" % g)
            else: ctx.ok("rollback", 1, "%s (%s)" % (g, ",".join(sorted(kinds))))
        s.acq = acq
        # automatic references: containers whose element type releases itself
        for g, fs in s.appended().items():
            if g in acq: continue
            if s.selfowned(g):
                if ("clr", g) in R: ctx.ok("rollback", 1, g + ": elements release themselves")
                else: ctx.violation("rollback", g, fs[0][0].loc(fs[0][1]), "'%s' holds references and isn't emptied when the evaluation fails" % g)
        # memory of schedule entries
        for fn in s.impl.values():
            for e in fn.events():
                if e["k"] != "asg": continue
                l = strip(fn.canon(e["l_"]))
                if not (is_expr(l) and l[0] == "m"): continue
                r = s.ret_of(fn, e["r"], "jitc_malloc")
                if not r: continue
                gs = [g for g in src(fn, l[1]) if g in acq]
                for g in gs:
                    if ("free", g) in R: ctx.ok("rollback", 1, "%s.%s: memory released" % (g, l[2]))
                    else: ctx.violation("rollback", "%s.%s" % (g, l[2]), fn.loc(e), "memory allocated for an element of '%s' isn't released when the evaluation fails" % g)
        # flags of scheduled variables
        flags = {}
        for fn in s.impl.values():
            for e in fn.events():
                if e["k"] != "asg": continue
                l = strip(e["l_"])
                if l[0] == "m" and str(l[3]).split("::")[-1] == "Variable" and l[2] in ("reg_index", "output_flag") and const_of(e["r"]) != 0: flags.setdefault(l[2], (fn, e))
        for fl, (fn, e) in flags.items():
            if any(k == "set0:" + fl for k, g in R): ctx.ok("rollback", 1, "Variable::%s reset" % fl)
            else: ctx.violation("rollback", "Variable::" + fl, fn.loc(e), "'%s' of a scheduled variable isn't reset when the evaluation fails" % fl)
        # raw memory of global records
        for fn in s.impl.values():
            for e in fn.events():
                if e["k"] != "asg" or e.get("op", "=") != "=": continue
                g, w = root(fn, e["l_"])
                if g is None or g.startswith(("State.", "ThreadLocal.")) or not s.G.globalvar(g): continue
                if not any(s.ret_of(fn, e["r"], q) for q in ("malloc", "strdup", "malloc_check", "calloc")): continue
                if ("rawfree", g) in R: ctx.ok("rollback", 1, g + ": released")
                else: ctx.violation("rollback", g, fn.loc(e), "memory stored in '%s' isn't released when the evaluation fails" % g)
        # kernels of the preceding groups may still be running
        s.check_barrier()

    def pops(s, g): return False

    def ret_of(s, f, x, q):
        x = strip(f.canon(x))
        while is_expr(x) and x[0] in ("cast", "ic"): x = strip(x[3])
        if not is_expr(x): return False
        if x[0] == "call": return str(x[1]).split("::")[-1] == q
        if x[0] == "ev":
            e = f.evi.get(x[1])
            return e is not None and e["k"] == "call" and nm(e) == q
        if x[0] == "v":
            ds = [e.get("init") if e["k"] == "decl" else e["r"] for e in f.events() if e["k"] == "decl" and e["v"] == x[1] and e.get("init") is not None or e["k"] == "asg" and strip(e["l_"]) == ["v", x[1]]]
            return any(s.ret_of(f, d, q) for d in ds if is_expr(d) and strip(d) != x)
        return False

    def check_barrier(s):
        f, ctx = s.driver, s.ctx
        bad = []

        def go(g, init, start, depth, stack):
            def tr(st, e, b):
                if st: return st
                if e["k"] == "call":
                    if nm(e) == "barrier": return True
                    if nm(e) in DEC + ("jitc_free",):
                        bad.append((g, e)); return st
                    for t in s.p.targets(e):
                        if t.blocks and t.file.startswith("src/") and depth < 3 and t.key not in stack and not nm(e).startswith("jitc_var"):
                            if go(t, st, None, depth + 1, stack | {t.key}): return True
                return st
            def edge(st, b, i): return ("barrier", "") in s.edge(g, frozenset({("barrier", "")} if st else ()), b, i, {})
            ins = forward(g, init, tr, lambda a, b: a and b, edge=edge, start=start)
            out = []
            for b, st in ins.items():
                blk = g.blocks[b]
                for e in blk.ev: st = tr(st, e, blk)
                if g.exit in blk.succ: out.append(st)
            return bool(out) and all(out)
        for h in s.handler: go(f, False, h, 0, frozenset())
        if bad: ctx.violation("rollback", "barrier", bad[0][0].loc(bad[0][1]), "memory is released while asynchronous kernels of the failed evaluation may still be running")
        else: ctx.ok("rollback", 1, "waits for the kernels before releasing memory")

    def appended(s):
        if hasattr(s, "_app"): return s._app
        out = {}
        for f in s.impl.values():
            for e in f.events():
                if e["k"] == "call" and nm(e) in ADD and e.get("obj") is not None:
                    g, w = root(f, e["obj"])
                    if g and not g.startswith(("State.", "ThreadLocal.")) and s.G.globalvar(g): out.setdefault(g, []).append((f, e))
        s._app = out
        return out

    def selfowned(s, g):
        """the element type (transitively) contains a Ref"""
        for f, e in s.appended().get(g, []):
            q = e.get("q") or ""
            m = q[:q.rfind("::")]
            t = str(e.get("objty") or "")
            for r in s.p.recs.values():
                if r["q"].split("::")[-1] in ("vector",): continue
                if ("<" + r["q"] + ">") in t or r["q"] and any(str(x).endswith(r["q"] + ">") for x in s.gtype(g)):
                    if any(str(fl[1]).split("::")[-1] == "Ref" for fl in r["fields"]): return True
        return False

    def gtype(s, g):
        head, _, fld = g.partition(".")
        v = s.p.vars.get(head)
        if v is None: return []
        if not fld: return [str(v.get("ty"))]
        out = []
        for r in s.p.recs.values():
            if r["q"].split("::")[-1] == str(v.get("ty")).split("::")[-1]:
                out += [str(fl[1]) for fl in r["fields"] if fl[0] == fld.split(".")[0]]
        return out

    # --------------------------------------------------------------------------------------------------------------------
    def check_fresh(s):
        """every scratch structure is emptied on every path before its first use"""
        ctx, p = s.ctx, s.p
        uses = {}
        for f in list(s.impl.values()):
            for e in f.events():
                for g, w, k in s.G.effects(f, e):
                    if k != "set" or g.startswith(("State.", "ThreadLocal.")) or s.overwrite(f, e, w): continue
                    if self_buffer(g): continue
                    uses.setdefault(g, []).append((f, e))
        impls = {t.key: t for e in s.tev for t in p.targets(e) if t.blocks and t.key in s.impl}
        other = s.elsewhere()
        for g, fs in sorted(uses.items()):
            if g in KEEPS: ctx.ok("fresh", 1, "%s: %s" % (g, KEEPS[g])); continue
            if all(f.key in other for f, e in fs): continue      # state of another operation, which an evaluation also performs
            if s.balanced(fs): ctx.ok("fresh", 1, g + ": incremented and decremented by a scope guard"); continue
            s.fm = {}
            s.relevant = s.reaching_fns([f for f, e in fs] + s.resetters(g))
            bad = None
            for t in impls.values():
                b, _ = s.fresh(t, g, False, ())
                bad = bad or b
            if bad is None: ctx.ok("fresh", 1, g + ": emptied before its first use"); continue
            if s.drained(g, impls): ctx.ok("fresh", 1, g + ": empty at both exits"); continue
            f, e = bad
            ctx.violation("fresh", g, f.loc(e), "%s adds to '%s', which isn't emptied on every path before (leftovers of a preceding evaluation are processed again)" % (f.display, g))

    def elsewhere(s):
        """functions that run outside of an evaluation as well"""
        tev = {id(e) for e in s.tev}
        cal = s.p.callers()
        out = {f.key for f in s.p.fns.values() if f.blocks and f.file.startswith("src/") and not cal.get(f.key)}
        out |= {f.key for f in s.p.fns.values() if f.blocks and f.file.startswith("src/") and f.key not in s.impl}
        todo = list(out)
        while todo:
            f = s.p.fns[todo.pop()]
            for e in f.events():
                if e["k"] not in ("call", "ctor") or id(e) in tev: continue
                for t in s.p.targets(e):
                    if t.key not in out and t.blocks: out.add(t.key); todo.append(t.key)
        return out

    def overwrite(s, f, e, w):
        if e["k"] == "asg" and e.get("op", "=") == "=" and w:
            g = root(f, e["l_"])[0]
            return g not in src(f, e["r"])
        if e["k"] == "asg" and e.get("op", "=") == "=": return True      # element of a structure that was sized before
        return e["k"] == "call" and nm(e) in ("operator=", "resize") or e["k"] == "call" and e.get("obj") is None or \
            e["k"] == "call" and nm(e) not in ADD + ("append", "put", "push", "insert_or_assign")

    def balanced(s, fs):
        fs = list(fs)
        g = root(*[(f, e["e"]) for f, e in fs if e["k"] == "inc"][0])[0] if any(e["k"] == "inc" for f, e in fs) else None
        for f in {f.cls for f, e in fs}:
            for t in s.p.fns.values():
                if f and t.cls == f and t.blocks:
                    for e in t.events():
                        if e["k"] == "inc" and root(t, e["e"])[0] == g and not any(e is x for _, x in fs): fs.append((t, e))
        ok = all(e["k"] == "inc" for f, e in fs)
        if not ok: return False
        r = {}
        for f, e in fs: r.setdefault(f.cls, set()).add((e["op"][:2] if e["op"].startswith(("++", "--")) else e["op"], f.display.split("::")[-1].startswith("~")))
        return all(c and any(d for _, d in v) and any(not d for _, d in v) for c, v in r.items())

    def resetters(s, g):
        return [f for f in s.impl.values() for e in f.events() for g2, w, k in s.G.effects(f, e) if w and s.covers(g2, g)]

    def covers(s, g2, g): return g2 == g

    def reaching_fns(s, fs):
        out = {f.key for f in fs}
        todo = list(out)
        cal = s.p.callers()
        while todo:
            k = todo.pop()
            for c, e in cal.get(k, ()):
                if c.key not in out and c.key in s.impl: out.add(c.key); todo.append(c.key)
        return out

    def member_reset(s, f, e, g):
        """a method of the structure that resets the member on every path"""
        if e["k"] != "call" or e.get("obj") is None or "." not in g: return False
        o = root(f, e["obj"])
        if o[0] is None or not o[1] or not g.startswith(o[0] + "."): return False
        m = g[len(o[0]) + 1:]
        ts = [t for t in s.p.targets(e) if t.blocks]
        return bool(ts) and all(s.method_resets(t, m) for t in ts)

    def method_resets(s, t, m):
        def hit(e):
            def mem(x):
                x = strip(t.canon(x))
                return is_expr(x) and x[0] == "m" and x[2] == m and is_expr(x[1]) and strip(x[1])[0] in ("this", "u")
            if e["k"] == "asg" and e.get("op", "=") == "=" and mem(e["l_"]): return True
            return e["k"] == "call" and nm(e) == "clear" and e.get("obj") is not None and mem(e["obj"])
        ins = forward(t, False, lambda st, e, b: st or hit(e), lambda a, b: a and b)
        r = []
        for b, st in ins.items():
            blk = t.blocks[b]
            for e in blk.ev: st = st or hit(e)
            if t.exit in blk.succ: r.append(st)
        return bool(r) and all(r)

    def fresh(s, f, g, st0, stack):
        """(first addition while the structure may hold leftovers, whether it is fresh at every exit)"""
        key = (f.key, st0)
        if key in s.fm: return s.fm[key]
        if f.key in stack: return None, True
        bad = []

        def tr(st, e, b):
            for g2, w, k in s.G.effects(f, e):
                if g2 != g: continue
                if k == "reset" and w or k == "set" and w and e["k"] == "asg" and s.overwrite(f, e, w): st = True
                elif k == "set" and not s.overwrite(f, e, w) and not st: bad.append((f, e))
            if s.member_reset(f, e, g): return True
            if not st and e["k"] in ("call", "ctor"):
                ts = [t for t in s.p.targets(e) if t.key in s.impl and t.key in s.relevant]
                if ts:
                    rs = [s.fresh(t, g, st, stack + (f.key,)) for t in ts]
                    for b2, _ in rs:
                        if b2: bad.append(b2)
                    if all(x for _, x in rs): st = True
            return st
        ins = forward(f, st0, tr, lambda a, b: a and b)
        bad.clear()
        out = []
        for b, st in ins.items():
            blk = f.blocks[b]
            for e in blk.ev: st = tr(st, e, blk)
            if f.exit in blk.succ and not blk.noret: out.append(st)
        r = (bad[0] if bad else None, bool(out) and all(out))
        s.fm[key] = r
        return r

    def drained(s, g, impls):
        """empty when the evaluation succeeds and when it fails"""
        rb = ("clr", g) in s.R or ("pop", g) in s.R or s.shrinks(g)
        ok = True
        f = s.driver
        d = s.cands[0]
        x = s.summary(d)
        if ("clr", g) in x or s.swapped(d, g): return rb
        return rb and all(("clr", g) in s.summary(t) or s.after_last(t, g) for t in impls.values())

    def after_last(s, t, g):
        """on every path, the structure is emptied after elements were added"""
        def tr(st, e, b):
            for g2, w, k in s.G.effects(t, e):
                if g2 != g: continue
                if k == "reset" and w: st = False
                elif k == "set": st = True
            if e["k"] in ("call", "ctor") and any(g in s.may_add(x) for x in s.p.targets(e)):
                st = True
                if any(x.blocks and ("clr", g) in s.summary(x) for x in s.p.targets(e)): st = False
            return st
        ins = forward(t, False, tr, lambda a, b: a or b)
        for b, st in ins.items():
            blk = t.blocks[b]
            for e in blk.ev: st = tr(st, e, blk)
            if t.exit in blk.succ and not blk.noret and st and not any(e["k"] == "throw" for e in blk.ev): return False
        return True

    def shrinks(s, g):
        """the handler removes the elements in a loop"""
        for f in [s.driver] + [t for h in s.hblocks for e in s.driver.blocks[h].ev if e["k"] == "call" for t in s.p.targets(e)]:
            for b in f.blocks.values():
                for e in b.ev:
                    if e["k"] == "call" and nm(e) in ("pop_back", "resize", "erase") and e.get("obj") is not None and root(f, e["obj"])[0] == g: return True
        return False

    def swapped(s, f, g):
        for b in f.blocks.values():
            for e in b.ev:
                if e["k"] == "call" and nm(e) == "swap" and (root(f, e["obj"])[0] == g if e.get("obj") is not None else False or any(root(f, a)[0] == g for a in e["a"])): return True
        return False

    # --------------------------------------------------------------------------------------------------------------------
    def check_nested(s):
        """references of an owned structure aren't dropped while it is in use: it may only be emptied after its elements were released, or while a scope guard restores it"""
        ctx = s.ctx
        owned = {g for g, es in s.acq.items() if any(k != "shared" for k, _, _ in es)}
        rb = s.closure([e for h in s.hblocks for e in s.driver.blocks[h].ev])
        rb = {k for k, f in rb.items() if f.q.startswith("jitc_eval")}
        impls = {t.key for e in s.tev for t in s.p.targets(e)}
        for f in s.impl.values():
            if f.key in rb: continue
            for b in f.blocks.values():
                for e in b.ev:
                    for g, w, k in s.G.effects(f, e):
                        if k != "reset" or not w or g not in owned or nm(e) == "swap": continue
                        what = "%s@%s" % (g, f.q)
                        if s.released_before(f, b, e, g):
                            ctx.ok("nested", 1, "%s: released before" % what); continue
                        if f.key in impls and s.first(f, e, g): ctx.ok("nested", 1, "%s: start of the evaluation" % what); continue
                        if s.guarded(f, g): ctx.ok("nested", 1, "%s: callers restore it" % what); continue
                        if f.display.split("::")[-1].startswith("~"): continue
                        if s.member_start(f, g): ctx.ok("nested", 1, "%s: structure was drained before" % what); continue
                        ctx.violation("nested", what, f.loc(e), "'%s' is emptied here without releasing its elements or restoring it when %s fails" % (g, f.display))

    def check_success(s):
        """what an evaluation acquired is released when it succeeds; released elements are removed before anything can fail"""
        ctx = s.ctx
        rb = s.closure([e for h in s.hblocks for e in s.driver.blocks[h].ev])
        rb = {k for k, f in rb.items() if any(x in s.p.callers().get(k, ()) and x[0] is s.driver for x in s.p.callers().get(k, ()))}
        impls = [t for e in s.tev for t in s.p.targets(e)]
        owned = {g for g, es in s.acq.items() if any(k != "shared" for k, _, _ in es)}
        s.relevant = set(s.impl)
        for g in sorted(s.appended()):
            if g in owned or not s.selfowned(g): continue
            if all(s.after_last(t, g) for t in impls): ctx.ok("nested", 1, "%s: emptied at the end of the evaluation" % g)
            else:
                f, e = s.appended()[g][0]
                ctx.violation("nested", g + ":success", f.loc(e), "'%s' keeps references when the evaluation has completed" % g)
        for f in s.impl.values():
            if f.key in rb or f.display.split("::")[-1].startswith("~"): continue
            heads = {}
            for b in f.blocks.values():
                for e in b.ev:
                    for k, g in s.element_fact(f, b, e):
                        if k != "rel" or g not in owned: continue
                        for h, body, l in loops_of(f, b.id):
                            if s.ranges(f, h, body, g): heads.setdefault(h, set()).add(g)
            for h, gs in heads.items():
                for g in gs:
                    def tr(st, e, b):
                        if b.id == h: return True
                        if any(g2 == g and k == "reset" and w for g2, w, k in s.G.effects(f, e)): return False
                        return st
                    bodies = {x for hh, bd, l in loops_of(f, h) if hh == h for x in bd}
                    ins = forward(f, False, tr, lambda a, b: a or b)
                    bad = None
                    for b, st in ins.items():
                        blk = f.blocks[b]
                        for e in blk.ev:
                            st = tr(st, e, blk)
                            if st and b not in bodies and s.throws(e): bad = bad or e
                    if bad is not None: ctx.violation("nested", "%s:%s" % (g, f.q), f.loc(bad), "may fail while '%s' still holds elements that were already released: they are released again" % g)
                    else: ctx.ok("nested", 1, "%s@%s: released elements are removed before anything can fail" % (g, f.q))

    def ranges(s, f, h, body, g):
        """the loop iterates over the structure itself"""
        blk = f.blocks[h]
        evs = [e for e in blk.ev]
        pre = [f.blocks[p_] for p_ in blk.pred if p_ not in body]
        for b in [blk] + pre:
            for e in b.ev:
                if e["k"] == "call" and nm(e) in ("begin", "size") and e.get("obj") is not None and g in src(f, e["obj"]): return True
        return False

    def member_start(s, f, g): return f.display.split("::")[-1] == "reset"

    def released_before(s, f, blk, ev, g):
        """a loop that releases the elements precedes on every path, without a call that may throw in between"""
        heads = set()
        for b in f.blocks.values():
            for e in b.ev:
                if ("rel", g) in s.element_fact(f, b, e):
                    for h, body, l in loops_of(f, b.id): heads.add(h)
        if not heads: return False
        body = {}
        for h in heads:
            for hh, bd, l in loops_of(f, h):
                if hh == h: body.setdefault(h, set()).update(bd)

        def tr(st, e, b):
            if b.id in heads: return "rel"
            inl = any(b.id in bd for bd in body.values())
            if st == "rel" and s.throws(e) and not inl: return "no"
            return st
        ins = forward(f, "no", tr, lambda a, b: a if a == b else "no")
        st = ins.get(blk.id)
        if st is None: return True
        for e in blk.ev:
            if e is ev: break
            st = tr(st, e, blk)
        return st == "rel"

    def first(s, f, ev, g):
        """no addition to the structure can precede"""
        def tr(st, e, b):
            for g2, w, k in s.G.effects(f, e):
                if g2 == g and k == "set": st = True
            if e["k"] in ("call", "ctor") and any(t.key in s.impl and any(x[1] is not None and x[1].key in s.reach1(t) for x in s.acq[g]) for t in s.p.targets(e)): st = True
            return st
        ins = forward(f, False, tr, lambda a, b: a or b)
        for b, st in ins.items():
            for e in f.blocks[b].ev:
                if e is ev: return not st
                st = tr(st, e, f.blocks[b])
        return True

    def reach1(s, t):
        c = s.memo.get(("reach", t.key))
        if c is None: c = s.memo["reach", t.key] = set(s.closure(list(t.events()))) | {t.key}
        return c

    def guarded(s, f, g, d=0):
        """every caller holds a local object whose destructor rebuilds the structure"""
        cs = [(c, e) for c, e in s.p.callers().get(f.key, ()) if c.key in s.impl]
        if not cs or d > 3: return False
        for c, e in cs:
            if not (s.restored(c, e, g) or s.guarded(c, g, d + 1)): return False
        return True

    def restored(s, c, ev, g):
        """the call is dominated by the declaration of a local whose destructor releases and refills the structure from a copy made before"""
        dom = dominators(c)
        blk = next(b for b in c.blocks.values() if ev in b.ev)
        for b in c.blocks.values():
            for e in b.ev:
                if e["k"] != "decl": continue
                ty = str(e.get("ty")).replace("const ", "").strip()
                for t in s.p.fns.values():
                    if t.cls and t.display.split("::")[-1].startswith("~") and ty and (t.cls == ty or t.cls.endswith("::" + ty) or ty.endswith(t.cls)):
                        kinds = {k for x in t.events() for g2, w, k in s.G.effects(t, x) if g2 == g}
                        rel = any(("rel", g) in s.element_fact(t, bb, x) for bb in t.blocks.values() for x in bb.ev)
                        if "set" in kinds and rel and (b.id != blk.id and b.id in dom.get(blk.id, ()) or b.id == blk.id and b.ev.index(e) < blk.ev.index(ev)): return True
        return False

    # --------------------------------------------------------------------------------------------------------------------
    def check_transfer(s):
        """lists of the thread state are emptied right after their elements were taken over, and results are committed after the last call that may fail"""
        ctx = s.ctx
        for f in s.impl.values():
            lists = {}
            for b in f.blocks.values():
                for e in b.ev:
                    if e["k"] == "call" and nm(e) in ("begin", "clear", "swap", "size", "operator[]") and e.get("obj") is not None:
                        o = strip(f.canon(e["obj"]))
                        while is_expr(o) and o[0] == "v":
                            u = f.unique_def(o[1])
                            if u is None: break
                            o = strip(f.canon(u))
                        if is_expr(o) and o[0] == "m" and str(o[3]).split("::")[-1].startswith("ThreadState") and o[2] in ("scheduled", "side_effects"): lists.setdefault(o[2], {}).setdefault(nm(e), []).append((b, e))
            for l, m in lists.items():
                if "begin" not in m and "operator[]" not in m: continue
                if not any(g for g in s.appended()) or f.key not in {t.key for e in s.tev for t in s.p.targets(e)}: continue
                begins = [id(e) for b, e in m.get("begin", []) + m.get("operator[]", [])]
                clears = {id(e) for b, e in m.get("clear", []) + m.get("swap", [])}
                bad = []

                def tr(st, e, b):
                    if id(e) in begins: st = True
                    if id(e) in clears: st = False
                    if st and s.throws(e) and nm(e) not in DEC + INC: bad.append(e)
                    return st
                ins = forward(f, False, tr, lambda a, b: a or b)
                bad.clear()
                leave = False
                for b, st in ins.items():
                    blk = f.blocks[b]
                    for e in blk.ev: st = tr(st, e, blk)
                    if f.exit in blk.succ and st and not blk.noret: leave = True
                if bad: ctx.violation("transfer", l, f.loc(bad[0]), "may fail after elements of '%s' were taken over and before the list is emptied: they would be processed twice" % l)
                elif leave: ctx.violation("transfer", l, f.loc(), "'%s' isn't emptied on every path after its elements were taken over" % l)
                else: ctx.ok("transfer", 1, "%s: %s" % (f.display, l))
        # commit
        n = 0
        ev = [v for q, d in s.p.enums.items() if q.split("::")[-1] == "VarKind" for v in [d]]
        for f in s.impl.values():
            marks = []
            for b in f.blocks.values():
                for e in b.ev:
                    if e["k"] == "asg" and strip(e["l_"])[0] == "m" and strip(e["l_"])[2] == "kind" and str(strip(e["l_"])[3]).endswith("Variable") and any(y[0] == "e" and y[1].endswith("VarKind::Evaluated") for y in walk(f.canon(e["r"]))): marks.append(e)
            if not marks or f.key not in {t.key for e in s.tev for t in s.p.targets(e)}: continue
            n += 1
            bad = []

            def tr2(st, e, b):
                if st and s.throws(e): bad.append(e)
                return st or any(e is m for m in marks)
            ins = forward(f, False, tr2, lambda a, b: a or b)
            if bad: ctx.violation("transfer", "commit:" + f.q, f.loc(bad[0]), "may fail after some of the results were committed: the evaluation is left half-finished")
            else: ctx.ok("transfer", 1, "%s: no failure after the first result was committed" % f.display)


SWALLOW = {}


def self_buffer(g): return g.split(".")[0] in KEEPS


def run(ctx):
    for r, d in (("handler", "every failure of an evaluation is intercepted, rolled back and propagated"),
                 ("rollback", "the handler releases every reference and allocation that the evaluation acquires, empties the structures and resets the flags of the scheduled variables, after waiting for running kernels"),
                 ("fresh", "scratch structures are emptied on every path before an evaluation adds the first element"),
                 ("nested", "structures that own references are only emptied after releasing them, or under a guard that restores them"),
                 ("transfer", "pending work is removed from the thread state when it is taken over, and results are committed after the last operation that can fail")):
        ctx.rule(r, d)
    for cfg in (["full"] if ctx.tier == "quick" else ["full", "llvm", "debug", "nooptix"]):
        p = ctx.prog(cfg)
        s = Eval(ctx, p, cfg)
        if s.driver is None: continue
        s.check_handler()
        s.check_rollback()
        s.check_fresh()
        s.check_nested()
        s.check_success()
        s.check_transfer()
    ctx.floor("rollback", 6)
    ctx.floor("fresh", 6)
