"""C04: no stale references into relocatable tables.
Invalidation analysis: pointers, references and iterators into the tables of the library state are tracked through every function; an operation that may grow or
shrink the table (closed over the call graph) or release the lock that protects it makes them stale, and any later use without re-reading the entry is reported."""
from .core import forward, strip, walk, is_expr, edge_facts
from .c25 import root, nm

GROW = ("push_back", "emplace_back", "resize", "reserve", "clear", "swap", "insert", "emplace", "try_emplace", "try_emplace_hash", "insert_or_assign", "operator[]", "erase", "erase_fast", "shrink_to_fit", "rehash", "operator=", "pop_back", "assign")
VEC_STABLE = ("operator[]", "pop_back")    # don't move the elements of a vector
TABLES = ("State.variables", "State.extra", "State.lvn_map", "State.alloc_used", "State.alloc_free", "State.kernel_cache", "State.ptr_to_variable", "State.tss", "State.kernel_history", "registry")
EXEMPT = {  # (function, table): reason
    ("jitc_var_loop_end", "State.extra"): "both nodes of a loop have an extra record, looking it up doesn't extend the table",
}
RELEASE = ("jitc_var_free",)
TYPED = {"Variable": "State.variables", "VariableExtra": "State.extra"}


def clean(t): return str(t).replace("const ", "").replace("struct ", "").strip()


def kind_ty(t):
    """table that a pointer or reference type refers to"""
    t = clean(t)
    if t.endswith(("*", "&", "* const")):
        return TYPED.get(t.rstrip("const").rstrip().rstrip("*&").strip())
    return None


class Stale:
    def __init__(s, ctx, p):
        s.ctx, s.p = ctx, p
        s.vec = {}
        st = p.recs.get("State") or next((r for r in p.recs.values() if r["q"] == "State"), None)
        for fl in st["fields"]: s.vec["State." + fl[0]] = "vector" in str(fl[1])
        s.direct = {}
        s.inv = {}
        s.why = {}
        cal = p.callers()
        for f in p.repo_fns(("src/",)):
            if not f.blocks: continue
            for e in f.events():
                ts = s.event_inv(f, e)
                if ts: s.direct.setdefault(f.key, set()).update(ts)
        todo = list(s.direct)
        s.inv = {k: set(v) for k, v in s.direct.items()}
        while todo:
            k = todo.pop()
            for c, e in cal.get(k, ()):
                if not c.file.startswith("src/"): continue
                if s.excluded(e, k): continue
                o = s.inv.setdefault(c.key, set())
                new = s.inv[k] - o
                if new:
                    o |= new
                    for t in new: s.why.setdefault((c.key, t), k)
                    todo.append(c.key)
        s.params = {}
        s.fc = {}

    def excluded(s, e, k):
        # the destruction of a variable is only reached when the last reference to it is released: operations that hold pointers to their operands release
        # temporary references of variables that their caller keeps alive
        return bool(e.get("noret")) or s.p.fns[k].q in RELEASE

    def event_inv(s, f, e):
        """tables whose entries may move because of this event itself"""
        out = set()
        k = e["k"]
        if k == "call" and e.get("obj") is not None and nm(e) in GROW:
            g = root(f, e["obj"])[0]
            if g in TABLES or g and g.split(".")[0] in TABLES:
                t = g if g in TABLES else g.split(".")[0]
                if not (s.vec.get(t) and nm(e) in VEC_STABLE): out.add(t)
        if k in ("ctor", "call") and e.get("a") and (nm(e) in ("unlock_guard", "lock_release") ):
            x = f.canon(e["a"][0])
            for y in walk(x):
                if y[0] == "m" and y[2] == "lock" and str(y[3]).split("::")[-1] == "State": out |= set(TABLES); out.discard("registry"); out.add("lock")
        return out

    def inv_of(s, f, e):
        out = s.event_inv(f, e)
        if e["k"] in ("call", "ctor") and not e.get("noret"):
            for t in s.p.targets(e):
                if t.q not in RELEASE: out |= s.inv.get(t.key, set())
        return out

    def tracked(s, f):
        """local variable -> table"""
        out = {}
        for i, (pn, pt) in enumerate(zip(f.params, f.ptypes)):
            t = kind_ty(pt)
            if t and not s.stack_param(f, i): out[pn] = t
        for e in f.events():
            if e["k"] != "decl": continue
            t = kind_ty(e.get("ty"))
            if t is None: t = s.derived(f, e)
            elif e.get("init") is not None and s.local_obj(f, e["init"]): continue
            if t: out[e["v"]] = t
        return out

    def local_obj(s, f, x):
        x = strip(x)
        while is_expr(x) and x[0] in ("cast", "ic"): x = strip(x[3])
        if is_expr(x) and x[0] == "u" and x[1] in ("&", "*"): x = strip(x[2])
        if is_expr(x) and x[0] == "m" and not x[4]: return s.local_obj(f, x[1])
        if is_expr(x) and x[0] == "v":
            d = [e for e in f.events() if e["k"] == "decl" and e["v"] == x[1]]
            if d: return clean(d[0].get("ty")) in TYPED
            for pn, pt in zip(f.params, f.ptypes):
                if pn == x[1]: return clean(pt) in TYPED or (kind_ty(pt) is not None and s.stack_param(f, f.params.index(pn)))
        return False

    def stack_param(s, f, i):
        """every caller passes an object that isn't part of a table"""
        key = (f.key, i)
        if key in s.params: return s.params[key]
        s.params[key] = False
        cs = [(c, e) for c, e in s.p.callers().get(f.key, ()) if "a" in e]
        r = bool(cs)
        for c, e in cs:
            if len(e["a"]) <= i or not s.local_obj(c, e["a"][i]): r = False; break
        s.params[key] = r
        return r

    def derived(s, f, e):
        """iterator or reference that a table operation returned"""
        ty = str(e.get("ty"))
        it = "iterator" in ty or "pair<" in ty
        if not (it or ty.rstrip().endswith(("&", "*"))) or e.get("init") is None: return None
        x = strip(e["init"])
        d = 0
        while is_expr(x) and d < 8:
            d += 1
            if x[0] in ("cast", "ic"): x = strip(x[3]); continue
            if x[0] == "u" and x[1] in ("&", "*"): x = strip(x[2]); continue
            if x[0] == "m": 
                if x[4] and not it: return None
                x = strip(x[1]); continue
            if x[0] == "def": x = strip(x[1]); continue
            break
        if is_expr(x) and x[0] == "ev":
            ev = f.evi.get(x[1])
            if ev is None or ev["k"] != "call" or ev.get("obj") is None: 
                if ev is not None and ev["k"] == "ctor" and ev["a"]: return s.derived(f, {"ty": ty, "init": ev["a"][0]})
                return None
            g = s.table(f, ev["obj"])
            if nm(ev) in ("find", "emplace", "insert", "begin", "try_emplace", "try_emplace_hash", "operator[]", "at", "back", "front", "data"):
                if g in TABLES:
                    # an element that is itself a pointer isn't moved with the table
                    if nm(ev) in ("operator[]", "at", "back", "front") and not ty.rstrip().endswith("&") and "&" not in str(e["init"])[:12]: return None
                    return g
        return None

    def table(s, f, x, d=0):
        """table that an expression denotes (not a copy of it)"""
        x = strip(x)
        if is_expr(x) and x[0] == "u" and x[1] in ("*", "&"): x = strip(x[2])
        if is_expr(x) and x[0] == "v" and d < 6:
            ds = [e for e in f.events() if e["k"] == "decl" and e["v"] == x[1]]
            if len(ds) != 1 or ds[0].get("init") is None or not str(ds[0].get("ty")).rstrip().endswith(("&", "*")): return None
            return s.table(f, ds[0]["init"], d + 1)
        return root(f, x)[0] if is_expr(x) and x[0] in ("g", "m") else None

    def false_inv(s, t):
        """tables that a function may invalidate although it returns zero / false"""
        if t.key in s.fc: return s.fc[t.key]
        al = frozenset(s.inv.get(t.key, ())) if t.q not in RELEASE else frozenset()
        s.fc[t.key] = al
        if clean(t.ret) not in ("bool", "int"): return al
        out = set()

        def tr(st, e, b):
            st = st | frozenset(s.inv_of(t, e))
            if e["k"] == "ret" and st:
                x = strip(e["e"]) if e.get("e") is not None else None
                while is_expr(x) and x[0] in ("cast", "ic"): x = strip(x[3])
                if not (is_expr(x) and x[0] in ("b", "i") and x[1]): out.update(st)
            return st
        forward(t, frozenset(), tr, lambda a, b: a | b)
        s.fc[t.key] = frozenset(out)
        return s.fc[t.key]

    def call_false(s, ev):
        out = set()
        for t in s.p.targets(ev): out |= s.false_inv(t)
        return out

    def uses(s, f, e, tr):
        """tracked variables that the event dereferences or hands on"""
        out = set()
        k = e["k"]

        def base(x, d=0):
            x = strip(x)
            while is_expr(x) and d < 10:
                d += 1
                if x[0] in ("cast", "ic"): x = strip(x[3]); continue
                if x[0] == "m" and not x[4]: x = strip(x[1]); continue
                if x[0] == "u" and x[1] in ("*", "&"): x = strip(x[2]); continue
                break
            return x[1] if is_expr(x) and x[0] == "v" and x[1] in tr else None
        def mem(x):
            for y in walk(x):
                if y[0] == "m":
                    o = strip(y[1])
                    while is_expr(o) and o[0] in ("cast", "ic"): o = strip(o[3])
                    if is_expr(o) and o[0] == "v" and o[1] in tr: out.add(o[1])
                if y[0] == "u" and y[1] == "*":
                    b = base(y[2])
                    if b: out.add(b)
        if k == "deref":
            for key in ("e", "p", "x", "a"):
                if e.get(key) is not None and is_expr(e[key]):
                    mem(e[key])
                    b = base(e[key])
                    if b: out.add(b)
        elif k == "asg":
            l = strip(e["l_"])
            mem(l); 
        elif k == "inc": mem(e["e"])
        elif k in ("call", "ctor"):
            for a in e.get("a") or []:
                b = base(a)
                if b and not (strip(a)[0] == "u" and strip(a)[1] == "&"): out.add(b)
                mem(a)
            if e.get("obj") is not None:
                b = base(e["obj"])
                if b and nm(e) not in ("operator=",): out.add(b)
                mem(e["obj"])
        return out

    def check(s, f):
        tr = s.tracked(f)
        if not tr: return
        n = [0]
        rep = {}

        def source(x):
            """tracked local that the initializer copies"""
            x = strip(x)
            while is_expr(x) and x[0] in ("cast", "ic"): x = strip(x[3])
            if is_expr(x) and x[0] == "u" and x[1] in ("&", "*"): x = strip(x[2])
            return x[1] if is_expr(x) and x[0] == "v" and x[1] in tr else None

        ids = {}

        def one(d, nz, e, final):
            for v in s.uses(f, e, tr):
                if v in d and final: rep.setdefault(v, (e, d[v]))
            inv = s.inv_of(f, e)
            if inv:
                for v, t in tr.items():
                    if t in inv and v not in d: d[v] = id(e); ids[id(e)] = e
            tgt = None
            if e["k"] == "decl": tgt, r = e["v"], e.get("init")
            elif e["k"] == "asg" and strip(e["l_"])[0] == "v": tgt, r = strip(e["l_"])[1], e["r"] if e.get("op", "=") == "=" else None
            elif e["k"] == "call" and nm(e) in ("operator=", "steal", "borrow") and e.get("obj") is not None and strip(e["obj"])[0] == "v": tgt, r = strip(e["obj"])[1], (e["a"] or [None])[0]
            if tgt is not None:
                if tgt in tr:
                    d.pop(tgt, None)
                    src = source(r) if r is not None else None
                    if src and src in d: d[tgt] = d[src]
                nz.discard(tgt)
                if r is not None and created(r): nz.add(tgt)
            return d, nz

        def created(x):
            """value of an operation that created a variable (its index isn't zero)"""
            x = strip(x)
            while is_expr(x) and x[0] in ("cast", "ic", "def"): x = strip(x[1] if x[0] == "def" else x[3])
            if is_expr(x) and x[0] == "v": return False
            if not (is_expr(x) and x[0] == "ev"): return False
            ev = f.evi.get(x[1])
            if ev is None: return False
            if ev["k"] == "ctor" or ev["k"] == "call" and nm(ev) in ("steal", "borrow", "release", "move"): return any(created(a) for a in list(ev["a"] or []) + ([ev["obj"]] if ev.get("obj") is not None else []))
            return ev["k"] == "call" and "State.variables" in s.inv_of(f, ev)

        def T(st, e, b, final=False):
            out = set()
            for d0, nz0 in st:
                d, nz = one(dict(d0), set(nz0), e, final)
                out.add((tuple(sorted(d.items())), frozenset(nz)))
            return limit(out)

        def limit(out):
            g = {}
            for a, b in out: g.setdefault((tuple(k for k, v in a), b), a if len({v for k, v in a}) < 2 else a)
            if len(g) < len(out): out = {(a, k[1]) for k, a in g.items()}
            if len(out) > 40:
                d, nz = {}, None
                for a, b in out:
                    for k, v in a: d.setdefault(k, v)
                    nz = set(b) if nz is None else nz & b
                out = {(tuple(sorted(d.items())), frozenset(nz))}
            return frozenset(out)

        def join(a, b): return limit(set(a) | set(b))

        def edge(st, b, i):
            out = set()
            facts, undo = [], {}
            for c, v in edge_facts(f, b, i):
                x = strip(c)
                while is_expr(x):
                    if x[0] in ("cast", "ic"): x = strip(x[3]); continue
                    if x[0] == "u" and x[1] == "!": x, v = strip(x[2]), not v; continue
                    if x[0] == "bi" and x[1] in ("==", "!=") and is_expr(x[3]) and strip(x[3]) in (["i", 0], ["null"]): v = v if x[1] == "!=" else not v; x = strip(x[2]); continue
                    if x[0] == "ev":
                        ev = f.evi.get(x[1])
                        if ev is not None and ev["k"] == "call" and nm(ev).startswith("operator ") and ev.get("obj") is not None: x = strip(ev["obj"]); continue
                        if ev is not None and ev["k"] == "call" and nm(ev) == "__builtin_expect": x = strip(ev["a"][0]); continue
                    break
                if is_expr(x) and x[0] == "v": facts.append((x[1], v))
                if is_expr(x) and x[0] == "v" and not v: undo.update({id(c): s.call_false(c) for e, c in ored.get(x[1], ())})
                if is_expr(x) and x[0] == "ev" and not v:
                    ev = f.evi.get(x[1])
                    if ev is not None and ev["k"] == "call":
                        if s.p.targets(ev): undo[id(ev)] = s.call_false(ev)
            for d0, nz0 in st:
                d, nz = {k: v for k, v in d0 if v not in undo or tr[k] in undo[v]}, set(nz0)
                dead = False
                for x, v in facts:
                    if not v and x in nz: dead = True
                    if not v: d.pop(x, None)      # a null pointer isn't dereferenced
                    if v and x in cr: nz.add(x)
                if not dead: out.add((tuple(sorted(d.items())), frozenset(nz)))
            return frozenset(out) if out else None
        cr = {e["v"] for e in f.events() if e["k"] == "decl" and e.get("init") is not None and created(e["init"])} | \
             {strip(e["l_"])[1] for e in f.events() if e["k"] == "asg" and strip(e["l_"])[0] == "v" and created(e["r"])} | \
             {strip(e["obj"])[1] for e in f.events() if e["k"] == "call" and nm(e) == "operator=" and e.get("obj") is not None and strip(e["obj"])[0] == "v"}
        ored = {}
        for e in f.events():
            tgt, x = (e["v"], e.get("init")) if e["k"] == "decl" else (strip(e["l_"])[1], e["r"]) if e["k"] == "asg" and strip(e["l_"])[0] == "v" else (None, None)
            if tgt is None or x is None: continue
            x = strip(x)
            while is_expr(x) and x[0] in ("cast", "ic"): x = strip(x[3])
            if is_expr(x) and x[0] == "bi" and x[1] == "!=": x = strip(x[2])
            while is_expr(x) and x[0] in ("cast", "ic"): x = strip(x[3])
            c = f.evi.get(x[1]) if is_expr(x) and x[0] == "ev" else None
            if c is not None and c["k"] == "call" and s.p.targets(c) and (e["k"] == "decl" or e.get("op") in ("|=", "=")): ored.setdefault(tgt, []).append((e, c))
        for v in list(ored):      # a plain assignment forgets the results before it
            if sum(1 for e, c in ored[v] if e["k"] == "asg" and e.get("op") == "=") and len(ored[v]) > 1: del ored[v]
        init = frozenset([((), frozenset())])
        ins = forward(f, init, T, join, edge=edge)
        for b, st in ins.items():
            blk = f.blocks[b]
            for e in blk.ev: st = T(st, e, blk, True)
        for v, t in tr.items():
            if v in rep and (f.q, t) in EXEMPT: s.ctx.ok("stale", 1, "%s: %s" % (f.display, EXEMPT[f.q, t]))
            elif v in rep:
                e, at = rep[v]
                c = ids.get(at)
                s.ctx.violation("stale", "%s:%s" % (f.q, v.split(":")[0]), f.loc(e), "'%s' refers to an entry of %s that may have moved since %s (line %s)" % (
                    v.split(":")[0], t.replace("State.", "state."), nm(c) if c else "?", c.get("l") if c else "?"))
            else: s.ctx.ok("stale", 1, "%s: %s -> %s" % (f.display, v.split(":")[0], t))

    def keeps_arg(s, e): return False
    def refreshed(s, f, e, v, t): return False


def run(ctx):
    ctx.rule("stale", "no pointer, reference or iterator into a table of the library state is used after an operation that may move its entries or release the lock that protects it")
    for cfg in (["full"] if ctx.tier == "quick" else ["full", "llvm", "debug", "nooptix"]):
        p = ctx.prog(cfg)
        s = Stale(ctx, p)
        for f in sorted(p.repo_fns(("src/",)), key=lambda f: f.key):
            if f.blocks: s.check(f)
    ctx.floor("stale", 200)
