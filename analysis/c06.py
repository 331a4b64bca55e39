"""C06: queued writes.  Value analysis of variable indices: every index gets origins (a parameter, an element of a container, a field, or 'fresh'),
and a must-analysis proves on every path that the origins are clean (no queued write targets them) when the index becomes an operand or its memory is used."""
from .core import strip, walk, is_expr, const_int, edge_facts, estr, forward, dead_end, normal_exits
from .c03 import loops_of
from .c05 import target, decl_ty, Sharing
from .c13 import rawvars

FRESH = ("fresh",)
IDXTY = ("unsigned int", "uint32_t", "Ref", "const uint32_t", "const unsigned int")
# operands that are never the target of a scatter because of their type: cooperative vectors, variable arrays, and control flow labels
STRUCT = {"CoopVecUnpack": (0,), "CoopVecUnaryOp": (0,), "CoopVecBinaryOp": (0, 1), "CoopVecTernaryOp": (0, 1, 2), "CoopVecCast": (0,), "CoopVecMatVec": (1,),
          "CoopVecAccum": (1,), "CoopVecOuterProductAccum": (1, 2), "ArrayInit": (0,), "ArrayRead": (0,), "ArrayWrite": (0,), "ArrayPhi": (0, 1), "CondMid": (0, 1), "CondEnd": (0, 1),
          "Nop": (0, 1, 2, 3), "Literal": (0, 1, 2, 3),
          "LoopPhi": (0,), "LoopCond": (0,), "LoopEnd": (0, 1), "LoopOutput": (0, 1),
          # the wrapped variable is examined when the call is recorded (rule 'batch')
          "CallInput": (0,)}


def nm(e): return (e.get("q") or "").split("::")[-1]
def is_ref(t): return t is not None and t.replace("const ", "").strip().rstrip("&").strip() in ("Ref", "unsigned int", "uint32_t")
def is_vp(t): return t is not None and t.replace("const", "").replace(" ", "").rstrip("&") in ("Variable*", "Variable")


class Idx:
    """index values within one function, under an assumption about its boolean parameters"""
    def __init__(s, A, f, assume=()):
        s.A, s.f, s.assume = A, f, dict(assume)
        s.loopadd, s.busy = {}, set()
        s.at = {}
        s.lp = s.bind = s.wr = None
        for rnd in range(4):
            s.ins = forward(f, s.init(), s.tr, s.join, s.edge)
            if not s.promote(): break

    def init(s):
        f = s.f
        val, ptr = {}, {}
        for i, v in enumerate(f.params):
            t = f.ptypes[i]
            if is_vp(t) and "*" in t or is_vp(t) and "&" in t:
                prev = f.ptypes[i - 1] if i else ""
                ptr[v] = frozenset([("p", f.params[i - 1])]) if i and prev.replace("const ", "") in ("unsigned int", "uint32_t") else frozenset([("pv", v)])
            elif is_ref(t): val[v] = frozenset([("p", v)])
        return (tuple(sorted((k, v) for k, v in val.items())), tuple(sorted(ptr.items())), frozenset(), ())

    def join(s, a, b):
        def mv(x, y):
            x, y = dict(x), dict(y)
            return tuple(sorted((k, x.get(k, frozenset()) | y.get(k, frozenset())) for k in set(x) | set(y)))
        def acc(x, y):
            x, y = dict(x), dict(y)
            return tuple(sorted((k, x[k] & y[k]) for k in set(x) & set(y)))
        return (mv(a[0], b[0]), mv(a[1], b[1]), (a[2] & b[2]) | s.cond(a[2], b[2]) | s.cond(b[2], a[2]), acc(a[3], b[3]))

    def cond(s, a, b):
        """facts of one side that hold under a condition which the other side contradicts"""
        out = set()
        if a == b: return out
        for t in a:
            if t[0] == "as":
                for x in b:
                    if x[0] not in ("as", "cond") and x not in a: out.add(("cond", t[1], not t[2], x))
            elif t[0] == "cond" and t not in b and (("as", t[1], not t[2]) in b or t[3] in b): out.add(t)
        return out

    @staticmethod
    def forget(clean, v): return frozenset(t for t in clean if not (t[0] in ("as", "cond") and t[1] == v))

    @staticmethod
    def suppose(clean, v, val):
        return clean | {("as", v, val)} | {t[3] for t in clean if t[0] == "cond" and t[1] == v and t[2] == val}

    def truth_var(s, c):
        """local whose truth value a condition is"""
        c = strip(c)
        if not is_expr(c): return None
        if c[0] == "v": return c[1]
        if c[0] == "ev":
            ev = s.f.evi.get(c[1])
            if ev is not None and ev["k"] == "call" and ev.get("obj") is not None and nm(ev).startswith("operator ") and is_expr(strip(ev["obj"])) and strip(ev["obj"])[0] == "v": return strip(ev["obj"])[1]
        return None

    # -- values
    def origins(s, st, e, d=0):
        """origins of an index expression (None: not an index)"""
        f = s.f
        e = strip(e)
        if not is_expr(e) or d > 12: return frozenset([("?",)])
        k = e[0]
        if const_int(e) is not None or k == "null": return frozenset([FRESH])
        if k == "v":
            m = dict(st[0])
            if e[1] in m: return m[e[1]]
            p = dict(st[1])
            if e[1] in p: return p[e[1]]
            return frozenset([("?", e[1])])
        if k == "ev":
            ev = f.evi.get(e[1])
            if ev is None: return frozenset([("?",)])
            if ev["k"] == "ctor": return s.origins(st, ev["a"][0], d + 1) if len(ev["a"]) == 1 else frozenset([FRESH])
            if ev["k"] == "call": return s.call(st, ev, d)
            return frozenset([("?",)])
        if k in ("ctor", "il"): return s.origins(st, e[2], d + 1) if len(e) == 3 else frozenset([FRESH])
        if k == "u" and e[1] in ("*", "&"): return s.origins(st, e[2], d + 1)
        if k == "?": return s.origins(st, e[2], d + 1) | s.origins(st, e[3], d + 1)
        if k == "bi" and e[1] in ("=",): return s.origins(st, e[3], d + 1)
        if k == "ix":
            b = strip(e[1])
            if is_expr(b) and b[0] == "m" and b[2] == "dep" and s.wraps():
                o = s.ptr(st, b[1])
                if o is not None and any(x[0] == "el" and x[1] in f.params for x in o): return frozenset(("el", "dep", x[1]) if x[0] == "el" else FRESH for x in o)
            if is_expr(b) and b[0] == "m" and b[2] == "dep": return frozenset([FRESH])   # held by the node: a scatter copies it first
            return s.elem(st, e[1])
        if k == "m":
            if e[2] in ("index", "first") and is_expr(strip(e[1])) and strip(e[1])[0] in ("v", "ev", "ix"): return s.elem(st, e[1])
            return s.field(e)
        return frozenset([("?",)])

    def wraps(s):
        """the function is given wrappers of other variables (nodes of the kind 'CallInput')"""
        if s.wr is None:
            s.wr = any(y == ["e", "VarKind::CallInput"] or y[0] == "e" and y[1] == "VarKind::CallInput" for e in s.f.events() for z in (e.get("init"), e.get("r"), e.get("e")) if z is not None for y in walk(z)) or \
                any(y[0] == "e" and y[1] == "VarKind::CallInput" for b in s.f.blocks.values() if b.term is not None and b.term[1] is not None and is_expr(b.term[1]) for y in walk(b.term[1]))
        return s.wr

    def field(s, e):
        r = s.A.fieldclean(e[3], e[2]) if str(e[3]).endswith("Data") else False
        return frozenset([FRESH]) if r else frozenset([("f", e[3], e[2])])

    def elem(s, st, b):
        """an element of a container"""
        f = s.f
        x = strip(b)
        for _ in range(10):
            if not is_expr(x): break
            if x[0] == "ev":
                ev = f.evi.get(x[1])
                if ev is not None and ev["k"] == "call" and ev.get("obj") is not None and nm(ev) in ("get", "data", "begin", "operator->", "operator*", "operator[]"): x = strip(ev["obj"]); continue
                break
            if x[0] == "u" and x[1] in ("*", "&"): x = strip(x[2]); continue
            if x[0] == "m":
                if str(x[3]).endswith("Data") and s.A.fieldclean(x[3], x[2]): return frozenset([FRESH])
                return frozenset([("el", "%s.%s" % (x[3], x[2]))])
            if x[0] == "v":
                d = [y for y in f.defs().get(x[1], []) if y[1] is not None]
                if is_ref(decl_ty(f, x[1])): return s.origins(st, x)
                own = s.contents(st, x[1])
                if own is not None: return own
                if len(d) == 1 and d[0][0] == "decl" and is_expr(strip(d[0][1])) and strip(d[0][1])[0] in ("v", "m", "u"): x = strip(d[0][1]); continue
                return frozenset([("el", x[1])])
            break
        return frozenset([("el", estr(f.canon(b), f)[:60])])

    def contents(s, st, v):
        """a local array whose elements are all assigned here"""
        if v in s.busy: return frozenset()
        s.busy.add(v)
        try: return s.contents_(st, v)
        finally: s.busy.discard(v)

    def contents_(s, st, v):
        f = s.f
        if v in f.params: return None
        out, n = frozenset(), 0
        init = [y for y in f.defs().get(v, []) if y[0] == "decl" and y[1] is not None]
        for y in init:
            x = strip(y[1])
            if is_expr(x) and x[0] == "ev":
                ev = f.evi.get(x[1])
                if ev is not None and ev["k"] == "ctor" and len(ev["a"]) in (0,): continue
                if ev is not None and ev["k"] == "ctor": return None
            if is_expr(x) and x[0] == "il":
                for z in x[2:]: out |= s.origins(st, z); n += 1
            elif is_expr(x) and x[0] in ("ctor", "def") and len(x) == 2: pass
            elif is_expr(x) and x[0] == "call" and "alloca" in str(x[1]): pass
            elif is_expr(x) and x[0] in ("v", "m", "u"): return None
        for e in f.events():
            if e["k"] == "asg":
                l = strip(e["l_"])
                if is_expr(l) and l[0] == "ix" and strip(l[1]) == ["v", v]: out |= s.origins(st, e["r"]); n += 1
            elif e["k"] == "call" and e.get("obj") is not None:
                o = strip(e["obj"])
                if nm(e) == "operator=" and is_expr(o):
                    if o[0] == "ix" and strip(o[1]) == ["v", v]: out |= s.origins(st, e["a"][0]); n += 1
                    elif o[0] == "ev":
                        ev = f.evi.get(o[1])
                        if ev is not None and ev["k"] == "call" and nm(ev) == "operator[]" and strip(ev["obj"]) == ["v", v]: out |= s.origins(st, e["a"][0]); n += 1
                elif nm(e) in ("push_back", "emplace_back") and o == ["v", v]:
                    out |= s.origins(st, e["a"][0]); n += 1
            elif e["k"] == "call" and any(rawroot(a) == v for a in e["a"]) and nm(e) not in ("memcpy",) and not e.get("q", "").startswith("std::"): return None
        return out if n else None

    def call(s, st, ev, d):
        q, a = nm(ev), ev["a"]
        f = s.f
        if q in ("steal", "borrow", "move", "forward", "__builtin_expect") and a: return s.origins(st, a[0], d + 1)
        if q in ("get", "release") and ev.get("obj") is not None: return s.origins(st, ev["obj"], d + 1)
        if q.startswith("operator unsigned") and ev.get("obj") is not None: return s.origins(st, ev["obj"], d + 1)
        if q == "operator=" and a: return s.origins(st, a[0], d + 1)
        if q in ("operator[]", "at", "back", "front", "operator*") and ev.get("obj") is not None:
            o = strip(ev["obj"])
            return s.elem(st, ev["obj"])
        if q == "jitc_var" and a: return s.origins(st, a[0], d + 1)
        out = frozenset([FRESH])
        for g in s.A.p.targets(ev):
            asm = []
            for i, v in enumerate(g.params):
                if i < len(a) and g.ptypes[i] == "bool" and const_int(a[i] if not (is_expr(a[i]) and a[i][0] == "def") else a[i][1]) is not None:
                    asm.append((v, bool(const_int(a[i] if not (is_expr(a[i]) and a[i][0] == "def") else a[i][1]))))
            for o in s.A.alias(g, tuple(asm)):
                if o[0] == "p":
                    i = g.params.index(o[1])
                    if i < len(a): out |= s.origins(st, a[i], d + 1)
                else: out |= frozenset([o])
        return out

    def ptr(s, st, e, d=0):
        """origins of the index that a Variable pointer/reference belongs to"""
        f = s.f
        e = strip(e)
        if not is_expr(e) or d > 8: return None
        if e[0] == "v": return dict(st[1]).get(e[1])
        if e[0] == "u" and e[1] in ("*", "&"): return s.ptr(st, e[2], d + 1)
        if e[0] == "ev":
            ev = f.evi.get(e[1])
            if ev is None or ev["k"] != "call": return None
            if nm(ev) == "jitc_var" and ev["a"]: return s.origins(st, ev["a"][0])
            if nm(ev) in ("operator[]", "at") and ev.get("obj") is not None and "variables" in estr(f.canon(ev["obj"]), f): return s.origins(st, ev["a"][0])
            if nm(ev) in ("operator->", "get", "operator*") and ev.get("obj") is not None: return s.ptr(st, ev["obj"], d + 1)
        if e[0] == "ix" and "variables" in estr(f.canon(e[1]), f): return s.origins(st, e[2])
        if e[0] == "?":
            a, b = s.ptr(st, e[2], d + 1), s.ptr(st, e[3], d + 1)
            return a | b if a is not None and b is not None else None
        return None

    # -- transfer
    def tr(s, st, ev, blk):
        f = s.f
        k = ev["k"]
        val, ptr, clean, acc = st
        def put(m, v, x): m = dict(m); m[v] = x; return tuple(sorted(m.items()))
        def drop(m, v): return tuple(y for y in m if y[0] != v)
        v = r = None
        if k == "decl": v, r, ty = ev["v"], ev.get("init"), ev.get("ty")
        elif k == "asg":
            l = strip(ev["l_"])
            if is_expr(l) and l[0] == "v": v, r, ty = l[1], ev["r"], decl_ty(f, l[1])
        elif k == "call" and nm(ev) == "operator=" and ev.get("obj") is not None and ev["a"]:
            l = strip(ev["obj"])
            if is_expr(l) and l[0] == "v": v, r, ty = l[1], ev["a"][0], decl_ty(f, l[1])
        if v is not None:
            clean = s.forget(clean, v)
            if is_ref(ty) and r is not None and const_int(r) == 0: clean = clean | {("as", v, False)}
            elif is_ref(ty) and k == "asg" and r is not None and s.nonzero(blk): clean = clean | {("as", v, True)}
            if is_ref(ty) and r is not None and k != "decl" and is_expr(strip(r)) and strip(r)[0] == "ev": clean = clean | {("as", v, True)}
            st = (val, ptr, clean, acc)
            if is_vp(ty) and ("*" in ty or "&" in ty or True):
                o = s.bound(st, v)
                if o is None: o = s.ptr(st, r) if r is not None else None
                ptr = put(ptr, v, o if o is not None else frozenset([("?", v)])) if r is not None and ("*" in ty or "&" in ty) else ptr
            elif ty in ("bool", "const bool"): acc = s.accum(st, ev, v, r, blk)
            elif is_ref(ty) and (k != "asg" or ev.get("op", "=") == "="):
                val = put(val, v, s.origins(st, r) if r is not None else frozenset([FRESH]))
            return (val, ptr, clean, acc)
        if k == "call":
            ts = s.A.p.targets(ev)
            if ts and all(s.A.never(g) for g in ts): return None
            for g in ts:
                asm = bools(g, ev["a"])
                for t, w in s.A.cleans(g, asm, None):
                    i = g.params.index(w)
                    if i >= len(ev["a"]): continue
                    o = s.elem(st, ev["a"][i]) if t == "el" else s.origins(st, ev["a"][i])
                    clean = clean | o
            if nm(ev) in ("unique_lock",): pass
        return (val, ptr, clean, acc)

    def toks(s, st, x):
        """origins X such that `x` false implies that X is clean"""
        f = s.f
        x = strip(x)
        if not is_expr(x): return frozenset()
        if x[0] == "v": return dict(st[3]).get(x[1], frozenset())
        if x[0] in ("cast", "ic"): return s.toks(st, x[3])
        if x[0] == "u" and x[1] == "!":
            y = strip(x[2])
            return s.toks(st, y[2]) if is_expr(y) and y[0] == "u" and y[1] == "!" else frozenset()
        if x[0] == "bi" and x[1] in ("||", "|"): return s.toks(st, x[2]) | s.toks(st, x[3])
        if x[0] == "bi" and x[1] == "&&":
            for a, b in ((x[2], x[3]), (x[3], x[2])):
                if s.known(st, a) is True: return s.toks(st, b)
        if x[0] == "bi" and x[1] in ("&&", "&"): return s.toks(st, x[2]) & s.toks(st, x[3])
        if x[0] == "bi" and x[1] == "!=" and const_int(x[3]) == 0: return s.toks(st, x[2])
        if x[0] == "ev":
            ev = f.evi.get(x[1])
            if ev is None or ev["k"] != "call": return frozenset()
            if nm(ev) == "__builtin_expect": return s.toks(st, ev["a"][0])
            if nm(ev) == "is_dirty" and ev.get("obj") is not None:
                o = s.ptr(st, ev["obj"])
                if o is None or any(y[0] == "?" for y in o): return frozenset()
                return o if single(o) else frozenset([("part", o)])
            out = frozenset()
            for g in s.A.p.targets(ev):
                for t, w in s.A.cleans(g, bools(g, ev["a"]), False):
                    i = g.params.index(w)
                    if i < len(ev["a"]) and t != "el":
                        o = s.ptr(st, ev["a"][i]) if is_vp(g.ptypes[i]) else s.origins(st, ev["a"][i])
                        if o is not None and single(o): out |= o
            return out
        return frozenset()

    def nonzero(s, blk):
        """the assignment records a variable that was just found to have queued writes"""
        b = blk
        for q in b.pred:
            B = s.f.blocks[q]
            if len(b.pred) == 1 and any(e["k"] == "call" and nm(e) == "is_dirty" for e in B.ev): return True
        return False

    def known(s, st, x):
        """truth value of a condition about a local, if the path determines it"""
        x = strip(x)
        if is_expr(x) and x[0] == "u" and x[1] == "!":
            k = s.known(st, x[2])
            return None if k is None else not k
        v = s.truth_var(x)
        if v is None: return None
        if v in s.assume: return s.assume[v]
        return True if ("as", v, True) in st[2] else False if ("as", v, False) in st[2] else None

    def accum(s, st, ev, v, r, blk):
        acc = dict(st[3])
        if ev["k"] == "decl":
            acc[v] = s.toks(st, r) if r is not None else frozenset()
        else:
            op = ev.get("op", "=")
            T = s.toks(st, ev["r"])
            if op in ("|=",): acc[v] = acc.get(v, frozenset()) | T
            elif op == "=":
                me = any(x == ["v", v] for x in walk(ev["r"]))
                ls = loops_of(s.f, blk.id)
                if not me and const_int(ev["r"]) != 1 and ls and not first_iteration(s.f, blk, ls):
                    T = frozenset(("one",) + t if t[0] == "el" else t for t in T)
                if const_int(ev["r"]) == 1: T = frozenset([("all",)])
                acc[v] = T
            else: acc.pop(v, None)
        return tuple(sorted(acc.items()))

    def edge(s, st, blk, i):
        f = s.f
        clean = st[2]
        for c, v in edge_facts(f, blk, i):
            c0 = strip(c)
            tv = s.truth_var(c0)
            if tv is not None:
                if ("as", tv, not v) in clean: return None
                clean = s.suppose(clean, tv, v)
            if is_expr(c0) and c0[0] == "v" and c0[1] in s.assume and s.assume[c0[1]] != v: return None
            if is_expr(c0) and c0[0] == "ev":
                e = f.evi.get(c0[1])
                if e is not None and e["k"] == "call" and e.get("obj") is not None and v and nm(e) in ("is_literal", "is_undefined", "is_node", "is_array"):
                    o = s.ptr(st, e["obj"])
                    if o is not None and single(o): clean = clean | o
                if e is not None and e["k"] == "call" and e.get("obj") is not None and not v and nm(e) == "is_evaluated":
                    o = s.ptr(st, e["obj"])
                    if o is not None and single(o): clean = clean | o
            k = kind_test(c0)
            if k is not None:
                o = s.ptr(st, k[0])
                if o is not None and single(o):
                    if v == (c0[1] == "=="): clean = clean | o
                    elif k[1] == "VarKind::CallInput" and s.wraps():
                        T = frozenset(("el", "dep", x[1]) for x in o if x[0] == "el")
                        clean = clean | T
                        st = (st[0], st[1], st[2], tuple((a, x | T) for a, x in st[3]))
            if is_expr(c0) and c0[0] == "m" and c0[2] == "coop_vec" and v:
                o = s.ptr(st, c0[1])
                if o is not None and single(o): clean = clean | o
            if is_expr(c0) and c0[0] == "bi" and c0[1] in ("==", "!=") and (v == (c0[1] == "==")):
                for a, b in ((c0[2], c0[3]), (c0[3], c0[2])):
                    if const_int(b) == 0:
                        o = s.origins(st, a)
                        if single(o) and not any(y[0] == "?" for y in o): clean = clean | o
            if is_expr(c0) and not v and c0[0] in ("v",):
                o = dict(st[0]).get(c0[1])
                if o is not None and single(o): clean = clean | o      # empty index
            if not v: clean = clean | frozenset(t for t in s.toks(st, c) if t[0] != "one")
            if is_expr(c0) and c0[0] in ("v", "ev", "m") and not v and not s.toks(st, c): pass
        add = s.loopadd.get((blk.id, i))
        acc = st[3]
        if add:
            clean = clean | add[0]
            acc = tuple(sorted((k, x | add[1].get(k, frozenset())) for k, x in acc))
        return (st[0], st[1], clean, acc)

    def promote(s):
        """an element examined in every iteration of a complete traversal: afterwards all of them are"""
        f = s.f
        ch = False
        if s.lp is None:
            s.lp = {}
            for b in f.rpo():
                for h, body, lat in loops_of(f, b):
                    s.lp[h] = (body, lat)
        for h, (body, lat) in s.lp.items():
            if h not in s.ins or not complete(s.A, f, h, body, True): continue
            L = None
            for b in lat:
                if b not in s.ins: continue
                st = s.ins[b]
                for e in f.blocks[b].ev: st = s.tr(st, e, f.blocks[b]) if st is not None else None
                if st is None: continue
                for i, t in enumerate(f.blocks[b].succ):
                    if t == h: st = s.edge(st, f.blocks[b], i) or st
                C, acc = expand(st[2]), {k: expand(x) for k, x in st[3]}
                L = (C, acc) if L is None else (L[0] & C, {k: L[1][k] & acc[k] for k in L[1] if k in acc})
            if L is None or not (L[0] or any(L[1].values())): continue
            for i, t in enumerate(f.blocks[h].succ):
                if t is not None and t not in body:
                    if s.loopadd.get((h, i)) != L: s.loopadd[(h, i)] = L; ch = True
        return ch

    def before(s, ev):
        for b in s.f.blocks.values():
            if ev in b.ev:
                if b.id not in s.ins: return None
                st = s.ins[b.id]
                for e in b.ev:
                    if e is ev: return st
                    st = s.tr(st, e, b)
                    if st is None: return None
        return None

    def dirty(s, st, o):
        return [x for x in o if x != FRESH and x not in st[2]]

    def bound(s, st, v):
        """structured binding of jitc_var_check(name, i1, i2, ...): the k-th pointer belongs to the k-th index"""
        if s.bind is None:
            s.bind = {}
            for e in s.f.events():
                if e["k"] == "decl" and e.get("bind"):
                    for k, b in enumerate(e["bind"]): s.bind[b] = (e, k)
        if v not in s.bind: return None
        e, k = s.bind[v]
        x = strip(e.get("init"))
        ev = s.f.evi.get(x[1]) if is_expr(x) and x[0] == "ev" else None
        if ev is None or ev["k"] != "call" or k == 0: return None
        a = ev["a"][1:]
        return s.origins(st, a[k - 1]) if k - 1 < len(a) else None


def kind_test(c):
    """(variable, kind) of a comparison of the kind of a variable with a constant"""
    if not (is_expr(c) and c[0] == "bi" and c[1] in ("==", "!=")): return None
    for a, b in ((c[2], c[3]), (c[3], c[2])):
        b = [y[1] for y in walk(b) if y[0] == "e" and y[1].startswith("VarKind::")]
        a = strip(a)
        while is_expr(a) and a[0] in ("cast", "ic"): a = strip(a[3])
        if b and is_expr(a) and a[0] == "m" and a[2] == "kind": return (a[1], b[0]) if b[0] != "VarKind::Invalid" else None
    return None


def expand(T):
    out = set(t for t in T if t[0] == "el")
    for t in T:
        if t[0] == "part": out |= set(t[1])
    return frozenset(out)


def single(o): return len([x for x in o if x != FRESH]) <= 1


def rawroot(a):
    a = strip(a)
    while is_expr(a) and a[0] in ("u", "def"):
        if a[0] == "u" and a[1] not in ("&", "*"): return None
        a = strip(a[2] if a[0] == "u" else a[1])
    return a[1] if is_expr(a) and a[0] == "v" else None


def bools(g, a):
    out = []
    for i, v in enumerate(g.params):
        if i < len(a) and g.ptypes[i] == "bool":
            x = a[i]
            if is_expr(x) and x[0] == "def": x = x[1]
            c = const_int(x)
            if c is not None: out.append((v, bool(c)))
    return tuple(out)


def first_iteration(f, blk, ls):
    """the block runs in the first iteration of its loop only (counter == 0)"""
    from .c20 import dom_facts
    for fs in dom_facts(f, blk):
        for c, v in fs:
            c = strip(c)
            if is_expr(c) and c[0] == "bi" and c[1] == "==" and v and const_int(c[3]) == 0 and is_expr(strip(c[2])) and strip(c[2])[0] == "v":
                return True
            if is_expr(c) and c[0] == "u" and c[1] == "!" and v or is_expr(c) and c[0] == "v" and not v:
                return True
    return False


def complete(A, f, h, body, early=False):
    """the traversal starts at the beginning and (unless 'early') isn't left early except by an error"""
    for b in body:
        for i, t in enumerate(f.blocks[b].succ):
            if t is None or t in body or b == h or early: continue
            if not leads_to_error(A, f, t): return False
    t = f.blocks[h].term
    if t is None or t[1] is None: return False
    if t[0] == "range": return True
    c = strip(t[1])
    vs = [x[1] for x in walk(c) if x[0] == "v"]
    for v in vs:
        for k, d, ev in f.defs().get(v, []):
            if k == "decl" and d is not None and const_int(d) == 0: return True
            if k == "decl" and v.startswith("__begin"): return True
    return any("begin" in v for v in vs)


def leads_to_error(A, f, b):
    seen, todo = set(), [b]
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        B = f.blocks[x]
        if dead_end(f, B) or any(e['k'] == 'call' and A.p.targets(e) and all(A.never(g) for g in A.p.targets(e)) for e in B.ev): continue
        if x == f.exit: return False
        todo += [t for t in B.succ if t is not None]
        if len(seen) > 40: return False
    return True


class Analysis:
    def __init__(s, p):
        s.p = p
        s.memo, s._alias, s._cleans, s._field, s._never = {}, {}, {}, {}, {}
        s.writes = {}
        for f in p.repo_fns("src/"):
            for e in f.events():
                l = None
                if e["k"] == "asg": l, r = strip(e["l_"]), e["r"]
                elif e["k"] == "call" and nm(e) in ("operator=", "push_back", "emplace_back") and e.get("obj") is not None and e["a"]: l, r = strip(e["obj"]), e["a"][0]
                elif e["k"] == "minit": l, r = ["m", None, e.get("field") or e.get("f"), e.get("rec") or ""], e.get("init")
                if l is None: continue
                while is_expr(l):
                    if l[0] == "ix": l = strip(l[1])
                    elif l[0] == "ev":
                        ev = f.evi.get(l[1])
                        if ev is not None and ev["k"] == "call" and nm(ev) in ("operator[]", "operator->", "back", "get") and ev.get("obj") is not None: l = strip(ev["obj"])
                        else: break
                    else: break
                if is_expr(l) and l[0] == "m" and l[2]: s.writes.setdefault((l[3], l[2]), []).append((f, e, r))

    def never(s, g):
        """the function can't return normally"""
        if g.key in s._never: return s._never[g.key]
        s._never[g.key] = False
        if not g.blocks or not g.file.startswith("src/"): return False
        def tr(st, e, blk):
            if e["k"] == "throw" or e.get("noret"): return None
            if e["k"] == "call":
                ts = s.p.targets(e)
                if ts and all(s.never(x) for x in ts): return None
            return st
        ins = forward(g, 1, tr, lambda a, b: 1, lambda st, blk, i: None if blk.noret else st)
        s._never[g.key] = g.exit not in ins
        return s._never[g.key]

    def examines(s, g, d=2):
        for e in g.events():
            if e["k"] == "call":
                if nm(e) == "is_dirty": return True
                if d and any(s.examines(h, d - 1) for h in s.p.targets(e) if h.file.startswith("src/") and len(h.blocks) < 80): return True
        return False

    def of(s, f, asm=()):
        k = (f.key, asm)
        if k not in s.memo:
            s.memo[k] = None
            s.memo[k] = Idx(s, f, asm)
        return s.memo[k]

    def alias(s, g, asm):
        """parameters that the returned index may denote without being known to be clean"""
        k = (g.key, asm)
        if k in s._alias: return s._alias[k]
        s._alias[k] = frozenset()
        if not is_ref(g.ret) or not g.file.startswith("src/") or not g.blocks: return frozenset()
        I = s.of(g, asm)
        if I is None: return frozenset()
        out = frozenset()
        for e in g.events():
            if e["k"] != "ret" or e.get("e") is None: continue
            st = I.before(e)
            if st is None: continue
            out |= frozenset(x for x in I.dirty(st, I.origins(st, e["e"])) if x[0] == "p")
        s._alias[k] = out
        return out

    def cleans(s, g, asm, rv):
        """index/variable parameters that are clean once the function has returned (rv: a false value)"""
        k = (g.key, asm, rv)
        if k in s._cleans: return s._cleans[k]
        s._cleans[k] = frozenset()
        if not g.file.startswith("src/") or not g.blocks or not any(is_ref(t) or is_vp(t) or "unsigned int *" in t for t in g.ptypes): return frozenset()
        if not s.examines(g): return frozenset()
        I = s.of(g, asm)
        if I is None: s._cleans.pop(k); return frozenset()
        out = None
        for b in normal_exits(g):
            if b not in I.ins: continue
            st = I.ins[b]
            B = g.blocks[b]
            r = None
            for e in B.ev:
                if e["k"] == "ret": r = e; rst = st
                st = I.tr(st, e, B)
                if st is None: break
            if st is None: continue
            c = st[2]
            if rv is not None:
                if r is None or r.get("e") is None: return frozenset()
                cv = const_int(r["e"])
                if cv is not None and bool(cv) != rv: continue
                if cv is None and not rv: c = c | I.toks(rst, r["e"])
            out = c if out is None else out & c
        if rv is None: out = I.ins[g.exit][2] if g.exit in I.ins else None
        res = frozenset((x[0], x[1]) for x in (out or ()) if x[0] in ("p", "pv", "el") and x[1] in g.params)
        s._cleans[k] = res
        return res

    def required(s, f, o, depth=3, seen=()):
        """every caller passes a clean argument"""
        if o[0] not in ("p", "el") or o[1] not in f.params or depth == 0: return False
        if (f.key, o) in seen: return True
        cs = [(g, e) for g, e in s.p.callers().get(f.key, [])]
        if not cs or f.display.startswith("jit_"): return False
        i = f.params.index(o[1])
        for g, e in cs:
            if i >= len(e["a"]): return False
            I = s.of(g)
            if I is None: return False
            st = I.before(e)
            if st is None: continue
            if g.key == f.key and strip(e["a"][i]) == ["v", o[1]]: continue
            oo = I.elem(st, e["a"][i]) if o[0] == "el" else I.origins(st, e["a"][i])
            for x in I.dirty(st, oo):
                if not s.required(g, x, depth - 1, seen + ((f.key, o),)): return False
        return True

    def fieldclean(s, rec, fld):
        k = (rec, fld)
        if k in s._field: return s._field[k]
        s._field[k] = True
        ws = s.writes.get(k)
        if not ws: s._field[k] = False; return False
        for f, e, r in ws:
            if r is None: continue
            I = s.of(f)
            if I is None: continue
            st = I.before(e)
            if st is None: continue
            o = I.origins(st, r)
            if I.dirty(st, o): s._field[k] = False; break
        return s._field[k]


EXEMPT = {
    ("jitc_var_shadow_make", "3"): "not an operand: the single-precision buffer in which queued half-precision additions accumulate is attached to the (dirty) target until it is narrowed",
}


def kind_of(f, base, site):
    """constant kinds a locally constructed variable may have"""
    out = set()
    for e in f.events():
        t = target(e, f)
        if t and t[0] == "kind" and strip(t[1]) == strip(base):
            for x in walk(f.canon(e["r"])):
                if x[0] == "e" and x[1].startswith("VarKind::"): out.add(x[1].split("::")[1])
    return out


def operands(ctx, p, A):
    for f in p.repo_fns("src/"):
        sites = []
        for e in f.events():
            if e["k"] != "asg": continue
            t = target(e, f)
            if t and t[0] == "dep": sites.append((e, t[1]))
        if not sites: continue
        if f.cls == "Variable": continue
        I = None
        for e, base in sites:
            l = strip(e["l_"])
            pos = const_int(l[2]) if is_expr(l) and l[0] == "ix" else None
            if const_int(e["r"]) == 0: continue
            ks = kind_of(f, base, e)
            if ks and pos is not None and all(pos in STRUCT.get(k, ()) for k in ks): ctx.ok("operand", 1); continue
            if (f.display, str(pos)) in EXEMPT: continue
            if I is None: I = A.of(f)
            st = I.before(e)
            if st is None: continue
            bad = [x for x in I.dirty(st, I.origins(st, e["r"])) if not A.required(f, x)]
            if bad: ctx.violation("operand", "%s|dep%s|%s" % (f.display, pos, "/".join(sorted(ks))), f.loc(e), "'%s' becomes an operand%s, but queued writes to it (%s) aren't known to have been executed" % (estr(f.canon(e["r"]), f)[:60], " of " + "/".join(sorted(ks)) if ks else "", show(bad)))
            else: ctx.ok("operand", 1, "%s: %s" % (f.loc(e), estr(e["r"], f)[:50]))


def show(bad): return ", ".join(sorted(str(x[1]).split(":")[0] if len(x) > 1 else "unknown origin" for x in bad))


def vectors(ctx, p, A):
    """operands stored in the data attached to a node"""
    V = [("CoopVecPackData", "indices"), ("TraceData", "indices"), ("GetterData", "values"), ("CallData", "outer_in")]
    for k in V:
        for f, e, r in A.writes.get(k, []):
            if e["k"] == "asg" and r is None: continue
            I = A.of(f)
            st = I.before(e)
            if st is None: continue
            bad = [x for x in I.dirty(st, I.origins(st, r)) if not A.required(f, x)]
            if bad: ctx.violation("operand", "%s|%s.%s" % ((f.display,) + k), f.loc(e), "'%s' becomes an operand, but queued writes to it (%s) aren't known to have been executed" % (estr(f.canon(r), f)[:60], show(bad)))
            else: ctx.ok("operand", 1, f.loc(e))


ADDRESS = {
    "jitc_eval_impl": "stores the freshly computed buffer, and registers its address (debug builds)",
    # functions that use the address of a buffer, or complete a queued write to it
    "jitc_var_info": "reports the state (dirty variables are reported as such, without their address)",
    "jitc_var_free": "releases the memory of a variable that nothing refers to (a queued write holds a reference)",
    "jitc_var_device": "only asks which device owns the allocation",
    "jitc_var_whos": "listing: only prints where the buffer lies",
    "jitc_var_new": "log message",
    "jitc_var_resource_pointer": "wraps the address of the storage; the contents are accessed through gathers and scatters on it",
    "jitc_var_reduce_expanded": "callback that completes a queued scatter (runs after the kernel that performs the writes)",
    "jitc_var_shadow_narrow": "callback that completes a queued scatter (runs after the kernel that performs the writes)",
    "CUDATexture::get_jit_pointer": "texture handles are never the target of a scatter",
    "CUDATexture::get_surf_jit_pointer": "texture handles are never the target of a scatter",
    "RecordThreadState::add_input": "recording: addresses identify buffers (jitc_freeze_start evaluates its inputs)",
    "RecordThreadState::add_output": "recording: addresses identify buffers",
    "RecordThreadState::capture_variable": "message",
    "RecordThreadState::notify_opaque_width": "recording: addresses identify buffers",
    "RecordThreadState::notify_init_undefined": "recording: addresses identify buffers",
    "ReplayVariable::init_from_input": "replay: inputs are evaluated by the caller (jit_freeze_replay documents evaluated inputs)",
    "jitc_call_upload": "runs while a kernel is being prepared: operands of the kernel are examined when they are attached (rule 'operand')",
    "jitc_assemble": "kernel parameters: operands are examined when they are attached (rule 'operand')",
    "jitc_metal_assemble_func": "kernel parameters: operands are examined when they are attached (rule 'operand')",
}


def payload(f, e, x, y):
    """the field is only converted into the pointer to a node's payload, or tested"""
    for z in walk(x):
        if z[0] == "bi" and z[1] in ("==", "!=") and (strip(z[2]) == y and strip(z[3])[0] == "null" or strip(z[3]) == y) or z[0] == "u" and z[1] == "!" and strip(z[2]) == y: return True
        if z[0] in ("cast", "ic") and strip(z[3]) is y or z[0] in ("cast", "ic") and strip(z[3]) == y:
            if str(z[1]).rstrip("*& ").split(" ")[-1].endswith(("Data", "Descr")): return True
    if e["k"] == "call":
        for g in [e.get("q") or ""]:
            if g == "jitc_var_call_assemble": return True
    return False


def contents(ctx, p, A):
    for f in p.repo_fns("src/"):
        if f.cls == "Variable" or any(f.display.startswith(n) for n in ADDRESS if n == f.display): continue
        if any(is_vp(t) for t in f.ptypes) and not f.display.startswith("jitc_var_"): continue     # code generation
        asm = tuple((v, True) for i, v in enumerate(f.params) if f.ptypes[i] == "bool") if f.display == "jitc_var_data" else ()
        I, seen = None, set()
        for e in f.events():
            xs = [e[k] for k in ("init", "r", "e") if e.get(k) is not None] + list(e.get("a") or [])
            for x in xs:
                for y in walk(x):
                    if not (y[0] == "m" and y[2] == "data" and y[3] == "Variable") or payload(f, e, x, y): continue
                    if (e["l"], str(y)) in seen: continue
                    seen.add((e["l"], str(y)))
                    if I is None: I = A.of(f, asm)
                    st = I.before(e)
                    if st is None: continue
                    o = I.ptr(st, y[1])
                    bad = [x for x in I.dirty(st, o if o is not None else frozenset([("?",)])) if not A.required(f, x)]
                    if bad: ctx.violation("contents", "%s|%s" % (f.display, estr(f.canon(y), f)[:50]), f.loc(e), "the memory '%s' is used, but queued writes to the variable (%s) aren't known to have been executed" % (estr(y, f), show(bad)))
                    else: ctx.ok("contents", 1, "%s: %s" % (f.loc(e), estr(y, f)))
        # storage requested without executing the queued writes
        for e in f.events():
            if e["k"] != "call" or nm(e) != "jitc_var_data": continue
            a = e["a"]
            c = const_int(a[1][1] if is_expr(a[1]) and a[1][0] == "def" else a[1])
            if c == 1: ctx.ok("contents", 1, f.loc(e)); continue
            if I is None: I = A.of(f)
            st = I.before(e)
            if st is None: continue
            if not I.dirty(st, I.origins(st, a[0])): ctx.ok("contents", 1, f.loc(e)); continue
            v = rawroot(a[2])
            for u in f.events():
                if u is e or v is None: continue
                for x in [u[k] for k in ("init", "r", "e") if u.get(k) is not None] + list(u.get("a") or []):
                    if not any(y == ["v", v] for y in walk(x)): continue
                    if u["k"] == "call" and nm(u) == "jitc_var_pointer" and any(const_int(z[1] if is_expr(z) and z[0] == "def" else z) == 1 for z in u["a"][3:5]): ctx.ok("contents", 1, f.loc(u)); continue
                    if u["k"] == "call" and nm(u) in ("jitc_memcpy", "jitc_memcpy_async") and len(u["a"]) > 2 and not any(y == ["v", v] for y in walk(u["a"][2])): ctx.ok("contents", 1, f.loc(u)); continue
                    if u["k"] == "call" and nm(u) == "jitc_log" or u["k"] in ("decl", "asg") and u.get("init") == ["null"]: continue
                    if u["k"] == "decl" and u["v"] == v: continue
                    ctx.violation("contents", "%s|%s" % (f.display, v.split(":")[0]), f.loc(u), "'%s' is the memory of a variable that may have queued writes, and isn't only used as the target of further writes" % v.split(":")[0])


def queue(ctx, p, A):
    """queued side effects only leave the queue when they are scheduled, released, or saved by a guard"""
    def is_q(f, x):
        x = strip(x)
        return is_expr(x) and x[0] == "m" and x[2] == "side_effects" and str(x[3]).startswith("ThreadState")
    for f in p.repo_fns("src/"):
        for b in f.blocks.values():
            for e in b.ev:
                if f.display.endswith("operator=") or e["k"] != "call" or nm(e) not in ("clear", "pop_back", "erase", "resize", "swap", "operator=") or e.get("obj") is None or not is_q(f, e["obj"]): continue
                base = estr(f.canon(strip(e["obj"])[1]), f)
                if f.cls and strip(strip(e["obj"])[1]) == ["this"]:
                    for g, c in p.callers().get(f.key, []):
                        if g.key == f.key: continue
                        if saved(p, g, c): ctx.ok("queue", 1, g.loc(c))
                        else: ctx.violation("queue", "%s|%s" % (g.display, f.display), g.loc(c), "clears the queued side effects of a thread state that was neither saved nor the one of the calling thread")
                    continue
                ok = False
                for h in f.rpo():
                    for hh, body, lat in loops_of(f, h):
                        if b.id in body or hh != h or not complete(A, f, h, body): continue
                        if not any(x["k"] in ("decl",) and x["v"].startswith("__range") and x.get("init") is not None and is_q_range(f, x["init"], base) for x in f.events()) and not any(is_q(f, y) for bb in body for x in f.blocks[bb].ev for z in (x.get("a") or []) + [x.get("init"), x.get("obj")] if z is not None for y in walk(z)): continue
                        if dominates(f, h, b.id) and consumes(f, h, body, lat): ok = True
                if ok: ctx.ok("queue", 1, f.loc(e))
                else: ctx.violation("queue", "%s|%s" % (f.display, nm(e)), f.loc(e), "queued side effects are removed from '%s' although not all of them were scheduled or released" % estr(e["obj"], f))
    for f in p.by_q.get("jitc_var_mark_side_effect", []):
        def tr(st, e, blk):
            if e["k"] == "call" and nm(e) in ("push_back", "emplace_back") and e["a"] and strip(e["a"][0]) == ["v", f.params[0]]: return 2
            if e["k"] == "throw" or e.get("noret") or e["k"] == "call" and p.targets(e) and all(A.never(g) for g in p.targets(e)): return None
            return st
        def edge(st, blk, i):
            for c, v in edge_facts(f, blk, i):
                c = strip(c)
                if is_expr(c) and c == ["v", f.params[0]] and not v: return 2
                if is_expr(c) and c[0] == "bi" and c[1] in ("==", "!=") and strip(c[2]) == ["v", f.params[0]] and const_int(c[3]) == 0 and v == (c[1] == "=="): return 2
            return st
        ins = forward(f, 1, tr, min, edge)
        if ins.get(f.exit, 2) == 2: ctx.ok("queue", 1, f.display)
        else: ctx.violation("queue", f.display, f.loc(), "returns without queuing the side effect")


def is_q_range(f, x, base):
    return any(y[0] == "m" and y[2] == "side_effects" and estr(f.canon(y[1]), f) == base for y in walk(f.canon(x)))


def dominates(f, a, b):
    from .c03 import dominators
    return a in dominators(f).get(b, ())


def consumes(f, h, body, lat):
    """every iteration hands its element over"""
    def hit(b):
        for e in f.blocks[b].ev:
            if e["k"] == "call" and e["a"] and (nm(e) in ("push_back", "emplace_back") or nm(e).startswith("jitc_var_dec_ref")): return True
        return False
    todo = [t for t in f.blocks[h].succ if t in body and t != h]
    seen = set()
    while todo:
        b = todo.pop()
        if b in seen: continue
        seen.add(b)
        if hit(b): continue
        if b in lat: return False
        todo += [t for t in f.blocks[b].succ if t in body and t != h]
    return True


def saved(p, g, c):
    """the guard copied the state beforehand, and puts it back in its destructor; it is applied to the state of the calling thread"""
    o = c.get("obj")
    cls = g.cls
    if cls is None: return False
    copies = False
    for e in g.events():
        if e is c: break
        x = [e.get("init")] if e["k"] == "minit" else list(e.get("a") or []) if e["k"] == "ctor" or e["k"] == "call" and nm(e) in ("operator=", "swap") else []
        if any(y[0] == "u" and y[1] == "*" and rawroot(y) in g.params for z in x if z is not None for y in walk(z)): copies = True
    # (events are listed in source order within a block; the copy must come first on every path)
    dt = [h for h in p.fns.values() if h.cls == cls and h.display.split("::")[-1].startswith("~")]
    back = any(e["k"] == "call" and nm(e) in ("operator=", "swap") for h in dt for e in h.events())
    own = True
    for h, e in p.callers().get(g.key, []):
        if not e.get("a"): continue
        x = h.canon(e["a"][0])
        if not any(y[0] == "m" and y[2].startswith("ts_") for y in walk(x)): own = False
    return copies and back and own


def run(ctx):
    for r, d in (("operand", "an index becomes an operand only once no queued write targets it"),
                 ("contents", "the memory of a variable is only read once no queued write targets it"),
                 ("queue", "queued side effects are only removed from the queue when they are scheduled, released, or saved"),):
        ctx.rule(r, d)
    for cfg in (["full"] if ctx.tier == "quick" else ["full", "cuda", "llvm", "debug", "metal"]):
        p = ctx.prog(cfg)
        A = Analysis(p)
        operands(ctx, p, A); vectors(ctx, p, A); contents(ctx, p, A); queue(ctx, p, A)
    ctx.floor("operand", 20)
