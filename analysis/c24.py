"""C24: byte counts, byte offsets and addresses derived from element counts are computed in 64-bit arithmetic.
Interprocedural width analysis: factors that denote the size of an element are found by value flow from the element size tables; every product with such a
factor must have a 64-bit type unless its value can't exceed 32 bits or is never widened; 64-bit byte quantities aren't narrowed again."""
from .core import strip, walk, is_expr, const_int, edge_facts, estr

W32 = ("unsigned int", "int", "uint32_t", "const unsigned int", "const int", "const uint32_t")
W64 = ("unsigned long", "size_t", "uint64_t", "long", "unsigned long long", "int64_t", "uintptr_t", "ptrdiff_t", "long long")
SMALL = {"unsigned char": 8, "uint8_t": 8, "unsigned short": 16, "uint16_t": 16, "bool": 1, "char": 7, "signed char": 7, "short": 15}
INF = 1 << 80


def bare(t): return str(t).replace("const ", "").strip()
def nm(e): return (e.get("q") or "").split("::")[-1]


def exprs(e):
    for k in ("init", "r", "e", "l_"):
        if e.get(k) is not None and is_expr(e[k]): yield k, e[k]
    if is_expr(e.get("obj")): yield "obj", e["obj"]
    for i, a in enumerate(e.get("a") or []):
        if is_expr(a): yield "a%d" % i, a


class Width:
    def __init__(s, p):
        s.p = p
        s.par = {}           # parameters that receive an element size
        s.var = {}           # declared type of locals
        s.fns = [f for f in p.fns.values() if f.file.startswith(("src/", "include/")) and f.blocks]
        s.owner = {}
        for f in s.fns:
            for i, v in enumerate(f.params): s.var[v] = f.ptypes[i]; s.owner[v] = f
            for e in f.events():
                if e["k"] == "decl": s.var[e["v"]] = e.get("ty"); s.owner[e["v"]] = f
        s.fields = {}
        for r in p.recs.values():
            for x in r["fields"]: s.fields[(r["q"].split("::")[-1], x[0])] = (x[1], x[2])
        ch = True
        while ch:
            ch = False
            for k, cs in p.callers().items():
                g = p.fns.get(k)
                if g is None or not g.file.startswith(("src/", "include/")): continue
                for i, v in enumerate(g.params):
                    if v in s.par or bare(g.ptypes[i]) not in W32: continue
                    args = [(f, e["a"][i]) for f, e in cs if i < len(e.get("a") or [])]
                    if any(s.elem(f, a) for f, a in args) and 2 * sum(1 for f, a in args if s.elem(f, a) or s.ub(f, a) <= 16 or strip(a)[0] == "v" and strip(a)[1] in f.params) >= len(args): s.par[v] = g; ch = True

    def defs(s, v):
        f = s.owner.get(v)
        return [] if f is None else [d for d in f.defs().get(v, []) if d[1] is not None]

    def elem(s, f, x, d=0):
        """the value is the size of an element (possibly widened)"""
        x = strip(x)
        if not is_expr(x) or d > 6: return False
        if x[0] in ("cast", "ic"): return s.elem(f, x[3], d + 1)
        if x[0] == "def": return s.elem(f, x[1], d + 1)
        if x[0] == "ix":
            b = strip(x[1])
            return is_expr(b) and b[0] == "g" and b[1].split("::")[-1].startswith("type_size")
        if x[0] == "v": return x[1] in s.par or any(s.elem(s.owner[x[1]], y[1], d + 1) for y in s.defs(x[1]) if y[0] in ("decl", "asg"))
        if x[0] == "?": return s.elem(f, x[2], d + 1) or s.elem(f, x[3], d + 1)
        if x[0] == "ev":
            ev = f.evi.get(x[1])
            if ev is not None and ev["k"] == "call" and nm(ev) == "operator[]" and ev.get("obj") is not None: return "type_size" in estr(f.canon(ev["obj"]), f)
        return False

    def ub(s, f, x, d=0, seen=()):
        """upper bound of an unsigned value"""
        x = strip(x)
        if not is_expr(x) or d > 8: return INF
        c = const_int(x)
        if c is not None: return c if c >= 0 else INF
        k = x[0]
        if k == "ic" or k == "cast":
            t = bare(x[2]) if k == "ic" else bare(x[1])
            u = s.ub(f, x[3], d + 1, seen)
            if bare(x[1]) in SMALL: u = min(u, (1 << SMALL[bare(x[1])]) - 1)
            if bare(x[2]) in SMALL: u = min(u, (1 << SMALL[bare(x[2])]) - 1)
            return u
        if k == "ix" and s.elem(f, x): return 8
        if k == "sizeof": return x[2]
        if k == "m":
            t = s.fields.get((str(x[3]).split("::")[-1], x[2]))
            if t is None: return INF
            if t[1] is not None and t[1] > 0: return (1 << t[1]) - 1
            return (1 << SMALL[bare(t[0])]) - 1 if bare(t[0]) in SMALL else INF
        if k == "?": return max(s.ub(f, x[2], d + 1, seen), s.ub(f, x[3], d + 1, seen))
        if k == "bi":
            a, b = s.ub(f, x[2], d + 1, seen), s.ub(f, x[3], d + 1, seen)
            if x[1] == "+": return min(a + b, INF)
            if x[1] == "*": return min(a * b, INF)
            if x[1] == "-": return a
            if x[1] == "/": return a // max(const_int(x[3]) or 1, 1) if a < INF else INF
            if x[1] == "%": return min(a, b)
            if x[1] == "&": return min(a, b)
            if x[1] == "<<": return min(a << min(b, 64), INF) if a < INF and b < 64 else INF
            if x[1] == ">>": return a
            return INF
        if k == "v":
            if x[1] in seen: return INF
            t = bare(s.var.get(x[1]))
            if t in SMALL: return (1 << SMALL[t]) - 1
            if x[1] in s.par: return INF
            ds = s.defs(x[1])
            if not ds or x[1] in s.owner[x[1]].address_taken(): return INF
            out = 0
            for kk, y, ev in ds:
                if kk not in ("decl", "asg") or kk == "asg" and ev.get("op", "=") != "=": return loop_bound(s, x[1], seen, d)
                out = max(out, s.ub(s.owner[x[1]], y, d + 1, seen + (x[1],)))
            if any(e["k"] == "inc" and strip(e["e"]) == x for e in s.owner[x[1]].events()): return loop_bound(s, x[1], seen, d)
            return out
        if k == "ev":
            ev = f.evi.get(x[1])
            if ev is not None and ev["k"] == "call":
                if nm(ev) == "min" and len(ev["a"]) == 2: return min(s.ub(f, ev["a"][0], d + 1, seen), s.ub(f, ev["a"][1], d + 1, seen))
                if nm(ev) == "max" and len(ev["a"]) == 2: return max(s.ub(f, ev["a"][0], d + 1, seen), s.ub(f, ev["a"][1], d + 1, seen))
        return INF

    def product(s, f, x):
        """32-bit product of an element size and a number of elements that may exceed 32 bits"""
        if not (is_expr(x) and x[0] == "bi" and x[1] in ("*", "<<") and bare(x[4]) in W32): return False
        return (s.elem(f, x[2]) or s.elem(f, x[3])) and min(s.ub(f, x[2]), INF) * min(s.ub(f, x[3]), INF) >= 1 << 32

    def inside(s, f, x, d=0):
        """a 32-bit value that contains such a product (sums, alignment, copies in 32-bit locals)"""
        x = strip0(x)
        if not is_expr(x) or d > 6: return None
        if s.product(f, x): return x
        if x[0] == "bi" and x[1] in ("+", "-", "*", "<<") and bare(x[4]) in W32: return s.inside(f, x[2], d + 1) or s.inside(f, x[3], d + 1)
        if x[0] == "?": return s.inside(f, x[2], d + 1) or s.inside(f, x[3], d + 1)
        if x[0] in ("ic", "cast") and bare(x[1]) in W32: return s.inside(f, x[3], d + 1)
        if x[0] == "v" and bare(s.var.get(x[1])) in W32:
            for kk, y, ev in s.owner[x[1]].defs().get(x[1], []) if x[1] in s.owner else []:
                if kk == "asg" and ev.get("op") == "*=" and is_expr(ev["r"]) and any(s.elem(s.owner[x[1]], z) for z in [ev["r"]] + [z[1] for z in s.defs(x[1]) if z[0] == "decl"]): return ["bi", "*", x, ev["r"], "unsigned int"]
            for kk, y, ev in s.defs(x[1]):
                if kk in ("decl", "asg"):
                    r = s.inside(s.owner[x[1]], y, d + 1)
                    if r is not None: return r
        return None


    def bytes64(s, f, x, d=0):
        """64-bit byte quantity derived from an unbounded number of elements"""
        x = strip0(x)
        if not is_expr(x) or d > 6: return None
        if x[0] == "bi":
            if x[1] in ("*", "<<") and bare(x[4]) in W64 and (s.elem(f, x[2]) or s.elem(f, x[3])) and s.ub(f, x[2]) * s.ub(f, x[3]) >= 1 << 32: return x
            if x[1] in ("+", "-"): return s.bytes64(f, x[2], d + 1) or s.bytes64(f, x[3], d + 1)
            return None
        if x[0] in ("ic", "cast"): return s.bytes64(f, x[3], d + 1)
        if x[0] == "?": return s.bytes64(f, x[2], d + 1) or s.bytes64(f, x[3], d + 1)
        if x[0] == "v" and bare(s.var.get(x[1])) in W64:
            for kk, y, ev in s.defs(x[1]):
                if kk in ("decl", "asg"):
                    r = s.bytes64(s.owner[x[1]], y, d + 1)
                    if r is not None: return r
        return None


def strip0(x):
    while is_expr(x) and x[0] in ("def", "paren") and len(x) > 1: x = x[1]
    return x


def loop_bound(s, v, seen, d):
    """a counter is bounded by the limit of its loop"""
    f = s.owner[v]
    best = INF
    for b in f.blocks.values():
        if b.term is None or b.term[0] not in ("for", "while", "do") or not is_expr(b.term[1]): continue
        for c in [strip(b.term[1])]:
            if c[0] == "bi" and c[1] in ("<", "<=", "!=") and strip(c[2]) == ["v", v]: best = min(best, s.ub(f, c[3], d + 1, seen + (v,)))
    return best


def widened(s, f, e):
    """(widened 32-bit expression, how) for conversions of 32-bit values to 64 bits and 32-bit offsets added to addresses"""
    for k, x in exprs(e):
        for y in walk(x):
            if y[0] in ("ic", "cast") and bare(y[1]) in W64: yield y[3], "is only then converted to 64 bits"
            if y[0] == "bi" and y[1] in ("+", "-") and str(y[4]).rstrip().endswith("*"):
                for z in (y[2], y[3]): yield z, "is added to an address"
            if y[0] == "ix": yield y[2], "is used as an index"


ADDR = ("Gather", "PacketGather", "Scatter", "ScatterInc", "ScatterExch", "ScatterCAS", "PacketScatter")


def wideners(p):
    """functions that convert an index to a 64-bit type when the array has more than 2^31 entries"""
    out = []
    for f in p.repo_fns("src/"):
        if bare(f.ret) not in W32 or not f.blocks or len(f.blocks) > 40: continue
        for b in f.blocks.values():
            for i in (0, 1):
                if b.term is None or i >= len(b.succ) or b.succ[i] is None: continue
                for c, v in edge_facts(f, b, i):
                    c = strip(c)
                    if not (is_expr(c) and c[0] == "bi" and c[1] in (">", ">=", "<", "<=")): continue
                    l, r, op = c[2], c[3], c[1]
                    if const_int(r) is None: l, r, op = r, l, {">": "<", "<": ">", ">=": "<=", "<=": ">="}[op]
                    n = const_int(r)
                    if n is None or not any(y[0] == "m" and y[2] == "size" and y[3] == "Variable" for y in walk(f.canon(l))): continue
                    if not v: op = {">": "<=", "<": ">=", ">=": "<", "<=": ">"}[op]
                    if op == ">" and n <= 0x7fffffff or op == ">=" and n <= 0x80000000:
                        if reaches64(f, b.succ[i]): out.append(f)
    return {f.key for f in out}


def reaches64(f, b):
    """every path from here selects a 64-bit type, on backends with signed indices"""
    seen, todo = set(), [b]
    hit = False
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        B = f.blocks[x]
        if any(y[0] == "e" and y[1] in ("VarType::UInt64", "VarType::Int64") for e in B.ev for k, z in exprs(e) for y in walk(z)): hit = True; continue
        todo += [t for t in B.succ if t is not None]
    return hit


def indices(ctx, p):
    from .core import forward
    G = wideners(p)
    for f in p.repo_fns("src/"):
        sites = []
        for e in f.events():
            if e["k"] in ("call", "asg"):
                for k, x in exprs(e):
                    y = strip(x)
                    while is_expr(y) and y[0] in ("ic", "cast"): y = strip(y[3])
                    if is_expr(y) and y[0] == "e" and y[1].startswith("VarKind::") and y[1].split("::")[1] in ADDR:
                        if e["k"] == "call" and nm(e).startswith("jitc_var_new_node"): sites.append((e, y[1].split("::")[1]))
        if not sites: continue
        def wide(st, x, d=0):
            x = strip(x)
            if not is_expr(x) or d > 8: return False
            if x[0] == "v": return x[1] in st
            if x[0] in ("ic", "cast"): return wide(st, x[3], d + 1)
            if x[0] == "ev":
                ev = f.evi.get(x[1])
                if ev is None: return False
                if ev["k"] == "call" and any(g.key in G for g in p.targets(ev)): return True
                if ev["k"] == "call" and nm(ev) in ("steal", "borrow", "move"): return wide(st, ev["a"][0], d + 1)
                if ev["k"] == "call" and nm(ev).startswith("operator") and ev.get("obj") is not None: return wide(st, ev["obj"], d + 1)
                if ev["k"] == "ctor" and len(ev["a"]) == 1: return wide(st, ev["a"][0], d + 1)
            return False
        def tr(st, e, blk):
            v = r = None
            if e["k"] == "decl": v, r = e["v"], e.get("init")
            elif e["k"] == "asg" and is_expr(strip(e["l_"])) and strip(e["l_"])[0] == "v": v, r = strip(e["l_"])[1], e["r"]
            elif e["k"] == "call" and nm(e) == "operator=" and e.get("obj") is not None and is_expr(strip(e["obj"])) and strip(e["obj"])[0] == "v" and e["a"]: v, r = strip(e["obj"])[1], e["a"][0]
            if v is None: return st
            return st | {v} if r is not None and wide(st, r) else st - {v}
        ins = forward(f, frozenset(), tr, lambda a, b: a & b, lambda st, b, i: st)
        for e, k in sites:
            for b in f.blocks.values():
                if e not in b.ev or b.id not in ins: continue
                st = ins[b.id]
                for x in b.ev:
                    if x is e: break
                    st = tr(st, x, b)
                if any(wide(st, a) for a in e["a"]): ctx.ok("index", 1, "%s: %s" % (f.loc(e), k))
                else: ctx.violation("index", "%s|%s" % (f.display, k), f.loc(e), "%s uses an index that isn't converted to 64 bits when the array has more than 2^31 entries" % k)


def run(ctx):
    for r, d in (("product", "element counts are multiplied with element sizes in 64-bit arithmetic before the result is used as a 64-bit size, offset or address"),
                 ("narrow", "a byte quantity isn't narrowed to 32 bits"),
                 ("index", "scatters and gathers address arrays with more than 2^31 entries using 64-bit indices on backends whose indices are signed")):
        ctx.rule(r, d)
    for cfg in (["full"] if ctx.tier == "quick" else ["full", "cuda", "llvm", "debug", "metal"]):
        p = ctx.prog(cfg)
        indices(ctx, p)
        W = Width(p)
        for f in W.fns:
            seen = set()
            for e in f.events():
                for x, how in widened(W, f, e):
                    y = W.inside(f, x)
                    if y is not None and (e["l"], str(y)) not in seen:
                        seen.add((e["l"], str(y)))
                        ctx.violation("product", "%s|%s" % (f.display, estr(y, f)[:60]), f.loc(e), "'%s' is computed in 32-bit arithmetic and %s" % (estr(y, f)[:80], how))
                    elif y is None and any(W.elem(f, z) for z in walk(x) if is_expr(z)): ctx.ok("product", 1, "%s: %s" % (f.loc(e), estr(x, f)[:60]))
                for k, x in exprs(e):
                    for y in walk(x):
                        if y[0] in ("ic", "cast") and bare(y[1]) in W32:
                            z = W.bytes64(f, y[3])
                            if z is not None: ctx.violation("narrow", "%s|%s" % (f.display, estr(z, f)[:60]), f.loc(e), "the byte quantity '%s' is narrowed to 32 bits" % estr(z, f)[:80])
                        if y[0] == "bi" and y[1] == "*" and bare(y[4]) in W64 and (W.elem(f, y[2]) or W.elem(f, y[3])): ctx.ok("product", 1, "%s: %s" % (f.loc(e), estr(y, f)[:60]))
    ctx.floor("product", 20)
