"""C12: keys of caches and lookup tables cover everything that determines the cached entry; hashes depend only on what the
comparison compares."""
from .core import *
from .c11 import place, mentions, calls_in, closure


def chain(e):
    """['this'|param id, field, ...] of a member chain, or None"""
    e = strip(e); out = []
    while is_expr(e):
        if e[0] == "m": out.append(e[2]); e = strip(e[1])
        elif e[0] == "ix": e = strip(e[1])
        elif e[0] == "u" and e[1] in ("*", "&"): e = strip(e[2])
        elif e[0] == "this": return ["this"] + out[::-1]
        elif e[0] == "v": return [e[1]] + out[::-1]
        else: return None
    return None


def base(t): return t.replace("const ", "").replace("&", "").strip()


def run(ctx):
    E = ctx.rule("equality-complete", "every component of a key takes part in its comparison")
    H = ctx.rule("hash-consistent", "the hash depends only on components that the comparison compares, in the way it compares them")
    K = ctx.rule("key-construction", "every component of a key is initialized, each from its own source, and packed components do not overlap")
    M = ctx.rule("memo", "a memoized result is reused only for the same arguments and dropped when its input changes or dies")
    P = ctx.rule("cached-text", "generated code is shared under a hash of exactly that code or under an identifier used for nothing else")
    for cfg in (("full",) if ctx.tier == "quick" else ("full", "llvm", "debug")):
        prog = ctx.prog(cfg)
        recs = {r["q"]: r for r in prog.recs.values()}
        comps = {}
        for f in prog.repo_fns():
            n = f.q.split("::")[-1]
            A = None
            if n in ("operator==", "operator<", "operator!="):
                if len(f.params) == 1 and f.cls and base(f.ptypes[0]) == f.cls: A = (f.cls, "this", f.params[0])
                elif len(f.params) == 2 and not f.cls and base(f.ptypes[0]) == base(f.ptypes[1]): A = (base(f.ptypes[0]), f.params[0], f.params[1])
            elif n == "operator()" and f.cls and len(f.params) == 2 and base(f.ptypes[0]) == base(f.ptypes[1]) and base(f.ptypes[0]) in recs and f.ret in ("bool", "unsigned long", "int"):
                A = (base(f.ptypes[0]), f.params[0], f.params[1])
            if A is None or A[0] not in recs or not recs[A[0]]["fields"] or A[0].startswith("drjit::"): continue
            if n == "operator!=": continue
            comps.setdefault(A[0], []).append(compare(ctx, E, prog, f, recs, *A))
        for f in prog.repo_fns():
            if f.q.split("::")[-1] == "operator()" and f.cls and len(f.params) == 1 and f.ret == "unsigned long" and base(f.ptypes[0]) in recs:
                hasher(ctx, H, prog, f, recs[base(f.ptypes[0])], comps.get(base(f.ptypes[0]), []), recs)
        for q in comps:
            for f in prog.repo_fns():
                if f.q == q + "::" + q.split("::")[-1] and not (len(f.params) == 1 and base(f.ptypes[0]) == q): construct(ctx, K, prog, f, recs[q])
        packing(ctx, K, prog)
        diskname(ctx, K, prog)
        memo(ctx, M, prog)
        shared_text(ctx, P, prog)
    ctx.floor(E, 8); ctx.floor(H, 6); ctx.floor(K, 10); ctx.floor(M, 4); ctx.floor(P, 3)
    ctx.assume("hash values of 128 bits identify the hashed text")


def leaves(rec, recs):
    """[(field, subfields or None)] of a record"""
    out = []
    for fl in rec["fields"]:
        t = base(fl[1])
        sub = recs.get(t)
        if "XXH128" in t: out.append((fl[0], ["low64", "high64"])); continue   # header outside the analysed tree
        out.append((fl[0], [x[0] for x in sub["fields"]] if sub and sub["fields"] and not t.startswith("std::") else None))
    return out


def compare(ctx, E, prog, f, recs, q, a, b):
    """returns {'fields': set, 'content': set of fields compared by pointed-to text, 'all': raw comparison}"""
    rec = recs[q]
    info = {"fields": set(), "content": set(), "fn": f}
    n = f.q.split("::")[-1]
    def pair(x, y):
        """field compared by (x, y)"""
        cx, cy = chain(f.canon(x)), chain(f.canon(y))
        if cx and cy and cx[1:] == cy[1:] and {cx[0], cy[0]} == {a, b} and cx[1:]: return ".".join(cx[1:])
        return None
    def equalities(c, v):
        """fields known equal when c == v"""
        c = strip(c)
        out = set()
        if c[0] == "v":
            d = f.unique_def(c[1])
            if d is not None:
                for c2, v2 in cond_facts(f, d, v):
                    if strip(c2) != c: out |= equalities(c2, v2)
            return out
        if c[0] == "ev":
            ev = f.evi.get(c[1])
            if ev is not None and ev["k"] == "call":
                m = (ev.get("q") or "").split("::")[-1]
                args = ([ev["obj"]] if ev.get("obj") is not None else []) + ev["a"]
                if ("isEqual" in m or m in ("operator==", "equal")) and v and len(args) >= 2:
                    r = pair(args[0], args[1] if m != "equal" else args[2])
                    if r: out.add(r)
                    tl = [strip(x) for x in args]
                    if all(x[0] == "ev" and (f.evi[x[1]].get("q") or "").endswith("tie") for x in tl[:2]):
                        for x, y in zip(f.evi[tl[0][1]]["a"], f.evi[tl[1][1]]["a"]):
                            r = pair(x, y)
                            if r: out.add(r)
                if m == "operator!=" and not v and len(args) == 2:
                    r = pair(*args)
                    if r: out.add(r)
                if m in ("memcmp", "strcmp") and not v: out |= blob(ev)
        elif c[0] == "bi" and c[1] in ("==", "!=") and v == (c[1] == "=="):
            r = pair(c[2], c[3])
            if r: out.add(r)
            for x, y in ((c[2], c[3]), (c[3], c[2])):
                x = strip(x)
                if const_int(y) == 0 and x[0] == "ev" and (f.evi[x[1]].get("q") or "").split("::")[-1] in ("memcmp", "strcmp"): out |= blob(f.evi[x[1]])
        return out
    def blob(ev):
        m = ev["q"].split("::")[-1]
        if m == "strcmp":
            r = pair(ev["a"][0], ev["a"][1])
            if r: info["content"].add(r); return {r}
            return set()
        x, y = f.canon(ev["a"][0]), f.canon(ev["a"][1]); n = const_int(ev["a"][2])
        if x[0] == "u" and x[1] == "&": x = x[2]
        if y[0] == "u" and y[1] == "&": y = y[2]
        cx, cy = chain(x), chain(y)
        if cx and cy and {cx[0], cy[0]} == {a, b}:
            if cx[1:] == cy[1:] == []:
                if n is not None and n >= rec["size"]: return {x[0] for x in rec["fields"]}
                # prefix of the record
                off, cov = 0, set()
                for fl in rec["fields"]:
                    off += {"unsigned int": 4, "unsigned long": 8, "int": 4}.get(fl[1], 4 * int(fl[1].split("[")[1][:-1]) if "[" in fl[1] else 8)
                    if n is not None and off <= n: cov.add(fl[0])
                return cov
            if cx[1:] == cy[1:]: return {".".join(cx[1:])}
        return set()
    if n == "operator==" or n == "operator()" and f.ret == "bool" and not any((e.get("q") or "").split("::")[-1] == "operator<" or e["k"] == "ret" and strip(e["e"])[0] == "bi" and strip(e["e"])[1] in ("<", ">") for e in f.events()):
        res = []
        # element-wise comparison of an array inside a loop counts as comparing the array
        loops = set()
        for bl in f.blocks.values():
            for i in (0, 1):
                if len(bl.succ) == 2:
                    for c, v in edge_facts(f, bl, i):
                        for y in walk(f.canon(c)):
                            if y[0] == "ix": loops |= equalities(c, v)
        def step(u, e, blk, env):
            if e["k"] == "ret":
                s = set(u)
                if const_int(e["e"]) == 0: return [u]
                for c, v in cond_facts(f, e["e"], True): s |= equalities(c, v)
                res.append(s | loops)
            return [u]
        def branch(u, facts, blk, i):
            s = set(u)
            for c, v in facts: s |= equalities(c, v)
            return frozenset(s)
        paths(f, frozenset(), step, branch)
        cov = set.intersection(*res) if res else set()
    else:
        sides = {a: set(), b: set()}
        for e in list(f.events()) + [{"k": "cond", "e": b.term[1]} for b in f.blocks.values() if b.term and is_expr(b.term[1])]:
            if e["k"] == "deref": continue
            for k in EXPR_KEYS:
                if e.get(k) is None: continue
                inner = set()
                for y in walk(e[k] if k != "a" else ["il", ""] + e[k]):
                    if y[0] == "m":
                        if is_expr(strip(y[1])) and strip(y[1])[0] == "m": inner.add(id(strip(y[1])))
                        if id(y) in inner: continue
                        c = chain(y)
                        if c and c[0] in sides: sides[c[0]].add(".".join(c[1:]))
        cov = sides[a] & sides[b]
        # lexicographic order: both sides tie the same components in the same order
        ties = [e for e in f.events() if (e.get("q") or "").endswith("tie")]
        if len(ties) == 2:
            l, r = [chain(f.canon(x)) for x in ties[0]["a"]], [chain(f.canon(x)) for x in ties[1]["a"]]
            ctx.ok(E)
            if [x[1:] for x in l if x] != [x[1:] for x in r if x]: ctx.violation(E, "%s|order" % f.display, f.loc(ties[1]), "the two sides of the comparison list different components: not an ordering")
    for fl, sub in leaves(rec, recs):
        ctx.ok(E, 1, "%s compares '%s'" % (f.display, fl))
        if fl in cov or sub and all(fl + "." + s in cov for s in sub): info["fields"].add(fl); continue
        ctx.violation(E, "%s|%s" % (f.display, fl), f.loc(), "component '%s' of key '%s' is %s by its comparison: entries that differ in it would be confused" % (fl, q, "only partly compared" if sub and any(fl + "." + s in cov for s in sub) else "ignored"))
    return info


def hasher(ctx, H, prog, f, rec, comps, recs):
    used, content = set(), set()
    p = f.params[0]
    for e in f.events():
        for k in EXPR_KEYS:
            if e.get(k) is None: continue
            for y in walk(e[k] if k != "a" else ["il", ""] + e[k]):
                if y[0] == "m":
                    c = chain(y)
                    if c and c[0] == p: used.add(c[1])
                if y[0] == "g" and y[1] in prog.vars and not (prog.vars[y[1]].get("const") or "const" in prog.vars[y[1]]["ty"]):
                    ctx.violation(H, "%s|%s" % (f.display, y[1]), f.loc(e), "the hash depends on the mutable global '%s'" % y[1])
        if e["k"] == "call":
            m = (e.get("q") or "").split("::")[-1]
            if m in ("hash_str", "strlen", "hash") or "string_view" in m:
                c = chain(f.canon(e["a"][0]))
                if c and c[0] == p and len(c) > 1: content.add(c[1])
            if m in ("memcpy", "hash", "XXH3_64bits") or "XXH" in m and "64" in m:
                for x in e["a"]:
                    x = f.canon(x)
                    if x == ["u", "&", ["v", p]]:
                        # raw bytes: only sound if the whole representation is compared
                        for c in comps:
                            if not any((y.get("q") or "").endswith("memcmp") for y in c["fn"].events()) and rec["size"] != sum({"unsigned int": 4, "unsigned long": 8, "int": 4}.get(z[1], 0) for z in rec["fields"]):
                                ctx.violation(H, "%s|raw" % f.display, f.loc(e), "the hash reads padding bytes that the comparison ignores")
                        used.update(x[0] for x in rec["fields"][:1])
    for c in comps:
        for fl in used:
            ctx.ok(H, 1, "%s uses '%s'" % (f.display, fl))
            if fl not in c["fields"]: ctx.violation(H, "%s|%s" % (f.display, fl), f.loc(), "the hash depends on '%s', which the comparison ignores: equal keys may hash differently" % fl)
        for fl in c["content"]:
            ctx.ok(H)
            if fl in used and fl not in content: ctx.violation(H, "%s|%s" % (f.display, fl), f.loc(), "'%s' is compared by content but hashed by address: equal keys hash differently" % fl)


def construct(ctx, K, prog, f, rec):
    """each field is initialized from its own parameter / source"""
    if len(rec["fields"]) < 2: return
    src = {}
    for e in f.events():
        if e["k"] == "minit":
            src[e.get("m")] = f.canon(e["init"])
        elif e["k"] == "asg":
            c = chain(e["l_"])
            if c and c[0] == "this" and len(c) > 1: src[c[1]] = f.canon(e["r"])
        elif e["k"] == "call" and (e.get("q") or "").split("::")[-1] == "memcpy":
            d = f.canon(e["a"][0])
            if d == ["this"]:
                n = const_int(e["a"][2]) or 0; off = 0
                for fl in rec["fields"]:
                    off += {"unsigned int": 4, "unsigned long": 8, "int": 4}.get(fl[1], 4 * int(fl[1].split("[")[1][:-1]) if "[" in fl[1] else 8)
                    if off <= n: src[fl[0]] = ["memcpy", fl[0]]
    seen = {}
    for fl in rec["fields"]:
        ctx.ok(K, 1, "%s initializes '%s'" % (f.display, fl[0]))
        s = src.get(fl[0])
        ps = {x[1] for x in walk(s) if x[0] == "v" and x[1] in f.params} if s is not None else set()
        if s is None or s[0] != "memcpy" and not ps and const_int(s) is not None or const_int(s) is not None and s[0] != "memcpy":
            ctx.violation(K, "%s|%s" % (f.display, fl[0]), f.loc(), "key component '%s' is not set from the arguments: different requests get equal keys" % fl[0]); continue
        k = repr(s)
        if k in seen: ctx.violation(K, "%s|%s" % (f.display, fl[0]), f.loc(), "key components '%s' and '%s' are initialized from the same argument" % (seen[k], fl[0]))
        seen[k] = fl[0]


def shifts(f, e):
    """[(operand, shift, mask)] of an or/plus chain"""
    e = f.canon(e); out = []
    def go(e):
        e = strip(e)
        if e[0] == "bi" and e[1] in ("|", "+"): go(e[2]); go(e[3]); return
        m = None
        if e[0] == "bi" and e[1] == "<<" and const_int(e[3]) is not None:
            x, s = strip(e[2]), const_int(e[3])
        else: x, s = e, 0
        if x[0] == "bi" and x[1] == "&" and const_int(x[3]) is not None: m = const_int(x[3]); x = strip(x[2])
        out.append((x, s, m))
    go(e)
    return out


def packing(ctx, K, prog):
    enc, dec = prog.fn("alloc_info_encode"), prog.fn("alloc_info_decode")
    r = [e for e in enc.events() if e["k"] == "ret"]
    es = {}
    for x, s, m in shifts(enc, r[0]["e"]):
        vs = [y[1] for y in walk(x) if y[0] == "v" and y[1] in enc.params]
        if len(vs) == 1: es[base(enc.ptypes[enc.params.index(vs[0])])] = s
    for p, t in zip(enc.params, enc.ptypes):
        ctx.ok(K, 1, "alloc_info_encode packs '%s'" % p.split(":")[0])
        if base(t) not in es: ctx.violation(K, "alloc_info_encode|%s" % p.split(":")[0], enc.loc(), "'%s' is not part of the packed allocation descriptor" % p.split(":")[0])
    r = [e for e in dec.events() if e["k"] == "ret"]
    c = dec.canon(r[0]["e"])
    args = c[3:] if c[0] == "call" else c[2:]
    raw = None
    x = strip(r[0]["e"])
    ev = dec.evi.get(x[1]) if x[0] == "ev" else None
    while ev is not None and ev["k"] == "ctor" and len(ev["a"]) == 1 and strip(ev["a"][0])[0] == "ev": ev = dec.evi[strip(ev["a"][0])[1]]
    raw = ev["a"] if ev is not None else []
    ds = {}
    for a in raw:
        t = None; y = a
        while is_expr(y) and y[0] in ("cast", "ic"):
            if t is None: t = base(y[1])
            y = y[3]
        y = strip(dec.canon(a)); s, m = 0, None
        for _ in range(2):
            if y[0] == "bi" and y[1] == "&" and const_int(y[3]) is not None: m = const_int(y[3]); y = strip(y[2])
            if y[0] == "bi" and y[1] == ">>" and const_int(y[3]) is not None: s += const_int(y[3]); y = strip(y[2])
        ds[t] = (s, m)
    order = sorted(es.items(), key=lambda x: x[1])
    for i, (t, s) in enumerate(order):
        ctx.ok(K)
        width = order[i + 1][1] - s if i + 1 < len(order) else None
        need = {"JitBackend": 2, "bool": 1, "int": 8}.get(t, 32)
        if width is not None and width < need: ctx.violation(K, "alloc_info_encode|%s|width" % t, enc.loc(), "the %s component has only %s bits before the next component starts" % (t, width))
        d = ds.get(t)
        if d is None: continue
        if d[0] != s: ctx.violation(K, "alloc_info_decode|%s" % t, dec.loc(), "the %s component is decoded at bit %d but encoded at bit %d" % (t, d[0], s))
        if width is not None and (d[1] is None or d[1] != (1 << width) - 1): ctx.violation(K, "alloc_info_decode|%s|mask" % t, dec.loc(), "the %s component is decoded with mask %s but occupies %d bits" % (t, d[1], width))
        if width is None and d[1] is not None: ctx.violation(K, "alloc_info_decode|%s|mask" % t, dec.loc(), "the topmost component is truncated by mask %s" % d[1])
    # kernel flags (OptiX pipeline options)
    for f in prog.repo_fns():
        for e in f.events():
            if e["k"] == "asg" and e["op"] == "=":
                sh = [x for x in shifts(f, e["r"]) if is_expr(x[0]) and x[0][0] == "m" and x[0][3] == "OptixPipelineCompileOptions"]
                if len(sh) < 2: continue
                W = {"numAttributeValues": 4, "numPayloadValues": 4, "usesMotionBlur": 1, "traversableGraphFlags": 16, "usesPrimitiveTypeFlags": 32}
                got = {x[0][2]: x[1] for x in sh}
                for fl in W:
                    ctx.ok(K)
                    if fl not in got: ctx.violation(K, "%s|%s" % (f.display, fl), f.loc(e), "pipeline option '%s' is not part of the kernel key" % fl)
                o = sorted(got.items(), key=lambda x: x[1])
                for (n1, s1), (n2, s2) in zip(o, o[1:]):
                    if s2 - s1 < W.get(n1, 1): ctx.violation(K, "%s|%s|width" % (f.display, n1), f.loc(e), "pipeline option '%s' has %d bits, needs %d: it overlaps '%s'" % (n1, s2 - s1, W.get(n1, 1), n2))
    # every construction of a kernel key uses the device and flags
    for f in prog.repo_fns():
        for e in f.events():
            if e["k"] == "ctor" and e["ty"].replace("const ", "") == "KernelKey" and len(e["a"]) == 3:
                ctx.ok(K)
                for i, what in ((1, "device"), (2, "flags")):
                    if const_int(f.canon(e["a"][i])) is not None and not (i == 2 and not prog.config == "full"):
                        ctx.violation(K, "%s|%s" % (f.display, what), f.loc(e), "a kernel is looked up with a constant %s" % what)


def diskname(ctx, K, prog):
    """the cache file name encodes the complete hash, backend and format version"""
    w = prog.fn("jitc_kernel_write")
    f = inline(prog, w, lambda g, e, t: t.file == "src/io.cpp" and t.q not in ("jitc_lz4_init",))
    bp = [p for p, t in zip(f.params, f.ptypes) if "JitBackend" in t]
    hp = [p for p, t in zip(f.params, f.ptypes) if "XXH128" in t]
    pubs = [e for e in f.events() if e["k"] == "call" and (e.get("q") or "").split("::")[-1] in ("create_hard_link", "rename")]
    if not pubs or not bp or not hp: return
    evs = closure(f, pubs[0]["a"][1])
    ex = []
    for e in evs:
        for k in EXPR_KEYS:
            if e.get(k) is not None: ex += list(walk(f.canon(["il", ""] + e[k] if k == "a" else e[k])))
    for word in ("high64", "low64"):
        ctx.ok(K)
        if not any(x[0] == "m" and x[2] == word for x in ex): ctx.violation(K, "cache-name|%s" % word, f.loc(), "the cache file name does not depend on the '%s' half of the kernel hash" % word)
    # backend: text chosen by a switch / comparison on it
    ctx.ok(K)
    sw = {}
    vals = {}
    for b in f.blocks.values():
        if b.label and b.label[0] in ("case", "default") and b.pred:
            p = [f.blocks[x] for x in b.pred if f.blocks[x].term and f.blocks[x].term[0] == "switch"]
            if p and mentions(f.canon(p[0].term[1]), lambda x: x[0] == "v" and x[1] in bp):
                for e in b.ev:
                    if e["k"] == "asg" and strip(e["r"])[0] == "s": vals[repr(b.label)] = strip(e["r"])[1]
    dep = any(x[0] == "v" and x[1] in bp for x in ex) or vals
    if not dep: ctx.violation(K, "cache-name|backend", f.loc(), "the cache file name does not depend on the backend")
    if len(set(vals.values())) != len(vals): ctx.violation(K, "cache-name|backend", f.loc(), "two backends share the cache file suffix %s" % sorted(vals.values()))


def memo(ctx, M, prog):
    """linear memo tables: a function that returns an element of a global vector found by comparison and otherwise appends to it"""
    tables = {}
    for f in prog.repo_fns():
        app = {}
        for e in f.events():
            if e["k"] == "call" and e.get("obj") is not None and strip(e["obj"])[0] == "g" and (e.get("q") or "").split("::")[-1] in ("push_back", "emplace_back"): app[strip(e["obj"])[1]] = e
        for g, pe in app.items():
            # returns data read from an element of the table
            for bl in f.blocks.values():
                for e in bl.ev:
                    if e["k"] != "ret" or e.get("e") is None: continue
                    c = f.canon(e["e"])
                    if not is_expr(c) or c[0] != "m": continue
                    root = [d for d in f.events() if d["k"] == "decl" and strip(c[1]) == ["v", d["v"]] or False]
                    if "vector" not in prog.vars.get(g, {}).get("ty", ""): continue
                    if any(x == ["g", g] for x in all_in(f, c)): tables[(f.key, g)] = (f, pe, e, c)
    for (k, g), (f, pe, re_, c) in tables.items():
        rec = prog.vars[g]["ty"].split("<")[1].rstrip(">").strip()
        # components of the stored record that are parameters (or derived from one only)
        want = {}
        stored = strip(pe["a"][0])
        for p, t in zip(f.params, f.ptypes): want[p] = t
        hit = []
        def step(u, e, blk, env):
            if e is re_: hit.append(u)
            return [u]
        def branch(u, facts, blk, i):
            s = set(u)
            for cc, v in facts:
                x = f.canon(cc)
                for y in vars_of(f, cc):
                    if y in f.params and eq(f, cc, v): s.add(y)
            return frozenset(s)
        paths(f, frozenset(), step, branch, track=False)
        cov = set.intersection(*[set(h) for h in hit]) if hit else set()
        EXC = {("jitc_var_call_reduce", "backend"): "an attribute of the index variable", ("jitc_var_call_reduce", "bucket_count_inout"): "only bounds the identifiers in the array; every admissible bound gives the same partition"}
        for p, t in want.items():
            n = p.split(":")[0]
            if (f.q, n) in EXC: ctx.assume("%s: parameter '%s' needs no comparison: %s" % (f.q, n, EXC[(f.q, n)])); continue
            ctx.ok(M, 1, "%s compares '%s'" % (f.display, n))
            if p not in cov: ctx.violation(M, "%s|%s" % (f.display, n), f.loc(re_), "a memoized result is returned without comparing '%s', on which it depends" % n)
        # invalidation
        erase = {h.key: h for h in prog.repo_fns() for e in h.events() if e["k"] == "call" and e.get("obj") is not None and strip(e["obj"]) == ["g", g] and (e.get("q") or "").split("::")[-1] in ("pop_back", "erase")}
        for h in prog.repo_fns():
            for e in h.events():
                w = None
                if e["k"] == "inc" and e["op"] == "++" and strip(e["e"])[0] == "m" and strip(e["e"])[2] == "ref_count_se": w = "is marked as written"
                if e["k"] == "call" and e.get("obj") is not None and strip(e["obj"])[0] == "m" and strip(e["obj"])[2] == "unused_variables" and (e.get("q") or "").split("::")[-1] in ("push", "push_back") and h.q != "jitc_shutdown": w = "is released"
                if e["k"] == "call" and e.get("q") == "jitc_poke" and any(x["k"] == "call" and x.get("q") == "jitc_var_data" for x in h.events()): w = "is written"
                if w is None: continue
                ctx.ok(M, 1, "%s: %s" % (h.loc(e), w))
                if not any(t.key in erase for x in h.events() for t in prog.targets(x)):
                    ctx.violation(M, "%s|stale|%s" % (h.display, w), h.loc(e), "a variable %s without dropping results memoized for it" % w)


def all_in(f, e, d=0):
    """expressions reachable through local definitions"""
    out = []
    for x in walk(e):
        out.append(x)
        if d < 6:
            if x[0] == "v":
                for dd in f.defs().get(x[1], []):
                    if dd[1] is not None: out += all_in(f, dd[1], d + 1)
            elif x[0] == "ev":
                ev = f.evi.get(x[1])
                if ev is not None:
                    for k in EXPR_KEYS:
                        if ev.get(k) is not None: out += all_in(f, ["il", ""] + ev[k] if k == "a" else ev[k], d + 1)
    return out


def vars_of(f, c):
    return {x[1] for x in all_in(f, c) if x[0] == "v"}


def eq(f, c, v):
    c = strip(c)
    if c[0] == "bi" and c[1] in ("==", "!="): return v == (c[1] == "==")
    if c[0] == "ev":
        ev = f.evi.get(c[1])
        m = (ev.get("q") or "").split("::")[-1] if ev else ""
        if m in ("operator==", "equal"): return v
        if m in ("strcmp", "memcmp", "operator!=", "compare"): return not v
        if ev is not None and ev["k"] == "call": return v   # a local predicate
    if c[0] == "v": return v
    return False


def shared_text(ctx, P, prog):
    for f in prog.repo_fns():
        for e in f.events():
            if e["k"] != "call" or e.get("obj") is None or (e.get("q") or "").split("::")[-1] not in ("emplace", "insert", "try_emplace"): continue
            ks = [x for x in f.deep_events(["il", ""] + e["a"]) if x["k"] == "ctor" and x["ty"].replace("const ", "") == "GlobalKey" and len(x["a"]) == 2]
            vs = [x for x in f.deep_events(["il", ""] + e["a"]) if x["k"] == "ctor" and x["ty"].replace("const ", "") == "GlobalValue" and len(x["a"]) == 2]
            if not ks or not vs: continue
            G = strip(e["obj"])
            length = f.canon(vs[0]["a"][1])
            puts = [x for x in f.events() if x["k"] == "call" and x.get("obj") is not None and (x.get("q") or "").endswith("::put") and strip(x["obj"]) == ["g", "globals"]]
            h = strip(ks[0]["a"][0])
            while h[0] == "ev" and f.evi[h[1]]["k"] == "ctor": h = strip(f.evi[h[1]]["a"][0])
            srcs = []
            if h[0] == "ev": srcs.append((f.evi[h[1]], None))
            else:
                for x in f.events():
                    if x["k"] == "asg" and (strip(x["l_"]) == h or strip(x["l_"])[0] == "m" and strip(strip(x["l_"])[1]) == h): srcs.append((None, x))
                    if x["k"] == "call" and (x.get("q") or "").endswith("operator=") and x.get("obj") is not None and strip(x["obj"]) == h:
                        a = strip(x["a"][0])
                        if a[0] == "ev": srcs.append((f.evi[a[1]], x))
                    if x["k"] == "decl" and h == ["v", x["v"]]:
                        a = strip(x["init"])
                        if a[0] == "ev": srcs.append((f.evi[a[1]], x))
            if not srcs: ctx.violation(P, "%s|source" % f.display, f.loc(e), "generated code is shared under an identifier that is never computed from it")
            for call, asg in srcs:
                ctx.ok(P, 1, "%s: identifier of shared code" % f.loc(asg or call))
                if call is not None and "XXH" in (call.get("q") or ""):
                    if f.canon(call["a"][1]) != length: ctx.violation(P, "%s|length" % f.display, f.loc(call), "only part of the generated code is hashed ('%s' of '%s' bytes)" % (estr(f.canon(call["a"][1]), f), estr(length, f)))
                    for x in puts:
                        if f.canon(x["a"][0]) != f.canon(call["a"][0]): ctx.violation(P, "%s|text" % f.display, f.loc(x), "the text stored differs from the text hashed")
                elif asg is not None and asg["k"] == "asg":
                    r = f.canon(asg["r"])
                    if const_int(r) is not None:
                        if strip(asg["l_"])[0] == "m" and any(a2 is not None and a2["k"] == "asg" and a2 is not asg and const_int(f.canon(a2["r"])) is None for _, a2 in srcs): continue
                        ctx.violation(P, "%s|constant" % f.display, f.loc(asg), "different code is shared under a constant identifier"); continue
                    if is_expr(r) and r[0] == "call" and r[1].split("::")[-1] == "size" and r[2] == G: continue
                    # a counter that advances on every path
                    if r[0] in ("g", "v"):
                        def step(u, x, blk, env):
                            if x is e: return [1]
                            if x["k"] == "inc" and f.canon(x["e"]) == r: return [2 if u == 1 else u]
                            return [u]
                        _, ex, _ = paths(f, 0, step)
                        if 1 not in ex: continue
                    ctx.violation(P, "%s|identifier" % f.display, f.loc(asg), "code is shared under '%s', which is not advanced for every piece of code: different functions get the same identifier" % estr(r, f))
                elif call is not None:
                    ctx.violation(P, "%s|nohash" % f.display, f.loc(call), "code is shared under a value that is not a hash of it")
    # hash over the kernel text reaches to its end
    f = prog.fn("hash_kernel")
    for e in f.events():
        if e["k"] == "call" and "XXH" in (e.get("q") or ""):
            ctx.ok(P)
            ptr, n = f.canon(e["a"][0]), f.canon(e["a"][1])
            sz = [p for p, t in zip(f.params, f.ptypes) if "long" in t or t == "size_t"]
            st = [p for p, t in zip(f.params, f.ptypes) if "char" in t]
            if not (n[0] == "bi" and n[1] == "-" and strip(n[2]) == ["v", sz[0]] and strip(n[3])[0] == "bi" and strip(n[3])[1] == "-" and strip(strip(n[3])[2]) == strip(ptr) and strip(strip(n[3])[3]) == ["v", st[0]]) and \
               not (n == ["v", sz[0]] and ptr == ["v", st[0]]):
                ctx.violation(P, "hash_kernel|extent", f.loc(e), "the kernel hash does not cover the text up to its end ('%s' bytes from '%s')" % (estr(n, f), estr(ptr, f)))
