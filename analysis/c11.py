"""C11: the on-disk kernel cache: typestate of the temporary file up to its atomic publication, and must-hold facts of
validation before any use of a loaded file."""
from .core import *

UNIQUE = {"getpid", "gettid", "mkstemp", "GetCurrentProcessId", "mkstemps", "mkostemp", "std::random_device::operator()"}
HDR = "CacheFileHeader"


def closure(f, e):
    """all events and locals an expression depends on (flow-insensitive, including buffers filled by calls)"""
    seen_v, seen_e, out = set(), set(), []
    work = [e]
    while work:
        x = work.pop()
        for y in walk(x):
            if y[0] == "ev" and y[1] not in seen_e:
                seen_e.add(y[1]); ev = f.evi.get(y[1])
                if ev is None: continue
                out.append(ev)
                for k in EXPR_KEYS:
                    if ev.get(k) is not None: work.append(["il", ""] + ev[k] if k == "a" else ev[k])
            elif y[0] == "v" and y[1] not in seen_v:
                seen_v.add(y[1])
                for ev in f.events():
                    if ev["k"] == "decl" and ev["v"] == y[1]: work.append(ev["init"])
                    elif ev["k"] == "asg" and strip(ev["l_"]) == y: work.append(ev["r"])
                    elif ev["k"] == "call" and (ev["a"] and strip(ev["a"][0]) == y or ev.get("obj") is not None and strip(ev["obj"]) == y):
                        if "i" in ev: work.append(["ev", ev["i"]])
                        out.append(ev)
                        work.append(["il", ""] + ev["a"])
    return out


def place(f, e, d=0):
    """object an lvalue denotes: references, inlined parameters and &x/*x are resolved"""
    e = strip(e)
    if not is_expr(e) or d > 12: return e
    if e[0] == "u" and e[1] == "*":
        x = strip(e[2])
        if x[0] == "v":
            u = f.unique_def(x[1])
            if u is not None: x = strip(u)
        if x[0] == "u" and x[1] == "&": return place(f, x[2], d + 1)
        return e
    if e[0] == "u" and e[1] == "&": return ["u", "&", place(f, e[2], d + 1)]
    if e[0] == "v":
        D = [x for x in f.defs().get(e[1], [])]
        if len(D) == 1 and D[0][0] == "decl" and D[0][2]["ty"].rstrip().endswith("&"):
            return place(f, D[0][1], d + 1)
        return e
    if e[0] == "m": return ["m", place(f, e[1], d + 1)] + e[2:]
    if e[0] == "ix": return ["ix", place(f, e[1], d + 1), e[2]]
    return e


def mentions(e, pred):
    return any(pred(x) for x in walk(e))


def fld(e, name):
    return mentions(e, lambda x: x[0] == "m" and x[2] == name and x[3] == HDR)


def calls_in(e, names):
    return mentions(e, lambda x: x[0] == "call" and isinstance(x[1], str) and x[1].split("::")[-1] in names)


def run(ctx):
    W = ctx.rule("publish", "the final name only ever appears by an atomic link/rename of a process-private temporary file that was completely written, closed and verified")
    H = ctx.rule("header", "every header field is final before the checksum is taken, the checksum covers header, source and payload, and header and payload are both written")
    V = ctx.rule("validate", "no path uses the contents of a cache file before version, sizes, source and checksum were validated and decompression succeeded")
    X = ctx.rule("no-destructive-io-error", "an I/O error does not delete an entry")
    C = ctx.rule("hit-or-compile", "a kernel enters the in-memory cache only after it was loaded successfully or compiled, and is stored under the key it was looked up with")
    for cfg in (("full",) if ctx.tier == "quick" else ("full", "llvm", "debug")):
        prog = ctx.prog(cfg)
        want = lambda f, e, t: t.file == "src/io.cpp" and "path" not in t.ret.split("::")[-1] and t.q not in ("jitc_lz4_init",)
        w0, r0 = prog.fn("jitc_kernel_write"), prog.fn("jitc_kernel_load")
        w, r = inline(prog, w0, want), inline(prog, r0, want)
        sig = writer(ctx, prog, w, W, H)
        reader(ctx, prog, r, V, X, sig)
        user(ctx, prog, C)
    ctx.floor(W, 4); ctx.floor(H, 6); ctx.floor(V, 10); ctx.floor(C, 2)
    ctx.assume("rename/hard-link creation is atomic and a successful close() of a stream implies its data reached the file system cache",
               "std::ofstream errors are sticky, so good() after close() covers all earlier writes", "the checksum function is collision-free in practice")


def hash_sig(ctx, H, prog, f, who):
    """sequence of checksum updates: ('header', nbytes) / ('source',) / ('payload',)"""
    out = []
    for e in f.events():
        if e["k"] != "call": continue
        m = (e.get("q") or "").split("::")[-1]
        if "XXH3_128bits_reset" in m: out.append(("seed", const_int(e["a"][1]) if len(e["a"]) > 1 else None))
        if "XXH3_128bits_update" not in m: continue
        ptr, n = e["a"][1], e["a"][2]
        p = place(f, f.canon(ptr))
        cn = f.canon(n)
        if is_expr(p) and p[0] == "u" and p[1] == "&": out.append(("header", const_int(cn)))
        elif fld(cn, "compressed_size"): out.append(("payload",))
        elif mentions(cn, lambda x: x[0] == "v" and x[1] in f.params) and mentions(f.canon(ptr), lambda x: x[0] == "v" and x[1] in f.params): out.append(("source",))
        else: out.append(("?", estr(f.canon(ptr), f), estr(cn, f)))
    return out


def writer(ctx, prog, f, W, H):
    streams = {}
    for e in f.events():
        if e["k"] == "decl" and "basic_ofstream" in e["ty"]:
            ev = f.evi.get(strip(e["init"])[1]) if strip(e["init"])[0] == "ev" else None
            a = ev["a"] if ev else []
            if a: streams[e["v"]] = (place(f, a[0]), ev, e)
        if e["k"] == "call" and (e.get("q") or "").endswith("::open") and e.get("obj") is not None:
            o = place(f, e["obj"])
            if o[0] == "v": streams[o[1]] = (place(f, e["a"][0]), e, e)
    pubs = []
    for e in f.events():
        if e["k"] == "call":
            m = (e.get("q") or "").split("::")[-1]
            if m in ("create_hard_link", "rename", "link", "copy_file", "copy", "create_symlink"): pubs.append((e, m))
    if not streams: raise AnalysisBroken("cache writer no longer opens a stream in " + f.display)
    if not pubs:
        ctx.violation(W, "%s|none" % f.display, f.loc(), "the cache file is not published by an atomic link or rename"); return None
    final = None
    tmp = None
    for e, m in pubs:
        ctx.ok(W, 1, "%s: publication by %s" % (f.loc(e), m))
        if m in ("copy_file", "copy", "create_symlink"):
            ctx.violation(W, "%s|%s" % (f.display, m), f.loc(e), "'%s' does not make a complete file visible atomically" % m); continue
        src, dst = place(f, e["a"][0]), place(f, e["a"][1])
        final = dst; tmp = src
    opened = {}
    for v, (p, ev, d) in streams.items():
        ctx.ok(W, 1, "%s: stream" % f.loc(d))
        opened[v] = p
        if p == final or final is not None and f.canon(p) == f.canon(final) and not mods(f, p):
            ctx.violation(W, "%s|in-place" % f.display, f.loc(d), "the cache file is written under its final name: a crash or concurrent reader sees a partial file")
    if tmp is None: return None
    vs = [v for v, p in opened.items() if p == tmp]
    if len(vs) != 1:
        ctx.violation(W, "%s|source" % f.display, f.loc(pubs[0][0]), "the published file is not the one that was written"); return None
    V = ["v", vs[0]]
    # unique temporary name
    ctx.ok(W, 1, "temporary name")
    M = mods(f, tmp)
    evs = []
    for m in M: evs += closure(f, ["il", ""] + m["a"])
    evs += closure(f, tmp)
    if not any((x.get("q") or "") in UNIQUE for x in evs if x["k"] == "call"):
        ctx.violation(W, "%s|shared-temp" % f.display, f.loc(), "the temporary file name is the same in every process: concurrent writers corrupt each other's file")
    flds = [x[0] for x in prog.rec(HDR)["fields"]]
    off = [x for x in flds if x != "checksum"]
    nonhash = None
    # typestate
    def isV(e): return e is not None and place(f, e) == V
    def root_call(ev):  # stream reached through chained calls
        o = ev.get("obj")
        while o is not None:
            o = strip(o)
            if place(f, o) == V: return True
            if o[0] == "ev" and f.evi.get(o[1], {}).get("k") == "call": o = f.evi[o[1]].get("obj") or (f.evi[o[1]]["a"] or [None])[0]
            else: return False
        return False
    bad = set()
    def report(kind, e, msg, rule=W):
        ctx.violation(rule, "%s|%s" % (f.display, kind), f.loc(e), msg)
    # state: (phase, writes, ok keys, verified, fields set, checksum taken, checksum stored)
    def step(u, e, blk, env):
        ph, wr, ok, ver, fs, taken = u
        k = e["k"]
        if k == "call":
            m = (e.get("q") or "").split("::")[-1]
            if e.get("obj") is not None and root_call(e) or m == "operator<<" and e["a"] and place(f, e["a"][0]) == V:
                if m in ("write", "put", "operator<<"):
                    kind = "?"
                    if m == "write" and len(e["a"]) == 2:
                        p = place(f, f.canon(e["a"][0])); n = f.canon(e["a"][1])
                        if fld(n, "compressed_size"): kind = "P"
                        elif p[0] == "u" and p[1] == "&":
                            kind = "H"
                            ctx.ok(H)
                            miss = [x for x in flds if x not in fs]
                            if miss: report("unset-%s" % miss[0], e, "header field '%s' is written without being set on every path" % miss[0], H)
                            if const_int(n) != prog.rec(HDR).get("size", const_int(n)): report("header-size", e, "the header is not written completely", H)
                    if wr == ("H", "P") and kind in "HP": kind = "?"
                    return [("open", (wr + (kind,))[-3:], frozenset(), False, fs, taken)]
                if m in ("close", "flush"): return [("closed", wr, frozenset(), ver and ph == "closed", fs, taken)]
                if m in ("good", "operator bool") and ph == "closed": return [(ph, wr, ok | {(("ev", e.get("i")), True)}, ver, fs, taken)]
                if m in ("fail", "operator!") and ph == "closed": return [(ph, wr, ok | {(("ev", e.get("i")), False)}, ver, fs, taken)]
            if "XXH3_128bits_update" in m and taken != 1:
                p = place(f, f.canon(e["a"][1]))
                if is_expr(p) and p[0] == "u" and p[1] == "&":
                    ctx.ok(H)
                    miss = [x for x in off if x not in fs]
                    if miss: report("early-%s" % miss[0], e, "the checksum is computed before header field '%s' is set" % miss[0], H)
                    return [(ph, wr, ok, ver, fs, 1)]
            for pe, pm in pubs:
                if e is pe:
                    ctx.ok(W)
                    if wr and wr != ("H", "P"): report("incomplete", e, "on some path the file is published without header and payload having been written exactly once in order (writes: %s)" % "".join(wr))
                    if ph != "closed": report("unclosed", e, "the file is published before it was closed: buffered data may still be missing")
                    elif not ver: report("unverified", e, "the file is published on a path where the success of writing it was not established")
        if k == "dtor" and e.get("v") == V[1]: return [("closed", wr, frozenset(), ver and ph == "closed", fs, taken)]
        if k == "asg" or k == "call" and (e.get("q") or "").endswith("::operator=") and e.get("obj") is not None:
            l = place(f, e["l_"] if k == "asg" else e["obj"])
            if is_expr(l) and l[0] == "m" and l[3] == HDR:
                ctx.ok(H)
                if l[2] != "checksum" and taken: report("late-%s" % l[2], e, "header field '%s' changes after the checksum was computed" % l[2], H)
                return [(ph, wr, ok, ver, fs | {l[2]}, taken)]
        if k in ("asg", "decl"):
            if k == "decl": v = e["v"]; x = e["init"]
            else:
                l = strip(e["l_"]); v = l[1] if l[0] == "v" else None; x = e["r"]
            if v is not None:
                if v == V[1] and k == "decl": return [("open", (), frozenset(), False, fs, taken)]
                if not (k == "asg" and e["op"] == "&="): ok = frozenset(o for o in ok if o[0] != ("v", v))    # '&=' only weakens the value
                for key, pol in facts_of(x, ok, ph): ok = ok | {(("v", v), pol)}
                return [(ph, wr, ok, ver, fs, taken)]
        return [u]
    def facts_of(x, ok, ph):
        """x is exactly (a negation / conjunction of) a recorded success test"""
        out = []
        for c, v in cond_facts(f, x, True):
            c = strip(c)
            key = ("ev", c[1]) if c[0] == "ev" else ("v", c[1]) if c[0] == "v" else None
            for o, pol in ok:
                if o == key: out.append((o, pol == v))
            # the test is part of a short-circuited condition: where this holds, it was evaluated
            ev = f.evi.get(c[1]) if c[0] == "ev" and not any(o == key for o, _ in ok) else None
            if ev and ev["k"] == "call" and ph == "closed" and ev.get("obj") is not None and root_call(ev):
                m = (ev.get("q") or "").split("::")[-1]
                if m in ("good", "operator bool"): out.append((key, v))
                elif m in ("fail", "operator!"): out.append((key, not v))
        return out
    def branch(u, facts, blk, i):
        ph, wr, ok, ver, fs, taken = u
        for c, v in facts:
            c = strip(c)
            key = ("ev", c[1]) if c[0] == "ev" else ("v", c[1]) if c[0] == "v" else None
            for o, pol in ok:
                if o == key and pol == v: ver = True
        return (ph, wr, ok, ver, fs, taken)
    paths(f, ("none", (), frozenset(), False, frozenset(), 0), step, branch)
    sig = hash_sig(ctx, H, prog, f, "writer")
    check_sig(ctx, H, prog, f, sig, len(flds))
    ver = [const_int(f.canon(e["r"])) for e in f.events() if e["k"] == "asg" and place(f, e["l_"])[0] == "m" and place(f, e["l_"])[2:4] == ["version", HDR]]
    return {"sig": sig, "final": key_of(f, final), "version": ver, "where": f.loc()}


def check_sig(ctx, H, prog, f, sig, nf):
    kinds = [s[0] for s in sig]
    for need, what in (("header", "the header"), ("source", "the kernel source"), ("payload", "the payload")):
        ctx.ok(H)
        if need not in kinds: ctx.violation(H, "%s|sum-%s" % (f.display, need), f.loc(), "the checksum does not cover %s" % what)
    rec = prog.rec(HDR)
    for s in sig:
        if s[0] == "header" and s[1] is not None:
            # packed: number of bytes before the checksum
            tot = sum(SIZES.get(x[1].replace("const ", ""), 0) for x in rec["fields"] if x[0] != "checksum")
            ctx.ok(H)
            if s[1] < tot: ctx.violation(H, "%s|sum-partial" % f.display, f.loc(), "the checksum covers only %d of %d header bytes" % (s[1], tot))


SIZES = {"uint8_t": 1, "unsigned char": 1, "uint32_t": 4, "unsigned int": 4, "uint64_t": 8, "unsigned long": 8, "uint16_t": 2, "unsigned short": 2, "int": 4, "bool": 1, "char": 1}


def key_of(f, p):
    """path expression with parameters by name"""
    c = f.canon(p)
    while is_expr(c) and c[0] == "v" and len(f.defs().get(c[1], [])) == 1 and f.defs()[c[1]][0][0] == "decl" and not mods(f, c):
        c = f.canon(f.defs()[c[1]][0][1])
    def go(x):
        if not is_expr(x): return x
        if x[0] == "v": return ["v", x[1].split(":")[0].split("~")[0]]
        return [go(y) if isinstance(y, list) else y for y in x]
    return go(c)


def mods(f, p):
    return [e for e in f.events() if e["k"] == "call" and e.get("obj") is not None and place(f, e["obj"]) == p and
            (e.get("q") or "").split("::")[-1] in ("operator+=", "concat", "append", "operator/=", "replace_filename", "replace_extension", "assign", "operator=")]


def reader(ctx, prog, f, V, X, sig):
    stream = None
    for e in f.events():
        if e["k"] == "decl" and "basic_ifstream" in e["ty"]:
            ev = f.evi.get(strip(e["init"])[1]) if strip(e["init"])[0] == "ev" else None
            if ev and ev["a"]: stream = (e["v"], ev["a"][0], e)
    if stream is None: raise AnalysisBroken("cache reader no longer opens a stream in " + f.display)
    S = ["v", stream[0]]
    ctx.ok(V)
    if sig and key_of(f, stream[1]) != sig["final"]:
        ctx.violation(V, "%s|path" % f.display, f.loc(stream[2]), "the reader opens a file under another name than the writer publishes")
    kp = [p for p, t in zip(f.params, f.ptypes) if t.replace("const ", "").startswith("Kernel") and "const" not in t]
    if not kp: raise AnalysisBroken("cache reader has no Kernel output parameter")
    sp = [p for p, t in zip(f.params, f.ptypes) if t in ("uint32_t", "unsigned int", "size_t", "unsigned long")]
    reads = [e for e in f.events() if e["k"] == "call" and (e.get("q") or "").endswith("::read") and e.get("obj") is not None and place(f, e["obj"]) == S]
    REQ = {"version": "the format version", "filesize": "the file size", "source_size": "the source size", "checksum": "the checksum", "decompress": "the decompressed size", "header-read": "reading the header", "payload-read": "reading the payload"}
    csum = hash_sig(ctx, V, prog, f, "reader")
    ctx.ok(V)
    if sig and csum != sig["sig"]:
        ctx.violation(V, "%s|sums-differ" % f.display, f.loc(), "the reader computes the checksum over different data than the writer: %s vs %s" % (csum, sig["sig"]))
    badver = []
    def kind_of_read(e):
        p = place(f, f.canon(e["a"][0]))
        return "header-read" if p[0] == "u" and p[1] == "&" else "payload-read"
    def classify(c, v):
        """(fact name, None) established by canonical condition c == v, or ('io', kind)"""
        c0 = strip(c)
        if c0[0] == "ev":
            ev = f.evi.get(c0[1])
            if ev is not None and ev["k"] == "call":
                m = (ev.get("q") or "").split("::")[-1]
                if m in ("operator!", "fail", "bad", "good", "operator bool"):
                    o = f.canon(ev["obj"]) if ev.get("obj") is not None else None
                    src = None
                    o2 = strip(ev["obj"]) if ev.get("obj") is not None else None
                    if o2 is not None and o2[0] == "ev" and f.evi.get(o2[1]) in reads: src = f.evi[o2[1]]
                    if src is not None or o2 is not None and place(f, o2) == S:
                        good = (m in ("good", "operator bool")) == v
                        return ("io", good, src)
                if "isEqual" in m:
                    a = [f.canon(x) for x in ev["a"]]
                    if v and any(fld(x, "checksum") for x in a): return ("checksum", ev)
                if "cmp" in m.lower() and any(fld(f.canon(x), "checksum") for x in ev["a"]): return ("checksum", ev) if not v else None
        cc = f.canon(c)
        if is_expr(cc) and cc[0] == "bi" and cc[1] in ("==", "!=") and v == (cc[1] == "=="):
            l, r_ = cc[2], cc[3]
            for a, b in ((l, r_), (r_, l)):
                if calls_in(a, ("XXH128_isEqual", "memcmp")) : pass
                if is_expr(strip(a)) and strip(a)[0] == "m" and strip(a)[2:4] == ["version", HDR] and const_int(b) is not None:
                    if sig and sig["version"] and const_int(b) not in sig["version"]: badver.append(const_int(b))
                    return ("version", None)
                if strip(a)[0] == "m" and strip(a)[2:4] == ["source_size", HDR] and strip(b)[0] == "v" and strip(b)[1] in sp: return ("source_size", None)
                if calls_in(a, ("file_size",)) and fld(b, "compressed_size") and mentions(b, lambda x: x[0] == "sizeof"): return ("filesize", None)
                if is_expr(strip(a)) and strip(a)[0] == "call" and "LZ4_decompress" in strip(a)[1] and fld(b, "kernel_size") and fld(b, "reloc_size"):
                    cap = f.canon(strip(a)[6])
                    ctx.ok(V)
                    if cap != f.canon(b): ctx.violation(V, "%s|capacity" % f.display, f.loc(), "the decompressed size is compared against something other than the buffer capacity")
                    return ("decompress", None)
            for a in (l, r_):
                if calls_in(a, ("memcmp",)) and fld(a, "checksum") and (const_int(l) == 0 or const_int(r_) == 0): return ("checksum", None)
        return None
    def use(u, e, what):
        ctx.ok(V, 1, "%s: %s" % (f.loc(e), what))
        miss = [k for k in REQ if k not in u[0]]
        for k in miss: ctx.violation(V, "%s|%s" % (f.display, k), f.loc(e), "the contents of a cache file are used on a path that did not validate %s" % REQ[k])
    def step(u, e, blk, env):
        facts, pend, io = u
        k = e["k"]
        if e in reads: return [(facts, kind_of_read(e), False)]
        if k == "asg":
            l = place(f, e["l_"])
            x = l
            while x[0] in ("m", "ix") or x[0] == "u" and x[1] == "*": x = strip(x[2] if x[0] == "u" else x[1])
            if x == ["v", kp[0]]: use(u, e, "output '%s'" % estr(l, f))
        if k in ("call", "ctor"):
            m = (e.get("q") or "").split("::")[-1]
            if m in ("memcpy", "memmove") and mentions(place(f, e["a"][0]), lambda x: x == ["v", kp[0]]): use(u, e, "copy to output")
            if m in ("remove", "remove_all", "unlink") and e["a"] and io and place(f, e["a"][0]) == place(f, stream[1]):
                ctx.violation(X, "%s|remove" % f.display, f.loc(e), "an entry is deleted because reading it failed: a transient I/O error would destroy a valid entry")
            if m in ("remove", "unlink"): ctx.ok(X)
        if k == "ret" or k == "decl" and e.get("retv") and False:
            c = const_int(e.get("e")) if e.get("e") is not None else None
            x = strip(e.get("e"))
            if c is None and is_expr(x) and x[0] == "v":
                c = next((val for a, val in env if a == x[1]), None)
                if c is None and x[1].startswith("ret~"): c = 0 if all(const_int(d[1]) == 0 for d in f.defs().get(x[1], [])) else None
            if c != 0: use(u, e, "success")
        return [u]
    def branch(u, facts, blk, i):
        fs, pend, io = u
        for c, v in facts:
            r = classify(c, v)
            if r is None: continue
            if r[0] == "io":
                k = kind_of_read(r[2]) if r[2] is not None else pend
                if r[1]:
                    if k: fs = fs | {k}
                    if k == pend: pend = None
                    io = False
                else: io = True
            else:
                if r[0] == "checksum" and "payload-read" not in fs: continue
                fs = fs | {r[0]}
        return (fs, pend, io)
    paths(f, (frozenset(), None, False), step, branch)
    if badver: ctx.violation(V, "%s|version" % f.display, f.loc(), "the reader accepts format version %s but the writer produces %s" % (badver[0], sig["version"]))
    # buffer capacities
    for e in reads:
        p = f.canon(e["a"][0]); n = f.canon(e["a"][1])
        pp = place(f, e["a"][0])
        for d in f.events():
            if d["k"] == "asg" and place(f, d["l_"]) == pp and calls_in(f.canon(d["r"]), ("malloc_check", "malloc")):
                a = f.canon(d["r"]); ctx.ok(V)
                size = [x for x in walk(a) if x[0] == "call" and x[1].split("::")[-1] in ("malloc_check", "malloc")][0][3]
                if not mentions(size, lambda x: strip(x) == strip(n)): ctx.violation(V, "%s|read-size" % f.display, f.loc(e), "'%s' bytes are read into a buffer of '%s' bytes" % (estr(n, f), estr(size, f)))


def user(ctx, prog, C):
    for f in prog.repo_fns():
        loads = [e for e in f.events() if e["k"] == "call" and e.get("q") == "jitc_kernel_load"]
        if not loads: continue
        writes = [e for e in f.events() if e["k"] == "call" and e.get("q") == "jitc_kernel_write"]
        ins = [e for e in f.events() if e["k"] == "call" and (e.get("q") or "").split("::")[-1] in ("emplace", "insert", "try_emplace", "operator[]") and e.get("obj") is not None and mentions(strip(e["obj"]), lambda x: x[0] == "m" and x[2] == "kernel_cache")]
        for L in loads:
            K = place(f, L["a"][-1])
            ctx.ok(C, 1, f.loc(L))
            for w in writes:
                ctx.ok(C)
                for i in range(4):
                    a, b = f.canon(L["a"][i]), f.canon(w["a"][i])
                    if a != b: ctx.violation(C, "%s|arg%d" % (f.display, i), f.loc(w), "a kernel is stored under '%s' but was looked up under '%s'" % (estr(b, f), estr(a, f)))
            def step(u, e, blk, env):
                st, ok = u
                if e is L: return [("tried", ok | {("ev", e.get("i"))})]
                if e["k"] in ("decl", "asg"):
                    v, x = (e["v"], e["init"]) if e["k"] == "decl" else ((strip(e["l_"])[1] if strip(e["l_"])[0] == "v" else None), e["r"])
                    if v is not None:
                        x = strip(x)
                        ok = ok - {("v", v)}
                        if is_expr(x) and x[0] in ("ev", "v") and (x[0], x[1]) in ok: ok = ok | {("v", v)}
                        return [(st, ok)]
                if e["k"] == "call" and e not in writes and st != "hit":
                    for i, a in enumerate(e["a"]):
                        if place(f, a) == K:
                            T = prog.targets(e)
                            if T and i < len(T[0].ptypes) and T[0].ptypes[i].endswith("&") and "const" not in T[0].ptypes[i]: return [("compiled", ok)]
                if e in writes and st not in ("compiled", "hit"):
                    ctx.violation(C, "%s|write" % f.display, f.loc(e), "a kernel is written to the disk cache before it was compiled")
                if e in ins:
                    ctx.ok(C)
                    if st in ("tried", "miss"): ctx.violation(C, "%s|insert" % f.display, f.loc(e), "on some path a kernel that was neither loaded nor compiled enters the kernel cache")
                return [u]
            def branch(u, facts, blk, i):
                st, ok = u
                for c, v in facts:
                    c = strip(c)
                    if st == "tried" and c[0] in ("ev", "v") and (c[0], c[1]) in ok: st = "hit" if v else "miss"
                return (st, ok)
            paths(f, ("none", frozenset()), step, branch)
