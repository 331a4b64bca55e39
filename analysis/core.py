"""Program model built from the extractor's facts + generic dataflow helpers.

Nothing in here knows about a particular property.  Expressions are nested lists
(see extractor/extract.cpp); events are dicts; functions are `Fn` objects."""
import hashlib, json, os, pickle, subprocess, sys, time, glob
from concurrent.futures import ThreadPoolExecutor
from collections import defaultdict

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CACHE = os.environ.get("VERIF_CACHE", BUILD)

BASE_FLAGS = ["-std=c++17", "-w", "-mf16c", "-DDRJIT_BUILD=1", "-DDRJIT_DYNAMIC_LLVM=1",
              "-DDRJIT_DYNAMIC_CUDA=1", "-DLZ4LIB_VISIBILITY=", "-I" + VERIF + "/stubs",
              "-I" + REPO, "-I" + REPO + "/include", "-I" + REPO + "/ext/lz4",
              "-isystem", "/usr/lib/llvm-18/lib/clang/18/include"]
CONFIGS = {
    # every backend at once; the Objective-C++ Metal files cannot be parsed here
    "full": ["-DNDEBUG", "-DDRJIT_ENABLE_CUDA=1", "-DDRJIT_ENABLE_OPTIX=1", "-DDRJIT_ENABLE_METAL=1"],
    "cuda": ["-DNDEBUG", "-DDRJIT_ENABLE_CUDA=1", "-DDRJIT_ENABLE_OPTIX=1"],
    "nooptix": ["-DNDEBUG", "-DDRJIT_ENABLE_CUDA=1"],
    "metal": ["-DNDEBUG", "-DDRJIT_ENABLE_METAL=1"],
    "llvm": ["-DNDEBUG"],
    "debug": ["-DDRJIT_ENABLE_CUDA=1", "-DDRJIT_ENABLE_OPTIX=1", "-DDRJIT_ENABLE_METAL=1"],
    "stdmutex": ["-DNDEBUG", "-DDRJIT_USE_STD_MUTEX=1"],
}
CUDA_ONLY = {"cuda_api", "cuda_core", "cuda_green", "cuda_tex", "cuda_eval", "cuda_ts", "cuda_scatter",
             "cuda_packet", "cuda_array", "gl_interop"}
OPTIX_ONLY = {"optix_api", "optix_coop_vec", "optix_core"}
METAL_ONLY = {"metal_eval", "metal_scatter", "metal_packet", "metal_array", "metal_coop_vec"}


class AnalysisBroken(Exception):
    """The analysis cannot answer (anchor vanished, parse failure): never a pass, never a violation."""


def sources(config):
    out = []
    for p in sorted(glob.glob(REPO + "/src/*.cpp")):
        b = os.path.basename(p)[:-4]
        if b in CUDA_ONLY and config in ("llvm", "stdmutex", "metal"): continue
        if b in OPTIX_ONLY and config in ("llvm", "stdmutex", "nooptix", "metal"): continue
        if b in METAL_ONLY and config not in ("full", "debug", "metal"): continue
        out.append(p)
    out += sorted(glob.glob(VERIF + "/witness/*.cpp"))
    return out


def _hash_tree(config):
    """digest of everything but the translation units themselves"""
    h = hashlib.sha256()
    files = []
    for d in (REPO + "/src", REPO + "/include", REPO + "/resources", REPO + "/ext/lz4", VERIF + "/stubs", VERIF + "/extractor", VERIF + "/witness"):
        for root, _, fs in os.walk(d):
            for f in fs:
                if f.endswith((".h", ".c", ".mm", ".sh", ".cuh", ".inl", ".def")) or f.endswith(".cpp") and root.startswith(VERIF + "/extractor"):
                    files.append(os.path.join(root, f))
    for f in sorted(files):
        h.update(f.replace(REPO + "/", "").encode()); h.update(b"\0")
        with open(f, "rb") as fp: h.update(fp.read())
    h.update(repr(CONFIGS[config]).replace(REPO, "R").encode()); h.update(repr(BASE_FLAGS).replace(REPO, "R").encode())
    with open(__file__, "rb") as fp: h.update(fp.read())
    return h.hexdigest()


def load(config="full"):
    """facts of every translation unit, from the cache where its source and all headers are unchanged"""
    os.makedirs(BUILD, exist_ok=True); os.makedirs(CACHE, exist_ok=True)
    base = _hash_tree(config)
    srcs = sources(config)
    pk = {}
    for p in srcs:
        h = hashlib.sha256(base.encode())
        with open(p, "rb") as fp: h.update(fp.read())
        pk[p] = os.path.join(CACHE, "tu-%s-%s-%s.pickle" % (config, os.path.basename(p)[:-4], h.hexdigest()[:20]))
    data = {}
    for p in srcs:
        if os.path.exists(pk[p]):
            try:
                with open(pk[p], "rb") as fp: data[p] = pickle.load(fp)
            except Exception: pass
    todo = sorted([p for p in srcs if p not in data], key=lambda p: -os.path.getsize(p))
    if todo:
        r = subprocess.run(["bash", VERIF + "/extractor/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise AnalysisBroken("extractor does not build:\n" + r.stdout.decode(errors="replace")[-2000:])
        import tempfile, shutil
        tmp = tempfile.mkdtemp(prefix="extract-", dir=CACHE)

        def run(p):
            out = os.path.join(tmp, os.path.basename(p) + ".json")
            cmd = [BUILD + "/extract", out, "-r", REPO + "/src/", REPO + "/include/", VERIF + "/witness/", "-f"] + BASE_FLAGS + CONFIGS[config] + ["-s", p]
            q = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=REPO)
            if q.returncode != 0:
                raise AnalysisBroken("front end failed (config %s): %s" % (config, q.stderr.decode(errors="replace")[-3000:]))
            with open(out) as fp: d = json.load(fp)
            os.unlink(out)
            for old in glob.glob(os.path.join(CACHE, "tu-%s-%s-*.pickle" % (config, os.path.basename(p)[:-4]))):
                try: os.unlink(old)
                except OSError: pass
            t = os.path.join(tmp, os.path.basename(p) + ".tmp")
            with open(t, "wb") as fp: pickle.dump(d, fp, protocol=4)
            os.replace(t, pk[p])
            return d
        try:
            with ThreadPoolExecutor(min(8, os.cpu_count() or 4)) as ex:
                for p, d in zip(todo, ex.map(run, todo)): data[p] = d
        finally: shutil.rmtree(tmp, ignore_errors=True)
    seen, facts = set(), []
    for p in srcs:
        for x in data[p]:
            k = (x["t"], x.get("key") or x["q"], x["file"], x["line"]) if x["t"] != "fn" else ("fn", x["key"])
            if k in seen: continue
            seen.add(k); facts.append(x)
    return Program(facts, [os.path.relpath(p, REPO) if p.startswith(REPO) else p for p in srcs], config)


def rel(path):
    for r in (REPO + "/", VERIF + "/"):
        if path.startswith(r): return path[len(r):]
    return path


# ---------------------------------------------------------------- expressions
def is_expr(e): return isinstance(e, list) and len(e) > 0 and isinstance(e[0], str)


def walk(e):
    """All sub-expressions of e (pre-order), not descending through ["ev", n]."""
    if not isinstance(e, list): return
    if e and isinstance(e[0], str):
        yield e
        if e[0] in ("i", "s", "f", "e", "g", "v", "ev", "b"): return
    for x in e[1:] if (e and isinstance(e[0], str)) else e:
        if isinstance(x, list):
            yield from walk(x)


def strip(e):
    """Remove casts and default-argument wrappers."""
    while isinstance(e, list) and e:
        if e[0] == "ic" or e[0] == "cast": e = e[3]
        elif e[0] == "def": e = e[1]
        elif e[0] == "il" and len(e) == 3: e = e[2]
        else: break
    return e


def const_int(e):
    e = strip(e)
    if not is_expr(e): return None
    if e[0] == "i": return e[1]
    if e[0] == "b": return e[1]
    if e[0] == "e": return e[2]
    if e[0] in ("null", "zero"): return 0
    if e[0] == "sizeof": return e[2]
    if e[0] == "u" and e[1] == "-":
        v = const_int(e[2]); return None if v is None else -v
    if e[0] == "bi":
        a, b = const_int(e[2]), const_int(e[3])
        if a is None or b is None: return None
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<<": lambda: a << b, ">>": lambda: a >> b,
                    "|": lambda: a | b, "&": lambda: a & b, "/": lambda: a // b, "%": lambda: a % b}[e[1]]()
        except (KeyError, ZeroDivisionError, ValueError): return None
    return None


def estr(e, fn=None, depth=0):
    """Readable rendering."""
    if e is None: return ""
    if not is_expr(e): return str(e)
    if depth > 8: return "…"
    k = e[0]; d = depth + 1
    if k == "i": return str(e[1])
    if k == "b": return "true" if e[1] else "false"
    if k == "s": return json.dumps(e[1][:40])
    if k == "f": return e[1]
    if k == "e": return e[1]
    if k in ("v",): return e[1].split(":")[0] or "<anon>"
    if k == "g": return e[1]
    if k == "fn": return e[2]
    if k == "mf": return estr(e[1], fn, d) + "." + e[3].split("::")[-1]
    if k == "m": return estr(e[1], fn, d) + ("->" if e[4] else ".") + e[2]
    if k == "ix": return "%s[%s]" % (estr(e[1], fn, d), estr(e[2], fn, d))
    if k == "u": return e[1] + estr(e[2], fn, d)
    if k == "bi": return "(%s %s %s)" % (estr(e[2], fn, d), e[1], estr(e[3], fn, d))
    if k == "?": return "(%s ? %s : %s)" % tuple(estr(x, fn, d) for x in e[1:4]) if len(e) > 3 else "?"
    if k in ("ic",): return estr(e[3], fn, d)
    if k == "cast": return "(%s) %s" % (e[1], estr(e[3], fn, d))
    if k == "def": return estr(e[1], fn, d)
    if k == "this": return "this"
    if k == "null": return "nullptr"
    if k == "sizeof": return "sizeof(%s)" % e[1]
    if k == "lam": return "<lambda>"
    if k == "call": return "%s(%s)" % (e[1], ", ".join(estr(x, fn, d) for x in e[2:]))
    if k == "ev":
        if fn is None: return "<call>"
        ev = fn.evi.get(e[1])
        return evstr(ev, fn, d) if ev else "<ev>"
    if k in ("il", "ctor"): return "{%s}" % ", ".join(estr(x, fn, d) for x in e[2:])
    return "<%s>" % k


def evstr(ev, fn, d=0):
    if d > 6: return "…"
    k = ev["k"]
    if k == "call":
        o = (estr(ev["obj"], fn, d + 1) + ".") if ev.get("obj") else ""
        q = ev.get("q") or estr(ev.get("ce"), fn, d + 1)
        if o: q = q.split("::")[-1]
        return "%s%s(%s)" % (o, q, ", ".join(estr(x, fn, d + 1) for x in ev["a"]))
    if k == "ctor": return "%s(%s)" % (ev["ty"].split("<")[0], ", ".join(estr(x, fn, d + 1) for x in ev["a"]))
    if k == "new": return "new " + ev["ty"]
    if k == "asg": return "%s %s %s" % (estr(ev["l_"], fn, d + 1), ev["op"], estr(ev["r"], fn, d + 1))
    if k == "inc": return ev["op"] + estr(ev["e"], fn, d + 1)
    if k == "ret": return "return " + estr(ev.get("e"), fn, d + 1)
    if k == "decl": return "%s %s = %s" % (ev["ty"], ev["v"].split(":")[0], estr(ev["init"], fn, d + 1))
    if k == "dtor": return "~" + ev.get("ty", "")
    if k in ("deref", "use"): return estr(ev["e"], fn, d + 1)
    if k == "delete": return "delete " + estr(ev["e"], fn, d + 1)
    return k


class Block:
    __slots__ = ("id", "ev", "succ", "pred", "term", "label", "noret", "fn")

    def __init__(s, d, fn):
        s.id = d["id"]; s.ev = d["ev"]; s.term = d.get("term"); s.label = d.get("label"); s.noret = d.get("noret", 0)
        s.succ = d["succ"]; s.pred = []; s.fn = fn


class Fn:
    def __init__(s, d):
        s.d = d
        s.key = d["key"]; s.q = d["q"]; s.name = d["name"]; s.file = rel(d["file"]); s.line = d["line"]; s.end = d["end"]
        s.ret = d["ret"]; s.params = [p[0] for p in d["params"]]; s.ptypes = [p[1] for p in d["params"]]
        s.noret = d.get("noret", 0); s.nothrow = d.get("nothrow", 0); s.externc = d.get("externc", 0)
        s.cls = d.get("cls"); s.parent = d.get("parent"); s.lams = d.get("lams", []); s.internal = d.get("internal", 0)
        s.entry = d["entry"]; s.exit = d["exit"]; s.ntry = d["ntry"]
        s._init()

    def _init(s):
        d = s.d
        s.blocks = {b["id"]: Block(b, s) for b in d["blocks"]}
        s.evi = {}
        for b in s.blocks.values():
            for e in b.ev:
                if "i" in e and e["k"] not in ("decl",): s.evi[e["i"]] = e
            for t in b.succ:
                if t is not None: s.blocks[t].pred.append(b.id)
        s._handlers = None
        s._defs = None

    @property
    def display(s):
        return s.q if s.q != "lambda" else "lambda at %s:%d" % (s.file, s.line)

    def loc(s, ev=None):
        if ev is not None and "file" in ev: return "%s:%d" % (ev["file"], ev["l"])
        return "%s:%d" % (s.file, ev["l"] if ev is not None and ev.get("l") else s.line)

    def events(s):
        for b in s.rpo():
            for e in s.blocks[b].ev: yield e

    def rpo(s):
        if getattr(s, "_rpo", None) is not None: return s._rpo
        seen, out = set(), []
        stack = [(s.entry, iter([t for t in s.blocks[s.entry].succ if t is not None]))]
        seen.add(s.entry)
        H = s.handlers()
        def succs(b):
            r = [t for t in s.blocks[b].succ if t is not None]
            for e in s.blocks[b].ev:
                if "try" in e: r += H.get(e["try"], [])
            return r
        stack = [(s.entry, iter(succs(s.entry)))]
        while stack:
            b, it = stack[-1]
            for t in it:
                if t not in seen:
                    seen.add(t); stack.append((t, iter(succs(t)))); break
            else:
                stack.pop(); out.append(b)
        out.reverse()
        s._rpo = out
        return out

    def handlers(s):
        """try id -> list of handler block ids"""
        if s._handlers is None:
            s._handlers = defaultdict(list)
            for b in s.blocks.values():
                if b.label and b.label[0] == "catch": s._handlers[b.label[1]].append(b.id)
        return s._handlers

    # single-definition locals -------------------------------------------------
    def defs(s):
        """local id -> list of (kind, expr, event): decl initialisers, assignments, increments, address-taken/by-ref uses"""
        if s._defs is not None: return s._defs
        D = defaultdict(list)
        # writing through a reference modifies its referent; it does not redefine the reference itself
        refs = {e["v"] for b in s.blocks.values() for e in b.ev if e["k"] == "decl" and (e.get("ty") or "").endswith("&")}
        for b in s.blocks.values():
            for e in b.ev:
                k = e["k"]
                if k == "decl": D[e["v"]].append(("decl", e["init"], e))
                elif k in ("asg", "inc") and strip(e["l_" if k == "asg" else "e"])[:1] == ["v"] and strip(e["l_" if k == "asg" else "e"])[1] in refs: continue
                elif k == "asg":
                    l = strip(e["l_"])
                    if l[0] == "v": D[l[1]].append(("asg", e["r"] if e["op"] == "=" else None, e))
                elif k == "inc":
                    l = strip(e["e"])
                    if l[0] == "v": D[l[1]].append(("inc", None, e))
        s._defs = D
        return D

    def address_taken(s):
        if getattr(s, "_addr", None) is not None: return s._addr
        A = set()
        for b in s.blocks.values():
            for e in b.ev:
                for key in ("a", "init", "r", "e", "obj", "l_"):
                    x = e.get(key)
                    if x is None: continue
                    for y in walk(x if key != "a" else ["il", ""] + x):
                        if y[0] == "u" and y[1] == "&":
                            z = strip(y[2])
                            if z[0] == "v": A.add(z[1])
                        if y[0] == "lam":
                            for c in y[2]:
                                if c[1]: A.add(c[0])
        s._addr = A
        return A

    def unique_def(s, vid):
        if vid in s.params: return None
        D = s.defs().get(vid, [])
        if len(D) == 1 and D[0][0] == "decl" and vid not in s.address_taken() and "bind" not in D[0][2]: return D[0][1]
        return None

    def canon(s, e, depth=0):
        """Expand single-definition locals and nested calls into one tree; strip casts."""
        e = strip(e)
        if not is_expr(e) or depth > 12: return e
        k = e[0]
        if k == "v":
            u = s.unique_def(e[1])
            if u is not None: return s.canon(u, depth + 1)
            return e
        if k == "ev":
            ev = s.evi.get(e[1])
            if ev is None: return e
            if ev["k"] == "call":
                return ["call", ev.get("q") or "?", s.canon(ev["obj"], depth + 1) if ev.get("obj") else None] + [s.canon(a, depth + 1) for a in ev["a"]]
            if ev["k"] == "ctor":
                if (ev.get("copy") or ev.get("move")) and len(ev["a"]) == 1: return s.canon(ev["a"][0], depth + 1)
                return ["ctor", ev["ty"]] + [s.canon(a, depth + 1) for a in ev["a"]]
            if ev["k"] == "asg": return s.canon(ev["l_"], depth + 1)
            if ev["k"] == "inc": return ["inc", ev["op"], s.canon(ev["e"], depth + 1)]
            return e
        if k in ("i", "s", "f", "e", "g", "fn", "b", "this", "null", "lam", "sizeof", "zero"): return e
        return [k] + [s.canon(x, depth + 1) if is_expr(x) else x for x in e[1:]]

    def deep_events(s, e, out=None):
        """Event dicts nested in expression e (transitively)."""
        if out is None: out = []
        for x in walk(e):
            if x[0] == "ev":
                ev = s.evi.get(x[1])
                if ev is not None and ev not in out:
                    out.append(ev)
                    for key in ("a", "obj", "r", "l_", "e", "init"):
                        y = ev.get(key)
                        if y is not None: s.deep_events(["il", ""] + y if key == "a" else y, out)
        return out


class Program:
    def __init__(s, facts, srcs, config):
        s.srcs = srcs; s.config = config
        s.fns = {}; s.decls = []; s.recs = {}; s.enums = {}; s.vars = {}; s.allvars = []
        for f in facts:
            t = f["t"]
            if t == "fn": s.fns[f["key"]] = Fn(f)
            elif t == "decl": f["file"] = rel(f["file"]); s.decls.append(f)
            elif t == "rec": f["file"] = rel(f["file"]); s.recs[f["key"]] = f
            elif t == "enum": f["file"] = rel(f["file"]); s.enums[f["q"]] = f
            elif t == "var":
                f["file"] = rel(f["file"]); s.allvars.append(f)
                old = s.vars.get(f["q"])
                if old is None or old.get("extern"): s.vars[f["q"]] = f
        s.by_q = defaultdict(list)
        for f in s.fns.values(): s.by_q[f.q].append(f)
        s.overriders = defaultdict(set)
        for f in s.fns.values():
            for o in f.d.get("over", []): s.overriders[o].add(f.key)
        for r in s.recs.values():
            for m in r["methods"]:
                for o in m.get("over", []): s.overriders[o].add(m["key"])
        s._callers = None

    def fn(s, q, required=True, file=None, nparams=None):
        c = [f for f in s.by_q.get(q, []) if (file is None or f.file == file) and (nparams is None or len(f.params) == nparams)]
        if not c:
            if required: raise AnalysisBroken("anchor function '%s' not found in config %s" % (q, s.config))
            return None
        return c[0]

    def all_overriders(s, key):
        out, work = set(), [key]
        while work:
            k = work.pop()
            for o in s.overriders.get(k, ()):
                if o not in out: out.add(o); work.append(o)
        return out

    def targets(s, ev):
        """Repo functions an event may invoke directly."""
        k = ev.get("fn")
        if k is None: return []
        ks = [k]
        if ev.get("virt"): ks += list(s.all_overriders(k))
        return [s.fns[x] for x in ks if x in s.fns]

    def callers(s):
        if s._callers is None:
            s._callers = defaultdict(list)
            for f in s.fns.values():
                for b in f.blocks.values():
                    for e in b.ev:
                        for t in s.targets(e): s._callers[t.key].append((f, e))
        return s._callers

    def in_repo(s, f): return f.file.startswith(("src/", "include/"))

    def repo_fns(s, prefix=("src/",)):
        return [f for f in s.fns.values() if f.file.startswith(prefix)]

    def enum(s, q):
        e = s.enums.get(q)
        if e is None: raise AnalysisBroken("enumeration '%s' not found" % q)
        return e

    def rec(s, q):
        for r in s.recs.values():
            if r["q"] == q: return r
        raise AnalysisBroken("record '%s' not found" % q)


# ---------------------------------------------------------------- dataflow
def forward(fn, init, transfer, join, edge=None, exc=None, start=None):
    """Worklist forward analysis.  transfer(state, ev, block) -> state or None (dead).
    edge(state, block, succ_index) -> state or None.  exc(state, ev): state propagated to handlers
    for calls/throws inside try bodies (default: state before the event).  Returns {block: in-state}."""
    ins = {}
    order = {b: i for i, b in enumerate(fn.rpo())}
    import heapq
    start = fn.entry if start is None else start
    ins[start] = init
    heap = [(order.get(start, 0), start)]; inq = {start}
    H = fn.handlers()

    def push(t, st):
        if t in ins:
            n = join(ins[t], st)
            if n == ins[t]: return
            ins[t] = n
        else: ins[t] = st
        if t not in inq: inq.add(t); heapq.heappush(heap, (order.get(t, 1 << 30), t))
    n = 0
    while heap:
        _, b = heapq.heappop(heap); inq.discard(b)
        n += 1
        if n > 200000: raise AnalysisBroken("dataflow did not converge in " + fn.display)
        st = ins[b]; blk = fn.blocks[b]
        for e in blk.ev:
            if "try" in e and e["k"] in ("call", "throw", "ctor", "new"):
                if not e.get("nothrow"):
                    for h in H.get(e["try"], []): push(h, exc(st, e) if exc else st)
            st = transfer(st, e, blk)
            if st is None: break
        if st is None: continue
        for i, t in enumerate(blk.succ):
            if t is None: continue
            s2 = edge(st, blk, i) if edge else st
            if s2 is not None: push(t, s2)
    return ins


def dead_end(fn, blk):
    """Block that leaves the function abnormally (noreturn call or throw)."""
    return blk.noret or any(e["k"] == "throw" or e.get("noret") for e in blk.ev)


def cond_facts(fn, cond, value):
    """Atomic facts implied by `cond` evaluating to `value`: list of (expr, bool)."""
    c = strip(cond)
    out = []
    def go(c, v):
        c = strip(c)
        if not is_expr(c): return
        if c[0] == "ev":
            ev = fn.evi.get(c[1])
            if ev is not None and ev["k"] == "call" and ev.get("q") == "__builtin_expect": return go(ev["a"][0], v)
        if c[0] == "u" and c[1] == "!": return go(c[2], not v)
        if c[0] == "bi" and c[1] == "&&" and v: go(c[2], True); go(c[3], True); return
        if c[0] == "bi" and c[1] == "||" and not v: go(c[2], False); go(c[3], False); return
        out.append((c, v))
    go(c, value)
    return out


def edge_facts(fn, blk, i):
    """Facts on the i-th outgoing edge of blk (two-way branches only)."""
    t = blk.term
    if not t or t[1] is None or len(blk.succ) != 2 or t[0] in ("switch", "try", "goto", "tempdtor"): return []
    cond = t[1]
    # the condition of a short-circuit operator block is its own left operand
    out = cond_facts(fn, cond, i == 0)
    c, v = strip(cond), i == 0
    while is_expr(c) and c[0] == "u" and c[1] == "!": c, v = strip(c[2]), not v
    if t[0] not in ("||", "&&") and is_expr(c) and c[0] == "bi" and c[1] in ("&&", "||") and blk.pred and \
       all(fn.blocks[p].term and fn.blocks[p].term[0] in ("||", "&&") for p in blk.pred):
        # the block that ends in `if (A op B)` is entered only when B decides
        def last(c, v):
            c = strip(c)
            while is_expr(c) and c[0] == "u" and c[1] == "!": c, v = strip(c[2]), not v
            if is_expr(c) and c[0] == "bi" and c[1] in ("&&", "||"): last(c[3], v)
            else:
                for x in cond_facts(fn, c, v):
                    if x not in out: out.append(x)
        last(c, v)
    return out


def normal_exits(fn):
    """Blocks from which the function returns normally."""
    return [b for b in fn.rpo() if fn.exit in fn.blocks[b].succ and not dead_end(fn, fn.blocks[b])]


def paths(fn, init, step, branch=None, exc=None, start=None, limit=400, track=True):
    """Disjunctive forward analysis: a state is a set of (user state, constants of scalar locals).
    step(u, ev, blk, env) -> list of user states (env: set of (local, constant)); branch(u, facts, blk, i) -> user state or None (infeasible);
    exc(u, ev) -> user state handed to handlers.  Branches contradicting known constants are pruned.
    Returns ({block: frozenset of (u, env)} at block entry, user states at normal exits, transfer)."""
    AT = fn.address_taken() if track else set()
    def val(env, e):
        e = strip(e)
        if not is_expr(e): return None
        c = const_int(e)
        if c is not None: return c
        if e[0] == "v":
            for k, v in env:
                if k == e[1]: return v
            return None
        if e[0] == "u" and e[1] == "!":
            x = val(env, e[2]); return None if x is None else int(not x)
        if e[0] == "bi" and e[1] in ("==", "!=", "<", ">", "<=", ">="):
            x, y = val(env, e[2]), val(env, e[3])
            if x is None or y is None: return None
            return int({"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[e[1]])
        if e[0] == "bi" and e[1] in ("&&", "||"):
            x, y = val(env, e[2]), val(env, e[3])
            if e[1] == "&&":
                if x == 0 or y == 0: return 0
                return 1 if x and y else None
            if x or y: return 1
            return 0 if x == 0 and y == 0 else None
        if e[0] == "ev":
            ev = fn.evi.get(e[1])
            if ev is not None and ev["k"] == "call" and ev.get("q") == "__builtin_expect": return val(env, ev["a"][0])
        return None
    def setenv(env, v, c):
        env = frozenset(x for x in env if x[0] != v)
        if c is not None and len(env) < 8: env = env | {(v, c)}
        return env
    def tr(st, e, blk):
        out = set()
        for u, env in st:
            for n in step(u, e, blk, env):
                ev2 = env
                if track:
                    if e["k"] == "decl":
                        if e["v"] not in AT: ev2 = setenv(env, e["v"], val(env, e["init"]))
                    elif e["k"] == "asg":
                        l = strip(e["l_"])
                        if l[0] == "v" and l[1] not in AT: ev2 = setenv(env, l[1], val(env, e["r"]) if e["op"] == "=" else None)
                    elif e["k"] == "inc":
                        l = strip(e["e"])
                        if l[0] == "v": ev2 = setenv(env, l[1], None)
                    elif e["k"] in ("call", "ctor"):
                        for a in e["a"]:
                            a = strip(a)
                            if is_expr(a) and a[0] == "v" and any(k == a[1] for k, _ in env) and e.get("q") != "__builtin_expect": ev2 = setenv(ev2, a[1], None)  # possibly by reference
                out.add((n, ev2))
        if len(out) > limit: out = {(u, frozenset()) for u, _ in out}
        if e["k"] == "throw" or e.get("noret"): return None
        return frozenset(out) or None
    def edge(st, blk, i):
        t = blk.term
        two = t and t[1] is not None and len(blk.succ) == 2 and t[0] not in ("switch", "try", "goto", "tempdtor")
        facts = edge_facts(fn, blk, i) if two else []
        out = set()
        for u, env in st:
            if two:
                bad = False
                for c, v in facts:
                    x = val(env, c)
                    if x is not None and bool(x) != v: bad = True; break
                if bad: continue
                for c, v in facts:  # learn constants
                    c = strip(c)
                    if c[0] == "v" and not v and c[1] not in AT: env = setenv(env, c[1], 0)
                    elif c[0] == "bi" and c[1] in ("==", "!=") and (c[1] == "==") == v and strip(c[2])[0] == "v" and const_int(c[3]) is not None and strip(c[2])[1] not in AT:
                        env = setenv(env, strip(c[2])[1], const_int(c[3]))
            n = branch(u, facts, blk, i) if branch else u
            if n is not None: out.add((n, env))
        return frozenset(out) or None
    ins = forward(fn, frozenset([(init, frozenset())]), tr, lambda a, b: a | b, edge,
                  (lambda st, e: frozenset((exc(u, e), env) for u, env in st)) if exc else None, start)
    # states in which the function returns normally
    return ins, {u for u, _ in ins.get(fn.exit, ())}, tr


# ---------------------------------------------------------------- inlining
def _remap(e, ren, evoff, retmap):
    if not isinstance(e, list) or not e: return e
    if isinstance(e[0], str):
        k = e[0]
        if k == "v": return ["v", ren.get(e[1], e[1])]
        if k == "ev":
            n = e[1] + evoff
            return retmap.get(n, ["ev", n])
        if k in ("i", "s", "f", "e", "g", "fn", "b", "this", "null", "sizeof", "zero"):
            if k == "this" and "this" in ren: return ren["this"]
            return e
        if k == "lam":
            return ["lam", e[1], [[ren.get(c[0], c[0])] + c[1:3] + ([_remap(c[3], ren, evoff, retmap)] if len(c) > 3 else []) for c in e[2]]]
        return [k] + [_remap(x, ren, evoff, retmap) if isinstance(x, list) else x for x in e[1:]]
    return [_remap(x, ren, evoff, retmap) if isinstance(x, list) else x for x in e]


EXPR_KEYS = ("a", "init", "r", "e", "obj", "l_", "ce", "n")


def _remap_ev(e, ren, evoff, retmap, tryoff, file=None):
    n = dict(e)
    for k in EXPR_KEYS:
        if k in n and n[k] is not None: n[k] = _remap(n[k], ren, evoff, retmap)
    if "v" in n: n["v"] = ren.get(n["v"], n["v"])
    if "bind" in n: n["bind"] = [ren.get(x, x) for x in n["bind"]]
    if "i" in n: n["i"] += evoff
    if "try" in n: n["try"] += tryoff
    if file and "file" not in n: n["file"] = file
    return n


def inline(prog, fn, want, depth=4, maxblocks=4000, _stack=()):
    """Return a new Fn in which calls `ev` with want(fn, ev, target) are replaced by the callee's body.
    Parameters become declarations initialised with the argument; the call's value becomes a
    synthetic local.  Virtual calls are only inlined when they resolve to one target."""
    f = Fn.__new__(Fn)
    f.__dict__.update({k: v for k, v in fn.__dict__.items()})
    f._rpo = None; f._handlers = None; f._defs = None; f._addr = None
    blocks = {}
    state = {"nb": max(fn.blocks) + 1, "ne": max(fn.evi, default=-1) + 1, "ni": 0, "nt": fn.ntry}
    f.evi = {}
    f.inlined = []
    f.extra_lams = list(fn.lams)
    # `work` holds raw (id, events, succ, term, label, noret, depth, stack)
    class B: pass
    def mk(id, ev, succ, term, label, noret):
        b = Block({"id": id, "ev": ev, "succ": succ, "term": term, "label": label, "noret": noret}, f); blocks[id] = b; return b
    queue = []
    for b in fn.blocks.values():
        mk(b.id, list(b.ev), list(b.succ), b.term, b.label, b.noret)
        queue.append((b.id, depth, (fn.key,) + tuple(_stack)))
    retmap = {}
    while queue:
        bid, dep, stack = queue.pop()
        blk = blocks[bid]
        if dep <= 0: continue
        i = 0
        while i < len(blk.ev):
            e = blk.ev[i]
            if e["k"] in ("call", "ctor") or (e["k"] == "dtor"):
                T = prog.targets(e)
                if len(T) == 1 and T[0].key not in stack and len(blocks) < maxblocks and want(f, e, T[0]) and (e["k"] != "dtor"):
                    t = T[0]
                    state["ni"] += 1
                    tag = "~%d" % state["ni"]
                    evoff = state["ne"]; state["ne"] += max(t.evi, default=-1) + 1
                    tryoff = state["nt"]; state["nt"] += t.ntry
                    boff = state["nb"]; state["nb"] += max(t.blocks) + 1
                    lam = t.q == "lambda"
                    ren = {}
                    own = set(t.params)
                    for tb in t.blocks.values():
                        for te in tb.ev:
                            if te["k"] == "decl": own.add(te["v"]); own.update(te.get("bind", []))
                            if te["k"] == "dtor" and "v" in te: own.add(te["v"])
                    for v in own: ren[v] = v + tag
                    if e.get("obj") is not None and t.cls and not lam:
                        o = e["obj"]; ren["this"] = o if e.get("arrow") else ["u", "&", o]
                    pre = []
                    for pi, p in enumerate(t.params):
                        arg = e["a"][pi] if pi < len(e["a"]) else ["x", "missing"]
                        pre.append({"k": "decl", "l": e["l"], "v": ren[p], "ty": t.ptypes[pi], "init": arg, "param": 1, "file": e.get("file", fn.file)})
                    rid = "ret" + tag
                    if "try" in e:
                        for x in pre: x["try"] = e["try"]
                    # split
                    cont = state["nb"]; state["nb"] += 1
                    rest = blk.ev[i + 1:]
                    mk(cont, rest, list(blk.succ), blk.term, None, blk.noret)
                    queue.append((cont, dep, stack))
                    mark = {"k": "inl", "l": e["l"], "q": t.q, "call": e, "file": e.get("file", fn.file)}
                    blk.ev = blk.ev[:i] + pre + [mark]
                    blk.succ = [t.entry + boff]; blk.term = None; blk.noret = 0
                    for tb in t.blocks.values():
                        nev = []
                        for te in tb.ev:
                            ne = _remap_ev(te, ren, evoff, {}, tryoff, t.file)
                            if "try" not in ne and "try" in e: ne["try"] = e["try"]
                            if ne["k"] == "ret":
                                ne = {"k": "decl" if ne.get("e") is not None else "iret", "l": ne["l"], "v": rid, "ty": t.ret, "init": ne.get("e"), "retv": 1, "file": t.file, **({"try": ne["try"]} if "try" in ne else {})}
                            nev.append(ne)
                        term = tb.term
                        if term: term = [term[0], _remap(term[1], ren, evoff, {}) if term[1] else None] + term[2:3] + ([term[3] + tryoff] if len(term) > 3 else [])
                        lab = tb.label
                        if lab and lab[0] == "catch": lab = [lab[0], lab[1] + tryoff] + lab[2:]
                        succ = [None if x is None else x + boff for x in tb.succ]
                        if tb.id == t.exit:
                            succ = [cont]
                        nb = mk(tb.id + boff, nev, succ, term, lab, tb.noret)
                        if tb.noret or any(x["k"] == "throw" for x in tb.ev):
                            # abnormal exits must not continue after the call
                            nb.succ = [s_ for s_ in succ if s_ is not None and s_ != t.exit + boff]
                        queue.append((tb.id + boff, dep - 1, stack + (t.key,)))
                    # value of the call
                    if "i" in e and e["k"] == "call": retmap[e["i"]] = ["v", rid]
                    f.inlined.append(t.q)
                    f.extra_lams += t.lams
                    break
            i += 1
    # apply return-value substitution everywhere
    if retmap:
        for b in blocks.values():
            b.ev = [_remap_ev(e, {}, 0, retmap, 0) for e in b.ev]
            if b.term and b.term[1] is not None: b.term = [b.term[0], _remap(b.term[1], {}, 0, retmap)] + b.term[2:]
    f.blocks = blocks
    for b in blocks.values():
        b.pred = []
    for b in blocks.values():
        for e in b.ev:
            if "i" in e and e["k"] != "decl": f.evi[e["i"]] = e
        for t in b.succ:
            if t is not None: blocks[t].pred.append(b.id)
    f.ntry = state["nt"]
    f.lams = f.extra_lams
    return f
