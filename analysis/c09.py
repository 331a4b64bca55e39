"""C09: recorded thread-state operations: forwarding, coverage and record/replay argument agreement (dependency numbering + role
dataflow between each RecordThreadState override and the Recording method replaying it)."""
from .core import *
from .c03 import dominators
from .c11 import closure

RTS, REC, TS, OPS = "RecordThreadState", "Recording", "ThreadState", "Operation"
QUERY = {"actual_state": "query", "is_recording": "query", "flush_deferred_free": "releases memory of already executed work",
         "notify_free": "bookkeeping, checked by the mapping rule"}
# operations that may be performed without a recorded counterpart
UNRECORDED_OK = {"memcpy": "synchronous copy: reads results back to the host; writes to tracked memory must be rejected",
                 "flush_deferred_free": "not an operation"}
# replay does not issue the method that was recorded but reconstructs it
COMPOSITE = {"notify_expand": {"memset_async", "memcpy_async"}, "notify_opaque_width": set(), "notify_init_undefined": set()}
INPLACE = {"reduce_expanded": "operates in place on the expanded buffer"}
UNREC_ARG = {("reduce_expanded", "exp"): "recomputed from the size on replay", ("launch", "kernel_history_entry"): "created on replay",
             ("launch", "params"): "rebuilt from the dependencies", ("launch", "kernel_param_ids"): "only used while recording"}


def mname(q): return q.split("::")[-1]


def pushes(e, f, field):
    if e["k"] != "call" or mname(e.get("q", "")) not in ("push_back", "emplace_back"): return False
    o = f.canon(e.get("obj")) if e.get("obj") is not None else None
    return is_expr(o) and o[0] == "m" and o[2] == field


def opath(e):
    """field path below a member of Operation, e.g. ('batched_gemm','M')"""
    path = []
    while is_expr(e):
        if e[0] == "m":
            if e[2]: path.append(e[2])
            if (e[3] or "").split("::")[-1] == OPS: return tuple(reversed(path)), e[1]
            e = e[1]; continue
        if e[0] in ("cast", "ic", "paren"): e = e[-1]; continue
        return None
    return None


def op_atoms(e):
    """all Operation field paths mentioned in e (outermost paths)"""
    out = set()
    def go(x):
        if not isinstance(x, list): return
        if is_expr(x) and x[0] == "m":
            p = opath(x)
            if p: out.add(p[0]); return
        for y in x: go(y)
    go(e)
    return out


class Side:
    """expression resolution with multi-definition locals"""
    def __init__(s, f): s.f = f; s.D = f.defs()

    def res(s, e, seen=()):
        """canon + expand non-unique locals to the union of their definitions (list of exprs)"""
        e = s.f.canon(e)
        out = [e]
        for x in walk(e):
            if x[0] == "v" and x[1] not in seen:
                for d in s.D.get(x[1], []):
                    if d[1] is not None: out += s.res(d[1], seen + (x[1],))
        return out


def classes(p):
    """names of the RTS methods that push operations / dependencies / store the exception"""
    fs = [f for f in p.repo_fns() if f.cls == RTS]
    def clo(pred):
        S = {f.key for f in fs if any(pred(e, f) for e in f.events())}
        while True:
            n = {f.key for f in fs if f.key not in S and any(t.key in S for e in f.events() if e["k"] == "call" for t in p.targets(e))}
            if not n: return S
            S |= n
    PO = clo(lambda e, f: pushes(e, f, "operations"))
    DEP = clo(lambda e, f: pushes(e, f, "dependencies"))
    EXC = {f.key for f in fs if any((e["k"] == "asg" and "m_exception" in evstr(e, f)) or
                                    (e["k"] == "call" and mname(e.get("q", "")) == "operator=" and "m_exception" in estr(e.get("obj"), f)) for e in f.events())}
    EXC = {k for k in EXC if not p.fns[k].q.startswith(RTS + "::" + RTS)}
    return PO, DEP, EXC


def paused_fn(p):
    """boolean RTS methods without parameters that read m_paused and change nothing"""
    out = set()
    for f in p.repo_fns():
        if f.cls == RTS and f.ret == "bool" and not f.params and not any(e["k"] == "asg" for e in f.events()) and \
           any("m_paused" in evstr(e, f) or any("m_paused" in estr(b.term[1], f) for b in f.blocks.values() if b.term and b.term[1]) for e in f.events()):
            out.add(f.q)
    return out


def direction(p, t, seen=()):
    """ParamType set by an adder function"""
    d = set()
    for e in t.events():
        if e["k"] == "asg" and is_expr(e["l_"]) and e["l_"][0] == "m" and e["l_"][2] == "type" and (e["l_"][3] or "").endswith("AccessInfo"):
            x = strip(t.canon(e["r"])); d.add(x[1].split("::")[-1] if x[0] == "e" else "?")
        if e["k"] == "call":
            for u in p.targets(e):
                if u.cls == RTS and u.key not in seen and mname(u.q) != "add_param" and u.q != t.q or (u.q == t.q and u.key != t.key and u.key not in seen):
                    d |= direction(p, u, seen + (t.key,))
    return d


def param_of(f, outer, e):
    """outer parameter id an expression is a copy of"""
    x = strip(f.canon(e)) if e is not None else None
    for _ in range(8):
        if is_expr(x) and x[0] == "call" and mname(x[1]) in ("add_variable", "get_variable"): x = strip(f.canon(x[-1]))
        elif is_expr(x) and x[0] == "v" and x[1] not in outer:
            ds = [d[1] for d in f.defs().get(x[1], []) if d[1] is not None]
            if len(ds) != 1: break
            x = strip(f.canon(ds[0]))
        else: break
    if is_expr(x) and x[0] == "v" and x[1] in outer: return x[1]
    return None


def record_info(p, f, g, PO, DEP):
    """(deps, fields, op type, loops) of one override"""
    outer = list(f.params)
    deps, fields, types, dyn = [], {}, set(), False
    loopb = set()
    order = g.rpo()
    pos = {b: i for i, b in enumerate(order)}
    for b in order:
        for e in g.blocks[b].ev:
            if e["k"] == "call":
                for t in p.targets(e):
                    if t.key in DEP and t.key not in PO:
                        d = direction(p, t)
                        a0 = e["a"][0] if e["a"] else None
                        vt = e["a"][1] if len(e["a"]) > 1 else None
                        if len(d) != 1: dyn = True; continue
                        v = strip(g.canon(vt)) if vt is not None else None
                        pv = param_of(g, outer, vt) if vt is not None else None
                        deps.append({"dir": next(iter(d)), "src": param_of(g, outer, a0), "vp": pv, "vc": v if is_expr(v) and v[0] == "e" else None,
                                     "e": e, "srcx": g.canon(a0)})
            for l, r in assigned(g, e):
                pth = opath(l)
                if pth is None: continue
                if pth[0] == ("type",):
                    x = strip(g.canon(r))
                    if x[0] == "e": types.add(x[1])
                    continue
                fields.setdefault(pth[0], []).append((r, e))
    return deps, fields, types, dyn


def assigned(g, e):
    """(lhs, rhs) pairs written by an event, expanding aggregate assignments and memcpy"""
    if e["k"] == "asg" and e.get("op") in ("=", None): yield e["l_"], e["r"]
    elif e["k"] == "call" and mname(e.get("q", "")) == "operator=" and e.get("obj") is not None and e["a"]:
        r = strip(e["a"][0])
        if is_expr(r) and r[0] == "il":
            rec = r[1]
            yield from agg(g.prog_, e["obj"], rec, r[2:]) if hasattr(g, "prog_") else [(e["obj"], r)]
        else: yield e["obj"], e["a"][0]
    elif e["k"] == "call" and mname(e.get("q", "")) == "memcpy" and e.get("obj") is None and len(e["a"]) == 3:
        d = strip(e["a"][0])
        while is_expr(d) and d[0] in ("cast", "ic"): d = strip(d[-1])
        if is_expr(d) and d[0] == "u" and d[1] == "&": yield d[2], e["a"][1]


def agg(p, obj, rec, vals):
    # field names of the (anonymous) struct: find via the operation's union members
    names = next(([x[0] for x in R["fields"]] for R in (p.recs.values() if isinstance(p.recs, dict) else p.recs) if R["q"] == rec or R.get("key") == rec), None)
    if names is None or len(names) < len(vals): yield obj, ["il", rec] + list(vals); return
    for n, v in zip(names, vals): yield ["m", obj, n, rec, 0], v


def run(ctx):
    for cfg in (["llvm", "metal", "cuda"]):
        one(ctx, ctx.prog(cfg), cfg)
    ctx.floor("forward", 10)
    ctx.floor("roles", 20)
    ctx.floor("dispatch", 10)


def one(ctx, p, cfg):
    PO, DEP, EXC = classes(p)
    PAUSED = paused_fn(p)
    R = p.rec(RTS); T = p.rec(TS)
    own = {m["n"]: m for m in R["methods"]}
    backends = [r["q"] for r in p.recs.values() if TS in [b if isinstance(b, str) else b.get("q", b.get("n")) for b in r.get("bases", [])] ] if isinstance(p.recs, dict) else \
               [r["q"] for r in p.recs if any(TS == (b if isinstance(b, str) else b[0]) for b in r.get("bases", []))]
    # R1 coverage
    ctx.rule("covered", "every virtual operation of ThreadState that some backend implements is overridden by RecordThreadState")
    virt = []
    for m in T["methods"]:
        if not m.get("virtual") or m["n"].startswith("~") or m["n"] in QUERY: continue
        virt.append(m)
        impl = p.overriders.get(m["key"], []) if isinstance(p.overriders, dict) else p.all_overriders(m["key"])
        has = [k for k in impl if (p.fns.get(k) and p.fns[k].cls == RTS)] or m["n"] in own
        if has: ctx.ok("covered", 1, "%s/%s" % (cfg, m["n"]))
        else: ctx.violation("covered", "%s::%s" % (RTS, m["n"]), "src/record_ts.h", "ThreadState::%s is not overridden by %s: the operation is executed by the base class and missing from the recording" % (m["n"], RTS))
    sides = {}
    for m in virt:
        for f in p.by_q.get(RTS + "::" + m["n"], []):
            forward_rule(ctx, p, cfg, f, m["n"], PO, DEP, EXC, PAUSED)
            if f.key in PO:
                g = inline(p, f, lambda h, e, t: t.cls == RTS and t.key in PO, 5); g.prog_ = p
                sides[m["n"]] = (f, g) + record_info(p, f, g, PO, DEP)
    replay_rules(ctx, p, cfg, sides)
    mapping_rule(ctx, p, cfg)


def forward_rule(ctx, p, cfg, f, name, PO, DEP, EXC, PAUSED):
    ctx.rule("forward", "each override performs the operation exactly once on the wrapped state with unchanged arguments while recording is paused, and every "
                        "unpaused execution that performs it either records an operation or stores an error")
    ctx.rule("recorded", "an operation executed while recording is not paused is recorded or flagged as an error on every path")
    con = "%s::%s" % (RTS, name)
    notif = f.key in PO and not any(e["k"] == "call" and e.get("q", "").split("::")[-1] == name and e.get("obj") is not None for e in f.events())
    g = inline(p, f, lambda h, e, t: t.cls == RTS and (t.key in PO), 5)
    # raising overrides
    exits = normal_exits(g)
    D = deep_fwd(p, g, name)
    if not D and not f.key in PO:
        if not reachable_exit(g): ctx.ok("forward", 1, "%s/%s raises" % (cfg, name)); return
        if name.startswith("notify_"): return
        ctx.violation("forward", con, f.loc(), "neither forwards the operation to the wrapped thread state nor raises"); return

    def atom(e):
        """canonical condition atom"""
        return estr(strip(g.canon(e)), g)
    # state: (pushed, forwarded, guard) with path facts: paused / predicate atoms
    def step(u, e, blk, env):
        pushed, fwd, guards, facts, err = u
        if e["k"] == "call":
            if pushes(e, g, "operations"): pushed = 1
            if id(e) in D:
                if fwd == 0: fwd = 1 if guards > 0 else 3
                else: fwd = 2
            for t in p.targets(e):
                if t.key in EXC: err = 1
        if e["k"] == "decl" and "pause_scope" in (e.get("ty") or ""): guards += 1
        if e["k"] == "dtor" and "pause_scope" in evstr(e, g): guards = max(0, guards - 1)
        return [(pushed, fwd, guards, facts, err)]

    def branch(u, facts, blk, i):
        pushed, fwd, guards, fs, err = u
        for c, v in facts:
            for a in conj(g, c, v):
                x, val = a
                s = key(g, x, PAUSED)
                if s is None: continue
                for (k0, v0) in fs:
                    if k0 == s and v0 != val: return None
                fs = fs | {(s, val)}
        return (pushed, fwd, guards, fs, err)

    try:
        ins, exits_, tr = paths(g, (0, 0, 0, frozenset(), 0), step, branch, exc=None, limit=4000)
    except Exception as ex:
        raise AnalysisBroken("path exploration of %s: %r" % (f.q, ex))
    n = 0
    for x in exits_:
        st = x[0] if isinstance(x, tuple) and isinstance(x[0], tuple) else x
        pushed, fwd, guards, fs, err = st[:5]
        n += 1
        fd = dict(fs)
        if not notif and fwd != 1:
            ctx.violation("forward", con, f.loc(), {0: "some path does not execute the operation on the wrapped thread state", 2: "the operation is executed twice on some path",
                          3: "the wrapped operation is called without pausing the recording (nested operations would be recorded twice)"}[fwd]); break
        if fd.get("paused") is True:
            if pushed: ctx.violation("recorded", con, f.loc(), "an operation is recorded while recording is paused"); break
            continue
        if name in UNRECORDED_OK and fd.get("tracked:dst") is not True: continue
        if not pushed and not err and fd.get("nonempty") is not False:
            what = ", ".join("%s=%s" % (k, v) for k, v in sorted(fs)) or "always"
            ctx.violation("recorded", con, f.loc(), "the operation is executed but neither recorded nor reported (path: %s)" % what); break
    else:
        if name in UNRECORDED_OK and name == "memcpy" and not any("tracked:dst" in dict(x[0][3] if isinstance(x[0], tuple) else x[3]) for x in exits_):
            ctx.violation("recorded", con, f.loc(), "a synchronous copy into memory tracked by the recording is neither recorded nor reported as an error")
        else:
            ctx.ok("recorded", 1, "%s/%s" % (cfg, name))
    # arguments of the forwarded call
    for e in D.values():
        bad = None
        if len(e["a"]) != len(f.params): bad = "argument count differs"
        else:
            for j, a in enumerate(e["a"]):
                x = strip(g.canon(a))
                if not (is_expr(x) and x[0] == "v" and x[1] == f.params[j]):
                    bad = "argument %d is '%s' instead of parameter '%s'" % (j + 1, estr(a, g), f.params[j].split(":")[0]); break
        if bad: ctx.violation("forward", con, f.loc(e), "forwarded call: " + bad)
        else: ctx.ok("forward", 1, "%s/%s" % (cfg, name)); pass


def key(g, x, PAUSED):
    x = strip(g.canon(x))
    if is_expr(x) and x[0] == "call":
        if x[1] in PAUSED: return "paused"
        n = mname(x[1])
        if n == "has_variable":
            a = strip(x[-1])
            return "tracked:" + (a[1].split(":")[0] if is_expr(a) and a[0] == "v" else estr(a, g))
        if n == "jitc_gemm_batch_counts": return "nonempty"
        if n == "operator bool" and "m_exception" in estr(x, g): return "exc"
    if is_expr(x) and x[0] == "m" and x[2] == "m_paused": return "paused"
    if is_expr(x) and x[0] == "v": return "v:" + x[1]
    return None


def conj(g, c, v):
    c = strip(g.canon(c))
    if is_expr(c) and c[0] == "u" and c[1] == "!": yield from conj(g, c[2], not v)
    elif is_expr(c) and c[0] == "bi" and c[1] == "&&" and v:
        yield from conj(g, c[2], True); yield from conj(g, c[3], True)
    elif is_expr(c) and c[0] == "bi" and c[1] == "||" and not v:
        yield from conj(g, c[2], False); yield from conj(g, c[3], False)
    elif is_expr(c) and c[0] == "call" and c[1] == "__builtin_expect": yield from conj(g, c[2] if not is_expr(c[2]) or True else c[3], v)
    else: yield c, v


def deep_fwd(p, g, name):
    """calls of ThreadState::name on the wrapped state"""
    out = {}
    for e in g.events():
        if e["k"] == "call" and mname(e.get("q", "")) == name and e.get("obj") is not None:
            o = strip(g.canon(e["obj"]))
            if is_expr(o) and o[0] == "m" and o[2] == "m_internal": out[id(e)] = e
    return out


def reachable_exit(g):
    return any(True for _ in normal_exits(g))


# ---------------------------------------------------------------- replay
def regions(p, f):
    """OpType -> (case blocks region) of the switch over Operation::type in f (with dominators)"""
    dom = dominators(f)
    out, sw, default = {}, None, None
    for b, k in f.blocks.items():
        if k.term and k.term[0] == "switch" and k.term[1] is not None:
            pth = opath(strip(f.canon(k.term[1])))
            if pth and pth[0] == ("type",): sw = b
    if sw is None: return None, {}, None
    for b in f.blocks[sw].succ:
        if b is None: continue
        lab = f.blocks[b].label
        if lab and lab[0] == "case":
            x = strip(lab[1])
            out[x[1] if x[0] == "e" else estr(x, f)] = {c for c in f.blocks if b in dom.get(c, ())}
        elif lab and lab[0] == "default": default = {c for c in f.blocks if b in dom.get(c, ())}
    return sw, out, default


def replay_rules(ctx, p, cfg, sides):
    ctx.rule("dispatch", "every operation type is replayed by a case that performs the operation that recorded it, and no two operations share a type")
    ctx.rule("range", "an operation's dependency range brackets exactly the dependencies it records")
    ctx.rule("roles", "replay passes, for each parameter, the recorded dependency or field that parameter was stored in")
    ctx.rule("outputs", "replay allocates each output of an operation before performing it and never an input")
    ctx.rule("dryrun", "operations and memory copies are only issued outside dry runs; a replay that reports failure does so only where a dry run is guaranteed")
    rep = [f for f in p.repo_fns() if f.cls == REC and regions(p, f)[0] is not None]
    if not rep: raise AnalysisBroken("no replay switch over Operation::type found")
    enum = [v for v in p.enum("OpType")["vals"]] if isinstance(p.enum("OpType"), dict) else p.enum("OpType")
    names = [v[0] if isinstance(v, (list, tuple)) else v for v in enum]
    names = [n.split("::")[-1] for n in names if not n.endswith("Count")]
    f = rep[0]
    sw, cases, default = regions(p, f)
    for q in list(cases): cases[q.split("::")[-1]] = cases.pop(q)
    bytype = {}
    for m, s in sides.items():
        for t in s[4]: bytype.setdefault(t.split("::")[-1], []).append(m)
    for n in names:
        pass
        if n not in cases:
            ctx.violation("dispatch", "OpType::%s" % n, f.loc(), "no case replays this operation type"); continue
        if len(bytype.get(n, [])) > 1:
            ctx.violation("dispatch", "OpType::%s" % n, f.loc(), "recorded by several operations: " + ", ".join(bytype[n])); continue
        ctx.ok("dispatch", 1, "%s/%s" % (cfg, n))
    for m, (rf, g, deps, fields, types, dyn) in sides.items():
        con = "%s::%s" % (RTS, m)
        if len(types) != 1:
            ctx.violation("dispatch", con, rf.loc(), "records %s operation types" % (len(types) or "no")); continue
        tname = next(iter(types)).split("::")[-1]
        range_rule(ctx, p, cfg, rf, g, m, PO_DEP(p))
        if tname not in cases: continue
        compare(ctx, p, cfg, f, cases[tname], m, rf, g, deps, fields, dyn, tname)
    loop_rule(ctx, p, cfg, f, sw)


def PO_DEP(p):
    c = getattr(p, "_c09", None)
    if c is None: c = p._c09 = classes(p)
    return c


def is_size_of_deps(g, e):
    """is e (a canonical expression) dependencies.size()"""
    x = strip(g.canon(e))
    return is_expr(x) and x[0] == "call" and mname(x[1]) == "size" and is_expr(strip(x[2])) and strip(x[2])[0] == "m" and strip(x[2])[2] == "dependencies"


def range_rule(ctx, p, cfg, rf, g, m, cls):
    PO, DEP, EXC = cls
    con = "%s::%s" % (RTS, m)
    # number of dependency events seen when each size() snapshot local is taken: forward path analysis
    snap = {}
    for e in g.events():
        if e["k"] == "decl" and e.get("init") is not None and is_size_of_deps(g, e["init"]): snap[e["v"]] = e
    ids = [None, None]
    seen = False
    def snap_of(a, ev):
        a = strip(a)
        while is_expr(a) and a[0] == "v" and a[1] not in snap:
            u = g.unique_def(a[1])
            if u is None: break
            a = strip(u)
        if is_expr(a) and a[0] == "v" and a[1] in snap: return id(snap[a[1]])
        return id(ev) if is_size_of_deps(g, a) else None
    for e in g.events():
        for l, r in assigned(g, e):
            pth = opath(l)
            if not pth or pth[0][:1] != ("dependency_range",): continue
            seen = True
            if pth[0][-1] == "first": ids[0] = snap_of(r, e); continue
            if pth[0][-1] == "second": ids[1] = snap_of(r, e); continue
            args = None
            for x in walk(r):
                if x[0] == "ev" and x[1] in g.evi: args = list(g.evi[x[1]].get("a") or [])
                elif x[0] == "il" or (x[0] in ("ctor", "call") and "pair" in str(x[1])): args = [y for y in x[2:] if is_expr(y)]
                if args: break
            if args and len(args) >= 2: ids = [snap_of(a, e) for a in args[-2:]]
    if not seen:
        ctx.violation("range", con, rf.loc(), "the operation's dependency range is never set"); return
    if None in ids: return
    isdep = lambda e: e["k"] == "call" and (pushes(e, g, "dependencies") or any(t.key in DEP and t.key not in PO for t in p.targets(e)))
    # typestate: 0 before start, 1 between, 2 after end
    bad = []
    def step(u, e, blk, env):
        st = u
        if isdep(e):
            if st == 0: bad.append(("before the start of the range", e))
            if st == 2: bad.append(("after the end of the range", e))
        if id(e) == ids[0]: st = max(st, 1)
        if id(e) == ids[1] and ids[1] != ids[0]: st = 2
        return [st]
    paths(g, 0, step, lambda u, fs, b, i: u, limit=2000)
    if ids[0] == ids[1]:
        extra = [e for e in g.events() if isdep(e)]
        if extra: bad.append(("outside an empty range", extra[0]))
    if bad: ctx.violation("range", con, rf.loc(bad[0][1]), "a dependency is recorded %s of the operation" % bad[0][0])
    else: ctx.ok("range", 1, "%s/%s" % (cfg, m))


def dep_index(f, e, depth=0):
    """index k if e denotes dependencies[op.dependency_range.first + k]"""
    x = strip(f.canon(e))
    off = 0
    while is_expr(x) and x[0] in ("ix", "u"):
        if x[0] == "ix":
            c = const_int(x[2])
            if c is None: return "?"
            off += c; x = strip(x[1])
            if is_expr(x) and x[0] == "u" and x[1] == "&": x = strip(x[2])
            continue
        if x[1] not in ("*", "&"): return None
        x = strip(x[2])
        if is_expr(x) and x[0] == "bi" and x[1] == "+" and const_int(x[3]) is not None: off += const_int(x[3]); x = strip(x[2])
    if not (is_expr(x) and x[0] == "call" and mname(x[1]) in ("operator[]", "at")): return None
    o = strip(x[2])
    if not (is_expr(o) and o[0] == "m" and o[2] == "dependencies"): return None
    k, i = off, strip(x[3])
    while is_expr(i) and i[0] == "bi" and i[1] in ("+", "-"):
        a, b = const_int(i[2]), const_int(i[3])
        if b is not None: k += b if i[1] == "+" else -b; i = strip(i[2])
        elif a is not None and i[1] == "+": k += a; i = strip(i[3])
        else: return "?"
    pth = opath(i)
    if pth and pth[0][:1] == ("dependency_range",) and pth[0][-1] == "first": return k
    if is_expr(i) and i[0] == "m" and i[2] == "first" and opath(i[1]) and opath(i[1])[0] == ("dependency_range",): return k
    return "?"


def var_index(f, e):
    """k if e denotes the replay variable of dependency k"""
    x = strip(f.canon(e))
    if is_expr(x) and x[0] == "u" and x[1] in ("*", "&"): return var_index(f, x[2])
    if not (is_expr(x) and x[0] == "call" and mname(x[1]) in ("operator[]", "at")): return None
    i = strip(x[3])
    if is_expr(i) and i[0] == "m" and i[2] == "slot": return dep_index(f, i[1])
    return None


def atoms(f, S, e):
    """atoms mentioned by an expression: ('data',k) ('vtype',k) ('op',path) ('size',k) ('bytes',k) ('enum',n)"""
    out = set()
    for x in S.res(e):
        def go(x):
            if not isinstance(x, list): return
            if is_expr(x):
                if x[0] == "m":
                    pth = opath(x)
                    if pth: out.add(("op", pth[0])); return
                    if x[2] == "data":
                        k = var_index(f, x[1])
                        if k is not None: out.add(("data", k)); return
                    if x[2] == "data_size":
                        k = var_index(f, x[1])
                        if k is not None: out.add(("bytes", k)); return
                    if x[2] == "vtype":
                        k = dep_index(f, x[1])
                        if k is not None: out.add(("vtype", k)); return
                if x[0] == "call" and mname(x[1]) == "size" and len(x) >= 3:
                    k = var_index(f, x[2])
                    if k is not None:
                        out.add(("size", k)); return
                if x[0] == "e": out.add(("enum", x[1]))
                if x[0] == "call" and mname(x[1]) in ("operator[]", "at") and len(x) > 3:
                    o = strip(x[2])
                    go(x[3]); return
            for y in x[1:] if is_expr(x) else x: go(y)
        go(x)
    return out


def compare(ctx, p, cfg, f, region, m, rf, rg, deps, fields, dyn, tname):
    con = "%s/%s" % (REC, tname)
    # replay body: the case region with Recording helpers inlined
    calls = []
    body = []
    for b in region:
        for e in f.blocks[b].ev:
            if e["k"] == "call":
                for t in p.targets(e):
                    if t.cls == REC: body.append(t)
    bodies = []
    for t in body:
        bodies.append((inline(p, t, lambda h, e, u: u.cls == REC, 4), None))
    bodies.append((f, region))
    found = set()
    done = False
    for h, reg in bodies:
        S = Side(h)
        dom = dominators(h)
        blkof = {id(e): b for b, k in h.blocks.items() for e in k.ev if reg is None or b in reg}
        allocs = []
        for b, k in h.blocks.items():
            if reg is not None and b not in reg: continue
            for e in k.ev:
                if e["k"] != "call": continue
                if mname(e.get("q", "")) == "alloc" and e.get("obj") is not None and var_index(h, e["obj"]) is not None: allocs.append((var_index(h, e["obj"]), e, b))
        effect_calls = []
        for b, k in h.blocks.items():
            if reg is not None and b not in reg: continue
            for e in k.ev:
                if e["k"] == "call" and e.get("virt") and e.get("q", "").split("::")[0] in (TS,) and mname(e["q"]) not in QUERY:
                    effect_calls.append((mname(e["q"]), e, b)); found.add(mname(e["q"]))
        # dry run guard + failing returns
        for n, e, b in effect_calls + [("jitc_memcpy", e, b) for b, k in h.blocks.items() if reg is None or b in reg for e in k.ev
                                      if e["k"] == "call" and e.get("q") in ("jitc_memcpy", "jitc_memcpy_async", "jitc_malloc")]:
            if dry_fact(p, h, b, dom) is False: ctx.ok("dryrun", 1, "%s/%s/%s" % (cfg, tname, n))
            else: ctx.violation("dryrun", con, h.loc(e), "%s is issued during a dry run" % n)
        if reg is None:
            rdry = bool(any_requires(p, rg))
            for b, k in h.blocks.items():
                for e in k.ev:
                    v = e.get("e") if e["k"] == "ret" else (e.get("init") if e["k"] == "decl" and e.get("retv") else None)
                    if v is not None and h.ret in ("int", "bool") and strip(v) is not None and const_int(strip(v)) == 0 and e["k"] == "ret":
                        if dry_fact(p, h, b, dom) is True or rdry or dry_any(p, h, b): ctx.ok("dryrun", 1, "%s/%s/return" % (cfg, tname))
                        else: ctx.violation("dryrun", con, h.loc(e), "replay reports failure outside a dry run although recording does not request one")
        want = COMPOSITE.get(m, {m})
        # outputs
        for kdep, e, b in allocs:
            if isinstance(kdep, int) and kdep < len(deps) and not dyn and deps[kdep]["dir"] != "Output":
                ctx.violation("outputs", con, h.loc(e), "replay (re)allocates dependency %d, which was recorded as an input" % kdep)
            va = e["a"][2] if len(e["a"]) > 2 else None
            if va is not None and isinstance(kdep, int):
                A = atoms(h, S, va)
                vks = {k for n, k in A if n == "vtype"}
                if vks and vks != {kdep}: ctx.violation("outputs", con, h.loc(e), "output %d is allocated with the type of another dependency" % kdep)
        for n, e, b in effect_calls:
            if n != m: continue
            done = True
            if dyn:
                if any(kk == "?" for kk, ee, bb in allocs) or any(isinstance(kk, int) for kk, ee, bb in allocs): ctx.ok("outputs", 1, "%s/%s" % (cfg, tname))
                else: ctx.violation("outputs", con, h.loc(e), "no output of %s is allocated before it is replayed" % m)
            if not dyn:
                for k, d in enumerate(deps):
                    if d["dir"] != "Output" or m in INPLACE: continue
                    if any(kk == k and (bb in dom[b] if bb != b else True) for kk, ee, bb in allocs): ctx.ok("outputs", 1, "%s/%s/%d" % (cfg, tname, k))
                    else: ctx.violation("outputs", con, h.loc(e), "output dependency %d is not allocated before %s is replayed" % (k, m))
            roles(ctx, p, cfg, h, S, e, m, rf, rg, deps, fields, dyn, con)
    if m in COMPOSITE:
        miss = COMPOSITE[m] - found
        if miss: ctx.violation("dispatch", con, f.loc(), "replay no longer issues %s" % ", ".join(sorted(miss)))
        comp_outputs(ctx, p, cfg, bodies, m, deps, con)
    else:
        if m not in found: ctx.violation("dispatch", con, f.loc(), "the case for the operation recorded by %s does not perform it" % m)
        extra = found - {m}
        if extra: ctx.violation("dispatch", con, f.loc(), "the case for the operation recorded by %s performs %s" % (m, ", ".join(sorted(extra))))


def comp_outputs(ctx, p, cfg, bodies, m, deps, con):
    for k, d in enumerate(deps):
        if d["dir"] != "Output": continue
        ok = False
        for h, reg in bodies:
            for b, blk in h.blocks.items():
                if reg is not None and b not in reg: continue
                for e in blk.ev:
                    if e["k"] == "call" and mname(e.get("q", "")) == "alloc" and e.get("obj") is not None and var_index(h, e["obj"]) == k: ok = True
        if ok: ctx.ok("outputs", 1, "%s/%s/%d" % (cfg, m, k))
        else: ctx.violation("outputs", con, bodies[0][0].loc(), "output dependency %d is never allocated on replay" % k)


def is_dry(x): return is_expr(x) and x[0] == "g" and x[1].split("::")[-1] == "dry_run"


def dry_fact(p, h, b, dom):
    """value of dry_run implied at block b by dominating branches (True/False/None)"""
    res = None
    preds = {}
    for c, k in h.blocks.items():
        for s in k.succ:
            if s is not None: preds.setdefault(s, set()).add(c)
    for d in dom.get(b, ()):
        ps = preds.get(d, set())
        if len(ps) != 1: continue
        c = next(iter(ps)); k = h.blocks[c]
        if not k.term or k.term[1] is None: continue
        for i, s in enumerate(k.succ):
            if s != d or k.succ.count(d) != 1: continue
            for x, v in edge_facts(h, k, i):
                for y, w in conj(h, x, v):
                    if is_dry(y): res = w
    # terminating else branches: dry_run tested and left earlier
    if res is None:
        for d in dom.get(b, ()):
            k = h.blocks[d]
            if not k.term or k.term[1] is None or len(k.succ) < 2: continue
            c = strip(h.canon(k.term[1]))
            for i, s in enumerate(k.succ):
                if s is None: continue
                fs = [(y, w) for x, v in edge_facts(h, k, i) for y, w in conj(h, x, v) if is_dry(y)]
                if fs and not reach(h, s, b, d): res = not fs[0][1]
    return res


def reach(h, s, t, avoid):
    seen, st = set(), [s]
    while st:
        x = st.pop()
        if x == t: return True
        if x in seen or x is None or x == avoid: continue
        seen.add(x); st += [y for y in h.blocks[x].succ if y is not None]
    return False


def dry_any(p, h, b):
    # `return false` under a condition that mentions dry_run conjunctively
    preds = [c for c, k in h.blocks.items() if b in k.succ]
    for c in preds:
        k = h.blocks[c]
        if k.term and k.term[1] is not None:
            for x in walk(h.canon(k.term[1])):
                if is_dry(x): return True
    return False


def any_requires(p, g):
    for e in g.events():
        if e["k"] == "asg" and is_expr(e["l_"]) and e["l_"][0] == "m" and e["l_"][2] == "requires_dry_run" and const_int(e["r"]) == 1: return True
        if e["k"] == "asg" and is_expr(e["l_"]) and e["l_"][0] == "m" and e["l_"][2] == "requires_dry_run" and strip(e["r"])[0] == "b" and strip(e["r"])[1]: return True
    return False


def roles(ctx, p, cfg, h, S, e, m, rf, rg, deps, fields, dyn, con):
    RS = Side(rg)
    outer = rf.params
    for j, prm in enumerate(outer):
        if j >= len(e["a"]): break
        nm = prm.split(":")[0]
        pos = "%s/%s#%d" % (cfg, m, j)
        A = atoms(h, S, e["a"][j])
        direct = strip(h.canon(e["a"][j]))
        ks = [k for k, d in enumerate(deps) if d["src"] == prm]
        where = h.loc(e)
        if (m, nm) in UNREC_ARG: continue
        for pp in sorted({pp for n, pp in A if n == "op" and pp[0] not in ("dependency_range", "type")}):
            ds = [r for pth, l in fields.items() if pth[:len(pp)] == pp or pp[:len(pth)] == pth for r, _ in l]
            if not any(const_int(strip(rg.canon(r))) is None and strip(rg.canon(r))[0] not in ("e", "b") for r in ds):
                ctx.violation("roles", con, where, "replay of %s reads op.%s, which is %s when recording" % (m, ".".join(pp), "a constant" if ds else "never set"))
        F = {pth for pth, l in fields.items() if pth[0] != "dependency_range" and any(any(x == ["v", prm] for y in RS.res(r) for x in walk(y)) for r, _ in l)}
        vk = [k for k, d in enumerate(deps) if d["vp"] == prm]
        pass
        if ks and not dyn:
            data = {k for n, k in A if n == "data"}
            if data <= set(ks) and data: ctx.ok("roles", 1, pos)
            elif "?" in data: pass
            else: ctx.violation("roles", con, where, "parameter '%s' of %s was recorded as dependency %s but replay passes %s" % (nm, m, ks, "dependency %s" % sorted(data, key=str) if data else "'%s'" % estr(e["a"][j], h)))
            continue
        if vk and not dyn:
            vt = {k for n, k in A if n == "vtype"}
            if "?" in vt: continue
            if vt and vt <= set(vk): ctx.ok("roles", 1, pos)
            else: ctx.violation("roles", con, where, "parameter '%s' of %s was recorded as the type of dependency %s but replay passes '%s'" % (nm, m, vk, estr(e["a"][j], h)))
            continue
        if F:
            ops = {pp for n, pp in A if n == "op"}
            hit = any(any(o[:len(pth)] == pth or pth[:len(o)] == o for o in ops) for pth in F)
            dp = opath(direct)
            only = [pth for pth in F]
            if dp is not None and not any(dp[0][:len(pth)] == pth or pth[:len(dp[0])] == dp[0] for pth in exact_fields(RS, fields, prm) or F):
                ctx.violation("roles", con, where, "parameter '%s' of %s was recorded in %s but replay passes '%s'" % (nm, m, fmt(F), ".".join(dp[0]))); continue
            sz = {k for n, k in A if n in ("size", "bytes")}
            if hit or (("size",) in F and sz) : ctx.ok("roles", 1, pos)
            else: ctx.violation("roles", con, where, "parameter '%s' of %s was recorded in %s but replay passes '%s'" % (nm, m, fmt(F), estr(e["a"][j], h)))
            continue
        side = {strip(rg.canon(x["obj"]))[2] for x in rg.events() if x["k"] == "call" and mname(x.get("q", "")) in ("push_back", "emplace_back") and x.get("obj") is not None and
                is_expr(strip(rg.canon(x["obj"]))) and strip(rg.canon(x["obj"]))[0] == "m" and any(w == ["v", prm] for a in x["a"] for y in RS.res(a) for w in walk(y))}
        if side:
            if any(w[0] == "m" and w[2] in side for y in S.res(e["a"][j]) for w in walk(y)): ctx.ok("roles", 1, pos)
            else: ctx.violation("roles", con, where, "parameter '%s' of %s was recorded in %s but replay passes '%s'" % (nm, m, ", ".join(sorted(side)), estr(e["a"][j], h)))
            continue
        if not dyn:
            ctx.violation("roles", con, where, "parameter '%s' of %s is not recorded; replay passes '%s'" % (nm, m, estr(e["a"][j], h)))


def exact_fields(RS, fields, prm):
    """fields assigned exactly the parameter (possibly cast)"""
    return {pth for pth, l in fields.items() if pth[0] != "dependency_range" and any(strip(RS.f.canon(r)) == ["v", prm] for r, _ in l)}


def fmt(F): return ", ".join(sorted("op." + ".".join(x) for x in F))


def loop_rule(ctx, p, cfg, f, sw):
    """operations are visited once each, in order"""
    ctx.rule("order", "replay visits every recorded operation once, in recording order")
    ok = None
    S = Side(f)
    for e in f.events():
        if e["k"] == "call" and mname(e.get("q", "")) in ("operator[]", "at") and e.get("obj") is not None:
            o = strip(f.canon(e["obj"]))
            if is_expr(o) and o[0] == "m" and o[2] == "operations":
                i = strip(e["a"][0])
                if is_expr(i) and i[0] == "v":
                    ds = [d for d in f.defs().get(i[1], [])]
                    inits = [const_int(d[1]) for d in ds if d[1] is not None and d[0] in ("init", "decl")]
                    incs = [d for d in ds if d[1] is None or d[0] not in ("init", "decl")]
                    bound = False
                    for b, k in f.blocks.items():
                        if k.term and k.term[1] is not None:
                            c = strip(k.term[1])
                            if is_expr(c) and c[0] == "bi" and c[1] in ("<", "!=") and strip(c[2]) == i:
                                r = strip(f.canon(c[3]))
                                bound |= is_expr(r) and r[0] == "call" and mname(r[1]) == "size" and "operations" in estr(r, f)
                    ok = (inits == [0] and len(incs) == 1 and bound)
                    if not ok: ctx.violation("order", f.q, f.loc(e), "the loop over the recorded operations does not run from 0 to operations.size() in steps of one")
    if ok is None:
        # range-based loop: acceptable
        if any("operations" in evstr(e, f) for e in f.events() if e["k"] == "decl"): ok = True
    if ok: ctx.ok("order", 1, cfg)


def mapping_rule(ctx, p, cfg):
    ctx.rule("mapping", "freeing memory during a recording removes its pointer from the pointer-to-slot map")
    for f in p.by_q.get(RTS + "::notify_free", []):
        cl = [f] + [t for e in f.events() if e["k"] == "call" for t in p.targets(e) if t.cls == RTS]
        er = [e for g in cl for e in g.events() if e["k"] == "call" and mname(e.get("q", "")).startswith("erase") and "ptr_to_slot" in estr(g.canon(e.get("obj")), g)]
        if er: ctx.ok("mapping", 1, cfg)
        else: ctx.violation("mapping", f.q, f.loc(), "the freed pointer stays mapped: a later allocation at the same address would be taken for the freed variable")
