"""C16: status-flow analysis of every fallible external call (CUDA driver, OptiX, LLVM, compression, OS, file streams)."""
from .core import *
from .c11 import calls_in
import re

# OS / C library calls that report failure, by kind of result
OS_STATUS = {"mprotect", "posix_memalign", "lstat", "stat", "fstat", "open", "read", "write", "pread", "pwrite", "close", "fopen", "fread", "fwrite", "fclose", "rename", "mkdir", "unlink",
             "ftruncate", "fsync", "glob", "munmap", "LZ4_decompress_safe", "LZ4_decompress_safe_usingDict", "LZ4_compress_fast_continue", "LZ4_compress_default", "LZ4_compress_fast", "LZ4_compress_HC", "LZ4_compressBound"}
OS_PTR = {"mmap", "malloc", "calloc", "realloc", "aligned_alloc", "dlopen", "dlsym", "fdopen", "LZ4_createStream"}
LLVM_PTR = {"LLVMCreateTargetMachine", "LLVMCreateDisasm", "LLVMCreateMemoryBufferWithMemoryRange", "LLVMGetFunctionAddress", "LLVMGetErrorMessage_"}
LLVM_STATUS = {"LLVMGetTargetFromTriple", "LLVMCreateMCJITCompilerForModule", "LLVMVerifyModule", "LLVMParseIRInContext", "LLVMSetDisasmOptions", "LLVMDisasmInstruction"}
LLVM_ERRREF = {"LLVMOrcCreateLLJIT", "LLVMOrcDisposeLLJIT", "LLVMOrcJITDylibClear", "LLVMOrcLLJITAddLLVMIRModule", "LLVMOrcLLJITLookup", "LLVMRunPasses", "LLVMOrcCreateObjectLinkingLayer"}
# calls that only produce a diagnostic text, and calls whose failure has no consequence for any result
BEST_EFFORT = {
    "cuGetErrorName": "fetches the text for an error that is being reported (the output is initialised)",
    "cuGetErrorString": "fetches the text for an error that is being reported (the output is initialised)",
    "cuProfilerStart": "profiler hint", "cuProfilerStop": "profiler hint",
    "LZ4_compressBound": "the result sizes the buffer and is checked by the compressor through its capacity argument",
    "madvise": "performance hint", "munmap": "release of memory that is no longer referenced",
    "fclose": "closes a stream that was only read", "close": "closes a descriptor that was only read",
}
INIT_OUT = {"cuGetErrorName", "cuGetErrorString"}


def nm(q): return (q or "").split("::")[-1]


def callee(p, e):
    if e["k"] != "call": return None
    q = e.get("q")
    if q is None:
        ce = strip(e.get("ce")) if e.get("ce") is not None else None
        if is_expr(ce) and ce[0] == "u" and ce[1] == "*": ce = strip(ce[2])
        if is_expr(ce) and ce[0] in ("g", "v"): return ce[1].split(":")[0] if ce[0] == "v" else ce[1]
        if is_expr(ce) and ce[0] == "m": return ce[2]
        return None
    return q


def kind(p, e):
    """('status', success), 'ptr', 'err' ... classification of an external call, or None"""
    q = callee(p, e)
    if q is None or p.targets(e): return None
    n = nm(q); ty = (e.get("ty") or "")
    if "::" in q and not q.startswith("::"): return None
    if re.match(r"cu[A-Z]", n) and ty in ("int", "CUresult", "enum cudaError_enum"): return "status"
    if re.match(r"optix[A-Z]", n) and ty in ("int", "OptixResult"): return "status"
    if n in LLVM_STATUS or n in LLVM_ERRREF: return "status"
    if n.startswith("LLVM") and ty == "LLVMErrorRef": return "status"
    if n in OS_STATUS: return "status"
    if n in OS_PTR or n in LLVM_PTR: return "ptr"
    return None


def mentions(f, e, holders, evn, canon=False):
    """does e read one of the holders (local ids or place strings) or the value of event evn?"""
    if e is None: return False
    st = [e]
    seen = 0
    while st:
        x = st.pop()
        if not isinstance(x, list) or not x: continue
        if isinstance(x[0], str):
            if x[0] == "v":
                if x[1] in holders: return True
                continue
            if x[0] == "ev":
                if x[1] == evn: return True
                ev = f.evi.get(x[1]); seen += 1
                if ev is not None and seen < 40 and ev["k"] in ("call",) and is_wrapper(ev): st += [y for y in ev["a"]] + ([ev["obj"]] if ev.get("obj") is not None else [])
                continue
            if x[0] in ("m", "g", "ix"):
                if place(f, x) in holders: return True
        st += [y for y in x[1:] if isinstance(y, list)] if isinstance(x[0], str) else [y for y in x if isinstance(y, list)]
    return False


def direct(f, e, holders, evn):
    """is e itself (up to casts and offsets) the tracked pointer? (the base of a dereference)"""
    x = strip(e)
    while is_expr(x):
        if x[0] == "v": return x[1] in holders
        if x[0] == "ev": return x[1] == evn
        if x[0] in ("m", "g") and place(f, x) in holders: return True
        if x[0] == "ix" and place(f, x) in holders: return True
        if x[0] == "bi" and x[1] in ("+", "-"): x = strip(x[2]); continue
        return False
    return False


def is_wrapper(ev): return nm(ev.get("q")) in ("__builtin_expect", "move", "forward", "operator bool", "operator!", "good", "fail", "bad", "get", "isEqual", "operator==", "operator!=", "XXH128_isEqual")


def place(f, e):
    e = strip(e)
    if not is_expr(e): return None
    if e[0] == "v": return e[1]
    if e[0] in ("m", "g", "ix"): return estr(f.canon(e))
    if e[0] == "u" and e[1] == "*": return estr(f.canon(e))
    return None


class Flow:
    """everything that happens to the result of one call"""
    def __init__(s, p, f, ev, k, checkers, returns=None):
        s.p, s.f, s.ev, s.k, s.checkers = p, f, ev, k, checkers
        s.lost = None      # (event, why) status never examined
        s.early = None     # (event) result used before examined
        s.tests = []       # (block, i) branches on the result
        s.returned = False
        s.checked = 0

    def uses_ptr(s, e, H, evn):
        """dereference / hand-over of an unexamined pointer result"""
        f = s.f; k = e["k"]
        if k == "deref":
            x = strip(e["e"])
            if x[0] == "u": return direct(f, x[2], H, evn)
            if x[0] == "ix" or (x[0] == "m" and x[4]): return direct(f, x[1], H, evn)
            return False
        if k == "call":
            if nm(e.get("q")) in ("free", "__builtin_expect", "operator=") or is_wrapper(e): return False
            if e.get("obj") is not None and strip(e["obj"])[0] in ("v", "m", "ev") and e.get("arrow") and mentions(f, e["obj"], H, evn): return True
            gl = {h for h in H if ":" not in h.replace("::", "") and "->" not in h and "." not in h}
            for t in s.p.targets(e) if gl else ():
                if any(b.term and b.term[1] is not None and mentions(t, b.term[1], gl, None) for b in t.blocks.values()): continue
                for y in t.events():
                    if y["k"] == "call" and not s.p.targets(y) and any(is_expr(strip(a)) and strip(a)[0] == "g" and strip(a)[1] in gl for a in y["a"]): return True
            for a in e["a"]:
                y = strip(a)
                if is_expr(y) and ((y[0] == "v" and y[1] in H) or (y[0] == "ev" and y[1] == evn) or (y[0] in ("m", "g") and place(f, y) in H) or (y[0] == "bi" and y[1] in ("+", "-") and mentions(f, y, H, evn))): return True
        if k in ("asg", "inc"):
            l = strip(e["l_"] if k == "asg" else e["e"])
            if is_expr(l) and (l[0] == "ix" or (l[0] == "u" and l[1] == "*") or (l[0] == "m" and l[4])):
                base = l[1] if l[0] in ("ix", "m") else l[2]
                return direct(f, base, H, evn)
        return False

    def run(s):
        f, ev, p = s.f, s.ev, s.p
        evn = ev.get("i", ev.get("n"))
        b0 = i0 = None
        for b in f.blocks.values():
            for i, e in enumerate(b.ev):
                if e is ev: b0, i0 = b.id, i
        outs_err = s.err_outputs()
        work = [(b0, i0 + 1, frozenset(outs_err), True)]
        seen = set()
        while work:
            b, i, H, live = work.pop()
            if (b, i, H) in seen: continue
            seen.add((b, i, H))
            blk = f.blocks[b]; done = False
            for j in range(i, len(blk.ev)):
                e = blk.ev[j]; k = e["k"]
                if k == "throw" or e.get("noret"):  # leaves abnormally: fine
                    done = True; break
                if s.k == "ptr" and s.uses_ptr(e, H, evn):
                    t = p.targets(e) if e["k"] == "call" else []
                    if t and all(s.examines(e, g, H, evn) for g in t): s.checked += 1; done = True; break
                    if e["k"] == "call" and nm(e.get("q")) in ("push_back", "emplace_back", "emplace"): pass
                    else:
                        s.early = s.early or e; done = True; break
                if k == "call" and e is not ev:
                    used = [a for a in e["a"] if mentions(f, a, H, evn)]
                    if used and not is_wrapper(e):
                        t = p.targets(e)
                        if t and all(s.examines(e, g, H, evn) for g in t): s.checked += 1; done = True; break
                if k == "ret" and e.get("e") is not None and mentions(f, e["e"], H, evn):
                    s.returned = True; done = True; break
                if k == "decl" and e.get("init") is not None and mentions(f, e["init"], H, evn):
                    if not s.is_out_only(e["init"]): H = H | {e["v"]}
                elif k == "minit" and e.get("init") is not None and mentions(f, e["init"], H, evn): H = H | {"this->" + str(e.get("f") or e.get("m"))}
                elif k == "asg":
                    pl = place(f, e["l_"])
                    if mentions(f, e["r"], H, evn):
                        if pl is not None: H = H | {pl}
                        if s.k == "ptr" and pl is not None and strip(e["l_"])[0] in ("g", "m"): H = H | {pl}
                    elif pl in H and e["op"] == "=":
                        H2 = H - {pl}
                        H = H2
                        if not H2 and not s.direct_later(b, j + 1, evn):
                            s.lost = s.lost or (e, "is overwritten"); done = True; break
            if done: continue
            t = blk.term
            if t and t[1] is not None and t[0] not in ("try", "goto", "tempdtor") and mentions(f, t[1], H, evn):
                s.tests.append((b, H)); s.checked += 1
                if s.k == "status":
                    pol = [polarity(f, blk, n, H, evn) for n in range(len(blk.succ))]
                    if "fail" in pol and None in pol and special_test(f, blk, H, evn):  # only one particular failure code was singled out
                        for n, x in enumerate(blk.succ):
                            if pol[n] is None and x is not None and x != f.exit: work.append((x, 0, H, True))
                            elif pol[n] is None and x == f.exit: s.lost = s.lost or (ev, "is only compared with one particular failure code")
                continue
            if dead_end(f, blk): continue
            for n in blk.succ:
                if n is None: continue
                if n == f.exit:
                    if s.k == "ptr" and any(("->" in h or "." in h or "::" in h or ":" not in h) for h in H): s.returned = True   # stored in an object/global that outlives the call
                    else: s.lost = s.lost or (ev, "is never examined")
                else: work.append((n, 0, H, True))
        return s

    def is_out_only(s, e): return False

    def direct_later(s, b, j, evn): return False

    def err_outputs(s):
        """error-message outputs (char **): examining them is examining the status"""
        out = []
        if nm(callee(s.p, s.ev)) not in LLVM_STATUS: return out
        for a in s.ev["a"]:
            x = strip(a)
            if is_expr(x) and x[0] == "u" and x[1] == "&":
                y = strip(x[2])
                if y[0] == "v":
                    d = [dd for dd in s.f.defs().get(y[1], []) if dd[0] == "decl"]
                    if d and (d[0][2].get("ty") or "").replace(" ", "") == "char*": out.append(y[1])
        return out

    def examines(s, e, g, H, evn):
        for i, a in enumerate(e["a"]):
            if i < len(g.params) and mentions(s.f, a, H, evn) and (g.key, i) in s.checkers: return True
        return False


def special_test(f, blk, H, evn):
    """the branch compares the status with one non-zero constant"""
    for i in range(len(blk.succ)):
        for x, v in edge_facts(f, blk, i):
            x = strip(x)
            if is_expr(x) and x[0] == "bi" and x[1] in ("==", "!="):
                for y, z in ((x[2], x[3]), (x[3], x[2])):
                    c = const_int(z)
                    if c not in (None, 0, -1) and mentions(f, y, H, evn): return True
    return False


def find_checkers(p):
    """(function key, parameter index) of functions that test the given parameter and act on failure: the tested edge reaches a noreturn call / throw"""
    out = set()
    for _ in range(3):
        n = len(out)
        for f in p.fns.values():
            if not f.params: continue
            for i, v in enumerate(f.params):
                if (f.key, i) in out: continue
                ty = f.ptypes[i] if i < len(f.ptypes) else ""
                if not re.search(r"\b(int|CUresult|OptixResult|LLVMErrorRef|bool|long|cudaError_enum)\b|\*$", ty or ""): continue
                hit = False
                for b in f.blocks.values():
                    t = b.term
                    if t and t[1] is not None and t[0] in ("if", "||", "&&") and mentions(f, t[1], {v}, None):
                        for n_ in b.succ:
                            if n_ is not None and fails(f, n_, avoid=b.id): hit = True
                    for e in b.ev:
                        if e["k"] == "call":
                            for g in p.targets(e):
                                for j, a in enumerate(e["a"]):
                                    if (g.key, j) in out and is_expr(strip(a)) and strip(a)[0] == "v" and strip(a)[1] == v: hit = True
                if hit: out.add((f.key, i))
        if len(out) == n: break
    return out


def fails(f, b, avoid=None):
    """every path from block b ends in a noreturn call or throw"""
    seen = set(); st = [b]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x == f.exit or x == avoid: return False
        if dead_end(f, f.blocks[x]): continue
        nx = [n for n in f.blocks[x].succ if n is not None]
        if not nx: return False
        st += nx
    return True


def reach(f, b, avoid=None):
    seen = set(); st = [b]
    while st:
        x = st.pop()
        if x in seen or x is None or x == avoid: continue
        seen.add(x)
        if dead_end(f, f.blocks[x]): continue
        st += f.blocks[x].succ
    return seen


def effects(f, blocks):
    n = 0
    for b in blocks:
        if b not in f.blocks: continue
        n += sum(1 for e in f.blocks[b].ev if e["k"] in ("call", "ctor", "asg", "inc", "ret", "throw", "delete"))
    return n


def run(ctx):
    R1 = ctx.rule("examined", "the status of every fallible external call reaches a test (a branch, a checking function, or the caller that receives it) on every path before it is dropped or overwritten; pointer results are tested before they are dereferenced or handed on")
    R2 = ctx.rule("consequence", "the two outcomes of every such test differ: failure does something that success does not, or the other way around")
    R3 = ctx.rule("outputs", "a variable that an external call only sets on success is not read before that success was established (unless it was initialised before the call)")
    R4 = ctx.rule("checker", "the functions that examine driver statuses terminate for every failure code except the documented one (driver already shut down)")
    R5 = ctx.rule("stream", "writes to a file are followed by a test of the stream state, reads are tested before the data is used, and filesystem queries are not trusted when they reported an error")
    R6 = ctx.rule("dangling", "a local is not used after it was released, and a global that was released does not keep pointing to released memory when the function is left early because of a failure")
    cfgs = ["full"] if ctx.tier == "quick" else ["full", "cuda", "debug"]
    for cfg in cfgs:
        p = ctx.prog(cfg)
        check_program(ctx, p, R1, R2, R3, R4, R5, R6)
    ctx.floor(R1, 60); ctx.floor(R3, 10)
    ctx.assume("CUDA/OptiX entry points return CUresult/OptixResult and leave their outputs untouched on failure",
               "best-effort calls: " + "; ".join("%s (%s)" % x for x in sorted(BEST_EFFORT.items())))


def null_on_failure(p, f, sites):
    """does f return a null pointer on the failure edge of one of its fallible calls?"""
    for _, e, k, name in sites:
        evn = e.get("i", e.get("n"))
        for b in f.blocks.values():
            if b.term is None or b.term[1] is None or not mentions(f, b.term[1], frozenset(), evn): continue
            for n, s in enumerate(b.succ):
                if s is None: continue
                pol = polarity(f, b, n, frozenset(), evn)
                want = "fail" if k == "status" else "ok"
                if pol == want:
                    for x in reach(f, s, b.id):
                        if any(x in reach(f, o, b.id) for o in b.succ if o != s): continue
                        for ev in f.blocks[x].ev:
                            if ev["k"] == "ret" and ev.get("e") is not None and const_int(ev["e"]) == 0: return True
    return False


def src_fns(p): return [f for f in p.fns.values() if f.loc().startswith("src/")]


def check_program(ctx, p, R1, R2, R3, R4, R5, R6):
    CK = find_checkers(p)
    todo = []
    for f in src_fns(p):
        for e in f.events():
            k = kind(p, e) if e["k"] == "call" else None
            if k: todo.append((f, e, k, nm(callee(p, e))))
    # functions that hand the failure of such a call to their caller as a null pointer
    for f in src_fns(p):
        if not (f.ret or "").endswith("*"): continue
        if null_on_failure(p, f, [x for x in todo if x[0] is f]):
            for g, ce in p.callers().get(f.key, []):
                if g.loc().startswith("src/"): todo.append((g, ce, "ptr", nm(f.display)))
    ret_fns = {}
    done = set()
    while todo:
        f, e, k, name = todo.pop()
        if (f.key, id(e)) in done: continue
        done.add((f.key, id(e)))
        if name in BEST_EFFORT:
            ctx.ok(R1, 1, "%s: %s is best effort: %s" % (f.display, name, BEST_EFFORT[name]))
            continue
        fl = Flow(p, f, e, k, CK).run()
        if fl.early:
            ctx.violation(R1, "%s|%s:early" % (f.display, name), f.loc(fl.early), "the result of %s() is used (%s) before it was checked for failure" % (name, evstr(fl.early, f)[:80]))
        elif fl.lost:
            ctx.violation(R1, "%s|%s" % (f.display, name), f.loc(e), "the status returned by %s() %s" % (name, fl.lost[1]))
        elif name == "mmap" and not any(minus_one(f, f.blocks[b].term[1]) for b, H in fl.tests) and not fl.returned and not fl.checked > len(fl.tests):
            ctx.violation(R1, "%s|%s:value" % (f.display, name), f.loc(e), "the result of mmap() is not compared with MAP_FAILED")
        elif name.startswith("LZ4_decompress") and not any(size_test(f, f.blocks[b].term[1]) for b, H in fl.tests):
            ctx.violation(R1, "%s|%s:value" % (f.display, name), f.loc(e), "the result of %s() is not compared with the expected size" % name)
        else: ctx.ok(R1, 1, "%s:%s %s() examined by %d test(s)%s" % (f.display, e["l"], name, fl.checked, ", returned to the caller" if fl.returned else ""))
        for b, H in fl.tests:
            blk = f.blocks[b]
            if len([n for n in blk.succ if n is not None]) < 2 or blk.term[0] in ("||", "&&"): continue
            if blk.term[0].startswith("?"): continue
            A, B = reach(f, blk.succ[0], b), reach(f, blk.succ[1], b)
            ctx.ok(R2, 1)
            if not effects(f, A - B) and not effects(f, B - A):
                ctx.violation(R2, "%s|%s" % (f.display, name), f.loc(e), "the status of %s() is tested, but failure has no consequence" % name)
        if fl.returned and e.get("ty") in ("int", "CUresult", "OptixResult", "LLVMErrorRef"):
            for g, ce in p.callers().get(f.key, []):
                todo.append((g, ce, k, nm(f.display)))
        if k == "status": outputs(ctx, R3, p, f, e, name, CK)
    checkers(ctx, R4, p, CK)
    for f in src_fns(p):
        streams(ctx, R5, p, f)
        released(ctx, R6, p, f)
        dangling(ctx, R6, p, f)




def minus_one(f, c):
    return any(const_int(x) in (-1, 0xffffffffffffffff) for x in walk(f.canon(c)) if x[0] in ("i", "u", "cast", "ic", "bi")) if c is not None else False


def size_test(f, c):
    return any(x[0] == "bi" and x[1] in ("==", "!=") and const_int(f.canon(x[2])) is None and const_int(f.canon(x[3])) is None
               for y in (c, f.canon(c)) for x in walk(y)) if c is not None else False


def polarity(f, blk, i, H, evn):
    """'ok' / 'fail' / None: outcome of the tracked status established by taking edge i"""
    res = None
    for x, v in edge_facts(f, blk, i):
        x = strip(x)
        if is_expr(x) and x[0] == "bi" and x[1] in ("==", "!="):
            a, b = strip(x[2]), strip(x[3])
            for y, z in ((a, b), (b, a)):
                c = const_int(z)
                if mentions(f, y, H, evn) and c is not None:
                    eq = (x[1] == "==") == v
                    if c == 0: res = "ok" if eq else "fail"
                    elif eq: res = "fail"
                    break
        elif mentions(f, x, H, evn) and not (is_expr(x) and x[0] == "bi" and x[1] in ("<", ">", "<=", ">=")):
            res = "fail" if v else "ok"
    return res


def out_vars(f, e):
    """variables and members whose address is handed to the call -> (name, holds nothing before the call)"""
    out = {}
    for a in e["a"]:
        x = strip(a)
        while is_expr(x) and x[0] in ("cast", "ic"): x = strip(x[-1])
        if is_expr(x) and x[0] == "u" and x[1] == "&":
            y = strip(x[2])
            if y[0] == "v":
                d = [z for z in f.defs().get(y[1], []) if z[0] == "decl"]
                if d: out[y[1]] = (y[1].split(":")[0], len(f.defs()[y[1]]) == 1 and d[0][1] is None)
            elif y[0] in ("m", "g") and place(f, y): out[place(f, y)] = (place(f, y), False)
    return out


def same(f, x, v):
    x = strip(x)
    return is_expr(x) and (x == ["v", v] or (x[0] in ("m", "g") and place(f, x) == v))


def reads(f, e, v, H=(), evn=None):
    """does event e read local or member v (other than passing its address on)?"""
    def go(x):
        if not isinstance(x, list) or not x: return False
        if isinstance(x[0], str):
            if x[0] == "u" and x[1] == "&" and same(f, x[2], v): return False
            if x[0] in ("m", "g") and same(f, x, v): return True
            if x[0] == "?" and H and mentions(f, x[1], H, evn): return False   # selected by the status itself
            if x[0] == "v": return x[1] == v
            if x[0] in ("s", "g", "i", "ev", "lam"): return False
        return any(go(y) for y in (x[1:] if isinstance(x[0], str) else x))
    for key in ("a", "init", "r", "e", "obj"):
        x = e.get(key)
        if x is not None and go(["il", ""] + x if key == "a" else x): return True
    if e["k"] == "asg":
        l = strip(e["l_"])
        if not same(f, l, v) and go(e["l_"]): return True
        if same(f, l, v) and e["op"] != "=": return True
    return False


def outputs(ctx, R3, p, f, ev, name, CK):
    outs = out_vars(f, ev)
    fl = Flow(p, f, ev, "status", CK)
    errs = set(fl.err_outputs())
    evn = ev.get("i", ev.get("n"))
    for v, (vn, uninit) in sorted(outs.items()):
        if v in errs: continue
        b0 = i0 = None
        for b in f.blocks.values():
            for i, e in enumerate(b.ev):
                if e is ev: b0, i0 = b.id, i
        work = [(b0, i0 + 1, frozenset(errs), "pending")]; seen = set(); bad = None
        while work and bad is None:
            b, i, H, st = work.pop()
            if (b, i, H, st) in seen: continue
            seen.add((b, i, H, st))
            blk = f.blocks[b]; done = False
            for j in range(i, len(blk.ev)):
                e = blk.ev[j]; k = e["k"]
                if k == "call" and e is not ev:
                    hit = False
                    for n, a in enumerate(e["a"]):
                        if mentions(f, a, H, evn):
                            for g in p.targets(e):
                                if (g.key, n) in CK: hit = True
                    if hit: done = True; break
                    if any(w[0] == "u" and w[1] == "&" and same(f, w[2], v) for w in walk(["il", ""] + e["a"])): done = True; break
                if k == "call" and nm(e.get("q")) in ("memset", "memcpy", "bzero") and e["a"] and any(same(f, w, v) for w in walk(strip(e["a"][0]))) and not any(reads(f, {"k": "use", "e": a}, v) for a in e["a"][1:]): done = True; break
                if e is not ev and k not in ("deref", "use") and (uninit or st == "failed") and reads(f, e, v, H, evn): bad = (e, st); break
                if k == "asg" and same(f, e["l_"], v): done = True; break
                if k == "throw" or e.get("noret"): done = True; break
                if k == "decl" and e.get("init") is not None and mentions(f, e["init"], H, evn): H = H | {e["v"]}
                elif k == "asg" and mentions(f, e["r"], H, evn) and place(f, e["l_"]): H = H | {place(f, e["l_"])}
            if bad or done or dead_end(f, blk): continue
            if blk.term and blk.term[1] is not None and is_expr(blk.term[1]) and uninit and reads(f, {"k": "use", "e": blk.term[1]}, v) and not mentions(f, blk.term[1], H, evn): bad = ({"l": None}, st); break
            for n, s in enumerate(blk.succ):
                if s is None or s == f.exit: continue
                pol = polarity(f, blk, n, H, evn) if blk.term and blk.term[1] is not None else None
                if pol == "ok": continue
                work.append((s, 0, H, "failed" if pol == "fail" else st))
        if bad:
            ctx.violation(R3, "%s|%s:%s" % (f.display, name, vn), f.loc(bad[0] if bad[0].get("l") else ev), "'%s' is used %s, although %s() only sets it on success" % (vn, "after the call failed" if bad[1] == "failed" else "before the call is known to have succeeded", name))
        else: ctx.ok(R3, 1, "%s: output '%s' of %s()" % (f.display, vn, name))


def checkers(ctx, R4, p, CK):
    """functions that receive driver statuses: execute them for every class of status value"""
    from .absint import Interp
    use = set()
    for f in src_fns(p):
        for e in f.events():
            if e["k"] != "call": continue
            for i, a in enumerate(e["a"]):
                x = strip(a)
                ev = f.evi.get(x[1]) if is_expr(x) and x[0] == "ev" else None
                if ev is None and is_expr(x) and x[0] == "v":
                    for d in f.defs().get(x[1], []):
                        y = strip(d[1]) if d[1] is not None else None
                        if is_expr(y) and y[0] == "ev": ev = f.evi.get(y[1]) or ev
                if ev is not None and ev["k"] == "call" and kind(p, ev) == "status" and re.match(r"cu[A-Z]|optix[A-Z]", nm(callee(p, ev)) or ""):
                    for g in p.targets(e): use.add((g.key, i, nm(callee(p, ev))[:2]))
    api = {}
    for gk, i, pre in use: api.setdefault((gk, i), set()).add(pre)
    for (gk, i), pre in sorted(api.items()):
        g = p.fns[gk]
        if i >= len(g.params): continue
        v = g.params[i]
        consts = {0}
        for b in g.blocks.values():
            if b.term and is_expr(b.term[1]):
                for x in walk(b.term[1]):
                    c = const_int(x)
                    if isinstance(c, int) and abs(c) < 1 << 31: consts.add(c)
        vals = sorted(consts | {1, 2, 700, 7001, max(consts) + 1})
        for val in vals:
            ret = returns_with(p, g, v, val)
            ctx.ok(R4, 1, "%s(%d): %s" % (g.display, val, "returns" if ret else "does not return"))
            if val == 0 and not ret: ctx.violation(R4, "%s|success" % g.display, g.loc(), "reports an error for a successful call")
            if val != 0 and ret and not (val == 4 and "cu" in pre): ctx.violation(R4, "%s|ignored" % g.display, g.loc(), "returns normally for the failure code %d" % val)


def returns_with(p, g, v, val):
    """can g return normally when parameter v has the given value? (constant propagation over the branches that test it)"""
    def ev(e):
        e = strip(e)
        if not is_expr(e): return None
        if e[0] == "v":
            if e[1] == v: return val
            u = g.unique_def(e[1])
            return ev(u) if u is not None else None
        c = const_int(e)
        if c is not None: return c
        if e[0] == "ev":
            x = g.evi.get(e[1])
            if x is not None and x["k"] == "call" and x.get("q") == "__builtin_expect": return ev(x["a"][0])
            return None
        if e[0] == "u" and e[1] == "!":
            a = ev(e[2]); return None if a is None else int(not a)
        if e[0] == "bi":
            a, b = ev(e[2]), ev(e[3])
            if e[1] == "&&": return 0 if a == 0 or b == 0 else (None if a is None or b is None else 1)
            if e[1] == "||": return 1 if (a or b) else (None if a is None or b is None else 0)
            if a is None or b is None: return None
            try: return {"==": int(a == b), "!=": int(a != b), "<": int(a < b), ">": int(a > b), "<=": int(a <= b), ">=": int(a >= b)}[e[1]]
            except KeyError: return None
        if e[0] == "?":
            c = ev(e[1]); return None if c is None else ev(e[2] if c else e[3])
        return None
    seen = set(); st = [g.entry]
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        if b == g.exit: return True
        blk = g.blocks[b]
        if dead_end(g, blk): continue
        # a nested checking function that does not return for this value
        stop = False
        for e in blk.ev:
            if e["k"] == "call":
                for t in p.targets(e):
                    for i, a in enumerate(e["a"]):
                        if is_expr(strip(a)) and strip(a)[0] == "v" and strip(a)[1] == v and i < len(t.params) and t.key != g.key and not returns_with(p, t, t.params[i], val): stop = True
        if stop: continue
        nx = blk.succ
        if blk.term and blk.term[1] is not None and len(nx) == 2 and blk.term[0] not in ("switch", "try", "goto"):
            c = ev(blk.term[1])
            if c is not None: nx = [nx[0] if c else nx[1]]
        elif blk.term and blk.term[0] == "switch":
            c = ev(blk.term[1])
            if c is not None:
                m = [n for n in nx if n is not None and g.blocks[n].label and g.blocks[n].label[0] == "case" and const_int(g.blocks[n].label[1]) == c]
                nx = m or [n for n in nx if n is not None and not (g.blocks[n].label and g.blocks[n].label[0] == "case")]
        st += [n for n in nx if n is not None]
    return False


STATE_TESTS = ("good", "fail", "bad", "operator!", "operator bool", "rdstate")
FS_QUERY = ("file_size", "last_write_time", "hard_link_count", "read_symlink", "canonical", "space")
FS_ACT = ("create_hard_link", "rename", "copy_file", "resize_file", "copy", "create_symlink")


def streams(ctx, R5, p, f):
    def obj(e):
        o = strip(e["obj"]) if e.get("obj") is not None else None
        d = 0
        while is_expr(o) and o[0] == "ev" and d < 6:
            x = f.evi.get(o[1]); d += 1
            if x is None or x["k"] != "call" or x.get("obj") is None: return o
            o = strip(x["obj"])
        return o
    sv = {}
    for e in f.events():
        if e["k"] == "decl" and re.search(r"basic_(o|i|)fstream|ofstream|ifstream|fstream", e.get("ty") or ""): sv[e["v"]] = e
    for v, d in sv.items():
        name = v.split(":")[0]
        is_out = "ofstream" in d["ty"] or ("fstream" in d["ty"] and "ifstream" not in d["ty"])
        viol = []
        n = [0]
        def step(u, e, blk, env):
            if e["k"] == "call":
                o = obj(e)
                if is_expr(o) and o == ["v", v]:
                    m = nm(e.get("q"))
                    if m in ("write", "put", "operator<<"): n[0] += 1; return [("dirty", e.get("l"))]
                    if m in ("close", "flush") and u[0] == "dirty": return [("closed", u[1])]
                    if m in STATE_TESTS:
                        if u[0] == "closed": return [("clean", None)]
                        return [u]
                    if m in ("read", "get", "getline", "operator>>"):
                        n[0] += 1
                        if u[0] == "read": viol.append((u[1], "is read again before the previous read was checked"))
                        return [("read", e.get("l"), tuple(sorted(bufs(f, e["a"]))))]
                elif u[0] == "read":
                    for a in e["a"]:
                        if set(bufs(f, [a])) & set(u[2]): viol.append((u[1], "is read, but the data is used before the read was checked"))
                if is_expr(o) and o == ["v", v] and nm(e.get("q")) in STATE_TESTS and u[0] == "read": return [("clean", None)]
            elif u[0] == "read" and e["k"] in ("asg", "decl", "ret"):
                for key in ("init", "r", "e"):
                    if e.get(key) is not None and set(bufs(f, [e[key]])) & set(u[2]): viol.append((u[1], "is read, but the data is used before the read was checked"))
            return [u]
        def step2(u, e, blk, env):
            if e["k"] == "call" and u[0] == "read":
                o = obj(e)
                if is_expr(o) and o == ["v", v] and nm(e.get("q")) in STATE_TESTS: return [("clean", None)]
            return step(u, e, blk, env)
        def branch(u, facts, blk, i):
            if blk.term and blk.term[0] in ("&&", "||") and u[0] == "closed":
                for n, s in enumerate(blk.succ):   # the operand that was skipped is the test itself
                    if n != i and s is not None and any(e["k"] == "call" and obj(e) == ["v", v] and nm(e.get("q")) in STATE_TESTS for e in f.blocks[s].ev): return ("clean", None)
            return u
        ins, ex, _ = paths(f, ("none", None), step2, branch, track=False)
        for st in ex:
            u = st[0] if isinstance(st, tuple) and isinstance(st[0], tuple) else st
            if u[0] in ("dirty", "closed"): viol.append((u[1], "is written, but its state is not tested after the data was flushed"))
            if u[0] == "read": viol.append((u[1], "is read without checking that the read succeeded"))
        if n[0]: ctx.ok(R5, 1, "%s: stream '%s'" % (f.display, name))
        for l, m in viol: ctx.violation(R5, "%s|%s" % (f.display, name), f.loc({"l": l}), "file stream '%s' %s" % (name, m))
    # filesystem queries with an error_code
    for b in f.blocks.values():
        for i, e in enumerate(b.ev):
            if e["k"] != "call" or "filesystem" not in (e.get("q") or ""): continue
            m = nm(e["q"]); ecs = [strip(a)[1] for a in e["a"] if is_expr(strip(a)) and strip(a)[0] == "v" and ec_var(f, strip(a)[1])]
            if not ecs: continue
            q = m in FS_QUERY and (e.get("ty") or "void") != "void"
            if not q and m not in FS_ACT: continue
            bad = fs_flow(f, b, i, e, ecs[0], q)
            ctx.ok(R5, 1, "%s: std::filesystem::%s" % (f.display, m))
            if bad: ctx.violation(R5, "%s|%s" % (f.display, m), f.loc(e), ("the result of std::filesystem::%s() is used before its error code was tested" if q else "the error code of std::filesystem::%s() is never tested") % m)


def ec_var(f, v):
    d = [x for x in f.defs().get(v, []) if x[0] == "decl"]
    if d: return "error_code" in (d[0][2].get("ty") or "")
    return v in f.params and "error_code" in f.ptypes[f.params.index(v)]


def bufs(f, a):
    out = set()
    for x in walk(["il", ""] + list(a)):
        if x[0] == "v":
            if x[1] in f.params: continue
            out.add(x[1])
    return {x for x in out if not ec_var(f, x)} - {"this"} if a else set()


def fs_flow(f, b0, i0, ev, ec, query):
    evn = ev.get("i", ev.get("n"))
    work = [(b0.id, i0 + 1, frozenset())]; seen = set()
    while work:
        b, i, H = work.pop()
        if (b, i, H) in seen: continue
        seen.add((b, i, H)); blk = f.blocks[b]; done = False
        for e in blk.ev[i:]:
            if e["k"] == "throw" or e.get("noret"): done = True; break
            if e["k"] == "call" and nm(e.get("q")) in ("operator bool", "value", "message", "operator==", "operator!=") and any(x == ["v", ec] for x in walk(["il", "", e.get("obj") or ["null"]] + e["a"])): done = True; break
            if e["k"] == "decl" and e.get("init") is not None and mentions(f, e["init"], H, evn) and is_expr(strip(e["init"])) and strip(e["init"])[0] in ("ev", "v", "ctor"): H = H | {e["v"]}; continue
            if query:
                if e["k"] in ("call", "ctor", "asg", "inc", "ret", "decl") and any(mentions(f, e.get(k), H, evn) for k in ("init", "r", "e", "obj") if e.get(k) is not None) or any(mentions(f, a, H, evn) for a in e.get("a") or ()):
                    if nm(e.get("q")) in ("time_point", "duration") and e["k"] == "ctor": continue
                    return True
            elif e["k"] == "call" and any(is_expr(strip(a)) and strip(a) == ["v", ec] for a in e["a"]): return True
        if done or dead_end(f, blk): continue
        if query and blk.term and blk.term[1] is not None and is_expr(blk.term[1]) and mentions(f, blk.term[1], H, evn): return True
        for n in blk.succ:
            if n is None: continue
            if n == f.exit:
                if not query: return True
                continue
            work.append((n, 0, H))
    return False


def dangling(ctx, R6, p, f):
    for b in f.blocks.values():
        for i, e in enumerate(b.ev):
            if e["k"] != "call" or nm(e.get("q")) not in ("free", "_aligned_free", "munmap") or p.targets(e) or not e["a"]: continue
            x = strip(e["a"][0])
            if not is_expr(x) or x[0] != "g": continue
            g = x[1]; bad = None
            work = [(b.id, i + 1, None)]; seen = set()
            while work and bad is None:
                n, j, evn = work.pop()
                if (n, j, evn) in seen: continue
                seen.add((n, j, evn)); blk = f.blocks[n]; done = False
                for y in blk.ev[j:]:
                    if y["k"] == "asg" and is_expr(strip(y["l_"])) and strip(y["l_"]) == ["g", g]: done = True; break
                    if y["k"] == "call":
                        if any(w[0] == "u" and w[1] == "&" and strip(w[2]) == ["g", g] for w in walk(["il", ""] + y["a"])):
                            evn = y.get("i", y.get("n"))
                            if kind(p, y) != "status": done = True; break
                        if y.get("noret") and nm(y.get("q")) not in ("abort", "jitc_fail", "jitc_vfail", "exit", "_exit", "terminate"): bad = y; break
                    if y["k"] == "throw": bad = y; break
                if bad or done or dead_end(f, blk): continue
                for k, s in enumerate(blk.succ):
                    if s is None: continue
                    if evn is not None and blk.term and blk.term[1] is not None and polarity(f, blk, k, frozenset(), evn) == "ok": continue
                    if s == f.exit:
                        if evn is None: bad = e
                        continue
                    work.append((s, 0, evn))
            ctx.ok(R6, 1, "%s: %s" % (f.display, g))
            if bad: ctx.violation(R6, "%s|%s" % (f.display, g), f.loc(bad), "'%s' still points to released memory when the function is left here" % g)


RELEASE = re.compile(r"^(free|LLVMDispose\w+|LLVMDisasmDispose|LLVMOrcDispose\w+|fclose|closedir)$")


def released(ctx, R6, p, f):
    """use of a local after it was handed to a release function"""
    for b in f.blocks.values():
        for i, e in enumerate(b.ev):
            if e["k"] != "call" or p.targets(e) or not RELEASE.match(nm(callee(p, e)) or "") or not e["a"]: continue
            x = strip(e["a"][0])
            if not is_expr(x) or x[0] != "v": continue
            v = x[1]
            work = [(b.id, i + 1)]; seen = set(); bad = None
            while work and bad is None:
                n, j = work.pop()
                if (n, j) in seen: continue
                seen.add((n, j)); blk = f.blocks[n]; done = False
                for y in blk.ev[j:]:
                    if y["k"] in ("asg", "decl") and ((y["k"] == "asg" and strip(y["l_"]) == ["v", v]) or y.get("v") == v):
                        if not (y["k"] == "asg" and reads(f, {"k": "use", "e": y["r"]}, v)): done = True; break
                    if y["k"] == "call" and any(w[0] == "u" and w[1] == "&" and strip(w[2]) == ["v", v] for w in walk(["il", ""] + y["a"])): done = True; break
                    if y["k"] != "dtor" and reads(f, y, v): bad = y; break
                    if y["k"] == "throw" or y.get("noret"): done = True; break
                if bad or done: continue
                work += [(s, 0) for s in blk.succ if s is not None and s != f.exit]
            ctx.ok(R6, 1, "%s: %s" % (f.display, v.split(":")[0]))
            if bad: ctx.violation(R6, "%s|%s" % (f.display, v.split(":")[0]), f.loc(bad), "'%s' is used after it was released by %s()" % (v.split(":")[0], nm(callee(p, e))))
