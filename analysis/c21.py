"""C21: every formatting call supplies the arguments its format consumes; text never overruns its buffer and stays terminated.
The directive tables of the `$` mini-languages are derived from the formatting functions themselves (which va_arg type each case reads, how much it writes);
every call site's literal is parsed with that table. Capacity: linear reservations over all paths of the string buffer's member functions. printf-style
formats are decided by the compiler's own format checker, enabled over every translation unit."""
import os, re, subprocess, hashlib, json
from concurrent.futures import ThreadPoolExecutor
from . import core
from .core import strip, walk, is_expr, const_int, edge_facts, estr, forward, normal_exits
from .c03 import loops_of
from .c20 import dom_facts

# worst-case number of bytes stored by the primitive writers (advance, including the spill past the advance where they store whole words)
PRIM = {"w_u32": 10, "w_u64": 20, "w_x32": 8, "w_x64": 16, "w_q64": 16, "w_type": 8}
SPAN = ("w_strn", "memcpy", "memmove", "memset", "__builtin_memcpy", "__builtin_memset")
UNCHECKED = {"put_u32_unchecked": 10, "put_u64_unchecked": 20, "put_x32_unchecked": 8, "put_x64_unchecked": 16, "put_q64_unchecked": 16}


def nm(e): return (e.get("q") or "").split("::")[-1]
def member(x): return x[2] if is_expr(x) and x[0] == "m" else None


class Lin:
    """linear form over opaque atoms"""
    def __init__(s, t=None, c=0): s.t = {k: v for k, v in (t or {}).items() if v}; s.c = c
    def add(s, o, k=1):
        t = dict(s.t)
        for a, v in o.t.items(): t[a] = t.get(a, 0) + k * v
        return Lin(t, s.c + k * o.c)
    def mul(s, k): return Lin({a: v * k for a, v in s.t.items()}, s.c * k)
    def nonneg(s): return s.c >= 0 and all(v >= 0 for v in s.t.values())
    def key(s): return (tuple(sorted(s.t.items())), s.c)
    def __repr__(s): return " + ".join([("%d*%s" % (v, a) if v != 1 else a) for a, v in sorted(s.t.items())] + [str(s.c)])


def lin(f, x, d=0):
    x = strip(x)
    c = const_int(x)
    if c is not None: return Lin(c=c)
    if not is_expr(x): return None
    if x[0] in ("cast", "ic"): return lin(f, x[3], d)
    if x[0] == "sizeof" and isinstance(x[2], int): return Lin(c=x[2])
    if x[0] == "ev" and d < 8:
        e = f.evi.get(x[1])
        if e is not None and e["k"] == "call":
            if nm(e) in ("__builtin_strlen", "strlen") and e["a"]:
                s = strip(f.canon(e["a"][0]))
                if s[0] == "s": return Lin(c=len(s[1]))
                return Lin({"strlen(%s)" % estr(s, f): 1})
            g = [t for t in f.prog.targets(e)] if hasattr(f, "prog") else []
            if len(g) == 1 and g[0].blocks and g[0].file.startswith("src/"):
                r = simple_ret(g[0])
                if r is not None:
                    m = {"v:" + p: lin(f, a, d + 1) for p, a in zip(g[0].params, e["a"])}
                    out = lin(g[0], r, d + 1)
                    if out is not None:
                        o = Lin(c=out.c)
                        for a, k in out.t.items():
                            if m.get(a) is None: o = None; break
                            o = o.add(m[a], k)
                        if o is not None: return o
        return Lin({estr(x, f): 1})
    if x[0] == "bi" and x[1] in ("+", "-", "*"):
        a, b = lin(f, x[2], d), lin(f, x[3], d)
        if a is None or b is None: return None
        if x[1] == "+": return a.add(b)
        if x[1] == "-": return a.add(b, -1)
        if not a.t: return b.mul(a.c)
        if not b.t: return a.mul(b.c)
        return Lin({estr(x, f): 1})
    if x[0] == "v":
        if x[1] not in f.params and d < 8 and x[1] not in f.address_taken():
            ds = f.defs().get(x[1], [])
            if len(ds) == 1 and ds[0][0] == "decl" and ds[0][1] is not None: return lin(f, ds[0][1], d + 1)
        return Lin({"v:" + x[1]: 1})
    if x[0] == "call" and d < 8:
        if x[1] in ("__builtin_strlen", "strlen"): return Lin({"strlen(%s)" % estr(strip(f.canon(x[3])), f): 1})
        gs = [g for g in f.prog.by_q.get(x[1], []) if g.blocks and g.file.startswith("src/")]
        r = simple_ret(gs[0]) if len(gs) == 1 else None
        if r is not None:
            m = {"v:" + p: lin(f, a, d + 1) for p, a in zip(gs[0].params, x[3:])}
            out = lin(gs[0], r, d + 1)
            if out is not None and all(m.get(a) is not None for a in out.t):
                o = Lin(c=out.c)
                for a, k in out.t.items(): o = o.add(m[a], k)
                return o
        return Lin({estr(x, f): 1})
    return Lin({estr(x, f): 1})


def simple_ret(g):
    r = [e["e"] for e in g.events() if e["k"] == "ret" and e.get("e") is not None]
    return r[0] if len(r) == 1 and len(g.rpo()) <= 3 else None


# ---------------------------------------------------------------- the $-language

def formatters(p):
    """{function: (switch block, {char: (type or None, cost, reserve events)})} of every variadic function with a switch whose cases read the arguments"""
    out = {}
    for f in p.fns.values():
        if not f.file.startswith("src/") or not f.blocks or not any("vaarg" in str(e) for e in f.events()): continue
        for b in f.blocks.values():
            if b.term and b.term[0] == "switch":
                cs = [(const_int(strip(f.blocks[t].label[1])), t) for t in b.succ if t is not None and f.blocks[t].label and f.blocks[t].label[0] == "case"]
                if len(cs) >= 4: out[f] = (b, cs)
    return out


def vaargs(e):
    n = []
    for k in ("init", "r", "e"):
        if e.get(k) is not None and is_expr(e[k]): n += [x[1] for x in walk(e[k]) if is_expr(x) and x[0] == "vaarg"]
    for a in e.get("a") or []:
        if is_expr(a): n += [x[1] for x in walk(a) if is_expr(x) and x[0] == "vaarg"]
    return n


def write_cost(p, f, e, depth=0):
    """bytes stored through a character cursor by this event: int, Lin, or None (not a write)"""
    if e["k"] == "asg":
        l = strip(e["l_"])
        if l[0] == "u" and l[1] == "*" and str(e.get("ty", "")).replace("const ", "") in ("char", "unsigned char"):
            return 0 if const_int(strip(e["r"])) == 0 else 1
        return None
    if e["k"] != "call" or not e.get("a"): return None
    q = nm(e)
    if q in PRIM: return PRIM[q]
    if q in UNCHECKED: return UNCHECKED[q]
    if q in ("w_str", "put_unchecked"): return Lin({"strlen(%s)" % estr(strip(e["a"][-1]), f): 1})
    if q in SPAN and len(e["a"]) > 2: return lin(f, e["a"][2])
    g = [t for t in p.targets(e) if t.blocks and t.file.startswith("src/")]
    if depth < 4 and len(g) == 1 and g[0].ptypes and g[0].ptypes[0] == "char *" and g[0].ret == "char *" and q not in ("w_run", "expand"):
        return fn_cost(p, g[0], depth + 1)
    return None


def fn_cost(p, g, depth):
    """maximum over the acyclic paths; None if a loop writes"""
    best, stack, n = 0, [(g.entry, 0, frozenset())], 0
    if any(loops_of(g, b) for b in g.rpo()): return None
    while stack:
        b, c, seen = stack.pop(); n += 1
        if n > 500: return None
        for e in g.blocks[b].ev:
            w = write_cost(p, g, e, depth)
            if isinstance(w, Lin):
                if w.t: return None
                w = w.c
            c += w or 0
        best = max(best, c)
        for t in g.blocks[b].succ:
            if t is not None and t not in seen: stack.append((t, c, seen | {b}))
    return best


def case_paths(p, f, sw, start):
    """paths of one case: (va_arg types, change of the argument counter, [writes], reservations) until control returns to the loop"""
    stops = {sw.id} | {h for h, _, _ in loops_of(f, sw.id)}
    out, stack = [], [(start, (), (), frozenset())]
    while stack and len(out) < 64:
        b, va, evs, seen = stack.pop()
        bl = f.blocks[b]
        va, evs = va + tuple(t for e in bl.ev for t in vaargs(e)), evs + tuple(bl.ev)
        if bl.noret: continue
        nx = [t for t in bl.succ if t is not None]
        for t in nx:
            ev2 = evs + tuple({"k": "fact", "c": c, "v": v} for c, v in facts(f, bl, bl.succ.index(t))) if len(bl.succ) == 2 and bl.succ[0] != bl.succ[1] and bl.term and bl.term[0] != "switch" else evs
            if t in stops or t == f.exit: out.append((va, ev2))
            elif t not in seen: stack.append((t, va, ev2, seen | {b}))
    return out


def counter(f):
    """the local that counts consumed arguments: compared with the first parameter after the loop"""
    for b in f.blocks.values():
        if b.term:
            c = b.term[1]
            for e in [c] + [x for e in b.ev for x in (e.get("a") or [])]:
                for x in walk(f.canon(e)) if is_expr(e) else []:
                    if is_expr(x) and x[0] == "bi" and x[1] in ("!=", "=="):
                        vs = [strip(x[2]), strip(x[3])]
                        if all(v[0] == "v" for v in vs) and any(v[1] == f.params[0] for v in vs): return [v[1] for v in vs if v[1] != f.params[0]][0] if vs[0][1] != vs[1][1] else None
    return None


def bound_of(p, f):
    """coefficients (per format character, per argument) of the reservation made before the loop"""
    for b in f.rpo():
        for e in f.blocks[b].ev:
            if e["k"] == "call" and nm(e) == "expand" and len(e["a"]) > 1:
                l = lin(f, e["a"][1])
                a, c = l.t.get("v:" + f.params[1], 0), l.t.get("v:" + f.params[0], 0)
                if a or c: return a, c, l
    return None


def cls(t):
    t = t.replace("const", "").replace(" ", "")
    if t == "Variable*": return "Variable *"
    if t in ("char*",) or re.match(r"char\[\d+\]$", t): return "string"
    if t in ("unsignedint", "int", "uint32_t", "unsignedshort", "short", "unsignedchar", "char", "bool", "uint16_t", "uint8_t", "signedchar"): return "32-bit integer"
    if t in ("unsignedlong", "long", "size_t", "uint64_t", "unsignedlonglong", "longlong"): return "64-bit integer"
    return None


def literals(f, e, x, depth=0):
    """the string literals an expression can denote at event e, or None"""
    x = strip(x)
    if not is_expr(x) or depth > 6: return None
    if x[0] in ("cast", "ic"): return literals(f, e, x[3], depth + 1)
    if x[0] == "s": return [x[1]]
    if x[0] == "?":
        a, b = literals(f, e, x[2], depth + 1), literals(f, e, x[3], depth + 1)
        return None if a is None or b is None else a + b
    if x[0] == "v" and x[1] not in f.params:
        r = reaching(f, x[1], e)
        if r is None: return None
        out = []
        for d in r:
            l = literals(f, e, d, depth + 1)
            if l is None: return None
            out += l
        return out
    return None


def reaching(f, v, at):
    cache = f.__dict__.setdefault("_c21rd", {})
    if v not in cache:
        if v in f.address_taken(): cache[v] = None
        else:
            res = {}
            vals = {}
            def idx(x):
                k = json.dumps(x); vals[k] = x; return k
            def tr(st, e, b):
                if e.get("i") is not None or e["k"] == "call": res.setdefault(id(e), set()).update(st)
                if e["k"] == "decl" and e.get("v") == v: return frozenset([idx(e["init"])]) if e.get("init") is not None else frozenset(["?"]) if False else frozenset()
                if e["k"] == "asg" and strip(e["l_"]) == ["v", v]: return frozenset([idx(e["r"])])
                return st
            forward(f, frozenset(), tr, lambda a, b: a | b)
            cache[v] = (res, vals)
    if cache[v] is None: return None
    res, vals = cache[v]
    ks = res.get(id(at))
    return None if not ks else [vals[k] for k in ks]


def parse(lit): return [lit[i + 1] if i + 1 < len(lit) else "" for i in range(len(lit)) if lit[i] == "$"]


def field_ty(p, f, x):
    x = strip(x)
    if x[0] in ("ic", "cast"): return x[1]
    if x[0] == "v":
        for i, v in enumerate(f.params):
            if v == x[1]: return f.ptypes[i]
        for e in f.events():
            if e["k"] == "decl" and e["v"] == x[1]: return e.get("ty")
    if x[0] == "m":
        for r in p.recs.values():
            if r["q"] == x[3] or r["q"].split("::")[-1] == x[3]:
                for fl in r["fields"]:
                    if fl[0] == x[2]: return fl[1]
    return None


def language(ctx, p):
    ctx.rule("directive", "every case of a `$` formatter reads exactly the arguments it accounts for and writes no more than the reserved bound")
    ctx.rule("call", "every call of a `$` formatter passes a known literal, its length, and one argument of the right type per consuming directive")
    fm = formatters(p)
    tables = {}
    for f, (sw, cs) in fm.items():
        cnt, bd = counter(f), bound_of(p, f)
        loc = f.loc()
        if bd is None:
            ctx.violation("directive", "%s: reservation" % f.q, loc, "%s() doesn't reserve space proportional to the format length and the number of arguments before formatting" % f.q); continue
        tab = {}
        for ch, blk in cs:
            name = "%s: $%s" % (f.q, chr(ch))
            ps = case_paths(p, f, sw, blk)
            types = {tuple(va) for va, evs in ps}
            if not ps: continue
            if len({len(t) for t in types}) != 1 or len(next(iter(types))) > 1:
                ctx.violation("directive", name, f.loc({"l": f.blocks[blk].ev[0].get("l", f.line)} if f.blocks[blk].ev else None), "directive $%s reads a different number of arguments depending on the path" % chr(ch)); continue
            t = next(iter(types)); tab[chr(ch)] = t[0] if t else None
            w = f.blocks[blk].ev[0] if f.blocks[blk].ev else None
            where = f.loc(w)
            for va, evs in ps:
                if cnt:
                    d = 0
                    for e in evs:
                        if e["k"] == "inc" and strip(e["e"]) == ["v", cnt]: d += 1 if e["op"].startswith("++") or e["op"] == "++" else -1
                        if e["k"] == "asg" and strip(e["l_"]) == ["v", cnt] and e.get("op") in ("+=", "-="): d += (const_int(strip(e["r"])) or 0) * (1 if e["op"] == "+=" else -1)
                    if d != len(va): ctx.violation("directive", name + " count", where, "directive $%s consumes %d argument(s) but counts %d" % (chr(ch), len(va), d)); break
                # capacity
                tot, res, fin = Lin(), None, []
                for e in evs:
                    if e["k"] == "call" and nm(e) == "expand" and len(e["a"]) > 1: res = lin(f, e["a"][1])
                    c = write_cost(p, f, e)
                    if c is None: continue
                    if not isinstance(c, Lin): c = Lin(c=c)
                    tot = tot.add(c)
                    fin.append((e, c))
                if tot.t:
                    # text of unknown length: must be covered by a reservation of its own that also covers the rest of the format
                    guard = guards(f, evs)
                    need = [c for e, c in fin if c.t]
                    for c in need:
                        gl = res or guard
                        if gl is None: ctx.violation("directive", name + " reserve", where, "directive $%s appends a string of arbitrary length without reserving space for it" % chr(ch)); break
                        rest = gl.add(c, -1)
                        if not rest.nonneg() and not rest_ok(f, rest, bd, cnt): ctx.violation("directive", name + " reserve", where, "directive $%s reserves %r, which doesn't cover the string and the rest of the format" % (chr(ch), gl)); break
                        if not rest_ok(f, rest, bd, cnt): ctx.violation("directive", name + " reserve", where, "after directive $%s, the reservation leaves %r bytes for the rest of the format" % (chr(ch), rest)); break
                    else: ctx.ok("directive", 1)
                elif tot.c > 2 * bd[0] + bd[1] * len(va):
                    ctx.violation("directive", name + " size", where, "directive $%s can write %d bytes, but the bound only reserves %d" % (chr(ch), tot.c, 2 * bd[0] + bd[1] * len(va))); break
                else: ctx.ok("directive", 1, "%s: %s, up to %d bytes" % (name, t[0] if t else "no argument", tot.c))
        tables[f.q] = tab
        if bd[0] < 1: ctx.violation("directive", "%s: text" % f.q, loc, "%s() doesn't reserve one byte per format character" % f.q)
    # call sites
    dem = {}
    fns = sorted({e["fn"] for f in p.fns.values() for e in f.events() if nm(e) == "count_args" and e.get("fn")})
    if fns:
        r = subprocess.run(["c++filt"], input="\n".join(x.split("@")[0] for x in fns), stdout=subprocess.PIPE, text=True).stdout.split("\n")
        for x, o in zip(fns, r):
            m = re.match(r".*?count_args<(.*)>\(", o)
            dem[x] = [y.strip() for y in re.split(r",(?![^<\[]*[>\]])", m.group(1))] if m and m.group(1) else []
    for f in p.fns.values():
        for e in f.events():
            if e["k"] != "call" or e.get("q") not in tables or len(e["a"]) < 3: continue
            tab = tables[e["q"]]
            args = e["a"][3:]
            n = ["%s: %s" % (f.display, e["q"].split("::")[-1])]
            na = strip(e["a"][0])
            types = None
            while na[0] in ("ic", "cast"): na = strip(na[3])
            if na[0] == "ev":
                c = f.evi[na[1]]
                if nm(c) == "count_args": types = dem.get(c["fn"]); cnt = len(c["a"])
                else: continue
            else: cnt = const_int(na)
            lits = literals(f, e, e["a"][2])
            where = f.loc(e)
            if lits is None:
                ctx.notes.setdefault("unresolved formats", []).append(where) if hasattr(ctx, "notes") else None
                continue
            if types is None: types = [field_ty(p, f, a) or "?" for a in args]
            for lit in lits:
                short = lit.strip().replace("\n", "\\n")[:48]
                key = "%s: %s" % (f.display, short)
                dirs = parse(lit)
                bad = [d for d in dirs if d not in tab]
                if bad: ctx.violation("call", key, where, "unknown directive $%s in the format \"%s\"" % (bad[0], short)); continue
                want = [tab[d] for d in dirs if tab[d] is not None]
                if cnt != len(want) or len(args) != len(want):
                    ctx.violation("call", key, where, "the format \"%s\" consumes %d argument(s) but %d are passed" % (short, len(want), len(args) if len(args) != len(want) else cnt or 0)); continue
                ll = lin(f, e["a"][1])
                if ll is not None and not ll.t and ll.c not in [len(x) for x in lits]:
                    ctx.violation("call", key, where, "the length passed with the format (%d) isn't that of the literal" % ll.c); continue
                cons = [d for d in dirs if tab[d] is not None]
                for i, (d, w) in enumerate(zip(cons, want)):
                    a, b = cls(types[i]) if i < len(types) else None, cls(w)
                    if a and b and a != b:
                        ctx.violation("call", "%s [%d]" % (key, i + 1), where, "directive $%s of \"%s\" expects a %s but argument %d is a %s" % (d, short, b, i + 1, a)); break
                else: ctx.ok("call", 1, "%s: \"%s\" (%d arguments)" % (where, short, len(want)))
    return tables


def guards(f, evs):
    """slack established by a comparison of the cursor with the end of the buffer"""
    for e in evs:
        if e["k"] != "fact": continue
        c, v = e["c"], e["v"]
        if not is_expr(c) or c[0] != "bi" or c[1] not in ("<", "<=", ">", ">="): continue
        a, z, op = f.canon(c[2]), f.canon(c[3]), c[1]
        if is_expr(strip(a)) and strip(a)[0] == "m": a, z, op = z, a, {">=": "<=", ">": "<", "<": ">", "<=": ">="}[op]
        if strip(z)[0] != "m": continue
        if not v: op = {">=": "<", ">": "<=", "<": ">=", "<=": ">"}[op]
        l = lin(f, a)
        if l is None or op not in ("<", "<="): continue
        pos = [k for k in l.t if k.startswith("v:") and l.t[k] == 1 and k[2:] not in f.params and str(field_ty(f.prog, f, ["v", k[2:]])) == "char *"]
        if len(pos) == 1: return Lin({k: x for k, x in l.t.items() if k != pos[0]}, l.c - (1 if op == "<=" else 0))
    return None


def rest_ok(f, rest, bd, cnt):
    """rest >= bd0 * (end - p) + bd1 * (nargs - arg - 1), written in terms of the formatter's locals"""
    n, l = "v:" + f.params[0], "v:" + f.params[1]
    fp = "v:" + f.params[2]
    t = dict(rest.t)
    # an end pointer defined as format + length cancels against the format pointer
    pos = [v for k, v in t.items() if k in (n,)]
    okn = t.get(n, 0) >= bd[1] and (cnt is None or t.get("v:" + cnt, 0) >= -t.get(n, 0)) and rest.c >= -t.get(n, 0)
    okl = t.get(l, 0) >= bd[0] and all(v >= -t.get(l, 0) for k, v in t.items() if k not in (n, l, fp) and k != "v:%s" % cnt)
    return bool(okn and okl)


# ---------------------------------------------------------------- capacity of the buffer's member functions

def buffer_class(p):
    """the record with three char pointers and a private growth function"""
    for r in p.recs.values():
        fl = [x for x in r["fields"] if x[1] == "char *"]
        if r["q"] == "StringBuffer" or len(fl) == 3 and len(r["fields"]) == 3 and r["file"].startswith("src/"): return r
    return None


def capacity(ctx, p, fm):
    ctx.rule("reserve", "every append through the write position is covered by a reservation (capacity comparison or growth) of at least its size plus the terminator")
    ctx.rule("terminate", "a member function that moves the write position stores a terminator before it returns")
    ctx.rule("grow", "growing reserves the requested bytes plus one, and the new end corresponds to the new allocation")
    R = buffer_class(p)
    if R is None: raise core.AnalysisBroken("no text buffer class found")
    names = [x[0] for x in R["fields"]]
    cur = None
    mem = [f for f in p.fns.values() if f.blocks and f.q.startswith(R["q"] + "::") and f.file.startswith("src/") and f.q.count("::") == R["q"].count("::") + 1]
    # the position is the field that is advanced
    cnts = {}
    for f in mem:
        for e in f.events():
            if e["k"] == "asg" and e.get("op") in ("+=", "-=") and member(strip(e["l_"])) in names: cnts[member(strip(e["l_"]))] = cnts.get(member(strip(e["l_"])), 0) + 1
            if e["k"] == "inc" and member(strip(e["e"])) in names: cnts[member(strip(e["e"]))] = cnts.get(member(strip(e["e"])), 0) + 1
    if not cnts: raise core.AnalysisBroken("write position of the text buffer not recognized")
    cur = max(cnts, key=lambda k: cnts[k])
    grow = [f for f in mem if f.ret == "char *" and any(nm(e) in ("realloc_check", "realloc") for e in f.events())]
    end = None
    for f in grow:
        for e in f.events():
            if e["k"] == "asg" and member(strip(e["l_"])) in names and member(strip(e["l_"])) != cur:
                if strip(e["r"])[0] == "bi": end = member(strip(e["l_"]))
    if end is None: raise core.AnalysisBroken("end of the text buffer not recognized")

    def iscur(f, x): return member(strip(x)) == cur or strip(x)[0] == "v" and member(strip(f.canon(x))) == cur

    done = set()
    for f in mem:
        if f in fm or f in grow: continue
        nme = f.q.split("::")[-1]
        ident = "%s(%s)" % (f.q, ", ".join(f.ptypes))
        if re.search(r"char \(&\)\[\d+\]", ident) and ident.split("[")[0] in done: continue
        done.add(ident.split("[")[0])
        if "unchecked" in nme: continue
        # --- writes
        loops = {}
        for b in f.rpo():
            for h, body, _ in loops_of(f, b): loops[h] = (body, h)

        def size(e):
            if e["k"] == "call" and nm(e) in SPAN and len(e.get("a") or []) > 2:
                if not any(is_expr(x) and member(x) == cur for x in walk(f.canon(e["a"][0]))): return None
                return lin(f, e["a"][2])
            if e["k"] == "call" and (nm(e) in UNCHECKED or nm(e) == "put_unchecked"):
                c = write_cost(p, f, e); return c if isinstance(c, Lin) else Lin(c=c)
            if e["k"] == "call" and nm(e) in PRIM and e["a"] and any(is_expr(x) and member(x) == cur for x in walk(f.canon(e["a"][0]))): return Lin(c=PRIM[nm(e)])
            if e["k"] == "asg" and strip(e["l_"])[0] == "u" and strip(e["l_"])[1] == "*":
                inner = strip(e["l_"])[2]
                if const_int(strip(e["r"])) == 0 and strip(inner)[0] != "ev": return Lin(c=0) if iscur(f, inner) else None
                if strip(inner)[0] == "ev":
                    i = f.evi[strip(inner)[1]]
                    if i["k"] == "inc" and iscur(f, i["e"]): return Lin(c=1)
                if iscur(f, inner): return Lin(c=1)
            return None

        inl = set()
        pre = {}
        for h, (body, _) in loops.items():
            hb = f.blocks[h]
            tot = Lin()
            for b in body:
                for e in f.blocks[b].ev:
                    w = size(e)
                    if w is not None and (w.t or w.c): tot = tot.add(w)
            if not (tot.t or tot.c): continue
            lim = None
            for i in (0, 1):
                if len(hb.succ) == 2 and hb.succ[i] in body:
                    for c, v in facts(f, hb, i):
                        if c[0] == "bi" and v and c[1] in ("<", "!="): lim = lin(f, c[3])
                        if c[0] == "bi" and v and c[1] == ">": lim = lin(f, c[2])
                        if c[0] == "bi" and v and c[1] == "<=":
                            lim = lin(f, c[3]); lim = lim.add(Lin(c=1)) if lim else None
            inl |= body
            pre[h] = (tot.mul(lim.c) if lim is not None and not lim.t else lim.mul(tot.c) if lim is not None and not tot.t else None, body)
        bad = []
        uses = [0]

        def consume(st, w, e):
            uses[0] += 1
            if st == "none": bad.append((e, "without a preceding reservation")); return st
            r = Lin(dict(st[0]), st[1]).add(w, -1)
            if not r.add(Lin(c=-1)).nonneg(): bad.append((e, "of %r bytes with only %r reserved (including the terminator)" % (w, Lin(dict(st[0]), st[1])))); return "none"
            return (tuple(sorted(r.t.items())), r.c)

        def tr(st, e, b):
            if e["k"] == "call" and any(t in grow for t in p.targets(e)):
                l = lin(f, e["a"][1]) if len(e["a"]) > 1 else None
                return (tuple(sorted(l.t.items())), l.c + 1) if l else st
            if b.id in inl: return st
            w = size(e)
            if w is not None and (w.t or w.c): return consume(st, w, e)
            return st

        def edge(st, b, i):
            t = b.succ[i]
            for c, v in facts(f, b, i):
                if c[0] == "bi" and c[1] in (">=", ">", "<", "<="):
                    a, z = f.canon(c[2]), f.canon(c[3])
                    op = c[1]
                    if member(strip(a)) == end: a, z, op = z, a, {">=": "<=", ">": "<", "<": ">", "<=": ">="}[op]
                    if member(strip(z)) != end: continue
                    la = lin(f, a)
                    if la is None: continue
                    pos = [k for k in la.t if k.endswith("." + cur) or k.endswith("->" + cur) or k == cur]
                    if len(pos) != 1: continue
                    n = Lin({k: v2 for k, v2 in la.t.items() if k != pos[0]}, la.c)
                    if not v: op = {">=": "<", ">": "<=", "<": ">=", "<=": ">"}[op]
                    if op == "<": st = (tuple(sorted(n.t.items())), n.c + 1)
                    elif op == "<=": st = (tuple(sorted(n.t.items())), n.c)
            if t in pre and b.id not in pre[t][1]:
                w = pre[t][0]
                if w is None: return st
                st = consume(st, w, f.blocks[t].ev[0] if f.blocks[t].ev else {"l": f.line})
            return st

        def join(a, b):
            if a == b: return a
            if a == "none" or b == "none": return "none"
            return (a[0], min(a[1], b[1])) if a[0] == b[0] else "none"
        forward(f, "none", tr, join, edge)
        if bad: ctx.violation("reserve", ident, f.loc(bad[0][0]), "%s appends %s" % (ident, bad[0][1]))
        elif uses[0]: ctx.ok("reserve", 1, ident)
        # bounded formatting
        for b in f.blocks.values():
            for e in b.ev:
                if e["k"] == "call" and nm(e) in ("vsnprintf", "snprintf") and iscur(f, e["a"][0]):
                    l = lin(f, f.canon(e["a"][1]))
                    ok = l is not None and l.c <= 0 and any(k.endswith(end) and v == 1 for k, v in l.t.items()) and any(k.endswith(cur) and v == -1 for k, v in l.t.items())
                    if ok: ctx.ok("reserve", 1, "%s: bounded by the remaining capacity" % ident)
                    else: ctx.violation("reserve", ident + " bound", f.loc(e), "%s formats into the buffer with a limit that isn't the remaining capacity" % ident)
                if e["k"] == "asg" and e.get("op") == "+=" and member(strip(e["l_"])) == cur:
                    x = strip(e["r"])
                    while x[0] in ("ic", "cast"): x = strip(x[3])
                    if x[0] == "v" and any(is_expr(y) and y[0] == "ev" and nm(f.evi[y[1]]) in ("vsnprintf", "snprintf") for k, d, _ in f.defs().get(x[1], []) if d is not None for y in walk(d)):
                        good = False
                        for fs in dom_facts(f, b):
                            for c, v in flat(f, fs):
                                if c[0] == "bi" and c[1] in ("<", ">=") and (c[1] == "<") == bool(v):
                                    l = lin(f, f.canon(c[2]))
                                    if l is not None and l.c >= 0 and member(strip(f.canon(c[3]))) == end and any(k.endswith(cur) for k in l.t): good = True
                                if c[0] == "bi" and c[1] in (">", "<=") and (c[1] == ">") == bool(v):
                                    l = lin(f, f.canon(c[3]))
                                    if l is not None and l.c >= 0 and member(strip(f.canon(c[2]))) == end and any(k.endswith(cur) for k in l.t): good = True
                        if good: ctx.ok("reserve", 1, "%s: advance within capacity" % ident)
                        else: ctx.violation("reserve", ident + " advance", f.loc(e), "%s advances the write position by the formatted length without establishing that it (and the terminator) fit" % ident)
        # --- termination
        if f.ret == "char *": continue
        special = nme in (R["q"].split("::")[-1], "~" + R["q"].split("::")[-1], "operator=", "swap")
        if special: continue

        def tr2(st, e, b):
            if e["k"] == "asg" and strip(e["l_"])[0] in ("u", "ix") and const_int(strip(e["r"])) == 0: return 0
            if e["k"] == "asg" and member(strip(e["l_"])) == cur:
                rr = strip(f.canon(e["r"]))
                if any(t in grow for x in walk(e["r"]) if is_expr(x) and x[0] == "ev" for t in p.targets(f.evi[x[1]])): return st
                y = strip(e["r"])
                while y[0] in ("ic", "cast"): y = strip(y[3])
                if y[0] == "v" and any(is_expr(x) and x[0] == "ev" and nm(f.evi[x[1]]) in ("vsnprintf", "snprintf") for k, d, _ in f.defs().get(y[1], []) if d is not None for x in walk(d)): return 0
                return (e.get("l") or 1)
            if e["k"] == "inc" and member(strip(e["e"])) == cur: return e.get("l") or 1
            if e["k"] == "call" and "unchecked" in nm(e): return e.get("l") or 1
            return st
        used = [False]

        def edge2(st, b, i):
            for c, v in facts(f, b, i):
                if c[0] == "bi" and c[1] in ("==", "!=") and (c[1] == "==") == bool(v) and end in (member(strip(c[2])), member(strip(c[3]))): return 0   # no storage at all
            return st
        # bodies of loops that only move the position are fine as long as a store follows
        if not any(tr2(0, e, None) for e in f.events()): continue
        ins = forward(f, 0, tr2, lambda a, b: a or b, edge2)
        st = ins.get(f.exit) if isinstance(ins, dict) else None
        out = 0
        for b in normal_exits(f):
            s = ins.get(b.id) if hasattr(b, "id") else ins.get(b)
            bl = b if hasattr(b, "id") else f.blocks[b]
            s = s or 0
            for e in bl.ev: s = tr2(s, e, bl)
            for i, t in enumerate(bl.succ):
                if t == f.exit: s = edge2(s, bl, i)
            out = out or s
        if out: ctx.violation("terminate", ident, f.loc({"l": out}), "%s moves the write position without storing a terminator" % ident)
        else: ctx.ok("terminate", 1, ident)
    for f in grow:
        alloc = None
        for e in f.events():
            if nm(e) in ("realloc_check", "realloc"): alloc = lin(f, e["a"][-1])
        size_v = None
        ok_end = False
        for e in f.events():
            if e["k"] == "asg" and member(strip(e["l_"])) == end:
                l = lin(f, e["r"])
                ok_end = l is not None and alloc is not None and {k: v for k, v in l.t.items() if not k.startswith("this")} == alloc.t and l.c <= alloc.c
        if not ok_end: ctx.violation("grow", f.q + " end", f.loc(), "%s() sets the end of the buffer to something other than start plus the allocated size" % f.q)
        else: ctx.ok("grow", 1)
        # exit condition of the growth loop: (length + requested + 1 <= capacity)
        par = f.params[-1]
        extra = 0
        for v, ds in f.defs().items():
            if v == par:
                for k, x, e in ds:
                    if e is not None and e.get("op") == "+=": extra += const_int(strip(e["r"])) or 0
        for e in f.events():
            if e["k"] == "inc" and strip(e["e"]) == ["v", par]: extra += 1
        best = None
        for b in f.blocks.values():
            if not b.term or b.term[0] not in ("while", "for", "do", "if"): continue
            for i in (0, 1):
                if len(b.succ) != 2: continue
                for c, v in facts(f, b, i):
                    if c[0] != "bi" or c[1] not in (">", ">=", "<", "<="): continue
                    x, y, op = lin(f, c[2]), lin(f, c[3]), c[1]
                    if x is None or y is None: continue
                    if op in (">", ">="): x, y, op = y, x, {">": "<", ">=": "<="}[op]     # x op y
                    if not v: x, y, op = y, x, {"<": "<=", "<=": "<"}[op]
                    d = y.add(x, -1)          # established: d >= 0 (or > 0)
                    if alloc is None or not all(d.t.get(k, 0) == v2 for k, v2 in alloc.t.items()): continue
                    if d.t.get("v:" + par, 0) != -1: continue
                    s = -d.c + (1 if op == "<" else 0) + extra
                    best = s if best is None else max(best, s)
        if best is not None and best < 1: ctx.violation("grow", f.q + " terminator", f.loc(), "%s() doesn't reserve a byte for the terminator" % f.q)
        else: ctx.ok("grow", 1)
    return R, mem


def flat(f, fs):
    out = []
    for c, v in fs: out += expand_fact(f, c, v)
    return out


def expand_fact(f, c, v):
    c = strip(f.canon(c))
    while is_expr(c) and (c[0] in ("ic", "cast") or c[0] == "u" and c[1] == "!" or c[0] == "ev"):
        if c[0] == "u": v = not v; c = strip(f.canon(c[2]))
        elif c[0] == "ev":
            e = f.evi[c[1]]
            if nm(e) == "__builtin_expect": c = strip(f.canon(e["a"][0]))
            else: break
        else: c = strip(f.canon(c[3]))
    if is_expr(c) and c[0] == "bi" and (c[1] == "||" and not v or c[1] == "&&" and v): return expand_fact(f, c[2], v) + expand_fact(f, c[3], v)
    return [(c, v)]


def facts(f, b, i):
    out = flat(f, edge_facts(f, b, i))
    return out


# ---------------------------------------------------------------- other users

def others(ctx, p, R, mem):
    ctx.rule("unchecked", "unchecked appends outside the buffer class only overwrite existing text (between two rewinds) or follow a reservation")
    ctx.rule("placeholder", "placeholders that are later overwritten by a 128-bit hexadecimal hash are 32 characters wide")
    ctx.rule("array", "bounded formatting into a character array names at most the size of the array")
    ctx.rule("arguments", "a va_list is consumed at most once per va_start/va_copy")
    memset = set(mem)
    for f in p.fns.values():
        if not f.blocks or not f.file.startswith(("src/", "include/")): continue
        evs = list(f.events())
        # unchecked appends
        if f not in memset and any(e["k"] == "call" and "_unchecked" in nm(e) and (e.get("q") or "").startswith(R["q"]) for e in evs):
            def tr(st, e, b):
                if e["k"] != "call" or not (e.get("q") or "").startswith(R["q"] + "::"): return st
                n = nm(e)
                if n.startswith("rewind"): return 32
                if n == "get" or n == "size": return st
                if n in UNCHECKED:
                    if not isinstance(st, int) or st < UNCHECKED[n]:
                        hits.append(e); return "none"
                    return st - UNCHECKED[n]
                if "_unchecked" in n: hits.append(e)
                return "none"
            hits = []
            forward(f, "none", tr, lambda a, b: a if a == b else (min(a, b) if isinstance(a, int) and isinstance(b, int) else "none"))
            ns = [e for e in evs if e["k"] == "call" and "_unchecked" in nm(e)]
            for e in ns:
                if any(h is e for h in hits): ctx.violation("unchecked", "%s: %s" % (f.display, nm(e)), f.loc(e), "%s() appends without checking the capacity of the buffer" % nm(e))
                else: ctx.ok("unchecked", 1, "%s: overwrites a placeholder" % f.loc(e))
        # placeholders
        for e in evs:
            for a in e.get("a") or []:
                if not is_expr(a): continue
                for x in walk(a):
                    if is_expr(x) and x[0] == "s" and isinstance(x[1], str):
                        for r in re.findall(r"\^{3,}", x[1]):
                            if len(r) == 32: ctx.ok("placeholder", 1, f.loc(e))
                            else: ctx.violation("placeholder", "%s: %d" % (f.display, len(r)), f.loc(e), "placeholder of %d characters is later overwritten by a hash of 32 characters" % len(r))
        # arrays
        for e in evs:
            if e["k"] == "call" and nm(e) in ("snprintf", "vsnprintf", "strncpy", "memcpy", "memset", "memmove") and len(e.get("a") or []) > 2:
                d = strip(e["a"][0])
                while d[0] in ("ic", "cast"): d = strip(d[3])
                ty = None
                if d[0] == "v": ty = field_ty(p, f, d)
                elif d[0] == "g" and d[1] in p.vars: ty = p.vars[d[1]]["ty"]
                m = re.match(r"(?:const )?(?:unsigned )?char ?\[(\d+)\]$", str(ty or ""))
                n = const_int(strip(e["a"][1 if nm(e) in ("snprintf", "vsnprintf") else 2]))
                if n is None:
                    l = lin(f, e["a"][1 if nm(e) in ("snprintf", "vsnprintf") else 2])
                    n = l.c if l is not None and not l.t else None
                if m is None or n is None:
                    # storage allocated with a constant size
                    if d[0] == "v" and n is not None and nm(e) in ("snprintf", "vsnprintf"):
                        ds = [x for k, x, _ in f.defs().get(d[1], []) if x is not None]
                        if len(ds) == 1:
                            x = strip(ds[0])
                            while x[0] in ("ic", "cast"): x = strip(x[3])
                            if x[0] == "ev" and nm(f.evi[x[1]]) in ("malloc_check", "malloc"):
                                c = const_int(strip(f.evi[x[1]]["a"][0]))
                                if c is not None:
                                    if n > c: ctx.violation("array", "%s: %s" % (f.display, d[1].split(":")[0]), f.loc(e), "%s() may write %d bytes to an allocation of %d" % (nm(e), n, c))
                                    else: ctx.ok("array", 1)
                    continue
                if n > int(m.group(1)): ctx.violation("array", "%s: %s" % (f.display, estr(d, f)), f.loc(e), "%s() may write %d bytes to an array of %d" % (nm(e), n, int(m.group(1))))
                else: ctx.ok("array", 1, "%s: %s()" % (f.loc(e), nm(e)))
        # va_list
        vl = {v for v, t in zip(f.params, f.ptypes) if "__va_list_tag" in t} | {e["v"] for e in evs if e["k"] == "decl" and "__va_list_tag" in str(e.get("ty"))}
        if not vl: continue
        hits2 = []

        def tr3(st, e, b):
            st = dict(st)
            if e["k"] == "decl" and e["v"] in vl: st[e["v"]] = "unset"
            if e["k"] == "call":
                n = nm(e)
                av = [strip(a)[1] if is_expr(a) and strip(a)[0] == "v" and strip(a)[1] in vl else None for a in e.get("a") or []]
                if n.endswith("va_start"): st[av[0]] = "fresh"
                elif n.endswith("va_copy"):
                    if av[1] is not None and st.get(av[1]) != "fresh": hits2.append((e, av[1], st.get(av[1])))
                    st[av[0]] = "fresh"
                elif n.endswith("va_end"): st[av[0]] = "unset"
                else:
                    for v in av:
                        if v is None: continue
                        if st.get(v) != "fresh": hits2.append((e, v, st.get(v)))
                        st[v] = "used"
            return tuple(sorted((k, v) for k, v in st.items() if k))
        forward(f, tuple(sorted((v, "fresh" if v in f.params else "unset") for v in vl)), tr3,
                lambda a, b: tuple(sorted((k, v if dict(b).get(k) == v else ("used" if "used" in (v, dict(b).get(k)) else "unset")) for k, v in a)))
        if hits2:
            e, v, s = hits2[0]
            ctx.violation("arguments", "%s: %s" % (f.display, v.split(":")[0]), f.loc(e), "the argument list '%s' is used %s" % (v.split(":")[0], "a second time without va_copy()" if s == "used" else "without va_start()/va_copy()"))
        else: ctx.ok("arguments", 1, f.loc())


# ---------------------------------------------------------------- printf

def printf(ctx, p, config):
    """the compiler's format checker over every translation unit"""
    ctx.rule("printf", "every printf-style call matches its format string (decided by the compiler's format checker on every translation unit)")
    flags = [x for x in core.BASE_FLAGS if x != "-w"] + core.CONFIGS[config]
    srcs = [s for s in core.sources(config) if s.startswith(core.REPO)]
    base = core._hash_tree(config)

    def one(s):
        h = hashlib.sha256((base + "fmt1").encode())
        with open(s, "rb") as fp: h.update(fp.read())
        c = os.path.join(core.CACHE, "fmt-%s-%s-%s" % (config, os.path.basename(s), h.hexdigest()[:20]))
        if os.path.exists(c):
            with open(c) as fp: return fp.read()
        r = subprocess.run(["clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"] + flags + ["-fsyntax-only", "-Wno-everything", "-Wformat", "-Wformat-security", "-fno-caret-diagnostics", "-fno-color-diagnostics", s], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=core.REPO)
        if r.returncode != 0: raise core.AnalysisBroken("format check failed: " + r.stdout[-800:])
        with open(c + ".tmp", "w") as fp: fp.write(r.stdout)
        os.replace(c + ".tmp", c)
        return r.stdout
    with ThreadPoolExecutor(8) as ex: outs = list(ex.map(one, srcs))
    seen = set()
    by = {}
    for f in p.fns.values(): by.setdefault(f.file, []).append(f)
    for s, o in zip(srcs, outs):
        for l in o.split("\n"):
            m = re.match(r"(.*?):(\d+):\d+: warning: (.*)", l)
            if not m: continue
            fl = core.rel(m.group(1)) if m.group(1).startswith("/") else m.group(1)
            ln = int(m.group(2))
            fs = [f for f in by.get(fl, []) if f.line <= ln]
            f = max(fs, key=lambda f: f.line) if fs else None
            if "format-security" in l and f is not None and pass_through(p, f): continue
            k = "%s: %s" % (f.q if f else fl, re.sub(r" \[-W.*", "", m.group(3))[:110])
            if k in seen: continue
            seen.add(k)
            ctx.violation("printf", k, "%s:%d" % (fl, ln), m.group(3))
    n = sum(1 for f in p.fns.values() for e in f.events() if e["k"] == "call" and nm(e) in ("jitc_log", "jitc_raise", "jitc_fail", "jitc_trace", "snprintf", "fprintf", "printf", "fmt", "jit_raise", "jit_fail", "jitc_raise_dirty_error"))
    ctx.ok("printf", n, "%d translation units" % len(srcs))


def pass_through(p, f):
    """a helper that hands a format of its own callers on, all of which pass plain literals"""
    cs = p.callers().get(f.key, [])
    lits = [x for g, e in cs for a in (e.get("a") or []) for x in [strip(a)] if is_expr(x) and x[0] == "s"]
    return bool(cs) and len(lits) >= len(cs) and not any("%" in x[1] for x in lits)


def run(ctx):
    for cfg in (["full"] if ctx.tier == "quick" else ["full", "llvm", "debug", "nooptix"]):
        p = ctx.prog(cfg)
        for f in p.fns.values(): f.prog = p
        fm = formatters(p)
        language(ctx, p)
        R, mem = capacity(ctx, p, fm)
        others(ctx, p, R, mem)
        printf(ctx, p, cfg)
    ctx.floor("directive", 10); ctx.floor("call", 100); ctx.floor("reserve", 3); ctx.floor("terminate", 3); ctx.floor("arguments", 3); ctx.floor("printf", 100)
    ctx.assume("the digit writers emit at most 10/20/8/16 characters (their arithmetic isn't re-proved) and the type name tables hold at most 6 characters per row")
