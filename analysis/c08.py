"""C08: operation kinds, element types and reductions are handled or rejected by every stage.

Everything is derived from the enumerations themselves: tables by the enumeration that indexes them, switches by the
enumerators they list, element types by the C++ type a case works on."""
import re
from collections import defaultdict
from difflib import SequenceMatcher
from .core import strip, walk, is_expr, const_int, dead_end, edge_facts, estr

# enumerators that denote no value an operation can have
NONVALUES = {"VarType": {"Void", "BaseInt", "BaseFloat", "Count"}, "VarKind": {"Invalid", "Count"}, "JitBackend": {"None", "Count"},
             "ReduceOp": {"Count"}, "JitOp": {"Count"}}
# number of listed enumerators that makes a switch a stage rather than a special case
STAGE = {"VarKind": 30, "VarType": 6, "ReduceOp": 5, "JitOp": 8, "JitBackend": 3}
INTS = {"Int8": (8, "s"), "UInt8": (8, "u"), "Int16": (16, "s"), "UInt16": (16, "u"), "Int32": (32, "s"), "UInt32": (32, "u"), "Int64": (64, "s"), "UInt64": (64, "u")}
FLTS = {"Float16": 16, "Float32": 32, "Float64": 64}
TYPES = dict(INTS, Bool=(1, "b"), Pointer=(64, "u"), **{k: (v, "f") for k, v in FLTS.items()})
CPP = {"bool": (1, "b"), "signed char": (8, "s"), "char": (8, "s"), "unsigned char": (8, "u"), "short": (16, "s"), "unsigned short": (16, "u"),
       "int": (32, "s"), "unsigned int": (32, "u"), "long": (64, "s"), "unsigned long": (64, "u"), "long long": (64, "s"), "unsigned long long": (64, "u"),
       "float": (32, "f"), "double": (64, "f"), "drjit::half": (16, "f")}
MANGLED = {"b": "bool", "a": "signed char", "c": "char", "h": "unsigned char", "s": "short", "t": "unsigned short", "i": "int", "j": "unsigned int",
           "l": "long", "m": "unsigned long", "x": "long long", "y": "unsigned long long", "f": "float", "d": "double", "N5drjit4halfE": "drjit::half"}
# operation kinds that the front end creates for some backends only -> backends whose generator doesn't know them
PARTIAL = {"Sin": "llvm", "Cos": "llvm", "Exp2": "llvm", "Log2": "llvm", "Tanh": "llvm", "DivApprox": "llvm", "SqrtApprox": "llvm", "Rcp": "llvm", "RcpApprox": "llvm",
           "TexLookup": "llvm", "TexFetchBilerp": "llvm", "TexLookupLod": "llvm", "TexLookupGrad": "llvm", "TexWrite": "llvm",
           "ReorderThread": "llvm metal", "VectorLoad": "llvm metal", "CallMask": "cuda metal", "DefaultMask": "cuda metal", "ThreadIndex": "cuda metal",
           "CoopVecUnaryOp": "llvm"}
# produced by evaluation instead of by an operation; generators treat it through Variable::is_evaluated()
NOT_GENERATED = {"Evaluated", "Invalid", "Count"}


def run(ctx):
    for r, d in (("table", "a table indexed by an enumeration has exactly one entry per enumerator, and each entry matches the enumerator at its position"),
                 ("index", "a table indexed by one enumeration is not indexed by a value of another one"),
                 ("stage", "a switch that implements a stage lists every enumerator or rejects the others; no path leaves it without an outcome"),
                 ("dispatch", "the C++ type that a case works on is the one its enumerator denotes; sizes select types of that size"),
                 ("kind", "every kind the front end creates is handled by the code generator of each backend that can reach it"),
                 ("operation", "a public operation, its dispatcher entry, and the kind it creates agree"),
                 ("mnemonic", "the instructions that a case of a code generator emits belong to its operation and to the signedness it tests for, and exist"),
                 ("literal", "a constant passed along with its element type has the C++ type and size this denotes")):
        ctx.rule(r, d)
    for cfg in (["full"] if ctx.tier == "quick" else ["full", "cuda", "llvm", "debug"]):
        p = ctx.prog(cfg)
        tabs = tables(ctx, p)
        index(ctx, p, tabs)
        switches(ctx, p)
        kinds(ctx, p, cfg)
        operations(ctx, p)
        literals(ctx, p)
        selections(ctx, p)
    ctx.floor("table", 20); ctx.floor("stage", 25); ctx.floor("dispatch", 60); ctx.floor("kind", 80); ctx.floor("operation", 40); ctx.floor("literal", 10); ctx.floor("mnemonic", 80)
    ctx.assume("Objective-C++ units (*.mm) and the CUDA/Metal device code in resources/ are not analysed.")
    ctx.assume("The plain-C declarations of jit.h cannot be compiled as C and are not part of the analysed interface.")


# ---- tables ------------------------------------------------------------------------------------------------------

def enum_vals(p, en):
    v = p.enums.get(en)
    if not v: return None
    vals = [(n, k) for n, k in v["vals"] if n != "Count"]
    return [n for n, k in sorted(vals, key=lambda x: x[1])] if [k for n, k in sorted(vals, key=lambda x: x[1])] == list(range(len(vals))) else None


def entries(init):
    """(declared length, entries) of an array initialiser"""
    x = init
    for _ in range(6):
        if not is_expr(x): return None
        if x[0] == "ctor" and len(x) == 3: x = x[2]; continue
        if x[0] in ("ic", "cast"): x = x[3]; continue
        if x[0] == "il" and len(x) == 3 and is_expr(x[2]) and x[2][0] == "il" and not re.search(r"\[\d+\]$", x[1]): x = x[2]; continue
        break
    if x[0] != "il": return None
    m = re.search(r"\[(\d+)\]", x[1])
    return (int(m.group(1)), x[2:]) if m else None


def idx_enum(f, e, p, d=0):
    """enumeration whose value an index expression carries"""
    e0 = e
    while is_expr(e) and d < 12:
        d += 1
        if e[0] in ("cast", "ic"):
            if e[2].replace("const ", "") in p.enums: return e[2].replace("const ", "")
            e = e[3]; continue
        if e[0] == "e": return e[1].rsplit("::", 1)[0]
        if e[0] == "m" and e[3] in ("Variable", "WeakRefKey"):
            return {"kind": "VarKind", "type": "VarType", "backend": "JitBackend"}.get(e[2])
        if e[0] == "v":
            u = f.unique_def(e[1])
            if u is None: return None
            e = u; continue
        return None
    return None


def tables(ctx, p):
    uses = defaultdict(lambda: defaultdict(int))
    for f in p.repo_fns("src/"):
        for e in f.events():
            for x in exprs(e):
                if x[0] == "ix" and gtab(x[1]):
                    en = idx_enum(f, x[2], p)
                    if en: uses[gtab(x[1])][en] += 1
            if e["k"] == "call" and e.get("q", "").startswith("NameTable") and e.get("obj") and gtab(e["obj"]) and e["a"]:
                en = idx_enum(f, e["a"][0], p)
                if en: uses[gtab(e["obj"])][en] += 1
    out = {}
    for q, v in sorted(p.vars.items()):
        if not v["file"].startswith(("src/", "include/")) or "init" not in v: continue
        t = entries(v["init"])
        if not t or t[0] < 4: continue
        n, ent = t
        en = max(uses[q], key=uses[q].get) if uses.get(q) else None
        if en is None:                      # never indexed by an expression of known type: go by the length and the contents
            c = [k for k in p.enums if enum_vals(p, k) and "Count" in [a for a, _ in p.enums[k]["vals"]] and len(enum_vals(p, k)) == n and resembles(ent, enum_vals(p, k), k)]
            if len(c) != 1: continue
            en = c[0]
        vals = enum_vals(p, en)
        if not vals: continue
        out[q] = en
        where = "%s:%d" % (v["file"], v["line"])
        name = q.split("@")[0]
        if not ent and n == len(vals) or "][" in v["ty"] and n == len(vals):
            ctx.ok("table", 1, "%s: %d elements indexed by %s" % (name, n, en)); continue
        if n != len(vals) or len([x for x in ent if not (is_expr(x) and x[0] in ("ivi", "null"))]) != len(vals):
            ctx.violation("table", "%s|size" % name, where, "'%s' is indexed by %s, which has %d enumerators, but it has %d entries in %d elements" % (name, en, len(vals), len(ent), n))
            continue
        bad = contents(en, vals, ent)
        if bad: ctx.violation("table", "%s|%s" % (name, bad[0]), where, "'%s': the entry of %s::%s is %s" % (name, en, bad[0], bad[1]))
        else: ctx.ok("table", 1, "%s: one entry for each of the %d enumerators of %s" % (name, len(vals), en))
    return out


def exprs(e):
    for k in ("a", "obj", "e", "l_", "r", "init", "ce"):
        if k in e and e[k] is not None:
            for y in (e[k] if k == "a" else [e[k]]):
                yield from walk(y)


def gtab(x):
    x = strip(x)
    while is_expr(x) and x[0] in ("cast", "ic"): x = strip(x[3])
    return x[1] if is_expr(x) and x[0] == "g" else None


norm = lambda s: re.sub(r"[^a-z0-9]", "", s.lower())
string = lambda x: x[1] if is_expr(strip(x)) and strip(x)[0] == "s" and isinstance((x := strip(x))[1], str) else None


def sim(a, b):
    a, b = norm(a), norm(b)
    return 1.0 if a == b else SequenceMatcher(None, a, b).ratio()


def resembles(ent, vals, en):
    s = [string(x) for x in ent]
    if any(x is None for x in s): return False
    return sum(sim(a, b) > 0.6 for a, b in zip(s, vals)) >= 0.6 * len(vals)


def contents(en, vals, ent):
    """first entry that doesn't belong to its enumerator -> (enumerator, description)"""
    s = [string(x) for x in ent]
    if all(x is not None for x in s):
        if resembles(ent, vals, en):
            for i, (a, v) in enumerate(zip(s, vals)):
                best = max(sim(a, w) for w in vals)
                if sim(a, v) < best - 1e-9 and best > 0.75: return v, "\"%s\", the name of %s" % (a, next(w for w in vals if sim(a, w) == best))
            return None
        if en == "VarType": return type_words(vals, s)
        if en == "ReduceOp":
            for a, v in zip(s, vals):
                for w in vals:
                    if w != v and norm(a) == norm(w): return v, "\"%s\"" % a
        return None
    c = [const_int(x) if is_expr(x) else None for x in ent]
    if all(x is not None for x in c):
        if en == "VarType": return type_values(vals, c)
    return None


def type_values(vals, c):
    roles = {}
    def role(n, f): roles[n] = {t: f(*TYPES[t]) for t in vals if t in TYPES}
    role("size", lambda b, k: max(b // 8, 1))
    role("all ones", lambda b, k: (1 << b) - 1)
    one = {16: 0x3c00, 32: 0x3f800000, 64: 0x3ff0000000000000}
    inf = {16: 0x7c00, 32: 0x7f800000, 64: 0x7ff0000000000000}
    role("one", lambda b, k: one[b] if k == "f" else 1)
    role("minimum", lambda b, k: inf[b] | 1 << (b - 1) if k == "f" else 1 << (b - 1) if k == "s" else 0)
    role("maximum", lambda b, k: inf[b] if k == "f" else (1 << (b - 1)) - 1 if k == "s" else (1 << b) - 1)
    got = dict(zip(vals, c))
    if len(set(c)) > 8 and all(32 <= x < 127 for x in c): return distinct(vals, c)
    n, r = max(roles.items(), key=lambda x: sum(got[t] == v for t, v in x[1].items()))
    if sum(got[t] == v for t, v in r.items()) < 9: return None
    for t, v in r.items():
        if got[t] & (1 << 64) - 1 != v and not (t == "Pointer" and n == "one"): return t, "%#x, expected its %s (%#x)" % (got[t], n, v)
    return None


def distinct(vals, c):
    seen = {}
    for v, x in zip(vals, c):
        if v not in TYPES: continue
        if x in seen or x == ord("?"): return v, "'%c', the code of %s" % (x, seen.get(x, "an invalid type"))
        seen[x] = v
    return None


def word(w):
    """name of a type in some language -> (bits, class: s/u/f/b/n) ; n: integer without sign"""
    w0 = w.strip().lstrip("%")
    if w.startswith("%"): return {"p": (1, "b"), "b": (8, "n"), "w": (16, "n"), "r": (32, "n"), "rd": (64, "n"), "h": (16, "f"), "f": (32, "f"), "d": (64, "f")}.get(w0)
    t = {"pred": (1, "b"), "bool": (1, "b"), "i1": (1, "b"), "half": (16, "f"), "float": (32, "f"), "double": (64, "f"), "char": (8, "s"), "uchar": (8, "u"), "short": (16, "s"),
         "ushort": (16, "u"), "int": (32, "s"), "uint": (32, "u"), "long": (64, "s"), "ulong": (64, "u"), "ptr": (64, "n"), "pointer": (64, "n")}.get(w0)
    if t: return t
    m = re.fullmatch(r"(i|s|u|b|f|int|uint|float)(8|16|32|64|128)", w0)
    if m: return int(m.group(2)), {"i": "i", "s": "s", "u": "u", "b": "n", "f": "f", "int": "s", "uint": "u", "float": "f"}[m.group(1)]
    return None


def type_words(vals, s):
    got = dict(zip(vals, s))
    if all(re.fullmatch(r"\d|\?+", x.strip()) for x in s):
        for t, (b, k) in TYPES.items():
            if got[t] != str(max(b // 8, 1)): return t, "\"%s\", expected its size in bytes" % got[t]
        return None
    W = {t: word(got[t]) for t in TYPES if t in got}
    if sum(w is not None for w in W.values()) < 6: return None
    ratio = [W[t][0] // INTS[t][0] for t in INTS if W.get(t)]
    k = max(set(ratio), key=ratio.count) if ratio else 1
    for t, (b, c) in TYPES.items():
        w = W.get(t)
        if w is None:
            grp = [x for x in TYPES if (x in INTS) == (t in INTS) and (x in FLTS) == (t in FLTS) and x not in ("Bool", "Pointer")]
            if (t in INTS or t in FLTS) and any(W.get(x) for x in grp): return t, "\"%s\", which names no type" % got[t]
            continue
        if t == "Float64" and w[0] == 32 and W.get("Float32", (0,))[0] == 32 and "uint" in (got["UInt32"], got["Float32"]): continue       # Metal has no double precision type
        if t == "Bool":
            if w[0] > 8 or w[1] == "f": return t, "\"%s\"" % got[t]
            continue
        if w[0] != b * (k if t in INTS else 1): return t, "\"%s\", a type of %d bits" % (got[t], w[0])
        if c in "su" and w[1] in "fb": return t, "\"%s\", which isn't an integer type" % got[t]
        if c == "f" and w[1] == "s": return t, "\"%s\"" % got[t]
    fl = [W[t][1] == "f" for t in FLTS if W.get(t)]
    if any(fl) and not all(fl): return next(t for t in FLTS if W[t][1] != "f"), "no floating point type, unlike the others"
    for b in ("8", "16", "32", "64"):
        a, u = W.get("Int" + b), W.get("UInt" + b)
        if not a or not u: continue
        if got["Int" + b] == got["UInt" + b]:
            if a[1] == "s": return "UInt" + b, "\"%s\", a signed type" % got["UInt" + b]
            if all(W.get("Int" + x) and W["Int" + x] != W["UInt" + x] for x in ("8", "16", "32", "64") if x != b): return "UInt" + b, "\"%s\" for both signed and unsigned" % got["Int" + b]
        elif a[1] == "u" or u[1] not in ("u",): return "Int" + b, "\"%s\", while UInt%s is \"%s\"" % (got["Int" + b], b, got["UInt" + b])
    return None


def index(ctx, p, tabs):
    for f in p.repo_fns("src/") + p.repo_fns("include/"):
        for e in f.events():
            cand = [(gtab(x[1]), x[2]) for x in exprs(e) if x[0] == "ix"]
            if e["k"] == "call" and e.get("obj") and e["a"] and e.get("q", "").endswith("operator[]"): cand.append((gtab(e["obj"]), e["a"][0]))
            for q, i in cand:
                if q not in tabs: continue
                en = idx_enum(f, i, p)
                if en is None: continue
                if en != tabs[q] and en in p.enums:
                    ctx.violation("index", "%s|%s" % (f.display, q), f.loc(e), "'%s' has an entry per %s, but is indexed by a %s" % (q, tabs[q], en))
                else: ctx.ok("index", 1)


# ---- switches ----------------------------------------------------------------------------------------------------

def parse_switch(f, blk):
    """-> (enum, {enumerator: block}, default block, has a default label)"""
    cases, dflt, lab = {}, None, False
    en = None
    for s in blk.succ:
        if s is None: continue
        for l in labels(f, s):
            if l[0] == "case":
                x = strip(l[1])
                if is_expr(x) and x[0] == "e":
                    en = x[1].rsplit("::", 1)[0]; cases[x[1].rsplit("::", 1)[1]] = s
                elif const_int(l[1]) is not None: cases[const_int(l[1])] = s
            elif l[0] == "default": dflt, lab = s, True
        if not labels(f, s): dflt = s
    return en, cases, dflt, lab


def labels(f, b):
    l = f.blocks[b].label
    return [l] if l and l[0] in ("case", "default") else []


def all_switches(p):
    for f in p.repo_fns("src/") + p.repo_fns("include/"):
        for blk in list(f.blocks.values()) if isinstance(f.blocks, dict) else f.blocks:
            if blk.term and blk.term[0] == "switch": yield f, blk


def escapes(f, start, pruned):
    """can the function return normally from block start?  pruned: (block, succ index) -> edge impossible"""
    seen, todo = set(), [start]
    while todo:
        b = todo.pop()
        if b in seen or b is None: continue
        seen.add(b)
        blk = f.blocks[b]
        if dead_end(f, blk): continue
        if b == f.exit or any(e["k"] == "ret" for e in blk.ev): return b
        for i, s in enumerate(blk.succ):
            if s is not None and not pruned(blk, i): todo.append(s)
    return None


def sets(f, blocks):
    """locals and members assigned in the given blocks"""
    out = set()
    for b in blocks:
        for e in f.blocks[b].ev:
            if e["k"] == "asg":
                x = strip(e["l_"])
                if is_expr(x) and x[0] == "v": out.add(x[1])
    return out


def region(f, start, stop):
    """blocks reachable from start without entering stop"""
    seen, todo = set(), [start]
    while todo:
        b = todo.pop()
        if b in seen or b in stop or b is None: continue
        seen.add(b); todo += f.blocks[b].succ
    return seen


def post_reach(f, b):
    seen, todo = set(), [s for s in f.blocks[b].succ if s is not None]
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x); todo += [s for s in f.blocks[x].succ if s is not None]
    return seen


def switches(ctx, p):
    done = set()
    for f, blk in all_switches(p):
        en, cases, dflt, lab = parse_switch(f, blk)
        key = (f.file if hasattr(f, "file") else "", f.loc().rsplit(":", 1)[0], f.display, len(cases), str(en))
        R = {c: post_reach(f, b) | {b} for c, b in cases.items()}
        join = set.intersection(*R.values()) if R else set()
        if dflt is not None: join &= post_reach(f, dflt) | {dflt}
        own = {c: region(f, b, join | {x for o, x in cases.items() if x != b} | {dflt}) for c, b in cases.items()}
        if en in p.enums:
            disp = types_of_cases(ctx, p, f, blk, cases, own) if en == "VarType" else {}
            stage(ctx, p, f, blk, en, cases, dflt, own, bool(disp), key not in done)
            operation_cases(ctx, p, f, blk, en, cases, own)
            mnemonics(ctx, p, f, en, cases, own)
        elif cases and all(isinstance(c, int) for c in cases): sizes(ctx, p, f, blk, cases, own)
        done.add(key)


def stage(ctx, p, f, blk, en, cases, dflt, own, typed, count):
    vals = enum_vals(p, en)
    if not vals: return
    miss = [v for v in vals if v not in cases and v not in NONVALUES.get(en, ())]
    assigned = [sets(f, own[c]) for c in cases if not all(dead_end(f, f.blocks[b]) for b in own[c])]
    common = set.intersection(*assigned) if assigned else set()
    undef = set()
    for v in common:                                    # outcome variables without a value before the switch
        d = [x for x in f.defs().get(v, []) if x[0] == "decl"]
        if d and d[0][1] is None and len(f.defs()[v]) > 1: undef.add(v)
    big = len(cases) >= STAGE.get(en, 4)
    if not (big or typed or undef) or dflt is None:
        return
    name = f.display if not f.display.startswith("lambda") else "lambda in " + f.loc().split(":")[0]
    if not miss:
        ctx.ok("stage", 1 if count else 0, "%s lists every enumerator of %s" % (f.display, en)); return
    val = {}
    for v in set.union(*assigned) if assigned else ():
        d = [x for x in f.defs().get(v, []) if x[0] == "decl"]
        if d and d[0][1] is not None and (const_int(d[0][1]) is not None or strip(d[0][1])[0] == "null"): val[v] = const_int(d[0][1]) or 0
    for b in region(f, dflt, {b for c in cases for b in own[c]} - {dflt}):        # flags raised by the default case itself
        if f.exit == b or b not in region(f, dflt, set()): continue
        for e in f.blocks[b].ev if b == dflt else []:
            if e["k"] == "asg" and is_expr(strip(e["l_"])) and strip(e["l_"])[0] == "v" and const_int(e["r"]) is not None: val[strip(e["l_"])[1]] = const_int(e["r"])
    def pruned(b, i):
        for x, t in edge_facts(f, b, i):
            x = strip(x)
            if x[0] == "v" and x[1] in val and bool(val[x[1]]) != t: return True
            if x[0] == "bi" and x[1] in ("==", "!="):
                for a, c in ((x[2], x[3]), (x[3], x[2])):
                    a = strip(a)
                    if is_expr(a) and a[0] == "v" and a[1] in val and (const_int(c) is not None or is_expr(strip(c)) and strip(c)[0] == "null"):
                        if (val[a[1]] == (const_int(c) or 0)) != ((x[1] == "==") == t): return True
        return False
    d = region(f, dflt, set())
    if undef - sets(f, region(f, dflt, {b for c in cases for b in own[c]} - {dflt})):
        out = escapes(f, dflt, pruned)
        if out is not None and used_after(f, dflt, undef):
            ctx.violation("stage", "%s|%s" % (name, en), f.loc(), "for %s::%s, '%s' is used without having been given a value" % (en, miss[0], sorted(undef)[0].split(":")[0])); return
        ctx.ok("stage", 1 if count else 0); return
    out = escapes(f, dflt, pruned)
    if out is None: ctx.ok("stage", 1 if count else 0, "%s rejects the %d enumerators of %s it doesn't list" % (f.display, len(miss), en)); return
    if not (big or typed): return
    if f.ret == "bool": ctx.ok("stage", 1 if count else 0, "%s answers for every enumerator of %s" % (f.display, en)); return
    if outcome(f, dflt, {b for c in cases for b in own[c]} - {dflt}, cases, own): ctx.ok("stage", 1 if count else 0); return
    ctx.violation("stage", "%s|%s" % (name, en), f.loc(), "%s::%s%s is neither handled nor rejected" % (en, miss[0], " (and %d more)" % (len(miss) - 1) if len(miss) > 1 else ""))


def used_after(f, start, vs):
    for b in region(f, start, set()):
        for e in f.blocks[b].ev:
            for x in exprs(e):
                if x[0] == "v" and x[1] in vs: return True
        t = f.blocks[b].term
        if t and t[1] is not None and any(x[0] == "v" and x[1] in vs for x in walk(t[1])): return True
    return False


def outcome(f, dflt, stop, cases, own):
    """does the default path do the same kind of work as the cases (return a value, call the same function, assign the same variable)?"""
    def acts(bs):
        s = set()
        for b in bs:
            for e in f.blocks[b].ev:
                if e["k"] == "ret" and e.get("e") is not None: s.add("ret")
                if e["k"] == "call" and e.get("q"): s.add("call " + e["q"])
                if e["k"] == "asg" and is_expr(strip(e["l_"])): s.add("set " + estr(strip(e["l_"])))
        return s
    A = [acts(bs) for bs in own.values() if not all(dead_end(f, f.blocks[b]) for b in bs)]
    if not A: return True
    d = acts(region(f, dflt, stop))
    rets = sum("ret" in a for a in A)
    if rets > len(A) / 2:
        # a value that stands for 'none' (null, {} or 0) is a rejection by the caller's convention, anything computed an answer
        return "ret" in d
    return any(d & a for a in A)


# ---- element types -----------------------------------------------------------------------------------------------

def mangled_args(key):
    """template argument types of a mangled function name (single, scalar arguments only)"""
    out = []
    for m in re.finditer(r"I(N5drjit4halfE|[bahstijlmxydf])E", key or ""):
        out.append(MANGLED[m.group(1)])
    m = re.match(r"lambda@[^<]*<([^>]*)>", key or "")
    if m: out += [x for x in m.group(1).split(",") if x in CPP]
    return out


def evidence(f, blocks):
    """scalar types that the blocks work on: (type, how)"""
    out = []
    for b in blocks:
        for e in f.blocks[b].ev:
            if e["k"] == "call" and "memcpy" in e.get("q", "") and len(e["a"]) == 3:
                for a in e["a"][:2]:
                    x = strip(a)
                    if is_expr(x) and x[0] == "u" and x[1] == "&" and x[2][0] == "v":
                        t = [g["ty"] for g in f.events() if g["k"] == "decl" and g["v"] == x[2][1]]
                        if t and t[0] in CPP: out.append((t[0], "copies a variable of that type", e))
            elif e["k"] == "call":
                ts = mangled_args(e.get("fn"))
                if ts and deduced(f, e, ts[0]):            # follows from the arguments: an explicit conversion of one of them decides
                    for a in e["a"]:
                        if is_expr(a) and a[0] == "cast" and a[1] in CPP: out.append((a[1], "converts to %s" % a[1], e))
                    continue
                if len(set(ts)) == 1 and e.get("fn", "").startswith(("_Z", "lambda@")) and not e.get("q", "").startswith(("std::", "drjit::half")) and "N5drjit4halfC" not in e["fn"] and "count_args" not in e["fn"]: out.append((ts[0], "calls %s<%s>()" % (e["q"], ts[0]), e))
            elif e["k"] == "deref":
                x = e["e"]
                if is_expr(x) and x[0] in ("u", "ix"):
                    y = x[2] if x[0] == "u" else x[1]
                    if is_expr(y) and y[0] == "cast":
                        t = y[1].replace("const ", "").rstrip(" *")
                        if y[1].count("*") == 1 and t in CPP: out.append((t, "accesses memory as %s" % t, e))
    return out


def deduced(f, e, t):
    """is the template argument of the called function deduced from a parameter?"""
    if e["fn"].startswith("lambda@"): return True
    m = re.search(r"I(?:N5drjit4halfE|[bahstijlmxydf])E+(.*)$", e["fn"].split("@")[0])
    return bool(m) and "T_" in m.group(1)[m.group(1).startswith("T_") and 2 or m.group(1).startswith("PT_") and 3 or 0:]


def types_of_cases(ctx, p, f, blk, cases, own):
    res, per = {}, {}
    for c, bs in own.items():
        if c not in TYPES: continue
        shared = [o for o, b in cases.items() if b == cases[c]]
        ev = evidence(f, bs)
        if ev: per[c] = ev
    if len(per) < 2: return {}
    for c, b in cases.items():                          # a case that falls through into another one
        if c not in TYPES or c in per: continue
        x, n = b, 0
        while n < 8 and not f.blocks[x].ev and len([s for s in f.blocks[x].succ if s is not None]) == 1:
            x = f.blocks[x].succ[0]; n += 1
            o = [k for k, bb in cases.items() if bb == x and k in per]
            if o:
                for t, how, e in per[o[0]]:
                    if CPP[t][0] != max(TYPES[c][0], 8) or (CPP[t][1] == "f") != (TYPES[c][1] == "f"):
                        ctx.violation("dispatch", "%s|%s" % (f.display, c), f.loc(e), "the case of VarType::%s %s" % (c, how)); break
                break
    # several types may deliberately share one instantiation per width (bit patterns, two's complement sums)
    for c, ev in per.items():
        b, k = TYPES[c]
        bad = None
        for t, how, e in ev:
            tb, tk = CPP[t]
            other = "Int" + c[4:] if c.startswith("UInt") else "U" + c if c.startswith("Int") else None
            if tb == b and (tk == k or k in "su" and tk in "su" and fold_sign(p, e)): continue
            if c == "Pointer" and tb == 64 and tk != "f": continue
            if c == "Bool" and tb == 8: continue
            bad = (t, how, e); break
        name = f.display if not f.display.startswith("lambda") else "lambda in " + f.loc().split(":")[0]
        if bad: ctx.violation("dispatch", "%s|%s" % (name, c), f.loc(bad[2]), "the case of VarType::%s %s" % (c, bad[1]))
        else: ctx.ok("dispatch", 1, "%s: VarType::%s works on %s" % (f.display, c, ev[0][0])); res[c] = ev
    return res or {"?": 1}


def fold_sign(p, e):
    """sums and products of signed integers wrap around like those of unsigned ones"""
    return e["k"] == "call" and re.search(r"(add|mul)$", e.get("q", "")) is not None


def sizes(ctx, p, f, blk, cases, own):
    std = {1, 2, 4, 8}
    got = set(cases) & std
    if len(got) < 3 or set(cases) - std - {16, 32}: return
    name = f.display if not f.display.startswith("lambda") else "lambda in " + f.loc().split(":")[0]
    miss = std - set(cases)
    if miss: ctx.violation("dispatch", "%s|size%d" % (name, min(miss)), f.loc(), "elements of %d bytes are not handled" % min(miss)); return
    for c in sorted(got):
        bad = None
        for t, how, e in evidence(f, own[c]):
            if max(CPP[t][0] // 8, 1) != c and not (t in ("unsigned char", "char") and c != 1 and False): bad = (how, e)
        for b in own[c]:
            for e in f.blocks[b].ev:
                if e["k"] == "asg" and is_expr(strip(e["r"])) and strip(e["r"])[0] == "e" and strip(e["r"])[1].startswith("VarType::"):
                    t = strip(e["r"])[1][9:]
                    if t in TYPES and max(TYPES[t][0] // 8, 1) != c: bad = ("uses VarType::" + t, e)
        if bad: ctx.violation("dispatch", "%s|size%d" % (name, c), f.loc(bad[1]), "the case for elements of %d bytes %s" % (c, bad[0]))
        else: ctx.ok("dispatch", 1, "%s: elements of %d bytes" % (f.display, c))


# ---- kinds -------------------------------------------------------------------------------------------------------

def kind_mentions(x, cmp=False, out=None):
    """VarKind constants used as values / compared with"""
    out = out if out is not None else (set(), set())
    if isinstance(x, list):
        if x and x[0] == "e" and isinstance(x[1], str) and x[1].startswith("VarKind::"): out[1 if cmp else 0].add(x[1][9:])
        c = cmp or (len(x) > 1 and x[0] == "bi" and x[1] in ("==", "!=", "<", "<=", ">", ">="))
        for y in x:
            if isinstance(y, list): kind_mentions(y, c, out)
    return out


def created(p):
    """kinds given to new variables -> functions"""
    out = defaultdict(set)
    for f in p.repo_fns("src/"):
        for e in f.events():
            if e["k"] == "call" and e.get("q", "").startswith("jitc_var_new"):
                for a in e["a"]:
                    for k in kind_mentions(a)[0] | via_local(f, a): out[k].add(f)
            elif e["k"] == "asg" and is_expr(strip(e["l_"])) and strip(e["l_"])[0] == "m" and strip(e["l_"])[2:4] == ["kind", "Variable"]:
                for k in kind_mentions(e["r"])[0] | via_local(f, e["r"]): out[k].add(f)
            elif e["k"] in ("call", "ctor"):
                for a in e["a"]:                        # helpers that take the kind as a parameter
                    y = strip(a)
                    if e.get("fn") in p.fns and is_expr(y) and y[0] == "e" and y[1].startswith("VarKind::") and p.fns[e["fn"]].ret not in ("bool",): out[y[1][9:]].add(f)
    return out


def via_local(f, a):
    x = strip(a)
    r = set()
    if is_expr(x) and x[0] == "v":
        for k, ex, ev in f.defs().get(x[1], []):
            if ex is not None: r |= kind_mentions(ex)[0]
    return r


def kinds(ctx, p, cfg):
    cr = created(p)
    gens = defaultdict(list)                            # backend -> dispatch switches that reject what they don't know
    for f, blk in all_switches(p):
        en, cases, dflt, lab = parse_switch(f, blk)
        if en != "VarKind" or not cases: continue
        b = backend_of(f.loc())
        if b and len(cases) >= 7 and dflt is not None and escapes(f, dflt, lambda x, i: False) is None: gens[b].append((f, blk, cases))
    for b, gs in sorted(gens.items()):
        if max(len(c) for _, _, c in gs) < STAGE["VarKind"]: continue
        have = set()
        for f, blk, cases in gs:
            have |= {c for c, s in cases.items() if not rejected(f, s)}
            for g, ce in p.callers().get(f.key, []):    # handled on the way to the generator
                if backend_of(g.loc()) != b: continue
                for blk2 in list(g.blocks.values()) if isinstance(g.blocks, dict) else g.blocks:
                    if blk2.term and blk2.term[1] is not None: have |= kind_mentions(blk2.term[1])[1]
                    if blk2.label and blk2.label[0] == "case": have |= kind_mentions(blk2.label[1])[0]
        for k in sorted(cr):
            if k in NOT_GENERATED: continue
            if k in have: ctx.ok("kind", 1, "%s: VarKind::%s is generated" % (b, k))
            elif b in PARTIAL.get(k, "").split(): ctx.ok("kind", 1, "%s: VarKind::%s is created for other backends only, and rejected" % (b, k))
            else:
                g = sorted(cr[k], key=lambda f: f.display)[0]
                ctx.violation("kind", "%s|%s" % (b, k), gs[0][0].loc(), "the %s code generator doesn't handle VarKind::%s, which %s creates" % (b, k, g.display))


def rejected(f, s):
    return escapes(f, s, lambda x, i: False) is None


def backend_of(loc):
    m = re.match(r"src/(llvm|cuda|optix|metal)_", loc)
    return {"optix": "cuda"}.get(m.group(1), m.group(1)) if m else None


# ---- operations --------------------------------------------------------------------------------------------------

def operations(ctx, p):
    vals = {norm(v): v for v in enum_vals(p, "VarKind")}
    ops = [v for v in enum_vals(p, "JitOp")]
    by = defaultdict(list)
    cr = created(p)
    for f in p.repo_fns("src/"):
        if f.cls: continue
        m = re.fullmatch(r"jitc_var_(\w+?)(_intrinsic)?", f.display)
        if m and norm(m.group(1)) in {norm(o) for o in ops} and norm(m.group(1)) in vals: by[norm(m.group(1))].append(f)
    for n, fs in sorted(by.items()):
        ks = {k for k, v in cr.items() if any(f in v for f in fs)}
        if vals[n] in ks: ctx.ok("operation", 1, "%s() creates VarKind::%s" % (fs[0].display, vals[n]))
        else: ctx.violation("operation", fs[0].display, fs[0].loc(), "%s() doesn't create VarKind::%s%s" % (fs[0].display, vals[n], ", but " + ", ".join(sorted(ks)[:3]) if ks else ""))


def operation_cases(ctx, p, f, blk, en, cases, own):
    """cases that call a function named after an enumerator"""
    if en not in ("JitOp", "ReduceOp", "OpType"): return
    names = {norm(v): v for v in enum_vals(p, en) or []}
    for c, bs in own.items():
        for b in bs:
            for e in f.blocks[b].ev:
                if en == "ReduceOp":                    # functor types named after reductions
                    ks = [e.get("fn") or ""] + [x[1] for x in exprs(e) if x[0] == "fn" and isinstance(x[1], str)]
                    found = {m for k in ks for m in re.findall(r"\d(?:Red)?(Add|Mul|Min|Max|And|Or)(?=[IE])", k)}
                    if found and c not in found: ctx.violation("operation", "%s|%s" % (f.display, c), f.loc(e), "the case of ReduceOp::%s uses the reduction '%s'" % (c, sorted(found)[0]))
                    elif found: ctx.ok("operation", 1)
                if e["k"] != "call" or not e.get("q"): continue
                q = e["q"].rsplit("::", 1)[-1]
                m = re.fullmatch(r"(?:jitc?_var|replay|reduce|eval)_(\w+?)(?:_intrinsic)?", q)
                if not m or norm(m.group(1)) not in names: continue
                if names[norm(m.group(1))] != c and norm(c) not in norm(q):
                    ctx.violation("operation", "%s|%s" % (f.display, c), f.loc(e), "the case of %s::%s calls %s()" % (en, c, q))
                else: ctx.ok("operation", 1, "%s: %s::%s -> %s()" % (f.display, en, c, q))


# ---- literals ----------------------------------------------------------------------------------------------------

def literals(ctx, p):
    """calls that receive VarType::X together with the address of a scalar"""
    for f in p.repo_fns("src/") + p.repo_fns("include/"):
        for e in f.events():
            if e["k"] != "call" or not e.get("q") or "memcpy" in e["q"]: continue
            t = [strip(a)[1][9:] for a in e["a"] if is_expr(strip(a)) and strip(a)[0] == "e" and strip(a)[1].startswith("VarType::")]
            if len(t) != 1 or t[0] not in TYPES: continue
            for a in e["a"]:
                x = strip(a)
                if not (is_expr(x) and x[0] == "u" and x[1] == "&" and x[2][0] == "v"): continue
                ty = scalar(f, x[2][1])
                if ty is None: continue
                b, k = TYPES[t[0]]
                tb, tk = CPP[ty]
                if (tb == b and tk == k or tb >= b and "f" not in (tk, k)) or t[0] == "Pointer" and tb == 64: ctx.ok("literal", 1, "%s: %s of type VarType::%s" % (f.display, ty, t[0]))
                else: ctx.violation("literal", "%s|%s" % (f.display, t[0]), f.loc(e), "%s() receives a value of type %s as VarType::%s" % (e["q"], ty, t[0]))


def scalar(f, v):
    for i, q in enumerate(f.params):
        if q == v: ty = f.ptypes[i]; break
    else:
        t = [g["ty"] for g in f.events() if g["k"] == "decl" and g["v"] == v]
        ty = t[0] if t else ""
    ty = ty.replace("const ", "").replace(" &", "").strip()
    return ty if ty in CPP else None


# ---- mnemonics ---------------------------------------------------------------------------------------------------

FAMILY = [
    {"Eq": "eq oeq ueq ==", "Neq": "ne une one neu !=", "Lt": "slt ult olt lt lo <", "Le": "sle ule ole le ls <=", "Gt": "sgt ugt ogt gt hi >", "Ge": "sge uge oge ge hs >="},
    {"Add": "add fadd +", "Sub": "sub fsub -", "Mul": "mul fmul *", "Div": "div sdiv udiv fdiv /", "Mod": "rem srem urem frem fmod %"},
    {"Add": "add fadd", "Mul": "mul fmul", "Min": "min smin umin fmin minnum minimum minimumnum", "Max": "max smax umax fmax maxnum maximum maximumnum", "And": "and", "Or": "or"},
    {"And": "and & &&", "Or": "or | ||", "Xor": "xor ^ !="},
    {"Shl": "shl <<", "Shr": "shr lshr ashr >>"},
    {"Min": "min smin umin fmin minnum minimum minimumnum", "Max": "max smax umax fmax maxnum maximum maximumnum"},
    {"FMin": "min smin umin fmin minnum minimum minimumnum", "FMax": "max smax umax fmax maxnum maximum maximumnum"},
    {"Ceil": "ceil rpi", "Floor": "floor rmi", "Round": "round rint rni roundeven nearbyint", "Trunc": "trunc rzi"},
    {"Popc": "popc ctpop popcount", "Clz": "clz ctlz", "Ctz": "ctz cttz brev reverse_bits", "Brev": "brev bitreverse reverse_bits"},
    {"Sin": "sin", "Cos": "cos", "Exp2": "ex2 exp2", "Log2": "lg2 log2", "Tanh": "tanh"},
    {"Neg": "neg fneg - sub", "Not": "not xor ~ ! ^", "Abs": "abs fabs", "Sqrt": "sqrt"},
]
FAMILY = [{k: set(v.split()) for k, v in F.items()} for F in FAMILY]
SIGNED = [("smin", "umin"), ("smax", "umax"), ("ashr", "lshr"), ("sdiv", "udiv"), ("srem", "urem"), ("slt", "ult"), ("sle", "ule"), ("sgt", "ugt"), ("sge", "uge"),
          ("sitofp", "uitofp"), ("fptosi", "fptoui"), ("sext", "zext"), ("min", "umin"), ("max", "umax")]
ICMP = {"eq", "ne", "slt", "sle", "sgt", "sge", "ult", "ule", "ugt", "uge"}
FCMP = {a + b for a in "ou" for b in ("eq", "ne", "lt", "le", "gt", "ge")} | {"ord", "uno", "true", "false"}


def tokens(s):
    out = set(re.findall(r"[a-z_][a-z0-9_]*", s)) | set(re.findall(r"(?:^|\s)([-+*/%&|^~!<>=]{1,2})(?=\s|$)", s))
    return out | {x for x in re.findall(r"llvm\.([a-z0-9_]+)", s)} | {x for w in re.findall(r"[a-z0-9.]+", s) for x in w.split(".") if x}


def strings(e):
    for x in exprs(e):
        if x[0] == "s" and isinstance(x[1], str): yield x[1]


def mnemonics(ctx, p, f, en, cases, own):
    if en not in ("VarKind", "ReduceOp", "JitOp") or f.display.startswith("jitc_var") : return
    if not backend_of(f.loc()): return
    name = f.display if not f.display.startswith("lambda") else "lambda in " + f.loc().split(":")[0]
    for c, bs in own.items():
        sib = [o for o, b in cases.items() if b == cases[c] and o != c]
        T, at = set(), None
        for b in bs:
            for e in f.blocks[b].ev:
                for s in strings(e): T |= tokens(s); at = at or e
        if not T: continue
        for F in FAMILY:
            if c not in F or any(o in F for o in sib): continue
            if not set(F) & (set(cases) - {c}): continue
            if T & F[c]: ctx.ok("mnemonic", 1, "%s: %s::%s emits %s" % (f.display, en, c, ", ".join(sorted(T & F[c])))); break
            other = [o for o in F if o != c and T & F[o] and not F[o] & F[c]]
            if other:
                ctx.violation("mnemonic", "%s|%s" % (name, c), f.loc(at), "the case of %s::%s emits '%s', the instruction of %s" % (en, c, sorted(T & F[other[0]])[0], other[0])); break


def selections(ctx, p):
    """cond ? "instruction a" : "instruction b", and predicates of comparisons"""
    for f in p.repo_fns("src/"):
        if not backend_of(f.loc()): continue
        name = f.display if not f.display.startswith("lambda") else "lambda in " + f.loc().split(":")[0]
        done = set()
        for e in f.events():
            for x in exprs(e):
                if x[0] == "s" and isinstance(x[1], str) and (f.loc(e), x[1]) not in done and backend_of(f.loc()) == "llvm":
                    done.add((f.loc(e), x[1]))
                    for op, pr in re.findall(r"\b([if]cmp)\s+(?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\s+)*([a-z]+)", x[1]):
                        if pr not in (ICMP if op == "icmp" else FCMP): ctx.violation("mnemonic", "%s|%s %s" % (name, op, pr), f.loc(e), "'%s %s' is not an instruction" % (op, pr))
                        else: ctx.ok("mnemonic", 1)
                if x[0] != "?" or string(x[2]) is None or string(x[3]) is None: continue
                if (f.loc(e), str(x)) in done: continue
                done.add((f.loc(e), str(x)))
                a, b = string(x[2]), string(x[3])
                s = sense(f, x[1])
                if s is None: continue
                what, pos = s
                if not pos: a, b = b, a
                bad = None
                ta, tb = tokens(a), tokens(b)
                if what == "sint":
                    for u, v in SIGNED:
                        if v in ta and u in tb and not (u in ta and v in tb): bad = (v, "signed")
                elif what == "float":
                    d = ta - tb, tb - ta
                    if any("f" + y in d[1] for y in d[0]) and not any("f" + y in d[0] for y in d[1]): bad = (sorted(d[0])[0], "floating point")
                else:
                    for F in FAMILY:
                        if what in F:
                            o = [k for k in F if k != what and F[k] & ta and not F[k] & F[what]]
                            # IEEE-754 bit patterns of negative numbers order in reverse: both selections appear together
                            both = any(y[0] == "?" and string(y[2]) == string(x[3]) and string(y[3]) == string(x[2]) and sense(f, y[1]) == s for y in exprs(e))
                            if o and not F[what] & ta and not both: bad = (sorted(F[o[0]] & ta)[0], what)
                if bad: ctx.violation("mnemonic", "%s|%s" % (name, bad[0]), f.loc(e), "'%s' is selected for %s operands" % bad if what in ("sint", "float") else "'%s' is selected for %s" % bad)
                else: ctx.ok("mnemonic", 1)


def sense(f, c, d=0):
    """what a condition tests for -> ('sint' | 'float' | enumerator, value that means yes)"""
    c = strip(c)
    if not is_expr(c) or d > 6: return None
    if c[0] == "u" and c[1] == "!":
        r = sense(f, c[2], d + 1)
        return (r[0], not r[1]) if r else None
    if c[0] == "v":
        u = f.unique_def(c[1])
        return sense(f, u, d + 1) if u is not None else None
    if c[0] == "ev": 
        e = f.evi.get(c[1]) if isinstance(f.evi, dict) else f.evi[c[1]]
        if e and e["k"] == "call":
            q = e.get("q", "")
            if q == "jitc_is_sint": return "sint", True
            if q == "jitc_is_uint": return "sint", False
            if q in ("jitc_is_float", "jitc_is_half", "jitc_is_single", "jitc_is_double"): return "float", True
            if q == "__builtin_expect" and e["a"]: return sense(f, e["a"][0], d + 1)
        return None
    if c[0] == "bi" and c[1] in ("==", "!="):
        for a in (c[2], c[3]):
            a = strip(a)
            if is_expr(a) and a[0] == "e" and a[1].rsplit("::", 1)[0] in ("VarKind", "ReduceOp", "JitOp"): return a[1].rsplit("::", 1)[1], c[1] == "=="
    return None
