"""C05: value numbering.  The key is analysed bit by bit: every bit of the attributes that determine a result must reach the key, and nothing else.
Every write to such an attribute of a variable that may be registered must follow its removal from the table; every entry is created
and removed under the key and index of the same variable; a dying variable leaves the table first."""
import itertools
from .core import strip, walk, is_expr, const_int, edge_facts, estr, forward, paths
from .c20 import dom_facts
from .c13 import rawvars

IDENT = ("scope", "dep", "literal", "data", "size", "kind", "backend", "type", "write_ptr", "written")
KEYED = set(IDENT) | {"array_length", "array_state", "coop_vec"}
WIDTH = {"bool": 8, "char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32, "long": 64, "unsigned long": 64,
         "long long": 64, "unsigned long long": 64}


def run(ctx):
    for r, d in (("key", "every bit of the attributes that determine a result is part of the key, the key consists of nothing else, and keys are compared completely"),
                 ("entry", "a table entry maps the key of a variable to the index of that same variable; a removal only hits the variable's own entry"),
                 ("register", "a variable is registered under its final attributes, and only if sharing is enabled, it is not evaluated, and it has a result"),
                 ("mutate", "an attribute covered by the key is only changed while the variable isn't registered"),
                 ("death", "an index becomes available for reuse only after the table entry of an unevaluated variable was dropped"),
                 ("complete", "a new variable records its kind, backend and size, and everything its constructor function was asked for"),
                 ("carry", "a variable that carries information outside of its key, or that owns data, isn't subject to sharing")):
        ctx.rule(r, d)
    for cfg in (["full"] if ctx.tier == "quick" else ["full", "cuda", "llvm", "debug", "metal"]):
        p = ctx.prog(cfg)
        S = Sharing(p)
        key(ctx, p); S.entries(ctx); S.register(ctx); S.mutate(ctx); S.death(ctx); S.complete(ctx); S.carry(ctx)
    for r, n in (("key", 10), ("entry", 3), ("register", 3), ("mutate", 8), ("death", 1), ("complete", 20), ("carry", 5)): ctx.floor(r, n)
    ctx.assume("robin_map is a correct hash table; two variables can have equal keys only in the analysed bits.")


# ---- layout and bit provenance -----------------------------------------------------------------------------------

def layout(r):
    """field -> (bit offset, width); natural alignment, or packed when that is what the size says"""
    for pack in (False, True):
        off, out, bf, last, i = 0, {}, None, None, 0
        fs = r["fields"]
        while i < len(fs):
            n, ty, bits = fs[i][0], fs[i][1], fs[i][2]
            un = fs[i][4] if len(fs[i]) > 4 else 0
            w, al = tywidth(ty)
            if w is None: return None
            if bits is not None and bits >= 0:
                if bf is None or bf[1] + bits > w: bf = [align(off, 1 if pack else w), 0]; off = bf[0] + w
                out[n] = (bf[0] + bf[1], bits); bf[1] += bits
                i += 1; continue
            bf = None
            if un:                                       # members of one anonymous union
                grp = []
                while i < len(fs) and len(fs[i]) > 4 and fs[i][4] == un: grp.append(fs[i]); i += 1
                ws = [tywidth(g[1]) for g in grp]
                if any(x[0] is None for x in ws): return None
                # two unions may follow each other; members that don't share their size belong to the next one
                off = align(off, 1 if pack else max(x[1] for x in ws))
                for g, x in zip(grp, ws): out[g[0]] = (off, x[0])
                off += max(x[0] for x in ws)
                continue
            off = align(off, 1 if pack else al)
            out[n] = (off, w); off += w
            i += 1
        if align(off, 8 if pack else 64) == r["size"] * 8 or off == r["size"] * 8 or align(off, 512) == r["size"] * 8: return out
    return None


def align(x, a): return (x + a - 1) // a * a


def tywidth(ty):
    ty = ty.replace("const ", "").strip()
    if ty.endswith("*"): return 64, 64
    if ty.endswith("]"):
        b, n = ty[:-1].split("[")
        w, a = tywidth(b)
        return (None, None) if w is None else (w * int(n), a)
    w = WIDTH.get(ty)
    return w, w


class Stuck(Exception): pass


def key(ctx, p):
    rk, rv = p.recs.get("VariableKey"), p.recs.get("Variable")
    ctors = [f for f in p.by_q.get("VariableKey::VariableKey", []) if f.ptypes and "Variable &" in f.ptypes[0]]
    if not rk or not rv or len(ctors) != 1: ctx.floor("key", 1 << 30); return
    f = ctors[0]
    LK, LV = layout(rk), layout(rv)
    if LK is None or LV is None: raise Exception("layout of Variable/VariableKey isn't understood")
    owner = {}
    for n, (o, w) in LV.items():
        for b in range(o, o + w): owner.setdefault(b, n)
    vid = f.params[0]
    need = [(n, LV[n]) for n in IDENT if n in LV]
    res = []
    try:
        for atoms, bits in bitpaths(p, f, vid, LK, LV, rk["size"] * 8, rv["size"] * 8): res.append((atoms, bits))
    except Stuck as e:
        ctx.violation("key", "VariableKey|construction", f.loc(), "the construction of the key can't be shown to cover all attributes: %s" % e); return
    nb = 0
    for atoms, bits in res:
        arr = any(v for k, v in atoms.items() if k in ("is_array", "coop_vec"))
        known = all(k in ("is_array", "coop_vec") for k in atoms)
        pure = {b[1] for b in bits if isinstance(b, tuple) and b[0] == "f"}
        for n, (o, w) in need:
            miss = [b for b in range(o, o + w) if b not in pure]
            if miss: ctx.violation("key", "missing|%s" % n, f.loc(), "%d of %d bits of '%s' don't reach the key: variables that differ there are merged" % (len(miss), w, n))
            else: nb += 1
        o, w = LV["array_length"]
        has = [b for b in range(o, o + w) if b in pure]
        al_known = "is_array" in atoms and "coop_vec" in atoms or arr
        if arr and len(has) < w: ctx.violation("key", "missing|array_length", f.loc(), "the length of arrays and cooperative vectors isn't (completely) part of the key")
        elif not arr and not ("is_array" in atoms and "coop_vec" in atoms): ctx.violation("key", "missing|array_length", f.loc(), "the length of arrays and cooperative vectors isn't (completely) part of the key: only '%s' decides" % ", ".join(sorted(atoms)))
        elif not arr and has: ctx.violation("key", "unstable|array_length", f.loc(), "the key of variables that aren't arrays contains 'array_length', which shares its storage with a reference count that changes while the variable is registered")
        else: nb += 1
        seen = set()
        for i, b in enumerate(bits):
            if b == 0 or b == 1: continue
            if b is None: seen.add("uninitialized memory"); continue
            if b[0] == "f":
                n = owner.get(b[1], "padding")
                if n not in IDENT and n not in ("array_length", "ref_count_stashed"): seen.add("'%s'" % n)
            elif b[0] == "mix": seen.add("a combination of " + " and ".join(sorted("'%s'" % owner.get(x, "?") for x in b[1])))
        for s in sorted(seen): ctx.violation("key", "extra|%s" % s, f.loc(), "the key depends on %s, which isn't a fixed attribute of the computation" % s)
        if not seen: nb += 1
    ctx.ok("key", nb, "%s: %d key bits on %d paths" % (f.loc(), rk["size"] * 8, len(res)))
    # comparison
    eqs = [g for g in p.by_q.get("VariableKey::operator==", [])]
    for g in eqs:
        cov = compared(g, rk, LK)
        miss = [n for n, (o, w) in LK.items() if not all(b in cov for b in range(o, o + w))]
        if miss: ctx.violation("key", "compare|%s" % ",".join(miss), g.loc(), "the comparison of keys ignores %s" % ", ".join(miss))
        else: ctx.ok("key", len(LK), "%s compares %d bytes" % (g.loc(), rk["size"]))


def compared(g, rk, LK):
    cov = set()
    both = {}
    for e in g.events():
        if e["k"] == "call" and (e.get("q") or "").split("::")[-1] in ("memcmp", "__builtin_memcmp"):
            n = const_int(g.canon(e["a"][2]))
            starts = []
            for a in e["a"][:2]:
                x = strip(g.canon(a))
                if is_expr(x) and x[0] == "u" and x[1] == "&": x = strip(x[2])
                if is_expr(x) and x[0] == "m" and x[2] in LK: starts.append(LK[x[2]][0])
                elif is_expr(x) and x[0] in ("this", "v"): starts.append(0)
            if n is not None and len(starts) == 2 and starts[0] == starts[1]: cov |= set(range(starts[0], starts[0] + 8 * n))
    exprs = [e.get("e") for e in g.events() if e["k"] == "ret"] + [b.term[1] for b in g.blocks.values() if b.term and len(b.term) > 1 and is_expr(b.term[1])]
    for x0 in exprs:
        if x0 is None: continue
        for x in walk(g.canon(x0)):
            if x[0] == "bi" and x[1] in ("==", "!="):
                l, r = strip(x[2]), strip(x[3])
                il = ir = None
                if l[0] == "ix": il, l = const_int(l[2]), strip(l[1])
                if r[0] == "ix": ir, r = const_int(r[2]), strip(r[1])
                if l[0] == r[0] == "m" and l[2] == r[2] and l[2] in LK and str(l[1]) != str(r[1]) and il == ir:
                    o, w = LK[l[2]]
                    if il is None: cov |= set(range(o, o + w))
                    else: cov |= set(range(o + 32 * il, o + 32 * il + 32))
    return cov


def bitpaths(p, f, vid, LK, LV, KB, VB):
    """evaluates the constructor along each of its paths; yields (valuation of conditions, provenance of each bit of the key)"""
    def go(bid, env, atoms, depth, val):
        if depth > 200: raise Stuck("it contains a loop")
        b = f.blocks[bid]
        env = {k: list(v) for k, v in env.items()}
        for e in b.ev: step(e, env, atoms, val)
        succ = [s for s in b.succ if s is not None]
        if not succ or bid == f.exit: yield atoms, env["this"]; return
        if len(succ) == 1: yield from go(succ[0], env, atoms, depth + 1, val); return
        if not b.term or len(b.term) < 2: raise Stuck("a branch isn't understood")
        c = b.term[1]
        v = truth(c, env, atoms)
        if v is None:
            a = unknown(c, env, atoms)
            if a is None: raise Stuck("the condition '%s' isn't understood" % estr(c, f))
            if strip(c)[0] == "bi" and strip(c)[1] in ("||", "&&"):
                for k in (True, False):
                    at = dict(atoms); at[a[0]] = k
                    w = truth(c, env, at)
                    if w is None: raise Stuck("the condition '%s' isn't understood" % estr(c, f))
                    yield from go(b.succ[0 if w else 1], env, at, depth + 1, val)
                return
            for k in (True, False):
                at = dict(atoms); at[a[0]] = k == a[1]
                yield from go(b.succ[0 if k else 1], env, at, depth + 1, val)
        else: yield from go(b.succ[0 if v else 1], env, atoms, depth + 1, val)

    def atom(c):
        """(name, polarity) of an elementary condition about the source variable"""
        c = strip(c)
        if is_expr(c) and c[0] == "ev":
            e = f.evi.get(c[1])
            if e and e["k"] == "call":
                if (e.get("q") or "").endswith("::is_array"): return ("is_array", True)
                g = p.fns.get(e.get("fn"))
                if g is not None and not e["a"]:
                    rets = [x for x in g.events() if x["k"] == "ret"]
                    if len(rets) == 1: return atom2(strip(rets[0]["e"]))
                return (e.get("q") or "?", True)
        return atom2(c)

    def atom2(c):
        if is_expr(c) and c[0] == "u" and c[1] == "!":
            a = atom(c[2]); return None if a is None else (a[0], not a[1])
        if is_expr(c) and c[0] == "bi" and c[1] in ("!=", "==", ">"):
            l, k = strip(c[2]), const_int(c[3])
            if l[0] == "m" and l[2] == "array_state" and k == 0: return ("is_array", c[1] != "==")
            if l[0] == "m" and l[2] == "coop_vec" and k in (0, 1): return ("coop_vec", (c[1] != "==") == (k == 0))
        if is_expr(c) and c[0] == "m": return (c[2], True)
        if is_expr(c) and c[0] in ("bi", "v", "?"): return None
        return (estr(c, f), True)

    def unknown(c, env, atoms):
        c = strip(c)
        if is_expr(c) and c[0] == "bi" and c[1] in ("||", "&&", "|", "&"):
            for x in (c[2], c[3]):
                if truth(x, env, atoms) is None: return unknown(x, env, atoms)
            return None
        if is_expr(c) and c[0] == "u" and c[1] == "!": return unknown(c[2], env, atoms)
        return atom(c)

    def truth(c, env, atoms):
        c = strip(c)
        if not is_expr(c): return None
        k = const_int(c)
        if k is not None: return bool(k)
        if c[0] == "bi" and c[1] in ("||", "&&", "|", "&"):
            l, r = truth(c[2], env, atoms), truth(c[3], env, atoms)
            if c[1] in ("||", "|"): return True if l or r else (False if l is False and r is False else None)
            return False if l is False or r is False else (True if l and r else None)
        if c[0] == "u" and c[1] == "!":
            v = truth(c[2], env, atoms); return None if v is None else not v
        if c[0] == "v":
            return env.get("?" + c[1], [None])[0]
        a = atom(c)
        if a is not None and a[0] in atoms: return atoms[a[0]] == a[1]
        return None

    def bits_of(e, env, atoms, width=None):
        e0 = e
        while is_expr(e) and e[0] == "def": e = e[1]
        if not is_expr(e): raise Stuck("an expression isn't understood")
        k = e[0]
        if k in ("cast", "ic"):
            w = tywidth(e[1])[0]; b = bits_of(e[3], env, atoms, width)
            if w is None: return b
            return (b + [0] * w)[:w]
        c = const_int(e)
        if c is not None:
            w = width or 64
            return [(c >> i) & 1 for i in range(w)]
        if k == "?":
            v = truth(e[1], env, atoms)
            if v is None: raise Stuck("the condition '%s' isn't understood" % estr(e[1], f))
            return bits_of(e[2] if v else e[3], env, atoms, width)
        if k == "v":
            if e[1] in env: return list(env[e[1]])
            raise Stuck("'%s' isn't understood" % estr(e, f))
        if k == "m":
            o = strip(e[1])
            if o == ["v", vid] and e[2] in LV:
                a, w = LV[e[2]]
                return [("f", a + i) for i in range(w)] + [0] * max(0, 32 - w)
            if o[0] == "this" and e[2] in LK:
                a, w = LK[e[2]]; return list(env["this"][a:a + w])
        if k == "ix":
            a = addr(["u", "&", e], env)
            if a:
                reg, o, w = a
                return [("f", o + i) for i in range(w)] if reg == vid else list(env[reg][o:o + w])
        if k == "ev":
            ev = f.evi.get(e[1])
            g = p.fns.get(ev.get("fn")) if ev else None
            if ev and ev["k"] == "asg": return bits_of(ev["l_"], env, atoms, width)
            if g is not None and not ev["a"] and ev.get("obj") is not None and strip(ev["obj"]) == ["v", vid]:
                t = truth(e, env, atoms)
                if t is not None: return [1 if t else 0] + [0] * 7
        if k == "bi":
            l, r, op = bits_of(e[2], env, atoms, 64), bits_of(e[3], env, atoms, 64), e[1]
            w = (tywidth(e[4])[0] if len(e) > 4 and isinstance(e[4], str) else None) or max(len(l), len(r))
            l, r = (l + [0] * 64)[:w], (r + [0] * 64)[:w]
            if op in ("<<", ">>", "*"):
                n = const_int(e[3])
                if n is None: raise Stuck("a shift by a variable amount")
                if op == "*":
                    if n & (n - 1): return [mix(l)] * w
                    n = n.bit_length() - 1
                return ([0] * n + l)[:w] if op != ">>" else (l[n:] + [0] * n)[:w]
            if op == "&": return [0 if a == 0 or b == 0 else (b if a == 1 else a if b == 1 else (a if a == b else mix([a, b]))) for a, b in zip(l, r)]
            if op == "|": return [1 if a == 1 or b == 1 else (b if a == 0 else a if b == 0 else (a if a == b else mix([a, b]))) for a, b in zip(l, r)]
            if op in ("+", "^"):
                if all(a == 0 or b == 0 for a, b in zip(l, r)): return [b if a == 0 else a for a, b in zip(l, r)]
                return [mix(l + r)] * w
            return [mix(l + r)] * w
        raise Stuck("'%s' isn't understood" % estr(e, f))

    def mix(bs):
        s = set()
        for b in bs:
            if b is None: return None
            if isinstance(b, tuple): s |= {b[1]} if b[0] == "f" else b[1]
        return ("mix", frozenset(s)) if s else 0

    def addr(e, env):
        """region, bit offset, width of the pointed-to type"""
        t = None
        while is_expr(e) and e[0] in ("cast", "ic", "def"): e = e[3] if e[0] != "def" else e[1]
        if not is_expr(e): return None
        if e[0] == "this": return ("this", 0, 8)
        if e[0] == "u" and e[1] == "&":
            x = strip(e[2])
            if x[0] == "v": return (x[1], 0, len(env[x[1]]) if x[1] in env else VB)
            if x[0] == "m":
                o = strip(x[1])
                if o == ["v", vid] and x[2] in LV: return (vid,) + LV[x[2]]
                if o[0] == "this" and x[2] in LK: return ("this",) + LK[x[2]]
            if x[0] == "ix":
                i = const_int(x[2]); a = addr(["u", "&", x[1]], env)
                if i is not None and a: return (a[0], a[1] + 32 * i, 32)
        if e[0] == "m":                                 # decayed array
            return addr(["u", "&", e], env)
        if e[0] == "bi" and e[1] in ("+", "-"):
            a, n = addr(e[2], env), const_int(e[3])
            if a and n is not None:
                ty = e[4] if len(e) > 4 and isinstance(e[4], str) else ""
                w = tywidth(ty.rstrip("* ").rstrip())[0] if ty.endswith("*") else a[2]
                return (a[0], a[1] + (n if e[1] == "+" else -n) * (w or a[2]), w or a[2])
        return None

    def step(e, env, atoms, val):
        k = e["k"]
        if k == "decl":
            w = tywidth(e["ty"])[0]
            if e.get("init") is None:
                if w: env[e["v"]] = [None] * w
                return
            if e["ty"].endswith(("&", "*")): return
            if e["ty"] in ("bool", "const bool"):
                t = truth(e["init"], env, atoms)
                env["?" + e["v"]] = [t]
                if t is not None: env[e["v"]] = [int(t)] + [0] * 7
                return
            if w: env[e["v"]] = (bits_of(e["init"], env, atoms, w) + [0] * w)[:w]
        elif k == "asg":
            l = strip(e["l_"])
            a = addr(["u", "&", l], env)
            if l[0] == "v" and l[1] in env:
                b = bits_of(e["r"], env, atoms, len(env[l[1]]))
                if e["op"] != "=": b = bits_of(["bi", e["op"][:-1], l, e["r"], e.get("ty", "unsigned int")], env, atoms)
                env[l[1]] = (b + [0] * 64)[:len(env[l[1]])]
            elif a and a[0] == "this":
                b = bits_of(e["r"], env, atoms, a[2]) if e["op"] == "=" else bits_of(["bi", e["op"][:-1], l, e["r"], e.get("ty", "unsigned int")], env, atoms)
                env["this"][a[1]:a[1] + a[2]] = (b + [0] * 64)[:a[2]]
            elif a is not None and a[0] != vid: raise Stuck("a store isn't understood")
        elif k == "minit" and e.get("m") in LK and e.get("init") is not None:
            o, w = LK[e["m"]]
            if w <= 64: env["this"][o:o + w] = (bits_of(e["init"], env, atoms, w) + [0] * 64)[:w]
        elif k == "call" and (e.get("q") or "").split("::")[-1] in ("memcpy", "memmove", "__builtin_memcpy"):
            d, s, n = addr(e["a"][0], env), addr(e["a"][1], env), const_int(f.canon(e["a"][2]))
            if d is None or s is None or n is None: raise Stuck("a copy isn't understood")
            src = [("f", s[1] + i) for i in range(8 * n)] if s[0] == vid else list(env[s[0]][s[1]:s[1] + 8 * n])
            if s[0] == vid and s[1] + 8 * n > VB or d[1] + 8 * n > len(env[d[0]]): raise Stuck("a copy exceeds its source or destination")
            env[d[0]][d[1]:d[1] + 8 * n] = src
        elif k == "call" and (e.get("q") or "").split("::")[-1] == "memset":
            d, n = addr(e["a"][0], env), const_int(f.canon(e["a"][2]))
            if d is None or n is None: raise Stuck("a memset() isn't understood")
            env[d[0]][d[1]:d[1] + 8 * n] = [0] * (8 * n)

    yield from go(f.entry, {"this": [None] * KB}, {}, 0, None)


# ---- the table ---------------------------------------------------------------------------------------------------

FRESH = ("jitc_var_new",)
PEEL = ("steal", "borrow", "release", "get", "std::move", "operator unsigned int", "operator uint32_t")


class Sharing:
    def __init__(s, p):
        s.p = p
        s.fields = {x[0] for r in p.recs.values() if isinstance(r, dict) for x in r.get("fields", []) if "robin_map<VariableKey" in x[1]}
        s.fns = p.repo_fns("src/")
        s.erase, s.insert, s.rebuild, s.drops, s.puts = [], [], [], set(), set()
        for f in s.fns:
            for e in f.events():
                if e["k"] != "call" or e.get("obj") is None or not s.is_map(f, e["obj"]): continue
                m = (e.get("q") or "").split("::")[-1]
                if m.startswith("erase"): s.erase.append((f, e)); s.drops.add(f.key)
                elif m.startswith(("try_emplace", "emplace", "insert")) or m == "operator[]": s.insert.append((f, e))
                elif m in ("operator=", "swap", "clear"): s.rebuild.append((f, e))
        for f, e in s.insert:
            if any(t and t.endswith("Variable *") for t in f.ptypes): s.puts.add(f.key)

    def is_map(s, f, o):
        o = strip(f.canon(o))
        return is_expr(o) and o[0] == "m" and o[2] in s.fields and o[3] in ("State",)

    # -- entries
    def keyed(s, f, e):
        """expression of the variable whose key an expression is"""
        x = f.canon(e)
        while is_expr(x) and x[0] in ("ctor", "il", "call") and "VariableKey" in str(x[1]):
            if x[0] == "call": return None
            if len(x) != 3: return None
            x = strip(x[2])
            if is_expr(x) and x[0] == "u" and x[1] == "*": x = strip(x[2])
            return x
        return None

    def index_of(s, f, x):
        """index expression of the variable that a pointer/reference denotes"""
        x = strip(f.canon(x)) if is_expr(x) else x
        if not is_expr(x): return None
        if x[0] == "u" and x[1] in ("&", "*"): return s.index_of(f, x[2])
        if x[0] == "ix" and "variables" in str(x[1]): return f.canon(x[2])
        if x[0] == "call":
            if x[1].split("::")[-1] == "jitc_var" and len(x) > 3: return peel(x[3])
            if x[1].endswith(("operator[]", "::at")) and "variables" in str(x[2]): return peel(x[3])
        return None

    def same(s, f, idx, var):
        """index and variable belong together: True / False / None (unknown)"""
        idx = peel(f.canon(idx)); var0 = strip(var)
        if is_expr(var0) and var0[0] == "u" and var0[1] == "*": var0 = strip(var0[2])
        if is_expr(var0) and var0[0] == "v":
            if var0[1] in f.params:
                return True if is_expr(idx) and idx[0] == "v" and idx[1] in f.params else None
            ds = [d for d in f.defs().get(var0[1], []) if d[1] is not None]
            r = [s.index_of(f, d[1]) for d in ds]
            if any(x is not None and peel(x) == idx for x in r): return True
            if r and all(x is not None for x in r): return False
            return None
        x = s.index_of(f, var0)
        return None if x is None else peel(x) == idx

    def entries(s, ctx):
        p = s.p
        n = 0
        for f, e in s.erase:
            it = strip(e["a"][0])
            if is_expr(it) and it[0] == "ev": it = strip(f.canon(it))
            u = f.canon(it)
            var = None
            for x in walk(u):
                if x[0] == "call" and x[1].split("::")[-1].startswith("find") and len(x) > 3: var = s.keyed(f, x[3])
            blk = next(b for b in f.blocks.values() if e in b.ev)
            own = False
            for fs in dom_facts(f, blk):
                for c, v in fs:
                    c = strip(f.canon(c))
                    if v and is_expr(c) and c[0] == "bi" and c[1] == "==" or (not v and is_expr(c) and c[0] == "bi" and c[1] == "!="):
                        t = [str(c[2]), str(c[3])]
                        for a, b in ((0, 1), (1, 0)):
                            y = strip(c[2 + b])
                            if ("second" in t[a] or "value" in t[a]) and is_expr(y) and y[0] == "v" and y[1] in f.params: own = True
            if var is None: ctx.violation("entry", "%s|erase" % f.display, f.loc(e), "an entry is removed that wasn't looked up with the key of the variable")
            elif not own: ctx.violation("entry", "%s|owner" % f.display, f.loc(e), "the entry is removed without verifying that it refers to this variable; another variable with the same attributes would lose its entry (or keep a dangling one)")
            else: ctx.ok("entry", 1, "%s removes its own entry only" % f.loc(e))
        for f, e in s.insert:
            if f.key not in s.puts: continue
            args = e["a"]
            var = next((v for v in (s.keyed(f, a) for a in args) if v is not None), None)
            idx = args[-1]
            if var is None or s.same(f, idx, var) is not True: ctx.violation("entry", "%s|insert" % f.display, f.loc(e), "the entry doesn't map the key of a variable to its own index")
            else: ctx.ok("entry", 1, f.loc(e))
        for k in s.drops | s.puts:
            for g, e in p.callers().get(k, []):
                if len(e["a"]) < 2: continue
                r = s.same(g, e["a"][0], e["a"][1])
                if r is False: ctx.violation("entry", "%s|pair" % g.display, g.loc(e), "%s is called with an index and a variable that don't belong together" % e.get("q"))
                else: ctx.ok("entry", 1, g.loc(e))
        for f, e in s.rebuild:
            if (e.get("q") or "").split("::")[-1] != "operator=": continue
            src = strip(e["a"][0])
            vs = rawvars(f, src)
            okk = False
            for v in vs:
                for x in f.events():
                    if x["k"] == "call" and x.get("obj") is not None and strip(x["obj"]) == ["v", v] and (x.get("q") or "").split("::")[-1] in ("insert", "emplace", "try_emplace"):
                        a = x["a"]
                        if len(a) == 1:
                            y = f.canon(a[0])
                            while is_expr(y) and y[0] in ("ctor", "il") and len(y) == 3: y = strip(y[2])
                            a = y[2:] if is_expr(y) and y[0] in ("ctor", "il") else []
                        if len(a) == 2:
                            var = s.keyed(f, a[0])
                            if var is not None and s.index_of(f, var) is not None and peel(s.index_of(f, var)) == peel(f.canon(a[1])): okk = True
            if okk: ctx.ok("entry", 1, "%s rebuilds the table from its members" % f.loc(e)); s.rebuilders.add(f.key) if hasattr(s, "rebuilders") else setattr(s, "rebuilders", {f.key})
            else: ctx.violation("entry", "%s|rebuild" % f.display, f.loc(e), "the table is replaced by one whose entries aren't the new keys of the registered variables")

    # -- registration
    def register(s, ctx):
        p = s.p
        for f, e in s.insert:
            if f.key in s.puts: continue
            kv = [strip(a) for a in e["a"] if "VariableKey" in str(ty_of(f, a))]
            keyv = next((a[1] for a in map(strip, e["a"]) if is_expr(a) and a[0] == "v" and (decl_ty(f, a[1]) or "").endswith("VariableKey")), None)
            blk = next(b for b in f.blocks.values() if e in b.ev)
            src = None
            if keyv:
                d = next((x for k, x, ev in f.defs().get(keyv, []) if x is not None), None)
                src = s.keyed(f, d) if d is not None else None
            else:
                src = next((v for v in (s.keyed(f, a) for a in e["a"]) if v is not None), None)
            if src is None or src[0] != "v":
                ctx.violation("register", "%s|key" % f.display, f.loc(e), "a variable is registered under a key that isn't derived from it"); continue
            # conditions established on every path to the insertion
            names = ("evaluated variables", "variables without result (Void)", "requests with sharing disabled")
            def est(c, v):
                t = str(c); out = set()
                if not v and "is_evaluated" in t: out.add(names[0])
                if "VarKind::Evaluated" in t and is_expr(c) and c[0] == "bi" and c[1] in ("==", "!=") and (c[1] == "!=") == v: out.add(names[0])
                if "VarType::Void" in t and is_expr(c) and c[0] == "bi" and c[1] in ("==", "!=") and (c[1] == "!=") == v: out.add(names[1])
                if not v and is_expr(c) and c[0] == "v" and c[1] in f.params: out.add(names[2])
                return out
            got = []
            def step(u, ev, blk_, env):
                if ev is e: got.append(u)
                return [u]
            def branch(u, fs, blk_, i):
                for c, v in fs:
                    for c2, v2 in conj(strip(f.canon(c)), v): u = u | est(c2, v2)
                return u
            paths(f, frozenset(), step, branch)
            want = {k: bool(got) and all(k in u for u in got) for k in names}
            for k, v in want.items():
                if v: ctx.ok("register", 1, "%s excludes %s" % (f.loc(e), k))
                else: ctx.violation("register", "%s|%s" % (f.display, k), f.loc(e), "%s are registered for sharing" % k)
            # the attributes don't change between computing the key and storing the variable
            vid = src[1]
            st = {}
            def tr(state, ev):
                if keyv and ev["k"] == "decl" and ev.get("v") == keyv or (not keyv and ev is e): return "k"
                return state
            ins = forward(f, "u", lambda st, ev, b=None: tr(st, ev), lambda a, b: a if a == b else "k" if "k" in (a, b) else "u")
            bad = None; wrote = 0
            for b in f.blocks.values():
                if b.id not in ins: continue
                state = ins[b.id]
                for ev in b.ev:
                    if state == "k":
                        t = target(ev, f)
                        if t is not None and t[0] in KEYED and strip(t[1]) == ["v", vid]: bad = (ev, t[0])
                    state = tr(state, ev)
                    if ev["k"] == "call" and (ev.get("q") or "") == "Variable::operator=" and rawvars(f, ["il", ""] + ev["a"]) & {vid}: wrote += 1
            if bad: ctx.violation("register", "%s|late|%s" % (f.display, bad[1]), f.loc(bad[0]), "'%s' changes after the key of the variable was computed" % bad[1])
            elif not wrote: ctx.violation("register", "%s|store" % f.display, f.loc(e), "the variable that is stored isn't the one the key was computed from")
            else: ctx.ok("register", 2, "%s: key and stored variable agree" % f.loc(e))
            # precomputed hash
            if "hash" in (e.get("q") or "").split("::")[-1]:
                h = f.canon(e["a"][0]); good = False
                for x in walk(h):
                    if x[0] == "call" and "VariableKeyHasher" in str(x[1]): good = keyv is None or keyv in str(x[3:]) or any(y[0] == "ctor" for y in walk(x) if "VariableKey" in str(y[1:2]))
                if good: ctx.ok("register", 1, "%s: the hash belongs to the key" % f.loc(e))
                else: ctx.violation("register", "%s|hash" % f.display, f.loc(e), "the entry is stored under a hash that isn't the one of its key")

    # -- mutation
    def reaching(s, f, vid, site):
        """values that a local variable can have at an event (None: unknown)"""
        def val(ev):
            if ev["k"] == "decl" and ev.get("v") == vid: return [("x", ev.get("init"))]
            if ev["k"] == "asg":
                l = strip(ev["l_"])
                if is_expr(l) and l[0] == "v" and l[1] == vid: return [("x", ev["r"])]
            if ev["k"] == "call" and (ev.get("q") or "").endswith("::operator=") and ev.get("obj") is not None and strip(ev["obj"]) == ["v", vid]: return [("x", ev["a"][0])]
            return None
        ids = {}
        def tr(st, ev, b=None):
            v = val(ev)
            if v is None: return st
            ids[id(ev)] = v[0][1]
            return frozenset([id(ev)])
        ins = forward(f, frozenset(), tr, lambda a, b: a | b)
        for b in f.blocks.values():
            if site in b.ev and b.id in ins:
                st = ins[b.id]
                for ev in b.ev:
                    if ev is site: return [ids[x] for x in st]
                    st = tr(st, ev)
        return None

    def unregistered(s, f, e, depth=0, seen=None, site=None, bind=None):
        """the index denotes a variable that was never registered"""
        p = s.p
        if depth > 6: return False
        e = peel_raw(f, e)
        if not is_expr(e): return False
        if e[0] == "ev":
            ev = f.evi.get(e[1])
            if ev is None or ev["k"] != "call": return False
            q = (ev.get("q") or "").split("::")[-1]
            if q.startswith("jitc_var_new"):
                if any(has_enum(f, a, "VarType::Void") for a in ev["a"]): return True
                g = p.fns.get(ev.get("fn"))
                if q == "jitc_var_new" and ev["a"]:
                    if len(ev["a"]) > 1:
                        d = f.canon(ev["a"][1])
                        if const_int(d) == 1 or is_expr(d) and d[0] == "v" and (bind or {}).get(d[1]) == 1: return True
                    o = strip(ev["a"][0])
                    if is_expr(o) and o[0] == "v":
                        for x in f.events():
                            if x["k"] == "asg":
                                t = target(x, f)
                                if t and t[0] == "type" and strip(t[1]) == o and has_enum(f, x["r"], "VarType::Void"): return True
                                if t and t[0] == "kind" and strip(t[1]) == o and has_enum(f, x["r"], "VarKind::Evaluated"): return True
                return False
            if q in ("jitc_var_mem_map", "jitc_var_mem_copy", "jitc_var_data"): return True
            g = p.fns.get(ev.get("fn"))
            if g is not None and depth < 3:
                rs = [x for x in g.events() if x["k"] == "ret" and x.get("e") is not None]
                bd = {g.params[i]: const_int(f.canon(a)) for i, a in enumerate(ev["a"]) if i < len(g.params)}
                return bool(rs) and all(s.unregistered(g, x["e"], depth + 1, bind=bd) for x in rs)
            return False
        if e[0] == "v":
            if e[1] in f.params and not f.defs().get(e[1]):
                i = f.params.index(e[1])
                cs = p.callers().get(f.key, [])
                return bool(cs) and all(len(c["a"]) > i and s.unregistered(g, c["a"][i], depth + 1) for g, c in cs)
            ds = [d for d in f.defs().get(e[1], []) if d[1] is not None]
            vals = [d[1] for d in ds]
            for x in f.events():                         # assignments through the class' operators
                if x["k"] == "call" and (x.get("q") or "").endswith("::operator=") and x.get("obj") is not None and strip(x["obj"]) == e: vals.append(x["a"][0])
            if site is not None:
                r = s.reaching(f, e[1], site)
                if r: vals = [x for x in r if x is not None]
            vals = [v for v in vals if not empty(f, v)]
            return bool(vals) and all(s.unregistered(f, v, depth + 1, seen, bind=bind) for v in vals)
        if e[0] == "m":
            key = (e[2], e[3])
            if seen is None: seen = set()
            if key in seen: return True
            srcs = s.field_writes(key)
            return bool(srcs) and all(empty(g, x) or s.unregistered(g, x, depth + 1, seen | {key}) for g, x in srcs)
        return False

    def field_writes(s, key):
        out = []
        for g in s.p.repo_fns("src/"):
            for ev in g.events():
                if ev["k"] == "asg":
                    l = strip(ev["l_"])
                    if is_expr(l) and l[0] == "m" and (l[2], l[3]) == key:
                        r = ev["r"]
                        while is_expr(strip(r)) and strip(r)[0] == "ev" and g.evi.get(strip(r)[1], {}).get("k") == "asg": r = g.evi[strip(r)[1]]["r"]
                        out.append((g, r))
                elif ev["k"] == "minit" and ev.get("m") == key[0] and (g.cls or "").split("::")[-1] == key[1].split("::")[-1] and ev.get("init") is not None: out.append((g, ev["init"]))
        return out

    def mutate(ctx_self, ctx):
        s = ctx_self; p = s.p
        for f in s.fns:
            if f.cls in ("Variable", "VariableKey") or f.key in s.puts: continue
            sites = []
            for b in f.blocks.values():
                for ev in b.ev:
                    t = target(ev, f)
                    if t is None or t[0] not in KEYED: continue
                    base = strip(t[1])
                    tabv = table_var(s, f, base)
                    if tabv is None: continue
                    sites.append((b, ev, t[0], base, tabv))
            if not sites: continue
            state = s.dropped(f)
            for b, ev, fld, base, idx in sites:
                why = None
                st = set(state.get(b.id, frozenset()))
                for x in b.ev:
                    if x is ev: break
                    st = s.drop_step(f, st, x)
                if base[0] == "v" and base[1] in st: why = "dropped before"
                elif is_expr(idx) and peel(idx)[0] == "v" and ("#" + peel(idx)[1]) in st: why = "dropped before"
                facts = [(c, v) for fs in dom_facts(f, b) for c, v in fs]
                if not why:
                    for c, v in facts:
                        t = str(strip(f.canon(c)))
                        if v and "is_evaluated" in t and same_base(f, c, base): why = "evaluated"
                        if v and fld == "array_state" and "is_array" in t and same_base(f, c, base) and not has_enum(f, ev.get("r"), "ArrayState::Invalid"): why = "remains an array"
                if not why and f.key in getattr(s, "rebuilders", ()): why = "the table is rebuilt"
                if not why and s.unregistered(f, idx_raw(s, f, base), site=idx_site(f, base)): why = "never registered"
                if not why and s.rewrites(f, ev, fld, base): why = "writes the value it has"
                if not why and s.temporary(f, b, ev, fld, base): why = "temporary"
                if not why and fld == "dep" and shadow_dep(f, ev, base): why = "belongs to an evaluated variable"
                if why: ctx.ok("mutate", 1, "%s '%s' (%s)" % (f.loc(ev), fld, why))
                else: ctx.violation("mutate", "%s|%s" % (f.display, fld), f.loc(ev), "'%s' of a variable changes that may be registered for sharing under its previous value" % fld)

    def drop_step(s, f, st, x):
        if x["k"] == "call" and x.get("fn") in s.drops and len(x["a"]) > 1:
            v, i = strip(x["a"][1]), peel_raw(f, x["a"][0])
            st = set(st)
            if is_expr(v) and v[0] == "v": st.add(v[1])
            if is_expr(i) and i[0] == "v": st.add("#" + i[1])
        elif x["k"] == "call" and x.get("fn") in s.puts and len(x["a"]) > 1:
            st = set(st)
            for a in x["a"]:
                for y in rawvars(f, a): st.discard(y); st.discard("#" + y)
        elif x["k"] == "decl": st = set(st) - {x["v"], "#" + x["v"]}
        elif x["k"] == "asg":
            l = strip(x["l_"])
            if is_expr(l) and l[0] == "v": st = set(st) - {l[1], "#" + l[1]}
        return st

    def dropped(s, f):
        if not any(x["k"] == "call" and x.get("fn") in s.drops for x in f.events()): return {}
        return forward(f, frozenset(), lambda st, ev, b=None: frozenset(s.drop_step(f, st, ev)), lambda a, b: a & b)

    def rewrites(s, f, ev, fld, base):
        """the value is the one the variable was created with"""
        if ev["k"] != "asg" or ev["op"] != "=": return False
        i = idx_raw(s, f, base)
        i = peel_raw(f, i) if i is not None else None
        for _ in range(4):
            if is_expr(i) and i[0] == "v":
                ds = [d for d in f.defs().get(i[1], []) if d[1] is not None]
                if len(ds) != 1: return False
                i = peel_raw(f, ds[0][1])
        if not (is_expr(i) and i[0] == "ev"): return False
        c = f.evi.get(i[1])
        if c is None or c["k"] != "call" or not (c.get("q") or "").startswith("jitc_var_new_node"): return False
        g = s.p.fns.get(c.get("fn"))
        if g is None: return False
        r = strip(f.canon(ev["r"]))
        for k, a in enumerate(c["a"]):
            if strip(f.canon(a)) != r or k >= len(g.params): continue
            for x in g.events():
                t = target(x, g) if x["k"] == "asg" else None
                if t and t[0] in (fld, {"data": "literal", "literal": "data"}.get(fld)) and g.params[k] in rawvars(g, x["r"]): return True
        return False

    def temporary(s, f, b, ev, fld, base):
        """changed for the duration of code generation and restored: no table operation happens in between"""
        if ev["k"] != "asg": return False
        sites = [(x, target(x, f)) for x in f.events() if x["k"] == "asg"]
        mine = [x for x, t in sites if t and t[0] == fld]
        if len(mine) < 2: return False
        def vals(x):
            e = strip(f.canon(x["r"])); return str(e)
        others = [x for x in mine if vals(x) != vals(ev)]
        if not others: return False
        # the functions that run in between must not touch the table: nothing in this function may reach it
        reach, todo = set(), [f.key]
        while todo:
            k = todo.pop()
            if k in reach: continue
            reach.add(k)
            g = s.p.fns.get(k)
            if g is None: continue
            for x in g.events():
                for t in s.p.targets(x) if x["k"] in ("call", "ctor") else ():
                    t = t.key if hasattr(t, "key") else t
                    if t not in reach: todo.append(t)
        tabf = s.drops | s.puts | {g.key for g, _ in s.insert}
        if reach & tabf: return s.restored(f, mine, fld)
        return True

    def restored(s, f, mine, fld):
        """each value is one the variable is known to have had: compared with before, or written back"""
        txt = set()
        for b in f.blocks.values():
            if b.term and len(b.term) > 1 and is_expr(b.term[1]):
                for x in walk(f.canon(b.term[1])):
                    if x[0] == "bi" and x[1] in ("==", "!="):
                        for a, c in ((2, 3), (3, 2)):
                            y = strip(x[a])
                            if is_expr(y) and y[0] == "m" and y[2] == fld: txt.add(str(strip(x[c])))
        return any(str(strip(f.canon(x["r"]))) in txt for x in mine)

    # -- death
    def death(s, ctx):
        p = s.p
        for f in s.fns:
            if f.cls == "FreeSlots": continue
            pushes = [e for e in f.events() if e["k"] == "call" and (e.get("q") or "").split("::")[-1] in ("push", "push_back") and e.get("obj") is not None
                      and "unused_variables" in str(f.canon(e["obj"]))]
            if not pushes: continue
            pops = {strip(ev["l_"])[1] for ev in f.events() if ev["k"] == "asg" and strip(ev["l_"])[0] == "v" and "pop" in str(f.canon(ev["r"])) and "unused_variables" in str(f.canon(ev["r"]))}
            pops |= {ev["v"] for ev in f.events() if ev["k"] == "decl" and ev.get("init") is not None and "FreeSlots::pop" in str(f.canon(ev["init"]))}
            pushes = [e for e in pushes if not (set(rawvars(f, e["a"][0])) & pops)]
            if not pushes: continue
            bad = []
            def step(u, e, blk, env):
                if e["k"] == "call" and e.get("fn") in s.drops: return ["D"]
                if e in pushes and u != "D": bad.append(e)
                if e["k"] in ("asg", "decl") and (e.get("v") or (strip(e["l_"])[1] if e["k"] == "asg" and strip(e["l_"])[0] == "v" else "")).split(":")[0] == "v" and "Variable" in str(e.get("ty", "")): return ["U"]
                return [u]
            def branch(u, facts, blk, i):
                for c, v in facts:
                    if v and "is_evaluated" in str(f.canon(c)): return "D"
                return u
            paths(f, "U", step, branch, track=False)
            if bad: ctx.violation("death", f.display, f.loc(bad[0]), "the index of an unevaluated variable is released for reuse while the sharing table may still refer to it")
            else: ctx.ok("death", len(pushes), "%s releases indices after dropping their entries" % f.loc(pushes[0]))

    # -- complete
    def complete(s, ctx):
        p = s.p
        for f in s.fns:
            reqs = [(e, strip(e["a"][0])[1]) for e in f.events() if e["k"] == "call" and (e.get("q") or "").startswith(("jitc_var_new", "jitc_var_new_take")) and (e.get("q") or "") in ("jitc_var_new", "jitc_var_new_take_ownership")
                    and e["a"] and is_expr(strip(e["a"][0])) and strip(e["a"][0])[0] == "v" and decl_ty(f, strip(e["a"][0])[1]) == "Variable"]
            for vid in {v for _, v in reqs}:
                asg = {}
                copied = any(e["k"] == "decl" and e.get("v") == vid and e.get("init") is not None and rawvars(f, e["init"]) for e in f.events())
                uses = set()
                for e in f.events():
                    t = target(e, f)
                    if t and strip(t[1]) == ["v", vid]:
                        asg.setdefault(t[0], []).append(e)
                        for x in ([e["r"]] if e["k"] == "asg" else e.get("a", [])): uses |= deriv(f, x)
                    elif e["k"] == "call" and any(is_expr(strip(a)) and vid in rawvars(f, a) for a in e["a"]):
                        for a in e["a"]: uses |= deriv(f, a)
                if copied: continue
                req = [e for e, v in reqs if v == vid]
                def tr(st, e, b=None):
                    t = target(e, f)
                    if t and strip(t[1]) == ["v", vid]: return st | {t[0]}
                    if e["k"] == "call" and "::operator=" in (e.get("q") or "") and e.get("obj") is not None and strip(e["obj"]) == ["v", vid]: return st | {"kind", "backend", "size"}
                    if e["k"] == "decl" and e.get("v") == vid: return frozenset()
                    return st
                ins = forward(f, frozenset(), tr, lambda a, b: a & b)
                for b in f.blocks.values():
                    if b.id not in ins: continue
                    st = ins[b.id]
                    for e in b.ev:
                        if e in req:
                            for need in ("kind", "backend", "size"):
                                if need in st: ctx.ok("complete", 1, "%s sets '%s'" % (f.loc(e), need))
                                else: ctx.violation("complete", "%s|%s" % (f.display, need), f.loc(e), "a variable is created without setting '%s' on every path" % need)
                        st = tr(st, e)
                if not any(t == "VarKind" for t in f.ptypes): continue
                for v, t in zip(f.params, f.ptypes):
                    if t in ("bool", "Variable *", "const Variable *") or t.endswith("*"): continue
                    if v in uses: ctx.ok("complete", 1, "%s records '%s'" % (f.loc(), v.split(":")[0]))
                    else: ctx.violation("complete", "%s|param|%s" % (f.display, v.split(":")[0]), f.loc(), "the new variable doesn't record the argument '%s': requests that differ there are merged" % v.split(":")[0])

    # -- carry
    def carry(s, ctx):
        p = s.p
        for f in s.fns:
            for e in f.events():
                if e["k"] == "call" and (e.get("q") or "") == "jitc_var_new" and e["a"]:
                    o = strip(e["a"][0])
                    if not (is_expr(o) and o[0] == "v"): continue
                    w = [t[0] for t in (target(x, f) for x in f.events() if x["k"] == "asg") if t and strip(t[1]) == o]
                    if "scratch" in w:
                        dis = len(e["a"]) > 1 and const_int(f.canon(e["a"][1])) == 1
                        blk = next(b for b in f.blocks.values() if e in b.ev)
                        # only the request reached by the assignment counts
                        if reach_from(f, [x for x in f.events() if x["k"] == "asg" and (target(x, f) or ("", None))[0] == "scratch"], e) and not dis:
                            ctx.violation("carry", "%s|scratch" % f.display, f.loc(e), "information stored outside of the key ('scratch') would be lost or mixed up when the variable is shared")
                        elif dis: ctx.ok("carry", 1, f.loc(e))
                if e["k"] == "call" and (e.get("q") or "") == "jitc_var_set_callback" and len(e["a"]) >= 3:
                    data = f.canon(e["a"][2])
                    if const_int(data) == 0: continue
                    i = peel_raw(f, e["a"][0])
                    c = None
                    for _ in range(4):
                        if is_expr(i) and i[0] == "v":
                            ds = [d for d in f.defs().get(i[1], []) if d[1] is not None]
                            if len(ds) != 1: break
                            i = peel_raw(f, ds[0][1])
                    if not (is_expr(i) and i[0] == "ev"): continue
                    c = f.evi.get(i[1])
                    if c is None or c["k"] != "call" or not (c.get("q") or "").startswith("jitc_var_new"): continue
                    if s.unregistered(f, i): ctx.ok("carry", 1, "%s owns data and isn't shared" % f.loc(e)); continue
                    dv = set(rawvars(f, e["a"][2]))
                    dv |= aliases(f, dv)
                    pay = set()
                    for a in c["a"]: pay |= set(rawvars(f, a))
                    o = strip(c["a"][0])
                    if is_expr(o) and o[0] == "v":
                        for x in f.events():
                            t = target(x, f) if x["k"] == "asg" else None
                            if t and t[0] in ("literal", "data") and strip(t[1]) == o: pay |= set(rawvars(f, x["r"]))
                            if x["k"] == "call" and any(strip(a) == o for a in x["a"]) and x is not c:
                                for a in x["a"]: pay |= set(rawvars(f, a))
                    # a dependency on something that was just created and is never shared makes the node unique
                    if dv & pay: ctx.ok("carry", 1, "%s: the data is part of the key" % f.loc(e))
                    elif any(s.unregistered(f, a) for a in c["a"] if index_like(f, a)): ctx.ok("carry", 1, "%s depends on a unique variable" % f.loc(e))
                    else: ctx.violation("carry", "%s|callback" % f.display, f.loc(e), "the new variable may be one that already exists (sharing isn't disabled, and the data isn't part of its key): its callback and the data it owns would be replaced")


def deriv(f, x):
    """local variables a value derives from, through single definitions"""
    out, todo = set(), list(rawvars(f, x))
    while todo:
        v = todo.pop()
        if v in out: continue
        out.add(v)
        for k, d, ev in f.defs().get(v, []):
            if d is not None: todo += list(rawvars(f, d))
    return out


def index_like(f, a):
    a = strip(a)
    return is_expr(a) and a[0] in ("v", "ev")


def aliases(f, vs):
    out = set()
    for e in f.events():
        if e["k"] == "decl" and e.get("init") is not None:
            r = set(rawvars(f, e["init"]))
            if e["v"] in vs: out |= r
            if r & vs: out.add(e["v"])
    return out


def reach_from(f, srcs, dst):
    db = next(b.id for b in f.blocks.values() if dst in b.ev)
    for x in srcs:
        sb = next(b for b in f.blocks.values() if x in b.ev)
        if sb.id == db and sb.ev.index(x) < sb.ev.index(dst): return True
        seen, todo = set(), [t for t in sb.succ if t is not None]
        while todo:
            t = todo.pop()
            if t in seen: continue
            seen.add(t)
            if t == db: return True
            todo += [u for u in f.blocks[t].succ if u is not None]
    return False


def conj(c, v):
    c = strip(c)
    if is_expr(c) and c[0] == "bi" and c[1] in ("&&", "&") and v and c[1] == "&&": return conj(c[2], v) + conj(c[3], v)
    if is_expr(c) and c[0] == "bi" and c[1] == "||" and not v: return conj(c[2], v) + conj(c[3], v)
    if is_expr(c) and c[0] == "u" and c[1] == "!": return conj(c[2], not v)
    return [(c, v)]


def peel(e):
    """strips smart-pointer and conversion calls off a canonical index expression"""
    while True:
        e = strip(e)
        if not is_expr(e): return e
        if e[0] == "call" and e[1].split("::")[-1] in ("steal", "borrow", "move") and len(e) > 3: e = e[3]
        elif e[0] == "call" and e[1].split("::")[-1] in ("get", "release", "operator unsigned int") or e[0] == "call" and "::operator unsigned" in e[1]: e = e[2]
        elif e[0] == "ctor" and len(e) == 3: e = e[2]
        elif e[0] == "u" and e[1] == "*": e = e[2]
        else: return e


def peel_raw(f, e):
    """like peel(), on raw expressions"""
    for _ in range(12):
        e = strip(e)
        if not is_expr(e): return e
        if e[0] == "ev":
            ev = f.evi.get(e[1])
            if ev is None: return e
            q = (ev.get("q") or "").split("::")[-1]
            if ev["k"] == "ctor" and len(ev["a"]) == 1: e = ev["a"][0]
            elif ev["k"] == "call" and q in ("steal", "borrow", "move") and ev["a"]: e = ev["a"][0]
            elif ev["k"] == "call" and ev.get("obj") is not None and (q in ("get", "release") or q.startswith("operator unsigned")): e = ev["obj"]
            else: return e
        elif e[0] == "u" and e[1] == "*": e = e[2]
        else: return e
    return e


def empty(f, e):
    e = f.canon(e)
    return const_int(e) == 0 or (is_expr(e) and e[0] in ("ctor", "il") and len(e) == 2)


def has_enum(f, e, name):
    if e is None: return False
    return any(x[0] == "e" and x[1] == name for x in walk(f.canon(e)))


def ty_of(f, a):
    a = strip(a)
    return decl_ty(f, a[1]) if is_expr(a) and a[0] == "v" else ""


def decl_ty(f, v):
    for e in f.events():
        if e["k"] == "decl" and e.get("v") == v: return e.get("ty") or ""
    return f.ptypes[f.params.index(v)] if v in f.params else ""


def target(ev, f):
    """(field of Variable, base expression) that an event writes"""
    if ev["k"] == "asg": e = ev["l_"]
    elif ev["k"] == "inc": e = ev["e"]
    elif ev["k"] == "call" and (ev.get("q") or "").split("::")[-1] in ("memcpy", "memset", "memmove") and ev["a"]: e = ev["a"][0]
    else: return None
    while is_expr(e) and e[0] in ("ix", "cast", "ic", "def", "u"):
        if e[0] == "u" and e[1] not in ("&", "*"): return None
        e = e[1] if e[0] in ("ix", "def") else e[2] if e[0] == "u" else e[3]
    if not (is_expr(e) and e[0] == "m"): return None
    fld, base = e[2], e[1]
    b = strip(base)
    if e[3] != "Variable":
        # member of an anonymous union of Variable
        if is_expr(b) and b[0] == "m" and b[3] == "Variable" and (not b[2] or "anonymous" in str(b[2])): base = b[1]
        elif fld in ("literal", "data", "array_length", "ref_count_stashed") and ("anonymous" in str(e[3]) or e[3] in ("", None)) and "Variable" in str(base_ty(f, b)): pass
        else: return None
    return fld, base


def base_ty(f, b):
    b = strip(b)
    if is_expr(b) and b[0] == "v": return decl_ty(f, b[1]) or "Variable" if not decl_ty(f, b[1]) else decl_ty(f, b[1])
    if is_expr(b) and b[0] == "ev": return (f.evi.get(b[1]) or {}).get("ty", "")
    return ""


def table_var(s, f, base):
    """index (canonical or a placeholder) if the base denotes a variable of the table rather than a local object"""
    b = strip(base)
    if not is_expr(b): return None
    if b[0] == "this": return None
    if b[0] == "u" and b[1] == "*": return table_var(s, f, b[2])
    if b[0] == "v":
        ty = decl_ty(f, b[1])
        if ty and not ty.rstrip().endswith(("*", "&")): return None
        if b[1] in f.params:
            return ["?param"] if ty.rstrip().endswith("*") else None     # references: objects under construction
        x = s.index_of(f, b)
        if x is not None: return x
        for k, d, ev in f.defs().get(b[1], []):
            if d is None: continue
            dd = strip(d)
            y = s.index_of(f, dd)
            if y is not None: return y
            r = strip(f.canon(d))
            if is_expr(r) and r[0] == "u" and r[1] == "&" and strip(r[2])[0] == "v": return None
        return ["?"]
    x = s.index_of(f, b)
    return x if x is not None else (["?"] if b[0] in ("ev", "ix", "m") else None)


def idx_raw(s, f, base):
    """raw index expression of the variable"""
    b = strip(base)
    for _ in range(6):
        if is_expr(b) and b[0] == "u" and b[1] in ("*", "&"): b = strip(b[2]); continue
        if is_expr(b) and b[0] == "v":
            ds = [d for d in f.defs().get(b[1], []) if d[1] is not None]
            if len(ds) == 0: return None
            # the last assignment wins when all of them denote the same index
            b = strip(ds[-1][1]); continue
        if is_expr(b) and b[0] == "ev":
            ev = f.evi.get(b[1])
            if ev is None or ev["k"] != "call": return None
            q = (ev.get("q") or "").split("::")[-1]
            if q == "jitc_var" and ev["a"]: return ev["a"][0]
            if q in ("operator[]", "at") and ev["a"]: return ev["a"][0]
            return None
        if is_expr(b) and b[0] == "ix": return b[2]
        return None
    return None


def idx_site(f, base):
    """event at which the pointer to the variable was obtained"""
    b = strip(base)
    if is_expr(b) and b[0] == "v":
        ds = [d for d in f.defs().get(b[1], []) if d[1] is not None]
        if len(ds) != 1: return None
        b = strip(ds[0][1])
    return f.evi.get(b[1]) if is_expr(b) and b[0] == "ev" else None


def same_base(f, c, base):
    return bool(set(rawvars(f, base)) & set(rawvars(f, c))) or str(f.canon(base)) in str(f.canon(c))


def shadow_dep(f, ev, base):
    """the last operand slot of an evaluated buffer keeps other memory alive (no meaning for sharing): the data pointer of the same variable is accessed"""
    vs = str(f.canon(base))
    for x in f.events():
        if x["k"] == "deref" and is_expr(x.get("e")) and x["e"][0] == "m" and x["e"][2] == "data" and str(f.canon(x["e"][1])) == vs: return True
        if x["k"] == "call" and (x.get("q") or "").split("::")[-1] in ("jitc_var_inc_ref_se", "jitc_var_dec_ref_se") and x["a"] and str(f.canon(x["a"][0])) in vs: return True
    return False
