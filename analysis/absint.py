"""Finite-domain abstract execution of one (inlined) control-flow graph.
Scalar locals carry a constant, 'nz' (non-zero, otherwise unknown) or nothing; unknown conditions fork and refine.  A hook observes every event
together with the abstract values that reach it and accumulates effects.  States are deduplicated, hence loops terminate once their effects saturate."""
from .core import strip, is_expr, const_int, walk, edge_facts

class Blowup(Exception): pass

class Interp:
    def __init__(s, prog, f, hook, special=None, limit=60000, only=None, onbranch=None):
        s.prog, s.f, s.hook, s.special, s.limit = prog, f, hook, special, limit
        s.at = f.address_taken(); s.only = only; s.onbranch = onbranch   # only: locals whose values are tracked
        s.exits = set()    # (effects, env) at normal exits
        s.raises = set()   # effects at raising exits

    def ev(s, e, env, d=0):
        e = strip(e)
        if not is_expr(e) or d > 12: return None
        if s.special:
            x = s.special(s, e, env)
            if x is not None: return x
        c = const_int(e)
        if c is not None: return c
        k = e[0]
        if k == "null": return 0
        if k == "b" or k == "i": return e[1]
        if k == "e": return e[2]
        if k == "v":
            return dict(env).get(e[1])
        if k in ("cast", "ic"): return s.ev(e[3], env, d + 1)
        if k == "ev":
            v = s.f.evi.get(e[1])
            if v is None: return None
            if v["k"] == "call": return s.call(v.get("q"), v.get("fn"), v.get("a", []), env, d, v)
            if v["k"] == "asg" and v["op"] == "=": return s.ev(v["l_"], env, d + 1)
            return None
        if k == "u":
            x = s.ev(e[2], env, d + 1)
            if e[1] == "!": return None if x is None else int(x == 0)
            if e[1] == "-" and isinstance(x, int): return -x
            if e[1] == "&": return "nz"
            return None
        if k == "?":
            c = s.ev(e[1], env, d + 1)
            if c is None: return None
            return s.ev(e[3] if c == 0 else e[2], env, d + 1)
        if k == "bi":
            o, x, y = e[1], s.ev(e[2], env, d + 1), s.ev(e[3], env, d + 1)
            if o == "&&":
                if x == 0 or y == 0: return 0
                return 1 if x is not None and y is not None else None
            if o == "||":
                if x not in (0, None) or y not in (0, None): return 1
                return 0 if x == 0 and y == 0 else None
            if o in ("==", "!=") and ((x == "nz" and y == 0) or (x == 0 and y == "nz")): return int(o == "!=")
            if not isinstance(x, int) or not isinstance(y, int): return None
            try:
                return {"==": lambda: int(x == y), "!=": lambda: int(x != y), "<": lambda: int(x < y), ">": lambda: int(x > y), "<=": lambda: int(x <= y),
                        ">=": lambda: int(x >= y), "+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, "|": lambda: x | y,
                        "^": lambda: x ^ y, "<<": lambda: x << y if y < 64 else None, ">>": lambda: x >> y if y < 64 else None,
                        "/": lambda: x // y if y else None, "%": lambda: x % y if y else None}[o]()
            except KeyError: return None
        return None

    def call(s, q, key, args, env, d, v=None):
        if q == "__builtin_expect" and args: return s.ev(args[0], env, d + 1)
        g = s.prog.fns.get(key)
        if g is None or len(g.params) != len(args) or d > 10: return None
        evs = [e for e in g.events()]
        rets = [e for e in evs if e["k"] == "ret" and is_expr(e.get("e"))]
        if len(rets) != 1 or any(e["k"] in ("asg", "inc", "throw", "decl") for e in evs): return None
        sub = Interp(s.prog, g, None, s.special)
        vals = [(p, s.ev(a, env, d + 1)) for p, a in zip(g.params, args)]
        return sub.ev(rets[0]["e"], frozenset((p, x) for p, x in vals if x is not None), d + 1)

    def put(s, env, v, c):
        env = frozenset(x for x in env if x[0] != v)
        return env | {(v, c)} if c is not None and (s.only is None or v in s.only) else env

    def refine(s, env, c, val):
        c = strip(c)
        if not is_expr(c): return env
        while c[0] == "ev":
            v = s.f.evi.get(c[1])
            if v is not None and v["k"] == "call" and v.get("q") == "__builtin_expect": c = strip(v["a"][0])
            elif v is not None and v["k"] == "asg" and v["op"] == "=": c = strip(v["l_"])
            else: return env
        if c[0] == "u" and c[1] == "!": return s.refine(env, c[2], not val)
        if c[0] == "v" and not dict(env).get(c[1]): return s.put(env, c[1], "nz" if val else 0) if dict(env).get(c[1]) is None else env
        if c[0] == "bi" and c[1] in ("==", "!="):
            for a, b in ((c[2], c[3]), (c[3], c[2])):
                a = strip(a); x = s.ev(b, env)
                if is_expr(a) and a[0] == "v" and isinstance(x, int):
                    if (c[1] == "==") == val: return s.put(env, a[1], x)
                    if x == 0 and dict(env).get(a[1]) is None: return s.put(env, a[1], "nz")
        if c[0] == "bi" and c[1] == "&&" and val: return s.refine(s.refine(env, c[2], True), c[3], True)
        if c[0] == "bi" and c[1] == "||" and not val: return s.refine(s.refine(env, c[2], False), c[3], False)
        return env

    def step(s, e, env):
        k = e["k"]
        if k == "decl": return s.put(env, e["v"], s.ev(e["init"], env) if e.get("init") is not None else None)
        if k == "asg":
            l = strip(e["l_"])
            if l[0] == "v":
                if e["op"] == "=": return s.put(env, l[1], s.ev(e["r"], env))
                x, y = dict(env).get(l[1]), s.ev(e["r"], env)
                return s.put(env, l[1], s.ev(["bi", e["op"][:-1], ["i", x], ["i", y]], env) if isinstance(x, int) and isinstance(y, int) else None)
        if k == "inc":
            l = strip(e["e"])
            if l[0] == "v":
                x = dict(env).get(l[1])
                return s.put(env, l[1], x + (-1 if e.get("op", "++").find("-") >= 0 else 1) if isinstance(x, int) else None)
        if k in ("call", "ctor"):  # address-of arguments and by-reference locals may be written
            for a in e.get("a", []):
                for x in walk(a):
                    if x[0] == "u" and x[1] == "&" and strip(x[2])[0] == "v": env = s.put(env, strip(x[2])[1], None)
        return env

    def run(s, env=frozenset(), eff=None):
        seen, work, n = set(), [(s.f.rpo()[0], frozenset(env), eff)], 0
        while work:
            st = work.pop()
            if st in seen: continue
            seen.add(st); n += 1
            if n > s.limit: raise Blowup(s.f.display)
            b, env, eff = st
            blk = s.f.blocks[b]
            cur, dead = [(env, eff)], False
            for e in blk.ev:
                nxt = set()
                for env, eff in cur:
                    for r in s.hook(s, e, env, eff):
                        env2, eff2 = r
                        nxt.add((s.step(e, env2) if env2 is not None else s.step(e, env), eff2))
                cur = list(nxt)
                if e["k"] == "throw" or e.get("noret"):
                    for env, eff in cur: s.raises.add(eff)
                    dead = True; break
            if dead: continue
            succ = [x for x in blk.succ]
            live = [x for x in succ if x is not None]
            if not live:
                for env, eff in cur: s.exits.add((eff, env))
                continue
            t = blk.term
            for env, eff in cur:
                if t and t[0] == "switch" and t[1] is not None:
                    x = s.ev(t[1], env); hit = False; dflt = None; cases = []
                    for y in live:
                        l = s.f.blocks[y].label
                        if l and l[0] == "case": cases.append((const_int(l[1]) if const_int(l[1]) is not None else s.ev(l[1], env), y))
                        else: dflt = y
                    for c, y in cases:
                        if isinstance(x, int) and c is not None:
                            if c == x: work.append((y, env, eff)); hit = True
                        else: work.append((y, s.refine(env, ["bi", "==", t[1], ["i", c]], True) if c is not None else env, eff))
                    if dflt is not None and not hit: work.append((dflt, env, eff))
                    continue
                two = t and t[1] is not None and len(succ) == 2 and t[0] not in ("try", "goto", "tempdtor", "range")
                if not two:
                    for y in live: work.append((y, env, eff))
                    continue
                for i, y in enumerate(succ):
                    if y is None: continue
                    bad, env2 = False, env
                    for c, v in edge_facts(s.f, blk, i):
                        x = s.ev(c, env2)
                        if x is not None and (x != 0) != v: bad = True; break
                        env2 = s.refine(env2, c, v)
                    if not bad: work.append((y, env2, s.onbranch(s, edge_facts(s.f, blk, i), env, eff) if s.onbranch else eff))
        return s
