"""C15: the chain of LLVM worker tasks: token/ownership abstract interpretation of every function that handles Task* values."""
from .core import *
from .c03 import dominators
import re

G = "jitc_task"
SUBMIT = ("task_submit_dep", "task_submit")
FLAGS = ("jit_flag", "jitc_flag")


def mname(q): return (q or "").split("::")[-1]
def is_task_ty(t): return (t or "").replace("const", "").replace(" ", "") in ("Task*", "Task**") or (t or "").strip() == "Task *"
def is_g(f, e):
    e = strip(f.canon(e)) if e is not None else None
    return is_expr(e) and e[0] == "g" and e[1].split("::")[-1] == G


def raw_g(e):
    e = strip(e) if e is not None else None
    return is_expr(e) and e[0] == "g" and e[1].split("::")[-1] == G


def relock(p):
    """keys of functions that may release state.lock while running (closure over calls)"""
    seed = set()
    for f in p.fns.values():
        for e in f.events():
            if e["k"] == "decl" and "unlock_guard" in (e.get("ty") or ""): seed.add(f.key)
            if e["k"] == "call" and mname(e.get("q")) == "lock_release": seed.add(f.key)
    rev = {}
    for f in p.fns.values():
        for e in f.events():
            if e["k"] in ("call", "ctor", "dtor"):
                for t in p.targets(e): rev.setdefault(t.key, set()).add(f.key)
    todo = list(seed); out = set(seed)
    while todo:
        k = todo.pop()
        for c in rev.get(k, ()):
            if c not in out: out.add(c); todo.append(c)
    return out


def task_fn(f):
    return any((e["k"] == "call" and mname(e.get("q")).startswith("task_")) or (e["k"] == "asg" and raw_g(e["l_"])) for e in f.events())


def writers(p):
    """functions that (transitively) replace the chain head"""
    out = {f.key for f in p.fns.values() if any(e["k"] == "asg" and raw_g(e["l_"]) for e in f.events())}
    rev = {}
    for f in p.fns.values():
        for e in f.events():
            if e["k"] in ("call", "ctor", "dtor"):
                for t in p.targets(e): rev.setdefault(t.key, set()).add(f.key)
    todo = list(out)
    while todo:
        k = todo.pop()
        for c in rev.get(k, ()):
            if c not in out: out.add(c); todo.append(c)
    return out


class A:
    """abstract interpreter of one function"""
    def __init__(s, ctx, p, f, lists, RL, WR):
        s.ctx, s.p, s.f, s.lists, s.RL, s.WR = ctx, p, f, lists, RL, WR
        s.viol = []
        s.n = 0

    # state: (G, env, cnt, par, sched, facts, waited, gone, listst, unlocked, places)
    def bad(s, e, msg): s.viol.append((e, msg))


def mk(d): return tuple(sorted(d.items()))


def analyse(ctx, p, f, lists, RL, WR, hv, launch_bad):
    """returns (violations, exit facts for scheduled tokens whose parent is no longer the chain head)"""
    viol, gaps = [], []
    fresh = [0]

    def tok(e, n):  # deterministic token names
        return "%s@%s:%s" % (n, e.get("l"), e.get("i", ""))

    def is_list(x):
        x = strip(f.canon(x)) if x is not None else None
        return is_expr(x) and x[0] == "g" and x[1] in lists

    def elem(x):
        """element of the list of scheduled tasks"""
        x = strip(f.canon(x)) if x is not None else None
        if not is_expr(x): return False
        if x[0] == "call" and mname(x[1]) in ("operator[]", "at", "front", "back") and is_list(x[2]): return True
        if x[0] == "call" and mname(x[1]) == "operator*":
            y = strip(f.canon(x[2]))
            for d in [y] + [dd[1] for dd in (f.defs().get(y[1], []) if is_expr(y) and y[0] == "v" else []) if dd[1] is not None]:
                for w in walk(f.canon(d)):
                    if w[0] == "call" and mname(w[1]) == "begin" and is_list(w[2]): return True
        if x[0] == "ix" and any(w[0] == "g" and w[1] in lists for w in walk(f.canon(x[1]))): return True
        return False

    def val(st, e):
        """token denoted by expression e in state st: token name, None (null), 'ELEM', ('place', str) or '?'"""
        e = strip(e) if e is not None else None
        if not is_expr(e): return "?"
        if e[0] == "null" or const_int(e) == 0: return None
        if raw_g(e): return st["G"]
        if e[0] == "v":
            if e[1] in st["env"]: return st["env"][e[1]]
            if elem(e): return "ELEM"
            return "?"
        if elem(e): return "ELEM"
        if e[0] == "m" and not (e[2] or "").endswith("task"): return "?"
        if e[0] == "m":
            pn = estr(f.canon(e), f)
            if pn not in st["pl"]:
                st["pl"][pn] = t = "field:" + pn
                st["cnt"][t] = 1
            return st["pl"][pn]
        return "?"

    def parents_of(st, e):
        """parent description of a submission"""
        a = e["a"]
        if len(a) < 2: return None
        x = strip(a[1])
        while is_expr(x) and x[0] in ("cast", "ic"): x = strip(x[-1])
        if is_expr(x) and x[0] == "u" and x[1] == "&" and raw_g(x[2]): return ("chain", st["G"], a[2] if len(a) > 2 else None)
        if is_expr(x) and x[0] == "u" and x[1] == "&" and is_expr(strip(x[2])) and strip(x[2])[0] == "v":
            return ("chain", st["env"].get(strip(x[2])[1], "?"), a[2] if len(a) > 2 else None)
        if any(w[0] == "g" and w[1] in lists for w in walk(f.canon(x))): return ("list", st["lm"], None)
        return None

    def freeze(st): return (st["G"], mk(st["env"]), mk(st["cnt"]), mk(st["par"]), st["sch"], st["facts"], st["wait"], mk(st["pl"]), st["lm"], st["ls"], st["un"])

    def thaw(u):
        G_, env, cnt, par, sch, facts, wait, pl, lm, ls, un = u
        return {"G": G_, "env": dict(env), "cnt": dict(cnt), "par": dict(par), "sch": sch, "facts": facts, "wait": wait, "pl": dict(pl), "lm": lm, "ls": ls, "un": un}

    def havoc(st, e):
        """another thread may replace the chain head: unchanged, or a fresh head"""
        out = [st]
        held = set(st["env"].values()) | {x[0] for x in st["sch"]} | {y for x in st["sch"] if x[1] for y in x[1]} | {y[1] for t_, y in st["par"].items() if st["cnt"].get(t_)}
        if isinstance(st["G"], str) and st["G"].startswith("other") and st["G"] not in held: return out
        t = thaw(freeze(st))
        n = next(x for x in ("other", "other2", "other3", "other4") if x not in held or x == "other4")
        if t["G"] != n:
            if t["G"] is not None and t["G"] in t["cnt"]: t["cnt"][t["G"]] -= 1
            t["G"] = n; t["cnt"][n] = 1; t["par"][n] = ("chain", st["G"])
            out.append(t)
        return out

    def submit(st, e, target):
        n = tok(e, "task")
        pr = parents_of(st, e)
        if pr is None:
            viol.append((e, "submitted task does not depend on the preceding task of the chain")); pr = ("none", None)
        if len(pr) > 2 and pr[2] is not None and not count_ok(pr[2]):
            viol.append((e, "whether the submitted task depends on the preceding task of the chain is decided by unrelated values"))
        st["cnt"][n] = 1; st["par"][n] = pr[:2]
        return n

    def count_ok(x):
        """number of parents: a positive constant, or an expression over the head and the list only"""
        x = f.canon(strip(x)); c = const_int(x)
        if c is not None: return c > 0
        for w in walk(x):
            if w[0] == "v" and not is_task_ty(vty(f, w[1])): return False
            if w[0] == "g" and not raw_g(w) and w[1] not in lists: return False
            if w[0] in ("m", "this"): return False
            if w[0] in ("ev",): return False
        return True

    def release(st, v, e, what):
        if v in (None, "?", "ELEM"):
            if v == "ELEM": st["ls"] = st["ls"] | {"released"}
            return
        st["cnt"][v] = st["cnt"].get(v, 0) - 1
        if st["cnt"][v] < 0: viol.append((e, "%s releases a task handle more often than it was acquired" % what))

    def overwrite(st, e, l, pn):
        if pn not in st["pl"] and not any(is_task_ty(fl[1]) for r_ in p.recs.values() if r_["q"] == (l[3] or "") for fl in r_["fields"] if fl[0] == l[2]):
            return   # untyped slots of fresh records
        v = val(st, l)
        if isinstance(v, str) and v in st["cnt"] and st["cnt"][v] > 0 and v.startswith("field:") and v not in st["env"].values():
            viol.append((e, "the previous task handle of '%s' is overwritten without being released" % pn))

    def retire(st, v, e):
        """local variable 'v' changes: places that depend on it denote other objects from here on"""
        n = v.split(":")[0]
        for pn in [k for k in st["pl"] if re.search(r"\b%s\b" % re.escape(n), k)]:
            t = st["pl"].pop(pn)
            if isinstance(t, str) and t in st["cnt"] and t.startswith("field:"):
                if st["cnt"][t] == 0: st["ls"] = st["ls"] | {("dangling", pn)}
                elif st["cnt"][t] > 1: viol.append((e, "a task handle is leaked (%s)" % pn))
                st["cnt"].pop(t, None)
            elif isinstance(t, str) and t in st["cnt"]: st["cnt"][t] -= 1

    def setg(st, e, r):
        """jitc_task = r"""
        old = st["G"]
        if is_submit(r):
            n = submit(st, r_ev(r), None); v = n
        else: v = val(st, r)
        if old is not None and v != old and st["cnt"].get(old, 0) > 0 and not any(t == old for t in st["env"].values()):
            viol.append((e, "the chain head is overwritten without releasing its handle"))
        if v is None:
            if old is not None and old not in st["wait"] and st["cnt"].get(old, 0) >= 0: viol.append((e, "the chain is cleared although its last task was not waited for"))
        elif v == "ELEM":
            st["ls"] = st["ls"] | {"moved"}
            need_chain(st, e, old)
            n = "elem"; st["cnt"][n] = 1; v = n
        elif v != "?":
            pr = st["par"].get(v)
            if v != old:
                if pr is None: viol.append((e, "the chain head is replaced by a task that was not made to depend on it"))
                elif pr[0] == "chain" and pr[1] != old: viol.append((e, "work that other threads submitted while the lock was released is dropped from the chain"))
                elif pr[0] == "list":
                    if not pr[1] and old is not None: need_chain(st, e, old)
        st["G"] = v if v != "?" else "unknown"
        if v == "?": st["cnt"]["unknown"] = 1

    def need_chain(st, e, old):
        """scheduled tasks must descend from the chain head: excluded only if the launcher never lets it change"""
        for fs in launch_bad:
            if not any((k, not v) in st["facts"] for k, v in fs):
                viol.append((e, "the chain head is replaced by scheduled tasks that do not depend on work submitted while a launch had released the lock")); return

    def freed(st, x):
        """an object with task handles goes away: its handles must have been released"""
        own = estr(f.canon(x), f)
        under = lambda pn: pn.startswith((own + ".", own + "[", own + "->"))
        for pn, t in list(st["pl"].items()):
            if under(pn):
                st["pl"].pop(pn)
                if isinstance(t, str) and st["cnt"].get(t) == 0: st["cnt"].pop(t)
        st["ls"] = frozenset(y for y in st["ls"] if not (isinstance(y, tuple) and under(y[1])))

    def is_submit(r):
        r = strip(r) if r is not None else None
        return is_expr(r) and ((r[0] == "call" and mname(r[1]) in SUBMIT) or (r[0] == "ev" and r[1] in f.evi and mname(f.evi[r[1]].get("q")) in SUBMIT))

    def r_ev(r):
        r = strip(r)
        if r[0] == "ev": return f.evi[r[1]]
        return {"a": r[3:] if False else r[2:], "l": 0, "i": ""}

    consumed = set()
    for e in f.events():
        for x in ([e.get("init")] if e["k"] == "decl" else [e.get("r")] if e["k"] == "asg" else [e.get("e")] if e["k"] == "ret" else []):
            x = strip(x) if x is not None else None
            if is_expr(x) and x[0] == "ev": consumed.add(x[1])

    def step(u, e, blk, env):
        st = thaw(u)
        k = e["k"]
        outs = None
        if k == "decl":
            ty = e.get("ty") or ""
            if "unlock_guard" in ty:
                st["un"] += 1
                outs = havoc(st, e)
            elif is_task_ty(ty) and e.get("init") is not None:
                if is_submit(e["init"]): st["env"][e["v"]] = submit(st, r_ev(e["init"]), e["v"])
                else:
                    v = val(st, e["init"])
                    if v not in ("?",): st["env"][e["v"]] = v
                    else: st["env"].pop(e["v"], None)
            else:
                x = strip(e["init"]) if e.get("init") is not None else None
                st["facts"] = frozenset(y for y in st["facts"] if y[0] != "bool:" + e["v"])
                if is_expr(x) and x[0] == "bi" and x[1] in ("==", "!="):
                    a, b = val(st, x[2]), val(st, x[3])
                    if not ({a, b} & {"?", "ELEM"}): st["facts"] = st["facts"] | {("bool:" + e["v"], (a == b) == (x[1] == "=="))}
        elif k == "dtor":
            if "unlock_guard" in evstr(e, f): st["un"] = max(0, st["un"] - 1)
        elif k == "asg":
            l = strip(e["l_"])
            if raw_g(l): setg(st, e, e["r"])
            elif is_expr(l) and l[0] == "v" and (is_submit(e["r"]) or l[1] in st["env"] or val(st, e["r"]) not in ("?", None)) and \
                    (is_submit(e["r"]) or val(st, e["r"]) != "?" or l[1] in st["env"]) and task_var(f, l[1]):
                if is_submit(e["r"]): st["env"][l[1]] = submit(st, r_ev(e["r"]), l[1])
                else: st["env"][l[1]] = val(st, e["r"])
            elif is_expr(l) and l[0] == "m" and (l[2] or "").endswith("task"):
                pn = estr(f.canon(l), f)
                if is_submit(e["r"]):
                    n = submit(st, r_ev(e["r"]), pn)
                    overwrite(st, e, l, pn)
                    st["pl"][pn] = n
                else:
                    v = val(st, e["r"])
                    overwrite(st, e, l, pn)
                    st["pl"][pn] = v if v is None or (isinstance(v, str) and v in st["cnt"]) else "?"
        elif k == "call":
            q = mname(e.get("q"))
            if q in SUBMIT:
                if e.get("i") not in consumed: viol.append((e, "the handle of a submitted task is dropped"))
            elif q == "task_retain" and e["a"]:
                v = val(st, e["a"][0])
                if isinstance(v, str) and v in st["cnt"] or isinstance(v, str) and v not in ("?", "ELEM", "RELEASED", "STORED"): st["cnt"][v] = st["cnt"].get(v, 0) + 1
            elif q in ("task_release", "task_wait_and_release", "task_wait") and e["a"]:
                v = val(st, e["a"][0])
                if q != "task_release":
                    if isinstance(v, str) and v not in ("?", "ELEM"):
                        if v in st["cnt"] and st["cnt"][v] <= 0: viol.append((e, "waits for a task whose handle may have been released by another thread"))
                        elif st["un"] and v.startswith("field:") and st["cnt"].get(v, 2) < 2 and not detached(f, e): viol.append((e, "waits for '%s' without holding a handle while the lock is released" % v[6:]))
                        elif st["un"] and v in st["cnt"] and v == st["G"] and st["cnt"][v] < 2: viol.append((e, "waits for the chain head without holding a handle while the lock is released"))
                        st["wait"] = st["wait"] | {v}
                if q != "task_wait": release(st, v, e, q)
            elif q in ("push_back", "emplace_back") and is_list(e.get("obj")) and e["a"]:
                v = val(st, e["a"][0])
                if v == st["G"] or raw_g(e["a"][0]):
                    st["lm"] = 1      # the chain head's handle moves into the list
                    if v in st["cnt"]: st["cnt"][v] -= 1
                elif isinstance(v, str) and v in st["cnt"]:
                    st["cnt"][v] -= 1
                    st["sch"] = st["sch"] | {(v, st["par"].get(v))}
            elif q in ("clear", "resize") and is_list(e.get("obj")): st["ls"] = st["ls"] | {"cleared"}
            elif mname(e.get("q")) in ("free", "operator delete") and e["a"]: freed(st, e["a"][0])
            else:
                T = p.targets(e)
                keys = {t.key for t in T}
                if keys & WR:
                    # the callee replaces the chain head, consuming the old handle (its own chain discipline is checked separately)
                    old = st["G"]
                    if old is not None and old in st["cnt"]: st["cnt"][old] -= 1
                    n = "callee@%s" % e.get("l")
                    st["G"] = n; st["cnt"][n] = 1; st["par"][n] = ("chain", old)
                    st["lm"] = 0
                elif keys & RL:
                    outs = havoc(st, e)
        elif k == "delete": freed(st, e["e"] if "e" in e else e["a"][0])
        elif k == "inc" and is_expr(strip(e["e"])) and strip(e["e"])[0] == "v": retire(st, strip(e["e"])[1], e)
        res = [freeze(x) for x in (outs or [st])]
        return res

    def branch(u, facts, blk, i):
        st = thaw(u)
        fs = st["facts"]
        for c, v in facts:
            c0 = strip(c)
            while is_expr(c0) and c0[0] == "call" and c0[1] == "__builtin_expect": c0 = strip(c0[2])
            neg = False
            todo = [(c0, v)]
            while todo:
                x, w = todo.pop()
                x = strip(x)
                if is_expr(x) and x[0] == "ev" and x[1] in f.evi:
                    y = f.evi[x[1]]; x = ["call", y.get("q")] + list(y["a"])
                if is_expr(x) and x[0] == "u" and x[1] == "!": todo.append((x[2], not w)); continue
                if is_expr(x) and x[0] == "call" and x[1] == "__builtin_expect": todo.append((x[2], w)); continue
                if is_expr(x) and x[0] == "bi" and x[1] == "&&" and w: todo += [(x[2], w), (x[3], w)]; continue
                if is_expr(x) and x[0] == "bi" and x[1] == "||" and not w: todo += [(x[2], w), (x[3], w)]; continue
                if is_expr(x) and x[0] == "call" and mname(x[1]) in FLAGS:
                    y = strip(x[-1])
                    s_ = "flag:" + (y[1].split("::")[-1] if is_expr(y) and y[0] == "e" else estr(y, f))
                    if (s_, not w) in fs: return None
                    fs = fs | {(s_, w)}
                    continue
                if is_expr(x) and x[0] == "call" and mname(x[1]).startswith("jitc_is_"):
                    fs = fs | {(mname(x[1]), w)}; continue
                if is_expr(x) and x[0] == "bi" and x[1] in ("==", "!="):
                    a, b = val(st, x[2]), val(st, x[3])
                    eq = w if x[1] == "==" else not w
                    if "ELEM" in (a, b) and not ({a, b} & {None, "?"}): st["ls"] = st["ls"] | {"cond"}
                    if "?" not in (a, b) and "ELEM" not in (a, b):
                        if (a == b) != eq: return None
                    continue
                if is_expr(x) and x[0] == "v" and ("bool:" + x[1], not w) in fs: return None
                if is_expr(x) and x[0] in ("v", "g", "m"):
                    a = val(st, x)
                    if a is None and w: return None
                    if isinstance(a, str) and a not in ("?", "ELEM", "RELEASED", "STORED"):
                        if not w:
                            if a.startswith("task@"): return None
                            # the value is null
                            if st["G"] == a: st["G"] = None
                            st["cnt"].pop(a, None)
                            st["env"] = {k_: (None if t == a else t) for k_, t in st["env"].items()}
                            st["pl"] = {k_: (None if t == a else t) for k_, t in st["pl"].items()}
                    if x[0] == "v" and x[1].split(":")[0] == "ts" and not w: fs = fs | {("ts-null", True)}
        st["facts"] = fs
        return freeze(st)

    st0 = {"G": "head", "env": {}, "cnt": {"head": 1}, "par": {}, "sch": frozenset(), "facts": frozenset(), "wait": frozenset(), "pl": {}, "lm": 0, "ls": frozenset(), "un": 0}
    ins, exits, tr = paths(f, freeze(st0), step, branch, limit=6000)
    ex = [thaw(x[0] if isinstance(x[0], tuple) and len(x) == 2 and not isinstance(x[0], str) and len(x[0]) == 11 else x) for x in exits]
    for st in ex:
        for t, c in st["cnt"].items():
            want = (1 if st["G"] == t else 0) + sum(1 for x in st["pl"].values() if x == t)
            if t == "elem" and st["G"] == "elem": continue
            if c > want: viol.append((None, "a task handle is leaked (%s)" % name(t)))
            if c < want: viol.append((None, "a task handle was released but is still referenced (%s)" % name(t)))
        for y in st["ls"]:
            if isinstance(y, tuple): viol.append((None, "'%s' still refers to a released task" % y[1]))
        if "cond" in st["ls"] and st["lm"]: viol.append((None, "some handles in the list of scheduled tasks are not released"))
        if st["ls"] & {"moved", "released"} and "cleared" not in st["ls"]: viol.append((None, "the list of scheduled tasks keeps handles that were handed over"))
        if "cleared" in st["ls"] and not (st["ls"] & {"released", "moved"}) and drained(f): pass
        for t, pr in st["sch"]:
            if pr is None or pr[0] != "chain" or (pr[1] != st["G"]): gaps.append(frozenset((k, v) for k, v in st["facts"] if k.startswith("flag:")))
    # de-duplicate
    seen, out = set(), []
    for e, m in viol:
        if m not in seen: seen.add(m); out.append((e, m))
    return out, gaps, ex


def drained(f): return True


def detached(f, e):
    """the waited-for handle lives in an array that this function removed from its owner before releasing the lock"""
    x = f.canon(e["a"][0])
    ms = {estr(w, f) for w in walk(x) if w[0] == "m"}
    return any(y["k"] == "asg" and is_expr(strip(y["l_"])) and strip(y["l_"])[0] == "m" and estr(f.canon(y["l_"]), f) in ms - {estr(strip(x), f)} for y in f.events())


def vty(f, v):
    for e in f.events():
        if e["k"] == "decl" and e["v"] == v: return e.get("ty") or ""
    for a, t in zip(f.params, f.ptypes):
        if a == v: return t
    return ""


def task_var(f, v):
    return any(e["k"] == "decl" and e["v"] == v and is_task_ty(e.get("ty")) for e in f.events())


def name(t): return {"head": "found at entry"}.get(t, t.split("@")[0] + (" submitted in line " + t.split("@")[1].split(":")[0] if t.startswith("task@") else ""))


def run(ctx):
    ctx.rule("chain", "every function keeps the task chain intact: new tasks depend on the head, replace it without a gap during which the lock is released, and "
                      "each handle is released or handed over exactly once on every normal path")
    ctx.rule("parent", "every submitted task depends on the thread's previous task (or on the list of tasks scheduled since)")
    ctx.rule("sync", "synchronizing enqueues parked releases and then waits for the chain head before it returns")
    ctx.rule("failure", "an interrupted evaluation or replay links already launched kernels into the chain")
    ctx.rule("barrier", "every path that launched kernels performs a barrier before control returns to the user (replay repeats the recorded barriers, see C09)")
    p = ctx.prog("full")
    lists = {v["q"] for v in (p.vars.values() if isinstance(p.vars, dict) else p.vars) if "vector<Task *" in str(v.get("ty", v))} if True else set()
    lists = {q.split("::")[-1] for q in lists} | lists
    RL, WR = relock(p), writers(p)
    fs = [f for f in p.repo_fns() if task_fn(f) and (f.kind if hasattr(f, "kind") else "") != "decl"]
    if not fs: raise AnalysisBroken("no function handles task handles")
    helper = lambda t: (any(is_task_ty(x) for x in t.ptypes) or t.ret.replace(" ", "") == "Task*") and not virtual(p, t) and task_fn(t)
    launch_bad = []
    roots = []
    for f in fs:
        if helper(f) and p.callers().get(f.key): continue
        g = inline(p, f, lambda h, e, t: helper(t) and t.key != f.key, 3)
        roots.append((f, g))
    # first pass: launchers (functions that push to the scheduled list)
    gapped = []
    for f, g in roots:
        if any(e["k"] == "call" and mname(e.get("q")) in ("push_back", "emplace_back") and e.get("obj") is not None and strip(g.canon(e["obj"]))[0] == "g" and strip(g.canon(e["obj"]))[1] in lists for e in g.events()):
            v, gaps, ex = analyse(ctx, p, g, lists, RL, WR, None, [])
            if f.q != "LLVMThreadState::barrier" and not any(e["k"] == "asg" and raw_g(e["l_"]) for e in g.events()): launch_bad += gaps
    seen = set()
    for f, g in roots:
        v, gaps, ex = analyse(ctx, p, g, lists, RL, WR, None, list(set(launch_bad)))
        con = f.q
        for e, m in v: ctx.violation("chain", "%s: %s" % (con, m), f.loc(e), "%s (%s)" % (m, f.display if not callable(f.display) else f.display()))
        if not v: ctx.ok("chain", 1, f.q)
        for e in g.events():
            if e["k"] == "call" and mname(e.get("q")) in SUBMIT: ctx.ok("parent", 1, "%s:%s" % (f.q, e["l"]))
    sync(ctx, p, RL, WR, lists)
    failure(ctx, p, lists)
    barriers(ctx, p, lists)
    ctx.floor("chain", 8)
    ctx.floor("parent", 4)


def virtual(p, t):
    R = [r for r in p.recs.values() if r["q"] == t.cls]
    return any(m.get("virtual") or m.get("over") for r in R for m in r["methods"] if m.get("key") == t.key)


def sync(ctx, p, RL, WR, lists):
    """functions that wait for a CUDA stream / LLVM chain by backend: the LLVM branch must wait for the head read after the flush"""
    n = 0
    for f in p.by_q.get("jitc_sync_thread", []):
        if not f.params: continue
        n += 1
        g = inline(p, f, lambda h, e, t: t.file == f.file and task_fn(t) and not virtual(p, t) and t.key != f.key, 2)
        # flush precedes the read of the chain head on every path to the wait
        def step(u, e, blk, env):
            fl, head, wait = u
            if e["k"] == "call" and mname(e.get("q")) == "flush_deferred_free": fl = 1
            if e["k"] in ("decl", "asg") and raw_g(e.get("init") if e["k"] == "decl" else e["r"]): head = 1 if fl else 2
            if e["k"] == "call" and mname(e.get("q")) in ("task_wait", "task_wait_and_release"): wait = 1 if head else 2
            return [(fl, head, wait)]
        def br(u, facts, blk, i):
            for c, v in facts:
                x = strip(g.canon(c))
                neg = v
                while is_expr(x) and x[0] == "u" and x[1] == "!": x = strip(x[2]); neg = not neg
                s = estr(x, g)
                if "jitc_is_llvm" in s and not neg: return "skip"
                if ("jitc_is_cuda" in s or "jitc_is_metal" in s) and neg: return "skip"
                if raw_g(x) and not neg: return "skip"
                if is_expr(x) and x[0] == "v" and not neg: return "skip"
                if is_expr(x) and x[0] == "v" and any(d[1] is not None and raw_g(d[1]) for d in g.defs().get(x[1], [])) and not neg: return "skip"
            return u
        def st2(u, e, blk, env): return [u] if u == "skip" else step(u, e, blk, env)
        def br2(u, facts, blk, i): return u if u == "skip" else br(u, facts, blk, i)
        ins, exits, tr = paths(g, (0, 0, 0), st2, br2, limit=2000)
        for x in exits:
            u = x[0] if isinstance(x, tuple) and len(x) == 2 and (x[0] == "skip" or isinstance(x[0], tuple)) else x
            if u == "skip": continue
            if u[2] != 1: ctx.violation("sync", f.q, f.loc(), "synchronization returns without waiting for the LLVM task chain"); break
            if u[1] != 1: ctx.violation("sync", f.q, f.loc(), "the chain head is read before parked memory releases are enqueued"); break
        else: ctx.ok("sync", 1, f.q)
    if not n: raise AnalysisBroken("jitc_sync_thread(ThreadState *) not found")


def failure(ctx, p, lists):
    """callers that launch kernels (several) and can fail in between have a handler that performs a barrier"""
    from .c02 import may_throw_fns
    drains = {f.key for f in p.fns.values() if any(e["k"] == "call" and mname(e.get("q")) == "clear" and e.get("obj") is not None and
              is_expr(strip(f.canon(e["obj"]))) and strip(f.canon(e["obj"]))[0] == "g" and strip(f.canon(e["obj"]))[1] in lists for e in f.events())}
    launch = {f.key for f in p.fns.values() if f.q.endswith("::launch") and f.cls and "ThreadState" in f.cls}
    # closure: functions that (transitively) launch without draining afterwards -- upward closure until a handler or a drain in a handler
    def clo(seed):
        rev = {}
        for f in p.fns.values():
            for e in f.events():
                if e["k"] == "call":
                    for t in p.targets(e): rev.setdefault(t.key, set()).add(f.key)
        out, todo = set(seed), list(seed)
        while todo:
            k = todo.pop()
            for c in rev.get(k, ()):
                if c not in out: out.add(c); todo.append(c)
        return out
    L, D = clo(launch), clo(drains)
    for f in p.repo_fns():
        # the functions whose evaluation loop launches: they call something that launches inside a loop or call both codegen and launch
        H = f.handlers()
        for b, k in f.blocks.items():
            if not (k.label and k.label[0] == "catch"): continue
            tid = k.label[1]
            body = [e for e in f.events() if e.get("try") == tid and e["k"] == "call" and any(t.key in L for t in p.targets(e))]
            if not body: continue
            if any(t.cls in ("RecordThreadState",) for e in body for t in p.targets(e)): continue
            # handler region: events dominated by the catch block
            dom = dominators(f)
            evs = [e for c in f.blocks if b in dom.get(c, ()) for e in f.blocks[c].ev]
            re = any(e["k"] == "throw" for e in evs)
            ok = any(e["k"] == "call" and any(t.key in D for t in p.targets(e)) for e in evs)
            names = {mname(e["q"]) for e in body if e.get("q")}
            if not names & direct(p, L, launch, drains): continue
            if ok: ctx.ok("failure", 1, f.q)
            else: ctx.violation("failure", f.q, f.loc(body[0]), "kernels launched before the error stay outside of the task chain: the handler does not perform a barrier")
    ctx.floor("failure", 1)


def barriers(ctx, p, lists):
    """summary analysis: may a function return with launched kernels that no barrier has linked yet?"""
    push = {f.key for f in p.fns.values() if any(e["k"] == "call" and mname(e.get("q")) in ("push_back", "emplace_back") and is_expr(strip(f.canon(e.get("obj")) if e.get("obj") else None) or 0) and
            strip(f.canon(e["obj"]))[0] == "g" and strip(f.canon(e["obj"]))[1] in lists for e in f.events())
            and not any(e["k"] == "call" and mname(e.get("q")) == "clear" and e.get("obj") and is_expr(strip(f.canon(e["obj"]))) and strip(f.canon(e["obj"]))[0] == "g" and strip(f.canon(e["obj"]))[1] in lists for e in f.events())}
    drain = {f.key for f in p.fns.values() if any(e["k"] == "call" and mname(e.get("q")) == "clear" and e.get("obj") and is_expr(strip(f.canon(e["obj"]))) and
             strip(f.canon(e["obj"]))[0] == "g" and strip(f.canon(e["obj"]))[1] in lists for e in f.events())}
    pending = set(push)
    # virtual wrappers of the recorder forward to the wrapped thread state
    changed = True
    C = p.callers()
    drains = set(drain)
    def analyse1(f):
        def tr(st, e, blk):
            if e["k"] == "call":
                T = {t.key for t in p.targets(e)}
                if T & drains and not T & pending: return 0
                if T & drains and mname(e.get("q")) == "barrier": return 0
                if T & pending: return 1
            if e["k"] == "throw" or e.get("noret"): return None
            return st
        ins = forward(f, 0, tr, max)
        return ins.get(f.exit, 0)
    todo = set(pending)
    while todo:
        k = todo.pop()
        for c in [x[0] if isinstance(x, tuple) else x for x in C.get(k, ())]:
            c = getattr(c, "key", c)
            if c in pending or c in drains: continue
            f = p.fns.get(c)
            if f is None or (f.cls or "").endswith("Recording"): continue
            if analyse1(f): pending.add(c); todo.add(c)
    callers = lambda k: {x[0].key for x in C.get(k, ())}
    escaped = [p.fns[k] for k in pending if p.fns[k].q.startswith("jit_") or (p.fns[k].q.startswith("jitc_") and not callers(k))]
    blame = [p.fns[k] for k in pending if any(e["k"] == "call" and any(t.key in drains for t in p.targets(e)) for e in p.fns[k].events())
             and not (p.fns[k].cls or "").endswith("ThreadState")] if escaped else []
    for f in blame or escaped[:3]:
        ctx.violation("barrier", f.q, f.loc(), "may return although the kernels it launched were not linked into the task chain (no barrier on some path); reachable from %d API functions" % len(escaped))
    n = len(pending) if not escaped else 0
    if n: ctx.ok("barrier", n, ", ".join(sorted({p.fns[k].q for k in pending})[:6]))
    if not escaped: ctx.floor("barrier", 2)


def direct(p, L, launch, drains):
    """names of functions that launch and drain themselves (directly or through static helpers): the evaluation and replay drivers"""
    out = set()
    for f in p.repo_fns():
        if f.key in L and any(e["k"] == "call" and mname(e.get("q")) == "barrier" for e in f.events()): out.add(mname(f.q))
    return out
