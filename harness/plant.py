"""plant(id, property, edits, prog, needs, breaks[, flags]): creates /verif/seeded/<id> and validates it (demo on clean and on
patched tree, check on patched tree).  Only a convenience for writing planted bugs."""
import json, os, shutil, subprocess, sys
SRC = os.environ.get("PLANT_SRC", "/repo"); S = "/verif/seeded"; H = "/verif/harness"; C = "/tmp/prepo"
DEMO = '''#!/bin/bash
# exit 0 when the library in the current directory behaves, non-zero otherwise
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap '/bin/rm -rf "$T"' EXIT
bash "$D/buildlib.sh" "$R" "$T/out" %(flags)s >"$T/log" 2>&1 || { tail -5 "$T/log"; exit 99; }
g++ -std=c++17 -g -O1 -w %(flags)s -I"$D/inc" -I"$R" -I"$R/include" -I"$R/ext/lz4" "$D/prog.cpp" "$T/out/libdrjit.a" -lpthread -ldl -o "$T/prog" || exit 98
export HOME="$T" DRJIT_CACHE_DIR="$T/cache" DRJIT_LIBLLVM_PATH=/usr/lib/llvm-18/lib/libLLVM-18.so
cd "$T"; timeout %(tmo)d %(pre)s ./prog; rc=$?; echo "demo rc=$rc"; exit $rc
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def plant(pid, prop, edits, prog, needs, breaks, flags="", demo=None, tmo=100, check=True, pre="", files={}):
    d = "%s/%s" % (S, pid)
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    if demo is None:
        shutil.copytree(H + "/inc", d + "/inc"); shutil.copy(H + "/buildlib.sh", d); shutil.copy(H + "/nanothread.cpp", d)
        open(d + "/prog.cpp", "w").write(prog)
        demo = DEMO % {"flags": flags, "tmo": tmo, "pre": pre}
    for k, v in files.items(): open(d + "/" + k, "w").write(v)
    open(d + "/demo.sh", "w").write(demo); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if os.path.exists(C): shutil.rmtree(C)
    sh("cp -a %s %s" % (SRC, C))
    for f, old, new in edits:
        s = open(C + "/" + f).read()
        if s.count(old) != 1: print(pid, "NOMATCH", s.count(old), f, old[:50]); return
        open(C + "/" + f, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git -C %s diff" % C).stdout)
    a = sh("bash %s/demo.sh" % d, cwd=SRC); b = sh("bash %s/demo.sh" % d, cwd=C)
    c = sh("python3 /verif/check.py " + prop, env=dict(os.environ, VERIF_REPO=C,VERIF_EVIDENCE='/tmp/pev',VERIF_CACHE='/tmp/pcache')) if check else None
    o = [l for l in (c.stdout + c.stderr).splitlines() if not l.startswith("KNOWN")] if c else []
    print("%s %s clean=%d patched=%d check=%s %s" % ("OK " if a.returncode == 0 and b.returncode and (not c or c.returncode == 1) else "BAD", pid, a.returncode, b.returncode, c.returncode if c else "-", o[0][:160] if o else ""))
    if a.returncode or not b.returncode: print("  clean:", (a.stdout + a.stderr)[-400:], "\n  patched:", (b.stdout + b.stderr)[-400:])
    shutil.rmtree(C)
