#!/usr/bin/env python3
"""Makes and confirms planted bugs in scratch copies.   seedtool.py confirm <id>...   (nothing here is used by a check)"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# exit 0 when the behaviour is right
set -u
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
%s -std=c++20 -O1 -w %s -I"$PWD/include" "$d/demo.cpp" -o "$w/demo" -lpthread || exit 3
timeout 120 "$w/demo"
"""
def sh(cmd, cwd, **kw): return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def make(id, prop, edits, demo, needs, breaks, cxx="g++", flags=""):
    d = f"{ROOT}/seeded/{id}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix="mk_", dir="/tmp")
    try:
        sh(f"git -C /repo archive HEAD | tar x -C {w} && cd {w} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", "/tmp")
        for f, old, new in edits:
            p = f"{w}/include/persistence/{f}"; s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", w).stdout
    finally: shutil.rmtree(w)
    open(f"{d}/patch.diff", "wb").write(diff)
    open(f"{d}/demo.sh", "w").write(DEMO % (cxx, flags)); os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/demo.cpp", "w").write(demo.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)

def confirm(id):
    d = f"{ROOT}/seeded/{id}"
    w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        sh(f"git -C /repo archive HEAD | tar x -C {w}", "/tmp")
        a = sh(f"bash {d}/demo.sh", w)
        if a.returncode != 0: return f"{id}: demo fails on the unchanged tree ({a.returncode})\n" + a.stdout.decode()[-800:]
        r = sh(f"git apply {d}/patch.diff", w, env=dict(os.environ, GIT_CEILING_DIRECTORIES="/tmp"))
        if r.returncode: return f"{id}: patch does not apply\n" + r.stdout.decode()
        b = sh(f"bash {d}/demo.sh", w)
        if b.returncode in (0, 3): return f"{id}: demo does not detect the change ({b.returncode})\n" + b.stdout.decode()[-800:]
        c = sh("""export CC=gcc CXX=g++; cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_STANDARD=20 -DCMAKE_CXX_COMPILE_OBJECT="<CMAKE_CXX_COMPILER> <DEFINES> <INCLUDES> <FLAGS> -Wno-error -o <OBJECT> -c <SOURCE>" -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest -DFETCHCONTENT_FULLY_DISCONNECTED=ON && ninja -C _build""", w)
        if c.returncode: return f"{id}: does not build\n" + c.stdout.decode()[-1500:]
        t = sh("ctest --test-dir _build -j8 --timeout 300 --output-on-failure", w)
        if t.returncode: return f"{id}: tests fail\n" + t.stdout.decode()[-1500:]
        return f"{id}: confirmed"
    finally: shutil.rmtree(w)

def trial(id, prop=None, patch=None):
    """Runs the quick check of the property on a patched copy."""
    import time
    d = f"{ROOT}/seeded/{id}"; prop = prop or json.load(open(f"{d}/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="trial_", dir="/tmp"); t0 = time.time()
    try:
        sh(f"git -C /repo archive HEAD | tar x -C {w}", "/tmp")
        r = sh(f"git apply {patch or d + '/patch.diff'}", w, env=dict(os.environ, GIT_CEILING_DIRECTORIES="/tmp"))
        if r.returncode: return f"{id}: patch does not apply\n" + r.stdout.decode()
        r = sh(f"python3 {ROOT}/tools/check.py {prop} quick", ROOT, env=dict(os.environ, VERIF_REPO=w, VERIF_EVID=w + "/evidence"))
        o = r.stdout.decode(errors="replace"); caught = r.returncode == 1 and f"VIOLATION property={prop} " in o
        return f"{id} by {prop}: {'caught' if caught else 'MISSED'} (exit {r.returncode}, {time.time() - t0:.0f} s)" + ("" if caught and r.returncode == 1 else "\n" + o[-1500:]) + ("\n   " + next((l for l in o.splitlines() if l.startswith("what:")), "")[:300] if caught else "")
    finally: shutil.rmtree(w)

if __name__ == "__main__":
    if sys.argv[1] == "trial":
        for a in sys.argv[2:] or sorted(os.listdir(f"{ROOT}/seeded")): print(trial(*a.split("@")), flush=True)
        sys.exit()
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[2:] or sorted(os.listdir(f"{ROOT}/seeded"))
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(confirm, ids): print(r, flush=True)
