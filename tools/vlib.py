"""Build, run and judge: the machinery shared by all checks."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
NCPU = os.cpu_count() or 8
CXX = "clang++"
INC = [f"-I{HARNESS}", f"-I{REPO}/include"]

class ToolError(Exception): pass

def log(*a):
    print(*a, flush=True)

# -- build -------------------------------------------------------------------------------------------------------------
def tree_hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        fs = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fl in os.walk(p) for f in fl if not f.endswith(".pyc"))
        for f in fs:
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

def run(cmd, timeout=850, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)

def prune(keep):
    """Keep only recent builds."""
    ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD)), key=os.path.getmtime)
    for d in ds[:-40]:
        if d != keep: shutil.rmtree(d, ignore_errors=True)

ASAN = f"-fsanitize=address -fsanitize-ignorelist={HARNESS}/asan.ignore"

def build(families=None, feat=31, san=ASAN, ids=None, nounit=16, opt="-O0"):
    """Builds the type harness for a selection of types against the current tree; returns the path of the executable."""
    import gencpp
    key = hashlib.sha256((tree_hash(REPO + "/include", HARNESS, os.path.join(HERE, "catalog.py"), os.path.join(HERE, "gencpp.py")) +
                          repr((sorted(families) if families else None, feat, san, sorted(ids) if ids else None, opt, nounit))).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, "h_" + key); exe = os.path.join(d, "harness")
    if os.path.exists(exe): os.utime(d); return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp_", dir=BUILD)
    t0 = time.time()
    us = gencpp.units(families, ids, nounit)
    for n, s in us: open(f"{tmp}/{n}.cpp", "w").write(s)
    open(f"{tmp}/units.inc", "w").write("".join(f"void register_{n}();\n" for n, _ in us) + "void register_all(){" + "".join(f"register_{n}();" for n, _ in us) + "}\n")
    flags = ["-std=c++20", opt, "-w", f"-DFEAT={feat}"] + san.split() + INC + [f"-I{tmp}"]
    pch = f"{tmp}/pre.pch"
    r = run([CXX] + flags + ["-x", "c++-header", "-fpch-instantiate-templates", f"{HARNESS}/pre.hpp", "-o", pch])
    if r.returncode: shutil.rmtree(tmp); raise ToolError("harness header does not compile:\n" + r.stderr.decode()[:4000])
    jobs = [(f"{tmp}/{n}.cpp", f"{tmp}/{n}.o") for n, _ in us] + [(f"{HARNESS}/main.cpp", f"{tmp}/main.o")]
    def cc(j): return run([CXX] + flags + ["-include-pch", pch, "-c", j[0], "-o", j[1]])
    with ThreadPoolExecutor(NCPU) as ex: rs = list(ex.map(cc, jobs))
    for r in rs:
        if r.returncode: shutil.rmtree(tmp); raise ToolError("harness does not compile:\n" + r.stderr.decode()[:4000])
    r = run([CXX] + san.split() + ["-fuse-ld=lld" if shutil.which("ld.lld") else "-O0"] + [o for _, o in jobs] + ["-o", f"{tmp}/harness", "-lpthread"])
    if r.returncode: shutil.rmtree(tmp); raise ToolError("harness does not link:\n" + r.stderr.decode()[:4000])
    for f in os.listdir(tmp):
        if f != "harness": os.remove(f"{tmp}/{f}")
    if os.path.exists(d): shutil.rmtree(d)
    os.rename(tmp, d); prune(d)
    log(f"built harness: {len(us)} units in {time.time() - t0:.1f} s")
    return exe

def build_one(src, san=ASAN, opt="-O1", extra=(), optional=False):
    """Builds a single-file harness.  With optional, a compile failure returns None (internal names may have changed)."""
    p = os.path.join(HARNESS, src)
    key = hashlib.sha256((tree_hash(REPO + "/include", HARNESS) + repr((src, san, opt, extra))).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, "s_" + key); exe = os.path.join(d, "harness")
    if os.path.exists(exe): os.utime(d); return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp_", dir=BUILD)
    r = run([CXX, "-std=c++20", opt, "-w"] + san.split() + list(extra) + INC + [p, "-o", f"{tmp}/harness", "-lpthread"])
    if r.returncode:
        shutil.rmtree(tmp)
        if optional: return None
        raise ToolError(f"{src} does not compile:\n" + r.stderr.decode()[:4000])
    if os.path.exists(d): shutil.rmtree(d)
    os.rename(tmp, d); prune(d)
    return exe

# -- running -----------------------------------------------------------------------------------------------------------
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0", UBSAN_OPTIONS="halt_on_error=1:exitcode=98:print_stacktrace=0",
           TSAN_OPTIONS="exitcode=97:halt_on_error=0", TZ="EST5EDT,M3.2.0,M11.1.0")

STALL = 40      # seconds without an answer after which a call counts as not terminating

def run_shard(exe, cmds, args=(), env=ENV, stall=STALL):
    """Feeds commands to one process, restarting it after a crash.  Returns a response, {'dead':..} or {'skipped':1} per command."""
    out = []; start = 0; hangs = 0
    while start < len(cmds):
        data = "".join(json.dumps(c, separators=(",", ":")) + "\n" for c in cmds[start:]).encode()
        p = subprocess.Popen([exe, *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        se = []; last = [time.time()]; hung = [False]
        def feed():
            try: p.stdin.write(data); p.stdin.close()
            except OSError: pass
        def errs():
            for chunk in iter(lambda: p.stderr.read1(65536), b""):
                if sum(map(len, se)) < 1 << 20: se.append(chunk)
        def watch():
            while p.poll() is None:
                if time.time() - last[0] > stall: hung[0] = True; p.kill(); return
                time.sleep(.2)
        ts = [threading.Thread(target=f, daemon=True) for f in (feed, errs, watch)]
        for t in ts: t.start()
        full = []
        for l in p.stdout:
            if not l.endswith(b"\n"): break
            full.append(l); last[0] = time.time()
        p.wait(); ts[1].join(5)
        err = b"".join(se).decode(errors="replace")
        if not full:
            why = "does not terminate at program start" if hung[0] else f"exit {p.returncode} at program start: " + err[:1500]
            return out + [{"dead": why, "start": True}] + [{"skipped": 1}] * (len(cmds) - start - 1)
        resp = [json.loads(l) for l in full[1:]]
        out += resp; start += len(resp)
        if start < len(cmds):
            why = "does not terminate" if hung[0] else f"exit {p.returncode}: " + err[:2000]
            out.append({"dead": why}); start += 1; hangs += hung[0]
        elif p.returncode != 0:
            # every command was answered but the process did not end well (leaks, destructors)
            out[-1] = dict(out[-1]); out[-1]["dead"] = f"exit {p.returncode} at the end of the process: " + err[:2000]
        if hangs >= 2 or sum("dead" in o for o in out) > 10:
            return out + [{"skipped": 1}] * (len(cmds) - start)
    return out

def run_cmds(exe, cmds, shards=NCPU, args=()):
    for i, c in enumerate(cmds): c["c"] = i
    k = max(1, min(shards, (len(cmds) + 31) // 32))
    parts = [cmds[i * len(cmds) // k:(i + 1) * len(cmds) // k] for i in range(k)]
    with ThreadPoolExecutor(k) as ex: rs = list(ex.map(lambda p: run_shard(exe, p, args), parts))
    return [r for part in rs for r in part]

# -- events ------------------------------------------------------------------------------------------------------------
P_FORMS = ("pt", "pb", "fp"); D_FORMS = ("dt", "db", "mt", "mb", "ot", "ob", "nb", "od", "fb"); W_FORMS = ("wt", "wb", "ws", "st", "sb", "ds", "sd")
DNULL = {"t": "null", "a": 0, "z": 0}

def sort_maps(av): return av

def adapt(cmd, resp):
    """Event for the specification from a command and what the harness reported."""
    import jsontext
    from catalog import conv
    if "skipped" in resp: return None
    if "dead" in resp: return {"op": "dead", "t": cmd.get("t", 0)}
    ev = {"op": "w" if cmd["op"] in ("write", "swrite") else "r", "t": cmd["t"], "pf": [], "df": [], "wf": [], "docs": [], "dest": True,
          "mod": bool(resp.get("mod", "").strip() or resp.get("wmod", "").strip())}
    ev["vals"] = [conv(v) for v in resp["vals"]]
    docs = {}
    text = None
    for r in resp["r"]:
        f = r["f"]
        if f in P_FORMS: ev["pf"].append({"f": f, "ok": r["ok"], "ex": r["ex"], "off": r["off"], "v": r.get("v", -1) + 1})
        elif f in D_FORMS: ev["df"].append({"f": f, "ok": r["ok"], "ex": r["ex"], "off": r["off"], "path": list(bytes.fromhex(r["path"])), "v": r.get("v", -1) + 1})
        else:
            tx = bytes.fromhex(r.get("tx", ""))
            x = 0
            if r["ok"]:
                if text is None and f in ("wt", "st"): text = tx
                if tx not in docs:
                    n, ws, dep = jsontext.read(tx)
                    docs[tx] = len(docs) + 1; ev["docs"].append({"ok": n is not None, "ws": ws, "n": n or DNULL})
                x = docs[tx]
            elif f == "wb" and tx != b"untouched": ev["dest"] = False
            ev["wf"].append({"f": f, "ok": r["ok"], "ex": r["ex"], "x": x})
    if ev["op"] == "r": text = bytes.fromhex(cmd["x"])
    n, ws, dep = jsontext.read(text) if text is not None else (None, False, 0)
    ev["jv"] = n is not None; ev["j"] = n or DNULL; ev["len"] = len(text or b""); ev["dep"] = dep
    ev["in"] = conv(resp["in"]) if "in" in resp else 0
    if dep > 50: flatten(ev)
    return ev

def flatten(ev):
    """The JSON reader of TLC has a limit on nesting: deep documents and values are handed over as tables, children before parents."""
    def doc(j):
        tab = []
        def go(n):
            if n["t"] == "arr": n = dict(n, av=[go(x) for x in n["av"]])
            elif n["t"] == "obj": n = dict(n, ov=[dict(e, n=go(e["n"])) for e in n["ov"]])
            tab.append(n); return len(tab)
        go(j); return tab
    def val(v):
        tab = []
        def go(x):
            x = {"s": [go(y) for y in x], "q": True} if isinstance(x, list) else {"s": x, "q": False}
            tab.append(x); return len(tab)
        go(v); return tab
    ev["fl"] = True; ev["j"] = doc(ev["j"]); ev["vals"] = [val(v) for v in ev["vals"]]; ev["in"] = val(ev["in"])
    ev["docs"] = [dict(d, n=doc(d["n"])) for d in ev["docs"]]

# -- TLC ---------------------------------------------------------------------------------------------------------------
TLC = ["java", "-XX:+UseParallelGC", "-Xmx12g", "-Xss512m", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"]

class TlcResult:
    def __init__(s, rc, out): 
        s.rc = rc; s.out = out
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        s.generated, s.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        s.ok = "Model checking completed. No error has been found." in out
        s.violated = "is violated" in out
    def tail(s): return "\n".join(s.out.splitlines()[-60:])

def tlc(module, cfg=None, env=None, workers=NCPU, cont=False, timeout=800, deadlock=False, simulate=None):
    md = tempfile.mkdtemp(prefix="tlc_", dir=BUILD)
    cmd = TLC + [f"-Dtlc2.TLC.stopAfter={timeout}"] * 0 + ["tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg or f"{module}.cfg"]
    if cont: cmd.append("-continue")
    if simulate: cmd += ["-simulate", simulate]
    cmd.append(f"{module}.tla")
    try: r = run(cmd, timeout=timeout, cwd=SPEC, env=dict(os.environ, **(env or {})))
    except subprocess.TimeoutExpired: raise ToolError(f"TLC did not finish {module} in {timeout} s")
    finally: shutil.rmtree(md, ignore_errors=True)
    res = TlcResult(r.returncode, r.stdout.decode(errors="replace") + r.stderr.decode(errors="replace"))
    return res

def types_file():
    """types.json for the specification (generated, cached by content)."""
    from catalog import CAT
    os.makedirs(BUILD, exist_ok=True)
    text = json.dumps(CAT.types_json())
    p = os.path.join(BUILD, f"types_{hashlib.sha256(text.encode()).hexdigest()[:16]}.json")
    if not os.path.exists(p):
        fd, tmp = tempfile.mkstemp(dir=BUILD, prefix="types_tmp_")
        with os.fdopen(fd, "w") as f: f.write(text)
        os.replace(tmp, p)
    return p

def judge_part(part, facets, module, env=None):
    d = tempfile.mkdtemp(prefix="ev_", dir=BUILD)
    try:
        with open(f"{d}/e.ndjson", "w") as f:
            for e in part: f.write(json.dumps(e, separators=(",", ":")) + "\n")
        json.dump(sorted(facets), open(f"{d}/f.json", "w"))
        r = tlc(module, env={"TYPES": types_file(), "EVENTS": f"{d}/e.ndjson", "FACETS": f"{d}/f.json", **(env or {})})
    finally: shutil.rmtree(d, ignore_errors=True)
    viol = {int(i) - 1: sorted(re.findall(r'"([^"]+)"', fs.replace("\\", ""))) for i, fs in re.findall(r'"VIOL (\d+) \{(.*?)\}"', r.out, re.S)}
    good = r.ok and r.distinct == len(part)
    return viol, r, good

def judge(events, facets, module="Trace", chunk=40000, env=None):
    """Checks recorded events against the specification.  Returns (violations {index: facets}, states, generated)."""
    viol = {}; states = 0; gen = 0
    work = [(b, events[b:b + chunk]) for b in range(0, len(events), chunk)]; budget = 24
    while work:
        base, part = work.pop()
        v, r, good = judge_part(part, facets, module, env)
        for i, fs in v.items(): viol[base + i] = fs
        if not good:
            # an event outside the domain of the specification cannot be evaluated: find it
            budget -= 1
            if "Parsing or semantic analysis failed" in r.out or budget < 0 or r.rc not in (12, 13, 75, 150, 151, 152, 153, 154, 255, 10, 11, 14): raise ToolError(f"TLC failed on {module}:\n" + r.tail())
            if len(part) == 1: viol[base] = ["outside"]; log("event outside the specification:", json.dumps(part[0])[:1500], r.tail()[-1500:]); continue
            if v: continue      # enough is known
            h = len(part) // 2
            work += [(base, part[:h]), (base + h, part[h:])]
            continue
        states += r.distinct; gen += r.generated
    return viol, states, gen
