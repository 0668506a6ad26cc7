#!/usr/bin/env python3
"""Driver of the checks:  check.py <property> [quick|thorough]   |   check.py --replay <file>

Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION line: it is broken.  Exit 2: the check could not be carried out."""
import hashlib, json, os, random, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, values, mutate, jsontext, model
from catalog import CAT

KNOWN = os.path.join(vlib.ROOT, "known-findings.txt")
EVID = os.environ.get("VERIF_EVID", os.path.join(vlib.ROOT, "evidence"))

def known_findings(pid):
    """Lines 'known: property=<id> key=<hash of the failing command> <what fails>'."""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            p = l.split()
            if len(p) > 2 and p[0] == "known:" and p[1] == f"property={pid}" and p[2].startswith("key="): out[p[2][4:]] = " ".join(p[3:])
    return out

def finding_key(cmd):
    """Identifies the specific input that fails: operation, C++ type and value or text."""
    t = CAT.types[cmd["t"] - 1].cpp if cmd.get("t") else ""
    return hashlib.sha256(json.dumps([cmd.get("op"), t, cmd.get("x"), cmd.get("v"), cmd.get("pre"), cmd.get("key")] + ([cmd["part"], {k: v for k, v in cmd.items() if k != "c"}] if "part" in cmd else []), sort_keys=True).encode()).hexdigest()[:16]

class Violation(Exception): pass

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid = pid; self.tier = tier; self.seed = seed; self.quick = tier == "quick"
        self.rnd = random.Random(f"{pid}/{seed}")
        self.states = 0; self.transitions = 0; self.traces = 0; self.samples = []; self.notes = {}; self.models = []; self.t0 = time.time()
        self.known = known_findings(pid); self.known_hit = {}; self.assume = []; self.exhaustive = False
        self.reported = 0

    def seed_for(self, what): return int(hashlib.sha256(f"{self.pid}/{self.seed}/{what}".encode()).hexdigest()[:12], 16)
    def gen(self, what="g", **kw): return values.Gen(self.seed_for(what), **kw)
    def count(self, k, n): self.notes[k] = self.notes.get(k, 0) + n
    def left(self): return (800 if self.quick else 86400) - (time.time() - self.t0)

    # -- model ---------------------------------------------------------------------------------------------------------
    def explored(self, name, states, transitions, **kw):
        self.states += states; self.transitions += transitions
        self.models.append(dict(module=name, states=states, transitions=transitions, **kw))

    def model(self, types, **kw):
        # long tuples and arrays have too many values to enumerate: they are covered by seeded values
        types = [t for t in types if t.can_deser and not any(x.kind == "tup" and len(x.kids) > 8 or x.kind == "arr" and x.n > 8 for x in CAT.reach(t))]
        m = model.explore(types, **kw)
        self.explored(kw.pop("module", "Model"), m.states, m.transitions, types=len(types), values=len(m.vals), documents=len(m.docs), bounds={k: v for k, v in kw.items() if isinstance(v, (int, bool))})
        return m

    def tlc(self, module, name=None, env=None, cfg=None, timeout=600, expect=None, workers=vlib.NCPU):
        """Runs a model; expect names an invariant or property that must be violated (a negative control)."""
        r = vlib.tlc(module, cfg=cfg, env=dict({"TYPES": vlib.types_file()}, **(env or {})), timeout=timeout, workers=workers)
        if expect:
            if f"{expect} is violated" not in r.out: raise vlib.ToolError(f"{cfg or module}: expected {expect} to be violated\n" + r.tail())
        elif not r.ok: raise vlib.ToolError(f"TLC: {cfg or module}\n" + r.tail())
        if not expect: self.explored(name or module, r.distinct, r.generated)
        else: self.models.append(dict(module=name or module, negative_control=expect, violated=True))
        return r

    def vals_cmds(self, m, limit=None):
        c = [{"op": "write", "t": t.id, "v": v} for t, v in m.vals]
        return self.sample(c, limit)
    def docs_cmds(self, m, limit=None, ws=0.0, pre=.15):
        out = []; seen = set(); g = self.gen("prefill"); r = random.Random(self.seed_for("prefill"))
        docs = self.sample([d for d in m.docs if not d[0].setshared], limit)
        for t, j in docs:
            try: x = jsontext.render(j, self.rnd if ws else None, ws)
            except UnicodeDecodeError: continue     # a name cut within a character: not a text
            if (t.id, x) in seen or not mutate.in_scope(x): continue
            seen.add((t.id, x)); out.append({"op": "read", "t": t.id, "x": x.hex()})
            if r.random() < pre: self.prefill(out[-1], t, g)
        return out
    def sample(self, xs, limit):
        if limit is None or len(xs) <= limit: return xs
        k = sorted(self.rnd.sample(range(len(xs)), limit)); return [xs[i] for i in k]

    # -- seeded inputs ---------------------------------------------------------------------------------------------------
    def writes(self, types, n, **kw):
        g = self.gen("writes", **kw)
        return [{"op": "write", "t": t.id, "v": g.value(t)} for t in types for _ in range(n)]
    def prefill(self, cmd, t, g):
        """Lets the text be read into an object that holds data.  The deserializer keeps an absent member with a default, the parser any absent member: then not.
        Elements of containers, optional members, alternatives and objects behind pointers are new in any case."""
        n = jsontext.read(bytes.fromhex(cmd["x"]))[0]
        def full(x, n, modes):
            if x.kind == "obj":
                if n["t"] != "obj": return True
                e = {bytes(y["k"]): y["n"] for y in n["ov"]}
                return all((m.mode not in modes if m.name not in e else m.mode == "opt" or full(m.ty, e[m.name], modes)) and not (m.mode == "opt" and m.name not in e and "opt" in modes) for m in x.members)
            if x.kind in ("tup", "arr") and n["t"] == "arr": return all(full(x.kids[0] if x.kind == "arr" else x.kids[i], y, modes) for i, y in enumerate(n["av"][:x.n if x.kind == "arr" else len(x.kids)]))
            return True
        if n is None or full(t, n, ("def",)):
            cmd["pre"] = g.value(t)
            if n is None or full(t, n, ("req", "opt", "def")): cmd["pp"] = 1
    def reads(self, types, n, kinds=None, text=.15, keep=.15, refs=.3, double=.15, what="reads", pre=.25, **kw):
        """Texts derived from written values: unchanged, with changed elements, with changed back-references, malformed."""
        g = self.gen(what, **kw); r = random.Random(self.seed_for(what + "/mut")); out = []
        for t in types:
            if not t.can_read or t.setshared: continue
            for _ in range(n):
                d = g.emit(t, g.value(t)); k = r.random(); m = d
                if k >= keep + text:
                    if t.shared and r.random() < refs: m = mutate.mutate_ref(t, d, r)
                    else: m = mutate.mutate_doc(t, d, r, kinds)
                    if r.random() < double: m = mutate.mutate_doc(t, m, r, kinds)
                x = jsontext.render(m, r, .1 if r.random() < .3 else 0)
                if k < text: x = mutate.mutate_text(x, r)
                if not mutate.in_scope(x): continue
                out.append({"op": "read", "t": t.id, "x": x.hex()})
                if r.random() < pre: self.prefill(out[-1], t, g)
        return out

    # -- conformance -------------------------------------------------------------------------------------------------------
    def conform(self, exe, cmds, facets, build=None, label="", keep_order=False):
        """Puts the commands to the library and checks what it did against the specification."""
        if not cmds: return []
        if not keep_order: self.rnd.shuffle(cmds)       # histories: operations of all kinds follow each other
        t0 = time.time()
        rs = vlib.run_cmds(exe, cmds)
        evs = []; idx = []
        for i, (c, r) in enumerate(zip(cmds, rs)):
            e = vlib.adapt(c, r)
            if e is not None: evs.append(e); idx.append(i)
        t1 = time.time()
        F = set(facets) | {"dead"}
        viol, st, gen = vlib.judge(evs, F)
        self.states += st; self.transitions += gen; self.traces += len(evs)
        for e in evs:
            if e["op"] == "r":
                self.count("texts", 1); self.count("texts_malformed", not e["jv"])
                if e["df"]: self.count("texts_accepted_by_deserializer", any(f["ok"] for f in e["df"]))
                if e["pf"]: self.count("texts_accepted_by_parser", any(f["ok"] for f in e["pf"]))
            elif e["op"] == "w":
                self.count("values_written", 1); self.count("values_refused", not any(f["ok"] for f in e["wf"]))
        self.count("skipped", len(cmds) - len(evs))
        self.notes.setdefault("types", set()).update(c["t"] for c in cmds)
        for c in cmds[:: max(1, len(cmds) // 4)][:4]: self.samples.append(self.describe(c))
        vlib.log(f"{label or 'conformance'}: {len(evs)} events, ran in {t1 - t0:.1f} s, judged in {time.time() - t1:.1f} s, {len(viol)} rejected")
        for k in sorted(viol):
            i = idx[k]; c = cmds[i]
            if not self.confirm(exe, cmds, i, F, viol[k]): vlib.log("not reproduced:", json.dumps(c)[:300]); continue
            self.report(c, viol[k], rs[i], build)
        return rs

    def conform_sub(self, exe, cmds, module, event, label, env=None, facets=None):
        """The same for a harness of one part of the library with a trace specification of its own; event makes the event from command and response."""
        if exe is None: self.count(f"{label}: not accessible", 1); vlib.log(label, "is not accessible under its name: skipped"); return
        rs = vlib.run_cmds(exe, cmds)
        evs = []; idx = []
        for i, (c, r) in enumerate(zip(cmds, rs)):
            if "skipped" in r: continue
            evs.append(event(c, None) if "dead" in r else event(c, r)); idx.append(i)
        viol, st, gen = vlib.judge(evs, {"dead"}, module, env=env)
        self.states += st; self.transitions += gen; self.traces += len(evs); self.count(label, len(evs))
        for c in cmds[:: max(1, len(cmds) // 2)][:2]: self.samples.append(json.dumps(c)[:200])
        vlib.log(f"{label}: {len(evs)} events, {len(viol)} rejected")
        for k in sorted(viol):
            if facets is not None:
                viol[k] = [f for f in viol[k] if f in ("dead", "outside") or f in facets]
                if not viol[k]: continue
            if "dead" in rs[idx[k]] and "dead" not in vlib.run_shard(exe, [dict(cmds[idx[k]])])[0] and not any("dead" in x for x in vlib.run_shard(exe, [dict(x) for x in cmds[max(0, idx[k] - 2000):idx[k] + 1]])): continue
            self.report(dict(cmds[idx[k]], part=label), viol[k], rs[idx[k]])

    def confirm(self, exe, cmds, i, F, facets):
        """A call that died or did not return may have been a victim of the machine: it must do so again."""
        if not set(facets) & {"dead"}: return True
        c = dict(cmds[i]); r = vlib.run_shard(exe, [c])
        if "dead" in r[0]: return True
        part = [dict(x) for x in cmds[max(0, i - 2000):i + 1]]
        rs = vlib.run_shard(exe, part)
        return any("dead" in x for x in rs)

    def describe(self, c):
        d = {"op": c["op"], "type": CAT.types[c["t"] - 1].cpp if c.get("t") else ""}
        if "x" in c: d["text"] = bytes.fromhex(c["x"])[:160].decode("utf-8", "replace")
        if "v" in c: d["value"] = json.dumps(c["v"])[:160]
        return d

    def report(self, c, facets, resp, build=None):
        key = finding_key(c)
        if key in self.known: self.known_hit[key] = self.known[key]; return
        self.reported += 1
        if self.reported > 5: return
        os.makedirs(EVID, exist_ok=True)
        p = os.path.join(EVID, f"replay_{self.pid}_{key}.json")
        json.dump({"property": self.pid, "facets": facets, "command": c, "build": build, "response": resp, "key": key}, open(p, "w"), indent=1)
        print("what:", facets, json.dumps(self.describe(c) if "t" in c else c)[:600])
        print("      ", json.dumps(resp)[:600])
        print(f"VIOLATION property={self.pid} replay={p}", flush=True)

    # -- the end ---------------------------------------------------------------------------------------------------------
    def finish(self):
        for k, what in self.known_hit.items(): print(f"KNOWN-FINDING: property={self.pid} {what}")
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces, "samples": self.samples[:8], "models": self.models}
        if self.exhaustive: cov["exhaustive_part"] = self.exhaustive
        for k, v in self.notes.items(): cov[k] = len(v) if isinstance(v, set) else v
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov, "assumptions": self.assume,
              "wall_s": round(time.time() - self.t0, 1), "violations": self.reported}
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, f"{self.pid}.json"), "w"), indent=1)
        vlib.log(f"{self.pid} {self.tier}: {self.states} states, {self.traces} traces, {self.reported} violations, {ev['wall_s']} s")
        return 1 if self.reported else 0

def together(*fs):
    """Runs functions concurrently; returns their results in order."""
    with ThreadPoolExecutor(len(fs)) as ex:
        hs = [ex.submit(f) for f in fs]
        return [h.result() for h in hs]

def replay(path):
    import plans
    d = json.load(open(path)); b = d.get("build"); c = d["command"]
    if b is None or "t" not in c: print("re-run the check itself:", d["property"]); return 2
    exe = vlib.build(ids=[c["t"]], feat=b["feat"], san=vlib.ASAN if b["san"] else "")
    r = vlib.run_shard(exe, [dict(c, c=0)])
    v, _, _ = vlib.judge([vlib.adapt(c, r[0])], set(d["facets"]) | {"dead"})
    print(json.dumps(r[0], indent=1)); print("rejected:" if v else "allowed", v)
    return 1 if v else 0

def main():
    if sys.argv[1] == "--replay": return replay(sys.argv[2])
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import plans
    ctx = Ctx(pid, tier, seed)
    os.makedirs(vlib.BUILD, exist_ok=True)
    try: plans.PLANS[pid](ctx)
    except vlib.ToolError as e:
        print("cannot decide:", e)
        if ctx.reported: return ctx.finish()
        return 2
    return ctx.finish()

if __name__ == "__main__":
    import threading
    sys.setrecursionlimit(200000); threading.stack_size(512 << 20)     # deeply nested texts
    rc = [2]
    def body():
        try: rc[0] = main()
        except Exception: traceback.print_exc(limit=-12)
    th = threading.Thread(target=body); th.start(); threading.stack_size(0); th.join()
    sys.stdout.flush(); sys.exit(rc[0])
