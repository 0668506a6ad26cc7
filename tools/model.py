"""Behaviours of the bounded model (spec/Model.tla), as commands for the harness."""
import json, os, re, struct, tempfile, shutil
import vlib, jsontext as J
from catalog import CAT

def fval(h):
    x = struct.unpack(">f", bytes.fromhex(h))[0]; return {"d": struct.pack(">d", x).hex(), "f": h, "fin": True}
def dval(x): return {"d": struct.pack(">d", x).hex(), "f": "", "fin": True}
FV = [fval("3fc00000"), fval("80000000"), fval("7f7fffff")]
DV = [dval(0.1), dval(-0.0), dval(1.7976931348623157e308)]

def numnode(lit):
    n = J.number(lit, 0, 0); n["lit"] = lit; return n
NUMS = [numnode(x) for x in ("1.5", "1e30", "-1.0", "3.5e38", "3.4028235e38", "1e-400", "16777217", "16777215", "9007199254740993", "-9007199254740991", "18446744073709551615", "18446744073709551616", "-0.0", "1e308")]

def unconv(t, v):
    """Value of the specification -> exchange form."""
    k = t.kind
    if k in ("null", "bool"): return v
    if k in ("int", "enumi"): return {"i": str(J.unlimb(v["s"], v["m"]))}
    if k == "float": return {"f": v["f"]}
    if k == "double": return {"d": v["d"]}
    if k in ("str", "bytes"): return {"h": bytes(v).hex()}
    if k == "ts": return {"t": [v["d"], v["s"], v["n"]]}
    if k == "date": return {"y": [v["y"], v["m"], v["d"]]}
    if k == "enums": return {"e": v}
    if k in ("vec", "set", "arr"): return [unconv(t.kids[0], x) for x in v]
    if k == "tup": return [unconv(e, x) for e, x in zip(t.kids, v)]
    if k in ("map", "umap"): return [[{"h": bytes(x[0]).hex()}, unconv(t.kids[0], x[1])] for x in v]
    if k == "obj": return [([unconv(m.ty, y) for y in x] if m.mode == "opt" else unconv(m.ty, x)) for m, x in zip(t.members, v)]
    if k in ("uptr", "sptr"): return {"p": v[0], "v": unconv(t.kids[0], v[1])}
    if k == "var": return {"k": v[0], "v": unconv(t.kids[v[0]], v[1])}
    raise Exception(k)

class ModelRun:
    def __init__(self): self.vals = []; self.docs = []; self.states = 0; self.transitions = 0

def explore(types, cap=3, top=4, depth=2, mut=1, share=False, wide=False, fv=FV, dv=DV, nums=NUMS, timeout=600, module="Model"):
    """Runs TLC over the model for the given types; every law is checked in every state."""
    d = tempfile.mkdtemp(prefix="sel_", dir=vlib.BUILD)
    try:
        json.dump({"ids": [t.id for t in types], "cap": cap, "top": top, "depth": depth, "mut": mut, "share": share, "wide": wide, "fv": fv, "dv": dv, "nums": nums}, open(f"{d}/sel.json", "w"))
        r = vlib.tlc(module, env={"TYPES": vlib.types_file(), "SEL": f"{d}/sel.json"}, timeout=timeout)
    finally: shutil.rmtree(d, ignore_errors=True)
    if not r.ok: raise vlib.ToolError("the model breaks one of its laws or could not be checked:\n" + "\n".join(l for l in r.out.splitlines() if not l.startswith('"'))[-4000:])
    m = ModelRun(); m.states = r.distinct; m.transitions = r.generated
    for l in r.out.splitlines():
        if l.startswith('"VAL ') or l.startswith('"DOC '):
            x = json.loads(json.loads(l)[4:])
            t = CAT.types[x["t"] - 1]
            if l[1] == "V": m.vals.append((t, unconv(t, x["v"])))
            else: m.docs.append((t, x["j"]))
    m.vals.sort(key=lambda x: (x[0].id, json.dumps(x[1]))); m.docs.sort(key=lambda x: (x[0].id, json.dumps(x[1], sort_keys=True)))
    return m
