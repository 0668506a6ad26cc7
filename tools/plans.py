"""What each check explores.  Every plan has the same shape: models are explored by TLC (laws checked in every state), the states are put to
the library as commands together with seeded larger ones, and everything the library did is checked against the specification (Trace)."""
import json, os, random, re, shutil, struct, tempfile
import vlib, values, mutate, jsontext, model, stress
from vlib import ASAN, log
from catalog import CAT
from check import together

REG = CAT.reg
def fam(*fs): return [t for t in REG if CAT.fam[t.id] in fs]
def other(*fs): return [t for t in REG if CAT.fam[t.id] not in fs]
ALL = sorted(set(CAT.fam.values()))
PLANS = {}
def plan(pid):
    def d(f): PLANS[pid] = f; return f
    return d

def B(families, feat, san):
    families = [f for f in ALL if f in families] if families else None
    return (lambda: vlib.build(families, feat=feat, san=ASAN if san else "")), {"feat": feat, "san": bool(san)}

def stress_writes(c, types):
    ids = {t.id for t in types}
    return [{"op": "write", "t": t.id, "v": v} for t, v in stress.cases(c.seed, 1 if c.quick else 4) if t.id in ids]
def stress_reads(c, types, kinds=None, keep=.4):
    ids = {t.id for t in types}; g = c.gen("stress"); r = random.Random(c.seed_for("stress")); out = []
    for t, v in stress.cases(c.seed, 1 if c.quick else 4):
        if t.id not in ids or not t.can_read: continue
        d = g.emit(t, v)
        if r.random() > keep: d = mutate.mutate_doc(t, d, r, kinds)
        x = jsontext.render(d, r, 0)
        if mutate.in_scope(x): out.append({"op": "read", "t": t.id, "x": x.hex()})
    return out

# ------------------------------------------------------------------------------------------------------------ output and round trips
def values_plan(c, types, feat, san, facets, n, model_types=None, cap=3, top=6, depth=2, **kw):
    fams = {CAT.fam[t.id] for t in types}
    build, b = B(fams, feat, san)
    q = c.quick
    mt = [t for t in (model_types or types) if t.can_deser]
    exe, m, ms = together(build,
        lambda: c.model(mt, cap=cap, top=top if q else top * 3, depth=depth if q else 3, mut=0),
        lambda: c.model([t for t in mt if t.shared and not t.setshared], cap=2 if q else 3, top=3 if q else 8, depth=2, mut=0, share=True))
    cmds = c.vals_cmds(m, 4000 if q else None) + c.vals_cmds(ms, 1500 if q else 40000)
    cmds += c.writes(types, n if q else n * 25, **kw) + stress_writes(c, types)
    c.conform(exe, cmds, facets, b, "written values")

@plan("C01")
def c01(c): values_plan(c, [t for t in REG if t.can_parse], 9, 0, {"rt.p", "w.ok"}, 9, subsec=0)

@plan("C02")
def c02(c): values_plan(c, [t for t in REG if t.can_deser], 26, 0, {"rt.d", "w.ok"}, 8)

@plan("C03")
def c03(c): values_plan(c, REG, 24, 0, {"w.agree"}, 9, nonfinite=.02, subsec=.2)

@plan("C10")
def c10(c): values_plan(c, REG, 24, 0, {"w.valid", "w.form", "w.ok"}, 9, subsec=.2)

@plan("C11")
def c11(c):
    ts = [t for t in REG if t.shared]
    build, b = B({CAT.fam[t.id] for t in ts}, 24, 1)
    q = c.quick
    mt = [t for t in ts if t.can_deser and not t.setshared]
    exe, m, lg = together(build, lambda: c.model(mt, cap=3, top=5 if q else 12, depth=2, mut=0, share=True), lambda: vlib.build_one("long.cpp"))
    cmds = c.vals_cmds(m, 6000 if q else None) + c.writes(ts, 14 if q else 300, share=.5) + aliases(c) + stress_writes(c, ts)
    c.conform(exe, cmds, {"w.ref", "w.form", "w.valid", "w.ok", "w.agree"}, b, "object graphs")
    long_shares(c, lg, LONG if q else LONG * 30, {"w.ref", "s.ref"})
LONG = (300, 70000)

def aliases(c):
    """An object and its first member at the same address, held by shared pointers of different types."""
    out = []
    t = CAT.alias
    I = lambda i: {"i": str(i)}
    for a in (0, 1):
        for o2 in (1, 2):
            for i2 in (11, 12, 13):
                o = {"p": 1, "v": [[I(3)], I(4)]}
                v = [o, {"p": 11, "al": 1, "v": [I(3)]} if a else {"p": 11, "v": [I(3)]}, o if o2 == 1 else {"p": 2, "v": [[I(3)], I(4)]},
                     {"p": 11, "v": [I(3)]} if i2 == 11 else ({"p": 12, "al": o2, "v": [I(3)]} if i2 == 12 else {"p": 13, "v": [I(3)]})]
                out.append({"op": "write", "t": t.id, "v": v})
    return out

# ------------------------------------------------------------------------------------------------------------ reading
BASIC = ("leaf", "vec", "set", "map", "ptr", "arr", "tup", "nest", "path")
def reads_plan(c, types, feat, san, facets, n, mfams, kinds=None, mut=1, limit=5000, wide=False, cap=3, top=4, more=None, **kw):
    build, b = B({CAT.fam[t.id] for t in types}, feat, san)
    q = c.quick
    mt = [t for t in types if CAT.fam[t.id] in mfams and t.can_deser]
    fs = [build, lambda: c.model(mt, cap=cap, top=top if q else 2 * top, depth=2, mut=mut, wide=wide or not q)]
    if not q: fs.append(lambda: c.model([t for t in types if CAT.fam[t.id] not in mfams and CAT.fam[t.id] != "lookup"], cap=3, top=6, depth=2, mut=mut, timeout=3000))
    r = together(*fs); exe = r[0]
    cmds = []
    for m in r[1:]: cmds += c.docs_cmds(m, limit if q else 400000, ws=.05)
    cmds += c.reads(types, n if q else n * 30, kinds, **kw) + stress_reads(c, types, kinds)
    if more: cmds += more(c)
    c.conform(exe, cmds, facets, b, "texts")

READ = [t for t in REG if t.can_read and not t.setshared]
BOTH = [t for t in READ if t.can_parse and t.can_deser]
@plan("C04")
def c04(c): reads_plan(c, BOTH, 3, 0, {"pd.val", "pd.ok", "p.agree", "d.agree"}, 12, BASIC)

@plan("C05")
def c05(c): reads_plan(c, READ, 3, 0, {"p.ok", "d.ok", "p.val", "d.val"}, 13, BASIC, more=small_reads)

def small_reads(c):
    """Small texts of all kinds (spec/TextMC.tla), well-formed or spoiled, each for a type it could have been meant for."""
    T = [CAT.by_cpp[x] for x in ("std::vector<int>", "std::vector<bool>", "std::vector<double>", "std::vector<std::string>", "std::vector<std::vector<int>>", "std::map<std::string, int>", "std::string", "int", "double", "bool", "std::tuple<>") if x in CAT.by_cpp]
    r = random.Random(c.seed_for("small")); out = []
    xs = [x for x in small_texts(c, 1 if c.quick else 0) if mutate.in_scope(x)]
    good = [x for x in xs if jsontext.read(x)[0] is not None]
    for x in c.sample(xs, 7000 if c.quick else 400000) + c.sample(good, 3000 if c.quick else 100000):
        out.append({"op": "read", "t": r.choice(T).id, "x": x.hex()})
    return out + near_names(c) + every_kind(c)

def every_kind(c):
    """Every leaf type at every place of its context class, with a value of every other kind and values it should think twice about."""
    g = c.gen("kinds"); r = random.Random(c.seed_for("kinds")); out = []
    for t in fam("ctx"):
        leaf = CAT.by_cpp.get(t.cpp) and [x for x in CAT.reach(t) if not x.kids and x.kind != "obj"]
        for m in t.members:
            for e in leaf:
                for _ in range(20):
                    d = g.emit(m.ty, g.value(m.ty, depth=3)); nodes = [n for n, ty, p in mutate.all_nodes(d, m.ty) if ty is e]
                    if nodes: break
                else: continue
                n = r.choice(nodes)
                for y in mutate.WRONG + [z for z in (mutate.special(e, r) for _ in range(6)) if z]:
                    old = dict(n); mutate.put(n, y); x = jsontext.render(mutate.obj((m.name, d)), None); n.clear(); n.update(old)
                    if mutate.in_scope(x): out.append({"op": "read", "t": t.id, "x": x.hex()})
    return c.sample(out, 8500) if c.quick else out

def near_names(c):
    """Enumeration names changed in one place: every character in several ways, removed, doubled, with something before or after."""
    r = random.Random(c.seed_for("names")); out = []
    ts = [t for t in READ if has_kind(t, ("enums",)) and CAT.fam[t.id] in ("leaf", "vec", "set", "map", "ptr", "arr", "tup", "nest", "ctx", "obj")]
    g = c.gen("names")
    def docs(t, want):
        for _ in range(50):
            d = g.emit(t, g.value(t)); ns = [n for n, ty, p in mutate.all_nodes(d, t) if ty is not None and unptr(ty).kind == "enums" and n["t"] == "str"]
            if ns: return d, r.choice(ns)
        return None, None
    for e in [t for t in CAT.types if t.kind == "enums"]:
        mine = [t for t in ts if any(x is e for x in CAT.reach(t))]
        for n in e.names:
            near = {n + b"\x00", b"\x00" + n, n + b" ", b" " + n, n + b"a", n.upper(), n.capitalize(), n.swapcase(), n + n, n[:1], n[1:], n[::-1], n, b"0", b"null", n + b"\xc3\xa9"}
            for i in range(len(n)):
                near |= {n[:i] + n[i + 1:], n[:i] + n[i:i + 1] + n[i:], n[:i]} | {n[:i] + bytes([b]) + n[i + 1:] for b in (n[i] ^ 32, n[i] ^ 1, (n[i] + 1) % 128, 0, 127)}
            for x in sorted(near):
                if not mine: continue
                for t in ([e] if e in mine else []) + [r.choice(mine)]:
                    d, node = docs(t, e)
                    if d is None: continue
                    if node is d or t is e: d = node = {"t": "str", "sv": b""}
                    node["sv"] = x
                    try: y = jsontext.render(d)
                    except UnicodeDecodeError: continue
                    if mutate.in_scope(y): out.append({"op": "read", "t": t.id, "x": y.hex()})
    return out

@plan("C09")
def c09(c): reads_plan(c, READ, 3, 0, {"p.off", "d.off", "d.path"}, 13, BASIC, keep=.02, text=.2, more=long_arrays)

def long_arrays(c):
    """A mismatch at a large index: nested and plain, short elements before it."""
    r = random.Random(c.seed_for("long")); T = CAT.by_cpp; out = []
    for cpp, good, bad in (("std::vector<bool>", b"true", b"0"), ("std::vector<int>", b"1", b"true"), ("std::vector<std::string>", b'""', b"null"), ("std::vector<std::vector<int>>", b"[]", b'[7,"x"]'),
                           ("std::vector<std::map<std::string, int>>", b"{}", b'{"a/b":[]}'), ("std::set<int>", None, b"[]"), ("std::vector<std::tuple<>>", b"[]", b"[1]")):
        for n in (9, 10, 99, 100, 101, 255, 256, 999, 1000, r.randint(257, 998)) + ((9999, 10000, 10001, 65535, 65536) if cpp == "std::vector<bool>" else ()) + ((r.randint(1001, 4000),) if c.quick else (4999, 9999, 10000, 12345)):
            if n > 1000 and cpp.startswith("std::set"): continue
            xs = [good or b"%d" % (k if r.random() < .8 else k // 2) for k in range(n)] + [bad] + [good or b"-1"] * r.choice((0, 1))
            out.append({"op": "read", "t": T[cpp].id, "x": (b"[" + b",".join(xs) + b"]").hex()})
    return out

INTS = ("int", "enumi")
def has_kind(t, ks): return any(x.kind in ks for x in CAT.reach(t))
def every_place(c):
    """Every number type at every place of its context class, with the literals at which its range ends."""
    g = c.gen("places"); r = random.Random(c.seed_for("places")); out = []
    for t in fam("ctx"):
        leaf = [x for x in CAT.reach(t) if x.kind in INTS + ("float", "double")]
        for m in t.members:
            for e in leaf:
                if e.kind in INTS:
                    w = e.hi - e.lo + 1
                    lits = [str(v) for v in sorted({e.lo - 1, e.lo, e.hi, e.hi + 1, e.hi + 2, w, w + 1, -w, -1, 2 * w - 1, 2**31, 2**32, 2**32 + 1, 2**63 - 1, 2**63, 2**64 - 1, 2**64, -2**31 - 1, -2**63, -2**63 - 1, 0})] + ["-0", "1.0", "1e0"]
                else: lits = ["3.4028234663852886e38", "3.4028236e38", "-3.5e38", "1e39", "1.7976931348623157e308", "1e309", "-1e309", "16777217", "9007199254740993", "1e-46", "-0.0", "18446744073709551615"]
                for _ in range(40):
                    d = g.emit(m.ty, g.value(m.ty, depth=3)); nodes = [n for n, ty, p in mutate.all_nodes(d, m.ty) if n["t"] == "num" and ty is e]
                    if nodes: break
                else: continue
                for n in r.sample(nodes, min(2, len(nodes))):
                    for lit in lits:
                        old = dict(n); mutate.put(n, mutate.num(lit)); x = jsontext.render(mutate.obj((m.name, d)), None); n.clear(); n.update(old)
                        if mutate.in_scope(x): out.append({"op": "read", "t": t.id, "x": x.hex()})
    return c.sample(out, 9000) if c.quick else out

@plan("C06")
def c06(c):
    q = c.quick
    ts = [t for t in fam("leaf", "ctx", "vec", "set", "map", "ptr", "arr", "tup", "obj", "nest", "rec") if has_kind(t, INTS + ("float", "double")) and t.can_read]
    lits = [str(i) for i in mutate.INTS] + ["-0", "1.0", "1e0", "-1.0", "0.0", "1e2", "1.5"]
    build, b = B({CAT.fam[t.id] for t in ts}, 3, 0)
    exe, m = together(build, lambda: c.model([t for t in ts if CAT.fam[t.id] not in ("obj", "ctx")], cap=3, top=3, depth=2, mut=1))
    cmds = c.docs_cmds(m, 3000 if q else None)
    # every boundary literal in every context: the literal replaces each number of a document in turn
    r = random.Random(c.seed_for("lits"))
    g = c.gen("docs", share=0)
    for t in ts:
        f = CAT.fam[t.id]
        for lit in lits if f in ("leaf", "ctx") else r.sample(lits, 8 if q else len(lits)):
            for _ in range(6):
                d = g.emit(t, g.value(t, depth=3))
                nodes = [(n, ty) for n, ty, p in mutate.all_nodes(d, t) if n["t"] == "num"]
                if nodes: break
            else: continue
            k = 1 if f == "leaf" else (2 if q else 6)
            for n, ty in r.sample(nodes, min(k, len(nodes))):
                old = dict(n); mutate.put(n, mutate.num(lit)); x = jsontext.render(d, None); n.clear(); n.update(old)
                if mutate.in_scope(x): cmds.append({"op": "read", "t": t.id, "x": x.hex()})
    # 8-bit targets completely
    for t in fam("leaf", "vec"):
        e = t.kids[0] if t.kind == "vec" else t
        if e.kind in INTS and e.hi - e.lo < 256 or e.cpp in ("short", "unsigned short"):
            for v in range(-300, 400, 1 if e.hi - e.lo < 256 else 37):
                x = b"%d" % v if t.kind != "vec" else b"[0,%d]" % v
                cmds.append({"op": "read", "t": t.id, "x": x.hex()})
    # floating-point boundaries
    for t in fam("leaf", "ctx", "vec", "arr", "tup", "map"):
        if has_kind(t, ("float", "double")):
            for lit in mutate.FLOAT_LITS:
                d = g.emit(t, g.value(t, depth=3)); nodes = [n for n, ty, p in mutate.all_nodes(d, t) if ty is not None and ty.kind in ("float", "double")]
                if not nodes: continue
                mutate.put(r.choice(nodes), mutate.num(lit)); x = jsontext.render(d, None)
                if mutate.in_scope(x): cmds.append({"op": "read", "t": t.id, "x": x.hex()})
    if q: cmds = c.sample(cmds, 8000)
    cmds += every_place(c)
    cmds += c.reads(ts, 2 if q else 60, ("special",), text=.02, keep=.02)
    c.conform(exe, cmds, {"p.ok", "d.ok", "p.val", "d.val"}, b, "numbers")

@plan("C07")
def c07(c):
    q = c.quick
    ts = [t for t in READ if CAT.fam[t.id] in ("arr", "tup", "deep") or (CAT.fam[t.id] in ("rand", "obj", "rec", "ctx", "share", "var") and has_kind(t, ("arr", "tup")))]
    build, b = B({CAT.fam[t.id] for t in ts}, 27, 0)
    mt = [t for t in ts if CAT.fam[t.id] in ("arr", "tup")]
    exe, m = together(build, lambda: c.model(mt, cap=3, top=6, depth=2, mut=1 if q else 2, timeout=3000))
    cmds = c.docs_cmds(m, 7000 if q else 300000) + c.vals_cmds(m)
    cmds += c.reads(ts, 25 if q else 600, ("length", "length", "special", "wrap"), text=.03, keep=.2) + c.writes(ts, 3)
    # every length around the declared one, at every place where a fixed-length type is
    r = random.Random(c.seed_for("len")); g = c.gen("len")
    for t in ts:
        for _ in range(2 if q else 20):
            d = g.emit(t, g.value(t))
            nodes = [(n, ty) for n, ty, p in mutate.all_nodes(d, t) if n["t"] == "arr" and ty is not None and unptr(ty).kind in ("arr", "tup")]
            for n, ty in r.sample(nodes, min(3, len(nodes))):
                u = unptr(ty); N = u.n if u.kind == "arr" else len(u.kids)
                for k in sorted({0, 1, N - 1, N, N + 1, N + 2, 2 * N}):
                    if k < 0: continue
                    old = n["av"]
                    n["av"] = [old[i] if i < len(old) else g.emit(e := (u.kids[0] if u.kind == "arr" else (u.kids[i % len(u.kids)] if u.kids else CAT.by_cpp["int"])), g.value(e, depth=2)) for i in range(k)]
                    x = jsontext.render(d, None); n["av"] = old
                    if mutate.in_scope(x): cmds.append({"op": "read", "t": t.id, "x": x.hex()})
    c.conform(exe, cmds, {"p.ok", "d.ok", "p.val", "d.val", "w.form"}, b, "fixed-length sequences")

def unptr(t):
    while t.kind in ("uptr", "sptr"): t = t.kids[0]
    return t

@plan("C08")
def c08(c):
    q = c.quick
    ts = [t for t in READ if CAT.fam[t.id] in ("obj", "rec", "ctx", "path") or (CAT.fam[t.id] in ("rand", "lookup") and has_kind(t, ("obj",)))]
    build, b = B({CAT.fam[t.id] for t in ts}, 31 & ~4, 0)
    mt = [t for t in ts if CAT.fam[t.id] == "obj" and t.kind == "obj" and len(t.members) <= 7]
    exe, m = together(build, lambda: c.model(mt, cap=2, top=5 if q else 10, depth=2, mut=1))
    cmds = c.docs_cmds(m, 4500 if q else None) + c.vals_cmds(m)
    # subsets and orders of members, with and without names the class does not have
    r = random.Random(c.seed_for("members")); g = c.gen("members")
    for t in ts:
        for _ in range(9 if q else 250):
            d = g.emit(t, g.value(t))
            if mutate.has_ref(d): continue
            objs = [(n, unptr(ty)) for n, ty, p in mutate.all_nodes(d, t) if n["t"] == "obj" and ty is not None and unptr(ty).kind == "obj"]
            for n, ty in r.sample(objs, min(2, len(objs))):
                ov = n["ov"]; p = r.choice((0, .15, .5, .85)); keepreq = r.random() < .5
                req = {m.name for m in ty.members if m.mode == "req"}
                n["ov"] = [e for e in ov if r.random() >= p or (keepreq and bytes(e["k"]) in req)]
                if r.random() < .6: r.shuffle(n["ov"])
                names = {m.name for m in ty.members}
                for _ in range(r.choice((0, 0, 0, 1, 2))):
                    k = r.choice([b"unknown", b"", b"zz", b"\x00", r.choice(sorted(names)) + b"x", r.choice(sorted(names))[:-1].decode("utf-8", "ignore").encode(), r.choice(sorted(names)).upper() if r.random() < .5 else b"Q"])
                    if k not in names and k not in [bytes(e["k"]) for e in n["ov"]]: n["ov"].insert(r.randrange(len(n["ov"]) + 1), {"k": k, "n": r.choice(mutate.WRONG)})
            x = jsontext.render(d, r, .03)
            if not mutate.in_scope(x): continue
            cmds.append({"op": "read", "t": t.id, "x": x.hex()})
            if r.random() < .4: c.prefill(cmds[-1], t, g)
    cmds += c.writes(ts, 4 if q else 100) + new_inside(c, ts, 4 if q else 60)
    c.conform(exe, cmds, {"p.ok", "d.ok", "p.val", "d.val", "w.form", "w.ok"}, b, "members")

def new_inside(c, types, n):
    """Texts that lack members only in objects that are new whatever the target held (behind pointers, in optional members and containers), read into objects that hold data."""
    r = random.Random(c.seed_for("inside")); g = c.gen("inside", share=0); out = []
    for t in types:
        for _ in range(n):
            for _ in range(12):
                d = g.emit(t, g.value(t))
                # absent optional members outside are filled in, so that the target's own members are all written
                for x, ty, p in mutate.all_nodes(d, t):
                    if x["t"] == "obj" and ty is not None and ty.kind == "obj":
                        have = {bytes(e["k"]) for e in x["ov"]}
                        for m in ty.members:
                            if m.mode == "opt" and m.name not in have and len(p) < 3: x["ov"].append({"k": m.name, "n": g.emit(m.ty, g.value(m.ty, depth=3))})
                objs = [(x, unptr(ty)) for x, ty, p in mutate.all_nodes(d, t) if x["t"] == "obj" and (p or t.kind in ("uptr", "sptr")) and ty is not None and unptr(ty).kind == "obj" and x["ov"]]
                if objs and not mutate.has_ref(d): break
            else: break
            for x, ty in r.sample(objs, min(len(objs), 3)):
                kill = r.sample(x["ov"], r.randint(1, len(x["ov"]))); keep = r.random() < .5
                old = x["ov"]; x["ov"] = [e for e in old if not any(e is y for y in kill) or keep and any(m.name == bytes(e["k"]) and m.mode == "req" for m in ty.members)]
                y = jsontext.render(d, None); x["ov"] = old
                if not mutate.in_scope(y): continue
                cm = {"op": "read", "t": t.id, "x": y.hex()}; c.prefill(cm, t, g)
                if "pre" in cm: out.append(cm)
    return out

def long_shares(c, exe, sizes, facets):
    """Long sequences of shared objects, with elements that share placed around the boundaries of index widths."""
    r = random.Random(c.seed_for("longshares")); cmds = []
    for shape in range(4):
        for n in sizes:
            w = r.choice((7, 10, 100, 256, 300)) if shape == 2 else 1
            edge = [k for k in (0, 1, 9, 10, 99, 100, 127, 128, 255, 256, 257, 999, 1000, 9999, 10000, 32767, 32768, 65535, 65536, 65537, 99999, 100000, n - 1, n - 2, n // 2) if 0 <= k < n]
            al = {}
            for _ in range(60):
                j, i = sorted((r.choice(edge) if r.random() < .7 else r.randrange(n), r.choice(edge) if r.random() < .3 else r.randrange(n)))
                if i != j and i not in al and j not in al and i not in al.values(): al[i] = j
            cmds.append({"shape": shape, "n": n, "w": w, "al": sorted([i, j] for i, j in al.items())})
    L = lambda h: list(bytes.fromhex(h))
    def ev(cm, x):
        if x is None or "dead" in x: return {"dead": True}
        return {"dead": False, "shape": cm["shape"], "n": cm["n"], "w": cm["w"], "al": cm["al"], "wr": [[i, L(p)] for i, p in x["w"]["r"]], "wn": x["w"]["n"], "sr": [[i, L(p)] for i, p in x["s"]["r"]], "sn": x["s"]["n"], "ok": x["d"]["ok"], "dr": x["d"]["r"]}
    c.conform_sub(exe, cmds, "LongTrace", ev, "long sequences of shared objects", facets=facets)

def allrefs(c, types, n):
    """Arrays of elements followed by a back-reference to each place in them in turn, including places of alternatives that were tried and discarded."""
    g = c.gen("allrefs", share=.2); r = random.Random(c.seed_for("allrefs")); out = []
    for t in types:
        if t.kind != "vec" or t.kids[0].kind not in ("sptr", "var") or not t.can_deser: continue
        for _ in range(n):
            v = g.value(t)
            if len(v) > 4: continue
            d = g.emit(t, v)
            P = mutate.refs(d)[1][1:]
            for p in r.sample(P, min(len(P), 10)) + mutate.ends(d)[1:3]:
                m = {"t": "arr", "av": d["av"] + [mutate.obj((b"$ref", mutate.st(p)))]}
                if r.random() < .3: m["av"] = m["av"] + [d["av"][0]] if d["av"] and not mutate.has_ref(d["av"][0]) else m["av"]
                x = jsontext.render(m)
                if mutate.in_scope(x): out.append({"op": "read", "t": t.id, "x": x.hex()})
    return out

@plan("C12")
def c12(c):
    q = c.quick
    ts = [t for t in READ if t.shared and t.can_deser]
    build, b = B({CAT.fam[t.id] for t in ts}, 10, 1)
    sh = fam("share")
    small = [t for t in sh if t.can_deser and not t.setshared]
    exe, m, mv, lg = together(build,
        lambda: c.model(small, cap=2 if q else 3, top=3 if q else 6, depth=1 if q else 2, mut=1, share=True, timeout=3000),
        lambda: c.model(fam("varshare"), cap=3, top=8, depth=2, mut=0 if q else 1, share=True, timeout=3000), lambda: vlib.build_one("long.cpp"))
    cmds = c.docs_cmds(m, 5000 if q else 300000) + c.vals_cmds(m, 1500 if q else 60000) + c.vals_cmds(mv, 800 if q else 60000) + c.docs_cmds(mv, 100000)
    cmds += c.reads(ts, 25 if q else 600, share=.5, refs=.8, text=.03) + c.writes(ts, 4 if q else 100, share=.5) + stress_writes(c, ts) + stress_reads(c, ts) + allrefs(c, ts, 12 if q else 400)
    c.conform(exe, cmds, {"d.ok", "d.val", "rt.d", "d.agree", "d.exc"}, b, "back-references")
    long_shares(c, lg, LONG if q else LONG * 30, {"d.val", "d.share"})

@plan("C15")
def c15(c):
    q = c.quick
    ts = [t for t in READ if t.hasvar]
    build, b = B({CAT.fam[t.id] for t in ts}, 26, 1)
    exe, m, ms = together(build, lambda: c.model(fam("var"), cap=4, top=8, depth=2, mut=1, wide=True),
                          lambda: c.model(fam("varshare"), cap=3, top=8 if q else 14, depth=2, mut=1, share=not q, timeout=3000))
    cmds = c.docs_cmds(m, 5000 if q else None) + c.docs_cmds(ms, 2500 if q else 200000) + c.vals_cmds(m) + c.vals_cmds(ms)
    cmds += c.reads(ts, 60 if q else 1500, refs=.5, text=.03, share=.5) + c.writes(ts, 15 if q else 300, share=.5) + allrefs(c, ts, 30 if q else 1000)
    c.conform(exe, cmds, {"d.ok", "d.val", "w.form", "w.ref", "rt.d", "d.agree"}, b, "variants")

@plan("C16")
def c16(c):
    q = c.quick
    build, b = B(None, 27, 1)
    fall = [t for t in REG if t.fallible]
    exe, m = together(build, lambda: c.model([t for t in fam("leaf", "vec", "arr", "map")], cap=3, top=3, depth=2, mut=1))
    cmds = c.docs_cmds(m, 1500 if q else None)
    cmds += c.writes(fall, 8 if q else 250, nonfinite=.3) + c.writes(fall, 4 if q else 100, nonfinite=.06) + c.writes(REG, 1 if q else 20)
    # exactly one unrepresentable element, at each place in turn
    cmds += one_bad(c, fall, 6 if q else 60)
    cmds += c.reads(READ, 6 if q else 150, text=.4, keep=.1)
    c.conform(exe, cmds, {"p.exc", "d.exc", "w.exc", "p.agree", "d.agree", "w.ok", "w.agree", "w.dest"}, b, "outcomes")

def one_bad(c, types, n):
    """Values with exactly one unrepresentable element."""
    g = c.gen("onebad"); r = random.Random(c.seed_for("onebad")); out = []
    import copy
    def places(t, v, acc):
        k = t.kind
        if k in ("float", "double", "date"): acc.append((t, v))
        elif k in ("vec", "set", "arr"):
            for x in v: places(t.kids[0], x, acc)
        elif k == "tup":
            for e, x in zip(t.kids, v): places(e, x, acc)
        elif k in ("map", "umap"):
            for x in v: places(t.kids[0], x[1], acc)
        elif k == "obj":
            for m, x in zip(t.members, v):
                if m.mode == "opt":
                    for y in x: places(m.ty, y, acc)
                else: places(m.ty, x, acc)
        elif k in ("uptr", "sptr"): places(t.kids[0], v["v"], acc)
        elif k == "var": places(t.kids[v["k"]], v["v"], acc)
    for t in types:
        for _ in range(n):
            v = copy.deepcopy(g.value(t)) if not t.shared else g.value(t)
            acc = []; places(t, v, acc)
            if not acc: continue
            ty, x = r.choice(acc)
            x.clear()
            x.update({"f": r.choice(values.NONFIN_F)} if ty.kind == "float" else {"d": r.choice(values.NONFIN_D)} if ty.kind == "double" else {"y": r.choice([[-1, 1, 1], [10000, 1, 1], [12345, 6, 7], [-32767, 12, 31]])})
            out.append({"op": "write", "t": t.id, "v": v})
    return out

# ------------------------------------------------------------------------------------------------------------ bytes and times
def printed(r, tag):
    """Lines printed by a model."""
    return [json.loads(json.loads(l)[len(tag) + 1:]) for l in r.out.splitlines() if l.startswith('"' + tag + " ")]

@plan("C13")
def c13(c):
    q = c.quick
    ts = [t for t in fam("leaf", "ctx", "vec", "set", "map", "ptr", "arr", "tup", "nest") if has_kind(t, ("bytes",))]
    build, b = B(None, 27, 1)
    build = lambda: vlib.build(None, feat=27, san=ASAN, ids=[t.id for t in ts])
    fs = [build, lambda: vlib.build_one("base64.cpp", optional=True), lambda: c.tlc("Base64MC", workers=4)]
    if not q: fs.append(lambda: c.tlc("Base64MC", "Base64MC (longer)", cfg="Base64MC_thorough.cfg", timeout=7000))
    r = together(*fs)
    exe, sub, m = r[:3]
    enc = [bytes(x) for x in printed(m, "ENC")]; dec = [bytes(x) for x in printed(m, "DEC")]
    enc.sort(); dec.sort()
    rnd = random.Random(c.seed_for("b64"))
    # lengths around every block size; single bytes at every place; single characters at every place of a text
    enc2 = [bytes(rnd.randrange(256) for _ in range(n)) for n in range(0, 200 if q else 1100) for _ in range(2 if q else 5)]
    enc2 += [bytes(v if i == k else f for i in range(n)) for n in (3, 8, 14) for k in range(n) for v in range(256) for f in (0, 255)][:: 3 if q else 1]
    enc2 += [bytes(rnd.randrange(256) for _ in range(n)) for n in (1000, 4096, 8191, 10000)]
    enc2 += [bytes(1 << b if i == k else 0 for i in range(n)) for n in range(1, 26) for k in range(n) for b in range(8)]
    import base64
    good = base64.b64encode(bytes(range(40, 49))); good2 = base64.b64encode(bytes(range(7))); good1 = base64.b64encode(b"abcdefghijklm")
    dec2 = [g[:k] + bytes([v]) + g[k + 1:] for g in (good[:4], good, good2, good1) for k in range(len(g)) for v in range(256)]
    dec2 += [g[:k] + bytes([v, w]) + g[k + 2:] for g in (good[:4], good2, good1) for k in range(len(g) - 1) for v in b"A=/-\x00 \xff" for w in b"A=/-\x00 \xff"]
    dec2 += [good1 * 8, good1 * 8 + b"=", b"QUJD" * 50, b"QUJD" * 50 + b"QQ==", b"QUJD" * 50 + b"QUI=", b"QUJD" * 25 + b"QUI=" + b"QUJD" * 25]
    dec2 += [base64.b64encode(bytes(rnd.randrange(256) for _ in range(n))) for n in range(0, 120)]
    for _ in range(2000 if q else 60000):
        x = bytearray(base64.b64encode(bytes(rnd.randrange(256) for _ in range(rnd.randrange(40)))))
        for _ in range(rnd.choice((0, 1, 1, 1, 2))):
            w = rnd.random()
            if x and w < .5: x[rnd.randrange(len(x))] = rnd.choice(b"=A/+-_. \n\x00\x80\xff@[`{:")
            elif x and w < .75: del x[rnd.randrange(len(x))]
            else: x.insert(rnd.randrange(len(x) + 1), rnd.choice(b"=A/z"))
        dec2.append(bytes(x))
    sub_cmds = [{"op": "enc", "x": x.hex()} for x in (c.sample(enc, 2500) if q else enc) + enc2] + [{"op": "dec", "x": x.hex()} for x in (c.sample(dec, 4000) if q else dec) + dec2]
    # through the library: as a value of its own and inside other types
    bt = CAT.by_cpp["persistence::byte_vector"]
    cmds = [{"op": "write", "t": bt.id, "v": {"h": x.hex()}} for x in c.sample(enc, 800 if q else 40000) + c.sample(enc2, 1200 if q else 40000)]
    def as_text(x):
        try: return jsontext.render({"t": "str", "sv": x}, None) if x.decode() is not None else None
        except UnicodeDecodeError: return None
    for x in c.sample(dec, 1200 if q else 60000) + c.sample(dec2, 3000 if q else 60000):
        y = as_text(x)
        if y is not None: cmds.append({"op": "read", "t": bt.id, "x": y.hex()})
    cmds += c.writes(ts, 12 if q else 300) + c.reads(ts, 40 if q else 1500, ("special", "special", "wrong"), text=.02, keep=.1)
    c.conform_sub(sub, sub_cmds, "Base64Trace", lambda cm, r: {"op": cm["op"] if r and r["same"] else "dead", "x": list(bytes.fromhex(cm["x"])), "ok": bool(r and r["ok"]), "y": list(bytes.fromhex(r["y"])) if r else []}, "encoder and decoder")
    c.conform(exe, cmds, {"p.ok", "d.ok", "p.val", "d.val", "w.form", "w.ok", "rt.p", "rt.d", "w.agree"}, b, "bytes")

@plan("C14")
def c14(c):
    import datetime, tempfile
    q = c.quick; r = random.Random(c.seed_for("time"))
    years = sorted(set(list(range(1890, 2110)) + [y + k for y in range(0, 10000, 100) for k in (-1, 0, 1, 4) if 0 <= y + k <= 9999] + [0, 1, 2, 3, 4, 1677, 1678, 2261, 2262, 2263, 9996, 9999] + r.sample(range(10000), 60))) if q else list(range(10000))
    secs = [[k, k + 3599] for k in (0, 39600, 82800)] if q else [[k, k + 3599] for k in range(0, 86400, 3600)]
    p = os.path.join(vlib.BUILD, f"cal_{os.getpid()}.json"); json.dump({"years": years, "secs": secs}, open(p, "w"))
    ts = [t for t in fam("leaf", "ctx", "nest", "obj", "var") if has_kind(t, ("ts", "date")) and t.cpp not in ("AllVecs", "AllOpts")]
    b = {"feat": 27, "san": True}
    try:
        exe, m = together(lambda: vlib.build(None, feat=27, san=ASAN, ids=[t.id for t in ts]), lambda: c.tlc("CalendarMC", env={"CAL": p}, timeout=3000))
    finally: os.remove(p)
    T = CAT.by_cpp["persistence::timestamp"]; D = CAT.by_cpp["std::chrono::year_month_day"]; CT = CAT.by_cpp["Ctx_ts"]; CD = CAT.by_cpp["Ctx_date"]
    vec = lambda t, vs: [[vs] if m.name == b"vec" else [] for m in t.members]
    cmds = []
    # whole years of dates, and of timestamps where the clock reaches
    dim = lambda y: [31, 29 if (y % 4 == 0 and y % 100 != 0) or y % 400 == 0 else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    e0 = datetime.date(1970, 1, 1).toordinal()
    wy = sorted(set(r.sample(years, 110) + [0, 4, 100, 400, 1600, 1900, 1969, 1970, 2000, 2024, 2100, 9999])) if q else years
    for y in wy:
        for q0 in range(6): cmds.append({"op": "write", "t": CD.id, "v": vec(CD, [{"y": [y, mo + 1, d + 1]} for mo in (2 * q0, 2 * q0 + 1) for d in range(dim(y)[mo])])})
    for y in (sorted(r.sample(range(1678, 2262), 60)) + [1700, 1800, 1900, 1969, 1970, 2000, 2100, 2200] if q else range(1678, 2262)):
        n = datetime.date(y, 1, 1).toordinal() - e0
        for k0 in range(0, sum(dim(y)), 61): cmds.append({"op": "write", "t": CT.id, "v": vec(CT, [{"t": [n + k, r.choice((0, 86399, 3600, 59, 60, r.randrange(86400))), 0]} for k in range(k0, min(k0 + 61, sum(dim(y))))])})
    # every second of a day (quick: some hours of it), days at limits of the clock
    for day in ([0, -1] if q else [0, -1, 11016, -25509, 106000, -106000]):
        for h in ((0, 11, 12, 23) if q else range(24)): cmds.extend({"op": "write", "t": CT.id, "v": vec(CT, [{"t": [day, h * 3600 + k0 + k, 0]} for k in range(60)])} for k0 in range(0, 3600, 360 if q else 60))
    cmds += [{"op": "write", "t": T.id, "v": {"t": x}} for d in range(-3, 4) for x in ([-106752 + abs(d) // 3, 764 + d + 3, 0], [106751, 85633 + d, 0], [d, 0, 0], [d, 86399, 0])]
    for _ in range(300 if q else 20000):
        cmds.append({"op": "write", "t": T.id, "v": {"t": [r.choice((0, -1, 1, r.randint(-106000, 106000))), r.choice((0, 86399, r.randrange(86400))), r.choice((1, 999999999, 500000000, r.randrange(10**9)))]}})
    # dates that do not exist cannot be written
    for y in (0, 1900, 1999, 2000, 2024, 9999): cmds += [{"op": "write", "t": D.id, "v": {"y": [y, mo, d]}} for mo in range(0, 15) for d in (0, 1, 28, 29, 30, 31, 32)]
    cmds += [{"op": "write", "t": D.id, "v": {"y": [y, 1, 1]}} for y in (-1, -9999, 10000, 10001, 32767, -32767, 20240)]
    def rd(t, s): cmds.append({"op": "read", "t": t.id, "x": jsontext.render({"t": "str", "sv": s}, None).hex()})
    # every day number of every month, every field around its limits
    for y in (0, 4, 100, 400, 1896, 1900, 1904, 1996, 1999, 2000, 2004, 2023, 2024, 2100, 2400, 9996, 9999) if q else range(0, 10000, 7):
        for mo in range(0, 14):
            for d in (0, 1, 28, 29, 30, 31, 32): rd(D, b"%04d-%02d-%02d" % (y, mo, d)); 1678 <= y < 2262 and rd(T, b"%04d-%02d-%02dT12:34:56Z" % (y, mo, d))
    for h in (0, 1, 9, 10, 19, 20, 23, 24, 25, 60, 99):
        for mi in (0, 9, 10, 59, 60, 61, 99):
            for s in (0, 9, 10, 59, 60, 61, 99): rd(T, b"2016-12-31%c%02d:%02d:%02dZ" % (r.choice(b"TTT "), h, mi, s))
    for m_ in (6, 12):      # leap seconds do not exist in POSIX time
        for y in (1972, 1998, 2005, 2008, 2012, 2015, 2016): rd(T, b"%04d-%02d-%02dT23:59:60Z" % (y, m_, dim(y)[m_ - 1]))
    for s in range(-4, 5):
        rd(T, b"1677-09-21T00:12:%02dZ" % (44 + s)); rd(T, b"2262-04-11T23:47:%02dZ" % (16 + s))
    for y in range(0, 10000, 97): rd(T, b"%04d-06-15T00:00:00Z" % y)
    # every character at every place
    for base, t in ((b"2024-02-29T23:59:59Z", T), (b"1970-01-01 00:00:00Z", T), (b"2023-10-19", D), (b"2000-02-29", D)):
        for k in range(len(base)):
            for v in (range(128) if not q else sorted(set(b"0123456789-+:TZtz ./,aA\x00\x7f") | set(r.sample(range(128), 12)))): rd(t, base[:k] + bytes([v]) + base[k + 1:])
        for k in range(len(base) + 1):
            for v in b"0-:TZ \x00": rd(t, base[:k] + bytes([v]) + base[k:])
        for k in range(len(base)): rd(t, base[:k]); rd(t, base[:k] + base[k + 1:]); rd(t, base[k:])
    for s in mutate.TIMES + mutate.DATES: rd(T, s); rd(D, s)
    cmds = [x for x in cmds if "x" not in x or mutate.in_scope(bytes.fromhex(x["x"]))]
    cmds += c.writes(ts, 6 if q else 200, subsec=.2) + c.reads(ts, 15 if q else 600, ("special", "special", "wrong"), text=.02, keep=.1)
    c.conform(exe, cmds, {"p.ok", "d.ok", "p.val", "d.val", "w.form", "w.ok", "rt.p", "rt.d", "w.agree"}, b, "dates and times")

# ------------------------------------------------------------------------------------------------------------ depth and the handler stack
SIZES = {1: 16, 2: 104, 3: 48, 4: 24}
def stack_histories(c, model_runs):
    """Histories of the model, and longer ones that fill and empty the real stack."""
    q = c.quick; r = random.Random(c.seed_for("stack")); out = []
    for m, cfgs in model_runs:
        for h in c.sample(sorted(printed(m, "SEQ")), 2500 if q else 60000): out += [{"cfg": k, "seq": h} for k in cfgs]
    for cfg, n in ((0, 20), (1, 300), (2, 12), (3, 90)):
        for _ in range(25 if q else 500):
            up = r.choice((.5, .6, .75, .9, .97)); cl = r.choice(([1, 2, 3, 4], [1], [4], [4, 1], [2], [3], [1, 3])); fail = r.choice((0, 0, .05, .3))
            h = [0 if r.random() > up else r.choice(cl) + (100 if r.random() < fail else 0) for _ in range(r.randint(n // 2, n))]
            if r.random() < .3: h += [0] * len(h) + h
            out.append({"cfg": cfg, "seq": h})
        for cl in (1, 2, 3, 4):    # filled to the brim, refused some more, emptied, used again
            out.append({"cfg": cfg, "seq": [cl] * 135 + [100 + cl, cl] + [0] * 140 + [cl, 0, cl]})
    return out

def chains(c):
    """Texts nested to a depth, complete, cut off, and with a mismatch at a depth."""
    q = c.quick; r = random.Random(c.seed_for("chains")); out = []
    def cut(s): return s[:r.randrange(len(s) + 1)]
    def texts(t, mk, mid, leafs, closer):
        ds = list(range(0, 40)) + ([48, 63, 64, 65, 100, 126, 127, 128, 129, 130, 200, 500] if q else list(range(40, 300, 3)) + [500, 1000, 3000])
        for d in ds:
            for lf in leafs if d < 70 else leafs[:3]:
                s = mk(d, lf); out.append((t, s)); 
                if r.random() < .5 or d < 8: out.append((t, cut(s)))
            for w in (b"1", b"[]", b"{}", b"null", b"\"x\"", b"[[", b"}", b"]"): 
                if q and r.random() < .5: continue
                out.append((t, mk(d, w)))
                k = r.randint(0, d); out.append((t, mk(k, w) if mid is None else mid(k, d, w)))
    rep = lambda a, d, lf, z: a * d + lf + z * d
    T = CAT.by_cpp
    texts(T["Deep"], lambda d, lf: rep(b'{"k":[', d, lf, b']}'), lambda k, d, w: rep(b'{"k":[', k, rep(b'{"k":[', d - k, b'{"k":[]}', b']}') + b"," + w, b']}'), [b'{"k":[]}', b'{}', b'{"k":[]},{"k":[]}', b''], None)
    texts(T["DeepMap"], lambda d, lf: rep(b'{"a":1,"m":{"":', d, lf, b'},"s":"t"}'), lambda k, d, w: rep(b'{"m":{"x":', k, rep(b'{"m":{"":', d - k, b'{}', b'}}') + b',"y":' + w, b'}}'), [b'{"m":{}}', b'{"m":{},"a":2}', b'{"s":"x"}'], None)
    texts(T["DeepTup"], lambda d, lf: rep(b'{"t":[[5,', d, lf, b']]}'), lambda k, d, w: rep(b'{"t":[[5,', k, rep(b'{"t":[[7,', d - k, b'{}', b']]}') + b"]," + w + b",[1,{}", b']]}'), [b'{"t":[]}', b'{"t":[[1,{"t":[]}],[2,{}]]}'], None)
    texts(T["DeepPtr"], lambda d, lf: rep(b'{"x":3,"n":', d, lf, b'}'), None, [b'{}', b'{"u":[{},{"x":1}]}', b'{"n":{"u":[]},"x":2}'], None)
    texts(T["DeepPtr"], lambda d, lf: rep(b'{"u":[{},', d, lf, b']}'), None, [b'{}', b'{"u":[{},{"x":1}]}'], None)
    for cpp in ("Tree", "ListNode"):
        m = {x.name: x for x in T[cpp].members}
    tr = T["Tree"].members; ls = T["ListNode"].members
    a, k = [m for m in tr if m.ty.kind == "int"][0].name, [m for m in tr if m.ty.kind != "int"][0].name
    texts(T["Tree"], lambda d, lf: rep(b'{"%s":1,"%s":[' % (a, k), d, lf, b']}'), None, [b'{"%s":2}' % a, b'{"%s":2,"%s":[]}' % (a, k), b'{"%s":2},{"%s":3}' % (a, a)], None)
    a, k = [m for m in ls if m.ty.kind == "int"][0].name, [m for m in ls if m.ty.kind != "int"][0].name
    texts(T["ListNode"], lambda d, lf: rep(b'{"%s":1,"%s":' % (a, k), d, lf, b'}'), None, [b'{"%s":2}' % a], None)
    for t in [t for t in fam("deep", "nest", "leaf", "vec", "map", "tup") if t.can_parse]:
        for d in (1, 2, 7, 8, 9, 11, 12, 13, 30, 130) if CAT.fam[t.id] == "deep" else (r.choice((1, 2, 3, 31, 140)),):
            out += [(t, rep(b"[", d, lf, b"]")) for lf in (b"", b"1", b"[],[]")] + [(t, rep(b'{"a":', d, b"{}", b"}")), (t, b"[" * d), (t, b'{"x":' * d)]
    return [{"op": "read", "t": t.id, "x": x.hex()} for t, x in out if mutate.in_scope(x)]

@plan("C17")
def c17(c):
    q = c.quick
    ts = [t for t in fam("rec", "deep", "nest", "leaf", "vec", "map", "tup", "arr", "ptr", "ctx") if t.can_parse]
    b = {"feat": 1, "san": True}
    mt = [t for t in fam("rec", "deep", "nest", "vec", "map", "tup", "arr") if t.can_parse and t.can_deser]
    fs = [lambda: vlib.build(sorted({CAT.fam[t.id] for t in ts}), feat=1), lambda: vlib.build_one("stack.cpp", optional=True), lambda: c.tlc("HandlerStackMC", workers=2),
          lambda: c.model(mt, cap=3, top=3 if q else 6, depth=3, mut=1, module="Machine", timeout=3000)]
    if not q: fs.append(lambda: c.tlc("HandlerStackMC", "HandlerStackMC (longer)", cfg="HandlerStackMC_thorough.cfg", timeout=5000))
    r = together(*fs); exe, sub, hm = r[:3]
    runs = [(hm, (0, 2))] + [(m, (0,)) for m in r[4:]]
    def ev(cm, rs):
        if rs is None or "dead" in rs: return {"dead": True}
        return dict({k: rs[k] for k in ("cap", "mem", "inside", "steps", "fin")}, dead=False)
    c.conform_sub(sub, stack_histories(c, runs), "HandlerTrace", ev, "handler stack histories")
    cmds = chains(c) + c.reads(ts, 12 if q else 400, text=.4, keep=.1)
    c.conform(exe, cmds, {"p.ok", "p.val", "p.exc", "p.off", "p.agree"}, b, "nested texts")

# ------------------------------------------------------------------------------------------------------------ member names
def near(n, r, names, k):
    """Strings near a name: extensions, prefixes, one character changed, inserted or removed, other case, other names glued to it."""
    out = {n + b"\0", n + b"x", b"x" + n, n + n, n[:-1], n[1:], n.upper(), n.lower(), n.swapcase(), n + b"\0x", n + b" ", b"", r.choice(names) + n, n[:len(n) // 2], n[::-1]}
    for _ in range(k):
        if n:
            i = r.randrange(len(n)); c = n[i]
            out |= {n[:i] + bytes([c ^ (1 << r.randrange(7))]) + n[i + 1:], n[:i] + n[i + 1:], n[:i] + bytes([r.randrange(128)]) + n[i:], n[:i] + b"\0" + n[i + 1:], n[:i] + n[i + 1:i + 2] + n[i:i + 1] + n[i + 2:]}
        out.add(bytes(r.choice(b"abcdefghijklmnopqrstuvwxyz_0") for _ in range(r.choice((1, 2, 3, len(n))))))
    return sorted(out)
def is_text(b):
    try: b.decode(); return True
    except UnicodeDecodeError: return False

@plan("C18")
def c18(c):
    q = c.quick; r = random.Random(c.seed_for("names"))
    ts = [t for t in fam("lookup", "obj", "path") if t.kind == "obj" and t.can_read] + [t for t in fam("rand") if t.kind == "obj" and t.can_read]
    ids = [t.id for t in ts]
    b = {"feat": 3, "san": True}
    mt = [t for t in fam("lookup") if len(t.members) <= 5]
    fs = [lambda: vlib.build(None, feat=3, ids=ids), lambda: vlib.build_one("lookup.cpp", optional=True), lambda: c.tlc("Lookup", cfg="LookupMC.cfg", workers=3),
          lambda: c.tlc("Lookup", "Lookup (slots not marked as taken)", cfg="LookupMC_taken.cfg", expect="LawFinds", workers=1), lambda: c.model(mt, cap=2, top=8, depth=2, mut=1 if q else 2, timeout=4000)]
    if not q: fs.append(lambda: c.tlc("Lookup", "Lookup (larger)", cfg="LookupMC_thorough.cfg", timeout=5000))
    exe, sub, _, _, m = together(*fs)[:5]
    # tables for sets of names of every size and shape
    def words(n):
        w = r.randrange(7); s = set()
        if w == 0: al, ln = b"ab", (0, 1, 2, 3, 4, 5, 6, 7, 8)
        elif w == 1: al, ln = bytes(range(97, 123)) + b"_", (1, 2, 3, 5, 9)
        elif w == 2: al, ln = bytes(range(256)), (1, 2, 4, 8, 30)
        elif w == 3: al, ln = bytes(range(1, 256, 16)), (1, 2, 3)
        elif w == 4: al, ln = b"\0\x80\xff\x7f", (1, 2, 3, 4)
        elif w == 5: al, ln = b"a", tuple(range(0, 130))
        else: al, ln = bytes(0x30 + 8 * i for i in range(10)), (2, 3)
        pre = bytes(r.choice(al) for _ in range(r.choice((0, 0, 7, 8, 20))))
        for _ in range(100 * n):
            if len(s) == n: break
            s.add(pre + bytes(r.choice(al) for _ in range(r.choice(ln))))
        return sorted(s, key=lambda x: r.random())
    sizes = list(range(1, 21)) * (6 if q else 200) + list(range(21, 41)) * (1 if q else 40) + [64] * (2 if q else 30) + [100] * (1 if q else 8)
    cmds = []
    for n in sizes:
        ns = words(n)
        if len(ns) != n: continue
        qs = ns + [x for y in r.sample(ns, min(4, n)) for x in near(y, r, ns, 2)]
        cmds.append({"names": [x.hex() for x in ns], "qs": [x.hex() for x in qs]})
    for t in ts:
        ns = [mm.name for mm in t.members]
        if 0 < len(ns) <= 40 or len(ns) in (64, 100): cmds.append({"names": [x.hex() for x in ns], "qs": [x.hex() for x in ns]})
    L = lambda h: list(bytes.fromhex(h))
    def ev(cm, rs):
        if rs is None or "dead" in rs: return {"dead": True}
        return {"dead": False, "names": [L(x) for x in cm["names"]], "qs": [{"q": L(x), "k": k if k < 1 << 30 else -1} for x, k in zip(cm["qs"], rs["k"])]}
    c.conform_sub(sub, cmds, "LookupTrace", ev, "lookup tables")
    # the readers themselves: each name alone, all names in any order, names beside near misses
    cmds = c.docs_cmds(m, 3000 if q else 100000); g = c.gen("names")
    def add(t, ov, esc=False):
        keys = [k for k, _ in ov]
        if len(set(keys)) < len(keys) or not all(map(is_text, keys)): return
        x = jsontext.render({"t": "obj", "ov": [{"k": k, "n": n} for k, n in ov]}, r if esc else None, .05 if esc else 0)
        if mutate.in_scope(x): cmds.append({"op": "read", "t": t.id, "x": x.hex()})
    for t in ts:
        ns = [mm.name for mm in t.members]; val = {}
        for mm in t.members: val[mm.name] = lambda mm=mm: g.emit(mm.ty, g.value(mm.ty, depth=2))
        def vv(k): return val[k]() if k in val else mutate.num(str(r.randrange(100)))
        small = CAT.fam[t.id] == "lookup"
        req = [mm.name for mm in t.members if mm.mode == "req"]
        for n in ns:
            add(t, [(n, vv(n))])
            if small and len(ns) <= 9:
                # a key that differs from the name in one character, anywhere in the name
                for i in range(len(n)):
                    for _ in range(1 if q and len(n) > 8 and 7 < i < len(n) - 4 else 2 if q else 8):
                        x = n[:i] + bytes([r.randrange(0x23, 0x5b) if r.random() < .5 else n[i] ^ (1 << r.randrange(5))]) + n[i + 1:]
                        if x not in ns and b'"' not in x and b"\\" not in x: add(t, [(x, vv(x))])
            if small:
                for x in near(n, r, ns, 1 if q else 6): add(t, [(x, vv(x))]) if x not in ns and (not q or r.random() < .5) else None
            else:
                x = r.choice(near(n, r, ns, 1)); add(t, [(k, vv(k)) for k in req if k != n] + [(x, vv(x))])
        for _ in range(4 if q else 60):
            o = ns[:]; r.shuffle(o); add(t, [(k, vv(k)) for k in o], esc=True)
            o = o[:r.randrange(len(o) + 1)]; x = r.choice(near(r.choice(ns), r, ns, 1)); o.insert(r.randrange(len(o) + 1), x); add(t, [(k, vv(k)) for k in o], esc=True)
    c.conform(exe, cmds, {"p.ok", "d.ok", "p.val", "d.val", "p.exc"}, b, "names in texts")

# ------------------------------------------------------------------------------------------------------------ schemas
@plan("C19")
def c19(c):
    q = c.quick
    ts = [t for t in REG if t.can_schema]
    fams = sorted({CAT.fam[t.id] for t in ts})
    exe, m = together(lambda: vlib.build(fams, feat=4 | 8 | (0 if q else 16), san=""),
        lambda: c.model([t for t in ts if t.can_deser and CAT.fam[t.id] in ("leaf", "obj", "var", "tup", "arr", "set", "map", "vec", "rec", "sch", "nest", "ptr", "varshare", "share")], cap=2 if q else 3, top=2 if q else 6, depth=2, mut=1, module="SchemaMC", timeout=4000))
    # the schemas the library generates, twice: generation has no state
    cmds = [{"op": "schema", "t": t.id} for t in ts]; c.rnd.shuffle(cmds); cmds = cmds + [dict(x) for x in c.sample(cmds, 60)]
    rs = vlib.run_cmds(exe, cmds)
    docs = []; where = {}; evs = []; src = []; text_of = {}
    for cm, r in zip(cmds, rs):
        if "skipped" in r: continue
        if "dead" in r: evs.append({"op": "dead"}); src.append(cm); continue
        for f in r["r"]:
            tx = bytes.fromhex(f.get("tx", "")); n = jsontext.read(tx)[0] if f["ok"] else None
            if n is not None and tx not in where: docs.append(n); where[tx] = len(docs)
            evs.append({"op": "s", "t": cm["t"], "ok": n is not None, "x": where.get(tx, 0)}); src.append(cm)
            if n is not None: text_of[cm["t"]] = where[tx]
    # documents the library writes
    wr = c.vals_cmds(m, 2500 if q else 60000) + c.writes(ts, 5 if q else 120)
    wr = [x for x in wr if x["t"] in text_of]
    for cm, r in zip(wr, vlib.run_cmds(exe, wr)):
        e = vlib.adapt(cm, r)
        if e is None: continue
        if e["op"] == "dead": evs.append({"op": "dead"}); src.append(cm); continue
        for d in e["docs"]:
            if d["ok"]: evs.append({"op": "d", "t": cm["t"], "x": text_of[cm["t"]], "j": d["n"], "w": True, "v": e["in"]}); src.append(cm)
    # documents that are not of the type: they need not be given to the library
    n0 = len(evs); rd = c.docs_cmds(m, 5000 if q else 200000) + c.reads([t for t in ts if t.can_read], 6 if q else 150, text=0, refs=0)
    for cm in rd:
        j = jsontext.read(bytes.fromhex(cm["x"]))[0]
        if j is not None and cm["t"] in text_of: evs.append({"op": "d", "t": cm["t"], "x": text_of[cm["t"]], "j": j, "w": False, "v": 0}); src.append(cm)
    p = os.path.join(vlib.BUILD, f"schemas_{os.getpid()}.json"); json.dump(docs, open(p, "w"))
    try: viol, st, gen = vlib.judge(evs, {"dead"}, "SchemaTrace", env={"SCHEMAS": p})
    finally: os.remove(p)
    c.states += st; c.transitions += gen; c.traces += len(evs)
    c.count("schemas", len(docs)); c.count("documents written", n0 - sum(e["op"] == "s" for e in evs)); c.count("documents not of the type or altered", len(evs) - n0)
    c.samples += [c.describe(x) for x in (cmds[:2] + wr[:1] + rd[:1])]
    log(f"schemas: {len(docs)} documents, {len(evs)} events, {len(viol)} rejected")
    for k in sorted(viol):
        if viol[k] == ["dead"] and not c.confirm(exe, [src[k]], 0, {"dead"}, ["dead"]): continue
        c.report(dict(src[k], part="schema"), viol[k], {"schema": jsontext.render(docs[evs[k]["x"] - 1], None).decode()[:3000] if evs[k].get("x") else ""}, {"feat": 28, "san": False})

# ------------------------------------------------------------------------------------------------------------ histories and threads
from concurrent.futures import ThreadPoolExecutor
def strip(r): return {k: v for k, v in r.items() if k not in ("c", "s")}
class Calls:
    """Calls (operation and arguments) and their outcomes, numbered; outcomes of calls made alone."""
    def __init__(self, exe, env=vlib.ENV): self.exe = exe; self.env = env; self.keys = {}; self.setup = []; self.res = {}; self.alone = []; self.first = []
    def key(self, cmd, v=None):
        """v: the value a slot holds when it is written."""
        k = json.dumps([cmd["op"], cmd["t"], v] if v is not None else {x: y for x, y in cmd.items() if x != "c"}, sort_keys=True)
        if k not in self.keys:
            self.keys[k] = len(self.setup)
            self.setup.append([{"op": "slot", "t": cmd["t"], "s": 0, "v": v, "c": 0}, {"op": "swrite", "t": cmd["t"], "s": 0, "c": 0}] if v is not None else [dict(cmd, c=0)])
        return self.keys[k]
    def outcome(self, r):
        if "dead" in r: return 0
        k = json.dumps(strip(r), sort_keys=True)
        return self.res.setdefault(k, len(self.res) + 1)
    def run_alone(self):
        with ThreadPoolExecutor(vlib.NCPU) as ex: self.first = [r[-1] for r in ex.map(lambda s: vlib.run_shard(self.exe, s, env=self.env), self.setup)]
        self.alone = [self.outcome(r) for r in self.first]
        return [(s[-1], r) for s, r in zip(self.setup, self.first)]

def judge_calls(c, calls, evs, src, label):
    """evs: [k, r] per call in a history; src: what to report."""
    p = os.path.join(vlib.BUILD, f"alone_{os.getpid()}_{len(evs)}.json"); json.dump(calls.alone, open(p, "w"))
    try: viol, st, gen = vlib.judge(evs, {"dead"}, "SessionTrace", env={"ALONE": p})
    finally: os.remove(p)
    c.states += st; c.transitions += gen; c.traces += len(evs); c.count(label, len(evs)); c.count("distinct calls", len(calls.alone))
    log(f"{label}: {len(evs)} calls of {len(calls.alone)} kinds, {len(viol)} rejected")
    for k in sorted(viol): src[k][2](viol[k])

def histories(c, exe, env, calls, hs, label):
    """Each history in a process of its own (long ones one after the other): commands and the values of slots at that point."""
    seqs = []
    for h in hs:
        vals = {}; out = []
        for cm in h:
            cm = dict(cm)
            if cm["op"] in ("slot", "sset"): vals[cm["s"]] = cm["v"]; out.append((cm, None))
            elif cm["op"] == "swrite": out.append((cm, calls.key({"op": "swrite", "t": cm["t"]}, vals[cm["s"]])))
            else: out.append((cm, calls.key(cm)))
        seqs.append(out)
    with ThreadPoolExecutor(vlib.NCPU) as ex: rs = list(ex.map(lambda s: vlib.run_shard(exe, [dict(x[0], c=i) for i, x in enumerate(s)], env=env), seqs))
    evs = []; src = []
    for s, r in zip(seqs, rs):
        for i, ((cm, k), x) in enumerate(zip(s, r)):
            if k is None or "skipped" in x: continue
            if "dead" in x and "at the end of the process" not in x["dead"] and "dead" not in vlib.run_shard(exe, [dict(y[0], c=j) for j, y in enumerate(s[:i + 1])], env=env)[-1]: continue
            evs.append((k, x))
            def rep(fs, s=s, i=i, x=x): c.report({"op": s[i][0]["op"], "part": label, "history": [y[0] for y in s[max(0, i - 6):i + 1]], "length": i}, fs, x)
            src.append((s, i, rep))
    return evs, src

def model_history(h, ty):
    """A history of module Calls as commands for a type: objects are shared doubles (not finite: bad) or classes with one."""
    vd = CAT.by_cpp["std::vector<std::shared_ptr<double>>"]; vp = CAT.by_cpp["std::vector<std::shared_ptr<Point3>>"]
    t = vd if ty == 0 else vp
    D = {0: "7ff8000000000000", 1: "3ff8000000000000", 2: "4004000000000000"}
    obj = lambda v: {"d": D[v]} if ty == 0 else [{"i": str(v)}, {"i": "-7"}, [{"d": D[v]}]]
    txt = lambda v: ({0: b"null", 1: b"1.5", 2: b"2.5"} if ty == 0 else {0: b'{"x":1,"y":"?"}', 1: b'{"x":1,"y":-7,"z":1.5}', 2: b'{"y":0,"x":2}'})[v]
    heap = {1: 1, 2: 2}; out = [{"op": "slot", "t": t.id, "s": 0, "v": [{"p": a, "v": obj(heap[a])} for a in heap]}]
    for e in h:
        o = e["o"]
        if o["op"] == "set": heap[o["xs"][0]] = o["xs"][1]
        elif o["op"] == "write": out += [{"op": "sset", "t": t.id, "s": 0, "v": [{"p": a, "v": obj(heap[a])} for a in o["xs"]]}, {"op": "swrite", "t": t.id, "s": 0}]
        else: out.append({"op": "read", "t": t.id, "x": (b"[" + b",".join(txt(x["x"]) if x["k"] == "f" else b'{"$ref":"/%d"}' % (x["x"] - 1) for x in o["xs"]) + b"]").hex()})
    return out

@plan("C21")
def c21(c):
    q = c.quick
    ts = [t for t in REG if not t.setshared]
    r = random.Random(c.seed_for("hist"))
    fs = [lambda: vlib.build(None, feat=31, san=""), lambda: vlib.build_one("early.cpp", opt="-O0"), lambda: c.tlc("Calls", "Calls (sequences)", cfg="CallsSeq.cfg", workers=3)]
    fs += [lambda x=x: c.tlc("Calls", f"Calls (table kept: {x})", cfg=f"CallsSeq_{x}.cfg", expect="LawAlone", workers=1) for x in ("thread", "lazy", "memo")]
    if not q: fs.append(lambda: c.tlc("Calls", "Calls (longer sequences)", cfg="CallsSeq_thorough.cfg", timeout=5000))
    res = together(*fs); exe, early = res[:2]
    calls = Calls(exe)
    # histories of the model, in order, many to a process: nothing may be left from one to the next
    hs = []
    for m in [res[2]] + res[6:]:
        H = c.sample(sorted(printed(m, "HIST"), key=json.dumps), 4000 if q else 120000)
        for ty in (0, 1):
            for k in range(0, len(H), 250): hs.append([x for h in H[k:k + 250] for x in model_history(h, ty)])
    # seeded histories over all types: successes and failures of every kind follow each other, every call more than once
    kinds = c.writes(ts, 1 if q else 12) + c.writes([t for t in ts if t.fallible], 2 if q else 20, nonfinite=.2) + one_bad(c, [t for t in ts if t.fallible], 2 if q else 20)
    kinds += c.reads([t for t in READ], 3 if q else 40, text=.2, keep=.2, pre=.4) + new_inside(c, [t for t in READ], 1 if q else 20) + [{"op": "schema", "t": t.id} for t in ts if t.can_schema]
    pool = kinds * 3; r.shuffle(pool)
    for k in range(0, len(pool), 600): hs.append(pool[k:k + 600])
    # the same object written again and again, between failures
    for t in [t for t in ts if (t.shared or t.fallible) and not any(x.kind == "umap" for x in CAT.reach(t))]:
        g = c.gen(f"slots{t.id}", share=.5, nonfinite=.15); h = []
        for s in range(2): h.append({"op": "slot", "t": t.id, "s": s, "v": g.value(t)})
        for _ in range(6 if q else 40):
            w = r.random()
            if w < .3: h.append({"op": "sset", "t": t.id, "s": r.randrange(2), "v": g.value(t)})
            h.append({"op": "swrite", "t": t.id, "s": r.randrange(2)})
            if w > .7 and t.can_read: h += c.sample([x for x in kinds if x["t"] == t.id], 1)
        hs.append(h)
    evs, src = histories(c, exe, vlib.ENV, calls, hs, "history")
    lone = calls.run_alone()
    judge_calls(c, calls, [{"k": k + 1, "r": calls.outcome(x)} for k, x in evs], src, "calls in histories")
    # forms called one after the other on the same argument, what they leave of their arguments, objects that held data
    done = [(cm, x) for cm, x in lone if cm["op"] in ("read", "write") and "dead" not in x]
    ev2 = [vlib.adapt(cm, x) for cm, x in done]
    viol, st, gen = vlib.judge(ev2, {"w.rep", "p.agree", "d.agree", "mod", "w.dest"})
    c.states += st; c.transitions += gen; c.traces += len(ev2)
    for k in sorted(viol): c.report(done[k][0], viol[k], done[k][1], {"feat": 31, "san": False})
    for cm, x in lone[:3]: c.samples.append(c.describe(cm))
    # calls made by initializers of static variables
    e = Calls(early); rs = vlib.run_shard(early, [{"k": i} for i in range(12)])
    e.alone = [e.res.setdefault(x.get("late", "?"), len(e.res) + 1) for x in rs]
    judge_calls(c, e, [{"k": i + 1, "r": 0 if "dead" in x else e.res.setdefault(x.get("early"), len(e.res) + 1)} for i, x in enumerate(rs) if "skipped" not in x],
                [(0, 0, lambda fs, i=i, x=x: c.report({"op": "early", "part": "static initializers", "key": i}, fs, x)) for i, x in enumerate(rs)], "static initializers")

TSAN = "-fsanitize=thread"
@plan("C20")
def c20(c):
    q = c.quick; r = random.Random(c.seed_for("threads"))
    T = CAT.by_cpp
    ts = fam("leaf") + [T[x] for x in ("AllLeaves", "AllOpts", "Nest3", "DefAll", "Derived2", "Tree", "ListNode", "DeepMap", "DeepTup", "Ptrs", "Share4", "ShareN", "ShareAB", "PathN", "VarObj", "K_r16", "K_r64", "K_esc", "K_three", "RecA", "ns_one::Both", "LongOnes", "VarIn", "std::vector<std::shared_ptr<double>>", "std::vector<std::shared_ptr<Point3>>", "std::vector<std::shared_ptr<GNode>>")]
    ts += [t for t in fam("varshare", "nest", "wonly", "tup", "set") if not t.setshared]
    ts = [t for t in dict((t.id, t) for t in ts).values() if not t.setshared]
    env = dict(vlib.ENV, TSAN_OPTIONS="exitcode=97:halt_on_error=1:report_bugs=1:history_size=4")
    fs = [lambda: vlib.build(None, feat=31, san=TSAN, ids=[t.id for t in ts]), lambda: c.tlc("Calls", "Calls (two threads)", cfg="CallsPar.cfg", workers=3),
          lambda: c.tlc("Calls", "Calls (one table for all threads)", cfg="CallsPar_static.cfg", expect="LawAlone", workers=1),
          lambda: c.tlc("Calls", "Calls (first use without a guard)", cfg="CallsPar_unguarded.cfg", expect="LawNoRace", workers=1)]
    if not q: fs.append(lambda: c.tlc("Calls", "Calls (three threads)", cfg="CallsPar_thorough.cfg", timeout=5000))
    res = together(*fs); exe = res[0]
    probe = vlib.run_shard(exe, [{"op": "schema", "t": ts[0].id, "c": 0}], env=env)[0]
    if "dead" in probe and "ThreadSanitizer" in probe["dead"] and "WARNING" not in probe["dead"]:
        log("ThreadSanitizer does not run here: results are compared without it"); c.assume.append("ThreadSanitizer could not be started in this environment")
        exe = vlib.build(None, feat=31, san="", ids=[t.id for t in ts])
    calls = Calls(exe, env)
    kinds = {}
    for cm in c.writes(ts, 2 if q else 6, nonfinite=.03) + c.reads([t for t in ts if t.can_read], 3 if q else 8, text=.15, keep=.4) + [{"op": "schema", "t": t.id} for t in ts if t.can_schema]: kinds.setdefault(cm["t"], []).append(cm)
    def mixed(n): return [r.choice(kinds[r.choice(ts).id]) for _ in range(n)]
    procs = []
    # the models' assignments of calls to threads, on shared objects and on objects of their own
    H = c.sample(sorted(printed(res[1], "HIST") + (printed(res[4], "HIST") if not q else []), key=json.dumps), 120 if q else 3000)
    for ty in (0, 1):
        p = []
        for h in H:
            th = {}
            for e in h: th.setdefault(e["t"], []).append(e)
            lists = [[x for x in model_history(es, ty)[1:] if x["op"] in ("read", "sset", "swrite")] for es in th.values()]
            # an object of its own per thread
            p.append({"op": "conc", "t": ts[0].id, "th": [[dict(op="write", t=x["t"], v=x["v"]) if x["op"] == "sset" else x for x in l if x["op"] != "swrite"] for l in lists]})
        procs += [p[k:k + 40] for k in range(0, len(p), 40)]
    for n in range(50 if q else 1500):
        p = []
        # first use of some types by all threads at once
        first = r.sample(ts, 3)
        seq = [r.choice(kinds[t.id]) for t in first for _ in range(2)]
        p.append({"op": "conc", "t": ts[0].id, "th": [seq[:] if r.random() < .7 else r.sample(seq, len(seq)) for _ in range(4)]})
        p.append({"op": "conc", "t": ts[0].id, "th": [mixed(12) for _ in range(4)]})
        # one constant object read by all
        ws = [x for t in r.sample(ts, 2) for x in kinds[t.id] if x["op"] == "write"][:3]
        p.append({"op": "conc", "t": ts[0].id, "slots": [{"s": i, "t": x["t"], "v": x["v"]} for i, x in enumerate(ws)], "th": [[{"op": "swrite", "t": ws[i]["t"], "s": i} for i in r.choices(range(len(ws)), k=5)] for _ in range(4)]})
        p.append({"op": "conc", "t": ts[0].id, "th": [r.choices(kinds[first[0].id], k=10) for _ in range(4)]})
        procs.append(p)
    keyed = []
    for p in procs:
        for cm in p:
            sv = {s["s"]: s["v"] for s in cm.get("slots", [])}
            keyed.append([[calls.key({"op": "swrite", "t": x["t"]}, sv[x["s"]]) if x["op"] == "swrite" else calls.key(x) for x in l] for l in cm["th"]])
    with ThreadPoolExecutor(3) as ex: rs = list(ex.map(lambda p: vlib.run_shard(exe, [dict(x, c=i) for i, x in enumerate(p)], env=env, stall=120), procs))
    calls.run_alone()
    evs = []; src = []; n = 0
    for p, rr in zip(procs, rs):
        for cm, x in zip(p, rr):
            ks = keyed[n]; n += 1
            if "skipped" in x: continue
            if "dead" in x:
                sure = "WARNING: ThreadSanitizer" in x["dead"] or any("dead" in y for _ in range(3) for y in vlib.run_shard(exe, [dict(z, c=i) for i, z in enumerate(p)], env=env, stall=120))
                if sure:
                    evs.append({"k": 1, "r": 0}); src.append((0, 0, lambda fs, cm=cm, x=x: c.report({"op": "conc", "part": "threads", "th": cm["th"]}, fs + ["race" if "data race" in x["dead"] else "died"], x)))
                continue
            for l, ks_, xs in zip(cm["th"], ks, x["th"]):
                for y, k, z in zip(l, ks_, xs):
                    evs.append({"k": k + 1, "r": calls.outcome(z)})
                    src.append((0, 0, lambda fs, y=y, cm=cm, z=z: c.report({"op": y["op"], "part": "threads", "call": y, "th": cm["th"]}, fs, z)))
    c.count("processes", len(procs)); c.count("groups of threads", n)
    judge_calls(c, calls, evs, src, "concurrent calls")
    c.samples += [json.dumps(x)[:200] for x in procs[-1][:2]]

# -- texts and documents --------------------------------------------------------------------------------------------------
TEXTS = [(b"{}[],:\"1 ", b"", 6, 7), (b"-+.eE019 ,]", b"[", 6, 7), (b"\"\\u0dF/n\n\x7f", b"\"", 7, 8), (b"truefalsn, ]", b"[", 6, 8), (b"{}\":,a0\t", b"{\"a\"", 10, 12), (b"[]{}, ", b"", 8, 9), (b"dcE80\"\\u", b"\"\\ud83d\\u", 14, 15)]
def small_texts(c, deeper=0):
    """All texts over a few small alphabets (spec/TextMC.tla)."""
    d = tempfile.mkdtemp(prefix="sel_", dir=vlib.BUILD)
    try:
        sel = [{"alphabet": sorted(set(al)), "pre": list(pre), "max": (a if c.quick else b) - deeper} for al, pre, a, b in TEXTS]
        json.dump(sel, open(f"{d}/sel.json", "w"))
        r = c.tlc("TextMC", env={"SEL": f"{d}/sel.json"}, timeout=600 if c.quick else 7000)
    finally: shutil.rmtree(d, ignore_errors=True)
    return sorted({bytes(x) for x in printed(r, "TXT")})

NUMTOK = re.compile(rb'"(?:[^"\\]|\\.)*"|(-?(?:0|[1-9]\d*)(?:\.\d+)?(?:[eE][-+]?\d+)?)', re.S)
def number_table(b):
    out = []
    for m in NUMTOK.finditer(b):
        if m.group(1) is None: continue
        v = float(m.group(1))
        out.append("inf" if v in (float("inf"), float("-inf")) else struct.pack(">d", v).hex())
    return out

SURR = re.compile(rb"\\u[dD][89a-fA-F]"); PAIR = re.compile(rb"\\u[dD][89abAB][0-9a-fA-F]{2}\\u[dD][c-fC-F][0-9a-fA-F]{2}")
def doc_scope(x): return 0 not in x and mutate.in_scope(x) and len(SURR.findall(x)) == 2 * len(PAIR.findall(x))

def random_doc(r, depth=0):
    k = r.random()
    if depth > 5 or k < .35 + .1 * depth:
        w = r.random()
        if w < .1: return {"t": "null"}
        if w < .2: return {"t": "b", "bv": r.random() < .5}
        if w < .4: return mutate.num(str(r.choice((r.randint(-9, 9), r.choice(mutate.INTS), r.randint(-2**63, 2**64 - 1), r.getrandbits(r.randint(1, 64)), -r.getrandbits(r.randint(1, 63)), r.choice((1, -1)) * (2**r.randint(0, 70) + r.randint(-2, 2)), 10**r.randint(0, 40)))))
        if w < .65: return mutate.num(random_number(r))
        return mutate.st(random_string(r))
    n = r.choice((0, 1, 1, 2, 3, 4)) if depth else r.choice((0, 1, 2, 3, 5, 8, 17))
    if k < .7: return {"t": "arr", "av": [random_doc(r, depth + 1) for _ in range(n)]}
    return {"t": "obj", "ov": [{"k": q, "n": random_doc(r, depth + 1)} for q in dict.fromkeys(random_string(r) for _ in range(n))]}
def random_string(r):
    n = r.choice((0, 1, 2, 3, 5, 8, 15, 16, 17, 31, 32, 33, 64, 100) if r.random() < .3 else (0, 1, 2, 3, 5))
    return "".join(chr(r.choice((r.randint(0, 0x7f), r.randint(32, 126), r.randint(0x80, 0x7ff), r.randint(0x800, 0xd7ff), r.randint(0xe000, 0xffff), r.randint(0x10000, 0x10ffff), r.choice((34, 92, 47, 10, 0, 0x7f, 0x2028, 0xfeff, 0xffff, 0x10ffff))))) for _ in range(n)).encode()
def random_number(r):
    w = r.random()
    if w < .3: return r.choice(mutate.FLOAT_LITS)
    if w < .6:
        x = struct.unpack(">d", struct.pack(">Q", r.getrandbits(64)))[0]
        if x != x or x in (float("inf"), float("-inf")): x = 0.1
        return r.choice((repr(x), "%.17e" % x, "%.20e" % x, "%.15e" % x))
    if w < .8: return ("-" if r.random() < .5 else "") + r.choice(("0", str(r.randint(1, 10**r.randint(1, 25))))) + "." + "".join(r.choice("0123456789") for _ in range(r.randint(1, 25))) + (r.choice(("", "e%d" % r.randint(-330, 320), "E+%d" % r.randint(0, 30), "e-%d" % r.randint(0, 30))))
    return repr(r.random() * 10**r.randint(-5, 20))

@plan("C22")
def c22(c):
    q = c.quick
    exe, texts = together(lambda: vlib.build_one("docs.cpp"), lambda: small_texts(c))
    xs = c.sample([x for x in texts if doc_scope(x)], 60000 if q else 1500000)
    r = random.Random(c.seed_for("docs"))
    for _ in range(6000 if q else 200000):
        x = jsontext.render(random_doc(r), r, r.choice((0, 0, .1, .4)))
        if r.random() < .3: x = mutate.mutate_text(x, r)
        xs.append(x)
    # sizes around buffers, deep nesting, long numbers
    for n in (15, 16, 17, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 20000) if q else list(range(0, 1100)) + [4095, 4096, 65535, 65536, 70000]:
        xs += [b'"' + b"a" * n + b'"', b"[" + b",".join([b"1"] * n) + b"]" if n < 1100 else b"[]", b" " * min(n, 4096) + b"1" + b"\n" * min(n, 4096), b'{"' + "é".encode() * (n // 2) + b'":"' + b"\\n" * (n // 2) + b'"}']
    xs += [b"[" * n + b"]" * m for n in (1, 2, 31, 32, 33, 100, 300) for m in (n, n - 1, n + 1)] + [b'{"a":' * n + b"0" + b"}" * n for n in (1, 32, 300)]
    xs += [s + (b"1" * n) + t for s in (b"", b"-") for n in (17, 18, 19, 20, 21, 22, 40, 100, 300, 308) for t in (b"", b".5", b"e5", b"0", b"E-2")]
    xs += [b"0." + b"0" * n + b"1" * m for n in (0, 5, 300, 320) for m in (1, 17, 20)] + [b"1e%d" % n for n in range(-330, 312)] + [b"9" * 16 + b"e%d" % n for n in range(-345, 296)]
    xs += [b"%d" % (k * 2**n + d) for n in (31, 32, 53, 63, 64, 65) for d in (-2, -1, 0, 1, 2) for k in (1, -1)]
    cmds = [{"op": "doc", "x": x.hex()} for x in dict.fromkeys(xs) if doc_scope(x)]
    c.rnd.shuffle(cmds)
    L = lambda h: list(bytes.fromhex(h))
    def ev(cm, x):
        if x is None or "dead" in x: return {"dead": True}
        b = bytes.fromhex(cm["x"]); e = {"dead": False, "x": list(b), "xn": number_table(b), "jv": jsontext.read(b)[0] is not None, "ca": x["ca"], "mv": x["mv"], "same": x["same"]}
        for k in ("y", "ym", "z", "w"): e[k] = L(x[k])
        e["yn"] = number_table(bytes(e["y"])); e["ymn"] = number_table(bytes(e["ym"]))
        return e
    c.conform_sub(exe, cmds, "DocTrace", ev, "texts and documents")
