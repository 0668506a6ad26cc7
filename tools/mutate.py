"""Seeded changes to documents and texts.  They only produce inputs: what the library must do with an input is decided by the specification."""
import copy, re, struct
import jsontext as J

def num(lit): return {"t": "num", "lit": lit, "i": not any(c in lit for c in ".eE")}
def st(b): return {"t": "str", "sv": b}
NULL = {"t": "null"}; TRUE = {"t": "b", "bv": True}; FALSE = {"t": "b", "bv": False}
def arr(*x): return {"t": "arr", "av": list(x)}
def obj(*kv): return {"t": "obj", "ov": [{"k": k, "n": n} for k, n in kv]}
WRONG = [NULL, TRUE, FALSE, num("0"), num("-1"), num("1.5"), num("1e2"), num("1.0"), num("99999999999"), num("18446744073709551615"), num("-9223372036854775808"), num("1e30"), st(b""), st(b"x"), st(b"1"), st(b"true"), st(b"null"), arr(), obj(),
         arr(num("0")), arr(num("1"), num("2")), arr(NULL), arr(st(b"a")), obj((b"a", num("0"))), obj((b"", NULL)), arr(arr()), arr(obj()), obj((b"x", num("1")), (b"y", num("2")))]
INTS = sorted({s * (2 ** k) + d for k in (7, 8, 15, 16, 31, 32, 53, 63, 64) for d in (-1, 0, 1) for s in (1, -1)} | {0, 1, -1, 10 ** 19, 10 ** 20, -10 ** 19, 2 ** 65, 3 * 2 ** 62, 10 ** 30})
INT_LITS = [str(i) for i in INTS] + ["-0", "0.0", "1.0", "-1.0", "1e0", "1E2", "2.5e1", "0.5", "127.0", "255.0", "1e-1", "1.0e10", "12345678901234567890", "340282366920938463463374607431768211456"]
FLOAT_LITS = ["3.4028234663852886e38", "3.4028235e38", "3.5e38", "-3.5e38", "1e39", "1e300", "1e308", "-1e308", "1.5e308", "1e309", "-1e400", "1e5000", "1e-400", "1e-46", "5e-324", "0.1", "-0.0", "123456789.125", "16777217", "33554433", "9007199254740993", "18446744073709551615", "36893488147419103232",
              "16777216", "9007199254740992", "16777215", "9007199254740991", "-16777217", "-9007199254740993", "1", "-7", "1e22", "1e23", "4.35", "2.2250738585072011e-308"]
DATES = [b"", b"2024-02-30", b"2023-02-29", b"1900-02-29", b"2000-02-29", b"2024-13-01", b"2024-00-10", b"2024-01-00", b"2024-01-32", b"2024-04-31", b"20240101", b"2024-1-1", b"2024-01-01 ", b" 2024-01-01", b"2024/01/01", b"-024-01-01", b"+024-01-01", b"2024-+1-01", b"2024-01--1",
         b"0000-01-01", b"9999-12-31", b"0000-00-00", b"2024-01-01T00:00:00Z", b"2024-02-29", b"2100-02-29", b"2400-02-29", b"12024-01-01", b"2024-01-011", b"2024-01-0a", b"2024-01-1 ", b"2024- 1-01", b"2024-01- 1"]
TIMES = [b"", b"2024-02-29T23:59:59Z", b"2024-02-29 23:59:59Z", b"2023-02-29T00:00:00Z", b"2024-01-01T24:00:00Z", b"2024-01-01T23:60:00Z", b"2024-01-01T23:59:60Z", b"2024-01-01T23:59:61Z", b"2024-01-01T00:00:00", b"2024-01-01T00:00:00z", b"2024-01-01t00:00:00Z", b"2024-01-01T00:00:00+00:00",
         b"2024-01-01T00:00:00.000Z", b"2024-01-01T00:00Z", b"2024-01-01", b"2024-01-01T-1:00:00Z", b"2024-01-01T+1:00:00Z", b"2024-01-01T 1:00:00Z", b"2024-01-01T00:0x:00Z", b"2024-13-01T00:00:00Z", b"2024-00-01T00:00:00Z", b"2024-01-32T00:00:00Z", b"2024-04-31T00:00:00Z", b"1677-09-21T00:12:43Z",
         b"1677-09-21T00:12:44Z", b"1677-09-21T00:12:45Z", b"2262-04-11T23:47:16Z", b"2262-04-11T23:47:17Z", b"0001-01-01T00:00:00Z", b"9999-12-31T23:59:59Z", b"0000-01-01T00:00:00Z", b"1969-12-31T23:59:59Z", b"1970-01-01T00:00:00Z", b"1900-03-01T00:00:00Z", b"2024-01-01T00:00:00ZZ", b"2024-01-01T00:00:00Z\x00", b"2024-01-01_00:00:00Z",
         b"2024-01-01T00-00-00Z", b"2024-01-01T00:00:99Z", b"2024-01-01T99:00:00Z", b"2024-01-01T00:99:00Z", b"2000-02-29T12:00:00Z", b"2100-02-29T12:00:00Z"]
B64 = [b"", b"=", b"==", b"====", b"A", b"AA", b"AAA", b"AAAA", b"AA==", b"AAA=", b"A===", b"AA=A", b"=AAA", b"A=AA", b"AAAAA", b"AAAAAA==", b"AA==AAAA", b"AAA=AAAA", b"AA-_", b"AA A", b" AAAA", b"AAAA ", b"AAAA\n", b"AA\x00A", "AAé".encode(), b"////", b"++++", b"/w==", b"//8=", b"QUJD", b"QUJDRA==",
       b"QUJDREU=", b"QUJDREVG" * 9, b"QUJDREVG" * 9 + b"QQ==", b"AB==", b"AAB=", b"@@@@", b"[[[[", b"````", b"{{{{", b"AAA:", b"AAA.", b"AAA,"]

def all_nodes(n, t, path=()):
    """(node, type, path) of every node, guided by the type where it still fits (type None elsewhere)."""
    out = [(n, t, path)]
    k = t.kind if t else None
    while t is not None and t.kind in ("uptr", "sptr"): t = t.kids[0]; k = t.kind
    if n["t"] == "arr":
        for i, x in enumerate(n["av"]):
            e = None
            if k in ("vec", "set", "arr"): e = t.kids[0]
            elif k == "tup" and i < len(t.kids): e = t.kids[i]
            out += all_nodes(x, e, path + (i,))
    elif n["t"] == "obj":
        for i, x in enumerate(n["ov"]):
            e = None
            if k in ("map", "umap"): e = t.kids[0]
            elif k == "obj":
                for m in t.members:
                    if m.name == bytes(x["k"]): e = m.ty
            out += all_nodes(x["n"], e, path + (i,))
    return out

def put(n, x):
    n.clear(); n.update(copy.deepcopy(x))

def special(t, r):
    """A replacement that a particular type should think twice about."""
    k = t.kind
    while k in ("uptr", "sptr"): t = t.kids[0]; k = t.kind
    if k == "var": return special(r.choice(t.kids), r)
    if k in ("int", "enumi"):
        c = [str(v) for v in (t.lo, t.hi, t.lo - 1, t.hi + 1, t.hi + 2, t.lo - 2, 2 * t.hi + 1, 2 * t.hi + 2)]
        return num(r.choice(c + c + INT_LITS))
    if k in ("float", "double"): return num(r.choice(FLOAT_LITS + INT_LITS[:40]))
    if k == "enums":
        n = r.choice(t.names)
        return st(r.choice([n, n + b"x", n[:-1] if n[:-1].decode("utf-8", "ignore").encode() == n[:-1] else n, n.upper() if n.isascii() else n, n + b"\x00", b"\x00" + n, n + b" ", b"", b"unknown", b"0", n + n]))
    if k == "bytes": return st(r.choice(B64))
    if k == "ts":
        if r.random() < .5: return st(r.choice(TIMES))
        b = bytearray(r.choice(TIMES[1:4])); b[r.randrange(len(b))] = r.choice(b"0123456789-:TZ /a\x00+"); return st(bytes(b))
    if k == "date":
        if r.random() < .5: return st(r.choice(DATES))
        b = bytearray(r.choice([b"2024-02-28", b"1999-12-31", b"2001-10-19"])); b[r.randrange(len(b))] = r.choice(b"0123456789-:T /a\x00+"); return st(bytes(b))
    if k == "str": return r.choice([st(b""), st(b"\x00"), num("1"), NULL, st(b"\xc3\xa9")])
    if k == "bool": return r.choice([num("0"), num("1"), st(b"true"), NULL, TRUE, FALSE])
    if k == "null": return r.choice([num("0"), FALSE, st(b""), obj(), arr(), NULL])
    return None

def mutate_doc(t, doc, r, kinds=None):
    """One change at a random place."""
    d = copy.deepcopy(doc)
    nodes = all_nodes(d, t)
    for _ in range(20):
        n, ty, path = r.choice(nodes)
        how = r.choice(kinds or ("wrong", "wrong", "special", "special", "special", "length", "member", "wrap", "null"))
        if how == "wrong": put(n, r.choice(WRONG)); return d
        if how == "null": put(n, NULL); return d
        if how == "wrap":
            x = copy.deepcopy(n); put(n, r.choice([arr(x), obj((b"a", x)), arr(x, x)])); return d
        if how == "special":
            if ty is None: continue
            x = special(ty, r)
            if x is None: continue
            put(n, x); return d
        if how == "length" and n["t"] == "arr":
            a = n["av"]; w = r.random()
            if w < .4 and a: del a[r.choice((-1, r.randrange(len(a))))]
            elif w < .5: del a[:]
            elif a: a.insert(r.choice((len(a), r.randrange(len(a)))), copy.deepcopy(r.choice(a)))
            else: a.append(copy.deepcopy(r.choice(WRONG)))
            return d
        if how == "length" and n["t"] == "obj" and n["ov"]: del n["ov"][r.randrange(len(n["ov"]))]; return d
        if how == "member" and n["t"] == "obj":
            ov = n["ov"]; w = r.random()
            if w < .3 and ov: del ov[r.randrange(len(ov))]
            elif w < .5 and ov:
                e = r.choice(ov); k = bytes(e["k"]); e["k"] = r.choice([k + b"x", k + b"\x00", k[:-1].decode("utf-8", "ignore").encode(), b"", k.swapcase() if k.isascii() else b"Q", k + k, b"\x00" + k])
            elif w < .75: ov.insert(r.randrange(len(ov) + 1), {"k": r.choice([b"unknown", b"", b"\x00", b"a", b"x", b"value", b"zz"]), "n": copy.deepcopy(r.choice(WRONG))})
            elif ov and not has_ref(d): r.shuffle(ov)
            return d
    put(nodes[0][0], r.choice(WRONG)); return d

def has_ref(n):
    if n["t"] == "arr": return any(has_ref(x) for x in n["av"])
    if n["t"] == "obj": return any(bytes(e["k"]) == b"$ref" or has_ref(e["n"]) for e in n["ov"])
    return False

def refs(n, path=b""):
    """(node holding the $ref string, path) of back-references, and all paths of the document."""
    R = []; P = [path]
    esc = lambda b: b.replace(b"~", b"~0").replace(b"/", b"~1")
    if n["t"] == "arr":
        for i, x in enumerate(n["av"]):
            a, b = refs(x, path + b"/%d" % i); R += a; P += b
    elif n["t"] == "obj":
        for e in n["ov"]:
            if bytes(e["k"]) == b"$ref": R.append((e["n"], n, path))
            a, b = refs(e["n"], path + b"/" + esc(bytes(e["k"]))); R += a; P += b
    return R, P

def ends(n, path=b""):
    """Places just past the last element of each array."""
    out = [path + b"/%d" % len(n["av"])] if n["t"] == "arr" else []
    esc = lambda b: b.replace(b"~", b"~0").replace(b"/", b"~1")
    for k, x in enumerate(n.get("av", [])): out += ends(x, path + b"/%d" % k)
    for e in n.get("ov", []): out += ends(e["n"], path + b"/" + esc(bytes(e["k"])))
    return out or [b"/0"]

def mutate_ref(t, doc, r):
    """Changes a back-reference, or turns an element into one."""
    d = copy.deepcopy(doc)
    R, P = refs(d)
    if R and r.random() < .8:
        s, holder, path = r.choice(R)
        old = bytes(s.get("sv", b""))
        w = r.random()
        if w < .4: put(s, st(r.choice(P)))
        elif w < .5: put(s, st(r.choice(ends(d))))
        elif w < .6: put(s, r.choice(WRONG))
        elif w < .9: put(s, st(r.choice([b"", b"/", old + b"/", old + b"/0", old[1:], old[:-1].decode("utf-8", "ignore").encode(), b"/nope", b"//", b"~", b"/~2", b"/~", old.replace(b"/0", b"/00"), old.replace(b"/0", b"/-1"), b"/-", old + b" ", b"/0x0", b"/18446744073709551616", path])))
        else: holder["ov"].append({"k": b"extra", "n": copy.deepcopy(r.choice(WRONG))})
        return d
    cand = [(n, p) for n, ty, p in all_nodes(d, t) if ty is not None and ty.kind == "sptr"]
    if not cand: return mutate_doc(t, doc, r)
    n, p = r.choice(cand)
    put(n, obj((b"$ref", st(r.choice(P)))))
    return d

def distinct_keys(n):
    if n["t"] == "arr": return all(distinct_keys(x) for x in n["av"])
    if n["t"] == "obj":
        ks = [bytes(e["k"]) for e in n["ov"]]
        return len(set(ks)) == len(ks) and all(distinct_keys(e["n"]) for e in n["ov"])
    return True

LOW = re.compile(rb"\\u[dD][c-fC-F]"); HIGH = re.compile(rb"\\u[dD][89abAB]..\\u[dD][c-fC-F]..")
def in_scope(text):
    """Texts about which the specification says nothing are not tried."""
    try: text.decode("utf-8")
    except UnicodeDecodeError: return False
    if text.startswith(b"\xef\xbb\xbf"): return False
    if len(LOW.findall(text)) != len(HIGH.findall(text)): return False
    for m in re.finditer(rb"[-+]?(\d+)(\.\d*)?[eE]([-+]?\d+)", text):
        if int(m.group(3)) > 300 and (abs(int(m.group(3))) > 20000 or not (m.group(1) + (m.group(2) or b"").replace(b".", b"")).strip(b"0")): return False
    n, _, _ = J.read(text)
    return n is None or distinct_keys(n)

def mutate_text(text, r):
    """A change to the text itself, usually making it malformed."""
    b = bytearray(text); w = r.random()
    if w < .25 and b: return bytes(b[:r.randrange(len(b))])
    if w < .45 and b: del b[r.randrange(len(b))]; return bytes(b)
    if w < .65: b.insert(r.randrange(len(b) + 1), r.choice(b"{}[],:\"\\0123456789-+.eEtfn \x00\n/aux")); return bytes(b)
    if w < .75 and b: b[r.randrange(len(b))] = r.choice(b"{}[],:\"\\019-+.eEtfn \x00\x1f/a"); return bytes(b)
    if w < .9: return bytes(b) + r.choice([b"x", b"}", b"]", b",", b"\x00", b"\x00x", b" 1", b"null", b"{}", b"//", b"\x00" + bytes(b), b"\"", b" \x00", b"/**/"])
    return r.choice([b"", b" ", b"\x00", b"nul", b"tru", b"NaN", b"Infinity", b"-", b"+1", b"01", b"1.", b".5", b"1e", b"0x1", b"'a'", b"\"", b"\"\\", b"\"\\u12", b"\"\\q\"", b"\"\x01\"", b"[", b"{", b"[1", b"[1,", b"[1,]", b"{\"a\"", b"{\"a\":", b"{\"a\":1", b"{\"a\":1,", b"{\"a\":1,}", b"{a:1}", b"{1:1}", b"[,]", b"{,}", b"]", b"}", b",", b":", b"1 2", b"[]]", b"{}{}", b"-a", b"--1", b"1-", b"00", b"-01", b"1.e5", b"nulll", b"truee", b"[1}", b"{\"a\"]", b"\xc2\xa01"])
