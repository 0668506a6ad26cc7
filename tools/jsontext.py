"""Strict JSON reader on bytes that keeps token positions, and a renderer of documents to text."""
import struct

class Bad(Exception): pass
WS = b" \t\n\r"
FLT_MAX = struct.unpack(">f", bytes.fromhex("7f7fffff"))[0]

def limbs_m(v):
    m = []
    while v: m.append(v % 10000); v //= 10000
    return m

def number(txt, a, z):
    isint = not any(c in txt for c in ".eE")
    i = False; s = 0; m = []; xf = xd = "in"
    if isint:
        v = int(txt)
        if -2**63 <= v < 2**64:
            i = True; s = 1 if v < 0 else 0; m = limbs_m(abs(v)); d = float(v)
            def rel(bits, exact): return "in" if abs(v) < 2**bits else ("ex" if exact else "no")
            xd = rel(53, int(d) == v)
            try: xf = rel(24, int(to_float(d)) == v)
            except OverflowError: xf = "no"
    if not i:
        try: d = float(txt)
        except OverflowError: raise Bad("range")
        if d in (float("inf"), float("-inf")): raise Bad("range")
    fr = abs(d) <= FLT_MAX
    f = struct.pack(">f", d).hex() if fr else ""
    fd = struct.pack(">d", to_float(d)).hex() if fr else ""
    return {"t": "num", "i": i, "s": s, "m": m, "d": struct.pack(">d", d).hex(), "f": f, "fd": fd, "fr": fr, "xf": xf, "xd": xd, "a": a, "z": z}

def to_float(d): return struct.unpack(">f", struct.pack(">f", d))[0]

class Reader:
    def __init__(self, b): self.b = b; self.p = 0; self.ws = False; self.depth = 0
    def skip(self):
        b = self.b; p = self.p
        while p < len(b) and b[p] in WS: p += 1
        if p != self.p: self.ws = True
        self.p = p
    def doc(self):
        self.skip(); n = self.value(1); self.skip()
        if self.p != len(self.b): raise Bad("trailing")
        return n
    def value(self, depth):
        b = self.b; p = self.p
        if p >= len(b): raise Bad("eof")
        c = b[p]
        if c == 0x7b:
            self.depth = max(self.depth, depth); self.p += 1; ov = []
            self.skip()
            if self.peek() == 0x7d:
                self.p += 1; return {"t": "obj", "ov": ov, "a": p, "z": p + 1, "c": self.p - 1, "cz": self.p}
            while True:
                self.skip(); ka = self.p
                if self.peek() != 0x22: raise Bad("key")
                k = self.string(); kz = self.p
                self.skip()
                if self.peek() != 0x3a: raise Bad("colon")
                self.p += 1; self.skip()
                n = self.value(depth + 1); ov.append({"k": list(k), "n": n, "a": ka, "z": kz})
                self.skip(); c = self.peek()
                self.p += 1
                if c == 0x2c: continue
                if c == 0x7d: return {"t": "obj", "ov": ov, "a": p, "z": p + 1, "c": self.p - 1, "cz": self.p}
                raise Bad("obj")
        if c == 0x5b:
            self.depth = max(self.depth, depth); self.p += 1; av = []
            self.skip()
            if self.peek() == 0x5d:
                self.p += 1; return {"t": "arr", "av": av, "a": p, "z": p + 1, "c": self.p - 1, "cz": self.p}
            while True:
                self.skip(); av.append(self.value(depth + 1))
                self.skip(); c = self.peek(); self.p += 1
                if c == 0x2c: continue
                if c == 0x5d: return {"t": "arr", "av": av, "a": p, "z": p + 1, "c": self.p - 1, "cz": self.p}
                raise Bad("arr")
        if c == 0x22:
            s = self.string(); return {"t": "str", "sv": list(s), "a": p, "z": self.p}
        for w, n in ((b"null", {"t": "null"}), (b"true", {"t": "b", "bv": True}), (b"false", {"t": "b", "bv": False})):
            if b.startswith(w, p):
                self.p += len(w); n["a"] = p; n["z"] = self.p; return n
        return self.num()
    def peek(self): return self.b[self.p] if self.p < len(self.b) else -1
    def num(self):
        b = self.b; p = a = self.p; n = len(b)
        dig = lambda q: q < n and 48 <= b[q] <= 57
        if p < n and b[p] == 0x2d: p += 1
        if not dig(p): raise Bad("num")
        if b[p] == 48: p += 1
        else:
            while dig(p): p += 1
        if p < n and b[p] == 0x2e:
            p += 1
            if not dig(p): raise Bad("frac")
            while dig(p): p += 1
        if p < n and b[p] in b"eE":
            p += 1
            if p < n and b[p] in b"+-": p += 1
            if not dig(p): raise Bad("exp")
            while dig(p): p += 1
        self.p = p
        return number(b[a:p].decode(), a, p)
    def hex4(self):
        h = self.b[self.p:self.p + 4]
        if len(h) < 4 or not all(c in b"0123456789abcdefABCDEF" for c in h): raise Bad("hex")
        self.p += 4; return int(h, 16)
    def string(self):
        b = self.b; out = bytearray(); self.p += 1
        while True:
            if self.p >= len(b): raise Bad("string")
            c = b[self.p]
            if c == 0x22: self.p += 1; return bytes(out)
            if c < 0x20: raise Bad("control")
            if c == 0x5c:
                self.p += 1
                e = self.peek(); self.p += 1
                k = b'"\\/bfnrt'.find(bytes([e])) if e >= 0 else -1
                if k >= 0: out.append(b'"\\/\b\f\n\r\t'[k]); continue
                if e != 0x75: raise Bad("escape")
                u = self.hex4()
                if 0xD800 <= u <= 0xDBFF:
                    if b[self.p:self.p + 2] != b"\\u": raise Bad("surrogate")
                    self.p += 2; w = self.hex4()
                    if not 0xDC00 <= w <= 0xDFFF: raise Bad("surrogate")
                    u = 0x10000 + ((u - 0xD800) << 10) + (w - 0xDC00)
                elif 0xDC00 <= u <= 0xDFFF: raise Bad("surrogate")
                out += chr(u).encode(); continue
            out.append(c); self.p += 1

def read(b):
    """(node, has whitespace, depth) or (None, False, 0) when the text is not JSON."""
    r = Reader(b)
    try: n = r.doc()
    except Bad: return None, False, 0
    return n, r.ws, r.depth

# ---------------------------------------------------------------------------------------------------------------------
def quote(b, rng=None):
    """JSON string literal of the bytes (valid UTF-8); with rng, characters are escaped in various equivalent ways."""
    s = b.decode(); o = ['"']
    for ch in s:
        c = ord(ch)
        if rng is not None and rng.random() < 0.15:
            if c < 0x10000: o.append("\\u%04x" % c if rng.random() < .5 else "\\u%04X" % c)
            else: c -= 0x10000; o.append("\\u%04x\\u%04x" % (0xD800 + (c >> 10), 0xDC00 + (c & 0x3ff)))
            continue
        if ch == '"': o.append('\\"')
        elif ch == "\\": o.append("\\\\")
        elif c < 0x20:
            short = {8: "\\b", 9: "\\t", 10: "\\n", 12: "\\f", 13: "\\r"}.get(c)
            o.append(short if short else "\\u%04x" % c)
        elif ch == "/" and rng is not None and rng.random() < .3: o.append("\\/")
        else: o.append(ch)
    o.append('"')
    return "".join(o).encode()

def unlimb(s, m):
    v = 0
    for x in reversed(m): v = v * 10000 + x
    return -v if s else v

def render(n, rng=None, ws=0.0):
    """Text of a document; a number node may carry its literal in field 'lit'."""
    def sp():
        if rng is None or rng.random() >= ws: return b""
        return bytes(rng.choice(WS) for _ in range(rng.choice((1, 1, 2))))
    t = n["t"]
    if t == "null": return b"null"
    if t == "b": return b"true" if n["bv"] else b"false"
    if t == "str": return quote(bytes(n["sv"]), rng)
    if t == "raw": return n["x"]
    if t == "num":
        if "lit" in n: return n["lit"].encode()
        if n["i"]: return str(unlimb(n["s"], n["m"])).encode()
        r = repr(struct.unpack(">d", bytes.fromhex(n["d"]))[0])
        return r.encode()
    if t == "arr": return b"[" + sp() + b",".join(sp() + render(x, rng, ws) + sp() for x in n["av"]) + b"]"
    if t == "obj": return b"{" + sp() + b",".join(sp() + quote(bytes(e["k"]), rng) + sp() + b":" + sp() + render(e["n"], rng, ws) + sp() for e in n["ov"]) + b"}"
    raise Exception(t)
