"""Seeded random values (AV) and documents for the catalogued types."""
import json, random, struct
from catalog import CAT, INT
import jsontext as J

STR_POOL = [b"", b"a", b"abc", b"\x00", b"a\x00b", b"\"q\\", b"/", b"~", b"~0~1/", b"\n\t\r\b\f", b"\x01\x1f\x7f", "é".encode(), "中文".encode(), "\U0001f600".encode(),
            b"$ref", b"0", b"-1", b"null", b"true", b"x" * 17, b"y" * 300, "\uffff\ue000".encode(), b" lead", b"trail ", b"'", b"#/a", b"%41", b"\\u0041"]
KEYS = [b"", b"a", b"b", b"key", b"\x00", b"k\x00", b"k\x00z", b"a/b", b"m~n", b"~1", b"~01", "ключ".encode(), b"\"", b"\\", b"0", b"1", b"10", b" ", b"long" * 20, b"\n", "\U0001f600".encode()]
DBL = ["0000000000000000", "8000000000000000", "3ff0000000000000", "bff0000000000000", "3fb999999999999a", "7fefffffffffffff", "ffefffffffffffff", "0000000000000001", "0010000000000000",
       "000fffffffffffff", "4340000000000000", "4340000000000001", "433fffffffffffff", "3ff0000000000001", "3fefffffffffffff", "44b52d02c7e14af6", "47efffffe0000000", "c7efffffe0000000", "41dfffffffc00000", "c3e0000000000000", "43f0000000000000",
       "400921fb54442d18", "3e45798ee2308c3a", "0350310000000000", "7e37e43c8800759c", "40c3880000000000", "4059000000000000"]
FLT = ["00000000", "80000000", "3f800000", "bf800000", "3dcccccd", "7f7fffff", "ff7fffff", "00000001", "00800000", "007fffff", "4b800000", "4b7fffff", "3f800001", "40490fdb", "c2c80000", "42c80000"]
NONFIN_D = ["7ff0000000000000", "fff0000000000000", "7ff8000000000000"]
NONFIN_F = ["7f800000", "ff800000", "7fc00000"]

class Gen:
    def __init__(self, seed, nonfinite=0.0, share=0.35, subsec=0.0, big=0.05, nul_keys=True):
        self.r = random.Random(seed); self.nonfinite = nonfinite; self.share = share; self.subsec = subsec; self.big = big
        self.pool = {}; self.nid = 0; self.hit = False

    def value(self, t, depth=6, limit=6000):
        """A value whose written-out form (shared objects repeated) is not too large."""
        while True:
            self.pool = {}; self.nid = 0
            v = self.val(t, depth, False)
            if not (t.shared or t.recursive) or len(json.dumps(v)) <= limit: return v
            depth = max(2, depth - 1); limit += 500

    def string(self):
        r = self.r
        if r.random() < .6: return r.choice(STR_POOL)
        n = r.choice((1, 2, 3, 5, 8, 15, 16, 17, 31, 32, 64))
        return "".join(r.choice(["a", "b", "z", "0", "\"", "\\", "\x00", "\x1f", "é", "中", "\U0001f600", "/", "~", " ", "\n"]) for _ in range(n)).encode()

    def key(self):
        r = self.r
        if r.random() < .7: return r.choice(KEYS)
        return self.string()[:40].decode("utf-8", "ignore").encode()

    def count(self, depth, cheap):
        r = self.r
        if depth <= 0: return 0
        if cheap and r.random() < self.big: return r.choice((10, 11, 12, 16, 17, 33, 64, 100, 130))
        return r.choice((0, 1, 1, 2, 2, 3, 3, 4, 5))

    def ts(self):
        r = self.r
        k = r.random()
        if k < .25: d, s = r.choice([(0, 0), (-1, 86399), (0, 86399), (-106752, 764), (106751, 85636), (11016, 0), (-25509, 5), (-25568, 86399), (24855, 11647), (24855, 11648), (10957, 0), (11015, 86399), (11017, 1), (47540, 3600), (47541, 0)])
        else: d, s = r.randint(-106751, 106750), r.choice((0, 86399, 43200, r.randrange(86400)))
        n = 0
        if self.subsec and r.random() < self.subsec and -106000 < d < 106000: n = r.choice((1, 999999999, 500000000, 123456789))
        return {"t": [d, s, n]}

    def date(self):
        r = self.r
        if self.nonfinite and r.random() < self.nonfinite:
            self.hit = True
            return {"y": r.choice([[-1, 1, 1], [10000, 1, 1], [-32767, 12, 31], [32767, 1, 31], [12345, 6, 7], [-5, 6, 7]])}
        y = r.choice((0, 1, 4, 100, 400, 1600, 1700, 1899, 1900, 1904, 1969, 1970, 1999, 2000, 2001, 2023, 2024, 2100, 2400, 9999, r.randint(0, 9999), r.randint(0, 9999)))
        m = r.randint(1, 12)
        dim = [31, 29 if (y % 4 == 0 and y % 100 != 0) or y % 400 == 0 else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
        return {"y": [y, m, r.choice((1, dim, r.randint(1, dim)))]}

    def integer(self, lo, hi):
        r = self.r; k = r.random()
        if k < .45:
            c = [lo, hi, 0, 1, -1, lo + 1, hi - 1, 9, 10, 99, 100, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, -2**31, -2**31 - 1, 2**53, 2**53 + 1, 2**63 - 1, 2**63, -2**63, 10**9, 10**18, 9999, 10000, 99999999, 100000000]
            c = [x for x in c if lo <= x <= hi]; return r.choice(c)
        bits = r.randint(1, 64); v = r.getrandbits(bits)
        if r.random() < .5: v = -v
        return v if lo <= v <= hi else r.randint(lo, hi)

    def val(self, t, depth, inset):
        r = self.r; k = t.kind
        if k == "null": return 0
        if k == "bool": return r.random() < .5
        if k in ("int", "enumi"): return {"i": str(self.integer(t.lo, t.hi))}
        if k == "float":
            if self.nonfinite and r.random() < self.nonfinite: self.hit = True; return {"f": r.choice(NONFIN_F)}
            while True:
                h = r.choice(FLT) if r.random() < .5 else "%08x" % r.getrandbits(32)
                if (int(h, 16) >> 23) & 0xff != 0xff and not (inset and h == "80000000"): return {"f": h}
        if k == "double":
            if self.nonfinite and r.random() < self.nonfinite: self.hit = True; return {"d": r.choice(NONFIN_D)}
            while True:
                q = r.random()
                if q < .4: h = r.choice(DBL)
                elif q < .6: h = "%016x" % r.getrandbits(64)
                else: h = struct.pack(">d", r.choice((r.uniform(-1000, 1000), r.uniform(-1e30, 1e30), round(r.uniform(-1e6, 1e6), 2), float(r.randint(-10**6, 10**6)), r.random() * 10.0 ** r.randint(-320, 308)))).hex()
                if (int(h, 16) >> 52) & 0x7ff != 0x7ff and not (inset and h == "8000000000000000"): return {"d": h}
        if k == "str":
            s = self.string()
            if t.wo and t.n: s = (s + b"......")[:t.n - 1].decode("utf-8", "ignore").encode(); s = s + b"." * (t.n - 1 - len(s))
            return {"h": s.hex()}
        if k == "bytes":
            n = r.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 17, 31, 32, 33, 48, 64, 100, 255, 256, 257)); return {"h": bytes(r.choice((0, 255, r.randrange(256))) for _ in range(n)).hex()}
        if k == "ts": return self.ts()
        if k == "date": return self.date()
        if k == "enums": return {"e": r.randrange(len(t.names))}
        if k == "vec":
            e = t.kids[0]; return [self.val(e, depth - 1, inset) for _ in range(self.count(depth, not e.kids and not e.members or e.kind == "sptr"))]
        if k == "set":
            e = t.kids[0]; out = {}
            for i in range(self.count(depth, not e.kids)):
                v = self.val(e, depth - 1, True)
                if e.shared: v[0] = {"i": str(i * 7 - 9)}      # distinct and in the order of the set
                out[repr(v)] = v
            return list(out.values())
        if k == "arr": return [self.val(t.kids[0], depth - 1, inset) for _ in range(t.n)]
        if k == "tup": return [self.val(e, depth - 1, inset) for e in t.kids]
        if k in ("map", "umap"):
            e = t.kids[0]; ks = {self.key() for _ in range(self.count(depth, not e.kids and not e.members))}
            if e.kind == "sptr" or any(x.kind == "sptr" for x in [e]): pass
            ks.discard(b"$ref")
            return [[{"h": x.hex()}, self.val(e, depth - 1, inset)] for x in sorted(ks)]
        if k == "uptr": return {"p": 1, "v": self.val(t.kids[0], depth, inset)}
        if k == "sptr":
            e = t.kids[0]; pool = self.pool.setdefault(e.id, [])
            if pool and r.random() < self.share: return r.choice(pool)
            v = self.val(e, depth, inset); self.nid += 1
            p = {"p": self.nid, "v": v}; pool.append(p); return p
        if k == "var":
            i = r.randrange(len(t.kids)); return {"k": i, "v": self.val(t.kids[i], depth, inset)}
        if k == "obj":
            out = []
            for m in t.members:
                if m.mode == "opt": out.append([] if (depth <= 0 or r.random() < .35) else [self.val(m.ty, depth - 1, inset)])
                else: out.append(self.val(m.ty, depth - 1, inset))
            return out
        raise Exception(k)

    # -- documents ---------------------------------------------------------------------------------------------------
    def emit(self, t, v, path=b"", tab=None):
        """Document of a value (used only to obtain texts to read; the specification judges what reading must give)."""
        if tab is None: tab = {}
        k = t.kind
        if k == "null": return {"t": "null"}
        if k == "bool": return {"t": "b", "bv": v}
        if k in ("int", "enumi"): return {"t": "num", "lit": v["i"], "i": True}
        if k == "float": return {"t": "num", "lit": repr(struct.unpack(">f", bytes.fromhex(v["f"]))[0]), "i": False}
        if k == "double": return {"t": "num", "lit": repr(struct.unpack(">d", bytes.fromhex(v["d"]))[0]), "i": False}
        if k == "str": return {"t": "str", "sv": bytes.fromhex(v["h"])}
        if k == "bytes":
            import base64; return {"t": "str", "sv": base64.b64encode(bytes.fromhex(v["h"]))}
        if k == "ts":
            import datetime
            d = datetime.datetime(1970, 1, 1) + datetime.timedelta(days=v["t"][0], seconds=v["t"][1]); return {"t": "str", "sv": d.strftime("%Y-%m-%dT%H:%M:%SZ").zfill(20).encode()}
        if k == "date": return {"t": "str", "sv": b"%04d-%02d-%02d" % tuple(v["y"])}
        if k == "enums": return {"t": "str", "sv": t.names[v["e"]]}
        esc = lambda b: b.replace(b"~", b"~0").replace(b"/", b"~1")
        if k in ("vec", "set", "arr"): return {"t": "arr", "av": [self.emit(t.kids[0], x, path + b"/%d" % i, tab) for i, x in enumerate(v)]}
        if k == "tup": return {"t": "arr", "av": [self.emit(e, x, path + b"/%d" % i, tab) for i, (e, x) in enumerate(zip(t.kids, v))]}
        if k in ("map", "umap"): return {"t": "obj", "ov": [{"k": bytes.fromhex(x[0]["h"]), "n": self.emit(t.kids[0], x[1], path + b"/" + esc(bytes.fromhex(x[0]["h"])), tab)} for x in v]}
        if k == "obj":
            ov = []
            for m, x in zip(t.members, v):
                if m.mode == "opt":
                    if not x: continue
                    x = x[0]
                ov.append({"k": m.name, "n": self.emit(m.ty, x, path + b"/" + esc(m.name), tab)})
            return {"t": "obj", "ov": ov}
        if k == "uptr": return self.emit(t.kids[0], v["v"], path, tab)
        if k == "sptr":
            key = (t.kids[0].id, v["p"])
            if key in tab: return {"t": "obj", "ov": [{"k": b"$ref", "n": {"t": "str", "sv": tab[key]}}]}
            n = self.emit(t.kids[0], v["v"], path, tab); tab[key] = path; return n
        if k == "var": return self.emit(t.kids[v["k"]], v["v"], path, tab)
        raise Exception(k)
