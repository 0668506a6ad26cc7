"""Catalogue of C++ types exercised against the library.

Deterministic.  Produces (a) the C++ definitions and registrations of the types and
(b) types.json, the description of the same types that the TLA+ specification reads.

Abstract values (AV), the exchange format between harness, generators and specification:
  null 0 | bool true/false | int {"i":"-12"} | float {"f":"8 hex"} | double {"d":"16 hex"}
  string / bytes {"h":"hex"} | timestamp {"t":[days,secs,nanos]} | date {"y":[y,m,d]}
  integer enum {"i":".."} | string enum {"e":k} | sequence / set / tuple / object [...]
  map [[{"h":key},v]..] | pointer {"p":id,"v":..} or {"p":0} | optional [] or [v] | variant {"k":i,"v":..}
"""
import json, random, sys

INT = {  # name -> (cpp, lo, hi)
    "char": ("char", -128, 127), "schar": ("signed char", -128, 127), "uchar": ("unsigned char", 0, 255),
    "short": ("short", -2**15, 2**15-1), "ushort": ("unsigned short", 0, 2**16-1),
    "int": ("int", -2**31, 2**31-1), "uint": ("unsigned int", 0, 2**32-1),
    "long": ("long", -2**63, 2**63-1), "ulong": ("unsigned long", 0, 2**64-1),
    "llong": ("long long", -2**63, 2**63-1), "ullong": ("unsigned long long", 0, 2**64-1),
}

class Ty:
    def __init__(s, kind, cpp, **kw):
        s.kind = kind; s.cpp = cpp; s.kids = kw.pop("kids", [])
        s.n = kw.pop("n", 0); s.lo = kw.pop("lo", 0); s.hi = kw.pop("hi", 0)
        s.names = kw.pop("names", []); s.members = kw.pop("members", [])
        s.family = kw.pop("family", ""); s.wo = kw.pop("wo", False)   # write-only
        s.noschema = kw.pop("noschema", False); s.moveonly = kw.pop("moveonly", False)
        s.desc = kw.pop("desc", None)
        s.id = None
        assert not kw, kw

class Member:
    def __init__(s, name, ty, mode="req", init=None, init_cpp=None, var=None):
        s.name = name if isinstance(name, bytes) else name.encode(); s.ty = ty; s.mode = mode
        s.init = init; s.init_cpp = init_cpp; s.var = var

class Catalog:
    def __init__(self):
        self.types = []; self.by_cpp = {}; self.decls = []; self.reg = []; self.fam = {}
        self.build()

    # -- construction ------------------------------------------------------------------
    def add(self, t):
        if t.cpp in self.by_cpp: return self.by_cpp[t.cpp]
        t.id = len(self.types) + 1
        self.types.append(t); self.by_cpp[t.cpp] = t
        return t

    def register(self, t, family):
        t = self.add(t)
        if t.id not in self.fam:
            self.fam[t.id] = family; self.reg.append(t)
        return t

    def vec(self, e): return self.add(Ty("vec", f"std::vector<{e.cpp}>", kids=[e]))
    def set(self, e): return self.add(Ty("set", f"std::set<{e.cpp}>", kids=[e]))
    def arr(self, e, n): return self.add(Ty("arr", f"std::array<{e.cpp}, {n}>", kids=[e], n=n))
    def map(self, e): return self.add(Ty("map", f"std::map<std::string, {e.cpp}>", kids=[e]))
    def umap(self, e): return self.add(Ty("umap", f"std::unordered_map<std::string, {e.cpp}>", kids=[e]))
    def uptr(self, e): return self.add(Ty("uptr", f"std::unique_ptr<{e.cpp}>", kids=[e]))
    def sptr(self, e): return self.add(Ty("sptr", f"std::shared_ptr<{e.cpp}>", kids=[e]))
    def pair(self, a, b): return self.add(Ty("tup", f"std::pair<{a.cpp}, {b.cpp}>", kids=[a, b]))
    def tup(self, *es): return self.add(Ty("tup", "std::tuple<" + ", ".join(e.cpp for e in es) + ">", kids=list(es)))
    def var(self, *es): return self.add(Ty("var", "std::variant<" + ", ".join(e.cpp for e in es) + ">", kids=list(es)))

    def cls(self, name, members, base=None, private=False, wo=False, noschema=False, after=None):
        """Define a class; base is (Ty, own_members_count) for inheritance: members include the inherited ones first."""
        t = self.add(Ty("obj", name, members=members, wo=wo, noschema=noschema))
        self.decls.append((t, base, private))
        return t

    def fwd(self, name):
        """Forward reference to a class for recursive types."""
        return self.add(Ty("obj", name))

    # -- catalogue ---------------------------------------------------------------------
    def build(self):
        R = self.register
        L = {}
        L["null"] = Ty("null", "std::nullptr_t"); L["bool"] = Ty("bool", "bool")
        for k, (c, lo, hi) in INT.items(): L[k] = Ty("int", c, lo=lo, hi=hi)
        L["float"] = Ty("float", "float"); L["double"] = Ty("double", "double")
        L["string"] = Ty("str", "std::string"); L["bytes"] = Ty("bytes", "persistence::byte_vector")
        L["ts"] = Ty("ts", "persistence::timestamp"); L["date"] = Ty("date", "std::chrono::year_month_day")
        L["ei8"] = Ty("enumi", "EnumI8", lo=-128, hi=127); L["eu16"] = Ty("enumi", "EnumU16", lo=0, hi=2**16-1)
        L["ei32"] = Ty("enumi", "EnumI32", lo=-2**31, hi=2**31-1); L["eu64"] = Ty("enumi", "EnumU64", lo=0, hi=2**64-1)
        L["es"] = Ty("enums", "EnumS", names=[b"alpha", b"beta", b"gamma", b"", b"al", b"\xc3\xa9t\xc3\xa9", b"a b\"c\\"])
        L["eb"] = Ty("enums", "EnumB", names=[b"red", b"green", b"blue", b"redder"])
        self.L = L
        for k in L: L[k] = R(L[k], "leaf")
        I, B, S, D = L["int"], L["bool"], L["string"], L["double"]
        names = list(L)
        # every leaf type in every context, as optional members so that texts and values can focus on one of them
        top = ("int", "string", "double", "bool", "schar", "ulong", "es", "bytes", "ei8")
        for k, l in L.items():
            o = L[names[(names.index(k) + 5) % len(names)]]
            cs = [("vec", self.vec(l)), ("arr", self.arr(l, 2)), ("map", self.map(l)), ("umap", self.umap(l)), ("uptr", self.uptr(l)), ("sptr", self.sptr(l)),
                  ("pair", self.pair(l, o)), ("tup", self.tup(B, l, S))]
            if k != "null": cs.append(("set", self.set(l)))
            R(self.cls(f"Ctx_{k}", [Member(n, t, "opt") for n, t in cs]), "ctx")
            R(self.cls(f"O3_{k}", [Member("first", l), Member("second", l, "opt"), Member("third", l, "def"), Member("zip", I)]), "obj")
            if k in top:
                for n, t in cs:
                    R(t, {"vec": "vec", "set": "set", "arr": "arr", "map": "map", "umap": "map", "uptr": "ptr", "sptr": "ptr", "pair": "tup", "tup": "tup"}[n])
                R(self.cls(f"O1_{k}", [Member("a", l)]), "obj")
                R(self.cls(f"O2_{k}", [Member("a", l), Member("b", l, "opt")]), "obj")

        # fixed-length specials
        for n in (0, 1, 3, 5, 12): R(self.arr(I, n), "arr")
        R(self.arr(S, 3), "arr"); R(self.arr(self.arr(I, 2), 3), "arr"); R(self.arr(self.vec(I), 2), "arr")
        R(self.vec(self.arr(I, 2)), "arr"); R(self.vec(self.arr(S, 1)), "arr"); R(self.map(self.arr(I, 3)), "arr")
        R(self.tup(), "tup"); R(self.tup(I), "tup"); R(self.tup(S), "tup"); R(self.tup(I, S, B, D, L["null"], L["ulong"]), "tup")
        R(self.tup(I, S, B, I, S, B, I, S, B, I, S, B), "tup"); R(self.arr(self.pair(I, S), 11), "tup")
        R(self.vec(self.tup()), "tup"); R(self.vec(self.pair(I, S)), "tup"); R(self.pair(self.pair(I, I), self.pair(S, B)), "tup")
        R(self.tup(self.vec(I), self.arr(I, 2), self.map(I)), "tup"); R(self.set(self.pair(I, S)), "tup"); R(self.set(self.arr(I, 2)), "tup")
        R(self.map(self.pair(S, I)), "tup"); R(self.uptr(self.pair(I, S)), "tup"); R(self.sptr(self.arr(I, 2)), "arr")
        R(self.pair(self.uptr(I), self.uptr(S)), "tup"); R(self.tup(self.uptr(self.vec(I)), self.sptr(S)), "tup")
        R(self.vec(self.tup(I, self.vec(self.tup(S, B)))), "tup"); R(self.arr(self.tup(I, S), 2), "tup"); R(self.umap(self.tup(I, D)), "tup")

        # nested containers
        for t in (self.vec(self.vec(I)), self.vec(self.vec(self.vec(S))), self.vec(self.set(I)), self.set(self.vec(I)), self.set(self.set(S)),
                  self.map(self.map(I)), self.map(self.vec(S)), self.vec(self.map(I)), self.vec(self.umap(S)), self.umap(self.vec(L["ts"])),
                  self.map(self.umap(D)), self.vec(self.vec(B)), self.map(self.set(L["es"])), self.umap(self.umap(B)), self.vec(self.vec(D)),
                  self.vec(self.vec(L["bytes"])), self.map(self.map(self.map(S))), self.vec(self.map(self.vec(L["date"])))):
            R(t, "nest")
        # pointers
        for t in (self.vec(self.uptr(I)), self.vec(self.uptr(S)), self.map(self.uptr(I)), self.umap(self.uptr(S)), self.uptr(self.vec(I)), self.uptr(self.map(S)),
                  self.uptr(self.uptr(I)), self.uptr(self.sptr(S)), self.sptr(self.uptr(I)), self.vec(self.uptr(self.vec(D))), self.vec(self.uptr(B)), self.vec(self.uptr(L["eu16"]))):
            R(t, "ptr")

        # classes
        P = self.cls("Point", [Member("x", I), Member("y", I)])
        P3 = self.cls("Point3", [Member("x", I), Member("y", I), Member("z", D, "opt")])
        R(P, "obj"); R(P3, "obj")
        for t in (self.vec(P), self.map(P), self.umap(P3), self.arr(P, 2), self.pair(P, P3), self.uptr(P), self.sptr(P3), self.vec(self.uptr(P3))):
            R(t, "obj")
        R(self.cls("Inner1", [Member("p", P)]), "obj")
        R(self.cls("Nest2", [Member("p", P), Member("q", P3)]), "obj")
        N3 = self.cls("Nest3", [Member("p", P), Member("q", P3, "opt"), Member("v", self.vec(P)), Member("m", self.map(P3)), Member("t", self.tup(I, P))])
        R(N3, "obj"); R(self.vec(N3), "obj")
        R(self.cls("OptAll", [Member("i", I, "opt"), Member("s", S, "opt"), Member("v", self.vec(I), "opt"), Member("m", self.map(S), "opt"), Member("p", P, "opt"), Member("u", self.uptr(I), "opt"), Member("d", D, "opt")]), "obj")
        R(self.cls("Opt1", [Member("o", P, "opt")]), "obj")
        R(self.cls("Opt2", [Member("o", S, "opt"), Member("r", self.vec(S))]), "obj")
        R(self.cls("DefAll", [Member("i", I, "def", {"i": "42"}, "42"), Member("s", S, "def", {"h": b"dflt".hex()}, '"dflt"'),
                              Member("v", self.vec(I), "def", [{"i": "1"}, {"i": "2"}], "{1, 2}"), Member("b", B, "def", True, "true"),
                              Member("d", D, "def", {"d": "3ff8000000000000"}, "1.5"), Member("m", self.map(I), "def", [[{"h": b"k".hex()}, {"i": "7"}]], '{{"k", 7}}'),
                              Member("o", self.vec(I), "opt")]), "obj")
        R(self.cls("Def1", [Member("n", L["short"], "def", {"i": "-3"}, "-3")]), "obj")
        R(self.cls("Def2", [Member("n", L["ulong"], "def", {"i": "99"}, "99"), Member("s", S)]), "obj")
        R(self.cls("InitReq", [Member("a", I, "req", {"i": "5"}, "5"), Member("b", S, "req", {"h": b"init".hex()}, '"init"'), Member("c", B, "req", True, "true")]), "obj")
        dA, d1, d2 = (self.by_cpp[x] for x in ("DefAll", "Def1", "Def2"))
        R(self.cls("DefHold", [Member("p", self.uptr(dA)), Member("s", self.sptr(d2)), Member("a", self.arr(self.uptr(d1), 2)), Member("t", self.pair(self.sptr(d1), self.uptr(d2))), Member("v", self.vec(self.uptr(d1))), Member("m", self.map(d2)), Member("o", self.sptr(dA), "opt")]), "obj")
        R(self.uptr(dA), "obj"); R(self.sptr(dA), "obj")
        Bs = self.cls("Base", [Member("base", I), Member("bopt", S, "opt")]); R(Bs, "obj")
        Dr = self.cls("Derived", [Member("base", I), Member("bopt", S, "opt"), Member("derived", S), Member("dopt", B, "opt")], base=(Bs, 2)); R(Dr, "obj")
        R(self.cls("Derived2", [Member("base", I), Member("bopt", S, "opt"), Member("derived", S), Member("dopt", B, "opt"), Member("last", D, "def", {"d": "4000000000000000"}, "2.0")], base=(Dr, 4)), "obj")
        R(self.cls("Derived1", [Member("base", I), Member("bopt", S, "opt")], base=(Bs, 2)), "obj")
        Pv = self.cls("Priv", [Member("hidden", I), Member("secret", self.vec(S), "opt"), Member("third", B, "def", True, "true")], private=True); R(Pv, "obj"); R(self.vec(Pv), "obj")
        allm = [Member("m_" + k, l) for k, l in L.items()]
        R(self.cls("AllLeaves", allm), "obj")
        R(self.cls("AllVecs", [Member("v_" + k, self.vec(l)) for k, l in L.items()]), "obj")
        R(self.cls("AllOpts", [Member("o_" + k, l, "opt") for k, l in L.items()]), "obj")
        R(self.cls("Ptrs", [Member("u", self.uptr(I)), Member("s", self.sptr(S)), Member("uo", self.uptr(P)), Member("so", self.sptr(P3)), Member("uv", self.uptr(self.vec(I)), "opt")]), "obj")

        # recursive types
        Tr = self.fwd("Tree"); Tr.members = [Member("v", I), Member("kids", self.vec(Tr))]; self.decls.append((Tr, None, False)); R(Tr, "rec")
        Ls = self.fwd("ListNode"); Ls.members = [Member("v", I), Member("next", self.uptr(Ls), "opt")]; self.decls.append((Ls, None, False)); R(Ls, "rec")
        Dp = self.fwd("Deep"); Dp.members = [Member("k", self.vec(Dp))]; self.decls.append((Dp, None, False)); R(Dp, "rec")
        Dm = self.fwd("DeepMap"); Dm.members = [Member("a", I, "opt"), Member("m", self.map(Dm)), Member("s", S, "opt")]; self.decls.append((Dm, None, False)); R(Dm, "rec")
        Dt = self.fwd("DeepTup"); Dt.members = [Member("t", self.vec(self.pair(I, Dt)))]; self.decls.append((Dt, None, False)); R(Dt, "rec")
        Du = self.fwd("DeepPtr"); Du.members = [Member("n", self.sptr(Du), "opt"), Member("u", self.vec(self.uptr(Du)), "opt"), Member("x", I, "opt")]; self.decls.append((Du, None, False)); R(Du, "rec")
        t = I
        for d in range(1, 13):
            t = self.vec(t)
            if d in (8, 12): R(t, "deep")
        t = S
        for d in range(1, 13):
            t = self.map(t) if d % 2 else self.tup(t, I)
            if d in (6, 12): R(t, "deep")

        # shared pointers
        G = self.fwd("GNode"); G.members = [Member("id", I), Member("kids", self.vec(self.sptr(G))), Member("named", self.map(self.sptr(G)))]; self.decls.append((G, None, False))
        sG = self.sptr(G)
        Lf = self.cls("Leaf", [Member("n", I)]); sL = self.sptr(Lf)
        for t in (sG, self.vec(sG), self.vec(sL), self.map(sL), self.umap(sL), self.arr(sL, 3), self.pair(sL, sL), self.tup(sL, I, sL, S, sL), self.vec(self.pair(I, sL)),
                  self.set(self.pair(I, sL)), self.map(self.set(self.pair(I, sL))), self.map(self.vec(sL)), self.vec(self.map(sL)), self.vec(self.vec(sL)),
                  self.vec(self.sptr(I)), self.vec(self.sptr(S)), self.vec(self.sptr(B)), self.vec(self.sptr(self.vec(I))), self.map(self.sptr(self.map(I))),
                  self.vec(self.sptr(self.uptr(S))), self.vec(self.uptr(sL)), self.vec(self.sptr(D)), self.vec(self.sptr(L["es"])),
                  self.tup(self.sptr(I), self.sptr(S), self.sptr(I), self.sptr(S)), self.vec(self.sptr(L["bytes"])), self.vec(self.sptr(self.pair(I, sL))),
                  self.vec(self.sptr(self.vec(sL)))):
            R(t, "share")
        R(self.vec(self.sptr(P3)), "share")
        R(self.arr(sL, 12), "share"); R(self.tup(sL, I, sL, I, sL, S, sL, B, sL, I, sL, sL), "share")
        R(self.cls("Share2", [Member("a", sL), Member("b", sL)]), "share")
        R(self.cls("Share1", [Member("v", self.vec(sL))]), "share")
        R(self.cls("Share4", [Member("a", sL, "opt"), Member("b", self.map(sL)), Member("c", sG, "opt"), Member("d", self.tup(sL, sG)), Member("e", self.vec(self.sptr(S)), "def")]), "share")
        R(self.cls("ShareN", [Member("a/b", sL), Member("m~n", sL), Member("", sL), Member("0", sL), Member("~1", self.vec(sL)), Member("\u00e9/~", self.map(sL)), Member("$id", sL)]), "share")
        Ot = self.cls("Outer", [Member("first", Lf), Member("z", I)]); self.add(Ot)
        self.alias = self.cls("AliasPair", [Member("o", self.sptr(Ot)), Member("i", sL), Member("o2", self.sptr(Ot)), Member("i2", sL)]); R(self.alias, "share")
        LfB = self.cls("LeafB", [Member("n", I)]); sLB = self.sptr(LfB)
        R(self.tup(sL, sLB, sL, sLB), "share")
        R(self.cls("ShareAB", [Member("a", self.vec(sL)), Member("b", self.vec(sLB)), Member("i", self.vec(self.sptr(I)))]), "share")

        # variants
        V = self.var
        vA = V(I, S); vB = V(B, I, D, S)
        S1 = self.cls("VarA", [Member("a", I)]); S2 = self.cls("VarB", [Member("a", S), Member("b", I, "opt")]); S3 = self.cls("VarC", [Member("a", I), Member("c", I)])
        vs = [vA, vB, V(D, I), V(L["schar"], L["short"], I, L["long"], L["ulong"], D), V(L["uchar"], L["schar"], L["ushort"]), V(self.vec(I), self.vec(S), self.vec(D)),
              V(S1, S2), V(S3, S1, S2), V(I, V(S, B)), V(V(I, B), V(D, S)), V(L["es"], S), V(L["date"], L["ts"], S), V(L["bytes"], S), V(L["null"], S),
              V(self.arr(I, 2), self.arr(I, 3), self.vec(I)), V(self.uptr(I), S), V(self.map(I), self.map(S)), V(self.vec(P), self.vec(P3)), V(self.set(I), self.vec(S)),
              V(self.pair(I, S), self.pair(S, I), self.tup(I, S, B)), V(L["ei8"], L["eu64"], L["eb"]), V(L["float"], S), V(self.uptr(P), self.vec(I), self.map(S)),
              V(self.vec(V(I, S)), self.map(V(I, S)), I), V(self.tup(), self.tup(I), self.tup(I, I)), V(B, L["null"], self.vec(L["null"]))]
        for v in vs: R(v, "var")
        for v in (vA, vB, vs[7], vs[13]): R(self.vec(v), "var"); R(self.map(v), "var")
        R(self.pair(vA, vB), "var"); R(self.arr(vA, 2), "var"); R(self.uptr(vA), "var"); R(self.set(V(I, S)), "var"); R(self.umap(vs[8]), "var")
        R(self.cls("VarObj", [Member("v", vB), Member("o", vA, "opt"), Member("d", vA, "def", {"k": 1, "v": {"h": b"dv".hex()}}, 'std::string("dv")'), Member("x", I)]), "var")
        R(self.cls("VarObj1", [Member("v", vs[6])]), "var")
        vD = self.cls("VarDef", [Member("n", I, "def", {"i": "3"}, "3"), Member("s", S, "def", {"h": b"ini".hex()}, '"ini"'), Member("v", self.vec(I), "opt")])
        R(self.cls("VarDefO", [Member("v", V(vD, I)), Member("o", V(vD, S), "opt"), Member("x", self.uptr(vD), "opt"), Member("w", self.vec(vD), "opt")]), "var")
        R(self.vec(V(I, sL)), "varshare"); R(self.vec(V(sL, sLB)), "varshare"); R(self.vec(V(self.pair(sL, I), self.pair(Lf, S), sL)), "varshare")
        R(self.vec(V(self.vec(sL), self.pair(sL, S), sL, S)), "varshare"); R(self.vec(V(self.map(sL), self.map(self.sptr(S)), sL, self.sptr(S))), "varshare")
        R(self.vec(V(self.pair(sL, I), self.pair(sL, S), sL)), "varshare"); R(self.vec(V(self.pair(self.sptr(I), I), self.pair(self.sptr(I), V(B, self.sptr(I))), self.sptr(I))), "varshare")

        # classes for member lookup
        rng = random.Random(7)
        def lookup(tag, nm):
            assert len(set(nm)) == len(nm)
            R(self.cls("K_" + tag, [Member(n, I, "opt") for n in nm]), "lookup")
        lookup("pow4", ["a", "e", "i", "m"]); lookup("pow4b", ["a", "b", "c", "e"]); lookup("pow8", ["a", "i", "q", "y", "A", "I", "Q", "Y"])
        lookup("pow16", [chr(0x21 + 16 * (k % 5)) + chr(0x31 + 16 * (k // 5)) for k in range(16)])
        lookup("prefix", ["a" * k for k in range(0, 12)]); lookup("suffix", ["x" + "b" * k for k in range(1, 9)])
        lookup("bits", ["abc", "abb", "aba", "abd", "bbc", "cbc", "acc", "Abc"])
        lookup("fnv", ["creamwove", "quists", "a"]); lookup("three", ["id", "di", "idi"]); lookup("five", ["one", "two", "three", "four", "five"])
        lookup("esc", ["q\"q", "b\\s", "n\nl", "t\tb", "u\u00e9", "\u4e2d\u6587", "\U0001f600", "s/l", "t~d", "", " ", "a b", "$x", "0", "00"])
        lookup("case", ["name", "Name", "NAME", "nAme", "naMe", "namE", "names", "nam", "na"])
        lookup("digits", [str(k) for k in range(10, 27)])
        lookup("long3", ["configuration_alpha", "configuration_gamma", "configurations"]); lookup("long4", ["w" * 40 + "1", "w" * 40 + "2", "v" + "w" * 40, "w" * 41])
        for n in (6, 7, 9, 16, 17, 24, 32, 33, 48, 64):
            s = []
            while len(s) < n:
                w = "".join(rng.choice("abcdefghijklmnopqrstuvwxyz_ABCXYZ0189") for _ in range(rng.choice((1, 2, 3, 3, 5, 9, 20))))
                if w not in s and w != "$ref": s.append(w)
            lookup(f"r{n}", s)
        R(self.cls("K_two", [Member("ab", I, "opt"), Member("a", I, "opt")]), "lookup"); R(self.cls("K_one", [Member("key", I, "opt")]), "lookup"); R(self.cls("K_empty", [Member("", I, "opt")]), "lookup")
        R(self.cls("K_esc2", [Member("a/b", I), Member("~", S)]), "lookup"); R(self.cls("K_esc1", [Member("\u00fc\"", I)]), "lookup")
        # paths with special names
        E1 = self.cls("PathN", [Member("a/b", self.vec(I)), Member("m~n", self.map(I)), Member("", P), Member("0", self.tup(I, S)), Member("~1", I), Member("\u00e9", self.set(I)), Member("~0/", I, "opt")]); R(E1, "path")
        R(self.vec(E1), "path"); R(self.map(E1), "path")

        # output-only types
        W = lambda t: R(t, "wonly")
        sv = self.add(Ty("str", "std::string_view", wo=True)); W(sv)
        ca = self.add(Ty("str", "CharArr", wo=True, n=6)); W(ca)
        ca1 = self.add(Ty("str", "CharArr1", wo=True, n=1)); W(ca1)
        rp = lambda e: self.add(Ty("uptr", f"{e.cpp}*", kids=[e], wo=True))
        W(rp(I)); W(rp(S)); W(rp(P)); W(self.vec(rp(I))); W(self.vec(sv)); W(self.vec(rp(P3))); W(self.map(sv)); W(self.map(rp(S)))
        dic = lambda kind, e, u=False: self.add(Ty("umap" if u else "map", f"persistence::{kind}<{e.cpp}>", kids=[e], wo=True, desc="dict"))
        for k, u in (("literal_dict", 0), ("literal_map", 0), ("literal_unordered_map", 1), ("string_dict", 0)):
            W(dic(k, I, u)); W(dic(k, self.vec(S), u)); W(dic(k, P, u))
        W(dic("literal_dict", sL)); W(dic("literal_dict", self.uptr(S))); W(dic("string_dict", sL))
        W(self.cls("WOnly", [Member("sv", sv), Member("rp", rp(P)), Member("ld", dic("literal_dict", I)), Member("osv", sv, "opt"), Member("orp", rp(I), "opt"), Member("olm", dic("literal_map", S), "opt"), Member("ca", ca)], wo=True))
        W(self.cls("WRaw", [Member("a", rp(Lf)), Member("b", rp(Lf)), Member("c", sL), Member("d", sL)], wo=True))
        W(self.pair(sv, rp(I))); W(self.tup(sv, I, rp(D)))
        W(self.vec(rp(sL))); W(self.map(rp(sL))); W(self.pair(rp(sL), rp(sL))); W(self.vec(self.uptr(rp(sL)))); W(self.vec(rp(self.vec(sL))))

        # classes of the same name in different namespaces, of long names that differ only at the end or in the middle, used in every position
        n1 = self.cls("ns_one::Item", [Member("a", I), Member("b", S, "opt")]); n2 = self.cls("ns_two::Item", [Member("a", S), Member("c", self.vec(I))]); n3 = self.cls("ns_two::deep::Item", [Member("a", B, "def", True, "true")])
        R(self.cls("ns_one::Both", [Member("x", n1), Member("y", n2), Member("z", n3, "opt")]), "sch")
        R(self.tup(n1, n2, n3, self.vec(n2)), "sch")
        long_ = "AVeryLongClassNameThatGoesOnAndOnSoThatItsFirstHundredCharactersAreSharedWithItsSiblingsAndOnlyTheEndTellsThemApart"
        l1 = self.cls(long_ + "First", [Member("only_first", I)]); l2 = self.cls(long_ + "Other", [Member("only_second", S), Member("k", self.map(n1), "opt")]); l3 = self.cls(long_ + "Third", [Member("s", D, "opt")])
        R(self.cls("LongOnes", [Member("p", l1), Member("q", l2, "opt"), Member("r", self.vec(l3)), Member("t", self.map(l1), "def")]), "sch")
        R(self.map(self.tup(l1, l2, l3)), "sch")
        m1 = self.cls("Mid1", [Member("l", l1, "opt")]); m2 = self.cls("Mid2", [Member("m", self.arr(m1, 2)), Member("n", self.set(I))]); m3 = self.cls("Mid3", [Member("u", self.uptr(m2)), Member("w", self.sptr(m1), "opt"), Member("v", self.vec(self.map(m2)), "def")])
        R(m3, "sch"); R(self.vec(m3), "sch"); R(self.cls("Mid4", [Member("a", self.pair(m3, self.vec(m1))), Member("b", self.umap(self.uptr(m3)), "opt")]), "sch")
        r1 = self.fwd("RecA"); r2 = self.fwd("RecB")
        r1.members = [Member("b", self.vec(r2)), Member("x", I)]; r2.members = [Member("a", self.uptr(r1), "opt"), Member("m", self.map(r2)), Member("s", self.sptr(r1), "opt")]
        self.decls.append((r1, None, False)); self.decls.append((r2, None, False)); R(r1, "sch"); R(r2, "sch"); R(self.map(r2), "sch")
        vv = V(n1, self.vec(l1), self.map(m1)); R(vv, "sch"); R(self.cls("VarIn", [Member("v", vv), Member("o", V(n2, l3), "opt"), Member("w", self.vec(V(I, m2)))]), "sch")
        R(self.cls("ns_one::Derived", n1.members + [Member("d", l3), Member("e", self.uptr(n2), "opt")], base=(n1, 2)), "sch")

        # seeded random composites
        rng = random.Random(20240501)
        pool = [L[k] for k in names if k not in ("null",)]
        def rnd(d):
            if d == 0: return rng.choice(pool)
            k = rng.choice(["vec", "vec", "map", "umap", "set", "arr", "pair", "tup", "uptr", "sptr", "obj"])
            if k == "set":
                e = rng.choice(pool); return self.set(e)
            if k == "arr":
                e = rnd(d - 1)
                while self.moveonly(e): e = rnd(d - 1)
                return self.arr(e, rng.choice((1, 2, 3)))
            if k == "pair": return self.pair(rnd(d - 1), rnd(max(0, d - 2)))
            if k == "tup": return self.tup(*[rnd(max(0, d - 1 - rng.randrange(2))) for _ in range(rng.choice((1, 2, 3)))])
            if k == "obj":
                nm = rng.sample(["alpha", "beta", "gamma", "delta", "x", "y", "zed", "k1", "k2", "with space"], rng.choice((1, 2, 3, 4, 5)))
                ms = [Member(n, rnd(max(0, d - 1 - rng.randrange(2))), rng.choice(("req", "req", "opt", "def"))) for n in nm]
                return self.cls(f"R_{len(self.types)}", ms)
            if k == "vec":
                e = rnd(d - 1)
                while e.kind == "tup" and e.cpp.startswith("std::pair<std::string,"): e = rnd(d - 1)
                return self.vec(e)
            return getattr(self, k)(rnd(d - 1))
        made = 0
        while made < 32:
            t = rnd(rng.choice((2, 3, 3, 4)))
            if t.id in self.fam: continue
            R(t, "rand"); made += 1

        self.compute_flags()

    # -- derived information -------------------------------------------------------------
    def moveonly(self, t, seen=None):
        seen = seen or set()
        if t.id in seen: return False
        seen.add(t.id)
        if t.kind == "uptr": return not t.wo
        return any(self.moveonly(k, seen) for k in t.kids) or any(self.moveonly(m.ty, seen) for m in t.members)

    def reach(self, t):
        seen = {}
        st = [t]
        while st:
            x = st.pop()
            if x.id in seen: continue
            seen[x.id] = x
            st += x.kids + [m.ty for m in x.members]
        return list(seen.values())

    def compute_flags(self):
        for t in self.types:
            r = self.reach(t)
            t.shared = any(x.kind == "sptr" for x in r)
            t.hasvar = any(x.kind == "var" for x in r)
            t.writeonly = any(x.wo for x in r)
            t.setshared = any(x.kind == "set" and any(y.kind == "sptr" for y in self.reach(x)) for x in r)
            # arrays of move-only elements cannot be deserialized from a DOM (copy assignment)
            t.noderser = any(x.kind == "arr" and self.moveonly(x) for x in r)
            t.can_read = not t.writeonly
            t.can_parse = t.can_read and not t.hasvar
            t.can_deser = t.can_read and not t.noderser
            t.can_schema = t.can_read and t.kind not in ("uptr", "sptr") 
            t.plain = not any(x.kind in ("set", "map", "umap", "sptr") for x in r)
            t.fallible = any(x.kind in ("float", "double", "date") for x in r)
            t.hasts = any(x.kind == "ts" for x in r)
            t.recursive = t.id in [x.id for k in (t.kids + [m.ty for m in t.members]) for x in self.reach(k)]

    def init(self, t, depth=0):
        k = t.kind
        if k == "null": return 0
        if k == "bool": return False
        if k in ("int", "enumi"): return {"i": "0"}
        if k == "float": return {"f": "0" * 8}
        if k == "double": return {"d": "0" * 16}
        if k in ("str", "bytes"): return {"h": ""}
        if k == "ts": return {"t": [0, 0, 0]}
        if k == "date": return {"y": [0, 0, 0]}
        if k == "enums": return {"e": 0}
        if k in ("vec", "set", "map", "umap"): return []
        if k == "arr": return [self.init(t.kids[0]) for _ in range(t.n)]
        if k == "tup": return [self.init(e) for e in t.kids]
        if k in ("uptr", "sptr"): return {"p": 0}
        if k == "var": return {"k": 0, "v": self.init(t.kids[0])}
        if k == "obj": return [self.member_init(m) for m in t.members]
        raise Exception(k)

    def member_init(self, m):
        if m.mode == "opt": return []
        if m.init is not None: return m.init
        return self.init(m.ty)

    # -- output --------------------------------------------------------------------------
    def types_json(self):
        out = []
        for t in self.types:
            out.append({"k": t.kind, "lo": limbs(t.lo), "hi": limbs(t.hi), "e": [x.id for x in t.kids], "n": t.n,
                        "m": [{"nm": list(m.name), "t": m.ty.id, "o": m.mode, "iv": conv(self.member_init(m))} for m in t.members],
                        "nms": [list(x) for x in t.names], "sh": t.shared, "va": t.hasvar, "ps": t.can_parse, "ds": t.can_deser,
                        "sc": t.can_schema, "wo": t.writeonly, "reg": t.id in self.fam, "fam": self.fam.get(t.id, ""), "rec": t.recursive, "pl": t.plain, "pf": t.fallible, "ts": t.hasts, "cpp": t.cpp})
        return out

def limbs(v):
    s = 1 if v < 0 else 0
    v = abs(v); m = []
    while v: m.append(v % 10000); v //= 10000
    return {"s": s, "m": m}

import struct
def conv(av):
    """Exchange AV -> the representation the specification uses."""
    if isinstance(av, list): return [conv(x) for x in av]
    if isinstance(av, bool) or isinstance(av, int): return av
    if isinstance(av, dict):
        if "i" in av: return limbs(int(av["i"]))
        if "h" in av: return list(bytes.fromhex(av["h"]))
        if "d" in av:
            b = int(av["d"], 16); return {"d": av["d"], "f": "", "fin": (b >> 52) & 0x7ff != 0x7ff}
        if "f" in av:
            b = int(av["f"], 16)
            x = struct.unpack(">f", bytes.fromhex(av["f"]))[0]
            fin = (b >> 23) & 0xff != 0xff
            return {"d": struct.pack(">d", x).hex() if fin else "", "f": av["f"], "fin": fin}
        if "t" in av: return {"d": av["t"][0], "s": av["t"][1], "n": av["t"][2]}
        if "y" in av: return {"y": av["y"][0], "m": av["y"][1], "d": av["y"][2]}
        if "e" in av: return av["e"]
        if "p" in av: return [av["p"], conv(av["v"])] if av["p"] else [0, 0]
        if "k" in av: return [av["k"], conv(av["v"])]
    raise Exception(av)

CAT = Catalog()

if __name__ == "__main__":
    c = CAT
    print(len(c.types), len(c.reg))
    from collections import Counter
    print(Counter(c.fam.values()))
