"""Generates the C++ side of the catalogue."""
import os, re
from catalog import CAT, Ty

KEYWORDS = set("int char bool double float long short default new delete this and or not if do for case".split())

def lit(b):
    return '"' + "".join(chr(c) if (48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122 or c == 95) else "\\%03o" % c for c in b) + '"'

def class_decl(t, base, private):
    o = []
    own = t.members; bname = None
    if base: bname = base[0].cpp; own = t.members[base[1]:]
    ns, _, local = t.cpp.rpartition("::")
    if ns: o.append(f"namespace {ns} {{")
    o.append(f"struct {local}" + (f" : {bname}" if bname else "") + " {")
    if private: o.append("private: template<typename, typename> friend struct Br; template<typename T, typename E> friend struct ::persistence::JsonSchema;")
    lines = []
    for i, m in enumerate(t.members):
        n = m.name.decode()
        ident = re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", n) and n not in KEYWORDS
        if base and i < base[1]:
            m.var = [x for x in base[0].members if x.name == m.name][0].var; continue
        m.var = n if ident else f"mv_{i}"
        cpp = m.ty.cpp if m.mode != "opt" else f"std::optional<{m.ty.cpp}>"
        init = m.init_cpp if m.init_cpp is not None else "{}"
        o.append(f"  {cpp} {m.var} = {init};" if m.init_cpp is not None else f"  {cpp} {m.var}{{}};")
        d = "_DEFAULT" if m.mode == "def" else ""
        lines.append(f"MEMBER_VARIABLE{d}({m.var})" if ident else f"NAMED_MEMBER_VARIABLE{d}({lit(m.name)}, {m.var})")
    if private: o.append("public:")
    if lines:
        head = f"this->{bname}::persist(ar)" if bname else "ar"
        o.append("  template<typename Archive> constexpr auto persist(Archive& ar) { return " + head + "".join(" & " + l for l in lines) + "; }")
    o.append("};" + ("}" if ns else ""))
    o.append(f"template<> struct Br<{t.cpp}> {{")
    fr = "".join(f"Br<decltype(o.{m.var})>::from(j[{i}], o.{m.var}, c); " for i, m in enumerate(t.members))
    to = ' s += ","; '.join(f"Br<decltype(o.{m.var})>::to(o.{m.var}, s, c);" for m in t.members)
    o.append(f"  static void from(const JV& j, {t.cpp}& o, FromCtx& c) {{ {fr}}}")
    o.append(f"  static void to(const {t.cpp}& o, std::string& s, ToCtx& c) {{ s += \"[\"; {to} s += \"]\"; }}")
    o.append("};")
    return o

def header(types):
    """Definitions of the classes that the given types need, in an order in which a class follows the classes it holds by value."""
    need = {x.id for t in types for x in CAT.reach(t) if x.kind == "obj"}
    decls = {t.id: (t, b, p) for t, b, p in CAT.decls}
    while True:     # base classes
        more = {decls[i][1][0].id for i in need if decls[i][1]} - need
        if not more: break
        for i in more: need |= {x.id for x in CAT.reach(decls[i][0]) if x.kind == "obj"}
    o = ["using CharArr = char[6]; using CharArr1 = char[1];"]
    order = [d for d in CAT.decls if d[0].id in need]
    for t, base, private in order:
        ns, _, local = t.cpp.rpartition("::")
        o.append(f"namespace {ns} {{ struct {local}; }}" if ns else f"struct {local};")
    done = set()
    def walk(x, owner):
        if x.kind == "obj":
            if x.id != owner and x.id not in done: define(x)
        for k in x.kids: walk(k, owner)
    def define(t):
        if t.id in done: return
        done.add(t.id)
        d = decls[t.id]
        if d[1]: define(d[1][0])
        for m in t.members: walk(m.ty, t.id)
        o.extend(class_decl(*d))
        if t.cpp == "Outer": o.append("template<> struct FirstMember<Outer> { static void note(int id, const std::shared_ptr<Outer>& p, FromCtx& c) { c.alias[id] = std::shared_ptr<Leaf>(p, &p->first); } };")
    for t, b, p in order: define(t)
    return "\n".join(o) + "\n"

def flags(t):
    return (1 if t.can_parse else 0) | (2 if t.can_deser else 0) | (4 if t.can_schema else 0) | (32 if t.can_read else 0)

def units(families=None, ids=None, n=16):
    ts = [t for t in CAT.reg if (families is None or CAT.fam[t.id] in families) and (ids is None or t.id in ids)]
    # cost estimate by number of distinct types reachable
    buckets = [[0, []] for _ in range(n)]
    for t in sorted(ts, key=lambda t: -len(CAT.reach(t))):
        b = min(buckets, key=lambda b: b[0]); b[0] += 3 + min(len(CAT.reach(t)), 30); b[1].append(t)
    out = []
    for i, (_, b) in enumerate(buckets):
        if not b: continue
        s = '#include "pre.hpp"\n' + header(b) + f"void register_unit_{i}() {{\n" + "".join(f"  reg<{t.cpp}, {flags(t)}>({t.id});\n" for t in b) + "}\n"
        out.append((f"unit_{i}", s))
    return out
