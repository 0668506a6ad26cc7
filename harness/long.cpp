// Long sequences of shared objects: which elements are written as back-references, where these point, and which elements share an object when read back.
#include <persistence/persistence.hpp>
#include <persistence/object.hpp>
#include <persistence/utility.hpp>
#include <iostream>
#include <map>
#include <memory>
#include <unordered_map>
#include <vector>
using namespace persistence;
using P = std::shared_ptr<int>;
struct Items
{
    int before = 1; std::vector<P> items; int after = 2;
    template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(before) & MEMBER_VARIABLE(items) & MEMBER_VARIABLE(after); }
};
static std::string key(std::size_t i) { std::string s = std::to_string(i); return "k" + std::string(7 - s.size(), '0') + s; }
static std::string hex(const std::string& s) { std::string o; for (unsigned char c : s) { o += "0123456789abcdef"[c >> 4]; o += "0123456789abcdef"[c & 15]; } return o; }

struct S0 { using type = std::vector<P>; static type make(const std::vector<P>& v, std::size_t) { return v; } static void flat(const type& t, std::vector<P>& v) { v = t; } };
struct S1 { using type = std::map<std::string, P>; static type make(const std::vector<P>& v, std::size_t) { type t; for (std::size_t i = 0; i < v.size(); ++i) t.emplace(key(i), v[i]); return t; }
            static void flat(const type& t, std::vector<P>& v) { for (auto& e : t) v.push_back(e.second); } };
struct S2 { using type = std::vector<std::vector<P>>; static type make(const std::vector<P>& v, std::size_t w) { type t; for (std::size_t i = 0; i < v.size(); ++i) { if (i % w == 0) t.emplace_back(); t.back().push_back(v[i]); } return t; }
            static void flat(const type& t, std::vector<P>& v) { for (auto& e : t) v.insert(v.end(), e.begin(), e.end()); } };
struct S3 { using type = Items; static type make(const std::vector<P>& v, std::size_t) { type t; t.items = v; return t; } static void flat(const type& t, std::vector<P>& v) { v = t.items; } };

static void refs(const rapidjson::Value& j, std::size_t& i, std::string& out)
{
    if (j.IsArray()) { for (auto& x : j.GetArray()) refs(x, i, out); }
    else if (j.IsObject() && j.HasMember("$ref")) { if (out.size() > 1) out += ","; out += "[" + std::to_string(i++) + ",\"" + hex(std::string(j["$ref"].GetString(), j["$ref"].GetStringLength())) + "\"]"; }
    else if (j.IsObject()) { for (auto& m : j.GetObject()) if (!m.name.IsString() || (std::string(m.name.GetString()) != "before" && std::string(m.name.GetString()) != "after")) refs(m.value, i, out); }
    else ++i;
}
static std::string refs(const std::string& text)
{
    rapidjson::Document d; d.Parse(text.c_str()); std::size_t i = 0; std::string out = "["; if (!d.HasParseError()) refs(d, i, out);
    return out + "],\"n\":" + std::to_string(i);
}

template<typename S> void go(const rapidjson::Value& c, std::string& out)
{
    std::size_t n = c["n"].GetUint64(), w = c["w"].GetUint64(); std::vector<P> v(n);
    for (auto& a : c["al"].GetArray()) v[a[0].GetUint64()] = nullptr, v[a[1].GetUint64()] = v[a[1].GetUint64()] ? v[a[1].GetUint64()] : std::make_shared<int>(static_cast<int>(a[1].GetUint64() % 10));
    for (auto& a : c["al"].GetArray()) v[a[0].GetUint64()] = v[a[1].GetUint64()];
    for (std::size_t i = 0; i < n; ++i) if (!v[i]) v[i] = std::make_shared<int>(static_cast<int>(i % 10));
    auto t = S::make(v, w); std::string text = write_to_string(t), dom = document_to_string(serialize_to_document(t));
    out += ",\"w\":{\"r\":" + refs(text) + "},\"s\":{\"r\":" + refs(dom) + "},\"d\":{\"r\":[";
    typename S::type u; std::vector<P> b; bool ok = deserialize(text, u);
    if (ok) S::flat(u, b);
    std::unordered_map<int*, std::size_t> at; bool f = true, eq = b.size() == n;
    for (std::size_t i = 0; i < b.size(); ++i) {
        eq = eq && b[i] && *b[i] == *v[i];
        auto [it, fresh] = at.emplace(b[i].get(), i);
        if (!fresh) { if (!f) out += ","; f = false; out += "[" + std::to_string(i) + "," + std::to_string(it->second) + "]"; }
    }
    out += std::string("],\"ok\":") + (ok && eq ? "true" : "false") + "}";
}

int main()
{
    std::cout << "{\"ready\":1}" << std::endl;
    std::string line;
    while (std::getline(std::cin, line)) {
        rapidjson::Document c; c.Parse(line.c_str());
        std::string out = "{\"c\":" + std::to_string(c["c"].GetInt());
        switch (c["shape"].GetInt()) { case 0: go<S0>(c, out); break; case 1: go<S1>(c, out); break; case 2: go<S2>(c, out); break; case 3: go<S3>(c, out); break; }
        std::cout << out << "}\n" << std::flush;
    }
}
