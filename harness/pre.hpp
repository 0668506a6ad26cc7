// Common part of the harness: bridges between abstract values and C++ objects, and the operations of the library.
#pragma once
#define PERSISTENCE_BOOST_DESCRIBE
#include <array>
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <typeindex>
#include <unordered_map>
#include <variant>
#include <vector>
#include <chrono>
#include <boost/describe.hpp>
#include <persistence/persistence.hpp>
#include <persistence/enum_utility.hpp>
#include <persistence/dictionary.hpp>
#include <persistence/schema.hpp>
#include <persistence/schema_utility.hpp>
#include <persistence/utility.hpp>
#include <rapidjson/document.h>
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>

using JV = rapidjson::Value;

// ---------------------------------------------------------------------------------------------------------------------
// enumerations

enum class EnumI8 : signed char {};
enum class EnumU16 : unsigned short {};
enum class EnumI32 : int {};
enum class EnumU64 : unsigned long long {};
enum class EnumS { e0, e1, e2, e3, e4, e5, e6 };
enum class EnumB { red, green, blue, redder };
BOOST_DESCRIBE_ENUM(EnumB, red, green, blue, redder)

namespace persistence
{
    template<>
    struct enum_traits<EnumS>
    {
        inline static auto converter = make_enum_converter<EnumS>({
            make_enum(EnumS::e0, "alpha"), make_enum(EnumS::e1, "beta"), make_enum(EnumS::e2, "gamma"), make_enum(EnumS::e3, ""),
            make_enum(EnumS::e4, "al"), make_enum(EnumS::e5, "\303\251t\303\251"), make_enum(EnumS::e6, "a b\"c\\")
        });
        static std::string_view to_string(EnumS value) { return converter.to_string(value); }
        static bool from_string(const std::string_view& name, EnumS& value) { return converter.from_string(name, value); }
    };
}

// ---------------------------------------------------------------------------------------------------------------------
// output and input helpers

inline void put_hex(std::string& out, const void* data, std::size_t n)
{
    static const char* digits = "0123456789abcdef";
    auto p = static_cast<const unsigned char*>(data);
    for (std::size_t i = 0; i < n; ++i) { out.push_back(digits[p[i] >> 4]); out.push_back(digits[p[i] & 15]); }
}
inline std::string hex(const std::string& s) { std::string o; put_hex(o, s.data(), s.size()); return o; }
inline std::string unhex(const char* s, std::size_t n)
{
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    std::string o; o.reserve(n / 2);
    for (std::size_t i = 0; i + 1 < n; i += 2) o.push_back(static_cast<char>(v(s[i]) * 16 + v(s[i + 1])));
    return o;
}
inline std::string unhex(const JV& j) { return unhex(j.GetString(), j.GetStringLength()); }

struct FromCtx
{
    using Id = std::pair<int, std::type_index>;
    std::map<Id, std::shared_ptr<void>> shared;       // identity -> object
    std::map<Id, std::weak_ptr<void>> rest;           // between updates nothing but the object itself holds what it points to
    void release() { for (auto& [k, v] : shared) rest[k] = v; shared.clear(); alias.clear(); }
    void resume() { for (auto& [k, v] : rest) if (auto p = v.lock()) shared[k] = p; rest.clear(); }
    std::map<int, std::shared_ptr<void>> alias;       // identity of an enclosing object -> its first member, sharing ownership
    std::map<std::pair<int, std::type_index>, void*> raw;
    bool update = false; std::set<Id> updated;       // objects that exist already are given the new value in place
    static std::deque<std::string>& strings() { thread_local std::deque<std::string> s; return s; }
    static std::vector<std::shared_ptr<void>>& keep() { thread_local std::vector<std::shared_ptr<void>> s; return s; }
};
struct ToCtx
{
    std::map<std::pair<const void*, std::type_index>, int> ids;
    int next = 1;
};

template<typename T, typename Enable = void> struct Br;

template<> struct Br<std::nullptr_t>
{
    static void from(const JV&, std::nullptr_t& o, FromCtx&) { o = nullptr; }
    static void to(const std::nullptr_t&, std::string& s, ToCtx&) { s += "0"; }
};
template<> struct Br<bool>
{
    static void from(const JV& j, bool& o, FromCtx&) { o = j.GetBool(); }
    static void to(bool o, std::string& s, ToCtx&) { s += o ? "true" : "false"; }
};
template<typename T> struct Br<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>>
{
    static void from(const JV& j, T& o, FromCtx&)
    {
        const char* p = j["i"].GetString();
        if (*p == '-') o = static_cast<T>(std::strtoll(p, nullptr, 10)); else o = static_cast<T>(std::strtoull(p, nullptr, 10));
    }
    static void to(T o, std::string& s, ToCtx&) { s += "{\"i\":\""; s += std::to_string(o); s += "\"}"; }
};
template<typename T> struct Br<T, std::enable_if_t<std::is_floating_point_v<T>>>
{
    using U = std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t>;
    static void from(const JV& j, T& o, FromCtx&) { U u = static_cast<U>(std::strtoull(j[sizeof(T) == 4 ? "f" : "d"].GetString(), nullptr, 16)); std::memcpy(&o, &u, sizeof(T)); }
    static void to(T o, std::string& s, ToCtx&)
    {
        U u; std::memcpy(&u, &o, sizeof(T)); char b[32];
        std::snprintf(b, sizeof b, sizeof(T) == 4 ? "{\"f\":\"%08llx\"}" : "{\"d\":\"%016llx\"}", static_cast<unsigned long long>(u)); s += b;
    }
};
template<> struct Br<std::string>
{
    static void from(const JV& j, std::string& o, FromCtx&) { o = unhex(j["h"]); }
    static void to(const std::string& o, std::string& s, ToCtx&) { s += "{\"h\":\""; put_hex(s, o.data(), o.size()); s += "\"}"; }
};
template<> struct Br<std::string_view>
{
    static void from(const JV& j, std::string_view& o, FromCtx& c) { c.strings().push_back(unhex(j["h"])); o = c.strings().back(); }
    static void to(const std::string_view& o, std::string& s, ToCtx&) { s += "{\"h\":\""; put_hex(s, o.data(), o.size()); s += "\"}"; }
};
template<std::size_t N> struct Br<char[N]>
{
    static void from(const JV& j, char (&o)[N], FromCtx&) { std::string v = unhex(j["h"]); v.resize(N - 1, '.'); std::memcpy(o, v.data(), N - 1); o[N - 1] = 0; }
    static void to(const char (&o)[N], std::string& s, ToCtx&) { s += "{\"h\":\""; put_hex(s, o, N - 1); s += "\"}"; }
};
template<> struct Br<persistence::byte_vector>
{
    static void from(const JV& j, persistence::byte_vector& o, FromCtx&) { std::string v = unhex(j["h"]); o.clear(); for (char c : v) o.push_back(static_cast<std::byte>(c)); }
    static void to(const persistence::byte_vector& o, std::string& s, ToCtx&) { s += "{\"h\":\""; put_hex(s, o.data(), o.size()); s += "\"}"; }
};
template<> struct Br<persistence::timestamp>
{
    static void from(const JV& j, persistence::timestamp& o, FromCtx&)
    {
        auto& a = j["t"];
        using namespace std::chrono;
        // via the larger of the two units first so that the extreme values of the clock do not overflow
        std::int64_t secs = a[0].GetInt64() * 86400 + a[1].GetInt64(); std::int64_t ns = a[2].GetInt64();
        __int128 total = static_cast<__int128>(secs) * 1000000000 + ns;
        o = persistence::timestamp(nanoseconds(static_cast<std::int64_t>(total)));
    }
    static void to(const persistence::timestamp& o, std::string& s, ToCtx&)
    {
        using namespace std::chrono;
        std::int64_t n = duration_cast<nanoseconds>(o.time_since_epoch()).count();
        std::int64_t sec = n / 1000000000, ns = n % 1000000000; if (ns < 0) { ns += 1000000000; --sec; }
        std::int64_t day = sec / 86400, sod = sec % 86400; if (sod < 0) { sod += 86400; --day; }
        s += "{\"t\":[" + std::to_string(day) + "," + std::to_string(sod) + "," + std::to_string(ns) + "]}";
    }
};
template<> struct Br<std::chrono::year_month_day>
{
    static void from(const JV& j, std::chrono::year_month_day& o, FromCtx&)
    { auto& a = j["y"]; o = std::chrono::year_month_day(std::chrono::year(a[0].GetInt()), std::chrono::month(a[1].GetUint()), std::chrono::day(a[2].GetUint())); }
    static void to(const std::chrono::year_month_day& o, std::string& s, ToCtx&)
    { s += "{\"y\":[" + std::to_string(static_cast<int>(o.year())) + "," + std::to_string(static_cast<unsigned>(o.month())) + "," + std::to_string(static_cast<unsigned>(o.day())) + "]}"; }
};
template<typename T> struct Br<T, std::enable_if_t<std::is_enum_v<T> && !std::is_same_v<T, std::byte>>>
{
    using U = std::underlying_type_t<T>;
    constexpr static bool named = std::is_same_v<T, EnumS> || std::is_same_v<T, EnumB>;
    static void from(const JV& j, T& o, FromCtx& c) { if constexpr (named) { o = static_cast<T>(j["e"].GetInt()); } else { U u; Br<U>::from(j, u, c); o = static_cast<T>(u); } }
    static void to(T o, std::string& s, ToCtx& c) { if constexpr (named) { s += "{\"e\":" + std::to_string(static_cast<long long>(o)) + "}"; } else { Br<U>::to(static_cast<U>(o), s, c); } }
};

template<typename T> struct Br<std::vector<T>>
{
    static void from(const JV& j, std::vector<T>& o, FromCtx& c)
    { o.clear(); for (auto& e : j.GetArray()) { if constexpr (std::is_same_v<T, bool>) { o.push_back(e.GetBool()); } else { o.emplace_back(); Br<T>::from(e, o.back(), c); } } }
    static void to(const std::vector<T>& o, std::string& s, ToCtx& c)
    { s += "["; bool f = true; for (auto&& e : o) { if (!f) s += ","; f = false; if constexpr (std::is_same_v<T, bool>) { s += e ? "true" : "false"; } else { Br<T>::to(e, s, c); } } s += "]"; }
};
template<typename T> struct Br<std::set<T>>
{
    static void from(const JV& j, std::set<T>& o, FromCtx& c) { o.clear(); for (auto& e : j.GetArray()) { T x{}; Br<T>::from(e, x, c); o.insert(std::move(x)); } }
    static void to(const std::set<T>& o, std::string& s, ToCtx& c) { s += "["; bool f = true; for (auto&& e : o) { if (!f) s += ","; f = false; Br<T>::to(e, s, c); } s += "]"; }
};
template<typename T, std::size_t N> struct Br<std::array<T, N>>
{
    static void from(const JV& j, std::array<T, N>& o, FromCtx& c) { for (std::size_t i = 0; i < N; ++i) Br<T>::from(j[static_cast<unsigned>(i)], o[i], c); }
    static void to(const std::array<T, N>& o, std::string& s, ToCtx& c) { s += "["; for (std::size_t i = 0; i < N; ++i) { if (i) s += ","; Br<T>::to(o[i], s, c); } s += "]"; }
};
template<typename M> struct BrMap
{
    using K = typename M::key_type; using T = typename M::mapped_type;
    static void from(const JV& j, M& o, FromCtx& c) { o.clear(); for (auto& e : j.GetArray()) { K k; Br<K>::from(e[0], k, c); Br<T>::from(e[1], o[k], c); } }
    static void to(const M& o, std::string& s, ToCtx& c) { s += "["; bool f = true; for (auto&& [k, v] : o) { if (!f) s += ","; f = false; s += "["; Br<K>::to(k, s, c); s += ","; Br<T>::to(v, s, c); s += "]"; } s += "]"; }
};
template<typename K, typename T> struct Br<std::map<K, T>> : BrMap<std::map<K, T>> {};
template<typename K, typename T> struct Br<std::unordered_map<K, T>> : BrMap<std::unordered_map<K, T>> {};
template<typename T> struct Br<std::optional<T>>
{
    static void from(const JV& j, std::optional<T>& o, FromCtx& c) { if (j.Size() == 0) o = std::nullopt; else Br<T>::from(j[0], o.emplace(), c); }
    static void to(const std::optional<T>& o, std::string& s, ToCtx& c) { s += "["; if (o) Br<T>::to(*o, s, c); s += "]"; }
};
template<typename T> struct Br<std::unique_ptr<T>>
{
    static void from(const JV& j, std::unique_ptr<T>& o, FromCtx& c) { if (j["p"].GetInt() == 0) { o.reset(); } else { o = std::make_unique<T>(); Br<T>::from(j["v"], *o, c); } }
    static void to(const std::unique_ptr<T>& o, std::string& s, ToCtx& c) { if (!o) { s += "{\"p\":0}"; } else { s += "{\"p\":1,\"v\":"; Br<T>::to(*o, s, c); s += "}"; } }
};
template<typename T> struct Br<T*>
{
    static void from(const JV& j, T*& o, FromCtx& c)
    {
        // pointers to a shared pointer to the same object are the same pointer: nothing else holds the object
        int id = j["v"].IsObject() && j["v"].HasMember("p") ? j["v"]["p"].GetInt() : 0;
        auto key = std::make_pair(id, std::type_index(typeid(T)));
        if (id && c.raw.count(key)) { o = static_cast<T*>(c.raw[key]); return; }
        auto p = std::make_shared<T>(); Br<T>::from(j["v"], *p, c); o = p.get(); c.keep().push_back(p);
        if (id) c.raw[key] = o;
    }
    static void to(T* o, std::string& s, ToCtx& c) { s += "{\"p\":1,\"v\":"; Br<T>::to(*o, s, c); s += "}"; }
};
template<typename T> struct FirstMember { static void note(int, const std::shared_ptr<T>&, FromCtx&) {} };
template<typename T> struct Br<std::shared_ptr<T>>
{
    static void from(const JV& j, std::shared_ptr<T>& o, FromCtx& c)
    {
        int id = j["p"].GetInt();
        if (id == 0) { o.reset(); return; }
        FromCtx::Id key{ id, std::type_index(typeid(T)) };
        if (j.HasMember("al")) { o = std::static_pointer_cast<T>(c.alias.at(j["al"].GetInt())); c.shared[key] = o; return; }
        auto it = c.shared.find(key);
        if (it != c.shared.end()) { o = std::static_pointer_cast<T>(it->second); if (c.update && c.updated.insert(key).second) Br<T>::from(j["v"], *o, c); return; }
        o = std::make_shared<T>();
        Br<T>::from(j["v"], *o, c);
        c.shared[key] = o;
        FirstMember<T>::note(id, o, c);
    }
    static void to(const std::shared_ptr<T>& o, std::string& s, ToCtx& c)
    {
        if (!o) { s += "{\"p\":0}"; return; }
        auto [it, ins] = c.ids.try_emplace({ o.get(), std::type_index(typeid(T)) }, c.next);
        if (ins) ++c.next;
        s += "{\"p\":" + std::to_string(it->second) + ",\"v\":"; Br<T>::to(*o, s, c); s += "}";
    }
};
template<typename A, typename B> struct Br<std::pair<A, B>>
{
    static void from(const JV& j, std::pair<A, B>& o, FromCtx& c) { Br<A>::from(j[0], o.first, c); Br<B>::from(j[1], o.second, c); }
    static void to(const std::pair<A, B>& o, std::string& s, ToCtx& c) { s += "["; Br<A>::to(o.first, s, c); s += ","; Br<B>::to(o.second, s, c); s += "]"; }
};
template<typename... Ts> struct Br<std::tuple<Ts...>>
{
    template<std::size_t... I> static void from_(const JV& j, std::tuple<Ts...>& o, FromCtx& c, std::index_sequence<I...>) { (Br<Ts>::from(j[static_cast<unsigned>(I)], std::get<I>(o), c), ...); (void)j; (void)o; (void)c; }
    template<std::size_t... I> static void to_(const std::tuple<Ts...>& o, std::string& s, ToCtx& c, std::index_sequence<I...>) { ((s += I ? "," : "", Br<Ts>::to(std::get<I>(o), s, c)), ...); (void)o; (void)s; (void)c; }
    static void from(const JV& j, std::tuple<Ts...>& o, FromCtx& c) { from_(j, o, c, std::index_sequence_for<Ts...>()); }
    static void to(const std::tuple<Ts...>& o, std::string& s, ToCtx& c) { s += "["; to_(o, s, c, std::index_sequence_for<Ts...>()); s += "]"; }
};
template<typename... Ts> struct Br<std::variant<Ts...>>
{
    template<std::size_t I> static void set(const JV& j, std::variant<Ts...>& o, FromCtx& c)
    { if (static_cast<std::size_t>(j["k"].GetInt()) == I) { auto& x = o.template emplace<I>(); Br<std::remove_reference_t<decltype(x)>>::from(j["v"], x, c); } }
    template<std::size_t... I> static void from_(const JV& j, std::variant<Ts...>& o, FromCtx& c, std::index_sequence<I...>) { (set<I>(j, o, c), ...); }
    static void from(const JV& j, std::variant<Ts...>& o, FromCtx& c) { from_(j, o, c, std::index_sequence_for<Ts...>()); }
    static void to(const std::variant<Ts...>& o, std::string& s, ToCtx& c)
    { s += "{\"k\":" + std::to_string(o.index()) + ",\"v\":"; std::visit([&](auto&& x) { Br<std::remove_cv_t<std::remove_reference_t<decltype(x)>>>::to(x, s, c); }, o); s += "}"; }
};
// dictionaries that are vectors of pairs keyed by a string use the plain vector/pair bridges: [[key, value], ...]

template<typename T> std::string av(const T& o) { std::string s; ToCtx c; Br<T>::to(o, s, c); return s; }

std::string dom_text(const rapidjson::Document& doc);

// ---------------------------------------------------------------------------------------------------------------------
// operations

struct Outcome
{
    std::string form; bool ok = false; std::string ex; std::string path; long off = -1; bool has_value = false; std::string value; std::string text; std::string msg;
};
/** Runs an operation, recording any exception that escapes by its declared type. */
Outcome attempt_impl(const char* form, void* f, bool (*call)(void*, Outcome&));
template<typename F> Outcome attempt(const char* form, F f)
{
    return attempt_impl(form, &f, [](void* p, Outcome& r) { return (*static_cast<F*>(p))(r); });
}

struct Report
{
    std::vector<Outcome> rs; std::vector<std::string> values; std::string extra;
    void str(std::string& s) const;
};

enum { CAN_PARSE = 1, CAN_DESER = 2, CAN_SCHEMA = 4, CAN_WRITE = 8, CAN_SERIALIZE = 16, OWNS = 32 };
#ifndef FEAT   // operations compiled in
#define FEAT 31
#endif

template<typename T> void value_of(Outcome& r, const T& o) { r.has_value = true; r.value = av(o); }

template<typename T, int Flags> void read_text(const std::string& text, Report& rep, const JV* prefill, bool prefill_parse = false)
{
    using namespace persistence;
    const std::string original = text;
    std::string bad;
    (void)prefill;
    if constexpr ((Flags & CAN_PARSE) != 0) {
        rep.rs.push_back(attempt("pt", [&](Outcome& r) { T o = parse<T>(text); value_of(r, o); return true; }));
        if (prefill && prefill_parse) rep.rs.push_back(attempt("fp", [&](Outcome& r) { T o{}; FromCtx c; Br<T>::from(*prefill, o, c); c.shared.clear(); c.alias.clear(); if (!parse(text, o)) return false; value_of(r, o); return true; }));
        rep.rs.push_back(attempt("pb", [&](Outcome& r) { T o{}; if (!parse(text, o)) return false; value_of(r, o); return true; }));
    }
    if constexpr ((Flags & CAN_DESER) != 0) {
        rep.rs.push_back(attempt("dt", [&](Outcome& r) { T o = deserialize<T>(text); value_of(r, o); return true; }));
        rep.rs.push_back(attempt("db", [&](Outcome& r) { T o{}; if (!deserialize(text, o)) return false; value_of(r, o); return true; }));
        rep.rs.push_back(attempt("mt", [&](Outcome& r) { T o = deserialize<T>(std::string(text)); value_of(r, o); return true; }));
        rep.rs.push_back(attempt("mb", [&](Outcome& r) { T o{}; if (!deserialize(std::string(text), o)) return false; value_of(r, o); return true; }));
        if (text.find('\0') == std::string::npos) {  // a document is parsed from NUL-terminated text
            rapidjson::Document doc = string_to_document(text);
            std::string before = doc.HasParseError() ? std::string() : dom_text(doc);
            rep.rs.push_back(attempt("ot", [&](Outcome& r) { T o = deserialize<T>(doc); value_of(r, o); return true; }));
            if (!doc.HasParseError() && dom_text(doc) != before) bad += "ot-doc ";
            rep.rs.push_back(attempt("ob", [&](Outcome& r) { T o{}; if (!deserialize(doc, o)) return false; value_of(r, o); return true; }));
            if (!doc.HasParseError() && dom_text(doc) != before) bad += "ob-doc ";
            std::string copy = text;
            rapidjson::Document mdoc = string_to_document(std::move(copy));
            rep.rs.push_back(attempt("nb", [&](Outcome& r) { T o{}; if (!deserialize(mdoc, o)) return false; value_of(r, o); return true; }));
        }
        if (prefill) {
            rep.rs.push_back(attempt("fb", [&](Outcome& r) { T o{}; FromCtx c; Br<T>::from(*prefill, o, c); c.shared.clear(); c.alias.clear(); if (!deserialize(text, o)) return false; value_of(r, o); return true; }));
        }
    }
    if (text != original) bad += "text ";
    rep.extra += ",\"mod\":\"" + bad + "\"";
}

template<typename T, int Flags> void op_read(const JV& cmd, std::string& out)
{
    Report rep;
    read_text<T, Flags>(unhex(cmd["x"]), rep, cmd.HasMember("pre") ? &cmd["pre"] : nullptr, cmd.HasMember("pp"));
    rep.str(out);
}

template<typename T, int Flags> void write_value(const T& o, Report& rep, bool reads)
{
    using namespace persistence;
    std::string before = av(o), bad;
    std::string text; bool have = false;
    if constexpr ((Flags & CAN_WRITE) != 0) {
        rep.rs.push_back(attempt("wt", [&](Outcome& r) { r.text = text = write_to_string(o); return true; }));
        have = rep.rs.back().ok;
        rep.rs.push_back(attempt("wb", [&](Outcome& r) { std::string s = "untouched"; bool ok = write_to_string(o, s); r.text = s; return ok; }));
        rep.rs.push_back(attempt("ws", [&](Outcome& r) { rapidjson::StringBuffer b; StringWriter sw(b); bool ok = write_to_string(o, sw); if (ok) r.text.assign(b.GetString(), b.GetSize()); return ok; }));
    }
    if constexpr ((Flags & CAN_SERIALIZE) != 0) {
        rapidjson::Document doc;
        Outcome st = attempt("st", [&](Outcome& r) { doc = serialize_to_document(o); r.text = dom_text(doc); return true; });
        rep.rs.push_back(st);
        if (!have && st.ok) { text = st.text; have = true; }
        rep.rs.push_back(attempt("sb", [&](Outcome& r) { rapidjson::Document d; d.Parse("{\"old\":[1,{\"x\":\"a string that is not short\"}]}"); bool ok = serialize_to_document(o, d); if (ok) r.text = dom_text(d); return ok; }));
        if (st.ok) rep.rs.push_back(attempt("ds", [&](Outcome& r) { r.text = document_to_string(doc); return true; }));
        if (st.ok) {
            if constexpr ((Flags & CAN_DESER) != 0) {
                if (reads) rep.rs.push_back(attempt("od", [&](Outcome& r) { T v = deserialize<T>(doc); value_of(r, v); return true; }));
                if (dom_text(doc) != st.text) bad += "doc ";
            }
        }
    }
    if (av(o) != before) bad += "value ";
    if (reads && have) read_text<T, Flags>(text, rep, nullptr);
    rep.extra += ",\"wmod\":\"" + bad + "\",\"in\":" + before;
}

template<typename T> struct Holder { T o{}; };

template<typename T, int Flags> void op_write(const JV& cmd, std::string& out)
{
    Report rep;
    Holder<T> h; FromCtx c;
    Br<T>::from(cmd["v"], h.o, c);
    c.shared.clear(); c.alias.clear();      // only the object itself holds what it points to
    write_value<T, Flags>(h.o, rep, true);
    if constexpr ((Flags & CAN_SERIALIZE) != 0 && (Flags & OWNS) != 0) {
        // the document is used when the value is gone
        rep.rs.push_back(attempt("sd", [&](Outcome& r) {
            rapidjson::Document d; bool ok;
            { auto p = std::make_unique<Holder<T>>(); FromCtx k; Br<T>::from(cmd["v"], p->o, k); k.shared.clear(); k.alias.clear(); ok = persistence::serialize_to_document(p->o, d); }
            if (ok) r.text = dom_text(d);
            return ok;
        }));
    }
    rep.str(out);
}

template<typename T, int Flags> void op_schema(const JV&, std::string& out)
{
    if constexpr ((Flags & CAN_SCHEMA) != 0) {
        Outcome a = attempt("schema", [&](Outcome& r) { r.text = persistence::schema_to_string<T>(); return true; });
        Outcome b = attempt("schemadoc", [&](Outcome& r) { r.text = persistence::schema_document_to_string<T>(); return true; });
        Report rep; rep.rs.push_back(a); rep.rs.push_back(b); rep.str(out);
    } else { out += "\"r\":[],\"vals\":[]"; }
}

/** A type-erased object that keeps its C++ value between commands, for histories and for concurrent use. */
struct Slot
{
    virtual ~Slot() {}
    virtual void write(std::string& out) = 0;
    virtual void set(const JV& v) = 0;
    virtual std::string av() const = 0;
};
template<typename T, int Flags> struct SlotOf : Slot
{
    Holder<T> h; FromCtx c;
    void write(std::string& out) override { Report rep; write_value<T, Flags>(h.o, rep, false); rep.str(out); }
    void set(const JV& v) override { c.resume(); c.update = true; c.updated.clear(); c.raw.clear(); Br<T>::from(v, h.o, c); c.update = false; c.release(); }
    std::string av() const override { return ::av(h.o); }
};
template<typename T, int Flags> std::unique_ptr<Slot> make_slot(const JV& v) { auto s = std::make_unique<SlotOf<T, Flags>>(); Br<T>::from(v, s->h.o, s->c); s->c.release(); return s; }

struct Ops
{
    void (*read)(const JV&, std::string&);
    void (*write)(const JV&, std::string&);
    void (*schema)(const JV&, std::string&);
    std::unique_ptr<Slot> (*slot)(const JV&);
};
std::map<int, Ops>& registry();

template<typename T, int Flags> void reg(int id)
{
    constexpr int F = ((Flags | CAN_WRITE | CAN_SERIALIZE) & FEAT) | (Flags & OWNS);      // OWNS: nothing in it refers to characters elsewhere (string_view, character arrays)
    registry()[id] = Ops{ &op_read<T, F>, &op_write<T, F>, &op_schema<T, F>, &make_slot<T, F> };
}
