// Calls made by initializers of static variables, and the same calls made by main: {"k": call, "early": .., "late": ..} per line
#include "pre.hpp"

struct One { int alpha = 0; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(alpha); } };
struct Three { int alpha = 0; std::string beta; std::vector<One> gamma; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(alpha) & MEMBER_VARIABLE(beta) & MEMBER_VARIABLE(gamma); } };
struct Five
{
    Three a; std::optional<double> b; std::map<std::string, std::shared_ptr<One>> c; persistence::timestamp d{}; persistence::byte_vector e; EnumB f = EnumB::red;
    template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(c) & MEMBER_VARIABLE(d) & MEMBER_VARIABLE(e) & MEMBER_VARIABLE(f); }
};
struct Many
{
    int i0 = 0, i1 = 0, i2 = 0, i3 = 0, i4 = 0, i5 = 0, i6 = 0, i7 = 0, i8 = 0; std::variant<int, std::string> v; std::tuple<int, bool> t; std::array<int, 2> arr{}; std::set<int> s;
    template<typename A> constexpr auto persist(A& ar)
    {
        return ar & MEMBER_VARIABLE(i0) & MEMBER_VARIABLE(i1) & MEMBER_VARIABLE(i2) & MEMBER_VARIABLE(i3) & MEMBER_VARIABLE(i4) & MEMBER_VARIABLE(i5) & MEMBER_VARIABLE(i6)
            & MEMBER_VARIABLE(i7) & MEMBER_VARIABLE(i8) & MEMBER_VARIABLE(v) & MEMBER_VARIABLE(t) & MEMBER_VARIABLE(arr) & MEMBER_VARIABLE(s);
    }
};
template<typename T> std::string again(const T& o) { return persistence::write_to_string(o) + "|" + persistence::document_to_string(persistence::serialize_to_document(o)); }
template<typename F> std::string call(F f) { try { return f(); } catch (const std::exception& e) { return std::string("!") + e.what(); } }
const char* five_text() { return "{\"f\":\"redder\",\"e\":\"QUJD\",\"d\":\"2024-02-29T12:00:00Z\",\"c\":{\"x\":{\"alpha\":1}},\"b\":0.1,\"a\":{\"gamma\":[{\"alpha\":2}],\"beta\":\"t\",\"alpha\":-3}}"; }
const char* many_text() { return "{\"s\":[3,1],\"arr\":[1,2],\"t\":[7,true],\"v\":\"str\",\"i8\":8,\"i7\":7,\"i6\":6,\"i5\":5,\"i4\":4,\"i3\":3,\"i2\":2,\"i1\":1,\"i0\":9}"; }
std::vector<std::string> all()
{
    using namespace persistence;
    std::vector<std::string> r;
    r.push_back(call([] { return again(parse<One>("{\"alpha\":1}")); }));
    r.push_back(call([] { return again(parse<Three>("{\"gamma\":[{\"alpha\":4}],\"beta\":\"b\",\"alpha\":5}")); }));
    r.push_back(call([] { return again(parse<Five>(five_text())); }));
    r.push_back(call([] { return again(deserialize<Five>(std::string(five_text()))); }));
    r.push_back(call([] { return again(deserialize<Many>(std::string(many_text()))); }));
    r.push_back(call([] { return again(parse<Three>("{\"delta\":1}")); }));
    r.push_back(call([] { return again(parse<Three>("{\"alph\":1}")); }));
    r.push_back(call([] { return again(deserialize<Three>(std::string("{\"alpha\":\"x\"}"))); }));
    r.push_back(call([] { return again(parse<EnumB>("\"green\"")); }));
    r.push_back(call([] { auto p = std::make_shared<One>(); return again(std::vector<std::shared_ptr<One>>{p, p}); }));
    r.push_back(call([] { return schema_to_string<Three>() + schema_document_to_string<Five>(); }));
    r.push_back(call([] { return again(std::vector<double>{1.5, -0.0}); }));
    return r;
}
extern std::vector<std::string> early;
std::vector<std::string> early = all();
std::string dom_text(const rapidjson::Document&) { return ""; }
std::map<int, Ops>& registry() { static std::map<int, Ops> r; return r; }
int main()
{
    std::cout << "{\"ready\":1}" << std::endl;
    auto late = all(); std::string line; std::size_t k = 0;
    while (std::getline(std::cin, line)) { std::cout << "{\"early\":\"" << hex(early[k]) << "\",\"late\":\"" << hex(late[k]) << "\"}" << std::endl; ++k; }
}
