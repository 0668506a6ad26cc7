// Lookup tables of member names, built for given names and queried with given strings.
#include <array>
#include <cstdint>
#include <string_view>
#include <persistence/detail/perfect_hash.hpp>
#include <rapidjson/document.h>
#include <cstring>
#include <iostream>
#include <memory>
#include <string>
#include <utility>
#include <vector>

// strings end where their memory ends
struct Tight
{
    std::unique_ptr<char[]> p; std::size_t n;
    Tight(const rapidjson::Value& hex) : n(hex.GetStringLength() / 2)
    {
        p.reset(new char[n]); auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
        for (std::size_t i = 0; i < n; ++i) p[i] = static_cast<char>(v(hex.GetString()[2 * i]) * 16 + v(hex.GetString()[2 * i + 1]));
    }
    std::string_view view() const { return { p.get(), n }; }
};

template<std::size_t N> void table(const std::vector<Tight>& names, const std::vector<Tight>& qs, std::string& out)
{
    std::array<std::string_view, N> a; for (std::size_t i = 0; i < N; ++i) a[i] = names[i].view();
    auto t = std::make_unique<persistence::PerfectHash<N>>(a);
    bool f = true;
    for (auto& q : qs) { if (!f) out += ","; f = false; out += std::to_string(t->index(q.view())); }
}

template<std::size_t... N> void pick(std::index_sequence<N...>, const std::vector<Tight>& names, const std::vector<Tight>& qs, std::string& out)
{
    ((names.size() == N + 1 ? table<N + 1>(names, qs, out) : void()), ...);
}

int main()
{
    std::cout << "{\"ready\":1}" << std::endl;
    std::string line;
    while (std::getline(std::cin, line)) {
        rapidjson::Document c; c.Parse(line.c_str());
        std::vector<Tight> names, qs;
        for (auto& x : c["names"].GetArray()) names.emplace_back(x);
        for (auto& x : c["qs"].GetArray()) qs.emplace_back(x);
        std::string out = "{\"c\":" + std::to_string(c["c"].GetInt()) + ",\"k\":[";
        pick(std::make_index_sequence<40>(), names, qs, out);
        if (names.size() == 64) table<64>(names, qs, out);
        if (names.size() == 100) table<100>(names, qs, out);
        std::cout << out << "]}\n" << std::flush;
    }
}
