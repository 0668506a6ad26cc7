// Histories of pushes and pops on the stack of handlers, with instrumented objects.
#include <algorithm>
#include <array>
#include <cstdint>
#include <persistence/detail/polymorphic_stack.hpp>
#include <rapidjson/document.h>
#include <iostream>
#include <memory>
#include <vector>

struct Obj;
static std::vector<int> gone;
static std::vector<Obj*> live;
struct Refused {};
struct Obj
{
    int id; int size;
    Obj(int id, int size) : id(id), size(size) {}
    virtual ~Obj() { gone.push_back(id); }
    virtual bool intact() const = 0;
};
template<std::size_t Size, std::size_t Align> struct alignas(Align) Of : Obj
{
    unsigned char pattern[Size - sizeof(Obj)];
    Of(int id, bool refuse) : Obj(id, Size) { for (auto& c : pattern) c = static_cast<unsigned char>(id * 7 + 1); if (refuse) throw Refused(); }
    bool intact() const override { for (auto& c : pattern) if (c != static_cast<unsigned char>(id * 7 + 1)) return false; return size == Size; }
};
template<std::size_t Align> struct alignas(Align) Of<sizeof(Obj), Align> : Obj
{
    Of(int id, bool refuse) : Obj(id, sizeof(Obj)) { if (refuse) throw Refused(); }
    bool intact() const override { return size == sizeof(Obj); }
};

static std::string list(const std::vector<int>& v) { std::string s = "["; for (auto x : v) { if (s.size() > 1) s += ","; s += std::to_string(x); } return s + "]"; }

template<std::size_t Cap, std::size_t Mem> void history(const rapidjson::Value& seq, std::string& out)
{
    using Stack = persistence::detail::PolymorphicStack<Obj, Cap, Mem>;
    auto p = std::make_unique<Stack>(); Stack& st = *p;
    char* base = nullptr; bool inside = true; int next = 1; bool f = true;
    std::vector<const Obj*> live; gone.clear();
    out += "\"cap\":" + std::to_string(Cap) + ",\"mem\":" + std::to_string(Mem) + ",\"steps\":[";
    for (auto& o : seq.GetArray()) {
        int op = o.GetInt(), id = 0; std::string res = "ok"; long addr = 0, size = 0, align = 1; gone.clear();
        try {
            if (op == 0) { if (live.empty()) res = "empty"; else { live.pop_back(); st.pop(); } }
            else {
                Obj* b = nullptr; id = next; bool refuse = op > 100;
                switch (op % 100) {
                    case 1: size = sizeof(Of<16, 8>); align = 8; b = &st.template emplace<Of<16, 8>>(id, refuse); break;
                    case 2: size = sizeof(Of<104, 8>); align = 8; b = &st.template emplace<Of<104, 8>>(id, refuse); break;
                    case 3: size = sizeof(Of<48, 16>); align = 16; b = &st.template emplace<Of<48, 16>>(id, refuse); break;
                    case 4: size = sizeof(Of<24, 8>); align = 8; b = &st.template emplace<Of<24, 8>>(id, refuse); break;
                }
                ++next; live.push_back(b);
                char* a = reinterpret_cast<char*>(b);
                if (!base) { base = a; inside = a >= reinterpret_cast<char*>(p.get()) && a < reinterpret_cast<char*>(p.get() + 1); if (reinterpret_cast<std::uintptr_t>(base) % 16) base -= reinterpret_cast<std::uintptr_t>(base) % 16; }
                addr = inside ? static_cast<long>(a - base) : static_cast<long>(reinterpret_cast<std::uintptr_t>(a) % 16);
            }
        } catch (const Refused&) { res = "thrown"; gone.erase(std::remove(gone.begin(), gone.end(), id), gone.end()); }
        catch (...) { res = op == 0 ? "other" : "exh"; }
        bool intact = true; for (auto* x : live) intact = intact && x->intact();
        int top = live.empty() ? 0 : st.back().id;
        if (!f) out += ","; f = false;
        out += "{\"op\":" + std::to_string(op) + ",\"res\":\"" + res + "\",\"id\":" + std::to_string(id) + ",\"addr\":" + std::to_string(addr) + ",\"size\":" + std::to_string(size) + ",\"align\":" + std::to_string(align)
            + ",\"gone\":" + list(gone) + ",\"top\":" + std::to_string(top) + ",\"intact\":" + (intact ? "true" : "false") + "}";
    }
    gone.clear(); p.reset();
    out += std::string("],\"inside\":") + (inside ? "true" : "false") + ",\"fin\":" + list(gone);
}

int main()
{
    std::cout << "{\"ready\":1}" << std::endl;
    std::string line;
    while (std::getline(std::cin, line)) {
        rapidjson::Document c; c.Parse(line.c_str());
        std::string out = "{\"c\":" + std::to_string(c["c"].GetInt()) + ",";
        switch (c["cfg"].GetInt()) {
            case 0: history<4, 256>(c["seq"], out); break;
            case 1: history<128, 4096>(c["seq"], out); break;
            case 2: history<2, 4096>(c["seq"], out); break;
            case 3: history<64, 512>(c["seq"], out); break;
        }
        std::cout << out << "}\n" << std::flush;
    }
}
