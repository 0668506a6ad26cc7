// Encoder and decoder of byte sequences, with the input placed against inaccessible memory.
#include <persistence/base64.hpp>
#include <rapidjson/document.h>
#include <iostream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>

static std::string unhex(const char* s) { std::string r; for (; *s; s += 2) r.push_back(static_cast<char>(std::stoi(std::string(s, 2), nullptr, 16))); return r; }
static std::string hex(const char* p, std::size_t n) { std::string r; for (std::size_t i = 0; i < n; ++i) { const char* d = "0123456789abcdef"; r += d[(p[i] >> 4) & 15]; r += d[p[i] & 15]; } return r; }

struct Guarded   // a copy of the data that ends (or begins) at an inaccessible page
{
    char* base; std::size_t total; char* data;
    Guarded(const std::string& s, bool at_end)
    {
        std::size_t page = static_cast<std::size_t>(sysconf(_SC_PAGESIZE)), n = (s.size() / page + 1) * page;
        total = n + 2 * page;
        base = static_cast<char*>(mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        mprotect(base + page, n, PROT_READ | PROT_WRITE);
        data = at_end ? base + page + n - s.size() : base + page;
        s.copy(data, s.size());
        mprotect(base + page, n, PROT_READ);    // input is not to be written to
    }
    ~Guarded() { munmap(base, total); }
};

int main()
{
    std::cout << "{\"ready\":1}" << std::endl;
    std::string line;
    while (std::getline(std::cin, line)) {
        rapidjson::Document c; c.Parse(line.c_str());
        std::string x = unhex(c["x"].GetString()), op = c["op"].GetString(), y; bool ok = true, same = true, first = true;
        for (int at_end = 1; at_end >= 0; --at_end)
            for (int dirty = 0; dirty < 2; ++dirty) {
                Guarded g(x, at_end); std::string out; bool r;
                if (op == "enc") {
                    std::string s(dirty ? "previous contents that are longer" : "");
                    r = persistence::base64_encode(persistence::byte_view(reinterpret_cast<const std::byte*>(g.data), x.size()), s); out = s;
                } else {
                    persistence::byte_vector b(dirty ? 50 : 0, std::byte{7});
                    r = persistence::base64_decode(std::string_view(g.data, x.size()), b); if (r) out.assign(reinterpret_cast<const char*>(b.data()), b.size());
                }
                if (first) { ok = r; y = out; first = false; } else if (r != ok || (r && out != y)) same = false;
            }
        std::cout << "{\"c\":" << c["c"].GetInt() << ",\"ok\":" << (ok ? "true" : "false") << ",\"same\":" << (same ? "true" : "false") << ",\"y\":\"" << hex(y.data(), y.size()) << "\"}\n" << std::flush;
    }
}
