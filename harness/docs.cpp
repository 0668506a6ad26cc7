// Conversions between JSON texts and DOM documents.
#include <persistence/utility.hpp>
#include <iostream>
#include <memory>
using namespace persistence;
static std::string hex(const std::string& s) { std::string o; for (unsigned char c : s) { o += "0123456789abcdef"[c >> 4]; o += "0123456789abcdef"[c & 15]; } return o; }
static std::string unhex(const std::string& h) { std::string s; for (std::size_t i = 0; i + 1 < h.size(); i += 2) s += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16)); return s; }

int main()
{
    std::cout << "{\"ready\":1}" << std::endl;
    std::string line;
    while (std::getline(std::cin, line)) {
        rapidjson::Document c; c.Parse(line.c_str());
        const std::string x = unhex(c["x"].GetString());
        std::string out = "{\"c\":" + std::to_string(c["c"].GetInt()); bool same = true;

        // the text is gone by the time the document is used
        auto keep = std::make_unique<std::string>(x);
        rapidjson::Document a = string_to_document(static_cast<const std::string&>(*keep));
        same = same && *keep == x; std::fill(keep->begin(), keep->end(), '#'); keep.reset();
        auto temp = std::make_unique<std::string>(x);
        rapidjson::Document b = string_to_document(std::move(*temp));
        *temp = std::string(x.size(), '#'); temp.reset();

        bool ca = a.HasParseError(), mv = b.HasParseError(); std::string y, ym, z, w;
        if (!ca) {
            rapidjson::Document before; before.CopyFrom(a, before.GetAllocator());
            y = document_to_string(a);
            same = same && before == a && document_to_string(a) == y;
            rapidjson::Document again = string_to_document(y);
            if (!again.HasParseError()) z = document_to_string(again);
            rapidjson::Document moved = std::move(a); w = document_to_string(moved);
        }
        if (!mv) ym = document_to_string(b);
        out += std::string(",\"ca\":") + (ca ? "true" : "false") + ",\"mv\":" + (mv ? "true" : "false") + ",\"same\":" + (same ? "true" : "false");
        out += ",\"y\":\"" + hex(y) + "\",\"ym\":\"" + hex(ym) + "\",\"z\":\"" + hex(z) + "\",\"w\":\"" + hex(w) + "\"}";
        std::cout << out << "\n" << std::flush;
    }
}
