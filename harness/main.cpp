// Reads commands as JSON lines on standard input and reports what the library did, one line per command.
#include "pre.hpp"
#include "units.inc"
#include <atomic>
#include <thread>

std::map<int, Ops>& registry() { static std::map<int, Ops> r; return r; }

std::string dom_text(const rapidjson::Document& doc)
{
    rapidjson::StringBuffer b; rapidjson::Writer<rapidjson::StringBuffer> w(b); doc.Accept(w);
    return std::string(b.GetString(), b.GetSize());
}

Outcome attempt_impl(const char* form, void* f, bool (*call)(void*, Outcome&))
{
    Outcome r; r.form = form;
    try { r.ok = call(f, r); }
    catch (const persistence::JsonParseError& e) { r.ok = false; r.ex = "parse"; r.off = static_cast<long>(e.offset); r.msg = e.what(); }
    catch (const persistence::JsonDeserializationError& e) { r.ok = false; r.ex = "deser"; r.path = e.path; r.msg = e.what(); }
    catch (const persistence::JsonSerializationError& e) { r.ok = false; r.ex = "ser"; r.msg = e.what(); }
    catch (const std::exception& e) { r.ok = false; r.ex = "other"; r.path = e.what(); }
    catch (...) { r.ok = false; r.ex = "other"; }
    return r;
}

void Report::str(std::string& s) const
    {
        std::vector<std::string> vals; s += "\"r\":[";
        bool f = true;
        for (auto& r : rs) {
            if (!f) s += ","; f = false;
            s += "{\"f\":\"" + r.form + "\",\"ok\":" + (r.ok ? "true" : "false") + ",\"ex\":\"" + r.ex + "\",\"path\":\"" + hex(r.path) + "\",\"off\":" + std::to_string(r.off);
            if (!r.text.empty()) s += ",\"tx\":\"" + hex(r.text) + "\"";
            if (!r.msg.empty()) s += ",\"msg\":\"" + hex(r.msg) + "\"";
            if (r.has_value) {
                std::size_t k = 0; while (k < vals.size() && vals[k] != r.value) ++k;
                if (k == vals.size()) vals.push_back(r.value);
                s += ",\"v\":" + std::to_string(k);
            }
            s += "}";
        }
        s += "],\"vals\":["; f = true;
        for (auto& v : vals) { if (!f) s += ","; f = false; s += v; }
        s += "]" + extra;
    }

struct Session
{
    std::map<int, std::unique_ptr<Slot>> slots;
    void run(const JV& cmd, std::string& out, bool shared = false)
    {
        out += "{\"c\":" + std::to_string(cmd.HasMember("c") ? cmd["c"].GetInt() : 0) + ",\"t\":" + std::to_string(cmd["t"].GetInt()) + ",";
        std::string op = cmd["op"].GetString();
        auto it = registry().find(cmd["t"].GetInt());
        if (it == registry().end()) { out += "\"missing\":1"; }
        else if (op == "read") it->second.read(cmd, out);
        else if (op == "write") it->second.write(cmd, out);
        else if (op == "schema") it->second.schema(cmd, out);
        else if (op == "slot") { slots[cmd["s"].GetInt()] = it->second.slot(cmd["v"]); out += "\"done\":1"; }
        else if (op == "sset") { slots.at(cmd["s"].GetInt())->set(cmd["v"]); out += "\"done\":1"; }
        else if (op == "swrite") { slots.at(cmd["s"].GetInt())->write(out); }
        else if (op == "conc" && !shared) {
            // every list of commands in a thread of its own, all released at once
            auto th = cmd["th"].GetArray(); std::size_t n = th.Size();
            if (cmd.HasMember("slots")) for (auto& s : cmd["slots"].GetArray()) slots[s["s"].GetInt()] = registry().at(s["t"].GetInt()).slot(s["v"]);
            std::vector<std::string> outs(n); std::vector<std::thread> ts; std::atomic<std::size_t> ready{0};
            for (std::size_t k = 0; k < n; ++k) ts.emplace_back([&, k] {
                ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) {}
                bool f = true;
                for (auto& x : th[static_cast<unsigned>(k)].GetArray()) { if (!f) outs[k] += ","; f = false; run(x, outs[k], true); }
                FromCtx::strings().clear(); FromCtx::keep().clear();
            });
            for (auto& t : ts) t.join();
            out += "\"th\":["; for (std::size_t k = 0; k < n; ++k) { if (k) out += ","; out += "[" + outs[k] + "]"; } out += "]";
        }
        out += "}";
    }
};

int main()
{
    register_all();
    std::cout << "{\"ready\":" << registry().size() << "}" << std::endl;
    std::string line;
    Session session;
    while (std::getline(std::cin, line)) {
        rapidjson::Document cmd; cmd.Parse(line.c_str());
        std::string out;
        session.run(cmd, out);
        std::cout << out << "\n" << std::flush;
        if (session.slots.empty()) { FromCtx::strings().clear(); FromCtx::keep().clear(); }
    }
    return 0;
}
