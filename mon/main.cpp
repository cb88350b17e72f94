// vmon <module> --seed S --from A --to B [--out FILE] [--verbose] [--thorough] [--set k=v]
#include "util.hpp"
#include "xmlio.hpp"
#include <libxml/parser.h>
#include <chrono>
#include <locale>
#include <csignal>
#include <cxxabi.h>
#include <typeinfo>
#include <sys/resource.h>
#include <unistd.h>

namespace vmon {
thread_local Report R;
thread_local std::vector<std::pair<std::string, std::string>>* deferred = nullptr;
CaseCtx C;
std::map<std::string, ModuleFn>& ModuleReg::all() { static std::map<std::string, ModuleFn> m; return m; }

std::string jsonStr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o + "\"";
}
static FILE* out = stdout;
static std::map<std::string, int> perKey;
void violation(const std::string& key, const std::string& detail) {
    if (deferred) { if (deferred->size() < 20) deferred->emplace_back(key, detail); return; }
    R.violations++;
    if (perKey[key]++ < 5) {
        std::string ops;
        size_t n = C.log.size(), from = n > 60 ? n - 60 : 0;
        for (size_t i = from; i < n; ++i) ops += (i > from ? "," : "") + jsonStr(C.log[i]);
        std::fprintf(out, "{\"t\":\"violation\",\"case\":%llu,\"key\":%s,\"detail\":%s,\"ops\":[%s]}\n", (unsigned long long)C.index,
                     jsonStr(key).c_str(), jsonStr(detail.substr(0, 3000)).c_str(), ops.c_str());
        std::fflush(out);
    }
    if (C.verbose) std::fprintf(stderr, "VIOLATION %s : %s\n", key.c_str(), detail.c_str());
}
void fatalViolation(const std::string& key, const std::string& detail) { violation(key, detail); throw StopCase(); }
std::string typeName(const std::exception& e) {
    int st = 0;
    char* d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    std::string r = d ? d : typeid(e).name();
    std::free(d);
    return r;
}
}  // namespace vmon
using namespace vmon;

int main(int argc, char** argv) {
    uint64_t from = 0, to = 1;
    if (argc < 2) { for (auto& m : ModuleReg::all()) std::printf("%s\n", m.first.c_str()); return 0; }
    C.module = argv[1];
    double budget = 0;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        auto nxt = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") C.seed = std::stoull(nxt());
        else if (a == "--from") from = std::stoull(nxt());
        else if (a == "--to") to = std::stoull(nxt());
        else if (a == "--case") { from = std::stoull(nxt()); to = from + 1; }
        else if (a == "--out") { std::string f = nxt(); out = std::fopen(f.c_str(), "a"); if (!out) { std::perror(f.c_str()); return 3; } }
        else if (a == "--budget") budget = std::stod(nxt());
        else if (a == "--verbose") C.verbose = true;
        else if (a == "--thorough") C.thorough = true;
        else if (a == "--set") { std::string kv = nxt(); auto p = kv.find('='); C.params[kv.substr(0, p)] = kv.substr(p + 1); }
    }
    auto it = ModuleReg::all().find(C.module);
    if (it == ModuleReg::all().end()) { std::fprintf(stderr, "unknown module\n"); return 3; }
    loadSerializers();
    xmlInitParser();             // libxml2 asks for it before threads use it
    {
        // the C++ library fills these caches on first use, always with the same values
        const auto& ct = std::use_facet<std::ctype<char>>(std::locale::classic());
        for (int c = 0; c < 256; ++c) { (void)ct.narrow(static_cast<char>(c), '\1'); (void)ct.widen(static_cast<char>(c)); }
    }

    auto t0 = std::chrono::steady_clock::now();
    uint64_t c = from;
    for (; c < to; ++c) {
        double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (budget > 0 && el > budget) break;
        C.index = c;
        C.log.clear();
        std::fprintf(out, "{\"t\":\"begin\",\"case\":%llu}\n", (unsigned long long)c);
        std::fflush(out);
        Rng rng(C.seed * 1000003ull + hashStr(C.module) % 1000000007ull + c * 7919ull);
        alarm(120);
        try {
            it->second(rng);
        } catch (const StopCase&) {
        } catch (const std::exception& e) {
            std::string w = e.what();
            for (char& ch : w) if (ch >= '0' && ch <= '9') ch = 'N';
            violation("unexpected-exception:" + typeName(e) + ":" + w.substr(0, 100), e.what());
        }
        R.count("cases");
    }
    alarm(0);
    std::fprintf(out, "{\"t\":\"end\",\"next\":%llu,\"counts\":{", (unsigned long long)c);
    bool first = true;
    for (auto& k : R.counts) { std::fprintf(out, "%s%s:%llu", first ? "" : ",", jsonStr(k.first).c_str(), (unsigned long long)k.second); first = false; }
    std::fprintf(out, "},\"distinct\":{");
    first = true;
    for (auto& k : R.distinct) {
        std::fprintf(out, "%s%s:[", first ? "" : ",", jsonStr(k.first).c_str()); first = false;
        bool f2 = true;
        for (auto v : k.second) { std::fprintf(out, "%s\"%llx\"", f2 ? "" : ",", (unsigned long long)v); f2 = false; }
        std::fprintf(out, "]");
    }
    std::fprintf(out, "},\"samples\":{");
    first = true;
    for (auto& k : R.samples) {
        std::fprintf(out, "%s%s:[", first ? "" : ",", jsonStr(k.first).c_str()); first = false;
        bool f2 = true;
        for (auto& v : k.second) { std::fprintf(out, "%s%s", f2 ? "" : ",", jsonStr(v).c_str()); f2 = false; }
        std::fprintf(out, "]");
    }
    std::fprintf(out, "}}\n");
    std::fflush(out);
    if (out != stdout) std::fclose(out);
    return R.violations ? 1 : 0;
}
