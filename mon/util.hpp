// Shared helpers of the monitors: seeded generator, exact formatting, violation reporting, counters.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vmon {

const double NaN = std::numeric_limits<double>::quiet_NaN();
const double Inf = std::numeric_limits<double>::infinity();
using ulong_t = unsigned long;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { u64(); }
    uint64_t u64() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n == 0 ? 0 : u64() % n; }
    long range(long a, long b) { return a + static_cast<long>(below(static_cast<uint64_t>(b - a + 1))); }
    bool chance(int pct) { return below(100) < static_cast<uint64_t>(pct); }
    double unit() { return static_cast<double>(u64() >> 11) * 0x1.0p-53; }
    double real(double a, double b) { return a + (b - a) * unit(); }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <typename T> T& pick(std::vector<T>& v) { return v[below(v.size())]; }
    template <typename T> T of(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};

inline uint64_t hashStr(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h = (h ^ c) * 1099511628211ull; }
    return h;
}

// exact text of a value: two values have the same text iff they are the same value (all NaN are one value)
inline std::string S(double d) {
    if (std::isnan(d)) return "nan";
    char b[64];
    std::snprintf(b, sizeof b, "%a", d);
    if (char* comma = std::strchr(b, ',')) *comma = '.';  // whatever the global locale
    return b;
}
inline std::string S(bool b) { return b ? "true" : "false"; }
inline std::string S(long v) { return std::to_string(v); }
inline std::string S(int v) { return std::to_string(v); }
inline std::string S(unsigned long v) { return std::to_string(v); }
inline std::string S(unsigned int v) { return std::to_string(v); }
inline std::string S(const std::string& s) { return "'" + s + "'"; }
inline std::string S(const char* s) { return "'" + std::string(s) + "'"; }
template <typename E, typename = typename std::enable_if<std::is_enum<E>::value>::type>
std::string S(E e) { return "#" + std::to_string(static_cast<long>(e)); }

std::string jsonStr(const std::string& s);

// results of one worker process
struct Report {
    std::map<std::string, uint64_t> counts;
    std::map<std::string, std::set<uint64_t>> distinct;
    std::map<std::string, std::vector<std::string>> samples;
    uint64_t violations = 0;
    void count(const std::string& k, uint64_t n = 1) { counts[k] += n; }
    void merge(const Report& o) {
        for (auto& k : o.counts) counts[k.first] += k.second;
        for (auto& k : o.distinct) { auto& d = distinct[k.first]; for (auto v : k.second) if (d.size() < 20000) d.insert(v); }
        for (auto& k : o.samples) { auto& s = samples[k.first]; for (auto& v : k.second) if (s.size() < 6) s.push_back(v); }
    }
    void seen(const std::string& k, const std::string& v) {
        auto& d = distinct[k];
        if (d.size() < 20000) d.insert(hashStr(v));
        auto& s = samples[k];
        if (s.size() < 6) s.push_back(v.substr(0, 300));
    }
};
extern thread_local Report R;          // one per thread, merged by the module which started the threads

struct CaseCtx {
    std::string module;
    uint64_t seed = 1, index = 0;
    bool thorough = false, verbose = false;
    std::vector<std::string> log;      // operations executed by this case
    std::map<std::string, std::string> params;
};
extern CaseCtx C;

// a violation observed by a monitor. key: stable identification used against known findings
void violation(const std::string& key, const std::string& detail);
struct StopCase {};                       // thrown to abandon the current case after a violation
[[noreturn]] void fatalViolation(const std::string& key, const std::string& detail);
extern thread_local std::vector<std::pair<std::string, std::string>>* deferred;   // set in the threads of a module: what they found, reported by the module
inline void logOp(const std::string& s) { if (deferred) return; C.log.push_back(s); if (C.verbose) { std::fprintf(stderr, "  op %s\n", s.c_str()); std::fflush(stderr);} }

#define VCHECK(cond, key, detail) do { ::vmon::R.count("checks"); if (!(cond)) { ::vmon::violation(key, detail); } } while (0)

using ModuleFn = void (*)(Rng& rng);
struct ModuleReg {
    static std::map<std::string, ModuleFn>& all();
    ModuleReg(const char* name, ModuleFn f) { if (!all().emplace(name, f).second) { std::fprintf(stderr, "two modules are called %s\n", name); std::abort(); } }
};
#define MODULE(name) static void run_##name(::vmon::Rng& rng); static ::vmon::ModuleReg reg_##name(#name, run_##name); static void run_##name(::vmon::Rng& rng)

std::string typeName(const std::exception& e);

}  // namespace vmon
