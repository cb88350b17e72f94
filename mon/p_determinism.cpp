// P22: the same inputs give the same answers, whatever the memory looks like; histories hold no memory once they are over.
#include "story.hpp"
#include "foreign.hpp"
#include <cstdlib>
#include <fstream>
#include <sanitizer/allocator_interface.h>
#include <sys/wait.h>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VMON_ASAN 1
#endif
#endif
using namespace vmon;

namespace {
__attribute__((noinline)) void dirtyStack(int byte) {
    volatile char b[60000];
    for (size_t i = 0; i < sizeof b; ++i) b[i] = static_cast<char>(byte);
}
std::vector<std::string> tell(uint64_t seed, bool mt, int steps, int byte) {
    dirtyStack(byte);
    Story s(seed, mt);
    for (int i = 0; i < steps; ++i) {
        dirtyStack(byte);
        s.step();
        if (i % 10 == 4) {
            dirtyStack(byte);
            try {
                std::string x = toXml(*s.n);
                iidm::Network m = fromXml(x);
                dirtyStack(byte);
                s.say("read " + S((ulong_t)hashStr(x)) + " " + S((ulong_t)hashStr(toXml(m))));
                std::string t;
                for (auto& kv : dump(m, DS | DV)) t += kv.first + "=" + kv.second + "\n";
                s.say("holds " + S((ulong_t)hashStr(t)));
            } catch (const std::exception& e) { s.say(e.what()); }
        }
        if (i % 10 == 7) {
            // order in which the elements are enumerated and traversed
            std::string t;
            for (iidm::Identifiable& o : s.n->getIdentifiables()) t += o.getId() + ",";
            for (iidm::VoltageLevel& v : s.n->getVoltageLevels()) for (iidm::Connectable& c : v.getConnectables()) t += c.getId() + ";";
            for (iidm::Bus& b : s.n->getBusView().getBuses()) for (iidm::Terminal& x : b.getConnectedTerminals()) t += tname(x) + ";";
            s.say("order " + t);
            struct T : iidm::VoltageLevel::TopologyTraverser {
                std::string s;
                bool traverse(iidm::Terminal& x, bool c) override { s += tname(x) + S(c) + " "; return true; }
                bool traverse(iidm::Switch& sw) override { s += sw.getId() + " "; return !sw.isOpen(); }
            } tr;
            for (iidm::Identifiable& o : s.n->getIdentifiables()) { if (auto* c = dynamic_cast<iidm::Connectable*>(&o)) { for (iidm::Terminal& x : c->getTerminals()) { x.traverse(tr); break; } } if (tr.s.size() > 3000) break; }
            s.say("traverse " + tr.s);
        }
    }
    s.said.push_back(s.picture());
    return s.said;
}
std::string envOf(const char* name) { const char* v = std::getenv(name); return v ? v : ""; }
std::vector<std::string> lines(const std::string& file) {
    std::vector<std::string> v;
    std::ifstream is(file);
    std::string l;
    while (std::getline(is, l)) v.push_back(l);
    return v;
}
}  // namespace

// one or several histories, written to a file
MODULE(history) {
    int k = C.params.count("stories") ? std::stoi(C.params["stories"]) : 1;
    int byte = C.params.count("byte") ? std::stoi(C.params["byte"]) : 0;
    InLocale in(C.params.count("locale") ? std::stoi(C.params["locale"]) : 0);
    std::FILE* f = C.params.count("digest") ? std::fopen(C.params["digest"].c_str(), "w") : nullptr;
    for (int i = 0; i < k; ++i) {
        uint64_t seed = rng.u64();
        bool mt = rng.chance(20);
        int steps = static_cast<int>(rng.range(8, 30));
        // leftovers of other networks
        if (C.params.count("before")) { Rng q(seed + 99); for (int j = static_cast<int>(q.range(1, 3)); j > 0; --j) (void)tell(q.u64(), q.chance(50), 5, byte); }
        auto said = tell(seed, mt, steps, byte);
        if (f) for (auto& s : said) std::fprintf(f, "%s\n", s.c_str());
        R.count("checks", said.size());
        R.seen("cover", S((ulong_t)hashStr(said.back())));
    }
    if (f) std::fclose(f);
}
// the same histories in processes whose memory, time zone and past differ
MODULE(processes) {
    uint64_t seed = rng.u64() % 1000000007ull;
    int k = 6;
    std::vector<std::string> files;
    const char* fills[] = {"0", "255", "170"};
    char exe[4096];
    ssize_t len = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (len <= 0) throw std::runtime_error("no executable");
    exe[len] = 0;
    for (int v = 0; v < 3; ++v) {
        std::string file = fileName() + ".txt";
        files.push_back(file);
        std::string cmd = "TZ=" + std::string(v == 1 ? "Asia/Tokyo" : v == 2 ? "America/New_York" : "UTC") + " ASAN_OPTIONS='" + envOf("ASAN_OPTIONS") + ":max_malloc_fill_size=100000000:malloc_fill_byte=" + fills[v] + ":max_free_fill_size=100000:free_fill_byte=" + fills[2 - v] + (v == 0 ? ":detect_stack_use_after_return=0" : "") + "' '" + exe + "' history --seed " + std::to_string(seed) +
            " --case " + std::to_string(C.index) + " --set stories=" + S(k) + " --set byte=" + fills[v] + " --set digest=" + file + (v == 2 ? " --set before=1" : v == 1 ? " --set locale=" + std::to_string(1 + C.index % 2) : "") + " >/dev/null";
        int rc = std::system(cmd.c_str());
        R.count("processes");
        if (rc != 0) {
            for (auto& f : files) std::remove(f.c_str());
            // what the sanitizer wrote is in the report of this process
            violation("process-failed", "exit status " + S(WIFEXITED(rc) ? WEXITSTATUS(rc) : -1) + " of: " + cmd);
            return;
        }
    }
    std::vector<std::vector<std::string>> t;
    for (auto& f : files) { t.push_back(lines(f)); std::remove(f.c_str()); }
    VCHECK(!t[0].empty(), "nothing-said", "");
    for (size_t v = 1; v < 3; ++v) {
        std::string d = firstDifference(t[0], t[v]);
        std::string what = d.empty() ? "" : d.substr(d.find(' ') + 1, d.find(' ', d.find(' ') + 1) - d.find(' ') - 1);
        for (char& c : what) if (c >= '0' && c <= '9') c = '9';
        VCHECK(d.empty(), "differs-between-processes", "memory filled with " + std::string(fills[0]) + " or " + fills[v] + ": " + d);
        R.count("answers_compared", t[0].size());
    }
    R.count("stories", static_cast<uint64_t>(k));
    R.seen("cover", S((ulong_t)t[0].size()) + " " + S((ulong_t)hashStr(t[0].back())));
}
// memory held after each repetition of a history
MODULE(leaks) {
#ifdef VMON_ASAN
    uint64_t seed = rng.u64();
    bool mt = rng.chance(30);
    int steps = static_cast<int>(rng.range(8, 40));
    std::vector<size_t> held;
    held.reserve(8);
    std::vector<std::pair<std::string, std::string>> found;
    for (int i = 0; i < 5; ++i) {
        Report keep = R;
        R = Report();
        deferred = &found;          // nothing is kept by the monitors
        {
            auto said = tell(seed, mt, steps, 7);
            (void)said;
        }
        deferred = nullptr;
        R = Report();
        if (i > 0) held.push_back(__sanitizer_get_current_allocated_bytes());
        R = keep;
        R.count("repetitions");
        R.count("checks");
    }
    bool grows = true;
    for (size_t i = 1; i < held.size(); ++i) grows = grows && held[i] > held[i - 1];
    std::string d;
    for (auto h : held) d += S((ulong_t)h) + " ";
    VCHECK(!grows, "leak", d);
    R.seen("cover", S((ulong_t)seed));
#endif
}
