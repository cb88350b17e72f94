// P25: loggers watch, and change nothing.
#include "story.hpp"
#include <atomic>
#include <iostream>
#include <sched.h>
#include <thread>
#include <powsybl/logging/ConsoleLogger.hpp>
#include <powsybl/logging/ContainerLogger.hpp>
#include <powsybl/logging/LoggerFactory.hpp>
#include <powsybl/logging/NoopLogger.hpp>
#include <powsybl/network/EurostagFactory.hpp>
using namespace vmon;
using namespace powsybl;

namespace {
using logging::Level;
using logging::Logger;
using logging::LoggerFactory;
// counts what it is told, as a logger of an application
struct Counting : Logger {
    int level;
    ulong_t told = 0, length = 0;
    explicit Counting(int l) : level(l) { }
    bool isDebugEnabled() const override { return level <= 1; }
    bool isErrorEnabled() const override { return level <= 4; }
    bool isInfoEnabled() const override { return level <= 2; }
    bool isTraceEnabled() const override { return level <= 0; }
    bool isWarnEnabled() const override { return level <= 3; }
    void log(const Level& l, const std::string& m) override {
        VCHECK(static_cast<int>(l) >= level, "logged-below-level", S(static_cast<int>(l)));
        ++told;
        length += m.size();
        R.seen("messages", m.substr(0, 18));
    }
};
struct Installed {
    std::vector<std::string> names;
    Installed() = default;
    void add(const std::string& n, std::unique_ptr<Logger>&& l) { LoggerFactory::getInstance().addLogger(n, std::move(l)); names.push_back(n); }
    ~Installed() { for (auto& n : names) LoggerFactory::getInstance().removeLogger(n); }
};
std::vector<std::string> tell(uint64_t seed, int steps, std::string& picture) {
    Story s(seed, false);
    std::vector<std::string> said;
    for (int i = 0; i < steps; ++i) s.step();
    picture = s.picture();
    return s.said;
}
}  // namespace

// the same history with and without loggers
MODULE(observers) {
    uint64_t seed = rng.u64();
    int steps = static_cast<int>(rng.range(5, 25));
    std::string p0, p1;
    auto a = tell(seed, steps, p0);
    int level = static_cast<int>(rng.below(10)) < 6 ? 0 : static_cast<int>(rng.below(5));
    std::unique_ptr<Counting> l(new Counting(level));
    Counting* c = l.get();
    Installed in;
    std::string name = rng.of({std::string("powsybl"), std::string("powsybl::iidm")});
    std::vector<std::string> b;
    in.add(name, std::move(l));
    try { b = tell(seed, steps, p1); }
    catch (const StopCase&) { throw; }
    catch (const std::exception& e) { violation("logger-makes-it-fail", std::string(e.what())); return; }
    R.count("messages_logged", c->told);
    std::string d = firstDifference(a, b);
    VCHECK(d.empty(), "answers-differ-with-logger", d);
    VCHECK(p0 == p1, "network-differs-with-logger", "");
    R.seen("cover", "level " + S(level) + " " + S(c->told > 0));
}

// which logger a name designates, and what reaches it
MODULE(loggers) {
    std::string root = "vm" + std::to_string(rng.u64());
    std::map<std::string, Logger*> m;
    Installed in;
    std::vector<std::string> names;
    for (int i = 0; i < 8; ++i) {
        std::string s = root;
        for (long k = rng.range(0, 3); k > 0; --k) s += rng.of({"::a", "::b", "::ab", "::a::b", ":c"});
        names.push_back(s);
    }
    std::map<logging::ContainerLogger*, std::vector<std::pair<Level, std::string>>> told;
    auto& f = LoggerFactory::getInstance();
    for (int k = 0; k < 60; ++k) {
        std::string n = rng.pick(names);
        switch (rng.below(8)) {
            case 0: case 1: {
                if (m.count(n)) break;
                auto l = std::unique_ptr<logging::ContainerLogger>(new logging::ContainerLogger());
                m[n] = l.get();
                told[l.get()];
                in.add(n, std::move(l));
                break;
            }
            case 2:
                if (rng.chance(50)) break;
                f.removeLogger(n);
                if (m.count(n)) { told.erase(static_cast<logging::ContainerLogger*>(m[n])); m.erase(n); }
                break;
            default: {
                Logger* want = nullptr;
                std::string x = n;
                for (;;) {
                    auto it = m.find(x);
                    if (it != m.end()) { want = it->second; break; }
                    size_t pos = x.rfind("::");
                    if (pos == std::string::npos) break;
                    x = x.substr(0, pos);
                }
                Logger& got = LoggerFactory::getLogger(n);
                VCHECK(want != nullptr ? &got == want : dynamic_cast<logging::NoopLogger*>(&got) != nullptr, "logger-of-name", n);
                R.seen("cover", std::string(want ? (x == n ? "own" : "inherited") : "none") + " " + S((ulong_t)(n.size() - x.size())));
                std::string arg = rng.of({std::string("x"), std::string("50%"), std::string("%1%"), std::string("%s"), std::string("\xC3\xA9"), std::string(""), std::string("%")});
                Level lv = static_cast<Level>(rng.below(5));
                std::string text;
                try {
                    if (rng.chance(50)) {
                        text = "m " + arg + " 7";
                        switch (lv) {
                            case Level::TRACE: got.trace("m %1% %2%", arg, 7); break;
                            case Level::DEBUG: got.debug("m %1% %2%", arg, 7); break;
                            case Level::INFO: got.info("m %1% %2%", arg, 7); break;
                            case Level::WARN: got.warn("m %1% %2%", arg, 7); break;
                            default: got.error("m %1% %2%", arg, 7); break;
                        }
                    } else {
                        // a message which is complete is text
                        text = "n " + arg;
                        switch (lv) {
                            case Level::TRACE: got.trace(text); break;
                            case Level::DEBUG: got.debug(text); break;
                            case Level::INFO: got.info(text); break;
                            case Level::WARN: got.warn(text); break;
                            default: got.error(text); break;
                        }
                    }
                } catch (const std::exception& e) { violation("logging-fails", text + " " + e.what()); }
                if (want) told[static_cast<logging::ContainerLogger*>(want)].emplace_back(lv, text);
                break;
            }
        }
        for (auto& t : told) {
            VCHECK(t.first->size() == t.second.size() && static_cast<size_t>(t.first->cend() - t.first->cbegin()) == t.second.size(), "messages-kept", S((ulong_t)t.first->size()) + " for " + S((ulong_t)t.second.size()));
            if (t.second.empty() || t.first->size() != t.second.size()) continue;
            ulong_t i = rng.chance(50) ? t.second.size() - 1 : rng.below(t.second.size());
            auto& x = t.first->getLogMessage(i);
            VCHECK(x.getLevel() == t.second[i].first && x.getMessage() == t.second[i].second, "message-text", x.getMessage() + " for " + t.second[i].second);
            bool thrown = false;
            try { t.first->getLogMessage(t.second.size() + rng.below(3)); } catch (const std::exception&) { thrown = true; }
            VCHECK(thrown, "message-beyond-end", "");
        }
    }
    // the console keeps what its level allows
    int level = static_cast<int>(rng.below(5));
    logging::ConsoleLogger con(static_cast<Level>(level));
    std::ostringstream out;
    std::streambuf* old = std::clog.rdbuf(out.rdbuf());
    con.trace("<T%1%>", 0); con.debug("<D%1%>", 1); con.info("<I%1%>", 2); con.warn("<W%1%>", 3); con.error("<E%1%>", 4);
    std::clog.rdbuf(old);
    const char* marks[] = {"TRACE - <T0>\n", "DEBUG - <D1>\n", "INFO - <I2>\n", "WARN - <W3>\n", "ERROR - <E4>\n"};
    int lines = 0;
    for (char ch : out.str()) lines += ch == '\n' ? 1 : 0;
    VCHECK(lines == 5 - level, "console-lines", S(lines) + " at " + S(level));
    for (int i = 0; i < 5; ++i) VCHECK((out.str().find(marks[i]) != std::string::npos) == (i >= level), "console-level", out.str());
    VCHECK(con.isTraceEnabled() == (level <= 0) && con.isDebugEnabled() == (level <= 1) && con.isInfoEnabled() == (level <= 2) && con.isWarnEnabled() == (level <= 3) && con.isErrorEnabled(), "console-enabled", S(level));
}

// threads asking for loggers, installing and removing their own ones
MODULE(log_threads) {
    int k = static_cast<int>(rng.range(2, 5));
    std::string root = "vt" + std::to_string(rng.u64());
    struct Out { std::vector<std::pair<std::string, std::string>> found; Report report; uint64_t seed = 0; };
    std::vector<Out> outs(static_cast<size_t>(k));
    for (auto& o : outs) o.seed = rng.u64();
    // a logger shared by all the threads, which only counts
    struct Shared : Logger {
        std::atomic<ulong_t> told{0};
        bool isDebugEnabled() const override { return true; }
        bool isErrorEnabled() const override { return true; }
        bool isInfoEnabled() const override { return true; }
        bool isTraceEnabled() const override { return true; }
        bool isWarnEnabled() const override { return true; }
        void log(const Level&, const std::string&) override { ++told; }
    };
    std::unique_ptr<Shared> sh(new Shared);
    Shared* shared = sh.get();
    Installed in;
    in.add(root, std::move(sh));
    std::atomic<ulong_t> sent{0};
    std::atomic<int> gate{0};
    std::vector<std::thread> ts;
    for (size_t i = 0; i < outs.size(); ++i) ts.emplace_back([&, i]() {
        Out& o = outs[i];
        deferred = &o.found;
        Rng r(o.seed);
        ++gate;
        while (gate.load() < k) sched_yield();
        std::string mine = root + "::t" + std::to_string(i);
        logging::ContainerLogger* own = nullptr;
        ulong_t told = 0;
        for (int s = 0; s < 60; ++s) {
            switch (r.below(5)) {
                case 0: if (!own) { std::unique_ptr<logging::ContainerLogger> l(new logging::ContainerLogger()); own = l.get(); told = 0; LoggerFactory::getInstance().addLogger(mine, std::move(l)); } break;
                case 1: if (own && r.chance(40)) { LoggerFactory::getInstance().removeLogger(mine); own = nullptr; } break;
                case 2: { Logger& g = LoggerFactory::getLogger(root + "::none" + std::to_string(r.below(3)) + "::x"); VCHECK(&g == shared, "logger-of-name", "shared"); g.warn("%1%", s); ++sent; break; }
                default: {
                    Logger& g = LoggerFactory::getLogger(mine + (r.chance(50) ? "::deep" : ""));
                    VCHECK(own ? &g == own : &g == shared, "logger-of-name", mine);
                    g.info("message %1% of %2%", s, i);
                    if (own) ++told; else ++sent;
                    if (own) VCHECK(own->size() == told, "messages-kept", mine);
                    break;
                }
            }
            R.count("calls");
            if (r.chance(10)) sched_yield();
        }
        LoggerFactory::getInstance().removeLogger(mine);
        deferred = nullptr;
        o.report.merge(R);
    });
    for (auto& t : ts) t.join();
    for (auto& o : outs) { R.merge(o.report); for (auto& f : o.found) violation(f.first, f.second); }
    VCHECK(shared->told == sent, "messages-kept", S((ulong_t)shared->told) + " for " + S((ulong_t)sent));
    R.seen("cover", "threads " + S(k) + " sent " + S((ulong_t)sent));
}
