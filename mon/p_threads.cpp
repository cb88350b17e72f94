// P03: threads working on their own variants. P24: threads reading the same network, and threads with networks of their own.
#include "story.hpp"
#include <atomic>
#include <sched.h>
#include <thread>
#include <time.h>
using namespace vmon;
using namespace powsybl::iidm;

namespace {
void pause(Rng& r) {
    int k = static_cast<int>(r.below(10));
    if (k < 5) return;
    if (k < 8) { sched_yield(); return; }
    timespec t{0, static_cast<long>(r.below(k == 8 ? 20000 : 300000))};
    nanosleep(&t, nullptr);
}
std::vector<std::pair<std::string, Terminal*>> terminals(Network& n) {
    std::vector<std::pair<std::string, Terminal*>> v;
    for (auto* x : allTerminals(n)) v.emplace_back(tname(*x), x);
    std::sort(v.begin(), v.end());
    return v;
}
std::string text(const DumpMap& d) { std::string s; for (auto& kv : d) s += kv.first + "=" + kv.second + "\n"; return s; }
// what one thread does and hears; the tickets tell how the threads interleaved (relaxed: they order nothing)
class Worker {
public:
    Network& n;
    Rng r, delay;
    std::vector<std::string> said;
    std::vector<std::pair<unsigned, int>> tickets;
    std::vector<std::pair<std::string, std::string>> found;
    Report report;
    int id = 0;
    std::string variant;
    bool pauses = true;
    Worker(Network& net, uint64_t seed) : n(net), r(seed), delay(seed ^ 0x777) { }

    void say(const std::string& s) { said.push_back(s); }
    void query() {
        int k = static_cast<int>(r.below(12));
        std::string s;
        try {
            if (k == 0) { s = text(dump(n, DV)); s = S((ulong_t)s.size()) + " " + S((ulong_t)hashStr(s)); }
            else if (k == 1) { s = text(dump(n, DS)); s = S((ulong_t)s.size()) + " " + S((ulong_t)hashStr(s)); }
            else if (k == 2) { for (Bus& b : n.getBusView().getBuses()) { auto c = b.getConnectedComponent(); auto q = b.getSynchronousComponent(); s += b.getId() + "/" + (c ? S(static_cast<int>(c.get().getNum())) : "-") + (q ? S(static_cast<int>(q.get().getNum())) : "-") + S(b.getP()) + " "; } }
            else if (k == 3) { for (Bus& b : n.getBusBreakerView().getBuses()) s += b.getId() + S(static_cast<int>(b.getConnectedTerminalCount())) + S(b.getV()) + " "; }
            else if (k == 4) { s = toXml(n); s = S((ulong_t)s.size()) + " " + S((ulong_t)hashStr(s)); }
            else if (k == 5) { s = n.getVariantManager().getWorkingVariantId(); }
            else if (k == 6) {
                auto v = terminals(n);
                if (v.empty()) return;
                auto& t = r.pick(v);
                auto b = t.second->getBusView().getBus();
                auto c = t.second->getBusBreakerView().getBus();
                s = t.first + S(t.second->isConnected()) + (b ? b.get().getId() : "-") + (c ? c.get().getId() : "-") + S(t.second->getP());
            } else if (k == 7) {
                auto v = terminals(n);
                if (v.empty()) return;
                struct T : VoltageLevel::TopologyTraverser {
                    std::string s;
                    bool traverse(Terminal& t, bool c) override { s += tname(t) + S(c) + " "; return true; }
                    bool traverse(iidm::Switch& sw) override { return !sw.isOpen(); }
                } tr;
                r.pick(v).second->traverse(tr);
                s = tr.s;
            } else if (k == 8) { for (Identifiable& i : n.getIdentifiables()) { auto f = n.find<Identifiable>(i.getId()); s += S(static_cast<bool>(f) && &f.get() == &i); for (auto& a : i.getAliases()) { auto q = n.find<Identifiable>(a); s += S(static_cast<bool>(q) && &q.get() == &i); } } s = S((ulong_t)hashStr(s)); }
            else if (k == 9) { s = S((ulong_t)n.getGeneratorCount()) + S((ulong_t)n.getLineCount()) + S((ulong_t)n.getSwitchCount()); for (Load& l : n.getLoads()) s += l.getId(); for (Line& l : n.getLines()) s += S(l.isOverloaded()) + S(l.getTerminal1().getI()); }
            else if (k == 10) { for (VoltageLevel& v : n.getVoltageLevels()) for (Bus& b : v.getBusView().getBuses()) { auto m = v.getBusView().getBus(b.getId()); s += b.getId() + S(static_cast<bool>(m)); } }
            else { for (Switch& w : n.getSwitches()) s += w.getId() + S(w.isOpen()); }
        } catch (const std::exception& e) { s = e.what(); }
        say(S(k) + " " + s);
        report.count("queries");
    }
    void change() {
        int k = static_cast<int>(r.below(10));
        std::string s;
        if (k < 6) {
            auto ps = settable(n, "V");
            if (ps.empty()) return;
            std::sort(ps.begin(), ps.end(), [](const Pick& a, const Pick& b) { return pickName(a) < pickName(b); });
            for (int i = static_cast<int>(r.range(1, 12)); i > 0; --i) {
                auto& p = r.pick(ps);
                double v = p.a->gen(r, p.h.p);
                s += pickName(p) + " " + S(v);
                try { p.a->set(p.h.p, v); s += " set "; report.count("writes"); } catch (const std::exception& e) { s += e.what(); }
            }
        } else if (k < 9) {
            auto v = terminals(n);
            if (v.empty()) return;
            auto& t = r.pick(v);
            s = t.first;
            try { s += k == 6 ? S(t.second->connect()) : S(t.second->disconnect()); } catch (const std::exception& e) { s += e.what(); }
            report.count("operated");
        } else {
            n.getVariantManager().setWorkingVariant(variant);
            report.count("selections");
        }
        say(s);
    }
    void go(int steps, bool writes, std::atomic<int>* gate, std::atomic<unsigned>* clock) {
        deferred = &found;
        if (gate) { ++*gate; while (gate->load() < 1000) sched_yield(); }
        try {
            if (!variant.empty()) n.getVariantManager().setWorkingVariant(variant);
            for (int i = 0; i < steps; ++i) {
                if (clock) { tickets.emplace_back(clock->fetch_add(1, std::memory_order_relaxed), id); if (pauses) pause(delay); }
                if (writes && r.chance(55)) change(); else query();
            }
        } catch (const std::exception& e) { say(std::string("exception ") + e.what()); }
        deferred = nullptr;
    }
};
void interleaving(const std::vector<std::unique_ptr<Worker>>& ws) {
    std::vector<std::pair<unsigned, int>> all;
    for (auto& w : ws) all.insert(all.end(), w->tickets.begin(), w->tickets.end());
    std::sort(all.begin(), all.end());
    std::string s;
    for (auto& t : all) s += static_cast<char>('0' + t.second);
    R.seen("cover", s);
    int changes = 0;
    for (size_t i = 1; i < s.size(); ++i) changes += s[i] != s[i - 1];
    R.count("steps_interleaved", static_cast<uint64_t>(changes));
    R.count("steps", s.size());
}
void run(std::vector<std::unique_ptr<Worker>>& ws, int steps, bool writes, const std::function<void()>& meanwhile = nullptr) {
    std::atomic<int> gate(0);
    std::atomic<unsigned> clock(0);
    std::vector<std::thread> ts;
    for (auto& w : ws) {
        Worker* p = w.get();
        ts.emplace_back([p, steps, writes, &gate, &clock]() { p->go(steps, writes, &gate, &clock); p->report.merge(R); });
    }
    while (gate.load() < static_cast<int>(ws.size())) sched_yield();
    gate.store(1000);
    if (meanwhile) meanwhile();
    for (auto& t : ts) t.join();
    interleaving(ws);
    for (auto& w : ws) {
        R.merge(w->report);
        for (auto& f : w->found) violation(f.first, f.second);
    }
}
std::unique_ptr<Network> make(uint64_t seed, int variants, bool& ok) {
    Rng r(seed);
    std::unique_ptr<Network> n(new Network("net", "test"));
    n->setCaseDate(stdcxx::DateTime::parse("2020-05-04T12:00:00.000+00:00"));
    Gen g(*n, r.u64());
    populate(*n, g, r, static_cast<int>(r.range(3, 25)));
    auto& vm = n->getVariantManager();
    ok = true;
    for (int i = 0; i < variants; ++i) {
        auto vs = variantIds(*n);
        std::string src = r.pick(vs), id = "thread" + S(i);
        if (refused([&]() { vm.cloneVariant(src, id); })) ok = false;
    }
    if (r.chance(50)) vm.setWorkingVariant(VariantManager::getInitialVariantId());
    std::string w;
    if (refused([&]() { w = vm.getWorkingVariantId(); })) vm.setWorkingVariant(VariantManager::getInitialVariantId());
    return n;
}
}  // namespace

MODULE(own_variants) {
    (void)attrTable();
    int k = static_cast<int>(rng.range(2, 4));
    uint64_t seed = rng.u64();
    bool ok = true;
    auto n = make(seed, k, ok), m = make(seed, k, ok);
    if (!ok) return;
    bool warm = rng.chance(50);
    if (warm) { (void)dumpAll(*n); (void)dumpAll(*m); }
    n->getVariantManager().allowVariantMultiThreadAccess(true);
    std::string mine = n->getVariantManager().getWorkingVariantId();
    int steps = static_cast<int>(rng.range(5, 40));
    std::vector<uint64_t> seeds;
    for (int i = 0; i < k; ++i) seeds.push_back(rng.u64());
    std::vector<std::unique_ptr<Worker>> ws, alone;
    for (int i = 0; i < k; ++i) {
        ws.emplace_back(new Worker(*n, seeds[static_cast<size_t>(i)]));
        alone.emplace_back(new Worker(*m, seeds[static_cast<size_t>(i)]));
        for (auto* w : {ws.back().get(), alone.back().get()}) { w->id = i; w->variant = "thread" + S(i); }
    }
    // a thread which has selected nothing is told so
    std::string lost;
    std::vector<std::pair<std::string, std::string>> ignored;
    std::function<void()> stranger = [&]() {
        std::thread t([&]() {
            deferred = &ignored;
            auto& vm = n->getVariantManager();
            try { lost = "works in " + vm.getWorkingVariantId(); } catch (const powsybl::PowsyblException&) { } catch (...) { lost = "other exception"; }
            for (auto* x : allTerminals(*n)) { try { (void)x->getP(); lost = "reads " + tname(*x); } catch (const powsybl::PowsyblException&) { } break; }
            for (Switch& s : n->getSwitches()) { try { (void)s.isOpen(); lost = "reads " + s.getId(); } catch (const powsybl::PowsyblException&) { } break; }
            R = Report();
            deferred = nullptr;
        });
        t.join();
    };
    run(ws, steps, true, rng.chance(60) ? stranger : nullptr);
    VCHECK(lost.empty(), "thread-without-variant", lost);
    VCHECK(n->getVariantManager().getWorkingVariantId() == mine, "main-thread-variant", mine + " became " + n->getVariantManager().getWorkingVariantId());
    VCHECK(n->getVariantManager().isVariantMultiThreadAccessAllowed(), "mode", "");
    // the same, one after the other, in one thread
    for (auto& w : alone) { w->go(steps, true, nullptr, nullptr); R.count("checks"); }
    for (int i = 0; i < k; ++i) {
        auto j = static_cast<size_t>(i);
        std::string d = firstDifference(ws[j]->said, alone[j]->said);
        VCHECK(d.empty(), "answers-differ-from-alone", "thread " + S(i) + ", " + d);
        R.count("answers_compared", alone[j]->said.size());
    }
    if (rng.chance(50)) {
        n->getVariantManager().allowVariantMultiThreadAccess(false);
        VCHECK(n->getVariantManager().getWorkingVariantId() == mine, "variant-after-single-thread", "");
        n->getVariantManager().allowVariantMultiThreadAccess(false);
        VCHECK(n->getVariantManager().getWorkingVariantId() == mine, "variant-after-single-thread", "");
    }
    DumpMap a = dumpAll(*n), b = dumpAll(*m);
    std::string d = diff(b, a, [](const std::string& key) { return key == "<working>"; });
    VCHECK(d.empty(), "values-differ-from-alone:" + attrOfKey(firstDiffKey(d)), d);
    R.count("variants_compared", variantIds(*n).size());
}
// the selection of each thread holds across the variant manager's operations
MODULE(selections) {
    Network n("net", "test");
    auto& vm = n.getVariantManager();
    int k = static_cast<int>(rng.range(2, 4));
    std::vector<std::string> ids;
    for (int i = 0; i < k; ++i) { ids.push_back("v" + S(i)); vm.cloneVariant(VariantManager::getInitialVariantId(), ids.back()); }
    vm.allowVariantMultiThreadAccess(true);
    std::atomic<int> turn(0);
    std::vector<std::string> bad(static_cast<size_t>(k));
    std::vector<std::thread> ts;
    int rounds = static_cast<int>(rng.range(3, 12));
    std::vector<int> acts;
    for (int i = 0; i < rounds; ++i) acts.push_back(static_cast<int>(rng.below(6)));
    std::string mine = vm.getWorkingVariantId();
    for (int i = 0; i < k; ++i) {
        ts.emplace_back([&, i]() {
            auto j = static_cast<size_t>(i);
            try {
                vm.setWorkingVariant(ids[j]);
                for (int q = 0; q < rounds; ++q) {
                    // everybody looks, then the main thread acts
                    while (turn.load() < q * (k + 1) || turn.load() > q * (k + 1) + k) sched_yield();
                    std::string w = vm.getWorkingVariantId();
                    if (w != ids[j]) bad[j] += "round " + S(q) + " works in " + w + " instead of " + ids[j];
                    ++turn;
                    while (turn.load() < (q + 1) * (k + 1)) sched_yield();
                }
            } catch (const std::exception& e) { bad[j] += e.what(); turn.store(1 << 30); }
        });
    }
    std::string order;
    for (int q = 0; q < rounds; ++q) {
        while (turn.load() < q * (k + 1) + k) sched_yield();
        if (turn.load() >= (1 << 30)) break;
        int act = acts[static_cast<size_t>(q)];
        order += S(act);
        // the other threads are waiting: nothing here is concurrent
        if (act == 0) vm.allowVariantMultiThreadAccess(true);
        else if (act == 1) { mine = ids[static_cast<size_t>(q % k)]; vm.setWorkingVariant(mine); }
        else if (act == 2) vm.cloneVariant(ids[0], "x" + S(q));
        else if (act == 3 && q > 0 && vm.getVariantIds().count("x" + S(q - 1))) vm.removeVariant("x" + S(q - 1));
        else if (act == 4) vm.forEachVariant([]() { });
        else { Network other("net", "test"); other.getVariantManager().allowVariantMultiThreadAccess(true); other.getVariantManager().cloneVariant(VariantManager::getInitialVariantId(), "v0"); other.getVariantManager().setWorkingVariant("v0"); }
        VCHECK(vm.getWorkingVariantId() == mine, "main-thread-variant", "after " + S(act));
        ++turn;
    }
    if (C.index % 16 == 0) {
        // many networks of the same thread, each with a selection of its own
        std::vector<std::unique_ptr<Network>> others;
        std::vector<std::string> theirs;
        auto count = static_cast<size_t>(rng.range(2, 150));
        for (size_t i = 0; i < count; ++i) {
            others.emplace_back(new Network("net", "test"));
            auto& m = others.back()->getVariantManager();
            m.cloneVariant(VariantManager::getInitialVariantId(), {"v0", "v1", "v2"});
            m.allowVariantMultiThreadAccess(true);
            theirs.push_back(rng.of({std::string("v0"), std::string("v1"), std::string("v2"), VariantManager::getInitialVariantId()}));
            m.setWorkingVariant(theirs.back());
            if (rng.chance(10)) { others.erase(others.begin()); theirs.erase(theirs.begin()); }
        }
        for (size_t i = 0; i < others.size(); ++i) VCHECK(others[i]->getVariantManager().getWorkingVariantId() == theirs[i], "selection-of-another-network", S((ulong_t)i) + " of " + S((ulong_t)others.size()));
        VCHECK(vm.getWorkingVariantId() == mine, "main-thread-variant", "among many networks");
        R.count("networks_side_by_side", others.size());
    }
    for (auto& t : ts) t.join();
    // back to one thread, with holes among the variants
    for (auto& v : variantIds(n)) if (v != mine && v != VariantManager::getInitialVariantId() && rng.chance(60)) vm.removeVariant(v);
    if (rng.chance(30)) vm.cloneVariant(mine, "late");
    vm.allowVariantMultiThreadAccess(false);
    VCHECK(vm.getWorkingVariantId() == mine, "variant-after-single-thread", "with holes");
    for (int i = 0; i < k; ++i) VCHECK(bad[static_cast<size_t>(i)].empty(), "selection-lost", bad[static_cast<size_t>(i)] + " acts " + order);
    R.seen("cover", S(k) + order);
}
// a network nobody modifies
MODULE(readers) {
    (void)attrTable();
    int k = static_cast<int>(rng.range(2, 4));
    bool ok = true;
    auto n = make(rng.u64(), k, ok);
    if (!ok) return;
    auto& vm = n->getVariantManager();
    bool multi = rng.chance(50), same = rng.chance(50);
    // the views and components of the variants which will be read have been computed since the last change
    (void)dumpAll(*n);
    std::string w = vm.getWorkingVariantId();
    eachVariant(*n, [&](const std::string&) { (void)checkViews(*n, "single:"); for (Bus& b : n->getBusView().getBuses()) { (void)b.getConnectedComponent(); (void)b.getSynchronousComponent(); } for (Bus& b : n->getBusBreakerView().getBuses()) (void)b.getV(); });
    vm.setWorkingVariant(w);
    int steps = static_cast<int>(rng.range(5, 40));
    std::vector<std::unique_ptr<Worker>> ws, alone;
    for (int i = 0; i < k; ++i) {
        uint64_t s = rng.u64();
        ws.emplace_back(new Worker(*n, s));
        alone.emplace_back(new Worker(*n, s));
        for (auto* x : {ws.back().get(), alone.back().get()}) { x->id = i; if (multi) x->variant = same ? "thread0" : "thread" + S(i); }
    }
    if (multi) vm.allowVariantMultiThreadAccess(true);
    DumpMap before = dumpAll(*n);
    run(ws, steps, false);
    DumpMap after = dumpAll(*n);
    VCHECK(before == after, "reading-changes-values", diff(before, after));
    for (int i = 0; i < k; ++i) {
        auto j = static_cast<size_t>(i);
        std::string v = vm.getWorkingVariantId();
        alone[j]->go(steps, false, nullptr, nullptr);
        vm.setWorkingVariant(v);
        std::string d = firstDifference(ws[j]->said, alone[j]->said);
        VCHECK(d.empty(), "answers-differ-from-alone", "thread " + S(i) + ", " + d);
        R.count("answers_compared", alone[j]->said.size());
    }
}
// each thread with networks of its own
MODULE(independent) {
    (void)attrTable();
    int k = static_cast<int>(rng.range(2, 4));
    std::vector<uint64_t> seeds;
    std::vector<bool> mts;
    uint64_t base = rng.u64();
    for (int i = 0; i < k; ++i) { seeds.push_back(rng.chance(30) ? base : rng.u64()); mts.push_back(rng.chance(40)); }
    int steps = static_cast<int>(rng.range(5, 25));
    struct Out { std::vector<std::string> said; std::string picture, xml; std::vector<std::pair<std::string, std::string>> found; Report report; };
    auto live = [&](size_t i, Out& o) {
        deferred = &o.found;
        try {
            Story s(seeds[i], mts[i]);
            for (int q = 0; q < steps; ++q) {
                s.step();
                if (q % 8 == 3) {
                    // written, read by a new network, which goes on
                    try { std::string x = toXml(*s.n); Network other = fromXml(x); s.say("read " + S((ulong_t)hashStr(toXml(other)))); }
                    catch (const std::exception& e) { s.say(e.what()); }
                }
                if (q % 16 == 9) checkSane(*s.n, "sane:");
            }
            o.said = s.said;
            o.picture = s.picture();
        } catch (const std::exception& e) { o.said.push_back(std::string("exception ") + e.what()); }
        deferred = nullptr;
    };
    std::vector<Out> outs(static_cast<size_t>(k)), alone(static_cast<size_t>(k));
    {
        std::vector<std::thread> ts;
        std::atomic<int> gate(0);
        for (size_t i = 0; i < outs.size(); ++i) ts.emplace_back([&, i]() { ++gate; while (gate.load() < k) sched_yield(); live(i, outs[i]); outs[i].report.merge(R); });
        for (auto& t : ts) t.join();
    }
    for (auto& o : outs) { R.merge(o.report); for (auto& f : o.found) violation(f.first, f.second); }
    for (size_t i = 0; i < outs.size(); ++i) {
        live(i, alone[i]);
        std::string d = firstDifference(outs[i].said, alone[i].said);
        VCHECK(d.empty(), "answers-differ-from-alone", d);
        VCHECK(outs[i].picture == alone[i].picture, "values-differ-from-alone", "");
        R.count("answers_compared", alone[i].said.size());
        R.seen("cover", S((ulong_t)hashStr(alone[i].picture)));
    }
}
