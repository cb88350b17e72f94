// Histories driven step by step whose every answer is recorded, so that two runs of the same history can be compared.
#pragma once
#include "gen.hpp"
#include "oracle.hpp"
#include "pick.hpp"
#include "xmlio.hpp"
#include "xmlwork.hpp"
#include <memory>
#include <powsybl/iidm/VariantManager.hpp>

namespace vmon {
using namespace powsybl::iidm;

// one history, driven step by step; everything the library answers goes to the transcript
class Story {
public:
    std::unique_ptr<Network> n;
    Rng r, wr;
    std::vector<std::string> said;
    int weird;
    bool mt;
    Story(uint64_t seed, bool multiThread) : r(seed), wr(seed ^ 0x55), weird(0), mt(multiThread) {
        n.reset(new Network("net", "test"));
        n->setCaseDate(stdcxx::DateTime::parse("2020-05-04T12:00:00.000+00:00"));
        weird = static_cast<int>(r.below(2));
        Gen g(*n, r.u64());
        g.weird = weird;
        int size = static_cast<int>(r.range(2, 22));
        if (r.chance(40)) populate(*n, g, r, size);
        else {
            g.build(r, size);
            for (int i = static_cast<int>(r.below(5)); i > 0; --i) g.random(r, "v");
        }
        auto& vm = n->getVariantManager();
        // holes in the storage of the variants
        if (r.chance(70)) {
            std::vector<std::string> made;
            for (int i = static_cast<int>(r.range(1, 5)); i > 0; --i) {
                std::string id = "h" + S(i);
                if (refused([&]() { vm.cloneVariant(r.pick(variantIds(*n)), id); })) continue;
                made.push_back(id);
            }
            for (auto& id : made) if (r.chance(50)) (void)refused([&]() { vm.removeVariant(id); });
        }
        if (mt) vm.allowVariantMultiThreadAccess(true);
        std::string w;
        if (refused([&]() { w = vm.getWorkingVariantId(); })) vm.setWorkingVariant(r.pick(variantIds(*n)));
    }
    void say(const std::string& s) { said.push_back(s); }
    void step() {
        uint64_t sub = r.u64(), seed = r.u64();
        int k = static_cast<int>(r.below(100));
        Gen g(*n, seed);
        g.weird = weird;
        Rng q(sub);
        if (k < 70) {
            const auto& os = Gen::ops();
            const auto& o = os[q.below(os.size())];
            long hit = q.chance(15) ? static_cast<long>(q.below(10)) : -1;
            try { g.run(o, q.u64(), hit); say(o.name + g.desc); R.seen("op_kinds", o.name); R.count("ops_accepted"); }
            catch (const Skip&) { say(o.name + " skipped"); }
            catch (const std::exception& e) { say(o.name + g.desc + " ! " + e.what()); R.count("ops_refused"); }
        } else if (k < 80) {
            auto ps = settable(*n, "SV");
            std::sort(ps.begin(), ps.end(), [](const decltype(ps[0])& a, const decltype(ps[0])& b) { return pickName(a) < pickName(b); });
            if (ps.empty()) return;
            auto& p = q.pick(ps);
            double v = p.a->gen(q, p.h.p);
            std::string how;
            try { p.a->set(p.h.p, v); how = "set"; } catch (const std::exception& e) { how = e.what(); }
            say(pickName(p) + " " + S(v) + " " + how);
        } else if (k < 90) {
            int t = static_cast<int>(q.below(4));
            std::string s;
            auto ts = allTerminals(*n);
            std::vector<std::pair<std::string, Terminal*>> v;
            for (auto* x : ts) v.emplace_back(tname(*x), x);
            std::sort(v.begin(), v.end());
            if (v.empty()) return;
            auto& x = q.pick(v);
            try {
                if (t == 0) s = S(x.second->connect());
                else if (t == 1) s = S(x.second->disconnect());
                else if (t == 2) { auto b = x.second->getBusView().getBus(); s = b ? b.get().getId() + " " + S(static_cast<int>(b.get().getConnectedTerminalCount())) : "none"; }
                else s = S(x.second->getP()) + S(x.second->getI());
            } catch (const std::exception& e) { s = e.what(); }
            say(x.first + " " + S(t) + " " + s);
        } else if (k < 95) {
            std::string s;
            try { s = toXml(*n); } catch (const std::exception& e) { s = e.what(); }
            say("xml " + S((ulong_t)s.size()) + " " + S((ulong_t)hashStr(s)));
        } else {
            std::string s;
            for (Bus& b : n->getBusView().getBuses()) {
                auto c = b.getConnectedComponent();
                s += b.getId() + "/" + (c ? S(static_cast<int>(c.get().getNum())) : "-") + " ";
            }
            say("buses " + s);
        }
        // a step may have left the network without a working variant: the next one works somewhere
        auto& vm = n->getVariantManager();
        std::string w;
        if (refused([&]() { w = vm.getWorkingVariantId(); })) vm.setWorkingVariant(q.pick(variantIds(*n)));
    }
    std::string picture() {
        std::string s;
        for (auto& kv : dumpAll(*n)) s += kv.first + "=" + kv.second + "\n";
        return s;
    }
};
inline std::string firstDifference(const std::vector<std::string>& a, const std::vector<std::string>& b) {
    for (size_t i = 0; i < a.size() || i < b.size(); ++i) {
        std::string x = i < a.size() ? a[i] : "<end>", y = i < b.size() ? b[i] : "<end>";
        if (x != y) return S((ulong_t)i) + ": " + x.substr(0, 300) + " <> " + y.substr(0, 300);
    }
    return "";
}
}  // namespace vmon
