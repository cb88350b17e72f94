// P21: networks handed over to a new owner, and networks living side by side.
#include "story.hpp"
using namespace vmon;
using namespace powsybl::iidm;

namespace {
std::map<std::string, const void*> addresses(Network& n) {
    std::map<std::string, const void*> m;
    for (Identifiable& i : n.getIdentifiables()) if (&i != static_cast<Identifiable*>(&n)) m[i.getId()] = &i;
    for (auto& h : handles(n)) if (h.p != static_cast<Identifiable*>(&n) && h.p != static_cast<void*>(&n) && h.key != n.getId()) m["#" + h.kind + h.key] = h.p;
    return m;
}
Network pass(Network&& n) { return std::move(n); }

void handOver(std::unique_ptr<Network>& n, Rng& rng, const std::string& prefix) {
    DumpMap before = dumpAll(*n);
    auto& vm0 = n->getVariantManager();
    std::string w = vm0.getWorkingVariantId();
    auto ids = variantIds(*n);
    bool mt = vm0.isVariantMultiThreadAccessAllowed();
    auto addr = addresses(*n);
    bool twice = rng.chance(30);
    std::unique_ptr<Network> to;
    int how = static_cast<int>(rng.below(3));
    logOp("move " + S(how) + (twice ? " twice" : ""));
    if (how == 0) { to.reset(new Network(std::move(*n))); n.reset(); }
    else if (how == 1) { Network tmp(pass(std::move(*n))); n.reset(); to.reset(new Network(std::move(tmp))); }
    else {
        std::vector<Network> v;
        v.reserve(1);
        v.emplace_back(std::move(*n));
        n.reset();
        v.reserve(5);          // moved again
        to.reset(new Network(std::move(v[0])));
    }
    if (twice) { std::unique_ptr<Network> again(new Network(std::move(*to))); to = std::move(again); }
    n = std::move(to);
    R.count("moves");
    R.seen("moves", S(how) + S(twice) + " " + S((ulong_t)before.size()) + " " + S((ulong_t)ids.size()));
    auto& vm = n->getVariantManager();
    VCHECK(vm.getWorkingVariantId() == w && variantIds(*n) == ids && vm.isVariantMultiThreadAccessAllowed() == mt, prefix + "variants", w + " became " + vm.getWorkingVariantId());
    VCHECK(&n->getNetwork() == n.get(), prefix + "network-of-network", "");
    auto self = n->find<Network>("net");
    (void)self;
    for (Identifiable& i : n->getIdentifiables()) VCHECK(&i.getNetwork() == n.get(), prefix + "network-of-object", i.getId());
    for (Substation& s : n->getSubstations()) {
        VCHECK(&s.getNetwork() == n.get(), prefix + "network-of-object", s.getId());
        for (VoltageLevel& v : s.getVoltageLevels()) {
            for (Bus& b : v.getBusView().getBuses()) VCHECK(&b.getNetwork() == n.get() && &b.getVoltageLevel() == &v, prefix + "network-of-bus", b.getId());
            for (Bus& b : v.getBusBreakerView().getBuses()) VCHECK(&b.getNetwork() == n.get() && &b.getVoltageLevel() == &v, prefix + "network-of-bus", b.getId());
        }
    }
    auto addr2 = addresses(*n);
    for (auto& kv : addr) {
        auto it = addr2.find(kv.first);
        VCHECK(it != addr2.end() && it->second == kv.second, prefix + "objects-kept", kv.first);
    }
    VCHECK(addr.size() == addr2.size(), prefix + "objects-kept", "count");
    DumpMap after = dumpAll(*n);
    std::string d = diff(before, after);
    VCHECK(d.empty(), prefix + "values:" + attrOfKey(firstDiffKey(d)), d);
}
}  // namespace

// a network which is moved behaves like its twin which is not
MODULE(handover) {
    uint64_t seed = rng.u64();
    bool mt = rng.chance(30);
    Story a(seed, mt), b(seed, mt);
    std::string pa = a.picture(), pb = b.picture();
    VCHECK(pa == pb, "twins-differ", "");
    int steps = static_cast<int>(rng.range(8, 30));
    int moves = 0;
    for (int i = 0; i < steps; ++i) {
        if (i == 0 || rng.chance(20)) {
            // views may have been computed before, or not
            if (rng.chance(50)) { (void)a.picture(); }
            else if (rng.chance(50)) checkSane(*a.n, "before-move:");
            handOver(a.n, rng, "move:");
            ++moves;
        }
        a.step();
        b.step();
        logOp(a.said.empty() ? "" : a.said.back());
        std::string d = firstDifference(a.said, b.said);
        VCHECK(d.empty(), "moved-answers-differently", d);
        if (!d.empty()) return;
    }
    pa = a.picture(); pb = b.picture();
    if (pa != pb) {
        DumpMap x = dumpAll(*a.n), y = dumpAll(*b.n);
        std::string d = diff(y, x);
        violation("moved-reads-differently:" + attrOfKey(firstDiffKey(d)), d);
    }
    R.count("checks");
    std::string xa, xb;
    try { xa = toXml(*a.n); } catch (const std::exception& e) { xa = e.what(); }
    try { xb = toXml(*b.n); } catch (const std::exception& e) { xb = e.what(); }
    VCHECK(xa == xb, "moved-exports-differently", "");
    checkSane(*a.n, "moved:");
    R.seen("cover", S(moves) + " " + S((ulong_t)hashStr(pa)));
    // and can be emptied
    for (int i = 0; i < 300; ++i) {
        std::vector<VoltageLevel*> v;
        Gen g(*a.n, rng.u64());
        g.random(rng, "r");
    }
    checkSane(*a.n, "moved-emptied:");
}
// networks with the same identifiers, worked on in turns
MODULE(coexist) {
    int k = static_cast<int>(rng.range(2, 3));
    std::vector<uint64_t> seeds;
    std::vector<bool> mts;
    uint64_t base = rng.u64();
    for (int i = 0; i < k; ++i) { seeds.push_back(rng.chance(50) ? base : rng.u64()); mts.push_back(rng.chance(40)); }
    std::vector<std::unique_ptr<Story>> st;
    std::vector<int> steps(static_cast<size_t>(k), 0);
    for (int i = 0; i < k; ++i) st.emplace_back(new Story(seeds[static_cast<size_t>(i)], mts[static_cast<size_t>(i)]));
    // stories of the same seed diverge
    for (int i = 0; i < k; ++i) st[static_cast<size_t>(i)]->r = Rng(seeds[static_cast<size_t>(i)] + static_cast<uint64_t>(i) * 77);
    int turns = static_cast<int>(rng.range(10, 40));
    std::unique_ptr<Story> other;
    std::string order;
    for (int t = 0; t < turns; ++t) {
        auto i = static_cast<size_t>(rng.below(static_cast<uint64_t>(k)));
        bool watch = rng.chance(25);
        std::vector<std::string> was;
        if (watch) for (auto& s : st) was.push_back(s->picture());
        if (rng.chance(10)) { other.reset(new Story(rng.chance(50) ? base : rng.u64(), rng.chance(50))); for (int q = 0; q < 3; ++q) other->step(); logOp("another network"); }
        else if (rng.chance(10)) { other.reset(); logOp("another network gone"); }
        st[i]->step();
        ++steps[i];
        order += static_cast<char>('0' + i);
        logOp(S((ulong_t)i) + ": " + (st[i]->said.empty() ? "" : st[i]->said.back()));
        if (watch) for (size_t j = 0; j < st.size(); ++j) if (j != i) VCHECK(st[j]->picture() == was[j], "other-network-changed", st[i]->said.empty() ? "" : st[i]->said.back());
    }
    R.seen("cover", order);
    std::vector<std::string> pics;
    for (auto& s : st) pics.push_back(s->picture());
    other.reset();
    // each of them alone, the others being gone
    for (size_t i = 0; i < st.size(); ++i) {
        std::vector<std::string> said = st[i]->said;
        st[i].reset();
        Story alone(seeds[i], mts[i]);
        alone.r = Rng(seeds[i] + i * 77);
        for (int s = 0; s < steps[i]; ++s) alone.step();
        std::string d = firstDifference(said, alone.said);
        VCHECK(d.empty(), "answers-differ-from-alone", d);
        VCHECK(alone.picture() == pics[i], "reads-differ-from-alone", "");
        R.count("stories_compared");
        R.count("answers_compared", said.size());
    }
}
