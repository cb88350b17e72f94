// P07: views against the reference topology. P09: components against reference components.
#include "pick.hpp"
using namespace vmon;
using namespace powsybl::iidm;

namespace {
// a query pattern warms part of the caches before the next change
void warm(Network& n, Rng& rng) {
    const Network& cn = n;
    switch (rng.below(7)) {
        case 0: for (const Bus& b : cn.getBusView().getBuses()) { b.getId(); break; } break;
        case 1: for (const Bus& b : cn.getBusBreakerView().getBuses()) { b.getId(); break; } break;
        case 2: cn.getBusView().getBus("unknown"); break;
        case 3: cn.getBusBreakerView().getBus("unknown"); break;
        case 4: for (const Component& c : cn.getBusView().getConnectedComponents()) { c.getNum(); break; } break;
        case 5: for (const Component& c : cn.getBusView().getSynchronousComponents()) { c.getNum(); break; } break;
        default: for (Terminal* t : allTerminals(n)) { if (rng.chance(30)) { t->isConnected(); static_cast<const Terminal*>(t)->getBusView().getBus(); } } break;
    }
}
std::string shape(const RefTopo& r) {
    std::multiset<std::string> s;
    for (auto& g : r.bus) s.insert(S((ulong_t)g.members.size()) + "." + S((ulong_t)g.terms.size()) + (g.valid ? "v" : "-"));
    for (auto& c : r.compSize) s.insert("c" + S(c.second));
    for (auto& c : r.syncSize) s.insert("s" + S(c.second));
    std::string t;
    for (auto& x : s) t += x + " ";
    return t;
}
void history(Rng& rng, const std::function<void(Network&)>& judge) {
    Network n("net", "test");
    Gen g(n, rng.u64());
    int mode = static_cast<int>(rng.below(4));
    if (mode == 0) g.bbAllowed = false;
    if (mode == 1) g.nbAllowed = false;
    g.build(rng, static_cast<int>(rng.range(4, 40)));
    auto& vm = n.getVariantManager();
    for (int i = static_cast<int>(rng.below(4)); i > 0; --i) vm.cloneVariant(rng.pick(variantIds(n)), "v" + std::to_string(i));
    int steps = static_cast<int>(rng.range(20, 60));
    for (int s = 0; s < steps; ++s) {
        int k = static_cast<int>(rng.below(100));
        if (k < 60) g.random(rng, "t");
        else if (k < 72) g.random(rng, "v");
        else if (k < 84) g.random(rng, "c");
        else if (k < 94) g.random(rng, "r");
        else g.random(rng, "cts", 100);
        if (rng.chance(30)) warm(n, rng);
        if (rng.chance(50)) {
            // the working variant only: the others keep whatever they had computed
            judge(n);
        } else if (rng.chance(40)) eachVariant(n, [&](const std::string&) { judge(n); });
        if (R.violations > 50) return;
    }
    eachVariant(n, [&](const std::string&) { judge(n); });
}
}  // namespace

MODULE(views) {
    int judged = 0;
    history(rng, [&judged](Network& n) {
        RefTopo r = checkViews(n, "");
        if (++judged % 3 == 0) checkViewTwins(n, "");
        R.seen("cover", shape(r));
    });
}
MODULE(components) {
    int judged = 0;
    history(rng, [&judged](Network& n) {
        RefTopo r = referenceTopo(n);
        checkComponents(n, r, "");
        if (++judged % 3 == 0) checkComponentTwins(n, "");
        R.seen("cover", shape(r));
    });
}
