#include "gen.hpp"
#include "ext.hpp"
#include <powsybl/iidm/ActivePowerLimitsAdder.hpp>
#include <powsybl/iidm/ApparentPowerLimitsAdder.hpp>
#include <powsybl/iidm/BatteryAdder.hpp>
#include <powsybl/iidm/BusAdder.hpp>
#include <powsybl/iidm/BusbarSectionAdder.hpp>
#include <powsybl/iidm/CurrentLimitsAdder.hpp>
#include <powsybl/iidm/DanglingLineAdder.hpp>
#include <powsybl/iidm/GeneratorAdder.hpp>
#include <powsybl/iidm/HvdcLineAdder.hpp>
#include <powsybl/iidm/LccConverterStationAdder.hpp>
#include <powsybl/iidm/LineAdder.hpp>
#include <powsybl/iidm/LoadAdder.hpp>
#include <powsybl/iidm/MinMaxReactiveLimitsAdder.hpp>
#include <powsybl/iidm/PhaseTapChangerAdder.hpp>
#include <powsybl/iidm/RatioTapChangerAdder.hpp>
#include <powsybl/iidm/ReactiveCapabilityCurveAdder.hpp>
#include <powsybl/iidm/ShuntCompensatorAdder.hpp>
#include <powsybl/iidm/StaticVarCompensatorAdder.hpp>
#include <powsybl/iidm/SubstationAdder.hpp>
#include <powsybl/iidm/SwitchAdder.hpp>
#include <powsybl/iidm/ThreeWindingsTransformerAdder.hpp>
#include <powsybl/iidm/TieLineAdder.hpp>
#include <powsybl/iidm/TwoWindingsTransformerAdder.hpp>
#include <powsybl/iidm/VoltageLevelAdder.hpp>
#include <powsybl/iidm/VscConverterStationAdder.hpp>

using namespace powsybl::iidm;

namespace vmon {

namespace ext = powsybl::iidm::extensions;
namespace xi = powsybl::iidm::extensions::iidm;
namespace xe = powsybl::iidm::extensions::entsoe;
namespace xs = powsybl::iidm::extensions::sld;

static VoltageLevel& tinyVl(Network& f, const char* id) {
    Substation& s = f.newSubstation().setId(std::string("S") + id).add();
    VoltageLevel& v = s.newVoltageLevel().setId(std::string("V") + id).setNominalV(100).setTopologyKind(TopologyKind::BUS_BREAKER).add();
    v.getBusBreakerView().newBus().setId(std::string("B") + id).add();
    return v;
}

Gen::Gen(Network& net, uint64_t seed) : n(net), r(seed), foreign("foreign", "test") {
    tinyVl(foreign, "F").newLoad().setId("LF").setP0(0).setQ0(0).setBus("BF").add();
}
Terminal& Gen::foreignTerminal() { return foreign.getLoad("LF").getTerminal(); }

std::string Gen::text() {
    static const std::vector<std::string> plain = {"name", "a b", "x-1", "N_2", "12", "true"};
    static const std::vector<std::string> odd = {"<tag attr=\"v\">", "a&b&amp;", "it's \"quoted\"", "\xC3\xA9t\xC3\xA9 \xE2\x82\xAC", "tab\tin", " lead", "trail ", "new\nline", "cr\rx", "%1% {} \\n", "]]>", ",;|", "a;b"};
    return weird > 0 && r.chance(40) ? r.pick(odd) : r.pick(plain) + std::to_string(r.below(100));
}
std::string Gen::name() {
    std::string t = text();
    // one line per name in the mapping files
    while (!mark.empty() && t.find_first_of("\r\n") != std::string::npos) t = text();
    return mark + t;
}
std::string Gen::newId(const char* prefix) {
    static const std::vector<std::string> odd = {"<", ">", "&", "\"", "'", "\xC3\xA9", " ", "\xE2\x82\xAC", "%1%", "#0", "&amp;", "\\"};
    if (!reuse.empty() && r.chance(30)) {
        const std::string& old = reuse[r.below(reuse.size())];
        if (!old.empty() && !n.find<Identifiable>(old)) return old;
    }
    for (;;) {
        std::string id = prefix + mark + std::to_string(r.below(3000));
        if (weird > 0 && r.chance(40)) id += r.pick(odd) + std::to_string(r.below(10));
        if (!n.find<Identifiable>(id)) return id;
    }
}
double Gen::val() { return exotic ? genAny(r) : r.real(-500, 500); }
double Gen::pos() { return exotic ? genPos(r) : r.real(1, 500); }
double Gen::volt() { return genVolt(r); }

std::vector<std::string> Gen::badIds() {
    std::vector<std::string> v = {""};
    auto ids = all<Identifiable>();
    if (!ids.empty()) {
        v.push_back(ids[a.bad.below(ids.size())]->getId());
        v.push_back(ids[a.bad.below(ids.size())]->getId());
        for (int i = 0; i < 4; ++i) {
            auto* x = ids[a.bad.below(ids.size())];
            for (const auto& al : x->getAliases()) v.push_back(al);
        }
    }
    return v;
}
std::vector<ulong_t> Gen::usedNodes(VoltageLevel& v) {
    std::vector<ulong_t> u;
    if (v.getTopologyKind() != TopologyKind::NODE_BREAKER) return u;
    for (ulong_t node : v.getNodeBreakerView().getNodes()) {
        if (v.getNodeBreakerView().getOptionalTerminal(node)) u.push_back(node);
    }
    return u;
}
VoltageLevel& Gen::vl(int kind) {
    auto v = all<VoltageLevel>();
    std::vector<VoltageLevel*> c;
    for (auto* x : v) {
        int k = x->getTopologyKind() == TopologyKind::NODE_BREAKER ? 0 : 1;
        if (kind < 0 || k == kind) c.push_back(x);
    }
    if (c.empty()) throw Skip();
    return *c[r.below(c.size())];
}
static ulong_t freeNode(Gen& g, VoltageLevel& v) {
    auto& nb = v.getNodeBreakerView();
    std::vector<ulong_t> free;
    long mx = -1;
    for (ulong_t node : nb.getNodes()) {
        mx = std::max(mx, static_cast<long>(node));
        if (!nb.getOptionalTerminal(node)) free.push_back(node);
    }
    if (!free.empty() && g.r.chance(50)) return g.r.pick(free);
    ulong_t node = static_cast<ulong_t>(mx + 1);
    if (g.r.chance(20)) {
        // holes in the numbering, or a hole reused
        node = g.r.below(static_cast<ulong_t>(mx + 4));
        if (nb.getOptionalTerminal(node > static_cast<ulong_t>(std::max(mx, 0L)) ? 0 : 0) && false) node = 0;
        for (ulong_t u : Gen::usedNodes(v)) {
            if (u == node) return static_cast<ulong_t>(mx + 1);
        }
    }
    return node;
}
Point Gen::point(VoltageLevel* in) {
    Point p;
    p.vl = in ? in : &vl();
    p.nb = p.vl->getTopologyKind() == TopologyKind::NODE_BREAKER;
    p.connected = r.chance(75);
    if (p.nb) {
        p.node = freeNode(*this, *p.vl);
    } else {
        std::vector<std::string> buses;
        for (const Bus& b : p.vl->getBusBreakerView().getBuses()) buses.push_back(b.getId());
        if (buses.empty()) throw Skip();
        std::sort(buses.begin(), buses.end());
        p.bus = r.pick(buses);
    }
    return p;
}
Terminal* Gen::terminal() {
    auto ts = allTerminals(n);
    std::sort(ts.begin(), ts.end(), [](Terminal* x, Terminal* y) { return tname(*x) < tname(*y); });
    return ts.empty() ? nullptr : ts[r.below(ts.size())];
}

void Gen::reactiveLimits(ReactiveLimitsHolder& h) {
    if (r.chance(50)) {
        double q1 = val(), q2 = val();
        double lo = std::min(q1, q2), hi = std::max(q1, q2);
        h.newMinMaxReactiveLimits().setMinQ(a.d("minQ", lo, {NaN, std::nextafter(hi, Inf)})).setMaxQ(a.d("maxQ", hi)).add();
    } else {
        auto ad = h.newReactiveCapabilityCurve();
        int k = static_cast<int>(r.range(2, 5));
        std::set<double> ps;
        bool same = a.skip("points");
        for (int i = 0; i < k; ++i) {
            double p = same ? 1.0 : val();
            if (!ps.insert(p == 0 ? 0.0 : p).second) { if (!same) p = static_cast<double>(2000 + i); ps.insert(p); }
            double q1 = val(), q2 = val();
            double lo = std::min(q1, q2), hi = std::max(q1, q2);
            if (same && i > 0) continue;
            ad.beginPoint().setP(a.d("p", p)).setMinQ(a.d("pminQ", lo)).setMaxQ(a.d("pmaxQ", hi)).endPoint();
        }
        ad.add();
    }
}
template <typename Adder> static void addLimits(Gen& g, Adder ad) {
    int k = static_cast<int>(g.r.below(4));
    double perm = g.r.real(10, 1000);
    if (k == 0 || g.r.chance(85)) ad.setPermanentLimit(g.a.d("permanent", perm, {0.0, -1.0})); else ad.setPermanentLimit(NaN);
    std::set<ulong_t> used;
    double v = perm;
    for (int i = 0; i < k; ++i) {
        ulong_t dur = g.r.of({0ul, 60ul, 300ul, 600ul, 1200ul, 1800ul, g.r.below(4000)});
        if (!used.insert(dur).second) continue;
        v += g.r.real(1, 100);
        auto t = ad.beginTemporaryLimit();
        t.setName(g.a.s("tname", "TL" + std::to_string(i) + (g.weird ? g.text() : ""), {""})).setValue(g.a.d("tvalue", g.r.chance(10) ? g.pos() : v, {NaN, 0.0, -1.0}));
        if (!g.a.skip("duration")) t.setAcceptableDuration(dur);
        if (g.r.chance(20)) t.setFictitious(true);
        t.endTemporaryLimit();
    }
    if (g.a.skip("duplicate names")) {
        ad.beginTemporaryLimit().setName("DUP").setValue(10).setAcceptableDuration(5001).endTemporaryLimit();
        ad.beginTemporaryLimit().setName("DUP").setValue(10).setAcceptableDuration(5002).endTemporaryLimit();
    }
    ad.add();
}

// some tap changer of the transformer regulates in some variant
static bool anyRegulating(Network& n, TapChangerHolder& h) {
    bool any = false;
    auto look = [&](TapChangerHolder& x) {
        auto* rh = dynamic_cast<RatioTapChangerHolder*>(&x);
        auto* ph = dynamic_cast<PhaseTapChangerHolder*>(&x);
        any = any || (rh && rh->hasRatioTapChanger() && rh->getRatioTapChanger().isRegulating()) || (ph && ph->hasPhaseTapChanger() && ph->getPhaseTapChanger().isRegulating());
    };
    auto& vm = n.getVariantManager();
    std::string w = vm.getWorkingVariantId();
    for (const auto& id : vm.getVariantIds()) {
        vm.setWorkingVariant(id);
        if (auto* leg = dynamic_cast<ThreeWindingsTransformer::Leg*>(&h)) {
            for (ThreeWindingsTransformer& t : n.getThreeWindingsTransformers()) {
                if (&t.getLeg1() == leg || &t.getLeg2() == leg || &t.getLeg3() == leg) { look(t.getLeg1()); look(t.getLeg2()); look(t.getLeg3()); }
            }
        } else look(h);
    }
    vm.setWorkingVariant(w);
    return any;
}

void Gen::stepsRtc(RatioTapChangerHolder& h) {
    auto ad = h.newRatioTapChanger();
    long low = r.range(-5, 5);
    int k = static_cast<int>(r.range(1, 6));
    if (!a.skip("no step")) {
        for (int i = 0; i < k; ++i) {
            ad.beginStep().setRho(a.d("rho", exotic ? genPos(r) : r.real(0.8, 1.2))).setR(a.d("step r", val())).setX(a.d("step x", val())).setG(a.d("step g", val())).setB(a.d("step b", val())).endStep();
        }
    }
    long tap = r.range(low, low + k - 1);
    long bt = a.sel("tap") ? (a.bad.chance(50) ? low - 1 : low + k) : tap;
    ad.setLowTapPosition(static_cast<long>(a.o("lowTapPosition", static_cast<double>(low)))).setLoadTapChangingCapabilities(true);
    if (!a.skip("no tap")) { a.o("tapPosition", static_cast<double>(tap)); ad.setTapPosition(bt); }
    bool reg = r.chance(40) && !anyRegulating(n, h);
    Terminal* t = terminal();
    if (reg && t) {
        ad.setRegulating(a.o("regulating", 1) != 0).setTargetV(a.d("targetV", volt(), {NaN, 0.0, -1.0})).setTargetDeadband(a.d("deadband", r.real(0, 2), {NaN, -1.0}));
        ad.setRegulationTerminal(stdcxx::ref(a.sel("terminal") ? foreignTerminal() : *t));
        if (a.skip("no terminal")) ad.setRegulationTerminal(stdcxx::Reference<Terminal>());
    } else {
        ad.setRegulating(a.o("regulating", 0) != 0);
        if (r.chance(30)) ad.setLoadTapChangingCapabilities(false);
        if (r.chance(40)) ad.setTargetV(a.o("targetV", volt()));
        if (r.chance(40)) ad.setTargetDeadband(a.d("deadband", r.real(0, 2), {-1.0}));
        if (t && r.chance(50)) ad.setRegulationTerminal(stdcxx::ref(*t));
    }
    ad.add();
}
void Gen::stepsPtc(PhaseTapChangerHolder& h) {
    auto ad = h.newPhaseTapChanger();
    long low = r.range(-5, 5);
    int k = static_cast<int>(r.range(1, 6));
    if (!a.skip("no step")) {
        for (int i = 0; i < k; ++i) {
            ad.beginStep().setAlpha(a.d("alpha", val())).setRho(a.d("rho", exotic ? genPos(r) : r.real(0.8, 1.2))).setR(a.d("step r", val())).setX(a.d("step x", val())).setG(a.d("step g", val())).setB(a.d("step b", val())).endStep();
        }
    }
    long tap = r.range(low, low + k - 1);
    long bt = a.sel("tap") ? (a.bad.chance(50) ? low - 1 : low + k) : tap;
    ad.setLowTapPosition(static_cast<long>(a.o("lowTapPosition", static_cast<double>(low))));
    if (!a.skip("no tap")) { a.o("tapPosition", static_cast<double>(tap)); ad.setTapPosition(bt); }
    bool reg = r.chance(40) && !anyRegulating(n, h);
    Terminal* t = terminal();
    if (reg && t) {
        auto mode = r.chance(50) ? PhaseTapChanger::RegulationMode::CURRENT_LIMITER : PhaseTapChanger::RegulationMode::ACTIVE_POWER_CONTROL;
        ad.setRegulating(a.o("regulating", 1) != 0).setRegulationMode(a.sel("mode") ? PhaseTapChanger::RegulationMode::FIXED_TAP : mode).setRegulationValue(a.d("regValue", val())).setTargetDeadband(a.d("deadband", r.real(0, 2), {NaN, -1.0}));
        ad.setRegulationTerminal(stdcxx::ref(a.sel("terminal") ? foreignTerminal() : *t));
        if (a.skip("no terminal")) ad.setRegulationTerminal(stdcxx::Reference<Terminal>());
    } else {
        ad.setRegulating(a.o("regulating", 0) != 0).setRegulationMode(r.of({PhaseTapChanger::RegulationMode::FIXED_TAP, PhaseTapChanger::RegulationMode::CURRENT_LIMITER, PhaseTapChanger::RegulationMode::ACTIVE_POWER_CONTROL}));
        if (r.chance(40)) ad.setRegulationValue(a.o("regValue", val()));
        if (r.chance(40)) ad.setTargetDeadband(a.d("deadband", r.real(0, 2), {-1.0}));
        if (t && r.chance(50)) ad.setRegulationTerminal(stdcxx::ref(*t));
    }
    ad.add();
}

// minP <= maxP
static std::pair<double, double> range(Gen& g) {
    double x = g.val(), y = g.val();
    return {std::min(x, y), std::max(x, y)};
}
static std::string nearby(const char* name, const std::string& id) { return std::string(" ") + name + "=" + id; }

void removeExtensionByName(Identifiable& o, const std::string& name) {
#define RM(T, N) if (name == N) { o.removeExtension<T>(); return; }
    RM(ext::LoadDetail, "detail") RM(ext::SlackTerminal, "slackTerminal") RM(xs::ConnectablePosition, "position") RM(xs::BusbarSectionPosition, "busbarSectionPosition") RM(xs::BranchStatus, "branchStatus")
    RM(xi::CoordinatedReactiveControl, "coordinatedReactiveControl") RM(xi::RemoteReactivePowerControl, "generatorRemoteReactivePowerControl") RM(xi::TwoWindingsTransformerPhaseAngleClock, "twoWindingsTransformerPhaseAngleClock")
    RM(xi::ThreeWindingsTransformerPhaseAngleClock, "threeWindingsTransformerPhaseAngleClock") RM(xi::DiscreteMeasurements, "discreteMeasurements") RM(xi::Measurements, "measurements")
    RM(xi::VoltagePerReactivePowerControl, "voltagePerReactivePowerControl") RM(xi::HvdcAngleDroopActivePowerControl, "hvdcAngleDroopActivePowerControl") RM(xi::HvdcOperatorActivePowerRange, "hvdcOperatorActivePowerRange")
    RM(xi::ActivePowerControl, "activePowerControl") RM(xe::EntsoeArea, "entsoeArea") RM(xe::Xnode, "xnode") RM(xe::MergedXnode, "mergedXnode")
#undef RM
    throw std::logic_error("unknown extension " + name);
}

static std::vector<Gen::OpDef> makeOps() {
    std::vector<Gen::OpDef> v;
    auto def = [&](const char* name, char cat, std::function<void(Gen&)> fn) { v.push_back(Gen::OpDef{name, cat, std::move(fn)}); };
    // ---- containers
    def("newSubstation", 'c', [](Gen& g) {
        auto ad = g.n.newSubstation();
        g.ident(ad, "S");
        if (g.r.chance(60)) ad.setCountry(g.r.of({Country::FR, Country::BE, Country::DE, Country::ES}));
        if (g.r.chance(40)) ad.setTso(g.name());
        int k = static_cast<int>(g.r.below(3));
        for (int i = 0; i < k; ++i) ad.addGeographicalTag(g.mark + "tag" + std::to_string(g.r.below(9)));
        ad.add();
    });
    def("newVoltageLevel", 'c', [](Gen& g) {
        auto& s = g.one<Substation>();
        auto ad = s.newVoltageLevel();
        g.ident(ad, "VL");
        ad.setNominalV(g.a.d("nominalV", g.volt(), {NaN, 0.0, -1.0}));
        bool nb = g.nbAllowed && (!g.bbAllowed || g.r.chance(50));
        if (!g.a.skip("no topology")) ad.setTopologyKind(nb ? TopologyKind::NODE_BREAKER : TopologyKind::BUS_BREAKER);
        double lo = g.r.chance(60) ? g.r.real(0, 100) : NaN, hi = g.r.chance(60) ? g.r.real(100, 500) : NaN;
        ad.setLowVoltageLimit(g.a.d("low", lo, {-1.0, 1e9})).setHighVoltageLimit(g.a.d("high", hi, {-1.0}));
        // an undefined high limit with a huge low limit is acceptable
        if (std::isnan(hi) && g.a.hitName == "low") ad.setHighVoltageLimit(10.0);
        VoltageLevel& vl = ad.add();
        if (!nb) {
            int k = static_cast<int>(g.r.range(1, 3));
            for (int i = 0; i < k; ++i) vl.getBusBreakerView().newBus().setId(g.newId("B")).add();
        } else {
            int k = static_cast<int>(g.r.range(1, 2));
            for (int i = 0; i < k; ++i) vl.getNodeBreakerView().newBusbarSection().setId(g.newId("BBS")).setNode(static_cast<ulong_t>(i)).add();
        }
    });
    // ---- topology elements
    def("newBus", 't', [](Gen& g) {
        auto ad = g.vl(1).getBusBreakerView().newBus();
        g.ident(ad, "B");
        ad.add();
    });
    def("newBusSwitch", 't', [](Gen& g) {
        auto& vl = g.vl(1);
        Point p = g.point(&vl), q = g.point(&vl);
        if (p.bus == q.bus && g.r.chance(90)) throw Skip();
        auto ad = vl.getBusBreakerView().newSwitch();
        g.ident(ad, "SW");
        ad.setBus1(g.a.s("bus1", p.bus, {"", "unknown-bus"})).setBus2(g.a.s("bus2", q.bus, {"", "unknown-bus"})).setOpen(g.a.o("open", g.r.chance(35)) != 0);
        ad.add();
    });
    def("newSwitch", 't', [](Gen& g) {
        auto& vl = g.vl(0);
        auto& nb = vl.getNodeBreakerView();
        std::vector<ulong_t> nodes;
        for (ulong_t x : nb.getNodes()) nodes.push_back(x);
        ulong_t n1 = !nodes.empty() && g.r.chance(85) ? g.r.pick(nodes) : freeNode(g, vl);
        ulong_t n2 = !nodes.empty() && g.r.chance(60) ? g.r.pick(nodes) : freeNode(g, vl);
        if (n1 == n2 && g.r.chance(90)) n2 = n1 + 1;
        auto ad = nb.newSwitch();
        g.ident(ad, "SW");
        g.note(" " + vl.getId() + " " + S(n1) + "-" + S(n2));
        if (!g.a.skip("node1")) ad.setNode1(n1);
        if (!g.a.skip("node2")) ad.setNode2(n2);
        if (!g.a.skip("kind")) ad.setKind(g.r.of({SwitchKind::BREAKER, SwitchKind::BREAKER, SwitchKind::DISCONNECTOR, SwitchKind::LOAD_BREAK_SWITCH}));
        ad.setOpen(g.a.o("open", g.r.chance(30)) != 0).setRetained(g.a.o("retained", g.r.chance(40)) != 0);
        ad.add();
    });
    def("newInternalConnection", 't', [](Gen& g) {
        auto& vl = g.vl(0);
        auto& nb = vl.getNodeBreakerView();
        std::vector<ulong_t> nodes;
        for (ulong_t x : nb.getNodes()) nodes.push_back(x);
        ulong_t n1 = !nodes.empty() && g.r.chance(85) ? g.r.pick(nodes) : freeNode(g, vl);
        ulong_t n2 = !nodes.empty() && g.r.chance(60) ? g.r.pick(nodes) : freeNode(g, vl);
        if (n1 == n2 && g.r.chance(90)) n2 = n1 + 1;
        auto ad = nb.newInternalConnection();
        g.note(" " + vl.getId() + " " + S(n1) + "-" + S(n2));
        if (!g.a.skip("node1")) ad.setNode1(n1);
        if (!g.a.skip("node2")) ad.setNode2(n2);
        ad.add();
    });
    def("newBusbarSection", 't', [](Gen& g) {
        auto& vl = g.vl(0);
        auto ad = vl.getNodeBreakerView().newBusbarSection();
        g.ident(ad, "BBS");
        ulong_t node = freeNode(g, vl);
        g.note(" " + vl.getId() + "@" + S(node));
        ad.setNode(node);     // an occupied node is a known finding, observed by its own probe
        ad.add();
    });
    // ---- injections
    def("newLoad", 'c', [](Gen& g) {
        Point p = g.point();
        auto ad = p.vl->newLoad();
        g.ident(ad, "LD");
        g.place(ad, p);
        if (g.r.chance(50)) ad.setLoadType(g.a.sel("type") ? static_cast<LoadType>(9) : g.r.of({LoadType::UNDEFINED, LoadType::AUXILIARY, LoadType::FICTITIOUS}));
        ad.setP0(g.a.d("p0", g.val())).setQ0(g.a.d("q0", g.val()));
        ad.add();
    });
    def("newGenerator", 'c', [](Gen& g) {
        Point p = g.point();
        auto ad = p.vl->newGenerator();
        g.ident(ad, "G");
        g.place(ad, p);
        if (g.r.chance(60)) ad.setEnergySource(g.r.of({EnergySource::HYDRO, EnergySource::NUCLEAR, EnergySource::OTHER, EnergySource::WIND}));
        auto mm = range(g);
        ad.setMinP(g.a.d("minP", mm.first, {NaN, std::nextafter(mm.second, Inf)})).setMaxP(g.a.d("maxP", mm.second));
        ad.setTargetP(g.a.d("targetP", g.val()));
        bool on = g.r.chance(50);
        if (!g.a.skip("no regulator")) ad.setVoltageRegulatorOn(g.a.o("voltageRegulatorOn", on) != 0);
        if (on) { ad.setTargetV(g.a.d("targetV", g.volt(), {NaN, 0.0, -1.0})); if (g.r.chance(50)) ad.setTargetQ(g.a.o("targetQ", g.val())); }
        else { ad.setTargetQ(g.a.d("targetQ", g.val())); if (g.r.chance(50)) ad.setTargetV(g.a.o("targetV", g.volt())); }
        if (g.r.chance(50)) ad.setRatedS(g.a.d("ratedS", g.pos(), {0.0, -1.0}));
        Terminal* t = g.terminal();
        if (t && g.r.chance(40)) ad.setRegulatingTerminal(stdcxx::ref(g.a.sel("terminal") ? g.foreignTerminal() : *t));
        ad.add();
    });
    def("newBattery", 'c', [](Gen& g) {
        Point p = g.point();
        auto ad = p.vl->newBattery();
        g.ident(ad, "BAT");
        g.place(ad, p);
        auto mm = range(g);
        ad.setMinP(g.a.d("minP", mm.first, {NaN, std::nextafter(mm.second, Inf)})).setMaxP(g.a.d("maxP", mm.second)).setP0(g.a.d("p0", g.val())).setQ0(g.a.d("q0", g.val()));
        ad.add();
    });
    def("newShunt", 'c', [](Gen& g) {
        Point p = g.point();
        auto ad = p.vl->newShuntCompensator();
        g.ident(ad, "SH");
        g.place(ad, p);
        ulong_t mx = static_cast<ulong_t>(g.r.range(1, 5));
        if (!g.a.skip("no model")) {
            if (g.r.chance(50) || g.fmt < 3) {
                auto m = ad.newLinearModel();
                m.setBPerSection(g.a.d("b", g.pos(), {NaN})).setMaximumSectionCount(g.a.u("max", mx, {0}));
                if (g.r.chance(60)) m.setGPerSection(g.a.o("gPerSection", g.val()));
                m.add();
            } else {
                auto m = ad.newNonLinearModel();
                for (ulong_t i = 0; i < mx; ++i) {
                    auto s = m.beginSection();
                    s.setB(g.a.d("section b", g.val()));
                    if (i == 0 || g.r.chance(50)) s.setG(g.a.o("g", g.val()));
                    s.endSection();
                }
                m.add();
            }
        }
        { ulong_t k = g.r.below(mx + 1); g.a.o("sectionCount", static_cast<double>(k)); ad.setSectionCount(g.a.u("sections", k, {mx + 1})); }
        bool on = g.fmt >= 2 && g.r.chance(30);
        if (on) { ad.setVoltageRegulatorOn(g.a.o("voltageRegulatorOn", 1) != 0).setTargetV(g.a.d("targetV", g.volt(), {NaN, -1.0})).setTargetDeadband(g.a.d("deadband", g.r.real(0, 3), {NaN, -1.0})); }
        else if (g.fmt >= 2) { if (g.r.chance(40)) ad.setTargetV(g.a.o("targetV", g.volt())); if (g.r.chance(40)) ad.setTargetDeadband(g.a.d("deadband", g.r.real(0, 3), {-1.0})); }
        Terminal* t = g.terminal();
        if (t && g.fmt >= 2 && g.r.chance(40)) ad.setRegulatingTerminal(stdcxx::ref(g.a.sel("terminal") ? g.foreignTerminal() : *t));
        ad.add();
    });
    def("newSvc", 'c', [](Gen& g) {
        Point p = g.point();
        auto ad = p.vl->newStaticVarCompensator();
        g.ident(ad, "SVC");
        g.place(ad, p);
        auto mm = range(g);
        ad.setBmin(g.a.d("bMin", mm.first)).setBmax(g.a.d("bMax", mm.second));
        auto mode = g.r.of({StaticVarCompensator::RegulationMode::VOLTAGE, StaticVarCompensator::RegulationMode::REACTIVE_POWER, StaticVarCompensator::RegulationMode::OFF});
        if (!g.a.skip("no mode")) ad.setRegulationMode(mode);
        if (mode == StaticVarCompensator::RegulationMode::VOLTAGE) ad.setVoltageSetpoint(g.a.d("voltage", g.volt()));
        else if (g.r.chance(50)) ad.setVoltageSetpoint(g.a.o("voltageSetpoint", g.volt()));
        if (mode == StaticVarCompensator::RegulationMode::REACTIVE_POWER) ad.setReactivePowerSetpoint(g.a.d("reactive", g.val()));
        else if (g.r.chance(50)) ad.setReactivePowerSetpoint(g.a.o("reactivePowerSetpoint", g.val()));
        Terminal* t = g.terminal();
        if (t && g.fmt >= 1 && g.r.chance(40)) ad.setRegulatingTerminal(stdcxx::ref(g.a.sel("terminal") ? g.foreignTerminal() : *t));
        ad.add();
    });
    def("newVsc", 'c', [](Gen& g) {
        Point p = g.point();
        auto ad = p.vl->newVscConverterStation();
        g.ident(ad, "VSC");
        g.place(ad, p);
        ad.setLossFactor(g.a.d("loss", g.r.real(0, 100), {NaN, -1.0, 101.0}));
        bool on = g.r.chance(50);
        if (!g.a.skip("no regulator")) ad.setVoltageRegulatorOn(g.a.o("voltageRegulatorOn", on) != 0);
        if (on) { ad.setVoltageSetpoint(g.a.d("voltage", g.volt(), {NaN, 0.0, -1.0})); if (g.r.chance(50)) ad.setReactivePowerSetpoint(g.a.o("reactivePowerSetpoint", g.val())); }
        else { ad.setReactivePowerSetpoint(g.a.d("reactive", g.val())); if (g.r.chance(50)) ad.setVoltageSetpoint(g.a.o("voltageSetpoint", g.volt())); }
        ad.add();
    });
    def("newLcc", 'c', [](Gen& g) {
        Point p = g.point();
        auto ad = p.vl->newLccConverterStation();
        g.ident(ad, "LCC");
        g.place(ad, p);
        ad.setLossFactor(g.a.d("loss", g.r.real(0, 100), {NaN, -1.0, 101.0})).setPowerFactor(g.a.d("factor", g.r.real(-1, 1), {NaN, 1.5, -1.5}));
        ad.add();
    });
    def("newDanglingLine", 'c', [](Gen& g) {
        Point p = g.point();
        auto ad = p.vl->newDanglingLine();
        g.ident(ad, "DL");
        g.place(ad, p);
        ad.setP0(g.a.d("p0", g.val())).setQ0(g.a.d("q0", g.val())).setR(g.a.d("r", g.val())).setX(g.a.d("x", g.val())).setG(g.a.d("g", g.val())).setB(g.a.d("b", g.val()));
        if (g.r.chance(50)) ad.setUcteXnodeCode(g.text());
        if (g.fmt >= 3 && g.r.chance(50)) {
            auto ga = ad.newGeneration();
            auto mm = range(g);
            ga.setMinP(g.a.d("minP", mm.first, {std::nextafter(mm.second, Inf)})).setMaxP(g.a.o("maxP", mm.second)).setTargetP(g.a.d("targetP", g.val()));
            bool on = g.r.chance(50);
            ga.setVoltageRegulationOn(g.a.o("voltageRegulationOn", on) != 0);
            if (on) { ga.setTargetV(g.a.d("targetV", g.volt(), {NaN, 0.0})); if (g.r.chance(50)) ga.setTargetQ(g.a.o("targetQ", g.val())); }
            else { ga.setTargetQ(g.a.d("targetQ", g.val())); if (g.r.chance(50)) ga.setTargetV(g.a.o("targetV", g.volt())); }
            ga.add();
        }
        ad.add();
    });
    // ---- branches
    def("newLine", 'c', [](Gen& g) {
        Point p = g.point(), q = g.point();
        if (p.nb && p.vl == q.vl && p.node == q.node) q.node += 1 + p.node;
        if (q.nb) for (ulong_t u : Gen::usedNodes(*q.vl)) if (u == q.node) throw Skip();
        auto ad = g.n.newLine();
        g.ident(ad, "LN");
        g.placeSide(ad, p, 1);
        g.placeSide(ad, q, 2, p.nb ? &p : nullptr);
        ad.setR(g.a.d("r", g.val())).setX(g.a.d("x", g.val())).setG1(g.a.d("g1", g.val())).setB1(g.a.d("b1", g.val())).setG2(g.a.d("g2", g.val())).setB2(g.a.d("b2", g.val()));
        ad.add();
    });
    def("newTieLine", 'c', [](Gen& g) {
        Point p = g.point(), q = g.point();
        if (p.nb && p.vl == q.vl && p.node == q.node) q.node += 1 + p.node;
        if (q.nb) for (ulong_t u : Gen::usedNodes(*q.vl)) if (u == q.node) throw Skip();
        auto ad = g.n.newTieLine();
        g.ident(ad, "TL");
        g.placeSide(ad, p, 1);
        g.placeSide(ad, q, 2, p.nb ? &p : nullptr);
        ad.setUcteXnodeCode(g.a.s("xnode", g.text(), {""}));
        int bad = g.a.sel("no half1") ? 1 : g.a.sel("no half2") ? 2 : 0;
        for (int i = 1; i <= 2; ++i) {
            if (bad == i) continue;
            auto h = i == 1 ? ad.newHalfLine1() : ad.newHalfLine2();
            h.setId(g.a.s("half id", "HL" + g.mark + std::to_string(g.r.below(10000)), {""}));
            if (g.r.chance(30)) h.setName(g.name());
            if (g.r.chance(10)) h.setFictitious(true);
            h.setR(g.a.d("r", g.val())).setX(g.a.d("x", g.val())).setG1(g.a.d("g1", g.val())).setB1(g.a.d("b1", g.val())).setG2(g.a.d("g2", g.val())).setB2(g.a.d("b2", g.val()));
            h.add();
        }
        ad.add();
    });
    def("newTwoWindings", 'c', [](Gen& g) {
        auto& s = g.one<Substation>();
        std::vector<VoltageLevel*> vls;
        for (VoltageLevel& x : s.getVoltageLevels()) vls.push_back(&x);
        if (vls.empty()) throw Skip();
        std::sort(vls.begin(), vls.end(), [](VoltageLevel* x, VoltageLevel* y) { return x->getId() < y->getId(); });
        Point p = g.point(g.r.pick(vls)), q = g.point(g.r.pick(vls));
        if (p.nb && p.vl == q.vl && p.node == q.node) q.node += 1 + p.node;
        if (q.nb) for (ulong_t u : Gen::usedNodes(*q.vl)) if (u == q.node) throw Skip();
        auto ad = s.newTwoWindingsTransformer();
        g.ident(ad, "TT");
        g.placeSide(ad, p, 1);
        g.placeSide(ad, q, 2, p.nb ? &p : nullptr);
        ad.setR(g.a.d("r", g.val())).setX(g.a.d("x", g.val())).setG(g.a.d("g", g.val())).setB(g.a.d("b", g.val())).setRatedU1(g.a.d("ratedU1", g.volt())).setRatedU2(g.a.d("ratedU2", g.volt()));
        if (g.r.chance(40)) ad.setRatedS(g.a.d("ratedS", g.pos(), {0.0, -1.0}));
        ad.add();
    });
    def("newThreeWindings", 'c', [](Gen& g) {
        auto& s = g.one<Substation>();
        std::vector<VoltageLevel*> vls;
        for (VoltageLevel& x : s.getVoltageLevels()) vls.push_back(&x);
        if (vls.empty()) throw Skip();
        std::sort(vls.begin(), vls.end(), [](VoltageLevel* x, VoltageLevel* y) { return x->getId() < y->getId(); });
        std::vector<Point> ps;
        for (int i = 0; i < 3; ++i) {
            Point p = g.point(g.r.pick(vls));
            if (p.nb) {
                for (auto& o : ps) if (o.vl == p.vl && o.node == p.node) p.node = static_cast<ulong_t>(p.vl->getNodeBreakerView().getMaximumNodeIndex() + 2 + i);
                for (ulong_t u : Gen::usedNodes(*p.vl)) if (u == p.node) throw Skip();
            }
            ps.push_back(p);
        }
        auto ad = s.newThreeWindingsTransformer();
        g.ident(ad, "TH");
        if (g.fmt >= 1 && g.r.chance(60)) ad.setRatedU0(g.a.o("ratedU0", g.volt()));
        int missing = g.a.sel("no leg1") ? 1 : g.a.sel("no leg2") ? 2 : g.a.sel("no leg3") ? 3 : 0;
        for (int i = 1; i <= 3; ++i) {
            auto l = i == 1 ? ad.newLeg1() : i == 2 ? ad.newLeg2() : ad.newLeg3();
            l.setVoltageLevel(g.a.s("vlId", ps[i - 1].vl->getId(), {"", "unknown-vl"}));
            l.setR(g.a.d("r", g.val())).setX(g.a.d("x", g.val())).setRatedU(g.a.d("ratedU", g.volt()));
            if (i == 1 || (g.fmt >= 1 && g.r.chance(50))) l.setG(g.a.d("g", g.val())).setB(g.a.d("b", g.val()));
            if (g.r.chance(40)) l.setRatedS(g.a.d("ratedS", g.pos(), {0.0, -1.0}));
            const Point& p = ps[i - 1];
            g.places.push_back(p);
            g.note(" leg" + std::to_string(i) + " " + p.vl->getId() + (p.nb ? "@" + std::to_string(p.node) : "@" + p.bus));
            if (p.nb) {
                std::vector<ulong_t> used = Gen::usedNodes(*p.vl);
                for (int k = 0; k < i - 1; ++k) if (ps[k].vl == p.vl) for (int z = 0; z < 3; ++z) used.push_back(ps[k].node);
                l.setNode(g.a.u("node", p.node, used));
            } else { if (p.connected) l.setBus(g.a.s("bus", p.bus, {"unknown-bus"})); l.setConnectableBus(g.a.s("cbus", p.bus, {"unknown-bus"})); }
            if (missing != i) l.add();
        }
        ad.add();
    });
    def("newHvdcLine", 'c', [](Gen& g) {
        std::vector<HvdcConverterStation*> free;
        std::vector<std::string> busy;
        for (auto* s : g.all<HvdcConverterStation>()) { if (!s->getHvdcLine()) free.push_back(s); else busy.push_back(s->getId()); }
        if (free.size() < 2) throw Skip();
        auto* s1 = free[g.r.below(free.size())];
        auto* s2 = free[g.r.below(free.size())];
        if (s1 == s2) throw Skip();
        auto ad = g.n.newHvdcLine();
        g.ident(ad, "HV");
        g.note(" " + s1->getId() + "-" + s2->getId());
        std::vector<std::string> bad = {"", "unknown", g.n.getId()};
        for (int i = 0; i < 3 && !busy.empty(); ++i) bad.push_back(busy[g.a.bad.below(busy.size())]);
        ad.setR(g.a.d("r", g.val())).setNominalV(g.a.d("nominalV", g.volt(), {NaN, 0.0, -1.0})).setMaxP(g.a.d("maxP", std::fabs(g.val()), {NaN, -1.0})).setActivePowerSetpoint(g.a.d("setpoint", std::fabs(g.val()), {NaN, -1.0}));
        ad.setConverterStationId1(g.a.s("station1", s1->getId(), bad));
        bad.push_back(s1->getId());
        bad.push_back(s1->getId());
        ad.setConverterStationId2(g.a.s("station2", s2->getId(), bad));
        if (!g.a.skip("no mode")) ad.setConvertersMode(g.a.sel("mode") ? static_cast<HvdcLine::ConvertersMode>(7) : g.r.of({HvdcLine::ConvertersMode::SIDE_1_INVERTER_SIDE_2_RECTIFIER, HvdcLine::ConvertersMode::SIDE_1_RECTIFIER_SIDE_2_INVERTER}));
        ad.add();
    });
    // ---- parts of equipment
    def("newRtc", 'c', [](Gen& g) {
        if (g.r.chance(60)) { auto& t = g.one<TwoWindingsTransformer>(); g.note(" " + t.getId()); g.stepsRtc(t); g.made = t.getId() + "/rtc"; }
        else { auto& t = g.one<ThreeWindingsTransformer>(); g.note(" " + t.getId()); int k = static_cast<int>(g.r.below(3)); if (g.fmt < 1 && k == 0) throw Skip(); g.stepsRtc(k == 0 ? t.getLeg1() : k == 1 ? t.getLeg2() : t.getLeg3()); g.made = t.getId() + "/leg" + std::to_string(k + 1) + "/rtc"; }
    });
    def("newPtc", 'c', [](Gen& g) {
        if (g.r.chance(60)) { auto& t = g.one<TwoWindingsTransformer>(); g.note(" " + t.getId()); g.stepsPtc(t); g.made = t.getId() + "/ptc"; }
        else { auto& t = g.one<ThreeWindingsTransformer>(); g.note(" " + t.getId()); int k = static_cast<int>(g.r.below(3)); if (g.fmt < 1) throw Skip(); g.stepsPtc(k == 0 ? t.getLeg1() : k == 1 ? t.getLeg2() : t.getLeg3()); g.made = t.getId() + "/leg" + std::to_string(k + 1) + "/ptc"; }
    });
    def("newLimits", 'c', [](Gen& g) {
        int kind = g.fmt < 5 ? 2 : static_cast<int>(g.r.below(3));
        int what = static_cast<int>(g.r.below(3));
        if (what == 0) {
            auto& b = g.one<Branch>();
            g.note(" " + b.getId());
            bool one = g.r.chance(50);
            if (kind == 0) addLimits(g, one ? b.newActivePowerLimits1() : b.newActivePowerLimits2());
            else if (kind == 1) addLimits(g, one ? b.newApparentPowerLimits1() : b.newApparentPowerLimits2());
            else addLimits(g, one ? b.newCurrentLimits1() : b.newCurrentLimits2());
        } else if (what == 1) {
            auto& d = g.one<DanglingLine>();
            g.note(" " + d.getId());
            if (kind == 0) addLimits(g, d.newActivePowerLimits());
            else if (kind == 1) addLimits(g, d.newApparentPowerLimits());
            else addLimits(g, d.newCurrentLimits());
        } else {
            auto& t = g.one<ThreeWindingsTransformer>();
            int k = static_cast<int>(g.r.below(3));
            auto& d = k == 0 ? t.getLeg1() : k == 1 ? t.getLeg2() : t.getLeg3();
            g.note(" " + t.getId());
            if (kind == 0) addLimits(g, d.newActivePowerLimits());
            else if (kind == 1) addLimits(g, d.newApparentPowerLimits());
            else addLimits(g, d.newCurrentLimits());
        }
    });
    def("newReactiveLimits", 'c', [](Gen& g) {
        int what = static_cast<int>(g.r.below(4));
        if (what == 0) { auto& x = g.one<Generator>(); g.note(" " + x.getId()); g.reactiveLimits(x); }
        else if (what == 1) { auto& x = g.one<Battery>(); g.note(" " + x.getId()); g.reactiveLimits(x); }
        else if (what == 2) { auto& x = g.one<VscConverterStation>(); g.note(" " + x.getId()); g.reactiveLimits(x); }
        else { auto& x = g.one<DanglingLine>(); if (!x.getGeneration()) throw Skip(); g.note(" " + x.getId()); g.reactiveLimits(x.getGeneration().get()); }
    });
    def("setRegulatingTerminal", 's', [](Gen& g) {
        Terminal* t = g.terminal();
        if (!t) throw Skip();
        bool none = g.r.chance(15);
        stdcxx::Reference<Terminal> ref = none ? stdcxx::Reference<Terminal>() : stdcxx::ref(*t);
        if (g.a.sel("terminal")) ref = stdcxx::ref(g.foreignTerminal());
        int what = static_cast<int>(g.r.below(5));
        if ((what == 1 && g.fmt < 2) || (what == 2 && g.fmt < 1)) throw Skip();
        if (what == 0) { auto& x = g.one<Generator>(); g.note(" " + x.getId()); x.setRegulatingTerminal(ref); }
        else if (what == 1) { auto& x = g.one<ShuntCompensator>(); g.note(" " + x.getId()); x.setRegulatingTerminal(ref); }
        else if (what == 2) { auto& x = g.one<StaticVarCompensator>(); g.note(" " + x.getId()); x.setRegulatingTerminal(ref); }
        else if (g.r.chance(35)) {
            auto& x = g.one<ThreeWindingsTransformer>();
            auto& leg = *g.r.of({&x.getLeg1(), &x.getLeg2(), &x.getLeg3()});
            g.note(" leg of " + x.getId() + (none ? " none" : ""));
            if (what == 3) { if (!leg.hasRatioTapChanger()) throw Skip(); leg.getRatioTapChanger().setRegulationTerminal(ref); }
            else { if (!leg.hasPhaseTapChanger()) throw Skip(); leg.getPhaseTapChanger().setRegulationTerminal(ref); }
        }
        else if (what == 3) { auto& x = g.one<TwoWindingsTransformer>(); if (!x.hasRatioTapChanger()) throw Skip(); g.note(" rtc " + x.getId() + (none ? " none" : "")); x.getRatioTapChanger().setRegulationTerminal(ref); }
        else { auto& x = g.one<TwoWindingsTransformer>(); if (!x.hasPhaseTapChanger()) throw Skip(); g.note(" ptc " + x.getId() + (none ? " none" : "")); x.getPhaseTapChanger().setRegulationTerminal(ref); }
    });
    def("setBusState", 's', [](Gen& g) {
        if (!g.busState) throw Skip();
        auto& vl = g.vl(g.r.chance(70) ? 0 : 1);
        auto bs = g.r.chance(70) ? vl.getBusView().getBuses() : vl.getBusBreakerView().getBuses();
        std::vector<Bus*> v;
        for (Bus& b : bs) v.push_back(&b);
        if (v.empty()) throw Skip();
        Bus& b = *g.r.pick(v);
        g.note(" " + b.getId());
        if (g.r.chance(70)) b.setV(g.r.chance(15) ? NaN : g.pos());
        if (g.r.chance(70)) b.setAngle(g.r.chance(15) ? NaN : g.val());
    });
    // ---- topology changes
    def("setOpen", 't', [](Gen& g) {
        auto& s = g.one<Switch>();
        bool o = g.r.chance(50);
        g.note(" " + s.getId() + "=" + S(o));
        s.setOpen(o);
    });
    def("setRetained", 't', [](Gen& g) {
        auto& s = g.one<Switch>();
        if (s.getVoltageLevel().getTopologyKind() != TopologyKind::NODE_BREAKER) throw Skip();
        bool o = g.r.chance(50);
        g.note(" " + s.getId() + "=" + S(o));
        s.setRetained(o);
    });
    def("connect", 't', [](Gen& g) { Terminal* t = g.terminal(); if (!t) throw Skip(); g.note(" " + tname(*t)); t->connect(); });
    def("disconnect", 't', [](Gen& g) { Terminal* t = g.terminal(); if (!t) throw Skip(); g.note(" " + tname(*t)); t->disconnect(); });
    def("setConnectableBus", 't', [](Gen& g) {
        Terminal* t = g.terminal();
        if (!t || t->getVoltageLevel().getTopologyKind() == TopologyKind::NODE_BREAKER) throw Skip();
        Point p = g.point(&t->getVoltageLevel());
        g.note(" " + tname(*t) + " to " + p.bus);
        t->getBusBreakerView().setConnectableBus(g.a.s("bus", p.bus, {"unknown-bus"}));
    });
    // ---- removals
    def("removeConnectable", 'r', [](Gen& g) { auto& c = g.one<Connectable>(); g.note(" " + c.getId()); c.remove(); });
    def("removeHvdcLine", 'r', [](Gen& g) { auto& c = g.one<HvdcLine>(); g.note(" " + c.getId()); c.remove(); });
    def("removeSwitch", 'r', [](Gen& g) {
        auto& s = g.one<Switch>();
        auto& vl = s.getVoltageLevel();
        std::string id = s.getId();
        g.note(" " + id);
        std::string use = g.a.s("id", id, {"unknown-switch", vl.getId()});
        if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) vl.getNodeBreakerView().removeSwitch(use);
        else vl.getBusBreakerView().removeSwitch(use);
    });
    def("removeInternalConnections", 'r', [](Gen& g) {
        auto& vl = g.vl(0);
        std::vector<std::pair<ulong_t, ulong_t>> ics;
        for (const auto& ic : vl.getNodeBreakerView().getInternalConnections()) ics.emplace_back(ic.getNode1(), ic.getNode2());
        if (ics.empty()) throw Skip();
        auto ic = g.r.pick(ics);
        if (g.r.chance(50)) std::swap(ic.first, ic.second);
        g.note(" " + vl.getId() + " " + S(ic.first) + "-" + S(ic.second));
        vl.getNodeBreakerView().removeInternalConnections(g.a.u("node1", ic.first, {100000}), ic.second);
    });
    def("removeBus", 'r', [](Gen& g) {
        auto& b = g.one<Bus>();
        auto& vl = b.getVoltageLevel();
        std::string id = b.getId();
        g.note(" " + id);
        vl.getBusBreakerView().removeBus(g.a.s("id", id, {"unknown-bus", vl.getId()}));
    });
    def("removeAllSwitches", 'r', [](Gen& g) { auto& vl = g.vl(1); g.note(" " + vl.getId()); vl.getBusBreakerView().removeAllSwitches(); });
    def("removeAllBuses", 'r', [](Gen& g) { auto& vl = g.vl(1); g.note(" " + vl.getId()); vl.getBusBreakerView().removeAllBuses(); });
    def("removeVoltageLevel", 'r', [](Gen& g) { auto& vl = g.vl(); g.note(" " + vl.getId()); vl.remove(); });
    def("removeSubstation", 'r', [](Gen& g) { auto& s = g.one<Substation>(); g.note(" " + s.getId()); s.remove(); });
    def("removeTapChanger", 'r', [](Gen& g) {
        if (g.r.chance(60)) {
            auto& t = g.one<TwoWindingsTransformer>();
            if (t.hasRatioTapChanger() && g.r.chance(60)) { g.note(" rtc " + t.getId()); t.getRatioTapChanger().remove(); }
            else if (t.hasPhaseTapChanger()) { g.note(" ptc " + t.getId()); t.getPhaseTapChanger().remove(); }
            else throw Skip();
        } else {
            auto& t = g.one<ThreeWindingsTransformer>();
            int k = static_cast<int>(g.r.below(3));
            auto& l = k == 0 ? t.getLeg1() : k == 1 ? t.getLeg2() : t.getLeg3();
            if (l.hasRatioTapChanger() && g.r.chance(60)) { g.note(" rtc " + t.getId()); l.getRatioTapChanger().remove(); }
            else if (l.hasPhaseTapChanger()) { g.note(" ptc " + t.getId()); l.getPhaseTapChanger().remove(); }
            else throw Skip();
        }
    });
    // ---- setters from the attribute table
    def("set", 's', [](Gen& g) {
        auto ids = g.all<Identifiable>();
        std::vector<std::pair<Handle, const Attr*>> c;
        for (int tries = 0; tries < 10 && c.empty(); ++tries) {
            for (auto& h : handlesOf(*g.r.pick(ids))) {
                auto it = attrTable().find(h.kind);
                if (it == attrTable().end()) continue;
                for (const auto& at : it->second) if (at.set) c.emplace_back(h, &at);
            }
        }
        if (c.empty()) throw Skip();
        auto& x = g.r.pick(c);
        if ((g.fmt < 2 && x.first.kind == "SHUNT" && x.second->name != "getSectionCount") || (g.fmt < 1 && x.first.kind.find("LEG") != std::string::npos)) throw Skip();
        double v = x.second->gen(g.r, x.first.p);
        g.note(" " + x.first.key + "." + x.second->name + "=" + S(v));
        x.second->set(x.first.p, v);
    });
    def("setMisc", 's', [](Gen& g) {
        switch (g.r.below(5)) {
            case 0: { auto& s = g.one<Substation>(); g.note(" country " + s.getId()); if (g.r.chance(30)) s.setCountry(stdcxx::optional<Country>()); else s.setCountry(g.r.of({Country::FR, Country::IT})); break; }
            case 1: { auto& s = g.one<Substation>(); g.note(" tso " + s.getId()); s.setTso(g.name()); break; }
            case 2: { auto& s = g.one<Substation>(); g.note(" tag " + s.getId()); s.addGeographicalTag(g.mark + "tag" + std::to_string(g.r.below(20))); break; }
            default: {
                auto& t = g.one<ShuntCompensator>();
                g.note(" max sections " + t.getId());
                if (t.getModelType() != ShuntCompensatorModelType::LINEAR) throw Skip();
                ulong_t need = 1;
                std::string w = g.n.getVariantManager().getWorkingVariantId();
                for (const auto& id : g.n.getVariantManager().getVariantIds()) { g.n.getVariantManager().setWorkingVariant(id); need = std::max(need, t.getSectionCount()); }
                g.n.getVariantManager().setWorkingVariant(w);
                std::vector<ulong_t> bad = {0};
                if (need >= 2) { bad.push_back(need - 1); bad.push_back(need - 1); }
                t.getModel<ShuntCompensatorLinearModel>().setMaximumSectionCount(g.a.u("max", need + g.r.below(4), bad));
            }
        }
    });
    // ---- variants
    def("cloneVariant", 'v', [](Gen& g) {
        auto& vm = g.n.getVariantManager();
        if (vm.getVariantIds().size() > 6) throw Skip();
        auto ids = vm.getVariantIds();
        std::vector<std::string> v(ids.begin(), ids.end());
        std::string src = g.r.pick(v);
        std::string dst = "v" + std::to_string(g.r.below(8));
        bool over = ids.count(dst) > 0;
        if (over && dst == src) throw Skip();
        g.note(" " + src + " -> " + dst);
        vm.cloneVariant(g.a.s("source", src, {"unknown", ""}), g.a.s("target", dst, over ? std::vector<std::string>() : std::vector<std::string>{VariantManager::getInitialVariantId(), src}), over);
    });
    def("removeVariant", 'v', [](Gen& g) {
        auto& vm = g.n.getVariantManager();
        auto ids = vm.getVariantIds();
        std::vector<std::string> v;
        for (auto& i : ids) if (i != vm.getWorkingVariantId() && i != VariantManager::getInitialVariantId()) v.push_back(i);
        if (v.empty()) throw Skip();
        std::string id = g.r.pick(v);
        g.note(" " + id);
        vm.removeVariant(g.a.s("id", id, {VariantManager::getInitialVariantId(), "unknown"}));
    });
    def("setWorkingVariant", 'v', [](Gen& g) {
        auto& vm = g.n.getVariantManager();
        auto ids = vm.getVariantIds();
        std::vector<std::string> v(ids.begin(), ids.end());
        std::string id = g.r.pick(v);
        g.note(" " + id);
        vm.setWorkingVariant(g.a.s("id", id, {"unknown"}));
    });
    // ---- aliases and properties
    def("addAlias", 'a', [](Gen& g) {
        auto& o = g.one<Identifiable>();
        if (g.fmt < 3 && dynamic_cast<Network*>(&o)) throw Skip();
        std::string al = g.newId("AL");
        if (g.weird && g.r.chance(15)) {  // nothing forbids the blank ones
            std::string odd = g.r.of({std::string(" "), std::string("   "), std::string("\t"), std::string("  x ")});
            if (!g.n.find(odd)) al = odd;
        }
        g.note(" " + o.getId() + " " + al);
        std::vector<std::string> bad;
        for (auto& b : g.badIds()) {
            bool own = b.empty() || b == o.getId();
            for (const auto& x : o.getAliases()) own = own || x == b;
            if (!own) bad.push_back(b);
        }
        std::string use = g.a.s("alias", al, bad);
        if (g.r.chance(40)) {
            std::string type = "type" + std::to_string(g.r.below(3));
            if (o.getAliasFromType(type)) throw Skip();
            o.addAlias(use, type);
        } else o.addAlias(use);
    });
    def("addAliasUnique", 'a', [](Gen& g) {
        auto& o = g.one<Identifiable>();
        if (g.fmt < 3 && dynamic_cast<Network*>(&o)) throw Skip();
        auto& p = g.one<Identifiable>();
        g.note(" " + o.getId() + " like " + p.getId());
        o.addAlias(p.getId(), true);
    });
    def("removeAlias", 'a', [](Gen& g) {
        auto& o = g.one<Identifiable>();
        std::vector<std::string> v;
        for (const auto& x : o.getAliases()) v.push_back(x);
        if (v.empty()) throw Skip();
        std::sort(v.begin(), v.end());
        std::string al = g.r.pick(v);
        std::vector<std::string> bad = {"unknown-alias"};
        for (auto* q : g.all<Identifiable>()) if (q != &o) for (const auto& x : q->getAliases()) bad.push_back(x);
        g.note(" " + o.getId() + " " + al);
        o.removeAlias(g.a.s("alias", al, bad));
    });
    def("setProperty", 'a', [](Gen& g) {
        auto& o = g.one<Identifiable>();
        std::string k = g.r.chance(30) ? g.text() : "p" + std::to_string(g.r.below(4));
        g.note(" " + o.getId() + " " + k);
        o.setProperty(k, g.text());
    });
    // ---- extensions
    def("newExtension", 'x', [](Gen& g) {
        switch (g.r.below(19)) {
            case 0: { auto& o = g.one<Load>(); g.note(" detail " + o.getId()); g.made = o.getId() + "/x:detail"; o.newExtension<ext::LoadDetailAdder>().withFixedActivePower(g.a.d("fp", g.val())).withFixedReactivePower(g.a.d("fq", g.val())).withVariableActivePower(g.a.d("vp", g.val())).withVariableReactivePower(g.a.d("vq", g.val())).add(); break; }
            case 1: { if (g.fmt < 3) throw Skip(); auto& o = g.vl(); auto ts = allTerminals(g.n); std::vector<Terminal*> in; for (auto* t : ts) if (&t->getVoltageLevel() == &o) in.push_back(t); if (in.empty()) throw Skip(); std::sort(in.begin(), in.end(), [](Terminal* x, Terminal* y) { return tname(*x) < tname(*y); }); Terminal* t = g.r.pick(in); g.note(" slack " + o.getId() + " " + tname(*t)); if (o.findExtension<ext::SlackTerminal>() && g.r.chance(70)) o.getExtension<ext::SlackTerminal>().setTerminal(stdcxx::ref(g.a.sel("terminal") ? g.foreignTerminal() : *t)); else { if (g.a.skip("no terminal")) o.newExtension<ext::SlackTerminalAdder>().add(); else o.newExtension<ext::SlackTerminalAdder>().withTerminal(g.a.sel("terminal") ? g.foreignTerminal() : *t).add(); } break; }
            case 2: {
                auto& o = g.one<Connectable>();
                if (o.getType() == ConnectableType::BUSBAR_SECTION) throw Skip();
                g.note(" position " + o.getId());
                auto ad = o.newExtension<xs::ConnectablePositionAdder>();
                size_t k = o.getTerminals().size();
                for (size_t i = 0; i < k; ++i) {
                    auto f = k == 1 ? ad.newFeeder() : i == 0 ? ad.newFeeder1() : i == 1 ? ad.newFeeder2() : ad.newFeeder3();
                    if (!g.a.skip("feeder name")) f.withName(g.text());
                    if (!g.a.skip("feeder order")) f.withOrder(g.r.below(100));
                    if (!g.a.skip("feeder dir")) f.withDirection(g.r.of({xs::ConnectablePosition::Direction::TOP, xs::ConnectablePosition::Direction::BOTTOM, xs::ConnectablePosition::Direction::UNDEFINED}));
                    f.add();
                }
                ad.add();
                break;
            }
            case 3: { auto& o = g.one<BusbarSection>(); g.note(" bbsp " + o.getId()); g.made = o.getId() + "/x:busbarSectionPosition"; ulong_t bi = g.r.below(9), si = g.r.below(9); g.a.o("busbarIndex", static_cast<double>(bi)); g.a.o("sectionIndex", static_cast<double>(si)); o.newExtension<xs::BusbarSectionPositionAdder>().withBusbarIndex(bi).withSectionIndex(si).add(); break; }
            case 4: { auto& o = g.one<Branch>(); g.note(" status " + o.getId()); g.made = o.getId() + "/x:branchStatus"; auto st = g.r.of({xs::BranchStatus::Status::IN_OPERATION, xs::BranchStatus::Status::PLANNED_OUTAGE, xs::BranchStatus::Status::FORCED_OUTAGE}); g.a.o("status", static_cast<double>(static_cast<int>(st))); o.newExtension<xs::BranchStatusAdder>().withStatus(st).add(); break; }
            case 5: { auto& o = g.one<Generator>(); g.note(" crc " + o.getId()); g.made = o.getId() + "/x:coordinatedReactiveControl"; o.newExtension<xi::CoordinatedReactiveControlAdder>().withQPercent(g.a.d("q%", g.r.real(0, 100))).add(); break; }
            case 6: { auto& o = g.one<Generator>(); Terminal* t = g.terminal(); g.note(" rrpc " + o.getId()); o.newExtension<xi::RemoteReactivePowerControlAdder>().withTargetQ(g.val()).withRegulatingTerminal(*t).withEnabled(g.r.chance(50)).add(); break; }
            case 7: { auto& o = g.one<TwoWindingsTransformer>(); g.note(" clock " + o.getId()); g.made = o.getId() + "/x:twoWindingsTransformerPhaseAngleClock"; ulong_t c = g.r.below(12); g.a.o("phaseAngleClock", static_cast<double>(c)); o.newExtension<xi::TwoWindingsTransformerPhaseAngleClockAdder>().withPhaseAngleClock(g.a.u("clock", c, {12, 100})).add(); break; }
            case 8: { auto& o = g.one<ThreeWindingsTransformer>(); g.note(" clock " + o.getId()); g.made = o.getId() + "/x:threeWindingsTransformerPhaseAngleClock"; ulong_t c2 = g.r.below(12), c3 = g.r.below(12); g.a.o("phaseAngleClockLeg2", static_cast<double>(c2)); g.a.o("phaseAngleClockLeg3", static_cast<double>(c3)); o.newExtension<xi::ThreeWindingsTransformerPhaseAngleClockAdder>().withPhaseAngleClockLeg2(g.a.u("clock2", c2, {12})).withPhaseAngleClockLeg3(g.a.u("clock3", c3, {12, 99})).add(); break; }
            case 9: case 10: {
                // discrete measurements: position of switches and taps, states
                Identifiable* o = nullptr;
                auto sws = g.all<Switch>();
                auto tts = g.all<TwoWindingsTransformer>();
                using DM = xi::DiscreteMeasurement;
                bool tap = !tts.empty() && (sws.empty() || g.r.chance(50));
                if (tap) o = tts[g.r.below(tts.size())]; else if (!sws.empty()) o = sws[g.r.below(sws.size())]; else throw Skip();
                g.note(" dm " + o->getId());
                if (!o->findExtension<xi::DiscreteMeasurements>()) { o->newExtension<xi::DiscreteMeasurementsAdder>().add(); return; }
                auto& x = o->getExtension<xi::DiscreteMeasurements>();
                auto ad = x.newDiscreteMeasurement();
                if (g.r.chance(60)) ad.setId("dm" + std::to_string(g.r.below(10000)));
                if (tap) { if (!g.a.skip("no type")) ad.setType(DM::Type::TAP_POSITION); if (!g.a.skip("no tap changer")) ad.setTapChanger(g.r.of({DM::TapChanger::RATIO_TAP_CHANGER, DM::TapChanger::PHASE_TAP_CHANGER})); }
                else { if (!g.a.skip("no type")) ad.setType(DM::Type::SWITCH_POSITION); if (g.a.sel("tap changer")) ad.setTapChanger(DM::TapChanger::RATIO_TAP_CHANGER); }
                int k = static_cast<int>(g.r.below(3));
                if (g.a.skip("no value")) { ad.setValid(true); }
                else if (k == 0) ad.setValue(g.r.chance(50)); else if (k == 1) ad.setValue(static_cast<int>(g.r.range(-5, 20))); else ad.setValue("s" + g.text());
                if (g.r.chance(50)) ad.setValid(g.r.chance(70) || g.a.hitName == "no value");
                for (int i = static_cast<int>(g.r.below(3)); i > 0; --i) ad.putProperty("k" + std::to_string(g.r.below(4)), g.text());
                ad.add();
                break;
            }
            case 11: case 12: {
                using M = xi::Measurement;
                auto& o = g.one<Connectable>();
                g.note(" measurement " + o.getId());
                if (!o.findExtension<xi::Measurements>()) { o.newExtension<xi::MeasurementsAdder>().add(); return; }
                auto& x = o.getExtension<xi::Measurements>();
                auto ad = x.newMeasurement();
                size_t k = o.getTerminals().size();
                bool bbs = o.getType() == ConnectableType::BUSBAR_SECTION;
                auto type = bbs ? g.r.of({M::Type::ANGLE, M::Type::VOLTAGE, M::Type::FREQUENCY}) : g.r.of({M::Type::ANGLE, M::Type::ACTIVE_POWER, M::Type::REACTIVE_POWER, M::Type::CURRENT, M::Type::VOLTAGE, M::Type::OTHER});
                if (g.r.chance(60)) ad.setId("m" + std::to_string(g.r.below(10000)));
                if (!g.a.skip("no type")) ad.setType(type);
                bool noSide = k > 1 && type != M::Type::OTHER && g.a.skip("no side");
                if (k > 1 && !noSide) ad.setSide(k == 2 ? g.r.of({M::Side::ONE, M::Side::TWO}) : g.r.of({M::Side::ONE, M::Side::TWO, M::Side::THREE}));
                if (k == 1 && g.a.sel("side")) ad.setSide(M::Side::ONE);
                bool noVal = g.a.skip("no value");
                if (!noVal) ad.setValue(g.a.o("value", g.val()));
                if (noVal) ad.setValid(true); else if (g.r.chance(50)) ad.setValid(g.r.chance(60));
                if (g.r.chance(50)) ad.setStandardDeviation(g.a.o("standardDeviation", g.val()));
                for (int i = static_cast<int>(g.r.below(3)); i > 0; --i) ad.putProperty("k" + std::to_string(g.r.below(4)), g.text());
                ad.add();
                break;
            }
            case 13: { auto& o = g.one<StaticVarCompensator>(); g.note(" vprc " + o.getId()); g.made = o.getId() + "/x:voltagePerReactivePowerControl"; o.newExtension<xi::VoltagePerReactivePowerControlAdder>().withSlope(g.a.d("slope", std::fabs(g.val()), {NaN, -1.0})).add(); break; }
            case 14: { auto& o = g.one<HvdcLine>(); g.note(" droop " + o.getId()); g.made = o.getId() + "/x:hvdcAngleDroopActivePowerControl"; o.newExtension<xi::HvdcAngleDroopActivePowerControlAdder>().withDroop(g.a.d("droop", g.val())).withP0(g.a.d("p0", g.val())).withEnabled(g.r.chance(50)).add(); break; }
            case 15: { auto& o = g.one<HvdcLine>(); g.note(" opr " + o.getId()); g.made = o.getId() + "/x:hvdcOperatorActivePowerRange"; o.newExtension<xi::HvdcOperatorActivePowerRangeAdder>().withOprFromCS1toCS2(g.a.d("opr1", std::fabs(g.val()), {-1.0})).withOprFromCS2toCS1(g.a.d("opr2", std::fabs(g.val()), {-1.0})).add(); break; }
            case 16: { Identifiable* o = g.r.chance(50) ? static_cast<Identifiable*>(&g.one<Generator>()) : static_cast<Identifiable*>(&g.one<Battery>()); g.note(" apc " + o->getId()); g.made = o->getId() + "/x:activePowerControl"; double dr = g.a.o("droop", g.val()); bool pa = g.r.chance(50); g.a.o("participate", pa); o->newExtension<xi::ActivePowerControlAdder>().withDroop(dr).withParticipate(pa).add(); break; }
            case 17: { if (g.r.chance(50)) { auto& o = g.one<Substation>(); g.note(" area " + o.getId()); g.made = o.getId() + "/x:entsoeArea"; ulong_t co = g.r.below(43); g.a.o("code", static_cast<double>(co)); o.newExtension<xe::EntsoeAreaAdder>().withCode(static_cast<xe::EntsoeGeographicalCode>(co)).add(); } else { auto& o = g.one<DanglingLine>(); g.note(" xnode " + o.getId()); o.newExtension<xe::XnodeAdder>().withCode(g.a.s("code", g.text(), {""})).add(); } break; }
            default: { auto& o = g.one<Line>(); g.note(" mxn " + o.getId()); g.made = o.getId() + "/x:mergedXnode"; o.newExtension<xe::MergedXnodeAdder>().withCode(g.a.s("code", g.text(), {""})).withLine1Name(g.text()).withLine2Name(g.text()).withRdp(g.a.d("rdp", g.r.unit(), {NaN, -0.1, 1.1})).withXdp(g.a.d("xdp", g.r.unit(), {NaN, -0.1, 1.1})).withXnodeP1(g.a.d("p1", g.val())).withXnodeQ1(g.a.d("q1", g.val())).withXnodeP2(g.a.d("p2", g.val())).withXnodeQ2(g.a.d("q2", g.val())).add(); }
        }
    });
    def("removeExtension", 'X', [](Gen& g) {
        std::vector<std::pair<Identifiable*, std::string>> c;
        for (auto* o : g.all<Identifiable>()) for (Extension& e : o->getExtensions()) c.emplace_back(o, e.getName());
        if (c.empty()) throw Skip();
        std::sort(c.begin(), c.end(), [](const std::pair<Identifiable*, std::string>& x, const std::pair<Identifiable*, std::string>& y) { return x.first->getId() + x.second < y.first->getId() + y.second; });
        auto& x = g.r.pick(c);
        g.note(" " + x.first->getId() + " " + x.second);
        removeExtensionByName(*x.first, x.second);
    });
    return v;
}

const std::vector<Gen::OpDef>& Gen::ops() {
    static const std::vector<OpDef> v = makeOps();
    return v;
}
const Gen::OpDef& Gen::op(const std::string& name) {
    for (const auto& o : ops()) if (o.name == name) return o;
    throw std::logic_error("no operation " + name);
}
void Gen::run(const OpDef& o, uint64_t sub, long hit) {
    r = Rng(sub);
    a = Args();
    a.hit = hit;
    a.bad = Rng(sub ^ 0x5bd1e995u);
    desc = o.name;
    made.clear();
    places.clear();
    o.fn(*this);
}
bool Gen::random(Rng& rng, const std::string& cats, int badPct) {
    const auto& os = ops();
    for (int tries = 0; tries < 40; ++tries) {
        const OpDef& o = os[rng.below(os.size())];
        if (cats.find(o.cat) == std::string::npos) continue;
        uint64_t sub = rng.u64();
        long hit = rng.chance(badPct) ? static_cast<long>(rng.below(14)) : -1;
        try {
            run(o, sub, hit);
            logOp(desc);
            R.count("ops_accepted");
            R.seen("op_kinds", o.name);
            return true;
        } catch (const Skip&) {
        } catch (const std::exception& e) {
            if (!isLibraryError(e)) {
                // other exceptions are the business of the refusal monitor only
                R.count("ops_refused_other");
            }
            logOp(desc + " ! " + e.what());
            R.count("ops_refused");
            return true;
        }
    }
    return false;
}
void Gen::build(Rng& rng, int size) {
    auto doOp = [&](const char* name) {
        uint64_t sub = rng.u64();
        try {
            run(op(name), sub);
            logOp(desc);
            R.count("ops_accepted");
            return true;
        } catch (const Skip&) {
            return false;
        } catch (const std::exception& e) {
            logOp(desc + " ! " + e.what());
            R.count("ops_refused");
            return false;
        }
    };
    int ns = 1 + static_cast<int>(rng.below(static_cast<uint64_t>(1 + size / 12)));
    for (int i = 0; i < ns; ++i) doOp("newSubstation");
    int nv = ns + static_cast<int>(rng.range(1, 1 + size / 10));
    for (int i = 0; i < nv; ++i) doOp("newVoltageLevel");
    static const std::vector<const char*> kinds = {"newLoad", "newGenerator", "newBattery", "newShunt", "newSvc", "newVsc", "newVsc", "newLcc", "newDanglingLine", "newLine", "newLine", "newTieLine", "newTwoWindings", "newThreeWindings",
                                                   "newBusSwitch", "newBusSwitch", "newSwitch", "newSwitch", "newSwitch", "newSwitch", "newInternalConnection", "newBusbarSection", "newBus"};
    static const std::vector<const char*> parts = {"newHvdcLine", "newRtc", "newPtc", "newLimits", "newLimits", "newReactiveLimits", "newReactiveLimits", "addAlias", "setProperty", "newExtension", "newExtension", "newExtension", "setRegulatingTerminal", "set", "set"};
    for (int i = 0; i < size; ++i) doOp(rng.pick(kinds));
    for (int i = 0; i < size; ++i) doOp(rng.pick(parts));
    // feeders of node/breaker voltage levels get a path to a busbar section
    for (auto* v : all<VoltageLevel>()) {
        if (v->getTopologyKind() != TopologyKind::NODE_BREAKER) continue;
        auto& nb = v->getNodeBreakerView();
        std::vector<ulong_t> bbs;
        for (BusbarSection& b : nb.getBusbarSections()) bbs.push_back(b.getTerminal().getNodeBreakerView().getNode());
        if (bbs.empty()) continue;
        std::sort(bbs.begin(), bbs.end());
        std::vector<ulong_t> nodes = usedNodes(*v);
        r = Rng(rng.u64());
        for (ulong_t node : nodes) {
            if (std::find(bbs.begin(), bbs.end(), node) != bbs.end() || rng.chance(30)) continue;
            try {
                ulong_t target = rng.pick(bbs);
                int how = static_cast<int>(rng.below(4));
                if (how == 0) nb.newInternalConnection().setNode1(node).setNode2(target).add();
                else if (how == 1) nb.newBreaker().setId(newId("CB")).setNode1(node).setNode2(target).setOpen(rng.chance(25)).setRetained(rng.chance(50)).add();
                else {
                    ulong_t mid = static_cast<ulong_t>(nb.getMaximumNodeIndex() + 1);
                    nb.newBreaker().setId(newId("CB")).setNode1(node).setNode2(mid).setOpen(rng.chance(25)).setRetained(rng.chance(50)).add();
                    nb.newDisconnector().setId(newId("DS")).setNode1(mid).setNode2(target).setOpen(rng.chance(10)).add();
                    if (how == 3 && bbs.size() > 1) nb.newDisconnector().setId(newId("DS")).setNode1(mid).setNode2(bbs[rng.below(bbs.size())]).setOpen(rng.chance(70)).add();
                }
            } catch (const std::exception&) {
                R.count("ops_refused");
            }
        }
    }
}

}  // namespace vmon
