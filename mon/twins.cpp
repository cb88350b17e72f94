// Every way to reach the same thing reaches the same thing: const and non-const accessors, lookups by identifier, by side, by level.
#include "oracle.hpp"
#include <powsybl/iidm/IdBasedBusRef.hpp>
#include <powsybl/iidm/Component.hpp>
#include <powsybl/iidm/OperationalLimits.hpp>
#include <powsybl/iidm/util/ConnectedComponents.hpp>

namespace vmon {
using namespace powsybl::iidm;
using stdcxx::CReference;
using stdcxx::Reference;

namespace {
template <typename T> const void* addressOf(const T& o) { return dynamic_cast<const void*>(&o); }
template <typename T> const void* addressOf(const std::reference_wrapper<T>& o) { return dynamic_cast<const void*>(&o.get()); }
template <typename Rg> std::vector<const void*> addresses(Rg&& r) {
    std::vector<const void*> v;
    for (auto&& o : r) v.push_back(addressOf(o));
    return v;
}
template <typename A, typename B> void same(A&& a, B&& b, const std::string& key, const std::string& what) {
    auto x = addresses(a), y = addresses(b);
    VCHECK(x == y, key, what + ": " + S((ulong_t)x.size()) + " and " + S((ulong_t)y.size()) + " objects");
    R.count("twin_ranges");
}
template <typename A, typename B> bool one(const A& a, const B& b) { return !a ? !b : (b && &a.get() == &b.get()); }
template <typename F> std::string outcome(F f) {
    try { return f(); } catch (const std::exception& e) { return isLibraryError(e) ? "refused" : "error " + typeName(e); }
}
}  // namespace

#define TWIN(G) same(co.G(), o.G(), P + "twins:" #G, what)

void checkIndexTwins(Network& n, const std::string& P) {
    {
        Network& o = n;
        const Network& co = n;
        std::string what = "network";
        TWIN(getBatteries); TWIN(getBranches); TWIN(getBusbarSections); TWIN(getDanglingLines); TWIN(getGenerators); TWIN(getHvdcConverterStations); TWIN(getHvdcLines); TWIN(getIdentifiables);
        TWIN(getLccConverterStations); TWIN(getLines); TWIN(getLoads); TWIN(getShuntCompensators); TWIN(getStaticVarCompensators); TWIN(getSubstations); TWIN(getSwitches);
        TWIN(getThreeWindingsTransformers); TWIN(getTwoWindingsTransformers); TWIN(getVoltageLevels); TWIN(getVscConverterStations); TWIN(getStatefulObjects); TWIN(getConnectables<Connectable>);
        VCHECK(&co.getNetwork() == &n && &o.getNetwork() == &n && &co.getVariantManager() == &o.getVariantManager(), P + "twins:network", "");
    }
    for (Substation& o : n.getSubstations()) {
        const Substation& co = o;
        std::string what = o.getId();
        TWIN(getThreeWindingsTransformers); TWIN(getTwoWindingsTransformers); TWIN(getVoltageLevels);
        VCHECK(&co.getNetwork() == &n && co.getContainerType() == Container::Type::SUBSTATION, P + "twins:substation", what);
    }
    std::vector<Connectable*> all;
    for (Connectable& c : n.getConnectables<Connectable>()) all.push_back(&c);
    for (VoltageLevel& o : n.getVoltageLevels()) {
        const VoltageLevel& co = o;
        std::string what = o.getId();
        TWIN(getBatteries); TWIN(getDanglingLines); TWIN(getGenerators); TWIN(getLccConverterStations); TWIN(getLoads); TWIN(getShuntCompensators); TWIN(getStaticVarCompensators); TWIN(getSwitches);
        TWIN(getVscConverterStations); TWIN(getConnectables<Connectable>); TWIN(getConnectables<Line>); TWIN(getConnectables<ThreeWindingsTransformer>);
        VCHECK(&co.getNetwork() == &n && &co.getSubstation() == &o.getSubstation() && co.getContainerType() == Container::Type::VOLTAGE_LEVEL, P + "twins:voltage-level", what);
        // equipment of this level is found here, equipment of other levels is refused
        for (Connectable* c : all) {
            bool here = false;
            for (Terminal& t : c->getTerminals()) here = here || &t.getVoltageLevel() == &o;
            std::string got = outcome([&]() { auto r = co.getConnectable<Connectable>(c->getId()); return !r ? "none" : &r.get() == c ? "it" : "another"; });
            VCHECK(got == (here ? "it" : "refused"), P + "twins:getConnectable", c->getId() + " in " + what + ": " + got);
            got = outcome([&]() { auto r = o.getConnectable<Load>(c->getId()); return !r ? "none" : &r.get() == dynamic_cast<Load*>(c) ? "it" : "another"; });
            VCHECK(got == (c->getType() != ConnectableType::LOAD ? "none" : here ? "it" : "refused"), P + "twins:getConnectable", "load " + c->getId() + " in " + what + ": " + got);
        }
        VCHECK(!co.getConnectable<Connectable>("no such equipment"), P + "twins:getConnectable", "unknown");
        if (o.getTopologyKind() == TopologyKind::NODE_BREAKER) {
            auto& v = o.getNodeBreakerView();
            const auto& cv = co.getNodeBreakerView();
            same(cv.getBusbarSections(), v.getBusbarSections(), P + "twins:nb:getBusbarSections", what);
            same(cv.getSwitches(), v.getSwitches(), P + "twins:nb:getSwitches", what);
            std::set<ulong_t> nodes;
            ulong_t ends = 0, ics = 0;
            for (ulong_t x : cv.getNodes()) {
                nodes.insert(x);
                VCHECK(one(cv.getTerminal(x), v.getTerminal(x)) && one(cv.getTerminal(x), cv.getOptionalTerminal(x)) && one(cv.getTerminal(x), v.getOptionalTerminal(x)), P + "twins:nb:getTerminal", what + " " + S(x));
            }
            for (ulong_t x : {0ul, 1ul, 7ul, 1000ul, 4000000000ul, ~0ul}) {
                VCHECK(cv.hasAttachedEquipment(x) == (nodes.count(x) != 0), P + "twins:nb:hasAttachedEquipment", what + " " + S(x));
                if (!nodes.count(x)) VCHECK(!cv.getOptionalTerminal(x), P + "twins:nb:getOptionalTerminal", what + " " + S(x));
            }
            long mx = nodes.empty() ? -1 : static_cast<long>(*nodes.rbegin());
            VCHECK(cv.getMaximumNodeIndex() == mx, P + "twins:nb:getMaximumNodeIndex", what + " " + S(cv.getMaximumNodeIndex()) + " expected " + S(mx));
            for (Switch& s : v.getSwitches()) {
                ++ends;
                VCHECK(&cv.getSwitch(s.getId()).get() == &s && &v.getSwitch(s.getId()).get() == &s, P + "twins:nb:getSwitch", s.getId());
                VCHECK(one(cv.getTerminal1(s.getId()), cv.getTerminal(cv.getNode1(s.getId()))) && one(v.getTerminal1(s.getId()), cv.getTerminal(cv.getNode1(s.getId()))), P + "twins:nb:getTerminal1", s.getId());
                VCHECK(one(cv.getTerminal2(s.getId()), cv.getTerminal(cv.getNode2(s.getId()))) && one(v.getTerminal2(s.getId()), cv.getTerminal(cv.getNode2(s.getId()))), P + "twins:nb:getTerminal2", s.getId());
                VCHECK(&static_cast<const Switch&>(s).getVoltageLevel() == &o && &static_cast<const Switch&>(s).getNetwork() == &n, P + "twins:switch", s.getId());
            }
            for (const auto& ic : cv.getInternalConnections()) { ++ics; VCHECK(nodes.count(ic.getNode1()) && nodes.count(ic.getNode2()), P + "twins:nb:internal-connection-nodes", what); }
            VCHECK(cv.getInternalConnectionCount() == ics, P + "twins:nb:getInternalConnectionCount", what);
            for (BusbarSection& b : v.getBusbarSections()) {
                auto f = v.getBusbarSection(b.getId());
                auto cf = cv.getBusbarSection(b.getId());
                VCHECK(f && &f.get() == &b && cf && &cf.get() == &b, P + "twins:nb:getBusbarSection", b.getId());
            }
            VCHECK(!cv.getSwitch("no such switch"), P + "twins:nb:getSwitch", "unknown");
            for (int k = 0; k < 2; ++k) VCHECK(outcome([&]() { k ? v.getNode1("no such switch") : v.getNode2("no such switch"); return "found"; }) == "refused", P + "twins:nb:node-of-unknown", what);
        } else {
            auto& v = o.getBusBreakerView();
            const auto& cv = co.getBusBreakerView();
            same(cv.getSwitches(), o.getSwitches(), P + "twins:bb:getSwitches", what);
            for (Switch& s : v.getSwitches()) {
                auto f = v.getSwitch(s.getId());
                auto cf = cv.getSwitch(s.getId());
                VCHECK(f && &f.get() == &s && cf && &cf.get() == &s, P + "twins:bb:getSwitch", s.getId());
                VCHECK(one(cv.getBus1(s.getId()), v.getBus1(s.getId())) && one(cv.getBus2(s.getId()), v.getBus2(s.getId())) && cv.getBus1(s.getId()) && cv.getBus2(s.getId()), P + "twins:bb:buses-of-switch", s.getId());
            }
            VCHECK(cv.getSwitchCount() == addresses(cv.getSwitches()).size(), P + "twins:bb:getSwitchCount", what);
            VCHECK(!cv.getSwitch("no such switch") && !cv.getBus("no such bus"), P + "twins:bb:unknown", what);
        }
    }
    for (Connectable* c : all) {
        Connectable& o = *c;
        const Connectable& co = o;
        std::string what = o.getId();
        TWIN(getTerminals);
        VCHECK(&co.getNetwork() == &n && &o.getNetwork() == &n, P + "twins:network-of", what);
        if (auto* b = dynamic_cast<Branch*>(c)) {
            const Branch& cb = *b;
            VCHECK(&cb.getTerminal(Branch::Side::ONE) == &b->getTerminal1() && &b->getTerminal(Branch::Side::TWO) == &cb.getTerminal2(), P + "twins:branch:terminal-of-side", what);
            VCHECK(b->getSide(b->getTerminal1()) == Branch::Side::ONE && cb.getSide(cb.getTerminal2()) == Branch::Side::TWO, P + "twins:branch:side-of-terminal", what);
            const std::string &l1 = b->getTerminal1().getVoltageLevel().getId(), &l2 = b->getTerminal2().getVoltageLevel().getId();
            for (const VoltageLevel& v : n.getVoltageLevels()) {
                std::string want = v.getId() == l1 ? (l1 == l2 ? "refused" : "1") : v.getId() == l2 ? "2" : "refused";
                std::string got = outcome([&]() { return &b->getTerminal(v.getId()) == &b->getTerminal1() ? "1" : "2"; }), cgot = outcome([&]() { return &cb.getTerminal(v.getId()) == &cb.getTerminal1() ? "1" : "2"; });
                VCHECK(got == want && cgot == want, P + "twins:branch:terminal-of-level", what + " " + v.getId() + " " + got + " expected " + want);
            }
            for (auto side : {Branch::Side::ONE, Branch::Side::TWO}) {
                bool f = side == Branch::Side::ONE;
                VCHECK(one(cb.getCurrentLimits(side), b->getCurrentLimits(side)) && one(cb.getCurrentLimits(side), f ? cb.getCurrentLimits1() : cb.getCurrentLimits2()) && one(cb.getCurrentLimits(side), f ? b->getCurrentLimits1() : b->getCurrentLimits2()), P + "twins:limits", what + " current");
                VCHECK(one(cb.getActivePowerLimits(side), b->getActivePowerLimits(side)) && one(cb.getActivePowerLimits(side), f ? cb.getActivePowerLimits1() : cb.getActivePowerLimits2()) && one(cb.getActivePowerLimits(side), f ? b->getActivePowerLimits1() : b->getActivePowerLimits2()), P + "twins:limits", what + " active power");
                VCHECK(one(cb.getApparentPowerLimits(side), b->getApparentPowerLimits(side)) && one(cb.getApparentPowerLimits(side), f ? cb.getApparentPowerLimits1() : cb.getApparentPowerLimits2()) && one(cb.getApparentPowerLimits(side), f ? b->getApparentPowerLimits1() : b->getApparentPowerLimits2()), P + "twins:limits", what + " apparent power");
                if (cb.getCurrentLimits(side)) VCHECK(cb.getCurrentLimits(side).get().getLimitType() == LimitType::CURRENT, P + "twins:limit-type", what);
                if (cb.getActivePowerLimits(side)) VCHECK(cb.getActivePowerLimits(side).get().getLimitType() == LimitType::ACTIVE_POWER, P + "twins:limit-type", what);
                if (cb.getApparentPowerLimits(side)) VCHECK(cb.getApparentPowerLimits(side).get().getLimitType() == LimitType::APPARENT_POWER, P + "twins:limit-type", what);
            }
        }
        if (auto* l = dynamic_cast<TieLine*>(c)) {
            const TieLine& cl = *l;
            VCHECK(cl.isTieLine() && &cl.getHalf(Branch::Side::ONE) == &l->getHalf1() && &l->getHalf(Branch::Side::TWO) == &cl.getHalf2() && &cl.getHalf1() == &l->getHalf(Branch::Side::ONE), P + "twins:tie-line:half", what);
        }
        if (auto* t = dynamic_cast<ThreeWindingsTransformer*>(c)) {
            const ThreeWindingsTransformer& ct = *t;
            VCHECK(&ct.getTerminal(ThreeWindingsTransformer::Side::ONE) == &t->getLeg1().getTerminal() && &ct.getTerminal(ThreeWindingsTransformer::Side::TWO) == &t->getLeg2().getTerminal() && &t->getTerminal(ThreeWindingsTransformer::Side::THREE) == &ct.getLeg3().getTerminal(), P + "twins:3wt:terminal", what);
            VCHECK(t->getSide(ct.getLeg1().getTerminal()) == ThreeWindingsTransformer::Side::ONE && t->getSide(ct.getLeg2().getTerminal()) == ThreeWindingsTransformer::Side::TWO && t->getSide(ct.getLeg3().getTerminal()) == ThreeWindingsTransformer::Side::THREE, P + "twins:3wt:side", what);
            VCHECK(&ct.getSubstation() == &t->getSubstation() && &ct.getSubstation() == &ct.getLeg2().getTerminal().getVoltageLevel().getSubstation(), P + "twins:3wt:substation", what);
            std::set<std::string> names;
            for (auto* leg : {&t->getLeg1(), &t->getLeg2(), &t->getLeg3()}) {
                const auto& cleg = *leg;
                VCHECK(one(cleg.getCurrentLimits(), leg->getCurrentLimits()) && one(cleg.getActivePowerLimits(), leg->getActivePowerLimits()) && one(cleg.getApparentPowerLimits(), leg->getApparentPowerLimits()), P + "twins:3wt:limits", what);
                same(cleg.getOperationalLimits(), leg->getOperationalLimits(), P + "twins:3wt:operational-limits", what);
                VCHECK(static_cast<bool>(leg->getOptionalPhaseTapChanger()) == leg->hasPhaseTapChanger() && static_cast<bool>(leg->getOptionalRatioTapChanger()) == leg->hasRatioTapChanger(), P + "twins:3wt:tap-changers", what);
                VCHECK(outcome([&]() { return &cleg.getRatioTapChanger() == &leg->getRatioTapChanger() ? "same" : "different"; }) == (leg->hasRatioTapChanger() ? "same" : "refused"), P + "twins:3wt:ratio-tap-changer", what);
                VCHECK(outcome([&]() { return &cleg.getPhaseTapChanger() == &leg->getPhaseTapChanger() ? "same" : "different"; }) == (leg->hasPhaseTapChanger() ? "same" : "refused"), P + "twins:3wt:phase-tap-changer", what);
                VCHECK(&cleg.getNetwork() == &n, P + "twins:3wt:leg", what);
            }
        }
        if (auto* t = dynamic_cast<TwoWindingsTransformer*>(c)) {
            const TwoWindingsTransformer& ct = *t;
            VCHECK(static_cast<bool>(t->getOptionalPhaseTapChanger()) == t->hasPhaseTapChanger() && static_cast<bool>(t->getOptionalRatioTapChanger()) == t->hasRatioTapChanger(), P + "twins:2wt:tap-changers", what);
            VCHECK(outcome([&]() { return &ct.getRatioTapChanger() == &t->getRatioTapChanger() ? "same" : "different"; }) == (t->hasRatioTapChanger() ? "same" : "refused"), P + "twins:2wt:ratio-tap-changer", what);
            VCHECK(outcome([&]() { return &ct.getPhaseTapChanger() == &t->getPhaseTapChanger() ? "same" : "different"; }) == (t->hasPhaseTapChanger() ? "same" : "refused"), P + "twins:2wt:phase-tap-changer", what);
            VCHECK(one(ct.getSubstation(), t->getSubstation()) && ct.getSubstation() && &ct.getSubstation().get() == &ct.getTerminal1().getVoltageLevel().getSubstation(), P + "twins:2wt:substation", what);
        }
        if (auto* d = dynamic_cast<DanglingLine*>(c)) {
            const DanglingLine& cd = *d;
            VCHECK(one(cd.getCurrentLimits(), d->getCurrentLimits()) && one(cd.getActivePowerLimits(), d->getActivePowerLimits()) && one(cd.getApparentPowerLimits(), d->getApparentPowerLimits()), P + "twins:dangling-line:limits", what);
            same(cd.getOperationalLimits(), d->getOperationalLimits(), P + "twins:dangling-line:operational-limits", what);
            VCHECK(&cd.getBoundary().getConnectable() == c && &d->getBoundary().getConnectable() == c && &cd.getBoundary().getVoltageLevel() == &cd.getTerminal().getVoltageLevel() && !cd.getBoundary().getSide(), P + "twins:dangling-line:boundary", what);
        }
        if (auto* s = dynamic_cast<HvdcConverterStation*>(c)) {
            const HvdcConverterStation& cs = *s;
            VCHECK(cs.getHvdcType() == (dynamic_cast<LccConverterStation*>(c) ? HvdcConverterStation::HvdcType::LCC : HvdcConverterStation::HvdcType::VSC), P + "twins:station:type", what);
            const HvdcLine* line = nullptr;
            for (const HvdcLine& h : n.getHvdcLines()) if (&h.getConverterStation1().get() == c || &h.getConverterStation2().get() == c) line = &h;
            auto f = static_cast<const Network&>(n).findHvdcLine(cs);
            auto g = n.findHvdcLine(cs);
            auto h = cs.getHvdcLine();
            VCHECK(line ? f && &f.get() == line && g && &g.get() == line && h && &h.get() == line : !f && !g && !h, P + "twins:hvdc-line-of-station", what);
            std::string want = line ? "it" : "refused";
            VCHECK(outcome([&]() { return &n.getHvdcLine(cs) == line ? "it" : "another"; }) == want && outcome([&]() { return &static_cast<const Network&>(n).getHvdcLine(cs) == line ? "it" : "another"; }) == want, P + "twins:hvdc-line-of-station", what);
        }
    }
    for (HvdcLine& h : n.getHvdcLines()) {
        const HvdcLine& ch = h;
        VCHECK(one(ch.getConverterStation(HvdcLine::Side::ONE), ch.getConverterStation1()) && one(h.getConverterStation(HvdcLine::Side::TWO), ch.getConverterStation2()) && one(h.getConverterStation(HvdcLine::Side::ONE), h.getConverterStation1()) && one(ch.getConverterStation(HvdcLine::Side::TWO), h.getConverterStation2()), P + "twins:hvdc:station-of-side", h.getId());
        VCHECK(&ch.getNetwork() == &n, P + "twins:network-of", h.getId());
    }
}

void checkViewTwins(Network& n, const std::string& P) {
    const Network& cn = n;
    same(cn.getBusView().getBuses(), n.getBusView().getBuses(), P + "twins:network:bus-view", "");
    same(cn.getBusBreakerView().getBuses(), n.getBusBreakerView().getBuses(), P + "twins:network:busbreaker-view", "");
    {
        std::set<const Switch*> want, got;
        size_t k = 0;
        for (const VoltageLevel& v : cn.getVoltageLevels()) for (const Switch& s : v.getSwitches()) if (v.getTopologyKind() == TopologyKind::BUS_BREAKER || s.isRetained()) want.insert(&s);
        for (const Switch& s : cn.getBusBreakerView().getSwitches()) { got.insert(&s); ++k; }
        VCHECK(got == want && k == want.size() && cn.getBusBreakerView().getSwitchCount() == k, P + "twins:network:busbreaker-switches", S((ulong_t)k) + " expected " + S((ulong_t)want.size()) + ", count " + S(cn.getBusBreakerView().getSwitchCount()));
        same(cn.getBusBreakerView().getSwitches(), n.getBusBreakerView().getSwitches(), P + "twins:network:busbreaker-switches", "");
    }
    auto bus = [&](Bus& o) {
        const Bus& co = o;
        std::string what = o.getId();
        TWIN(getBatteries); TWIN(getDanglingLines); TWIN(getGenerators); TWIN(getLccConverterStations); TWIN(getLines); TWIN(getLoads); TWIN(getShuntCompensators); TWIN(getStaticVarCompensators);
        TWIN(getThreeWindingsTransformers); TWIN(getTwoWindingsTransformers); TWIN(getVscConverterStations); TWIN(getConnectedTerminals);
        VCHECK(&co.getVoltageLevel() == &o.getVoltageLevel() && one(co.getConnectedComponent(), o.getConnectedComponent()) && one(co.getSynchronousComponent(), o.getSynchronousComponent()), P + "twins:bus", what);
        auto cc = co.getConnectedComponent();
        auto num = ConnectedComponents::getCcNum(co);
        auto num2 = ConnectedComponents::getCcNum(stdcxx::cref(co)), num3 = ConnectedComponents::getCcNum(stdcxx::ref(o));
        VCHECK(cc ? num && *num == cc.get().getNum() && num2 && *num2 == *num && num3 && *num3 == *num : !num && !num2 && !num3, P + "twins:component-number", what);
    };
    VCHECK(!ConnectedComponents::getCcNum(stdcxx::cref<Bus>()) && !ConnectedComponents::getCcNum(stdcxx::ref<Bus>()), P + "twins:component-number", "no bus");
    for (VoltageLevel& v : n.getVoltageLevels()) {
        const VoltageLevel& cv = v;
        same(cv.getBusView().getBuses(), v.getBusView().getBuses(), P + "twins:bus-view", v.getId());
        same(cv.getBusBreakerView().getBuses(), v.getBusBreakerView().getBuses(), P + "twins:busbreaker-view", v.getId());
        same(cv.getBusBreakerView().getSwitches(), v.getBusBreakerView().getSwitches(), P + "twins:busbreaker-view:switches", v.getId());
        for (Bus& b : v.getBusView().getBuses()) {
            bus(b);
            VCHECK(one(cv.getBusView().getBus(b.getId()), v.getBusView().getBus(b.getId())), P + "twins:bus-view:by-id", b.getId());
        }
        for (Bus& b : v.getBusBreakerView().getBuses()) {
            bus(b);
            VCHECK(one(cv.getBusBreakerView().getBus(b.getId()), v.getBusBreakerView().getBus(b.getId())), P + "twins:busbreaker-view:by-id", b.getId());
            if (v.getTopologyKind() == TopologyKind::BUS_BREAKER) {
                IdBasedBusRef r(b.getId());
                auto x = r.resolve(n, TopologyLevel::BUS_BREAKER);
                VCHECK(x && &x.get() == &b, P + "twins:bus-ref", b.getId());
                auto y = r.resolve(n, TopologyLevel::BUS_BRANCH);
                VCHECK(b.getConnectedTerminalCount() != 0 ? one(y, cv.getBusView().getMergedBus(b.getId())) : !y || one(y, cv.getBusView().getMergedBus(b.getId())), P + "twins:bus-ref", b.getId() + " in the bus view");
            }
        }
        for (Switch& s : v.getSwitches()) {
            bool in = v.getTopologyKind() == TopologyKind::BUS_BREAKER || s.isRetained();
            for (int k = 0; k < 2; ++k) {
                std::string got = outcome([&]() { return one(k ? cv.getBusBreakerView().getBus1(s.getId()) : cv.getBusBreakerView().getBus2(s.getId()), k ? v.getBusBreakerView().getBus1(s.getId()) : v.getBusBreakerView().getBus2(s.getId())) ? "same" : "different"; });
                VCHECK(got == (in ? "same" : "refused"), P + "twins:bus-of-switch", s.getId() + " " + got);
            }
            std::string got = outcome([&]() { return &cv.getBusBreakerView().getSwitch(s.getId()).get() == &s && &v.getBusBreakerView().getSwitch(s.getId()).get() == &s ? "same" : "different"; });
            VCHECK(got == (in ? "same" : "refused"), P + "twins:busbreaker-view:switch", s.getId() + " " + got);
        }
    }
    for (Connectable& c : n.getConnectables<Connectable>()) {
        auto refs = [&](IdBasedBusRef r, const Terminal& t) {
            VCHECK(one(r.resolve(n, TopologyLevel::BUS_BRANCH), t.getBusView().getBus()) && one(r.resolve(n, TopologyLevel::BUS_BREAKER), t.getBusBreakerView().getBus()), P + "twins:bus-ref", c.getId());
            VCHECK(outcome([&]() { r.resolve(n, TopologyLevel::NODE_BREAKER); return "resolved"; }) == "refused", P + "twins:bus-ref", "node/breaker level");
        };
        if (auto* i = dynamic_cast<Injection*>(&c)) {
            refs(IdBasedBusRef(c.getId()), i->getTerminal());
            VCHECK(outcome([&]() { IdBasedBusRef(c.getId(), Branch::Side::ONE).resolve(n, TopologyLevel::BUS_BRANCH); return "resolved"; }) == "refused", P + "twins:bus-ref", "side of an injection");
        } else if (auto* b = dynamic_cast<Branch*>(&c)) {
            refs(IdBasedBusRef(c.getId(), Branch::Side::ONE), b->getTerminal1());
            refs(IdBasedBusRef(c.getId(), Branch::Side::TWO), b->getTerminal2());
            VCHECK(outcome([&]() { IdBasedBusRef(c.getId()).resolve(n, TopologyLevel::BUS_BRANCH); return "resolved"; }) == "refused", P + "twins:bus-ref", "branch without side");
        }
    }
    VCHECK(!IdBasedBusRef("no such thing").resolve(n, TopologyLevel::BUS_BRANCH), P + "twins:bus-ref", "unknown");
}

void checkComponentTwins(Network& n, const std::string& P) {
    const Network& cn = n;
    same(cn.getBusView().getConnectedComponents(), n.getBusView().getConnectedComponents(), P + "twins:connected-components", "");
    same(cn.getBusView().getSynchronousComponents(), n.getBusView().getSynchronousComponents(), P + "twins:synchronous-components", "");
    for (Component& c : n.getBusView().getConnectedComponents()) same(static_cast<const Component&>(c).getBuses(), c.getBuses(), P + "twins:buses-of-component", S(c.getNum()));
    for (Component& c : n.getBusView().getSynchronousComponents()) same(static_cast<const Component&>(c).getBuses(), c.getBuses(), P + "twins:buses-of-component", S(c.getNum()));
    for (Terminal* t : allTerminals(n)) {
        auto b = static_cast<const Terminal*>(t)->getBusView().getBus();
        auto num = ConnectedComponents::getCcNum(b), num2 = ConnectedComponents::getCcNum(t->getBusView().getBus());
        auto c = b ? b.get().getConnectedComponent() : stdcxx::cref<Component>();
        VCHECK(c ? num && num2 && *num == c.get().getNum() && *num2 == *num : !num && !num2, P + "twins:component-number", tname(*t));
    }
}
}  // namespace vmon
