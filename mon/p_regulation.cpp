// P06: one regulating tap changer per transformer, against a model of who regulates in which variant.
#include "pick.hpp"
#include <powsybl/iidm/PhaseTapChangerAdder.hpp>
#include <powsybl/iidm/RatioTapChangerAdder.hpp>
#include <powsybl/iidm/SubstationAdder.hpp>
#include <powsybl/iidm/BusAdder.hpp>
#include <powsybl/iidm/VoltageLevelAdder.hpp>
#include <powsybl/iidm/ThreeWindingsTransformerAdder.hpp>
#include <powsybl/iidm/TwoWindingsTransformerAdder.hpp>
using namespace vmon;
using namespace powsybl;
using namespace powsybl::iidm;

namespace {
struct Slot {
    std::string owner, name;
    RatioTapChangerHolder* rh = nullptr;
    PhaseTapChangerHolder* ph = nullptr;
    bool present = false;
    std::map<std::string, bool> on;  // by variant
};
}  // namespace

MODULE(one_regulating) {
    Network n("net", "test");
    Substation& s = n.newSubstation().setId("S").setCountry(Country::FR).add();
    for (int i = 1; i <= 3; ++i) {
        VoltageLevel& v = s.newVoltageLevel().setId("V" + S((ulong_t)i)).setNominalV(100.0 * i).setTopologyKind(TopologyKind::BUS_BREAKER).add();
        v.getBusBreakerView().newBus().setId("B" + S((ulong_t)i)).add();
    }
    auto& t3 = s.newThreeWindingsTransformer().setId("T3").setRatedU0(100.0)
        .newLeg1().setVoltageLevel("V1").setBus("B1").setConnectableBus("B1").setR(1.0).setX(1.0).setG(0.0).setB(0.0).setRatedU(100.0).add()
        .newLeg2().setVoltageLevel("V2").setBus("B2").setConnectableBus("B2").setR(1.0).setX(1.0).setG(0.0).setB(0.0).setRatedU(200.0).add()
        .newLeg3().setVoltageLevel("V3").setBus("B3").setConnectableBus("B3").setR(1.0).setX(1.0).setG(0.0).setB(0.0).setRatedU(300.0).add()
        .add();
    auto& t2 = s.newTwoWindingsTransformer().setId("T2").setVoltageLevel1("V1").setBus1("B1").setConnectableBus1("B1").setVoltageLevel2("V2").setBus2("B2").setConnectableBus2("B2").setR(1.0).setX(1.0).setG(0.0).setB(0.0).setRatedU1(100.0).setRatedU2(200.0).add();
    std::vector<Terminal*> terminals = allTerminals(n);
    std::vector<Slot> slots;
    auto both = [&](const std::string& owner, const std::string& name, RatioTapChangerHolder& r, PhaseTapChangerHolder& p) {
        Slot a, b;
        a.owner = b.owner = owner;
        a.name = name + ".rtc";
        a.rh = &r;
        b.name = name + ".ptc";
        b.ph = &p;
        slots.push_back(a);
        slots.push_back(b);
    };
    both("T3", "leg1", t3.getLeg1(), t3.getLeg1());
    both("T3", "leg2", t3.getLeg2(), t3.getLeg2());
    both("T3", "leg3", t3.getLeg3(), t3.getLeg3());
    both("T2", "T2", t2, t2);
    auto& vm = n.getVariantManager();
    auto ids = [&] { return variantIds(n); };
    auto others = [&](const Slot& me, const std::string& v) {
        ulong_t k = 0;
        for (Slot& o : slots) if (&o != &me && o.owner == me.owner && o.present && o.on[v]) ++k;
        return k;
    };
    auto make = [&](Slot& x, bool reg) {
        Terminal& t = *rng.pick(terminals);
        if (x.rh) x.rh->newRatioTapChanger().setLowTapPosition(0).setTapPosition(0).setLoadTapChangingCapabilities(true).setTargetV(100.0).setTargetDeadband(1.0).setRegulationTerminal(stdcxx::ref(t)).setRegulating(reg).beginStep().setRho(1.0).setR(0.0).setX(0.0).setG(0.0).setB(0.0).endStep().add();
        else x.ph->newPhaseTapChanger().setLowTapPosition(0).setTapPosition(0).setRegulationMode(rng.chance(50) ? PhaseTapChanger::RegulationMode::CURRENT_LIMITER : PhaseTapChanger::RegulationMode::ACTIVE_POWER_CONTROL).setRegulationValue(10.0).setTargetDeadband(1.0).setRegulationTerminal(stdcxx::ref(t)).setRegulating(reg).beginStep().setAlpha(1.0).setRho(1.0).setR(0.0).setX(0.0).setG(0.0).setB(0.0).endStep().add();
    };
    auto is = [&](Slot& x) { return x.rh ? x.rh->getRatioTapChanger().isRegulating() : x.ph->getPhaseTapChanger().isRegulating(); };
    // most of the tap changers exist from the start
    for (Slot& x : slots) if (rng.chance(80)) { make(x, false); x.present = true; for (auto& v : ids()) x.on[v] = false; }
    int steps = static_cast<int>(rng.range(40, 120)), fresh = 0;
    std::string hist;
    for (int k = 0; k < steps; ++k) {
        Slot& x = rng.pick(slots);
        std::string w = vm.getWorkingVariantId();
        int what = static_cast<int>(rng.below(20));
        std::string text = x.owner + "/" + x.name;
        if (what < 12 && x.present) {
            bool on = what < 8, expected = !on || others(x, w) == 0;
            bool no = refused([&] { if (x.rh) x.rh->getRatioTapChanger().setRegulating(on); else x.ph->getPhaseTapChanger().setRegulating(on); });
            logOp("setRegulating " + text + (on ? " true in " : " false in ") + w + (no ? ": refused" : ""));
            VCHECK(no != expected, std::string("one-regulating:set:") + (expected ? "refused" : "accepted"), text + " in " + w + ", " + S(others(x, w)) + " others regulating");
            if (!no) x.on[w] = on;
            hist += no ? "n" : "s";
        } else if (what < 15) {
            bool on = rng.chance(70), expected = true;
            if (on) for (auto& v : ids()) expected = expected && others(x, v) == 0;
            bool no = refused([&] { make(x, on); });
            logOp("new " + text + (on ? " regulating" : "") + (no ? ": refused" : ""));
            VCHECK(no != expected, std::string("one-regulating:new:") + (expected ? "refused" : "accepted"), text);
            if (!no) { x.present = true; x.on.clear(); for (auto& v : ids()) x.on[v] = on; }
            hist += no ? "N" : "a";
        } else if (what < 16 && x.present) {
            if (x.rh) x.rh->getRatioTapChanger().remove(); else x.ph->getPhaseTapChanger().remove();
            x.present = false;
            x.on.clear();
            logOp("remove " + text);
        } else if (what < 18) {
            std::string v = rng.pick(ids());
            vm.setWorkingVariant(v);
            logOp("select " + v);
        } else if (ids().size() < 4) {
            std::string from = rng.pick(ids()), to = "v" + S((ulong_t)++fresh);
            vm.cloneVariant(from, to);
            for (Slot& o : slots) if (o.present) o.on[to] = o.on[from];
            logOp("clone " + from + " into " + to);
        } else if (w != vm.getInitialVariantId()) {
            vm.removeVariant(w);
            vm.setWorkingVariant(vm.getInitialVariantId());
            for (Slot& o : slots) o.on.erase(w);
            logOp("remove variant " + w);
        }
        for (Slot& o : slots) {
            bool here = o.rh ? o.rh->hasRatioTapChanger() : o.ph->hasPhaseTapChanger();
            VCHECK(here == o.present, "one-regulating:present", o.owner + "/" + o.name);
            if (here) VCHECK(is(o) == o.on[vm.getWorkingVariantId()], "one-regulating:state", o.owner + "/" + o.name);
        }
    }
    checkRules(n, "");
    R.seen("cover", hist);
    R.count("regulation_histories");
}
