#include "oracle.hpp"

using namespace powsybl::iidm;

namespace vmon {

void eachVariant(Network& n, const std::function<void(const std::string&)>& f) {
    auto& vm = n.getVariantManager();
    std::string w = vm.getWorkingVariantId();
    std::vector<std::string> ids;
    for (const auto& v : vm.getVariantIds()) ids.push_back(v);
    for (const auto& v : ids) {
        vm.setWorkingVariant(v);
        f(v);
    }
    vm.setWorkingVariant(w);
}
std::set<std::string> namesOf(Network& n) {
    std::set<std::string> s;
    for (Identifiable& id : n.getIdentifiables()) {
        s.insert(id.getId());
        for (const auto& a : id.getAliases()) s.insert(a);
    }
    return s;
}

// ------------------------------------------------------------------------------------------------- topology
namespace {
struct Uf {
    std::map<std::string, std::string> p;
    std::string find(const std::string& x) {
        auto it = p.find(x);
        if (it == p.end()) { p[x] = x; return x; }
        if (it->second == x) return x;
        std::string r = find(it->second);
        p[x] = r;
        return r;
    }
    void join(const std::string& a, const std::string& b) { p[find(a)] = find(b); }
};
enum class EqClass { Branch, Feeder, Bbs };
EqClass eqClass(const Connectable& c) {
    std::string k = kindOf(c);
    if (k == "BBS") return EqClass::Bbs;
    if (k == "LINE" || k == "TIELINE" || k == "2WT" || k == "3WT" || k == "VSC" || k == "LCC" || k == "DL") return EqClass::Branch;
    return EqClass::Feeder;
}
std::string join(const std::set<std::string>& s) {
    std::string r;
    for (auto& x : s) r += x + ",";
    return r;
}
}  // namespace

RefTopo referenceTopo(Network& n) {
    RefTopo R0;
    const Network& cn = n;
    std::map<const VoltageLevel*, std::vector<Terminal*>> termsOf;
    for (Terminal* t : allTerminals(n)) termsOf[&static_cast<const Terminal*>(t)->getVoltageLevel()].push_back(t);
    for (VoltageLevel& vl : n.getVoltageLevels()) {
        const VoltageLevel& cv = vl;
        if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) {
            Uf bus, bb;
            std::set<std::string> edged;
            for (const Switch& s : cv.getNodeBreakerView().getSwitches()) {
                std::string a = S(cv.getNodeBreakerView().getNode1(s.getId())), b = S(cv.getNodeBreakerView().getNode2(s.getId()));
                edged.insert(a);
                edged.insert(b);
                if (!s.isOpen()) { bus.join(a, b); if (!s.isRetained()) bb.join(a, b); }
            }
            for (const auto& ic : cv.getNodeBreakerView().getInternalConnections()) {
                std::string a = S(ic.getNode1()), b = S(ic.getNode2());
                edged.insert(a);
                edged.insert(b);
                bus.join(a, b);
                bb.join(a, b);
            }
            std::map<std::string, Terminal*> at;
            for (Terminal* t : termsOf[&cv]) at[S(t->getNodeBreakerView().getNode())] = t;
            auto fill = [&](Uf& uf, bool busView) {
                std::map<std::string, Group> g;
                for (const auto& x : edged) {
                    Group& gr = g[uf.find(x)];
                    gr.vl = &vl;
                    gr.members.insert(x);
                    auto it = at.find(x);
                    if (it != at.end()) { gr.terms.insert(tname(*it->second)); gr.tset.insert(it->second); }
                }
                for (auto& kv : g) {
                    int feeders = 0, branches = 0, bbs = 0;
                    for (const Terminal* t : kv.second.tset) {
                        switch (eqClass(t->getConnectable().get())) {
                            case EqClass::Branch: ++branches; ++feeders; break;
                            case EqClass::Feeder: ++feeders; break;
                            case EqClass::Bbs: ++bbs; break;
                        }
                    }
                    kv.second.valid = busView ? (bbs >= 1 && feeders >= 1) || (branches >= 1 && feeders >= 2) : true;
                    auto& list = busView ? R0.bus : R0.bb;
                    int i = static_cast<int>(list.size());
                    for (const Terminal* t : kv.second.tset) (busView ? R0.busOf : R0.bbOf)[t] = i;
                    for (const auto& m : kv.second.members) (busView ? R0.busOfMember : R0.bbOfMember)[{&cv, m}] = i;
                    list.push_back(kv.second);
                }
            };
            fill(bus, true);
            fill(bb, false);
        } else {
            Uf uf;
            std::set<std::string> buses;
            for (const Bus& b : cv.getBusBreakerView().getBuses()) { buses.insert(b.getId()); uf.find(b.getId()); }
            for (const Switch& s : cv.getBusBreakerView().getSwitches()) {
                if (!s.isOpen()) uf.join(cv.getBusBreakerView().getBus1(s.getId()).get().getId(), cv.getBusBreakerView().getBus2(s.getId()).get().getId());
            }
            std::map<std::string, std::set<Terminal*>> at;
            for (Terminal* t : termsOf[&cv]) {
                if (t->isConnected()) at[static_cast<const Terminal*>(t)->getBusBreakerView().getConnectableBus().get().getId()].insert(t);
            }
            std::map<std::string, Group> g;
            for (const auto& b : buses) {
                Group one;
                one.vl = &vl;
                one.merged = true;
                one.valid = true;
                one.members.insert(b);
                for (Terminal* t : at[b]) { one.terms.insert(tname(*t)); one.tset.insert(t); R0.bbOf[t] = static_cast<int>(R0.bb.size()); }
                R0.bbOfMember[{&cv, b}] = static_cast<int>(R0.bb.size());
                Group& gr = g[uf.find(b)];
                gr.vl = &vl;
                gr.merged = true;
                gr.members.insert(b);
                gr.terms.insert(one.terms.begin(), one.terms.end());
                gr.tset.insert(one.tset.begin(), one.tset.end());
                R0.bb.push_back(one);
            }
            for (auto& kv : g) {
                for (const Terminal* t : kv.second.tset) {
                    if (eqClass(t->getConnectable().get()) == EqClass::Branch) kv.second.valid = true;
                }
                int i = static_cast<int>(R0.bus.size());
                for (const Terminal* t : kv.second.tset) R0.busOf[t] = i;
                for (const auto& m : kv.second.members) R0.busOfMember[{&cv, m}] = i;
                R0.bus.push_back(kv.second);
            }
        }
    }
    // components
    Uf sync, comp;
    auto lab = [](int i) { return S(i); };
    auto busAt = [&](const Terminal& t) {
        auto it = R0.busOf.find(&t);
        return it == R0.busOf.end() || !R0.bus[static_cast<size_t>(it->second)].valid ? -1 : it->second;
    };
    auto link = [&](const std::vector<const Terminal*>& ts, bool dc) {
        for (size_t i = 0; i < ts.size(); ++i) {
            for (size_t j = i + 1; j < ts.size(); ++j) {
                int a = busAt(*ts[i]), b = busAt(*ts[j]);
                if (a >= 0 && b >= 0) { comp.join(lab(a), lab(b)); if (!dc) sync.join(lab(a), lab(b)); }
            }
        }
    };
    for (Identifiable& id : n.getIdentifiables()) {
        std::string k = kindOf(id);
        if (k == "LINE" || k == "TIELINE" || k == "2WT" || k == "3WT") {
            std::vector<const Terminal*> ts;
            for (Terminal* t : terminalsOf(id)) ts.push_back(t);
            link(ts, false);
        } else if (k == "HVDC") {
            auto& h = dynamic_cast<HvdcLine&>(id);
            if (h.getConverterStation1() && h.getConverterStation2()) link({&h.getConverterStation1().get().getTerminal(), &h.getConverterStation2().get().getTerminal()}, true);
        }
    }
    std::map<std::string, int> cl, sl;
    for (size_t i = 0; i < R0.bus.size(); ++i) {
        if (!R0.bus[i].valid) { R0.comp.push_back(-1); R0.sync.push_back(-1); continue; }
        int c = cl.insert({comp.find(lab(static_cast<int>(i))), static_cast<int>(cl.size())}).first->second;
        int s = sl.insert({sync.find(lab(static_cast<int>(i))), static_cast<int>(sl.size())}).first->second;
        R0.comp.push_back(c);
        R0.sync.push_back(s);
        R0.compSize[c]++;
        R0.syncSize[s]++;
    }
    (void)cn;
    return R0;
}

namespace {
std::string busText(const Bus& b) {
    std::set<std::string> s;
    for (const auto& t : b.getConnectedTerminals()) s.insert(tname(t));
    return join(s);
}
template <typename T> std::multiset<std::string> idSet(T&& r) {
    std::multiset<std::string> s;
    for (const auto& o : r) s.insert(o.getId());
    return s;
}
template <typename T> std::multiset<std::string> expectOnBus(const Group& g) {
    std::multiset<std::string> s;
    for (const Terminal* t : g.tset) {
        if (const T* o = dynamic_cast<const T*>(&t->getConnectable().get())) s.insert(o->getId());
    }
    return s;
}
std::string groupText(const Group& g) { return g.vl->getId() + "{" + join(g.members) + "|" + join(g.terms) + "}"; }
}  // namespace

RefTopo checkViews(Network& n, const std::string& P) {
    RefTopo ref = referenceTopo(n);
    const Network& cn = n;
    std::map<const Bus*, int> busIdx, bbIdx;
    std::map<int, Bus*> busOfGroup, bbOfGroup;
    size_t expBus = 0, expBb = 0;
    for (auto& g : ref.bus) expBus += g.valid ? 1 : 0;
    for (auto& g : ref.bb) expBb += g.valid ? 1 : 0;
    auto scan = [&](VoltageLevel& vl, bool busView) {
        const VoltageLevel& cv = vl;
        const char* w = busView ? "bus" : "busbreaker";
        auto& groups = busView ? ref.bus : ref.bb;
        auto& idx = busView ? busIdx : bbIdx;
        auto& ofGroup = busView ? busOfGroup : bbOfGroup;
        std::set<std::string> idsSeen;
        auto each = [&](Bus& b) {
            std::string txt = busText(b);
            VCHECK(idsSeen.insert(b.getId()).second, P + "views:" + w + ":duplicate-id", vl.getId() + " " + b.getId());
            // group: through any terminal, or for buses without terminal through the identifier (bus/breaker) or none
            int gi = -1;
            std::set<std::string> terms;
            for (const Terminal& t : static_cast<const Bus&>(b).getConnectedTerminals()) {
                auto& of = busView ? ref.busOf : ref.bbOf;
                auto it = of.find(&t);
                VCHECK(it != of.end(), P + "views:" + w + ":terminal-not-connected", b.getId() + " lists " + tname(t));
                if (it != of.end()) gi = it->second;
                VCHECK(terms.insert(tname(t)).second, P + "views:" + w + ":terminal-twice", b.getId() + " lists " + tname(t));
            }
            if (gi < 0 && vl.getTopologyKind() == TopologyKind::BUS_BREAKER && !busView) {
                auto it = ref.bbOfMember.find({&cv, b.getId()});
                if (it != ref.bbOfMember.end()) gi = it->second;
            }
            if (gi < 0 && vl.getTopologyKind() == TopologyKind::NODE_BREAKER) {
                // calculated buses carry the smallest of their nodes in their identifier
                std::string node = b.getId().substr(std::min(b.getId().size(), vl.getId().size() + 1));
                auto& om = busView ? ref.busOfMember : ref.bbOfMember;
                auto it = om.find({&cv, node});
                if (it != om.end() && groups[static_cast<size_t>(it->second)].terms.empty()) gi = it->second;
            }
            VCHECK(gi >= 0, P + "views:" + w + ":unknown-bus", vl.getId() + " reports bus " + b.getId() + "{" + txt + "}");
            if (gi < 0) return;
            Group& g = groups[static_cast<size_t>(gi)];
            VCHECK(g.vl == &vl, P + "views:" + w + ":wrong-voltage-level", b.getId());
            VCHECK(g.valid, P + "views:" + w + ":invalid-group", vl.getId() + " reports bus " + b.getId() + "{" + txt + "} which does not qualify");
            VCHECK(terms == g.terms, P + "views:" + w + ":wrong-terminals", b.getId() + "{" + txt + "} expected " + groupText(g));
            VCHECK(b.getConnectedTerminalCount() == g.terms.size(), P + "views:" + w + ":terminal-count", b.getId() + " " + S(b.getConnectedTerminalCount()) + " expected " + groupText(g));
            VCHECK(ofGroup.count(gi) == 0, P + "views:" + w + ":bus-twice", groupText(g));
            VCHECK(&b.getVoltageLevel() == &vl && &b.getNetwork() == &n, P + "views:" + w + ":voltage-level", b.getId());
            ofGroup[gi] = &b;
            idx[&b] = gi;
            const Bus& cb = b;
            bool eq = idSet(cb.getBatteries()) == expectOnBus<Battery>(g) && idSet(cb.getDanglingLines()) == expectOnBus<DanglingLine>(g) && idSet(cb.getGenerators()) == expectOnBus<Generator>(g) &&
                      idSet(cb.getLccConverterStations()) == expectOnBus<LccConverterStation>(g) && idSet(cb.getLines()) == expectOnBus<Line>(g) && idSet(cb.getLoads()) == expectOnBus<Load>(g) &&
                      idSet(cb.getShuntCompensators()) == expectOnBus<ShuntCompensator>(g) && idSet(cb.getStaticVarCompensators()) == expectOnBus<StaticVarCompensator>(g) &&
                      idSet(cb.getThreeWindingsTransformers()) == expectOnBus<ThreeWindingsTransformer>(g) && idSet(cb.getTwoWindingsTransformers()) == expectOnBus<TwoWindingsTransformer>(g) &&
                      idSet(cb.getVscConverterStations()) == expectOnBus<VscConverterStation>(g);
            VCHECK(eq, P + "views:" + w + ":equipment", b.getId() + " " + groupText(g));
            R.seen("bus_shapes", std::string(w) + (g.merged ? "m" : "n") + S((ulong_t)g.members.size()) + "/" + S((ulong_t)g.terms.size()));
        };
        if (busView) { for (Bus& b : vl.getBusView().getBuses()) each(b); } else { for (Bus& b : vl.getBusBreakerView().getBuses()) each(b); }
    };
    for (VoltageLevel& vl : n.getVoltageLevels()) {
        scan(vl, true);
        scan(vl, false);
        const VoltageLevel& cv = vl;
        VCHECK(!cv.getBusView().getBus("no such bus") && !vl.getBusView().getBus("no such bus") && !cv.getBusBreakerView().getBus("no such bus"), P + "views:phantom-bus", vl.getId());
    }
    VCHECK(busOfGroup.size() == expBus, P + "views:bus:missing", [&]() { std::string s; for (size_t i = 0; i < ref.bus.size(); ++i) if (ref.bus[i].valid && !busOfGroup.count(static_cast<int>(i))) s += groupText(ref.bus[i]) + " "; return s; }());
    VCHECK(bbOfGroup.size() == expBb, P + "views:busbreaker:missing", [&]() { std::string s; for (size_t i = 0; i < ref.bb.size(); ++i) if (ref.bb[i].valid && !bbOfGroup.count(static_cast<int>(i))) s += groupText(ref.bb[i]) + " "; return s; }());
    // network wide views report the same objects
    std::set<const Bus*> nb, nbb;
    size_t c1 = 0, c2 = 0;
    for (const Bus& b : cn.getBusView().getBuses()) { nb.insert(&b); ++c1; }
    for (const Bus& b : cn.getBusBreakerView().getBuses()) { nbb.insert(&b); ++c2; }
    VCHECK(c1 == busIdx.size() && nb.size() == c1, P + "views:network-bus-view", S((ulong_t)c1) + " buses, voltage levels have " + S((ulong_t)busIdx.size()));
    VCHECK(c2 == bbIdx.size() && nbb.size() == c2, P + "views:network-busbreaker-view", S((ulong_t)c2) + " buses, voltage levels have " + S((ulong_t)bbIdx.size()));
    auto same = [](stdcxx::CReference<Bus> r, const Bus* b) { return b == nullptr ? !r : (static_cast<bool>(r) && &r.get() == b); };
    for (auto& kv : busIdx) {
        const Bus* b = kv.first;
        VCHECK(nb.count(b) == 1, P + "views:network-bus-view:identity", b->getId());
        VCHECK(same(static_cast<const VoltageLevel&>(b->getVoltageLevel()).getBusView().getBus(b->getId()), b), P + "views:bus:by-id", b->getId());
        VCHECK(same(cn.getBusView().getBus(b->getId()), b), P + "views:network-bus-view:by-id", b->getId());
        VCHECK(same(stdcxx::cref(n.getBusView().getBus(b->getId())), b), P + "views:network-bus-view:by-id", b->getId());
    }
    for (auto& kv : bbIdx) {
        const Bus* b = kv.first;
        VCHECK(nbb.count(b) == 1, P + "views:network-busbreaker-view:identity", b->getId());
        VCHECK(same(static_cast<const VoltageLevel&>(b->getVoltageLevel()).getBusBreakerView().getBus(b->getId()), b), P + "views:busbreaker:by-id", b->getId());
        VCHECK(same(cn.getBusBreakerView().getBus(b->getId()), b), P + "views:network-busbreaker-view:by-id", b->getId());
        VCHECK(same(stdcxx::cref(n.getBusBreakerView().getBus(b->getId())), b), P + "views:network-busbreaker-view:by-id", b->getId());
    }
    VCHECK(!cn.getBusView().getBus("no such bus") && !cn.getBusBreakerView().getBus("no such bus"), P + "views:phantom-bus", "network");
    auto groupBus = [](std::map<int, Bus*>& m, const std::map<const Terminal*, int>& of, const Terminal* t) -> const Bus* {
        auto it = of.find(t);
        if (it == of.end()) return nullptr;
        auto j = m.find(it->second);
        return j == m.end() ? nullptr : j->second;
    };
    // queries from terminals
    for (Terminal* t : allTerminals(n)) {
        const Terminal& ct = *t;
        const Bus* eb = groupBus(busOfGroup, ref.busOf, t);
        const Bus* ebb = groupBus(bbOfGroup, ref.bbOf, t);
        VCHECK(same(ct.getBusView().getBus(), eb) && same(stdcxx::cref(t->getBusView().getBus()), eb), P + "views:terminal:bus", tname(ct) + " expected " + (eb ? eb->getId() : "none"));
        VCHECK(same(ct.getBusBreakerView().getBus(), ebb) && same(stdcxx::cref(t->getBusBreakerView().getBus()), ebb), P + "views:terminal:busbreaker", tname(ct) + " expected " + (ebb ? ebb->getId() : "none"));
        const VoltageLevel& vl = ct.getVoltageLevel();
        if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) {
            VCHECK(ct.isConnected() == (eb != nullptr), P + "views:terminal:connected", tname(ct) + " connected " + S(ct.isConnected()) + " bus " + (eb ? eb->getId() : "none"));
            auto conn = [&](stdcxx::CReference<Bus> got, const Bus* own, const std::map<const Bus*, int>& idx, std::vector<Group>& groups, const char* w) {
                if (own) { VCHECK(same(got, own), P + "views:terminal:connectable-" + w, tname(ct)); return; }
                bool anyBus = false;
                for (auto& kv : idx) anyBus = anyBus || &kv.first->getVoltageLevel() == &vl;
                if (!anyBus) { VCHECK(!got, P + "views:terminal:connectable-" + w, tname(ct) + " has one although there is no bus"); return; }
                VCHECK(static_cast<bool>(got) && idx.count(&got.get()) && &got.get().getVoltageLevel() == &vl, P + "views:terminal:connectable-" + w, tname(ct) + " none or unknown bus");
                if (!got || !idx.count(&got.get())) return;
                // a bus reachable through open switches is preferred
                Uf uf;
                for (const Switch& s : vl.getNodeBreakerView().getSwitches()) uf.join(S(vl.getNodeBreakerView().getNode1(s.getId())), S(vl.getNodeBreakerView().getNode2(s.getId())));
                for (const auto& ic : vl.getNodeBreakerView().getInternalConnections()) uf.join(S(ic.getNode1()), S(ic.getNode2()));
                std::string me = uf.find(S(ct.getNodeBreakerView().getNode()));
                bool reach = false, gotReach = false;
                for (auto& kv : idx) {
                    if (&kv.first->getVoltageLevel() != &vl) continue;
                    bool r = uf.find(*groups[static_cast<size_t>(kv.second)].members.begin()) == me;
                    reach = reach || r;
                    gotReach = gotReach || (r && kv.first == &got.get());
                }
                VCHECK(!reach || gotReach, P + "views:terminal:connectable-" + w, tname(ct) + " got " + got.get().getId() + " although another bus is reachable");
            };
            conn(ct.getBusView().getConnectableBus(), eb, busIdx, ref.bus, "bus");
            conn(ct.getBusBreakerView().getConnectableBus(), ebb, bbIdx, ref.bb, "busbreaker");
        } else {
            auto cb = ct.getBusBreakerView().getConnectableBus();
            VCHECK(static_cast<bool>(cb) && bbIdx.count(&cb.get()), P + "views:terminal:connectable-busbreaker", tname(ct));
            if (cb) {
                auto gi = ref.busOfMember.find({&vl, cb.get().getId()});
                const Bus* exp = gi != ref.busOfMember.end() && busOfGroup.count(gi->second) ? busOfGroup[gi->second] : nullptr;
                VCHECK(same(ct.getBusView().getConnectableBus(), exp) && same(stdcxx::cref(t->getBusView().getConnectableBus()), exp), P + "views:terminal:connectable-bus", tname(ct));
            }
        }
    }
    // switch ends, configured buses, busbar sections
    for (VoltageLevel& vl : n.getVoltageLevels()) {
        const VoltageLevel& cv = vl;
        auto at = [&](std::map<std::pair<const VoltageLevel*, std::string>, int>& om, std::map<int, Bus*>& of, const std::string& m) -> const Bus* {
            auto it = om.find({&cv, m});
            if (it == om.end()) return nullptr;
            auto j = of.find(it->second);
            return j == of.end() ? nullptr : j->second;
        };
        if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) {
            size_t retained = 0;
            for (Switch& s : vl.getNodeBreakerView().getSwitches()) {
                if (!s.isRetained()) continue;
                ++retained;
                const Bus* b1 = at(ref.bbOfMember, bbOfGroup, S(cv.getNodeBreakerView().getNode1(s.getId())));
                const Bus* b2 = at(ref.bbOfMember, bbOfGroup, S(cv.getNodeBreakerView().getNode2(s.getId())));
                VCHECK(same(cv.getBusBreakerView().getBus1(s.getId()), b1) && same(stdcxx::cref(vl.getBusBreakerView().getBus1(s.getId())), b1), P + "views:switch:bus1", s.getId());
                VCHECK(same(cv.getBusBreakerView().getBus2(s.getId()), b2) && same(stdcxx::cref(vl.getBusBreakerView().getBus2(s.getId())), b2), P + "views:switch:bus2", s.getId());
                VCHECK(&cv.getBusBreakerView().getSwitch(s.getId()).get() == &s, P + "views:switch:by-id", s.getId());
            }
            size_t k = 0;
            for (const Switch& s : cv.getBusBreakerView().getSwitches()) { ++k; VCHECK(s.isRetained(), P + "views:busbreaker:switches", s.getId()); }
            VCHECK(k == retained && cv.getBusBreakerView().getSwitchCount() == retained, P + "views:busbreaker:switches", vl.getId() + " " + S((ulong_t)k) + " expected " + S((ulong_t)retained));
            for (BusbarSection& b : vl.getNodeBreakerView().getBusbarSections()) {
                const Bus* eb = at(ref.busOfMember, busOfGroup, S(b.getTerminal().getNodeBreakerView().getNode()));
                VCHECK(same(cv.getBusView().getMergedBus(b.getId()), eb) && same(stdcxx::cref(vl.getBusView().getMergedBus(b.getId())), eb), P + "views:merged-bus", b.getId());
            }
        } else {
            std::vector<std::string> ids;
            for (Bus& b : vl.getBusBreakerView().getBuses()) ids.push_back(b.getId());
            for (auto& id : ids) {
                const Bus* eb = at(ref.busOfMember, busOfGroup, id);
                VCHECK(same(cv.getBusView().getMergedBus(id), eb) && same(stdcxx::cref(vl.getBusView().getMergedBus(id)), eb), P + "views:merged-bus", vl.getId() + " " + id);
            }
        }
    }
    // voltages seen from the views are values of the group
    for (auto& kv : busIdx) {
        const Group& g = ref.bus[static_cast<size_t>(kv.second)];
        std::set<std::string> ok;
        if (g.merged) {
            for (const auto& m : g.members) ok.insert(S(static_cast<const VoltageLevel*>(g.vl)->getBusBreakerView().getBus(m).get().getV()));
        } else {
            for (const Terminal* t : g.tset) ok.insert(S(t->getV()));
        }
        if (ok.size() > 1 && g.merged) ok.erase("nan");
        VCHECK(ok.count(S(kv.first->getV())), P + "views:bus:voltage", groupText(g) + " " + S(kv.first->getV()));
    }
    R.count("bus_checks", busIdx.size() + bbIdx.size());
    return ref;
}

void checkComponents(Network& n, const RefTopo& ref, const std::string& P) {
    const Network& cn = n;
    for (int pass = 0; pass < 2; ++pass) {
        bool dc = pass == 0;
        const char* w = dc ? "connected" : "synchronous";
        const auto& label = dc ? ref.comp : ref.sync;
        const auto& sizes = dc ? ref.compSize : ref.syncSize;
        std::map<ulong_t, ulong_t> numSize;
        std::map<ulong_t, std::set<std::string>> listed;
        ulong_t last = ~0ul, i = 0;
        auto visitComp = [&](const Component& c) {
            VCHECK(c.getNum() == i, P + "components:" + w + ":number", S(c.getNum()) + " at position " + S(i));
            VCHECK(c.getSize() <= last, P + "components:" + w + ":order", S(c.getSize()) + " after " + S(last));
            last = c.getSize();
            numSize[i] = c.getSize();
            ulong_t k = 0;
            for (const Bus& b : c.getBuses()) { ++k; listed[i].insert(b.getVoltageLevel().getId() + "/" + b.getId()); }
            VCHECK(k == c.getSize() && listed[i].size() == k, P + "components:" + w + ":size", "component " + S(i) + " size " + S(c.getSize()) + " lists " + S(k));
            ++i;
        };
        if (dc) { for (const Component& c : cn.getBusView().getConnectedComponents()) visitComp(c); }
        else { for (const Component& c : cn.getBusView().getSynchronousComponents()) visitComp(c); }
        VCHECK(i == sizes.size(), P + "components:" + w + ":count", S(i) + " expected " + S((ulong_t)sizes.size()));
        R.seen("component_counts", std::string(w) + S(i));
        std::map<int, ulong_t> numOf;
        std::map<ulong_t, int> labelOf;
        auto check = [&](const Bus& b, int lab, const std::string& what) {
            auto c = dc ? b.getConnectedComponent() : b.getSynchronousComponent();
            bool main = dc ? b.isInMainConnectedComponent() : b.isInMainSynchronousComponent();
            if (lab < 0) {
                VCHECK(!c && !main, P + "components:" + w + ":on-no-bus", what);
                return;
            }
            VCHECK(static_cast<bool>(c), P + "components:" + w + ":missing", what);
            if (!c) return;
            ulong_t num = c.get().getNum();
            VCHECK(numOf.insert({lab, num}).first->second == num, P + "components:" + w + ":split", what + " is in component " + S(num) + ", connected buses in " + S(numOf[lab]));
            VCHECK(labelOf.insert({num, lab}).first->second == lab, P + "components:" + w + ":merged", what + " is in component " + S(num) + " with buses it is not connected to");
            VCHECK(c.get().getSize() == static_cast<ulong_t>(sizes.at(lab)), P + "components:" + w + ":true-size", what + " " + S(c.get().getSize()) + " expected " + S(sizes.at(lab)));
            VCHECK(main == (num == 0), P + "components:" + w + ":main", what);
        };
        for (const VoltageLevel& vl : cn.getVoltageLevels()) {
            auto labelAt = [&](const Bus& b) {
                for (const Terminal& t : b.getConnectedTerminals()) {
                    auto it = ref.busOf.find(&t);
                    return it == ref.busOf.end() ? -1 : label[static_cast<size_t>(it->second)];
                }
                return -2;
            };
            for (const Bus& b : vl.getBusView().getBuses()) {
                int l = labelAt(b);
                if (l >= 0) {
                    check(b, l, vl.getId() + "/" + b.getId());
                    auto c = dc ? b.getConnectedComponent() : b.getSynchronousComponent();
                    if (c) VCHECK(listed[c.get().getNum()].count(vl.getId() + "/" + b.getId()), P + "components:" + w + ":buses", b.getId());
                }
            }
            for (const Bus& b : vl.getBusBreakerView().getBuses()) {
                int l = labelAt(b);
                if (vl.getTopologyKind() == TopologyKind::BUS_BREAKER) {
                    auto it = ref.busOfMember.find({&vl, b.getId()});
                    l = it == ref.busOfMember.end() ? -1 : label[static_cast<size_t>(it->second)];
                } else if (l == -2) {
                    std::string node = b.getId().substr(std::min(b.getId().size(), vl.getId().size() + 1));
                    auto it = ref.busOfMember.find({&vl, node});
                    l = it == ref.busOfMember.end() ? -1 : label[static_cast<size_t>(it->second)];
                }
                check(b, l, "busbreaker " + vl.getId() + "/" + b.getId());
            }
        }
        for (Terminal* t : allTerminals(n)) {
            auto it = ref.busOf.find(t);
            int l = it == ref.busOf.end() ? -1 : label[static_cast<size_t>(it->second)];
            auto b = static_cast<const Terminal*>(t)->getBusView().getBus();
            if (b) check(b.get(), l, "terminal " + tname(*t));
        }
    }
}

// ------------------------------------------------------------------------------------------------- index
namespace {
template <typename F> void expectMissing(const std::string& key, const std::string& what, F f) {
    R.count("checks");
    try {
        f();
    } catch (const std::exception& e) {
        if (!isLibraryError(e)) violation(key + ":error-type", what + " " + typeName(e) + " " + e.what());
        return;
    }
    violation(key, what);
}
template <typename T> std::set<const Identifiable*> ofType(const std::set<Identifiable*>& live) {
    std::set<const Identifiable*> s;
    for (auto* p : live) if (dynamic_cast<T*>(p)) s.insert(p);
    return s;
}
template <typename T, typename Rg> void sameSet(const std::set<const Identifiable*>& exp, Rg&& range, const std::string& key, const std::string& what) {
    std::set<const Identifiable*> got;
    size_t k = 0;
    for (const T& o : range) { got.insert(&static_cast<const Identifiable&>(o)); ++k; }
    VCHECK(got == exp && k == exp.size(), key, what + " enumerates " + S((ulong_t)k) + " (" + S((ulong_t)got.size()) + " distinct) instead of " + S((ulong_t)exp.size()));
}
}  // namespace

void checkIndex(Network& n, const std::set<std::string>& names, const std::string& P) {
    const Network& cn = n;
    // walk of the containers
    std::set<Identifiable*> walk;
    std::map<VoltageLevel*, std::set<const Identifiable*>> inVl;
    walk.insert(&n);
    for (Substation& s : n.getSubstations()) {
        walk.insert(&s);
        for (VoltageLevel& v : s.getVoltageLevels()) {
            walk.insert(&v);
            VCHECK(&v.getSubstation() == &s, P + "index:substation-of-voltage-level", v.getId());
            VCHECK(&v.getNetwork() == &n, P + "index:network-of", v.getId());
            for (Connectable& c : v.getConnectables<Connectable>()) { walk.insert(&c); }
            for (Switch& sw : v.getSwitches()) { walk.insert(&sw); VCHECK(&sw.getVoltageLevel() == &v, P + "index:voltage-level-of-switch", sw.getId()); }
            if (v.getTopologyKind() == TopologyKind::BUS_BREAKER) for (Bus& b : v.getBusBreakerView().getBuses()) walk.insert(&b);
        }
        for (auto& t : s.getTwoWindingsTransformers()) walk.insert(&t);
        for (auto& t : s.getThreeWindingsTransformers()) walk.insert(&t);
    }
    for (HvdcLine& h : n.getHvdcLines()) walk.insert(&h);
    std::set<Identifiable*> live;
    size_t k = 0;
    for (Identifiable& id : n.getIdentifiables()) { live.insert(&id); ++k; }
    VCHECK(live.size() == k, P + "index:identifiables-twice", S((ulong_t)k));
    live.insert(&n);
    {
        std::string d;
        for (auto* p : walk) if (!live.count(p)) d += "not indexed: " + p->getId() + " ";
        for (auto* p : live) if (!walk.count(p)) d += "only indexed: " + p->getId() + " ";
        VCHECK(live == walk, P + "index:containers-differ", d);
    }
    std::map<std::string, Identifiable*> byName;
    for (auto* p : live) {
        VCHECK(byName.insert({p->getId(), p}).second, P + "index:name-clash", p->getId());
        std::set<std::string> as;
        for (const auto& a : p->getAliases()) {
            VCHECK(as.insert(a).second, P + "index:alias-twice", a);
            VCHECK(byName.insert({a, p}).second, P + "index:name-clash", "alias " + a);
            auto type = p->getAliasType(a);
            if (!type.empty()) VCHECK(p->getAliasFromType(type) && *p->getAliasFromType(type) == a, P + "index:alias-type", a);
        }
        VCHECK(p->hasAliases() == !as.empty(), P + "index:has-aliases", p->getId());
        VCHECK(&p->getNetwork() == &n, P + "index:network-of", p->getId());
    }
    for (auto& kv : byName) {
        const std::string& id = kv.first;
        Identifiable* p = kv.second;
        auto r = cn.find<Identifiable>(id);
        VCHECK(static_cast<bool>(r) && &r.get() == p, P + "index:not-found-by-name", id);
        R.count("lookups");
        if (!r) continue;
        VCHECK(&cn.getIdentifiable(id) == p && &n.get<Identifiable>(id) == p, P + "index:wrong-object", id);
        bool ok = true;
#define TYPED(T) { auto f = cn.find<T>(id); T* q = dynamic_cast<T*>(p); ok = ok && (q ? f && &f.get() == q : !f); if (!q) expectMissing(P + "index:wrong-kind-accepted", id + " as " #T, [&]() { n.get<T>(id); }); }
        TYPED(Load) TYPED(Generator) TYPED(Line) TYPED(Bus) TYPED(Switch) TYPED(VoltageLevel) TYPED(Connectable) TYPED(HvdcLine) TYPED(Substation)
#undef TYPED
        VCHECK(ok, P + "index:typed-find", id);
#define GET(T, G) if (T* q = dynamic_cast<T*>(p)) VCHECK(&n.G(id) == q && &cn.G(id) == q, P + "index:" #G, id)
        GET(Battery, getBattery); GET(Branch, getBranch); GET(BusbarSection, getBusbarSection); GET(DanglingLine, getDanglingLine); GET(Generator, getGenerator);
        GET(HvdcConverterStation, getHvdcConverterStation); GET(HvdcLine, getHvdcLine); GET(LccConverterStation, getLccConverterStation); GET(Line, getLine); GET(Load, getLoad);
        GET(ShuntCompensator, getShuntCompensator); GET(StaticVarCompensator, getStaticVarCompensator); GET(Substation, getSubstation); GET(Switch, getSwitch);
        GET(ThreeWindingsTransformer, getThreeWindingsTransformer); GET(TwoWindingsTransformer, getTwoWindingsTransformer); GET(VoltageLevel, getVoltageLevel); GET(VscConverterStation, getVscConverterStation);
#undef GET
    }
#define ENUM(T, RANGE, COUNT) sameSet<T>(ofType<T>(live), cn.RANGE(), P + "index:" #RANGE, "network"); VCHECK(cn.COUNT() == ofType<T>(live).size(), P + "index:" #COUNT, S(cn.COUNT()) + " expected " + S((ulong_t)ofType<T>(live).size()))
    ENUM(Battery, getBatteries, getBatteryCount); ENUM(Branch, getBranches, getBranchCount); ENUM(BusbarSection, getBusbarSections, getBusbarSectionCount); ENUM(DanglingLine, getDanglingLines, getDanglingLineCount);
    ENUM(Generator, getGenerators, getGeneratorCount); ENUM(HvdcConverterStation, getHvdcConverterStations, getHvdcConverterStationCount); ENUM(HvdcLine, getHvdcLines, getHvdcLineCount);
    ENUM(LccConverterStation, getLccConverterStations, getLccConverterStationCount); ENUM(Line, getLines, getLineCount); ENUM(Load, getLoads, getLoadCount);
    ENUM(ShuntCompensator, getShuntCompensators, getShuntCompensatorCount); ENUM(StaticVarCompensator, getStaticVarCompensators, getStaticVarCompensatorCount); ENUM(Substation, getSubstations, getSubstationCount);
    ENUM(Switch, getSwitches, getSwitchCount); ENUM(ThreeWindingsTransformer, getThreeWindingsTransformers, getThreeWindingsTransformerCount);
    ENUM(TwoWindingsTransformer, getTwoWindingsTransformers, getTwoWindingsTransformerCount); ENUM(VoltageLevel, getVoltageLevels, getVoltageLevelCount); ENUM(VscConverterStation, getVscConverterStations, getVscConverterStationCount);
#undef ENUM
    sameSet<Connectable>(ofType<Connectable>(live), cn.getConnectables<Connectable>(), P + "index:getConnectables", "network");
    sameSet<Injection>(ofType<Injection>(live), cn.getConnectables<Injection>(), P + "index:getConnectables", "network injections");
    sameSet<Load>(ofType<Load>(live), cn.getConnectables<Load>(), P + "index:getConnectables", "network loads");
    VCHECK(cn.getConnectableCount<Connectable>() == ofType<Connectable>(live).size() && cn.getConnectableCount<Line>() == ofType<Line>(live).size(), P + "index:getConnectableCount", "network");
    // voltage levels: what has a terminal there
    std::map<const VoltageLevel*, std::set<Identifiable*>> at;
    std::map<const Substation*, std::set<Identifiable*>> tr;
    for (auto* p : live) {
        if (auto* c = dynamic_cast<Connectable*>(p)) {
            for (auto& t : c->getTerminals()) {
                at[&t.get().getVoltageLevel()].insert(p);
                if (kindOf(*p) == "2WT" || kindOf(*p) == "3WT") tr[&t.get().getVoltageLevel().getSubstation()].insert(p);
                VCHECK(t.get().getConnectable() && &t.get().getConnectable().get() == c, P + "index:connectable-of-terminal", p->getId());
            }
        }
    }
    for (VoltageLevel& v : n.getVoltageLevels()) {
        const VoltageLevel& cv = v;
        const auto& here = at[&v];
        std::string key = P + "index:voltage-level:";
#define ENUM(T, RANGE, COUNT) sameSet<T>(ofType<T>(here), cv.RANGE(), key + #RANGE, v.getId()); VCHECK(cv.COUNT() == ofType<T>(here).size(), key + #COUNT, v.getId() + " " + S(cv.COUNT()))
        ENUM(Battery, getBatteries, getBatteryCount); ENUM(DanglingLine, getDanglingLines, getDanglingLineCount); ENUM(Generator, getGenerators, getGeneratorCount);
        ENUM(LccConverterStation, getLccConverterStations, getLccConverterStationCount); ENUM(Load, getLoads, getLoadCount); ENUM(ShuntCompensator, getShuntCompensators, getShuntCompensatorCount);
        ENUM(StaticVarCompensator, getStaticVarCompensators, getStaticVarCompensatorCount); ENUM(VscConverterStation, getVscConverterStations, getVscConverterStationCount);
        ENUM(Connectable, getConnectables<Connectable>, getConnectableCount<Connectable>); ENUM(Line, getConnectables<Line>, getConnectableCount<Line>);
        ENUM(TwoWindingsTransformer, getConnectables<TwoWindingsTransformer>, getConnectableCount<TwoWindingsTransformer>); ENUM(Injection, getConnectables<Injection>, getConnectableCount<Injection>);
#undef ENUM
        std::set<const Identifiable*> sws;
        for (auto* p : live) if (auto* s = dynamic_cast<Switch*>(p)) if (&s->getVoltageLevel() == &v) sws.insert(p);
        sameSet<Switch>(sws, cv.getSwitches(), key + "getSwitches", v.getId());
        VCHECK(cv.getSwitchCount() == sws.size(), key + "getSwitchCount", v.getId());
        for (auto* p : here) {
            auto c = cv.getConnectable<Connectable>(p->getId());
            VCHECK(static_cast<bool>(c) && &static_cast<const Identifiable&>(c.get()) == p, key + "getConnectable", v.getId() + " " + p->getId());
        }
        if (v.getTopologyKind() == TopologyKind::NODE_BREAKER) {
            sameSet<BusbarSection>(ofType<BusbarSection>(here), cv.getNodeBreakerView().getBusbarSections(), key + "getBusbarSections", v.getId());
            VCHECK(cv.getNodeBreakerView().getBusbarSectionCount() == ofType<BusbarSection>(here).size(), key + "getBusbarSectionCount", v.getId());
            VCHECK(cv.getNodeBreakerView().getSwitchCount() == sws.size(), key + "nb-getSwitchCount", v.getId());
            std::set<ulong_t> nodes;
            long mx = -1;
            for (ulong_t x : cv.getNodeBreakerView().getNodes()) { VCHECK(nodes.insert(x).second, key + "node-twice", v.getId()); mx = std::max(mx, static_cast<long>(x)); }
            std::map<ulong_t, const Terminal*> atNode;
            for (auto* p : here) {
                for (Terminal* t : terminalsOf(*p)) {
                    if (&t->getVoltageLevel() != &v) continue;
                    ulong_t x = t->getNodeBreakerView().getNode();
                    VCHECK(atNode.insert({x, t}).second, key + "node-shared", v.getId() + " node " + S(x));
                }
            }
            for (ulong_t x : nodes) {
                auto t = cv.getNodeBreakerView().getOptionalTerminal(x);
                auto it = atNode.find(x);
                VCHECK(it == atNode.end() ? !t : (t && &t.get() == it->second), key + "terminal-at-node", v.getId() + " node " + S(x));
            }
            for (auto& kv : atNode) VCHECK(nodes.count(kv.first), key + "node-missing", v.getId() + " node " + S(kv.first));
        } else {
            std::set<const Identifiable*> bs;
            for (auto* p : live) if (auto* b = dynamic_cast<Bus*>(p)) if (&b->getVoltageLevel() == &v) bs.insert(p);
            sameSet<Bus>(bs, cv.getBusBreakerView().getBuses(), key + "getBuses", v.getId());
            for (auto* b : bs) { auto r = cv.getBusBreakerView().getBus(b->getId()); VCHECK(static_cast<bool>(r) && &static_cast<const Identifiable&>(r.get()) == b, key + "getBus", b->getId()); }
        }
    }
    for (Substation& s : n.getSubstations()) {
        const Substation& cs = s;
        const auto& here = tr[&s];
        sameSet<TwoWindingsTransformer>(ofType<TwoWindingsTransformer>(here), cs.getTwoWindingsTransformers(), P + "index:substation:getTwoWindingsTransformers", s.getId());
        sameSet<ThreeWindingsTransformer>(ofType<ThreeWindingsTransformer>(here), cs.getThreeWindingsTransformers(), P + "index:substation:getThreeWindingsTransformers", s.getId());
        VCHECK(cs.getTwoWindingsTransformerCount() == ofType<TwoWindingsTransformer>(here).size() && cs.getThreeWindingsTransformerCount() == ofType<ThreeWindingsTransformer>(here).size(), P + "index:substation:count", s.getId());
    }
    std::set<Country> cc;
    for (Substation& s : n.getSubstations()) if (s.getCountry()) cc.insert(*s.getCountry());
    VCHECK(cn.getCountries() == cc && cn.getCountryCount() == cc.size(), P + "index:countries", S((ulong_t)cc.size()));
    for (const auto& name : names) {
        if (byName.count(name)) continue;
        R.count("dead_lookups");
        VCHECK(!cn.find<Identifiable>(name) && !n.find<Load>(name), P + "index:dead-name-found", name);
        expectMissing(P + "index:dead-name-found", name, [&]() { n.getIdentifiable(name); });
        expectMissing(P + "index:dead-name-found", name, [&]() { n.getGenerator(name); });
    }
}

// ------------------------------------------------------------------------------------------------- domain rules
void checkRules(Network& n, const std::string& P) {
    const auto& tab = attrTable();
    auto& vm = n.getVariantManager();
    (void)vm;
    eachVariant(n, [&](const std::string& var) {
        forEachHandle(n, [&](const Handle& h) {
            auto it = tab.find(h.kind);
            if (it == tab.end()) return;
            for (const Attr& a : it->second) {
                if (!a.set) continue;
                if (h.kind == "TERMINAL" || a.name == "isRetained" || a.name == "getMaximumSectionCount") continue;
                double v = a.num(h.p);
                VCHECK(a.valid(h.p, v) != 0, P + "rules:" + h.kind + "." + a.name, h.key + " in variant " + var + " value " + S(v));
            }
            if (h.kind == "RTC") {
                auto* t = static_cast<RatioTapChanger*>(h.p);
                VCHECK(t->getStepCount() >= 1 && t->getLowTapPosition() <= t->getHighTapPosition(), P + "rules:steps", h.key);
            }
            if (h.kind == "LIMITS") {
                auto* l = static_cast<LoadingLimits*>(h.p);
                ulong_t last = ~0ul;
                std::set<std::string> nm;
                bool first = true;
                for (const auto& t : l->getTemporaryLimits()) {
                    VCHECK(first || t.getAcceptableDuration() < last, P + "rules:temporary-limit-order", h.key);
                    VCHECK(!t.getName().empty() && nm.insert(t.getName()).second, P + "rules:temporary-limit-name", h.key);
                    last = t.getAcceptableDuration();
                    first = false;
                    R.count("temporary_limits_seen");
                }
            }
            if (h.kind == "LEG" || h.kind == "2WT") {
                RatioTapChangerHolder* rh = h.kind == "LEG" ? static_cast<RatioTapChangerHolder*>(static_cast<ThreeWindingsTransformer::Leg*>(h.p)) : static_cast<TwoWindingsTransformer*>(h.p);
                (void)rh;
            }
            if (h.kind == "HVDC") {
                auto* l = static_cast<HvdcLine*>(h.p);
                VCHECK(l->getConverterStation1() && l->getConverterStation2() && !stdcxx::areSame(l->getConverterStation1().get(), l->getConverterStation2().get()), P + "rules:hvdc-stations", h.key);
            }
        });
        // at most one regulating tap changer per transformer
        for (TwoWindingsTransformer& t : n.getTwoWindingsTransformers()) {
            int k = (t.hasRatioTapChanger() && t.getRatioTapChanger().isRegulating() ? 1 : 0) + (t.hasPhaseTapChanger() && t.getPhaseTapChanger().isRegulating() ? 1 : 0);
            VCHECK(k <= 1, P + "rules:one-regulating", t.getId() + " variant " + var);
        }
        for (ThreeWindingsTransformer& t : n.getThreeWindingsTransformers()) {
            int k = 0;
            for (auto* l : {&t.getLeg1(), &t.getLeg2(), &t.getLeg3()}) {
                k += (l->hasRatioTapChanger() && l->getRatioTapChanger().isRegulating() ? 1 : 0) + (l->hasPhaseTapChanger() && l->getPhaseTapChanger().isRegulating() ? 1 : 0);
            }
            VCHECK(k <= 1, P + "rules:one-regulating", t.getId() + " variant " + var);
        }
        R.count("variants_ruled");
    });
}

void checkSane(Network& n, const std::string& P) {
    checkIndex(n, {}, P);
    checkRules(n, P);
    eachVariant(n, [&](const std::string&) {
        RefTopo r = checkViews(n, P);
        checkComponents(n, r, P);
    });
}

}  // namespace vmon
