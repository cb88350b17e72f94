// P11: XML round trip. P12: versions and topology levels. P13: anonymised exports.
#include "pick.hpp"
#include "oracle.hpp"
#include "xmlio.hpp"
#include "ext.hpp"
#include "xmlwork.hpp"
#include <boost/filesystem.hpp>
#include <boost/filesystem/fstream.hpp>
#include <powsybl/stdcxx/DateTime.hpp>
#include <cstring>
using namespace vmon;
using namespace powsybl::iidm;
using powsybl::iidm::converter::ExportOptions;

namespace {
bool starts(const std::string& s, const char* p) { return s.compare(0, std::strlen(p), p) == 0; }
}  // namespace
namespace vmon {
void populate(Network& n, Gen& g, Rng& rng, int size) {
    std::string frac = rng.chance(30) ? "." + std::to_string(rng.below(900) + 100) : "";
    std::string zone = rng.of({std::string("+00:00"), std::string("+01:00"), std::string("-05:30"), std::string("+14:00")});
    char date[64];
    std::snprintf(date, sizeof date, "%04d-%02d-%02dT%02d:%02d:%02d", static_cast<int>(rng.range(1970, 2099)), static_cast<int>(rng.range(1, 12)), static_cast<int>(rng.range(1, 28)), static_cast<int>(rng.below(24)), static_cast<int>(rng.below(60)), static_cast<int>(rng.below(60)));
    n.setCaseDate(stdcxx::DateTime::parse(date + frac + zone));
    g.busState = false;
    g.build(rng, size);
    auto& vm = n.getVariantManager();
    for (int i = static_cast<int>(rng.below(3)); i > 0; --i) vm.cloneVariant(rng.pick(variantIds(n)), "v" + std::to_string(i));
    vm.setWorkingVariant(rng.pick(variantIds(n)));
    int k = static_cast<int>(rng.below(40));
    for (int i = 0; i < k; ++i) g.random(rng, rng.chance(60) ? "s" : rng.chance(50) ? "xat" : rng.chance(70) ? "c" : "r");
    // the state of the calculated buses: whole buses of the bus view, as the format only has a place for them
    for (VoltageLevel& vl : n.getVoltageLevels()) {
        if (vl.getTopologyKind() != TopologyKind::NODE_BREAKER) continue;
        for (Bus& b : vl.getBusBreakerView().getBuses()) b.setV(NaN).setAngle(NaN);
        for (Bus& b : vl.getBusView().getBuses()) {
            if (rng.chance(60)) b.setV(g.pos());
            if (rng.chance(60)) b.setAngle(g.val());
        }
    }
}
bool dropUnserializable(DumpMap& d) {
    bool any = false;
    std::set<std::string> empties;
    for (auto it = d.begin(); it != d.end();) {
        const std::string& k = it->first;
        bool drop = k.find("/x:generatorRemoteReactivePowerControl") != std::string::npos          // no serializer
            || k.find("/x:mergedXnode.names") != std::string::npos                                   // not in its schema
            || ((k.find("/x:measurements.all") != std::string::npos || k.find("/x:discreteMeasurements.all") != std::string::npos) && it->second.empty())
            || (k.find("/x:slackTerminal.") != std::string::npos && starts(it->second, "none"));
        any = any || drop;
        if (drop && k.find("/x:") != std::string::npos) {
            auto x = k.find("/x:"), dot = k.rfind('.');
            if (k.find("mergedXnode") == std::string::npos) empties.insert(k.substr(0, x) + " " + k.substr(x + 3, dot - x - 3));
        }
        if (drop || k == "net.isFictitious" || (k.find(".isFictitious") != std::string::npos && d.count(k.substr(0, k.rfind('.')) + ".misc") && d.count(k.substr(0, k.rfind('.')) + ".getForecastDistance"))) it = d.erase(it);
        else ++it;
    }
    for (auto& e : empties) {
        auto sp = e.rfind(' ');
        auto it = d.find(e.substr(0, sp) + ".exts");
        if (it == d.end()) continue;
        std::string t = e.substr(sp + 1) + ";";
        auto p = it->second.find(t);
        if (p != std::string::npos) it->second.erase(p, t.size());
    }
    // limits without any value are the same as no limits
    for (auto it = d.begin(); it != d.end();) {
        auto p = it->second.find("{perm=nan}");
        if (it->first.find(".limits") != std::string::npos) while ((p = it->second.find("{perm=nan}")) != std::string::npos) it->second.replace(p, 10, "{none}");
        if (it->first.find(".getPermanentLimit") != std::string::npos && it->second == "nan") { it = d.erase(it); continue; }
        ++it;
    }
    return any;
}
bool undefinedSteps(Network& n, bool repair) {
    bool any = false;
    for (auto& h : handles(n)) {
        if (h.kind != "RTCSTEP" && h.kind != "PTCSTEP") continue;
        for (auto& a : attrTable().at(h.kind)) {
            if (!a.num || !a.set || !std::isnan(a.num(h.p))) continue;
            any = true;
            if (repair) a.set(h.p, 0.5);
        }
    }
    return any;
}
}  // namespace vmon
namespace {
std::string attr(const std::string& k) { return attrOfKey(k); }
}  // namespace

MODULE(roundtrip) {
    Network n("net" + std::string(rng.chance(30) ? "é<&>\"'" : ""), rng.chance(50) ? "test" : "a&b");
    Gen g(n, rng.u64());
    g.weird = rng.chance(50);
    populate(n, g, rng, static_cast<int>(rng.range(2, 35)));
    undefinedSteps(n, !rng.chance(5));
    if (undefinedSteps(n, false)) {
        std::string why;
        try {
            fromXml(toXml(n));
        } catch (const std::exception& e) { why = e.what(); }
        VCHECK(why.empty(), "undefined-step-value", why);
        return;
    }
    ExportOptions o;
    o.setIndent(rng.chance(50));
    if (rng.chance(10)) o.setThrowExceptionIfExtensionNotFound(false);
    std::string x1;
    bool files = rng.chance(30);
    std::string f = fileName();
    DumpMap a = dump(n);
    DumpMap all = dumpAll(n);
    if (files) {
        Network::writeXml(boost::filesystem::path(f), n, o);
        boost::filesystem::ifstream is{boost::filesystem::path(f)};
        std::ostringstream os;
        os << is.rdbuf();
        x1 = os.str();
    } else x1 = toXml(n, o);
    std::string d0 = diff(all, dumpAll(n));
    VCHECK(d0.empty(), "export-changes-the-network:" + firstDiffKey(d0), d0);
    Network m = files ? Network::readXml(boost::filesystem::path(f)) : fromXml(x1);
    if (files) boost::filesystem::remove(f);
    DumpMap b = dump(m);
    bool dropped = dropUnserializable(a);
    dropUnserializable(b);
    R.count("exports");
    R.count("bytes", x1.size());
    for (auto& k : diffKeys(a, b)) {
        auto p = a.find(k), q = b.find(k);
        std::string av = p == a.end() ? "absent" : p->second, bv = q == b.end() ? "absent" : q->second;
        violation("round-trip:" + attr(k), k + ": " + av + " -> " + bv);
        if (R.violations > 50) return;
    }
    R.count("checks", a.size());
    auto where = [](const std::string& p, const std::string& q) {
        size_t i = 0;
        while (i < p.size() && i < q.size() && p[i] == q[i]) ++i;
        size_t s = i > 150 ? i - 150 : 0;
        return "at byte " + std::to_string(i) + ": first ..." + p.substr(s, 300) + " second ..." + q.substr(s, 300);
    };
    std::string x2 = toXml(m, o);
    // the name spaces of the extensions which could not be written are declared in the first file only
    if (!dropped) VCHECK(x1 == x2, "second-export-differs", where(x1, x2));
    if (rng.chance(30)) {
        Network m2 = fromXml(x2);
        std::string x3 = toXml(m2, o);
        VCHECK(x2 == x3, "third-export-differs", where(x2, x3));
    }
    checkSane(m, "imported:");
    R.seen("cover", S((ulong_t)hashStr(x1)));
}

namespace {
const std::vector<std::string> VERSIONS = {"1.0", "1.1", "1.2", "1.3", "1.4", "1.5"};
bool hasPower(const stdcxx::CReference<ActivePowerLimits>& a, const stdcxx::CReference<ApparentPowerLimits>& s) { return static_cast<bool>(a) || static_cast<bool>(s); }
// what a network uses and since which minor version it can be expressed
std::map<std::string, int> features(const Network& net) {
    Network& n = const_cast<Network&>(net);
    std::map<std::string, int> f;
    if (n.hasAliases()) f["network alias"] = 3;
    for (Identifiable& id : n.getIdentifiables()) {
        if (auto* vl = dynamic_cast<VoltageLevel*>(&id)) {
            if (vl->findExtension<extensions::SlackTerminal>()) f["slack terminal"] = 3;
        }
        if (auto* b = dynamic_cast<Branch*>(&id)) {
            if (b->getActivePowerLimits1() || b->getActivePowerLimits2() || b->getApparentPowerLimits1() || b->getApparentPowerLimits2()) f["power limits"] = 5;
        }
        if (auto* d = dynamic_cast<DanglingLine*>(&id)) {
            if (d->getActivePowerLimits() || d->getApparentPowerLimits()) f["power limits"] = 5;
            if (d->getGeneration()) f["generation"] = 3;
        }
        if (auto* s = dynamic_cast<ShuntCompensator*>(&id)) {
            if (s->getModelType() == ShuntCompensatorModelType::NON_LINEAR) f["non linear shunt"] = 3;
            if (s->isVoltageRegulatorOn() || !std::isnan(s->getTargetV()) || !std::isnan(s->getTargetDeadband()) || &s->getRegulatingTerminal().getConnectable().get() != s) f["shunt regulation"] = 2;
        }
        if (auto* s = dynamic_cast<StaticVarCompensator*>(&id)) {
            if (&s->getRegulatingTerminal().getConnectable().get() != s) f["svc remote regulation"] = 1;
        }
        if (auto* t = dynamic_cast<ThreeWindingsTransformer*>(&id)) {
            for (ThreeWindingsTransformer::Leg& l : t->getLegs()) if (l.getActivePowerLimits() || l.getApparentPowerLimits()) f["power limits"] = 5;
            auto &l1 = t->getLeg1(), &l2 = t->getLeg2(), &l3 = t->getLeg3();
            if (l1.hasRatioTapChanger() || l1.hasPhaseTapChanger() || l2.hasPhaseTapChanger() || l3.hasPhaseTapChanger()) f["leg tap changer"] = 1;
            if (l2.getG() != 0 || l2.getB() != 0 || l3.getG() != 0 || l3.getB() != 0 || t->getRatedU0() != l1.getRatedU()) f["leg admittance"] = 1;
        }
    }
    return f;
}
// differences which follow from what the version has no place for. v: minor version; used: the features it lacks which were
// reported as such (only when the export goes on after logging)
bool lossAllowed(Network& n, const std::string& key, int v, const std::string& used, const std::string& before, const std::string& after) {
    std::string at = attr(key);
    std::string id = key.substr(0, key.rfind('.'));
    auto slash = [&](const char* part) { return id.size() >= std::strlen(part) && id.compare(id.size() - std::strlen(part), std::string::npos, part) == 0; };
    bool net = key.compare(0, 4, "net.") == 0;
    auto has = [&](const char* f) { return used.find(f) != std::string::npos; };
    if (at == "aliases") {
        if (v < 3) return after == "-" && (!net || has("network alias"));
        if (v == 3) {     // types only
            std::string b = before;
            for (size_t p = 0; (p = b.find("':'type", p)) != std::string::npos; ++p) b.erase(p + 3, b.find('\'', p + 3) - p - 3);
            return b == after;
        }
        return false;
    }
    if (at == "isFictitious") return (v < 2 || (v < 3 && (slash("/half1") || slash("/half2")))) && after == "false";
    if (v < 1 && (at == "voltage" || (key.size() > 3 && key.compare(key.size() - 3, 3, "}VA") == 0))) return after == "nan/nan";     // calculated buses
    if (at == "getRatedS" && v < 2) return after == "nan";
    // the object and what is beneath it
    std::string obj = id;
    if (!n.find<Identifiable>(obj)) while (obj.rfind('/') != std::string::npos && !n.find<Identifiable>(obj)) obj = obj.substr(0, obj.rfind('/'));
    auto f = n.find<Identifiable>(obj);
    if (!f) return false;
    Identifiable& o = f.get();
    if (v < 5 && has("power limits")) {
        if (at == "limits") {
            // the current limits remain
            auto ends = [](const std::string& x, const std::string& e) { return x.size() >= e.size() && x.compare(x.size() - e.size(), std::string::npos, e) == 0; };
            const std::string one = "A{none}S{none}", two1 = "A1{none}S1{none}", two2 = "A2{none}S2{none}";
            if (starts(after, one.c_str())) return ends(before, after.substr(one.size()));
            auto p = after.rfind(two2);
            if (!starts(after, two1.c_str()) || p == std::string::npos) return false;
            return ends(before, after.substr(p + two2.size())) && before.find(after.substr(two1.size(), p - two1.size())) != std::string::npos;
        }
        if (at == "getPermanentLimit") return after == "absent" && (id.find("/A") != std::string::npos || id.find("/S") != std::string::npos);
    }
    if (auto* s = dynamic_cast<ShuntCompensator*>(&o)) {
        bool nl = s->getModelType() == ShuntCompensatorModelType::NON_LINEAR;
        if (v < 3 && at == "getGPerSection" && !nl) return after == "nan";
        if (v < 2 && has("shunt regulation")) {
            if (at == "getTargetV" || at == "getTargetDeadband") return after == "nan";
            if (at == "isVoltageRegulatorOn") return after == "false";
            if (at == "regTerminal") return after == tname(s->getTerminal());
        }
        if (v < 3 && has("non linear shunt") && nl) {
            if (at == "getBPerSection") return after == S(s->getB());
            if (at == "getGPerSection") return after == "nan";
            if (at == "getMaximumSectionCount" || at == "getSectionCount") return after == "1";
            if (at == "model") return after == "#0 max 1";
            if (id.find("/section") != std::string::npos) return after == "absent";
        }
    }
    if (auto* d = dynamic_cast<DanglingLine*>(&o)) {
        if (v < 3 && has("generation") && d->getGeneration()) {
            auto& ge = d->getGeneration().get();
            if (slash("/gen")) return after == "absent";
            if (at == "misc") return before.substr(0, before.rfind('\'')) == after.substr(0, after.rfind('\''));
            if (at == "getP0") return after == S(std::isnan(ge.getTargetP()) ? d->getP0() : d->getP0() - ge.getTargetP());
            if (at == "getQ0") return after == S(std::isnan(ge.getTargetQ()) ? d->getQ0() : d->getQ0() - ge.getTargetQ());
        }
    }
    if (auto* c = dynamic_cast<StaticVarCompensator*>(&o)) {
        if (v < 1 && has("svc remote regulation") && at == "regTerminal") return after == tname(c->getTerminal());
    }
    if (auto* t = dynamic_cast<ThreeWindingsTransformer*>(&o)) {
        if (v < 1 && has("leg admittance")) {
            if (at == "getRatedU0") return after == S(t->getLeg1().getRatedU());
            if (at == "misc" && id.find("/leg") == std::string::npos) return before.substr(0, before.rfind(' ')) == after.substr(0, after.rfind(' '));
            if ((at == "getG" || at == "getB") && (slash("/leg2") || slash("/leg3"))) return after == S(0.0);
        }
        if (v < 1 && has("leg tap changer")) {
            if (at == "misc" && id.find("/leg") != std::string::npos) return true;
            if (id.find("/rtc") != std::string::npos) return id.find("/leg1") != std::string::npos && after == "absent";
            if (id.find("/ptc") != std::string::npos) return after == "absent";
        }
    }
    return false;
}
}  // namespace

MODULE(versions) {
    Network n("net", "test");
    Gen g(n, rng.u64());
    g.weird = rng.chance(30);
    int v = static_cast<int>(rng.below(6));
    if (rng.chance(70)) g.fmt = v;
    populate(n, g, rng, static_cast<int>(rng.range(2, 25)));
    undefinedSteps(n, true);
    ExportOptions o;
    o.setVersion(VERSIONS[static_cast<size_t>(v)]).setIndent(rng.chance(50));
    bool log = rng.chance(50);
    if (log) o.setIidmVersionIncompatibilityBehavior(ExportOptions::IidmVersionIncompatibilityBehavior::LOG_ERROR);
    std::string missing;
    for (auto& kv : features(n)) if (kv.second > v) missing += kv.first + ",";
    std::string x, why;
    try {
        x = toXml(n, o);
    } catch (const std::exception& e) {
        if (!isLibraryError(e)) throw;
        why = e.what();
    }
    R.seen("cover", VERSIONS[static_cast<size_t>(v)] + (log ? " log " : " throw ") + missing + S((ulong_t)handles(n).size()));
    if (!log) VCHECK(why.empty() == missing.empty(), std::string("refusal-of-older-version:") + (why.empty() ? "accepted" : "refused"), VERSIONS[static_cast<size_t>(v)] + " uses " + missing + " error " + why);
    else VCHECK(why.empty() || (missing.find("slack terminal") != std::string::npos && why.find("slackTerminal") != std::string::npos), "older-version-with-log", VERSIONS[static_cast<size_t>(v)] + " uses " + missing + " error " + why);
    if (!why.empty()) { R.count("refused_exports"); return; }
    R.count("older_exports_v" + S(v));
    std::unique_ptr<Network> m;
    try {
        m = std::unique_ptr<Network>(new Network(fromXml(x)));
    } catch (const std::exception& e) {
        violation("older-version-unreadable", VERSIONS[static_cast<size_t>(v)] + " uses " + missing + ": " + e.what());
        return;
    }
    DumpMap a = dump(n), b = dump(*m);
    dropUnserializable(a);
    dropUnserializable(b);
    R.count("checks", a.size());
    for (auto& k : diffKeys(a, b)) {
        auto p = a.find(k), q = b.find(k);
        std::string av = p == a.end() ? "absent" : p->second, bv = q == b.end() ? "absent" : q->second;
        if (lossAllowed(n, k, v, missing, av, bv)) { R.count("expected_losses"); continue; }
        violation("older-version:" + S(v) + ":" + attr(k), k + ": " + av + " -> " + bv);
    }
    checkSane(*m, "imported:");
}


namespace {
// groups of connected terminals which a coarser topology keeps
std::set<std::string> groupsOf(Network& n, bool validOnly) {
    RefTopo ref = referenceTopo(n);
    std::set<std::string> r;
    for (Group& gr : ref.bus) {
        if (validOnly && !gr.valid) continue;
        std::string x = gr.vl->getId() + ":";
        std::set<std::string> ts;
        for (const Terminal* t : gr.tset) if (t->getConnectable().get().getType() != ConnectableType::BUSBAR_SECTION) ts.insert(tname(*t));
        if (ts.empty()) continue;
        for (auto& t : ts) x += " " + t;
        r.insert(x);
    }
    return r;
}
bool refersToBusbarSection(Network& n) {
    for (auto& kv : dump(n, DS | DV)) {
        std::string at = attrOfKey(kv.first);
        if (at != "regTerminal" && at != "getRegulatingTerminal" && at != "terminal" && kv.first.find("lackTerminal") == std::string::npos) continue;
        std::string id = kv.second.substr(0, kv.second.rfind('#'));
        auto o = n.find<BusbarSection>(id);
        if (o) return true;
    }
    return false;
}
}  // namespace

MODULE(levels) {
    Network n("net", "test");
    Gen g(n, rng.u64());
    g.weird = rng.chance(30);
    if (rng.chance(20)) g.nbAllowed = false;
    populate(n, g, rng, static_cast<int>(rng.range(2, 25)));
    undefinedSteps(n, true);
    bool branch = rng.chance(50);
    ExportOptions o;
    o.setTopologyLevel(branch ? TopologyLevel::BUS_BRANCH : TopologyLevel::BUS_BREAKER).setIndent(rng.chance(50));
    auto changed = [&](const VoltageLevel& v) { return branch || v.getTopologyKind() == TopologyKind::NODE_BREAKER; };
    // equipment needs a bus to be attached to
    for (Terminal* t : allTerminals(n)) {
        if (t->getConnectable().get().getType() == ConnectableType::BUSBAR_SECTION) continue;
        if (!(branch ? t->getBusView().getConnectableBus() : t->getBusBreakerView().getConnectableBus())) { R.count("no_bus_to_attach_to"); return; }
    }
    bool refers = refersToBusbarSection(n);
    std::string x, why;
    try {
        x = toXml(n, o);
    } catch (const std::exception& e) {
        if (!isLibraryError(e)) throw;
        why = e.what();
    }
    VCHECK(why.empty() == !refers, std::string("coarser-level:") + (refers ? "accepted" : "refused"), why);
    if (!why.empty()) { R.count("refused_exports"); return; }
    std::unique_ptr<Network> m;
    try {
        m = std::unique_ptr<Network>(new Network(fromXml(x)));
    } catch (const std::exception& e) {
        violation("coarser-level-unreadable", e.what());
        return;
    }
    R.seen("cover", S((ulong_t)hashStr(x)));
    R.count("coarser_exports");
    DumpMap a = dump(n, DS | DV), b = dump(*m, DS | DV);
    dropUnserializable(a);
    dropUnserializable(b);
    // objects which exist at one level only
    std::set<std::string> gone;
    for (VoltageLevel& vl : n.getVoltageLevels()) {
        if (!changed(vl)) continue;
        if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) for (BusbarSection& s : vl.getNodeBreakerView().getBusbarSections()) gone.insert(s.getId());
        for (Switch& s : vl.getSwitches()) {
            bool kept = !branch && s.isRetained();
            if (!kept) gone.insert(s.getId());
            auto f = m->find<Switch>(s.getId());
            VCHECK(static_cast<bool>(f) == kept, "coarser-level:switch", s.getId() + " retained " + S(s.isRetained()));
        }
        if (vl.getTopologyKind() == TopologyKind::BUS_BREAKER) for (Bus& bus : vl.getBusBreakerView().getBuses()) gone.insert(bus.getId());
    }
    for (VoltageLevel& vl : m->getVoltageLevels()) {
        if (!changed(n.getVoltageLevel(vl.getId()))) continue;
        for (Bus& bus : vl.getBusBreakerView().getBuses()) gone.insert(bus.getId());
    }
    auto objectOf = [&](const std::string& key) {
        std::string id = key.substr(0, key.rfind('.'));
        for (;;) {
            auto f1 = n.find<Identifiable>(id), f2 = m->find<Identifiable>(id);
            if ((f1 && f1.get().getId() == id) || (f2 && f2.get().getId() == id) || gone.count(id)) return id;
            auto p = id.find_last_of("/#");
            if (p == std::string::npos) return id;
            id = id.substr(0, p);
        }
    };
    for (auto& k : diffKeys(a, b)) {
        std::string at = attr(k), id = objectOf(k);
        if (gone.count(id)) continue;
        auto f = n.find<Identifiable>(id);
        if (at == "connection" || at == "place" || at == "voltage") continue;      // judged below
        if (f && dynamic_cast<VoltageLevel*>(&f.get()) && changed(dynamic_cast<VoltageLevel&>(f.get())) && (at == "equipment" || at == "nodes" || at == "topology")) continue;
        if (f && dynamic_cast<Switch*>(&f.get()) && (at == "misc" || at == "isRetained") && changed(dynamic_cast<Switch&>(f.get()).getVoltageLevel())) continue;
        auto p = a.find(k), q = b.find(k);
        std::string av = p == a.end() ? "absent" : p->second, bv = q == b.end() ? "absent" : q->second;
        violation("coarser-level:" + at, k + ": " + av + " -> " + bv);
    }
    R.count("checks", a.size());
    std::map<std::string, Terminal*> after;
    for (Terminal* t : allTerminals(*m)) after[tname(*t)] = t;
    for (Terminal* t : allTerminals(n)) {
        if (t->getConnectable().get().getType() == ConnectableType::BUSBAR_SECTION) continue;
        auto it = after.find(tname(*t));
        if (it == after.end()) continue;         // already reported
        VCHECK(t->getVoltageLevel().getId() == it->second->getVoltageLevel().getId(), "coarser-level:voltage-level", tname(*t));
        auto b1 = branch ? t->getBusView().getBus() : t->getBusBreakerView().getBus();
        auto b2 = it->second->getBusBreakerView().getBus();
        VCHECK(static_cast<bool>(b1) == static_cast<bool>(b2) && static_cast<bool>(b2) == it->second->isConnected(), "coarser-level:connected", tname(*t) + " " + S(static_cast<bool>(b1)) + " -> " + S(static_cast<bool>(b2)));
        if (b1 && b2) VCHECK(S(b1.get().getV()) == S(b2.get().getV()) && S(b1.get().getAngle()) == S(b2.get().getAngle()), "coarser-level:bus-state", tname(*t) + " " + S(b1.get().getV()) + " -> " + S(b2.get().getV()));
    }
    auto p1 = groupsOf(n, branch), p2 = groupsOf(*m, false);
    for (auto& s : p1) VCHECK(p2.count(s), "connectivity-lost", s);
    for (auto& s : p2) VCHECK(p1.count(s), "connectivity-gained", s);
    checkSane(*m, "imported:");
}
