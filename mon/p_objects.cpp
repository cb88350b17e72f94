// P04: identifiers and enumerations. P05: refusals change nothing. P06: domain rules. P10: removals.
#include "pick.hpp"
#include "xmlio.hpp"
#include <powsybl/iidm/LoadAdder.hpp>
#include <powsybl/iidm/BusbarSectionAdder.hpp>
using namespace vmon;
using namespace powsybl::iidm;

MODULE(index) {
    Network n("net", "test");
    Gen g(n, rng.u64());
    g.weird = rng.chance(50);
    g.build(rng, static_cast<int>(rng.range(2, 25)));
    std::set<std::string> names = namesOf(n);
    int steps = static_cast<int>(rng.range(20, 70));
    std::string hist;
    checkIndex(n, names, "");
    for (int s = 0; s < steps; ++s) {
        if (rng.chance(50)) {
            std::set<std::string> live = namesOf(n);
            g.reuse.clear();
            for (auto& x : names) if (!live.count(x)) g.reuse.push_back(x);
        } else g.reuse.clear();
        int k = static_cast<int>(rng.below(10));
        g.random(rng, k < 4 ? "ct" : k < 6 ? "r" : k < 8 ? "a" : k < 9 ? "v" : "s", 25);
        hist += g.desc.substr(0, 6);
        for (auto& x : namesOf(n)) names.insert(x);
        if (!g.a.hitName.empty()) R.count("refused_by_construction");
        checkIndex(n, names, "");
        if (s % 4 == 0 || s + 1 == steps) checkIndexTwins(n, "");
    }
    R.seen("cover", S(names.size()) + hist);
    R.count("names_ever_used", names.size());
    size_t live = namesOf(n).size();
    R.count("names_dead", names.size() - std::min(names.size(), live));
}

// ------------------------------------------------------------------------------------------------- P05
namespace {
// the one operation known not to be atomic, observed on its own
void busbarProbe(Network& n) {
    for (VoltageLevel& v : n.getVoltageLevels()) {
        if (v.getTopologyKind() != TopologyKind::NODE_BREAKER) continue;
        auto used = Gen::usedNodes(v);
        if (used.empty()) continue;
        ulong_t before = n.getBusbarSectionCount();
        bool no = refused([&]() { v.getNodeBreakerView().newBusbarSection().setId("probe-busbar-section").setNode(used[0]).add(); });
        VCHECK(no, "accepted-invalid:newBusbarSection:node", v.getId());
        bool remains = static_cast<bool>(n.find<BusbarSection>("probe-busbar-section")) || n.getBusbarSectionCount() != before;
        VCHECK(!remains, "refused-busbar-section-remains", "node " + S(used[0]) + " of " + v.getId() + " is occupied; the refused busbar section is still found in the network");
        R.count("busbar_probes");
        return;
    }
}
}  // namespace

MODULE(refusals) {
    Network n("net", "test");
    Gen g(n, rng.u64());
    g.weird = rng.chance(25);
    g.build(rng, static_cast<int>(rng.range(4, 30)));
    auto& vm = n.getVariantManager();
    for (int i = static_cast<int>(rng.below(3)); i > 0; --i) vm.cloneVariant(rng.pick(variantIds(n)), "v" + std::to_string(i));
    int steps = static_cast<int>(rng.range(15, 45));
    std::set<std::string> names = namesOf(n);
    DumpMap before = dumpAll(n);
    DumpMap foreign = dumpAll(g.foreign);
    const auto& os = Gen::ops();
    for (int s = 0; s < steps; ++s) {
        if (rng.chance(15)) { vm.setWorkingVariant(rng.pick(variantIds(n))); }
        if (rng.chance(35)) {
            // one value of one attribute
            auto ps = settable(n, "SV");
            Pick p = rng.pick(ps);
            p.v = p.a->gen(rng, p.h.p);
            int ok = p.a->valid(p.h.p, p.v);
            bool no = false;
            std::string why;
            try { p.a->set(p.h.p, p.v); } catch (const std::exception& e) {
                no = true;
                why = e.what();
                VCHECK(isLibraryError(e), "error-type:set:" + p.h.kind + "." + p.a->name, typeName(e) + " " + e.what());
            }
            logOp("set " + pickName(p) + "=" + S(p.v) + (no ? " refused" : ""));
            VCHECK(!(no && ok == 1), "refused-valid:set:" + p.h.kind + "." + p.a->name, pickName(p) + "=" + S(p.v) + " " + why);
            VCHECK(!(!no && ok == 0), "accepted-invalid:set:" + p.h.kind + "." + p.a->name, pickName(p) + "=" + S(p.v));
            DumpMap now = dumpAll(n);
            if (no) {
                R.count("refusals");
                R.seen("cover", p.h.kind + "." + p.a->name);
                std::string d = diff(before, now);
                VCHECK(d.empty(), "refused-changes:set:" + p.h.kind + "." + p.a->name, pickName(p) + "=" + S(p.v) + ": " + d);
            }
            before = now;
            continue;
        }
        const auto& o = os[rng.below(os.size())];
        uint64_t sub = rng.u64();
        long hit = static_cast<long>(rng.below(16));
        bool no = false;
        std::string why, hitName;
        try {
            g.run(o, sub, hit);
        } catch (const Skip&) { continue; } catch (const std::exception& e) {
            no = true;
            why = e.what();
            VCHECK(isLibraryError(e), "error-type:" + o.name, g.desc + " " + typeName(e) + " " + e.what());
        }
        hitName = g.a.hitName;
        logOp(g.desc + (hitName.empty() ? "" : " [" + hitName + "]") + (no ? " ! " + why : ""));
        DumpMap now = dumpAll(n);
        if (no) {
            R.count("refusals");
            R.seen("cover", o.name + ":" + hitName);
            R.seen("refusal_messages", why.substr(why.find("':") == std::string::npos ? 0 : why.find("':") + 2));
            std::string d = diff(before, now);
            VCHECK(d.empty(), "refused-changes:" + o.name + ":" + hitName, g.desc + " [" + hitName + "] " + why + ": " + d);
            checkIndex(n, names, "refused-" + o.name + ":");
            before = now;
            if (hitName.empty()) {
                R.count("refused_without_bad_argument");
                R.seen("natural_refusals", o.name + " " + why);
                VCHECK(o.name.find("new") != 0 && o.cat != 'a', "refused-valid:" + o.name, g.desc + " " + why);
                continue;
            }
            // same operation, valid arguments
            try {
                g.run(o, sub, -1);
                R.count("accepted_after_refusal");
                logOp(g.desc);
                checkCreated(g, "");
            } catch (const Skip&) {
            } catch (const std::exception& e) {
                bool natural = o.cat == 'r' || o.name == "set" || o.name == "setRegulatingTerminal" || o.name == "setRetained";
                if (!natural) violation("refused-valid:" + o.name, g.desc + " after refusal for [" + hitName + "]: " + e.what());
            }
            before = dumpAll(n);
        } else {
            VCHECK(hitName.empty(), "accepted-invalid:" + o.name + ":" + hitName, g.desc);
            R.count("accepted");
            if (hitName.empty()) checkCreated(g, "");
            before = now;
        }
        for (auto& x : namesOf(n)) names.insert(x);
    }
    // without working variant everything that needs one is refused and nothing changes
    if (rng.chance(40)) {
        vm.cloneVariant(VariantManager::getInitialVariantId(), "gone!");
        vm.setWorkingVariant("gone!");
        before = dumpAll(n);
        vm.removeVariant("gone!");
        auto ps = settable(n, "V");
        for (int i = 0; i < 20 && !ps.empty(); ++i) {
            Pick p = rng.pick(ps);
            double v = static_cast<double>(rng.below(2));
            try { p.a->set(p.h.p, v); } catch (const std::exception& e) {
                R.count("refusals_without_variant");
                VCHECK(isLibraryError(e), "error-type:no-variant:" + p.h.kind + "." + p.a->name, typeName(e) + " " + e.what());
                continue;
            }
            violation("accepted-without-variant:" + p.h.kind + "." + p.a->name, pickName(p) + "=" + S(v));
        }
        vm.setWorkingVariant(VariantManager::getInitialVariantId());
        DumpMap now = dumpAll(n);
        std::string d = diff(before, now, [](const std::string& k) { return k.find("gone!@") == 0 || k == "<variants>"; });
        VCHECK(d.empty(), "refused-changes:no-variant:" + firstDiffKey(d), d);
    }
    std::string d = diff(foreign, dumpAll(g.foreign));
    VCHECK(d.empty(), "foreign-network-changed", d);
    if (rng.chance(5)) busbarProbe(n);
}

// ------------------------------------------------------------------------------------------------- P06
MODULE(rules) {
    Network n("net", "test");
    Gen g(n, rng.u64());
    g.build(rng, static_cast<int>(rng.range(4, 30)));
    auto& vm = n.getVariantManager();
    for (int i = static_cast<int>(rng.below(4)); i > 0; --i) vm.cloneVariant(rng.pick(variantIds(n)), "v" + std::to_string(i));
    checkRules(n, "");
    int steps = static_cast<int>(rng.range(15, 50));
    for (int s = 0; s < steps; ++s) {
        if (rng.chance(45)) {
            bool ok = g.random(rng, rng.chance(80) ? "ctsavxX" : "r", 20);
            if (ok && C.log.back().find(" ! ") == std::string::npos && g.a.hitName.empty()) checkCreated(g, "");
        } else {
            vm.setWorkingVariant(rng.pick(variantIds(n)));
            auto ps = settable(n, "SV");
            int k = static_cast<int>(rng.range(1, 12));
            for (int i = 0; i < k; ++i) {
                Pick p = rng.pick(ps);
                p.v = p.a->gen(rng, p.h.p);
                int ok = p.a->valid(p.h.p, p.v);
                std::string why;
                bool no = false;
                try { p.a->set(p.h.p, p.v); } catch (const std::exception& e) { no = true; why = e.what(); }
                logOp("set " + pickName(p) + "=" + S(p.v) + (no ? " refused" : ""));
                R.count(no ? "values_refused" : "values_accepted");
                R.seen("cover", p.h.kind + "." + p.a->name + (no ? "-" : "+"));
                VCHECK(!(no && ok == 1), "refused-valid:" + p.h.kind + "." + p.a->name, pickName(p) + "=" + S(p.v) + " " + why);
                VCHECK(!(!no && ok == 0), "accepted-invalid:" + p.h.kind + "." + p.a->name, pickName(p) + "=" + S(p.v));
                if (!no) VCHECK(p.a->get(p.h.p) == p.a->fmt(p.v), "read-back:" + p.h.kind + "." + p.a->name, pickName(p) + " reads " + p.a->get(p.h.p) + " after " + S(p.v));
            }
        }
        checkRules(n, "");
        if (R.violations > 200) return;
    }
}

// ------------------------------------------------------------------------------------------------- P10
namespace {
std::string ownerOf(const DumpMap&, const std::string& key) {
    // key without variant prefix -> identifier of the object
    std::string k = key;
    auto at = k.find('@');
    if (at != std::string::npos) k = k.substr(at + 1);
    return k.substr(0, k.find_first_of("#/."));
}
bool mentions(const std::string& text, const std::string& id) {
    for (size_t p = text.find(id); p != std::string::npos; p = text.find(id, p + 1)) {
        bool l = p == 0 || !std::isalnum(static_cast<unsigned char>(text[p - 1]));
        bool r = p + id.size() >= text.size() || !std::isalnum(static_cast<unsigned char>(text[p + id.size()]));
        if (l && r) return true;
    }
    return false;
}
std::set<std::string> idSetOf(Network& n) {
    std::set<std::string> s;
    for (Identifiable& id : n.getIdentifiables()) s.insert(id.getId());
    return s;
}
struct Expect { std::set<std::string> removed; int must = -1; };   // must: 1 accepted, 0 refused, -1 either
bool multiOrDc(Connectable& c, const VoltageLevel& vl) {
    for (auto& t : c.getTerminals()) if (&t.get().getVoltageLevel() != &vl) return true;
    if (auto* h = dynamic_cast<HvdcConverterStation*>(&c)) return static_cast<bool>(h->getHvdcLine());
    return false;
}
void addVl(VoltageLevel& vl, Expect& e, bool& hard, bool& soft) {
    e.removed.insert(vl.getId());
    for (Connectable& c : vl.getConnectables<Connectable>()) {
        e.removed.insert(c.getId());
        if (multiOrDc(c, vl)) hard = true;
        else if (c.getTerminals().size() > 1) soft = true;
    }
    for (Switch& s : vl.getSwitches()) e.removed.insert(s.getId());
    if (vl.getTopologyKind() == TopologyKind::BUS_BREAKER) for (Bus& b : vl.getBusBreakerView().getBuses()) e.removed.insert(b.getId());
}
Expect expectation(Network& n, const std::string& op, const std::string& arg) {
    Expect e;
    if (op == "removeConnectable") {
        e.removed.insert(arg);
        auto* h = dynamic_cast<HvdcConverterStation*>(&n.getIdentifiable(arg));
        e.must = h && h->getHvdcLine() ? 0 : 1;
    } else if (op == "removeHvdcLine" || op == "removeSwitch") { e.removed.insert(arg); e.must = 1; }
    else if (op == "removeInternalConnections" || op == "removeTapChanger" || op == "removeExtension") e.must = 1;
    else if (op == "removeBus" || op == "removeAllBuses" || op == "removeAllSwitches") {
        VoltageLevel& vl = op == "removeBus" ? dynamic_cast<Bus&>(n.getIdentifiable(arg)).getVoltageLevel() : n.getVoltageLevel(arg);
        std::set<std::string> bs;
        if (op == "removeBus") bs.insert(arg);
        if (op == "removeAllBuses") for (Bus& b : vl.getBusBreakerView().getBuses()) bs.insert(b.getId());
        if (op == "removeAllSwitches") { for (Switch& s : vl.getSwitches()) e.removed.insert(s.getId()); e.must = 1; return e; }
        e.removed = bs;
        bool used = false;
        for (Switch& s : vl.getSwitches()) used = used || bs.count(vl.getBusBreakerView().getBus1(s.getId()).get().getId()) || bs.count(vl.getBusBreakerView().getBus2(s.getId()).get().getId());
        eachVariant(n, [&](const std::string&) {
            for (Terminal* t : allTerminals(n)) {
                if (&t->getVoltageLevel() == &vl) { auto b = t->getBusBreakerView().getConnectableBus(); used = used || (b && bs.count(b.get().getId())); }
            }
        });
        e.must = used ? 0 : 1;
    } else if (op == "removeVoltageLevel") {
        bool hard = false, soft = false;
        addVl(n.getVoltageLevel(arg), e, hard, soft);
        e.must = hard ? 0 : soft ? -1 : 1;
    } else if (op == "removeSubstation") {
        bool hard = false, soft = false, in = false;
        Substation& s = n.getSubstation(arg);
        e.removed.insert(arg);
        for (VoltageLevel& vl : s.getVoltageLevels()) {
            addVl(vl, e, in, soft);
            for (Connectable& c : vl.getConnectables<Connectable>()) {
                for (auto& t : c.getTerminals()) if (&t.get().getVoltageLevel().getSubstation() != &s) hard = true;
                if (auto* h = dynamic_cast<HvdcConverterStation*>(&c)) {
                    // a line between two stations of the substation goes with it
                    auto line = h->getHvdcLine();
                    if (line) {
                        HvdcLine& hl = line.get();
                        bool inside = true;
                        for (auto* st : {&hl.getConverterStation1().get(), &hl.getConverterStation2().get()}) inside = inside && &st->getTerminal().getVoltageLevel().getSubstation() == &s;
                        if (inside) e.removed.insert(hl.getId()); else hard = true;
                    }
                }
            }
        }
        e.must = hard ? 0 : (in || soft) ? -1 : 1;
    }
    return e;
}
}  // namespace

MODULE(removals) {
    Network n("net", "test");
    Gen g(n, rng.u64());
    g.build(rng, static_cast<int>(rng.range(4, 35)));
    auto& vm = n.getVariantManager();
    for (int i = static_cast<int>(rng.below(3)); i > 0; --i) vm.cloneVariant(rng.pick(variantIds(n)), "v" + std::to_string(i));
    for (int i = static_cast<int>(rng.below(15)); i > 0; --i) g.random(rng, "tsv");
    std::set<std::string> names = namesOf(n);
    int steps = static_cast<int>(rng.range(8, 25));
    for (int s = 0; s < steps; ++s) {
        if (rng.chance(25)) { g.random(rng, "ctsvx"); for (auto& x : namesOf(n)) names.insert(x); continue; }
        const auto& os = Gen::ops();
        const Gen::OpDef* o;
        do { o = &os[rng.below(os.size())]; } while (o->cat != 'r' && o->cat != 'X');
        // the target is found by a dry look at what the operation would do: same sub-seed, same state
        uint64_t sub = rng.u64();
        bool warm = rng.chance(70);
        DumpMap before = dumpAll(n);
        if (!warm) vm.cloneVariant(vm.getWorkingVariantId(), "cold!");   // drops nothing, but changes which variants have views
        if (!warm) vm.removeVariant("cold!");
        std::set<std::string> idsBefore = idSetOf(n);
        std::map<std::string, std::vector<std::string>> aliasesBefore;
        for (Identifiable& id : n.getIdentifiables()) for (const auto& a : id.getAliases()) aliasesBefore[id.getId()].push_back(a);
        std::map<std::string, std::vector<std::pair<std::string, ulong_t>>> nodesOf;
        for (Terminal* t : allTerminals(n)) {
            if (t->getVoltageLevel().getTopologyKind() == TopologyKind::NODE_BREAKER) nodesOf[t->getConnectable().get().getId()].emplace_back(t->getVoltageLevel().getId(), t->getNodeBreakerView().getNode());
        }
        // expectations for every candidate of the kind are too many: run, then compare with what the description says
        // (the expectation needs the state before, so it is computed from a copy of the description obtained by a refused run)
        Expect e;
        std::string arg;
        {
            // reproduce the choice of the target
            g.r = Rng(sub);
            try {
                if (o->name == "removeConnectable") arg = g.one<Connectable>().getId();
                else if (o->name == "removeHvdcLine") arg = g.one<HvdcLine>().getId();
                else if (o->name == "removeSwitch") arg = g.one<Switch>().getId();
                else if (o->name == "removeBus") arg = g.one<Bus>().getId();
                else if (o->name == "removeAllSwitches" || o->name == "removeAllBuses") arg = g.vl(1).getId();
                else if (o->name == "removeVoltageLevel") arg = g.vl().getId();
                else if (o->name == "removeSubstation") arg = g.one<Substation>().getId();
            } catch (const Skip&) { continue; }
            e = expectation(n, o->name, arg);
        }
        bool no = false;
        std::string why;
        try { g.run(*o, sub); } catch (const Skip&) { continue; } catch (const std::exception& x) {
            no = true;
            why = x.what();
            VCHECK(isLibraryError(x), "error-type:" + o->name, g.desc + " " + typeName(x) + " " + x.what());
        }
        logOp(g.desc + (no ? " ! " + why : ""));
        if (!arg.empty()) VCHECK(mentions(g.desc, arg), "harness:target", g.desc + " / " + arg);
        VCHECK(!(no && e.must == 1), "refused-valid:" + o->name, g.desc + ": " + why);
        VCHECK(!(!no && e.must == 0), "accepted-dangling:" + o->name, g.desc);
        DumpMap after = dumpAll(n);
        if (no) {
            R.count("removals_refused");
            std::string d = diff(before, after);
            VCHECK(d.empty(), "refused-removal-changes:" + o->name, g.desc + ": " + d);
            continue;
        }
        R.count("removals");
        R.seen("removal_kinds", o->name + (arg.empty() || !idsBefore.count(arg) ? "" : before[arg + ".kind"]));
        std::set<std::string> idsAfter = idSetOf(n), removed;
        std::set_difference(idsBefore.begin(), idsBefore.end(), idsAfter.begin(), idsAfter.end(), std::inserter(removed, removed.begin()));
        VCHECK(removed == e.removed && std::includes(idsBefore.begin(), idsBefore.end(), idsAfter.begin(), idsAfter.end()), "removed-set:" + o->name, [&]() {
            std::string t = g.desc + " removed:";
            for (auto& x : removed) t += " " + x;
            t += " expected:";
            for (auto& x : e.removed) t += " " + x;
            return t; }());
        R.seen("cover", o->name + S((ulong_t)removed.size()) + "/" + S((ulong_t)idsBefore.size()));
        auto ofRemoved = [&](const std::string& v) { auto p = v.find('#'); return p != std::string::npos && removed.count(v.substr(0, p)) > 0; };
        // everything else is unchanged, except what is about the removed objects
        std::string parts = o->name == "removeTapChanger" ? (g.desc.find(" rtc ") != std::string::npos ? "/rtc" : "/ptc") : o->name == "removeExtension" ? "/x:" : "";
        std::string target = g.desc.substr(g.desc.find(' ') + 1);
        for (auto& key : diffKeys(before, after)) {
            std::string own = ownerOf(before, key), attr = attrOfKey(key);
            if (removed.count(own)) { VCHECK(!after.count(key), "still-there:" + attr, key); continue; }
            auto b = before.find(key), a = after.find(key);
            std::string bv = b == before.end() ? "absent" : b->second, av = a == after.end() ? "absent" : a->second;
            bool ok = false;
            // derived from the topology (checked against the reference by checkSane)
            if (key.find(".bus{") != std::string::npos || key.find(".bb{") != std::string::npos || attr == "bus" || attr == "bb" || attr == "connected" || attr == "voltage") ok = true;
            else if (attr == "equipment" || attr == "vls" || attr == "2wt" || attr == "3wt" || attr == "nodes" || attr == "terminals" || attr == "hvdc") ok = true;
            else if (attr == "regTerminal") ok = ofRemoved(bv) && !ofRemoved(av);
            else if (attr == "isRegulating") {
                std::string rt = key.substr(key.find('@') + 1);
                rt = rt.substr(0, rt.rfind('.')) + ".regTerminal";
                ok = av == "false" && before.count(rt) && ofRemoved(before[rt]);
            }
            else if (attr == "exts" || key.find("/x:slackTerminal") != std::string::npos || key.find("/x:generatorRemoteReactivePowerControl") != std::string::npos) {
                // extensions which referred to a removed terminal
                bool ref = false;
                for (auto& kv : before) if (ownerOf(before, kv.first) == own && (kv.first.find("/x:slackTerminal.terminal") != std::string::npos || kv.first.find("/x:generatorRemote") != std::string::npos)) ref = ref || ofRemoved(kv.second.substr(0, kv.second.find(' ')));
                ok = ref;
            }
            if (o->name == "removeTapChanger") ok = ok || (mentions(g.desc, own) && (key.find(parts) != std::string::npos || attr == "misc"));
            if (o->name == "removeExtension") ok = ok || (mentions(g.desc, own) && (key.find(parts) != std::string::npos || attr == "exts"));
            R.count("differences_judged");
            VCHECK(ok, "unrelated-change:" + o->name + ":" + attr, g.desc + ": " + key + ": " + bv + " -> " + av);
            if (R.violations > 30) return;
        }
        // nothing mentions the removed objects
        for (auto& kv : after) {
            for (auto& id : removed) VCHECK(!mentions(kv.second, id) || kv.first.find(".props") != std::string::npos || kv.first.find(".name") != std::string::npos, "still-mentioned:" + attrOfKey(kv.first), id + " in " + kv.first + " = " + kv.second.substr(0, 300));
        }
        if (!removed.empty() && rng.chance(30)) {
std::string x = toXml(n);
            for (auto& id : removed) VCHECK(x.find("\"" + id + "\"") == std::string::npos, "still-exported:" + o->name, id);
            R.count("exports_searched");
        }
        for (auto& x : names) { (void)x; }
        checkIndex(n, names, "");
        // identifiers and nodes are free again
        for (auto& id : removed) {
            for (auto& pr : nodesOf[id]) {
                auto v = n.find<VoltageLevel>(pr.first);
                if (!v) continue;
                VCHECK(!v.get().getNodeBreakerView().getOptionalTerminal(pr.second), "node-not-free:" + o->name, id + " " + pr.first + "@" + S(pr.second));
                std::vector<std::string> reuse = {id};
                for (auto& al : aliasesBefore[id]) reuse.push_back(al);
                std::string use = rng.pick(reuse);
                bool bad = refused([&]() { v.get().newLoad().setId(use).setP0(1).setQ0(2).setNode(pr.second).add(); });
                VCHECK(!bad, "not-reusable:" + o->name, use + " at " + pr.first + "@" + S(pr.second));
                if (!bad) n.getLoad(use).remove();
                R.count("names_and_nodes_reused");
            }
        }
        // and so is every name they had, for objects and for aliases
        for (auto& id : removed) {
            std::vector<std::string> freed = {id};
            for (auto& al : aliasesBefore[id]) freed.push_back(al);
            for (auto& name : freed) {
                bool badId = refused([&]() { n.newSubstation().setId(name).add(); });
                VCHECK(!badId, "name-not-free:" + o->name, name + " of " + id);
                if (!badId) n.getSubstation(name).remove();
                Identifiable& other = g.one<Identifiable>();
                bool badAlias = refused([&]() { rng.chance(50) ? other.addAlias(name) : other.addAlias(name, "type of a freed name"); });
                VCHECK(!badAlias && stdcxx::areSame(n.get<Identifiable>(name), other), "alias-not-free:" + o->name, name + " of " + id + " for " + other.getId());
                if (!badAlias) other.removeAlias(name);
                R.count("freed_names_reused");
            }
        }
        DumpMap again = dumpAll(n);
        std::string d = diff(after, again);
        VCHECK(d.empty(), "reuse-leaves-traces:" + firstDiffKey(d), g.desc + ": " + d);
        if (rng.chance(40)) checkSane(n, "");
    }
    checkSane(n, "");
}
