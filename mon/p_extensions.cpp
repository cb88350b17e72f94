// P15: extensions against a model of what is attached, variant by variant, and through the format.
#include "ext.hpp"
#include "gen.hpp"
#include "oracle.hpp"
#include "pick.hpp"
#include "xmlio.hpp"
#include "xmlwork.hpp"
#include <powsybl/iidm/VariantManager.hpp>
#include <powsybl/iidm/converter/ExportOptions.hpp>
#include <powsybl/iidm/converter/ImportOptions.hpp>
#include <powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp>
#include <powsybl/stdcxx/demangle.hpp>
using namespace vmon;
using namespace powsybl::iidm;
namespace ext = powsybl::iidm::extensions;
namespace xs = powsybl::iidm::extensions::sld;
namespace xi = powsybl::iidm::extensions::iidm;
namespace xe = powsybl::iidm::extensions::entsoe;

namespace {
// applies f(name, tag of the type) to every type of extension
template <typename T> struct Tag { using type = T; };
template <typename F> void eachType(F&& f) {
    f("detail", Tag<ext::LoadDetail>()); f("slackTerminal", Tag<ext::SlackTerminal>()); f("position", Tag<xs::ConnectablePosition>()); f("busbarSectionPosition", Tag<xs::BusbarSectionPosition>());
    f("branchStatus", Tag<xs::BranchStatus>()); f("coordinatedReactiveControl", Tag<xi::CoordinatedReactiveControl>()); f("generatorRemoteReactivePowerControl", Tag<xi::RemoteReactivePowerControl>());
    f("twoWindingsTransformerPhaseAngleClock", Tag<xi::TwoWindingsTransformerPhaseAngleClock>()); f("threeWindingsTransformerPhaseAngleClock", Tag<xi::ThreeWindingsTransformerPhaseAngleClock>());
    f("discreteMeasurements", Tag<xi::DiscreteMeasurements>()); f("measurements", Tag<xi::Measurements>()); f("voltagePerReactivePowerControl", Tag<xi::VoltagePerReactivePowerControl>());
    f("hvdcAngleDroopActivePowerControl", Tag<xi::HvdcAngleDroopActivePowerControl>()); f("hvdcOperatorActivePowerRange", Tag<xi::HvdcOperatorActivePowerRange>());
    f("activePowerControl", Tag<xi::ActivePowerControl>()); f("entsoeArea", Tag<xe::EntsoeArea>()); f("xnode", Tag<xe::Xnode>()); f("mergedXnode", Tag<xe::MergedXnode>());
}
using Attached = std::map<std::string, std::set<std::string>>;   // identifier -> names of the extensions

// how the library reports the extensions of an object: by enumeration, by type and by name, all the same
std::set<std::string> reported(Identifiable& o, const std::set<const Terminal*>& alive) {
    std::set<std::string> names;
    std::map<std::string, const Extension*> addr;
    for (Extension& e : o.getExtensions()) {
        VCHECK(names.insert(e.getName()).second, "enumeration:twice", o.getId() + " " + e.getName());
        addr[e.getName()] = &e;
        auto owner = e.getExtendable<Extendable>();
        VCHECK(owner && &owner.get() == static_cast<Extendable*>(&o), "owner", o.getId() + " " + e.getName());
    }
    const Identifiable& co = o;
    size_t known = 0;
    eachType([&](const char* name, auto tag) {
        using T = typename decltype(tag)::type;
        bool has = names.count(name) != 0;
        known += has;
        auto f = o.template findExtension<T>();
        auto cf = co.template findExtension<T>();
        auto b = o.template getExtensionByName<T>(name);
        auto be = co.template getExtensionByName<Extension>(name);
        bool thrown = refused([&]() { (void)co.template getExtension<T>(); });
        std::string d = o.getId() + " " + name + " enumerated " + S(has) + " by type " + S(static_cast<bool>(f)) + " by name " + S(static_cast<bool>(b)) + " get throws " + S(thrown);
        VCHECK(static_cast<bool>(f) == has && static_cast<bool>(cf) == has && static_cast<bool>(b) == has && static_cast<bool>(be) == has && thrown == !has, "lookup", d);
        if (has && f && b && cf && be) {
            VCHECK(static_cast<const Extension*>(&f.get()) == addr[name] && &cf.get() == &f.get() && &b.get() == &f.get() && &be.get() == addr[name], "lookup:same", d);
            if (!thrown) VCHECK(&o.template getExtension<T>() == &f.get(), "lookup:same", d);
            VCHECK(f.get().getName() == name && f.get().getType() == std::type_index(typeid(T)), "lookup:name-and-type", d);
        }
    });
    VCHECK(known == names.size(), "enumeration:unknown", o.getId());
    // connection points referred to
    auto sl = o.findExtension<ext::SlackTerminal>();
    if (sl) { auto t = sl.get().getTerminal(); VCHECK(!t || alive.count(&t.get()), "outlived-terminal:slack", o.getId()); VCHECK(sl.get().isEmpty() || !refused([&]() { sl.get().isEmpty(); }), "slack-empty", o.getId()); }
    auto rr = o.findExtension<xi::RemoteReactivePowerControl>();
    if (rr) VCHECK(alive.count(&static_cast<const xi::RemoteReactivePowerControl&>(rr.get()).getRegulatingTerminal()), "outlived-terminal:remote", o.getId());
    return names;
}
Attached reportedAll(Network& n) {
    std::set<const Terminal*> alive;
    for (Terminal* t : allTerminals(n)) alive.insert(t);
    Attached a;
    std::vector<Identifiable*> os;
    for (Identifiable& o : n.getIdentifiables()) os.push_back(&o);
    for (Identifiable* o : os) { auto s = reported(*o, alive); if (!s.empty()) a[o->getId()] = s; }
    return a;
}
bool isExt(const std::string& key) { return key.find("/x:") != std::string::npos; }
DumpMap extDump(Network& n) {
    DumpMap d = dumpAll(n, DS | DV), r;
    for (auto& k : d) if (isExt(k.first)) r.insert(k);
    return r;
}
// "<id>/x:<name>" of a key of the dump, without the variant
std::string extOf(const std::string& key) {
    auto p = key.find("/x:");
    auto e = key.find_first_of(".#{[", p + 3);
    std::string s = key.substr(0, e);
    auto at = s.find('@');
    return at == std::string::npos || at > p ? s : s.substr(at + 1);
}
std::string first(Network& n) { return n.getVariantManager().getInitialVariantId(); }
void ensureVariant(Network& n) {
    try { n.getVariantManager().getWorkingVariantId(); } catch (const std::exception&) { n.getVariantManager().setWorkingVariant(first(n)); }
}
// measurements without any measure and slack terminals without terminal have nothing to write
bool written(Network& n, const std::string& id, const std::string& e) {
    Identifiable& o = n.get<Identifiable>(id);
    if (e == "generatorRemoteReactivePowerControl") return false;
    if (e == "measurements") return !boost::empty(o.getExtension<xi::Measurements>().getMeasurements());
    if (e == "discreteMeasurements") return !boost::empty(o.getExtension<xi::DiscreteMeasurements>().getDiscreteMeasurements());
    if (e == "slackTerminal") return static_cast<bool>(o.getExtension<ext::SlackTerminal>().getTerminal());
    return true;
}
std::string flat(const Attached& a) { std::string s; for (auto& k : a) { s += k.first + ":"; for (auto& x : k.second) s += x + ","; s += " "; } return s; }
}  // namespace

// P15
MODULE(extensions) {
    Network n("net", "test");
    Gen g(n, rng.u64());
    g.build(rng, static_cast<int>(rng.range(4, 22)));
    ensureVariant(n);
    for (int i = static_cast<int>(rng.range(5, 25)); i > 0; --i) g.random(rng, "x");
    ensureVariant(n);
    Attached have = reportedAll(n);
    DumpMap before = extDump(n);
    std::string hist;
    int steps = static_cast<int>(rng.range(10, C.thorough ? 60 : 30));
    for (int i = 0; i < steps; ++i) {
        int k = static_cast<int>(rng.below(100));
        std::string changed, d;          // the only extension which may change
        std::set<std::string> changedIn; // in these variants, all when empty
        bool anyRemoval = false;
        if (k < 35) {
            uint64_t sub = rng.u64();
            long hit = rng.chance(20) ? rng.range(0, 4) : -1;
            bool ok = true;
            try { g.run(Gen::op("newExtension"), sub, hit); }
            catch (const Skip&) { continue; }
            catch (const std::exception& e) { if (!isLibraryError(e)) throw; ok = false; }
            ensureVariant(n);
            d = g.desc;
            logOp(d + (ok ? "" : " refused"));
            if (ok && g.a.hitName.empty() && !g.made.empty()) checkCreated(g, "");
            Attached now = reportedAll(n);
            DumpMap after = extDump(n);
            // exactly one extension of one object may have been touched by a success, none by a refusal
            std::set<std::string> touched;
            for (auto& key : diffKeys(before, after)) touched.insert(extOf(key));
            std::set<std::string> added;
            for (auto& o : now) for (auto& x : o.second) if (!have[o.first].count(x)) added.insert(o.first + "/x:" + x);
            for (auto& o : have) for (auto& x : o.second) VCHECK(now[o.first].count(x), "lost-by-creation", d + ": " + o.first + " " + x);
            VCHECK(added.size() <= (ok ? 1u : 0u), "added:count", d);
            for (auto& x : added) VCHECK(d.find(x.substr(0, x.find("/x:"))) != std::string::npos, "added:owner", d + ": " + x);
            VCHECK(touched.size() <= (ok ? 1u : 0u), ok ? "creation:others-changed" : "refused-creation-changes", d + ": " + diff(before, after));
            if (ok && !g.made.empty()) VCHECK(now[g.made.substr(0, g.made.find("/x:"))].count(g.made.substr(g.made.find("/x:") + 3)), "not-attached", d);
            if (!added.empty()) {
                std::string id = added.begin()->substr(0, added.begin()->find("/x:"));
                (void)id;
                R.count("extensions_added");
            } else if (ok) R.count("extensions_replaced_or_edited");
            hist += ok ? (added.empty() ? "e" : "a") : "-";
            have = now;
            before = after;
            continue;
        } else if (k < 50) {
            // removal of one extension
            std::vector<std::pair<std::string, std::string>> c;
            for (auto& o : have) for (auto& x : o.second) c.emplace_back(o.first, x);
            if (c.empty()) continue;
            auto x = rng.pick(c);
            d = "remove " + x.first + " " + x.second;
            logOp(d);
            Identifiable& o = n.get<Identifiable>(x.first);
            removeExtensionByName(o, x.second);
            if (rng.chance(20)) removeExtensionByName(o, x.second);   // nothing left to remove
            have[x.first].erase(x.second);
            if (have[x.first].empty()) have.erase(x.first);
            changed = x.first + "/x:" + x.second;
            DumpMap now = extDump(n);
            for (auto& key : now) VCHECK(extOf(key.first) != changed, "removed-extension-remains", d);
            R.count("extensions_removed");
            hist += "x";
        } else if (k < 70) {
            std::vector<Pick> ps;
            for (auto& p : settable(n, "SV")) if (p.h.kind.compare(0, 2, "X:") == 0) ps.push_back(p);
            if (ps.empty()) continue;
            Pick p = rng.pick(ps);
            p.v = p.a->gen(rng, p.h.p);
            d = pickName(p) + " = " + S(p.v);
            logOp(d);
            bool ok = true;
            try { p.a->set(p.h.p, p.v); } catch (const std::exception& e) { if (!isLibraryError(e)) throw; ok = false; }
            if (ok) {
                VCHECK(p.a->get(p.h.p) == p.a->fmt(p.v), "value-not-kept:" + p.h.kind, d + " reads " + p.a->get(p.h.p));
                changed = extOf(p.h.key);
                if (p.a->cls == Cls::V) changedIn.insert(n.getVariantManager().getWorkingVariantId());
                R.count("values_set");
            }
            hist += ok ? "s" : "-";
        } else if (k < 85) {
            // variants: a clone starts with the values of its source
            auto ids = variantIds(n);
            auto& vm = n.getVariantManager();
            int what = static_cast<int>(rng.below(3));
            if (what == 0 && ids.size() < 6) {
                std::string src = rng.pick(ids), dst = rng.chance(25) && ids.size() > 1 ? rng.pick(ids) : "v" + S(static_cast<int>(rng.below(1000000)));
                bool exists = std::find(ids.begin(), ids.end(), dst) != ids.end();
                if (dst == src || (exists && dst == first(n))) continue;
                d = "clone " + src + " -> " + dst;
                logOp(d);
                vm.cloneVariant(src, dst, true);
                ensureVariant(n);
                DumpMap after = extDump(n), want = before;
                for (auto it = want.begin(); it != want.end();) if (it->first.compare(0, dst.size() + 1, dst + "@") == 0) it = want.erase(it); else ++it;
                for (auto& key : before) if (key.first.compare(0, src.size() + 1, src + "@") == 0) want[dst + key.first.substr(src.size())] = key.second;
                VCHECK(after == want, "clone:values", d + ": " + diff(want, after));
                before = after;
            } else if (what == 1 && ids.size() > 1) {
                std::string id = rng.pick(ids);
                if (id == first(n)) continue;
                d = "remove variant " + id;
                logOp(d);
                vm.removeVariant(id);
                ensureVariant(n);
                DumpMap after = extDump(n), want = before;
                for (auto it = want.begin(); it != want.end();) if (it->first.compare(0, id.size() + 1, id + "@") == 0) it = want.erase(it); else ++it;
                VCHECK(after == want, "remove-variant:values", d + ": " + diff(want, after));
                before = after;
            } else {
                std::string id = rng.pick(ids);
                d = "work in " + id;
                logOp(d);
                vm.setWorkingVariant(id);
            }
            R.count("variant_operations");
            hist += "v";
        } else {
            // removal of objects: their extensions go with them, references to them are given up
            if (!g.random(rng, "r")) continue;
            d = g.desc;
            logOp(d);
            ensureVariant(n);
            anyRemoval = true;
            hist += "r";
        }
        Attached now = reportedAll(n);
        DumpMap after = extDump(n);
        if (anyRemoval) {
            for (auto& o : have) {
                bool there = static_cast<bool>(n.find<Identifiable>(o.first));
                if (!there) { VCHECK(!now.count(o.first), "extensions-of-removed", o.first); R.count("owners_removed"); continue; }
                for (auto& x : o.second) {
                    if (now[o.first].count(x)) continue;
                    // an extension which makes no sense without the connection point goes with it
                    bool orphan = x == "generatorRemoteReactivePowerControl";
                    if (x == "slackTerminal") {
                        // its terminals, in all the variants, are gone
                        orphan = true;
                        for (auto& key : before) if (extOf(key.first) == o.first + "/x:slackTerminal" && n.find<Identifiable>(key.second.substr(0, key.second.rfind('#')))) orphan = false;
                    }
                    VCHECK(orphan, "lost-with-another-object", d + ": " + o.first + " " + x);
                    R.count("references_given_up");
                }
                if (now[o.first].empty()) now.erase(o.first);
            }
            for (auto& o : now) for (auto& x : o.second) VCHECK(have.count(o.first) && have[o.first].count(x), "appeared", d + ": " + o.first + " " + x);
            for (auto& key : diffKeys(before, after)) {
                if (!after.count(key)) { VCHECK(!now.count(extOf(key).substr(0, extOf(key).find("/x:"))) || !now[extOf(key).substr(0, extOf(key).find("/x:"))].count(extOf(key).substr(extOf(key).find("/x:") + 3)), "value-lost", d + ": " + key); continue; }
                VCHECK(before.count(key) && key.find("/x:slackTerminal") != std::string::npos && n.find<Identifiable>(before[key].substr(0, before[key].rfind('#'))) == stdcxx::ref<Identifiable>(), "removal:others-changed", d + ": " + key + " " + before[key] + " -> " + after[key]);
                R.count("references_given_up");
            }
        } else {
            VCHECK(now == have, "attached", d + ": " + flat(now).substr(0, 500) + " expected " + flat(have).substr(0, 500));
            for (auto& key : diffKeys(before, after)) {
                bool may = extOf(key) == changed;
                auto at = key.find('@');
                if (may && !changedIn.empty() && at != std::string::npos && at < key.find("/x:") && !changedIn.count(key.substr(0, at))) may = false;
                VCHECK(may, "others-changed", d + ": " + key);
            }
        }
        have = now;
        before = after;
    }
    R.count("extension_histories");
    R.seen("cover", hist + " " + S((ulong_t)have.size()));
}

// P15: versions of the extensions, and attachment through the format
MODULE(ext_versions) {
    Network n("net", "test");
    Gen g(n, rng.u64());
    populate(n, g, rng, static_cast<int>(rng.range(2, 20)));
    for (int i = static_cast<int>(rng.range(5, 40)); i > 0; --i) g.random(rng, "x");
    if (rng.chance(50)) for (VoltageLevel& v : n.getVoltageLevels()) {
        for (Terminal* t : allTerminals(n)) if (&t->getVoltageLevel() == &v && rng.chance(30)) { if (!v.findExtension<ext::SlackTerminal>()) v.newExtension<ext::SlackTerminalAdder>().withTerminal(*t).add(); break; }
    }
    undefinedSteps(n, true);
    Attached have = reportedAll(n);
    std::set<std::string> names;
    for (auto& o : have) for (auto& x : o.second) if (written(n, o.first, x)) names.insert(x);
    std::string wv = n.getVariantManager().getWorkingVariantId();
    converter::ExportOptions o;
    std::map<std::string, std::string> versions;
    std::vector<std::string> iidm = {"1.5", "1.5", "1.4", "1.3", "1.2"};
    std::string iv = rng.pick(iidm);
    if (rng.chance(70)) o.setVersion(iv); else iv = "1.5";
    o.setIidmVersionIncompatibilityBehavior(converter::ExportOptions::IidmVersionIncompatibilityBehavior::LOG_ERROR);
    bool ok = true;
    std::string text = iv;
    eachType([&](const char* name, auto) {
        if (!rng.chance(std::string(name) == "slackTerminal" ? 60 : 12)) return;
        std::string v = rng.chance(85) ? std::string(name) == "slackTerminal" ? rng.of({"1.0", "1.1", "1.2"}) : "1.0" : rng.of({"9.9", "2", "x"});
        versions[name] = v;
        text += std::string(" ") + name + "=" + v;
        o.addExtensionVersion(name, v);
        bool twice = refused([&]() { o.addExtensionVersion(name, "1.0"); });
        VCHECK(twice, "version-given-twice", name);
        VCHECK(o.getExtensionVersion(name) == v, "version-kept", name);
        if (std::string(name) == "generatorRemoteReactivePowerControl") return;   // no serializer: the version is not used
        if (std::string(name) != "slackTerminal" && v != "1.0" && names.count(name)) ok = false;
    });
    // the slack terminals exist in the formats 1.3 and later, in one version each
    static const std::map<std::string, std::string> slack = {{"1.3", "1.0"}, {"1.4", "1.1"}, {"1.5", "1.2"}};
    bool slackThere = false;
    slackThere = names.count("slackTerminal") != 0;
    auto sv = versions.find("slackTerminal");
    if (slackThere && (!slack.count(iv) || (sv != versions.end() && sv->second != slack.at(iv)))) ok = false;
    std::string x, why;
    try { x = toXml(n, o); } catch (const std::exception& e) { if (!isLibraryError(e)) throw; why = e.what(); }
    logOp(text + (why.empty() ? " exported" : " refused: " + why));
    VCHECK(ok || !why.empty(), "unsupported-version-written", text);
    if (!why.empty()) {
        // what is refused for another reason (features of the network in old formats) is the business of other checks
        R.count("refused_exports");
        if (iv == "1.5") VCHECK(!ok, "supported-version-refused", text + ": " + why);
        R.seen("cover", "refused " + text);
        return;
    }
    Network m = fromXml(x);
    Attached got = reportedAll(m);
    for (auto& h : have) {
        for (auto& e : h.second) {
            bool there = got.count(h.first) && got[h.first].count(e);
            if (!there && !written(n, h.first, e)) continue;
            R.count("extensions_restored");
            VCHECK(there, "not-restored:" + e, h.first + " " + text);
        }
    }
    for (auto& h : got) for (auto& e : h.second) VCHECK(have.count(h.first) && have[h.first].count(e), "appeared-by-import:" + e, h.first);
    DumpMap a, b;
    for (auto& k : dump(n, DS | DV)) if (isExt(k.first)) a.insert(k);
    for (auto& k : dump(m, DS | DV)) if (isExt(k.first)) b.insert(k);
    dropUnserializable(a);
    dropUnserializable(b);
    R.count("checks", a.size());
    R.count("extension_values", a.size());
    for (auto& k : diffKeys(a, b)) violation("not-equal:" + extOf(k).substr(extOf(k).find("/x:") + 3), k + ": " + (a.count(k) ? a[k] : "absent") + " -> " + (b.count(k) ? b[k] : "absent"));
    // the older names of the parts of the loads are read too
    if (names.count("detail")) {
        std::string y = x;
        static const std::vector<std::pair<std::string, std::string>> older = {{"fixedActivePower", "subLoad1ActivePower"}, {"fixedReactivePower", "subLoad1ReactivePower"}, {"variableActivePower", "subLoad2ActivePower"}, {"variableReactivePower", "subLoad2ReactivePower"}};
        for (size_t p = y.find("<ld:detail "); p != std::string::npos; p = y.find("<ld:detail ", p + 1)) {
            for (auto& w : older) {
                size_t q = y.find(" " + w.first + "=\"", p);
                if (q != std::string::npos && q < y.find('>', p) && rng.chance(70)) { y.replace(q + 1, w.first.size(), w.second); R.count("older_names"); }
            }
        }
        DumpMap c = dump(m, DS | DV);
        Network older2 = fromXml(y);
        std::string d = diff(c, dump(older2, DS | DV));
        VCHECK(d.empty(), "older-names-read-differently", d);
    }
    std::string all;
    for (auto& s : names) all += s + ",";
    R.seen("cover", text + " " + all);
}
// what cannot be an extension of an object, or says too little, is refused and leaves what was there
namespace {
template <typename A> struct Adder { using type = A; };
template <typename F> void eachAdder(F&& f) {
    auto load = [](Identifiable& o) { return dynamic_cast<Load*>(&o) != nullptr; };
    auto level = [](Identifiable& o) { return dynamic_cast<VoltageLevel*>(&o) != nullptr; };
    auto connectable = [](Identifiable& o) { return dynamic_cast<Connectable*>(&o) != nullptr; };
    auto section = [](Identifiable& o) { return dynamic_cast<BusbarSection*>(&o) != nullptr; };
    auto generator = [](Identifiable& o) { return dynamic_cast<Generator*>(&o) != nullptr; };
    auto two = [](Identifiable& o) { return dynamic_cast<TwoWindingsTransformer*>(&o) != nullptr; };
    auto three = [](Identifiable& o) { return dynamic_cast<ThreeWindingsTransformer*>(&o) != nullptr; };
    auto svc = [](Identifiable& o) { return dynamic_cast<StaticVarCompensator*>(&o) != nullptr; };
    auto hvdc = [](Identifiable& o) { return dynamic_cast<HvdcLine*>(&o) != nullptr; };
    auto battery = [](Identifiable& o) { return dynamic_cast<Battery*>(&o) != nullptr; };
    auto substation = [](Identifiable& o) { return dynamic_cast<Substation*>(&o) != nullptr; };
    auto line = [](Identifiable& o) { return dynamic_cast<Line*>(&o) != nullptr; };
    auto dangling = [](Identifiable& o) { return dynamic_cast<DanglingLine*>(&o) != nullptr; };
    // name, adder, objects it is for, whether it needs more than that
    f("detail", Adder<ext::LoadDetailAdder>(), load, false);
    f("slackTerminal", Adder<ext::SlackTerminalAdder>(), level, true);
    f("position", Adder<xs::ConnectablePositionAdder>(), connectable, false);
    f("busbarSectionPosition", Adder<xs::BusbarSectionPositionAdder>(), section, true);
    f("branchStatus", Adder<xs::BranchStatusAdder>(), connectable, true);
    f("coordinatedReactiveControl", Adder<xi::CoordinatedReactiveControlAdder>(), generator, false);
    f("generatorRemoteReactivePowerControl", Adder<xi::RemoteReactivePowerControlAdder>(), generator, true);
    f("twoWindingsTransformerPhaseAngleClock", Adder<xi::TwoWindingsTransformerPhaseAngleClockAdder>(), two, true);
    f("threeWindingsTransformerPhaseAngleClock", Adder<xi::ThreeWindingsTransformerPhaseAngleClockAdder>(), three, true);
    f("voltagePerReactivePowerControl", Adder<xi::VoltagePerReactivePowerControlAdder>(), svc, false);
    f("hvdcAngleDroopActivePowerControl", Adder<xi::HvdcAngleDroopActivePowerControlAdder>(), hvdc, false);
    f("hvdcOperatorActivePowerRange", Adder<xi::HvdcOperatorActivePowerRangeAdder>(), hvdc, false);
    f("activePowerControl", Adder<xi::ActivePowerControlAdder>(), [=](Identifiable& o) { return generator(o) || battery(o); }, false);
    f("entsoeArea", Adder<xe::EntsoeAreaAdder>(), substation, true);
    f("xnode", Adder<xe::XnodeAdder>(), dangling, false);
    f("mergedXnode", Adder<xe::MergedXnodeAdder>(), line, false);
}
template <typename F> bool thrown(F&& f) {
    try { f(); } catch (const std::exception&) { return true; }
    return false;
}
}  // namespace
MODULE(ext_refusals) {
    Network n("net", "test");
    Gen g(n, rng.u64());
    populate(n, g, rng, static_cast<int>(rng.range(5, 25)));
    for (int i = static_cast<int>(rng.range(0, 30)); i > 0; --i) g.random(rng, "x");
    std::vector<Identifiable*> os;
    for (Identifiable& o : n.getIdentifiables()) os.push_back(&o);
    std::sort(os.begin(), os.end(), [](Identifiable* a, Identifiable* b) { return a->getId() < b->getId(); });
    DumpMap before = extDump(n);
    Attached have = reportedAll(n);
    for (Identifiable* o : os) {
        eachAdder([&](const char* name, auto tag, auto fits, bool needs) {
            using A = typename decltype(tag)::type;
            bool fit = fits(*o);
            if (!rng.chance(fit ? 30 : 3)) return;
            bool had = have.count(o->getId()) && have[o->getId()].count(name);
            std::string d = o->getId() + " (" + stdcxx::demangle(*o) + ") " + name + (had ? " replacing" : "");
            bool bad = thrown([&]() { o->template newExtension<A>().add(); });
            VCHECK(bad || (fit && !needs), fit ? std::string("incomplete-extension-accepted:") + name : std::string("misplaced-extension-accepted:") + name, d);
            Attached got = reportedAll(n);
            if (!bad) have[o->getId()].insert(name);
            VCHECK(got == have, bad ? "refused-extension-left-something" : "extension-not-added", d);
            DumpMap after = extDump(n);
            if (bad) {
                std::string df = diff(before, after);
                VCHECK(df.empty(), "refused-extension-left-something", d + ": " + df);
            } else {
                std::string df = diff(before, after, [&](const std::string& k) { return k.find(o->getId() + "/x:" + name) != std::string::npos; });
                VCHECK(df.empty(), "extension-changes-another", d + ": " + df);
            }
            before = after;
            R.count(bad ? fit ? "incomplete_refused" : "misplaced_refused" : "bare_accepted");
            R.seen("cover", std::string(name) + " on " + stdcxx::demangle(*o) + (had ? " replacing" : "") + (bad ? " refused" : " accepted"));
        });
    }
}
