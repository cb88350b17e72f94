// P15: values kept by extensions through their own editing operations: lists of measurements, feeders, slack terminals, merged nodes.
#include "ext.hpp"
#include "gen.hpp"
#include "oracle.hpp"
#include "pick.hpp"
#include "xmlio.hpp"
#include "xmlwork.hpp"
#include <powsybl/iidm/VariantManager.hpp>
using namespace vmon;
using namespace powsybl::iidm;
namespace ext = powsybl::iidm::extensions;
namespace xs = powsybl::iidm::extensions::sld;
namespace xi = powsybl::iidm::extensions::iidm;
namespace xe = powsybl::iidm::extensions::entsoe;
using M = xi::Measurement;
using MS = xi::Measurements;
using DM = xi::DiscreteMeasurement;
using DMS = xi::DiscreteMeasurements;
using Props = std::map<std::string, std::string>;

namespace {
bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

// a measure as it must read
struct Measure {
    const void* p = nullptr;
    std::string id;
    M::Type type = M::Type::OTHER;
    stdcxx::optional<M::Side> side;
    double value = NaN, sd = NaN;
    bool valid = true;
    Props props;
};
struct Discrete {
    const void* p = nullptr;
    std::string id;
    DM::Type type = DM::Type::OTHER;
    stdcxx::optional<DM::TapChanger> tap;
    DM::ValueType vt = DM::ValueType::INT;
    bool b = false;
    int i = 0;
    std::string s;
    bool valid = true;
    Props props;
};
template <typename O> void checkProps(const O& o, const Props& want, const std::string& key, const std::string& d) {
    Props got;
    ulong_t k = 0;
    for (const std::string& n : o.getPropertyNames()) { got[n] = o.getProperty(n); ++k; }
    VCHECK(got == want && k == want.size(), key + ":properties", d + " has " + S(k) + " of " + S((ulong_t)want.size()));
    VCHECK(o.getProperty("no such property").empty(), key + ":properties", d);
}
void check(const M& m, const Measure& w, bool address, const std::string& d) {
    if (address) VCHECK(&m == w.p, "measure:identity", d);
    VCHECK(m.getId() == w.id && m.getType() == w.type && m.isValid() == w.valid && m.getSide() == w.side, "measure:read", d + " " + m.getId());
    VCHECK(same(m.getValue(), w.value) && same(m.getStandardDeviation(), w.sd), "measure:value", d + " " + m.getId() + " " + S(m.getValue()) + " expected " + S(w.value));
    checkProps(m, w.props, "measure", d);
}
void check(const DM& m, const Discrete& w, bool address, const std::string& d) {
    if (address) VCHECK(&m == w.p, "discrete:identity", d);
    VCHECK(m.getId() == w.id && m.getType() == w.type && m.isValid() == w.valid && m.getTapChanger() == w.tap && m.getValueType() == w.vt, "discrete:read", d + " " + m.getId());
    bool b = false, i = false, s = false;
    bool rb = refused([&]() { b = m.getValueAsBoolean() == w.b; }), ri = refused([&]() { i = m.getValueAsInt() == w.i; }), rs = refused([&]() { s = m.getValueAsString() == w.s; });
    VCHECK(rb == (w.vt != DM::ValueType::BOOLEAN) && ri == (w.vt != DM::ValueType::INT) && rs == (w.vt != DM::ValueType::STRING), "discrete:kind-of-value", d);
    VCHECK(w.vt == DM::ValueType::BOOLEAN ? b : w.vt == DM::ValueType::INT ? i : s, "discrete:value", d + " " + m.getId());
    checkProps(m, w.props, "discrete", d);
}
const std::vector<M::Type> MT = {M::Type::ANGLE, M::Type::ACTIVE_POWER, M::Type::APPARENT_POWER, M::Type::REACTIVE_POWER, M::Type::CURRENT, M::Type::VOLTAGE, M::Type::FREQUENCY, M::Type::OTHER};
const std::vector<DM::Type> DTYPES = {DM::Type::TAP_POSITION, DM::Type::SWITCH_POSITION, DM::Type::SHUNT_COMPENSATOR_SECTION, DM::Type::OTHER};
const std::vector<DM::TapChanger> TC = {DM::TapChanger::RATIO_TAP_CHANGER, DM::TapChanger::PHASE_TAP_CHANGER, DM::TapChanger::RATIO_TAP_CHANGER_1, DM::TapChanger::PHASE_TAP_CHANGER_1,
    DM::TapChanger::RATIO_TAP_CHANGER_2, DM::TapChanger::PHASE_TAP_CHANGER_2, DM::TapChanger::RATIO_TAP_CHANGER_3, DM::TapChanger::PHASE_TAP_CHANGER_3};

void checkList(Identifiable& o, const std::vector<Measure>& want, bool address, const std::string& d) {
    MS& x = o.getExtension<MS>();
    const MS& cx = x;
    size_t k = 0;
    for (const M& m : cx.getMeasurements()) {
        if (k < want.size()) check(m, want[k], address, d);
        ++k;
    }
    VCHECK(k == want.size(), "measures:count", d + " " + S((ulong_t)k) + " expected " + S((ulong_t)want.size()));
    for (auto t : MT) {
        std::vector<const void*> a, b, w;
        for (const M& m : cx.getMeasurements(M::Type(t))) a.push_back(&m);
        for (M& m : x.getMeasurements(M::Type(t))) b.push_back(&m);
        for (const M& m : cx.getMeasurements()) if (m.getType() == t) w.push_back(&m);
        VCHECK(a == w && b == w, "measures:of-type", d + " " + S((ulong_t)a.size()) + " and " + S((ulong_t)b.size()) + " expected " + S((ulong_t)w.size()));
    }
    for (auto& w : want) if (!w.id.empty()) {
        auto f = cx.getMeasurement(w.id);
        auto g = x.getMeasurement(w.id);
        VCHECK(f && g && &f.get() == &g.get() && f.get().getId() == w.id && (!address || &f.get() == w.p), "measures:by-id", d + " " + w.id);
    }
    VCHECK(!cx.getMeasurement("no such measure") && !x.getMeasurement("no such measure"), "measures:by-id", d);
}
void checkList(Identifiable& o, const std::vector<Discrete>& want, bool address, const std::string& d) {
    DMS& x = o.getExtension<DMS>();
    const DMS& cx = x;
    size_t k = 0;
    for (const DM& m : cx.getDiscreteMeasurements()) {
        if (k < want.size()) check(m, want[k], address, d);
        ++k;
    }
    VCHECK(k == want.size(), "discretes:count", d + " " + S((ulong_t)k) + " expected " + S((ulong_t)want.size()));
    k = 0;
    for (DM& m : x.getDiscreteMeasurements()) { VCHECK(!address || k >= want.size() || &m == want[k].p, "discretes:list", d); ++k; }
    for (auto t : DTYPES) {
        std::vector<const void*> a, b, w;
        for (const DM& m : cx.getDiscreteMeasurements(DM::Type(t))) a.push_back(&m);
        for (DM& m : x.getDiscreteMeasurements(DM::Type(t))) b.push_back(&m);
        for (const DM& m : cx.getDiscreteMeasurements()) if (m.getType() == t) w.push_back(&m);
        VCHECK(a == w && b == w, "discretes:of-type", d + " " + S((ulong_t)a.size()) + " and " + S((ulong_t)b.size()) + " expected " + S((ulong_t)w.size()));
    }
    for (auto& w : want) if (!w.id.empty()) {
        auto f = cx.getDiscreteMeasurement(w.id);
        auto g = x.getDiscreteMeasurement(w.id);
        VCHECK(f && g && &f.get() == &g.get() && f.get().getId() == w.id && (!address || &f.get() == w.p), "discretes:by-id", d + " " + w.id);
    }
    VCHECK(!cx.getDiscreteMeasurement("no such measure") && !x.getDiscreteMeasurement("no such measure"), "discretes:by-id", d);
}
template <typename A> void props(A&& a, Gen& g, Rng& rng, Props& p, bool& bad) {
    for (int i = static_cast<int>(rng.below(3)); i > 0; --i) {
        std::string k = "k" + S(static_cast<int>(rng.below(4))), v = g.text();
        a.putProperty(k, v);
        p[k] = v;
    }
    if (rng.chance(4)) { bad = refused([&]() { a.putProperty("", "x"); }); VCHECK(bad, "property:empty-name", ""); bad = false; }
}
// the value must follow the kind of extension; verdict of one list operation
template <typename F> bool accepted(F f) {
    try { f(); return true; } catch (const std::exception& e) { if (!isLibraryError(e)) throw; return false; }
}
}  // namespace

MODULE(ext_lists) {
    Network n("net", "test");
    Gen g(n, rng.u64());
    populate(n, g, rng, static_cast<int>(rng.range(4, 16)));
    undefinedSteps(n, true);
    for (auto* o : g.all<Identifiable>()) { removeExtensionByName(*o, "measurements"); removeExtensionByName(*o, "discreteMeasurements"); }
    std::map<std::string, std::vector<Measure>> ms;
    std::map<std::string, std::vector<Discrete>> ds;
    auto cs = g.all<Connectable>();
    auto ids = g.all<Identifiable>();
    std::vector<Identifiable*> likely;
    for (auto* o : ids) if (dynamic_cast<Switch*>(o) || dynamic_cast<TwoWindingsTransformer*>(o) || dynamic_cast<ThreeWindingsTransformer*>(o) || dynamic_cast<ShuntCompensator*>(o)) likely.push_back(o);
    if (cs.empty()) return;
    std::string hist;
    int steps = static_cast<int>(rng.range(15, C.thorough ? 120 : 60));
    bool named = rng.chance(50);
    for (int st = 0; st < steps; ++st) {
        bool discrete = rng.chance(50);
        if (!discrete) {
            Connectable* o = ms.size() >= 3 && rng.chance(80) ? &n.get<Connectable>(rng.pick(std::vector<std::string>([&]() { std::vector<std::string> v; for (auto& k : ms) v.push_back(k.first); return v; }()))) : rng.pick(cs);
            bool inj = o->getTerminals().size() == 1;
            if (!ms.count(o->getId())) { o->newExtension<xi::MeasurementsAdder>().add(); ms[o->getId()] = {}; }
            auto& list = ms[o->getId()];
            MS& x = o->getExtension<MS>();
            int k = static_cast<int>(rng.below(100));
            if (k < 40 || list.empty()) {
                Measure w;
                auto ad = x.newMeasurement();
                bool type = !rng.chance(5), bad = false;
                if (rng.chance(named ? 90 : 40)) w.id = "m" + S(static_cast<int>(rng.below(6)));
                w.type = rng.pick(MT);
                w.value = rng.chance(15) ? NaN : g.val();
                w.sd = rng.chance(40) ? NaN : g.val();
                if (rng.chance(inj ? 6 : 90)) w.side = rng.of({M::Side::ONE, M::Side::TWO});
                w.valid = rng.chance(70);
                if (type) ad.setType(w.type);
                if (!w.id.empty() || rng.chance(20)) ad.setId(w.id);
                if (w.side) ad.setSide(*w.side);
                if (!std::isnan(w.value) || rng.chance(50)) ad.setValue(w.value);
                if (!std::isnan(w.sd) || rng.chance(50)) ad.setStandardDeviation(w.sd);
                if (!w.valid || rng.chance(50)) ad.setValid(w.valid);
                props(ad, g, rng, w.props, bad);
                bool taken = false;
                for (auto& l : list) taken = taken || (!w.id.empty() && l.id == w.id);
                bool ok = type && !taken && !(std::isnan(w.value) && w.valid) && !(inj && w.side) && !(!inj && !w.side && w.type != M::Type::OTHER);
                std::string d = o->getId() + " new " + w.id + (type ? "" : " untyped") + " value " + S(w.value) + " valid " + S(w.valid) + " side " + S(static_cast<bool>(w.side));
                logOp(d);
                bool got = accepted([&]() {
                    M& m = ad.add();
                    w.p = &m;
                    const void* last = nullptr;
                    for (const M& y : static_cast<const MS&>(x).getMeasurements()) last = &y;
                    VCHECK(last == w.p, "measure:returned", d);
                    w.p = last;
                });
                VCHECK(got == ok, "measure:verdict", d + (got ? " accepted" : " refused"));
                if (got) list.push_back(w);
                R.count(got ? "measures_added" : "measures_refused");
                hist += got ? "a" : "-";
            } else {
                size_t at = rng.below(list.size());
                Measure& w = list[at];
                M* m = nullptr;
                { size_t q = 0; for (const M& y : static_cast<const MS&>(x).getMeasurements()) if (q++ == at) m = const_cast<M*>(&y); }
                VCHECK(m != nullptr, "measures:count", o->getId());
                if (m == nullptr) throw StopCase();
                std::string d = o->getId() + " " + w.id + " (" + S((ulong_t)at) + ")";
                if (k < 55) {
                    double v = rng.chance(25) ? NaN : g.val();
                    bool ok = !(std::isnan(v) && w.valid);
                    logOp(d + " value " + S(v));
                    bool got = accepted([&]() { VCHECK(&m->setValue(v) == m, "measure:chained", d); });
                    VCHECK(got == ok, "measure:valid-without-value", d + " setValue " + S(v) + (got ? " accepted" : " refused"));
                    if (got) w.value = v;
                    hist += "v";
                } else if (k < 65) {
                    bool v = rng.chance(50);
                    bool ok = !(std::isnan(w.value) && v);
                    logOp(d + " valid " + S(v));
                    bool got = accepted([&]() { m->setValid(v); });
                    VCHECK(got == ok, "measure:valid-without-value", d + " setValid " + S(v) + " with " + S(w.value) + (got ? " accepted" : " refused"));
                    if (got) w.valid = v;
                    hist += "f";
                } else if (k < 72) { w.sd = rng.chance(20) ? NaN : g.val(); m->setStandardDeviation(w.sd); hist += "d"; }
                else if (k < 84) {
                    std::string key = "k" + S(static_cast<int>(rng.below(5)));
                    logOp(d + " property " + key);
                    if (rng.chance(60)) { w.props[key] = g.text(); m->putProperty(key, w.props[key]); } else { w.props.erase(key); m->removeProperty(key); }
                    VCHECK(refused([&]() { m->putProperty("", "x"); }), "property:empty-name", d);
                    hist += "p";
                } else {
                    logOp(d + " remove");
                    // a measure of another list is not removed
                    for (auto& other : ms) if (other.first != o->getId()) { n.get<Identifiable>(other.first).getExtension<MS>().remove(*m); break; }
                    if (rng.chance(50)) m->remove(); else x.remove(*m);
                    list.erase(list.begin() + static_cast<long>(at));
                    R.count("measures_removed");
                    hist += "r";
                }
            }
            if (rng.chance(15)) {
                logOp(o->getId() + " clean");
                x.cleanIfEmpty();
                VCHECK(static_cast<bool>(o->findExtension<MS>()) == !list.empty(), "measures:clean", o->getId() + " with " + S((ulong_t)list.size()));
                if (list.empty()) ms.erase(o->getId());
                hist += "c";
            }
        } else {
            Identifiable* o = !likely.empty() && rng.chance(80) ? likely[rng.below(std::min<size_t>(likely.size(), 4))] : ids[rng.below(ids.size())];
            bool t2 = dynamic_cast<TwoWindingsTransformer*>(o) != nullptr, t3 = dynamic_cast<ThreeWindingsTransformer*>(o) != nullptr, sw = dynamic_cast<Switch*>(o) != nullptr;
            if (!ds.count(o->getId())) { o->newExtension<xi::DiscreteMeasurementsAdder>().add(); ds[o->getId()] = {}; }
            auto& list = ds[o->getId()];
            DMS& x = o->getExtension<DMS>();
            int k = static_cast<int>(rng.below(100));
            auto value = [&](Discrete& w, auto& target) {
                int v = static_cast<int>(rng.below(4));
                Discrete z = w;
                if (v == 0) { z.vt = DM::ValueType::BOOLEAN; z.b = rng.chance(50); } else if (v == 1) { z.vt = DM::ValueType::INT; z.i = rng.of({0, 1, -7, 42, 2147483647, -2147483647 - 1}); }
                else { z.vt = DM::ValueType::STRING; z.s = rng.chance(20) ? "" : "s" + g.text(); }
                bool got = accepted([&]() { if (v == 0) target.setValue(z.b); else if (v == 1) target.setValue(z.i); else if (v == 2) target.setValue(z.s); else target.setValue(z.s.c_str()); });
                std::string shown = v == 0 ? S(z.b) : v == 1 ? S(z.i) : "'" + z.s + "'";
                logOp(o->getId() + " value " + shown + (got ? "" : " refused"));
                if (got) w = z;
                return std::make_pair(got, !(z.vt == DM::ValueType::STRING && z.s.empty()));
            };
            if (k < 45 || list.empty()) {
                Discrete w;
                auto ad = x.newDiscreteMeasurement();
                bool type = !rng.chance(5), bad = false;
                if (rng.chance(named ? 90 : 40)) w.id = "d" + S(static_cast<int>(rng.below(6)));
                w.type = rng.chance(75) ? (sw ? DM::Type::SWITCH_POSITION : t2 || t3 ? DM::Type::TAP_POSITION : DM::Type::OTHER) : rng.pick(DTYPES);
                if (t2 ? rng.chance(85) : t3 ? rng.chance(85) : rng.chance(6)) w.tap = rng.chance(8) ? rng.pick(TC) : t3 ? TC[2 + rng.below(6)] : TC[rng.below(2)];
                w.valid = rng.chance(70);
                bool empty = !value(w, ad).second;
                if (type) ad.setType(w.type);
                if (!w.id.empty()) ad.setId(w.id);
                if (w.tap) ad.setTapChanger(*w.tap);
                if (!w.valid || rng.chance(50)) ad.setValid(w.valid);
                props(ad, g, rng, w.props, bad);
                bool taken = false;
                for (auto& l : list) taken = taken || (!w.id.empty() && l.id == w.id);
                bool noSide = w.tap && (*w.tap == DM::TapChanger::RATIO_TAP_CHANGER || *w.tap == DM::TapChanger::PHASE_TAP_CHANGER);
                bool ok = type && !taken && !(empty && w.valid) && !(w.type == DM::Type::SWITCH_POSITION && !sw) && !(w.type == DM::Type::TAP_POSITION && (!(t2 || t3) || !w.tap))
                    && !(w.tap && !(t2 || t3)) && !(w.tap && t2 && !noSide) && !(w.tap && t3 && noSide);
                std::string d = o->getId() + " new " + w.id + (type ? "" : " untyped") + " kind " + S(static_cast<int>(w.type)) + " tap changer " + (w.tap ? S(static_cast<int>(*w.tap)) : "none") + " valid " + S(w.valid) + " empty " + S(empty);
                logOp(d);
                bool got = accepted([&]() {
                    DM& m = ad.add();
                    const void* last = nullptr;
                    for (const DM& y : static_cast<const DMS&>(x).getDiscreteMeasurements()) last = &y;
                    VCHECK(last == &m, "discrete:returned", d);
                    w.p = last;
                });
                VCHECK(got == ok, "discrete:verdict", d + (got ? " accepted" : " refused"));
                if (got) list.push_back(w);
                R.count(got ? "measures_added" : "measures_refused");
                hist += got ? "A" : "-";
            } else {
                size_t at = rng.below(list.size());
                Discrete& w = list[at];
                DM* m = nullptr;
                { size_t q = 0; for (DM& y : x.getDiscreteMeasurements()) if (q++ == at) m = &y; }
                VCHECK(m != nullptr, "discretes:count", o->getId());
                if (m == nullptr) throw StopCase();
                std::string d = o->getId() + " " + w.id + " (" + S((ulong_t)at) + ")";
                if (k < 65) {
                    auto r = value(w, *m);
                    VCHECK(r.first == (r.second || !w.valid), "discrete:valid-without-value", d + " setValue " + (r.first ? "accepted" : "refused"));
                    hist += "V";
                } else if (k < 73) {
                    bool v = rng.chance(50), empty = w.vt == DM::ValueType::STRING && w.s.empty();
                    logOp(d + " valid " + S(v));
                    bool got = accepted([&]() { m->setValid(v); });
                    VCHECK(got == !(empty && v), "discrete:valid-without-value", d + " setValid " + S(v) + (got ? " accepted" : " refused"));
                    if (got) w.valid = v;
                    hist += "F";
                } else if (k < 86) {
                    std::string key = "k" + S(static_cast<int>(rng.below(5)));
                    logOp(d + " property " + key);
                    if (rng.chance(60)) { w.props[key] = g.text(); m->putProperty(key, w.props[key]); } else { w.props.erase(key); m->removeProperty(key); }
                    VCHECK(refused([&]() { m->putProperty("", "x"); }), "property:empty-name", d);
                    hist += "P";
                } else {
                    logOp(d + " remove");
                    for (auto& other : ds) if (other.first != o->getId()) { n.get<Identifiable>(other.first).getExtension<DMS>().remove(*m); break; }
                    if (rng.chance(50)) m->remove(); else x.remove(*m);
                    list.erase(list.begin() + static_cast<long>(at));
                    R.count("measures_removed");
                    hist += "R";
                }
            }
            if (rng.chance(15)) {
                logOp(o->getId() + " clean");
                x.cleanIfEmpty();
                VCHECK(static_cast<bool>(o->findExtension<DMS>()) == !list.empty(), "discretes:clean", o->getId() + " with " + S((ulong_t)list.size()));
                if (list.empty()) ds.erase(o->getId());
                hist += "C";
            }
        }
        for (auto& k : ms) checkList(n.get<Identifiable>(k.first), k.second, true, k.first);
        for (auto& k : ds) checkList(n.get<Identifiable>(k.first), k.second, true, k.first);
        R.count("lists_compared", ms.size() + ds.size());
    }
    // and through the format
    std::string x = toXml(n);
    Network m = fromXml(x);
    for (auto& k : ms) {
        auto f = m.get<Identifiable>(k.first).findExtension<MS>();
        VCHECK(static_cast<bool>(f) == !k.second.empty(), "measures:restored", k.first);
        if (f) checkList(m.get<Identifiable>(k.first), k.second, false, "read back " + k.first);
    }
    for (auto& k : ds) {
        auto f = m.get<Identifiable>(k.first).findExtension<DMS>();
        VCHECK(static_cast<bool>(f) == !k.second.empty(), "discretes:restored", k.first);
        if (f) checkList(m.get<Identifiable>(k.first), k.second, false, "read back " + k.first);
    }
    R.count("documents_read_back");
    R.seen("cover", hist);
}

namespace {
using CP = xs::ConnectablePosition;
struct FeederModel { std::string name; ulong_t order = 0; CP::Direction dir = CP::Direction::UNDEFINED; };
using Feeders = std::map<int, FeederModel>;   // 0: the only one, 1 to 3: of a side
stdcxx::Reference<CP::Feeder> feeder(CP& p, int k) { return k == 0 ? p.getFeeder() : k == 1 ? p.getFeeder1() : k == 2 ? p.getFeeder2() : p.getFeeder3(); }
stdcxx::CReference<CP::Feeder> feeder(const CP& p, int k) { return k == 0 ? p.getFeeder() : k == 1 ? p.getFeeder1() : k == 2 ? p.getFeeder2() : p.getFeeder3(); }
void check(Identifiable& o, const Feeders& w, const std::string& d) {
    CP& p = o.getExtension<CP>();
    const CP& cp = p;
    for (int k = 0; k < 4; ++k) {
        auto f = feeder(p, k);
        auto cf = feeder(cp, k);
        auto it = w.find(k);
        VCHECK(static_cast<bool>(f) == (it != w.end()) && static_cast<bool>(cf) == (it != w.end()), "feeder:present", d + " " + S(k));
        if (!f || !cf || it == w.end()) continue;
        VCHECK(&f.get() == &cf.get() && cf.get().getName() == it->second.name && cf.get().getOrder() == it->second.order && cf.get().getDirection() == it->second.dir, "feeder:values", d + " " + S(k) + " " + cf.get().getName() + " " + S(cf.get().getOrder()));
    }
}
struct MergedModel { std::string code, l1, l2; };
}  // namespace

MODULE(ext_parts) {
    Network n("net", "test");
    Gen g(n, rng.u64());
    populate(n, g, rng, static_cast<int>(rng.range(4, 18)));
    undefinedSteps(n, true);
    for (auto* o : g.all<Identifiable>()) for (const char* e : {"position", "mergedXnode", "xnode"}) removeExtensionByName(*o, e);
    auto cs = g.all<Connectable>();
    if (cs.empty()) return;
    std::map<std::string, Feeders> have;
    std::map<std::string, MergedModel> merged;
    std::map<std::string, std::string> xnodes;
    std::string hist;
    const std::vector<CP::Direction> DIR = {CP::Direction::TOP, CP::Direction::BOTTOM, CP::Direction::UNDEFINED};
    auto text = [&](int emptyPct) { return rng.chance(emptyPct) ? std::string() : "t" + g.text(); };
    int steps = static_cast<int>(rng.range(10, C.thorough ? 80 : 40));
    for (int st = 0; st < steps; ++st) {
        int k = static_cast<int>(rng.below(100));
        if (k < 35 || have.empty()) {
            Connectable* o = rng.pick(cs);
            auto ad = o->newExtension<xs::ConnectablePositionAdder>();
            Feeders w;
            bool bad = false;
            std::string d = o->getId() + " position";
            size_t ends = o->getTerminals().size();
            int what = static_cast<int>(rng.below(10));
            std::vector<int> which;
            if (what < 6) { if (ends == 1) which = {0}; else for (size_t i = 1; i <= ends; ++i) which.push_back(static_cast<int>(i)); }
            else for (int i = 0; i < 4; ++i) if (rng.chance(40)) which.push_back(i);
            for (size_t i = which.size(); i > 1; --i) std::swap(which[i - 1], which[rng.below(i)]);
            for (int i : which) {
                FeederModel f;
                f.name = text(4);
                f.order = rng.of({0ul, 1ul, 17ul, 4294967296ul, ~0ul});
                f.dir = rng.pick(DIR);
                bool order = !rng.chance(3), dir = !rng.chance(3);
                auto fa = i == 0 ? ad.newFeeder() : i == 1 ? ad.newFeeder1() : i == 2 ? ad.newFeeder2() : ad.newFeeder3();
                if (!f.name.empty() || rng.chance(50)) fa.withName(f.name);
                if (order) fa.withOrder(f.order);
                if (dir) fa.withDirection(f.dir);
                bool ok = !f.name.empty() && order && dir;
                bool got = accepted([&]() { VCHECK(&fa.add() == &ad, "feeder:chained", d); });
                VCHECK(got == ok, "feeder:verdict", d + " " + S(i) + " '" + f.name + "'" + (got ? " accepted" : " refused"));
                if (got) w[i] = f;
                d += " " + S(i) + (got ? "" : "!");
            }
            bool ok = !w.empty() && !(w.count(0) && w.size() > 1) && (w.count(0) || (w.count(1) && (w.count(2) || !w.count(3))));
            logOp(d);
            bool got = accepted([&]() { ad.add(); });
            VCHECK(got == ok, "position:verdict", d + (got ? " accepted" : " refused"));
            if (got) have[o->getId()] = w;
            else VCHECK(static_cast<bool>(o->findExtension<CP>()) == (have.count(o->getId()) != 0), "position:refused-replaces", d);
            (void)bad;
            R.count(got ? "positions_accepted" : "positions_refused");
            hist += got ? "a" : "-";
        } else if (k < 60) {
            auto it = std::next(have.begin(), static_cast<long>(rng.below(have.size())));
            auto w = std::next(it->second.begin(), static_cast<long>(rng.below(it->second.size())));
            CP& p = n.get<Identifiable>(it->first).getExtension<CP>();
            auto f = feeder(p, w->first);
            VCHECK(f, "feeder:present", it->first);
            if (!f) throw StopCase();
            int q = static_cast<int>(rng.below(3));
            std::string d = it->first + " feeder " + S(w->first);
            if (q == 0) { auto v = rng.pick(DIR); VCHECK(&f.get().setDirection(v) == &f.get(), "feeder:chained", d); w->second.dir = v; }
            else if (q == 1) { ulong_t v = rng.of({0ul, 2ul, 99ul, ~0ul}); f.get().setOrder(v); w->second.order = v; }
            else {
                std::string v = text(15);
                logOp(d + " name '" + v + "'");
                bool got = accepted([&]() { f.get().setName(v); });
                VCHECK(got == !v.empty(), "feeder:empty-name", d + (got ? " accepted" : " refused"));
                if (got) w->second.name = v;
            }
            R.count("feeders_edited");
            hist += "f";
        } else if (k < 80) {
            auto ls = g.all<Line>();
            if (ls.empty()) continue;
            Line& l = *rng.pick(ls);
            std::string d = l.getId() + " merged";
            if (!merged.count(l.getId()) || rng.chance(20)) {
                MergedModel w{text(10), text(10), text(10)};
                logOp(d + " code '" + w.code + "'");
                bool got = accepted([&]() { l.newExtension<xe::MergedXnodeAdder>().withCode(w.code).withLine1Name(w.l1).withLine2Name(w.l2).withRdp(rng.unit()).withXdp(rng.unit()).withXnodeP1(g.val()).withXnodeQ1(g.val()).withXnodeP2(g.val()).withXnodeQ2(g.val()).add(); });
                VCHECK(got == !w.code.empty(), "merged:verdict", d);
                if (got) merged[l.getId()] = w;
                hist += got ? "m" : "-";
            } else {
                auto& w = merged[l.getId()];
                auto& x = l.getExtension<xe::MergedXnode>();
                std::string v = text(15);
                int q = static_cast<int>(rng.below(3));
                logOp(d + " " + S(q) + " '" + v + "'");
                if (q == 0) { x.setLine1Name(v); w.l1 = v; } else if (q == 1) { x.setLine2Name(v); w.l2 = v; }
                else { bool got = accepted([&]() { x.setCode(v); }); VCHECK(got == !v.empty(), "merged:verdict", d + " setCode"); if (got) w.code = v; }
                R.count("names_edited");
                hist += "n";
            }
        } else {
            auto ls = g.all<DanglingLine>();
            if (ls.empty()) continue;
            DanglingLine& l = *rng.pick(ls);
            std::string v = text(15), d = l.getId() + " xnode '" + v + "'";
            logOp(d);
            bool was = xnodes.count(l.getId()) != 0;
            bool got = accepted([&]() { if (was && rng.chance(70)) l.getExtension<xe::Xnode>().setCode(v); else l.newExtension<xe::XnodeAdder>().withCode(v).add(); });
            VCHECK(got == !v.empty(), "xnode:verdict", d + (got ? " accepted" : " refused"));
            if (got) xnodes[l.getId()] = v;
            R.count("names_edited");
            hist += "x";
        }
        for (auto& h : have) check(n.get<Identifiable>(h.first), h.second, h.first);
        for (auto& h : merged) { const auto& x = n.get<Identifiable>(h.first).getExtension<xe::MergedXnode>(); VCHECK(x.getCode() == h.second.code && x.getLine1Name() == h.second.l1 && x.getLine2Name() == h.second.l2, "merged:values", h.first); }
        for (auto& h : xnodes) VCHECK(n.get<Identifiable>(h.first).getExtension<xe::Xnode>().getCode() == h.second, "xnode:values", h.first);
        R.count("parts_compared", have.size() + merged.size() + xnodes.size());
    }
    Network m = fromXml(toXml(n));
    for (auto& h : have) { VCHECK(m.get<Identifiable>(h.first).findExtension<CP>(), "position:restored", h.first); check(m.get<Identifiable>(h.first), h.second, "read back " + h.first); }
    for (auto& h : merged) { const auto& x = m.get<Identifiable>(h.first).getExtension<xe::MergedXnode>(); VCHECK(x.getCode() == h.second.code, "merged:restored", h.first); }
    for (auto& h : xnodes) VCHECK(m.get<Identifiable>(h.first).getExtension<xe::Xnode>().getCode() == h.second, "xnode:restored", h.first);
    R.count("documents_read_back");
    R.seen("cover", hist);
}

// slack terminals: one per level and variant, chosen from a bus, given up together
MODULE(ext_slack) {
    Network n("net", "test");
    Gen g(n, rng.u64());
    g.build(rng, static_cast<int>(rng.range(5, 22)));
    auto& vm = n.getVariantManager();
    vm.setWorkingVariant(vm.getInitialVariantId());
    for (auto* o : g.all<VoltageLevel>()) removeExtensionByName(*o, "slackTerminal");
    while (variantIds(n).size() < 2 + rng.below(3)) vm.cloneVariant(rng.pick(variantIds(n)), "slack-" + S(static_cast<int>(rng.below(1000000))));
    using Slack = std::map<std::string, const Terminal*>;           // variant -> terminal, absent when none
    std::map<std::string, Slack> want;                               // level -> slack, absent without extension
    auto rank = [](const Terminal& t) {
        const Connectable& c = t.getConnectable().get();
        return dynamic_cast<const BusbarSection*>(&c) ? 0 : dynamic_cast<const Injection*>(&c) ? 1 : dynamic_cast<const Branch*>(&c) ? 2 : 3;
    };
    auto compare = [&](const std::string& d) {
        std::string wv = vm.getWorkingVariantId();
        for (VoltageLevel& v : n.getVoltageLevels()) {
            auto f = v.findExtension<ext::SlackTerminal>();
            auto it = want.find(v.getId());
            VCHECK(static_cast<bool>(f) == (it != want.end()), "slack:present", d + ": " + v.getId());
            if (!f || it == want.end()) continue;
            VCHECK(f.get().isEmpty() == it->second.empty(), "slack:empty", d + ": " + v.getId());
            for (auto& id : variantIds(n)) {
                vm.setWorkingVariant(id);
                auto t = f.get().getTerminal();
                auto ct = static_cast<const ext::SlackTerminal&>(f.get()).getTerminal();
                auto w = it->second.find(id);
                VCHECK((!t ? nullptr : &t.get()) == (w == it->second.end() ? nullptr : w->second) && (!ct ? nullptr : &ct.get()) == (w == it->second.end() ? nullptr : w->second), "slack:terminal", d + ": " + v.getId() + " in " + id);
            }
            vm.setWorkingVariant(wv);
        }
        R.count("slacks_compared", want.size());
    };
    std::string hist;
    auto set = [&](const std::string& level, const Terminal* t, bool clean) {
        std::string wv = vm.getWorkingVariantId();
        if (t) want[level][wv] = t; else want[level].erase(wv);
        if (clean && want[level].empty()) want.erase(level);
    };
    int steps = static_cast<int>(rng.range(8, C.thorough ? 60 : 30));
    for (int st = 0; st < steps; ++st) {
        auto vls = g.all<VoltageLevel>();
        if (vls.empty()) return;
        VoltageLevel& v = *rng.pick(vls);
        std::vector<Terminal*> here, other;
        for (Terminal* t : allTerminals(n)) (&t->getVoltageLevel() == &v ? here : other).push_back(t);
        auto byName = [](Terminal* a, Terminal* b) { return tname(*a) < tname(*b); };
        std::sort(here.begin(), here.end(), byName);
        std::sort(other.begin(), other.end(), byName);
        std::string d;
        int k = static_cast<int>(rng.below(100));
        if (k < 25) {
            // the slack of a bus is a terminal of the bus, of the most suitable kind
            std::vector<Bus*> bs;
            if (rng.chance(50)) for (Bus& b : v.getBusView().getBuses()) bs.push_back(&b); else for (Bus& b : v.getBusBreakerView().getBuses()) bs.push_back(&b);
            if (bs.empty()) continue;
            Bus& b = *bs[rng.below(bs.size())];
            d = "attach " + b.getId();
            logOp(d);
            std::set<const Terminal*> in;
            int best = 9;
            for (const Terminal& t : b.getConnectedTerminals()) { in.insert(&t); best = std::min(best, rank(t)); }
            bool got = accepted([&]() { ext::SlackTerminal::attach(b); });
            VCHECK(got == !in.empty(), "slack:attach-verdict", d + (got ? " accepted" : " refused"));
            if (got) {
                auto f = v.findExtension<ext::SlackTerminal>();
                VCHECK(f && f.get().getTerminal() && in.count(&f.get().getTerminal().get()) && rank(f.get().getTerminal().get()) == best, "slack:attach-terminal", d);
                if (!f || !f.get().getTerminal()) throw StopCase();
                set(v.getId(), &f.get().getTerminal().get(), false);
                R.count("slacks_attached");
            }
            hist += "b";
        } else if (k < 40) {
            bool none = rng.chance(40) || here.empty();
            Terminal* t = none ? nullptr : rng.pick(here);
            d = "reset " + v.getId() + (t ? " to " + tname(*t) : " to none");
            logOp(d);
            ext::SlackTerminal::reset(v, t ? stdcxx::ref(*t) : stdcxx::ref<Terminal>());
            if (t || want.count(v.getId())) set(v.getId(), t, true);
            hist += "r";
        } else if (k < 46) {
            d = "reset all";
            logOp(d);
            ext::SlackTerminal::reset(n);
            for (auto* x : vls) if (want.count(x->getId())) set(x->getId(), nullptr, true);
            hist += "R";
        } else if (k < 62) {
            auto f = v.findExtension<ext::SlackTerminal>();
            if (!f) continue;
            bool none = rng.chance(30) || here.empty(), clean = rng.chance(50), bad = rng.chance(15) && !other.empty();
            Terminal* t = bad ? rng.pick(other) : none ? nullptr : rng.pick(here);
            d = "set " + v.getId() + (t ? " to " + tname(*t) : " to none") + (clean ? " clean" : "");
            logOp(d);
            int how = static_cast<int>(rng.below(2));
            bool got = accepted([&]() {
                if (clean) { if (how) f.get().setTerminal(t ? stdcxx::ref(*t) : stdcxx::ref<Terminal>(), true); else f.get().setTerminal(t ? stdcxx::cref(*static_cast<const Terminal*>(t)) : stdcxx::cref<Terminal>(), true); }
                else if (how) f.get().setTerminal(t ? stdcxx::ref(*t) : stdcxx::ref<Terminal>());
                else f.get().setTerminal(t ? stdcxx::cref(*static_cast<const Terminal*>(t)) : stdcxx::cref<Terminal>());
            });
            VCHECK(got == !bad, "slack:foreign-terminal", d + (got ? " accepted" : " refused"));
            if (got) set(v.getId(), t, clean);
            hist += got ? "s" : "-";
        } else if (k < 72) {
            bool bad = rng.chance(25) && !other.empty();
            if (!bad && here.empty()) continue;
            Terminal* t = bad ? rng.pick(other) : rng.pick(here);
            d = "new " + v.getId() + " " + tname(*t);
            logOp(d);
            bool got = accepted([&]() { if (rng.chance(50)) v.newExtension<ext::SlackTerminalAdder>().withTerminal(*t).add(); else v.newExtension<ext::SlackTerminalAdder>().withTerminal(*static_cast<const Terminal*>(t)).add(); });
            VCHECK(got == !bad, "slack:foreign-terminal", d + (got ? " accepted" : " refused"));
            if (got) { want[v.getId()].clear(); set(v.getId(), t, false); }
            hist += got ? "n" : "-";
        } else if (k < 90) {
            auto ids = variantIds(n);
            int q = static_cast<int>(rng.below(4));
            if (q == 0 && ids.size() < 6) {
                std::string src = rng.pick(ids), dst = rng.chance(30) ? rng.pick(ids) : "w" + S(static_cast<int>(rng.below(1000000)));
                if (src == dst || dst == vm.getInitialVariantId()) continue;
                d = "clone " + src + " to " + dst;
                logOp(d);
                vm.cloneVariant(src, dst, true);
                for (auto& w : want) { auto f = w.second.find(src); if (f != w.second.end()) { auto t = f->second; w.second[dst] = t; } else w.second.erase(dst); }
            } else if (q == 1 && ids.size() > 2) {
                std::string id = rng.pick(ids);
                if (id == vm.getInitialVariantId() || id == vm.getWorkingVariantId()) continue;
                d = "remove variant " + id;
                logOp(d);
                vm.removeVariant(id);
                for (auto& w : want) w.second.erase(id);
            } else {
                std::string id = rng.pick(ids);
                d = "work in " + id;
                logOp(d);
                vm.setWorkingVariant(id);
            }
            hist += "v";
        } else {
            std::vector<const Terminal*> used;
            for (auto& w : want) for (auto& s : w.second) used.push_back(s.second);
            std::sort(used.begin(), used.end(), [](const Terminal* a, const Terminal* b) { return tname(*a) < tname(*b); });
            if (!used.empty() && rng.chance(50)) {
                Connectable& c = const_cast<Terminal*>(rng.pick(used))->getConnectable().get();
                d = "remove " + c.getId();
                if (!accepted([&]() { c.remove(); })) d += " refused";
            } else {
                if (!g.random(rng, "r")) continue;
                d = g.desc;
            }
            logOp(d);
            if (!accepted([&]() { vm.getWorkingVariantId(); })) vm.setWorkingVariant(vm.getInitialVariantId());
            std::set<const Terminal*> alive;
            for (Terminal* t : allTerminals(n)) alive.insert(t);
            for (auto it = want.begin(); it != want.end();) {
                if (!n.find<VoltageLevel>(it->first)) { it = want.erase(it); continue; }
                bool lost = false;
                for (auto s = it->second.begin(); s != it->second.end();) if (!alive.count(s->second)) { s = it->second.erase(s); lost = true; R.count("references_given_up"); } else ++s;
                if (lost && it->second.empty()) it = want.erase(it); else ++it;
            }
            hist += "x";
        }
        compare(d);
    }
    R.seen("cover", hist);
}
