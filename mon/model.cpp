#include "model.hpp"
#include <ctime>
#include "ext.hpp"

using namespace powsybl::iidm;

namespace vmon {
// the instant a date text denotes, whatever its time zone (dates are equal when they are the same instant)
static std::string instant(const std::string& t) {
    int Y, M, D, h, m, sec, used = 0;
    if (std::sscanf(t.c_str(), "%d-%d-%dT%d:%d:%d%n", &Y, &M, &D, &h, &m, &sec, &used) != 6) return S(t);
    std::tm tm{};
    tm.tm_year = Y - 1900; tm.tm_mon = M - 1; tm.tm_mday = D; tm.tm_hour = h; tm.tm_min = m; tm.tm_sec = sec;
    long e = static_cast<long>(timegm(&tm));
    std::string rest = t.substr(static_cast<size_t>(used)), frac;
    if (!rest.empty() && rest[0] == '.') {
        size_t k = 1;
        while (k < rest.size() && std::isdigit(static_cast<unsigned char>(rest[k]))) ++k;
        frac = rest.substr(1, k - 1);
        while (!frac.empty() && frac.back() == '0') frac.pop_back();
        rest = rest.substr(k);
    }
    int oh = 0, om = 0;
    if (rest.size() >= 6 && std::sscanf(rest.c_str() + 1, "%d:%d", &oh, &om) == 2) e -= (rest[0] == '-' ? -1 : 1) * (oh * 3600 + om * 60);
    return std::to_string(e) + "." + frac;
}


double genAny(Rng& r) {
    switch (r.below(14)) {
        case 0: return 0.0;
        case 1: return -0.0;
        case 2: return static_cast<double>(r.range(-1000, 1000));
        case 3: return 1e300 * r.unit();
        case 4: return -1e-300;
        case 5: return 0.1;
        case 6: return 1.0 / 3.0 * static_cast<double>(r.range(-9, 9));
        case 7: return std::numeric_limits<double>::min();
        case 8: return static_cast<double>(r.range(-100, 100)) + 0.001;
        default: return r.real(-1000, 1000);
    }
}
double genPos(Rng& r) {
    double v = std::fabs(genAny(r));
    return v == 0.0 ? 1.0 + r.unit() : v;
}
double genVolt(Rng& r) { return r.chance(50) ? r.of({400.0, 225.0, 63.0, 20.0}) : r.real(1.0, 500.0); }

bool isLibraryError(const std::exception& e) {
    return dynamic_cast<const powsybl::PowsyblException*>(&e) != nullptr || dynamic_cast<const powsybl::AssertionError*>(&e) != nullptr;
}

// ---------------------------------------------------------------------------------------------------------------
std::string kindOf(const Identifiable& id) {
    const Identifiable* p = &id;
    if (dynamic_cast<const Network*>(p)) return "NETWORK";
    if (dynamic_cast<const Substation*>(p)) return "SUBSTATION";
    if (dynamic_cast<const VoltageLevel*>(p)) return "VL";
    if (dynamic_cast<const Switch*>(p)) return "SWITCH";
    if (dynamic_cast<const Bus*>(p)) return "BUS";
    if (dynamic_cast<const BusbarSection*>(p)) return "BBS";
    if (dynamic_cast<const Load*>(p)) return "LOAD";
    if (dynamic_cast<const Generator*>(p)) return "GEN";
    if (dynamic_cast<const Battery*>(p)) return "BAT";
    if (dynamic_cast<const ShuntCompensator*>(p)) return "SHUNT";
    if (dynamic_cast<const StaticVarCompensator*>(p)) return "SVC";
    if (dynamic_cast<const VscConverterStation*>(p)) return "VSC";
    if (dynamic_cast<const LccConverterStation*>(p)) return "LCC";
    if (dynamic_cast<const DanglingLine*>(p)) return "DL";
    if (dynamic_cast<const HvdcLine*>(p)) return "HVDC";
    if (dynamic_cast<const TieLine*>(p)) return "TIELINE";
    if (dynamic_cast<const Line*>(p)) return "LINE";
    if (dynamic_cast<const TwoWindingsTransformer*>(p)) return "2WT";
    if (dynamic_cast<const ThreeWindingsTransformer*>(p)) return "3WT";
    return "?";
}

std::string tname(const Terminal& t) {
    auto c = t.getConnectable();
    if (!c) return "<none>";
    const auto ts = c.get().getTerminals();
    for (size_t i = 0; i < ts.size(); ++i) {
        if (&ts[i].get() == &t) return c.get().getId() + "#" + std::to_string(i);
    }
    return c.get().getId() + "#?";
}
static std::string tname(const stdcxx::CReference<Terminal>& t) { return t ? tname(t.get()) : "<none>"; }

std::vector<Terminal*> terminalsOf(Identifiable& id) {
    std::vector<Terminal*> r;
    if (auto* c = dynamic_cast<Connectable*>(&id)) {
        for (auto& t : c->getTerminals()) r.push_back(&t.get());
    }
    return r;
}
std::vector<Terminal*> allTerminals(Network& n) {
    std::vector<Terminal*> r;
    for (Connectable& c : n.getConnectables<Connectable>()) {
        for (auto& t : c.getTerminals()) r.push_back(&t.get());
    }
    return r;
}

// ---------------------------------------------------------------------------------------------------------------
namespace {

std::map<std::string, std::vector<Attr>> table;

int any(void*, double) { return 1; }
int notNan(void*, double v) { return std::isnan(v) ? 0 : 1; }
double gAnyNan(Rng& r, void*) { return r.chance(12) ? NaN : genAny(r); }
double gBool(Rng& r, void*) { return static_cast<double>(r.below(2)); }
std::string fD(double v) { return S(v); }
std::string fB(double v) { return S(v != 0.0); }
std::string fL(double v) { return S(static_cast<long>(v)); }
std::string fE(double v) { return "#" + std::to_string(static_cast<long>(v)); }

template <typename T, typename G>
void ro(const char* kind, const char* name, Cls cls, G get) {
    table[kind].push_back(Attr{name, cls, [get](void* p) -> std::string { return get(*static_cast<T*>(p)); }, nullptr, nullptr, nullptr, nullptr, nullptr});
}
template <typename T, typename G, typename St>
void rw(const char* kind, const char* name, Cls cls, G get, St set, std::string (*fmt)(double), std::function<double(Rng&, T&)> gen, std::function<int(T&, double)> valid) {
    table[kind].push_back(Attr{name, cls, [get](void* p) -> std::string { return S(get(*static_cast<T*>(p))); },
                               [set](void* p, double v) { set(*static_cast<T*>(p), v); }, fmt,
                               [gen](Rng& r, void* p) { return gen(r, *static_cast<T*>(p)); },
                               [valid](void* p, double v) { return valid(*static_cast<T*>(p), v); },
                               [get](void* p) { return static_cast<double>(get(*static_cast<T*>(p))); }});
}
template <typename T> double anyOrNan(Rng& r, T&) { return r.chance(12) ? NaN : genAny(r); }
template <typename T> int mustBeDefined(T&, double v) { return std::isnan(v) ? 0 : 1; }
template <typename T> int alwaysOk(T&, double) { return 1; }
template <typename T> double genB(Rng& r, T&) { return static_cast<double>(r.below(2)); }

// plain double that must be defined / any double
#define DREQ(T, kind, cls, G, St) rw<T>(kind, #G, cls, [](T& o) { return o.G(); }, [](T& o, double v) { o.St(v); }, fD, anyOrNan<T>, mustBeDefined<T>)
#define DANY(T, kind, cls, G, St) rw<T>(kind, #G, cls, [](T& o) { return o.G(); }, [](T& o, double v) { o.St(v); }, fD, anyOrNan<T>, alwaysOk<T>)
#define DVAL(T, kind, cls, G, St, gen, valid) rw<T>(kind, #G, cls, [](T& o) { return o.G(); }, [](T& o, double v) { o.St(v); }, fD, gen, valid)
#define BVAL(T, kind, cls, G, St, valid) rw<T>(kind, #G, cls, [](T& o) { return o.G(); }, [](T& o, double v) { o.St(v != 0.0); }, fB, genB<T>, valid)

template <typename T> double genMin(Rng& r, T& o) { return r.of({genAny(r), NaN, o.getMaxP(), std::nextafter(o.getMaxP(), Inf), std::nextafter(o.getMaxP(), -Inf), o.getMaxP() - 10 * r.unit(), o.getMaxP() + 1}); }
template <typename T> double genMax(Rng& r, T& o) { return r.of({genAny(r), NaN, o.getMinP(), std::nextafter(o.getMinP(), Inf), std::nextafter(o.getMinP(), -Inf), o.getMinP() + 10 * r.unit(), o.getMinP() - 1}); }
template <typename T> int validMin(T& o, double v) { return !std::isnan(v) && v <= o.getMaxP() ? 1 : 0; }
template <typename T> int validMax(T& o, double v) { return !std::isnan(v) && v >= o.getMinP() ? 1 : 0; }

// regulation by a machine: when on the voltage target must be > 0 and defined, when off the reactive target must be defined
int vctrl(bool on, double v, double q) { return on ? (!std::isnan(v) && v > 0) : !std::isnan(q); }
double gV(Rng& r) { return r.of({NaN, 0.0, -1.0, 400.0, r.real(1, 500), r.real(1, 500), r.real(1, 500), -0.0, std::numeric_limits<double>::min()}); }
double gDb(Rng& r) { return r.of({NaN, 0.0, -1.0, 1.0, r.real(0, 5), r.real(0, 5), -1e-300}); }

template <typename T> std::string ids(T&& range) {
    std::set<std::string> s;
    for (const auto& o : range) s.insert(o.getId());
    std::string r;
    for (auto& i : s) r += i + ",";
    return r;
}

std::string limitsText(const stdcxx::CReference<LoadingLimits>& l) {
    if (!l) return "none";
    std::string s = "perm=" + S(l.get().getPermanentLimit());
    for (const auto& t : l.get().getTemporaryLimits()) {
        s += ";" + S(t.getAcceptableDuration()) + ":" + S(t.getName()) + ":" + S(t.getValue()) + ":" + S(t.isFictitious());
    }
    return s;
}
template <typename T> std::string flowLimits(T& o) {
    return "A{" + limitsText(stdcxx::cref<LoadingLimits>(static_cast<const T&>(o).getActivePowerLimits())) + "}S{" +
           limitsText(stdcxx::cref<LoadingLimits>(static_cast<const T&>(o).getApparentPowerLimits())) + "}I{" +
           limitsText(stdcxx::cref<LoadingLimits>(static_cast<const T&>(o).getCurrentLimits())) + "}";
}
std::string reactive(const ReactiveLimitsHolder& h) {
    const ReactiveLimits& l = h.getReactiveLimits<ReactiveLimits>();
    if (l.getKind() == ReactiveLimitsKind::MIN_MAX) {
        const auto& m = h.getReactiveLimits<MinMaxReactiveLimits>();
        return "minmax[" + S(m.getMinQ()) + "," + S(m.getMaxQ()) + "]";
    }
    const auto& c = h.getReactiveLimits<ReactiveCapabilityCurve>();
    std::string s = "curve";
    for (const auto& p : c.getPoints()) s += "(" + S(p.getP()) + "," + S(p.getMinQ()) + "," + S(p.getMaxQ()) + ")";
    return s;
}

template <typename TC> void tapChangerAttrs(const char* kind) {
    ro<TC>(kind, "steps", Cls::S, [](TC& o) { return S(static_cast<ulong_t>(o.getStepCount())) + "/" + S(o.getHighTapPosition() - o.getLowTapPosition()); });
    ro<TC>(kind, "regTerminal", Cls::S, [](TC& o) { return tname(static_cast<const TC&>(o).getRegulationTerminal()); });
    rw<TC>(kind, "getLowTapPosition", Cls::S, [](TC& o) { return o.getLowTapPosition(); }, [](TC& o, double v) { o.setLowTapPosition(static_cast<long>(v)); }, fL,
           [](Rng& r, TC&) { return static_cast<double>(r.range(-20, 20)); }, alwaysOk<TC>);
    rw<TC>(kind, "getTapPosition", Cls::V, [](TC& o) { return o.getTapPosition(); }, [](TC& o, double v) { o.setTapPosition(static_cast<long>(v)); }, fL,
           [](Rng& r, TC& o) { return static_cast<double>(r.of({o.getLowTapPosition(), o.getHighTapPosition(), o.getLowTapPosition() - 1, o.getHighTapPosition() + 1,
                                                               r.range(o.getLowTapPosition(), o.getHighTapPosition()), r.range(o.getLowTapPosition(), o.getHighTapPosition())})); },
           [](TC& o, double v) { return v >= o.getLowTapPosition() && v <= o.getHighTapPosition() ? 1 : 0; });
    rw<TC>(kind, "getTargetDeadband", Cls::V, [](TC& o) { return o.getTargetDeadband(); }, [](TC& o, double v) { o.setTargetDeadband(v); }, fD,
           [](Rng& r, TC&) { return gDb(r); }, [](TC& o, double v) { return (std::isnan(v) && o.isRegulating()) || v < 0 ? 0 : 1; });
}
template <typename St> void stepAttrs(const char* kind) {
    DANY(St, kind, Cls::S, getRho, setRho);
    DANY(St, kind, Cls::S, getR, setR);
    DANY(St, kind, Cls::S, getX, setX);
    DANY(St, kind, Cls::S, getG, setG);
    DANY(St, kind, Cls::S, getB, setB);
}
int otherRegulating(const TapChangerHolder& h, const void* self);

double gRatedS(Rng& r) { return r.of({NaN, 0.0, -1.0, 100.0, r.real(1, 1000), std::numeric_limits<double>::min()}); }
int vRatedS(double v) { return std::isnan(v) || v > 0 ? 1 : 0; }

void build() {
    // common to all identifiable objects (handle pointer: Identifiable*)
    const char* K = "ID";
    ro<Identifiable>(K, "kind", Cls::S, [](Identifiable& o) { return kindOf(o); });
    ro<Identifiable>(K, "name", Cls::S, [](Identifiable& o) { return S(o.getOptionalName()) + "/" + S(o.getNameOrId()); });
    BVAL(Identifiable, K, Cls::S, isFictitious, setFictitious, alwaysOk<Identifiable>);
    ro<Identifiable>(K, "props", Cls::S, [](Identifiable& o) {
        std::set<std::string> n;
        for (const auto& k : o.getPropertyNames()) n.insert(k);
        std::string s;
        for (auto& k : n) s += S(k) + "=" + S(o.getProperty(k)) + ";";
        return s + (o.hasProperty() ? "+" : "-");
    });
    ro<Identifiable>(K, "aliases", Cls::S, [](Identifiable& o) {
        std::set<std::string> n;
        for (const auto& k : o.getAliases()) n.insert(k);
        std::string s;
        for (auto& k : n) s += S(k) + ":" + S(o.getAliasType(k)) + ";";
        return s + (o.hasAliases() ? "+" : "-");
    });
    ro<Identifiable>(K, "exts", Cls::S, [](Identifiable& o) {
        std::set<std::string> n;
        for (auto& e : o.getExtensions()) n.insert(e.getName());
        std::string s;
        for (auto& k : n) s += k + ";";
        return s;
    });
    // containers
    ro<Network>("NETWORK", "misc", Cls::S, [](Network& o) { return S(o.getSourceFormat()) + instant(o.getCaseDate().toString()); });
    rw<Network>("NETWORK", "getForecastDistance", Cls::S, [](Network& o) { return o.getForecastDistance(); }, [](Network& o, double v) { o.setForecastDistance(static_cast<int>(v)); }, fL,
                [](Rng& r, Network&) { return static_cast<double>(r.of({0, -1, 5, 100000})); }, [](Network&, double v) { return v < 0 ? 0 : 1; });
    ro<Substation>("SUBSTATION", "misc", Cls::S, [](Substation& o) {
        std::string s = o.getCountry() ? "#" + std::to_string(static_cast<long>(*o.getCountry())) : "none";
        s += S(o.getTso());
        for (auto& t : o.getGeographicalTags()) s += "," + S(t);
        return s;
    });
    ro<Substation>("SUBSTATION", "vls", Cls::S, [](Substation& o) { return ids(o.getVoltageLevels()); });
    ro<Substation>("SUBSTATION", "2wt", Cls::S, [](Substation& o) { return ids(o.getTwoWindingsTransformers()) + S(o.getTwoWindingsTransformerCount()); });
    ro<Substation>("SUBSTATION", "3wt", Cls::S, [](Substation& o) { return ids(o.getThreeWindingsTransformers()) + S(o.getThreeWindingsTransformerCount()); });
    ro<VoltageLevel>("VL", "substation", Cls::S, [](VoltageLevel& o) { return o.getSubstation().getId(); });
    ro<VoltageLevel>("VL", "topology", Cls::S, [](VoltageLevel& o) { return S(o.getTopologyKind()); });
    DVAL(VoltageLevel, "VL", Cls::S, getNominalV, setNominalV, ([](Rng& r, VoltageLevel&) { return gV(r); }), ([](VoltageLevel&, double v) { return v > 0 ? 1 : 0; }));
    DVAL(VoltageLevel, "VL", Cls::S, getLowVoltageLimit, setLowVoltageLimit,
         ([](Rng& r, VoltageLevel& o) { return r.of({NaN, -1.0, 0.0, 300.0, o.getHighVoltageLimit(), o.getHighVoltageLimit() + 1, r.real(0, 1000)}); }),
         ([](VoltageLevel& o, double v) { return v < 0 || v > o.getHighVoltageLimit() ? 0 : 1; }));
    DVAL(VoltageLevel, "VL", Cls::S, getHighVoltageLimit, setHighVoltageLimit,
         ([](Rng& r, VoltageLevel& o) { return r.of({NaN, -1.0, 0.0, 500.0, o.getLowVoltageLimit(), o.getLowVoltageLimit() - 1, r.real(0, 1000)}); }),
         ([](VoltageLevel& o, double v) { return v < 0 || v < o.getLowVoltageLimit() ? 0 : 1; }));
    ro<VoltageLevel>("VL", "equipment", Cls::S, [](VoltageLevel& o) {
        const VoltageLevel& c = o;
        std::string s = ids(c.getConnectables<Connectable>()) + "|";
        s += S(c.getConnectableCount<Connectable>()) + "," + S(c.getBatteryCount()) + "," + S(c.getDanglingLineCount()) + "," + S(c.getGeneratorCount()) + "," + S(c.getLccConverterStationCount()) + "," +
             S(c.getLoadCount()) + "," + S(c.getShuntCompensatorCount()) + "," + S(c.getStaticVarCompensatorCount()) + "," + S(c.getVscConverterStationCount()) + "," + S(c.getSwitchCount());
        s += "|" + ids(c.getBatteries()) + "|" + ids(c.getDanglingLines()) + "|" + ids(c.getGenerators()) + "|" + ids(c.getLccConverterStations()) + "|" + ids(c.getLoads()) + "|" +
             ids(c.getShuntCompensators()) + "|" + ids(c.getStaticVarCompensators()) + "|" + ids(c.getVscConverterStations()) + "|" + ids(c.getSwitches());
        return s;
    });
    ro<VoltageLevel>("VL", "nodes", Cls::S, [](VoltageLevel& o) -> std::string {
        const VoltageLevel& c = o;
        if (c.getTopologyKind() != TopologyKind::NODE_BREAKER) return "-";
        std::multiset<std::string> ic;
        for (const auto& i : c.getNodeBreakerView().getInternalConnections()) {
            ic.insert(S(std::min(i.getNode1(), i.getNode2())) + "-" + S(std::max(i.getNode1(), i.getNode2())));
        }
        std::set<ulong_t> ns;
        for (ulong_t x : c.getNodeBreakerView().getNodes()) ns.insert(x);
        std::string s = "ic:";
        for (auto& i : ic) s += i + ",";
        s += "/" + S(c.getNodeBreakerView().getInternalConnectionCount()) + " nodes:";
        for (ulong_t x : ns) {
            auto t = c.getNodeBreakerView().getOptionalTerminal(x);
            s += S(x) + (t ? "=" + tname(t.get()) : "") + ",";
        }
        return s;
    });
    ro<Switch>("SWITCH", "misc", Cls::S, [](Switch& o) {
        auto& vl = o.getVoltageLevel();
        std::string s = vl.getId() + " " + S(o.getKind());
        if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) {
            s += " " + S(vl.getNodeBreakerView().getNode1(o.getId())) + "-" + S(vl.getNodeBreakerView().getNode2(o.getId()));
        } else {
            auto b1 = vl.getBusBreakerView().getBus1(o.getId());
            auto b2 = vl.getBusBreakerView().getBus2(o.getId());
            s += " " + (b1 ? b1.get().getId() : "none") + "-" + (b2 ? b2.get().getId() : "none");
        }
        return s;
    });
    BVAL(Switch, "SWITCH", Cls::V, isOpen, setOpen, alwaysOk<Switch>);
    BVAL(Switch, "SWITCH", Cls::V, isRetained, setRetained, ([](Switch& o, double) { return o.getVoltageLevel().getTopologyKind() == TopologyKind::NODE_BREAKER ? 1 : 0; }));
    ro<Bus>("BUS", "vl", Cls::S, [](Bus& o) { return o.getVoltageLevel().getId(); });
    ro<Bus>("BUS", "terminals", Cls::V, [](Bus& o) {
        std::set<std::string> s;
        for (const auto& t : static_cast<const Bus&>(o).getConnectedTerminals()) s.insert(tname(t));
        std::string r;
        for (auto& x : s) r += x + ",";
        return r + S(o.getConnectedTerminalCount());
    });
    DVAL(Bus, "BUS", Cls::V, getV, setV, ([](Rng& r, Bus&) { return gV(r); }), ([](Bus&, double v) { return v < 0 ? 0 : std::isnan(v) ? -1 : 1; }));
    DVAL(Bus, "BUS", Cls::V, getAngle, setAngle, anyOrNan<Bus>, ([](Bus&, double v) { return std::isnan(v) ? -1 : 1; }));
    // terminals
    ro<Terminal>("TERMINAL", "place", Cls::S, [](Terminal& o) {
        std::string s = o.getVoltageLevel().getId();
        if (o.getVoltageLevel().getTopologyKind() == TopologyKind::NODE_BREAKER) s += " " + S(o.getNodeBreakerView().getNode());
        return s;
    });
    ro<Terminal>("TERMINAL", "connection", Cls::V, [](Terminal& o) -> std::string {
        if (o.getVoltageLevel().getTopologyKind() == TopologyKind::NODE_BREAKER) return "-";
        auto b = static_cast<const Terminal&>(o).getBusBreakerView().getConnectableBus();
        return (b ? b.get().getId() : std::string("none")) + " " + S(o.isConnected());
    });
    // flows of a busbar section cannot be set
    auto flowGen = [](Rng& r, Terminal&) { return r.chance(12) ? NaN : genAny(r); };
    rw<Terminal>("TERMINAL", "getP", Cls::V, [](Terminal& o) { return o.getP(); }, [](Terminal& o, double v) { o.setP(v); }, fD, flowGen,
                 [](Terminal& o, double v) {
                     if (o.getConnectable().get().getType() == ConnectableType::BUSBAR_SECTION) return 0;
                     return o.getConnectable().get().getType() == ConnectableType::SHUNT_COMPENSATOR && !std::isnan(v) ? 0 : 1;
                 });
    rw<Terminal>("TERMINAL", "getQ", Cls::V, [](Terminal& o) { return o.getQ(); }, [](Terminal& o, double v) { o.setQ(v); }, fD, flowGen,
                 [](Terminal& o, double) { return o.getConnectable().get().getType() == ConnectableType::BUSBAR_SECTION ? 0 : 1; });
    ro<Terminal>("TERMINAL", "voltage", Cls::V, [](Terminal& o) -> std::string {
        if (o.getVoltageLevel().getTopologyKind() != TopologyKind::NODE_BREAKER) return "-";
        return S(o.getV()) + "/" + S(o.getAngle());
    });
    // injections
    rw<Load>("LOAD", "getLoadType", Cls::S, [](Load& o) { return o.getLoadType(); }, [](Load& o, double v) { o.setLoadType(static_cast<LoadType>(static_cast<int>(v))); }, fE,
             [](Rng& r, Load&) { return static_cast<double>(r.of({0, 1, 2, 7})); }, [](Load&, double v) { return v < 3 ? 1 : 0; });
    DREQ(Load, "LOAD", Cls::V, getP0, setP0);
    DREQ(Load, "LOAD", Cls::V, getQ0, setQ0);
    rw<Generator>("GEN", "getEnergySource", Cls::S, [](Generator& o) { return o.getEnergySource(); }, [](Generator& o, double v) { o.setEnergySource(static_cast<EnergySource>(static_cast<int>(v))); }, fE,
                  [](Rng& r, Generator&) { return static_cast<double>(r.of({0, 1, 2, 3, 4, 5})); }, alwaysOk<Generator>);
    DVAL(Generator, "GEN", Cls::S, getMinP, setMinP, genMin<Generator>, validMin<Generator>);
    DVAL(Generator, "GEN", Cls::S, getMaxP, setMaxP, genMax<Generator>, validMax<Generator>);
    DVAL(Generator, "GEN", Cls::S, getRatedS, setRatedS, ([](Rng& r, Generator&) { return gRatedS(r); }), ([](Generator&, double v) { return vRatedS(v); }));
    DREQ(Generator, "GEN", Cls::V, getTargetP, setTargetP);
    DVAL(Generator, "GEN", Cls::V, getTargetQ, setTargetQ, anyOrNan<Generator>, ([](Generator& o, double v) { return vctrl(o.isVoltageRegulatorOn(), o.getTargetV(), v); }));
    DVAL(Generator, "GEN", Cls::V, getTargetV, setTargetV, ([](Rng& r, Generator&) { return gV(r); }), ([](Generator& o, double v) { return vctrl(o.isVoltageRegulatorOn(), v, o.getTargetQ()); }));
    BVAL(Generator, "GEN", Cls::V, isVoltageRegulatorOn, setVoltageRegulatorOn, ([](Generator& o, double v) { return vctrl(v != 0, o.getTargetV(), o.getTargetQ()); }));
    ro<Generator>("GEN", "regTerminal", Cls::S, [](Generator& o) { return tname(o.getRegulatingTerminal()); });
    ro<Generator>("GEN", "setpoints", Cls::V, [](Generator& o) { return S(o.getActivePowerSetpoint()) + S(o.getReactivePowerSetpoint()) + S(o.getVoltageSetpoint()); });
    ro<Generator>("GEN", "reactive", Cls::S, [](Generator& o) { return reactive(o); });
    DVAL(Battery, "BAT", Cls::S, getMinP, setMinP, genMin<Battery>, validMin<Battery>);
    DVAL(Battery, "BAT", Cls::S, getMaxP, setMaxP, genMax<Battery>, validMax<Battery>);
    DREQ(Battery, "BAT", Cls::V, getP0, setP0);
    DREQ(Battery, "BAT", Cls::V, getQ0, setQ0);
    ro<Battery>("BAT", "reactive", Cls::S, [](Battery& o) { return reactive(o); });
    // shunts
    ro<ShuntCompensator>("SHUNT", "model", Cls::S, [](ShuntCompensator& o) { return S(o.getModelType()) + " max " + S(o.getMaximumSectionCount()); });
    rw<ShuntCompensator>("SHUNT", "getSectionCount", Cls::V, [](ShuntCompensator& o) { return o.getSectionCount(); }, [](ShuntCompensator& o, double v) { o.setSectionCount(static_cast<ulong_t>(v)); }, fL,
                         [](Rng& r, ShuntCompensator& o) { return static_cast<double>(r.below(o.getMaximumSectionCount() + 3)); }, [](ShuntCompensator& o, double v) { return v <= static_cast<double>(o.getMaximumSectionCount()) ? 1 : 0; });
    rw<ShuntCompensator>("SHUNT", "getMaximumSectionCount", Cls::S, [](ShuntCompensator& o) { return o.getMaximumSectionCount(); },
                         [](ShuntCompensator& o, double v) { o.getModel<ShuntCompensatorLinearModel>().setMaximumSectionCount(static_cast<ulong_t>(v)); }, fL,
                         [](Rng& r, ShuntCompensator& o) { return static_cast<double>(r.below(o.getMaximumSectionCount() + 3)); },
                         [](ShuntCompensator& o, double v) {
                             if (o.getModelType() != ShuntCompensatorModelType::LINEAR) return 0;
                             return v >= 1 && v >= static_cast<double>(o.getSectionCount()) ? -1 : 0;
                         });
    DVAL(ShuntCompensator, "SHUNT", Cls::V, getTargetV, setTargetV, ([](Rng& r, ShuntCompensator&) { return gV(r); }),
         ([](ShuntCompensator& o, double v) { return o.isVoltageRegulatorOn() ? (v > 0 ? 1 : 0) : (v <= 0 ? -1 : 1); }));
    DVAL(ShuntCompensator, "SHUNT", Cls::V, getTargetDeadband, setTargetDeadband, ([](Rng& r, ShuntCompensator&) { return gDb(r); }),
         ([](ShuntCompensator& o, double v) { return v < 0 || (std::isnan(v) && o.isVoltageRegulatorOn()) ? 0 : 1; }));
    BVAL(ShuntCompensator, "SHUNT", Cls::V, isVoltageRegulatorOn, setVoltageRegulatorOn,
         ([](ShuntCompensator& o, double v) { return v == 0 ? (o.getTargetV() <= 0 ? -1 : 1) : (o.getTargetV() > 0 && !std::isnan(o.getTargetDeadband()) ? 1 : 0); }));
    ro<ShuntCompensator>("SHUNT", "regTerminal", Cls::S, [](ShuntCompensator& o) { return tname(o.getRegulatingTerminal()); });
    DREQ(ShuntCompensatorLinearModel, "SHUNTLIN", Cls::S, getBPerSection, setBPerSection);
    DANY(ShuntCompensatorLinearModel, "SHUNTLIN", Cls::S, getGPerSection, setGPerSection);
    DREQ(ShuntCompensatorNonLinearModel::Section, "SECTION", Cls::S, getB, setB);
    DREQ(ShuntCompensatorNonLinearModel::Section, "SECTION", Cls::S, getG, setG);
    // static var compensators
    DREQ(StaticVarCompensator, "SVC", Cls::S, getBmin, setBmin);
    DREQ(StaticVarCompensator, "SVC", Cls::S, getBmax, setBmax);
    DVAL(StaticVarCompensator, "SVC", Cls::V, getVoltageSetpoint, setVoltageSetpoint, ([](Rng& r, StaticVarCompensator&) { return r.of({NaN, 400.0, r.real(1, 500)}); }),
         ([](StaticVarCompensator& o, double v) { return std::isnan(v) && o.getRegulationMode() == StaticVarCompensator::RegulationMode::VOLTAGE ? 0 : 1; }));
    DVAL(StaticVarCompensator, "SVC", Cls::V, getReactivePowerSetpoint, setReactivePowerSetpoint, anyOrNan<StaticVarCompensator>,
         ([](StaticVarCompensator& o, double v) { return std::isnan(v) && o.getRegulationMode() == StaticVarCompensator::RegulationMode::REACTIVE_POWER ? 0 : 1; }));
    rw<StaticVarCompensator>("SVC", "getRegulationMode", Cls::V, [](StaticVarCompensator& o) { return o.getRegulationMode(); },
                             [](StaticVarCompensator& o, double v) { o.setRegulationMode(static_cast<StaticVarCompensator::RegulationMode>(static_cast<int>(v))); }, fE,
                             [](Rng& r, StaticVarCompensator&) { return static_cast<double>(r.of({0, 1, 2, 0, 1, 2, 9})); },
                             [](StaticVarCompensator& o, double v) {
                                 if (v > 2) return 0;
                                 if (v == 0) return std::isnan(o.getVoltageSetpoint()) ? 0 : 1;
                                 if (v == 1) return std::isnan(o.getReactivePowerSetpoint()) ? 0 : 1;
                                 return 1;
                             });
    ro<StaticVarCompensator>("SVC", "regTerminal", Cls::S, [](StaticVarCompensator& o) { return tname(o.getRegulatingTerminal()); });
    // HVDC
    auto gLoss = [](Rng& r) { return r.of({NaN, -1.0, 101.0, 0.0, 100.0, r.real(0, 100), 100.00001, -1e-9}); };
    auto vLoss = [](double v) { return v >= 0 && v <= 100 ? 1 : 0; };
    DVAL(VscConverterStation, "VSC", Cls::S, getLossFactor, setLossFactor, ([gLoss](Rng& r, VscConverterStation&) { return gLoss(r); }), ([vLoss](VscConverterStation&, double v) { return vLoss(v); }));
    DVAL(VscConverterStation, "VSC", Cls::V, getReactivePowerSetpoint, setReactivePowerSetpoint, anyOrNan<VscConverterStation>,
         ([](VscConverterStation& o, double v) { return vctrl(o.isVoltageRegulatorOn(), o.getVoltageSetpoint(), v); }));
    DVAL(VscConverterStation, "VSC", Cls::V, getVoltageSetpoint, setVoltageSetpoint, ([](Rng& r, VscConverterStation&) { return gV(r); }),
         ([](VscConverterStation& o, double v) { return vctrl(o.isVoltageRegulatorOn(), v, o.getReactivePowerSetpoint()); }));
    BVAL(VscConverterStation, "VSC", Cls::V, isVoltageRegulatorOn, setVoltageRegulatorOn,
         ([](VscConverterStation& o, double v) { return vctrl(v != 0, o.getVoltageSetpoint(), o.getReactivePowerSetpoint()); }));
    ro<VscConverterStation>("VSC", "reactive", Cls::S, [](VscConverterStation& o) { return reactive(o); });
    ro<VscConverterStation>("VSC", "hvdc", Cls::S, [](VscConverterStation& o) { return o.getHvdcLine() ? o.getHvdcLine().get().getId() : std::string("none"); });
    DVAL(LccConverterStation, "LCC", Cls::S, getLossFactor, setLossFactor, ([gLoss](Rng& r, LccConverterStation&) { return gLoss(r); }), ([vLoss](LccConverterStation&, double v) { return vLoss(v); }));
    DVAL(LccConverterStation, "LCC", Cls::S, getPowerFactor, setPowerFactor, ([](Rng& r, LccConverterStation&) { return r.of({NaN, 1.0, -1.0, 1.0000001, -1.5, r.real(-1, 1)}); }),
         ([](LccConverterStation&, double v) { return std::fabs(v) <= 1 ? 1 : 0; }));
    ro<LccConverterStation>("LCC", "hvdc", Cls::S, [](LccConverterStation& o) { return o.getHvdcLine() ? o.getHvdcLine().get().getId() : std::string("none"); });
    DREQ(HvdcLine, "HVDC", Cls::S, getR, setR);
    auto gNN = [](Rng& r) { return r.of({NaN, -1.0, 0.0, -1e-300, r.real(0, 1000), 1e10}); };
    DVAL(HvdcLine, "HVDC", Cls::S, getNominalV, setNominalV, ([](Rng& r, HvdcLine&) { return gV(r); }), ([](HvdcLine&, double v) { return v > 0 ? 1 : 0; }));
    DVAL(HvdcLine, "HVDC", Cls::S, getMaxP, setMaxP, ([gNN](Rng& r, HvdcLine&) { return gNN(r); }), ([](HvdcLine&, double v) { return v >= 0 ? 1 : 0; }));
    DVAL(HvdcLine, "HVDC", Cls::V, getActivePowerSetpoint, setActivePowerSetpoint, ([gNN](Rng& r, HvdcLine&) { return gNN(r); }), ([](HvdcLine&, double v) { return v >= 0 ? 1 : 0; }));
    rw<HvdcLine>("HVDC", "getConvertersMode", Cls::V, [](HvdcLine& o) { return o.getConvertersMode(); }, [](HvdcLine& o, double v) { o.setConvertersMode(static_cast<HvdcLine::ConvertersMode>(static_cast<int>(v))); }, fE,
                 [](Rng& r, HvdcLine&) { return static_cast<double>(r.of({0, 1, 0, 1, 5})); }, [](HvdcLine&, double v) { return v < 2 ? 1 : 0; });
    ro<HvdcLine>("HVDC", "stations", Cls::S, [](HvdcLine& o) {
        return (o.getConverterStation1() ? o.getConverterStation1().get().getId() : "none") + std::string("/") + (o.getConverterStation2() ? o.getConverterStation2().get().getId() : "none");
    });
    // dangling lines
    DREQ(DanglingLine, "DL", Cls::V, getP0, setP0);
    DREQ(DanglingLine, "DL", Cls::V, getQ0, setQ0);
    DREQ(DanglingLine, "DL", Cls::S, getR, setR);
    DREQ(DanglingLine, "DL", Cls::S, getX, setX);
    DREQ(DanglingLine, "DL", Cls::S, getG, setG);
    DREQ(DanglingLine, "DL", Cls::S, getB, setB);
    ro<DanglingLine>("DL", "misc", Cls::S, [](DanglingLine& o) { return S(o.getUcteXnodeCode()) + (o.getGeneration() ? "gen" : "-"); });
    ro<DanglingLine>("DL", "limits", Cls::S, [](DanglingLine& o) { return flowLimits(o); });
    using DG = dangling_line::Generation;
    DVAL(DG, "DLGEN", Cls::S, getMinP, setMinP, genMin<DG>, validMin<DG>);
    DVAL(DG, "DLGEN", Cls::S, getMaxP, setMaxP, genMax<DG>, validMax<DG>);
    DREQ(DG, "DLGEN", Cls::V, getTargetP, setTargetP);
    DVAL(DG, "DLGEN", Cls::V, getTargetQ, setTargetQ, anyOrNan<DG>, ([](DG& o, double v) { return vctrl(o.isVoltageRegulationOn(), o.getTargetV(), v); }));
    DVAL(DG, "DLGEN", Cls::V, getTargetV, setTargetV, ([](Rng& r, DG&) { return gV(r); }), ([](DG& o, double v) { return vctrl(o.isVoltageRegulationOn(), v, o.getTargetQ()); }));
    BVAL(DG, "DLGEN", Cls::V, isVoltageRegulationOn, setVoltageRegulationOn, ([](DG& o, double v) { return vctrl(v != 0, o.getTargetV(), o.getTargetQ()); }));
    ro<DG>("DLGEN", "reactive", Cls::S, [](DG& o) { return reactive(o); });
    // branches
    ro<Branch>("BRANCH", "limits", Cls::S, [](Branch& b) {
        const Branch& o = b;
        auto f = [](const stdcxx::CReference<LoadingLimits>& l) { return limitsText(l); };
        return "A1{" + f(stdcxx::cref<LoadingLimits>(o.getActivePowerLimits1())) + "}S1{" + f(stdcxx::cref<LoadingLimits>(o.getApparentPowerLimits1())) + "}I1{" + f(stdcxx::cref<LoadingLimits>(o.getCurrentLimits1())) + "}A2{" +
               f(stdcxx::cref<LoadingLimits>(o.getActivePowerLimits2())) + "}S2{" + f(stdcxx::cref<LoadingLimits>(o.getApparentPowerLimits2())) + "}I2{" + f(stdcxx::cref<LoadingLimits>(o.getCurrentLimits2())) + "}";
    });
    DREQ(Line, "LINE", Cls::S, getR, setR);
    DREQ(Line, "LINE", Cls::S, getX, setX);
    DREQ(Line, "LINE", Cls::S, getG1, setG1);
    DREQ(Line, "LINE", Cls::S, getB1, setB1);
    DREQ(Line, "LINE", Cls::S, getG2, setG2);
    DREQ(Line, "LINE", Cls::S, getB2, setB2);
    ro<TieLine>("TIELINE", "misc", Cls::S, [](TieLine& o) { return S(o.getUcteXnodeCode()); });
    using HL = TieLine::HalfLine;
    ro<HL>("HALF", "misc", Cls::S, [](HL& o) { return S(o.getId()) + S(o.getName()); });
    BVAL(HL, "HALF", Cls::S, isFictitious, setFictitious, alwaysOk<HL>);
    DREQ(HL, "HALF", Cls::S, getR, setR);
    DREQ(HL, "HALF", Cls::S, getX, setX);
    DREQ(HL, "HALF", Cls::S, getG1, setG1);
    DREQ(HL, "HALF", Cls::S, getB1, setB1);
    DREQ(HL, "HALF", Cls::S, getG2, setG2);
    DREQ(HL, "HALF", Cls::S, getB2, setB2);
    using T2 = TwoWindingsTransformer;
    DREQ(T2, "2WT", Cls::S, getR, setR);
    DREQ(T2, "2WT", Cls::S, getX, setX);
    DREQ(T2, "2WT", Cls::S, getG, setG);
    DREQ(T2, "2WT", Cls::S, getB, setB);
    DREQ(T2, "2WT", Cls::S, getRatedU1, setRatedU1);
    DREQ(T2, "2WT", Cls::S, getRatedU2, setRatedU2);
    DVAL(T2, "2WT", Cls::S, getRatedS, setRatedS, ([](Rng& r, T2&) { return gRatedS(r); }), ([](T2&, double v) { return vRatedS(v); }));
    ro<T2>("2WT", "misc", Cls::S, [](T2& o) { return (o.getSubstation() ? o.getSubstation().get().getId() : "none") + S(o.hasRatioTapChanger()) + S(o.hasPhaseTapChanger()); });
    ro<ThreeWindingsTransformer>("3WT", "misc", Cls::S, [](ThreeWindingsTransformer& o) { return o.getSubstation().getId() + " " + S(o.getRatedU0()); });
    using Lg = ThreeWindingsTransformer::Leg;
    DREQ(Lg, "LEG", Cls::S, getR, setR);
    DREQ(Lg, "LEG", Cls::S, getX, setX);
    DREQ(Lg, "LEG", Cls::S, getG, setG);
    DREQ(Lg, "LEG", Cls::S, getB, setB);
    DREQ(Lg, "LEG", Cls::S, getRatedU, setRatedU);
    DVAL(Lg, "LEG", Cls::S, getRatedS, setRatedS, ([](Rng& r, Lg&) { return gRatedS(r); }), ([](Lg&, double v) { return vRatedS(v); }));
    ro<Lg>("LEG", "misc", Cls::S, [](Lg& o) { return S(o.hasRatioTapChanger()) + S(o.hasPhaseTapChanger()) + " " + tname(o.getTerminal()); });
    ro<Lg>("LEG", "limits", Cls::S, [](Lg& o) { return flowLimits(o); });
    // tap changers
    using RTC = RatioTapChanger;
    using PTC = PhaseTapChanger;
    tapChangerAttrs<RTC>("RTC");
    tapChangerAttrs<PTC>("PTC");
    auto rtcOk = [](const RTC& o, bool reg, bool ltc, double v) {
        if (!reg || !ltc) return -1;
        return static_cast<bool>(o.getRegulationTerminal()) && v > 0 ? 1 : 0;
    };
    BVAL(RTC, "RTC", Cls::S, hasLoadTapChangingCapabilities, setLoadTapChangingCapabilities,
         ([rtcOk](RTC& o, double v) { return v != 0 && o.isRegulating() && rtcOk(o, true, true, o.getTargetV()) == 0 ? 0 : -1; }));
    DVAL(RTC, "RTC", Cls::V, getTargetV, setTargetV, ([](Rng& r, RTC&) { return gV(r); }),
         ([rtcOk](RTC& o, double v) { return o.isRegulating() ? rtcOk(o, true, o.hasLoadTapChangingCapabilities(), v) : 1; }));
    BVAL(RTC, "RTC", Cls::V, isRegulating, setRegulating, ([rtcOk](RTC& o, double v) {
             if (v == 0) return 1;
             if (std::isnan(o.getTargetDeadband())) return 0;
             return rtcOk(o, true, o.hasLoadTapChangingCapabilities(), o.getTargetV()) == 0 ? 0 : -1;
         }));
    auto ptcOk = [](const PTC& o, int mode, bool reg, double v) {
        if (!reg) return 1;
        return mode != 2 && !std::isnan(v) && static_cast<bool>(o.getRegulationTerminal()) ? 1 : 0;
    };
    rw<PTC>("PTC", "getRegulationMode", Cls::S, [](PTC& o) { return o.getRegulationMode(); }, [](PTC& o, double v) { o.setRegulationMode(static_cast<PTC::RegulationMode>(static_cast<int>(v))); }, fE,
            [](Rng& r, PTC&) { return static_cast<double>(r.of({0, 1, 2, 0, 1, 2, 6})); },
            [ptcOk](PTC& o, double v) { return v > 2 ? 0 : (ptcOk(o, static_cast<int>(v), o.isRegulating(), o.getRegulationValue()) == 0 ? 0 : -1); });
    DVAL(PTC, "PTC", Cls::V, getRegulationValue, setRegulationValue, anyOrNan<PTC>, ([ptcOk](PTC& o, double v) { return ptcOk(o, static_cast<int>(o.getRegulationMode()), o.isRegulating(), v); }));
    BVAL(PTC, "PTC", Cls::V, isRegulating, setRegulating, ([ptcOk](PTC& o, double v) {
             if (v == 0) return 1;
             if (std::isnan(o.getTargetDeadband())) return 0;
             return ptcOk(o, static_cast<int>(o.getRegulationMode()), true, o.getRegulationValue()) == 0 ? 0 : -1;
         }));
    stepAttrs<RatioTapChangerStep>("RTCSTEP");
    stepAttrs<PhaseTapChangerStep>("PTCSTEP");
    DANY(PhaseTapChangerStep, "PTCSTEP", Cls::S, getAlpha, setAlpha);
    rw<LoadingLimits>("LIMITS", "getPermanentLimit", Cls::S, [](LoadingLimits& o) { return o.getPermanentLimit(); }, [](LoadingLimits& o, double v) { o.setPermanentLimit(v); }, fD,
                      [](Rng& r, LoadingLimits&) { return r.of({NaN, 0.0, -1.0, r.real(1, 1000)}); }, [](LoadingLimits&, double v) { return std::isnan(v) ? -1 : (v <= 0 ? 0 : 1); });
    // extensions
    using namespace powsybl::iidm::extensions;
    namespace xi = powsybl::iidm::extensions::iidm;
    namespace xe = powsybl::iidm::extensions::entsoe;
    namespace xs = powsybl::iidm::extensions::sld;
    DREQ(LoadDetail, "X:detail", Cls::V, getFixedActivePower, setFixedActivePower);
    DREQ(LoadDetail, "X:detail", Cls::V, getFixedReactivePower, setFixedReactivePower);
    DREQ(LoadDetail, "X:detail", Cls::V, getVariableActivePower, setVariableActivePower);
    DREQ(LoadDetail, "X:detail", Cls::V, getVariableReactivePower, setVariableReactivePower);
    ro<SlackTerminal>("X:slackTerminal", "terminal", Cls::V, [](SlackTerminal& o) { return tname(static_cast<const SlackTerminal&>(o).getTerminal()); });
    using CP = xs::ConnectablePosition;
    ro<CP>("X:position", "feeders", Cls::S, [](CP& o) {
        auto f = [](const stdcxx::CReference<CP::Feeder>& x) { return x ? S(x.get().getName()) + S(x.get().getOrder()) + S(x.get().getDirection()) : std::string("-"); };
        const CP& c = o;
        return f(c.getFeeder()) + f(c.getFeeder1()) + f(c.getFeeder2()) + f(c.getFeeder3());
    });
    auto gU = [](Rng& r) { return static_cast<double>(r.below(20)); };
    using BP = xs::BusbarSectionPosition;
    rw<BP>("X:busbarSectionPosition", "getBusbarIndex", Cls::S, [](BP& o) { return o.getBusbarIndex(); }, [](BP& o, double v) { o.setBusbarIndex(static_cast<ulong_t>(v)); }, fL, [gU](Rng& r, BP&) { return gU(r); }, alwaysOk<BP>);
    rw<BP>("X:busbarSectionPosition", "getSectionIndex", Cls::S, [](BP& o) { return o.getSectionIndex(); }, [](BP& o, double v) { o.setSectionIndex(static_cast<ulong_t>(v)); }, fL, [gU](Rng& r, BP&) { return gU(r); }, alwaysOk<BP>);
    using BS = xs::BranchStatus;
    rw<BS>("X:branchStatus", "getStatus", Cls::S, [](BS& o) { return o.getStatus(); }, [](BS& o, double v) { o.setStatus(static_cast<BS::Status>(static_cast<int>(v))); }, fE, [](Rng& r, BS&) { return static_cast<double>(r.below(3)); }, alwaysOk<BS>);
    using CR = xi::CoordinatedReactiveControl;
    DREQ(CR, "X:coordinatedReactiveControl", Cls::S, getQPercent, setQPercent);
    using RR = xi::RemoteReactivePowerControl;
    ro<RR>("X:generatorRemoteReactivePowerControl", "all", Cls::S, [](RR& o) { return tname(o.getRegulatingTerminal()) + " " + S(o.getTargetQ()) + S(o.isEnabled()); });
    auto gClk = [](Rng& r) { return static_cast<double>(r.below(15)); };
    using C2 = xi::TwoWindingsTransformerPhaseAngleClock;
    rw<C2>("X:twoWindingsTransformerPhaseAngleClock", "getPhaseAngleClock", Cls::S, [](C2& o) { return o.getPhaseAngleClock(); }, [](C2& o, double v) { o.setPhaseAngleClock(static_cast<ulong_t>(v)); }, fL, [gClk](Rng& r, C2&) { return gClk(r); }, [](C2&, double v) { return v <= 11 ? 1 : 0; });
    using C3 = xi::ThreeWindingsTransformerPhaseAngleClock;
    rw<C3>("X:threeWindingsTransformerPhaseAngleClock", "getPhaseAngleClockLeg2", Cls::S, [](C3& o) { return o.getPhaseAngleClockLeg2(); }, [](C3& o, double v) { o.setPhaseAngleClockLeg2(static_cast<ulong_t>(v)); }, fL, [gClk](Rng& r, C3&) { return gClk(r); }, [](C3&, double v) { return v <= 11 ? 1 : 0; });
    rw<C3>("X:threeWindingsTransformerPhaseAngleClock", "getPhaseAngleClockLeg3", Cls::S, [](C3& o) { return o.getPhaseAngleClockLeg3(); }, [](C3& o, double v) { o.setPhaseAngleClockLeg3(static_cast<ulong_t>(v)); }, fL, [gClk](Rng& r, C3&) { return gClk(r); }, [](C3&, double v) { return v <= 11 ? 1 : 0; });
    using DM = xi::DiscreteMeasurements;
    ro<DM>("X:discreteMeasurements", "all", Cls::S, [](DM& o) {
        std::multiset<std::string> all;
        for (const xi::DiscreteMeasurement& m : static_cast<const DM&>(o).getDiscreteMeasurements()) {
            std::string s = S(m.getId()) + S(m.getType()) + (m.getTapChanger() ? S(*m.getTapChanger()) : "-") + S(m.isValid()) + S(m.getValueType());
            switch (m.getValueType()) {
                case xi::DiscreteMeasurement::ValueType::BOOLEAN: s += S(m.getValueAsBoolean()); break;
                case xi::DiscreteMeasurement::ValueType::INT: s += S(m.getValueAsInt()); break;
                case xi::DiscreteMeasurement::ValueType::STRING: s += S(m.getValueAsString()); break;
            }
            std::set<std::string> ns;
            for (const auto& k : m.getPropertyNames()) ns.insert(k);
            for (auto& k : ns) s += k + "=" + m.getProperty(k) + ";";
            all.insert(s);
        }
        std::string r;
        for (auto& x : all) r += "{" + x + "}";
        return r;
    });
    using MS = xi::Measurements;
    ro<MS>("X:measurements", "all", Cls::S, [](MS& o) {
        std::multiset<std::string> all;
        for (const xi::Measurement& m : static_cast<const MS&>(o).getMeasurements()) {
            std::string s = S(m.getId()) + S(m.getType()) + (m.getSide() ? S(*m.getSide()) : "-") + S(m.isValid()) + S(m.getValue()) + S(m.getStandardDeviation());
            std::set<std::string> ns;
            for (const auto& k : m.getPropertyNames()) ns.insert(k);
            for (auto& k : ns) s += k + "=" + m.getProperty(k) + ";";
            all.insert(s);
        }
        std::string r;
        for (auto& x : all) r += "{" + x + "}";
        return r;
    });
    using VR = xi::VoltagePerReactivePowerControl;
    DVAL(VR, "X:voltagePerReactivePowerControl", Cls::S, getSlope, setSlope, anyOrNan<VR>, ([](VR&, double v) { return std::isnan(v) || v < 0 ? 0 : 1; }));
    using AD = xi::HvdcAngleDroopActivePowerControl;
    DREQ(AD, "X:hvdcAngleDroopActivePowerControl", Cls::S, getDroop, setDroop);
    DREQ(AD, "X:hvdcAngleDroopActivePowerControl", Cls::S, getP0, setP0);
    BVAL(AD, "X:hvdcAngleDroopActivePowerControl", Cls::S, isEnabled, setEnabled, alwaysOk<AD>);
    using OR = xi::HvdcOperatorActivePowerRange;
    DVAL(OR, "X:hvdcOperatorActivePowerRange", Cls::S, getOprFromCS1toCS2, setOprFromCS1toCS2, anyOrNan<OR>, ([](OR&, double v) { return v < 0 ? 0 : 1; }));
    DVAL(OR, "X:hvdcOperatorActivePowerRange", Cls::S, getOprFromCS2toCS1, setOprFromCS2toCS1, anyOrNan<OR>, ([](OR&, double v) { return v < 0 ? 0 : 1; }));
    using AP = xi::ActivePowerControl;
    DANY(AP, "X:activePowerControl", Cls::S, getDroop, setDroop);
    BVAL(AP, "X:activePowerControl", Cls::S, isParticipate, setParticipate, alwaysOk<AP>);
    using EA = xe::EntsoeArea;
    rw<EA>("X:entsoeArea", "getCode", Cls::S, [](EA& o) { return o.getCode(); }, [](EA& o, double v) { o.setCode(static_cast<xe::EntsoeGeographicalCode>(static_cast<int>(v))); }, fE, [](Rng& r, EA&) { return static_cast<double>(r.below(43)); }, alwaysOk<EA>);
    ro<xe::Xnode>("X:xnode", "code", Cls::S, [](xe::Xnode& o) { return S(o.getCode()); });
    using MX = xe::MergedXnode;
    ro<MX>("X:mergedXnode", "names", Cls::S, [](MX& o) { return S(o.getCode()) + S(o.getLine1Name()) + S(o.getLine2Name()); });
    auto v01 = [](MX&, double v) { return v >= 0 && v <= 1 ? 1 : 0; };
    auto g01 = [](Rng& r, MX&) { return r.of({NaN, 0.0, 1.0, -0.1, 1.1, r.unit(), r.unit()}); };
    DVAL(MX, "X:mergedXnode", Cls::S, getRdp, setRdp, g01, v01);
    DVAL(MX, "X:mergedXnode", Cls::S, getXdp, setXdp, g01, v01);
    DREQ(MX, "X:mergedXnode", Cls::S, getXnodeP1, setXnodeP1);
    DREQ(MX, "X:mergedXnode", Cls::S, getXnodeQ1, setXnodeQ1);
    DREQ(MX, "X:mergedXnode", Cls::S, getXnodeP2, setXnodeP2);
    DREQ(MX, "X:mergedXnode", Cls::S, getXnodeQ2, setXnodeQ2);
}

template <typename T> void* as(Identifiable* p) { return static_cast<void*>(dynamic_cast<T*>(p)); }
template <typename T> void* as(Extension* p) { return static_cast<void*>(dynamic_cast<T*>(p)); }

template <typename TC> void tcHandles(const std::string& kind, const std::string& key, Identifiable* owner, TC& tc, const std::function<void(const Handle&)>& f) {
    f(Handle{kind, key, static_cast<void*>(&tc), owner});
    for (auto& st : tc.getAllSteps()) {
        f(Handle{kind + "STEP", key + "/step" + std::to_string(st.first - tc.getLowTapPosition()), static_cast<void*>(&st.second.get()), owner});
    }
}
template <typename H> void flowLimitHandles(const std::string& key, Identifiable* owner, H& h, const std::function<void(const Handle&)>& f) {
    auto e = [&](const char* n, stdcxx::Reference<LoadingLimits> l) { if (l) f(Handle{"LIMITS", key + "/" + n, static_cast<void*>(&l.get()), owner}); };
    e("A", stdcxx::ref<LoadingLimits>(h.getActivePowerLimits()));
    e("S", stdcxx::ref<LoadingLimits>(h.getApparentPowerLimits()));
    e("I", stdcxx::ref<LoadingLimits>(h.getCurrentLimits()));
}

void* extPtr(Extension* e) {
    using namespace powsybl::iidm::extensions;
    namespace xi = powsybl::iidm::extensions::iidm;
    namespace xe = powsybl::iidm::extensions::entsoe;
    namespace xs = powsybl::iidm::extensions::sld;
#define TRY(T) if (void* p = as<T>(e)) return p
    TRY(LoadDetail); TRY(SlackTerminal); TRY(xs::ConnectablePosition); TRY(xs::BusbarSectionPosition); TRY(xs::BranchStatus);
    TRY(xi::CoordinatedReactiveControl); TRY(xi::RemoteReactivePowerControl); TRY(xi::TwoWindingsTransformerPhaseAngleClock);
    TRY(xi::ThreeWindingsTransformerPhaseAngleClock); TRY(xi::DiscreteMeasurements); TRY(xi::Measurements); TRY(xi::VoltagePerReactivePowerControl);
    TRY(xi::HvdcAngleDroopActivePowerControl); TRY(xi::HvdcOperatorActivePowerRange); TRY(xi::ActivePowerControl);
    TRY(xe::EntsoeArea); TRY(xe::Xnode); TRY(xe::MergedXnode);
#undef TRY
    return nullptr;
}

}  // namespace

const std::map<std::string, std::vector<Attr>>& attrTable() {
    static bool done = false;
    if (!done) { build(); done = true; }
    return table;
}

static void handlesOfImpl(Identifiable& id, const std::function<void(const Handle&)>& f) {
    Identifiable* o = &id;
    std::string k = kindOf(id), key = id.getId();
    f(Handle{"ID", key, static_cast<void*>(o), o});
#define AS(K, T) if (k == K) f(Handle{K, key, as<T>(o), o})
    AS("NETWORK", Network); AS("SUBSTATION", Substation); AS("VL", VoltageLevel); AS("SWITCH", Switch); AS("BUS", Bus); AS("LOAD", Load); AS("GEN", Generator); AS("BAT", Battery);
    AS("SHUNT", ShuntCompensator); AS("SVC", StaticVarCompensator); AS("VSC", VscConverterStation); AS("LCC", LccConverterStation); AS("DL", DanglingLine); AS("HVDC", HvdcLine);
    AS("LINE", Line); AS("TIELINE", TieLine); AS("2WT", TwoWindingsTransformer); AS("3WT", ThreeWindingsTransformer);
#undef AS
    if (k == "TIELINE") {
        auto* t = dynamic_cast<TieLine*>(o);
        f(Handle{"LINEAGG", key, static_cast<void*>(dynamic_cast<Line*>(o)), o});
        f(Handle{"HALF", key + "/half1", static_cast<void*>(&t->getHalf1()), o});
        f(Handle{"HALF", key + "/half2", static_cast<void*>(&t->getHalf2()), o});
    }
    if (auto* b = dynamic_cast<Branch*>(o)) {
        f(Handle{"BRANCH", key, static_cast<void*>(b), o});
        auto e = [&](const char* n, stdcxx::Reference<LoadingLimits> l) { if (l) f(Handle{"LIMITS", key + "/" + n, static_cast<void*>(&l.get()), o}); };
        e("A1", stdcxx::ref<LoadingLimits>(b->getActivePowerLimits1()));
        e("S1", stdcxx::ref<LoadingLimits>(b->getApparentPowerLimits1()));
        e("I1", stdcxx::ref<LoadingLimits>(b->getCurrentLimits1()));
        e("A2", stdcxx::ref<LoadingLimits>(b->getActivePowerLimits2()));
        e("S2", stdcxx::ref<LoadingLimits>(b->getApparentPowerLimits2()));
        e("I2", stdcxx::ref<LoadingLimits>(b->getCurrentLimits2()));
    }
    if (auto* t = dynamic_cast<TwoWindingsTransformer*>(o)) {
        if (t->hasRatioTapChanger()) tcHandles("RTC", key + "/rtc", o, t->getRatioTapChanger(), f);
        if (t->hasPhaseTapChanger()) tcHandles("PTC", key + "/ptc", o, t->getPhaseTapChanger(), f);
    }
    if (auto* t = dynamic_cast<ThreeWindingsTransformer*>(o)) {
        int i = 1;
        for (auto* leg : {&t->getLeg1(), &t->getLeg2(), &t->getLeg3()}) {
            std::string lk = key + "/leg" + std::to_string(i++);
            f(Handle{"LEG", lk, static_cast<void*>(leg), o});
            flowLimitHandles(lk, o, *leg, f);
            if (leg->hasRatioTapChanger()) tcHandles("RTC", lk + "/rtc", o, leg->getRatioTapChanger(), f);
            if (leg->hasPhaseTapChanger()) tcHandles("PTC", lk + "/ptc", o, leg->getPhaseTapChanger(), f);
        }
    }
    if (auto* d = dynamic_cast<DanglingLine*>(o)) {
        flowLimitHandles(key, o, *d, f);
        if (d->getGeneration()) f(Handle{"DLGEN", key + "/gen", static_cast<void*>(&d->getGeneration().get()), o});
    }
    if (auto* s = dynamic_cast<ShuntCompensator*>(o)) {
        if (s->getModelType() == ShuntCompensatorModelType::LINEAR) {
            f(Handle{"SHUNTLIN", key + "/model", static_cast<void*>(&s->getModel<ShuntCompensatorLinearModel>()), o});
        } else {
            int i = 0;
            for (auto& sec : s->getModel<ShuntCompensatorNonLinearModel>().getAllSections()) f(Handle{"SECTION", key + "/section" + std::to_string(i++), static_cast<void*>(&sec), o});
        }
    }
    int i = 0;
    for (Terminal* t : terminalsOf(id)) f(Handle{"TERMINAL", key + "#" + std::to_string(i++), static_cast<void*>(t), o});
    for (Extension& e : id.getExtensions()) {
        if (void* p = extPtr(&e)) f(Handle{"X:" + e.getName(), key + "/x:" + e.getName(), p, o});
    }
}
std::vector<Handle> handlesOf(Identifiable& id) {
    std::vector<Handle> r;
    handlesOfImpl(id, [&](const Handle& h) { r.push_back(h); });
    return r;
}
void forEachHandle(Network& n, const std::function<void(const Handle&)>& f) {
    for (Identifiable& id : n.getIdentifiables()) handlesOfImpl(id, f);
}
std::vector<Handle> handles(Network& n) {
    std::vector<Handle> r;
    forEachHandle(n, [&](const Handle& h) { r.push_back(h); });
    return r;
}

// ---------------------------------------------------------------------------------------------------------------
static std::string busKey(const Bus& b) {
    std::set<std::string> s;
    for (const auto& t : b.getConnectedTerminals()) s.insert(tname(t));
    std::string r;
    for (auto& x : s) r += x + ",";
    return r;
}
static void dumpTopo(Network& n, DumpMap& m, int flags) {
    const Network& cn = n;
    for (const VoltageLevel& vl : cn.getVoltageLevels()) {
        auto view = [&](const char* name, const stdcxx::const_range<Bus>& buses) {
            std::multiset<std::string> s;
            for (const Bus& b : buses) {
                std::string k = busKey(b);
                s.insert("{" + k + "}");
                if ((flags & DT) != 0) {
                    auto cc = b.getConnectedComponent();
                    auto sc = b.getSynchronousComponent();
                    m[vl.getId() + "." + name + "{" + k + "}comp"] = (cc ? S(cc.get().getSize()) : "none") + "/" + (sc ? S(sc.get().getSize()) : "none");
                }
                if ((flags & DC) != 0 && !k.empty() && vl.getTopologyKind() == TopologyKind::NODE_BREAKER) m[vl.getId() + "." + name + "{" + k + "}VA"] = S(b.getV()) + "/" + S(b.getAngle());
            }
            if ((flags & DT) != 0) {
                std::string r;
                for (auto& x : s) r += x;
                m[vl.getId() + "." + name] = r;
            }
        };
        view("bus", vl.getBusView().getBuses());
        if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) view("bb", vl.getBusBreakerView().getBuses());
    }
    if ((flags & DT) != 0) {
        for (Terminal* t : allTerminals(n)) m[tname(*t) + ".connected"] = S(t->isConnected());
    }
}
static void dumpAttrs(Network& n, DumpMap& m, int flags) {
    const auto& tab = attrTable();
    forEachHandle(n, [&](const Handle& h) {
        auto it = tab.find(h.kind);
        if (it == tab.end()) return;
        for (const Attr& a : it->second) {
            if ((a.cls == Cls::S && (flags & DS)) || (a.cls == Cls::V && (flags & DV))) m[h.key + "." + a.name] = a.get(h.p);
        }
    });
}
DumpMap dump(Network& n, int flags) {
    DumpMap m;
    R.count("dumps");
    dumpAttrs(n, m, flags);
    if ((flags & (DT | DC)) != 0) dumpTopo(n, m, flags);
    R.count("values_observed", m.size());
    return m;
}
DumpMap dumpAll(Network& n, int flags) {
    DumpMap m;
    if ((flags & DS) != 0) m = dump(n, DS);
    auto& vm = n.getVariantManager();
    std::string w = vm.getWorkingVariantId();
    m["<variants>"] = [&]() { std::string s; for (auto& v : vm.getVariantIds()) s += S(v); return s; }();
    if ((flags & ~DS) == 0) return m;
    for (const auto& v : vm.getVariantIds()) {
        vm.setWorkingVariant(v);
        DumpMap d = dump(n, flags & ~DS);
        for (auto& kv : d) m[v + "@" + kv.first] = kv.second;
    }
    vm.setWorkingVariant(w);
    return m;
}
std::string diff(const DumpMap& a, const DumpMap& b, const std::function<bool(const std::string&)>& ignore, size_t maxItems) {
    std::string s;
    size_t n = 0;
    auto add = [&](const std::string& x) { if (n++ < maxItems) s += x + "; "; };
    auto i = a.begin();
    auto j = b.begin();
    while (i != a.end() || j != b.end()) {
        if (j == b.end() || (i != a.end() && i->first < j->first)) {
            if (!ignore || !ignore(i->first)) add("-" + i->first + "=" + i->second);
            ++i;
        } else if (i == a.end() || j->first < i->first) {
            if (!ignore || !ignore(j->first)) add("+" + j->first + "=" + j->second);
            ++j;
        } else {
            if (i->second != j->second && (!ignore || !ignore(i->first))) add(i->first + ": " + i->second + " -> " + j->second);
            ++i;
            ++j;
        }
    }
    if (n > maxItems) s += "... " + std::to_string(n) + " differences";
    return s;
}

}  // namespace vmon
