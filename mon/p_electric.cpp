// P16: network equations. P17: limits and overloads. P18: characteristics of the equipment models.
#include "pick.hpp"
#include <complex>
#include <functional>
#include <powsybl/iidm/util/SV.hpp>
#include <powsybl/iidm/util/LinkData.hpp>
#include <powsybl/iidm/util/LimitViolationUtils.hpp>
#include <powsybl/iidm/LoadingLimits.hpp>
#include <powsybl/iidm/CurrentLimitsAdder.hpp>
#include <powsybl/iidm/ActivePowerLimitsAdder.hpp>
#include <powsybl/iidm/ApparentPowerLimitsAdder.hpp>
#include <powsybl/iidm/BatteryAdder.hpp>
#include <powsybl/iidm/BusAdder.hpp>
#include <powsybl/iidm/BusbarSectionAdder.hpp>
#include <powsybl/iidm/DanglingLineAdder.hpp>
#include <powsybl/iidm/GeneratorAdder.hpp>
#include <powsybl/iidm/HvdcLineAdder.hpp>
#include <powsybl/iidm/LccConverterStationAdder.hpp>
#include <powsybl/iidm/LineAdder.hpp>
#include <powsybl/iidm/LoadAdder.hpp>
#include <powsybl/iidm/MinMaxReactiveLimitsAdder.hpp>
#include <powsybl/iidm/PhaseTapChangerAdder.hpp>
#include <powsybl/iidm/RatioTapChangerAdder.hpp>
#include <powsybl/iidm/ReactiveCapabilityCurveAdder.hpp>
#include <powsybl/iidm/ShuntCompensatorAdder.hpp>
#include <powsybl/iidm/StaticVarCompensatorAdder.hpp>
#include <powsybl/iidm/SubstationAdder.hpp>
#include <powsybl/iidm/ThreeWindingsTransformerAdder.hpp>
#include <powsybl/iidm/TieLineAdder.hpp>
#include <powsybl/iidm/TwoWindingsTransformerAdder.hpp>
#include <powsybl/iidm/VoltageLevelAdder.hpp>
#include <powsybl/iidm/VscConverterStationAdder.hpp>
using namespace vmon;
using namespace powsybl::iidm;

namespace {
using cd = std::complex<double>;
using cl = std::complex<long double>;
const long double PIL = 3.14159265358979323846264338327950288L;

// a branch: ideal transformer (rho, alpha) at end 1, then a pi circuit
struct Pi { double r, x, g1, b1, g2, b2, rho, alpha; };
struct State { double p, q, u, a; };
struct Solved {
    long double p, q, u, a;
    long double tolS, tolU, tolA;
    bool defined;
};
// Kirchhoff along the circuit, in extended precision
Solved solve(const Pi& c, const State& s, int side) {
    Solved o;
    o.defined = !(std::isnan(s.p) || std::isnan(s.q) || std::isnan(s.u) || std::isnan(s.a));
    if (!o.defined) return o;
    const long double eps = 1e-12L;
    cl z(c.r, c.x), y1(c.g1, c.b1), y2(c.g2, c.b2), a = std::polar(static_cast<long double>(c.rho), static_cast<long double>(c.alpha));
    cl v = std::polar(static_cast<long double>(s.u), static_cast<long double>(s.a) * PIL / 180), i = std::conj(cl(s.p, s.q) / v), v2, i2;
    long double tolV, tolI;
    if (side == 1) {
        cl vp = v * a, ip = i / std::conj(a);
        cl is = ip - y1 * vp;
        v2 = vp - z * is;
        tolV = eps * (std::abs(vp) + std::abs(z) * (std::abs(ip) + (std::abs(y1) + 1 / std::abs(z)) * std::abs(vp)));
        i2 = y2 * v2 - is;
        tolI = eps * (std::abs(ip) + std::abs(y1) * std::abs(vp) + std::abs(y2) * std::abs(v2) + (std::abs(vp) + std::abs(v2)) / std::abs(z)) + tolV * (std::abs(y2) + 1 / std::abs(z));
    } else {
        cl is = i - y2 * v;
        cl vp = v - z * is;
        long double tp = eps * (std::abs(v) + std::abs(z) * (std::abs(i) + (std::abs(y2) + 1 / std::abs(z)) * std::abs(v)));
        cl ip = y1 * vp - is;
        long double ti = eps * (std::abs(i) + std::abs(y2) * std::abs(v) + std::abs(y1) * std::abs(vp) + (std::abs(vp) + std::abs(v)) / std::abs(z)) + tp * (std::abs(y1) + 1 / std::abs(z));
        v2 = vp / a;
        i2 = ip * std::conj(a);
        tolV = tp / std::abs(a);
        tolI = ti * std::abs(a);
    }
    cl s2 = v2 * std::conj(i2);
    o.p = s2.real();
    o.q = s2.imag();
    o.u = std::abs(v2);
    o.a = std::arg(v2) * 180 / PIL;
    o.tolU = tolV + 1e-13L * o.u;
    o.tolS = tolV * std::abs(i2) + tolI * (std::abs(v2) + tolV) + 1e-13L * std::abs(s2);
    o.tolA = o.u > 0 ? tolV / o.u * 180 / PIL * 2 + 1e-11L : 1e9L;
    return o;
}
bool near(double got, long double want, long double tol) { return std::fabs(static_cast<long double>(got) - want) <= tol; }
bool nearAngle(double got, long double want, long double tol) {
    if (tol > 90) return true;
    long double d = std::fmod(std::fabs(static_cast<long double>(got) - want), 360.0L);
    return d <= tol || 360 - d <= tol;
}
std::string text(const Solved& o) {
    std::ostringstream s;
    s << (o.defined ? "" : "undefined ") << "p " << (double)o.p << " q " << (double)o.q << " u " << (double)o.u << " a " << (double)o.a << " (tol " << (double)o.tolS << ", " << (double)o.tolU << ", " << (double)o.tolA << ")";
    return s.str();
}
std::string text(const Pi& c) {
    std::ostringstream s;
    s.precision(17);
    s << "r " << c.r << " x " << c.x << " g1 " << c.g1 << " b1 " << c.b1 << " g2 " << c.g2 << " b2 " << c.b2 << " rho " << c.rho << " alpha " << c.alpha;
    return s.str();
}
std::string text(double p, double q, double u, double a) {
    std::ostringstream s;
    s.precision(17);
    s << "p " << p << " q " << q << " u " << u << " a " << a;
    return s.str();
}
void judge(const std::string& key, const Pi& c, const State& s, int side, double p, double q, double u, double a) {
    Solved o = solve(c, s, side);
    std::string d = text(c) + " side " + S(side) + " " + text(s.p, s.q, s.u, s.a) + " got " + text(p, q, u, a) + " expected " + text(o);
    if (!o.defined) {
        R.count("undefined_inputs");
        // every result depends on the four inputs
        VCHECK(std::isnan(p) && std::isnan(q) && std::isnan(u) && std::isnan(a), key + ":undefined", d);
        return;
    }
    if (!(o.u < 1e12L) || !(std::fabs(o.p) < 1e18L)) return;
    R.count("states_judged");
    VCHECK(near(p, o.p, o.tolS), key + ":p", d);
    VCHECK(near(q, o.q, o.tolS), key + ":q", d);
    VCHECK(near(u, o.u, o.tolU), key + ":u", d);
    VCHECK(nearAngle(a, o.a, o.tolA), key + ":a", d);
}
double mag(Rng& r, double lo, double hi) { return std::exp(r.real(std::log(lo), std::log(hi))); }
State genState(Rng& r) {
    State s;
    s.p = r.chance(4) ? 0 : r.real(-1000, 1000);
    s.q = r.chance(4) ? 0 : r.real(-500, 500);
    s.u = mag(r, 1, 500);
    s.a = r.chance(10) ? r.of({0.0, 90.0, -90.0, 180.0, -180.0}) : r.real(-180, 180);
    if (r.chance(8)) { switch (r.below(4)) { case 0: s.p = NaN; break; case 1: s.q = NaN; break; case 2: s.u = NaN; break; default: s.a = NaN; } }
    return s;
}
Pi genPi(Rng& r, bool transformer) {
    Pi c;
    c.r = r.chance(15) ? 0 : mag(r, 0.001, 50);
    c.x = r.chance(15) && c.r != 0 ? 0 : mag(r, 0.001, 200) * (r.chance(10) ? -1 : 1);
    auto sh = [&](double m) { return r.chance(25) ? 0.0 : r.real(-m, m); };
    c.g1 = sh(1e-3); c.b1 = sh(5e-3); c.g2 = sh(1e-3); c.b2 = sh(5e-3);
    c.rho = transformer ? mag(r, 0.05, 20) : 1;
    c.alpha = transformer && r.chance(60) ? r.real(-1.5, 1.5) : 0;
    return c;
}
Branch::Side sideOf(int s) { return s == 1 ? Branch::Side::ONE : Branch::Side::TWO; }
}  // namespace

MODULE(equations) {
    // the propagation itself
    for (int k = 0; k < 40; ++k) {
        bool t = rng.chance(50);
        Pi c = genPi(rng, t);
        State s = genState(rng);
        int side = static_cast<int>(rng.range(1, 2));
        SV sv(s.p, s.q, s.u, s.a, sideOf(side));
        VCHECK(S(sv.getP()) == S(s.p) && S(sv.getQ()) == S(s.q) && S(sv.getU()) == S(s.u) && S(sv.getA()) == S(s.a) && sv.getSide() == sideOf(side), "state:getters", "");
        SV o = sv.otherSide(c.r, c.x, c.g1, c.b1, c.g2, c.b2, c.rho, c.alpha);
        VCHECK(o.getSide() == sideOf(3 - side), "other-side:side", "");
        judge("other-side", c, s, side, o.getP(), o.getQ(), o.getU(), o.getA());
        judge("other-side-values", c, s, side, sv.otherSideP(c.r, c.x, c.g1, c.b1, c.g2, c.b2, c.rho, c.alpha), sv.otherSideQ(c.r, c.x, c.g1, c.b1, c.g2, c.b2, c.rho, c.alpha),
              sv.otherSideU(c.r, c.x, c.g1, c.b1, c.g2, c.b2, c.rho, c.alpha), sv.otherSideA(c.r, c.x, c.g1, c.b1, c.g2, c.b2, c.rho, c.alpha));
        // and back
        Solved w = solve(c, s, side);
        if (w.defined && w.u > 1e-3L) {
            SV b = o.otherSide(c.r, c.x, c.g1, c.b1, c.g2, c.b2, c.rho, c.alpha);
            State so{o.getP(), o.getQ(), o.getU(), o.getA()};
            Solved wb = solve(c, so, 3 - side);
            // uncertainty of the way there, amplified by the way back
            long double z = std::hypot(static_cast<long double>(c.r), static_cast<long double>(c.x)), y = std::hypot(c.g1, c.b1) + std::hypot(c.g2, c.b2);
            long double rho = std::max<long double>(c.rho, 1 / c.rho);
            long double tI = w.tolS / w.u + std::hypot(w.p, w.q) / (w.u * w.u) * w.tolU;
            long double tU = (w.tolU * (1 + z * y) + z * tI) * rho * rho * 8 + wb.tolU;
            long double tS = 8 * rho * rho * ((tI + tU * (y + 1 / z)) * (s.u + tU) + tU * std::hypot(s.p, s.q) / s.u) + wb.tolS;
            std::string d = text(c) + " side " + S(side) + " " + text(s.p, s.q, s.u, s.a) + " there " + text(o.getP(), o.getQ(), o.getU(), o.getA()) + " and back " + text(b.getP(), b.getQ(), b.getU(), b.getA());
            VCHECK(b.getSide() == sideOf(side) && near(b.getU(), s.u, tU) && near(b.getP(), s.p, tS) && near(b.getQ(), s.q, tS) && (tU > s.u / 4 || nearAngle(b.getA(), s.a, tU / s.u * 120 + 1e-10L)), "there-and-back", d);
            R.count("round_trips");
        }
        // admittances
        double ratio2 = rng.chance(50) ? 1 : mag(rng, 0.2, 5), angle2 = rng.chance(50) ? 0 : rng.real(-1, 1), ratio1 = 1 / c.rho, angle1 = -c.alpha;
        auto m = LinkData::calculateBranchAdmittance(c.r, c.x, ratio1, angle1, ratio2, angle2, cd(c.g1, c.b1), cd(c.g2, c.b2));
        cl yt = 1.0L / cl(c.r, c.x), a1 = std::polar<long double>(ratio1, angle1), a2 = std::polar<long double>(ratio2, angle2);
        cl e11 = (yt + cl(c.g1, c.b1)) / std::norm(a1), e22 = (yt + cl(c.g2, c.b2)) / std::norm(a2), e12 = -yt / (std::conj(a1) * a2), e21 = -yt / (std::conj(a2) * a1);
        auto close = [](const cd& g, const cl& w2, long double scale) { return std::abs(cl(g.real(), g.imag()) - w2) <= 1e-12L * (std::abs(w2) + scale); };
        VCHECK(close(m.y11, e11, std::abs(yt) / std::norm(a1)), "admittance:y11", text(c));
        VCHECK(close(m.y22, e22, std::abs(yt) / std::norm(a2)), "admittance:y22", text(c));
        VCHECK(close(m.y12, e12, 0), "admittance:y12", text(c));
        VCHECK(close(m.y21, e21, 0), "admittance:y21", text(c));
        R.seen("cover", S(t) + S(side) + S(c.r == 0) + S(c.x == 0) + S(c.g1 == 0) + S(c.b1 == 0) + S(c.g2 == 0) + S(c.b2 == 0) + S(c.alpha == 0) + S(w.defined));
    }
}

MODULE(derived) {
    Network n("net", "test");
    Gen g(n, rng.u64());
    g.exotic = false;
    int mode = static_cast<int>(rng.below(3));
    if (mode == 0) g.bbAllowed = false;
    if (mode == 1) g.nbAllowed = false;
    g.build(rng, static_cast<int>(rng.range(6, 30)));
    for (int i = 0; i < 6; ++i) {
        static const std::vector<std::string> more = {"newLine", "newTieLine", "newTwoWindings", "newDanglingLine", "newThreeWindings"};
        try { g.run(Gen::op(rng.pick(more)), rng.u64()); } catch (const Skip&) {} catch (const std::exception& e) { if (!isLibraryError(e)) throw; }
    }
    auto& vm = n.getVariantManager();
    for (int i = static_cast<int>(rng.below(3)); i > 0; --i) vm.cloneVariant(rng.pick(variantIds(n)), "v" + std::to_string(i));
    auto ok = [](double v, double lo, double hi) { return std::isfinite(v) && (v == 0 || (std::fabs(v) >= lo && std::fabs(v) <= hi)); };
    auto usable = [&](const Pi& c) { return ok(c.r, 1e-6, 1e5) && ok(c.x, 1e-6, 1e5) && (c.r != 0 || c.x != 0) && ok(c.g1, 1e-12, 1e5) && ok(c.b1, 1e-12, 1e5) && ok(c.g2, 1e-12, 1e5) && ok(c.b2, 1e-12, 1e5) && std::isfinite(c.alpha) && ok(c.rho, 1e-4, 1e4) && c.rho > 0; };
    for (int round = 0; round < 3; ++round) {
        vm.setWorkingVariant(rng.pick(variantIds(n)));
        if (round > 0) for (int i = 0; i < 4; ++i) g.random(rng, "t");
        for (Identifiable& id : n.getIdentifiables()) {
            if (auto* l = dynamic_cast<Line*>(&id)) {
                if (!l->isTieLine()) { Pi c = genPi(rng, false); l->setR(c.r).setX(c.x).setG1(c.g1).setB1(c.b1).setG2(c.g2).setB2(c.b2); }
            } else if (auto* t = dynamic_cast<TwoWindingsTransformer*>(&id)) {
                Pi c = genPi(rng, true);
                t->setR(c.r).setX(c.x).setG(c.g1).setB(c.b1).setRatedU1(mag(rng, 1, 500)).setRatedU2(mag(rng, 1, 500));
            } else if (auto* d = dynamic_cast<DanglingLine*>(&id)) {
                Pi c = genPi(rng, false);
                d->setR(c.r).setX(c.x).setG(c.g1).setB(c.b1);
            }
        }
        for (Terminal* t : allTerminals(n)) {
            if (t->getConnectable().get().getType() == ConnectableType::BUSBAR_SECTION) continue;
            State s = genState(rng);
            if (t->getConnectable().get().getType() != ConnectableType::SHUNT_COMPENSATOR) t->setP(s.p);
            t->setQ(s.q);
        }
        // state of the buses of the most detailed view
        for (VoltageLevel& v : n.getVoltageLevels()) {
            if (v.getTopologyKind() == TopologyKind::BUS_BREAKER) for (Bus& b : v.getBusBreakerView().getBuses()) { State s = genState(rng); b.setV(s.u).setAngle(s.a); }
            else for (Bus& b : v.getBusView().getBuses()) { State s = genState(rng); b.setV(s.u).setAngle(s.a); }
        }
        RefTopo ref = referenceTopo(n);
        auto stateOf = [&](const Terminal& t, State& s) {
            s.p = t.getP();
            s.q = t.getQ();
            auto b = t.getBusView().getBus();
            s.u = b ? b.get().getV() : NaN;
            s.a = b ? b.get().getAngle() : NaN;
        };
        for (Terminal* t : allTerminals(n)) {
            double i = t->getI();
            if (t->getConnectable().get().getType() == ConnectableType::BUSBAR_SECTION) { VCHECK(i == 0, "busbar-section-current", tname(*t) + " " + S(i)); continue; }
            auto b = t->getVoltageLevel().getTopologyKind() == TopologyKind::BUS_BREAKER ? t->getBusBreakerView().getBus() : t->getBusView().getBus();
            if (!b) { if (t->getVoltageLevel().getTopologyKind() == TopologyKind::BUS_BREAKER) VCHECK(std::isnan(i), "terminal-current", tname(*t) + " disconnected " + S(i)); continue; }
            double v = b.get().getV(), p = t->getP(), q = t->getQ();
            VCHECK(S(t->getV()) == S(v) && S(t->getAngle()) == S(b.get().getAngle()), "terminal-state", tname(*t) + " " + S(t->getV()) + " bus " + S(v));
            R.count("currents");
            if (std::isnan(p) || std::isnan(q) || std::isnan(v)) { VCHECK(std::isnan(i), "terminal-current:undefined", tname(*t)); continue; }
            double want = std::hypot(p, q) / (std::sqrt(3.0) * v / 1000), wrong = std::hypot(p, q) / std::sqrt(3.0) * v / 1000;
            if (near(i, want, 1e-12L * std::fabs(want))) continue;
            VCHECK(false, near(i, wrong, 1e-12L * std::fabs(wrong)) ? "terminal-current-formula" : "terminal-current", tname(*t) + " p " + S(p) + " q " + S(q) + " v " + S(v) + " i " + S(i) + " expected " + S(want));
        }
        // power balances
        auto balance = [&](const Bus& b, const Group& gr, const std::string& key) {
            double p = 0, q = 0, sp = 0, sq = 0;
            for (const Terminal* t : gr.tset) {
                auto ty = t->getConnectable().get().getType();
                bool both = ty == ConnectableType::GENERATOR || ty == ConnectableType::BATTERY || ty == ConnectableType::LOAD || ty == ConnectableType::HVDC_CONVERTER_STATION;
                bool qonly = ty == ConnectableType::SHUNT_COMPENSATOR || ty == ConnectableType::STATIC_VAR_COMPENSATOR;
                if (both && !std::isnan(t->getP())) { p += t->getP(); sp += std::fabs(t->getP()); }
                if ((both || qonly) && !std::isnan(t->getQ())) { q += t->getQ(); sq += std::fabs(t->getQ()); }
            }
            R.count("bus_balances");
            if (gr.tset.empty()) { VCHECK(std::isnan(b.getP()) && std::isnan(b.getQ()), key + ":empty", b.getId()); return; }
            VCHECK(near(b.getP(), p, 1e-12L * sp), key + ":p", b.getId() + " " + S(b.getP()) + " expected " + S(p));
            VCHECK(near(b.getQ(), q, 1e-12L * sq), key + ":q", b.getId() + " " + S(b.getQ()) + " expected " + S(q));
        };
        for (bool bv : {true, false}) {
            auto& groups = bv ? ref.bus : ref.bb;
            for (VoltageLevel& v : n.getVoltageLevels()) {
                auto buses = bv ? v.getBusView().getBuses() : v.getBusBreakerView().getBuses();
                for (Bus& b : buses) {
                    const Group* gr = nullptr;
                    if (b.getConnectedTerminalCount() > 0) {
                        const Terminal* t = &*b.getConnectedTerminals().begin();
                        auto& m = bv ? ref.busOf : ref.bbOf;
                        auto it = m.find(t);
                        if (it != m.end()) gr = &groups[static_cast<size_t>(it->second)];
                    }
                    Group none;
                    balance(b, gr ? *gr : none, bv ? "bus-balance" : "bus-breaker-balance");
                }
            }
        }
        // other sides and boundaries
        for (Identifiable& id : n.getIdentifiables()) {
            if (auto* l = dynamic_cast<Line*>(&id)) {
                Pi c{l->getR(), l->getX(), l->getG1(), l->getB1(), l->getG2(), l->getB2(), 1, 0};
                if (auto* tl = dynamic_cast<TieLine*>(l)) {
                    auto &h1 = tl->getHalf1(), &h2 = tl->getHalf2();
                    auto sum = [&](double got, double a, double b, const char* what) { VCHECK(S(got) == S(a + b), std::string("tie-line:") + what, tl->getId() + " " + S(got) + " from " + S(a) + " and " + S(b)); };
                    sum(c.r, h1.getR(), h2.getR(), "r"); sum(c.x, h1.getX(), h2.getX(), "x"); sum(c.g1, h1.getG1(), h2.getG1(), "g1"); sum(c.b1, h1.getB1(), h2.getB1(), "b1");
                    sum(c.g2, h1.getG2(), h2.getG2(), "g2"); sum(c.b2, h1.getB2(), h2.getB2(), "b2");
                    for (int side = 1; side <= 2; ++side) {
                        auto& h = side == 1 ? h1 : h2;
                        Pi hc{h.getR(), h.getX(), h.getG1(), h.getB1(), h.getG2(), h.getB2(), 1, 0};
                        if (!usable(hc)) continue;
                        const Terminal& t = tl->getTerminal(sideOf(side));
                        State s;
                        stateOf(t, s);
                        if (s.u == 0) continue;
                        auto& bd = h.getBoundary();
                        judge("half-line-boundary", hc, s, side, bd.getP(), bd.getQ(), bd.getV(), bd.getAngle());
                        VCHECK(&bd.getVoltageLevel() == &t.getVoltageLevel() && &bd.getConnectable() == tl && bd.getSide() && *bd.getSide() == sideOf(side), "half-line-boundary:identity", tl->getId());
                    }
                }
                if (!usable(c)) continue;
                for (int side = 1; side <= 2; ++side) {
                    State s;
                    stateOf(l->getTerminal(sideOf(side)), s);
                    SV o = SV(s.p, s.q, s.u, s.a, sideOf(side)).otherSide(*l);
                    judge("line", c, s, side, o.getP(), o.getQ(), o.getU(), o.getA());
                }
            } else if (auto* t = dynamic_cast<TwoWindingsTransformer*>(&id)) {
                double r = t->getR(), x = t->getX(), gg = t->getG(), b = t->getB(), rho = t->getRatedU2() / t->getRatedU1(), al = 0;
                if (t->hasRatioTapChanger()) {
                    const auto& s = t->getRatioTapChanger().getStep(t->getRatioTapChanger().getTapPosition());
                    r *= 1 + s.getR() / 100; x *= 1 + s.getX() / 100; gg *= 1 + s.getG() / 100; b *= 1 + s.getB() / 100; rho *= s.getRho();
                }
                if (t->hasPhaseTapChanger()) {
                    const auto& s = t->getPhaseTapChanger().getStep(t->getPhaseTapChanger().getTapPosition());
                    r *= 1 + s.getR() / 100; x *= 1 + s.getX() / 100; gg *= 1 + s.getG() / 100; b *= 1 + s.getB() / 100; rho *= s.getRho();
                    al = static_cast<double>(s.getAlpha() * PIL / 180);
                }
                Pi whole{r, x, gg, b, 0, 0, rho, al}, split{r, x, gg / 2, b / 2, gg / 2, b / 2, rho, al};
                if (!usable(whole)) continue;
                R.count("transformers_judged");
                for (int side = 1; side <= 2; ++side) {
                    State s;
                    stateOf(t->getTerminal(sideOf(side)), s);
                    SV sv(s.p, s.q, s.u, s.a, sideOf(side));
                    SV o = sv.otherSide(*t), o2 = sv.otherSide(*t, true), o3 = sv.otherSide(*t, false);
                    judge("transformer", whole, s, side, o.getP(), o.getQ(), o.getU(), o.getA());
                    judge("transformer-split", split, s, side, o2.getP(), o2.getQ(), o2.getU(), o2.getA());
                    judge("transformer-not-split", whole, s, side, o3.getP(), o3.getQ(), o3.getU(), o3.getA());
                }
            } else if (auto* d = dynamic_cast<DanglingLine*>(&id)) {
                Pi whole{d->getR(), d->getX(), d->getG(), d->getB(), 0, 0, 1, 0}, split{d->getR(), d->getX(), d->getG() / 2, d->getB() / 2, d->getG() / 2, d->getB() / 2, 1, 0};
                if (!usable(whole)) continue;
                State s;
                stateOf(d->getTerminal(), s);
                auto& bd = d->getBoundary();
                judge("dangling-line-boundary", split, s, 1, bd.getP(), bd.getQ(), bd.getV(), bd.getAngle());
                VCHECK(&bd.getVoltageLevel() == &d->getTerminal().getVoltageLevel() && &bd.getConnectable() == d && !bd.getSide(), "dangling-line-boundary:identity", d->getId());
                for (int side = 1; side <= 2; ++side) {
                    SV sv(s.p, s.q, s.u, s.a, sideOf(side));
                    SV o = sv.otherSide(*d), o2 = sv.otherSide(*d, true), o3 = sv.otherSide(*d, false);
                    judge("dangling-line", whole, s, side, o.getP(), o.getQ(), o.getU(), o.getA());
                    judge("dangling-line-split", split, s, side, o2.getP(), o2.getQ(), o2.getU(), o2.getA());
                    judge("dangling-line-not-split", whole, s, side, o3.getP(), o3.getQ(), o3.getU(), o3.getA());
                    judge("dangling-line-values", whole, s, side, sv.otherSideP(*d), sv.otherSideQ(*d), sv.otherSideU(*d), sv.otherSideA(*d));
                    judge("dangling-line-values-split", split, s, side, sv.otherSideP(*d, true), sv.otherSideQ(*d, true), sv.otherSideU(*d, true), sv.otherSideA(*d, true));
                }
            }
        }
    }
    std::map<std::string, int> kinds;
    for (Identifiable& id : n.getIdentifiables()) kinds[kindOf(id)]++;
    std::string k = S(mode);
    for (auto& kv : kinds) k += kv.first + S(kv.second);
    R.seen("cover", k);
}

// ---------------------------------------------------------------------------------------------------------------- P17
namespace {
struct Temp { std::string name; double value; bool fict; };
struct Lim {
    bool set = false;
    double perm = NaN;
    std::map<ulong_t, Temp, std::greater<ulong_t>> temps;
};
double flowOf(const Terminal& t, LimitType type) {
    switch (type) {
        case LimitType::ACTIVE_POWER: return t.getP();
        case LimitType::APPARENT_POWER: return std::sqrt(t.getP() * t.getP() + t.getQ() * t.getQ());
        default: return t.getI();
    }
}
}  // namespace

MODULE(limits) {
    Network n("net", "test");
    Gen g(n, rng.u64());
    g.exotic = false;
    g.build(rng, static_cast<int>(rng.range(5, 18)));
    for (int i = 0; i < 3; ++i) {
        static const std::vector<std::string> more = {"newLine", "newTieLine", "newTwoWindings"};
        try { g.run(Gen::op(rng.pick(more)), rng.u64()); } catch (const Skip&) {} catch (const std::exception& e) { if (!isLibraryError(e)) throw; }
    }
    auto& vm = n.getVariantManager();
    for (int i = static_cast<int>(rng.below(3)); i > 0; --i) vm.cloneVariant(rng.pick(variantIds(n)), "v" + std::to_string(i));
    vm.setWorkingVariant(rng.pick(variantIds(n)));
    std::vector<Branch*> branches;
    for (Identifiable& id : n.getIdentifiables()) if (auto* b = dynamic_cast<Branch*>(&id)) branches.push_back(b);
    std::sort(branches.begin(), branches.end(), [](Branch* a, Branch* b) { return a->getId() < b->getId(); });
    if (branches.empty()) return;
    const std::vector<LimitType> types = {LimitType::CURRENT, LimitType::ACTIVE_POWER, LimitType::APPARENT_POWER};
    auto setFlows = [&](Branch& b) {
        for (int side = 1; side <= 2; ++side) {
            Terminal& t = b.getTerminal(sideOf(side));
            t.setP(rng.chance(5) ? NaN : rng.chance(20) ? 0 : rng.real(-300, 900)).setQ(rng.chance(5) ? NaN : rng.chance(20) ? 0 : rng.real(-300, 300));
            auto bus = t.getBusView().getBus();
            if (bus && rng.chance(90)) bus.get().setV(rng.real(1, 400));
        }
    };
    for (Branch* b : branches) setFlows(*b);
    std::map<std::string, Lim> shadow;
    auto keyOf = [](Branch& b, LimitType t, int side) { return b.getId() + "|" + S(t) + S(side); };
    for (Branch* b : branches) {
        for (LimitType t : types) {
            for (int side = 1; side <= 2; ++side) {
                Lim& l = shadow[keyOf(*b, t, side)];
                // limits the random build created
                auto cur = b->getLimits(t, sideOf(side));
                if (!cur) continue;
                l.set = true;
                l.perm = cur.get().getPermanentLimit();
                for (auto& x : cur.get().getTemporaryLimits()) l.temps[x.getAcceptableDuration()] = Temp{x.getName(), x.getValue(), x.isFictitious()};
            }
        }
    }
    double red = 1;
    auto near1 = [&](double f) {
        double v = f;
        for (int i = static_cast<int>(rng.below(4)); i > 0; --i) v = std::nextafter(v, rng.chance(50) ? Inf : 0);
        return v;
    };
    auto define = [&](Branch& b, LimitType t, int side) {
        Lim l;
        l.set = true;
        double f = std::fabs(flowOf(b.getTerminal(sideOf(side)), t));
        if (std::isnan(f) || f == 0 || !std::isfinite(f)) f = 100;
        double base = near1(f / red);
        l.perm = rng.chance(50) ? base : rng.real(0.2, 1.2) * f / red;
        if (rng.chance(5)) l.perm = NaN;
        int k = static_cast<int>(rng.below(5));
        double v = std::isnan(l.perm) ? f : l.perm;
        std::vector<ulong_t> durs = {3600, 1800, 1200, 600, 60, 0};
        for (int i = 0, j = 0; i < k; ++i) {
            j += static_cast<int>(rng.below(2));
            if (j >= static_cast<int>(durs.size())) break;
            // often right at the flow, sometimes equal to the previous limit, sometimes out of order
            double w = rng.chance(35) ? base : rng.chance(10) ? v : rng.chance(10) ? v * rng.real(0.3, 1) : v * rng.real(1, 1.5);
            if (!(w > 0)) w = 1;
            l.temps[durs[static_cast<size_t>(j++)]] = Temp{"T" + std::to_string(i) + std::to_string(rng.below(50) + 100 * static_cast<uint64_t>(i)), w, rng.chance(20)};
            v = w;
        }
        auto fill = [&](auto ad) {
            ad.setPermanentLimit(l.perm);
            std::vector<ulong_t> order;
            for (auto& x : l.temps) order.push_back(x.first);
            for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[rng.below(i)]);
            for (ulong_t d : order) ad.beginTemporaryLimit().setName(l.temps[d].name).setValue(l.temps[d].value).setAcceptableDuration(d).setFictitious(l.temps[d].fict).endTemporaryLimit();
            ad.add();
        };
        try {
            if (t == LimitType::CURRENT) { if (side == 1) fill(b.newCurrentLimits1()); else fill(b.newCurrentLimits2()); }
            else if (t == LimitType::ACTIVE_POWER) { if (side == 1) fill(b.newActivePowerLimits1()); else fill(b.newActivePowerLimits2()); }
            else { if (side == 1) fill(b.newApparentPowerLimits1()); else fill(b.newApparentPowerLimits2()); }
        } catch (const std::exception& e) {
            if (!isLibraryError(e)) throw;
            R.count("limits_refused");
            return;
        }
        shadow[keyOf(b, t, side)] = l;
        R.count("limits_defined");
    };
    auto judgeAll = [&](Branch& b) {
        bool over1 = false, overR = false;
        ulong_t dur = std::numeric_limits<ulong_t>::max();
        for (LimitType t : types) {
            for (int side = 1; side <= 2; ++side) {
                const Lim& l = shadow[keyOf(b, t, side)];
                double f = flowOf(b.getTerminal(sideOf(side)), t);
                std::string d = b.getId() + " type " + S(t) + " side " + S(side) + " flow " + S(f) + " permanent " + S(l.perm) + " reduction " + S(red);
                for (auto& x : l.temps) d += " " + std::to_string(x.first) + ":" + x.second.name + "=" + S(x.second.value);
                auto cur = b.getLimits(t, sideOf(side));
                VCHECK(static_cast<bool>(cur) == l.set && (!l.set || S(cur.get().getPermanentLimit()) == S(l.perm)), "limits-defined", d);
                for (double k : {1.0, red}) {
                    bool p = l.set && !std::isnan(l.perm) && !std::isnan(f) && f >= l.perm * k;
                    bool got = k == 1.0 && rng.chance(50) ? b.checkPermanentLimit(sideOf(side), t) : b.checkPermanentLimit(sideOf(side), k, t);
                    bool got2 = side == 1 ? (k == 1.0 && rng.chance(50) ? b.checkPermanentLimit1(t) : b.checkPermanentLimit1(k, t)) : (k == 1.0 && rng.chance(50) ? b.checkPermanentLimit2(t) : b.checkPermanentLimit2(k, t));
                    bool got3 = LimitViolationUtils::checkPermanentLimit(b, sideOf(side), k, f, t);
                    VCHECK(got == p && got2 == p && got3 == p, "permanent-limit", d + " at " + S(k) + " expected " + S(p) + " got " + S(got) + S(got2) + S(got3));
                    if (t == LimitType::CURRENT && p) { (k == 1.0 ? over1 : overR) = true; if (k == 1.0 && red == 1.0) overR = true; }
                    const Temp* band = nullptr;
                    ulong_t bandDur = 0;
                    std::string prevName;
                    double prev = l.perm;
                    if (l.set && !std::isnan(l.perm) && !std::isnan(f)) {
                        for (auto& x : l.temps) {
                            if (f >= prev * k && f < x.second.value * k) { band = &x.second; bandDur = x.first; break; }
                            prevName = x.second.name;
                            prev = x.second.value;
                        }
                    }
                    auto o = k == 1.0 && rng.chance(50) ? b.checkTemporaryLimits(sideOf(side), t) : b.checkTemporaryLimits(sideOf(side), k, t);
                    auto o2 = side == 1 ? (k == 1.0 && rng.chance(50) ? b.checkTemporaryLimits1(t) : b.checkTemporaryLimits1(k, t)) : (k == 1.0 && rng.chance(50) ? b.checkTemporaryLimits2(t) : b.checkTemporaryLimits2(k, t));
                    auto o3 = LimitViolationUtils::checkTemporaryLimits(b, sideOf(side), k, f, t);
                    for (auto* x : {&o, &o2, &o3}) {
                        VCHECK(static_cast<bool>(*x) == (band != nullptr), "temporary-limit", d + " at " + S(k) + " expected " + (band ? band->name : "none") + " got " + (*x ? (*x)->getTemporaryLimit().getName() : "none"));
                        if (!*x || !band) continue;
                        const auto& tl = (*x)->getTemporaryLimit();
                        VCHECK(tl.getName() == band->name && tl.getValue() == band->value && tl.getAcceptableDuration() == bandDur && tl.isFictitious() == band->fict, "temporary-limit:band", d + " expected " + band->name + " got " + tl.getName());
                        VCHECK((*x)->getPreviousLimitName() == prevName && (*x)->getPreviousLimit() == prev, "temporary-limit:previous", d + " expected " + prevName + " " + S(prev) + " got " + (*x)->getPreviousLimitName() + " " + S((*x)->getPreviousLimit()));
                    }
                    if (band && t == LimitType::CURRENT && k == 1.0) dur = std::min(dur, bandDur);
                    R.seen("cover", S(t) + S(side) + S(k == 1.0) + S(p) + (band ? "band" + S(static_cast<ulong_t>(std::distance(l.temps.begin(), l.temps.find(bandDur)))) : "none") + S(l.temps.size()) + S(f >= 0) + S(f == l.perm * k));
                }
            }
        }
        VCHECK(b.isOverloaded() == over1, "overloaded", b.getId() + " expected " + S(over1));
        VCHECK(b.isOverloaded(red) == overR, "overloaded:reduction", b.getId() + " expected " + S(overR) + " at " + S(red));
        VCHECK(b.getOverloadDuration() == dur, "overload-duration", b.getId() + " expected " + S(dur) + " got " + S(b.getOverloadDuration()));
        VCHECK(refused([&] { b.checkPermanentLimit1(LimitType::VOLTAGE); }), "voltage-limits-checked", b.getId());
    };
    int steps = static_cast<int>(rng.range(15, 40));
    for (int s = 0; s < steps; ++s) {
        red = rng.chance(30) ? 1.0 : rng.chance(20) ? rng.of({0.5, 2.0, 0.1}) : rng.real(0.1, 1.3);
        Branch& b = *rng.pick(branches);
        switch (rng.below(8)) {
            case 0: case 1: case 2: define(b, rng.pick(types), static_cast<int>(rng.range(1, 2))); break;
            case 3: setFlows(b); break;
            case 4: vm.setWorkingVariant(rng.pick(variantIds(n))); break;
            case 5: {
                LimitType t = rng.pick(types);
                int side = static_cast<int>(rng.range(1, 2));
                auto cur = b.getLimits(t, sideOf(side));
                if (!cur) break;
                double v = near1(std::max(1e-3, std::fabs(flowOf(b.getTerminal(sideOf(side)), t))) / red);
                if (std::isnan(v)) break;
                try { cur.get().setPermanentLimit(v); shadow[keyOf(b, t, side)].perm = v; } catch (const std::exception& e) { if (!isLibraryError(e)) throw; }
                break;
            }
            default: define(b, LimitType::CURRENT, static_cast<int>(rng.range(1, 2))); break;
        }
        judgeAll(b);
        if (rng.chance(20)) judgeAll(*rng.pick(branches));
    }
}


// the sets of limits of every holder (sides of branches, dangling lines, legs) follow what was defined and removed
namespace {
struct Keeper {
    std::string name;
    std::function<stdcxx::Reference<LoadingLimits>(LimitType)> get;
    std::function<stdcxx::CReference<LoadingLimits>(LimitType)> cget;
    std::function<CurrentLimitsAdder()> newC;
    std::function<ActivePowerLimitsAdder()> newP;
    std::function<ApparentPowerLimitsAdder()> newS;
    std::function<std::vector<const OperationalLimits*>()> all;      // nothing where the holder has no such range
};
Keeper keeperOf(FlowsLimitsHolder& h, const std::string& name) {
    const FlowsLimitsHolder& ch = h;
    Keeper k;
    k.name = name;
    k.get = [&h](LimitType t) -> stdcxx::Reference<LoadingLimits> {
        auto c = h.getCurrentLimits(); auto p = h.getActivePowerLimits(); auto s = h.getApparentPowerLimits();
        if (t == LimitType::CURRENT) return c ? stdcxx::ref<LoadingLimits>(c.get()) : stdcxx::ref<LoadingLimits>();
        if (t == LimitType::ACTIVE_POWER) return p ? stdcxx::ref<LoadingLimits>(p.get()) : stdcxx::ref<LoadingLimits>();
        return s ? stdcxx::ref<LoadingLimits>(s.get()) : stdcxx::ref<LoadingLimits>();
    };
    k.cget = [&ch](LimitType t) -> stdcxx::CReference<LoadingLimits> {
        auto c = ch.getCurrentLimits(); auto p = ch.getActivePowerLimits(); auto s = ch.getApparentPowerLimits();
        if (t == LimitType::CURRENT) return c ? stdcxx::cref<LoadingLimits>(c.get()) : stdcxx::cref<LoadingLimits>();
        if (t == LimitType::ACTIVE_POWER) return p ? stdcxx::cref<LoadingLimits>(p.get()) : stdcxx::cref<LoadingLimits>();
        return s ? stdcxx::cref<LoadingLimits>(s.get()) : stdcxx::cref<LoadingLimits>();
    };
    k.newC = [&h] { return h.newCurrentLimits(); };
    k.newP = [&h] { return h.newActivePowerLimits(); };
    k.newS = [&h] { return h.newApparentPowerLimits(); };
    k.all = [&h, &ch, name] {
        std::vector<const OperationalLimits*> a, b;
        for (OperationalLimits& l : h.getOperationalLimits()) a.push_back(&l);
        for (const OperationalLimits& l : ch.getOperationalLimits()) b.push_back(&l);
        VCHECK(a == b, "limit-sets:ranges", name);
        return a;
    };
    return k;
}
Keeper keeperOf(Branch& b, int side) {
    const Branch& cb = b;
    Keeper k;
    k.name = b.getId() + "#" + S(side);
    auto down = [](const auto& x) -> const LoadingLimits* { return x ? &x.get() : nullptr; };
    k.get = [&b, side, down](LimitType t) {
        auto r = b.getLimits(t, sideOf(side));
        const LoadingLimits* p = down(r);
        // every way to ask has the same answer
        const LoadingLimits* x = t == LimitType::CURRENT ? down(b.getCurrentLimits(sideOf(side))) : t == LimitType::ACTIVE_POWER ? down(b.getActivePowerLimits(sideOf(side))) : down(b.getApparentPowerLimits(sideOf(side)));
        const LoadingLimits* y = side == 1 ? (t == LimitType::CURRENT ? down(b.getCurrentLimits1()) : t == LimitType::ACTIVE_POWER ? down(b.getActivePowerLimits1()) : down(b.getApparentPowerLimits1()))
                                           : (t == LimitType::CURRENT ? down(b.getCurrentLimits2()) : t == LimitType::ACTIVE_POWER ? down(b.getActivePowerLimits2()) : down(b.getApparentPowerLimits2()));
        VCHECK(p == x && p == y, "limit-sets:accessors", b.getId() + " side " + S(side) + " type " + S(t));
        return r;
    };
    k.cget = [&cb, side, down](LimitType t) {
        auto r = cb.getLimits(t, sideOf(side));
        const LoadingLimits* p = down(r);
        const LoadingLimits* x = t == LimitType::CURRENT ? down(cb.getCurrentLimits(sideOf(side))) : t == LimitType::ACTIVE_POWER ? down(cb.getActivePowerLimits(sideOf(side))) : down(cb.getApparentPowerLimits(sideOf(side)));
        const LoadingLimits* y = side == 1 ? (t == LimitType::CURRENT ? down(cb.getCurrentLimits1()) : t == LimitType::ACTIVE_POWER ? down(cb.getActivePowerLimits1()) : down(cb.getApparentPowerLimits1()))
                                           : (t == LimitType::CURRENT ? down(cb.getCurrentLimits2()) : t == LimitType::ACTIVE_POWER ? down(cb.getActivePowerLimits2()) : down(cb.getApparentPowerLimits2()));
        VCHECK(p == x && p == y, "limit-sets:accessors", cb.getId() + " side " + S(side) + " type " + S(t));
        return r;
    };
    k.newC = [&b, side] { return side == 1 ? b.newCurrentLimits1() : b.newCurrentLimits2(); };
    k.newP = [&b, side] { return side == 1 ? b.newActivePowerLimits1() : b.newActivePowerLimits2(); };
    k.newS = [&b, side] { return side == 1 ? b.newApparentPowerLimits1() : b.newApparentPowerLimits2(); };
    return k;
}
}  // namespace

MODULE(limit_sets) {
    Network n("net", "test");
    Gen g(n, rng.u64());
    g.exotic = false;
    g.build(rng, static_cast<int>(rng.range(5, 18)));
    for (int i = 0; i < 5; ++i) {
        static const std::vector<std::string> more = {"newLine", "newTieLine", "newTwoWindings", "newThreeWindings", "newDanglingLine"};
        try { g.run(Gen::op(rng.pick(more)), rng.u64()); } catch (const Skip&) {} catch (const std::exception& e) { if (!isLibraryError(e)) throw; }
    }
    std::vector<Keeper> keepers;
    for (Identifiable& id : n.getIdentifiables()) {
        if (auto* b = dynamic_cast<Branch*>(&id)) { keepers.push_back(keeperOf(*b, 1)); keepers.push_back(keeperOf(*b, 2)); }
        if (auto* d = dynamic_cast<DanglingLine*>(&id)) keepers.push_back(keeperOf(*d, d->getId()));
        if (auto* t = dynamic_cast<ThreeWindingsTransformer*>(&id)) {
            keepers.push_back(keeperOf(t->getLeg1(), t->getId() + "#leg1"));
            keepers.push_back(keeperOf(t->getLeg2(), t->getId() + "#leg2"));
            keepers.push_back(keeperOf(t->getLeg3(), t->getId() + "#leg3"));
        }
    }
    std::sort(keepers.begin(), keepers.end(), [](const Keeper& a, const Keeper& b) { return a.name < b.name; });
    if (keepers.empty()) return;
    const std::vector<LimitType> types = {LimitType::CURRENT, LimitType::ACTIVE_POWER, LimitType::APPARENT_POWER};
    std::map<std::pair<std::string, LimitType>, Lim> model;
    auto read = [](const LoadingLimits& x) {
        Lim l;
        l.set = true;
        l.perm = x.getPermanentLimit();
        for (const auto& t : x.getTemporaryLimits()) l.temps[t.getAcceptableDuration()] = Temp{t.getName(), t.getValue(), t.isFictitious()};
        return l;
    };
    auto text = [](const Lim& l) {
        std::string o = l.set ? S(l.perm) : "none";
        for (auto& x : l.temps) o += " " + std::to_string(x.first) + ":" + x.second.name + "=" + S(x.second.value) + (x.second.fict ? "f" : "");
        return o;
    };
    for (auto& k : keepers) for (LimitType t : types) if (auto c = k.get(t)) model[{k.name, t}] = read(c.get());
    auto judge = [&](Keeper& k, const std::string& after) {
        size_t count = 0;
        for (LimitType t : types) {
            const Lim& l = model[{k.name, t}];
            auto a = k.get(t);
            auto b = k.cget(t);
            std::string d = k.name + " type " + S(t) + " after " + after + ": expected " + text(l) + " got " + (a ? text(read(a.get())) : "none");
            VCHECK(static_cast<bool>(a) == l.set && static_cast<bool>(b) == l.set, "limit-sets:present", d);
            if (!l.set || !a || !b) continue;
            ++count;
            VCHECK(&a.get() == &b.get() && text(read(a.get())) == text(l) && text(read(b.get())) == text(l) && a.get().getLimitType() == t, "limit-sets:values", d);
            ulong_t last = 0;
            bool first = true;
            std::vector<const LoadingLimits::TemporaryLimit*> x, y;
            for (auto& tl : a.get().getTemporaryLimits()) { VCHECK(first || tl.getAcceptableDuration() < last, "limit-sets:order", d); first = false; last = tl.getAcceptableDuration(); x.push_back(&tl); }
            for (auto& tl : b.get().getTemporaryLimits()) y.push_back(&tl);
            VCHECK(x == y, "limit-sets:ranges", d);
            for (ulong_t dur : {0UL, 1UL, 60UL, 600UL, 1200UL, 3600UL, std::numeric_limits<ulong_t>::max()}) {
                auto it = l.temps.find(dur);
                VCHECK(S(a.get().getTemporaryLimitValue(dur)) == S(it == l.temps.end() ? NaN : it->second.value), "limit-sets:value-of-duration", d + " duration " + std::to_string(dur));
                if (it == l.temps.end()) {
                    bool r1 = false, r2 = false;
                    try { a.get().getTemporaryLimit(dur); } catch (const std::exception&) { r1 = true; }
                    try { b.get().getTemporaryLimit(dur); } catch (const std::exception&) { r2 = true; }
                    VCHECK(r1 && r2, "limit-sets:missing-duration", d + " duration " + std::to_string(dur));
                } else {
                    VCHECK(a.get().getTemporaryLimit(dur).getName() == it->second.name && b.get().getTemporaryLimit(dur).getName() == it->second.name, "limit-sets:of-duration", d + " duration " + std::to_string(dur));
                }
            }
        }
        if (k.all) {
            auto all = k.all();
            VCHECK(all.size() == count, "limit-sets:count", k.name + " after " + after + ": " + S(static_cast<ulong_t>(all.size())) + " for " + S(static_cast<ulong_t>(count)));
            for (LimitType t : types) {
                auto a = k.get(t);
                if (a) VCHECK(std::count(all.begin(), all.end(), static_cast<const OperationalLimits*>(&a.get())) == 1, "limit-sets:listed", k.name + " after " + after);
            }
        }
    };
    static const std::vector<std::string> names = {"A", "B", "A#0", "A#1", "IT10", "IT10#0", u8"été & <10'>", "%1%"};
    static const std::vector<ulong_t> durs = {0, 1, 60, 600, 1200, 3600, std::numeric_limits<ulong_t>::max()};
    int steps = static_cast<int>(rng.range(15, 50));
    for (int s = 0; s < steps; ++s) {
        Keeper& k = rng.pick(keepers);
        LimitType t = rng.pick(types);
        Lim& l = model[{k.name, t}];
        std::string after;
        switch (rng.below(6)) {
            case 0: {
                auto c = k.get(t);
                if (!c) break;
                after = "remove " + S(t);
                c.get().remove();
                l = Lim();
                R.count("limits_removed");
                break;
            }
            case 1: {
                auto c = k.get(t);
                if (!c) break;
                double v = rng.of({0.0, -1.0, 1e-300, 12.5, 1e9, NaN, Inf, -Inf});
                after = "setPermanentLimit " + S(v);
                bool no = refused([&] { c.get().setPermanentLimit(v); });
                VCHECK(no == (v <= 0), "limit-sets:permanent", k.name + " " + after);
                if (!no) l.perm = v;
                break;
            }
            default: {
                Lim w;
                w.set = true;
                bool dup = false;
                auto fill = [&](auto ad) -> bool {
                    int count = static_cast<int>(rng.below(6));
                    for (int i = 0; i < count; ++i) {
                        std::string nm = rng.chance(4) ? "" : rng.pick(names);
                        double v = rng.chance(4) ? rng.of({NaN, 0.0, -3.0}) : rng.chance(10) ? rng.of({1e-300, 1e300, Inf}) : rng.real(1, 2000);
                        bool uniq = rng.chance(60), fict = rng.chance(30), noDur = rng.chance(3);
                        ulong_t dur = rng.pick(durs);
                        if (w.temps.count(dur)) continue;          // which one of two limits with the same duration stays is not told
                        auto tl = ad.beginTemporaryLimit();
                        tl.setName(nm).setValue(v).setFictitious(fict);
                        if (!noDur) tl.setAcceptableDuration(dur);
                        if (uniq) tl.ensureNameUnicity();
                        bool no = refused([&] { tl.endTemporaryLimit(); });
                        VCHECK(no == (nm.empty() || std::isnan(v) || v <= 0 || noDur), "limit-sets:temporary-limit-refused", k.name + " name " + nm + " value " + S(v) + " duration " + std::to_string(dur) + " refused " + S(no));
                        if (no) { VCHECK(ad.hasTemporaryLimits() == !w.temps.empty(), "limit-sets:adder", k.name + " after a refusal"); continue; }
                        auto taken = [&](const std::string& x) { for (auto& y : w.temps) if (y.second.name == x) return true; return false; };
                        if (uniq) { std::string base = nm; for (ulong_t j = 0; taken(nm); ++j) nm = base + "#" + std::to_string(j); }
                        else if (taken(nm)) dup = true;
                        w.temps[dur] = Temp{nm, v, fict};
                        VCHECK(ad.hasTemporaryLimits(), "limit-sets:adder", k.name);
                    }
                    if (rng.chance(85)) { w.perm = rng.chance(10) ? rng.of({0.0, -1.0, NaN, Inf}) : rng.real(1, 1500); ad.setPermanentLimit(w.perm); }
                    bool no = refused([&] {
                        auto& x = ad.add();
                        VCHECK(&x == &k.get(t).get(), "limit-sets:returned", k.name);
                    });
                    return !no;
                };
                after = "define " + S(t);
                bool ok = t == LimitType::CURRENT ? fill(k.newC()) : t == LimitType::ACTIVE_POWER ? fill(k.newP()) : fill(k.newS());
                VCHECK(ok == (!dup && !(w.perm <= 0)), "limit-sets:refused", k.name + " " + text(w) + " duplicate names " + S(dup) + " accepted " + S(ok));
                if (ok) { l = w; R.count("limit_sets_defined"); } else R.count("limit_sets_refused");
                R.seen("cover", S(t) + S(ok) + S(dup) + S(static_cast<ulong_t>(w.temps.size())) + S(std::isnan(w.perm)) + (k.all ? "h" : "b"));
            }
        }
        judge(k, after);
        if (rng.chance(20)) for (auto& x : keepers) judge(x, after + " of " + k.name);
    }
}

// ---------------------------------------------------------------------------------------------------------------- P18
namespace {
struct QPoint { double lo, hi; };
struct Shape {              // reactive limits
    bool curve = false;
    double lo = -std::numeric_limits<double>::max(), hi = std::numeric_limits<double>::max();
    std::map<double, QPoint> points;
};
struct Step { double rho, r, x, g, b, alpha; };
struct Taps {
    long low = 0;
    std::vector<Step> steps;
    std::map<std::string, long> pos;         // per variant
};
struct Bank {
    bool linear = true;
    double b = 0, g = NaN;
    ulong_t max = 0;
    std::vector<std::pair<double, double>> sections;
    std::map<std::string, ulong_t> count;
};
}  // namespace

MODULE(characteristics) {
    Network n("net", "test");
    Gen g(n, rng.u64());
    g.exotic = rng.chance(30);
    auto& s = n.newSubstation().setId("S").add();
    auto& v = s.newVoltageLevel().setId("VL").setTopologyKind(TopologyKind::BUS_BREAKER).setNominalV(400).add();
    v.getBusBreakerView().newBus().setId("B").add();
    auto& vm = n.getVariantManager();
    auto& gen = v.newGenerator().setId("G").setBus("B").setConnectableBus("B").setEnergySource(EnergySource::HYDRO).setMinP(-1e9).setMaxP(1e9).setVoltageRegulatorOn(true).setTargetP(0).setTargetV(400).setTargetQ(0).add();
    auto& bat = v.newBattery().setId("BAT").setBus("B").setConnectableBus("B").setP0(0).setQ0(0).setMinP(-1e9).setMaxP(1e9).add();
    auto& vsc = v.newVscConverterStation().setId("VSC").setBus("B").setConnectableBus("B").setLossFactor(1).setVoltageRegulatorOn(true).setVoltageSetpoint(400).add();
    std::vector<ReactiveLimitsHolder*> holders = {&gen, &bat, &vsc};
    std::vector<Shape> shapes(3);
    auto num = [&]() { return g.exotic ? genAny(rng) : rng.chance(10) ? 0.0 : rng.real(-500, 500); };
    auto& twt = s.newTwoWindingsTransformer().setId("T2").setVoltageLevel1("VL").setVoltageLevel2("VL").setBus1("B").setConnectableBus1("B").setBus2("B").setConnectableBus2("B").setR(1).setX(1).setG(0).setB(0).setRatedU1(400).setRatedU2(200).add();
    auto a3 = s.newThreeWindingsTransformer();
    a3.setId("T3");
    a3.newLeg1().setVoltageLevel("VL").setBus("B").setConnectableBus("B").setR(1).setX(1).setG(0).setB(0).setRatedU(400).add();
    a3.newLeg2().setVoltageLevel("VL").setBus("B").setConnectableBus("B").setR(1).setX(1).setG(0).setB(0).setRatedU(200).add();
    a3.newLeg3().setVoltageLevel("VL").setBus("B").setConnectableBus("B").setR(1).setX(1).setG(0).setB(0).setRatedU(100).add();
    auto& t3 = a3.add();
    std::vector<RatioTapChangerHolder*> rh = {&twt, &t3.getLeg1(), &t3.getLeg2(), &t3.getLeg3()};
    std::vector<PhaseTapChangerHolder*> ph = {&twt, &t3.getLeg1(), &t3.getLeg2(), &t3.getLeg3()};
    std::vector<Taps> rt(4), pt(4);
    std::vector<ShuntCompensator*> shunts;
    std::vector<Bank> banks;
    auto newShunt = [&]() {
        Bank k;
        k.linear = rng.chance(50);
        auto ad = v.newShuntCompensator();
        ad.setId("SH" + std::to_string(shunts.size())).setBus("B").setConnectableBus("B");
        if (k.linear) {
            k.b = num();
            if (k.b == 0) k.b = 1;
            if (rng.chance(60)) k.g = num();
            k.max = rng.range(1, 9);
            auto m = ad.newLinearModel();
            m.setBPerSection(k.b).setMaximumSectionCount(k.max);
            if (!std::isnan(k.g)) m.setGPerSection(k.g);
            m.add();
        } else {
            int c = static_cast<int>(rng.range(1, 6));
            auto m = ad.newNonLinearModel();
            double lastG = 0;
            for (int i = 0; i < c; ++i) {
                double b = num(), gg = num();
                if (rng.chance(25) && i > 0) {      // the conductance of the previous section when it is not given
                    m.beginSection().setB(b).endSection();
                    gg = lastG;
                } else if (rng.chance(10) && i == 0) { m.beginSection().setB(b).endSection(); gg = 0; }
                else m.beginSection().setB(b).setG(gg).endSection();
                k.sections.emplace_back(b, gg);
                lastG = gg;
            }
            k.max = k.sections.size();
            m.add();
        }
        ulong_t c = rng.below(k.max + 1);
        ad.setSectionCount(c);
        ShuntCompensator& sh = ad.add();
        for (auto& id : variantIds(n)) k.count[id] = c;
        shunts.push_back(&sh);
        banks.push_back(k);
    };
    auto genStep = [&](bool phase) { return Step{g.exotic ? genPos(rng) : rng.real(0.8, 1.2), num(), num(), num(), num(), phase ? num() : 0}; };
    auto newTaps = [&](bool phase, size_t i) {
        Taps t;
        t.low = rng.range(-20, 20);
        int k = static_cast<int>(rng.range(1, 9));
        for (int j = 0; j < k; ++j) t.steps.push_back(genStep(phase));
        long pos = rng.range(t.low, t.low + k - 1);
        if (phase) {
            auto ad = ph[i]->newPhaseTapChanger();
            ad.setLowTapPosition(t.low).setTapPosition(pos).setRegulating(false).setRegulationMode(PhaseTapChanger::RegulationMode::FIXED_TAP);
            for (auto& x : t.steps) ad.beginStep().setRho(x.rho).setR(x.r).setX(x.x).setG(x.g).setB(x.b).setAlpha(x.alpha).endStep();
            ad.add();
        } else {
            auto ad = rh[i]->newRatioTapChanger();
            ad.setLowTapPosition(t.low).setTapPosition(pos).setRegulating(false).setLoadTapChangingCapabilities(true);
            for (auto& x : t.steps) ad.beginStep().setRho(x.rho).setR(x.r).setX(x.x).setG(x.g).setB(x.b).endStep();
            ad.add();
        }
        for (auto& id : variantIds(n)) t.pos[id] = pos;
        (phase ? pt : rt)[i] = t;
    };
    auto sameStep = [&](const Step& w, double rho, double r, double x, double gg, double b, double al) { return S(w.rho) == S(rho) && S(w.r) == S(r) && S(w.x) == S(x) && S(w.g) == S(gg) && S(w.b) == S(b) && S(w.alpha) == S(al); };
    // any tap changer
    auto judgeTaps = [&](auto& tc, Taps& w, const std::string& where, bool phase, auto alpha) {
        std::string cur = vm.getWorkingVariantId();
        long pos = w.pos[cur];
        std::string d = where + " variant " + cur + " position " + S(pos) + " low " + S(w.low) + " steps " + S(w.steps.size());
        VCHECK(tc.getTapPosition() == pos, "tap-position", d + " got " + S(tc.getTapPosition()));
        VCHECK(tc.getLowTapPosition() == w.low && tc.getHighTapPosition() == w.low + static_cast<long>(w.steps.size()) - 1 && tc.getStepCount() == w.steps.size(), "tap-range", d);
        auto is = [&](const auto& st, const Step& x) { return sameStep(x, st.getRho(), st.getR(), st.getX(), st.getG(), st.getB(), alpha(st)); };
        if (pos >= w.low && pos < w.low + static_cast<long>(w.steps.size())) VCHECK(is(tc.getCurrentStep(), w.steps[static_cast<size_t>(pos - w.low)]), "current-step", d);
        auto all = tc.getAllSteps();
        VCHECK(all.size() == w.steps.size(), "all-steps", d);
        for (size_t i = 0; i < w.steps.size(); ++i) {
            long p = w.low + static_cast<long>(i);
            VCHECK(is(tc.getStep(p), w.steps[i]), "step", d + " at " + S(p));
            auto it = all.find(p);
            VCHECK(it != all.end() && is(it->second.get(), w.steps[i]), "all-steps:step", d + " at " + S(p));
        }
        VCHECK(refused([&] { tc.getStep(w.low - 1); }), "step-below", d);
        VCHECK(refused([&] { tc.getStep(w.low + static_cast<long>(w.steps.size())); }), "step-above", d);
        R.count(phase ? "phase_tap_changers" : "ratio_tap_changers");
    };
    auto interpolate = [](const std::map<double, QPoint>& pts, double p, bool hi, long double& tol) -> long double {
        auto val = [&](const QPoint& q) { return static_cast<long double>(hi ? q.hi : q.lo); };
        auto it = pts.lower_bound(p);
        tol = 0;
        if (it != pts.end() && it->first == p) return val(it->second);
        if (it == pts.begin()) return val(it->second);
        if (it == pts.end()) return val(std::prev(it)->second);
        auto a = std::prev(it);
        long double q1 = val(a->second), q2 = val(it->second), p1 = a->first, p2 = it->first;
        tol = 1e-12L * (std::fabs(q1) + std::fabs(q2)) + 1e-300L + 1e-323L * std::fabs(p - p1);     // the slope may be subnormal
        return q1 + (q2 - q1) / (p2 - p1) * (p - p1);
    };
    auto judge1 = [&]() {
        std::string cur = vm.getWorkingVariantId();
        for (size_t i = 0; i < holders.size(); ++i) {
            const Shape& w = shapes[i];
            const auto& rl = holders[i]->getReactiveLimits<ReactiveLimits>();
            VCHECK((rl.getKind() == ReactiveLimitsKind::CURVE) == w.curve, "reactive-limits:kind", S((ulong_t)i));
            std::vector<double> ps = {0, num(), num(), Inf, -Inf};
            if (w.curve) {
                double lastP = NaN;
                for (auto& x : w.points) {
                    ps.push_back(x.first);
                    ps.push_back(std::nextafter(x.first, Inf));
                    ps.push_back(std::nextafter(x.first, -Inf));
                    if (!std::isnan(lastP)) { ps.push_back(lastP / 2 + x.first / 2); ps.push_back(lastP + (x.first - lastP) * rng.unit()); }
                    lastP = x.first;
                }
                const auto& c = holders[i]->getReactiveLimits<ReactiveCapabilityCurve>();
                VCHECK(c.getPointCount() == w.points.size() && c.getMinP() == w.points.begin()->first && c.getMaxP() == w.points.rbegin()->first, "curve:points", S((ulong_t)i));
                auto it = w.points.begin();
                for (const auto& x : c.getPoints()) {
                    if (it == w.points.end()) break;
                    VCHECK(S(x.getP()) == S(it->first) && S(x.getMinQ()) == S(it->second.lo) && S(x.getMaxQ()) == S(it->second.hi), "curve:point", S((ulong_t)i) + " " + S(x.getP()));
                    ++it;
                }
            }
            for (double p : ps) {
                if (std::isnan(p)) continue;
                double lo = rl.getMinQ(p), hi = rl.getMaxQ(p);
                R.count("reactive_values");
                if (!w.curve) { VCHECK(S(lo) == S(w.lo) && S(hi) == S(w.hi), "reactive-limits:bounds", S((ulong_t)i) + " at " + S(p)); continue; }
                long double tl, th;
                long double wl = interpolate(w.points, p, false, tl), wh = interpolate(w.points, p, true, th);
                std::string pts = " at " + S(p) + " of";
                for (auto& x : w.points) pts += " (" + S(x.first) + "," + S(x.second.lo) + "," + S(x.second.hi) + ")";
                // differences which overflow are out of reach of doubles
                if (std::fabs(wl) > 1e300L || std::fabs(wh) > 1e300L || w.points.rbegin()->first - w.points.begin()->first > 1e300) continue;
                bool slopes = true;
                for (auto& x : w.points) slopes = slopes && std::fabs(x.second.lo) < 1e150 && std::fabs(x.second.hi) < 1e150 && (x.first == 0 || std::fabs(x.first) > 1e-100);
                auto nx = w.points.lower_bound(p);
                if (nx != w.points.end() && nx != w.points.begin() && nx->first != p && !(nx->first - std::prev(nx)->first > 1e-100)) slopes = false;
                if (!slopes && tl != 0) continue;
                VCHECK(near(lo, wl, tl), "curve:min", S((double)wl) + " got " + S(lo) + pts);
                VCHECK(near(hi, wh, th), "curve:max", S((double)wh) + " got " + S(hi) + pts);
            }
        }
        for (size_t i = 0; i < rh.size(); ++i) {
            VCHECK(rh[i]->hasRatioTapChanger() == !rt[i].steps.empty(), "has-ratio-tap-changer", S((ulong_t)i));
            VCHECK(ph[i]->hasPhaseTapChanger() == !pt[i].steps.empty(), "has-phase-tap-changer", S((ulong_t)i));
            if (rh[i]->hasRatioTapChanger() && !rt[i].steps.empty()) judgeTaps(rh[i]->getRatioTapChanger(), rt[i], "ratio " + S((ulong_t)i), false, [](const RatioTapChangerStep&) { return 0.0; });
            if (ph[i]->hasPhaseTapChanger() && !pt[i].steps.empty()) judgeTaps(ph[i]->getPhaseTapChanger(), pt[i], "phase " + S((ulong_t)i), true, [](const PhaseTapChangerStep& x) { return x.getAlpha(); });
        }
        for (size_t i = 0; i < shunts.size(); ++i) {
            Bank& k = banks[i];
            ShuntCompensator& sh = *shunts[i];
            std::string d = sh.getId() + (k.linear ? " linear " : " non linear ") + "count " + S(k.count[cur]) + " of " + S(k.max);
            VCHECK(sh.getSectionCount() == k.count[cur] && sh.getMaximumSectionCount() == k.max, "sections", d + " got " + S(sh.getSectionCount()) + " of " + S(sh.getMaximumSectionCount()));
            VCHECK((sh.getModelType() == ShuntCompensatorModelType::LINEAR) == k.linear, "shunt-model", d);
            auto B = [&](ulong_t c) { return k.linear ? k.b * static_cast<double>(c) : c == 0 ? 0 : k.sections[c - 1].first; };
            auto G = [&](ulong_t c) { return k.linear ? (std::isnan(k.g) ? 0 : k.g * static_cast<double>(c)) : c == 0 ? 0 : k.sections[c - 1].second; };
            for (ulong_t c = 0; c <= k.max; ++c) VCHECK(S(sh.getB(c)) == S(B(c)) && S(sh.getG(c)) == S(G(c)), "shunt-value", d + " at " + S(c) + " b " + S(sh.getB(c)) + " g " + S(sh.getG(c)) + " expected " + S(B(c)) + " " + S(G(c)));
            VCHECK(S(sh.getB()) == S(B(k.count[cur])) && S(sh.getG()) == S(G(k.count[cur])), "shunt-current-value", d);
            VCHECK(refused([&] { sh.getB(k.max + 1); }) && refused([&] { sh.getG(k.max + 1); }), "shunt-beyond", d);
            R.count("shunt_values", k.max + 1);
        }
    };
    newShunt();
    newShunt();
    int steps = static_cast<int>(rng.range(20, 60));
    std::string shape;
    auto attempt = [&](const std::function<void()>& f) {
        try { f(); return true; } catch (const std::exception& e) { if (!isLibraryError(e)) throw; return false; }
    };
    for (int k = 0; k < steps; ++k) {
        std::string cur = vm.getWorkingVariantId();
        size_t i = rng.below(4);
        int what = static_cast<int>(rng.below(14));
        shape += static_cast<char>('a' + what);
        switch (what) {
            case 0: {
                size_t h = rng.below(3);
                Shape w;
                w.curve = rng.chance(70);
                if (!w.curve) {
                    double a = num(), b = num();
                    w.lo = std::min(a, b);
                    w.hi = std::max(a, b);
                    holders[h]->newMinMaxReactiveLimits().setMinQ(w.lo).setMaxQ(w.hi).add();
                } else {
                    auto ad = holders[h]->newReactiveCapabilityCurve();
                    int c = static_cast<int>(rng.range(2, 6));
                    while (static_cast<int>(w.points.size()) < c) {
                        double p = w.points.empty() || rng.chance(80) ? num() : std::nextafter(w.points.rbegin()->first, Inf);
                        if (std::isnan(p)) continue;
                        if (p == 0) p = 0.0;
                        if (w.points.count(p)) { VCHECK(refused([&] { ad.beginPoint().setP(p).setMinQ(0).setMaxQ(1).endPoint(); }), "curve:point-twice", S(p)); continue; }
                        double a = num(), b = num();
                        w.points[p] = QPoint{std::min(a, b), std::max(a, b)};
                        ad.beginPoint().setP(p).setMinQ(std::min(a, b)).setMaxQ(std::max(a, b)).endPoint();
                    }
                    ad.add();
                }
                shapes[h] = w;
                break;
            }
            case 1: newTaps(false, i); break;
            case 2: newTaps(true, i); break;
            case 3: case 4: {
                bool phase = what == 4;
                Taps& w = (phase ? pt : rt)[i];
                if (w.steps.empty()) break;
                long p = rng.range(w.low - 1, w.low + static_cast<long>(w.steps.size()));
                bool in = p >= w.low && p < w.low + static_cast<long>(w.steps.size());
                bool ok = attempt([&] { if (phase) ph[i]->getPhaseTapChanger().setTapPosition(p); else rh[i]->getRatioTapChanger().setTapPosition(p); });
                VCHECK(ok == in, "tap-position:verdict", S(p) + " low " + S(w.low));
                if (ok) w.pos[cur] = p;
                break;
            }
            case 5: case 6: {
                bool phase = what == 6;
                Taps& w = (phase ? pt : rt)[i];
                if (w.steps.empty()) break;
                long low = w.low + rng.range(-7, 7);
                if (phase) ph[i]->getPhaseTapChanger().setLowTapPosition(low); else rh[i]->getRatioTapChanger().setLowTapPosition(low);
                // every variant keeps its step
                for (auto& x : w.pos) x.second += low - w.low;
                w.low = low;
                break;
            }
            case 7: {
                bool phase = rng.chance(50);
                Taps& w = (phase ? pt : rt)[i];
                if (w.steps.empty()) break;
                size_t j = rng.below(w.steps.size());
                Step nw = genStep(phase);
                w.steps[j] = nw;
                long p = w.low + static_cast<long>(j);
                if (phase) { auto& st = ph[i]->getPhaseTapChanger().getStep(p); st.setRho(nw.rho).setR(nw.r).setX(nw.x).setG(nw.g).setB(nw.b).setAlpha(nw.alpha); }
                else { auto& st = rh[i]->getRatioTapChanger().getStep(p); st.setRho(nw.rho).setR(nw.r).setX(nw.x).setG(nw.g).setB(nw.b); }
                break;
            }
            case 8: {
                bool phase = rng.chance(50);
                Taps& w = (phase ? pt : rt)[i];
                if (w.steps.empty() || rng.chance(60)) break;
                if (phase) ph[i]->getPhaseTapChanger().remove(); else rh[i]->getRatioTapChanger().remove();
                w = Taps();
                break;
            }
            case 9: {
                size_t j = rng.below(shunts.size());
                Bank& b = banks[j];
                ulong_t c = rng.below(b.max + 2);
                bool ok = attempt([&] { shunts[j]->setSectionCount(c); });
                VCHECK(ok == (c <= b.max), "sections:verdict", S(c) + " of " + S(b.max));
                if (ok) b.count[cur] = c;
                break;
            }
            case 10: {
                size_t j = rng.below(shunts.size());
                Bank& b = banks[j];
                if (b.linear) {
                    auto& m = shunts[j]->getModel<ShuntCompensatorLinearModel>();
                    double x = num();
                    if (x != 0) { m.setBPerSection(x); b.b = x; }
                    if (rng.chance(50)) { b.g = rng.chance(20) ? NaN : num(); m.setGPerSection(b.g); }
                    if (rng.chance(40)) {
                        ulong_t mx = static_cast<ulong_t>(rng.range(1, 9));
                        bool can = true;
                        for (auto& c : b.count) can = can && c.second <= mx;
                        bool ok = attempt([&] { m.setMaximumSectionCount(mx); });
                        VCHECK(ok == can, "maximum-sections:verdict", S(mx));
                        if (ok) b.max = mx;
                    }
                } else {
                    auto& m = shunts[j]->getModel<ShuntCompensatorNonLinearModel>();
                    size_t j2 = rng.below(b.sections.size()), q = 0;
                    double x = num(), y = num();
                    for (auto& sec : m.getAllSections()) if (q++ == j2) { sec.setB(x); sec.setG(y); }
                    b.sections[j2] = {x, y};
                }
                break;
            }
            case 11: if (shunts.size() < 5) newShunt(); break;
            case 12: {
                auto ids = variantIds(n);
                if (ids.size() < 4 && rng.chance(60)) {
                    std::string src = rng.pick(ids), id = "v" + std::to_string(k);
                    vm.cloneVariant(src, id);
                    for (auto* ts : {&rt, &pt}) for (auto& w : *ts) w.pos[id] = w.pos[src];
                    for (auto& b : banks) b.count[id] = b.count[src];
                } else if (ids.size() > 1) {
                    std::string id = rng.pick(ids);
                    if (id == VariantManager::getInitialVariantId() || id == cur) break;
                    vm.removeVariant(id);
                    for (auto* ts : {&rt, &pt}) for (auto& w : *ts) w.pos.erase(id);
                    for (auto& b : banks) b.count.erase(id);
                }
                break;
            }
            default: vm.setWorkingVariant(rng.pick(variantIds(n))); break;
        }
        judge1();
        if (rng.chance(15)) {
            std::string w = vm.getWorkingVariantId();
            for (auto& id : variantIds(n)) { vm.setWorkingVariant(id); judge1(); }
            vm.setWorkingVariant(w);
        }
        if (R.violations > 30) return;
    }
    R.seen("cover", shape);
}
