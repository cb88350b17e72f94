// Random (object, attribute, value) choices over the attribute table, shared by the setter workloads.
#pragma once
#include "gen.hpp"
#include "oracle.hpp"

namespace vmon {
struct Pick {
    Handle h;
    const Attr* a = nullptr;
    double v = 0;
};
// every settable attribute of every handle, for classes given ("SV")
inline std::vector<Pick> settable(Network& n, const std::string& cls) {
    std::vector<Pick> r;
    const auto& tab = attrTable();
    forEachHandle(n, [&](const Handle& h) {
        auto it = tab.find(h.kind);
        if (it == tab.end()) return;
        for (const Attr& a : it->second) {
            if (!a.set) continue;
            if ((a.cls == Cls::S && cls.find('S') != std::string::npos) || (a.cls == Cls::V && cls.find('V') != std::string::npos)) r.push_back(Pick{h, &a, 0});
        }
    });
    std::sort(r.begin(), r.end(), [](const Pick& x, const Pick& y) { return x.h.key + "|" + x.h.kind + "." + x.a->name < y.h.key + "|" + y.h.kind + "." + y.a->name; });
    return r;
}
inline std::string pickName(const Pick& p) { return p.h.key + "." + p.a->name; }
inline std::vector<std::string> variantIds(Network& n) {
    std::vector<std::string> v;
    for (const auto& id : n.getVariantManager().getVariantIds()) v.push_back(id);
    return v;
}
inline std::string firstDiffKey(const std::string& d) {
    std::string k = d.substr(0, d.find(';'));
    k = k.substr(0, k.find(": "));
    auto p = k.rfind('.');
    return p == std::string::npos ? k : k.substr(p + 1);
}
// class of difference, stable over identifiers: name of the attribute
inline std::string attrOfKey(const std::string& key) {
    auto p = key.rfind('.');
    std::string s = p == std::string::npos ? key : key.substr(p + 1);
    return s.substr(0, s.find('{'));
}
inline std::vector<std::string> diffKeys(const DumpMap& a, const DumpMap& b) {
    std::vector<std::string> k;
    for (auto& x : a) { auto it = b.find(x.first); if (it == b.end() || it->second != x.second) k.push_back(x.first); }
    for (auto& x : b) if (!a.count(x.first)) k.push_back(x.first);
    return k;
}
}  // namespace vmon
namespace vmon {
// the values given to the last (accepted) creation are those the created object reports
inline void checkCreated(Gen& g, const std::string& P) {
    if (g.made.empty()) return;
    static const std::map<std::string, std::vector<std::string>> other = {
        {"loss", {"getLossFactor"}}, {"factor", {"getPowerFactor"}}, {"setpoint", {"getActivePowerSetpoint"}}, {"voltage", {"getVoltageSetpoint"}}, {"reactive", {"getReactivePowerSetpoint"}}, {"bMin", {"getBmin"}},
        {"bMax", {"getBmax"}}, {"b", {"getBPerSection"}}, {"section b", {"getB"}}, {"deadband", {"getTargetDeadband"}}, {"regValue", {"getRegulationValue"}}, {"step r", {"getR"}}, {"step x", {"getX"}}, {"step g", {"getG"}},
        {"step b", {"getB"}}, {"low", {"getLowVoltageLimit"}}, {"high", {"getHighVoltageLimit"}}, {"fp", {"getFixedActivePower"}}, {"fq", {"getFixedReactivePower"}}, {"vp", {"getVariableActivePower"}},
        {"vq", {"getVariableReactivePower"}}, {"q%", {"getQPercent"}}, {"opr1", {"getOprFromCS1toCS2"}}, {"opr2", {"getOprFromCS2toCS1"}}, {"p1", {"getXnodeP1"}}, {"q1", {"getXnodeQ1"}}, {"p2", {"getXnodeP2"}}, {"q2", {"getXnodeQ2"}}};
    auto id = g.n.find<iidm::Identifiable>(g.made.substr(0, g.made.find('/')));
    if (!id) {
        // identifiers may contain a slash, parts are only made in networks without
        id = g.n.find<iidm::Identifiable>(g.made);
        if (!id) { VCHECK(g.made.find('/') != std::string::npos, P + "created-not-found", g.desc); return; }
    }
    auto hs = handlesOf(id.get());
    auto ts = terminalsOf(id.get());
    if (g.places.size() == ts.size()) {
        for (size_t i = 0; i < ts.size(); ++i) {
            const Point& p = g.places[i];
            const iidm::Terminal& t = *ts[i];
            R.count("created_terminals");
            VCHECK(&t.getVoltageLevel() == p.vl, P + "created-at:voltage-level", g.desc);
            if (&t.getVoltageLevel() != p.vl) continue;
            if (p.nb) VCHECK(t.getNodeBreakerView().getNode() == p.node, P + "created-at:node", g.desc + " at node " + S(t.getNodeBreakerView().getNode()));
            else {
                auto cb = t.getBusBreakerView().getConnectableBus();
                VCHECK(static_cast<bool>(cb) && cb.get().getId() == p.bus, P + "created-at:bus", g.desc);
                VCHECK(t.isConnected() == p.connected, P + "created-at:connected", g.desc + " connected " + S(t.isConnected()));
            }
        }
    }
    std::map<std::string, std::vector<double>> given;
    for (auto& kv : g.a.given) given[kv.first].push_back(kv.second);
    for (auto& kv : given) {
        auto find = [&](const std::string& getter) {
            std::vector<std::pair<std::string, double>> r;
            for (auto& h : hs) {
                if (h.key.compare(0, g.made.size(), g.made) != 0) continue;
                auto it = attrTable().find(h.kind);
                if (it == attrTable().end()) continue;
                for (auto& a : it->second) if (a.name == getter && a.num) r.emplace_back(h.kind + "." + a.name, a.num(h.p));
            }
            return r;
        };
        std::string cap = kv.first;
        cap[0] = static_cast<char>(std::toupper(cap[0]));
        auto got = find("get" + cap);
        if (got.empty()) got = find("is" + cap);
        auto o = other.find(kv.first);
        if (got.empty() && o != other.end()) got = find(o->second[0]);
        if (got.size() != kv.second.size()) { R.count("created_values_unmatched"); continue; }
        for (size_t i = 0; i < got.size(); ++i) {
            R.count("created_values");
            VCHECK(S(got[i].second) == S(kv.second[i]), P + "created-value:" + got[i].first, g.desc + ": " + kv.first + " given " + S(kv.second[i]) + " reads " + S(got[i].second));
        }
    }
}
}  // namespace vmon
