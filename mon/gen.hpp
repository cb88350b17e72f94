// Seeded random workloads over the public API: every operation is a function of (network state, sub-seed, Args).
// Args can replace one argument by a value known to be unacceptable, so the same operation can be run refused first and
// accepted afterwards.
#pragma once
#include "model.hpp"

namespace vmon {

struct Skip {};   // the operation has no applicable target in the current state

struct Args {
    long hit = -1;             // index of the argument to replace
    long idx = 0;
    std::string hitName;
    Rng bad{1};
    std::vector<std::pair<std::string, double>> given;   // numeric arguments in the order they were given
    bool sel(const char* name) { bool s = idx++ == hit; if (s) hitName = name; return s; }
    double d(const char* name, double v, std::vector<double> bads = {NaN}) { given.emplace_back(name, v); return sel(name) ? bads[bad.below(bads.size())] : v; }
    // optional argument, never replaced
    double o(const char* name, double v) { given.emplace_back(name, v); return v; }
    std::string s(const char* name, const std::string& v, const std::vector<std::string>& bads) { return !bads.empty() && sel(name) ? bads[bad.below(bads.size())] : v; }
    ulong_t u(const char* name, ulong_t v, const std::vector<ulong_t>& bads) { return !bads.empty() && sel(name) ? bads[bad.below(bads.size())] : v; }
    bool skip(const char* name) { return sel(name); }
};

struct Point {
    iidm::VoltageLevel* vl = nullptr;
    bool nb = false;
    ulong_t node = 0;
    std::string bus;
    bool connected = true;
};

void removeExtensionByName(iidm::Identifiable& o, const std::string& name);

class Gen {
public:
    struct OpDef {
        std::string name;
        char cat;              // c create, t topology, r remove, s set, v variants, a alias/property, x extension, X remove extension
        std::function<void(Gen&)> fn;
    };
    Network& n;
    Rng r;
    Args a;
    std::string desc;          // description of the last operation
    std::vector<Point> places; // connection points given to the last operation
    std::string made;          // key of the object or part created by the last operation
    std::string mark;          // put in every identifier, name, alias, operator and geographical tag
    bool nbAllowed = true, bbAllowed = true;
    int fmt = 5;               // minor version of the format whose features are used
    int weird = 0;             // 1: identifiers and names with XML special / non ASCII characters
    bool exotic = true;        // exotic floating point values
    bool busState = true;      // the state of parts of the calculated buses may be written
    std::vector<std::string> reuse;   // names which were used in the past and must be usable again
    Network foreign;           // owner of terminals that belong to another network

    Gen(Network& net, uint64_t seed);

    static const std::vector<OpDef>& ops();
    static const OpDef& op(const std::string& name);
    // runs one operation; throws what the library throws, or Skip
    void run(const OpDef& o, uint64_t sub, long hit = -1);
    // random operation among categories; returns false on Skip. Refusals by the library are swallowed when they are library errors
    bool random(Rng& rng, const std::string& cats, int badPct = 0);
    // network of roughly the given size
    void build(Rng& rng, int size);

    // helpers shared by operations and modules
    template <typename T> std::vector<T*> all() {
        std::vector<T*> v;
        for (iidm::Identifiable& id : n.getIdentifiables()) {
            if (auto* p = dynamic_cast<T*>(&id)) v.push_back(p);
        }
        std::sort(v.begin(), v.end(), [](T* x, T* y) { return x->getId() < y->getId(); });
        return v;
    }
    template <typename T> T& one() { auto v = all<T>(); if (v.empty()) throw Skip(); return *v[r.below(v.size())]; }
    template <typename T> T* opt() { auto v = all<T>(); return v.empty() ? nullptr : v[r.below(v.size())]; }
    iidm::VoltageLevel& vl(int kind = -1);    // 0 node/breaker, 1 bus/breaker
    std::string newId(const char* prefix);
    std::string text();
    std::string name();
    double val();
    double pos();
    double volt();
    Point point(iidm::VoltageLevel* in = nullptr);
    iidm::Terminal* terminal();
    iidm::Terminal& foreignTerminal();
    std::vector<std::string> badIds();
    void note(const std::string& s) { desc += s; }

    template <typename A> void ident(A& adder, const char* prefix) {
        std::string id = newId(prefix);
        note(" " + id);
        made = id;
        adder.setId(a.s("id", id, badIds()));
        if (r.chance(40)) adder.setName(name());
        if (r.chance(10)) adder.setFictitious(true);
    }
    template <typename A> void place(A& adder, const Point& p) {
        places.push_back(p);
        note(" in " + p.vl->getId() + (p.nb ? "@" + std::to_string(p.node) : "@" + p.bus));
        if (p.nb) {
            adder.setNode(a.u("node", p.node, usedNodes(*p.vl)));
            if (a.skip("bus+node")) adder.setBus("whatever");
        } else {
            bool miss = a.skip("no bus");
            if (!miss) {
                if (a.skip("conflicting bus")) { adder.setBus(p.bus); adder.setConnectableBus(p.bus + "_"); return; }
                else if (p.connected) adder.setBus(a.s("bus", p.bus, {"unknown-bus", p.vl->getId()}));
                if (!p.connected || r.chance(50)) adder.setConnectableBus(a.s("cbus", p.bus, {"unknown-bus"}));
            }
            if (a.skip("node in bb")) adder.setNode(3);
        }
    }
    template <typename A> void placeSide(A& adder, const Point& p, int side, Point* same = nullptr) {
        places.push_back(p);
        note(" side" + std::to_string(side) + " " + p.vl->getId() + (p.nb ? "@" + std::to_string(p.node) : "@" + p.bus));
        std::string v = a.s("vlId", p.vl->getId(), {"", "unknown-vl"});
        std::vector<ulong_t> used = p.nb ? usedNodes(*p.vl) : std::vector<ulong_t>();
        if (same && same->vl == p.vl) { for (int i = 0; i < 3; ++i) used.push_back(same->node); }
        if (side == 1) {
            adder.setVoltageLevel1(v);
            if (p.nb) adder.setNode1(a.u("node1", p.node, used));
            else if (!a.skip("no bus1")) { if (p.connected) adder.setBus1(a.s("bus1", p.bus, {"unknown-bus"})); adder.setConnectableBus1(a.s("cbus1", p.bus, {"unknown-bus", "x"})); }
        } else {
            adder.setVoltageLevel2(v);
            if (p.nb) adder.setNode2(a.u("node2", p.node, used));
            else if (!a.skip("no bus2")) { if (p.connected) adder.setBus2(a.s("bus2", p.bus, {"unknown-bus"})); adder.setConnectableBus2(a.s("cbus2", p.bus, {"unknown-bus", "x"})); }
        }
    }
    static std::vector<ulong_t> usedNodes(iidm::VoltageLevel& v);
    void reactiveLimits(iidm::ReactiveLimitsHolder& h);
    template <typename H> void flowLimits(H& h, int kind);
    void stepsRtc(iidm::RatioTapChangerHolder& h);
    void stepsPtc(iidm::PhaseTapChangerHolder& h);
};

}  // namespace vmon
