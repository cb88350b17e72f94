// P20: traversals, visitors and terminal searches against an independent search over terminals, nodes, switches and buses.
#include "pick.hpp"
#include <powsybl/iidm/AbstractTerminalTopologyVisitor.hpp>
#include <powsybl/iidm/TopologyVisitor.hpp>
#include <powsybl/iidm/VoltageLevelTopologyTraverser.hpp>
#include <powsybl/iidm/util/Networks.hpp>
#include <powsybl/iidm/util/TerminalFinder.hpp>
using namespace vmon;
using namespace powsybl;
using iidm::Terminal;

namespace {
// stateless choices of a traverser
struct Choice {
    std::function<bool(const Terminal&)> term;
    std::function<bool(const iidm::Switch&)> sw;
    std::string text;
};
Choice choose(Rng& rng, bool stopAtTerminals) {
    Choice c;
    uint64_t salt = rng.u64();
    int tm = stopAtTerminals ? static_cast<int>(rng.range(0, 3)) : 0, sm = static_cast<int>(rng.range(0, 4));
    int pct = rng.of({5, 15, 40});
    c.text = "terminals " + S(tm) + " switches " + S(sm) + " pct " + S(pct);
    if (tm == 0) c.term = [](const Terminal&) { return true; };
    else if (tm == 1) c.term = [](const Terminal& t) { return t.isConnected(); };
    else if (tm == 2) c.term = [](const Terminal& t) { return dynamic_cast<const iidm::Line*>(&t.getConnectable().get()) == nullptr; };
    else c.term = [salt, pct](const Terminal& t) { return (hashStr(tname(t)) ^ salt) % 1009 % 100 >= static_cast<uint64_t>(pct); };
    if (sm <= 1) c.sw = [](const iidm::Switch&) { return true; };
    else if (sm == 2) c.sw = [](const iidm::Switch& s) { return !s.isOpen(); };
    else if (sm == 3) c.sw = [](const iidm::Switch& s) { return s.getKind() != iidm::SwitchKind::BREAKER; };
    else c.sw = [salt, pct](const iidm::Switch& s) { return (hashStr(s.getId()) ^ salt) % 1013 % 100 >= static_cast<uint64_t>(pct); };
    return c;
}
struct Recorder : iidm::VoltageLevel::TopologyTraverser {
    const Choice& c;
    std::map<const Terminal*, int> accepted, refused;
    std::map<const iidm::Switch*, int> switches;
    ulong_t calls = 0;
    bool flags = true;
    explicit Recorder(const Choice& choice) : c(choice) {}
    bool traverse(Terminal& t, bool connected) override {
        if (++calls > 200000) fatalViolation("traversal:endless", c.text);
        if (t.getVoltageLevel().getTopologyKind() == iidm::TopologyKind::BUS_BREAKER && connected != t.isConnected()) flags = false;
        bool r = c.term(t);
        (r ? accepted : refused)[&t]++;
        return r;
    }
    bool traverse(iidm::Switch& s) override {
        if (++calls > 200000) fatalViolation("traversal:endless", c.text);
        switches[&s]++;
        return c.sw(s);
    }
};

// places of a network: nodes of node/breaker levels, configured buses of bus/breaker levels
using Place = std::pair<const iidm::VoltageLevel*, std::string>;
struct PlaceGraph {
    struct Edge { Place to; iidm::Switch* sw; };
    std::map<Place, std::vector<Edge>> adj;
    std::map<Place, std::vector<Terminal*>> at;
    std::map<const Terminal*, Place> where;
    std::map<const Terminal*, std::vector<Terminal*>> others;
    std::map<const iidm::Switch*, std::pair<Place, Place>> ends;
};
PlaceGraph placeGraph(Network& n) {
    PlaceGraph g;
    for (iidm::VoltageLevel& v : n.getVoltageLevels()) {
        if (v.getTopologyKind() == iidm::TopologyKind::NODE_BREAKER) {
            auto& nb = v.getNodeBreakerView();
            for (iidm::Switch& s : nb.getSwitches()) {
                Place a(&v, S(nb.getNode1(s.getId()))), b(&v, S(nb.getNode2(s.getId())));
                g.adj[a].push_back({b, &s});
                g.adj[b].push_back({a, &s});
                g.ends[&s] = {a, b};
            }
            for (const auto& ic : nb.getInternalConnections()) {
                Place a(&v, S(ic.getNode1())), b(&v, S(ic.getNode2()));
                g.adj[a].push_back({b, nullptr});
                g.adj[b].push_back({a, nullptr});
            }
        } else {
            auto& bb = v.getBusBreakerView();
            for (iidm::Switch& s : bb.getSwitches()) {
                Place a(&v, bb.getBus1(s.getId()).get().getId()), b(&v, bb.getBus2(s.getId()).get().getId());
                g.adj[a].push_back({b, &s});
                g.adj[b].push_back({a, &s});
                g.ends[&s] = {a, b};
            }
        }
    }
    for (Terminal* t : allTerminals(n)) {
        const iidm::VoltageLevel* v = &t->getVoltageLevel();
        Place p(v, v->getTopologyKind() == iidm::TopologyKind::NODE_BREAKER ? S(t->getNodeBreakerView().getNode()) : t->getBusBreakerView().getConnectableBus().get().getId());
        g.where[t] = p;
        g.at[p].push_back(t);
        for (Terminal* o : terminalsOf(t->getConnectable())) if (o != t) g.others[t].push_back(o);
    }
    return g;
}
struct Reached {
    std::set<const Terminal*> accepted, refused;
    std::set<Place> places, asked;
    std::set<const iidm::Switch*> mustAsk, mayAsk;
};
Reached reference(PlaceGraph& g, Terminal& start, const Choice& c) {
    Reached r;
    std::vector<Place> todo;
    std::vector<Terminal*> ask{&start};
    auto reach = [&](const Place& p) { if (r.places.insert(p).second) todo.push_back(p); };
    std::function<bool(Terminal*)> askTerminal = [&](Terminal* t) {
        if (r.accepted.count(t)) return true;
        if (!c.term(*t)) { r.refused.insert(t); return false; }
        r.accepted.insert(t);
        for (Terminal* o : g.others[t]) ask.push_back(o);
        return true;
    };
    while (!todo.empty() || !ask.empty()) {
        if (!ask.empty()) {
            Terminal* t = ask.back();
            ask.pop_back();
            if (askTerminal(t)) reach(g.where[t]);
            continue;
        }
        Place p = todo.back();
        todo.pop_back();
        for (Terminal* t : g.at[p]) askTerminal(t);
        for (auto& e : g.adj[p]) {
            if (e.sw) {
                r.mayAsk.insert(e.sw);
                if (!c.sw(*e.sw)) continue;
            }
            bool pass = g.at[e.to].empty();
            for (Terminal* t : g.at[e.to]) if (askTerminal(t)) pass = true;
            if (pass) reach(e.to);
        }
    }
    for (auto& p : r.places) for (auto& e : g.adj[p]) if (e.sw && !r.places.count(e.to)) r.mustAsk.insert(e.sw);
    return r;
}
std::string names(const std::set<const Terminal*>& s) {
    std::string r;
    for (auto* t : s) { if (r.size() > 400) { r += " ..."; break; } r += " " + tname(*t); }
    return r;
}
std::string missing(const std::set<const Terminal*>& a, const std::set<const Terminal*>& b) {
    std::set<const Terminal*> m;
    for (auto* t : a) if (!b.count(t)) m.insert(t);
    return names(m);
}
template <typename K> std::set<const K*> keysOf(const std::map<const K*, int>& m) {
    std::set<const K*> r;
    for (auto& k : m) r.insert(k.first);
    return r;
}

void checkTraversal(PlaceGraph& g, Terminal& start, const Choice& c) {
    Recorder rec(c);
    start.traverse(rec);
    Reached ref = reference(g, start, c);
    std::string d = "from " + tname(start) + " " + c.text;
    R.count("traversals");
    R.count("traversed_terminals", rec.accepted.size());
    auto acc = keysOf(rec.accepted);
    VCHECK(acc == ref.accepted, "traversal:terminals", d + " missed" + missing(ref.accepted, acc) + " unexpected" + missing(acc, ref.accepted));
    for (auto& k : rec.accepted) VCHECK(k.second == 1, "traversal:twice", d + " " + tname(*k.first) + " visited " + S(k.second) + " times");
    auto ref2 = keysOf(rec.refused);
    VCHECK(ref2 == ref.refused, "traversal:stopped-terminals", d + " missed" + missing(ref.refused, ref2) + " unexpected" + missing(ref2, ref.refused));
    auto sws = keysOf(rec.switches);
    for (auto* s : sws) VCHECK(ref.mayAsk.count(s), "traversal:switch-unreachable", d + " " + s->getId());
    for (auto* s : ref.mustAsk) VCHECK(sws.count(s), "traversal:switch-missed", d + " " + s->getId());
    VCHECK(rec.flags, "traversal:connected-flag", d);
    std::set<const iidm::VoltageLevel*> vls;
    for (auto* t : acc) vls.insert(&t->getVoltageLevel());
    R.seen("cover", "traverse " + S((ulong_t)acc.size()) + " " + S((ulong_t)ref2.size()) + " " + S((ulong_t)sws.size()) + " levels " + S((ulong_t)vls.size()));
}

// nodes: traversal of a node/breaker view from a node
void checkNodes(Rng& rng, iidm::VoltageLevel& v, PlaceGraph& g) {
    auto& nb = v.getNodeBreakerView();
    std::vector<ulong_t> nodes;
    for (ulong_t x : nb.getNodes()) nodes.push_back(x);
    if (nodes.empty()) return;
    ulong_t start = rng.pick(nodes), salt = rng.u64();
    int pct = rng.of({0, 0, 20}), mode = static_cast<int>(rng.range(0, 2));
    auto pass = [&](const iidm::Switch* s, ulong_t to) { return !(s && ((mode == 1 && s->isOpen()) || (mode == 2 && s->isRetained()))) && (to * 2654435761u ^ salt) % 1009 % 100 >= static_cast<ulong_t>(pct); };
    std::set<std::string> ref{S(start)}, got{S(start)};
    std::vector<std::string> todo{S(start)};
    std::set<const iidm::Switch*> around;
    while (!todo.empty()) {
        std::string x = todo.back();
        todo.pop_back();
        for (auto& e : g.adj[Place(&v, x)]) {
            if (e.sw) around.insert(e.sw);
            if (pass(e.sw, std::stoul(e.to.second)) && ref.insert(e.to.second).second) todo.push_back(e.to.second);
        }
    }
    std::string d = v.getId() + " from node " + S(start) + " mode " + S(mode) + " pct " + S(pct);
    std::map<std::string, int> times;
    bool adjacent = true, order = true;
    nb.traverse(start, [&](ulong_t n1, const stdcxx::Reference<iidm::Switch>& sw, ulong_t n2) {
        if (!got.count(S(n1))) order = false;
        bool found = false;
        for (auto& e : g.adj[Place(&v, S(n1))]) if (e.to.second == S(n2) && e.sw == (sw ? &sw.get() : nullptr)) found = true;
        if (!found) adjacent = false;
        bool r = pass(sw ? &sw.get() : nullptr, n2);
        if (r) { got.insert(S(n2)); times[S(n2)]++; }
        return r;
    });
    R.count("node_traversals");
    VCHECK(got == ref, "nodes:reached", d + " reached " + S((ulong_t)got.size()) + " expected " + S((ulong_t)ref.size()));
    VCHECK(adjacent, "nodes:edge", d);
    VCHECK(order, "nodes:order", d);
    for (auto& k : times) VCHECK(k.second == 1 && k.first != S(start), "nodes:twice", d + " node " + k.first);
}

struct Visits : iidm::TopologyVisitor {
    std::vector<std::string> v;
    void visitBattery(const iidm::Battery& b) override { v.push_back("battery " + b.getId() + "#0"); }
    void visitBusbarSection(const iidm::BusbarSection& b) override { v.push_back("busbar " + b.getId() + "#0"); }
    void visitDanglingLine(const iidm::DanglingLine& b) override { v.push_back("dangling " + b.getId() + "#0"); }
    void visitGenerator(const iidm::Generator& b) override { v.push_back("generator " + b.getId() + "#0"); }
    void visitHvdcConverterStation(const iidm::HvdcConverterStation& b) override { v.push_back("station " + b.getId() + "#0"); }
    void visitLine(const iidm::Line& b, const iidm::Branch::Side& s) override { v.push_back("line " + b.getId() + "#" + (s == iidm::Branch::Side::ONE ? "0" : "1")); }
    void visitLoad(const iidm::Load& b) override { v.push_back("load " + b.getId() + "#0"); }
    void visitShuntCompensator(const iidm::ShuntCompensator& b) override { v.push_back("shunt " + b.getId() + "#0"); }
    void visitStaticVarCompensator(const iidm::StaticVarCompensator& b) override { v.push_back("svc " + b.getId() + "#0"); }
    void visitThreeWindingsTransformer(const iidm::ThreeWindingsTransformer& b, const iidm::ThreeWindingsTransformer::Side& s) override {
        v.push_back("3wt " + b.getId() + "#" + (s == iidm::ThreeWindingsTransformer::Side::ONE ? "0" : s == iidm::ThreeWindingsTransformer::Side::TWO ? "1" : "2"));
    }
    void visitTwoWindingsTransformer(const iidm::TwoWindingsTransformer& b, const iidm::Branch::Side& s) override { v.push_back("2wt " + b.getId() + "#" + (s == iidm::Branch::Side::ONE ? "0" : "1")); }
    std::vector<std::string> take() { auto r = v; v.clear(); std::sort(r.begin(), r.end()); return r; }
};
// visitors which see only terminals, only one kind, and nothing
struct TerminalVisits : iidm::AbstractTerminalTopologyVisitor {
    std::vector<const Terminal*> v;
    void visitTerminal(const Terminal& t) override { v.push_back(&t); }
    std::vector<std::string> take();
};
struct LoadVisits : iidm::TopologyVisitor {
    std::vector<const iidm::Load*> v;
    void visitLoad(const iidm::Load& l) override { v.push_back(&l); }
};
std::string visitName(const Terminal& t) {
    const iidm::Connectable& c = t.getConnectable().get();
    auto is = [&](auto* p) { return dynamic_cast<decltype(p)>(&c) != nullptr; };
    std::string k = is((const iidm::Battery*)0) ? "battery" : is((const iidm::BusbarSection*)0) ? "busbar" : is((const iidm::DanglingLine*)0) ? "dangling" : is((const iidm::Generator*)0) ? "generator"
        : is((const iidm::HvdcConverterStation*)0) ? "station" : is((const iidm::Line*)0) ? "line" : is((const iidm::Load*)0) ? "load" : is((const iidm::ShuntCompensator*)0) ? "shunt"
        : is((const iidm::StaticVarCompensator*)0) ? "svc" : is((const iidm::ThreeWindingsTransformer*)0) ? "3wt" : is((const iidm::TwoWindingsTransformer*)0) ? "2wt" : "?";
    return k + " " + tname(t);
}
std::vector<std::string> visitNames(const std::vector<const Terminal*>& ts) {
    std::vector<std::string> r;
    for (auto* t : ts) r.push_back(visitName(*t));
    std::sort(r.begin(), r.end());
    return r;
}
std::vector<std::string> TerminalVisits::take() { auto r = visitNames(v); v.clear(); return r; }
std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) { if (s.size() > 500) break; s += " " + x + ";"; } return s; }

int rank(const Terminal& t) {
    const iidm::Connectable& c = t.getConnectable().get();
    if (dynamic_cast<const iidm::BusbarSection*>(&c)) return 0;
    if (dynamic_cast<const iidm::Injection*>(&c)) return 1;
    if (dynamic_cast<const iidm::Branch*>(&c)) return 2;
    if (dynamic_cast<const iidm::ThreeWindingsTransformer*>(&c)) return 3;
    return 4;
}
void checkFinder(iidm::Bus& b, const std::string& d) {
    const iidm::Bus& cb = b;
    const Terminal *best = nullptr, *last = nullptr, *first = nullptr;
    for (const Terminal& t : cb.getConnectedTerminals()) {
        if (best == nullptr || rank(t) < rank(*best)) best = &t;
        if (last == nullptr || tname(*last) < tname(t)) last = &t;
        if (first == nullptr || tname(t) < tname(*first)) first = &t;
    }
    auto is = [&](auto f, const Terminal* want, const char* what) { VCHECK((!f ? nullptr : &f.get()) == want, "finder", d + " " + what + (f ? " found " + tname(f.get()) : " none") + (want ? " expected " + tname(*want) : "")); };
    auto up = [](const Terminal& x, const Terminal& y) { return tname(x) < tname(y); };
    auto down = [](const Terminal& x, const Terminal& y) { return tname(y) < tname(x); };
    is(iidm::TerminalFinder::find(cb.getConnectedTerminals()), best, "default");
    is(iidm::TerminalFinder::find(b.getConnectedTerminals()), best, "default, editable");
    is(iidm::TerminalFinder::find(up, cb.getConnectedTerminals()), last, "last name");
    is(iidm::TerminalFinder::find(up, b.getConnectedTerminals()), last, "last name, editable");
    is(iidm::TerminalFinder::find(down, cb.getConnectedTerminals()), first, "first name");
    is(iidm::TerminalFinder::find(down, b.getConnectedTerminals()), first, "first name, editable");
    R.count("finders");
}
void checkVisitors(Network& n, const PlaceGraph& g, const RefTopo& ref) {
    Visits vis;
    TerminalVisits tv;
    std::map<const iidm::VoltageLevel*, std::vector<const Terminal*>> byLevel;
    std::map<Place, std::vector<const Terminal*>> byPlace;
    for (auto& k : g.where) { byLevel[k.second.first].push_back(k.first); byPlace[k.second].push_back(k.first); }
    for (iidm::VoltageLevel& v : n.getVoltageLevels()) {
        v.visitEquipments(vis);
        auto got = vis.take(), want = visitNames(byLevel[&v]);
        R.count("visits", got.size());
        VCHECK(got == want, "visit:level", v.getId() + " got" + join(got) + " expected" + join(want));
        v.visitEquipments(tv);
        got = tv.take();
        VCHECK(got == want, "visit:terminals", v.getId() + " got" + join(got) + " expected" + join(want));
        LoadVisits lv;
        v.visitEquipments(lv);
        ulong_t loads = 0;
        for (auto& x : want) loads += x.compare(0, 5, "load ") == 0;
        VCHECK(lv.v.size() == loads, "visit:one-kind", v.getId() + " " + S((ulong_t)lv.v.size()) + " of " + S(loads));
        iidm::TopologyVisitor none;
        v.visitEquipments(none);
        R.seen("cover", "visit " + S((ulong_t)got.size()) + " " + S(hashStr(join(want)) % 4096));
    }
    for (int view = 0; view < 2; ++view) {
        for (const Group& gr : view ? ref.bb : ref.bus) {
            if (!gr.valid || gr.tset.empty()) continue;
            Terminal* t = const_cast<Terminal*>(*gr.tset.begin());
            auto b = view ? t->getBusBreakerView().getBus() : t->getBusView().getBus();
            std::string d = "bus of " + tname(*t) + (view ? " bus/breaker" : " bus");
            VCHECK(static_cast<bool>(b), "visit:no-bus", d);
            if (!b) continue;
            b.get().visitConnectedEquipments(vis);
            auto got = vis.take();
            std::vector<const Terminal*> w(gr.tset.begin(), gr.tset.end());
            auto want = visitNames(w);
            R.count("visits", got.size());
            VCHECK(got == want, "visit:bus-connected", d + " got" + join(got) + " expected" + join(want));
            b.get().visitConnectedEquipments(tv);
            got = tv.take();
            VCHECK(got == want, "visit:terminals", d + " got" + join(got) + " expected" + join(want));
            checkFinder(b.get(), d);
            int best = 99;
            for (auto* x : gr.tset) best = std::min(best, rank(*x));
            auto f = iidm::TerminalFinder::find(stdcxx::const_range<Terminal>(b.get().getConnectedTerminals()));
            VCHECK(f && gr.tset.count(&f.get()) && rank(f.get()) == best, "finder", d + (f ? " found " + tname(f.get()) : " none"));
            b.get().visitConnectedOrConnectableEquipments(vis);
            got = vis.take();
            if (gr.vl->getTopologyKind() == iidm::TopologyKind::BUS_BREAKER) {
                w.clear();
                for (auto& m : gr.members) { auto it = byPlace.find(Place(gr.vl, m)); if (it != byPlace.end()) w.insert(w.end(), it->second.begin(), it->second.end()); }
                want = visitNames(w);
            }
            VCHECK(got == want, "visit:bus-connectable", d + " got" + join(got) + " expected" + join(want));
        }
    }
}

void checkSearches(Network& n, PlaceGraph& g, const RefTopo& ref) {
    for (iidm::VoltageLevel& v : n.getVoltageLevels()) {
        if (v.getTopologyKind() != iidm::TopologyKind::NODE_BREAKER) {
            bool e1 = refused([&]() { iidm::Networks::getNodesByBus(v); }), e2 = refused([&]() { iidm::Networks::getEquivalentTerminal(v, 0); });
            VCHECK(e1 && e2, "nodes-by-bus:bus-breaker", v.getId());
            continue;
        }
        auto& nb = v.getNodeBreakerView();
        std::map<std::string, std::set<ulong_t>> want;
        for (const Group& gr : ref.bus) {
            if (gr.vl != &v || !gr.valid || gr.tset.empty()) continue;
            auto b = const_cast<Terminal*>(*gr.tset.begin())->getBusView().getBus();
            if (!b) continue;
            for (auto& m : gr.members) want[b.get().getId()].insert(std::stoul(m));
        }
        auto got = iidm::Networks::getNodesByBus(v);
        R.count("nodes_by_bus");
        VCHECK(got == want, "nodes-by-bus", v.getId() + " " + S((ulong_t)got.size()) + " buses, expected " + S((ulong_t)want.size()));
        for (ulong_t x : nb.getNodes()) {
            // search stopping at the first terminals
            std::set<std::string> seen{S(x)};
            std::vector<std::string> todo{S(x)};
            std::set<const Terminal*> cand;
            while (!todo.empty()) {
                std::string y = todo.back();
                todo.pop_back();
                for (auto& e : g.adj[Place(&v, y)]) {
                    if ((e.sw && e.sw->isOpen()) || !seen.insert(e.to.second).second) continue;
                    auto& at = g.at[Place(&v, e.to.second)];
                    if (at.empty()) todo.push_back(e.to.second);
                    else cand.insert(at.begin(), at.end());
                }
            }
            auto t = iidm::Networks::getEquivalentTerminal(v, x);
            R.count("equivalent_terminals");
            VCHECK(static_cast<bool>(t) == !cand.empty() && (!t || cand.count(&t.get())), "equivalent-terminal", v.getId() + " node " + S(x) + (t ? " got " + tname(t.get()) : " none") + " candidates" + names(cand));
        }
    }
}
}  // namespace

// P20
MODULE(traversals) {
    Network n("net", "test");
    Gen g(n, rng.u64());
    if (rng.chance(25)) g.bbAllowed = false;
    else if (rng.chance(30)) g.nbAllowed = false;
    g.build(rng, static_cast<int>(rng.range(6, C.thorough ? 45 : 28)));
    n.getVariantManager().setWorkingVariant(n.getVariantManager().getInitialVariantId());
    int rounds = static_cast<int>(rng.range(3, 7));
    for (int i = 0; i < rounds; ++i) {
        for (int k = static_cast<int>(rng.range(1, 6)); k > 0; --k) {
            g.random(rng, rng.of({"t", "t", "c", "v", "r", "ct"}), 0);
            logOp(g.desc);
        }
        try { n.getVariantManager().getWorkingVariantId(); } catch (const std::exception&) { n.getVariantManager().setWorkingVariant(n.getVariantManager().getInitialVariantId()); }
        PlaceGraph pg = placeGraph(n);
        RefTopo ref = referenceTopo(n);
        auto ts = allTerminals(n);
        if (ts.empty()) continue;
        for (int k = 0; k < 6; ++k) {
            Choice c = choose(rng, rng.chance(60));
            checkTraversal(pg, *rng.pick(ts), c);
        }
        for (iidm::VoltageLevel& v : n.getVoltageLevels()) if (v.getTopologyKind() == iidm::TopologyKind::NODE_BREAKER) checkNodes(rng, v, pg);
        checkVisitors(n, pg, ref);
        checkSearches(n, pg, ref);
    }
}
