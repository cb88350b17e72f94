// P08: connecting and disconnecting terminals, judged against the switch graph recomputed from the switches.
#include "pick.hpp"
#include "oracle.hpp"
#include <powsybl/iidm/BusbarSectionAdder.hpp>
#include <powsybl/iidm/LineAdder.hpp>
#include <powsybl/iidm/LoadAdder.hpp>
#include <powsybl/iidm/GeneratorAdder.hpp>
#include <powsybl/iidm/SubstationAdder.hpp>
#include <powsybl/iidm/VoltageLevelAdder.hpp>
#include <powsybl/iidm/SwitchAdder.hpp>
#include <queue>
using namespace vmon;
using namespace powsybl::iidm;

namespace {
struct Edge { std::string id; ulong_t a, b; int kind; bool open; };   // kind 0 breaker, 1 disconnector, 2 load break switch, 3 internal connection
struct Graph {
    std::vector<Edge> edges;
    std::set<ulong_t> bbs;
};
Graph graphOf(const VoltageLevel& vl, Network& n) {
    Graph g;
    for (const Switch& s : vl.getNodeBreakerView().getSwitches()) {
        int k = s.getKind() == SwitchKind::BREAKER ? 0 : s.getKind() == SwitchKind::DISCONNECTOR ? 1 : 2;
        g.edges.push_back({s.getId(), vl.getNodeBreakerView().getNode1(s.getId()), vl.getNodeBreakerView().getNode2(s.getId()), k, s.isOpen()});
    }
    for (const auto& ic : vl.getNodeBreakerView().getInternalConnections()) g.edges.push_back({"", ic.getNode1(), ic.getNode2(), 3, false});
    for (BusbarSection& b : n.getBusbarSections()) {
        const Terminal& t = b.getTerminal();
        if (&t.getVoltageLevel() == &vl) g.bbs.insert(t.getNodeBreakerView().getNode());
    }
    return g;
}
std::map<ulong_t, int> distances(const Graph& g, ulong_t from, const std::function<bool(const Edge&)>& use, bool throughBbs) {
    std::map<ulong_t, int> d;
    d[from] = 0;
    std::queue<ulong_t> q;
    q.push(from);
    while (!q.empty()) {
        ulong_t v = q.front();
        q.pop();
        if (!throughBbs && v != from && g.bbs.count(v)) continue;
        for (auto& e : g.edges) {
            if (!use(e) || (e.a != v && e.b != v)) continue;
            ulong_t w = e.a == v ? e.b : e.a;
            if (!d.count(w)) { d[w] = d[v] + 1; q.push(w); }
        }
    }
    return d;
}
int nearest(const Graph& g, ulong_t from, const std::map<ulong_t, int>& d) {
    int best = -1;
    for (ulong_t b : g.bbs) if (b != from && d.count(b) && (best < 0 || d.at(b) < best)) best = d.at(b);
    return best;
}
// is there a path of length len (by layers of d) to a busbar section using only allowed edges and all the edges of must
bool layered(const Graph& g, ulong_t from, int len, const std::map<ulong_t, int>& d, const std::function<bool(const Edge&)>& ok, const std::set<std::string>& must) {
    std::set<ulong_t> cur = {from};
    size_t used = 0;
    for (int i = 0; i < len; ++i) {
        std::vector<std::pair<ulong_t, ulong_t>> steps, forced;
        std::set<std::string> forcedIds;
        for (auto& e : g.edges) {
            for (int k = 0; k < 2; ++k) {
                ulong_t v = k ? e.b : e.a, w = k ? e.a : e.b;
                auto dv = d.find(v), dw = d.find(w);
                if (dv == d.end() || dw == d.end() || dv->second != i || dw->second != i + 1) continue;
                if (!e.id.empty() && must.count(e.id)) { forced.emplace_back(v, w); forcedIds.insert(e.id); }
                else if (ok(e)) steps.emplace_back(v, w);
            }
        }
        if (forcedIds.size() > 1) return false;
        used += forcedIds.size();
        std::set<ulong_t> next;
        for (auto& s : forced.empty() ? steps : forced) if (cur.count(s.first) && (i + 1 == len || !g.bbs.count(s.second))) next.insert(s.second);
        cur = next;
    }
    if (used != must.size()) return false;
    for (ulong_t v : cur) if (g.bbs.count(v) && v != from) return true;
    return false;
}
std::map<std::string, bool> busTerminalStates(Network& n) {
    std::map<std::string, bool> m;
    eachVariant(n, [&](const std::string& v) {
        for (Terminal* t : allTerminals(n)) if (t->getVoltageLevel().getTopologyKind() == TopologyKind::BUS_BREAKER) m[v + "@" + tname(*t)] = t->isConnected();
    });
    return m;
}
void judge(Network& n, Terminal& t, bool con) {
    std::string what = std::string(con ? "connect " : "disconnect ") + tname(t);
    VoltageLevel& vl = t.getVoltageLevel();
    bool nb = vl.getTopologyKind() == TopologyKind::NODE_BREAKER;
    std::string var = n.getVariantManager().getWorkingVariantId();
    DumpMap before = dumpAll(n, DS | DV);
    auto flags = busTerminalStates(n);
    bool was = t.isConnected();
    Graph g;
    if (nb) g = graphOf(vl, n);
    bool res = con ? t.connect() : t.disconnect();
    logOp(what + (res ? " -> true" : " -> false"));
    R.count(con ? (res ? "connect_true" : "connect_false") : (res ? "disconnect_true" : "disconnect_false"));
    DumpMap after = dumpAll(n, DS | DV);
    auto flags2 = busTerminalStates(n);
    std::string op = con ? "connect" : "disconnect";
    if (!nb) {
        VCHECK(res == (was != con), op + ":bus:result", what + " was " + S(was) + " returned " + S(res));
        VCHECK(t.isConnected() == con, op + ":bus:state", what);
        flags[var + "@" + tname(t)] = con;
        VCHECK(flags == flags2, op + ":bus:others", what);
        std::string cb = static_cast<const Terminal&>(t).getBusBreakerView().getConnectableBus().get().getId();
        std::string d = diff(before, after, [&](const std::string& k) { return k == var + "@" + cb + ".terminals" || k == var + "@" + tname(t) + ".connection"; });
        VCHECK(d.empty(), op + ":bus:changes", what + ": " + d);
        R.seen("cover", op + "/bus/" + S(was) + S(res));
        return;
    }
    VCHECK(flags == flags2, op + ":node:other-levels", what);
    std::set<std::string> changed;
    for (auto& k : diffKeys(before, after)) {
        bool ok = false;
        for (auto& e : g.edges) {
            if (!e.id.empty() && k == var + "@" + e.id + ".isOpen") {
                ok = true;
                changed.insert(e.id);
                VCHECK(e.kind == 0, op + ":operates-a-non-breaker", what + " changed " + e.id);
                VCHECK(e.open == con, op + ":wrong-direction", what + " changed " + e.id);
            }
        }
        VCHECK(ok, op + ":changes-something-else", what + " changed " + k);
    }
    ulong_t node = t.getNodeBreakerView().getNode();
    auto notOpenDisc = [](const Edge& e) { return !(e.kind == 1 && e.open); };
    auto d = distances(g, node, notOpenDisc, false);
    int len = nearest(g, node, d);
    if (con) {
        if (was || len < 0) {
            VCHECK(!res, was ? "connect:already-connected" : "connect:unreachable", what);
        } else {
            bool anyWithoutOpenBreaker = layered(g, node, len, d, [&](const Edge& e) { return notOpenDisc(e) && !(e.kind == 0 && e.open); }, {});
            if (!anyWithoutOpenBreaker) VCHECK(res, "connect:must-succeed", what + " every shortest path to a busbar section has an open breaker");
            if (res) {
                bool onPath = layered(g, node, len, d, [&](const Edge& e) { return notOpenDisc(e) && !(e.kind == 0 && e.open); }, changed);
                VCHECK(onPath, "connect:not-a-shortest-path", what);
                bool lbs = layered(g, node, len, d, notOpenDisc, {}) && !layered(g, node, len, d, [&](const Edge& e) { return notOpenDisc(e) && !(e.kind == 2 && e.open); }, changed);
                bool anyOpenLbs = false;
                for (auto& e : g.edges) anyOpenLbs = anyOpenLbs || (e.kind == 2 && e.open);
                if (!anyOpenLbs) {
                    Graph g2 = graphOf(vl, n);
                    auto r2 = distances(g2, node, [](const Edge& e) { return !e.open; }, true);
                    VCHECK(nearest(g2, node, r2) > 0, "connect:not-joined", what);
                }
                (void)lbs;
            }
        }
        VCHECK(res == !changed.empty(), "connect:reports", what + " returned " + S(res) + " and closed " + S((ulong_t)changed.size()));
    } else {
        auto dn = distances(g, node, [&](const Edge& e) { return notOpenDisc(e) && e.kind != 0; }, false);
        bool expected = was && len > 0 && nearest(g, node, dn) < 0;
        VCHECK(res == expected, "disconnect:result", what + " was " + S(was) + " distance " + S(len) + " returned " + S(res));
        if (!was || len < 0) VCHECK(changed.empty(), "disconnect:nothing-to-do", what);
        for (auto& e : g.edges) {
            if (!changed.count(e.id) || e.id.empty()) continue;
            VCHECK(dn.count(e.a) || dn.count(e.b), "disconnect:breaker-not-first", what + " opened " + e.id);
        }
        if (res) {
            Graph g2 = graphOf(vl, n);
            auto r2 = distances(g2, node, [](const Edge& e) { return !e.open; }, true);
            VCHECK(nearest(g2, node, r2) < 0, "disconnect:still-joined", what);
        }
    }
    R.seen("cover", op + "/" + S(was) + S(res) + "/" + S(len) + "/" + S((ulong_t)changed.size()) + "/" + S((ulong_t)g.edges.size()) + "/" + S((ulong_t)g.bbs.size()));
    R.count("switches_operated", changed.size());
}
// one voltage level with an arbitrary small switch graph
void wild(Network& n, Rng& rng) {
    auto sub = n.newSubstation().setId("WS").add().getId();
    for (int k = 0; k < 2; ++k) {
        VoltageLevel& vl = n.getSubstation(sub).newVoltageLevel().setId("WVL" + std::to_string(k)).setTopologyKind(TopologyKind::NODE_BREAKER).setNominalV(100).add();
        int nodes = static_cast<int>(rng.range(3, 11));
        std::vector<ulong_t> free;
        for (int i = 0; i < nodes; ++i) free.push_back(static_cast<ulong_t>(i * (rng.chance(10) ? 3 : 1)));
        std::sort(free.begin(), free.end());
        free.erase(std::unique(free.begin(), free.end()), free.end());
        std::vector<ulong_t> all = free;
        auto take = [&]() { size_t i = rng.below(free.size()); ulong_t v = free[i]; free.erase(free.begin() + static_cast<long>(i)); return v; };
        int nb = static_cast<int>(rng.range(1, std::min(3, nodes - 2)));
        for (int i = 0; i < nb; ++i) vl.getNodeBreakerView().newBusbarSection().setId("WBBS" + std::to_string(k) + std::to_string(i)).setNode(take()).add();
        int terms = static_cast<int>(rng.range(1, static_cast<long>(free.size())));
        for (int i = 0; i < terms; ++i) {
            std::string s = std::to_string(k) + std::to_string(i);
            if (rng.chance(50)) vl.newLoad().setId("WLD" + s).setP0(1).setQ0(1).setNode(take()).add();
            else vl.newGenerator().setId("WG" + s).setMinP(0).setMaxP(1).setTargetP(0).setTargetQ(0).setVoltageRegulatorOn(false).setNode(take()).add();
        }
        int es = static_cast<int>(rng.range(nodes - 1, nodes + 6));
        for (int i = 0; i < es; ++i) {
            // mostly a connected graph, with parallel edges and loops
            ulong_t a = i < nodes ? all[static_cast<size_t>(i) % all.size()] : rng.pick(all), b = i > 0 && i < nodes ? all[rng.below(std::min<size_t>(static_cast<size_t>(i), all.size()))] : rng.pick(all);
            if (a == b) continue;
            int kind = static_cast<int>(rng.below(10));
            if (kind == 9) { vl.getNodeBreakerView().newInternalConnection().setNode1(a).setNode2(b).add(); continue; }
            vl.getNodeBreakerView().newSwitch().setId("WSW" + std::to_string(k) + "-" + std::to_string(i)).setKind(kind < 5 ? SwitchKind::BREAKER : kind < 8 ? SwitchKind::DISCONNECTOR : SwitchKind::LOAD_BREAK_SWITCH)
                .setNode1(a).setNode2(b).setOpen(rng.chance(40)).setRetained(rng.chance(20)).add();
        }
    }
}
}  // namespace

MODULE(connect) {
    Network n("net", "test");
    Gen g(n, rng.u64());
    bool w = rng.chance(60);
    if (w) wild(n, rng);
    else g.build(rng, static_cast<int>(rng.range(6, 30)));
    auto& vm = n.getVariantManager();
    for (int i = static_cast<int>(rng.below(3)); i > 0; --i) vm.cloneVariant(rng.pick(variantIds(n)), "v" + std::to_string(i));
    int steps = static_cast<int>(rng.range(10, 40));
    for (int s = 0; s < steps; ++s) {
        if (rng.chance(20)) vm.setWorkingVariant(rng.pick(variantIds(n)));
        if (rng.chance(35)) {
            std::vector<Switch*> sw = g.all<Switch>();
            if (!sw.empty()) { Switch* x = rng.pick(sw); x->setOpen(rng.chance(50)); logOp("set " + x->getId() + " " + S(x->isOpen())); }
        }
        if (!w && rng.chance(15)) g.random(rng, "tcr");
        auto ts = allTerminals(n);
        if (ts.empty()) return;
        judge(n, *rng.pick(ts), rng.chance(50));
        if (rng.chance(10)) checkViews(n, "views:");
    }
}
