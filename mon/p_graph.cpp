// P19: the graph library against a multigraph model.
#include "pick.hpp"
#include <powsybl/PowsyblException.hpp>
#include <powsybl/math/GraphUtil.hpp>
#include <powsybl/math/UndirectedGraph.hpp>
#include <powsybl/stdcxx/memory.hpp>
using namespace vmon;
using namespace powsybl;

namespace {
struct VObj { int id; };
struct EObj { int id; };
using Graph = math::UndirectedGraph<VObj, EObj>;
struct MEdge { ulong_t v1, v2; EObj* obj; };
struct Model {
    std::map<ulong_t, VObj*> v;
    std::map<ulong_t, MEdge> e;
    ulong_t end() const { return v.empty() ? 0 : v.rbegin()->first + 1; }
    bool used(ulong_t x) const { for (auto& k : e) if (k.second.v1 == x || k.second.v2 == x) return true; return false; }
    std::vector<ulong_t> edgesOf(ulong_t x) const {
        std::vector<ulong_t> r;
        for (auto& k : e) if (k.second.v1 == x || k.second.v2 == x) r.push_back(k.first);
        return r;
    }
    ulong_t other(ulong_t k, ulong_t x) const { const MEdge& m = e.at(k); return m.v1 == x ? m.v2 : m.v1; }
};
template <typename T> T* ptr(const stdcxx::Reference<T>& r) { return r ? &r.get() : nullptr; }
template <typename T> T* ptr(const stdcxx::CReference<T>& r) { return r ? const_cast<T*>(&r.get()) : nullptr; }
// an identifiable error of the library
template <typename F> bool refusedCall(const F& f) {
    try { f(); } catch (const PowsyblException&) { return true; }
    return false;
}
std::string shape(const Model& m) {
    std::string s = S((ulong_t)m.v.size()) + ":";
    for (auto& k : m.v) s += S(k.first) + (k.second ? "o" : "") + " ";
    for (auto& k : m.e) s += S(k.first) + "=" + S(k.second.v1) + "-" + S(k.second.v2) + " ";
    return s;
}

void compare(Graph& g, const Model& m, const std::string& when) {
    const Graph& cg = g;
    std::string d = when + " expecting " + shape(m);
    VCHECK(g.getVertexCount() == m.v.size(), "vertex-count", S(g.getVertexCount()) + " " + d);
    VCHECK(g.getEdgeCount() == m.e.size(), "edge-count", S(g.getEdgeCount()) + " " + d);
    VCHECK(g.getVertexCapacity() == m.end() && g.getMaxVertex() == m.end(), "vertex-capacity", S(g.getVertexCapacity()) + " " + S(g.getMaxVertex()) + " " + d);
    std::vector<ulong_t> vs, es;
    for (ulong_t x : g.getVertices()) vs.push_back(x);
    for (ulong_t x : g.getEdges()) es.push_back(x);
    std::sort(vs.begin(), vs.end());
    std::sort(es.begin(), es.end());
    std::vector<ulong_t> wv, we;
    for (auto& k : m.v) wv.push_back(k.first);
    for (auto& k : m.e) we.push_back(k.first);
    VCHECK(vs == wv, "vertices", d);
    VCHECK(es == we, "edges", d);
    std::multiset<VObj*> vo, wvo, vo2;
    std::multiset<EObj*> eo, weo, eo2;
    for (auto& k : m.v) wvo.insert(k.second);
    for (auto& k : m.e) weo.insert(k.second.obj);
    for (const auto& r : cg.getVertexObjects()) vo.insert(ptr<VObj>(r));
    for (const auto& r : g.getVertexObjects()) vo2.insert(ptr<VObj>(r));
    for (const auto& r : cg.getEdgeObjects()) eo.insert(ptr<EObj>(r));
    for (const auto& r : g.getEdgeObjects()) eo2.insert(ptr<EObj>(r));
    VCHECK(vo == wvo && vo2 == wvo, "vertex-objects", d);
    VCHECK(eo == weo && eo2 == weo, "edge-objects", d);
    for (ulong_t x = 0; x < m.end() + 2; ++x) {
        bool in = m.v.count(x) != 0;
        VCHECK(g.vertexExists(x) == in, "vertex-exists", S(x) + " " + d);
        if (in) VCHECK(ptr<VObj>(g.getVertexObject(x)) == m.v.at(x), "vertex-object", S(x) + " " + d);
        else VCHECK(refusedCall([&] { g.getVertexObject(x); }), "missing-vertex-accepted", S(x) + " " + d);
    }
    ulong_t last = m.e.empty() ? 0 : m.e.rbegin()->first + 1;
    for (ulong_t k = 0; k < last + 2; ++k) {
        auto it = m.e.find(k);
        if (it == m.e.end()) {
            VCHECK(refusedCall([&] { g.getEdgeObject(k); }) && refusedCall([&] { g.getVertex1(k); }) && refusedCall([&] { g.getVertex2(k); }), "missing-edge-accepted", S(k) + " " + d);
            continue;
        }
        VCHECK(g.getVertex1(k) == it->second.v1 && g.getVertex2(k) == it->second.v2, "edge-ends", S(k) + " " + d);
        VCHECK(ptr<EObj>(g.getEdgeObject(k)) == it->second.obj, "edge-object", S(k) + " " + d);
    }
}

void between(Graph& g, const Model& m, ulong_t a, ulong_t b) {
    std::multiset<EObj*> got, want;
    if (!m.v.count(a) || !m.v.count(b)) {
        VCHECK(refusedCall([&] { g.getEdgeObjects(a, b); }), "edges-between-missing", S(a) + " " + S(b) + " in " + shape(m));
        return;
    }
    for (auto& k : m.e) if ((k.second.v1 == a && k.second.v2 == b) || (k.second.v1 == b && k.second.v2 == a)) want.insert(k.second.obj);
    const Graph& cg = g;
    for (const auto& r : cg.getEdgeObjects(a, b)) got.insert(ptr<EObj>(r));
    VCHECK(got == want, "edges-between", S(a) + " " + S(b) + ": " + S((ulong_t)got.size()) + " instead of " + S((ulong_t)want.size()) + " in " + shape(m));
}

// deterministic choices of a traverser
struct Choice {
    ulong_t salt; int stop;      // percentage of terminated edges
    bool directed;
    bool go(ulong_t a, ulong_t e, ulong_t b) const {
        ulong_t h = hashStr((directed ? S(a) + ">" + S(b) : "") + "e" + S(e) + "s" + S(salt));
        return static_cast<int>(h % 100) >= stop;
    }
};
void traversal(Graph& g, const Model& m, Rng& rng, ulong_t start) {
    Choice c{rng.u64(), static_cast<int>(rng.of({0, 0, 20, 40, 70, 100})), rng.chance(50)};
    bool with = rng.chance(50);
    std::vector<bool> enc;
    std::set<ulong_t> pre;
    if (with) {
        enc.assign(m.end(), false);
        for (auto& k : m.v) if (rng.chance(15) && k.first != start) { enc[k.first] = true; pre.insert(k.first); }
        if (rng.chance(10)) { enc.clear(); pre.clear(); }
    }
    std::set<ulong_t> reached;
    std::set<std::pair<ulong_t, ulong_t>> offered;
    std::vector<std::string> bad;
    reached.insert(start);
    ulong_t events = 0;
    auto f = [&](unsigned long a, unsigned long e, unsigned long b) {
        ++events;
        auto it = m.e.find(e);
        if (it == m.e.end() || !((it->second.v1 == a && it->second.v2 == b) || (it->second.v1 == b && it->second.v2 == a))) bad.push_back("wrong-edge " + S(a) + " " + S(e) + " " + S(b));
        if (!reached.count(a)) bad.push_back("from-unreached " + S(a));
        if (reached.count(b) || pre.count(b)) bad.push_back("again " + S(b));
        if (!offered.insert({a, e}).second) bad.push_back("offered-twice " + S(a) + " " + S(e));
        bool go = c.go(a, e, b);
        if (go) reached.insert(b);
        return go ? math::TraverseResult::CONTINUE : math::TraverseResult::TERMINATE;
    };
    std::string d = "from " + S(start) + " stop " + S((ulong_t)c.stop) + (with ? " with encountered" : "") + " in " + shape(m);
    if (!m.v.count(start)) {
        VCHECK(refusedCall([&] { g.traverse(start, f); }), "traverse-missing-vertex", d);
        VCHECK(events == 0, "traverse-missing-vertex-visits", d);
        return;
    }
    if (with) g.traverse(start, f, enc); else g.traverse(start, f);
    VCHECK(bad.empty(), "traversal:" + (bad.empty() ? std::string() : bad[0].substr(0, bad[0].find(' '))), (bad.empty() ? "" : bad[0]) + " " + d);
    std::set<ulong_t> want = {start};
    std::vector<ulong_t> todo = {start};
    std::set<std::pair<ulong_t, ulong_t>> mustOffer;
    while (!todo.empty()) {
        ulong_t v = todo.back();
        todo.pop_back();
        for (ulong_t e : m.edgesOf(v)) {
            ulong_t o = m.other(e, v);
            if (want.count(o) || pre.count(o)) continue;
            if (c.go(v, e, o)) { want.insert(o); todo.push_back(o); }
        }
    }
    VCHECK(reached == want, "traversal:reached", S((ulong_t)reached.size()) + " instead of " + S((ulong_t)want.size()) + " " + d);
    // every way out of the reached part has been offered
    for (ulong_t v : want) for (ulong_t e : m.edgesOf(v)) {
        ulong_t o = m.other(e, v);
        if (!want.count(o) && !pre.count(o)) VCHECK(offered.count({v, e}), "traversal:not-offered", S(v) + " " + S(e) + " " + d);
    }
    if (with) {
        std::set<ulong_t> got;
        for (ulong_t i = 0; i < enc.size(); ++i) if (enc[i]) got.insert(i);
        std::set<ulong_t> w = want;
        w.insert(pre.begin(), pre.end());
        VCHECK(got == w, "traversal:encountered", S((ulong_t)got.size()) + " instead of " + S((ulong_t)w.size()) + " " + d);
    }
    R.count("traversal_events", events);
    R.count("traversals");
}

void allPaths(const Model& m, ulong_t v, const std::function<bool(VObj*)>& complete, const std::function<bool(EObj*)>& cancel, std::set<ulong_t>& seen, std::vector<ulong_t>& path, std::multiset<std::vector<ulong_t>>& out) {
    if (out.size() > 20000) return;
    seen.insert(v);
    for (ulong_t e : m.edgesOf(v)) {
        if (cancel(m.e.at(e).obj)) continue;
        ulong_t o = m.other(e, v);
        if (seen.count(o)) continue;
        path.push_back(e);
        if (complete(m.v.at(o))) out.insert(path);
        else allPaths(m, o, complete, cancel, seen, path, out);
        path.pop_back();
    }
    seen.erase(v);
}
void paths(Graph& g, const Model& m, Rng& rng, ulong_t start) {
    ulong_t salt = rng.u64();
    int pc = static_cast<int>(rng.of({10, 30, 60})), pn = static_cast<int>(rng.of({0, 20, 50}));
    auto complete = [&](VObj* o) { return o != nullptr && static_cast<int>(hashStr(S((ulong_t)o->id) + "c" + S(salt)) % 100) < pc; };
    auto cancel = [&](EObj* o) { return o != nullptr && static_cast<int>(hashStr(S((ulong_t)o->id) + "x" + S(salt)) % 100) < pn; };
    auto f = [&] {
        return g.findAllPaths(start, [&](const stdcxx::Reference<VObj>& r) { return complete(ptr<VObj>(r)); }, [&](const stdcxx::Reference<EObj>& r) { return cancel(ptr<EObj>(r)); });
    };
    std::string d = "from " + S(start) + " in " + shape(m);
    if (!m.v.count(start)) { VCHECK(refusedCall([&] { f(); }), "paths-missing-vertex", d); return; }
    std::multiset<std::vector<ulong_t>> want;
    std::set<ulong_t> seen;
    std::vector<ulong_t> path;
    allPaths(m, start, complete, cancel, seen, path, want);
    if (want.size() > 5000) return;
    auto r = f();
    std::multiset<std::vector<ulong_t>> got;
    bool sorted = true;
    for (size_t i = 0; i < r.size(); ++i) {
        got.insert(std::vector<ulong_t>(r[i].begin(), r[i].end()));
        if (i > 0 && r[i].size() < r[i - 1].size()) sorted = false;
    }
    VCHECK(got == want, "paths", S((ulong_t)got.size()) + " instead of " + S((ulong_t)want.size()) + " " + d);
    VCHECK(sorted, "paths-order", d);
    R.count("paths_found", got.size());
    R.count("path_searches");
}
}  // namespace

MODULE(multigraph) {
    std::vector<std::unique_ptr<VObj>> vos;
    std::vector<std::unique_ptr<EObj>> eos;
    int nextId = 0;
    auto newV = [&]() -> VObj* { if (rng.chance(25)) return nullptr; vos.emplace_back(new VObj{nextId++}); return vos.back().get(); };
    auto newE = [&]() -> EObj* { if (rng.chance(20)) return nullptr; eos.emplace_back(new EObj{nextId++}); return eos.back().get(); };
    Graph g;
    Model m;
    bool loops = rng.chance(30);
    int density = static_cast<int>(rng.of({20, 40, 60}));
    ulong_t cap = static_cast<ulong_t>(rng.of({4, 8, 14, 40}));
    std::string hist;
    auto anyVertex = [&]() -> ulong_t {
        if (m.v.empty() || rng.chance(6)) return rng.chance(90) ? rng.below(m.end() + 3) : static_cast<ulong_t>(-1) - rng.below(2);
        auto it = m.v.begin();
        std::advance(it, rng.below(m.v.size()));
        return it->first;
    };
    auto anyEdge = [&]() -> ulong_t {
        if (m.e.empty() || rng.chance(6)) return rng.chance(90) ? rng.below(m.e.size() + 4) : static_cast<ulong_t>(-1);
        if (rng.chance(25)) return m.e.rbegin()->first;
        auto it = m.e.begin();
        std::advance(it, rng.below(m.e.size()));
        return it->first;
    };
    int steps = static_cast<int>(rng.range(5, 120));
    for (int i = 0; i < steps; ++i) {
        int what = static_cast<int>(rng.below(100));
        std::string op;
        if (what < 12 && m.v.size() < cap) {
            ulong_t v = g.addVertex();
            op = "addVertex " + S(v);
            logOp(op);
            VCHECK(!m.v.count(v), "add-vertex-existing", S(v) + " in " + shape(m));
            VCHECK(v <= m.end(), "add-vertex-gap", S(v) + " in " + shape(m));
            m.v[v] = nullptr;
        } else if (what < 20 && m.v.size() < cap) {
            ulong_t v = rng.below(rng.chance(80) ? m.end() + 2 : cap + 10);
            op = "addVertexIfNotPresent " + S(v);
            logOp(op);
            g.addVertexIfNotPresent(v);
            m.v.insert({v, nullptr});
        } else if (what < 20 + density) {
            ulong_t a = anyVertex(), b = rng.chance(20) && !m.e.empty() ? m.e.begin()->second.v1 : anyVertex();
            if (a == b && !loops) continue;
            EObj* o = newE();
            stdcxx::Reference<EObj> r = o ? stdcxx::ref(*o) : stdcxx::Reference<EObj>();
            op = "addEdge " + S(a) + "-" + S(b);
            logOp(op);
            if (m.v.count(a) && m.v.count(b)) {
                ulong_t e = g.addEdge(a, b, r);
                VCHECK(!m.e.count(e), "add-edge-existing", S(e) + " in " + shape(m));
                m.e[e] = {a, b, o};
            } else VCHECK(refusedCall([&] { g.addEdge(a, b, r); }), "add-edge-missing-vertex", op + " in " + shape(m));
        } else if (what < 30 + density) {
            ulong_t e = anyEdge();
            op = "removeEdge " + S(e);
            logOp(op);
            auto it = m.e.find(e);
            if (it != m.e.end()) {
                EObj* o = ptr<EObj>(g.removeEdge(e));
                VCHECK(o == it->second.obj, "removed-edge-object", op + " in " + shape(m));
                m.e.erase(it);
            } else VCHECK(refusedCall([&] { g.removeEdge(e); }), "remove-missing-edge", op + " in " + shape(m));
        } else if (what < 36 + density) {
            ulong_t v = anyVertex();
            op = "removeVertex " + S(v);
            logOp(op);
            auto it = m.v.find(v);
            if (it != m.v.end() && !m.used(v)) {
                VObj* o = ptr<VObj>(g.removeVertex(v));
                VCHECK(o == it->second, "removed-vertex-object", op + " in " + shape(m));
                m.v.erase(it);
            } else VCHECK(refusedCall([&] { g.removeVertex(v); }), "remove-vertex-accepted", op + " in " + shape(m));
        } else if (what < 38 + density) {
            op = "removeIsolatedVertices";
            logOp(op);
            g.removeIsolatedVertices();
            for (auto it = m.v.begin(); it != m.v.end();) if (!it->second && !m.used(it->first)) it = m.v.erase(it); else ++it;
        } else if (what == 38 + density && rng.chance(30)) {
            op = "removeAllEdges";
            logOp(op);
            g.removeAllEdges();
            m.e.clear();
        } else if (what == 39 + density && rng.chance(50)) {
            op = "removeAllVertices";
            logOp(op);
            if (m.e.empty()) { g.removeAllVertices(); m.v.clear(); }
            else VCHECK(refusedCall([&] { g.removeAllVertices(); }), "remove-all-vertices-accepted", shape(m));
        } else {
            ulong_t v = anyVertex();
            VObj* o = newV();
            op = "setVertexObject " + S(v);
            logOp(op);
            stdcxx::Reference<VObj> r = o ? stdcxx::ref(*o) : stdcxx::Reference<VObj>();
            if (m.v.count(v)) { g.setVertexObject(v, r); m.v[v] = o; }
            else VCHECK(refusedCall([&] { g.setVertexObject(v, r); }), "object-of-missing-vertex", op + " in " + shape(m));
        }
        hist += op.substr(0, op.find(' ')) + ";";
        R.count("operations");
        compare(g, m, "after " + op);
        int q = static_cast<int>(rng.below(10));
        if (q < 3) traversal(g, m, rng, anyVertex());
        else if (q < 5) { ulong_t a = anyVertex(), b = anyVertex(); if (rng.chance(50) && !m.e.empty()) { const MEdge& e = m.e.at(m.e.rbegin()->first); a = e.v1; b = e.v2; } between(g, m, a, b); }
        else if (q < 7 && m.e.size() <= 24) paths(g, m, rng, anyVertex());
    }
    R.seen("cover", shape(m));
    R.seen("histories", hist);
}

MODULE(graph_components) {
    int n = static_cast<int>(rng.below(rng.chance(10) ? 400 : 30));
    std::vector<std::vector<ulong_t>> adj(static_cast<size_t>(n));
    std::vector<int> up(static_cast<size_t>(n));
    for (int i = 0; i < n; ++i) up[static_cast<size_t>(i)] = i;
    std::function<int(int)> root = [&](int x) { while (up[static_cast<size_t>(x)] != x) x = up[static_cast<size_t>(x)]; return x; };
    int k = n == 0 ? 0 : static_cast<int>(rng.below(static_cast<ulong_t>(2 * n) + 1));
    for (int i = 0; i < k; ++i) {
        int a = static_cast<int>(rng.below(static_cast<ulong_t>(n))), b = static_cast<int>(rng.below(static_cast<ulong_t>(n)));
        adj[static_cast<size_t>(a)].push_back(static_cast<ulong_t>(b));
        adj[static_cast<size_t>(b)].push_back(static_cast<ulong_t>(a));
        up[static_cast<size_t>(root(a))] = root(b);
    }
    auto r = math::GraphUtil::computeConnectedComponents(adj);
    const auto& num = r.getComponentNumber();
    const auto& size = r.getComponentSize();
    std::map<int, ulong_t> roots;
    for (int i = 0; i < n; ++i) ++roots[root(i)];
    VCHECK(num.size() == static_cast<size_t>(n), "components:numbers", S((ulong_t)num.size()));
    VCHECK(size.size() == roots.size(), "components:count", S((ulong_t)size.size()) + " instead of " + S((ulong_t)roots.size()));
    std::map<ulong_t, int> rootOf;
    for (int i = 0; i < n; ++i) {
        VCHECK(static_cast<bool>(num[static_cast<size_t>(i)]) && *num[static_cast<size_t>(i)] < size.size(), "components:number", S((ulong_t)i));
        ulong_t c = *num[static_cast<size_t>(i)];
        auto it = rootOf.insert({c, root(i)}).first;
        VCHECK(it->second == root(i), "components:merged", S((ulong_t)i));
        VCHECK(size[c] == roots[root(i)], "components:size", S((ulong_t)i) + " " + S(size[c]));
    }
    VCHECK(rootOf.size() == roots.size(), "components:split", S((ulong_t)rootOf.size()));
    for (size_t i = 1; i < size.size(); ++i) VCHECK(size[i] <= size[i - 1], "components:order", S((ulong_t)i));
    std::string s;
    for (auto x : size) s += S((ulong_t)x) + " ";
    R.seen("cover", s);
}
