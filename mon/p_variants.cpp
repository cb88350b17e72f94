// P01: isolation of variants. P02: the variant manager as a map of names.
#include "pick.hpp"
using namespace vmon;
using powsybl::iidm::VariantManager;

namespace {
void cloneMany(VariantManager& vm, const std::string& src, const std::vector<std::string>& d, bool over) {
    switch (d.size()) {
        case 0: vm.cloneVariant(src, std::initializer_list<std::string>(), over); break;
        case 1: vm.cloneVariant(src, std::initializer_list<std::string>{d[0]}, over); break;
        case 2: vm.cloneVariant(src, {d[0], d[1]}, over); break;
        case 3: vm.cloneVariant(src, {d[0], d[1], d[2]}, over); break;
        default: vm.cloneVariant(src, {d[0], d[1], d[2], d[3]}, over); break;
    }
}
std::string varOf(const std::string& key) { auto p = key.find('@'); return p == std::string::npos ? "" : key.substr(0, p); }

// values of parts which the operation creates anew (an extension or a tap changer replaces the previous one)
bool replaced(const std::string& op, const std::string& key) {
    if (op == "newExtension") return key.find("/x:") != std::string::npos;
    if (op == "newRtc") return key.find("/rtc") != std::string::npos;
    if (op == "newPtc") return key.find("/ptc") != std::string::npos;
    return false;
}
// single variant values must read the same wherever they are read
void sharedValues(Network& n, const DumpMap& d) {
    eachVariant(n, [&](const std::string& v) {
        DumpMap s = dump(n, DS);
        for (auto& kv : s) {
            auto it = d.find(kv.first);
            VCHECK(it != d.end() && it->second == kv.second, "shared-value-differs:" + attrOfKey(kv.first), kv.first + " reads " + kv.second + " in " + v);
        }
    });
}
}  // namespace

MODULE(variants_isolated) {
    Network n("net", "test");
    Gen g(n, rng.u64());
    g.build(rng, static_cast<int>(rng.range(3, 30)));
    auto& vm = n.getVariantManager();
    int nv = static_cast<int>(rng.range(1, 5));
    for (int i = 0; i < nv; ++i) {
        auto vs = variantIds(n);
        vm.cloneVariant(rng.pick(vs), "v" + std::to_string(i));
    }
    DumpMap cur = dumpAll(n);
    int steps = static_cast<int>(rng.range(20, 60));
    for (int s = 0; s < steps; ++s) {
        std::string w = vm.getWorkingVariantId();
        int what = static_cast<int>(rng.below(100));
        if (what < 25) {
            // clones, removals, selections
            auto vs = variantIds(n);
            int k = static_cast<int>(rng.below(4));
            if (k == 0 && vs.size() < 8) {
                std::string src = rng.pick(vs);
                std::vector<std::string> dst;
                for (int i = static_cast<int>(rng.range(1, 3)); i > 0; --i) dst.push_back("c" + std::to_string(rng.below(5)));
                std::sort(dst.begin(), dst.end());
                dst.erase(std::unique(dst.begin(), dst.end()), dst.end());
                dst.erase(std::remove(dst.begin(), dst.end(), src), dst.end());
                if (dst.empty()) continue;
                logOp("clone " + src + " to " + std::to_string(dst.size()) + " from " + dst[0]);
                if (dst.size() == 1 && rng.chance(50)) vm.cloneVariant(src, dst[0], true); else cloneMany(vm, src, dst, true);
                DumpMap now = dumpAll(n);
                std::set<std::string> tgt(dst.begin(), dst.end());
                for (auto& kv : now) {
                    std::string v = varOf(kv.first);
                    if (v.empty()) {
                        if (kv.first == "<variants>") continue;
                        VCHECK(cur.count(kv.first) && cur[kv.first] == kv.second, "clone-changes-shared:" + attrOfKey(kv.first), kv.first);
                    } else if (tgt.count(v)) {
                        auto it = cur.find(src + kv.first.substr(v.size()));
                        VCHECK(it != cur.end() && it->second == kv.second, "clone-differs-from-source:" + attrOfKey(kv.first), kv.first + " = " + kv.second + " source " + (it == cur.end() ? "none" : it->second));
                    } else {
                        VCHECK(cur.count(kv.first) && cur[kv.first] == kv.second, "clone-changes-other:" + attrOfKey(kv.first), kv.first + " = " + kv.second);
                    }
                }
                R.count("clones");
                cur = now;
            } else if (k == 1 && vs.size() > 1) {
                std::string v = rng.pick(vs);
                if (v == VariantManager::getInitialVariantId() || v == w) continue;
                logOp("remove " + v);
                vm.removeVariant(v);
                DumpMap now = dumpAll(n);
                std::string d = diff(cur, now, [&](const std::string& key) { return varOf(key) == v || key == "<variants>"; });
                VCHECK(d.empty(), "removal-changes-other:" + firstDiffKey(d), d);
                R.count("variant_removals");
                cur = now;
            } else {
                std::string v = rng.pick(vs);
                vm.setWorkingVariant(v);
                logOp("work in " + v);
                R.count("selections");
            }
            continue;
        }
        if (what < 35) {
            // write many values of the working variant at once
            auto ps = settable(n, "V");
            logOp("bulk in " + w);
            std::map<std::string, std::string> expect;
            for (auto& p : ps) {
                if (!rng.chance(50)) continue;
                // a rejected value changes nothing, an accepted one is read back at once
                double v = p.a->gen(rng, p.h.p);
                if (refused([&]() { p.a->set(p.h.p, v); })) { R.count("values_refused"); continue; }
                R.count("values_written");
                R.seen("attributes", p.h.kind + "." + p.a->name);
                if (p.a->fmt) VCHECK(p.a->get(p.h.p) == p.a->fmt(v), "read-back:" + p.h.kind + "." + p.a->name, pickName(p) + " " + p.a->get(p.h.p) + " after setting " + S(v));
            }
            DumpMap now = dumpAll(n);
            std::string d = diff(cur, now, [&](const std::string& key) { return varOf(key) == w; });
            VCHECK(d.empty(), "write-changes-other:" + firstDiffKey(d), "values written in " + w + ": " + d);
            cur = now;
            continue;
        }
        if (what < 60) {
            auto ps = settable(n, rng.chance(80) ? "V" : "S");
            if (ps.empty()) continue;
            Pick p = rng.pick(ps);
            p.v = p.a->gen(rng, p.h.p);
            long oldLow = 0;
            bool low = p.a->name == "getLowTapPosition";
            if (low) oldLow = static_cast<long>(p.a->num(p.h.p));
            bool no = refused([&]() { p.a->set(p.h.p, p.v); });
            logOp("set " + pickName(p) + "=" + S(p.v) + " in " + w + (no ? " refused" : ""));
            DumpMap now = dumpAll(n);
            if (no) {
                std::string d = diff(cur, now);
                VCHECK(d.empty(), "refused-write:" + p.a->name, pickName(p) + ": " + d);
            } else {
                R.count("values_written");
                R.seen("attributes", p.h.kind + "." + p.a->name);
                VCHECK(p.a->get(p.h.p) == p.a->fmt(p.v), "read-back:" + p.h.kind + "." + p.a->name, pickName(p) + " " + p.a->get(p.h.p) + " after setting " + S(p.v));
                if (p.a->cls == Cls::V) {
                    std::string d = diff(cur, now, [&](const std::string& key) { return varOf(key) == w; });
                    VCHECK(d.empty(), "write-changes-other:" + p.h.kind + "." + p.a->name, pickName(p) + " in " + w + ": " + d);
                } else {
                    sharedValues(n, now);
                    // stored per variant values do not move with it, but the tap position with its origin
                    std::string tap = p.h.key + ".getTapPosition";
                    for (auto& kv : cur) {
                        std::string v = varOf(kv.first);
                        if (v.empty()) continue;
                        std::string k = kv.first.substr(v.size() + 1);
                        auto it = now.find(kv.first);
                        if (low && k == tap) {
                            long moved = std::stol(kv.second) + static_cast<long>(p.v) - oldLow;
                            VCHECK(it != now.end() && it->second == S(moved), "low-tap-shift", kv.first + " " + kv.second + " -> " + (it == now.end() ? "none" : it->second) + " low " + S(oldLow) + " -> " + S(p.v));
                        } else VCHECK(it != now.end() && it->second == kv.second, "shared-write-changes-variant:" + p.h.kind + "." + p.a->name, kv.first);
                    }
                }
            }
            cur = now;
            continue;
        }
        if (what < 85) {
            if (!g.random(rng, "tx")) continue;
            DumpMap now = dumpAll(n);
            std::string op = g.desc.substr(0, g.desc.find(' '));
            bool structural = op.find("new") == 0;
            if (!structural) {
                std::string d = diff(cur, now, [&](const std::string& key) { return varOf(key) == w; });
                VCHECK(d.empty(), "operation-changes-other:" + op, g.desc + " in " + w + ": " + d);
            } else {
                // stored values of what existed stay; what is new starts with one value in all the variants
                DumpMap nv = dumpAll(n, DS | DV);
                for (auto& kv : nv) {
                    std::string v = varOf(kv.first);
                    if (v.empty()) continue;
                    std::string attr = attrOfKey(kv.first);
                    if (attr == "connected" || attr == "terminals" || attr == "voltage") continue;
                    auto it = cur.find(kv.first);
                    auto was = it;
                    if (it != cur.end() && it->second != kv.second && replaced(op, kv.first) && g.desc.find(kv.first.substr(v.size() + 1, kv.first.find("/x:") - v.size() - 1)) != std::string::npos) was = cur.end();
                    if (was == cur.end()) {
                        auto o = nv.find(w + kv.first.substr(v.size()));
                        bool slack = kv.first.find("x:slackTerminal") != std::string::npos;
                        if (!slack) VCHECK(o != nv.end() && o->second == kv.second, "initial-value-differs:" + attr, g.desc + ": " + kv.first + " = " + kv.second + " working variant " + (o == nv.end() ? "none" : o->second));
                    } else if (v != w) VCHECK(it->second == kv.second, "creation-changes-other:" + op, g.desc + ": " + kv.first + " " + it->second + " -> " + kv.second);
                }
            }
            cur = now;
            continue;
        }
        if (!g.random(rng, what < 93 ? "c" : "rX")) continue;
        {
            DumpMap now = dumpAll(n);
            std::string op = g.desc.substr(0, g.desc.find(' '));
            DumpMap nv = dumpAll(n, DS | DV);
            for (auto& kv : nv) {
                std::string v = varOf(kv.first);
                if (v.empty()) continue;
                std::string attr = attrOfKey(kv.first);
                if (attr == "connected" || attr == "terminals" || attr == "voltage" || attr == "isRegulating" || kv.first.find("x:slackTerminal") != std::string::npos) continue;
                auto it = cur.find(kv.first);
                auto was = it;
                if (it != cur.end() && it->second != kv.second && replaced(op, kv.first) && g.desc.find(kv.first.substr(v.size() + 1, kv.first.find("/", v.size()) - v.size() - 1)) != std::string::npos) was = cur.end();
                if (was == cur.end()) {
                    auto o = nv.find(w + kv.first.substr(v.size()));
                    VCHECK(o != nv.end() && o->second == kv.second, "initial-value-differs:" + attr, g.desc + ": " + kv.first + " = " + kv.second + " working variant " + (o == nv.end() ? "none" : o->second));
                } else if (v != w) VCHECK(it->second == kv.second, "structure-changes-value:" + op + ":" + attr, g.desc + ": " + kv.first + " " + it->second + " -> " + kv.second);
            }
            cur = now;
        }
    }
    R.seen("cover", S(cur.size()) + cur["<variants>"]);
    if (rng.chance(20)) checkSane(n, "");
}

// ------------------------------------------------------------------------------------------------- P02
namespace {
struct VModel {
    std::map<std::string, DumpMap> state;     // name -> stored values
    std::string working;                      // empty: unset
};
DumpMap stateOf(Network& n, const std::string& v) {
    auto& vm = n.getVariantManager();
    vm.setWorkingVariant(v);
    return dump(n, DV | DT);
}
void compare(Network& n, VModel& m, const std::string& what) {
    auto& vm = n.getVariantManager();
    std::set<std::string> names, exp;
    for (const auto& v : vm.getVariantIds()) names.insert(v);
    for (auto& kv : m.state) exp.insert(kv.first);
    VCHECK(names == exp, "variant-names", what);
    if (m.working.empty()) {
        bool no = refused([&]() { vm.getWorkingVariantId(); });
        VCHECK(no, "working-variant-unset", what);
    } else {
        std::string w;
        bool no = refused([&]() { w = vm.getWorkingVariantId(); });
        VCHECK(!no && w == m.working, "working-variant", what + ": '" + w + "' expected '" + m.working + "'");
    }
    R.count("variant_map_checks");
}
}  // namespace

MODULE(variant_manager) {
    Network n("net", "test");
    Gen g(n, rng.u64());
    g.build(rng, static_cast<int>(rng.range(2, 14)));
    auto& vm = n.getVariantManager();
    VModel m;
    const std::string init = VariantManager::getInitialVariantId();
    m.working = init;
    m.state[init] = stateOf(n, init);
    std::string hist;
    auto ps = settable(n, "V");
    auto check = [&](const std::string& what) { compare(n, m, what); };
    auto deep = [&](const std::string& what) {
        std::string w = m.working;
        for (auto& kv : m.state) {
            vm.setWorkingVariant(kv.first);
            DumpMap d = dump(n, DV | DT);
            std::string x = diff(kv.second, d);
            VCHECK(x.empty(), "variant-state:" + firstDiffKey(x), what + " variant " + kv.first + ": " + x);
        }
        if (w.empty()) {
            // the working variant is unset again by removing it
            vm.cloneVariant(init, "tmp!");
            vm.setWorkingVariant("tmp!");
            vm.removeVariant("tmp!");
        } else vm.setWorkingVariant(w);
        R.count("deep_checks");
    };
    check("start");
    int steps = static_cast<int>(rng.range(20, 60));
    auto name = [&]() { return "c" + std::to_string(rng.below(6)); };
    for (int s = 0; s < steps; ++s) {
        std::vector<std::string> known;
        for (auto& kv : m.state) known.push_back(kv.first);
        int k = static_cast<int>(rng.below(11));
        std::string what;
        bool expectRefusal = false, got = false, either = false;
        VModel next = m;
        try {
            if (k <= 2) {
                // single clone
                std::string src = rng.chance(85) ? rng.pick(known) : name();
                std::string dst = rng.chance(8) ? init : name();
                bool over = rng.chance(50), def = !over && rng.chance(50);
                what = "clone " + src + " -> " + dst + (over ? " overwrite" : "");
                bool ex = m.state.count(dst) > 0;
                expectRefusal = !m.state.count(src) || (ex && !over);
                if (ex && over && dst == src) either = true;     // overwriting a variant with itself changes nothing
                if (!expectRefusal) next.state[dst] = m.state[src];
                if (either) next = m;
                // an overwritten working variant stays the working variant
                if (def) vm.cloneVariant(src, dst); else vm.cloneVariant(src, dst, over);
            } else if (k <= 5) {
                std::string src = rng.chance(88) ? rng.pick(known) : name();
                std::vector<std::string> dst;
                int cnt = static_cast<int>(rng.below(5));
                for (int i = 0; i < cnt; ++i) dst.push_back(rng.chance(5) ? init : name());
                bool over = rng.chance(60);
                what = "clone " + src + " -> [";
                for (auto& d : dst) what += d + ",";
                what += "]" + std::string(over ? " overwrite" : "");
                std::set<std::string> uniq(dst.begin(), dst.end());
                bool ex = false;
                for (auto& d : uniq) ex = ex || m.state.count(d) > 0;
                expectRefusal = !m.state.count(src) || (ex && !over) || dst.empty();
                if (uniq.size() != dst.size() && !over) expectRefusal = true;
                if (uniq.size() != dst.size() || uniq.count(src)) either = true;
                if (!expectRefusal) for (auto& d : uniq) if (d != src) next.state[d] = m.state[src];
                cloneMany(vm, src, dst, over);
            } else if (k <= 7) {
                std::string v = rng.chance(80) ? rng.pick(known) : name();
                what = "remove " + v;
                expectRefusal = !m.state.count(v) || v == init;
                if (!expectRefusal) { next.state.erase(v); if (next.working == v) next.working.clear(); }
                vm.removeVariant(v);
            } else if (k <= 9) {
                std::string v = rng.chance(85) ? rng.pick(known) : name();
                what = "select " + v;
                expectRefusal = !m.state.count(v);
                if (!expectRefusal) next.working = v;
                vm.setWorkingVariant(v);
            } else {
                if (m.working.empty() || ps.empty()) {
                    // without working variant a value cannot be read or written
                    if (!m.working.empty() || ps.empty()) continue;
                    for (int i = 0; i < 5; ++i) {
                        Pick p = rng.pick(ps);
                        bool r1 = refused([&]() { p.a->get(p.h.p); });
                        VCHECK(r1, "read-without-variant:" + p.h.kind + "." + p.a->name, pickName(p));
                        R.count("reads_without_variant");
                    }
                    continue;
                }
                what = "write in " + m.working;
                for (int i = 0; i < 6; ++i) {
                    Pick p = rng.pick(ps);
                    double v = p.a->gen(rng, p.h.p);
                    refused([&]() { p.a->set(p.h.p, v); });
                }
                next.state[m.working] = dump(n, DV | DT);
            }
        } catch (const std::exception& e) {
            if (!isLibraryError(e)) violation("error-type", what + ": " + typeName(e) + " " + e.what());
            got = true;
        }
        logOp(what + (got ? " refused" : ""));
        hist += what.substr(0, 2) + (got ? "!" : "");
        R.count(got ? "refused" : "accepted");
        if (!either) VCHECK(got == expectRefusal, expectRefusal ? "accepted-invalid" : "refused-valid", what);
        if (!got) m = next;
        check(what);
        if (got || rng.chance(25)) deep(what);
        check(what + " (after reading)");
    }
    deep("end");
    R.seen("cover", hist);
    std::string list;
    for (auto& kv : m.state) list += kv.first + ",";
    R.seen("final_maps", list + "|" + m.working);
}
