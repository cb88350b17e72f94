// P13: anonymised exports. P12 (part): export and import options.
#include "pick.hpp"
#include "xmlio.hpp"
#include "xmlwork.hpp"
#include <boost/filesystem.hpp>
#include <boost/filesystem/fstream.hpp>
#include <powsybl/iidm/converter/SimpleAnonymizer.hpp>
using namespace vmon;
using namespace powsybl::iidm;

namespace {
std::string slurp(const std::string& f) {
    boost::filesystem::ifstream is{boost::filesystem::path(f)};
    std::ostringstream os;
    os << is.rdbuf();
    return os.str();
}
std::string unescape(const std::string& s) {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '&') { o += s[i]; continue; }
        size_t e = s.find(';', i);
        std::string n = s.substr(i + 1, e - i - 1);
        if (n == "lt") o += '<';
        else if (n == "gt") o += '>';
        else if (n == "amp") o += '&';
        else if (n == "quot") o += '"';
        else if (n == "apos") o += '\'';
        else if (n[0] == '#') {
            unsigned long c = n[1] == 'x' ? std::stoul(n.substr(2), nullptr, 16) : std::stoul(n.substr(1));
            if (c < 0x80) o += static_cast<char>(c);
            else if (c < 0x800) { o += static_cast<char>(0xc0 | (c >> 6)); o += static_cast<char>(0x80 | (c & 0x3f)); }
            else { o += static_cast<char>(0xe0 | (c >> 12)); o += static_cast<char>(0x80 | ((c >> 6) & 0x3f)); o += static_cast<char>(0x80 | (c & 0x3f)); }
        }
        i = e;
    }
    return o;
}
struct Token { std::string what, value; };
// markup, attribute values and texts of a document, in order
std::vector<Token> tokens(const std::string& x) {
    std::vector<Token> v;
    size_t i = 0;
    while (i < x.size()) {
        if (x[i] == '<') {
            std::string raw;
            while (i < x.size() && x[i] != '>') {
                if (x[i] == '"') {
                    size_t e = x.find('"', i + 1);
                    v.push_back(Token{raw, ""});
                    v.push_back(Token{raw, unescape(x.substr(i + 1, e - i - 1))});
                    raw.clear();
                    i = e + 1;
                } else raw += x[i++];
            }
            v.push_back(Token{raw, ""});
            ++i;
        } else {
            size_t e = x.find('<', i);
            if (e == std::string::npos) e = x.size();
            v.push_back(Token{"text", unescape(x.substr(i, e - i))});
            i = e;
        }
    }
    return v;
}
std::vector<std::string> split(const std::string& s, char c) {
    std::vector<std::string> v;
    std::string cur;
    for (char ch : s) if (ch == c) { v.push_back(cur); cur.clear(); } else cur += ch;
    v.push_back(cur);
    return v;
}
bool parseMapping(const std::string& text, std::map<std::string, std::string>& to, std::map<std::string, std::string>& from, std::vector<std::string>& lines) {
    std::istringstream is(text);
    std::string line;
    while (std::getline(is, line)) {
        lines.push_back(line);
        auto p = line.rfind(';');
        if (p == std::string::npos) { violation("mapping:format", line); return false; }
        std::string a = line.substr(0, p), b = line.substr(p + 1);
        VCHECK(!to.count(a), "mapping:original-twice", line);
        VCHECK(!from.count(b), "mapping:replacement-twice", line);
        VCHECK(!a.empty() && !b.empty(), "mapping:empty", line);
        to[a] = b;
        from[b] = a;
    }
    return true;
}
struct Scratch {
    std::string f = fileName();
    std::string csv() const { return f.substr(0, f.size() - 6) + ".csv"; }
    ~Scratch() {
        boost::system::error_code ec;
        boost::filesystem::remove(f, ec);
        boost::filesystem::remove(csv(), ec);
    }
};
}  // namespace

MODULE(anonymised) {
    Network n("net", "test");
    Gen g(n, rng.u64());
    g.weird = rng.chance(50);
    g.mark = "zQ9";
    if (rng.chance(20)) g.nbAllowed = false;
    populate(n, g, rng, static_cast<int>(rng.range(2, 35)));
    undefinedSteps(n, true);
    int v = rng.chance(70) ? 5 : static_cast<int>(rng.below(5));
    TopologyLevel level = rng.chance(70) ? TopologyLevel::NODE_BREAKER : rng.chance(50) ? TopologyLevel::BUS_BREAKER : TopologyLevel::BUS_BRANCH;
    ExportOptions o;
    o.setIndent(rng.chance(50)).setTopologyLevel(level).setVersion("1." + std::to_string(v)).setIidmVersionIncompatibilityBehavior(ExportOptions::IidmVersionIncompatibilityBehavior::LOG_ERROR);
    Scratch f, f2;
    std::string plain, why;
    try {
        plain = toXml(n, o, f.f);
    } catch (const std::exception& e) {
        if (!isLibraryError(e)) throw;
        R.count("refused_exports");
        return;
    }
    o.setAnonymized(true);
    std::string x;
    bool files = rng.chance(30);
    if (files) {
        Network::writeXml(boost::filesystem::path(f.f), n, o);
        x = slurp(f.f);
    } else x = toXml(n, o, f.f);
    R.count("anonymised_exports");
    R.seen("cover", S((ulong_t)hashStr(x)));
    VCHECK(boost::filesystem::exists(f.csv()), "mapping:missing", f.csv());
    // nothing recognisable remains
    auto p = x.find(g.mark);
    VCHECK(p == std::string::npos, "identifier-visible", p == std::string::npos ? "" : x.substr(p > 120 ? p - 120 : 0, 240));
    std::string mapping = slurp(f.csv());
    std::map<std::string, std::string> to, from;
    std::vector<std::string> lines;
    if (!parseMapping(mapping, to, from, lines)) return;
    R.count("mapping_entries", lines.size());
    for (auto& kv : from) VCHECK(kv.first.find(g.mark) == std::string::npos, "mapping:replacement-recognisable", kv.first);
    // the document is the plain one whose identifiers are replaced, the same way everywhere
    auto tp = tokens(plain), tx = tokens(x);
    VCHECK(tp.size() == tx.size(), "other-structure", S((ulong_t)tp.size()) + " vs " + S((ulong_t)tx.size()));
    if (tp.size() == tx.size()) {
        for (size_t i = 0; i < tp.size(); ++i) {
            VCHECK(tp[i].what == tx[i].what, "other-structure:markup", tp[i].what + " vs " + tx[i].what);
            if (tp[i].value.find(g.mark) == std::string::npos) { VCHECK(tp[i].value == tx[i].value || to.count(tp[i].value), "other-value", tp[i].what + ": " + tp[i].value + " vs " + tx[i].value); continue; }
            R.count("replaced_values");
            bool same = to.count(tp[i].value) && to[tp[i].value] == tx[i].value;
            if (!same && tp[i].what.find("geographicalTags") != std::string::npos) {
                auto a = split(tp[i].value, ','), b = split(tx[i].value, ',');
                same = a.size() == b.size();
                for (size_t k = 0; same && k < a.size(); ++k) same = to.count(a[k]) && to[a[k]] == b[k];
            }
            VCHECK(same, "replaced-otherwise", tp[i].what + ": " + tp[i].value + " by " + tx[i].value);
        }
    }
    // restored by its mapping (same outcome as the plain document)
    boost::filesystem::remove(f2.csv());
    std::unique_ptr<Network> ref, m;
    try { ref.reset(new Network(fromXml(plain, ImportOptions(), f2.f))); } catch (const std::exception& e) { if (!isLibraryError(e)) throw; why = e.what(); }
    std::string why2;
    try { m.reset(new Network(files ? Network::readXml(boost::filesystem::path(f.f)) : fromXml(x, ImportOptions(), f.f))); } catch (const std::exception& e) { if (!isLibraryError(e)) throw; why2 = e.what(); }
    VCHECK(static_cast<bool>(ref) == static_cast<bool>(m), "restored:outcome", why + " / " + why2);
    if (!ref || !m) { R.count("unreadable_both"); return; }
    DumpMap a = dump(*ref), b = dump(*m);
    R.count("checks", a.size());
    for (auto& k : diffKeys(a, b)) violation("restored:" + attrOfKey(k), k + ": " + (a.count(k) ? a[k] : "absent") + " -> " + (b.count(k) ? b[k] : "absent"));
    if (v == 5 && level == TopologyLevel::NODE_BREAKER) {
        DumpMap d = dump(n), e = b;
        dropUnserializable(d);
        dropUnserializable(e);
        for (auto& k : diffKeys(d, e)) violation("restored-from-original:" + attrOfKey(k), k + ": " + (d.count(k) ? d[k] : "absent") + " -> " + (e.count(k) ? e[k] : "absent"));
    }
    // exported again: same replacements
    std::string x2 = toXml(n, o, f2.f);
    VCHECK(x2 == x && slurp(f2.csv()) == mapping, "anonymised-twice-differently", "");
    // a mapping which lacks an entry in use
    std::set<std::string> used;
    for (auto& t : tx) {
        if (t.what.find("geographicalTags") != std::string::npos) for (auto& s : split(t.value, ',')) used.insert(s);
        else used.insert(t.value);
    }
    std::vector<size_t> candidates;
    for (size_t i = 0; i < lines.size(); ++i) if (used.count(lines[i].substr(lines[i].rfind(';') + 1))) candidates.push_back(i);
    VCHECK(candidates.size() == lines.size(), "mapping:unused-entry", S((ulong_t)candidates.size()) + " of " + S((ulong_t)lines.size()));
    if (candidates.empty()) return;
    for (int k = 0; k < 2; ++k) {
        size_t gone = rng.pick(candidates);
        {
            boost::filesystem::ofstream os{boost::filesystem::path(f2.csv())};
            for (size_t i = 0; i < lines.size(); ++i) if (i != gone) os << lines[i] << "\n";
        }
        bool ref2 = refused([&] { fromXml(x, ImportOptions(), f2.f); });
        VCHECK(ref2, "incomplete-mapping-accepted", "without " + lines[gone]);
        R.count("incomplete_mappings");
    }
}

MODULE(anonymizer) {
    converter::SimpleAnonymizer a;
    std::map<std::string, std::string> to, from;
    int n = static_cast<int>(rng.chance(20) ? rng.range(700, 1600) : rng.range(1, 120));
    auto str = [&]() {
        switch (rng.below(5)) {
            case 0: return std::string();
            case 1: { std::string s; for (int i = static_cast<int>(rng.range(1, 2)); i > 0; --i) s += static_cast<char>('A' + rng.below(26)); return s; }      // looks like a replacement
            case 2: return std::string("a;b") + std::to_string(rng.below(30)) + ";";
            case 3: return "\xC3\xA9 " + std::to_string(rng.below(60));
            default: return "id" + std::to_string(rng.below(static_cast<uint64_t>(2 * n)));
        }
    };
    for (int i = 0; i < n; ++i) {
        std::string s = str();
        if (rng.chance(15)) {
            // not known: refused, whatever it looks like
            std::string q = rng.chance(50) ? s : s + "?";
            std::string back, err;
            bool known = q.empty() || from.count(q) > 0;
            try { back = a.deanonymizeString(q); } catch (const std::exception& e) { if (!isLibraryError(e)) throw; err = e.what(); }
            VCHECK(err.empty() == known && (!known || back == (q.empty() ? "" : from[q])), "deanonymize", S(q) + " -> " + S(back) + " " + err);
            VCHECK(a.getStringCount() == to.size(), "count-after-lookup", S((ulong_t)a.getStringCount()));
            continue;
        }
        std::string r = a.anonymizeString(s);
        if (s.empty()) { VCHECK(r.empty(), "empty", S(r)); continue; }
        auto it = to.find(s);
        if (it != to.end()) VCHECK(it->second == r, "replaced-otherwise", S(s) + " by " + S(it->second) + " then " + S(r));
        else {
            VCHECK(!from.count(r), "replacement-shared", S(r) + " for " + S(s) + " and " + S(from[r]));
            VCHECK(!r.empty() && r.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZ") == std::string::npos, "replacement-alphabet", S(r));
            to[s] = r;
            from[r] = s;
        }
        VCHECK(a.getStringCount() == to.size(), "count", S((ulong_t)a.getStringCount()) + " expected " + S((ulong_t)to.size()));
        auto c = static_cast<Country>(rng.below(200));
        VCHECK(a.deanonymizeCountry(a.anonymizeCountry(c)) == c, "country", "");
    }
    std::ostringstream os;
    a.write(os);
    std::istringstream is(os.str());
    converter::SimpleAnonymizer b;
    b.read(is);
    VCHECK(b.getStringCount() == to.size(), "mapping-read:count", S((ulong_t)b.getStringCount()));
    for (auto& kv : to) {
        for (auto* z : {&a, &b}) {
            std::string back;
            try { back = z->deanonymizeString(kv.second); } catch (const std::exception& e) { if (!isLibraryError(e)) throw; back = e.what(); }
            VCHECK(back == kv.first, "mapping-read:restored", S(kv.second) + " -> " + S(back) + " expected " + S(kv.first));
        }
        VCHECK(b.anonymizeString(kv.first) == kv.second, "mapping-read:replaced", S(kv.first));
    }
    // used further after having been read
    for (int i = 0; i < 30; ++i) {
        std::string s = "new" + std::to_string(rng.below(40));
        std::string r = b.anonymizeString(s);
        auto it = to.find(s);
        if (it != to.end()) VCHECK(it->second == r, "extended:replaced-otherwise", S(s));
        else { VCHECK(!from.count(r), "extended:replacement-shared", S(r)); to[s] = r; from[r] = s; }
    }
    std::istringstream bad("no separator");
    VCHECK(refused([&] { converter::SimpleAnonymizer z; z.read(bad); }), "malformed-mapping-accepted", "");
    R.seen("cover", "strings " + S((ulong_t)to.size()));
}

// branch flows, extensions: leaving them out leaves out nothing else
MODULE(options) {
    static const std::vector<std::string> EXTS = {"activePowerControl", "branchStatus", "busbarSectionPosition", "coordinatedReactiveControl", "detail", "discreteMeasurements", "entsoeArea", "hvdcAngleDroopActivePowerControl", "hvdcOperatorActivePowerRange",
        "measurements", "mergedXnode", "position", "slackTerminal", "threeWindingsTransformerPhaseAngleClock", "twoWindingsTransformerPhaseAngleClock", "voltagePerReactivePowerControl", "xnode"};
    Network n("net", "test");
    Gen g(n, rng.u64());
    populate(n, g, rng, static_cast<int>(rng.range(2, 30)));
    for (int i = static_cast<int>(rng.below(20)); i > 0; --i) g.random(rng, "x");
    undefinedSteps(n, true);
    ExportOptions o;
    ImportOptions in;
    bool flows = rng.chance(50);
    o.setWithBranchSV(flows).setIndent(rng.chance(50));
    std::set<std::string> ex, im;
    if (rng.chance(60)) { for (auto& e : EXTS) if (rng.chance(40)) ex.insert(e); }
    if (rng.chance(40)) { for (auto& e : EXTS) if (rng.chance(60)) im.insert(e); }
    if (rng.chance(50)) o.setExtensions(ex); else for (auto& e : ex) o.addExtension(e);
    if (rng.chance(50)) in.setExtensions(im); else for (auto& e : im) in.addExtension(e);
    auto kept = [&](const std::string& e) { return (ex.empty() || ex.count(e)) && (im.empty() || im.count(e)); };
    bool strict = rng.chance(30);
    o.setThrowExceptionIfExtensionNotFound(strict);
    in.setThrowExceptionIfExtensionNotFound(rng.chance(50));
    bool without = false;          // has an extension which has no serializer and is not left out by the options
    for (auto& h : handles(n)) if (h.kind == "X:generatorRemoteReactivePowerControl" && (ex.empty() || ex.count("generatorRemoteReactivePowerControl"))) without = true;
    std::string x, why;
    try { x = toXml(n, o); } catch (const std::exception& e) { if (!isLibraryError(e)) throw; why = e.what(); }
    VCHECK(why.empty() == !(strict && without), "extension-without-serializer", why);
    if (!why.empty()) { R.count("refused_exports"); return; }
    Network m = fromXml(x, in);
    DumpMap a = dump(n), b = dump(m);
    dropUnserializable(a);
    dropUnserializable(b);
    R.count("checks", a.size());
    std::set<const void*> branchTerms;
    std::set<std::string> branchKeys;
    for (auto& id : n.getIdentifiables()) {
        Identifiable& i = const_cast<Identifiable&>(static_cast<const Identifiable&>(id));
        if (!dynamic_cast<Branch*>(&i) && !dynamic_cast<ThreeWindingsTransformer*>(&i)) continue;
        for (Terminal* t : terminalsOf(i)) branchKeys.insert(tname(*t));
    }
    std::string left;
    for (auto& k : diffKeys(a, b)) {
        std::string at = attrOfKey(k), id = k.substr(0, k.size() - at.size() - 1);
        std::string av = a.count(k) ? a[k] : "absent", bv = b.count(k) ? b[k] : "absent";
        if (!flows && (at == "getP" || at == "getQ") && branchKeys.count(id) && bv == "nan") { R.count("flows_left_out"); continue; }
        auto p = k.find("/x:");
        if (p != std::string::npos) {
            std::string e = k.substr(p + 3);
            e = e.substr(0, e.find_first_of("./#"));
            if (!kept(e) && bv == "absent") { R.count("extension_values_left_out"); continue; }
        }
        if (at == "exts") {
            std::string w;
            for (auto& e : split(av, ';')) if (!e.empty() && kept(e)) w += e + ";";
            if (w == bv || (w.empty() && bv == "absent")) { R.count("extensions_left_out"); continue; }
        }
        violation("options:" + at, k + ": " + av + " -> " + bv);
    }
    // branch flows are really left out
    if (!flows) for (Terminal* t : allTerminals(m)) if (branchKeys.count(tname(*t))) VCHECK(std::isnan(t->getP()) && std::isnan(t->getQ()), "flow-exported", tname(*t));
    for (auto& kv : b) {
        auto p = kv.first.find("/x:");
        if (p == std::string::npos) continue;
        std::string e = kv.first.substr(p + 3);
        e = e.substr(0, e.find_first_of("./#"));
        VCHECK(kept(e), "extension-not-left-out", kv.first);
    }
    R.seen("cover", S(flows) + S((ulong_t)ex.size()) + "/" + S((ulong_t)im.size()) + " " + S((ulong_t)hashStr(x)));
}
