// P14: reading altered documents never does worse than an error.
#include "pick.hpp"
#include "oracle.hpp"
#include "xmlio.hpp"
#include "xmlwork.hpp"
#include <powsybl/iidm/VariantManager.hpp>
#include <sanitizer/allocator_interface.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VMON_ASAN 1
#endif
#endif
using namespace vmon;
using namespace powsybl::iidm;
using powsybl::iidm::converter::ExportOptions;

namespace {
struct AttrPos { size_t name, nameEnd, val, valEnd; };                   // value without quotes
struct Tag { size_t begin, end; bool open, close, empty; std::string name; std::vector<AttrPos> attrs; size_t match = 0; };   // [begin,end)
std::vector<Tag> parse(const std::string& x) {
    std::vector<Tag> v;
    std::vector<size_t> stack;
    for (size_t i = 0; i < x.size();) {
        if (x[i] != '<') { ++i; continue; }
        size_t e = i + 1;
        if (x.compare(i, 4, "<!--") == 0) { e = x.find("-->", i); i = e == std::string::npos ? x.size() : e + 3; continue; }
        if (i + 1 < x.size() && (x[i + 1] == '?' || x[i + 1] == '!')) { e = x.find('>', i); i = e == std::string::npos ? x.size() : e + 1; continue; }
        Tag t;
        t.begin = i;
        t.close = i + 1 < x.size() && x[i + 1] == '/';
        t.open = !t.close;
        size_t p = i + 1 + t.close;
        size_t q = p;
        while (q < x.size() && !std::strchr(" />\n\t\r", x[q])) ++q;
        t.name = x.substr(p, q - p);
        while (q < x.size() && x[q] != '>') {
            while (q < x.size() && std::strchr(" \n\t\r/", x[q])) ++q;
            if (q >= x.size() || x[q] == '>') break;
            AttrPos a;
            a.name = q;
            while (q < x.size() && !std::strchr("= >", x[q])) ++q;
            a.nameEnd = q;
            if (q >= x.size()) break;
            if (x[q] != '=' || q + 2 >= x.size()) { if (q == a.name || x[q] == '=') ++q; continue; }
            char c = x[q + 1];
            a.val = q + 2;
            q = x.find(c, a.val);
            if (q == std::string::npos) q = x.size();
            a.valEnd = q;
            t.attrs.push_back(a);
            if (q < x.size()) ++q;
        }
        t.end = std::min(q + 1, x.size());
        t.empty = t.open && t.end >= 2 && x[t.end - 2] == '/';
        v.push_back(t);
        size_t k = v.size() - 1;
        if (t.close) { if (!stack.empty()) { v[stack.back()].match = k; v[k].match = stack.back(); stack.pop_back(); } }
        else if (!t.empty) stack.push_back(k);
        else v[k].match = k;
        i = t.end;
    }
    return v;
}
bool integer(const std::string& s) { return !s.empty() && s.size() < 12 && s.find_first_of("0123456789", s[0] == '-') < 2 && s.find_first_not_of("0123456789", s[0] == '-') == std::string::npos; }
std::string junk(Rng& rng, int n) { std::string s; for (int i = 0; i < n; ++i) s += static_cast<char>(rng.below(256)); return s; }

// one alteration; the counts of the document's sizes stay within what a document of that size may ask for
std::string mutate(Rng& rng, const std::string& x, const std::string& other, std::string& what) {
    auto tags = parse(x);
    auto any = [&](bool attrs) -> Tag* { for (int i = 0; i < 20 && !tags.empty(); ++i) { Tag& t = tags[rng.below(tags.size())]; if (t.open && (!attrs || !t.attrs.empty())) return &t; } return nullptr; };
    std::string s = x;
    int k = static_cast<int>(rng.below(22));
    what = S(k);
    switch (k) {
        case 0: { for (int i = static_cast<int>(rng.range(1, 4)); i > 0 && !s.empty(); --i) s[rng.below(s.size())] ^= static_cast<char>(1u << rng.below(8)); break; }
        case 1: if (!s.empty()) s.resize(rng.below(s.size())); break;
        case 2: s.insert(rng.below(s.size() + 1), rng.of({std::string("<"), std::string(">"), std::string("&"), std::string("&amp"), std::string("\0", 1), std::string("]]>"), std::string("<![CDATA[x]]>"), std::string("<!-- c -->"), std::string("&#0;"), std::string("&#x10FFFF;"), std::string("\xff\xfe"), std::string("<a/>"), std::string("text"), std::string("<?pi x?>")})); break;
        case 3: case 4: case 5: case 6: case 7: {   // another value
            Tag* t = any(true);
            if (!t) break;
            auto& a = rng.pick(t->attrs);
            std::string old = x.substr(a.val, a.valEnd - a.val), name = x.substr(a.name, a.nameEnd - a.name);
            static const std::vector<std::string> vals = {"", "NaN", "nan", "-1", "0", "1", "2", "-0.0", "1e400", "-1e400", "1e-320", "Infinity", "-INF", "inf", "0x10", "1,5", "1 ", " 1", "+3", "3.7", "true", "false", "TRUE", "yes", "null", "abc", "1;2", "é", "-2147483648",
                "NODE_BREAKER", "BUS_BREAKER", "BREAKER", "1.2.3", "9999-99-99T99:99:99Z", "2020-01-01T00:00:00.000+00:00", "FR", "\xc3\x28", "1e5", "12.0e", "--1", "0-1", "1-"};
            static const std::vector<std::string> ints = {"2147483647", "2147483648", "4294967295", "-2147483649", "9223372036854775807", "18446744073709551616", "99999999999999999999999", "1500"};
            std::string v;
            int c = static_cast<int>(rng.below(6));
            // node numbers are the one thing whose size the document does not bound: kept reasonable
            bool node = name.find("ode") != std::string::npos;
            if (c <= 2) v = rng.pick(vals);
            else if (c == 3 && !node) v = rng.pick(ints);
            else if (c == 4) { Tag* u = any(true); if (u) { auto& b = rng.pick(u->attrs); v = x.substr(b.val, b.valEnd - b.val); } }
            else if (integer(old)) v = std::to_string(std::stoll(old) + rng.range(-3, 3));
            else v = old + rng.of({"0", " ", "x", "."});
            if (node && v.size() > 4 && v.find_first_not_of("0123456789") == std::string::npos) v = "77";
            if (node && (v.find('e') != std::string::npos)) v = "5";
            s.replace(a.val, a.valEnd - a.val, v);
            what += " " + name;
            break;
        }
        case 8: { Tag* t = any(true); if (t) { auto& a = rng.pick(t->attrs); what += " " + x.substr(a.name, a.nameEnd - a.name); s.erase(a.name, a.valEnd + 1 - a.name); } break; }
        case 9: { Tag* t = any(true); if (t) { auto& a = rng.pick(t->attrs); s.insert(a.name, x.substr(a.name, a.valEnd + 1 - a.name) + " "); } break; }
        case 10: { Tag* t = any(true); if (t) { auto& a = rng.pick(t->attrs); s.replace(a.name, a.nameEnd - a.name, rng.of({"id", "name", "r", "node", "bus", "zz", "iidm:id", "xmlns", "xmlns:q", "p0", "x:y:z"})); } break; }
        case 11: case 12: { Tag* t = any(false); if (t && t->match) { size_t e = tags[t->match].end; what += " " + t->name; s.erase(t->begin, e - t->begin); } break; }    // element gone
        case 13: case 14: { Tag* t = any(false); if (t && t->match) { size_t e = tags[t->match].end; if (e - t->begin < 20000) { what += " " + t->name; s.insert(e, x.substr(t->begin, e - t->begin)); } } break; }   // twice
        case 15: case 16: {   // moved elsewhere
            Tag *t = any(false), *u = any(false);
            if (t && u && t->match && (u->begin < t->begin || u->begin >= tags[t->match].end)) {
                size_t e = tags[t->match].end;
                std::string el = x.substr(t->begin, e - t->begin);
                size_t to = rng.chance(50) ? u->end : u->begin;
                what += " " + t->name + " to " + u->name;
                if (u->empty && to == u->end && rng.chance(30)) to = u->begin;
                if (to <= t->begin) { s.erase(t->begin, el.size()); s.insert(to, el); } else { s.insert(to, el); s.erase(t->begin, el.size()); }
            }
            break;
        }
        case 17: { Tag* t = any(false); if (t) { std::string nn = rng.of({"iidm:load", "iidm:network", "iidm:substation", "iidm:bus", "iidm:property", "iidm:alias", "iidm:extension", "iidm:line", "zz", "iidm:zz", "slt:slackTerminal", "iidm:currentLimits1", "iidm:step", "iidm:terminalRef", "iidm:shuntLinearModel", "iidm:reactiveCapabilityCurve", "a:b:c", "iidm:"});
                        what += " " + t->name; if (t->match && !t->empty) { Tag& c = tags[t->match]; s.replace(c.begin + 2, c.name.size(), nn); } s.replace(t->begin + 1, t->name.size(), nn); } break; }
        case 18: { size_t p = s.find("/1_"); if (p != std::string::npos) s[p + 3] = static_cast<char>('0' + rng.below(10)); what += " version"; break; }
        case 19: {   // an element of another document
            auto ot = parse(other);
            Tag* u = any(false);
            for (int i = 0; i < 20 && u && !ot.empty(); ++i) {
                Tag& t = ot[rng.below(ot.size())];
                if (!t.open || !t.match || t.name.find("network") != std::string::npos) continue;
                size_t e = ot[t.match].end;
                if (e - t.begin > 20000) continue;
                what += " " + t.name + " to " + u->name;
                s.insert(rng.chance(50) ? u->end : u->begin, other.substr(t.begin, e - t.begin));
                break;
            }
            break;
        }
        case 20: { size_t a = rng.below(s.size() + 1), l = rng.below(60); s.replace(a, std::min(l, s.size() - a), junk(rng, static_cast<int>(rng.below(40)))); break; }
        default: {   // numbers or names changed everywhere at once
            Tag* t = any(true);
            if (!t) break;
            auto& a = rng.pick(t->attrs);
            std::string old = x.substr(a.val, a.valEnd - a.val);
            if (old.empty() || (x.substr(a.name, a.nameEnd - a.name).compare(0, 5, "xmlns") == 0 && rng.chance(80))) break;
            std::string to = rng.of({"same", "0", "-3.5"}), from = "\"" + old + "\"";
            to = "\"" + to + "\"";
            int n = 0;
            for (size_t p = s.find(from); p != std::string::npos && n < 200; p = s.find(from, p + to.size()), ++n) s.replace(p, from.size(), to);
            what += " all";
        }
    }
    return s;
}
size_t bytes() {
#ifdef VMON_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}
// what reading says, without keeping anything
struct Outcome { bool ok = false; uint64_t why = 0; };
Outcome readOnly(const std::string& s) {
    Outcome o;
    try { Network m = fromXml(s); o.ok = true; }
    catch (const std::exception& e) { o.why = hashStr(e.what()); }
    return o;
}
void judge(const std::string& s, const std::string& what) {
    std::string why;
    bool ok = false;
    R.count("documents");
    try {
        Network m = fromXml(s);
        ok = true;
        R.count("documents_accepted");
        checkSane(m, "accepted:");
        m.getVariantManager().setWorkingVariant(m.getVariantManager().getInitialVariantId());
        bool undefined = undefinedSteps(m, false);
        std::string again, e1;
        try { again = toXml(m); } catch (const std::exception& e) { e1 = e.what(); }
        VCHECK(e1.empty(), "accepted-not-exportable", what + ": " + e1);
        R.count("documents_exported");
        if (e1.empty() && !undefined) {
            // and what was accepted is a network like another one
            DumpMap a = dump(m, DS | DV);
            try {
                Network m2 = fromXml(again);
                DumpMap b = dump(m2, DS | DV);
                dropUnserializable(a);
                dropUnserializable(b);
                std::string d = diff(a, b);
                VCHECK(d.empty(), "accepted-not-restored:" + attrOfKey(firstDiffKey(d)), what + ": " + d);
            } catch (const StopCase&) { throw; }
            catch (const std::exception& e) { VCHECK(false, "accepted-not-readable", what + ": " + e.what()); }
        }
    } catch (const StopCase&) { throw; }
    catch (const std::exception& e) {
        if (ok) throw;
        why = e.what();
        R.count("documents_refused");
    } catch (...) { violation("non-standard-exception", what); }
    std::string w = why.substr(0, 60);
    for (char& c : w) if (c >= '0' && c <= '9') c = '9';
    R.seen("cover", what + " " + (ok ? "accepted" : w));
}
}  // namespace

MODULE(mutations) {
    std::vector<std::string> docs;
    for (int i = 0; i < 2; ++i) {
        Network n("net", "test");
        Gen g(n, rng.u64());
        int v = static_cast<int>(rng.range(0, 5));
        if (rng.chance(60)) v = 5;
        g.fmt = v;
        populate(n, g, rng, static_cast<int>(rng.range(1, 12)));
        undefinedSteps(n, true);
        for (int k = static_cast<int>(rng.below(12)); k > 0; --k) g.random(rng, "x");
        ExportOptions o;
        o.setIndent(rng.chance(70)).setAnonymized(false);
        if (v < 5) o.setVersion("1." + std::to_string(v));
        o.setIidmVersionIncompatibilityBehavior(ExportOptions::IidmVersionIncompatibilityBehavior::LOG_ERROR);
        try { docs.push_back(toXml(n, o)); } catch (const std::exception& e) { if (!isLibraryError(e)) throw; }
    }
    if (docs.empty()) return;
    if (docs.size() == 1) docs.push_back(docs[0]);
    int m = C.thorough ? 60 : 30;
    std::string held;
    for (int i = 0; i < m; ++i) {
        std::string s = docs[rng.below(2)], what, all;
        int times = rng.chance(70) ? 1 : static_cast<int>(rng.range(2, 6));
        for (int k = 0; k < times; ++k) { s = mutate(rng, s, docs[rng.below(2)], what); all += (k ? " + " : "") + what; }
        logOp(all);
        if (C.verbose && C.params.count("save")) { FILE* f = std::fopen(C.params["save"].c_str(), "wb"); std::fwrite(s.data(), 1, s.size(), f); std::fclose(f); }
        judge(s, times > 3 ? "many" : all);
        if (rng.chance(12)) {
            // reading again and again holds no more memory
            Outcome o1 = readOnly(s);
            size_t b0 = bytes();
            Outcome o2 = readOnly(s);
            size_t b1 = bytes();
            R.count("leak_probes");
            VCHECK(o1.ok == o2.ok && o1.why == o2.why, "reading-again-differs", all);
            if (b1 > b0) {
                readOnly(s);
                size_t b2 = bytes();
                readOnly(s);
                size_t b3 = bytes();
                VCHECK(!(b2 > b1 && b3 > b2), "leak", all + ": " + S((ulong_t)(b1 - b0)) + " " + S((ulong_t)(b2 - b1)) + " " + S((ulong_t)(b3 - b2)) + " bytes");
            }
        }
    }
}
// bytes which are not even documents
MODULE(garbage) {
    for (int i = 0; i < 20; ++i) {
        std::string s;
        int k = static_cast<int>(rng.below(8));
        if (k == 0) s = junk(rng, static_cast<int>(rng.below(300)));
        else if (k == 1) s = "<?xml version=\"1.0\" encoding=\"" + std::string(rng.of({"UTF-8", "UTF-16", "ISO-8859-1", "nope", ""})) + "\"?>" + junk(rng, static_cast<int>(rng.below(100)));
        else if (k == 2) { int n = static_cast<int>(rng.range(1, 600)); for (int j = 0; j < n; ++j) s += "<a>"; }
        else if (k == 3) { s = "<iidm:network xmlns:iidm=\"http://www.powsybl.org/schema/iidm/1_5\" id=\"n\" caseDate=\"2020-01-01T00:00:00.000+00:00\" forecastDistance=\"0\" sourceFormat=\"t\">"; if (rng.chance(50)) s += junk(rng, 10); if (rng.chance(70)) s += "</iidm:network>"; }
        else if (k == 4) { s = std::string("\xef\xbb\xbf") + "<a/>"; }
        else if (k == 5) { s = "<!DOCTYPE a [<!ENTITY b \"cccccccccc\"><!ENTITY d \"&b;&b;&b;&b;&b;&b;&b;&b;\"><!ENTITY e \"&d;&d;&d;&d;&d;&d;&d;&d;\">]><a x=\"&e;\">&e;</a>"; }
        else if (k == 6) { s = "<iidm:network xmlns:iidm=\"http://www.powsybl.org/schema/iidm/1_" + S(static_cast<int>(rng.below(12))) + "\" id=\"" + std::string(rng.below(3000), 'i') + "\" caseDate=\"" + rng.of({"2020-01-01", "x", "", "2020-01-01T00:00:00.000+00:00", "99999999999"}) + "\" forecastDistance=\"" + rng.of({"0", "-1", "x", "99999999999"}) + "\" sourceFormat=\"\"/>"; }
        else { std::string o = "<iidm:network"; s = o + junk(rng, 30) + "/>"; }
        logOp("garbage " + S(k));
        judge(s, "garbage " + S(k) + (k == 6 ? " " + S((ulong_t)(hashStr(s) % 64)) : ""));
        Outcome o1 = readOnly(s);
        size_t b0 = bytes();
        Outcome o2 = readOnly(s);
        size_t b1 = bytes();
        readOnly(s);
        size_t b2 = bytes();
        readOnly(s);
        size_t b3 = bytes();
        R.count("leak_probes");
        VCHECK(!(b1 > b0 && b2 > b1 && b3 > b2), "leak", "garbage " + S(k));
        VCHECK(o1.ok == o2.ok && o1.why == o2.why, "reading-again-differs", "garbage " + S(k));
    }
}
