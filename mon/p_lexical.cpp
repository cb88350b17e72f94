// P27: the content of a document matters, not its lexical form.
#include "oracle.hpp"
#include "pick.hpp"
#include "xmlio.hpp"
#include "xmlwork.hpp"
using namespace vmon;
using namespace powsybl::iidm;

namespace {
struct Piece {
    enum Kind { TEXT, OPEN, EMPTY, CLOSE, OTHER } kind = TEXT;
    std::string text;                                     // of texts and other things
    std::string name;                                     // of tags
    std::vector<std::pair<std::string, std::string>> attrs;  // raw values
};
// what the writer writes: no comment, no CDATA, double quotes
std::vector<Piece> split(const std::string& x) {
    std::vector<Piece> r;
    size_t i = 0;
    while (i < x.size()) {
        Piece p;
        if (x[i] != '<') {
            size_t e = std::min(x.find('<', i), x.size());
            p.text = x.substr(i, e - i);
            i = e;
        } else if (x[i + 1] == '?') {
            size_t e = x.find("?>", i) + 2;
            p.kind = Piece::OTHER;
            p.text = x.substr(i, e - i);
            i = e;
        } else if (x[i + 1] == '/') {
            size_t e = x.find('>', i);
            p.kind = Piece::CLOSE;
            p.name = x.substr(i + 2, e - i - 2);
            i = e + 1;
        } else {
            size_t e = x.find_first_of(" \n/>", i + 1);
            p.name = x.substr(i + 1, e - i - 1);
            while (true) {
                e = x.find_first_not_of(" \n", e);
                if (x[e] == '/' || x[e] == '>') break;
                size_t q = x.find('=', e), c = x.find('"', q + 2);
                p.attrs.emplace_back(x.substr(e, q - e), x.substr(q + 2, c - q - 2));
                e = c + 1;
            }
            p.kind = x[e] == '/' ? Piece::EMPTY : Piece::OPEN;
            i = x.find('>', e) + 1;
        }
        r.push_back(p);
    }
    return r;
}
bool blank(const std::string& s) { return s.find_first_not_of(" \t\r\n") == std::string::npos; }

struct Style {
    bool order, quotes, refs, spaces, comments, instructions, expand, collapse, cdata, crlf, bom, noDeclaration, indent, epilogue, prologue, prefix;
    std::string encoding;  // declared, "" for the usual one
};
// the same characters, some of them written as references
std::string disguise(const std::string& raw, Rng& r, const Style& s) {
    bool latin = s.encoding == "ISO-8859-1", always = !s.encoding.empty();
    std::string o;
    for (size_t i = 0; i < raw.size();) {
        auto c = static_cast<unsigned char>(raw[i]);
        if (c == '&') { size_t e = raw.find(';', i); o += raw.substr(i, e + 1 - i); i = e + 1; continue; }
        if (c >= 0xC0) {
            size_t n = c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : 2;
            unsigned long cp = c & (n == 2 ? 0x1F : n == 3 ? 0x0F : 0x07);
            for (size_t k = 1; k < n; ++k) cp = (cp << 6) | (static_cast<unsigned char>(raw[i + k]) & 0x3F);
            if (latin && cp < 0x100 && r.chance(70)) o += static_cast<char>(cp);
            else if (always || r.chance(50)) o += "&#" + S((ulong_t)cp) + ";";
            else o += raw.substr(i, n);
            i += n;
            continue;
        }
        if (s.refs && c >= 0x20 && r.chance(15)) {
            char b[16];
            std::snprintf(b, sizeof b, r.chance(50) ? "&#%u;" : "&#x%x;", static_cast<unsigned>(c));
            o += b;
        } else o += raw[i];
        ++i;
    }
    return o;
}
std::string space(Rng& r, const Style& s) {
    if (!s.spaces) return " ";
    return r.of({std::string(" "), std::string("\n"), std::string("\t"), std::string("  \n\t "), std::string(s.crlf ? "\r\n" : "\n")});
}
std::string between(Rng& r, const Style& s) {
    std::string o;
    for (int k = 0; k < 3; ++k) {
        if (s.indent && r.chance(40)) o += r.of({std::string("\n"), std::string("  "), std::string("\n\n\t"), std::string(s.crlf ? "\r\n" : " ")});
        if (s.comments && r.chance(12)) o += r.of({std::string("<!-- a comment -->"), std::string("<!---->"), std::string("<!-- <iidm:load id=\"ghost\"/> -->"), std::string("<!-- </iidm:network> & -->")});
        if (s.instructions && r.chance(6)) o += r.of({std::string("<?tool nothing?>"), std::string("<?x <iidm:load id=\"ghost\"/>?>")});
    }
    return o;
}
std::string rewrite(const std::vector<Piece>& ps, const Style& s, Rng& r, const std::string& prefix) {
    std::string o;
    auto named = [&](const std::string& n) {
        if (!s.prefix || n.compare(0, 5, "iidm:") != 0) return n;
        return prefix.empty() ? n.substr(5) : prefix + ":" + n.substr(5);
    };
    int depth = 0;
    for (size_t i = 0; i < ps.size(); ++i) {
        const Piece& p = ps[i];
        if (p.kind == Piece::OTHER) {
            if (s.noDeclaration) continue;
            o += s.quotes && r.chance(50) ? "<?xml version='1.0' encoding='UTF-8'?>" : p.text;
            if (!s.encoding.empty()) o.replace(o.find("UTF-8"), 5, s.encoding);
            if (s.prologue) for (int k = static_cast<int>(r.range(1, 3)); k > 0; --k) o += r.chance(30) ? "<?xml-stylesheet href=\"none\"?>" : r.chance(50) ? "\n<!-- a comment -->\n<!-- another -->" : "<!---->";
            continue;
        }
        if (p.kind == Piece::TEXT) {
            if (blank(p.text) && !(i > 0 && i + 1 < ps.size() && ps[i - 1].kind == Piece::OPEN && ps[i + 1].kind == Piece::CLOSE)) {
                o += s.indent ? "" : p.text;
                continue;
            }
            // a text, entire
            bool ascii = std::all_of(p.text.begin(), p.text.end(), [](char c) { return static_cast<unsigned char>(c) < 0x80; });
            if (!ascii && !s.encoding.empty()) { o += disguise(p.text, r, s); continue; }
            if (s.cdata && p.text.find('&') == std::string::npos && p.text.find("]]>") == std::string::npos && r.chance(60)) {
                size_t k = static_cast<size_t>(r.below(p.text.size() + 1));
                while (k > 0 && k < p.text.size() && (static_cast<unsigned char>(p.text[k]) & 0xC0) == 0x80) --k;
                if (r.chance(50)) o += "<![CDATA[" + p.text + "]]>";
                else if (r.chance(50)) o += p.text.substr(0, k) + "<![CDATA[" + p.text.substr(k) + "]]>";
                else o += "<![CDATA[" + p.text.substr(0, k) + "]]>" + (s.comments ? "<!-- ; -->" : "") + p.text.substr(k);
            }
            else if (s.comments && r.chance(30)) o += "<!-- before -->" + p.text + (r.chance(50) ? "<!-- after -->" : "<?x after?>");
            else o += disguise(p.text, r, s);
            continue;
        }
        bool words = p.name == "iidm:alias";  // blanks are characters there
        bool leaf = words || i + 1 < ps.size() && p.kind == Piece::OPEN && ((ps[i + 1].kind == Piece::TEXT && !blank(ps[i + 1].text)) || ps[i + 1].kind == Piece::CLOSE);
        if (p.kind == Piece::CLOSE) {
            --depth;
            o += "</" + named(p.name) + (s.spaces && r.chance(30) ? space(r, s) : "") + ">";
            if (depth > 0) o += between(r, s);
            continue;
        }
        auto attrs = p.attrs;
        if (s.order) for (size_t k = attrs.size(); k > 1; --k) std::swap(attrs[k - 1], attrs[static_cast<size_t>(r.below(k))]);
        o += "<" + named(p.name);
        for (auto& a : attrs) {
            std::string name = a.first, value = a.second;
            if (s.prefix && name == "xmlns:iidm") name = prefix.empty() ? "xmlns" : "xmlns:" + prefix;
            bool ns = name.compare(0, 5, "xmlns") == 0;
            if (!ns) value = disguise(value, r, s);
            char q = s.quotes && r.chance(50) && value.find('\'') == std::string::npos ? '\'' : '"';
            o += space(r, s) + name + (s.spaces && r.chance(20) ? " = " : "=") + q + value + q;
        }
        if (s.spaces && r.chance(30)) o += space(r, s);
        if (p.kind == Piece::EMPTY) {
            if (s.expand && r.chance(60)) {
                o += ">" + (words ? "" : between(r, s)) + "</" + named(p.name) + ">";
            } else o += "/>";
            if (depth > 0) o += between(r, s);
        } else {
            if (s.collapse && ps[i + 1].kind == Piece::CLOSE && r.chance(60)) {
                o += "/>";
                ++i;
                continue;
            }
            o += ">";
            ++depth;
            if (!leaf) o += between(r, s);
        }
    }
    if (s.epilogue) o += r.of({std::string("\n\n"), std::string("<!-- the end -->"), std::string("<?tool bye?>\n")});
    if (s.bom) o = "\xEF\xBB\xBF" + o;
    return o;
}
}  // namespace

namespace {
// the same alteration of the content, whatever the form: nothing, a missing attribute or element, another value, another place
std::string alter(std::vector<Piece>& ps, Rng& r) {
    std::vector<size_t> tags;
    for (size_t i = 0; i < ps.size(); ++i) if (ps[i].kind == Piece::OPEN || ps[i].kind == Piece::EMPTY) tags.push_back(i);
    size_t i = r.pick(tags);
    Piece& p = ps[i];
    auto k = p.attrs.empty() ? 0 : static_cast<size_t>(r.below(p.attrs.size()));
    switch (r.below(6)) {
        case 0: {
            if (p.attrs.empty()) return "";
            std::string d = "without " + p.name + "." + p.attrs[k].first;
            p.attrs.erase(p.attrs.begin() + static_cast<long>(k));
            return d;
        }
        case 1: case 2: {
            if (p.attrs.empty() || p.attrs[k].first.compare(0, 5, "xmlns") == 0) return "";
            p.attrs[k].second = r.of({std::string(""), std::string("x"), std::string("-1"), std::string("0"), std::string("1e400"), std::string("true"), std::string(" 3"), std::string("2 "), std::string("NaN")});
            return p.name + "." + p.attrs[k].first + "=" + p.attrs[k].second;
        }
        case 3: {
            if (p.kind != Piece::EMPTY) return "";
            std::string d = "without " + p.name;
            ps.erase(ps.begin() + static_cast<long>(i));
            return d;
        }
        case 4: {
            if (p.kind != Piece::EMPTY) return "";
            Piece q = p;
            ps.insert(ps.begin() + static_cast<long>(i), q);
            return "twice " + q.name;
        }
        default: {
            Piece q;
            q.kind = Piece::EMPTY;
            q.name = r.of({std::string("iidm:unknown"), std::string("iidm:property"), std::string("iidm:alias"), std::string("iidm:bus"), p.name});
            if (r.chance(50)) q.attrs.emplace_back("id", "somewhere");
            ps.insert(ps.begin() + static_cast<long>(i), q);
            return "another " + q.name + " before " + ps[i + 1].name;
        }
    }
}
}  // namespace

MODULE(lexical) {
    Network n("net", "test");
    Gen g(n, rng.u64());
    g.weird = rng.chance(40);
    populate(n, g, rng, static_cast<int>(rng.range(1, 25)));
    undefinedSteps(n, true);
    ExportOptions o;
    o.setIndent(rng.chance(50));
    std::string x = toXml(n, o);
    auto pieces = split(x);
    std::string altered, refusal;
    if (rng.chance(40)) {
        altered = alter(pieces, rng);
        logOp("altered: " + altered);
        Style plain{};
        x = rewrite(pieces, plain, rng, "");
    }
    DumpMap want;
    try {
        Network reference = fromXml(x);
        want = dumpAll(reference);
    } catch (const std::exception& e) { refusal = e.what(); }
    VCHECK(!altered.empty() || refusal.empty(), "refused", refusal);
    if (!altered.empty()) R.count(refusal.empty() ? "altered_accepted" : "altered_refused");
    if (altered.empty() && !refusal.empty()) return;
    for (int k = 0; k < 6; ++k) {
        Style s{};
        bool alone = rng.chance(50);
        bool* all[] = {&s.order, &s.quotes, &s.refs, &s.spaces, &s.comments, &s.instructions, &s.expand, &s.collapse, &s.cdata, &s.crlf, &s.bom, &s.noDeclaration, &s.indent, &s.epilogue, &s.prologue, &s.prefix};
        static const std::vector<std::string> names = {"attribute order", "quotes", "references", "spaces", "comments", "instructions", "expanded", "collapsed", "cdata", "crlf", "bom", "no declaration", "indentation", "epilogue", "prologue", "prefix"};
        if (alone) *all[rng.below(16)] = true;
        else for (bool* b : all) *b = rng.chance(40);
        std::string form;
        for (size_t i = 0; i < 16; ++i) if (*all[i]) form += (form.empty() ? "" : "+") + names[i];
        if (!s.noDeclaration && rng.chance(15)) {
            s.encoding = rng.of({std::string("ISO-8859-1"), std::string("US-ASCII")});
            s.bom = false;
            form += "+" + s.encoding;
            alone = false;
        }
        std::string prefix = rng.of({std::string("iidm2"), std::string(""), std::string("n")});
        std::string y = rewrite(pieces, s, rng, prefix);
        logOp(form);
        std::string why;
        DumpMap got;
        try {
            Network m = fromXml(y);
            got = dumpAll(m);
        } catch (const std::exception& e) { why = e.what(); }
        // the prefix of the elements of the network is part of the format: another one may be refused
        if (s.prefix && !prefix.empty() && !why.empty()) { R.count("prefix_refused"); continue; }
        if (!refusal.empty()) {
            VCHECK(!why.empty(), "form-accepted:" + (alone ? form : std::string("mixed")), altered + " is refused (" + refusal + "), not as " + form);
            R.count("refused_alike");
            R.seen("cover", "refused " + altered.substr(0, altered.find('=')) + form);
            continue;
        }
        VCHECK(why.empty(), "form-refused:" + (alone ? form : std::string("mixed")), form + ": " + why);
        if (!why.empty()) { if (C.verbose) std::fprintf(stderr, "%s\n", y.substr(0, 3000).c_str()); continue; }
        std::string d = diff(want, got);
        VCHECK(d.empty(), "form-read-differently:" + (alone ? form : std::string("mixed")) + ":" + firstDiffKey(d), form + ": " + d);
        R.count("forms_read");
        R.count("bytes", y.size());
        R.seen("cover", alone ? form : form + S((ulong_t)(pieces.size() / 50)));
    }
}
