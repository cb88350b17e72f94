// P23: the text forms of numbers, names, dates, options and XML streams.
#include "pick.hpp"
#include "ext.hpp"
#include <cstdlib>
#include <powsybl/AssertionError.hpp>
#include <powsybl/PowsyblException.hpp>
#include <powsybl/iidm/Country.hpp>
#include <powsybl/iidm/Enum.hpp>
#include <powsybl/iidm/ValidationUtils.hpp>
#include <powsybl/iidm/converter/ExportOptions.hpp>
#include <powsybl/iidm/converter/ImportOptions.hpp>
#include <powsybl/iidm/converter/xml/IidmXmlVersion.hpp>
#include <powsybl/logging/Level.hpp>
#include <powsybl/stdcxx/DateTime.hpp>
#include <powsybl/stdcxx/Properties.hpp>
#include <powsybl/stdcxx/exception.hpp>
#include <powsybl/stdcxx/format.hpp>
#include <powsybl/stdcxx/math.hpp>
#include <powsybl/xml/XmlStreamReader.hpp>
#include <powsybl/xml/XmlStreamWriter.hpp>
#include "enums.hpp"
#include "foreign.hpp"
using namespace vmon;
using namespace powsybl;

namespace {
template <typename F> bool fails(const F& f) {
    try { f(); } catch (const std::exception&) { return true; }
    return false;
}
double anyDouble(Rng& r) {
    switch (r.below(8)) {
        case 0: { uint64_t b = r.u64(); double d; std::memcpy(&d, &b, 8); return d; }
        case 1: return static_cast<double>(r.range(-1000000, 1000000));
        case 2: return static_cast<double>(r.range(-1000000, 1000000)) / 1000.0;
        case 3: return r.of({0.0, -0.0, 1.0, 0.1, Inf, -Inf, NaN, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 1e21, 1e22, 123456.0, 1234567.0, 1e15, 9007199254740993.0});
        case 4: return r.real(-1000, 1000);
        case 5: return std::ldexp(r.unit(), static_cast<int>(r.range(-1070, 1000)));
        case 6: return std::nextafter(r.real(0, 400), 1e9);
        default: return static_cast<double>(static_cast<float>(r.real(-500, 500)));
    }
}
bool same(double a, double b) { return S(a) == S(b); }
std::string anyText(Rng& r, int maxLen) {
    static const std::vector<std::string> bits = {"a", "Z", "0", " ", "  ", "<", ">", "&", "\"", "'", "&amp;", "&#38;", "]]>", "<!--", "-->", "\t", "\n", "\r", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "%1%", "{}", "\\n", ",", ";", "=", "\xEF\xBF\xBD", "\x7F"};
    std::string s;
    for (long i = r.range(0, maxLen); i > 0; --i) s += r.pick(bits);
    return s;
}
// one element with attributes, its text, its children
struct Node {
    std::string name, text, prefix;
    std::vector<std::pair<std::string, std::string>> attrs;
    std::vector<Node> children;
};
Node tree(Rng& r, int depth, int& counter) {
    Node x;
    x.name = "e" + std::to_string(depth) + r.of({std::string("a"), std::string("b"), std::string("c.d"), std::string("x-y")});
    ++counter;
    for (long i = r.range(0, 4); i > 0; --i) x.attrs.emplace_back("k" + std::to_string(i), anyText(r, 6));
    if (depth < 4 && r.chance(60)) for (long i = r.range(0, 4); i > 0 && counter < 60; --i) x.children.push_back(tree(r, depth + 1, counter));
    if (x.children.empty() && r.chance(40)) {
        x.text = anyText(r, r.chance(5) ? 20000 : 20);
        x.text = "t" + x.text;
    }
    return x;
}
void write(xml::XmlStreamWriter& w, const Node& x) {
    if (x.attrs.empty() && x.children.empty() && x.text.empty()) {
        w.writeEmptyElement(x.prefix, x.name);
        return;
    }
    w.writeStartElement(x.prefix, x.name);
    size_t k = x.name.size();
    for (auto& a : x.attrs) {
        // the values equal to the one which stands for their absence are left out
        switch (++k % 4) {
            case 0: w.writeAttribute(a.first, a.second.c_str()); break;
            case 1: w.writeOptionalAttribute(a.first, a.second, k % 3 ? std::string("a") : a.second); break;
            case 2: w.writeOptionalAttribute(a.first, a.second.c_str(), k % 3 ? "" : a.second.c_str()); break;
            default: w.writeAttribute(a.first, a.second); break;
        }
    }
    for (auto& c : x.children) write(w, c);
    if (!x.text.empty()) w.writeCharacters(x.text);
    w.writeEndElement();
}
void compare(xml::XmlStreamReader& rd, const Node& x) {
    VCHECK(rd.getLocalName() == x.name && rd.getPrefix() == x.prefix, "xml-element-name", rd.getPrefix() + ":" + rd.getLocalName() + " for " + x.prefix + ":" + x.name);
    size_t k = x.name.size();
    for (auto& a : x.attrs) {
        ++k;
        std::string gone = k % 4 == 1 ? (k % 3 ? std::string("a") : a.second) : (k % 3 ? std::string() : a.second);
        if ((k % 4 == 1 || k % 4 == 2) && a.second == gone) {
            VCHECK(!rd.getOptionalAttributeValue<std::string>(a.first), "xml-absent-attribute", x.name + " " + a.first);
            VCHECK(rd.getOptionalAttributeValue(a.first, gone) == a.second && rd.getOptionalAttributeValue(a.first, gone.c_str()) == a.second, "xml-absent-attribute", x.name + " " + a.first);
            continue;
        }
        std::string v = rd.getAttributeValue(a.first);
        VCHECK(v == a.second, "xml-attribute-text", S(v) + " for " + S(a.second));
        VCHECK(rd.getOptionalAttributeValue(a.first, "other") == a.second && rd.getOptionalAttributeValue(a.first, std::string("other")) == a.second, "xml-attribute-text", S(v) + " for " + S(a.second));
    }
    VCHECK(fails([&]() { rd.getAttributeValue("absent"); }), "xml-absent-attribute", x.name);
    VCHECK(!rd.getOptionalAttributeValue<std::string>("absent"), "xml-absent-attribute", x.name);
    size_t i = 0;
    bool extra = false;
    std::string text = rd.readUntilEndElement(x.name, [&]() {
        if (i < x.children.size()) compare(rd, x.children[i]); else extra = true;
        ++i;
    });
    VCHECK(!extra && i == x.children.size(), "xml-children", x.name + " " + S((ulong_t)i) + " for " + S((ulong_t)x.children.size()));
    if (x.children.empty()) VCHECK(text == x.text, "xml-text", "length " + S((ulong_t)text.size()) + " for " + S((ulong_t)x.text.size()) + ": " + text.substr(0, 60) + " for " + x.text.substr(0, 60));
    R.count("xml_elements");
}
template <typename T> T readAs(const std::string& attr, const std::string& text, bool optional) {
    std::ostringstream o;
    { xml::XmlStreamWriter w(o, false); w.writeStartDocument("UTF-8", "1.0"); w.writeStartElement("", "e"); w.writeAttribute(attr, text); w.writeEndElement(); w.writeEndDocument(); }
    std::istringstream i(o.str());
    xml::XmlStreamReader rd(i);
    if (!optional) return rd.getAttributeValue<T>(attr);
    return *rd.getOptionalAttributeValue<T>(attr);
}
long readLong(const std::string& attr, const std::string& text) {
    std::ostringstream o;
    { xml::XmlStreamWriter w(o, false); w.writeStartDocument("UTF-8", "1.0"); w.writeStartElement("", "e"); w.writeAttribute(attr, text); w.writeEndElement(); w.writeEndDocument(); }
    std::istringstream i(o.str());
    xml::XmlStreamReader rd(i);
    return rd.getAttributeValue<long>(attr);
}
}  // namespace

// numbers survive their text form, in any locale, and what is not a number is refused
MODULE(numbers) {
    int foreign = rng.chance(50) ? static_cast<int>(rng.range(1, 2)) : 0;
    std::string where = foreign == 0 ? "classic locale" : foreign == 2 && InLocale::named() ? "named locale" : InLocale::named() ? "foreign locale, decimal comma in C" : "foreign locale";
    R.seen("cover", where);
    for (int k = 0; k < 60; ++k) {
        double d = anyDouble(rng);
        std::string t;
        { InLocale l(foreign); t = stdcxx::to_string(d); }
        VCHECK(same(std::strtod(t.c_str(), nullptr), d), "number-text", where + " " + S(d) + " -> " + t);
        R.seen("doubles", S(d));
        float f = static_cast<float>(d);
        { InLocale l(foreign); t = stdcxx::to_string(f); }
        VCHECK(same(std::strtof(t.c_str(), nullptr), f), "float-text", where + " " + S(static_cast<double>(f)) + " -> " + t);
        long i = rng.chance(50) ? static_cast<long>(rng.u64()) >> rng.below(64) : rng.range(-5000, 5000);
        { InLocale l(foreign); t = stdcxx::to_string(i); }
        VCHECK(t == std::to_string(i), "integer-text", where + " " + t);
        { InLocale l(foreign); t = stdcxx::format("<%1%_%2%|%3%>", "id", i, d); }
        std::ostringstream want;
        want.imbue(std::locale::classic());
        want << "<id_" << i << "|" << d << ">";
        VCHECK(t == want.str(), "formatted-number", where + " " + t + " for " + want.str());
    }
    // attributes of a document
    std::ostringstream o;
    std::vector<double> ds;
    std::vector<long> ls;
    std::vector<ulong_t> us;
    std::vector<int> is;
    std::vector<double> od, oabs;
    for (int k = 0; k < 20; ++k) {
        ds.push_back(anyDouble(rng));
        ls.push_back(static_cast<long>(rng.u64()) >> rng.below(64));
        us.push_back(rng.u64() >> rng.below(64));
        is.push_back(static_cast<int>(static_cast<long>(rng.u64()) >> rng.range(32, 63)));
        od.push_back(anyDouble(rng));
        oabs.push_back(rng.chance(30) ? od.back() : anyDouble(rng));
    }
    bool indent = rng.chance(50);
    {
        InLocale l(foreign);
        xml::XmlStreamWriter w(o, indent);
        w.writeStartDocument("UTF-8", "1.0");
        w.writeStartElement("", "root");
        for (int k = 0; k < 20; ++k) {
            std::string s = std::to_string(k);
            w.writeAttribute("d" + s, ds[k]);
            w.writeAttribute("l" + s, ls[k]);
            w.writeAttribute("u" + s, us[k]);
            w.writeAttribute("i" + s, is[k]);
            w.writeAttribute("b" + s, (us[k] & 1) != 0);
            w.writeOptionalAttribute("od" + s, od[k], oabs[k]);
            w.writeOptionalAttribute("oi" + s, is[k], k % 3 == 0 ? is[k] : 5);
            w.writeOptionalAttribute("ou" + s, us[k], k % 3 == 1 ? us[k] : 7ul);
            w.writeOptionalAttribute("ob" + s, (us[k] & 1) != 0, k % 2 == 0);
        }
        w.writeEndElement();
        w.writeEndDocument();
    }
    {
        InLocale l(foreign);
        std::istringstream in(o.str());
        xml::XmlStreamReader rd(in);
        for (int k = 0; k < 20; ++k) {
            std::string s = std::to_string(k);
            auto x = rd.getOptionalAttributeValue<double>("d" + s);
            VCHECK(std::isnan(ds[k]) ? !x : (x && same(*x, ds[k])), "double-attribute", S(ds[k]) + " " + (x ? S(*x) : "absent"));
            VCHECK(same(rd.getOptionalAttributeValue("d" + s, NaN), ds[k]), "double-attribute", S(ds[k]));
            VCHECK(std::isnan(ds[k]) || same(rd.getAttributeValue<double>("d" + s), ds[k]), "double-attribute", S(ds[k]));
            VCHECK(rd.getAttributeValue<long>("l" + s) == ls[k], "long-attribute", S(ls[k]));
            VCHECK(rd.getAttributeValue<ulong_t>("u" + s) == us[k], "unsigned-attribute", S(us[k]));
            VCHECK(rd.getAttributeValue<int>("i" + s) == is[k], "int-attribute", S(is[k]));
            VCHECK(rd.getAttributeValue<bool>("b" + s) == ((us[k] & 1) != 0), "bool-attribute", s);
            // an optional attribute is read back as its value, whatever value stands for its absence
            VCHECK(same(rd.getOptionalAttributeValue("od" + s, std::isnan(od[k]) ? NaN : oabs[k]), od[k]) || od[k] == oabs[k], "optional-double-attribute", S(od[k]) + " absent " + S(oabs[k]));
            VCHECK(rd.getOptionalAttributeValue("oi" + s, k % 3 == 0 ? is[k] : 5) == is[k], "optional-int-attribute", S(is[k]));
            VCHECK(rd.getOptionalAttributeValue("ou" + s, k % 3 == 1 ? us[k] : 7ul) == us[k], "optional-unsigned-attribute", S(us[k]));
            VCHECK(rd.getOptionalAttributeValue("ob" + s, k % 2 == 0) == ((us[k] & 1) != 0), "optional-bool-attribute", s);
            VCHECK(!rd.getOptionalAttributeValue<int>("none") && !rd.getOptionalAttributeValue<double>("none") && !rd.getOptionalAttributeValue<ulong_t>("none") && !rd.getOptionalAttributeValue<bool>("none"), "absent-attribute", s);
        }
    }
    // what is not a number
    static const std::vector<std::string> tail = {"x", " 3", ",5", ";", "%", "-", "--", ".1.2", "e", "kV", "\xE2\x82\xAC", "&", "0x", "_000", "/2"};
    static const std::vector<std::string> lead = {"x", ",", "--", "+-", "#", "e5", "'", "(", "NaNa"};
    for (int k = 0; k < 20; ++k) {
        InLocale l(foreign);
        std::string num = rng.chance(50) ? std::to_string(rng.range(1, 99999)) : std::to_string(rng.range(1, 999)) + "." + std::to_string(rng.range(0, 999));
        std::string bad;
        switch (rng.below(4)) {
            case 0: bad = rng.pick(lead) + num; break;
            case 1: bad = rng.of({std::string(""), std::string("  "), std::string("-"), std::string("."), std::string("e"), std::string("abc"), std::string("\t")}); break;
            default: bad = num + rng.pick(tail); break;
        }
        bool opt = rng.chance(50);
        VCHECK(fails([&]() { readAs<double>("a", bad, opt); }), "malformed-double-accepted", S(bad));
        std::string ibad = rng.chance(30) ? std::to_string(rng.range(0, 99)) + "." + std::to_string(rng.range(0, 9)) : rng.chance(30) ? std::to_string(rng.range(1, 99)) + "e2" : bad.find('.') == std::string::npos || rng.chance(50) ? bad : "1" + bad;
        VCHECK(fails([&]() { readAs<int>("a", ibad, opt); }), "malformed-int-accepted", S(ibad));
        VCHECK(fails([&]() { readAs<ulong_t>("a", ibad, opt); }), "malformed-unsigned-accepted", S(ibad));
        VCHECK(fails([&]() { readLong("a", ibad); }), "malformed-long-accepted", S(ibad));
        std::string big = std::to_string(2147483648ul + (rng.u64() >> rng.range(1, 40)));
        VCHECK(fails([&]() { readAs<int>("a", (rng.chance(50) && big != "2147483648" ? "-" : "") + big, opt); }), "int-out-of-range-accepted", big);
        std::string huge = "9" + std::to_string(10000000000000000000ul + rng.u64() % 8446744073709551615ul);
        VCHECK(fails([&]() { readAs<ulong_t>("a", huge, opt); }), "unsigned-out-of-range-accepted", huge);
        VCHECK(fails([&]() { readLong("a", huge); }), "long-out-of-range-accepted", huge);
        VCHECK(fails([&]() { readAs<ulong_t>("a", "-" + std::to_string(rng.range(1, 1000)), opt); }), "negative-unsigned-accepted", "");
        VCHECK(fails([&]() { readAs<double>("a", "1e" + std::to_string(rng.range(400, 4000)), opt); }), "double-out-of-range-accepted", "");
        R.seen("cover", "malformed " + bad.substr(0, 3));
        // and what is one
        double d = anyDouble(rng);
        if (std::isfinite(d)) {
            char b[64];
            std::snprintf(b, sizeof b, rng.of({"%.17g", "%.17e", "+%.17g", " %.17g"}), std::fabs(d));
            for (char& c : b) if (c == ',') c = '.';  // written by a C library with a decimal comma
            VCHECK(same(readAs<double>("a", b, opt), std::fabs(d)), "double-form", std::string(b));
            std::string comma = b;
            size_t dot = comma.find('.');
            if (dot != std::string::npos) {
                comma[dot] = ',';
                VCHECK(fails([&]() { readAs<double>("a", comma, opt); }), "decimal-comma-accepted", comma);
            }
        }
    }
}

// documents written and read back
MODULE(streams) {
    int counter = 0;
    Node root = tree(rng, 0, counter);
    R.seen("trees", S((ulong_t)counter) + root.name + S((ulong_t)rng.s));
    bool indent = rng.chance(50), named = rng.chance(40);
    std::ostringstream o;
    {
        xml::XmlStreamWriter w(o, indent);
        w.writeStartDocument("UTF-8", "1.0");
        if (named) {
            w.writeStartElement("p", "top");
            w.setPrefix("p", "http://ns/p");
            w.setPrefix("q", "http://ns/q");
            root.prefix = rng.of({std::string("p"), std::string("q"), std::string("")});
        } else w.writeStartElement("", "top");
        write(w, root);
        w.writeEndElement();
        VCHECK(fails([&]() { w.writeStartDocument("UTF-8", "1.0"); }), "second-document", "");
        w.writeEndDocument();
    }
    std::istringstream in(o.str());
    xml::XmlStreamReader rd(in);
    VCHECK(rd.getLocalName() == "top", "xml-root", rd.getLocalName());
    if (named) {
        VCHECK(rd.getNamespace("p") == "http://ns/p" && rd.getNamespace("q") == "http://ns/q", "xml-namespace", o.str());
        VCHECK(fails([&]() { rd.getNamespace("z"); }), "xml-unknown-namespace", "");
        VCHECK(rd.getNamespace("z", "dflt") == "dflt", "xml-default-namespace", "");
    }
    int n = 0;
    rd.readUntilEndElement("top", [&]() { ++n; compare(rd, root); });
    VCHECK(n == 1, "xml-children", S(n));
    R.seen("cover", std::string(indent ? "indented" : "compact") + (named ? " prefixed" : " plain"));
    // a document cut anywhere before its end is reported
    std::string text = o.str();
    size_t last = text.rfind("</");
    if (last == std::string::npos) return;
    std::string cut = text.substr(0, rng.below(last + 1));
    VCHECK(fails([&]() {
        std::istringstream ci(cut);
        xml::XmlStreamReader cr(ci);
        if (cr.getLocalName() != "top") throw std::runtime_error("no root");
        std::function<void()> each = [&]() { cr.readUntilEndElement(cr.getLocalName(), each); };
        cr.readUntilEndElement("top", each);
    }), "truncated-document-accepted", S((ulong_t)cut.size()) + " of " + S((ulong_t)text.size()) + ": " + cut.substr(cut.size() > 80 ? cut.size() - 80 : 0));
}

// names of the enumerations
MODULE(names) {
    eachEnum([&](const char* type, const auto& values) {
        using E = typename std::decay<decltype(values[0].first)>::type;
        auto& x = values[rng.below(values.size())];
        for (auto& v : rng.chance(20) ? values : std::vector<std::pair<E, std::string>>{x}) {
            std::string name;
            VCHECK(!fails([&]() { name = iidm::Enum::toString(v.first); }) && name == v.second, "enum-name", std::string(type) + " " + v.second + " is called " + name);
            VCHECK(!fails([&]() { if (iidm::Enum::template fromString<E>(v.second) != v.first) throw std::runtime_error("other"); }), "enum-value", std::string(type) + " " + v.second);
            std::ostringstream s;
            { using powsybl::iidm::operator<<; (void)fails([&]() { s << v.first; }); }
            VCHECK(s.str() == v.second, "enum-stream", std::string(type) + " " + s.str() + " for " + v.second);
            R.seen("cover", std::string(type) + "::" + v.second);
        }
        VCHECK(iidm::Enum::template getNames<E>().size() == values.size(), "enum-names", type);
        std::string bad = x.second;
        switch (rng.below(6)) {
            case 0: bad += rng.of({" ", "S", "_", "0"}); break;
            case 1: bad = bad.substr(0, bad.size() - 1); break;
            case 2: for (auto& c : bad) c = static_cast<char>(std::tolower(c)); break;
            case 3: bad = " " + bad; break;
            case 4: bad = ""; break;
            default: bad = rng.of({"NULL", "0", "ZZZ", "ONE,TWO"}); break;
        }
        bool known = false;
        for (auto& v : values) known = known || v.second == bad;
        if (!known) VCHECK(fails([&]() { iidm::Enum::template fromString<E>(bad); }), "unknown-name-accepted", std::string(type) + " " + S(bad));
        ulong_t out = values.size() + rng.below(256 - std::min<size_t>(255, values.size()));
        if (out < 256) VCHECK(fails([&]() { iidm::Enum::toString(static_cast<E>(out)); }), "unknown-value-named", std::string(type) + " " + S(out));
    });
    // countries: all different, refused beyond
    std::set<std::string> all;
    size_t count = iidm::Enum::getNames<iidm::Country>().size();
    for (size_t i = 0; i < count; ++i) all.insert(iidm::getCountryName(static_cast<iidm::Country>(i)));
    VCHECK(all.size() == count && !all.count(""), "country-names", S((ulong_t)all.size()) + " of " + S((ulong_t)count));
    VCHECK(fails([&]() { iidm::getCountryName(static_cast<iidm::Country>(count + rng.below(100))); }), "unknown-country-named", "");
    static const std::vector<std::pair<iidm::Country, std::string>> some = {
        {iidm::Country::AF, "AFGHANISTAN"}, {iidm::Country::FR, "FRANCE"}, {iidm::Country::BE, "BELGIUM"}, {iidm::Country::DE, "GERMANY"}, {iidm::Country::ZW, "ZIMBABWE"}, {iidm::Country::IT, "ITALY"}, {iidm::Country::ES, "SPAIN"}, {iidm::Country::CH, "SWITZERLAND"},
        {iidm::Country::GB, "UNITED KINGDOM"}, {iidm::Country::JP, "JAPAN"}, {iidm::Country::PT, "PORTUGAL"}, {iidm::Country::PL, "POLAND"}, {iidm::Country::NO, "NORWAY"}, {iidm::Country::ZM, "ZAMBIA"}, {iidm::Country::CA, "CANADA"}, {iidm::Country::MA, "MOROCCO"}};
    auto& c = rng.pick(some);
    VCHECK(iidm::getCountryName(c.first) == c.second, "country-name", c.second + " is called " + iidm::getCountryName(c.first));
    static const std::vector<std::pair<logging::Level, std::string>> levels = {{logging::Level::TRACE, "TRACE"}, {logging::Level::DEBUG, "DEBUG"}, {logging::Level::INFO, "INFO"}, {logging::Level::WARN, "WARN"}, {logging::Level::ERROR, "ERROR"}};
    for (auto& l : levels) VCHECK(logging::getLevelName(l.first) == l.second, "level-name", l.second);
    VCHECK(fails([&]() { logging::getLevelName(static_cast<logging::Level>(5 + rng.below(50))); }), "unknown-level-named", "");
}

namespace {
const int kDays[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
struct Date { int y, mo, d, h, mi, s; long us; int off; };   // offset in minutes
long days(int y, int mo, int d) {
    long n = d;
    for (int k = 1; k < mo; ++k) n += kDays[k - 1] + (k == 2 && leap(y) ? 1 : 0);
    for (int k = 1600; k < y; ++k) n += leap(k) ? 366 : 365;
    for (int k = y; k < 1600; ++k) n -= leap(k) ? 366 : 365;
    return n;
}
long instant(const Date& t) { return ((days(t.y, t.mo, t.d) * 24L + t.h) * 60L + t.mi - t.off) * 60000000L + t.s * 1000000L + t.us; }
std::string text(const Date& t, Rng& r) {
    char b[128];
    int n = std::snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d", t.y, t.mo, t.d, t.h, t.mi, t.s);
    if (t.us % 1000 == 0 && t.us > 0 && r.chance(60)) n += std::snprintf(b + n, sizeof b - static_cast<size_t>(n), ".%03ld", t.us / 1000);
    else if (t.us != 0) n += std::snprintf(b + n, sizeof b - static_cast<size_t>(n), ".%06ld", t.us);
    int a = std::abs(t.off);
    if (t.off == 0 && r.chance(50)) return std::string(b) + "Z";
    std::snprintf(b + n, sizeof b - static_cast<size_t>(n), "%c%02d:%02d", t.off < 0 ? '-' : '+', a / 60, a % 60);
    return b;
}
Date anyDate(Rng& r) {
    Date t{};
    t.y = static_cast<int>(r.chance(80) ? r.range(1970, 2060) : r.range(1600, 2300));
    t.mo = static_cast<int>(r.range(1, 12));
    t.d = static_cast<int>(r.range(1, kDays[t.mo - 1] + (t.mo == 2 && leap(t.y) ? 1 : 0)));
    t.h = static_cast<int>(r.below(24)); t.mi = static_cast<int>(r.below(60)); t.s = static_cast<int>(r.below(60));
    t.us = r.chance(30) ? 0 : r.chance(50) ? static_cast<long>(r.below(1000)) * 1000 : static_cast<long>(r.below(1000000));
    t.off = r.chance(40) ? 0 : static_cast<int>(r.range(-47, 47)) * 15;
    return t;
}
}  // namespace

// dates
MODULE(dates) {
    for (int k = 0; k < 20; ++k) {
        Date t = anyDate(rng);
        std::string s = text(t, rng);
        InLocale l(rng.chance(30) ? static_cast<int>(rng.range(1, 2)) : 0);
        stdcxx::DateTime a = stdcxx::DateTime::parse(s);
        std::string back = a.toString();
        stdcxx::DateTime b = stdcxx::DateTime::parse(back);
        VCHECK(a == b && !(a != b), "date-round-trip", s + " -> " + back);
        VCHECK(b.toString() == back, "date-text-stable", back + " " + b.toString());
        R.seen("cover", s.substr(s.size() - 3) + (t.us != 0 ? "f" : ""));
        // the same instant in another zone, another instant
        Date u = anyDate(rng);
        std::string us = text(u, rng);
        stdcxx::DateTime c = stdcxx::DateTime::parse(us);
        VCHECK((a == c) == (instant(t) == instant(u)), "date-equality", s + " " + us);
        Date v = t;
        // hours and offset moved together keep the instant, as long as the day does not change
        int shift = static_cast<int>(rng.range(-8, 8)) * 15;
        int m = v.h * 60 + v.mi + shift;
        if (m >= 0 && m < 1440 && std::abs(v.off + shift) <= 47 * 15) {
            v.h = m / 60; v.mi = m % 60; v.off += shift;
            std::string vs = text(v, rng);
            VCHECK(stdcxx::DateTime::parse(vs) == a, "date-same-instant", s + " " + vs);
            v.us = v.us == 999999 ? 0 : v.us + 1;
            std::string ws = text(v, rng);
            VCHECK(stdcxx::DateTime::parse(ws) != a, "date-other-instant", s + " " + ws);
        }
        std::ostringstream os;
        os << a;
        VCHECK(os.str() == back, "date-stream", os.str() + " " + back);
        std::string bad = s;
        switch (rng.below(8)) {
            case 0: bad = rng.of({std::string(""), std::string("  "), std::string("2"), std::string("T12:00:00Z")}); break;
            case 1: bad.replace(5, 2, rng.of({"13", "00", "99"})); break;
            case 2: bad.replace(8, 2, rng.of({"32", "00", "99"})); break;
            case 3: bad += rng.of({" x", " 2020", " ;", " +01:00"}); break;
            case 4: bad = "x" + bad; break;
            case 5: bad.replace(11, 2, rng.of({"ab", "::"})); break;
            case 6: bad.replace(14, 2, rng.of({"ab", "::"})); break;
            default: bad.replace(5, 5, rng.of({"02-30", "02-31", "04-31", "06-31"})); break;
        }
        VCHECK(fails([&]() { stdcxx::DateTime::parse(bad); }), "malformed-date-accepted", S(bad));
    }
}

// property lists and the options made from them
MODULE(parameters) {
    stdcxx::Properties p;
    std::map<std::string, std::string> m;
    for (int k = 0; k < 60; ++k) {
        std::string key = "k" + std::to_string(rng.below(6)) + (rng.chance(10) ? anyText(rng, 2) : "");
        std::string val = anyText(rng, 4);
        bool has = m.count(key) > 0;
        switch (rng.below(7)) {
            case 0: case 1: case 2: {
                auto old = p.set(key, val);
                VCHECK(static_cast<bool>(old) == has && (!has || *old == m[key]), "properties-set", key);
                m[key] = val;
                break;
            }
            case 3: p.remove(key); m.erase(key); break;
            case 4: VCHECK(has ? p.get(key) == m[key] : fails([&]() { p.get(key); }), "properties-get", key); break;
            case 5: VCHECK(p.get(key, val) == (has ? m[key] : val), "properties-default", key); break;
            default: VCHECK(p.contains(key) == has, "properties-contains", key); break;
        }
        if (rng.chance(2)) { p.clear(); m.clear(); }
        std::map<std::string, std::string> seen(p.cbegin(), p.cend());
        std::set<std::string> keys, want;
        for (auto& x : p.getKeys()) keys.insert(x);
        for (auto& x : m) want.insert(x.first);
        VCHECK(seen == m && p.size() == m.size() && p.isEmpty() == m.empty() && keys == want, "properties-content", key);
    }
    using iidm::converter::ExportOptions;
    using iidm::converter::ImportOptions;
    stdcxx::Properties q;
    int foreign = rng.chance(30) ? static_cast<int>(rng.range(1, 2)) : 0;
    InLocale l(foreign);
    auto flag = [&](const std::string& key, bool dflt) {
        if (rng.chance(50)) return dflt;
        int k = static_cast<int>(rng.below(4));
        q.set(key, rng.of({std::vector<std::string>{"true", "TRUE", "True", "tRuE"}, std::vector<std::string>{"false", "FALSE", "False", "fAlse"}})[static_cast<size_t>(k)]);
        std::string v = q.get(key);
        return v[0] == 't' || v[0] == 'T';
    };
    ExportOptions dflt;
    bool anon = flag(ExportOptions::ANONYMISED, false);
    bool indent = flag(ExportOptions::INDENT, true);
    bool main = flag(ExportOptions::ONLY_MAIN_CC, false);
    bool sv = flag(ExportOptions::WITH_BRANCH_STATE_VARIABLES, true);
    bool thr = flag(ExportOptions::THROW_EXCEPTION_IF_EXTENSION_NOT_FOUND, false);
    std::string version = dflt.getVersion();
    if (rng.chance(50)) { version = rng.of({"1.0", "1.1", "1.2", "1.3", "1.4", "1.5"}); q.set(ExportOptions::VERSION, version); }
    iidm::TopologyLevel level = iidm::TopologyLevel::NODE_BREAKER;
    if (rng.chance(50)) { level = rng.of({iidm::TopologyLevel::NODE_BREAKER, iidm::TopologyLevel::BUS_BREAKER, iidm::TopologyLevel::BUS_BRANCH}); q.set(ExportOptions::TOPOLOGY_LEVEL, iidm::Enum::toString(level)); }
    auto behavior = ExportOptions::IidmVersionIncompatibilityBehavior::THROW_EXCEPTION;
    if (rng.chance(50)) { behavior = rng.of({behavior, ExportOptions::IidmVersionIncompatibilityBehavior::LOG_ERROR}); q.set(ExportOptions::IIDM_VERSION_INCOMPATIBILITY_BEHAVIOR, iidm::Enum::toString(behavior)); }
    std::set<std::string> exts;
    if (rng.chance(50)) {
        std::string list;
        for (long i = rng.range(1, 4); i > 0; --i) { std::string e = "ext" + std::to_string(rng.below(6)); exts.insert(e); list += (list.empty() ? "" : rng.of({",", ":"})) + e; }
        q.set(ExportOptions::EXTENSIONS_LIST, list);
    }
    std::string what;
    for (auto& x : q) what += x.first + "=" + x.second + " ";
    ExportOptions e(q);
    VCHECK(e.isAnonymized() == anon, "option-anonymised", what);
    VCHECK(e.isIndent() == indent, "option-indent", what);
    VCHECK(e.isOnlyMainCc() == main, "option-main-cc", what);
    VCHECK(e.isWithBranchSV() == sv, "option-branch-sv", what);
    VCHECK(e.isThrowExceptionIfExtensionNotFound() == thr, "option-throw", what);
    // the version of the options made without one stands for the current version
    VCHECK(e.getVersion() == version || (!q.contains(ExportOptions::VERSION) && e.getVersion() == iidm::converter::xml::IidmXmlVersion::CURRENT_IIDM_XML_VERSION().toString(".")), "option-version", what + e.getVersion());
    VCHECK(e.getTopologyLevel() == level, "option-level", what);
    VCHECK(e.getIidmVersionIncompatibilityBehavior() == behavior, "option-behavior", what);
    for (int i = 0; i < 6; ++i) {
        std::string x = "ext" + std::to_string(i);
        VCHECK(e.withExtension(x) == (exts.empty() || exts.count(x) > 0), "option-extensions", what + x);
    }
    VCHECK(dflt.isIndent() && !dflt.isAnonymized() && !dflt.isOnlyMainCc() && dflt.isWithBranchSV() && !dflt.isThrowExceptionIfExtensionNotFound(), "option-defaults", "");
    R.seen("cover", "options " + what);
    stdcxx::Properties iq;
    bool ithr = rng.chance(50);
    if (ithr || rng.chance(50)) iq.set(rng.chance(70) ? ImportOptions::THROW_EXCEPTION_IF_EXTENSION_NOT_FOUND : std::string("throwExceptionIfExtensionNotFound"), ithr ? "true" : "false");
    if (!exts.empty()) { std::string list; for (auto& x : exts) list += (list.empty() ? "" : ",") + x; iq.set(ImportOptions::EXTENSIONS_LIST, list); }
    ImportOptions io(iq);
    VCHECK(io.isThrowExceptionIfExtensionNotFound() == ithr, "import-option-throw", what);
    for (int i = 0; i < 6; ++i) {
        std::string x = "ext" + std::to_string(i);
        VCHECK(io.withExtension(x) == (exts.empty() || exts.count(x) > 0), "import-option-extensions", what + x);
    }
    // what names nothing is refused
    stdcxx::Properties bad;
    bool lv = rng.chance(50);
    bad.set(lv ? ExportOptions::TOPOLOGY_LEVEL : ExportOptions::IIDM_VERSION_INCOMPATIBILITY_BEHAVIOR, rng.of({"node_breaker", "", "BUS", "THROW"}));
    VCHECK(fails([&]() { ExportOptions x(bad); }), "unknown-option-value-accepted", "");
    // versions of extensions: set once, within the list
    ExportOptions ev;
    if (!exts.empty()) ev.setExtensions(exts);
    std::map<std::string, std::string> vs;
    for (int i = 0; i < 8; ++i) {
        std::string x = "ext" + std::to_string(rng.below(6)), ver = "1." + std::to_string(rng.below(4));
        bool refuse = vs.count(x) > 0 || (!exts.empty() && !exts.count(x));
        VCHECK(fails([&]() { ev.addExtensionVersion(x, ver); }) == refuse, "option-extension-version", x);
        if (!refuse) vs[x] = ver;
        for (int k = 0; k < 6; ++k) { std::string y = "ext" + std::to_string(k); VCHECK(ev.getExtensionVersion(y) == (vs.count(y) ? vs[y] : ""), "option-extension-version", y); }
    }
}
