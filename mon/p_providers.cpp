// P28: loading libraries of extension serializers.
#include "oracle.hpp"
#include "pick.hpp"
#include "plugin/plug.hpp"
#include "xmlio.hpp"
#include <boost/filesystem.hpp>
#include <boost/filesystem/fstream.hpp>
#include <powsybl/iidm/ExtensionProviders.hpp>
#include <powsybl/iidm/converter/xml/AbstractExtensionXmlSerializer.hpp>
#include <unistd.h>
using namespace vmon;
using namespace powsybl::iidm;
namespace fs = boost::filesystem;
using Provider = powsybl::iidm::converter::xml::ExtensionXmlSerializer;
using Providers = ExtensionProviders<Provider>;

namespace {
struct Handmade : converter::xml::AbstractExtensionXmlSerializer {
    static int alive;
    explicit Handmade(const std::string& name) : AbstractExtensionXmlSerializer(std::string(name), "network", "p" + name, plug::uri(name)) { ++alive; }
    ~Handmade() noexcept override { --alive; }
    Extension& read(Extendable&, converter::xml::NetworkXmlReaderContext&) const override { throw powsybl::PowsyblException("not read"); }
    void write(const Extension&, converter::xml::NetworkXmlWriterContext&) const override {}
};
int Handmade::alive = 0;

struct World {
    Rng& rng;
    fs::path root;
    std::map<std::string, std::string> known;      // the names expected, with their libraries
    std::set<std::string> loaded, bad;             // the libraries loaded, the ones refused
    int k = 0;
    std::string base;
    explicit World(Rng& r) : rng(r) {
        static int serial = 0;
        root = fs::canonical(fs::path(fileName()).parent_path()) / ("vmon-plug-" + std::to_string(getpid()) + "-" + std::to_string(serial));
        base = "n" + std::to_string(serial++) + "x";
        fs::create_directories(root);
    }
    ~World() { boost::system::error_code e; fs::remove_all(root, e); }
    std::string name() {
        static const std::vector<std::string> forms = {"", "A", "_", ".a", "-b", "Z9", "\xc3\xa9"};
        return base + std::to_string(k++) + rng.pick(forms);
    }
    static std::string join(const std::vector<std::string>& v) {
        std::string s;
        for (auto& x : v) s += (s.empty() ? "" : "+") + x;
        return s.empty() ? "none" : s;
    }
};
void copyLib(const char* which, const fs::path& to) {
    fs::copy_file(fs::path(VMON_PLUG_DIR) / (std::string("vplug-") + which + ".so"), to);
}
}  // namespace

MODULE(providers) {
    loadSerializers();
    Providers& all = Providers::getInstance();
    auto names = [&]() {
        std::vector<std::string> v;
        for (const auto& p : static_cast<const Providers&>(all).getProviders()) v.push_back(p.getExtensionName());
        return v;
    };
    World w(rng);
    const std::vector<std::string> atStart = names();
    for (auto& x : atStart) w.known[x] = "";
    int handmade = Handmade::alive;

    auto audit = [&](const std::string& d) {
        std::set<std::string> want;
        for (auto& x : w.known) want.insert(x.first);
        auto v = names();
        std::set<std::string> got(v.begin(), v.end());
        VCHECK(got.size() == v.size(), "provider-listed-twice", d);
        if (got != want) {
            std::string t;
            for (auto& x : want) if (got.count(x) == 0) t += " missing " + x;
            for (auto& x : got) if (want.count(x) == 0) t += " unexpected " + x;
            VCHECK(false, "providers-list", d + ":" + t);
        } else VCHECK(true, "providers-list", "");
        std::vector<std::string> w2;
        for (const auto& p : all.getProviders()) w2.push_back(p.getExtensionName());
        VCHECK(v == w2, "providers-lists-differ", d);
        for (auto& x : w.known) {
            if (x.first.compare(0, w.base.size(), w.base) != 0 && !rng.chance(5)) continue;
            auto p = static_cast<const Providers&>(all).findProvider(x.first);
            VCHECK(static_cast<bool>(p) && p.get().getExtensionName() == x.first, "provider-not-found", d + ": " + x.first);
            if (!p) continue;
            VCHECK(&all.findProviderOrThrowException(x.first) == &p.get(), "provider-find-differ", d + ": " + x.first);
            // neighbours of the names known are unknown
            std::string y = x.first;
            switch (rng.below(5)) {
                case 0: y += " "; break;
                case 1: y = y.substr(0, y.size() - 1); break;
                case 2: y = " " + y; break;
                case 3: y[0] = static_cast<char>(y[0] ^ 0x20); break;
                default: y += std::string(1, '\0');
            }
            if (w.known.count(y) == 0) {
                VCHECK(!all.findProvider(y), "provider-found-by-another-name", d + ": " + y);
                VCHECK(refused([&]() { all.findProviderOrThrowException(y); }), "unknown-provider-not-refused", d + ": " + y);
            }
        }
    };
    // an extension goes through the library it is expected to go through, both ways
    auto travel = [&](const std::string& d) {
        std::vector<std::pair<std::string, std::string>> v;
        for (auto& x : w.known) if (!x.second.empty() && x.second[0] == '/') v.push_back(x);
        if (v.empty()) return;
        Network n("n", "test");
        std::vector<std::pair<std::string, std::string>> chosen;
        for (int i = 0; i < 6; ++i) {
            auto x = rng.pick(v);
            bool twice = false;
            for (auto& c : chosen) twice |= c.first == x.first;
            if (twice) continue;
            Substation& s = n.newSubstation().setId("s" + std::to_string(i)).setName("").setCountry(Country::FR).add();
            s.addExtension(std::unique_ptr<Extension>(new plug::PlugExt(s, x.first, "", "value " + std::to_string(i) + " <&>")));
            chosen.push_back(x);
        }
        std::string x = toXml(n);
        Network m = fromXml(x);
        ulong_t found = 0;
        for (auto& s : m.getSubstations()) {
            for (auto& c : chosen) {
                auto p = s.getExtensionByName<plug::PlugExt>(c.first);
                if (!p) continue;
                ++found;
                VCHECK(p.get().by == c.second, "extension-through-another-library", d + ": " + c.first + " through " + p.get().by + " instead of " + c.second);
            }
        }
        VCHECK(found == chosen.size(), "extension-lost", d + " " + S(found) + " of " + S((ulong_t)chosen.size()));
        std::string y = toXml(m);
        VCHECK(toXml(fromXml(y)) == y, "extension-changed", d);
        VCHECK(x.substr(x.find("<iidm:extension ")) == y.substr(y.find("<iidm:extension ")), "extension-changed", d);
        R.count("extensions_through_plugins", found);
    };

    std::vector<fs::path> dirs;
    std::vector<std::string> leaves;
    int rounds = static_cast<int>(rng.range(2, 5));
    for (int round = 0; round < rounds; ++round) {
        static const std::vector<std::string> dirNames = {"d", "with space", "plug-dir.so", "a+b", "x%1%", "\xc3\xa9t\xc3\xa9"};
        bool again = !dirs.empty() && rng.chance(30);
        fs::path dir = again ? rng.pick(dirs) : w.root / (rng.pick(dirNames) + std::to_string(round) + "~s" + std::to_string(w.k++) + (rng.chance(30) ? "x" : ""));
        if (!again) { fs::create_directories(dir); dirs.push_back(dir); }
        // what the directory has
        std::string kinds;
        std::vector<fs::path> faulty;
        int items = static_cast<int>(rng.range(0, 6));
        for (int i = 0; i < items; ++i) {
            std::string prefix = rng.chance(80) ? "plug-" : "plux-", suffix = rng.chance(90) ? ".so" : ".so.1";
            std::vector<std::string> ns;
            auto k = rng.range(0, 3);
            for (int j = 0; j < k; ++j) ns.push_back(w.name());
            std::string leaf = prefix + World::join(ns);
            if (ns.empty()) for (int j = w.k++; j >= 0; --j) leaf += "+none";
            leaf += suffix;
            // the same file name elsewhere is another library
            if (!leaves.empty() && rng.chance(25)) leaf = rng.pick(leaves);
            if (leaf.size() > 200 || fs::exists(fs::symlink_status(dir / leaf))) continue;
            leaves.push_back(leaf);
            switch (rng.below(12)) {
                default: copyLib("entry", dir / leaf); kinds += "l"; break;
                case 0: copyLib("other", dir / leaf); kinds += "o"; break;
                case 1: { fs::ofstream(dir / leaf) << "not a library"; kinds += "t"; break; }
                case 2: { fs::ofstream(dir / leaf) << std::string("\x7f" "ELF\x02\x01\x01", 7); kinds += "e"; break; }
                case 3: fs::create_directories(dir / leaf); copyLib("entry", dir / leaf / (prefix + w.name() + ".so")); kinds += "d"; break;
                case 4: {   // a link to a library elsewhere, or to one of a known directory
                    fs::path target = w.root / ("elsewhere~s" + std::to_string(w.k)) / leaf;
                    fs::create_directories(target.parent_path());
                    copyLib("entry", target);
                    fs::create_symlink(target, dir / ((rng.chance(70) ? "plug-" : "plux-") + ("link" + std::to_string(w.k++)) + ".so"));
                    kinds += "s";
                    break;
                }
                case 5: {
                    std::vector<fs::path> libs;
                    for (fs::recursive_directory_iterator it(w.root), end; it != end; ++it) if (fs::is_regular_file(it->path())) libs.push_back(it->path());
                    if (libs.empty()) break;
                    fs::create_symlink(rng.pick(libs), dir / ((rng.chance(70) ? "plug-" : "plux-") + ("again" + std::to_string(w.k++)) + ".so"));
                    kinds += "r";
                    break;
                }
                case 6: fs::create_symlink(w.root / "nowhere", dir / leaf); kinds += "n"; break;
            }
        }
        // what makes a load fail: a name already taken, here or before, or a factory which throws
        auto fault = rng.below(100);
        if (fault < 45) {
            std::vector<std::string> ns;
            for (auto j = rng.range(0, 2); j > 0; --j) ns.push_back(w.name());
            if (fault < 25) { ns.push_back("=" + std::next(w.known.begin(), static_cast<long>(rng.below(w.known.size())))->first); kinds += "K"; }
            else if (fault < 32) { auto t = w.name(); ns.push_back(t); ns.push_back(t); kinds += "D"; }
            else { ns.push_back("throw"); kinds += "T"; }
            for (auto j = rng.range(0, 2); j > 0; --j) ns.push_back(w.name());
            fs::path f = dir / ("plug-" + World::join(ns) + ".so");
            if (f.filename().string().size() < 200 && !fs::exists(f)) { copyLib("entry", f); faulty.push_back(f); }
        }
        bool both = rng.chance(25);
        std::string pattern = both ? ".*/plu[gx]-.*\\.so" : rng.chance(15) ? ".*\\.so" : rng.chance(10) ? "plug-.*\\.so" : ".*/plug-[^/]*\\.so";
        std::regex re(pattern);
        // another way to say the same directory
        fs::path said = dir;
        switch (rng.below(5)) {
            case 0: said = fs::path(dir.string() + "/"); break;
            case 1: said = dir / ".." / dir.filename(); break;
            case 2: { fs::path l = w.root / ("dirlink" + std::to_string(w.k++)); fs::create_directory_symlink(dir, l); said = l; break; }
            case 3: said = dir / "."; break;
            default: break;
        }
        std::string d = said.filename().string() + " " + kinds + " " + pattern;
        for (auto& f : faulty) d += " faulty " + f.filename().string();
        logOp(d);
        // the libraries which have to be loaded now
        auto expected = [&]() {
            std::map<std::string, std::vector<std::string>> libs;
            for (fs::directory_iterator it(said), end; it != end; ++it) {
                boost::system::error_code e;
                if (!fs::is_regular_file(it->path(), e) || e || !std::regex_match(it->path().string(), re)) continue;
                fs::path c = fs::canonical(it->path());
                if (w.loaded.count(c.string()) != 0 || fs::file_size(c) < 1000) continue;
                std::ifstream is(c.string(), std::ios::binary);
                std::string bytes((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
                if (bytes.find(std::string("\0createSerializers\0", 19)) == std::string::npos) continue;
                libs[c.string()] = plug::names(c.string());
            }
            return libs;
        };
        auto libs = expected();
        // (a name two libraries want is a fault too: links may bring the faulty library of another directory)
        std::map<std::string, int> wanted;
        bool fails = false;
        for (auto& l : libs) for (auto& x : l.second) fails |= x == "throw" || ++wanted[x] > 1 || w.known.count(x) != 0;
        bool failed = refused([&]() { all.loadExtensions(said, re); });
        VCHECK(failed == fails, fails ? "faulty-library-accepted" : "libraries-refused", d);
        for (auto& l : libs) {
            for (auto& x : l.second) {
                if (x == "throw") continue;
                if (!failed) w.known[x] = l.first;
            }
            if (!failed) { w.loaded.insert(l.first); continue; }
            // a library which is refused leaves nothing; the other ones are loaded entirely, or not yet
            bool bad = false;
            std::map<std::string, int> own;
            for (auto& x : l.second) bad |= x == "throw" || w.known.count(x) != 0 || ++own[x] > 1;
            if (bad) { w.bad.insert(l.first); continue; }
            ulong_t found = 0;
            for (auto& x : l.second) found += static_cast<bool>(all.findProvider(x));
            VCHECK(found == 0 || found == l.second.size(), "library-partly-loaded", d + ": " + l.first);
            if (found == 0) continue;
            for (auto& x : l.second) w.known[x] = l.first;
            w.loaded.insert(l.first);
            R.count("libraries_loaded_beside_a_fault");
        }
        R.count(failed ? "loads_refused" : "loads");
        R.count("libraries_expected", libs.size());
        std::string k2 = kinds;
        std::sort(k2.begin(), k2.end());
        k2.erase(std::unique(k2.begin(), k2.end()), k2.end());
        R.seen("cover", k2 + " " + pattern + (failed ? " refused" : ""));
        audit(d);
        travel(d);
        if (failed) {
            // without what was wrong, the others are loaded
            if (rng.chance(30)) {
                VCHECK(refused([&]() { all.loadExtensions(said, re); }), "faulty-library-accepted-later", d);
                for (auto& l : libs) {
                    if (w.bad.count(l.first) != 0 || w.loaded.count(l.first) != 0 || l.second.empty() || !all.findProvider(l.second[0])) continue;
                    for (auto& x : l.second) w.known[x] = l.first;
                    w.loaded.insert(l.first);
                }
                audit(d + " refused again");
            }
            for (auto& f : w.bad) {
                for (fs::directory_iterator it(dir), end; it != end;) {
                    fs::path p = it->path();
                    ++it;
                    boost::system::error_code e;
                    if (fs::is_regular_file(p, e) && fs::canonical(p).string() == f) fs::remove(p);
                }
                fs::remove(f);
            }
            w.bad.clear();
            libs = expected();
            bool refusedAgain = refused([&]() { all.loadExtensions(said, re); });
            VCHECK(!refusedAgain, "libraries-refused-after-a-fault", d);
            for (auto& l : libs) {
                for (auto& x : l.second) w.known[x] = l.first;
                w.loaded.insert(l.first);
            }
            audit(d + " after a fault");
            R.count("loads_after_a_fault");
        } else if (rng.chance(60)) {
            bool r = refused([&]() { all.loadExtensions(rng.chance(50) ? said : dir, re); });
            if (pattern.compare(0, 2, ".*") == 0) VCHECK(!r, "second-load-refused", d);
            audit(d + " again");
            R.count("loads_again");
        }
        // what is not a directory
        fs::path no = rng.chance(50) ? w.root / "nowhere" : rng.chance(50) ? fs::path() : fs::path(VMON_PLUG_DIR) / "vplug-entry.so";
        VCHECK(refused([&]() { all.loadExtensions(no, re); }), "not-a-directory-accepted", no.string());
        // providers made by hand
        {
            bool taken = rng.chance(50);
            std::string x = taken ? std::next(w.known.begin(), static_cast<long>(rng.below(w.known.size())))->first : w.name();
            {
                bool r = refused([&]() { all.registerExtension(std::unique_ptr<Provider>(new Handmade(x))); });
                VCHECK(r == taken, taken ? "provider-replaced" : "provider-refused", x);
                if (!taken) { w.known[x] = ""; ++handmade; }
                VCHECK(Handmade::alive == handmade, "handmade-providers-alive", S((ulong_t)Handmade::alive) + " instead of " + S((ulong_t)handmade));
                R.count(taken ? "handmade_refused" : "handmade");
            }
        }
        audit("by hand");
        travel("end of round");
    }
}
