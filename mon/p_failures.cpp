// P26: files and streams which fail, and the lexical variety of documents (P27).
#include "oracle.hpp"
#include "pick.hpp"
#include "xmlio.hpp"
#include "xmlwork.hpp"
#include <boost/filesystem.hpp>
#include <boost/filesystem/fstream.hpp>
#include <csignal>
#include <sys/resource.h>
#include <unistd.h>
using namespace vmon;
using namespace powsybl::iidm;
namespace fs = boost::filesystem;

namespace {
struct Broken : std::runtime_error {
    Broken() : std::runtime_error("broken device") {}
};
// takes the first bytes, then fails for good
struct FailingSink : std::streambuf {
    std::string got;
    size_t room;
    bool throws, bulk;
    FailingSink(size_t r, bool t, bool b) : room(r), throws(t), bulk(b) {}
    int_type overflow(int_type c) override {
        if (c == traits_type::eof()) return c;
        if (got.size() >= room) { if (throws) throw Broken(); return traits_type::eof(); }
        got.push_back(static_cast<char>(c));
        return c;
    }
    std::streamsize xsputn(const char* s, std::streamsize k) override {
        if (!bulk) return std::streambuf::xsputn(s, k);
        size_t n = std::min(static_cast<size_t>(k), room - std::min(room, got.size()));
        got.append(s, n);
        if (n < static_cast<size_t>(k) && throws) throw Broken();
        return static_cast<std::streamsize>(n);
    }
};
// gives the first bytes, by pieces, then ends or fails
struct FailingSource : std::streambuf {
    std::string text;
    size_t at = 0, stop, piece;
    bool throws;
    FailingSource(std::string t, size_t s, size_t p, bool th) : text(std::move(t)), stop(s), piece(p), throws(th) {}
    int_type underflow() override {
        if (at >= stop) { if (throws) throw Broken(); return traits_type::eof(); }
        size_t n = std::min(piece, stop - at);
        setg(&text[at], &text[at], &text[at] + n);
        at += n;
        return traits_type::to_int_type(*gptr());
    }
};
// how many bytes a file may have
struct FileLimit {
    struct rlimit old;
    explicit FileLimit(size_t n) {
        std::signal(SIGXFSZ, SIG_IGN);
        getrlimit(RLIMIT_FSIZE, &old);
        struct rlimit l = old;
        l.rlim_cur = n;
        setrlimit(RLIMIT_FSIZE, &l);
    }
    ~FileLimit() { setrlimit(RLIMIT_FSIZE, &old); }
    FileLimit(const FileLimit&) = delete;
    FileLimit& operator=(const FileLimit&) = delete;
};
std::string fileBytes(const fs::path& p) {
    fs::ifstream is(p);
    std::ostringstream os;
    os << is.rdbuf();
    return os.str();
}
ulong_t openFiles() {
    ulong_t k = 0;
    for (fs::directory_iterator it("/proc/self/fd"), end; it != end; ++it) ++k;
    return k;
}
std::string outcome(const std::function<void()>& f, std::string& what) {
    try {
        f();
    } catch (const std::ios_base::failure& e) { what = e.what(); return "ios failure";
    } catch (const Broken& e) { what = e.what(); return "device";
    } catch (const std::exception& e) { what = e.what(); return "error";
    }
    what.clear();
    return "";
}
size_t cut(Rng& rng, size_t length) {
    switch (rng.below(7)) {
        case 0: return 0;
        case 1: return length - 1;
        case 2: return std::min(length - 1, static_cast<size_t>(rng.range(1, 60)));
        case 3: return std::min(length - 1, static_cast<size_t>(4000 * rng.range(1, 4) + rng.range(-2, 2)));
        case 4: return length - 1 - std::min(length - 1, static_cast<size_t>(rng.below(40)));
        default: return static_cast<size_t>(rng.below(length));
    }
}
}  // namespace

MODULE(failing_streams) {
    Network n("net", "test");
    Gen g(n, rng.u64());
    populate(n, g, rng, static_cast<int>(rng.range(1, 20)));
    undefinedSteps(n, true);
    DumpMap before = dumpAll(n);
    ExportOptions o;
    o.setIndent(rng.chance(50));
    if (rng.chance(30)) o.setThrowExceptionIfExtensionNotFound(false);
    std::string x = toXml(n, o), what;
    ulong_t files = openFiles();
    auto sound = [&](const std::string& d) {
        std::string df = diff(before, dumpAll(n));
        VCHECK(df.empty(), "failed-export-changes-the-network", d + ": " + df);
        VCHECK(toXml(n, o) == x, "export-after-a-failure", d);
        VCHECK(openFiles() == files, "files-left-open", d + " " + S(openFiles()) + " instead of " + S(files));
    };
    static const std::vector<std::ios_base::iostate> masks = {std::ios_base::goodbit, std::ios_base::goodbit, std::ios_base::badbit, std::ios_base::failbit | std::ios_base::badbit};
    // streams which do not take everything
    for (int k = 0; k < 6; ++k) {
        bool enough = rng.chance(15);
        size_t room = enough ? x.size() : cut(rng, x.size());
        FailingSink sink(room, rng.chance(50), rng.chance(60));
        std::ostream os(&sink);
        auto mask = rng.pick(masks);
        os.exceptions(mask);
        std::string d = "stream of " + S((ulong_t)room) + " bytes of " + S((ulong_t)x.size()) + (sink.throws ? " throwing" : "") + (sink.bulk ? " bulk" : "") + " exceptions " + S((ulong_t)mask);
        logOp(d);
        std::string r = outcome([&]() { Network::writeXml("mem.xiidm", os, n, o); }, what);
        if (enough) VCHECK(r.empty() && sink.got == x && os.good(), "good-stream-refused", d + ": " + what);
        else {
            VCHECK(!r.empty(), "failed-export-accepted:stream", d);
            VCHECK(x.compare(0, sink.got.size(), sink.got) == 0, "failed-export-writes-something-else", d);
        }
        R.seen("cover", std::string("sink ") + (enough ? "enough" : room == 0 ? "none" : room + 1 == x.size() ? "all but one" : "some") + (sink.throws ? " throwing" : " short") + " " + S((ulong_t)mask) + " -> " + r);
        R.count(r.empty() ? "exports_accepted" : "exports_failed");
    }
    sound("streams");
    // a stream which has already failed
    {
        std::ostringstream os;
        os.setstate(rng.chance(50) ? std::ios_base::failbit : std::ios_base::badbit);
        VCHECK(!outcome([&]() { Network::writeXml("mem.xiidm", os, n, o); }, what).empty(), "failed-export-accepted:failed-before", "");
    }
    // files
    fs::path dir = fileName() + ".d";
    fs::create_directories(dir);
    for (int k = 0; k < 4; ++k) {
        ExportOptions p = o;
        bool anonymous = rng.chance(50);
        if (anonymous) p.setAnonymized(true);
        fs::path f = dir / ("f" + S((ulong_t)(k % 2)) + ".xiidm"), csv = fs::path(f).replace_extension("csv");
        Network::writeXml(f, n, p);
        std::string whole = fileBytes(f), mapping = anonymous ? fileBytes(csv) : "";
        fs::remove(f);
        fs::remove(csv);
        bool onMapping = anonymous && mapping.size() > whole.size() && rng.chance(50);
        size_t room = rng.chance(15) ? std::max(whole.size(), mapping.size()) : onMapping ? whole.size() + static_cast<size_t>(rng.below(mapping.size() - whole.size())) : cut(rng, whole.size());
        bool enough = room >= whole.size() && room >= mapping.size();
        std::string d = "file of " + S((ulong_t)room) + " bytes of " + S((ulong_t)whole.size()) + (anonymous ? ", mapping of " + S((ulong_t)mapping.size()) : "");
        logOp(d);
        std::string r;
        {
            FileLimit l(room);
            r = outcome([&]() { Network::writeXml(f, n, p); }, what);
        }
        if (enough) VCHECK(r.empty() && fileBytes(f) == whole && (!anonymous || fileBytes(csv) == mapping), "good-file-refused", d + ": " + what);
        else VCHECK(!r.empty(), std::string("failed-export-accepted:file") + (room >= whole.size() ? ":mapping" : ""), d);
        R.seen("cover", std::string("file ") + (enough ? "enough" : room >= whole.size() ? "mapping" : "document") + (anonymous ? " anonymised" : "") + " -> " + r);
        R.count(r.empty() ? "exports_accepted" : "exports_failed");
    }
    // places which cannot be written
    {
        std::string missing = (dir / "nowhere" / "f.xiidm").string();
        VCHECK(!outcome([&]() { Network::writeXml(fs::path(missing), n, o); }, what).empty(), "failed-export-accepted:no-directory", "");
        VCHECK(!outcome([&]() { Network::writeXml(dir, n, o); }, what).empty(), "failed-export-accepted:directory", "");
        VCHECK(!fs::exists(dir / "nowhere"), "failed-export-creates", "");
        ExportOptions p = o;
        p.setAnonymized(true);
        std::ostringstream os;
        VCHECK(!outcome([&]() { Network::writeXml(missing, os, n, p); }, what).empty(), "failed-export-accepted:no-directory-for-the-mapping", "");
        VCHECK(!outcome([&]() { Network::readXml(fs::path(missing)); }, what).empty(), "import-of-nothing", "");
        VCHECK(!outcome([&]() { Network::readXml(dir); }, what).empty(), "import-of-a-directory", "");
    }
    sound("files");
    // sources by pieces, which end or fail too early
    Network reference = fromXml(x);
    DumpMap back = dump(reference);
    size_t closing = x.rfind('>');
    for (int k = 0; k < 5; ++k) {
        bool whole = rng.chance(40), throws = rng.chance(50);
        size_t stop = whole ? x.size() : std::min(closing, cut(rng, x.size()));
        FailingSource source(x, stop, static_cast<size_t>(rng.chance(50) ? rng.range(1, 9) : rng.range(10, 5000)), throws);
        std::istream is(&source);
        auto mask = rng.pick(masks);
        is.exceptions(mask);
        std::string d = "source of " + S((ulong_t)stop) + " bytes of " + S((ulong_t)x.size()) + " by " + S((ulong_t)source.piece) + (throws ? " throwing" : "") + " exceptions " + S((ulong_t)mask);
        logOp(d);
        DumpMap got;
        std::string r = outcome([&]() { Network m = Network::readXml("mem.xiidm", is); got = dump(m); }, what);
        // a device which breaks behind the document may be noticed or not
        if (whole && (!throws || r.empty())) {
            VCHECK(r.empty(), "good-source-refused", d + ": " + what);
            std::string df = r.empty() ? diff(back, got) : "";
            VCHECK(df.empty(), "source-read-differently:" + firstDiffKey(df), d + ": " + df);
        } else if (!whole) VCHECK(!r.empty(), "failed-import-accepted", d);
        R.seen("cover", std::string("source ") + (whole ? "whole" : "cut") + (throws ? " throwing" : " ending") + " " + S((ulong_t)mask) + " -> " + r);
        R.count(r.empty() ? "imports_accepted" : "imports_failed");
    }
    // a mapping which cannot be read
    {
        ExportOptions p = o;
        p.setAnonymized(true);
        fs::path f = dir / "a.xiidm", csv = dir / "a.csv";
        Network::writeXml(f, n, p);
        fs::remove(csv);
        fs::create_directories(csv);
        VCHECK(!outcome([&]() { Network::readXml(f); }, what).empty(), "unreadable-mapping-ignored", "");
    }
    fs::remove_all(dir);
    sound("imports");
}
