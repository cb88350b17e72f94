#include "xmlio.hpp"
#include <boost/filesystem.hpp>
#include <powsybl/iidm/ExtensionProviders.hpp>
#include <powsybl/iidm/converter/xml/ExtensionXmlSerializer.hpp>
#include <atomic>
#include <cstdlib>
#include <regex>
#include <unistd.h>

namespace vmon {
void loadSerializers() {
    static bool done = false;
    if (done) return;
    done = true;
    iidm::ExtensionProviders<iidm::converter::xml::ExtensionXmlSerializer>::getInstance().loadExtensions(VMON_EXT_DIR, std::regex(".*libviidm-ext-.*\\.so"));
}
std::string fileName() {
    static std::atomic<int> k(0);
    const char* dir = std::getenv("TMPDIR");
    return std::string(dir ? dir : "/tmp") + "/vmon-" + std::to_string(getpid()) + "-" + std::to_string(k++) + ".xiidm";
}
std::string toXml(const Network& n, const ExportOptions& o, const std::string& file) {
    std::ostringstream os;
    Network::writeXml(file, os, n, o);
    return os.str();
}
Network fromXml(const std::string& text, const ImportOptions& o, const std::string& file) {
    std::istringstream is(text);
    return Network::readXml(file, is, o);
}
}  // namespace vmon
