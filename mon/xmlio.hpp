// XML in and out of memory, with the extension serializers of the repository loaded.
#pragma once
#include "model.hpp"
#include <powsybl/iidm/converter/ExportOptions.hpp>
#include <powsybl/iidm/converter/ImportOptions.hpp>

namespace vmon {
using powsybl::iidm::converter::ExportOptions;
using powsybl::iidm::converter::ImportOptions;
void loadSerializers();
// unique name for files of this process in the working directory (the mapping of an anonymised export is put beside it)
std::string fileName();
std::string toXml(const Network& n, const ExportOptions& o = ExportOptions(), const std::string& file = "mem.xiidm");
Network fromXml(const std::string& text, const ImportOptions& o = ImportOptions(), const std::string& file = "mem.xiidm");
}  // namespace vmon
