// A library of extension serializers: their names are in the path of its file.
#include "plug.hpp"
#include <boost/dll/alias.hpp>
#include <dlfcn.h>
#include <powsybl/PowsyblException.hpp>
#include <powsybl/iidm/ExtensionProvider.hpp>
#include <powsybl/iidm/converter/xml/AbstractExtensionXmlSerializer.hpp>
#include <powsybl/iidm/converter/xml/NetworkXmlReaderContext.hpp>
#include <powsybl/iidm/converter/xml/NetworkXmlWriterContext.hpp>
#include <powsybl/xml/XmlStreamReader.hpp>
#include <powsybl/xml/XmlStreamWriter.hpp>
#include <stdexcept>
using namespace powsybl::iidm;

namespace {
std::string here() {
    static const char mark = 0;
    Dl_info info;
    return dladdr(&mark, &info) != 0 ? info.dli_fname : "?";
}
class Serializer : public converter::xml::AbstractExtensionXmlSerializer {
public:
    explicit Serializer(const std::string& name)
        : AbstractExtensionXmlSerializer(std::string(name), "network", "p" + name, plug::uri(name)) {}
    Extension& read(Extendable& extendable, converter::xml::NetworkXmlReaderContext& context) const override {
        std::string by = context.getReader().getAttributeValue("by"), value = context.getReader().getAttributeValue("value");
        if (by != here()) throw powsybl::PowsyblException("written by " + by);
        context.getReader().readUntilEndElement(getExtensionName(), []() {});
        extendable.addExtension(std::unique_ptr<Extension>(new plug::PlugExt(extendable, getExtensionName(), here(), value)));
        return extendable.getExtension<plug::PlugExt>();
    }
    void write(const Extension& extension, converter::xml::NetworkXmlWriterContext& context) const override {
        context.getWriter().writeAttribute("by", here());
        context.getWriter().writeAttribute("value", safeCast<plug::PlugExt>(extension).value);
    }
};
std::vector<std::unique_ptr<ExtensionProvider>> create() {
    std::vector<std::unique_ptr<ExtensionProvider>> res;
    for (auto& name : plug::names(here())) {
        if (name == "throw") throw powsybl::PowsyblException("refused by " + here());
        res.emplace_back(new Serializer(name));
    }
    return res;
}
}  // namespace

#ifdef WITH_ENTRY
BOOST_DLL_ALIAS(create, createSerializers)
#else
BOOST_DLL_ALIAS(create, makeSerializers)
#endif
