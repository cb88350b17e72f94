// An extension which says which library made it (P28); shared by the monitors and the libraries they load.
#pragma once
#include <powsybl/iidm/Extendable.hpp>
#include <powsybl/iidm/Extension.hpp>
#include <string>
#include <typeindex>
#include <vector>
namespace plug {
inline std::string uri(const std::string& name) {
    std::string s = "http://plug/";
    for (unsigned char c : name) (s += "0123456789abcdef"[c >> 4]) += "0123456789abcdef"[c & 15];
    return s;
}
// the names of the serializers of a library: plug-<name>+<name>..., followed by what its directory has after ~
inline std::vector<std::string> names(const std::string& path) {
    std::vector<std::string> res;
    auto slash = path.rfind('/');
    std::string dir = path.substr(0, slash), s = path.substr(slash + 1), suffix;
    dir = dir.substr(dir.rfind('/') + 1);
    if (dir.find('~') != std::string::npos) suffix = dir.substr(dir.find('~') + 1);
    s = s.substr(s.find('-') + 1);
    s = s.substr(0, s.rfind('.'));
    while (!s.empty()) {
        auto p = s.find('+');
        std::string name = s.substr(0, p);
        s = p == std::string::npos ? "" : s.substr(p + 1);
        if (name == "none") continue;
        res.push_back(name == "throw" ? name : name[0] == '=' ? name.substr(1) : name + suffix);
    }
    return res;
}
class PlugExt : public powsybl::iidm::Extension {
public:
    PlugExt(powsybl::iidm::Extendable& e, std::string n, std::string b, std::string v)
        : Extension(e), name(std::move(n)), by(std::move(b)), value(std::move(v)) {}
    const std::string& getName() const override { return name; }
    const std::type_index& getType() const override {
        static const std::type_index t = typeid(PlugExt);
        return t;
    }
    std::string name, by, value;

private:
    void assertExtendable(const stdcxx::Reference<powsybl::iidm::Extendable>&) const override {}
};
}  // namespace plug
