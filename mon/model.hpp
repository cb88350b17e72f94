// Table of everything the public API says about a network: handles (objects and sub-objects) x attributes.
// The state dump, the setter workloads and the domain rules are all driven by this table.
#pragma once
#include "util.hpp"

#include <powsybl/PowsyblException.hpp>
#include <powsybl/AssertionError.hpp>
#include <powsybl/iidm/ValidationException.hpp>
#include <powsybl/iidm/Network.hpp>
#include <powsybl/iidm/Substation.hpp>
#include <powsybl/iidm/VoltageLevel.hpp>
#include <powsybl/iidm/VoltageLevelViews.hpp>
#include <powsybl/iidm/NetworkViews.hpp>
#include <powsybl/iidm/TerminalViews.hpp>
#include <powsybl/iidm/Switch.hpp>
#include <powsybl/iidm/Bus.hpp>
#include <powsybl/iidm/BusbarSection.hpp>
#include <powsybl/iidm/Battery.hpp>
#include <powsybl/iidm/Load.hpp>
#include <powsybl/iidm/Generator.hpp>
#include <powsybl/iidm/ShuntCompensator.hpp>
#include <powsybl/iidm/ShuntCompensatorLinearModel.hpp>
#include <powsybl/iidm/ShuntCompensatorNonLinearModel.hpp>
#include <powsybl/iidm/StaticVarCompensator.hpp>
#include <powsybl/iidm/DanglingLine.hpp>
#include <powsybl/iidm/Boundary.hpp>
#include <powsybl/iidm/LccConverterStation.hpp>
#include <powsybl/iidm/VscConverterStation.hpp>
#include <powsybl/iidm/HvdcLine.hpp>
#include <powsybl/iidm/Line.hpp>
#include <powsybl/iidm/TieLine.hpp>
#include <powsybl/iidm/TwoWindingsTransformer.hpp>
#include <powsybl/iidm/ThreeWindingsTransformer.hpp>
#include <powsybl/iidm/RatioTapChanger.hpp>
#include <powsybl/iidm/PhaseTapChanger.hpp>
#include <powsybl/iidm/ActivePowerLimits.hpp>
#include <powsybl/iidm/ApparentPowerLimits.hpp>
#include <powsybl/iidm/CurrentLimits.hpp>
#include <powsybl/iidm/MinMaxReactiveLimits.hpp>
#include <powsybl/iidm/ReactiveCapabilityCurve.hpp>
#include <powsybl/iidm/Component.hpp>
#include <powsybl/iidm/ConnectedComponentsManager.hpp>
#include <powsybl/iidm/SynchronousComponentsManager.hpp>

namespace vmon {
namespace iidm = powsybl::iidm;
using iidm::Network;

// S: one value for all variants; V: stored per variant; T: follows from the topology; C: belongs to computed buses
enum class Cls { S, V, T, C };

struct Attr {
    std::string name;
    Cls cls;
    std::function<std::string(void*)> get;
    std::function<void(void*, double)> set;              // empty: read only
    std::function<std::string(double)> fmt;              // text expected from get() once set(v) was accepted
    std::function<double(Rng&, void*)> gen;
    std::function<int(void*, double)> valid;             // 1 must be accepted, 0 must be refused, -1 either
    std::function<double(void*)> num;                    // numeric value of get()
};

struct Handle {
    std::string kind;
    std::string key;
    void* p = nullptr;
    iidm::Identifiable* owner = nullptr;
};

const std::map<std::string, std::vector<Attr>>& attrTable();
void forEachHandle(Network& n, const std::function<void(const Handle&)>& f);
std::vector<Handle> handles(Network& n);
std::vector<Handle> handlesOf(iidm::Identifiable& id);
std::string kindOf(const iidm::Identifiable& id);
std::string tname(const iidm::Terminal& t);
std::vector<iidm::Terminal*> allTerminals(Network& n);
std::vector<iidm::Terminal*> terminalsOf(iidm::Identifiable& id);

using DumpMap = std::map<std::string, std::string>;
enum DumpFlags { DS = 1, DV = 2, DT = 4, DC = 8, DALL = 15 };
// working variant only
DumpMap dump(Network& n, int flags = DALL);
// all the variants; keys of variant values prefixed by "<variant>@". Working variant restored (must be set)
DumpMap dumpAll(Network& n, int flags = DALL);
// differences as text (empty when equal); keys for which ignore returns true are skipped
std::string diff(const DumpMap& a, const DumpMap& b, const std::function<bool(const std::string&)>& ignore = nullptr, size_t maxItems = 8);

double genAny(Rng& r);
double genPos(Rng& r);
double genVolt(Rng& r);
bool isLibraryError(const std::exception& e);

}  // namespace vmon
