// Reference answers computed from primitive facts (nodes, switches, terminals, identifiers) and compared with what the library reports.
#pragma once
#include "model.hpp"

namespace vmon {

struct Group {
    iidm::VoltageLevel* vl = nullptr;
    std::set<std::string> members;                 // nodes or configured buses
    std::set<std::string> terms;                   // connected terminals
    std::set<const iidm::Terminal*> tset;
    bool valid = false;
    bool merged = false;                           // bus/breaker topology
};
struct RefTopo {
    std::vector<Group> bus, bb;
    std::map<const iidm::Terminal*, int> busOf, bbOf;                 // group of a (connected) terminal, valid or not
    std::map<std::pair<const iidm::VoltageLevel*, std::string>, int> busOfMember, bbOfMember;
    std::vector<int> comp, sync;                   // component label per bus group (-1 when not valid)
    std::map<int, int> compSize, syncSize;
};
// reference topology of the working variant
RefTopo referenceTopo(Network& n);
// compares views (P07) of the working variant; returns the reference. prefix starts the violation keys
RefTopo checkViews(Network& n, const std::string& prefix);
// compares components (P09) of the working variant
void checkComponents(Network& n, const RefTopo& ref, const std::string& prefix);
// index and enumerations (P04). names: identifiers and aliases ever used
void checkIndex(Network& n, const std::set<std::string>& names, const std::string& prefix);
// const and non-const accessors and the other ways to the same objects: of the index (P04), of the views (P07), of the components (P09) of the working variant
void checkIndexTwins(Network& n, const std::string& prefix);
void checkViewTwins(Network& n, const std::string& prefix);
void checkComponentTwins(Network& n, const std::string& prefix);
// domain rules in every variant (P06)
void checkRules(Network& n, const std::string& prefix);
// all of the above in every variant; used as the "is this network sane" probe by other modules
void checkSane(Network& n, const std::string& prefix);
void eachVariant(Network& n, const std::function<void(const std::string&)>& f);
std::set<std::string> namesOf(Network& n);
template <typename F> bool refused(F f) {
    try { f(); return false; } catch (const std::exception& e) { if (!isLibraryError(e)) throw; return true; }
}

}  // namespace vmon
