// Workload and format facts shared by the XML modules.
#pragma once
#include "gen.hpp"

namespace vmon {
// network with state values everywhere, several variants, any working variant
void populate(Network& n, Gen& g, Rng& rng, int size);
// removes what the format has no place for; returns whether there was something of the kind
bool dropUnserializable(DumpMap& d);
// tap changer steps whose setters were given an undefined value (known finding of P11); returns whether there is any
bool undefinedSteps(Network& n, bool repair);
}  // namespace vmon
