#include "seq.hpp"
#include <neolib/core/segmented_array.hpp>
using neolib::segmented_array;
static seq::Limits L(std::size_t maxSize, std::size_t bulk) { seq::Limits l; l.maxSize = maxSize; l.bulk = bulk; return l; }
#if PBT_PART == 0
PBT_SUITE("tracked-4", 36000, 600000) { seq::history<segmented_array<pbt::Tracked, 4>>(c, L(200, 40)); }
#endif
#if PBT_PART == 1
PBT_SUITE("tracked-64", 16000, 300000) { seq::history<segmented_array<pbt::Tracked>>(c, L(1500, 300)); }
#endif
#if PBT_PART == 2
PBT_SUITE("int-1", 16000, 300000) { seq::history<segmented_array<int, 1>>(c, L(100, 20)); }
#endif
#if PBT_PART == 3
PBT_SUITE("int-8", 32000, 600000) { seq::history<segmented_array<int, 8>>(c, L(600, 100)); }
#endif
#if PBT_PART == 4
PBT_SUITE("string-5", 16000, 300000) { seq::history<segmented_array<std::string, 5>>(c, L(200, 40)); }
#endif

