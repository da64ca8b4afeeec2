#include "seq.hpp"
#include <neolib/core/gap_vector.hpp>
using neolib::gap_vector;
static seq::Limits L(std::size_t maxSize, std::size_t bulk) { seq::Limits l; l.maxSize = maxSize; l.bulk = bulk; return l; }
#if PBT_PART == 0
PBT_SUITE("tracked-4-1", 40000, 600000) { seq::history<gap_vector<pbt::Tracked, 4, 1>>(c, L(100, 20)); }
#endif
#if PBT_PART == 1
PBT_SUITE("tracked-16", 40000, 600000) { seq::history<gap_vector<pbt::Tracked, 16>>(c, L(300, 60)); }
#endif
#if PBT_PART == 2
PBT_SUITE("int-256", 12000, 200000) { seq::history<gap_vector<int>>(c, L(3000, 1000)); }
#endif
#if PBT_PART == 3
PBT_SUITE("int-8-2", 40000, 600000) { seq::history<gap_vector<int, 8, 2>>(c, L(300, 60)); }
#endif
#if PBT_PART == 4
PBT_SUITE("string-5-3", 20000, 300000) { seq::history<gap_vector<std::string, 5, 3>>(c, L(200, 40)); }
#endif

