#include "seq.hpp"
#include <neolib/core/vecarray.hpp>
#include <neolib/core/small_vector.hpp>
using namespace neolib;
using pbt::Tracked;
static seq::Limits L(std::size_t maxSize, std::size_t bulk, std::size_t capacity = 0) { seq::Limits l; l.maxSize = maxSize; l.bulk = bulk; l.capacity = capacity; return l; }
// static_vector is boost's, whose insert does not support that
static seq::Limits NA(seq::Limits l) { l.aliasing = false; return l; }
// fixed capacity: edits beyond it are refused
#if PBT_PART == 0
PBT_SUITE("static-tracked-8", 20000, 400000) { seq::history<static_vector<Tracked, 8>>(c, NA(L(12, 6, 8))); }
#endif
#if PBT_PART == 1
PBT_SUITE("static-int-1", 5000, 100000) { seq::history<static_vector<int, 1>>(c, NA(L(4, 3, 1))); }
#endif
#if PBT_PART == 2
PBT_SUITE("vecarray-string-16", 10000, 200000) { seq::history<vecarray<std::string, 16>>(c, NA(L(24, 12, 16))); }
#endif
// growing
#if PBT_PART == 3
PBT_SUITE("small-tracked-4", 20000, 400000) { seq::history<small_vector<Tracked, 4, MaxSize>>(c, L(60, 12)); }
#endif
#if PBT_PART == 4
PBT_SUITE("small-int-8", 10000, 200000) { seq::history<growable_static_vector<int, 8, MaxSize>>(c, L(200, 40)); }
#endif
#if PBT_PART == 5
PBT_SUITE("small-string-1", 10000, 200000) { seq::history<small_vector<std::string, 1, MaxSize>>(c, L(40, 8)); }
#endif
#if PBT_PART == 6
PBT_SUITE("default-max-tracked-3", 10000, 200000) { seq::history<small_vector<Tracked, 3>>(c, L(40, 8)); }
#endif
// growing up to a maximum
#if PBT_PART == 7
PBT_SUITE("bounded-tracked-4-10", 20000, 400000) { seq::history<vecarray<Tracked, 4, 10>>(c, L(16, 8, 10)); }
#endif
#if PBT_PART == 8
PBT_SUITE("bounded-string-2-5", 10000, 200000) { seq::history<vecarray<std::string, 2, 5>>(c, L(9, 5, 5)); }
#endif
#if PBT_PART == 9
PBT_SUITE("available", 10000, 200000)
{
    vecarray<int, 3, 12> g; vecarray<int, 7> f; std::size_t n = c.s.below(8);
    for (std::size_t i = 0; i < n; ++i) { g.push_back(int(i)); f.push_back(int(i)); }
    REQUIRE(neolib::available(g) == 12 - n); REQUIRE(g.available() == 12 - n); REQUIRE(neolib::available(f) == 7 - n);
    REQUIRE(g.to_std_vector() == std::vector<int>(f.begin(), f.end()));
    REQUIRE(g.max_size() == 12); REQUIRE(f.max_size() == 7);
    vecarray<int, 3, 12> fromList{ 1, 2, 3, 4, 5 }; REQUIRE(fromList.size() == 5); REQUIRE(fromList.back() == 5);
    std::vector<int> v(g.begin(), g.end()); vecarray<int, 3, 12> fromVector{ v }; REQUIRE(std::equal(v.begin(), v.end(), fromVector.begin(), fromVector.end()));
    // the small buffer holds the elements while they fit
    auto inside = [](auto& x) { auto p = reinterpret_cast<char const*>(x.data()); auto b = reinterpret_cast<char const*>(&x); return p >= b && p < b + sizeof(x); };
    vecarray<int, 3, 12> h; for (int i = 0; i < 3; ++i) { h.push_back(i); REQUIRE(inside(h), "element storage should be the inline buffer at size ", i + 1); }
    REQUIRE(h.capacity() >= 3);
    h.push_back(3); REQUIRE(!inside(h));
    c.nontrivial(n > 3);
}

#endif
