#include "pbt.hpp"
#include "tracked.hpp"
#include <cmath>
#include <deque>
#include <algorithm>
#include <functional>
#include <neolib/core/intrusive_sort.hpp>
#include <neolib/core/segmented_array.hpp>
using pbt::Tracked;

// Shapes that matter to an introsort: random, few distinct keys, sorted runs, organ pipe, all equal,
// and McIlroy's adversary (a comparator that makes any quicksort quadratic), which exhausts its depth.
static std::vector<int> shape(pbt::Case& c, std::size_t n, char const*& kind)
{
    std::vector<int> v(n);
    auto& s = c.s;
    switch (s.below(8))
    {
    case 0: kind = "random"; for (auto& e : v) e = int(s.range(-100000, 100000)); break;
    case 1: kind = "few-keys"; { auto k = 1 + s.below(4); for (auto& e : v) e = int(s.below(k)); } break;
    case 2: kind = "sorted"; for (std::size_t i = 0; i < n; ++i) v[i] = int(i); for (auto k = s.below(4); k && n; --k) std::swap(v[s.below(n)], v[s.below(n)]); break;
    case 3: kind = "reversed"; for (std::size_t i = 0; i < n; ++i) v[i] = int(n - i) / int(1 + s.below(2)); break;
    case 4: kind = "organ-pipe"; for (std::size_t i = 0; i < n; ++i) v[i] = int(std::min(i, n - i)); break;
    case 5: kind = "equal"; { int k = int(s.below(3)); for (auto& e : v) e = k; for (auto m = s.below(3); m && n; --m) v[s.below(n)] = int(s.below(9)) - 3; } break;
    case 6: kind = "saw"; { auto p = 1 + s.below(7); for (std::size_t i = 0; i < n; ++i) v[i] = int(i % p); } break;
    default:
        kind = "adversary";
        {
            std::vector<int> val(n, int(n)), idx(n); int solid = 0; std::size_t candidate = 0;
            for (std::size_t i = 0; i < n; ++i) idx[i] = int(i);
            auto cmp = [&](int x, int y) {
                if (val[x] == int(n) && val[y] == int(n)) { if (std::size_t(x) == candidate) val[x] = solid++; else val[y] = solid++; }
                if (val[x] == int(n)) candidate = x; else if (val[y] == int(n)) candidate = y;
                return val[x] < val[y]; };
            neolib::intrusive_sort(idx.begin(), idx.end(), [](auto a, auto b) { std::iter_swap(a, b); }, cmp);
            for (std::size_t i = 0; i < n; ++i) v[i] = val[i];
        }
    }
    return v;
}
static std::size_t bound(std::size_t n) { double l = n > 1 ? std::log2(double(n)) : 1; return std::size_t(12.0 * double(n) * (l + 1)) + 64; }

// sub-range [a, b) of a vector with parallel data; positions touched are checked to lie in it
PBT_SUITE("vector-parallel", 150000, 3000000)
{
    auto n = c.s.len(c.s.chance(1, 20) ? 2000 : 200), before = c.s.below(4), after = c.s.below(4);
    char const* kind = ""; auto mid = shape(c, n, kind); c.label(kind);
    std::vector<int> v(before, 1 << 30), payload; v.insert(v.end(), mid.begin(), mid.end()); v.insert(v.end(), after, -(1 << 30));
    for (std::size_t i = 0; i < v.size(); ++i) payload.push_back(int(i));
    auto const orig = v;
    auto first = v.begin() + before, last = first + n;
    std::size_t comps = 0, swaps = 0; std::string err;
    auto in = [&](auto it) { return it >= first && it < last; };
    auto sw = [&](auto a, auto b) { ++swaps; if (!in(a) || !in(b)) { if (err.empty()) err = "swap outside the range"; return; } std::swap(*a, *b); std::swap(payload[a - v.begin()], payload[b - v.begin()]); };
    auto inRef = [&](int const& x) { return n && &x >= &*first && &x <= &*first + (n - 1); };
    int mode = int(c.s.below(4)); std::function<bool(int, int)> less;
    switch (mode) { case 0: less = std::less<int>{}; break; case 1: less = std::greater<int>{}; break; case 2: less = [](int a, int b) { return std::abs(a) < std::abs(b); }; break; default: less = [](int a, int b) { return (a & 3) < (b & 3); }; }
    if (mode == 0 && c.s.coin()) neolib::intrusive_sort(first, last, sw);
    else neolib::intrusive_sort(first, last, sw, [&](int const& a, int const& b) { ++comps; if (!inRef(a) || !inRef(b)) { if (err.empty()) err = "comparison outside the range"; } return less(a, b); });
    REQUIRE(err.empty(), err, " kind=", kind, " n=", n);
    for (std::size_t i = 0; i + 1 < n; ++i) REQUIRE(!less(first[i + 1], first[i]), "not sorted at ", i, " of ", n, " kind=", kind, " comparator=", mode);
    for (std::size_t i = 0; i < v.size(); ++i) REQUIRE(v[i] == orig[payload[i]], "parallel data out of step at ", i);
    auto p = payload; std::sort(p.begin(), p.end()); for (std::size_t i = 0; i < p.size(); ++i) REQUIRE(p[i] == int(i), "not a permutation");
    for (std::size_t i = 0; i < before; ++i) REQUIRE(payload[i] == int(i)); for (std::size_t i = before + n; i < v.size(); ++i) REQUIRE(payload[i] == int(i));
    REQUIRE(comps <= bound(n) && swaps <= bound(n), "more than O(n log n) work: n=", n, " comparisons=", comps, " swaps=", swaps, " kind=", kind);
    c.note("kind=", kind, " n=", n, " comparisons=", comps, " swaps=", swaps);
    c.nontrivial(n >= 8 && !std::is_sorted(mid.begin(), mid.end(), less));
}
// element type that notices misuse, other iterator kinds, heap sort on its own
template <typename C> static void other(pbt::Case& c)
{
    Tracked::reset();
    {
        auto n = c.s.len(120); char const* kind = ""; auto m = shape(c, n, kind); c.label(kind);
        C v; for (auto e : m) v.push_back(Tracked{ e });
        auto sw = [](auto a, auto b) { std::swap(*a, *b); };
        if (n && c.s.chance(1, 3)) { c.label("heapsort"); neolib::detail::heapsort(v.begin(), v.end(), sw, std::less<Tracked>{}); }
        else neolib::intrusive_sort(v.begin(), v.end(), sw);
        std::vector<int> got; for (auto& e : v) got.push_back(e.v);
        auto want = m; std::sort(want.begin(), want.end());
        REQUIRE(got == want, "n=", n, " kind=", kind);
        c.nontrivial(n >= 8 && !std::is_sorted(m.begin(), m.end()));
    }
    REQUIRE(Tracked::error.empty(), Tracked::error); REQUIRE(Tracked::live == 0);
}
PBT_SUITE("deque-tracked", 40000, 800000) { other<std::deque<Tracked>>(c); }
PBT_SUITE("segmented-tracked", 30000, 500000) { other<neolib::segmented_array<Tracked, 8>>(c); }
