// N02: Bresenham counters against exact fractions; random draws against their ranges; random traversals against a tally.
#include "pbt.hpp"
#include <cmath>
#include <limits>
#include <neolib/neolib.hpp>
#include <neolib/core/bresenham_counter.hpp>
#include <neolib/core/random.hpp>

using namespace pbt;

namespace
{
    i64 fdiv(i64 a, i64 b) { i64 q = a / b; return q * b > a ? q - 1 : q; } // b > 0
    template <typename K> void count(Case& c, K& k, i64 from, i64 to, i64 n, bool nearest)
    {
        i64 last = 0, lo = 0, hi = 0;
        for (i64 i = 0; i < n; ++i)
        {
            i64 v = c.s.exhausted() || (i & 1) ? static_cast<i64>(k()) : static_cast<i64>(k.operator typename std::decay_t<decltype(k())>());
            if (n == 1) { REQUIRE(v == from, "the only value is ", v); continue; }
            i64 num = (to - from) * i, f = from + fdiv(num, n - 1), e = from + fdiv(num + n - 2, n - 1);
            REQUIRE(v == f || v == e, "value ", i, " of ", n, " from ", from, " to ", to, " is ", v, ", not ", f, " or ", e);
            if (nearest && f != e) { i64 twice = 2 * (num - (f - from) * (n - 1)); if (twice != n - 1) REQUIRE(v == (twice < n - 1 ? f : e), "value ", i, " is ", v, ", not the nearest"); }
            if (i == 0) REQUIRE(v == from, "starts at ", v);
            if (i == n - 1) REQUIRE(v == to, "ends at ", v);
            if (i == 1) lo = hi = v - last;
            if (i > 1) { lo = std::min(lo, v - last); hi = std::max(hi, v - last); }
            last = v;
        }
        REQUIRE(hi - lo <= 1, "steps from ", lo, " to ", hi);
    }
    template <typename T> void counters(Case& c)
    {
        auto& s = c.s; i64 big = sizeof(T) == 2 ? 4000 : 500000000; // twice the span must fit
        auto value = [&] { return s.coin() ? s.range(-20, 20) : s.range(-big, big); };
        i64 n = s.coin() ? 1 + static_cast<i64>(s.below(20)) : 1 + static_cast<i64>(s.below(400)); i64 from = value(), to = s.chance(1, 6) ? from : value();
        int how = static_cast<int>(s.below(4)); if (how % 2) { from = 0; to = std::abs(to); }
        c.note("from ", from, " to ", to, " in ", n, " form ", how);
        T a = static_cast<T>(from), b = static_cast<T>(to), m = static_cast<T>(n);
        using K = neolib::bresenham_counter<T>; using A = neolib::bresenham_counter_alt<T>;
        K k = how == 0 ? K{ a, b, m } : how == 1 ? K{ b, m } : K{}; A l = how == 0 ? A{ a, b, m } : how == 1 ? A{ b, m } : A{};
        if (how >= 2 && s.coin()) { k.init(T(1), T(7), T(3)); l.init(T(5), T(3)); k(); l(); }
        if (how == 2) { k.init(a, b, m); l.init(a, b, m); } else if (how == 3) { k.init(b, m); l.init(b, m); }
        K k2 = k; A l2 = l;
        count(c, k, from, to, n, true); count(c, l, from, to, n, false); count(c, k2, from, to, n, true); count(c, l2, from, to, n, false);
        c.nontrivial(n > 2 && from != to && (to - from) % (n - 1) != 0);
    }
}
PBT_SUITE("counters", 12000, 200000) { if (c.s.chance(1, 4)) counters<short>(c); else if (c.s.coin()) counters<int>(c); else counters<long>(c); }

namespace
{
    template <typename T, typename Gen> void draws(Case& c)
    {
        auto& s = c.s; using R = neolib::basic_random<T, Gen>; using L = std::numeric_limits<T>;
        bool secure = s.chance(1, 8); auto seed = s.below(1000); R r = secure ? R{} : R{ seed }; R r2{ seed };
        REQUIRE(r.is_secure() == secure, "secure");
        auto value = [&]() -> T
        {
            if constexpr (std::is_integral_v<T>) switch (s.below(4)) { case 0: return static_cast<T>(s.below(10)); case 1: return L::max(); case 2: return std::is_signed_v<T> ? static_cast<T>(-static_cast<int>(s.below(10))) : T(0); default: return static_cast<T>(s.bytes(1)[0] * 0x0101010101010101ll + static_cast<i64>(s.below(99))); }
            else switch (s.below(5)) { case 0: return static_cast<T>(s.below(10)); case 1: return -static_cast<T>(s.below(1000)) / 7; case 2: return L::denorm_min() * static_cast<T>(s.below(4)); case 3: return static_cast<T>(1e30); default: return 1 + L::epsilon() * static_cast<T>(s.below(3)); }
        };
        std::size_t distinct = 0;
        for (auto n = 1 + s.len(6); n > 0; --n)
        {
            T a = value(), b = s.chance(1, 5) ? a : value(); if (b < a) std::swap(a, b);
            bool upper = b >= 0 && s.chance(1, 3); if (upper) a = 0;
            if constexpr (!std::is_integral_v<T>) if (!(b - a < L::max())) continue;
            c.note("from ", +a, " to ", +b);
            if (s.chance(1, 6)) { r.seed(seed); r2.seed(seed); secure = false; REQUIRE(!r.is_secure(), "seeded, but secure"); }
            bool seenA = false, seenB = false; T first{}; bool small = std::is_integral_v<T> && b - a < 4 && b - a >= 0;
            for (int k = 0; k < (small ? 300 : 40); ++k)
            {
                T v = upper ? (k & 1 ? r(b) : r.get(b)) : (k & 1 ? r(a, b) : r.get(a, b));
                T w = upper ? r2.get(b) : r2.get(a, b);
                REQUIRE(v >= a && v <= b, "drew ", +v, " from ", +a, " to ", +b);
                if (!secure) REQUIRE(v == w, "the same seed draws ", +v, " and ", +w);
                seenA |= v == a; seenB |= v == b; if (k == 0) first = v; else distinct += v != first;
            }
            if (small) REQUIRE(seenA && seenB, "300 draws of ", +a, " to ", +b, " never reach an end"); // by chance once in 2^124
        }
        c.nontrivial(distinct > 20);
    }
}
PBT_SUITE("draws", 4000, 60000)
{
    switch (c.s.below(7))
    {
    case 0: draws<std::uint32_t, std::mt19937>(c); break;
    case 1: draws<int, std::mt19937>(c); break;
    case 2: draws<std::uint64_t, std::mt19937_64>(c); break;
    case 3: draws<std::int64_t, std::mt19937>(c); break;
    case 4: draws<std::uint8_t, std::mt19937>(c); break;
    case 5: draws<double, std::mt19937>(c); break;
    default: draws<float, std::mt19937>(c);
    }
}

PBT_SUITE("traversals", 3000, 40000)
{
    auto& s = c.s; neolib::random r{ s.below(100000) };
    unsigned n;
    if (s.chance(1, 3)) { u64 i = 0; auto k = s.below(90); while (i < k) ++i; n = static_cast<unsigned>(static_cast<i64>(neolib::primes<unsigned>::sPrimes[i]) + s.range(-1, 1)); }
    else n = static_cast<unsigned>(s.coin() ? s.below(30) : s.below(3000));
    neolib::random_traversal t{ r, n };
    c.note(n, " elements");
    for (int round = 0; round < 2; ++round)
    {
        std::vector<int> seen(n, 0); unsigned visited = 0, percent = 0;
        unsigned stop = round == 0 && s.chance(1, 4) ? static_cast<unsigned>(s.below(n + 1)) : n + 5;
        neolib::random r2{ 1 }; std::optional<neolib::random_traversal> copy; std::vector<int> later, copied;
        while (!t.done() && visited < stop)
        {
            if (!copy && visited == n / 2) copy.emplace(t);
            int v = visited & 1 ? t() : t.next();
            REQUIRE(v >= 0 && static_cast<unsigned>(v) < n, "visits ", v, " of ", n);
            REQUIRE(!seen[v]++, "visits ", v, " twice");
            ++visited; if (copy) later.push_back(v);
            REQUIRE(t.percent() >= percent && t.percent() <= 100, "progress from ", percent, " to ", t.percent()); percent = t.percent();
        }
        if (stop > n)
        {
            REQUIRE(visited == n, "visits ", visited, " of ", n);
            REQUIRE(t.next() == -1 && t.done(), "goes on after the end");
            if (n) REQUIRE(t.percent() == 100, "done, but at ", t.percent(), " percent");
            if (copy) { while (!copy->done()) copied.push_back(copy->next()); REQUIRE(copied == later, "a copy goes another way"); }
        }
        t.reset();
    }
    c.nontrivial(n > 10);
}

PBT_SUITE("primes", 8, 8)
{
    auto const& p = neolib::primes<unsigned>::sPrimes; u64 k = c.s.below(8), total = 0;
    for (u64 i = 0; ; ++i)
    {
        if (i % 8 == k) { ++total; for (u64 d = 2; d * d <= p[i]; ++d) REQUIRE(p[i] % d, p[i], " is ", d, " times ", p[i] / d); }
        if (i) REQUIRE(p[i] > p[i - 1], "not in order at ", p[i]);
        if (p[i] == 2019773507u) break;
    }
    c.note(total, " primes"); c.nontrivial();
}

PBT_SUITE("long traversal", 1, 4)
{
    neolib::random r{ c.s.below(1000) }; unsigned n = 44000000 + static_cast<unsigned>(c.s.below(1000)), visited = 0, percent = 0;
    neolib::random_traversal t{ r, n }; std::vector<bool> seen(n);
    while (!t.done())
    {
        auto v = static_cast<unsigned>(t.next()); if (v >= n || seen[v]) FAIL("visits ", v, " of ", n, " wrongly"); seen[v] = true; ++visited;
        if (t.percent() < percent || t.percent() > 100) FAIL("progress from ", percent, " to ", t.percent()); percent = t.percent();
    }
    REQUIRE(visited == n && percent == 100, "visits ", visited, " of ", n); c.note(n, " elements"); c.nontrivial();
}

#include <neolib/core/simd.hpp>
#include <thread>
PBT_SUITE("vectorised", 3000, 60000)
{
    auto& s = c.s; auto seed = static_cast<std::uint32_t>(s.edgy()); auto n = s.len(60); std::vector<std::uint32_t> uppers; for (std::size_t i = 0; i < n; ++i) uppers.push_back(s.coin() ? 0u : static_cast<std::uint32_t>(s.edgy()));
    std::vector<std::uint32_t> got; std::thread{ [&] { neolib::simd_srand(seed); for (auto u : uppers) got.push_back(u ? neolib::simd_rand(u == 0xFFFFFFFFu ? u - 1u : u) : neolib::simd_rand()); } }.join();
    std::uint32_t x[4] = { seed + 1, seed, seed + 1, seed }; static std::uint32_t const mult[4] = { 214013u, 17405u, 214013u, 69069u }, add[4] = { 2531011u, 10395331u, 13737667u, 1u };
    c.note("seed ", seed, " draws ", n);
    for (std::size_t i = 0; i < n; ++i)
    {
        if (i % 4 == 0) for (int k = 0; k < 4; ++k) x[k] = x[k] * mult[k] + add[k];
        auto u = uppers[i]; if (u == 0xFFFFFFFFu) --u; auto e = u ? x[i % 4] % (u + 1) : x[i % 4];
        REQUIRE(got[i] == e, "draw ", i, " up to ", u, " is ", got[i], ", not ", e);
    }
    c.nontrivial(n > 8);
}
