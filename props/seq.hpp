// Sequence containers against std::vector as the reference model.
#pragma once
#include "pbt.hpp"
#include "tracked.hpp"
#include <string>
#include <vector>
#include <list>
#include <iterator>
#include <algorithm>
#include <sstream>

namespace seq
{
    using pbt::Case;
    using pbt::Tracked;

    template <typename T> struct Val;
    template <> struct Val<int> { static int make(int x) { return x; } };
    template <> struct Val<unsigned char> { static unsigned char make(int x) { return static_cast<unsigned char>(x); } };
    template <> struct Val<char> { static char make(int x) { return static_cast<char>('a' + (x & 15)); } };
    template <> struct Val<Tracked> { static Tracked make(int x) { return Tracked{ x }; } };
    template <> struct Val<std::string> { static std::string make(int x) { return (x & 1 ? "v" : "a somewhat longer string value ") + std::to_string(x); } };
    template <> struct Val<std::pair<int const, std::string>> { };

    // genuine input iterator (single pass)
    template <typename T> struct InputIt
    {
        using iterator_category = std::input_iterator_tag;
        using value_type = T; using difference_type = std::ptrdiff_t; using pointer = T const*; using reference = T const&;
        std::vector<T> const* v; std::size_t i;
        reference operator*() const { return (*v)[i]; }
        pointer operator->() const { return &(*v)[i]; }
        InputIt& operator++() { ++i; return *this; }
        InputIt operator++(int) { InputIt r = *this; ++i; return r; }
        bool operator==(InputIt const& o) const { return i == o.i; }
        bool operator!=(InputIt const& o) const { return i != o.i; }
    };

    struct Limits
    {
        std::size_t maxSize = 400;    // soft bound on the sequence
        std::size_t bulk = 100;       // largest counted/range insertion
        std::size_t steps = 60;
        std::size_t capacity = 0;     // != 0: fixed capacity, edits beyond it must throw
        bool movedFromReusable = true;
        bool aliasing = true;         // may an inserted value be an element of the container
    };

    template <typename C, typename M>
    std::string diff(C const& a, M const& b)
    {
        std::ostringstream o; o << "got [";
        std::size_t n = 0; for (auto i = a.begin(); i != a.end() && n < 40; ++i, ++n) o << *i << ' ';
        o << "] want ["; n = 0; for (auto i = b.begin(); i != b.end() && n < 40; ++i, ++n) o << *i << ' ';
        o << "]"; return o.str();
    }

    template <typename C, typename M>
    void verify(Case& c, C& a, M const& m)
    {
        using T = typename M::value_type;
        C const& ca = a;
        REQUIRE(ca.size() == m.size(), "size ", ca.size(), " want ", m.size());
        REQUIRE(ca.empty() == m.empty());
        REQUIRE(static_cast<std::size_t>(ca.end() - ca.begin()) == m.size());
        REQUIRE(std::equal(m.begin(), m.end(), ca.begin()), diff(ca, m));
        { // full forward and backward traversal
            std::size_t n = 0;
            for (auto i = a.begin(); i != a.end(); ++i, ++n) { REQUIRE(n < m.size()); REQUIRE(*i == m[n], "forward index ", n); }
            REQUIRE(n == m.size());
            for (auto i = ca.end(); i != ca.begin();) { --i; REQUIRE(n > 0); --n; REQUIRE(*i == m[n], "backward index ", n); }
            REQUIRE(n == 0);
            if constexpr (requires { a.rbegin(); })
                REQUIRE(std::equal(m.rbegin(), m.rend(), a.rbegin()), "reverse iteration");
            if constexpr (requires { ca.rbegin(); })
                REQUIRE(std::equal(m.rbegin(), m.rend(), ca.rbegin()), "const reverse iteration");
        }
        if (!m.empty())
        {
            REQUIRE(ca.front() == m.front()); REQUIRE(ca.back() == m.back());
            REQUIRE(a.front() == m.front()); REQUIRE(a.back() == m.back());
            for (int k = 0; k < 4; ++k)
            {
                std::size_t i = c.s.below(m.size()), j = c.s.below(m.size() + 1);
                REQUIRE(a[i] == m[i], "index ", i);
                REQUIRE(ca[i] == m[i], "const index ", i);
                auto ia = a.begin() + i;
                REQUIRE(*ia == m[i]);
                auto ja = ia + (static_cast<std::ptrdiff_t>(j) - static_cast<std::ptrdiff_t>(i));
                REQUIRE(static_cast<std::size_t>(ja - a.begin()) == j);
                REQUIRE(ja - ia == static_cast<std::ptrdiff_t>(j) - static_cast<std::ptrdiff_t>(i));
                REQUIRE((ja == a.end()) == (j == m.size()));
                REQUIRE((ia < ja) == (i < j)); REQUIRE((ia >= ja) == (i >= j)); REQUIRE((ia == ja) == (i == j));
                if (j < m.size()) REQUIRE(*ja == m[j], "jump to ", j);
                auto ka = ja; ka -= (static_cast<std::ptrdiff_t>(j) - static_cast<std::ptrdiff_t>(i));
                REQUIRE(ka == ia); REQUIRE(*ka == m[i], "jump back from ", j, " to ", i);
                auto const cb = ca.end() - (m.size() - i);
                REQUIRE(*cb == m[i]);
                REQUIRE(&*cb == &a[i]);
                if constexpr (requires { a.at(i); }) { REQUIRE(a.at(i) == m[i]); REQUIRE(ca.at(i) == m[i]); }
                if constexpr (requires { a.iter(a[i]); })
                {
                    REQUIRE(a.iter(a[i]) == a.begin() + i, "iterator from reference ", i);
                    REQUIRE(*a.iter(a[i]) == m[i]);
                    REQUIRE(ca.citer(ca[i]) == ca.begin() + i);
                    T const outside = m[i];
                    REQUIRE(a.iter(outside) == a.end());
                }
                if constexpr (requires { a.data(); }) REQUIRE(a.data()[i] == m[i], "data() ", i);
            }
        }
        if constexpr (requires { a.at(0); })
        {
            bool threw = false;
            try { (void)a.at(c.s.chance(1, 3) ? ~c.s.below(600) : m.size() + c.s.below(3)); } catch (std::exception const&) { threw = true; } // (boost containers throw their own type)
            REQUIRE(threw, "at(beyond end) must throw out_of_range");
        }
        REQUIRE(Tracked::error.empty(), Tracked::error);
    }

    template <typename C> using T_of = typename C::value_type;

    // one history
    template <typename C>
    void history(Case& c, Limits lim)
    {
        using T = typename C::value_type;
        using M = std::vector<T>;
        Tracked::reset();
        auto& s = c.s;
        std::size_t maxOps = 0; bool bigEdit = false, nonTail = false;
        {
            int counter = 1;
            auto fresh = [&] { return Val<T>::make(counter++); };
            auto many = [&](std::size_t n) { M v; v.reserve(n); for (std::size_t i = 0; i < n; ++i) v.push_back(fresh()); return v; };
            auto bulk = [&](std::size_t have) { std::size_t n = s.len(lim.bulk); return have + n > lim.maxSize ? std::size_t(0) : n; };
            C a; M m;
            // start: sometimes not empty, built by one of the constructors
            switch (s.below(4))
            {
            case 1: { std::size_t n = bulk(0); if (lim.capacity && n > lim.capacity) n = lim.capacity; if constexpr (requires(T t) { C(n, t); }) { T v = fresh(); C b(n, v); a = b; m.assign(n, v); c.note("ctor(", n, ", ", v, ")"); } break; }
            case 2: { std::size_t n = bulk(0); if (lim.capacity && n > lim.capacity) n = lim.capacity; M v = many(n); if constexpr (requires { C(v.begin(), v.end()); }) { C b(v.begin(), v.end()); a = b; m = v; c.note("ctor(range ", n, ")"); } break; }
            default: break;
            }
            verify(c, a, m);
            std::size_t steps = 1 + s.len(lim.steps);
            for (std::size_t k = 0; k < steps; ++k)
            {
                std::size_t const n = m.size();
                auto const before = [&] { return m; };
                // capacity-limited containers: an edit that would exceed capacity must throw and leave a valid container
                auto edit = [&](std::size_t newSize, auto&& onC, auto&& onM)
                {
                    if (lim.capacity && newSize > lim.capacity)
                    {
                        bool threw = false;
                        try { onC(); } catch (std::exception const&) { threw = true; }
                        REQUIRE(threw, "edit to ", newSize, " elements must be refused (capacity ", lim.capacity, ")");
                        c.label("refused edit");
                        REQUIRE(a.size() <= lim.capacity);
                        // left valid: whatever it holds can be read, then it is brought back in step
                        std::size_t cnt = 0; for (auto const& e : a) { (void)(e == e); ++cnt; }
                        REQUIRE(cnt == a.size());
                        REQUIRE(Tracked::error.empty(), Tracked::error);
                        a.clear(); m.clear();
                        return;
                    }
                    onC(); onM();
                };
                auto op = s.below(24);
                if (n > lim.maxSize && op < 12) op = 13;
                std::size_t const p = s.below(n + 1);
                if (op < 12 && op > 1 && p < n) nonTail = true;
                switch (op)
                {
                case 0: { T v = fresh(); c.note("push_back ", v); edit(n + 1, [&] { a.push_back(v); }, [&] { m.push_back(v); }); break; }
                case 1: if constexpr (requires(T v) { a.emplace_back(v); }) { T v = fresh(); c.note("emplace_back ", v); edit(n + 1, [&] { a.emplace_back(v); }, [&] { m.emplace_back(v); }); } break;
                case 2: if constexpr (requires(T v) { a.push_front(v); }) { T v = fresh(); c.note("push_front ", v); edit(n + 1, [&] { a.push_front(v); }, [&] { m.insert(m.begin(), v); }); } break;
                case 3: case 4:
                {
                    T v = fresh(); c.note("insert @", p, " ", v);
                    edit(n + 1, [&] { auto r = a.insert(a.begin() + p, v); REQUIRE(static_cast<std::size_t>(r - a.begin()) == p, "insert result position"); REQUIRE(*r == v, "insert result value"); }, [&] { m.insert(m.begin() + p, v); });
                    break;
                }
                case 5: case 6:
                {
                    std::size_t cnt = bulk(n); T v = fresh(); c.note("insert @", p, " ", cnt, " x ", v);
                    if (cnt > 2) bigEdit = true;
                    if constexpr (requires { a.insert(a.begin(), cnt, v); })
                    edit(n + cnt, [&] { auto r = a.insert(a.begin() + p, cnt, v); REQUIRE(static_cast<std::size_t>(r - a.begin()) == p, "insert result position"); if (cnt) REQUIRE(*r == v); }, [&] { m.insert(m.begin() + p, cnt, v); });
                    break;
                }
                case 7: case 8:
                {
                    std::size_t cnt = bulk(n); M v = many(cnt);
                    if (cnt > 2) bigEdit = true;
                    auto kind = s.below(3);
                    c.note("insert @", p, " range of ", cnt, kind == 0 ? " (random access)" : kind == 1 ? " (list)" : " (input)");
                    auto done = [&](auto r) { REQUIRE(static_cast<std::size_t>(r - a.begin()) == p, "insert result position"); if (cnt) REQUIRE(*r == v[0]); };
                    if (kind == 0) edit(n + cnt, [&] { done(a.insert(a.begin() + p, v.begin(), v.end())); }, [&] { m.insert(m.begin() + p, v.begin(), v.end()); });
                    else if (kind == 1) { std::list<T> l(v.begin(), v.end()); edit(n + cnt, [&] { done(a.insert(a.begin() + p, l.begin(), l.end())); }, [&] { m.insert(m.begin() + p, v.begin(), v.end()); }); }
                    else if (!lim.capacity)
                    {
                        InputIt<T> f{ &v, 0 }, l{ &v, v.size() };
                        if constexpr (requires { a.insert(a.begin(), f, l); }) { done(a.insert(a.begin() + p, f, l)); m.insert(m.begin() + p, v.begin(), v.end()); }
                    }
                    break;
                }
                case 9: if (n && lim.aliasing) // argument aliases an element
                {
                    std::size_t q = s.below(n), cnt = s.below(4);
                    if (n + cnt > lim.maxSize) break;
                    c.label("aliasing insert"); c.note("insert @", p, " ", cnt, " x element #", q);
                    switch (s.below(3))
                    {
                    case 0: edit(n + 1, [&] { a.insert(a.begin() + p, a[q]); }, [&] { T v = m[q]; m.insert(m.begin() + p, v); }); break;
                    case 1: if constexpr (requires { a.insert(a.begin(), cnt, a[q]); }) edit(n + cnt, [&] { a.insert(a.begin() + p, cnt, a[q]); }, [&] { T v = m[q]; m.insert(m.begin() + p, cnt, v); }); break;
                    case 2: edit(n + 1, [&] { a.push_back(a[q]); }, [&] { T v = m[q]; m.push_back(v); }); break;
                    }
                } break;
                case 10:
                {
                    std::size_t to = s.coin() ? s.below(n + 1) : n + bulk(n);
                    if (s.coin()) { T v = fresh(); c.note("resize ", to, " ", v); if constexpr (requires { a.resize(to, v); }) edit(to, [&] { a.resize(to, v); }, [&] { m.resize(to, v); }); }
                    else { c.note("resize ", to); if constexpr (requires { a.resize(to); }) edit(to, [&] { a.resize(to); }, [&] { m.resize(to); }); }
                    if (to > n + 2) bigEdit = true;
                    break;
                }
                case 11:
                {
                    std::size_t cnt = std::min(s.len(lim.bulk), lim.maxSize); T v = fresh();
                    if (s.coin()) { if constexpr (requires { a.assign(cnt, v); }) { c.note("assign ", cnt, " x ", v); edit(cnt, [&] { a.assign(cnt, v); }, [&] { m.assign(cnt, v); }); } }
                    else { M w = many(cnt); if constexpr (requires { a.assign(w.begin(), w.end()); }) { c.note("assign range of ", cnt); edit(cnt, [&] { a.assign(w.begin(), w.end()); }, [&] { m.assign(w.begin(), w.end()); }); } }
                    break;
                }
                case 12: { T v = fresh(); if constexpr (requires { a.emplace(a.begin(), v); }) { c.note("emplace @", p, " ", v); edit(n + 1, [&] { auto r = a.emplace(a.begin() + p, v); REQUIRE(*r == v); }, [&] { m.emplace(m.begin() + p, v); }); }
                           else if constexpr (requires { a.emplace_insert(a.begin(), v); }) { c.note("emplace_insert @", p, " ", v); edit(n + 1, [&] { auto r = a.emplace_insert(a.begin() + p, v); REQUIRE(*r == v); }, [&] { m.insert(m.begin() + p, v); }); } break; }
                case 13: case 14: if (n)
                {
                    std::size_t q = s.below(n); c.note("erase @", q);
                    auto r = a.erase(a.begin() + q); m.erase(m.begin() + q);
                    REQUIRE(static_cast<std::size_t>(r - a.begin()) == q, "erase result position");
                    if (q < m.size()) REQUIRE(*r == m[q], "erase result value"); else REQUIRE(r == a.end());
                    if (q + 1 < n) nonTail = true;
                } break;
                case 15: case 16:
                {
                    std::size_t q = p + s.below(n - p + 1); if (s.coin()) q = std::min(q, p + 8);
                    c.note("erase [", p, ", ", q, ")");
                    auto r = a.erase(a.begin() + p, a.begin() + q); m.erase(m.begin() + p, m.begin() + q);
                    REQUIRE(static_cast<std::size_t>(r - a.begin()) == p, "erase result position");
                    if (p < m.size()) REQUIRE(*r == m[p], "erase result value"); else REQUIRE(r == a.end());
                    if (q - p > 2) bigEdit = true;
                    break;
                }
                case 17: if (n) { c.note("pop_back"); a.pop_back(); m.pop_back(); } break;
                case 18: if (n) { if constexpr (requires { a.pop_front(); }) { c.note("pop_front"); a.pop_front(); m.erase(m.begin()); } } break;
                case 19: if (s.chance(1, 4)) { c.note("clear"); a.clear(); m.clear(); } else if (n) { std::size_t q = s.below(n); T v = fresh(); c.note("set [", q, "]=", v); a[q] = v; m[q] = v; } break;
                case 20: // copy
                {
                    c.note("copy"); M const keep = m;
                    C b(a); REQUIRE(std::equal(m.begin(), m.end(), b.begin(), b.end()), "copy");
                    T v = fresh(); if (lim.capacity == 0 || n < lim.capacity) b.push_back(v);
                    if (n) b.erase(b.begin());
                    verify(c, a, m); // independent
                    C d; if (s.coin()) { M w = many(std::min(s.len(20), lim.capacity ? lim.capacity : std::size_t(20))); for (auto& e : w) d.push_back(e); }
                    d = a; verify(c, d, m);
                    if constexpr (requires { a == d; }) { REQUIRE(a == d); REQUIRE(!(a != d)); d.clear(); REQUIRE((a == d) == m.empty()); }
                    if (s.chance(1, 4)) { C const& self = a; a = self; }
                    break;
                }
                case 21: // move
                {
                    c.note("move");
                    C b(std::move(a)); verify(c, b, m);
                    if (lim.movedFromReusable && s.coin()) { M w = many(std::min(s.len(20), lim.capacity ? lim.capacity : std::size_t(20))); a.clear(); for (auto& e : w) a.push_back(e); verify(c, a, w); c.label("moved-from reuse"); }
                    C d; { M w = many(std::min(s.len(20), lim.capacity ? lim.capacity : std::size_t(20))); for (auto& e : w) d.push_back(e); }
                    d = std::move(b); verify(c, d, m);
                    a = std::move(d);
                    break;
                }
                case 22:
                {
                    M w = many(std::min(s.len(30), lim.capacity ? lim.capacity : std::size_t(30))); C b; for (auto& e : w) b.push_back(e);
                    c.note("swap with ", w.size());
                    if constexpr (requires { a == b; }) REQUIRE((a == b) == (m == w), "== against another sequence");
                    if constexpr (requires { { a < b } -> std::same_as<bool>; }) { REQUIRE((a < b) == (m < w), "< against another sequence"); REQUIRE((b < a) == (w < m)); }
                    if constexpr (requires { a.swap(b); }) { a.swap(b); verify(c, b, m); verify(c, a, w); if (s.coin()) { b.swap(a); } else m = w; }
                    break;
                }
                case 23:
                {
                    std::size_t r = s.len(lim.capacity ? lim.capacity : lim.maxSize);
                    if constexpr (requires { a.reserve(r); }) { c.note("reserve ", r); a.reserve(r); if constexpr (requires { a.capacity(); }) REQUIRE(a.capacity() >= r); }
                    if (s.chance(1, 3)) { if constexpr (requires { a.shrink_to_fit(); }) { c.note("shrink_to_fit"); a.shrink_to_fit(); } }
                    break;
                }
                }
                ++maxOps;
                verify(c, a, m);
                if (m.size() > 64) c.label("over 64 elements");
            }
        }
        c.nontrivial(maxOps >= 5 && bigEdit && nonTail);
        REQUIRE(Tracked::error.empty(), Tracked::error);
        REQUIRE(Tracked::live == 0, "elements left alive: ", Tracked::live);
    }
}
