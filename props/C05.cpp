// indexitor against a plain list of (value, width, skip before, skip after).
#include "pbt.hpp"
#include "tracked.hpp"
#include <neolib/core/indexitor.hpp>
using namespace pbt;
namespace
{
    template <typename FI> struct E { int v; FI w, s1, s2; };

    template <typename X, typename FI>
    void verify(Case& c, X& x, std::vector<E<FI>> const& m)
    {
        X const& cx = x;
        REQUIRE(x.size() == m.size(), x.size(), " want ", m.size()); REQUIRE(x.empty() == m.empty());
        FI sum{}; std::size_t n = 0; auto ci = cx.begin();
        for (auto i = x.begin(); i != x.end(); ++i, ++ci, ++n)
        {
            REQUIRE(n < m.size());
            REQUIRE((*i).first == m[n].v, "value #", n); REQUIRE((*i).second == m[n].w, "width #", n); REQUIRE((*ci).first == m[n].v);
            REQUIRE(x.index(i) == n, "index of #", n, " is ", x.index(i)); REQUIRE(cx.index(ci) == n);
            REQUIRE(x.foreign_index(i) == sum + m[n].s1, "foreign index of #", n, " is ", x.foreign_index(i), " want ", sum + m[n].s1);
            REQUIRE(cx.foreign_index(ci) == sum + m[n].s1);
            REQUIRE(x.skip_before(i) == m[n].s1); REQUIRE(x.skip_after(i) == m[n].s2);
            sum += m[n].s1 + m[n].w + m[n].s2;
        }
        REQUIRE(n == m.size());
        REQUIRE(x.foreign_index(x.end()) == sum, "total length ", x.foreign_index(x.end()), " want ", sum);
        REQUIRE(cx.index(cx.end()) == m.size());
        for (auto i = cx.end(); i != cx.begin();) { --i; --n; REQUIRE((*i).first == m[n].v); }
        REQUIRE(n == 0);
        for (auto i = x.rbegin(); i != x.rend(); ++i, ++n) REQUIRE((*i).first == m[m.size() - 1 - n].v, "reverse");
        REQUIRE(n == m.size());
        // reverse lookup: every boundary region of the total length, sampled
        auto lookup = [&](FI f)
        {
            FI at{}; std::size_t want = m.size(); FI start = sum;
            for (std::size_t k = 0; k < m.size(); ++k)
            {
                FI total = m[k].s1 + m[k].w + m[k].s2;
                if (f >= at && f < at + total) { if (f - at >= m[k].s1 && f - at < total - m[k].s2) { want = k; start = at + m[k].s1; } break; }
                at += total;
            }
            auto r = x.find_by_foreign_index(f); auto cr = cx.find_by_foreign_index(f);
            REQUIRE(static_cast<std::size_t>(r.first - x.begin()) == want, "lookup of ", f, " found #", r.first - x.begin(), " want #", want);
            REQUIRE(r.second == start, "lookup of ", f, " start ", r.second, " want ", start);
            REQUIRE(static_cast<std::size_t>(cr.first - cx.begin()) == want); REQUIRE(cr.second == start);
            if (want < m.size()) { REQUIRE((*r.first).first == m[want].v); REQUIRE(x.index(r.first) == want); }
        };
        if (m.size() <= 12) for (FI f{}; f <= sum && f < FI(60); f += FI(1)) lookup(f);
        else for (int k = 0; k < 12; ++k) lookup(static_cast<FI>(c.s.below(static_cast<u64>(sum) + 2)));
        if (!m.empty()) for (int k = 0; k < 3; ++k)
        {
            std::size_t i = c.s.below(m.size()), j = c.s.below(m.size() + 1);
            REQUIRE(x[i].first == m[i].v); REQUIRE(cx[i].first == m[i].v);
            auto it = (x.begin() + i) + (static_cast<std::ptrdiff_t>(j) - static_cast<std::ptrdiff_t>(i));
            REQUIRE(static_cast<std::size_t>(it - x.begin()) == j); if (j < m.size()) REQUIRE((*it).first == m[j].v); else REQUIRE(it == x.end());
            REQUIRE(x.front().first == m.front().v); REQUIRE(cx.back().first == m.back().v);
        }
    }

    template <typename FI>
    void history(Case& c, std::size_t maxSize)
    {
        using X = neolib::indexitor<int, FI>; using V = typename X::value_type; using S = typename X::skip_type; using M = std::vector<E<FI>>;
        auto& s = c.s; X x; M m; int counter = 1;
        auto width = [&] { return static_cast<FI>(s.chance(1, 4) ? 0 : s.chance(1, 8) ? s.below(100000) : s.below(6)); };
        auto skip = [&] { return static_cast<FI>(s.chance(1, 4) ? s.below(4) : 0); };
        auto entry = [&] { return E<FI>{ counter++, width(), skip(), skip() }; };
        bool update = false, inner = false; std::size_t edits = 0;
        std::size_t steps = 1 + (s.coin() ? s.below(60) : s.len(60));
        for (std::size_t k = 0; k < steps; ++k)
        {
            std::size_t n = m.size(), p = s.below(n + 1); auto op = s.below(15); if (n >= maxSize && op < 7) op = 9;
            if (op >= 2 && op < 8 && p < n) inner = true;
            switch (op)
            {
            case 0: { auto e = entry(); c.note("push_back ", e.v, " w=", e.w, " skip ", e.s1, ",", e.s2); x.push_back(V{ e.v, e.w }, S{ e.s1, e.s2 }); m.push_back(e); break; }
            case 1: { auto e = entry(); c.note("push_front ", e.v, " w=", e.w, " skip ", e.s1, ",", e.s2); x.push_front(V{ e.v, e.w }, S{ e.s1, e.s2 }); m.insert(m.begin(), e); break; }
            case 2: case 3: case 4: { auto e = entry(); c.note("insert @", p, " ", e.v, " w=", e.w, " skip ", e.s1, ",", e.s2); auto r = x.insert(x.begin() + p, V{ e.v, e.w }, S{ e.s1, e.s2 }); m.insert(m.begin() + p, e); REQUIRE(static_cast<std::size_t>(r - x.begin()) == p); REQUIRE((*r).first == e.v); break; }
            case 5: { auto e = entry(); std::size_t cnt = s.len(20); c.note("insert @", p, " ", cnt, " x ", e.v, " w=", e.w); auto r = x.insert(x.begin() + p, cnt, V{ e.v, e.w }, S{ e.s1, e.s2 }); m.insert(m.begin() + p, cnt, e); REQUIRE(static_cast<std::size_t>(r - x.begin()) == p); break; }
            case 6: { std::size_t cnt = s.len(20); std::vector<V> v; std::vector<S> sk; M e; for (std::size_t i = 0; i < cnt; ++i) { auto q = entry(); v.push_back({ q.v, q.w }); sk.push_back({ q.s1, q.s2 }); e.push_back(q); }
                      bool withSkips = s.coin(); c.note("insert @", p, " range of ", cnt); if (withSkips) x.insert(x.begin() + p, v.begin(), v.end(), sk.begin(), sk.end()); else { x.insert(x.begin() + p, v.begin(), v.end()); for (auto& q : e) q.s1 = q.s2 = FI{}; }
                      m.insert(m.begin() + p, e.begin(), e.end()); break; }
            case 7: case 8: if (n) { std::size_t q = s.below(n); auto w = width(); auto s1 = skip(), s2 = skip(); c.note("update #", q, " w=", w, " skip ", s1, ",", s2); x.update_foreign_index(x.begin() + q, w, S{ s1, s2 }); m[q].w = w; m[q].s1 = s1; m[q].s2 = s2; update = true; } break;
            case 9: case 10: if (n) { std::size_t q = s.below(n); c.note("erase #", q); auto r = x.erase(x.begin() + q); m.erase(m.begin() + q); REQUIRE(static_cast<std::size_t>(r - x.begin()) == q); if (q < m.size()) REQUIRE((*r).first == m[q].v); else REQUIRE(r == x.end()); } break;
            case 11: { std::size_t q = std::min(n, p + s.len(12)); c.note("erase [", p, ", ", q, ")"); auto r = x.erase(x.begin() + p, x.begin() + q); m.erase(m.begin() + p, m.begin() + q); REQUIRE(static_cast<std::size_t>(r - x.begin()) == p); if (p < m.size()) REQUIRE((*r).first == m[p].v); break; }
            case 12: if (n) { bool front = s.coin(); c.note(front ? "pop_front" : "pop_back"); if (front) { x.pop_front(); m.erase(m.begin()); } else { x.pop_back(); m.pop_back(); } } break;
            case 13:
                if (s.chance(1, 5)) { c.note("clear"); x.clear(); m.clear(); }
                else { std::size_t to = std::min(maxSize, s.len(n + 10)); auto e = entry(); c.note("resize ", to); x.resize(to, V{ e.v, e.w }, S{ e.s1, e.s2 }); if (to < n) m.resize(to); else m.insert(m.end(), to - n, e); }
                break;
            case 14:
            {
                c.note("copy"); X y(x); verify(c, y, m); auto e = entry(); y.push_back(V{ e.v, e.w }); verify(c, x, m);
                X z; z.push_back(V{ e.v, e.w }); z = x; verify(c, z, m); X t; t.push_back(V{ e.v, e.w }, S{ e.s1, e.s2 }); t.swap(x); verify(c, t, m); x.swap(t); x = std::move(z);
                break;
            }
            }
            ++edits; verify(c, x, m);
        }
        if (m.size() > 20) c.label("over 20 entries at the end");
        c.nontrivial(edits >= 8 && update && inner);
    }
}
PBT_SUITE("int64", 50000, 600000) { history<std::int64_t>(c, 100); }
PBT_SUITE("uint32", 25000, 300000) { history<std::uint32_t>(c, 300); }
PBT_SUITE("double", 25000, 300000) { history<double>(c, 60); }
