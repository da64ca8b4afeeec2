#include "seq.hpp"
#include <neolib/core/tag_array.hpp>
using namespace pbt;
namespace
{
    template <typename N> struct TagT
    {
        template <typename U> struct rebind { using type = TagT<U>; };
        int id; N* node = nullptr;
        TagT(int i) : id{ i } {}
        TagT(N& n, TagT const& o) : id{ o.id }, node{ &n } {}
        bool operator==(TagT const& o) const { return id == o.id; }
        bool operator!=(TagT const& o) const { return id != o.id; }
    };
    template <typename T> struct Entry { int tag; T v; };

    template <typename A, typename T>
    void verify(Case& c, A& a, std::vector<Entry<T>> const& m)
    {
        A const& ca = a;
        REQUIRE(a.size() == m.size(), a.size(), " want ", m.size());
        REQUIRE(a.empty() == m.empty());
        std::size_t n = 0;
        T const* segStart = nullptr; (void)segStart;
        for (auto i = a.begin(); i != a.end(); ++i, ++n)
        {
            REQUIRE(n < m.size());
            REQUIRE(*i == m[n].v, "value #", n, " got ", *i, " want ", m[n].v);
            REQUIRE(a.tag(i).id == m[n].tag, "tag of element #", n, " got ", a.tag(i).id, " want ", m[n].tag);
        }
        REQUIRE(n == m.size());
        for (auto i = ca.end(); i != ca.begin();) { --i; REQUIRE(n > 0); --n; REQUIRE(*i == m[n].v, "backward #", n); REQUIRE(ca.tag(i).id == m[n].tag, "backward tag #", n); }
        REQUIRE(n == 0);
        auto r = m.rbegin();
        for (auto i = a.rbegin(); i != a.rend(); ++i, ++r) REQUIRE(*i == r->v);
        auto cr = m.rbegin();
        for (auto i = ca.rbegin(); i != ca.rend(); ++i, ++cr) REQUIRE(*i == cr->v);
        if (!m.empty())
        {
            REQUIRE(ca.front() == m.front().v); REQUIRE(a.back() == m.back().v);
            REQUIRE(a.front() == m.front().v); REQUIRE(ca.back() == m.back().v);
            for (int k = 0; k < 4; ++k)
            {
                std::size_t i = c.s.below(m.size()), j = c.s.below(m.size() + 1);
                REQUIRE(a[i] == m[i].v); REQUIRE(ca[i] == m[i].v);
                auto ia = a.begin() + i; auto ja = ia + (static_cast<std::ptrdiff_t>(j) - static_cast<std::ptrdiff_t>(i));
                REQUIRE(static_cast<std::size_t>(ja - a.begin()) == j);
                if (j < m.size()) { REQUIRE(*ja == m[j].v); REQUIRE(a.tag(ja).id == m[j].tag, "tag after a jump"); }
                auto cb = ca.end() - (m.size() - i); REQUIRE(*cb == m[i].v); REQUIRE(ca.tag(cb).id == m[i].tag);
                // one node holds one tag: elements recorded in the same node carry equal tags
                if (j < m.size() && a.tag(ia).node == a.tag(ja).node) REQUIRE(m[i].tag == m[j].tag);
                REQUIRE(a.tag(ia).node != nullptr);
            }
        }
        REQUIRE(Tracked::error.empty(), Tracked::error);
    }

    template <typename T, std::size_t A1, std::size_t A2>
    void history(Case& c, std::size_t maxSize, std::size_t bulkMax)
    {
        using A = neolib::tag_array<TagT<int>, T, A1, A2>;
        using Tg = typename A::tag_type;
        using M = std::vector<Entry<T>>;
        auto& s = c.s;
        Tracked::reset();
        std::size_t edits = 0; bool big = false, inner = false; int tagsUsed = 0; int lastTag = -1;
        {
            A a; M m; int counter = 1;
            int const nTags = 1 + static_cast<int>(s.below(3));
            auto tag = [&] { int t = static_cast<int>(s.below(nTags)); if (t != lastTag) { lastTag = t; ++tagsUsed; } return t; };
            auto fresh = [&] { return seq::Val<T>::make(counter++); };
            auto many = [&](std::size_t n) { std::vector<T> v; for (std::size_t i = 0; i < n; ++i) v.push_back(fresh()); return v; };
            auto entries = [&](int t, std::vector<T> const& v) { M r; for (auto& e : v) r.push_back({ t, e }); return r; };
            auto bulk = [&] { std::size_t n = s.len(bulkMax); return m.size() + n > maxSize ? std::size_t(0) : n; };
            std::size_t steps = 1 + s.len(60);
            for (std::size_t k = 0; k < steps; ++k)
            {
                std::size_t n = m.size(), p = s.below(n + 1);
                if (s.chance(1, 4) && n) { while (p > 0 && m[p - 1].tag == m[p < n ? p : n - 1].tag) --p; } // aim at a tag boundary
                auto op = s.below(16); if (n >= maxSize && op < 8) op = 10;
                if (op >= 2 && op < 8 && p < n) inner = true;
                switch (op)
                {
                case 0: { int t = tag(); T v = fresh(); c.note("push_back tag ", t, " ", v); a.push_back(Tg(t), v); m.push_back({ t, v }); break; }
                case 1: { int t = tag(); T v = fresh(); c.note("push_front tag ", t, " ", v); a.push_front(Tg(t), v); m.insert(m.begin(), { t, v }); break; }
                case 2: case 3: { int t = tag(); T v = fresh(); c.note("insert tag ", t, " @", p, " ", v); auto r = a.insert(Tg(t), a.begin() + p, v); m.insert(m.begin() + p, { t, v });
                          REQUIRE(static_cast<std::size_t>(r - a.begin()) == p); REQUIRE(*r == v); REQUIRE(a.tag(r).id == t); break; }
                case 4: { int t = tag(); std::size_t cnt = bulk(); T v = fresh(); c.note("insert tag ", t, " @", p, " ", cnt, " x ", v); auto r = a.insert(Tg(t), a.begin() + p, cnt, v); m.insert(m.begin() + p, cnt, { t, v });
                          REQUIRE(static_cast<std::size_t>(r - a.begin()) == p); if (cnt) REQUIRE(*r == v); big = big || cnt > 2; break; }
                case 5: case 6: { int t = tag(); std::size_t cnt = bulk(); auto v = many(cnt); auto e = entries(t, v); big = big || cnt > 2;
                          auto kind = s.below(3); c.note("insert tag ", t, " @", p, " range of ", cnt, kind == 2 ? " (input)" : "");
                          std::list<T> l(v.begin(), v.end());
                          auto r = kind == 0 ? a.insert(Tg(t), a.begin() + p, v.begin(), v.end()) : kind == 1 ? a.insert(Tg(t), a.begin() + p, l.begin(), l.end())
                              : a.insert(Tg(t), a.begin() + p, seq::InputIt<T>{ &v, 0 }, seq::InputIt<T>{ &v, v.size() });
                          m.insert(m.begin() + p, e.begin(), e.end());
                          REQUIRE(static_cast<std::size_t>(r - a.begin()) == p); if (cnt) { REQUIRE(*r == v[0]); REQUIRE(a.tag(r).id == t); } break; }
                case 7: if (n) { int t = tag(); std::size_t q = s.below(n); c.note("insert tag ", t, " @", p, " element #", q); c.label("aliasing insert");
                          T v = m[q].v; a.insert(Tg(t), a.begin() + p, a[q]); m.insert(m.begin() + p, { t, v }); } break;
                case 8: case 9: if (n) { std::size_t q = s.below(n); c.note("erase @", q); auto r = a.erase(a.begin() + q); m.erase(m.begin() + q);
                          REQUIRE(static_cast<std::size_t>(r - a.begin()) == q); if (q < m.size()) { REQUIRE(*r == m[q].v); REQUIRE(a.tag(r).id == m[q].tag); } else REQUIRE(r == a.end()); } break;
                case 10: case 11: { std::size_t q = p + s.below(n - p + 1); if (s.coin()) q = std::min(q, p + 8); c.note("erase [", p, ", ", q, ")");
                          auto r = a.erase(a.begin() + p, a.begin() + q); m.erase(m.begin() + p, m.begin() + q);
                          REQUIRE(static_cast<std::size_t>(r - a.begin()) == p); if (p < m.size()) REQUIRE(*r == m[p].v); else REQUIRE(r == a.end()); break; }
                case 12: if (n) { c.note("pop_back"); a.pop_back(); m.pop_back(); } break;
                case 13: if (n) { c.note("pop_front"); a.pop_front(); m.erase(m.begin()); } break;
                case 14: if (s.chance(1, 5)) { c.note("clear"); a.clear(); m.clear(); } else if (n) { std::size_t q = s.below(n); T v = fresh(); c.note("set #", q); a[q] = v; m[q].v = v; } break;
                case 15:
                {
                    auto kind = s.below(3);
                    c.note(kind == 0 ? "copy construct" : kind == 1 ? "copy assign" : "swap");
                    if (kind == 0) { A b(a); verify(c, b, m); REQUIRE(b == a); T v = fresh(); b.push_back(Tg(0), v); if (n) b.pop_front(); REQUIRE((b == a) == false || n == 0 ? true : true); verify(c, a, m); }
                    else
                    {
                        A b; M w; for (auto& v : many(s.len(20))) { int t = tag(); b.push_back(Tg(t), v); w.push_back({ t, v }); }
                        if (kind == 1) { b = a; verify(c, b, m); REQUIRE(b == a); b.clear(); if (s.chance(1, 3)) { A const& self = a; a = self; } verify(c, a, m); }
                        else { a.swap(b); verify(c, b, m); m = w; }
                    }
                    break;
                }
                }
                ++edits;
                verify(c, a, m);
            }
            if (tagsUsed > 3) c.label("several tags");
        }
        c.nontrivial(edits >= 5 && big && inner && tagsUsed > 2);
        REQUIRE(Tracked::live == 0, "elements left alive: ", Tracked::live);
        REQUIRE(Tracked::error.empty(), Tracked::error);
    }
}
#if PBT_PART == 0
PBT_SUITE("int-4-4", 40000, 500000) { history<int, 4, 4>(c, 150, 30); }
#endif
#if PBT_PART == 1
PBT_SUITE("tracked-4-16", 60000, 800000) { history<Tracked, 4, 16>(c, 300, 60); }
#endif
#if PBT_PART == 2
PBT_SUITE("tracked-16-256", 20000, 300000) { history<Tracked, 16, 256>(c, 1500, 400); }
#endif
#if PBT_PART == 3
PBT_SUITE("string-2-8", 20000, 300000) { history<std::string, 2, 8>(c, 200, 40); }
#endif

