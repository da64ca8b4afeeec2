// C13: cookie jars against a map from live cookie to item, and counted cookies against plain counts.
#include "tracked.hpp"
#include <neolib/neolib.hpp>
#include <neolib/core/string.hpp>
#include <neolib/core/jar.hpp>
#include <algorithm>
#include <map>
#include <set>

using namespace pbt;

namespace
{
    template <typename V> V make(int x) { return V{ x }; }
    template <> neolib::string make<neolib::string>(int x) { return neolib::string{ "item number " + std::to_string(x) }; }
    template <> std::shared_ptr<Tracked> make<std::shared_ptr<Tracked>>(int x) { return std::make_shared<Tracked>(x); }
    int val(int x) { return x; }
    int val(Tracked const& x) { x.check("read of a dead item"); return x.v; }
    int val(neolib::i_string const& x) { return std::stoi(x.to_std_string().substr(12)); }
    int val(std::shared_ptr<Tracked> const& x) { return x ? val(*x) : -1; }
    struct Fussy : Tracked { Fussy(int x) : Tracked{ x } { if (x == 13) throw std::runtime_error("unlucky"); } Fussy(Fussy const& o) : Tracked{ o } {} Fussy(Fussy&& o) noexcept : Tracked{ std::move(o) } {} Fussy& operator=(Fussy const&) = default; Fussy& operator=(Fussy&&) noexcept = default; };
    enum class Ticket : std::uint16_t {};
    template <typename F> bool refused(F f) { try { (void)f(); return false; } catch (neolib::cookie_invalid const&) { return true; } }

    template <typename J> struct Pot
    {
        using C = typename J::cookie_type; using U = typename J::underlying_cookie_type;
        J j; std::map<U, int> m; std::set<U> reserved; std::set<U> ever; std::size_t turn = 0; // issued without an item; any cookie seen
        std::set<U> taken() const { auto r = reserved; for (auto& e : m) r.insert(e.first); return r; }
        void issued(C ck, Case& c)
        {
            U k = static_cast<U>(ck);
            REQUIRE(k != static_cast<U>(~U{}), "issued the invalid cookie");
            REQUIRE(!m.count(k) && !reserved.count(k), "issued cookie ", +k, " twice"); ever.insert(k);
        }
        void check(Case& c)
        {
            REQUIRE(j.size() == m.size() && j.empty() == m.empty() && j.items().size() == m.size(), "size ", j.size(), " expected ", m.size());
            J const& cj = j;
            for (auto& [k, v] : m)
            {
                C ck = static_cast<C>(k);
                REQUIRE(j.contains(ck), "cookie ", +k, " lost"); REQUIRE(val(j[ck]) == v && val(cj[ck]) == v, "cookie ", +k, " resolves to ", val(j[ck]), " expected ", v);
                REQUIRE(j.find(ck) != j.end() && val(*j.find(ck)) == v && val(*cj.find(ck)) == v); REQUIRE(j.item_cookie(j[ck]) == ck, "item_cookie");
            }
            std::multiset<int> a, b; for (auto& e : m) b.insert(e.second);
            std::size_t i = 0; for (auto const& x : cj) { a.insert(val(x)); REQUIRE(val(j.at_index(i)) == val(x) && &cj.at_index(i) == &j.at_index(i)); U k = static_cast<U>(j.item_cookie(j.at_index(i))); REQUIRE(m.count(k) && m[k] == val(x)); ++i; }
            REQUIRE(a == b, "iteration"); a.clear(); for (auto& x : j) a.insert(val(x)); REQUIRE(a == b, "iteration");
            
            { std::size_t at = 0, d = ever.size() - m.size(); ++turn; for (U k : ever) if (!m.count(k)) { REQUIRE(!j.contains(static_cast<C>(k)), "cookie ", +k, " is not live but found"); if (d < 4 || at++ % (d / 2) == turn % (d / 2)) dead(k, c); } }
            if (turn % 4) return; bool t = false; try { (void)j.at_index(m.size()); } catch (std::out_of_range const&) { t = true; } REQUIRE(t, "at_index past the end");
            dead(0, c); dead(static_cast<U>(~U{}), c); dead(static_cast<U>(ever.empty() ? 1 : *ever.rbegin() + 1), c);
        }
        void dead(U k, Case& c)
        {
            if (m.count(k)) return; C ck = static_cast<C>(k); J const& cj = j;
            REQUIRE(!j.contains(ck) && j.find(ck) == j.end() && cj.find(ck) == cj.end(), "cookie ", +k, " is not live but found");
            REQUIRE(refused([&]() -> auto& { return j[ck]; }) && refused([&]() -> auto const& { return cj[ck]; }), "dead cookie ", +k, " resolves");
            if (!reserved.count(k)) { REQUIRE(refused([&] { return j.remove(ck); }), "dead cookie ", +k, " removed"); }
        }
    };

    template <typename J, bool Interface, bool Throwing = false, std::size_t Max = 0>
    void history(Case& c)
    {
        Tracked::reset();
        using V = typename J::value_type; using C = typename J::cookie_type; using U = typename J::underlying_cookie_type;
        {
            Pot<J> pots[2]; int n = static_cast<int>(c.s.len(Max ? 400 : 50)), next = 100, removals = 0, reuse = 0, last = 0, exhausted = 0;
            bool const greedy = Max && c.s.coin();
            while (n-- > 0)
            {
                auto& p = pots[greedy ? 0 : c.s.below(6) == 0]; auto& q = pots[&p == pots]; J& j = p.j; int x = Throwing && c.s.chance(1, 6) ? 13 : ++next;
                auto live = [&] { auto it = p.m.begin(); std::advance(it, c.s.below(p.m.size())); return it; };
                auto op = greedy && c.s.chance(6, 7) ? c.s.below(3) : c.s.below(p.m.size() > 2 && (!Max || c.s.coin()) ? 14 : 12); c.note("jar ", &p - pots, " op ", op, " value ", x);
                bool const full = Max && p.taken().size() == Max;
                bool const seenAll = Max && p.ever.size() == Max; auto before = p.ever;
                auto put = [&](auto f)
                {
                    try { C ck = f(); p.issued(ck, c); REQUIRE(!full, "more cookies than there are"); p.m[static_cast<U>(ck)] = x; if (before.count(static_cast<U>(ck))) ++reuse; }
                    catch (std::runtime_error const&) { REQUIRE(Throwing && x == 13); }
                    catch (neolib::cookies_exhausted const&) { REQUIRE(full, "exhausted with ", p.taken().size(), " cookies out"); ++exhausted; }
                };
                (void)seenAll;
                switch (op)
                {
                case 0: case 1: case 2:
                    put([&] {
                        if constexpr (std::is_same_v<V, neolib::string>) { if (c.s.coin()) return j.emplace("item number " + std::to_string(x)); }
                        else if constexpr (!std::is_same_v<V, std::shared_ptr<Tracked>>) { if (c.s.coin()) return j.emplace(x); }
                        else if (c.s.coin()) return j.emplace(x);
                        if constexpr (Interface) { using I = neolib::abstract_t<J>; I& i = j; return i.insert(make<V>(x)); }
                        else return j.insert(make<V>(x)); });
                    break;
                case 3: // reserve a cookie now, use or return it later
                    try { C ck = j.next_cookie(); p.issued(ck, c); REQUIRE(!full, "more cookies than there are"); p.reserved.insert(static_cast<U>(ck)); } catch (neolib::cookies_exhausted const&) { REQUIRE(full); ++exhausted; }
                    break;
                case 4: case 5:
                    if (!p.reserved.empty())
                    {
                        auto it = p.reserved.begin(); std::advance(it, c.s.below(p.reserved.size())); U k = *it; C ck = static_cast<C>(k);
                        if (c.s.chance(1, 4)) { j.return_cookie(ck); p.reserved.erase(k); }
                        else try { auto r = j.add(ck, make<V>(x)); REQUIRE(val(*r) == x, "add returned the wrong place"); p.reserved.erase(k); p.m[k] = x; } catch (std::runtime_error const&) { REQUIRE(Throwing && x == 13); }
                    }
                    break;
                case 6: if (!p.m.empty()) // a cookie in use is refused
                    {
                        U k = live()->first; bool t = false; try { (void)j.add(static_cast<C>(k), make<V>(++next)); } catch (neolib::cookie_already_added const&) { t = true; } REQUIRE(t, "cookie ", +k, " added twice");
                    }
                    break;
                case 7: case 8: case 12: case 13: if (!p.m.empty())
                    {
                        auto it = live(); U k = it->first; C ck = static_cast<C>(k); auto const way = c.s.below(3); c.note("remove ", +k, " way ", way); if (p.m.size() > 1 && !(&j[ck] == &j.at_index(p.m.size() - 1))) ++removals;
                        auto index = &j[ck] - &j.at_index(0); std::size_t expect = static_cast<std::size_t>(index);
                        auto r = way == 0 ? j.remove(ck) : way == 1 ? j.remove(j[ck]) : j.erase(j.find(ck)); p.m.erase(it);
                        REQUIRE(expect < p.m.size() ? r != j.end() && r - j.begin() == index : r == j.end(), "remove returned the wrong place");
                        last = 1;
                    }
                    break;
                case 9: if (c.s.chance(1, 3)) { j.clear(); p.m.clear(); p.reserved.clear(); } break;
                case 10: if (c.s.chance(1, 2)) { if (c.s.coin()) p.j = q.j; else { J t{ q.j }; p.j = std::move(t); REQUIRE(t.empty()); t.insert(make<V>(1)); REQUIRE(t.size() == 1); } p.m = q.m; p.reserved = q.reserved; p.ever = q.ever; } break;
                case 11:
                    if (!p.m.empty()) { auto it = live(); C ck = static_cast<C>(it->first); int y = ++next; j[ck] = make<V>(y); it->second = y; } // write through a cookie
                    break;
                }
                if (!Max || n % 16 == 0) { p.check(c); if (n % 8 == 0 || Throwing) q.check(c); } else REQUIRE(p.j.size() == p.m.size());
            }
            pots[0].check(c); pots[1].check(c);
            if (reuse) c.label("cookie reused"); if (exhausted) c.label("cookies exhausted"); if (exhausted > 1) c.label("exhausted repeatedly");
            c.nontrivial(removals >= 1 && reuse && last);
        }
        REQUIRE(Tracked::error.empty() && Tracked::live == 0, Tracked::error, " live ", Tracked::live);
    }

    // an owner that drops an item when the last reference to its cookie goes
    struct Owner : neolib::i_cookie_consumer
    {
        neolib::jar<Tracked> items; std::map<neolib::cookie, long> counts; std::string error;
        void add_ref(neolib::cookie ck, long n) override { if (!counts.count(ck)) error = "reference to a dropped item"; counts[ck] += n; }
        void release(neolib::cookie ck, long n) override { if (!counts.count(ck) || counts[ck] < n) { error = "released more often than taken"; return; } if ((counts[ck] -= n) == 0) { counts.erase(ck); items.remove(ck); } }
        long use_count(neolib::cookie ck) const override { auto i = counts.find(ck); return i == counts.end() ? 0 : i->second; }
    };
}

#define JAR(name, q, t, ...) PBT_SUITE(name, q, t) { history<__VA_ARGS__>(c); }
using EnumJar = neolib::basic_jar<int, neolib::vector<int>, Ticket>;
using TinyJar = neolib::basic_jar<int, neolib::vector<int>, std::uint8_t>;
using TinyStd = neolib::basic_std_vector_jar<int, std::uint8_t>;

#if PBT_PART == 0
JAR("jar-int", 4000, 150000, neolib::jar<int>, true)
JAR("jar-string", 3000, 100000, neolib::jar<neolib::string>, true)
JAR("std-jar-int", 4000, 150000, neolib::std_vector_jar<int>, false)
#elif PBT_PART == 1
JAR("jar-tracked", 4000, 150000, neolib::jar<Tracked>, true)
JAR("jar-throwing", 4000, 150000, neolib::jar<Fussy>, false, true)
JAR("small-jar-locked", 3000, 100000, neolib::small_jar<int, std::recursive_mutex>, true)
JAR("jar-enum-cookie", 3000, 100000, EnumJar, false)
#elif PBT_PART == 2
JAR("std-jar-tracked", 4000, 150000, neolib::std_vector_jar<Tracked>, false)
JAR("std-jar-throwing", 4000, 150000, neolib::std_vector_jar<Fussy>, false, true)
JAR("std-jar-shared", 3000, 100000, neolib::std_vector_jar<std::shared_ptr<Tracked>>, false)
JAR("small-std-jar", 3000, 100000, neolib::small_std_vector_jar<neolib::string>, false)
#elif PBT_PART == 3
JAR("tiny-jar", 400, 20000, TinyJar, false, false, 254)
JAR("tiny-std-jar", 400, 20000, TinyStd, false, false, 254)

PBT_SUITE("references", 8000, 300000)
{
    Tracked::reset();
    {
        Owner owners[2]; using R = neolib::cookie_ref_ptr; using M = std::pair<Owner*, neolib::cookie>;
        {
            std::vector<R> r(5); std::vector<M> m(5, M{ nullptr, 0 }); int next = 0, drops = 0, copies = 0;
            int n = static_cast<int>(c.s.len(40));
            while (n-- > 0)
            {
                std::size_t a = c.s.below(5), b = c.s.below(5); auto op = c.s.below(8); c.note("op ", op, " on ", a, " and ", b); long const before = Tracked::live;
                switch (op)
                {
                case 0: case 1: { auto& o = owners[c.s.below(2)]; auto ck = o.items.emplace(++next); o.counts[ck] = 0; r[a] = R{ o, ck }; m[a] = M{ &o, ck }; break; }
                case 2: r[a] = r[b]; m[a] = m[b]; ++copies; break;
                case 3: r[a] = std::move(r[b]); if (a != b) { m[a] = m[b]; m[b] = M{ nullptr, 0 }; } break;
                case 4: { R t{ r[b] }; R u{ std::move(t) }; REQUIRE(t.expired() && u == r[b]); r[a] = u; m[a] = m[b]; ++copies; break; }
                case 5: r[a].reset(); m[a] = M{ nullptr, 0 }; break;
                case 6: std::swap(r[a], r[b]); std::swap(m[a], m[b]); break;
                case 7: if (m[b].first) { r[a] = R{ *m[b].first, m[b].second }; m[a] = m[b]; ++copies; } break;
                }
                if (Tracked::live < before) ++drops;
                for (std::size_t i = 0; i < 5; ++i)
                {
                    bool const on = m[i].first != nullptr; REQUIRE(r[i].valid() == on && r[i].expired() == !on, "reference ", i, " validity");
                    if (on) REQUIRE(r[i].cookie() == m[i].second && m[i].first->items.contains(m[i].second), "item of reference ", i, " is gone");
                    for (std::size_t k = 0; k < 5; ++k) if (on && m[k].first) REQUIRE((r[i] == r[k]) == (m[i] == m[k]) && (r[i] < r[k]) == (m[i] < m[k]), "comparison");
                }
                for (auto& o : owners)
                {
                    REQUIRE(o.error.empty(), o.error); std::map<neolib::cookie, long> want; for (auto& e : m) if (e.first == &o) ++want[e.second];
                    REQUIRE(o.counts == want, "reference counts"); REQUIRE(o.items.size() == want.size(), o.items.size(), " items held, ", want.size(), " referenced");
                }
            }
            c.nontrivial(drops && copies >= 2);
        }
        for (auto& o : owners) REQUIRE(o.items.empty() && o.counts.empty() && o.error.empty(), "items left after the last reference went ", o.error);
    }
    REQUIRE(Tracked::error.empty() && Tracked::live == 0, Tracked::error);
}
#endif
