#include "pbt.hpp"
#include <map>
#include <unordered_map>
#include <set>
#include <algorithm>
#include <neolib/core/string.hpp>
#include <neolib/core/pair.hpp>
#include <neolib/core/map.hpp>
#include <neolib/core/set.hpp>
#include <neolib/core/unordered_map.hpp>
using pbt::Case;
template <typename T> struct El;
template <> struct El<int> { using M = int; static int make(Case& c, std::size_t range) { return int(c.s.below(range)); } static int lib(int m) { return m; } static int model(int v) { return v; } };
template <> struct El<neolib::string> { using M = std::string; static M make(Case& c, std::size_t range) { auto n = c.s.below(range); M s; s += char('a' + n % 7); if (n >= 7) s += char('a' + n / 7); if (n % 5 == 0) s += "-long-enough-for-the-heap"; return s; } static neolib::string lib(M const& m) { return neolib::string{ m }; } static M model(neolib::i_string const& v) { return v.to_std_string(); } };
enum : unsigned { kMulti = 1, kUnordered = 2, kFlat = 4 };

template <typename C, typename A, unsigned K, typename KT, typename VT>
struct Box
{
    using EK = El<KT>; using EV = El<VT>; using MK = typename EK::M; using MV = typename EV::M; using Entry = std::pair<MK, MV>;
    C c; std::vector<Entry> m; // ordered kinds: in order; unordered: any order
    std::size_t lower(MK const& k) const { return std::lower_bound(m.begin(), m.end(), k, [](Entry const& e, MK const& x) { return e.first < x; }) - m.begin(); }
    std::size_t upper(MK const& k) const { return std::upper_bound(m.begin(), m.end(), k, [](MK const& x, Entry const& e) { return x < e.first; }) - m.begin(); }
    bool insert(MK const& k, MV const& v) { auto l = lower(k), u = upper(k); if (!(K & kMulti) && l != u) return false; m.insert(m.begin() + u, { k, v }); return true; }
    MV const* find(MK const& k) const { auto l = lower(k); return l < m.size() && m[l].first == k ? &m[l].second : nullptr; }
    bool has(MK const& k, MV const& v) const { for (auto i = lower(k); i < upper(k); ++i) if (m[i].second == v) return true; return false; }
};
template <typename B, unsigned K>
static void agree(Case& c, B& b, char const* when)
{
    using EK = typename B::EK; using EV = typename B::EV;
    auto const& cc = b.c; REQUIRE(cc.size() == b.m.size(), when, ": size ", cc.size(), " expected ", b.m.size()); REQUIRE(cc.empty() == b.m.empty());
    std::vector<typename B::Entry> got;
    for (auto i = cc.begin(); i != cc.end(); ++i) got.push_back({ EK::model(i->first()), EV::model(i->second()) });
    REQUIRE(got.size() == b.m.size(), when);
    auto want = b.m;
    if constexpr (K & kUnordered) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }
    REQUIRE(got == want, when, ": contents differ");
    if constexpr (!(K & kUnordered)) { std::size_t n = b.m.size(); for (auto i = cc.rbegin(); i != cc.rend(); ++i) { REQUIRE(n > 0); REQUIRE(EK::model(i->first()) == b.m[n - 1].first && EV::model(i->second()) == b.m[n - 1].second, when, ": reverse order at ", n - 1); --n; } REQUIRE(n == 0); }
    std::size_t n = 0; for (auto i = cc.begin(); i != cc.end(); i++) ++n; REQUIRE(n == b.m.size());
}
template <typename C, typename A, unsigned K, typename KT, typename VT>
static void history(Case& c)
{
    using B = Box<C, A, K, KT, VT>; using EK = typename B::EK; using EV = typename B::EV;
    B bx[2]; int n = 5 + int(c.s.below(36)), edits = 0, abstracts = 0, erased = 0, dup = 0; std::size_t range = 2 + c.s.below(40);
    auto nth = [](auto& cont, std::size_t k) { auto i = cont.begin(); while (k--) ++i; return i; };
    for (int step = 0; step < n && !(step > 0 && c.s.exhausted()); ++step)
    {
        auto w = c.s.below(2); B& x = bx[w]; B& y = bx[1 - w]; C& cc = x.c; A& a = x.c; A const& ca = x.c; bool ab = c.s.coin();
        auto k = EK::make(c, range); auto v = EV::make(c, 60); auto lk = EK::lib(k); auto lv = EV::lib(v); auto op = c.s.below(18); char const* when = "";
        if (x.find(k)) dup = 1;
        switch (op)
        {
        case 0: case 1: when = "insert"; { auto i = ab ? a.insert(lk, lv) : cc.insert(lk, lv); bool fresh = x.insert(k, v); REQUIRE(EK::model(i->first()) == k); if (fresh) REQUIRE(EV::model(i->second()) == v); else REQUIRE(EV::model(i->second()) == *x.find(k)); } break;
        case 2: when = "insert pair"; { typename C::value_type p{ lk, lv }; auto i = a.insert(p); x.insert(k, v); REQUIRE(EK::model(i->first()) == k); } break;
        case 3: when = "emplace"; { auto& e = cc.emplace(lk, lv); bool fresh = x.insert(k, v); REQUIRE(EK::model(e.first()) == k); REQUIRE(EV::model(e.second()) == (fresh ? v : *x.find(k))); } break;
        case 4: case 5: if constexpr (!(K & kMulti)) { when = "operator[]="; if (ab) a[lk] = lv; else cc[lk] = lv; auto l = x.lower(k); if (l < x.m.size() && x.m[l].first == k) x.m[l].second = v; else x.insert(k, v); } break;
        case 6: if constexpr (!(K & kMulti)) { when = "operator[]"; auto& r = a[lk]; if (!x.find(k)) x.insert(k, typename B::MV{}); REQUIRE(EV::model(r) == *x.find(k)); } break;
        case 7: if constexpr (!(K & kMulti)) { when = "at"; bool threw = false; try { if (ab) { auto& r = ca.at(lk); REQUIRE(x.find(k)); REQUIRE(EV::model(r) == *x.find(k)); } else { auto& r = cc.at(lk); REQUIRE(x.find(k)); r = lv; x.m[x.lower(k)].second = v; } } catch (std::out_of_range const&) { threw = true; } REQUIRE(threw == !x.find(k)); } break;
        case 8: case 9: when = "erase"; { auto i = ab ? a.find(lk) : cc.find(lk); REQUIRE((i == cc.end()) == !x.find(k), "find"); if (i != cc.end()) { ++erased; auto mv = EV::model(i->second()); REQUIRE(EK::model(i->first()) == k);
            std::size_t at = x.lower(k); if constexpr (!(K & kUnordered)) { at = 0; for (auto j = cc.begin(); j != i; ++j) ++at; } else while (x.m[at].second != mv) { ++at; REQUIRE(at < x.upper(k), "found a value that was not stored"); }
            typename B::Entry next{}; bool hasNext = at + 1 < x.m.size(); if (hasNext) next = x.m[at + 1];
            if (ab) { auto r = a.erase(i); if constexpr (!(K & kUnordered)) { REQUIRE((r == a.end()) == !hasNext); if (hasNext) REQUIRE(EK::model(r->first()) == next.first && EV::model(r->second()) == next.second, "erase must return the following position"); } } else cc.erase(static_cast<C const&>(cc).find(lk));
            if (!ab && (K & kMulti)) { /* may have erased another equal entry: resynchronise on that key */ std::vector<typename B::MV> left; for (auto j = cc.begin(); j != cc.end(); ++j) if (EK::model(j->first()) == k) left.push_back(EV::model(j->second())); auto l = x.lower(k), u = x.upper(k); REQUIRE(left.size() == u - l - 1); auto before = std::vector<typename B::MV>{}; for (auto q = l; q < u; ++q) before.push_back(x.m[q].second); auto sb = before, sl = left; std::sort(sb.begin(), sb.end()); std::sort(sl.begin(), sl.end()); REQUIRE(std::includes(sb.begin(), sb.end(), sl.begin(), sl.end()), "erase by iterator removed the wrong entry"); x.m.erase(x.m.begin() + l, x.m.begin() + u); for (std::size_t q = 0; q < left.size(); ++q) x.m.insert(x.m.begin() + l + q, { k, left[q] }); }
            else x.m.erase(x.m.begin() + at); } } break;
        case 10: if constexpr (!(K & kFlat)) { when = "erase range"; std::size_t f = c.s.below(x.m.size() + 1), l = f + c.s.below(std::min<std::size_t>(x.m.size() - f, 4) + 1);
            if constexpr (!(K & kUnordered)) { x.m.erase(x.m.begin() + f, x.m.begin() + l); } else { auto j = nth(cc, f); for (auto q = f; q < l; ++q, ++j) { typename B::Entry e{ EK::model(j->first()), EV::model(j->second()) }; auto it = std::find(x.m.begin(), x.m.end(), e); REQUIRE(it != x.m.end()); x.m.erase(it); } }
            if (ab) { A const& q = x.c; a.erase(nth(q, f), nth(q, l)); } else cc.erase(nth(cc, f), nth(cc, l)); if (l > f) ++erased; } break;
        case 11: when = "clear"; if (c.s.chance(1, 3)) { if (ab) a.clear(); else cc.clear(); x.m.clear(); } break;
        case 12: when = "copy"; if ((K & kFlat) && y.m.empty()) { cc.clear(); x.m.clear(); } /* copy-assigning an empty flat map leaves ghosts in boost 1.83: not neolib's */ else if (ab) { C t{ y.c }; cc = t; } else cc = y.c; x.m = y.m; break;
        case 13: when = "assign abstract"; { A const& ya = y.c; if (ab) a.assign(ya); else { C t{ ya }; cc = std::move(t); } x.m = y.m; if constexpr (K == (kMulti | kUnordered)) {} } break;
        case 14: when = "move"; if (ab) { C t{ std::move(cc) }; cc = std::move(t); } else { cc = std::move(y.c); x.m = y.m; y.c.clear(); y.m.clear(); } break;
        case 15: when = "self-assign"; { C& s = x.c; cc = s; A const& sa = x.c; a.assign(sa); } break;
        case 16: when = "construct from list"; { auto k0 = EK::make(c, range); C t{ typename C::value_type{ lk, lv }, typename C::value_type{ EK::lib(k0), lv }, typename C::value_type{ lk, lv } }; cc = t; x.m.clear(); x.insert(k, v); x.insert(k0, v); x.insert(k, v); } break;
        default: when = "write through iterator"; if (!x.m.empty()) { auto i = a.begin(); auto kk = EK::model(i->first()); auto old = EV::model(i->second()); i->second() = lv; auto at = x.lower(kk); while (x.m[at].second != old) { ++at; REQUIRE(at < x.m.size()); } x.m[at].second = v; } break;
        }
        if (!*when) continue;
        ++edits; abstracts += ab; c.note("container ", w, ": ", when, ab ? " (abstract)" : "", " key=", k, " value=", v);
        agree<B, K>(c, x, when); agree<B, K>(c, y, "other");
        // lookups
        for (int q = 0; q < 3; ++q)
        {
            auto p = EK::make(c, range + 2); auto lp = EK::lib(p);
            auto i = ca.find(lp); REQUIRE((i == ca.end()) == !x.find(p), when, ": find(", p, ")"); if (i != ca.end()) { REQUIRE(EK::model(i->first()) == p); REQUIRE(x.has(p, EV::model(i->second()))); }
            auto j = cc.find(lp); REQUIRE((j == cc.end()) == !x.find(p));
            if constexpr (!(K & kUnordered))
            {
                auto at = [&](auto it, std::size_t idx) { auto f = ca.begin(); std::size_t d = 0; while (f != it) { ++f; ++d; REQUIRE(d <= idx); } return d; };
                REQUIRE(at(ca.lower_bound(lp), x.lower(p)) == x.lower(p), "lower_bound"); REQUIRE(at(ca.upper_bound(lp), x.upper(p)) == x.upper(p), "upper_bound");
                auto nl = cc.lower_bound(lp); REQUIRE((nl == cc.end()) == (x.lower(p) == x.m.size())); if (nl != cc.end()) REQUIRE(EK::model(nl->first()) == x.m[x.lower(p)].first);
                auto nu = a.upper_bound(lp); REQUIRE((nu == a.end()) == (x.upper(p) == x.m.size()));
            }
            if constexpr ((K & kUnordered) && (K & kMulti))
            {
                auto r = ca.equal_range(lp); std::size_t cnt = 0; for (auto f = r.first(); f != r.second(); ++f) { REQUIRE(EK::model(f->first()) == p); REQUIRE(x.has(p, EV::model(f->second()))); ++cnt; } REQUIRE(cnt == x.upper(p) - x.lower(p), "equal_range");
                auto r2 = a.equal_range(lp); cnt = 0; for (auto f = r2.first(); f != r2.second(); ++f) ++cnt; REQUIRE(cnt == x.upper(p) - x.lower(p));
            }
        }
        auto m0 = bx[0].m, m1 = bx[1].m; if constexpr (K & kUnordered) { std::sort(m0.begin(), m0.end()); std::sort(m1.begin(), m1.end()); }
        REQUIRE((bx[0].c == bx[1].c) == (m0 == m1), "=="); REQUIRE((bx[0].c != bx[1].c) == (m0 != m1), "!=");
        if constexpr (!(K & kUnordered)) { A const& u = bx[0].c; A const& t = bx[1].c; REQUIRE((u == t) == (m0 == m1)); REQUIRE((bx[0].c < bx[1].c) == (m0 < m1), "<"); REQUIRE((u < t) == (m0 < m1)); }
    }
    c.nontrivial(edits >= 6 && abstracts && erased && dup);
}

// sets: elements are their own keys, or carry a key and a mutable part
struct Keyed { typedef int key_type; int k = 0; std::string extra; operator int() const { return k; } bool operator==(Keyed const& o) const { return k == o.k && extra == o.extra; } auto operator<=>(Keyed const& o) const { return std::tie(k, extra) <=> std::tie(o.k, o.extra); } };
template <typename C, typename A, bool Multi, typename T>
static void sets(Case& c)
{
    using E = El<T>; using M = typename E::M; using Model = std::multiset<M>;
    C s[2]; Model m[2]; int n = 5 + int(c.s.below(36)), edits = 0, abstracts = 0, erased = 0; std::size_t range = 2 + c.s.below(30);
    auto agree = [&](int w, char const* when) {
        C const& cc = s[w]; REQUIRE(cc.size() == m[w].size(), when, ": size"); auto j = m[w].begin(); for (auto i = cc.begin(); i != cc.end(); ++i, ++j) { REQUIRE(j != m[w].end()); REQUIRE(E::model(*i) == *j, when, ": contents"); } REQUIRE(j == m[w].end());
        auto r = m[w].rbegin(); for (auto i = cc.rbegin(); i != cc.rend(); ++i, ++r) { REQUIRE(r != m[w].rend()); REQUIRE(E::model(*i) == *r, when, ": reverse order"); } };
    for (int step = 0; step < n && !(step > 0 && c.s.exhausted()); ++step)
    {
        auto w = int(c.s.below(2)); C& cc = s[w]; A& a = s[w]; A const& ca = s[w]; C& oc = s[1 - w]; auto& mm = m[w]; auto& om = m[1 - w]; bool ab = c.s.coin();
        auto k = E::make(c, range); auto lk = E::lib(k); char const* when = "";
        switch (c.s.below(11))
        {
        case 0: case 1: case 2: when = "insert"; { auto i = ab ? a.insert(lk) : cc.insert(lk); REQUIRE(E::model(*i) == k); if (Multi || !mm.count(k)) mm.insert(k); } break;
        case 3: case 4: when = "erase"; { auto i = a.find(lk); REQUIRE((i == a.end()) == !mm.count(k)); if (i != a.end()) { ++erased; REQUIRE(E::model(*i) == k); if (ab) a.erase(i); else cc.erase(ca.find(lk)); mm.erase(mm.find(k)); } } break;
        case 5: when = "erase range"; { std::size_t f = c.s.below(mm.size() + 1), l = f + c.s.below(mm.size() - f + 1); auto i = ca.begin(); for (auto q = f; q--;) ++i; auto j = i; for (auto q = l - f; q--;) ++j; a.erase(i, j); mm.erase(std::next(mm.begin(), f), std::next(mm.begin(), l)); erased += l > f; } break;
        case 6: when = "assign"; { A const& oa = oc; if (ab) a.assign(oa); else { C t{ static_cast<typename std::remove_reference_t<decltype(oa)>::abstract_container const&>(oa) }; cc = t; } mm = om; } break;
        case 7: when = "copy"; { C t{ oc }; if (ab) cc = t; else cc = std::move(t); mm = om; } break;
        case 8: when = "self-assign"; { C& q = s[w]; cc = q; A const& qa = s[w]; a.assign(qa); } break;
        case 9: when = "construct"; { auto k2 = E::make(c, range); C t{ lk, E::lib(k2), lk }; cc = t; mm.clear(); mm.insert(k); if (Multi || k != k2) mm.insert(k2); if (Multi) mm.insert(k); std::vector<T> v{ lk, E::lib(k2), lk }; C u(v.begin(), v.end()); REQUIRE(u == t); } break;
        default: when = "clear"; if (c.s.chance(1, 4)) { a.clear(); mm.clear(); }
        }
        ++edits; abstracts += ab; c.note("set ", w, ": ", when, " ", k); agree(0, when); agree(1, when);
        for (int q = 0; q < 3; ++q) { auto p = E::make(c, range + 2); auto i = ca.find(E::lib(p)); REQUIRE((i == ca.end()) == !mm.count(p), when, ": find"); if (i != ca.end()) REQUIRE(E::model(*i) == p); auto j = a.find(E::lib(p)); REQUIRE((j == a.end()) == !mm.count(p)); }
        REQUIRE((s[0] == s[1]) == (m[0] == m[1])); A const& u = s[0]; A const& t = s[1]; REQUIRE((u == t) == (m[0] == m[1])); REQUIRE((u < t) == (m[0] < m[1])); REQUIRE((s[0] < s[1]) == (m[0] < m[1]));
    }
    c.nontrivial(edits >= 6 && abstracts && erased);
}
using neolib::string;
#if PBT_PART == 0
PBT_SUITE("map-int-int", 3000, 150000) { history<neolib::map<int, int>, neolib::i_map<int, int>, 0, int, int>(c); }
#endif
#if PBT_PART == 1
PBT_SUITE("map-string-string", 2000, 100000) { history<neolib::map<string, string>, neolib::i_map<neolib::i_string, neolib::i_string>, 0, string, string>(c); }
#endif
#if PBT_PART == 2
PBT_SUITE("multimap-int-int", 3000, 150000) { history<neolib::multimap<int, int>, neolib::i_multimap<int, int>, kMulti, int, int>(c); }
#endif
#if PBT_PART == 3
PBT_SUITE("multimap-string-int", 2000, 100000) { history<neolib::multimap<string, int>, neolib::i_multimap<neolib::i_string, int>, kMulti, string, int>(c); }
#endif
#if PBT_PART == 4
PBT_SUITE("unordered-map-int-string", 3000, 150000) { history<neolib::unordered_map<int, string>, neolib::i_unordered_map<int, neolib::i_string>, kUnordered, int, string>(c); }
#endif
#if PBT_PART == 5
PBT_SUITE("unordered-map-string-int", 2000, 100000) { history<neolib::unordered_map<string, int>, neolib::i_unordered_map<neolib::i_string, int>, kUnordered, string, int>(c); }
#endif
#if PBT_PART == 6
PBT_SUITE("unordered-multimap-int-int", 3000, 150000) { history<neolib::unordered_multimap<int, int>, neolib::i_unordered_multimap<int, int>, kUnordered | kMulti, int, int>(c); }
#endif
#if PBT_PART == 7
PBT_SUITE("unordered-multimap-string-string", 2000, 100000) { history<neolib::unordered_multimap<string, string>, neolib::i_unordered_multimap<neolib::i_string, neolib::i_string>, kUnordered | kMulti, string, string>(c); }
#endif
#if PBT_PART == 8
PBT_SUITE("unordered-flat-map-int-int", 3000, 150000) { history<neolib::unordered_flat_map<int, int>, neolib::i_unordered_map<int, int>, kUnordered | kFlat, int, int>(c); }
#endif
#if PBT_PART == 9
PBT_SUITE("set-int", 3500, 150000) { sets<neolib::set<int>, neolib::i_set<int>, false, int>(c); }
#endif
#if PBT_PART == 10
PBT_SUITE("set-string", 2500, 100000) { sets<neolib::set<string>, neolib::i_set<neolib::i_string>, false, string>(c); }
#endif
#if PBT_PART == 11
PBT_SUITE("multiset-int", 3500, 150000) { sets<neolib::multiset<int>, neolib::i_multiset<int>, true, int>(c); }
#endif
#if PBT_PART == 12
PBT_SUITE("multiset-string", 2500, 100000) { sets<neolib::multiset<string>, neolib::i_multiset<neolib::i_string>, true, string>(c); }
#endif
#if PBT_PART == 13
template <typename S, bool Multi> static void keyed(Case& c)
{
    S s; std::multimap<int, std::string> m; int n = 5 + int(c.s.below(40));
    for (int step = 0; step < n; ++step)
    {
        int k = int(c.s.below(12)); std::string v = c.s.from("xyz", c.s.below(20));
        switch (c.s.below(5))
        {
        case 0: case 1: { auto i = s.insert(Keyed{ k, v }); REQUIRE(i->k == k); if (Multi || !m.count(k)) { m.insert({ k, v }); REQUIRE((*i).extra == v); } } break;
        case 2: { auto i = s.find(k); REQUIRE((i == s.end()) == !m.count(k)); if (i != s.end()) { auto j = m.lower_bound(k); while (j->second != i->extra) { ++j; REQUIRE(j != m.end()); } i->extra = v; j->second = v; } } break; // elements stay mutable in place
        case 3: { auto i = s.find(Keyed{ k, "" }); REQUIRE((i == s.end()) == !m.count(k)); if (i != s.end()) { auto j = m.lower_bound(k); while (j->second != i->extra) ++j; m.erase(j); s.erase(i); } } break;
        default: { S const t{ s }; REQUIRE(t.size() == s.size()); auto i = t.find(k); REQUIRE((i == t.end()) == !m.count(k)); auto r = m.rbegin(); for (auto q = t.rbegin(); q != t.rend(); ++q, ++r) REQUIRE(q->k == r->first && (*q).extra == r->second); for (auto q = s.rbegin(); q != s.rend(); ++q) { } std::vector<Keyed> v2; for (auto& e : t) v2.push_back(e); S u(v2.begin(), v2.end()); REQUIRE(u == s); }
        }
        REQUIRE(s.size() == m.size()); auto j = m.begin(); for (auto& e : s) { REQUIRE(e.k == j->first && e.extra == j->second); ++j; }
    }
    c.nontrivial(m.size() >= 3);
}
PBT_SUITE("mutable-set-keyed", 3000, 100000) { keyed<neolib::mutable_set<Keyed>, false>(c); }
PBT_SUITE("mutable-multiset-keyed", 3000, 100000) { keyed<neolib::mutable_multiset<Keyed>, true>(c); }
#endif
