#include "pbt.hpp"
#include <optional>
#include <list>
#include <deque>
#include <vector>
#include <algorithm>
#include <neolib/core/vector.hpp>
#include <neolib/core/list.hpp>
#include <neolib/core/deque.hpp>
#include <neolib/core/string.hpp>
#include <neolib/core/polymorphic_vecarray.hpp>
#include <neolib/core/string_view.hpp>
using pbt::Case; using pbt::cat;

// element generation: (library value, model value)
template <typename T> struct El;
template <> struct El<int> { using M = int; static int make(Case& c) { return int(c.s.range(-9, 99)); } static int lib(int m) { return m; } static int model(int v) { return v; } static int zero() { return 0; } };
template <> struct El<char> { using M = char; static char make(Case& c) { return char(c.s.below(256)); } static char lib(char m) { return m; } static char model(char v) { return v; } static char zero() { return 0; } };
template <> struct El<neolib::string> { using M = std::string; static M make(Case& c) { return c.s.from("abcXYZ", c.s.len(24)); } static neolib::string lib(M const& m) { return neolib::string{ m }; } static M model(neolib::i_string const& v) { return v.to_std_string(); } static M zero() { return {}; } };

template <typename C, typename A, typename T> struct Pair
{
    using M = typename El<T>::M;
    C c; std::vector<M> m;
};
enum : unsigned { kList = 1, kDeque = 2, kVector = 4, kString = 8, kPoly = 16 };

template <typename X> auto str(X const& x) { std::ostringstream o; o << x; return o.str(); }

template <typename C, typename A, unsigned K, typename T>
static void agree(Case& c, Pair<C, A, T>& p, char const* when)
{
    C const& cc = p.c; A& a = p.c; A const& ca = a; auto& m = p.m;
    REQUIRE(cc.size() == m.size(), when, ": size ", cc.size(), " expected ", m.size()); REQUIRE(ca.size() == m.size()); REQUIRE(ca.empty() == m.empty());
    std::size_t i = 0;
    for (auto const& e : cc) { REQUIRE(i < m.size(), when, ": too many"); REQUIRE(El<T>::model(e) == m[i], when, ": element ", i); ++i; }
    REQUIRE(i == m.size());
    i = 0; for (auto& e : a) { REQUIRE(El<T>::model(e) == m[i], when, ": element ", i, " (abstract)"); ++i; } REQUIRE(i == m.size());
    i = m.size(); for (auto r = a.rbegin(); r != a.rend(); ++r) { REQUIRE(i > 0); REQUIRE(El<T>::model(*r) == m[i - 1], when, ": reverse element ", i - 1); --i; } REQUIRE(i == 0);
    i = m.size(); for (auto r = ca.rbegin(); r != ca.rend(); ++r) { REQUIRE(El<T>::model(*r) == m[i - 1], when, ": reverse element ", i - 1); --i; } REQUIRE(i == 0);
    i = 0; for (auto it = ca.begin(); it != ca.end(); ) { auto old = it++; REQUIRE(El<T>::model(*old) == m[i], when, ": post-increment at ", i); ++i; } REQUIRE(i == m.size());
    i = m.size(); for (auto it = a.end(); it != a.begin(); ) { auto old = it--; REQUIRE(El<T>::model(*it) == m[i - 1], when, ": post-decrement at ", i); (void)old; --i; } REQUIRE(i == 0);
    if (!m.empty()) { REQUIRE(El<T>::model(ca.front()) == m.front()); REQUIRE(El<T>::model(ca.back()) == m.back()); REQUIRE(El<T>::model(a.front()) == m.front()); REQUIRE(El<T>::model(p.c.back()) == m.back()); }
    if constexpr (K != kList)
    {
        for (std::size_t k = 0; k < m.size(); ++k) { REQUIRE(El<T>::model(ca[k]) == m[k]); REQUIRE(El<T>::model(a[k]) == m[k]); REQUIRE(El<T>::model(cc.at(k)) == m[k]); REQUIRE(El<T>::model(a.at(k)) == m[k]); }
        bool threw = false; try { (void)ca.at(m.size() + c.s.below(3)); } catch (std::out_of_range const&) { threw = true; } REQUIRE(threw, when, ": at() beyond the end must throw");
        auto n = std::ptrdiff_t(m.size()), x = std::ptrdiff_t(c.s.below(n + 1)), y = std::ptrdiff_t(c.s.below(n + 1));
        auto b = ca.begin(); auto ix = b + x, iy = b + y;
        REQUIRE(iy - ix == y - x); REQUIRE((ix < iy) == (x < y)); REQUIRE((ix <= iy) == (x <= y)); REQUIRE((ix > iy) == (x > y)); REQUIRE((ix >= iy) == (x >= y)); REQUIRE((ix == iy) == (x == y)); REQUIRE((ix != iy) == (x != y));
        REQUIRE(ca.end() - (n - x) == ix); if (x < n) { REQUIRE(El<T>::model(*ix) == m[x]); REQUIRE(El<T>::model(b[x]) == m[x]); }
        auto mb = a.begin(); mb += x; mb -= x; mb += y; if (y < n) REQUIRE(El<T>::model(*mb) == m[y]); REQUIRE(mb - a.begin() == y);
    }
    if constexpr (K == kVector || K == kString || K == kPoly)
    { for (std::size_t k = 0; k < m.size(); ++k) REQUIRE(El<T>::model(p.c.data()[k]) == m[k]); REQUIRE(p.c.cdata() == cc.data()); REQUIRE(ca.capacity() >= m.size()); }
    if constexpr (K == kString) { REQUIRE(ca.to_std_string_view() == std::string_view(m.data(), m.size())); REQUIRE(ca.c_str()[m.size()] == 0); REQUIRE(ca.length() == m.size()); }
}

template <typename C, typename A, unsigned K, typename T>
static void history(Case& c, std::size_t maxCap = 0)
{
    using P = Pair<C, A, T>; using E = El<T>; using M = typename E::M;
    P p[2]; int n = 5 + int(c.s.below(36)); int edits = 0, abstracts = 0, mid = 0;
    std::size_t const cap = maxCap ? maxCap : 80;
    for (int step = 0; step < n && !(step > 0 && c.s.exhausted()); ++step)
    {
        auto w = c.s.below(2); auto& x = p[w]; auto& y = p[1 - w]; bool ab = c.s.coin(); A& a = x.c; C& cc = x.c; auto& m = x.m;
        auto pos = c.s.below(m.size() + 1); auto v = E::make(c);
        auto at = [&](auto& cont, std::size_t k) { auto it = cont.begin(); for (std::size_t q = 0; q < k; ++q) ++it; return it; };
        auto cat_ = [&](auto const& cont, std::size_t k) { auto it = cont.cbegin(); for (std::size_t q = 0; q < k; ++q) ++it; return it; };
        auto op = c.s.below(24); bool room = m.size() < cap; char const* when = "";
        if (maxCap && !room && (op == 0 || op == 1 || op == 2 || op == 17) )
        {   // overflow must be refused
            bool threw = false; try { if (op == 1) a.insert(cat_(a, pos), E::lib(v)); else a.push_back(E::lib(v)); } catch (std::exception const&) { threw = true; }
            REQUIRE(threw, "insertion beyond the maximum capacity must be refused"); agree<C, A, K, T>(c, x, "refused"); continue;
        }
        if (!room && (op <= 2 || op == 17 || op == 18 || op == 19)) op = 3;
        switch (op)
        {
        case 0: when = "push_back"; if (ab) a.push_back(E::lib(v)); else cc.push_back(E::lib(v)); m.push_back(v); break;
        case 1: when = "insert const_iterator"; { auto it = ab ? a.insert(cat_(a, pos), E::lib(v)) : cc.insert(cat_(cc, pos), E::lib(v)); REQUIRE(E::model(*it) == v, when); m.insert(m.begin() + pos, v); REQUIRE(std::size_t(std::distance(a.begin(), it)) == pos, "insert must return the position of the new element"); if (pos < m.size() - 1) mid = 1; } break;
        case 2: when = "insert iterator"; { auto it = a.insert(at(a, pos), E::lib(v)); REQUIRE(E::model(*it) == v, when); m.insert(m.begin() + pos, v); REQUIRE(std::size_t(std::distance(a.begin(), it)) == pos); if (pos < m.size() - 1) mid = 1; } break;
        case 3: when = "pop_back"; if (!m.empty()) { if (ab) a.pop_back(); else cc.pop_back(); m.pop_back(); } break;
        case 4: case 5: when = "erase"; if (!m.empty()) { pos %= m.size(); if (pos + 1 < m.size()) mid = 1; auto it = op == 4 ? a.erase(cat_(a, pos)) : ab ? a.erase(at(a, pos)) : cc.erase(at(cc, pos)); m.erase(m.begin() + pos); REQUIRE(std::size_t(std::distance(a.begin(), it)) == pos); } break;
        case 6: case 7: when = "erase range"; { auto last = pos + c.s.below(m.size() - pos + 1); auto it = op == 6 ? a.erase(cat_(a, pos), cat_(a, last)) : cc.erase(at(cc, pos), at(cc, last)); m.erase(m.begin() + pos, m.begin() + last); REQUIRE(std::size_t(std::distance(a.begin(), it)) == pos); } break;
        case 8: when = "resize"; { auto k = c.s.below(std::min<std::size_t>(cap, m.size() + 5) + 1); if (ab) a.resize(k); else cc.resize(k); m.resize(k, E::zero()); } break;
        case 9: when = "resize with value"; { auto k = c.s.below(std::min<std::size_t>(cap, m.size() + 5) + 1); if (ab) a.resize(k, E::lib(v)); else cc.resize(k, E::lib(v)); m.resize(k, v); } break;
        case 10: when = "clear"; if (c.s.chance(1, 3)) { if (ab) a.clear(); else cc.clear(); m.clear(); } break;
        case 11: when = "assign concrete"; cc = y.c; m = y.m; break;
        case 12: when = "assign abstract"; { A const& ya = y.c; if (ab) a = ya; else cc = C{ ya }; m = y.m; } break;
        case 13: when = "assign()"; { A const& ya = y.c; a.assign(ya); m = y.m; } break;
        case 14: when = "move"; if (ab) { C t{ std::move(cc) }; cc = std::move(t); } else { cc = std::move(y.c); m = y.m; y.c.clear(); y.m.clear(); } break;
        case 15: when = "self-assign"; { A const& sa = x.c; if (ab) a = sa; else { C& s = x.c; cc = s; } a.assign(sa); } break;
        case 16: when = "write through"; if (!m.empty()) { pos %= m.size(); switch (c.s.below(3)) { case 0: *at(a, pos) = E::lib(v); m[pos] = v; break; case 1: a.front() = E::lib(v); m.front() = v; break; default: cc.back() = E::lib(v); m.back() = v; } } break;
        case 17: when = "push own element"; if (!m.empty()) { pos %= m.size(); auto copy = m[pos]; if constexpr (K != kList) { if (ab) a.push_back(a[pos]); else cc.push_back(cc[pos]); } else a.push_back(*at(a, pos)); m.push_back(copy); } break;
        case 18: when = "insert own element"; if (!m.empty()) { auto from = c.s.below(m.size()); auto copy = m[from]; a.insert(cat_(a, pos), *at(a, from)); m.insert(m.begin() + pos, copy); } break;
        case 19: if constexpr (K == kVector || K == kDeque || K == kPoly) { when = "emplace"; if (ab) { auto it = cc.emplace(cc.cbegin() + pos, E::lib(v)); REQUIRE(E::model(*it) == v); REQUIRE(std::size_t(it - a.begin()) == pos); m.insert(m.begin() + pos, v); } else { cc.emplace_back(E::lib(v)); m.push_back(v); } }
                 else if constexpr (K == kString) { when = "append"; auto t = c.s.bytes(c.s.below(6)); neolib::string ns{ t }; neolib::string_view nv{ t }; switch (c.s.below(6)) { case 0: a.append(ns); break; case 1: a.append(t); break; case 2: a.append(t.data(), t.size()); break; case 3: a += ns; break; case 4: a.append(nv); break; default: a.append(static_cast<neolib::i_string const&>(ns)); } m.insert(m.end(), t.begin(), t.end()); } break;
        case 20: if constexpr (K == kList || K == kDeque) { when = "push/pop front"; if (c.s.coin() && !m.empty()) { if (ab) a.pop_front(); else cc.pop_front(); m.erase(m.begin()); } else if (room) { if (ab) a.push_front(E::lib(v)); else cc.push_front(E::lib(v)); m.insert(m.begin(), v); } }
                 else if constexpr (K == kString) { when = "assign text"; auto t = c.s.bytes(c.s.below(20)); switch (c.s.below(7)) { case 0: a = t; break; case 1: a = std::string_view{ t }; break; case 2: a.assign(t.data(), t.size()); break; case 3: cc = t; break; case 4: cc = std::string_view{ t }; break; case 5: { neolib::string_view nv{ t }; a = static_cast<neolib::i_string_view const&>(nv); break; } default: { auto z = t; z.erase(std::remove(z.begin(), z.end(), 0), z.end()); a = z.c_str(); t = z; } } m.assign(t.begin(), t.end()); } break;
        case 21: if constexpr (K != kList) { if (!m.empty()) { when = "sort or reverse through iterators"; if (c.s.coin()) { std::reverse(m.begin(), m.end()); std::vector<M> t; for (auto& e : a) t.push_back(E::model(e)); std::size_t i = t.size(); for (auto it = a.begin(); it != a.end(); it++) *it = E::lib(t[--i]); } else if constexpr (K != kString && !std::is_same_v<T, neolib::string>) { std::sort(a.begin(), a.end()); std::sort(m.begin(), m.end()); } } }
                 break;
        case 22: when = "reserve"; { auto k = c.s.below(maxCap ? maxCap + 1 : 200); a.reserve(k); if constexpr (K == kVector || K == kString || K == kPoly) REQUIRE(a.capacity() >= k, "capacity after reserve(", k, ") is ", a.capacity()); } break;
        default: when = "construct from range"; if constexpr (K == kVector || K == kDeque || K == kString) { std::vector<T> src; for (auto& e : y.m) src.push_back(E::lib(e)); C t(src.begin(), src.end()); cc = t; m = y.m; if constexpr (K == kString) { neolib::string cs{ 3, 'q' }; REQUIRE(cs.to_std_string() == "qqq"); } }
                 else { C t{ y.c }; cc = t; m = y.m; } break;
        }
        if (*when) { ++edits; abstracts += ab; c.note("container ", w, ": ", when, " pos=", pos, ab ? " (abstract)" : ""); }
        agree<C, A, K, T>(c, x, when); agree<C, A, K, T>(c, y, "other");
        // comparison
        A const& u = p[0].c; A const& v2 = p[1].c; bool eq = p[0].m == p[1].m;
        REQUIRE((u == v2) == eq); REQUIRE((u != v2) == !eq); REQUIRE((p[0].c == p[1].c) == eq);
        bool lt;
        if constexpr (K == kString) lt = std::string_view(p[0].m.data(), p[0].m.size()) < std::string_view(p[1].m.data(), p[1].m.size()); else lt = p[0].m < p[1].m;
        REQUIRE((u < v2) == lt, "abstract <"); REQUIRE((p[0].c < p[1].c) == lt, "concrete <"); REQUIRE((u >= v2) == !lt);
    }
    c.nontrivial(edits >= 6 && abstracts >= 1 && mid);
}
#if PBT_PART == 0
PBT_SUITE("vector-int", 6000, 300000) { history<neolib::vector<int>, neolib::i_vector<int>, kVector, int>(c); }
#endif
#if PBT_PART == 1
PBT_SUITE("vector-string", 4000, 200000) { history<neolib::vector<neolib::string>, neolib::i_vector<neolib::i_string>, kVector, neolib::string>(c); }
#endif
#if PBT_PART == 2
PBT_SUITE("list-int", 6000, 300000) { history<neolib::list<int>, neolib::i_list<int>, kList, int>(c); }
#endif
#if PBT_PART == 3
PBT_SUITE("list-string", 4000, 200000) { history<neolib::list<neolib::string>, neolib::i_list<neolib::i_string>, kList, neolib::string>(c); }
#endif
#if PBT_PART == 4
PBT_SUITE("deque-int", 6000, 300000) { history<neolib::deque<int>, neolib::i_deque<int>, kDeque, int>(c); }
#endif
#if PBT_PART == 5
PBT_SUITE("deque-string", 4000, 200000) { history<neolib::deque<neolib::string>, neolib::i_deque<neolib::i_string>, kDeque, neolib::string>(c); }
#endif
#if PBT_PART == 6
PBT_SUITE("string", 6000, 300000) { history<neolib::string, neolib::i_string, kString, char>(c); }
#endif
#if PBT_PART == 7
PBT_SUITE("polymorphic-vecarray-int", 6000, 300000) { history<neolib::polymorphic::vecarray<int, 4, 16>, neolib::i_vector<int>, kPoly, int>(c, 16); }
PBT_SUITE("polymorphic-vecarray-fixed", 4000, 200000) { history<neolib::polymorphic::vecarray<int, 6>, neolib::i_vector<int>, kPoly, int>(c, 6); }
#endif
#if PBT_PART == 8
PBT_SUITE("polymorphic-vecarray-string", 3000, 100000) { history<neolib::polymorphic::vecarray<neolib::string, 3, 40>, neolib::i_vector<neolib::i_string>, kPoly, neolib::string>(c, 40); }
#endif
#if PBT_PART == 9
// whole-string operations and views
PBT_SUITE("string-operations", 10000, 400000)
{
    auto a = c.s.from("abAB", c.s.below(16)), b = c.s.from("abAB", c.s.below(6)), r = c.s.from("abAB", c.s.below(4));
    neolib::string x{ a }, y{ b }; neolib::i_string& ix = x; neolib::i_string const& iy = y;
    REQUIRE((x == y) == (a == b)); REQUIRE((ix == iy) == (a == b)); REQUIRE((x <=> y) == (a <=> b)); REQUIRE((ix <=> iy) == (a <=> b)); REQUIRE((x <=> iy) == (a <=> b)); REQUIRE((ix <=> y) == (a <=> b));
    REQUIRE((x + y).to_std_string() == a + b);
    auto lower = [](std::string s) { for (auto& ch : s) ch = char(std::tolower((unsigned char)ch)); return s; };
    REQUIRE(neolib::ci_equal_to{}(ix, iy) == (lower(a) == lower(b))); REQUIRE(neolib::ci_less{}(ix, iy) == (lower(a) < lower(b)));
    REQUIRE(std::hash<neolib::string>{}(x) == std::hash<neolib::i_string>{}(ix));
    REQUIRE(x.to_std_string_view() == a); REQUIRE(std::string(x.to_string_view().data(), x.to_string_view().size()) == a); REQUIRE(static_cast<std::string>(ix) == a);
    std::ostringstream o; o << ix; REQUIRE(o.str() == a); { std::istringstream in{ "  w" + b + " z" }; in >> ix; REQUIRE(x.to_std_string() == "w" + b); x = a; }
    neolib::string_view v{ x }; neolib::string_view v2{ a }; neolib::i_string_view const& iv = v; REQUIRE(iv.size() == a.size()); REQUIRE(iv.to_std_string() == a); REQUIRE(v.empty() == a.empty());
    for (std::size_t i = 0; i < a.size(); ++i) REQUIRE(iv[i] == a[i] && iv.at(i) == a[i]); bool threw = false; try { iv.at(a.size()); } catch (std::out_of_range const&) { threw = true; } REQUIRE(threw);
    neolib::string_view v3{ iv }; REQUIRE(v3.to_std_string_view() == a); neolib::string_view v4; REQUIRE(v4.empty() && v4.size() == 0); static_cast<neolib::i_string_view&>(v4).assign(std::string_view{ b }); REQUIRE(v4.to_std_string() == b); REQUIRE((v3 == v4) == (a == b)); REQUIRE((v3 < v4) == (a < b));
    neolib::string s2{ iv }; REQUIRE(s2 == x); neolib::string s3; s3 = iv; REQUIRE(s3 == x);
    if (!b.empty())
    {
        std::string want; for (std::size_t i = 0; i < a.size();) if (a.compare(i, b.size(), b) == 0) { want += r; i += b.size(); } else want += a[i++];
        ix.replace_all(iy, neolib::string{ r }); REQUIRE(x.to_std_string() == want, "replace_all(", b, ", ", r, ") of ", a, " gave ", x.to_std_string());
        c.nontrivial(want != a);
    }
}
#endif
