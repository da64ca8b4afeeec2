// C11: quick_string against std::string, owning or viewing.
#include "pbt.hpp"
#include <variant>
#include <neolib/neolib.hpp>
#include <neolib/core/quick_string.hpp>
#include <neolib/core/string.hpp>
#include <sstream>

using namespace pbt;
using Q = neolib::quick_string;
using M = std::string;

namespace
{
    std::string const kAlphabet = "abAB.";
    int sgn(int x) { return x < 0 ? -1 : x > 0; }
    M word(Case& c, std::size_t max = 12) { return c.s.chance(1, 12) ? c.s.bytes(c.s.len(40)) : c.s.from(kAlphabet, c.s.len(max)); }
    std::size_t position(Case& c, std::size_t n) { return c.s.chance(1, 10) ? M::npos : c.s.below(n + 3); }

    void queries(Case& c, Q const& q, M const& m, Q const& q2, M const& m2, M const& needle)
    {
        REQUIRE(q.size() == m.size() && q.length() == m.size() && q.empty() == m.empty());
        REQUIRE(q.to_std_string() == m && M(q.to_std_string_view()) == m && M(q.begin(), q.end()) == m && M(q.rbegin(), q.rend()) == M(m.rbegin(), m.rend()) && M(q.crbegin(), q.crend()) == M(m.rbegin(), m.rend()), "text ", show(q.to_std_string()), " expected ", show(m));
        REQUIRE(M(q.data(), q.size()) == m && static_cast<std::string>(q) == m);
        for (std::size_t i = 0; i < m.size(); ++i) REQUIRE(q[i] == m[i] && q.at(i) == m[i]);
        if (!m.empty()) REQUIRE(q.back() == m.back());
        { bool t = false; try { (void)q.at(m.size()); } catch (std::out_of_range const&) { t = true; } REQUIRE(t, "at(size())"); }
        REQUIRE((q == q2) == (m == m2) && (q != q2) == (m != m2) && (q < q2) == (m < m2) && (q <= q2) == (m <= m2) && (q > q2) == (m > m2) && ((q <=> q2) < 0) == (m < m2), "comparison of ", show(m), " and ", show(m2));
        REQUIRE(sgn(q.compare(q2)) == sgn(m.compare(m2)) && sgn(q.compare(m2)) == sgn(m.compare(m2)));
        REQUIRE((hash_value(q) == hash_value(q2)) || m != m2, "equal strings hash differently");
        std::ostringstream o; o << q; REQUIRE(o.str() == m, "stream");
        REQUIRE((q + q2).to_std_string() == m + m2 && q + m2 == m + m2 && m2 + q == m2 + m && 'z' + q == 'z' + m && q + 'z' == m + 'z' && "zz" + q == "zz" + m && q + "zz" == m + "zz");
        REQUIRE(neolib::string{ q }.to_std_string() == m);
        std::size_t pos = position(c, m.size()), n = c.s.below(needle.size() + 1); char const ch = kAlphabet[c.s.below(kAlphabet.size())];
        Q const qn{ needle.data(), needle.size() }; char const* z = needle.c_str();
        c.note("search ", show(needle), " pos ", pos, " n ", n, " ch ", ch);
#define BOTH(f) REQUIRE(q.f(qn, pos) == m.f(needle, pos) && q.f(needle, pos) == m.f(needle, pos) && q.f(z, pos, n) == m.f(z, pos, n) && q.f(z, pos) == m.f(z, pos) && q.f(ch, pos) == m.f(ch, pos) && q.f(qn) == m.f(needle) && q.f(needle) == m.f(needle) && q.f(z) == m.f(z) && q.f(ch) == m.f(ch), #f)
        BOTH(find); BOTH(rfind); BOTH(find_first_of); BOTH(find_last_of); BOTH(find_first_not_of); BOTH(find_last_not_of);
        {
            neolib::basic_character_map<char> const map{ m }; neolib::basic_character_map<wchar_t> const wide{ std::wstring{ m.begin(), m.end() } };
            for (int k = -128; k < 128; ++k) REQUIRE(map.find(static_cast<char>(k)) == (m.find(static_cast<char>(k)) != M::npos) && wide.find(static_cast<wchar_t>(static_cast<char>(k))) == map.find(static_cast<char>(k)), "character map of ", show(m), " and ", k);
        }
        REQUIRE(q.starts_with(std::string_view{ needle }) == m.starts_with(std::string_view{ needle }) && q.starts_with(ch) == m.starts_with(ch) && q.starts_with(z) == m.starts_with(z));
        auto const both = [&](auto&& f, auto&& g, char const* what)
        {
            std::string a, b;
            try { a = f(); } catch (std::out_of_range const&) { a = "<out_of_range>"; }
            try { b = g(); } catch (std::out_of_range const&) { b = "<out_of_range>"; }
            REQUIRE(a == b, what, " got ", show(a), " expected ", show(b));
        };
        std::size_t cnt = c.s.chance(1, 4) ? M::npos : c.s.below(m.size() + 3), pos2 = c.s.below(needle.size() + 2), cnt2 = c.s.below(needle.size() + 2);
        both([&] { return q.substr(pos, cnt); }, [&] { return m.substr(pos, cnt); }, "substr");
        both([&] { Q s{ q, pos, cnt }; REQUIRE(s.is_view()); return s.to_std_string(); }, [&] { return m.substr(pos, cnt); }, "substring view");
        both([&] { return std::to_string(sgn(q.compare(pos, cnt, needle))); }, [&] { return std::to_string(sgn(m.compare(pos, cnt, needle))); }, "compare part");
        both([&] { return std::to_string(sgn(q.compare(pos, cnt, needle, pos2, cnt2))); }, [&] { return std::to_string(sgn(m.compare(pos, cnt, needle, pos2, cnt2))); }, "compare parts");
        both([&] { return std::to_string(sgn(q.compare(pos, cnt, z))); }, [&] { return std::to_string(sgn(m.compare(pos, cnt, z))); }, "compare part with C string");
        both([&] { return std::to_string(sgn(q.compare(pos, cnt, z, n))); }, [&] { return std::to_string(sgn(m.compare(pos, cnt, z, n))); }, "compare part with buffer");
        REQUIRE(sgn(q.compare(z)) == sgn(m.compare(z)));
        both([&] { std::string b(50, '#'); auto k = q.copy(b.data(), 50 < cnt ? 50 : cnt, pos); return b.substr(0, k); }, [&] { std::string b(50, '#'); auto k = m.copy(b.data(), 50 < cnt ? 50 : cnt, pos); return b.substr(0, k); }, "copy");
    }
}

PBT_SUITE("history", 20000, 800000)
{
    std::vector<M> const original = { word(c, 40), word(c), word(c), "" };
    std::vector<std::vector<char>> backing; // exact-size heap blocks: no terminator, ASan guards both ends
    for (auto const& t : original) backing.emplace_back(t.begin(), t.end());
    Q q[3]; M m[3];
    int edits = 0, views = 0, detached = 0;
    int n = 1 + static_cast<int>(c.s.len(24));
    while (n-- > 0)
    {
        int i = static_cast<int>(c.s.below(3)), j = static_cast<int>(c.s.below(3));
        bool const wasView = q[i].is_view();
        M const w = word(c);
        std::size_t const p = c.s.below(m[i].size() + 1), k = c.s.below(m[i].size() - p + 2);
        auto const op = c.s.below(34);
        c.note("op ", op, " on ", i, " (", wasView ? "view" : "owner", ") ", show(m[i]), " with ", j, " ", show(m[j]), " word ", show(w), " pos ", p, " count ", k);
        switch (op)
        {
        case 0: case 1: case 2: { auto const& b = backing[c.s.below(4)]; std::size_t a = c.s.below(b.size() + 1), l = c.s.below(b.size() - a + 1); q[i] = Q{ b.data() + a, l }; m[i] = M(b.data() + a, l); REQUIRE(q[i].is_view()); ++views; break; }
        case 3: { auto const& b = backing[c.s.below(4)]; q[i] = Q{ std::string_view{ b.data(), b.size() } }; m[i] = M(b.data(), b.size()); ++views; break; }
        case 4: q[i] = Q{ w }; m[i] = w; REQUIRE(!q[i].is_view()); break;
        case 5: q[i] = q[j]; m[i] = m[j]; break;
        case 6: { Q t{ q[j] }; Q u{ std::move(t) }; q[i] = std::move(u); m[i] = m[j]; break; }
        case 7: { auto s = kAlphabet[c.s.below(5)]; q[i] = s; m[i] = M(1, s); break; }
        case 8: q[i] = "literal text"; m[i] = "literal text"; ++views; break;
        case 9: q[i].swap(q[j]); m[i].swap(m[j]); break;
        case 10: q[i] += q[j]; m[i] += M(m[j]); ++edits; break;
        case 11: q[i] += w; m[i] += w; ++edits; break;
        case 12: q[i] += w.c_str(); m[i] += w.c_str(); ++edits; break;
        case 13: q[i].push_back('p'); m[i].push_back('p'); ++edits; break;
        case 14: { std::size_t b = c.s.below(m[j].size() + 1); q[i].append(q[j], b, k); m[i].append(M(m[j]), b, k); ++edits; break; }
        case 15: { std::size_t b = c.s.below(w.size() + 1); q[i].append(w, b, k); m[i].append(w, b, k); q[i].append(w.begin(), w.end()); m[i] += w; q[i].append(k, 'r'); m[i].append(k, 'r'); ++edits; break; }
        case 16: q[i].assign(q[j]); m[i].assign(M(m[j])); ++edits; break;
        case 17: { std::size_t b = c.s.below(m[j].size() + 1); q[i].assign(q[j], b, k); m[i].assign(M(m[j]), b, k); ++edits; break; }
        case 18: q[i].assign(w); m[i] = w; if (k & 1) { q[i].assign(w.c_str(), w.size()); m[i].assign(w); } ++edits; break;
        case 19: q[i].assign(k, 'k'); m[i].assign(k, 'k'); q[i].append(w.c_str(), w.size()); m[i].append(w); ++edits; break;
        case 20: q[i].insert(p, q[j]); m[i].insert(p, M(m[j])); ++edits; break;
        case 21: q[i].insert(p, w); m[i].insert(p, w); q[i].insert(p, k, 'i'); m[i].insert(p, k, 'i'); ++edits; break;
        case 22: { std::size_t b = c.s.below(m[j].size() + 1); q[i].insert(p, q[j], b, k); m[i].insert(p, M(m[j]), b, k); ++edits; break; }
        case 23: { char const ch = 'n'; auto it = q[i].begin(); auto r = q[i].insert(it + static_cast<std::ptrdiff_t>(p), ch); REQUIRE(*r == 'n' && r - q[i].begin() == static_cast<std::ptrdiff_t>(p)); m[i].insert(m[i].begin() + p, 'n'); ++edits; break; }
        case 24: q[i].erase(p, k); m[i].erase(p, k); ++edits; break;
        case 25: if (p < m[i].size()) { auto r = q[i].erase(q[i].begin() + p); m[i].erase(m[i].begin() + p); REQUIRE(r - q[i].begin() == static_cast<std::ptrdiff_t>(p)); auto e = std::min(p + k, m[i].size()); q[i].erase(q[i].begin() + p, q[i].begin() + e); m[i].erase(p, e - p); ++edits; } break;
        case 26: q[i].replace(p, k, q[j]); m[i].replace(p, k, M(m[j])); ++edits; break;
        case 27: q[i].replace(p, k, w); m[i].replace(p, k, w); ++edits; break;
        case 28: { std::size_t b = c.s.below(m[j].size() + 1), l = c.s.below(6); q[i].replace(p, k, q[j], b, l); m[i].replace(p, k, M(m[j]), b, l); q[i].replace(0, 1, l, 'y'); m[i].replace(0, 1, l, 'y'); ++edits; break; }
        case 29: { auto e = std::min(p + k, m[i].size()); q[i].replace(q[i].begin() + p, q[i].begin() + e, w); m[i].replace(p, e - p, w); ++edits; break; }
        case 30: q[i].resize(k); m[i].resize(k); q[i].resize(k + 2, 'z'); m[i].resize(k + 2, 'z'); ++edits; break;
        case 31: q[i].clear(); m[i].clear(); break;
        case 32: if (p < m[i].size()) { if (k & 1) q[i][p] = 'X'; else q[i].at(p) = 'X'; m[i][p] = 'X'; if (k & 2) { q[i].back() = 'Y'; m[i].back() = 'Y'; } ++edits; } break;
        case 33: // a substring view, edited: the string it views keeps its text
        {
            Q t{ q[j], m[j].size() ? c.s.below(m[j].size()) : 0, k }; M mt = t.to_std_string(); REQUIRE(t.is_view());
            t.insert(mt.size() / 2, w); mt.insert(mt.size() / 2, w); t.push_back('!'); mt.push_back('!');
            REQUIRE(t.to_std_string() == mt && !t.is_view() && q[j].to_std_string() == m[j], "the viewed string changed");
            static_cast<std::string&>(t) += "x"; mt += "x"; REQUIRE(t.to_std_string() == mt && M(t.c_str()).size() <= mt.size());
            q[i] = t; m[i] = mt; ++edits; ++detached; break;
        }
        }
        if (wasView && !q[i].is_view()) ++detached;
        if (m[i].size() > 400) { q[i].resize(50); m[i].resize(50); }
        for (int x = 0; x < 3; ++x) REQUIRE(q[x].to_std_string() == m[x], "string ", x, " is ", show(q[x].to_std_string()), " expected ", show(m[x]));
        for (std::size_t b = 0; b < 4; ++b) REQUIRE(M(backing[b].begin(), backing[b].end()) == original[b], "viewed text changed");
        queries(c, q[i], m[i], q[j], m[j], c.s.chance(1, 3) && !m[i].empty() ? m[i].substr(p % m[i].size(), 1 + c.s.below(4)) : word(c, 4));
    }
    c.nontrivial(edits >= 2 && views && detached);
    if (views) c.label("viewed"); if (detached) c.label("view detached by an edit");
}
