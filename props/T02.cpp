// T02: splitting, replacing, trimming, reverse searches and case against plain definitions.
#include "pbt.hpp"
#include <neolib/neolib.hpp>
#include <neolib/core/string_utils.hpp>
#include <neolib/core/string_ci.hpp>
#include <neolib/core/vector.hpp>
#include <list>
#include <deque>

using namespace pbt;
namespace
{
    std::string q(std::string const& s) { return show(s); }
    template <class S> S wide(std::string const& s) { return S(s.begin(), s.end()); }
    // the pieces between delimiters and where each ends and the rest begins
    struct Cut { std::size_t b, e, next; };
    std::vector<Cut> cuts(std::string const& t, std::string const& d, bool sub)
    {
        std::vector<Cut> r; std::size_t b = 0;
        for (std::size_t i = 0; i < t.size();)
        {
            bool const hit = sub ? t.compare(i, d.size(), d) == 0 : d.find(t[i]) != std::string::npos;
            if (hit) { std::size_t const n = sub ? d.size() : 1; r.push_back({ b, i, i + n }); i += n; b = i; } else ++i;
        }
        r.push_back({ b, t.size(), t.size() });
        return r;
    }
}
#if PBT_PART == 0
PBT_SUITE("tokens", 200000, 5000000)
{
    std::string const alphabet = c.s.coin() ? "ab," : "ab,;-"; std::string const t = c.s.from(alphabet, c.s.len(24)), d = c.s.chance(1, 12) ? "" : c.s.from(c.s.coin() ? ",;-" : alphabet, 1 + c.s.below(3));
    std::size_t const max = c.s.coin() ? 0 : 1 + c.s.below(6); bool const skip = c.s.coin(), sub = c.s.coin(), given = c.s.chance(1, 4);
    c.note(q(t), " by ", q(d), " max ", max, skip ? " skip" : " keep", sub ? " subsequence" : "");
    std::vector<std::string> want; if (given) want.push_back("before"); std::size_t rest = 0; bool cut = false, empties = false;
    if (t.empty()) {} else if (d.empty()) { want.push_back(t); rest = t.size(); }
    else
    {
        std::size_t n = 0;
        for (auto const& k : cuts(t, d, sub))
        {
            if (k.b == k.e) empties = true;
            if (max != 0 && n == max) { cut = true; break; }
            if (k.b != k.e || !skip) { want.push_back(t.substr(k.b, k.e - k.b)); ++n; }
            rest = k.next;
        }
    }
    std::vector<std::string> got; if (given) got.push_back("before");
    auto const at = neolib::tokens(t.begin(), t.end(), d.begin(), d.end(), got, max, skip, sub);
    auto list = [&](auto const& v) { std::string s; for (auto const& x : v) s += q(std::string(x.begin(), x.end())) + " "; return s; };
    REQUIRE(got == want, "tokens gave ", list(got), "instead of ", list(want)); REQUIRE(static_cast<std::size_t>(at - t.begin()) == rest, "tokens stopped at ", at - t.begin(), " not ", rest);
    if (!given)
    {
        REQUIRE(neolib::tokens(t, d, max, skip, sub) == want, "tokens of strings"); REQUIRE(neolib::tokens(t.begin(), t.end(), d, max, skip, sub) == want, "tokens of iterators");
        std::list<std::string> l; neolib::tokens(t, d, l, max, skip, sub); REQUIRE(std::vector<std::string>(l.begin(), l.end()) == want, "tokens into a list");
        std::vector<std::pair<char const*, char const*>> p; neolib::tokens(t.data(), t.data() + t.size(), d, p, max, skip, sub); std::vector<std::string> pv; for (auto const& x : p) { REQUIRE(x.first >= t.data() && x.second <= t.data() + t.size(), "a token lies outside the text"); pv.push_back(neolib::to_string(x)); } REQUIRE(pv == want, "tokens into iterator pairs");
        std::vector<std::u16string> w; neolib::tokens(wide<std::u16string>(t), wide<std::u16string>(d), w, max, skip, sub); std::vector<std::string> wv; for (auto const& x : w) wv.push_back(std::string(x.begin(), x.end())); REQUIRE(wv == want, "tokens of UTF-16");
        neolib::vector<neolib::string> nv; neolib::tokens(t, d, nv, max, skip, sub); std::vector<std::string> nw; for (auto const& x : nv) nw.push_back(x.to_std_string()); REQUIRE(nw == want, "tokens into the library's containers");
    }
    if (!given && skip && !sub)
    {
        // the defaults: all pieces, none empty, delimiters one by one
        REQUIRE(neolib::tokens(t, d, max) == want && neolib::tokens(t.begin(), t.end(), d, max) == want, "tokens with defaults and a limit"); std::vector<std::string> g; neolib::tokens(t, d, g, max); REQUIRE(g == want, "tokens into a vector with defaults and a limit"); g.clear(); neolib::tokens(t.begin(), t.end(), d.begin(), d.end(), g, max); REQUIRE(g == want, "tokens of iterators with defaults and a limit");
        if (max == 0) { REQUIRE(neolib::tokens(t, d) == want && neolib::tokens(t.begin(), t.end(), d) == want, "tokens with defaults"); g.clear(); neolib::tokens(t, d, g); REQUIRE(g == want, "tokens into a vector with defaults"); g.clear(); neolib::tokens(t.begin(), t.end(), d.begin(), d.end(), g); REQUIRE(g == want, "tokens of iterators with defaults"); g.clear(); neolib::tokens(t.begin(), t.end(), d, g); REQUIRE(g == want, "tokens of iterators by a string with defaults"); }
    }
    if (cut) c.label("limit reached"); if (empties) c.label("empty pieces"); c.nontrivial(want.size() >= 2 && (cut || empties));
}
PBT_SUITE("replace", 200000, 5000000)
{
    std::string t = c.s.from("ab", c.s.len(24)), s = c.s.chance(1, 10) ? "" : c.s.from("ab", 1 + c.s.below(3)), r = c.s.from("abc", c.s.below(4)); if (c.s.chance(1, 5)) r = s + r; c.note(q(t), " ", q(s), " -> ", q(r));
    std::string want; bool hit = false; std::vector<std::pair<std::size_t, std::size_t>> spans;
    for (std::size_t i = 0; i < t.size();) if (!s.empty() && t.compare(i, s.size(), s) == 0) { spans.push_back({ want.size(), want.size() + r.size() }); want += r; i += s.size(); hit = true; } else want += t[i++];
    std::string x = t; REQUIRE(neolib::replace_string(x, s, r) == hit, "replace_string reported ", !hit); REQUIRE(x == want, "replace_string gave ", q(x), " instead of ", q(want));
    auto w = wide<std::u16string>(t); REQUIRE(neolib::replace_string(w, wide<std::u16string>(s), wide<std::u16string>(r)) == hit && w == wide<std::u16string>(want), "replace_string of UTF-16");
    // spans: an untouched stretch of the text, marked beforehand, still marks the same characters afterwards
    if (hit && spans.size() == 1 && !t.empty())
    {
        std::size_t const pos = spans[0].first; std::size_t const a = c.s.below(t.size()), b = a + 1 + c.s.below(t.size() - a);
        if (b < pos || a >= pos + s.size()) // wholly before the replacement (and not touching it), or wholly after it
        {
            neolib::string_spans sp; sp.push_back(neolib::string_span{ a, b, 7 }); std::string y = t; REQUIRE(neolib::replace_string(y, s, r, &sp) && y == want, "replace_string with spans"); long const d = b < pos ? 0 : static_cast<long>(r.size()) - static_cast<long>(s.size());
            REQUIRE(sp.size() == 1 && static_cast<long>(sp[0].first) == static_cast<long>(a) + d && static_cast<long>(sp[0].second) == static_cast<long>(b) + d && sp[0].iType == 7, "a span over ", a, "..", b, " moved to ", sp[0].first, "..", sp[0].second); c.label("span followed");
        }
        neolib::string_spans none; std::string y = t; REQUIRE(neolib::replace_string(y, s, r, &none, 9) && y == want && none.size() == 1 && none[0].first == pos && none[0].second == pos + r.size() && none[0].iType == 9, "the span of a replacement is wrong");
    }
    c.nontrivial(hit && spans.size() >= 2);
}
PBT_SUITE("trim", 100000, 3000000)
{
    std::string const t = c.s.from("a b\t", c.s.len(16)), set = c.s.chance(1, 8) ? "" : c.s.from(" \tb", 1 + c.s.below(2)); c.note(q(t), " of ", q(set)); auto in = [&](char ch) { return set.find(ch) != std::string::npos; };
    std::size_t b = 0, e = t.size(); while (b < e && in(t[b])) ++b; std::string const lead = t.substr(b); while (e > 0 && in(t[e - 1])) --e; std::string const trail = t.substr(0, e), both = b < e ? t.substr(b, e - b) : "";
    std::string x = t; REQUIRE(&neolib::remove_leading(x, set) == &x && x == lead, "remove_leading gave ", q(x)); x = t; REQUIRE(&neolib::remove_trailing(x, set) == &x && x == trail, "remove_trailing gave ", q(x)); x = t; REQUIRE(&neolib::remove_leading_and_trailing(x, set) == &x && x == both, "remove_leading_and_trailing gave ", q(x));
    if (!t.empty())
    {
        std::size_t const p = c.s.below(t.size()); std::size_t first = std::string::npos, last = std::string::npos; for (std::size_t k = p + 1; k-- > 0;) if (in(t[k])) { first = k; break; } for (std::size_t k = p + 1; k-- > 0 && in(t[k]);) last = k;
        REQUIRE(neolib::reverse_find_first_of(t, set, p) == first, "reverse_find_first_of at ", p); REQUIRE(neolib::reverse_find_last_of(t, set, p) == last, "reverse_find_last_of at ", p);
        if (p == t.size() - 1) REQUIRE(neolib::reverse_find_first_of(t, set, std::string::npos) == first, "reverse_find_first_of from the end");
    }
    else REQUIRE(neolib::reverse_find_first_of(t, set, 0) == std::string::npos && neolib::reverse_find_last_of(t, set, 0) == std::string::npos, "reverse search of an empty string");
    c.nontrivial(b > 0 && e < t.size() && b < e);
}
PBT_SUITE("case", 20000, 400000)
{
    // letters with one-to-one case partners
    static struct { char const *lo, *up; } const letters[] = { { "a", "A" }, { "z", "Z" }, { "m", "M" }, { "i", "I" }, { "k", "K" }, { "\xC3\xA9", "\xC3\x89" }, { "\xC3\xBE", "\xC3\x9E" }, { "\xCE\xB1", "\xCE\x91" }, { "\xD0\xB6", "\xD0\x96" }, { "\xF0\x90\x90\xA8", "\xF0\x90\x90\x80" }, { "5", "5" }, { "_", "_" }, { "[", "[" }, { "@", "@" }, { "{", "{" }, { "`", "`" }, { " ", " " }, { "\xE4\xB8\xAD", "\xE4\xB8\xAD" } };
    std::string t, lo, up; bool upper = false, lower = false, wideChar = false; for (std::size_t n = c.s.len(16); n--; ) { auto const& l = letters[c.s.below(std::size(letters))]; bool const u = c.s.coin(); t += u ? l.up : l.lo; lo += l.lo; up += l.up; (u ? upper : lower) = true; wideChar = wideChar || l.lo[1]; }
    c.note(q(t)); REQUIRE(neolib::to_lower(t) == lo, "to_lower gave ", q(neolib::to_lower(t))); REQUIRE(neolib::to_upper(t) == up, "to_upper gave ", q(neolib::to_upper(t)));
    auto w = [](std::string const& x) { auto const u = neolib::utf8_to_utf32(x); return std::wstring(u.begin(), u.end()); }; REQUIRE(neolib::to_lower(w(t)) == w(lo) && neolib::to_upper(w(t)) == w(up), "case of wide text");
    c.nontrivial(upper && lower && wideChar);
}
PBT_SUITE("caseless", 20000, 400000)
{
    // ASCII letters compare without case, every other byte exactly
    bool const bytes = c.s.chance(1, 3); auto text = [&](std::size_t n) { std::string r; for (; n--; ) r += bytes && c.s.coin() ? static_cast<char>(0xA0 + c.s.below(4)) : c.s.from("aAbBzZ[_9", 1)[0]; return r; };
    std::string a = text(c.s.len(8)), b = c.s.coin() ? text(c.s.len(8)) : a; if (!b.empty() && c.s.coin()) { auto& ch = b[c.s.below(b.size())]; ch = static_cast<char>(std::isalpha(static_cast<unsigned char>(ch)) ? ch ^ 32 : ch); } if (!b.empty() && c.s.chance(1, 3)) b[c.s.below(b.size())] = text(1)[0];
    auto lower = [](std::string s) { for (auto& ch : s) if (ch >= 'A' && ch <= 'Z') ch = static_cast<char>(ch + 32); return s; }; std::string const la = lower(a), lb = lower(b); c.note(q(a), " ", q(b));
    auto const ca = neolib::make_ci_string(a), cb = neolib::make_ci_string(b); REQUIRE(neolib::make_string(ca) == a, "a case-insensitive string changed its text");
    REQUIRE((ca == cb) == (la == lb), "case-insensitive == gave ", ca == cb); REQUIRE((ca == b) == (la == lb) && (a == cb) == (la == lb) && (ca != b) == (la != lb), "case-insensitive comparison with a plain string");
    std::string_view const va = a, vb = b; REQUIRE((a != cb) == (la != lb) && (va != cb) == (la != lb) && (ca != vb) == (la != lb) && (ca == vb) == (la == lb) && (va == cb) == (la == lb), "case-insensitive comparison with a view");
    REQUIRE((ca < b) == (ca < cb) && (a < cb) == (ca < cb) && (ca < vb) == (ca < cb) && (va < cb) == (ca < cb), "case-insensitive < with a plain string or a view");
    REQUIRE(((ca < cb) || (cb < ca)) == (la != lb) && !((ca < cb) && (cb < ca)), "case-insensitive < is not total"); if (!bytes) REQUIRE((ca < cb) == (la < lb), "case-insensitive < gave ", ca < cb);
    REQUIRE(ca.find(cb) == la.find(lb), "case-insensitive find gave ", ca.find(cb)); if (!b.empty()) REQUIRE(ca.find(b[0]) == la.find(lb[0]), "case-insensitive find of a character gave ", ca.find(b[0]));
    REQUIRE(neolib::lexicographical_compare_ignoring_case(a, b) == (ca < cb), "lexicographical_compare_ignoring_case");
    c.nontrivial(la == lb && a != b);
}
#endif
