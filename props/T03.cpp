// T03: wildcard matching and multi-pattern search over small alphabets, against a dynamic-programming matcher.
#include "pbt.hpp"
#include <neolib/neolib.hpp>
#include <neolib/core/string_utils.hpp>
#include <list>
#include <set>

using namespace pbt;
namespace
{
    bool matches(std::string const& t, std::string const& p)
    {
        std::vector<std::vector<char>> m(t.size() + 1, std::vector<char>(p.size() + 1, 0));
        for (std::size_t i = t.size() + 1; i-- > 0;) for (std::size_t j = p.size() + 1; j-- > 0;)
            m[i][j] = j == p.size() ? i == t.size() : p[j] == '*' ? m[i][j + 1] || (i < t.size() && m[i + 1][j]) : i < t.size() && (p[j] == '?' || p[j] == t[i]) && m[i + 1][j + 1];
        return m[0][0];
    }
}
#if PBT_PART == 0
PBT_SUITE("wildcard", 400000, 10000000)
{
    std::string const t = c.s.from(c.s.chance(1, 6) ? "ab*?" : "ab", c.s.len(14)); std::string p;
    if (c.s.coin()) p = c.s.from("ab*?", c.s.len(10)); else for (std::size_t i = 0; i < t.size();) switch (c.s.below(6)) { case 0: p += '*'; i += c.s.below(4); break; case 1: p += '?'; ++i; break; case 2: p += '*'; break; default: p += t[i++]; } // often a pattern of this very text
    bool const want = matches(t, p); c.note(show(t), " with ", show(p), " should ", want ? "match" : "not match");
    REQUIRE(neolib::wildcard_match(t, p) == want, "wildcard_match gave ", !want); REQUIRE((neolib::wildcard_match<char>(t.data(), t.data() + t.size(), std::as_const(p).data(), std::as_const(p).data() + p.size())) == want, "wildcard_match of pointers gave ", !want);
    std::u16string const wt(t.begin(), t.end()), wp(p.begin(), p.end()); REQUIRE(neolib::wildcard_match(wt, wp) == want, "wildcard_match of UTF-16 gave ", !want);
    std::size_t stars = 0; for (char ch : p) stars += ch == '*'; if (want) c.label("match"); c.nontrivial(stars >= 1 && t.size() >= 4 && p.size() >= 3);
}
PBT_SUITE("search", 50000, 3000000)
{
    neolib::string_search_fsa fsa; std::map<std::string, int> last; std::set<std::tuple<std::string, std::size_t, std::size_t>> found; std::string text; bool outside = false, stale = false; int serial = 0;
    auto add = [&](std::string const& p) { int const id = serial++; last[p] = id; fsa.add_pattern(p, [&, p, id](char const* b, char const* e) { if (last.at(p) != id) stale = true; if (b == nullptr || b < text.data() || e > text.data() + text.size() || b > e) { outside = true; return; } found.insert({ p, static_cast<std::size_t>(b - text.data()), static_cast<std::size_t>(e - text.data()) }); }); };
    std::size_t const stages = 1 + c.s.below(2); bool several = false, star = false, hit = false;
    for (std::size_t stage = 0; stage < stages; ++stage)
    {
        for (std::size_t n = 1 + c.s.below(4); n--; ) { std::string p = c.s.from(c.s.coin() ? "ab" : "ab?", 1 + c.s.len(4)); if (c.s.chance(1, 3)) { p.insert(c.s.below(p.size() + 1), "*"); if (c.s.chance(1, 4)) p.insert(c.s.below(p.size() + 1), "*"); } if (c.s.chance(1, 20)) p = "*"; c.note("pattern ", p); add(p); }
        for (int round = 0; round < 2; ++round)
        {
            bool const remove = round == 1; if (round == 0) text = c.s.from(c.s.chance(1, 8) ? "ab*?" : c.s.coin() ? "ab" : "abc", c.s.len(12)); found.clear(); if (round == 0) c.note("search ", show(text)); fsa.search(text, remove);
            REQUIRE(!outside, "a match was reported outside the text"); REQUIRE(!stale, "the action of a replaced pattern was called");
            for (auto const& [p, b, e] : found) REQUIRE(matches(text.substr(b, e - b), p), p, " was reported at ", b, "..", e, " where it does not occur");
            for (auto const& [p, id] : last)
            {
                if (text.empty()) continue; // nothing to search
                bool const plain = p.find('*') == std::string::npos; bool occurs = false, got = false;
                for (std::size_t b = 0; b <= text.size(); ++b) for (std::size_t e = b; e <= text.size(); ++e)
                {
                    bool const here = matches(text.substr(b, e - b), p), reported = found.count({ p, b, e }) != 0; occurs = occurs || here; got = got || reported;
                    if (plain) REQUIRE(here == reported, p, " occurs at ", b, "..", e, " but was not reported", remove ? " (submatches removed)" : "");
                }
                REQUIRE(occurs == got, p, " occurs in the text but was not reported", remove ? " (submatches removed)" : ""); hit = hit || got; star = star || (got && !plain);
            }
        }
        several = last.size() >= 2;
    }
    c.nontrivial(several && hit && text.size() >= 4); if (star) c.label("wildcard found");
}
#endif
