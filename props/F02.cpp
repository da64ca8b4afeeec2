// F02: malformed documents are refused with a location inside them, and a reader is as good as new afterwards.
#include "json_model.hpp"
#include <regex>

using namespace pbt; using namespace jm; using namespace std::string_literals;
namespace
{
    std::string mutate(Case& c, std::string t)
    {
        std::size_t const n = 1 + c.s.below(3);
        for (std::size_t i = 0; i < n; ++i)
        {
            std::size_t const p = c.s.below(t.size() + 1); static std::string const alphabet = "{}[]:,\"\\u0019.-+eEtrfalsnb/ \n\x01\xc3\xa9\xff"s;
            switch (c.s.below(7))
            {
            case 0: t.resize(p); break;
            case 1: if (!t.empty()) t.erase(p == t.size() ? p - 1 : p, 1 + c.s.below(3)); break;
            case 2: t.insert(p, c.s.from(alphabet, 1 + c.s.below(2))); break;
            case 3: if (p < t.size()) t[p] = c.s.from(alphabet, 1)[0]; break;
            case 4: { std::size_t const q = c.s.below(t.size() + 1); t.insert(p, t.substr(q, c.s.below(8))); break; }
            case 5: t += c.s.from("]},: \n1a\"", 1 + c.s.below(2)); break;
            default: t.insert(p, 1, '\0');
            }
        }
        return t;
    }
    std::string candidate(Case& c)
    {
        if (c.s.chance(1, 4)) return c.s.from("{}[]:,\"\\ \n01.-eEtrueabnu/"s, c.s.len(16));
        if (c.s.chance(1, 12)) return c.s.bytes(c.s.len(20));
        if (c.s.chance(1, 8)) { std::string t; std::size_t const n = c.s.len(12); for (std::size_t i = 0; i < n; ++i) t += c.s.pick({ "{", "}", "[", "]", ":", ",", "\"a\"", "1", "null", "x", " ", "\"\\u12", "-" }); return t; }
        std::string t; generate(c, t, static_cast<int>(c.s.below(4)), c.s.coin()); return c.s.chance(1, 6) ? t : mutate(c, t);
    }
    enum class utf { valid, invalid, unsure };
    utf check(std::string const& t)
    {
        bool surrogate = false;
        for (std::size_t i = 0; i < t.size();)
        {
            unsigned char const a = static_cast<unsigned char>(t[i]); std::size_t n = a < 0x80 ? 0 : a >= 0xC2 && a < 0xE0 ? 1 : a >= 0xE0 && a < 0xF0 ? 2 : a >= 0xF0 && a < 0xF5 ? 3 : 9; if (n == 9 || i + n >= t.size() + (n == 0)) return utf::invalid;
            std::uint32_t u = n == 0 ? a : n == 1 ? a & 31 : n == 2 ? a & 15 : a & 7; for (std::size_t k = 1; k <= n; ++k) { unsigned char const b = static_cast<unsigned char>(t[i + k]); if ((b & 0xC0) != 0x80) return utf::invalid; u = u << 6 | (b & 63); }
            if ((n == 2 && u < 0x800) || (n == 3 && (u < 0x10000 || u > 0x10FFFF))) return utf::invalid; if (u >= 0xD800 && u < 0xE000) surrogate = true; i += n + 1;
        }
        return surrogate ? utf::unsure : utf::valid;
    }
    // the place an error names lies in the document
    void location(std::string const& error, std::string const& t)
    {
        static std::regex const re{ "line ([0-9]+), col ([0-9]+)$" }; std::smatch m; REQUIRE(!error.empty(), "a refusal without an explanation");
        if (!std::regex_search(error, m, re)) { REQUIRE(error.find("empty document") != std::string::npos || error.find("invalid utf-8") != std::string::npos, "a refusal without a place: ", error); return; }
        std::size_t const line = std::stoul(m[1]), col = std::stoul(m[2]); std::vector<std::size_t> lengths{ 0 }; for (char ch : t) if (ch == '\n') lengths.push_back(0); else ++lengths.back();
        REQUIRE(line >= 1 && line <= lengths.size() + 1, "the error is on line ", line, " of ", lengths.size()); REQUIRE(col >= 1 && col <= (line <= lengths.size() ? lengths[line - 1] : 0) + 2, "the error is in column ", col, " of line ", line);
    }
    // what one reader made of a text
    template <class J> struct Outcome { bool ok; std::string written; };
}
#if PBT_PART == 0
// sequences of documents on one reader: each is read as the model reads it, whatever came before
template <class J> void sequence(Case& c, bool words)
{
    J j; std::size_t const n = 1 + c.s.below(4); std::size_t refused = 0, accepted = 0;
    for (std::size_t i = 0; i < n; ++i)
    {
        std::string const t = candidate(c); bool const validate = c.s.coin(); c.note(show(t), validate ? " validated" : "");
        V v; Parser p{ t, words }; bool good = p.document(v); auto const u = validate ? check(t) : utf::valid; if (u == utf::unsure) return; if (u == utf::invalid) good = false;
        bool const ok = jm::read(j, t, validate, c.s.chance(1, 6) ? 1 + c.s.below(10) : 0);
        REQUIRE(ok == good, good ? "a well-formed document was refused: " : "a malformed document was accepted", ok ? "" : j.error_text());
        if (ok) { ++accepted; if (!p.surrogates) { compare<J>(j.root(), v); lookups<J>(j.root(), v); order(j, v); } } else { ++refused; location(j.error_text(), t); for (auto it = j.cbegin(); it != j.cend(); ++it) (void)it.value().type(); }
    }
    if (refused != 0) c.label("refused"); if (accepted != 0) c.label("accepted"); c.nontrivial(refused != 0 && n > 1);
}
PBT_SUITE("standard", 100000, 3000000) { sequence<neolib::json>(c, true); }
PBT_SUITE("no keywords", 60000, 2000000) { if (c.s.coin()) sequence<nkjson>(c, false); else sequence<neolib::fast_json>(c, true); }
#elif PBT_PART == 1
// the looser syntaxes: nothing is read out of bounds, and an earlier document does not matter
template <class J> void loose(Case& c)
{
    J j; std::size_t const n = 1 + c.s.below(4); std::size_t refused = 0;
    for (std::size_t i = 0; i < n; ++i)
    {
        std::string t = c.s.chance(1, 3) ? c.s.from("{}[]:,\"'`\\ \n/*/*01.-e+#=()tuea"s, c.s.len(20)) : candidate(c); if (c.s.coin()) { std::size_t const k = 1 + c.s.below(3); for (std::size_t x = 0; x < k; ++x) t.insert(c.s.below(t.size() + 1), c.s.pick({ "//", "/*", "*/", "/*c*/", "'", "`", "//x\n", "/", "(a,b)" })); } c.note(show(t));
        bool const ok = jm::read(j, t), fresh = [&] { J k; bool const r = jm::read(k, t); REQUIRE(r == ok, "a used reader decides differently"); if (r) { std::ostringstream a, b; j.write(a); k.write(b); REQUIRE(a.str() == b.str(), "a used reader reads something else"); } else REQUIRE(k.error_text() == j.error_text(), "a used reader reports ", j.error_text(), " for ", k.error_text()); return r; }(); (void)fresh;
        if (!ok) { ++refused; location(j.error_text(), t); }
        for (auto it = j.cbegin(); it != j.cend(); ++it) (void)it.value().type();
        // brackets outside strings, comments and bare words must balance
        if (ok) { bool const plain = t.find_first_of("\"'`/\\") == std::string::npos; std::string open; bool balanced = true; for (char ch : t) { if (ch == '{' || ch == '[') open += ch; if (ch == '}' || ch == ']') { if (open.empty() || open.back() != (ch == '}' ? '{' : '[')) { balanced = false; break; } open.pop_back(); } } REQUIRE(!plain || (balanced && open.empty()), "unbalanced brackets were accepted"); c.label("accepted"); }
    }
    c.nontrivial(refused != 0 && n > 1);
}
PBT_SUITE("relaxed", 60000, 2000000) { loose<neolib::rjson>(c); }
PBT_SUITE("functional", 60000, 2000000) { loose<neolib::fjson>(c); }
// every prefix of a well-formed document that is not itself one is refused
PBT_SUITE("truncation", 6000, 200000)
{
    std::string t; V const v = generate(c, t, 3, true); c.note(show(t)); neolib::json j; std::size_t refused = 0;
    for (std::size_t n = 0; n < t.size() && n < 160; ++n) { std::string const s = t.substr(0, n); V w; Parser p{ s, true }; bool const good = p.document(w), ok = jm::read(j, s); REQUIRE(ok == good, good ? "refused " : "accepted ", "the first ", n, " bytes"); refused += !ok; }
    c.nontrivial(refused >= 5);
}
// depth: bounded only by memory
PBT_SUITE("depth", 12, 200)
{
    std::size_t const depth = 1000 + c.s.below(60000); bool const objects = c.s.coin(), close = c.s.coin(); c.note(depth, objects ? " objects" : " arrays", close ? "" : " unclosed"); std::string t; for (std::size_t i = 0; i < depth; ++i) t += objects ? "{\"a\":" : "["; t += "1"; if (close) for (std::size_t i = 0; i < depth; ++i) t += objects ? "}" : "]";
    neolib::json j; bool const ok = jm::read(j, t); REQUIRE(ok == close, ok ? "unclosed brackets were accepted" : "a deep document was refused: ", j.error_text()); if (ok) { std::size_t n = 0; for (auto i = j.cbegin(); i != j.cend(); ++i) ++n; REQUIRE(n == depth + 1, "iteration visits ", n, " values"); } REQUIRE(jm::read(j, "[1]") && j.root().size() == 1, "the reader is unusable after a deep document"); c.nontrivial(true);
}
#endif
