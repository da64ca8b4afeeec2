// T05: formatting and escaping against plain models.
#include "pbt.hpp"
#include <neolib/neolib.hpp>
#include <iomanip>
#include <neolib/core/string_utils.hpp>

using namespace pbt;
using namespace std::string_literals;
namespace
{
    std::string model_unescape(std::string const& s)
    {
        std::string r;
        for (std::size_t i = 0; i < s.size();)
        {
            if (s[i] != '\\' || i + 1 == s.size()) { r += s[i++]; continue; }
            char const e = s[i + 1]; i += 2;
            if (e == 'x')
            {
                std::size_t j = i; unsigned v = 0; auto hex = [](char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; };
                while (j < s.size() && hex(s[j]) >= 0) v = (v * 16 + static_cast<unsigned>(hex(s[j++]))) & 0xFF;
                if (j == i) r += "\\x"; else r += static_cast<char>(v);
                i = j;
            }
            else r += e == 'n' ? '\n' : e == 'r' ? '\r' : e == 't' ? '\t' : e;
        }
        return r;
    }
    std::string model_escape(std::string const& s, std::size_t max, bool dots)
    {
        std::string r; std::size_t n = 0;
        for (unsigned char ch : s)
        {
            if (max != 0 && n == max) { if (dots) r += "..."; break; }
            ++n; char b[8];
            if (ch >= 0x20 && ch < 0x80) r += static_cast<char>(ch); else if (ch == '\n') r += "\\n"; else if (ch == '\r') r += "\\r"; else if (ch == '\t') r += "\\t"; else { std::snprintf(b, sizeof b, "\\x%02x", ch); r += b; }
        }
        return r;
    }
    std::string model_url(std::string const& s)
    {
        std::string r; auto hex = [](char ch) { return std::string("0123456789abcdef").find(static_cast<char>(ch >= 'A' && ch <= 'F' ? ch + 32 : ch)); };
        for (std::size_t i = 0; i < s.size(); ++i)
            if (s[i] == '%' && i + 2 < s.size() && hex(s[i + 1]) != std::string::npos && hex(s[i + 2]) != std::string::npos) { r += static_cast<char>(hex(s[i + 1]) * 16 + hex(s[i + 2])); i += 2; }
            else r += s[i];
        return r;
    }
    struct arg { std::string text; std::size_t id; };
}

PBT_SUITE("format", 60000, 2000000)
{
    int const a0 = static_cast<int>(c.s.edgy()); std::string const a1 = c.s.coin() ? c.s.from("ab{}%:", c.s.len(8)) : c.s.bytes(c.s.len(8)); double const a2 = static_cast<double>(c.s.range(-4000, 4000)) / 16; char const a3 = static_cast<char>('a' + c.s.below(26)); unsigned const a4 = static_cast<unsigned>(c.s.below(20));
    bool const automatic = c.s.coin(); std::string t, want; std::vector<neolib::format_result::formatted_arg> spans; std::size_t const pieces = 1 + c.s.below(8); std::size_t next = 0; bool nested = false, twice = false;
    std::string const filler = "abc :}0%\n\\\xc3\xa9";
    for (std::size_t k = 0; k < pieces; ++k)
    {
        switch (c.s.below(4))
        {
        case 0: { std::string const s = c.s.from(filler, c.s.len(6)); t += s; want += s; break; }
        case 1: t += "{{"; want += "{{"; break;
        default:
            {
                if (automatic && next == 5) break;
                std::size_t const id = automatic ? next++ : c.s.below(5); std::string const spec = c.s.chance(2, 3) ? "" : id == 0 ? c.s.pick({ ":>12", ":x", ":+d", ":08" }) : id == 1 ? c.s.pick({ ":*^10", ":s", ":.2", ":-<5" }) : id == 2 ? c.s.pick({ ":.3f", ":>9.1f", ":e" }) : id == 3 ? c.s.pick({ ":c", ":_>3", ":d" }) : c.s.pick({ ":#x", ":03", ":b" });
                std::string width; std::size_t w = 0; if (!automatic && spec.empty() && c.s.chance(1, 4)) { width = ":{4}"; w = a4; nested = true; }
                for (auto const& s : spans) if (s.arg == id) twice = true;
                t += "{" + (automatic ? "" : std::to_string(id)) + spec + width + "}";
                std::string const f = "{" + spec + (width.empty() ? "" : ":" + std::to_string(w)) + "}"; std::string s;
                std::string const ff = width.empty() || w != 0 ? f : "{}";
                switch (id) { case 0: s = std::vformat(ff, std::make_format_args(a0)); break; case 1: s = std::vformat(ff, std::make_format_args(a1)); break; case 2: s = std::vformat(ff, std::make_format_args(a2)); break; case 3: s = std::vformat(ff, std::make_format_args(a3)); break; default: s = std::vformat(ff, std::make_format_args(a4)); }
                spans.push_back({ id, static_cast<std::ptrdiff_t>(want.size()), static_cast<std::ptrdiff_t>(want.size() + s.size()) }); want += s;
            }
        }
        if (t.ends_with('{') && !t.ends_with("{{")) {}
    }
    c.note(show(t), " with ", a0, " ", show(a1), " ", a2, " ", a3, " ", a4);
    auto const r = neolib::format(t, a0, a1, a2, a3, a4);
    REQUIRE(static_cast<std::string const&>(r) == want, "format gave ", show(static_cast<std::string const&>(r)), " instead of ", show(want));
    REQUIRE(r.args == spans, "the argument spans are wrong");
    for (std::size_t id = 0; id < 6; ++id)
    {
        auto const i = std::find_if(spans.begin(), spans.end(), [&](auto const& s) { return s.arg == id; });
        REQUIRE(r.has_arg(id) == (i != spans.end()) && r.find_arg(id) - r.args.begin() == i - spans.begin(), "has_arg/find_arg ", id);
        bool threw = false; std::string_view v; try { v = r.arg_span(id); } catch (std::format_error const&) { threw = true; }
        REQUIRE(threw == (i == spans.end()) && (threw || v == want.substr(static_cast<std::size_t>(i->begin), static_cast<std::size_t>(i->end - i->begin))), "arg_span ", id);
    }
    for (std::ptrdiff_t p = 0; p <= static_cast<std::ptrdiff_t>(want.size()); ++p)
    {
        auto const in = std::find_if(spans.begin(), spans.end(), [&](auto const& s) { return s.begin <= p && p < s.end; }), after = std::find_if(spans.begin(), spans.end(), [&](auto const& s) { return s.begin > p; });
        REQUIRE(r.arg_spanning(p) - r.args.begin() == in - spans.begin(), "arg_spanning ", p); REQUIRE(r.arg_after(p) - r.args.begin() == after - spans.begin(), "arg_after ", p, " gave ", r.arg_after(p) - r.args.begin(), " not ", after - spans.begin());
    }
    if (nested) c.label("nested placeholder"); if (twice) c.label("argument used twice"); c.label(automatic ? "automatic" : "numbered"); c.nontrivial(spans.size() >= 2);
}
// any template: what std::vformat refuses is refused, and nothing is read outside the template
PBT_SUITE("templates", 60000, 2000000)
{
    std::string const t = c.s.from("{}{}012:ab", c.s.len(14)); c.note(show(t)); int const a = 42; std::string const b = "xy"; std::unique_ptr<char[]> exact(new char[t.size() + 1]); std::copy(t.begin(), t.end(), exact.get()); std::string_view const v{ exact.get(), t.size() };
    bool refused = false; neolib::format_result r; try { r = neolib::format(v, a, b); } catch (std::exception const&) { refused = true; }
    if (!refused) for (auto const& s : r.args) { REQUIRE(s.begin >= 0 && s.begin <= s.end && s.end <= static_cast<std::ptrdiff_t>(r.size()), "a span lies outside the result"); REQUIRE(s.arg < 2, "an argument that was not given was formatted"); }
    std::size_t open = 0; bool plain = true; for (std::size_t i = 0; i < t.size(); ++i) if (t[i] == '{') { if (i + 1 < t.size() && t[i + 1] == '{') ++i; else { plain = false; ++open; } }
    if (plain) REQUIRE(!refused && static_cast<std::string const&>(r) == t, "a template without placeholders came out as ", show(static_cast<std::string const&>(r)));
    if (!t.empty() && t.back() == '{') { std::size_t n = 0; while (n < t.size() && t[t.size() - 1 - n] == '{') ++n; if (n == t.size() && n % 2 == 1) REQUIRE(refused, "an unclosed placeholder was accepted"); }
    c.label(refused ? "refused" : "accepted"); c.nontrivial(!plain);
}
PBT_SUITE("escapes", 200000, 6000000)
{
    std::string const s = c.s.coin() ? c.s.bytes(c.s.len(16)) : c.s.from(std::string("\n\r\t\x01\x7f\xff\0\\xnrtafBF09\"'%g"s), c.s.len(14)); c.note(show(s));
    std::size_t const max = c.s.coin() ? 0 : c.s.below(10); bool const dots = c.s.coin();
    REQUIRE(neolib::to_escaped_string(s, max, dots) == model_escape(s, max, dots), "to_escaped_string gave ", show(neolib::to_escaped_string(s, max, dots)), " instead of ", show(model_escape(s, max, dots)));
    if (!dots) { REQUIRE(neolib::to_escaped_string(s, max) == model_escape(s, max, false), "to_escaped_string with a limit only gave ", show(neolib::to_escaped_string(s, max))); if (max == 0) REQUIRE(neolib::to_escaped_string(s) == model_escape(s, 0, false), "to_escaped_string alone"); }
    REQUIRE(neolib::unescape(s) == model_unescape(s), "unescape gave ", show(neolib::unescape(s)), " instead of ", show(model_unescape(s))); REQUIRE(neolib::unescape(std::string_view{ s }) == model_unescape(s), "unescape of a view");
    // the round trip holds where an escape cannot run into what follows it
    bool safe = s.find('\\') == std::string::npos; for (std::size_t i = 0; i + 1 < s.size(); ++i) { unsigned char const ch = static_cast<unsigned char>(s[i]); if ((ch < 0x20 || ch >= 0x80) && ch != '\n' && ch != '\r' && ch != '\t' && std::isxdigit(static_cast<unsigned char>(s[i + 1]))) safe = false; }
    if (safe) { REQUIRE(neolib::unescape(neolib::to_escaped_string(s)) == s, "escaping and unescaping changed the text"); c.label("round trip"); }
    REQUIRE(neolib::parse_url_escapes(s) == model_url(s), "parse_url_escapes gave ", show(neolib::parse_url_escapes(s)), " instead of ", show(model_url(s)));
    std::string u; for (unsigned char ch : s) { char b[8]; std::snprintf(b, sizeof b, c.s.coin() ? "%%%02x" : "%%%02X", ch); if (std::isalnum(ch) && c.s.coin()) u += static_cast<char>(ch); else u += b; }
    REQUIRE(neolib::parse_url_escapes(u) == s, "URL escapes read back as ", show(neolib::parse_url_escapes(u)));
    std::string const m = c.s.from("%%04Gf aA+-x", c.s.len(12)); REQUIRE(neolib::parse_url_escapes(m) == model_url(m), "parse_url_escapes of ", show(m), " gave ", show(neolib::parse_url_escapes(m)), " instead of ", show(model_url(m)));
    c.nontrivial(s.size() >= 2);
}
