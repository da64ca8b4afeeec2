// T01: Unicode conversions against an independent encoder and decoder; malformed input in exactly sized blocks under ASan.
#include "pbt.hpp"
#include <neolib/neolib.hpp>
#include <neolib/core/string_utf.hpp>
#include <memory>

using namespace pbt;
namespace
{
    using U32 = std::u32string; using U16 = std::u16string;
    // reference encoders; lone surrogates get the obvious generalised form
    std::string enc8(char32_t c)
    {
        std::string r; auto p = [&](unsigned v) { r += static_cast<char>(v); };
        if (c < 0x80) p(c); else if (c < 0x800) { p(0xC0 + c / 64); p(0x80 + c % 64); } else if (c < 0x10000) { p(0xE0 + c / 4096); p(0x80 + c / 64 % 64); p(0x80 + c % 64); } else { p(0xF0 + c / 262144); p(0x80 + c / 4096 % 64); p(0x80 + c / 64 % 64); p(0x80 + c % 64); }
        return r;
    }
    U16 enc16(char32_t c) { if (c < 0x10000) return U16(1, static_cast<char16_t>(c)); c -= 0x10000; return U16{ static_cast<char16_t>(0xD800 + c / 1024), static_cast<char16_t>(0xDC00 + c % 1024) }; }
    struct Piece { std::size_t at, len; char32_t c; bool good; };
    // well-formed sequences decode, every other byte stands for itself as U+FFFD
    std::vector<Piece> dec8(std::string const& s)
    {
        std::vector<Piece> r;
        for (std::size_t i = 0; i < s.size();)
        {
            auto b = [&](std::size_t k) { return static_cast<unsigned char>(s[i + k]); };
            std::size_t const n = b(0) < 0x80 ? 1 : b(0) >= 0xC2 && b(0) <= 0xDF ? 2 : b(0) >= 0xE0 && b(0) <= 0xEF ? 3 : b(0) >= 0xF0 && b(0) <= 0xF4 ? 4 : 0;
            bool ok = n != 0 && i + n <= s.size(); for (std::size_t k = 1; ok && k < n; ++k) ok = b(k) >= 0x80 && b(k) < 0xC0;
            char32_t c = 0;
            if (ok) { c = n == 1 ? b(0) : n == 2 ? b(0) - 0xC0 : n == 3 ? b(0) - 0xE0 : b(0) - 0xF0; for (std::size_t k = 1; k < n; ++k) c = c * 64 + (b(k) - 0x80); char32_t const low[] = { 0, 0, 0x80, 0x800, 0x10000 }; ok = c >= low[n] && c <= 0x10FFFF; }
            if (ok) { r.push_back({ i, n, c, true }); i += n; } else { r.push_back({ i, 1, 0xFFFD, false }); ++i; }
        }
        return r;
    }
    bool surrogate(char32_t c) { return c >= 0xD800 && c <= 0xDFFF; }
    char32_t scalar(Case& c)
    {
        static char32_t const edge[] = { 0, 1, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0xFFFFF, 0x100000, 0x3FFFF, 0x40000, 0xFEFF };
        switch (c.s.below(6)) { case 0: return edge[c.s.below(std::size(edge))]; case 1: return static_cast<char32_t>(c.s.below(0x80)); case 2: return static_cast<char32_t>(0x80 + c.s.below(0x780)); case 3: { auto v = static_cast<char32_t>(0x800 + c.s.below(0xF800)); return surrogate(v) ? v - 0x1000 : v; } default: return static_cast<char32_t>(0x10000 + c.s.below(0x100000)); }
    }
    std::string show(std::string const& s) { std::ostringstream o; for (unsigned char ch : s) o << std::hex << static_cast<unsigned>(ch) << ' '; return o.str(); }
    // the bytes in a block of their own, so that ASan sees any read past either end
    struct Block { std::unique_ptr<char[]> p; std::size_t n; explicit Block(std::string const& s) : p{ new char[s.size()] }, n{ s.size() } { std::copy(s.begin(), s.end(), p.get()); } std::string_view view() const { return { p.get(), n }; } };
    // results of decoding `bytes` compared with the pieces
    void decodes(std::string const& bytes, std::vector<Piece> const& ps)
    {
        U32 w32; U16 w16; std::vector<std::pair<std::size_t, std::size_t>> m32, m16, g32, g16; bool good = true, lone = false;
        for (auto const& p : ps) { m32.push_back({ p.at, w32.size() }); m16.push_back({ p.at, w16.size() }); w32 += p.c; w16 += enc16(p.c); good = good && p.good; lone = lone || (p.good && surrogate(p.c)); }
        Block b{ bytes }; auto const v = b.view(); bool const fallbacks[] = { false };
        REQUIRE(neolib::utf8_to_utf32(v) == w32, "utf8_to_utf32 of a view of ", show(bytes)); REQUIRE(neolib::utf8_to_utf32(bytes) == w32, "utf8_to_utf32 of ", show(bytes)); REQUIRE(neolib::utf8_to_utf32(bytes.begin(), bytes.end()) == w32, "utf8_to_utf32 of iterators over ", show(bytes));
        REQUIRE(neolib::utf8_to_utf16(bytes) == w16, "utf8_to_utf16 of ", show(bytes));
        REQUIRE(neolib::utf8_to_utf32(v, [&](std::size_t f, std::size_t t) { g32.push_back({ f, t }); }, fallbacks[0]) == w32 && g32 == m32, "positions reported by utf8_to_utf32 of ", show(bytes));
        REQUIRE(neolib::utf8_to_utf16(bytes, [&](std::size_t f, std::size_t t) { g16.push_back({ f, t }); }) == w16 && g16 == m16, "positions reported by utf8_to_utf16 of ", show(bytes));
        REQUIRE(neolib::any_to_utf16(bytes) == w16 && neolib::utf8_to_any<U16>(bytes) == w16 && neolib::any_to_utf8(bytes) == bytes, "any conversions of ", show(bytes));
        { auto r = neolib::any_to_utf16(v.data(), v.size()); REQUIRE(U16(r.data(), r.length()) == w16, "any_to_utf16 of characters ", show(bytes)); }
        if (!lone)
        {
            REQUIRE(neolib::check_utf8(v) == good && neolib::check_utf8(bytes) == good, "check_utf8 gave ", !good, " for ", show(bytes));
            neolib::string const ns{ bytes }; neolib::i_string const& is = ns; neolib::string_view const nv{ v }; neolib::i_string_view const& iv = nv;
            REQUIRE(neolib::check_utf8(is) == good && neolib::check_utf8(iv) == good, "check_utf8 of an interface string gave ", !good, " for ", show(bytes));
        }
        // with the code page fallback the well-formed parts still decode to themselves
        U32 const f32 = neolib::utf8_to_utf32(v, true); REQUIRE(f32.size() == ps.size(), "the fallback changed the length for ", show(bytes)); for (std::size_t i = 0; i < ps.size(); ++i) REQUIRE(!ps[i].good || f32[i] == ps[i].c, "the fallback changed a well-formed character of ", show(bytes));
        if (good) REQUIRE(neolib::utf8_to_utf16(bytes, true) == w16, "the fallback changed the UTF-16 of ", show(bytes));
    }
}
#if PBT_PART == 0
PBT_SUITE("wellformed", 60000, 1500000)
{
    U32 cs; for (std::size_t n = c.s.len(30); n--; ) cs += scalar(c);
    std::string u8; U16 u16; std::vector<Piece> ps; for (char32_t x : cs) { auto e = enc8(x); ps.push_back({ u8.size(), e.size(), x, true }); u8 += e; u16 += enc16(x); }
    c.note(show(u8)); decodes(u8, ps);
    REQUIRE(neolib::utf32_to_utf8(cs) == u8, "utf32_to_utf8 is not the standard encoding of ", show(u8)); REQUIRE(neolib::utf16_to_utf8(u16) == u8 && neolib::any_to_utf8(u16) == u8 && neolib::utf16_to_any<std::string>(u16) == u8 && neolib::utf16_to_any<U16>(u16) == u16, "utf16_to_utf8 is not the standard encoding of ", show(u8));
    neolib::utf16_to_utf8_character_map map, want; { std::size_t b = 0, w = 0; for (char32_t x : cs) { auto const n = enc8(x).size(), m = enc16(x).size(); for (std::size_t k = 0; k < n; ++k) want[b + k] = w; if (m == 2) want[b + n - 1] = w + 1; b += n; w += m; } }
    REQUIRE(neolib::utf16_to_utf8(u16, map) == u8 && map == want, "the character map of ", show(u8), " is wrong");
    bool low = false, mid = false, high = false; for (char32_t x : cs) { std::string s = "#"; REQUIRE(neolib::append_utf8(s, x) == enc8(x).size() && s == "#" + enc8(x), "append_utf8 of ", static_cast<unsigned>(x)); (x < 0x80 ? low : x < 0x10000 ? mid : high) = true; auto e = enc8(x); for (std::size_t k = 0; k < e.size(); ++k) REQUIRE(neolib::is_utf8_trailing(e[k]) == (k != 0), "is_utf8_trailing"); }
    for (std::size_t i = 0; i + 1 < u16.size(); ++i) { bool const h = u16[i] >= 0xD800 && u16[i] < 0xDC00, l = u16[i + 1] >= 0xDC00 && u16[i + 1] < 0xE000; REQUIRE(neolib::utf16::is_high_surrogate(u16[i]) == h && neolib::utf16::is_low_surrogate(u16[i + 1]) == l && neolib::utf16::is_surrogate_pair(u16[i], u16[i + 1]) == (h && l), "surrogate classification"); }
    c.nontrivial(low && mid && high);
}
// any bytes: random, or a well-formed text cut, spliced, overlong, out of range or with bytes changed
PBT_SUITE("bytes", 150000, 4000000)
{
    std::string b; std::size_t const parts = c.s.len(12);
    for (std::size_t k = 0; k < parts; ++k) switch (c.s.below(7))
    {
    case 0: b += enc8(scalar(c)); break;
    case 1: b += static_cast<char>(c.s.below(256)); break;
    case 2: { auto e = enc8(scalar(c)); b += e.substr(0, c.s.below(e.size() + 1)); break; }                 // truncated
    case 3: { auto v = static_cast<unsigned>(c.s.below(0x10000)); b += static_cast<char>(0xF0 + c.s.below(8)); b += static_cast<char>(0x80 + (v >> 12)); b += static_cast<char>(0x80 + (v >> 6) % 64); b += static_cast<char>(0x80 + v % 64); break; } // overlong or beyond the range
    case 4: { auto v = static_cast<unsigned>(c.s.below(0x800)); b += static_cast<char>(0xE0); b += static_cast<char>(0x80 + (v >> 6)); b += static_cast<char>(0x80 + v % 64); break; } // overlong
    case 5: { static unsigned char const lead[] = { 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xEF, 0xED, 0xF0, 0xF4, 0xF5, 0xF7, 0xF8, 0xFE, 0xFF, 0x80, 0xBF }; b += static_cast<char>(lead[c.s.below(16)]); break; }
    default: b += static_cast<char>(0x80 + c.s.below(0x40)); break;
    }
    c.note(show(b)); auto const ps = dec8(b); decodes(b, ps); bool good = false, bad = false; for (auto const& p : ps) (p.good ? good : bad) = true;
    c.nontrivial(good && bad);
}
// any UTF-16 units: pairs combine, every other unit stands for itself
PBT_SUITE("units", 60000, 1500000)
{
    U16 u; for (std::size_t n = c.s.len(20); n--; ) switch (c.s.below(4)) { case 0: u += enc16(scalar(c)); break; case 1: u += static_cast<char16_t>(0xD800 + c.s.below(0x800)); break; case 2: u += static_cast<char16_t>(c.s.below(0x10000)); break; default: u += enc16(static_cast<char32_t>(0x10000 + c.s.below(0x100000))); }
    std::string want; bool lone = false, pair = false; U32 w32;
    for (std::size_t i = 0; i < u.size(); ++i) { char32_t x = u[i]; if (x >= 0xD800 && x < 0xDC00 && i + 1 < u.size() && u[i + 1] >= 0xDC00 && u[i + 1] < 0xE000) { x = 0x10000 + (x - 0xD800) * 1024 + (u[i + 1] - 0xDC00); ++i; pair = true; } else lone = lone || surrogate(x); want += enc8(x); w32 += x; }
    { std::ostringstream o; for (auto x : u) o << std::hex << static_cast<unsigned>(x) << ' '; c.note(o.str()); }
    neolib::utf16_to_utf8_character_map map; REQUIRE(neolib::utf16_to_utf8(u) == want, "utf16_to_utf8 gave ", show(neolib::utf16_to_utf8(u)), " for what is ", show(want)); REQUIRE(neolib::utf16_to_utf8(u, map) == want && map.size() == want.size(), "utf16_to_utf8 with a map"); neolib::utf16_to_utf8<true>(u);
    REQUIRE(neolib::utf8_to_utf16(want) == u && neolib::utf8_to_utf32(want) == w32, "UTF-16 changed on its way through UTF-8");
    for (char32_t x : { static_cast<char32_t>(0x110000 + c.s.below(1000)), static_cast<char32_t>(0xFFFFFFFFu - c.s.below(1000)), static_cast<char32_t>(0x200000 << c.s.below(10)) }) { std::string s; REQUIRE(neolib::append_utf8(s, x) == 1 && s == "?", "append_utf8 of a value beyond Unicode"); }
    c.nontrivial(lone && pair);
}
#endif
