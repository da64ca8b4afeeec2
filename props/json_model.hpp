// A reference model of JSON documents: generation, spelling, parsing and comparison with the library's tree.
#pragma once
#include "pbt.hpp"
#include <neolib/neolib.hpp>
#include <neolib/file/json.hpp>
#include <sstream>
#include <cmath>

namespace jm
{
    using namespace pbt;
    struct V { enum K { Null, Bool, Number, String, Word, Array, Object } k = Null; bool b = false; std::string s; bool wordName = false; std::string name; std::vector<V> c; };
    inline std::string utf8(std::uint32_t u) { std::string r; if (u < 0x80) r += static_cast<char>(u); else if (u < 0x800) { r += static_cast<char>(0xC0 | u >> 6); r += static_cast<char>(0x80 | (u & 63)); } else if (u < 0x10000) { r += static_cast<char>(0xE0 | u >> 12); r += static_cast<char>(0x80 | (u >> 6 & 63)); r += static_cast<char>(0x80 | (u & 63)); } else { r += static_cast<char>(0xF0 | u >> 18); r += static_cast<char>(0x80 | (u >> 12 & 63)); r += static_cast<char>(0x80 | (u >> 6 & 63)); r += static_cast<char>(0x80 | (u & 63)); } return r; }
    inline std::string ws(Case& c) { return c.s.chance(2, 3) ? "" : c.s.from(" \t\r\n", 1 + c.s.below(2)); }
    // a string: its text and one of its spellings
    inline std::pair<std::string, std::string> text(Case& c, bool name = false)
    {
        std::string v, t; std::size_t const n = c.s.len(name ? 5 : 10);
        for (std::size_t i = 0; i < n; ++i)
        {
            std::uint32_t u; switch (c.s.below(7)) { case 0: u = c.s.pick({ '"', '\\', '/', '\b', '\f', '\n', '\r', '\t' }); break; case 1: u = static_cast<std::uint32_t>(c.s.below(0x20)); break; case 2: u = static_cast<std::uint32_t>(c.s.range(0x7F, 0x7FF)); break; case 3: u = static_cast<std::uint32_t>(c.s.range(0x800, 0xFFFF)); break; case 4: u = static_cast<std::uint32_t>(c.s.range(0x10000, 0x10FFFF)); break; default: u = static_cast<std::uint32_t>(c.s.pick({ 'a', 'b', '0', ' ', ',', ':', '{', ']', '*', '\'' })); }
            if (u >= 0xD800 && u < 0xE000) u = 0xFFFD;
            v += utf8(u); char b[16]; auto hex = [&](unsigned x) { std::snprintf(b, sizeof b, c.s.coin() ? "\\u%04x" : "\\u%04X", x); t += b; };
            std::size_t const special = std::string("\"\\/\b\f\n\r\t").find(static_cast<char>(u)); bool const must = u < 0x20 || u == '"' || u == '\\';
            if (u < 0x80 && special != std::string::npos && u != 0 && (must ? c.s.chance(2, 3) : c.s.coin())) { t += '\\'; t += "\"\\/bfnrt"[special]; }
            else if (must || c.s.chance(1, 4)) { if (u < 0x10000) hex(u); else { hex(0xD800 + ((u - 0x10000) >> 10)); hex(0xDC00 + ((u - 0x10000) & 0x3FF)); } }
            else t += utf8(u);
        }
        return { v, t };
    }
    inline std::string number(Case& c)
    {
        switch (c.s.below(5))
        {
        case 0: return std::to_string(c.s.range(-100, 100));
        case 1: { auto const e = c.s.edgy(); return c.s.coin() ? std::to_string(e) : std::to_string(static_cast<std::int64_t>(e)); }
        case 2: return std::string(c.s.coin() ? "-" : "") + c.s.from("123456789", 1) + c.s.from("0123456789", 18 + c.s.below(8));
        case 3: { std::string t = std::to_string(c.s.range(-1000, 1000)); if (c.s.coin()) t += "." + c.s.from("0123456789", 1 + c.s.below(8)); if (c.s.coin() || t.find('.') == std::string::npos) t += std::string(c.s.coin() ? "e" : "E") + c.s.pick({ "", "+", "-" }) + std::to_string(c.s.below(40)); return t; }
        default: { char b[40]; std::snprintf(b, sizeof b, "%.17g", std::ldexp(1.0 + static_cast<double>(c.s.below(1u << 20)) / (1u << 20), static_cast<int>(c.s.range(-40, 40)))); return b; }
        }
    }
    inline V generate(Case& c, std::string& t, int depth, bool words)
    {
        V v; switch (c.s.below(depth > 0 ? 9 : 5))
        {
        case 0: v.k = V::Null; t += "null"; break;
        case 1: v.k = V::Bool; v.b = c.s.coin(); t += v.b ? "true" : "false"; break;
        case 2: v.k = V::Number; v.s = number(c); t += v.s; break;
        case 3: { v.k = V::String; auto const x = text(c); v.s = x.first; t += '"' + x.second + '"'; break; }
        case 4: if (words) { v.k = V::Word; v.s = c.s.pick({ "abc", "nullx", "tru", "E", "f00.b", "_", "falsey" }); t += v.s; } else { v.k = V::Null; t += "null"; } break;
        case 5: case 6:
            { v.k = V::Array; t += '[' + ws(c); std::size_t const n = c.s.len(5); for (std::size_t i = 0; i < n; ++i) { if (i != 0) t += ',' + ws(c); v.c.push_back(generate(c, t, depth - 1, words)); t += ws(c); } t += ']'; break; }
        default:
            { v.k = V::Object; t += '{' + ws(c); std::size_t const n = c.s.len(5); for (std::size_t i = 0; i < n; ++i) { if (i != 0) t += ',' + ws(c); std::string name; bool word = false; if (words && c.s.chance(1, 5)) { word = true; name = c.s.pick({ "a", "bc", "n.x", "Z9" }); t += name; } else { auto const x = c.s.chance(1, 8) ? std::pair<std::string, std::string>("a", "a") : text(c, true); name = x.first; t += '"' + x.second + '"'; } t += ws(c) + ':' + ws(c); v.c.push_back(generate(c, t, depth - 1, words)); v.c.back().name = name; v.c.back().wordName = word; t += ws(c); } t += '}'; break; }
        }
        return v;
    }
    // what a reader of documents makes of a text: RFC 8259, leading zeros and, unless forbidden, bare words
    struct Parser
    {
        std::string const& t; bool words; std::size_t i = 0; bool surrogates = false; bool unsureNumber = false; std::size_t depth = 0;
        bool at(char ch) const { return i < t.size() && t[i] == ch; }
        void space() { while (i < t.size() && (t[i] == ' ' || t[i] == '\t' || t[i] == '\n' || t[i] == '\r')) ++i; }
        static bool letter(char ch) { unsigned char const u = static_cast<unsigned char>(ch); return u >= 0x80 || std::isalpha(u) || u == '_' || u == '$' || u == '@'; }
        static bool digit(char ch) { return ch >= '0' && ch <= '9'; }
        bool ends() const { return i == t.size() || std::string(" \t\r\n,]}").find(t[i]) != std::string::npos; }
        bool string(std::string& out)
        {
            ++i; std::uint32_t high = 0;
            for (;;)
            {
                if (i == t.size() || static_cast<unsigned char>(t[i]) < 0x20) return false;
                char const ch = t[i++];
                if (ch == '"') { if (high) surrogates = true; return true; }
                if (ch != '\\') { if (high) { surrogates = true; high = 0; } out += ch; continue; }
                if (i == t.size()) return false;
                std::size_t const e = std::string("\"\\/bfnrt").find(t[i]);
                if (t[i] != '\0' && e != std::string::npos) { if (high) { surrogates = true; high = 0; } out += "\"\\/\b\f\n\r\t"[e]; ++i; continue; }
                if (t[i++] != 'u' || i + 4 > t.size()) return false;
                std::uint32_t u = 0; for (int k = 0; k < 4; ++k) { if (!std::isxdigit(static_cast<unsigned char>(t[i]))) return false; u = u * 16 + static_cast<std::uint32_t>(digit(t[i]) ? t[i] - '0' : (t[i] | 32) - 'a' + 10); ++i; }
                if (u >= 0xD800 && u < 0xDC00) { if (high) surrogates = true; high = u; continue; }
                if (u >= 0xDC00 && u < 0xE000) { if (!high) surrogates = true; else out += utf8(0x10000 + ((high - 0xD800) << 10) + (u - 0xDC00)); high = 0; continue; }
                if (high) { surrogates = true; high = 0; } out += utf8(u);
            }
        }
        bool word(std::string& out) { if (i == t.size() || !letter(t[i])) return false; while (i < t.size() && (letter(t[i]) || digit(t[i]) || t[i] == '.')) out += t[i++]; return true; }
        bool value(V& v)
        {
            space(); if (i == t.size()) return false;
            if (at('{'))
            {
                v.k = V::Object; ++i; space(); if (at('}')) { ++i; return true; }
                for (;;)
                {
                    space(); V m; if (at('"')) { if (!string(m.name)) return false; } else { if (!words || !word(m.name) || m.name == "true" || m.name == "false" || m.name == "null") return false; m.wordName = true; }
                    space(); if (!at(':')) return false; ++i; if (!value(m)) return false; v.c.push_back(std::move(m)); space(); if (at('}')) { ++i; return true; } if (!at(',')) return false; ++i;
                }
            }
            if (at('['))
            {
                v.k = V::Array; ++i; space(); if (at(']')) { ++i; return true; }
                for (;;) { V m; if (!value(m)) return false; v.c.push_back(std::move(m)); space(); if (at(']')) { ++i; return true; } if (!at(',')) return false; ++i; }
            }
            if (at('"')) { v.k = V::String; return string(v.s) && ends(); }
            if (at('-') || digit(t[i]))
            {
                v.k = V::Number; std::size_t const b = i; if (at('-')) ++i; auto digits = [&] { std::size_t const s = i; while (i < t.size() && digit(t[i])) ++i; return i != s; };
                if (!digits()) return false; if (at('.')) { ++i; if (!digits()) return false; } if (at('e') || at('E')) { ++i; if (at('+') || at('-')) ++i; if (!digits()) return false; }
                v.s = t.substr(b, i - b); return ends();
            }
            if (!word(v.s) || !ends()) return false;
            if (v.s == "null") v.k = V::Null; else if (v.s == "true" || v.s == "false") { v.k = V::Bool; v.b = v.s == "true"; } else { v.k = V::Word; return words; }
            return true;
        }
        bool document(V& v) { if (t.substr(0, 3) == "\xEF\xBB\xBF") i = 3; if (!value(v)) return false; space(); return i == t.size(); }
    };
    inline double value_of(std::string const& s) { return std::strtod(s.c_str(), nullptr); }
    inline bool sure(std::string const& s) { auto const e = s.find_first_of("eE"); if (e != std::string::npos && s.size() - e > 6) return false; return (s.find_first_of(".eE") == std::string::npos && s[s[0] == '-'] != '0') || std::count_if(s.begin(), s.end(), Parser::digit) <= 19; }
    inline bool close(double a, double b) { if (a == b) return true; double const u = std::max(std::nextafter(std::fabs(b), INFINITY) - std::fabs(b), 5e-324); return std::fabs(a - b) <= 4 * u; }
    template <class J>
    void compare(typename J::json_value const& n, V const& v, bool exactTypes = true)
    {
        using neolib::json_type; auto const& variant = *n;
        switch (v.k)
        {
        case V::Null: REQUIRE(n.type() == json_type::Null, "a null was read as ", to_string(n.type())); break;
        case V::Bool: REQUIRE(n.type() == json_type::Bool && std::get<bool>(variant) == v.b, "a boolean was read as something else"); break;
        case V::String: REQUIRE(n.type() == json_type::String, "a string was read as ", to_string(n.type())); REQUIRE(n.text().to_std_string() == v.s, "the string ", show(v.s), " was read as ", show(n.text().to_std_string())); break;
        case V::Word: REQUIRE(n.type() == json_type::Keyword && n.text().to_std_string() == v.s, "the keyword ", v.s, " was read as something else"); break;
        case V::Number:
            {
                bool const integral = v.s.find_first_of(".eE") == std::string::npos; std::string digits = v.s.substr(v.s[0] == '-'); digits.erase(0, std::min(digits.find_first_not_of('0'), digits.size() - 1)); bool const neg = v.s[0] == '-' && digits != "0"; json_type want = json_type::Double;
                if (integral && digits.size() <= 20) { unsigned __int128 m = 0; for (char ch : digits) m = m * 10 + static_cast<unsigned>(ch - '0'); if (neg ? m <= 0x80000000u : m <= 0x7FFFFFFFu) want = json_type::Int; else if (!neg && m <= 0xFFFFFFFFu) want = json_type::Uint; else if (neg ? m <= (static_cast<unsigned __int128>(1) << 63) : m <= 0x7FFFFFFFFFFFFFFFull) want = json_type::Int64; else if (!neg && m <= ~0ull) want = json_type::Uint64; }
                if (want == json_type::Uint && v.s[0] == '-') want = json_type::Int;
                std::string const exact = (neg ? "-" : "") + digits;
                if (exactTypes) REQUIRE(n.type() == want, "the number ", v.s, " was read as ", to_string(n.type()), " not ", to_string(want));
                switch (n.type())
                {
                case json_type::Int: REQUIRE(!integral || std::to_string(std::get<std::int32_t>(variant)) == exact, "the number ", v.s, " has another value"); break;
                case json_type::Uint: REQUIRE(!integral || std::to_string(std::get<std::uint32_t>(variant)) == exact, "the number ", v.s, " has another value"); break;
                case json_type::Int64: REQUIRE(!integral || std::to_string(std::get<std::int64_t>(variant)) == exact, "the number ", v.s, " has another value"); break;
                case json_type::Uint64: REQUIRE(!integral || std::to_string(std::get<std::uint64_t>(variant)) == exact, "the number ", v.s, " has another value"); break;
                case json_type::Double: REQUIRE(!sure(v.s) || std::isinf(value_of(v.s)) || close(std::get<double>(variant), value_of(v.s)), "the number ", v.s, " was read as ", std::get<double>(variant)); break;
                default: FAIL("the number ", v.s, " was read as ", to_string(n.type()));
                }
                double const d = n.template as<double>(), ref = value_of(v.s); REQUIRE(!sure(v.s) || std::isinf(ref) || std::fabs(d - ref) <= 1e-12 * std::fabs(ref) + 1e-300, "as<double>() of ", v.s, " is ", d);
                break;
            }
        default:
            {
                REQUIRE(n.type() == (v.k == V::Array ? json_type::Array : json_type::Object), "a composite was read as ", to_string(n.type())); REQUIRE(n.size() == v.c.size() && n.empty() == v.c.empty() && n.has_children() == !v.c.empty() && n.is_empty_composite() == v.c.empty(), "a composite of ", v.c.size(), " has ", n.size());
                std::size_t i = 0; typename J::json_value const* last = nullptr;
                for (auto const& ch : n)
                {
                    V const& m = v.c[i++]; REQUIRE(&ch.parent() == &n && !ch.is_root(), "a child's parent is another value"); REQUIRE(ch.is_last_sibling() == (i == v.c.size()), "is_last_sibling is wrong");
                    if (v.k == V::Object) { REQUIRE(ch.has_name() && ch.name().to_std_string() == m.name, "the name ", show(m.name), " was read as ", ch.has_name() ? show(ch.name().to_std_string()) : "none"); REQUIRE(ch.name_is_keyword() == m.wordName, "name_is_keyword of ", m.name); } else REQUIRE(!ch.has_name(), "an array element has a name");
                    compare<J>(ch, m, exactTypes); last = &ch;
                }
                REQUIRE(n.last_child() == last, "last_child is another value");
            }
        }
    }
    // lookups by name and index
    template <class J>
    void lookups(typename J::json_value& n, V const& v)
    {
        if (v.k == V::Array)
        {
            auto& a = n.template as<typename J::json_array>(); auto const& ca = a; std::size_t i = 0; for (auto& ch : n) { REQUIRE(&a[i] == &ch && &ca[i] == &ch && *(ca.begin() + static_cast<std::ptrdiff_t>(i)) == &ch, "element ", i, " of an array is another value"); ++i; }
            REQUIRE(static_cast<std::size_t>(a.end() - a.begin()) == v.c.size(), "an array's extent"); bool threw = false; try { (void)ca[v.c.size()]; } catch (std::out_of_range const&) { threw = true; } REQUIRE(threw, "an index past the end found something");
            if (!v.c.empty()) REQUIRE(&a.back() == n.last_child(), "back() is another value");
        }
        if (v.k == V::Object)
        {
            auto& o = n.template as<typename J::json_object>(); auto const& co = o;
            for (auto& ch : n) { auto const& name = ch.name(); REQUIRE(o.has(name), "has() does not find ", show(name.to_std_string())); auto const count = std::count_if(v.c.begin(), v.c.end(), [&](V const& m) { return m.name == name.to_std_string(); }); auto& found = o.at(name); REQUIRE(found.name().to_std_string() == name.to_std_string() && (count > 1 || (&found == &ch && &co.at(name) == &ch && &o[name] == &ch)), "at() finds another value for ", show(name.to_std_string())); }
            REQUIRE(n.size() == v.c.size(), "looking names up changed the object"); typename J::json_string const none{ std::string{ "no such name" } }; bool threw = false; try { (void)co.at(none); } catch (std::out_of_range const&) { threw = true; } REQUIRE(threw && !o.has(none), "a missing name was found");
            REQUIRE(co.template at_or<int>(none, 77) == 77, "at_or of a missing name");
        }
        std::size_t i = 0; for (auto& ch : n) lookups<J>(ch, v.c[i++]);
    }
    template <class J>
    void order(J const& j, V const& root)
    {
        std::vector<typename J::json_value const*> pre; auto walk = [&](auto const& self, typename J::json_value const& n) -> void { pre.push_back(&n); for (auto const& ch : n) self(self, ch); }; walk(walk, j.root());
        std::size_t i = 0; for (auto it = j.cbegin(); it != j.cend(); ++it) { REQUIRE(i < pre.size() && &it.value() == pre[i], "document iteration visits another value at ", i); ++i; } REQUIRE(i == pre.size(), "document iteration stops after ", i, " of ", pre.size());
        auto mutableBegin = const_cast<J&>(j).begin(); REQUIRE(&mutableBegin.value() == pre[0], "mutable iteration starts elsewhere"); (void)root;
    }
    // an input that cannot seek
    struct Pipe : std::streambuf { std::string s; std::size_t i = 0; std::size_t chunk; char b[64]; Pipe(std::string t, std::size_t n) : s(std::move(t)), chunk(n) {} int_type underflow() override { if (i == s.size()) return traits_type::eof(); std::size_t const n = std::min({ chunk, s.size() - i, sizeof b }); std::copy_n(s.data() + i, n, b); i += n; setg(b, b, b + n); return traits_type::to_int_type(b[0]); } };
    template <class J> bool read(J& j, std::string const& t, bool validate = false, std::size_t pipe = 0) { if (pipe == 0) { std::istringstream i{ t }; return j.read(i, validate); } Pipe p{ t, pipe }; std::istream i{ &p }; return j.read(i, validate); }
    using nkjson = neolib::basic_json<neolib::json_syntax::StandardNoKeywords>;
}
