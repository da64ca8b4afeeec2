// I01: URIs put together from generated components, or soups of delimiters, split and put together again.
#include "pbt.hpp"
#include <sstream>
#include <neolib/neolib.hpp>
#include <neolib/io/uri.hpp>

using namespace pbt;
using neolib::uri;

namespace
{
    char const* const kUnreserved = "ABZabz019-._~";
    char const* const kSub = "!$&'()*+,;=";
    bool hex(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
    int val(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
    std::string decoded(std::string const& s)
    {
        std::string r;
        for (std::size_t i = 0; i < s.size(); ++i)
            if (s[i] == '%' && i + 2 < s.size() && hex(s[i + 1]) && hex(s[i + 2])) { r += static_cast<char>(val(s[i + 1]) * 16 + val(s[i + 2])); i += 2; }
            else r += s[i];
        return r;
    }
    bool url_char(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || (c && std::strchr("-._~:/?#[]@!$&'()*+,;=%", c)); }
    std::string encoded(std::string const& s)
    {
        std::string r; char b[4];
        for (char c : s) if (url_char(c)) r += c; else { std::snprintf(b, sizeof b, "%%%02x", static_cast<unsigned char>(c)); r += b; }
        return r;
    }
    std::string lower(std::string s) { for (std::size_t i = 0; i < s.size(); ++i) if (s[i] == '%') for (auto k : { i + 1, i + 2 }) if (k < s.size()) s[k] = static_cast<char>(std::tolower(s[k])); return s; }
    std::string escape(Source& s)
    {
        char b[4]; std::snprintf(b, sizeof b, s.coin() ? "%%%02x" : "%%%02X", static_cast<unsigned>(s.chance(1, 3) ? s.pick<int>({ '%', '/', '?', '#', ':', '@', ' ', 0, 255, '4', '[' }) : s.below(256)));
        return b;
    }
    std::string part(Source& s, std::string const& extra, std::size_t max, bool raw)
    {
        std::string r;
        for (auto n = s.len(max); n > 0; --n)
            switch (s.below(raw ? 5 : 4))
            {
            case 0: case 1: r += s.from(std::string(kUnreserved) + kSub, 1); break;
            case 2: r += extra.empty() ? "a" : s.from(extra, 1); break;
            case 3: r += escape(s); break;
            default: r += s.pick<std::string>({ " ", "\xc3\xa9", "\"", "<", "\\", "^", "{", "\n", "\xff" });
            }
        return r;
    }
    struct U { std::string scheme; std::optional<std::string> user, host; std::optional<unsigned> port; std::string path, query, fragment; };
    void check_split(uri const& u, U const& e)
    {
        auto o = [](std::optional<std::string> const& v) { return v ? show(*v) : std::string("none"); };
        REQUIRE(u.scheme() == e.scheme, "scheme ", show(u.scheme()), ", not ", show(e.scheme));
        REQUIRE(u.authority().user_information() == e.user, "user information ", o(u.authority().user_information()), ", not ", o(e.user));
        REQUIRE(u.authority().host().value_or("") == e.host.value_or(""), "host ", o(u.authority().host()), ", not ", o(e.host));
        REQUIRE(u.authority().port().has_value() == e.port.has_value() && (!e.port || *e.port == *u.authority().port()), "port ", u.authority().port() ? *u.authority().port() : -1, ", not ", e.port ? static_cast<int>(*e.port) : -1);
        REQUIRE(u.path() == e.path, "path ", show(u.path()), ", not ", show(e.path));
        REQUIRE(u.query() == e.query, "query ", show(u.query()), ", not ", show(e.query));
        REQUIRE(u.fragment() == e.fragment, "fragment ", show(u.fragment()), ", not ", show(e.fragment));
    }
    void check_rewrite(uri const& u, U const& e)
    {
        auto text = u.to_string();
        for (char c : text) REQUIRE(url_char(c), "written with a character no URI has: ", show(text));
        std::ostringstream os; os << u; REQUIRE(os.str() == text, "to_string and << differ");
        uri back{ text };
        try { check_split(back, e); } catch (pbt::Failure& f) { FAIL("written as ", show(text), " and read back: ", f.msg); }
        REQUIRE(back.to_string() == text, "written again as ", show(back.to_string()), ", not ", show(text));
    }
}

PBT_SUITE("components", 12000, 250000)
{
    auto& s = c.s; U e; std::string text;
    e.scheme = s.from("abzAZ", 1) + s.from("az09+.-", s.len(4)); text = e.scheme + "://";
    if (s.chance(1, 2)) { e.user = part(s, ":", 6, false); text += *e.user + "@"; }
    switch (s.below(4))
    {
    case 0: break;
    case 1: e.host = part(s, ".", 8, false); break;
    case 2: e.host = "127.0.0.1"; break;
    default: e.host = "[" + s.from("0af:.", s.below(8)) + "]";
    }
    text += e.host.value_or("");
    if (s.coin()) { text += ":"; if (s.coin()) { e.port = s.coin() ? s.pick<unsigned>({ 0, 1, 80, 65535, 32768 }) : static_cast<unsigned>(s.below(65536)); text += (s.chance(1, 5) ? "0" : "") + std::to_string(*e.port); } }
    if (s.chance(3, 4)) { auto p = part(s, ":@//", 10, true); text += "/" + p; e.path = decoded(p); if (s.chance(1, 6)) { text += "//x://y"; e.path += "//x://y"; } }
    if (s.chance(1, 2)) { auto q = part(s, ":@/??", 8, true); if (s.chance(1, 6)) q += "u=http://h/?a"; text += "?" + q; e.query = decoded(q); }
    if (s.chance(1, 2)) { auto f = part(s, ":@/?", 8, true); text += "#" + f; e.fragment = decoded(f); }
    c.note(show(text));
    uri u{ text };
    check_split(u, e);
    check_rewrite(u, e);
    uri copy{ u }; uri assigned; assigned = u; check_split(copy, e); check_split(assigned, e);
    c.nontrivial(e.user && e.port && (!e.query.empty() || !e.fragment.empty()));
}

PBT_SUITE("soup", 15000, 300000)
{
    auto& s = c.s;
    std::string rest;
    for (auto n = s.len(16); n > 0; --n) rest += s.pick<std::string>({ "a", "1", ":", "/", "?", "#", "@", "[", "]", "%", "%41", ".", "://", " ", "&" });
    std::string scheme = s.pick<std::string>({ "s", "http", "", "" });
    std::string text = (scheme.empty() ? "" : scheme + "://") + rest;
    c.note(show(text));
    // RFC 3986, appendix B
    U e; std::string r = encoded(text);
    auto sep = r.find_first_of(":/?#");
    if (sep != std::string::npos && r.compare(sep, 3, "://") == 0) { e.scheme = decoded(r.substr(0, sep)); r.erase(0, sep + 3); }
    auto a = r.substr(0, r.find_first_of("/?#")); r.erase(0, a.size());
    if (!r.empty() && r[0] == '/') { auto p = r.substr(0, r.find_first_of("?#")); e.path = decoded(p.substr(1)); r.erase(0, p.size()); }
    if (!r.empty() && r[0] == '?') { auto q = r.substr(0, r.find('#')); e.query = decoded(q.substr(1)); r.erase(0, q.size()); }
    if (!r.empty()) e.fragment = decoded(r.substr(1));
    if (std::count(a.begin(), a.end(), '@') > 1) { c.label("two @"); try { uri u{ text }; } catch (std::logic_error const&) {} return; }
    if (auto at = a.find('@'); at != std::string::npos) { e.user = a.substr(0, at); a.erase(0, at + 1); }
    auto close = a.empty() || a[0] != '[' ? 0 : a.find(']');
    auto colon = close == std::string::npos ? close : a.find(':', close);
    e.host = a.substr(0, colon);
    bool refuse = false;
    if (colon != std::string::npos && colon + 1 < a.size())
    {
        auto p = a.substr(colon + 1);
        if (p.find_first_not_of("0123456789") == std::string::npos && p.size() < 20) { auto v = std::stoull(p); if (v <= 65535) e.port = static_cast<unsigned>(v); else refuse = true; }
        else { c.label("no port"); try { uri u{ text }; } catch (std::logic_error const&) {} return; }
    }
    bool thrown = false;
    try { uri u{ text }; check_split(u, e); if (e.scheme.find('%') == std::string::npos) check_rewrite(u, e); } catch (std::out_of_range const&) { thrown = true; }
    REQUIRE(thrown == refuse, refuse ? "a port out of range is taken" : "a URI is refused");
    c.nontrivial(rest.size() > 4 && (e.user || !e.query.empty()));
}

PBT_SUITE("escapes", 12000, 200000)
{
    auto& s = c.s;
    std::string t; for (auto n = s.len(10); n > 0; --n) t += s.pick<std::string>({ "%", "%4", "%41", "%zz", "%%", "a", "/", "?#", " ", "\xff", std::string(1, '\0'), "%2", "5", "%25", s.bytes(1) });
    c.note(show(t));
    auto u = uri::unescaped(t);
    REQUIRE(u == decoded(t), "unescaped ", show(u), ", not ", show(decoded(t)));
    auto x = uri::escaped(t);
    REQUIRE(lower(x) == lower(encoded(t)), "escaped ", show(x), ", not ", show(encoded(t)));
    for (char k : x) REQUIRE(url_char(k), "escaped text keeps a character no URI has: ", show(x));
    REQUIRE(uri::unescaped(x) == decoded(encoded(t)), "unescaping what was escaped gives ", show(uri::unescaped(x)));
    if (t.find('%') == std::string::npos) REQUIRE(uri::unescaped(x) == t, "escaping and unescaping changes ", show(t), " to ", show(uri::unescaped(x)));
    // any text can be a path, query or fragment
    U e; e.scheme = "s"; e.host = "h"; uri v; v.set_scheme("s"); v.set_authority(neolib::uri_authority{ "h" });
    if (s.coin()) { e.path = t; v.set_path(t); }
    if (s.coin()) { e.query = t; v.set_query(t); }
    if (s.coin()) { e.fragment = t; v.set_fragment(t); }
    check_split(v, e); check_rewrite(v, e);
    c.nontrivial(t.find('%') != std::string::npos && t.size() > 3);
}
