// T04: numbers to text and back, against the C library and 128-bit arithmetic.
#include "pbt.hpp"
#include <neolib/neolib.hpp>
#include <neolib/core/string_numeric.hpp>
#include <neolib/core/string_utils.hpp>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <limits>

using namespace pbt;
namespace
{
    template <class I> I integer(Case& c) { auto v = static_cast<I>(c.s.edgy()); return std::is_signed_v<I> && c.s.coin() ? static_cast<I>(-static_cast<std::uint64_t>(v)) : v; }
    double real(Case& c)
    {
        double d; switch (c.s.below(5)) { case 0: d = static_cast<double>(c.s.range(-1000, 1000)) / 8; break; case 1: d = static_cast<double>(static_cast<std::int64_t>(c.s.edgy())); break; case 2: { auto u = c.s.below(0); std::memcpy(&d, &u, 8); break; } case 3: d = std::ldexp(1.0 + static_cast<double>(c.s.below(1000)) / 1000, static_cast<int>(c.s.range(-1074, 1023))); break; default: d = static_cast<double>(c.s.below(1000000)) * std::pow(10.0, static_cast<double>(c.s.range(-12, 12))); break; }
        if (!std::isfinite(d)) d = 0.5; return c.s.coin() ? -d : d;
    }
    double ulp(double x); // below
    bool close(double y, double ref) { return y == ref || std::fabs(y - ref) <= 4 * ulp(ref) || (std::isinf(y) != std::isinf(ref) && std::min(std::fabs(y), std::fabs(ref)) > 1.79769313486e308 && std::signbit(y) == std::signbit(ref)); }
    double ulp(double x) { x = std::fabs(x); return std::max(std::nextafter(x, INFINITY) - x, std::numeric_limits<double>::denorm_min()); }
    std::string pad(std::string const& digits, bool neg, std::size_t width, char fill) { std::string s = (neg ? "-" : "") + digits; if (s.size() >= width) return s; std::string const f(width - s.size(), fill); return fill == '0' ? (neg ? "-" : "") + f + digits : f + s; }
    template <class I> std::string digits(I v, int base)
    {
        using U = std::make_unsigned_t<I>; U u = static_cast<U>(v); if (base == 10 && v < 0) u = static_cast<U>(0) - u; std::string s; do { s.insert(s.begin(), "0123456789ABCDEF"[u % static_cast<U>(base)]); u /= static_cast<U>(base); } while (u != 0); return s;
    }
    template <class I, class To, class From, class View> void roundtrip(Case& c, char const* name, To to, From from, View view)
    {
        I const v = integer<I>(c); int const base = c.s.pick({ 10, 10, 16, 8 }); std::size_t const width = c.s.coin() ? 0 : c.s.below(30); char const fill = c.s.coin() ? '0' : c.s.pick({ ' ', '*' }); bool const show = c.s.coin();
        std::string const t = to(v, base, width, fill, show); c.note(name, " ", +v, " base ", base, " width ", width, " fill ", fill, show ? " prefixed" : "", " is ", pbt::show(t));
        std::string const want = (show ? base == 16 ? "0x" : base == 8 ? "0" : "" : "") + pad(digits(v, base), base == 10 && v < 0, width, fill);
        REQUIRE(t == want, name, " gave ", pbt::show(t), " instead of ", pbt::show(want));
        if (fill == '0' || width == 0) { REQUIRE(from(t, base) == v, name, " reads ", pbt::show(t), " as ", +from(t, base)); if (base == 10) REQUIRE(view(std::string_view{ t }) == v, name, " reads a view of ", pbt::show(t), " as ", +view(std::string_view{ t })); }
        REQUIRE(neolib::from_std_string<I>(neolib::to_std_string(v)) == v && neolib::from_string<I>(neolib::to_string(v)) == v, "to_string and from_string changed ", +v);
        { std::string const blank(static_cast<std::size_t>(width % 4), c.s.pick({ ' ', '\t' })); I const r = neolib::from_std_string<I>(blank), q = neolib::from_string<I>(neolib::string{ blank + "x" }); REQUIRE(r == 0 && q == 0, "text without a number is read as ", +r, " or ", +q); }
        if (v < 0) c.label("negative"); if (base != 10) c.label("not decimal"); c.nontrivial(v > 1000 || v < 0);
    }
}
#if PBT_PART == 0
PBT_SUITE("integers", 200000, 5000000)
{
    switch (c.s.below(4))
    {
    case 0: roundtrip<std::int32_t>(c, "int32", [](auto... a) { return neolib::int32_to_string<char>(a...); }, [](auto const& s, int b) { return neolib::string_to_int32(s, b); }, [](auto v) { return neolib::string_to_int32(v); }); break;
    case 1: roundtrip<std::uint32_t>(c, "uint32", [](auto... a) { return neolib::uint32_to_string<char>(a...); }, [](auto const& s, int b) { return neolib::string_to_uint32(s, b); }, [](auto v) { return neolib::string_to_uint32(v); }); break;
    case 2: roundtrip<std::int64_t>(c, "int64", [](auto... a) { return neolib::int64_to_string<char>(a...); }, [](auto const& s, int b) { return neolib::string_to_int64(s, b); }, [](auto v) { return neolib::string_to_int64(v); }); break;
    default: roundtrip<std::uint64_t>(c, "uint64", [](auto... a) { return neolib::uint64_to_string<char>(a...); }, [](auto const& s, int b) { return neolib::string_to_uint64(s, b); }, [](auto v) { return neolib::string_to_uint64(v); }); break;
    }
}
PBT_FINDING("T04-leading-zeros", "string_to_double(\"000000000000000001.250000e+02\") is not 125: leading zeros count towards the significant digits")
{
    return neolib::string_to_double(std::string{ "000000000000000001.250000e+02" }) != 125.0;
}

PBT_FINDING("T04-huge-exponent", "string_to_double(\"1e-7179869184\") is 1: an exponent that does not fit an int is dropped")
{
    return neolib::string_to_double(std::string{ "1e-7179869184" }) != 0.0;
}

PBT_SUITE("doubles", 100000, 3000000)
{
    double const x = real(c); std::size_t const p = c.s.coin() ? c.s.below(18) : c.s.below(4); bool const fixed = c.s.coin(); std::size_t const width = c.s.coin() ? 0 : c.s.below(40); char buf[512]; std::snprintf(buf, sizeof buf, fixed ? "%.*f" : "%.*e", p == 0 ? 6 : static_cast<int>(p), x);
    std::string const t = neolib::double_to_string<char>(x, p, fixed, width), want = buf[0] == '-' ? pad(buf + 1, true, width, '0') : pad(buf, false, width, '0'); c.note(want, " precision ", p);
    REQUIRE(t == want, "double_to_string gave ", t, " instead of ", want);
    if (width > 17) return; // long zero padding is finding T04-leading-zeros
    double const y = neolib::string_to_double(t), ref = std::strtod(t.c_str(), nullptr); REQUIRE(std::signbit(y) == std::signbit(ref) && close(y, ref), "string_to_double read ", t, " as ", y); REQUIRE(neolib::string_to_double(std::string_view{ t }) == y, "string_to_double of a view");
    if (!fixed && p >= 16) REQUIRE(close(y, x), "the value did not survive 17 digits: ", t);
    c.nontrivial(x != std::floor(x) || std::fabs(x) > 1e9);
}
// the checked conversion: the narrowest type that holds the value, or a refusal
PBT_SUITE("checked", 200000, 5000000)
{
    std::string t; bool number = true, integral = false; std::string sign = c.s.pick({ "", "", "-", "+" });
    switch (c.s.below(5))
    {
    case 0: t = sign + std::to_string(c.s.edgy()); integral = true; break;
    case 1: t = sign + std::to_string(c.s.below(100000)) + "." + c.s.from("0123456789", 1 + c.s.below(8)) + (c.s.coin() ? "e" + std::to_string(c.s.range(-30, 30)) : ""); break;
    case 2: t = sign + c.s.from("123456789", 1) + c.s.from("0123456789", 19 + c.s.below(10)); break;
    case 3: t = sign + std::to_string(c.s.below(1000)) + c.s.pick({ "e", "E" }) + c.s.pick({ "", "+", "-" }) + std::to_string(c.s.below(20)); break;
    default: // not a number
        t = sign + (c.s.coin() ? std::to_string(c.s.edgy()) : ""); if (c.s.coin()) t.insert(c.s.below(t.size() + 1), 1, c.s.pick({ 'x', ' ', '-', ',', '#', 'g', '\0' })); else t += c.s.from("xyz-+ .", 1 + c.s.below(3));
        { char* end = nullptr; std::strtod(t.c_str(), &end); number = !t.empty() && end == t.c_str() + t.size() && t[0] != ' ' && t.find('x') == std::string::npos; } if (number) { integral = t.find_first_of(".eE") == std::string::npos; }
    }
    c.note(show(t));
    if (!number) { bool refused = false; try { neolib::string_to_number(std::string_view{ t }); } catch (neolib::string_to_number_failure const&) { refused = true; } REQUIRE(refused, "string_to_number accepted ", show(t)); c.label("refused"); c.nontrivial(!t.empty() && std::isdigit(static_cast<unsigned char>(t[0]))); return; }
    auto const n = neolib::string_to_number(std::string_view{ t }); std::string kind; double d = 0; bool exact = true; std::string digits10 = t.substr(t[0] == '-' || t[0] == '+'); digits10.erase(0, std::min(digits10.find_first_not_of('0'), digits10.size() - 1)); bool const neg = t[0] == '-' && digits10 != "0";
    visit([&](auto const& v)
    {
        using T = std::decay_t<decltype(v)>;
        if constexpr (std::is_same_v<T, double>) { kind = "double"; d = v; } else if constexpr (std::is_integral_v<T>) { kind = (std::is_signed_v<T> ? "i" : "u") + std::to_string(sizeof(T) * 8); exact = (neg ? "-" : "") + digits10 == std::to_string(v); }
    }, n);
    std::string want = "double";
    if (integral || t.find_first_of(".eE") == std::string::npos)
    {
        if (digits10.size() <= 20) { unsigned __int128 m = 0; for (char ch : digits10) m = m * 10 + static_cast<unsigned>(ch - '0'); bool const plus = t[0] == '+'; if (neg ? m <= 0x80000000u : m <= 0x7FFFFFFFu) want = "i32"; else if (t[0] != '-' && !plus && m <= 0xFFFFFFFFu) want = "u32"; else if (neg ? m <= (static_cast<unsigned __int128>(1) << 63) : m <= 0x7FFFFFFFFFFFFFFFull) want = "i64"; else if (t[0] != '-' && !plus && m <= ~0ull) want = "u64"; }
    }
    REQUIRE(kind == want && exact, "string_to_number read ", show(t), " as ", kind, exact ? "" : " with another value", " instead of ", want);
    if (kind == "double") { double const ref = std::strtod(t.c_str(), nullptr); REQUIRE(close(d, ref), "string_to_number read ", show(t), " as ", d); }
    c.label(kind == "double" ? "double" : "integer"); c.nontrivial(t.size() >= 3);
}
#endif
