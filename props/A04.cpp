// A04: enumerations, their names, streams and enumeration objects.
#include "pbt.hpp"
#include <neolib/neolib.hpp>
#include <neolib/core/enum.hpp>
#include <sstream>
#include <map>

namespace neolib::test_enums
{
    enum class u8 : std::uint8_t { Zero, One, Ten = 10, Digit = '0', Letter = 'A', Top = 255 };
    enum class i8 : std::int8_t { Bottom = -128, Minus = -1, None, A = 65, Top = 127 };
    enum class u16 : std::uint16_t { None, Low = 1, High = 0xFFFF, Middle = 0x8000 };
    enum class i16 : std::int16_t { Bottom = -32768, Minus = -1, None, Top = 32767 };
    enum class u32 : std::uint32_t { None, Flag = 0x80000000u, All = 0xFFFFFFFFu, SameAsFlag = 0x80000000u };
    enum class i32 : std::int32_t { Bottom = INT32_MIN, Minus = -1, None, Aa, aA, A, Top = INT32_MAX };
    enum class u64 : std::uint64_t { None, Big = 0x8000000000000000ull, Named = 7, All = ~0ull };
    enum class i64 : std::int64_t { Bottom = INT64_MIN, Minus = -1, None, Top = INT64_MAX };
    enum plain { Plain0, Plain1, Plain5 = 5 };
    enum class empty : std::uint32_t {};
}
#define ENUM(E) neolib::test_enums::E
#define S(E, x) declare_enum_string(ENUM(E), x)
begin_declare_enum(ENUM(u8)) S(u8, Zero) S(u8, One) S(u8, Ten) S(u8, Digit) S(u8, Letter) S(u8, Top) end_declare_enum(ENUM(u8))
begin_declare_enum(ENUM(i8)) S(i8, Bottom) S(i8, Minus) S(i8, None) S(i8, A) S(i8, Top) end_declare_enum(ENUM(i8))
begin_declare_enum(ENUM(u16)) S(u16, None) S(u16, Low) S(u16, High) declare_enum_string_explicit(ENUM(u16), Middle, half-way) end_declare_enum(ENUM(u16))
begin_declare_enum(ENUM(i16)) S(i16, Bottom) S(i16, Minus) S(i16, None) S(i16, Top) end_declare_enum(ENUM(i16))
begin_declare_enum(ENUM(u32)) S(u32, None) S(u32, Flag) S(u32, All) S(u32, SameAsFlag) end_declare_enum(ENUM(u32))
begin_declare_enum(ENUM(i32)) S(i32, Bottom) S(i32, Minus) S(i32, None) S(i32, Aa) S(i32, aA) S(i32, A) S(i32, Top) end_declare_enum(ENUM(i32))
begin_declare_enum(ENUM(u64)) S(u64, None) S(u64, Big) S(u64, Named) S(u64, All) end_declare_enum(ENUM(u64))
begin_declare_enum(ENUM(i64)) S(i64, Bottom) S(i64, Minus) S(i64, None) S(i64, Top) end_declare_enum(ENUM(i64))
begin_declare_enum(ENUM(plain)) S(plain, Plain0) S(plain, Plain1) S(plain, Plain5) end_declare_enum(ENUM(plain))
begin_declare_enum(ENUM(empty)) end_declare_enum(ENUM(empty))
#undef S

using namespace pbt;
namespace
{
    template <class E> struct Names; // value and name, in order of declaration; the first name of a value is the one it converts to
    #define NAMES(E, ...) template <> struct Names<ENUM(E)> { using T = ENUM(E); static std::vector<std::pair<T, std::string>> list() { return { __VA_ARGS__ }; } };
    NAMES(u8, { T::Zero, "Zero" }, { T::One, "One" }, { T::Ten, "Ten" }, { T::Digit, "Digit" }, { T::Letter, "Letter" }, { T::Top, "Top" })
    NAMES(i8, { T::Bottom, "Bottom" }, { T::Minus, "Minus" }, { T::None, "None" }, { T::A, "A" }, { T::Top, "Top" })
    NAMES(u16, { T::None, "None" }, { T::Low, "Low" }, { T::High, "High" }, { T::Middle, "half-way" })
    NAMES(i16, { T::Bottom, "Bottom" }, { T::Minus, "Minus" }, { T::None, "None" }, { T::Top, "Top" })
    NAMES(u32, { T::None, "None" }, { T::Flag, "Flag" }, { T::All, "All" }, { T::SameAsFlag, "SameAsFlag" })
    NAMES(i32, { T::Bottom, "Bottom" }, { T::Minus, "Minus" }, { T::None, "None" }, { T::Aa, "Aa" }, { T::aA, "aA" }, { T::A, "A" }, { T::Top, "Top" })
    NAMES(u64, { T::None, "None" }, { T::Big, "Big" }, { T::Named, "Named" }, { T::All, "All" })
    NAMES(i64, { T::Bottom, "Bottom" }, { T::Minus, "Minus" }, { T::None, "None" }, { T::Top, "Top" })
    NAMES(plain, { T::Plain0, "Plain0" }, { T::Plain1, "Plain1" }, { T::Plain5, "Plain5" })
    NAMES(empty)
    template <class E> std::string hex(E e)
    {
        using U = std::make_unsigned_t<std::underlying_type_t<E>>; auto v = static_cast<unsigned long long>(static_cast<U>(e)); std::string r; for (std::size_t i = 0; i < sizeof(E) * 2; ++i, v >>= 4) r.insert(r.begin(), "0123456789ABCDEF"[v & 15]); return "0x" + r + "u";
    }
    template <class Ex, class F> bool refuses(F f) { try { f(); } catch (Ex const&) { return true; } return false; }
    template <class E> void conversions(Case& c)
    {
        using U = std::underlying_type_t<E>; auto const list = Names<E>::list();
        auto nameOf = [&](E e) -> std::optional<std::string> { for (auto const& x : list) if (x.first == e) return x.second; return {}; };
        auto valueOf = [&](std::string const& s) -> std::optional<E> { for (auto const& x : list) if (x.second == s) return x.first; return {}; };
        auto drawValue = [&] { if (!list.empty() && c.s.chance(2, 3)) return c.s.pickv(list).first; if constexpr (std::is_same_v<E, neolib::test_enums::plain>) return static_cast<E>(c.s.below(8)); else { auto const b = c.s.bytes(sizeof(U)); U u; std::memcpy(&u, b.data(), sizeof u); return static_cast<E>(c.s.coin() ? static_cast<U>(c.s.below(20)) : u); } };
        auto drawName = [&] { std::string s = list.empty() || c.s.chance(1, 4) ? c.s.from("AaNone-0x", c.s.len(6)) : c.s.pickv(list).second; if (c.s.chance(1, 3) && !s.empty()) switch (c.s.below(4)) { case 0: s.pop_back(); break; case 1: s += c.s.coin() ? "e" : std::string(1, '\0'); break; case 2: s[0] ^= 32; break; default: s.erase(0, 1); } return s; };
        bool named = false, unnamed = false, bad = false; neolib::enum_t<E> a, b{ static_cast<E>(U{}) }; E ma = E{}, mb = E{}; REQUIRE(a.value() == U{}, "an enumeration object starts with ", +a.value());
        neolib::i_enum_t<E>& ia = a;
        for (std::size_t n = 1 + c.s.len(9); n--; )
        {
            E const e = drawValue(); auto const want = nameOf(e); (want ? named : unnamed) = true; c.note("value ", +static_cast<U>(e), " ", want ? *want : "");
            REQUIRE(neolib::enum_to_hex(e) == hex(e), "enum_to_hex gave ", neolib::enum_to_hex(e));
            REQUIRE(neolib::enum_to_string(e).to_std_string() == want.value_or(hex(e)), "enum_to_string gave ", neolib::enum_to_string(e).to_std_string()); REQUIRE((neolib::enum_to_string<E, std::string>(e)) == want.value_or(hex(e)), "enum_to_string as std::string");
            if (want) { REQUIRE((neolib::enum_to_string<E, std::string>(e, true)) == *want, "a name required"); REQUIRE(neolib::string_to_enum<E>(*want) == e && neolib::try_string_to_enum<E>(*want) == e && neolib::string_to_enum<E>(neolib::string{ *want }) == e, *want, " converts to another value"); }
            else REQUIRE((refuses<neolib::bad_enum_value>([&] { neolib::enum_to_string<E, std::string>(e, true); })), "a value without a name was not refused");
            { std::ostringstream o; neolib::operator<<(o, e); REQUIRE(o.str() == want.value_or(hex(e)), "written as ", o.str()); }
            std::string const s = drawName(); auto const v = valueOf(s); if (!v) bad = true; c.note("name ", show(s));
            REQUIRE(neolib::try_string_to_enum<E>(s) == v && neolib::try_string_to_enum<E>(neolib::string{ s }) == v, "try_string_to_enum of ", show(s)); if (v) REQUIRE(neolib::string_to_enum<E>(s) == *v, "string_to_enum of ", show(s)); else REQUIRE((refuses<neolib::bad_enum_string>([&] { neolib::string_to_enum<E>(s); })) && (refuses<neolib::bad_enum_string>([&] { neolib::string_to_enum<E>(neolib::string{ s }); })), "the name ", show(s), " was not refused");
            if (!s.empty() && s.find_first_of(std::string("\0\r\n ", 4)) == std::string::npos)
            {
                std::istringstream i{ s + " rest" }; E read = e; bool refused = false; try { neolib::operator>>(i, read); } catch (neolib::bad_enum_string const&) { refused = true; }
                REQUIRE(refused == !v && read == v.value_or(e), "reading ", show(s), " gave ", +static_cast<U>(read)); std::string rest; i >> rest; REQUIRE(rest == "rest", "reading ", show(s), " left ", show(rest));
            }
            // enumeration objects
            switch (c.s.below(7))
            {
            case 0: a = neolib::enum_t<E>{ e }; ma = e; break;
            case 1: a.set_value(static_cast<U>(e)); ma = e; break;
            case 2: ia.template set_value<E>(e); ma = e; break;
            case 3: if (v) { REQUIRE(ia.template set_value<E>(s) == *v, "set_value of ", show(s)); ma = *v; } else REQUIRE((refuses<typename neolib::i_enum_t<E>::bad_enum_string>([&] { a.set_value(neolib::string{ s }); })), "set_value accepted ", show(s)); break;
            case 4: { neolib::i_enum_t<E>& ib = b; if (c.s.coin()) { ia = ib; ma = mb; } else { ib = ia; mb = ma; } break; }
            case 5: *a.data() = static_cast<U>(e); ma = e; break;
            default: { auto const k = ia.clone(); REQUIRE(k->value() == static_cast<U>(ma) && &*k != &ia, "a clone has ", +k->value()); neolib::enum_t<E> const copy{ ia }; REQUIRE(copy.value() == static_cast<U>(ma), "a copy has ", +copy.value()); b = copy; mb = ma; k->set_value(static_cast<U>(e)); break; }
            }
            REQUIRE(a.value() == static_cast<U>(ma) && *a.data() == static_cast<U>(ma) && *std::as_const(a).data() == static_cast<U>(ma) && ia.template value<E>() == ma && b.value() == static_cast<U>(mb), "objects have ", +a.value(), " and ", +b.value());
            neolib::i_enum_t<E> const& ca = a; neolib::i_enum_t<E> const& cb = b;
            REQUIRE((ca == cb) == (ma == mb) && (ca != cb) == (ma != mb) && (ca < cb) == (static_cast<U>(ma) < static_cast<U>(mb)) && (ca >= cb) == (static_cast<U>(ma) >= static_cast<U>(mb)), "comparison of objects");
            REQUIRE(neolib::operator==(ca, e) == (ma == e) && neolib::operator!=(ca, e) == (ma != e) && neolib::operator<(ca, e) == (static_cast<U>(ma) < static_cast<U>(e)) && neolib::operator==(e, ca) == (ma == e) && neolib::operator!=(e, ca) == (ma != e) && neolib::operator<(e, ca) == (static_cast<U>(e) < static_cast<U>(ma)), "comparison of an object and a value");
            if (auto const m = nameOf(ma)) { REQUIRE(ca.to_std_string() == *m && ca.to_string().to_std_string() == *m && neolib::enum_to_string<E>(ca).to_std_string() == *m, "an object is named ", ca.to_std_string()); neolib::string into{ "before" }; ca.to_string(into); REQUIRE(into.to_std_string() == *m, "to_string gave ", into.to_std_string()); }
            REQUIRE(ca.enumerators().size() == list.size(), "an object has ", ca.enumerators().size(), " enumerators");
        }
        c.nontrivial(named && (unnamed || bad));
    }
}
PBT_SUITE("conversions", 20000, 400000)
{
    namespace te = neolib::test_enums;
    switch (c.s.below(10)) { case 0: conversions<te::u8>(c); break; case 1: conversions<te::i8>(c); break; case 2: conversions<te::u16>(c); break; case 3: conversions<te::i16>(c); break; case 4: conversions<te::u32>(c); break; case 5: conversions<te::i32>(c); break; case 6: conversions<te::u64>(c); break; case 7: conversions<te::i64>(c); break; case 8: conversions<te::plain>(c); break; default: conversions<te::empty>(c); }
}
