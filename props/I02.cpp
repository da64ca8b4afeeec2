// I02: LEB128 encodings, one by one and run together, decoded by the standard rules.
#include "pbt.hpp"
#include <neolib/neolib.hpp>
#include <neolib/core/leb128.hpp>

using namespace pbt;
namespace L = neolib::leb128;

namespace
{
    template <typename V> std::string bytes_of(V const& v) { return std::visit([](auto const& a) { return std::string(a.begin(), a.end()); }, v); }
    u64 number(Source& s)
    {
        switch (s.below(4))
        {
        case 0: return s.below(300);
        case 1: { auto k = s.below(65); u64 v = k == 64 ? ~0ull : (1ull << k); return v + static_cast<u64>(s.range(-3, 3)); } // the group and sign boundaries
        case 2: { auto k = 1 + s.below(64); return s.below(~0ull) >> (64 - k); }
        default: return 0 - s.below(300);
        }
    }
    // one value from the front of a stream
    u64 decode(std::string const& t, std::size_t& at, bool sign)
    {
        u64 v = 0; unsigned shift = 0; unsigned char b;
        do
        {
            REQUIRE(at < t.size(), "the last byte still announces another: ", show(t));
            b = static_cast<unsigned char>(t[at++]);
            REQUIRE(shift < 70, "longer than ten bytes");
            if (shift == 63) REQUIRE(sign ? (b & 0x7f) == 0 || (b & 0x7f) == 0x7f : (b & 0x7f) <= 1, "the tenth byte has bits beyond the 64th");
            if (shift < 64) v |= static_cast<u64>(b & 0x7f) << shift;
            shift += 7;
        } while (b & 0x80);
        if (sign && (b & 0x40) && shift < 64) v |= ~0ull << shift;
        return v;
    }
    std::size_t minimal(u64 v) { std::size_t n = 1; while (v >>= 7) ++n; return n; }
    std::size_t minimalSigned(i64 v) { std::size_t n = 1; while (v < -64 || v > 63) { v >>= 7; ++n; } return n; }
}

PBT_SUITE("integers", 60000, 3000000)
{
    std::string all; std::vector<std::pair<int, u64>> values;
    for (auto n = 1 + c.s.below(6); n > 0; --n)
    {
        u64 v = number(c.s); int kind = static_cast<int>(c.s.below(3)); if (kind == 2) v &= 0xffffffff;
        auto t = kind == 0 ? bytes_of(L::ULEB128(v)) : kind == 1 ? bytes_of(L::SLEB128(static_cast<i64>(v))) : bytes_of(L::LEB128(static_cast<std::uint32_t>(v)));
        c.note(kind == 0 ? "unsigned " : kind == 1 ? "signed " : "32 bit ", v, " is ", show(t));
        REQUIRE(t.size() == (kind == 1 ? minimalSigned(static_cast<i64>(v)) : minimal(v)), "encoded in ", t.size(), " bytes");
        std::size_t at = 0; auto d = decode(t, at, kind == 1);
        REQUIRE(d == v, "decoded as ", d);
        REQUIRE(at == t.size(), "bytes after the end of the encoding");
        all += t; values.push_back({ kind, v }); if (v > 0x7f && v < ~0ull - 0x3f) c.nontrivial();
    }
    std::size_t at = 0;
    for (auto& [kind, v] : values) { auto d = decode(all, at, kind == 1); REQUIRE(d == v, "encodings run together are read as ", d, " instead of ", v); }
    REQUIRE(at == all.size(), "bytes left over");
}

// every value near every boundary of every form
PBT_SUITE("boundaries", 65, 65)
{
    auto k = c.s.below(65);
    for (int d = -200; d <= 200; ++d)
    {
        u64 v = (k == 64 ? 0 : 1ull << k) + static_cast<u64>(static_cast<i64>(d)); std::size_t at = 0;
        auto t = bytes_of(L::ULEB128(v)); REQUIRE(t.size() == minimal(v) && decode(t, at, false) == v, "unsigned ", v, " is ", show(t));
        at = 0; t = bytes_of(L::SLEB128(static_cast<i64>(v))); REQUIRE(t.size() == minimalSigned(static_cast<i64>(v)) && decode(t, at, true) == v, "signed ", static_cast<i64>(v), " is ", show(t));
        at = 0; auto w = static_cast<std::uint32_t>(v); t = bytes_of(L::LEB128(w)); REQUIRE(t.size() == minimal(w) && t.size() <= 5 && decode(t, at, false) == w, "32 bit ", w, " is ", show(t));
    }
    c.note("around 2^", k); c.nontrivial();
}
