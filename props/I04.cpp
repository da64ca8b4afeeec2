// I04: checksums, hashes and UUIDs against bitwise definitions.
#include "pbt.hpp"
#include <cstring>
#include <neolib/neolib.hpp>
#include <neolib/core/crc.hpp>
#include <neolib/core/fast_hash.hpp>
#include <neolib/core/uuid.hpp>
#include <set>
#include <sstream>

using namespace pbt;
using neolib::uuid;

PBT_SUITE("checksums", 20000, 300000)
{
    auto& s = c.s; auto t = s.bytes(s.chance(1, 10) ? s.below(3000) : s.len(40));
    if (s.chance(1, 5)) t.insert(t.size() / 2, s.below(200), static_cast<char>(s.pick({ 0, 255 })));
    std::unique_ptr<unsigned char[]> p{ new unsigned char[t.size()] }; std::copy(t.begin(), t.end(), p.get());
    std::uint32_t crc = ~0u, h32 = 2166136261u; u64 h64 = 14695981039346656037ull;
    for (unsigned char b : t)
    {
        crc ^= b; for (int k = 0; k < 8; ++k) crc = crc >> 1 ^ (crc & 1 ? 0xEDB88320u : 0);
        h32 = (h32 ^ b) * 16777619u; h64 = (h64 ^ b) * 1099511628211ull;
    }
    c.note(t.size(), " bytes ", show(t.substr(0, 60)));
    REQUIRE(neolib::crc32(p.get(), static_cast<std::uint32_t>(t.size())) == static_cast<std::uint32_t>(~crc), "CRC-32 is ", neolib::crc32(p.get(), static_cast<std::uint32_t>(t.size())), ", not ", static_cast<std::uint32_t>(~crc));
    REQUIRE(neolib::fast_hash<std::uint32_t>(p.get(), t.size()) == h32 && neolib::fast_hash(p.get(), t.size()) == h32, "the 32 bit hash is ", neolib::fast_hash<std::uint32_t>(p.get(), t.size()), ", not ", h32);
    REQUIRE(neolib::fast_hash<std::uint64_t>(p.get(), t.size()) == h64, "the 64 bit hash is ", neolib::fast_hash<std::uint64_t>(p.get(), t.size()), ", not ", h64);
    c.nontrivial(t.size() > 8);
}

namespace
{
    // sixteen bytes in the order they are written
    std::string raw(uuid const& u)
    {
        std::string r;
        for (int k = 3; k >= 0; --k) r += static_cast<char>(u.part1 >> 8 * k);
        for (auto p : { u.part2, u.part3, u.part4 }) { r += static_cast<char>(p >> 8); r += static_cast<char>(p); }
        for (auto b : u.part5) r += static_cast<char>(b);
        return r;
    }
    std::string text(std::string const& b, bool upper)
    {
        std::string r; char h[4];
        for (int i = 0; i < 16; ++i) { if (i == 4 || i == 6 || i == 8 || i == 10) r += '-'; std::snprintf(h, 4, upper ? "%02X" : "%02x", static_cast<unsigned char>(b[i])); r += h; }
        return r;
    }
    uuid make(std::string const& b)
    {
        auto at = [&](int i) { return static_cast<unsigned char>(b[i]); };
        uuid u; u.part1 = std::uint32_t(at(0)) << 24 | at(1) << 16 | at(2) << 8 | at(3);
        u.part2 = static_cast<std::uint16_t>(at(4) << 8 | at(5)); u.part3 = static_cast<std::uint16_t>(at(6) << 8 | at(7)); u.part4 = static_cast<std::uint16_t>(at(8) << 8 | at(9));
        for (int i = 0; i < 6; ++i) u.part5[i] = at(10 + i);
        return u;
    }
    std::string bytes16(Source& s) { if (s.coin()) return s.bytes(16); std::string r(16, static_cast<char>(s.pick({ 0, 0, 255, 0x80 }))); for (auto n = s.below(4); n > 0; --n) r[s.below(16)] = static_cast<char>(s.below(256)); return r; }
}

PBT_SUITE("uuids", 20000, 300000)
{
    auto& s = c.s; auto a = bytes16(s), b = s.chance(1, 4) ? a : bytes16(s);
    if (s.chance(1, 3)) { b = a; b[s.below(16)] ^= static_cast<char>(1 << s.below(8)); }
    auto u = make(a), v = make(b);
    c.note(text(a, true), " and ", text(b, true));
    REQUIRE(neolib::uuid_to_string(u) == text(a, true), "written as ", neolib::uuid_to_string(u));
    REQUIRE(neolib::make_uuid(neolib::uuid_to_string(u)) == u, "read back as ", neolib::uuid_to_string(neolib::make_uuid(neolib::uuid_to_string(u))));
    REQUIRE(raw(neolib::make_uuid(text(b, s.coin()))) == b, "the text of another is read as ", neolib::uuid_to_string(neolib::make_uuid(text(b, true))));
    // in the middle of a stream that writes numbers another way
    std::ostringstream os; os << std::setfill('*'); bool h = s.coin(); if (h) os << std::hex;
    os << u << ' ' << std::setw(4) << 171 << ' ' << v;
    REQUIRE(os.str() == text(a, true) + (h ? " **ab " : " *171 ") + text(b, true), "written to a stream as ", show(os.str()));
    std::istringstream is{ text(a, true) + " \n" + text(b, false) }; uuid x, y; is >> x >> y;
    REQUIRE(!is.fail() && x == u && y == v, "read from a stream as ", neolib::uuid_to_string(x), " and ", neolib::uuid_to_string(y));
    bool equal = a == b, less = a < b; // std::string compares bytes as unsigned
    REQUIRE((u == v) == equal && (u != v) == !equal, "equality");
    REQUIRE((u < v) == less && (u > v) == (!less && !equal) && (u <= v) == (less || equal) && (u >= v) == !less, "the order is not that of the texts");
    if (equal) REQUIRE(std::hash<uuid>{}(u) == std::hash<uuid>{}(v) && neolib::quick_uuid_hash{}(u) == neolib::quick_uuid_hash{}(v), "equal, but hashed differently");
    c.nontrivial(!equal);
}

PBT_SUITE("generated", 50, 400)
{
    std::set<std::string> seen; auto n = 20 + c.s.below(200); std::string zeros(16, 0), ones(16, -1);
    for (u64 i = 0; i < n; ++i)
    {
        auto u = neolib::generate_uuid(); auto r = raw(u);
        REQUIRE((r[6] & 0xf0) == 0x40 && (r[8] & 0xc0) == 0x80, "not a random UUID: ", neolib::uuid_to_string(u));
        REQUIRE(seen.insert(r).second, "generated twice: ", neolib::uuid_to_string(u));
        for (int k = 0; k < 16; ++k) { zeros[k] |= r[k]; ones[k] &= r[k]; }
    }
    // every other bit takes both values (fails by chance less than once in 2^80 runs)
    if (n >= 100) for (int k = 0; k < 16; ++k)
    {
        auto fixed = static_cast<unsigned char>(k == 6 ? 0xf0 : k == 8 ? 0xc0 : 0);
        REQUIRE((static_cast<unsigned char>(zeros[k]) | fixed) == 0xff && (static_cast<unsigned char>(ones[k]) & ~fixed) == 0, "a bit of byte ", k, " never changes");
    }
    c.note(n, " generated"); c.nontrivial(n >= 100);
}
