// F05: gzip streams, written by an independent writer with every header field, read back; damaged; judged by zlib.
#include "pbt.hpp"
#include <neolib/neolib.hpp>
#include <neolib/file/gunzip.hpp>
#include <zlib.h>

using namespace pbt;

namespace
{
    std::string contents(Source& s)
    {
        switch (s.below(5))
        {
        case 0: return "";
        case 1: return s.bytes(s.len(40));
        case 2: return s.from("ab", s.len(300));
        case 3: { auto unit = s.bytes(1 + s.below(6)); std::string r; for (auto n = s.below(20000); n > 0; --n) r += unit; return r; }
        default: { std::string r; u64 x = s.below(1000000) + 1; for (auto n = s.below(40000); n > 0; --n) { x = x * 6364136223846793005ull + 1442695040888963407ull; r += static_cast<char>(x >> 60); } return r; }
        }
    }
    struct G { std::string data, bytes; unsigned flags = 0; std::size_t body = 0, trailer = 0; };
    void w16(std::string& o, unsigned v) { o += static_cast<char>(v & 255); o += static_cast<char>(v >> 8 & 255); }
    void w32(std::string& o, u64 v) { w16(o, v & 0xffff); w16(o, v >> 16 & 0xffff); }
    std::uint32_t crc_of(std::string const& s)
    {
        std::uint32_t c = ~0u;
        for (unsigned char b : s) { c ^= b; for (int k = 0; k < 8; ++k) c = c >> 1 ^ (c & 1 ? 0xEDB88320u : 0); }
        return ~c;
    }
    std::string zstr(Source& s) { auto t = s.bytes(s.below(12)); std::erase(t, '\0'); return t; }
    G stream(Source& s)
    {
        G g; g.data = contents(s); g.flags = s.below(32);
        auto& o = g.bytes; o = "\x1f\x8b\x08"; o += static_cast<char>(g.flags);
        w32(o, s.edgy() & 0xffffffff); o += static_cast<char>(s.below(256)); o += static_cast<char>(s.below(256));
        if (g.flags & 4) { auto x = s.bytes(s.chance(1, 5) ? s.below(700) : s.below(10)); w16(o, x.size()); o += x; }
        if (g.flags & 8) { o += zstr(s); o += '\0'; }
        if (g.flags & 16) { o += zstr(s); o += '\0'; }
        if (g.flags & 2) w16(o, crc_of(o) & 0xffff);
        g.body = o.size();
        z_stream z{}; deflateInit2(&z, static_cast<int>(s.below(10)), Z_DEFLATED, -15, 1 + static_cast<int>(s.below(9)), static_cast<int>(s.below(5)));
        std::string d(deflateBound(&z, g.data.size()) + 600, 0);
        z.next_out = reinterpret_cast<Bytef*>(d.data()); z.avail_out = static_cast<uInt>(d.size());
        // in pieces, with every kind of flush
        std::size_t at = 0;
        for (auto n = s.below(4); n > 0; --n)
        {
            auto l = s.below(g.data.size() - at + 1);
            z.next_in = reinterpret_cast<Bytef*>(g.data.data() + at); z.avail_in = static_cast<uInt>(l); at += l;
            deflate(&z, s.pick({ Z_NO_FLUSH, Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_PARTIAL_FLUSH, Z_BLOCK }));
        }
        z.next_in = reinterpret_cast<Bytef*>(g.data.data() + at); z.avail_in += static_cast<uInt>(g.data.size() - at);
        if (deflate(&z, Z_FINISH) != Z_STREAM_END) std::abort();
        d.resize(z.total_out); deflateEnd(&z); o += d;
        g.trailer = o.size(); w32(o, crc_of(g.data)); w32(o, g.data.size());
        return g;
    }
    // zlib's own gzip reader; the whole stream must be one member
    bool reference(std::string const& b, std::string& out)
    {
        z_stream z{}; inflateInit2(&z, 15 + 16);
        z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(b.data())); z.avail_in = static_cast<uInt>(b.size());
        char buf[4096]; int r; out.clear();
        do { z.next_out = reinterpret_cast<Bytef*>(buf); z.avail_out = sizeof buf; r = inflate(&z, Z_NO_FLUSH); out.append(buf, sizeof buf - z.avail_out); } while (r == Z_OK);
        bool ok = r == Z_STREAM_END && z.avail_in == 0; inflateEnd(&z); return ok;
    }
    std::string str(std::vector<char> const& v) { return std::string(v.begin(), v.end()); }
}

PBT_SUITE("streams", 4000, 60000)
{
    auto g = stream(c.s); std::string ref;
    c.note("flags ", g.flags, " data ", g.data.size(), " stream ", g.bytes.size(), " ", show(g.data.substr(0, 40)));
    if (!reference(g.bytes, ref) || ref != g.data) std::abort();
    neolib::gunzip u{ std::vector<char>(g.bytes.begin(), g.bytes.end()) };
    REQUIRE(u.ok(), "a well-formed stream is refused");
    REQUIRE(str(u.uncompressed_data()) == g.data, "uncompressed to ", u.uncompressed_data().size(), " bytes, not ", g.data.size(), ", or other ones");
    c.nontrivial(g.data.size() > 20 && (g.flags & 30) != 0);
}

PBT_SUITE("damage", 12000, 250000)
{
    auto g = stream(c.s); auto b = g.bytes;
    switch (c.s.below(6))
    {
    case 0: b.resize(c.s.below(b.size())); c.note("cut to ", b.size()); break;
    case 1: for (auto n = 1 + c.s.below(4); n > 0; --n) { auto p = c.s.below(b.size()); b[p] ^= static_cast<char>(1 << c.s.below(8)); c.note("bit at ", p); } break;
    case 2: // the trailer
    {
        auto at = g.trailer + 4 * c.s.below(2); u64 v = c.s.pick<u64>({ 0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x1000000, g.data.size() + 1, g.data.size() - 1, crc_of(g.data) ^ 0x80000000 });
        for (int k = 0; k < 4; ++k) b[at + k] = static_cast<char>(v >> 8 * k);
        c.note("trailer ", at - g.trailer, " = ", v); break;
    }
    case 3: // the header
    {
        auto p = c.s.below(g.body); b[p] = static_cast<char>(c.s.pick({ 0, 1, 2, 4, 8, 16, 32, 64, 128, 255, 31, static_cast<int>(c.s.below(256)) }));
        c.note("header ", p); break;
    }
    case 4: { auto p = c.s.below(b.size()); auto l = 1 + c.s.below(10); if (c.s.coin()) b.insert(p, c.s.bytes(l)); else b.erase(p, l); c.note("edit at ", p, " size ", b.size()); break; }
    default: if (c.s.coin()) b += c.s.bytes(1 + c.s.below(12)); else { b = c.s.bytes(c.s.below(40)); if (b.size() > 3 && c.s.coin()) { b[0] = '\x1f'; b[1] = '\x8b'; b[2] = 8; } } c.note("tail or noise, size ", b.size());
    }
    std::string ref; bool ok = reference(b, ref);
    neolib::gunzip u{ std::vector<char>(b.begin(), b.end()) };
    c.note("reference ", ok ? "accepts" : "refuses");
    REQUIRE(u.ok() == ok, ok ? "a stream zlib accepts is refused" : "a stream zlib refuses is accepted");
    if (ok) REQUIRE(str(u.uncompressed_data()) == ref, "uncompressed to ", u.uncompressed_data().size(), " bytes, not ", ref.size(), ", or other ones");
    else REQUIRE(u.uncompressed_data().empty(), "refused, but with data");
    c.nontrivial(b.size() >= 18 && b != g.bytes);
    c.label(ok ? "accepted" : "refused");
}

PBT_SUITE("prefixes", 300, 3000)
{
    auto g = stream(c.s); if (g.bytes.size() > 400) { g.bytes.clear(); return; }
    for (std::size_t n = 0; n < g.bytes.size(); ++n)
    {
        neolib::gunzip u{ std::vector<char>(g.bytes.begin(), g.bytes.begin() + n) };
        REQUIRE(!u.ok(), "the first ", n, " of ", g.bytes.size(), " bytes are accepted");
    }
    c.note("bytes ", g.bytes.size()); c.nontrivial(g.data.size() > 0);
}
