// F04: ZIP archives, written by an independent writer, read back from every kind of source; damaged; extracted to disk.
#include "pbt.hpp"
#include <neolib/neolib.hpp>
#include <neolib/file/zip.hpp>
#include <zlib.h>
#include <filesystem>
#include <fstream>
#include <memory>

using namespace pbt;
namespace fs = std::filesystem;

namespace
{
    struct F { std::string name, data; bool deflated = false; int level = 6; bool descriptor = false; std::string localExtra, extra, comment, gap; std::size_t at = 0, body = 0, bodySize = 0; };
    void w16(std::string& o, unsigned v) { o += static_cast<char>(v & 255); o += static_cast<char>(v >> 8 & 255); }
    void w32(std::string& o, u64 v) { w16(o, v & 0xffff); w16(o, v >> 16 & 0xffff); }
    std::uint32_t crc_of(std::string const& s)
    {
        std::uint32_t c = ~0u;
        for (unsigned char b : s) { c ^= b; for (int k = 0; k < 8; ++k) c = c >> 1 ^ (c & 1 ? 0xEDB88320u : 0); }
        return ~c;
    }
    std::string deflated(std::string const& s, int level, int strategy = Z_DEFAULT_STRATEGY)
    {
        z_stream z{}; deflateInit2(&z, level, Z_DEFLATED, -15, 8, strategy);
        std::string o(deflateBound(&z, s.size()) + 16, 0);
        z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(s.data())); z.avail_in = static_cast<uInt>(s.size());
        z.next_out = reinterpret_cast<Bytef*>(o.data()); z.avail_out = static_cast<uInt>(o.size());
        if (deflate(&z, Z_FINISH) != Z_STREAM_END) std::abort();
        o.resize(z.total_out); deflateEnd(&z); return o;
    }
    struct Archive { std::vector<F> files; std::string bytes, comment; std::size_t dir = 0, end = 0; std::vector<std::size_t> dirAt; };

    std::string contents(Source& s)
    {
        switch (s.below(5))
        {
        case 0: return "";
        case 1: return s.bytes(s.len(40));
        case 2: return s.from("ab", s.len(300));
        case 3: { auto unit = s.bytes(1 + s.below(6)); std::string r; for (auto n = s.below(4000); n > 0; --n) r += unit; return r; }
        default: { std::string r; u64 x = s.below(1000000) + 1; for (auto n = s.below(20000); n > 0; --n) { x = x * 6364136223846793005ull + 1442695040888963407ull; r += static_cast<char>(x >> 60); } return r; }
        }
    }
    void build(Source& s, Archive& a, bool plain = false)
    {
        // the directory need not be in the order of the data
        std::vector<std::size_t> order; for (std::size_t i = 0; i < a.files.size(); ++i) order.push_back(i);
        if (!plain && s.chance(1, 3)) for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[s.below(i)]);
        auto& o = a.bytes;
        for (auto i : order)
        {
            auto& f = a.files[i];
            o += f.gap; f.at = o.size();
            auto body = f.deflated ? deflated(f.data, f.level) : f.data;
            w32(o, 0x04034b50); w16(o, 20); w16(o, f.descriptor ? 8 : 0); w16(o, f.deflated ? 8 : 0); w16(o, 0x6000); w16(o, 0x5000);
            w32(o, f.descriptor ? 0 : crc_of(f.data)); w32(o, f.descriptor ? 0 : body.size()); w32(o, f.descriptor ? 0 : f.data.size());
            w16(o, f.name.size()); w16(o, f.localExtra.size()); o += f.name; o += f.localExtra;
            f.body = o.size(); f.bodySize = body.size(); o += body;
            if (f.descriptor) { w32(o, 0x08074b50); w32(o, crc_of(f.data)); w32(o, body.size()); w32(o, f.data.size()); }
        }
        a.dir = o.size();
        for (auto& f : a.files)
        {
            a.dirAt.push_back(o.size());
            w32(o, 0x02014b50); w16(o, 0x31e); w16(o, 20); w16(o, f.descriptor ? 8 : 0); w16(o, f.deflated ? 8 : 0); w16(o, 0x6000); w16(o, 0x5000);
            w32(o, crc_of(f.data)); w32(o, f.bodySize); w32(o, f.data.size());
            w16(o, f.name.size()); w16(o, f.extra.size()); w16(o, f.comment.size()); w16(o, 0); w16(o, 0); w32(o, 0); w32(o, f.at);
            o += f.name; o += f.extra; o += f.comment;
        }
        a.end = o.size();
        w32(o, 0x06054b50); w16(o, 0); w16(o, 0); w16(o, a.files.size()); w16(o, a.files.size()); w32(o, a.end - a.dir); w32(o, a.dir); w16(o, a.comment.size());
        o += a.comment;
    }
    Archive archive(Source& s, bool comments = true)
    {
        Archive a;
        auto n = s.below(7);
        for (std::size_t i = 0; i < n; ++i)
        {
            F f;
            f.name = s.pick<std::string>({ "a", "b.txt", "dir/c", "dir/", "\xc3\xa9", "A", "", "a b", "dir\\d", "../e" });
            if (s.coin()) f.name += std::to_string(s.below(3));
            f.data = contents(s); f.deflated = s.coin(); f.level = static_cast<int>(s.below(10)); f.descriptor = s.chance(1, 4);
            if (s.chance(1, 4)) f.localExtra = s.bytes(s.below(12));
            if (s.chance(1, 4)) f.extra = s.bytes(s.below(12));
            if (s.chance(1, 4)) f.comment = s.bytes(s.below(12));
            if (s.chance(1, 6)) f.gap = s.bytes(s.below(8));
            a.files.push_back(std::move(f));
        }
        if (comments && s.chance(1, 3)) a.comment = s.from("abPK\x05\x06\x01", s.len(60));
        build(s, a);
        return a;
    }
    struct Block // exactly the archive's bytes, so that reading past either end is noticed
    {
        std::unique_ptr<unsigned char[]> p; std::size_t n;
        Block(std::string const& s) : p{ new unsigned char[s.size()] }, n{ s.size() } { std::copy(s.begin(), s.end(), p.get()); }
    };
    std::string file_of(fs::path const& p) { std::ifstream i(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), {}); }
    void put(fs::path const& p, std::string const& s) { std::ofstream o(p, std::ios::binary); o.write(s.data(), s.size()); }
    fs::path scratch() { auto p = fs::path(pbt::tmpDir()) / "zip"; fs::remove_all(p); fs::create_directories(p); return p; }
    struct Opened { std::unique_ptr<Block> block; std::unique_ptr<neolib::zip> z; };
    Opened open(Source& s, std::string const& bytes, int how)
    {
        Opened r;
        neolib::zip::buffer_type v(bytes.begin(), bytes.end());
        switch (how)
        {
        case 0: r.block = std::make_unique<Block>(bytes); r.z = std::make_unique<neolib::zip>(r.block->p.get(), r.block->n); break;
        case 1: r.z = std::make_unique<neolib::zip>(v); std::fill(v.begin(), v.end(), 0); break;
        case 2: r.z = std::make_unique<neolib::zip>(std::move(v)); break;
        default: { auto p = scratch() / "a.zip"; put(p, bytes); r.z = std::make_unique<neolib::zip>(p.string()); }
        }
        (void)s; return r;
    }
    std::string str(neolib::zip::buffer_type const& b) { return std::string(b.begin(), b.end()); }
}

PBT_SUITE("archives", 2500, 40000)
{
    auto a = archive(c.s);
    int how = static_cast<int>(c.s.below(4));
    c.note("files ", a.files.size(), " source ", how, " bytes ", a.bytes.size());
    for (auto& f : a.files) c.note(" ", show(f.name), " size ", f.data.size(), f.deflated ? " deflated " : " stored ", f.level, f.descriptor ? " descriptor" : "");
    auto o = open(c.s, a.bytes, how); auto& z = *o.z;
    REQUIRE(z.ok(), "a well-formed archive is refused");
    REQUIRE(z.file_count() == a.files.size(), "file_count ", z.file_count(), " of ", a.files.size());
    for (std::size_t i = 0; i < a.files.size(); ++i)
    {
        REQUIRE(z.file_path(i) == a.files[i].name, "file ", i, " is called ", show(z.file_path(i)));
        std::size_t first = 0; while (a.files[first].name != a.files[i].name) ++first;
        REQUIRE(z.index_of(a.files[i].name) == first, "index_of ", show(a.files[i].name), " is ", z.index_of(a.files[i].name), ", not ", first);
    }
    bool thrown = false; try { z.index_of("no such file"); } catch (neolib::zip::file_not_found const&) { thrown = true; }
    REQUIRE(thrown, "index_of finds a file that is not there");
    neolib::zip::buffer_type buffer; std::size_t kinds = 0;
    for (auto n = a.files.empty() ? 0 : a.files.size() + c.s.below(4); n > 0; --n)
    {
        auto i = c.s.below(a.files.size()); auto& f = a.files[i];
        if (c.s.chance(1, 3)) { auto t = z.extract_to_string(i); REQUIRE(t == f.data, "extract_to_string(", i, ") gives ", t.size(), " bytes ", show(t.substr(0, 60)), " for ", f.data.size()); }
        else
        {
            if (c.s.coin()) buffer.assign(c.s.below(50), 7);
            REQUIRE(z.extract_to(i, buffer), "extract_to(", i, ") fails");
            REQUIRE(str(buffer) == f.data, "extract_to(", i, ") gives ", buffer.size(), " bytes ", show(str(buffer).substr(0, 60)), " for ", f.data.size());
        }
        kinds |= f.deflated ? 2 : 1;
        REQUIRE(z.ok(), "extraction leaves the archive in error");
    }
    REQUIRE(!z.extract_to(a.files.size() + c.s.below(3), buffer), "a file beyond the last is extracted");
    REQUIRE(z.ok(), "asking for a file that is not there puts the archive in error");
    c.nontrivial(kinds == 3);
    if (a.files.size() > 1) c.label("several");
    if (!a.comment.empty()) c.label("comment");
}

PBT_SUITE("directory", 500, 6000)
{
    auto root = scratch(); auto target = root / "x" / "y" / "z"; fs::create_directories(target / "d" / "e");
    Archive a; auto n = 1 + c.s.below(5);
    bool inside = false, outside = false;
    for (std::size_t i = 0; i < n; ++i)
    {
        F f; std::string leaf = "n" + std::to_string(i);
        f.name = c.s.pick<std::string>({ "", "d/", "d/e/", "d/../", "./", "d/./e/", "../", "../../", "d/../../", "d/e/../../../", "abs", "none/" });
        if (f.name == "abs") f.name = root.string() + "/";
        f.name += leaf;
        if (c.s.chance(1, 6)) f.name = "d/..n" + std::to_string(i);
        f.data = contents(c.s); f.deflated = c.s.coin(); a.files.push_back(f);
    }
    build(c.s, a);
    bool slash = c.s.coin();
    for (std::size_t i = 0; i < n; ++i)
    {
        auto& f = a.files[i];
        auto o = open(c.s, a.bytes, static_cast<int>(c.s.below(3)));
        if (c.s.chance(1, 4)) put(target / ("n" + std::to_string(i)), std::string(c.s.below(30000), 'o')); // to be replaced
        auto path = fs::path(f.name); bool escapes = path.is_absolute() || *path.lexically_normal().begin() == "..";
        bool exists = f.name.find("none/") == std::string::npos;
        bool done = o.z->extract(i, target.string() + (slash ? "/" : ""));
        c.note(" ", show(f.name), " size ", f.data.size(), done ? " extracted" : " refused");
        if (escapes) { outside = true; REQUIRE(!done, "a file named ", show(f.name), " is extracted"); }
        else if (exists)
        {
            inside = true;
            REQUIRE(done && o.z->ok(), "a file named ", show(f.name), " is not extracted");
            REQUIRE(file_of(target / path) == f.data, "the extracted file ", show(f.name), " has ", file_of(target / path).size(), " bytes, not ", f.data.size(), " or other ones");
        }
        else REQUIRE(!done, "extraction into a directory that does not exist succeeds");
        for (auto& e : fs::recursive_directory_iterator(root))
            if (e.is_regular_file()) REQUIRE(e.path().string().rfind(target.string() + "/", 0) == 0, "extracting ", show(f.name), " wrote ", e.path().string(), " outside the target directory");
    }
    c.nontrivial(inside && outside);
}

PBT_SUITE("damage", 8000, 150000)
{
    auto a = archive(c.s, c.s.coin());
    auto b = a.bytes;
    int kind = static_cast<int>(c.s.below(5));
    std::size_t hit = a.files.size();
    switch (kind)
    {
    case 0: b.resize(c.s.below(b.size())); break; // truncation
    case 1: // a byte of a file's data
        if (!a.files.empty())
        {
            auto i = c.s.below(a.files.size()); auto& f = a.files[i];
            if (f.bodySize) { hit = i; b[f.body + c.s.below(f.bodySize)] ^= static_cast<char>(1 + c.s.below(255)); }
        }
        break;
    case 2: // a field of the directory, a local header or the end record
        for (auto n = 1 + c.s.below(3); n > 0; --n)
        {
            std::size_t base, at; unsigned width;
            if (a.files.empty() || c.s.chance(1, 4)) { base = a.end; at = c.s.pick<std::size_t>({ 4, 6, 8, 10, 12, 16, 20 }); width = at == 12 || at == 16 ? 4 : 2; }
            else if (c.s.coin()) { base = a.dirAt[c.s.below(a.dirAt.size())]; at = c.s.pick<std::size_t>({ 8, 10, 16, 20, 24, 28, 30, 32, 42 }); width = at == 16 || at == 20 || at == 24 || at == 42 ? 4 : 2; }
            else { base = c.s.pickv(a.files).at; at = c.s.pick<std::size_t>({ 6, 8, 14, 18, 22, 26, 28 }); width = at == 14 || at == 18 || at == 22 ? 4 : 2; }
            u64 v = c.s.pick<u64>({ 0, 1, 2, 0xff, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, b.size(), b.size() - 1, b.size() + 1, b.size() - 22, b.size() - 46 });
            if (c.s.coin()) { v = 0; for (unsigned k = 0; k < width; ++k) v |= static_cast<u64>(static_cast<unsigned char>(b[base + at + k])) << 8 * k; v += c.s.range(-3, 3); }
            for (unsigned k = 0; k < width; ++k) b[base + at + k] = static_cast<char>(v >> 8 * k);
            c.note(" field ", at, " of the record at ", base, " = ", v);
        }
        break;
    case 3: for (auto n = 1 + c.s.below(6); n > 0; --n) b[c.s.below(b.size())] = static_cast<char>(c.s.below(256)); break;
    default: // pieces cut out, doubled or swapped in
        for (auto n = 1 + c.s.below(3); n > 0 && b.size() > 1; --n)
        {
            auto p = c.s.below(b.size()), l = c.s.below(std::min<std::size_t>(b.size() - p, 40)) + 1;
            if (c.s.coin()) b.erase(p, l); else b.insert(c.s.below(b.size()), b.substr(p, l));
        }
    }
    int how = static_cast<int>(c.s.below(3));
    c.note("kind ", kind, " files ", a.files.size(), " bytes ", b.size(), " source ", how);
    auto o = open(c.s, b, how); auto& z = *o.z;
    if (kind == 0 && a.comment.empty()) REQUIRE(!z.ok() , "an archive without its end is opened");
    neolib::zip::buffer_type buffer; bool ok = z.ok();
    for (std::size_t i = 0; i < z.file_count() && i < 20; ++i)
    {
        bool was = z.ok(), done = z.extract_to(i, buffer);
        REQUIRE(was || !done, "a file is extracted from an archive in error");
        REQUIRE(done == (was && z.ok()), "a failed extraction leaves the archive without error, or the reverse");
        REQUIRE(z.file_path(i).size() <= b.size(), "a name longer than the archive");
        if (kind == 1 && was)
        {
            if (i == hit && done) REQUIRE(str(buffer) == a.files[i].data, "damaged data is extracted: ", show(str(buffer).substr(0, 60)));
            if (i != hit) REQUIRE(done && str(buffer) == a.files[i].data, "a file that is not damaged cannot be extracted");
            if (i == hit && !a.files[i].deflated) REQUIRE(!done, "a damaged stored file is extracted");
        }
    }
    c.nontrivial(ok && z.file_count() > 0);
    if (!ok) c.label("refused"); else if (!z.ok()) c.label("extraction fails");
}
