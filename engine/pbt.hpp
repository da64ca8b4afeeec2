// Small choice-sequence property-based testing engine (see DESIGN.md).
// A case draws every random decision from Source::below(); the recorded draws are the case:
// they are what is shrunk, and what a replay file holds.
#pragma once
#include <cstdint>
#include <unistd.h>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <stdexcept>
#include <utility>
#include <initializer_list>

namespace pbt
{
    using u64 = std::uint64_t;
    using i64 = std::int64_t;

    struct Failure { std::string msg; };

    constexpr std::size_t kMaxDraws = std::size_t(1) << 17;
    struct Record { volatile std::uint32_t n; u64 v[kMaxDraws]; };

    inline u64 splitmix(u64& x)
    {
        u64 z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }

    class Source
    {
    public:
        enum class Mode { Random, Choices, Bytes };
        Source(Record& aRec, u64 aSeed) : rec{ aRec }, mode{ Mode::Random }, state{ aSeed } { rec.n = 0; }
        Source(Record& aRec, std::vector<u64> const& aChoices) : rec{ aRec }, mode{ Mode::Choices }, choices{ &aChoices } { rec.n = 0; }
        Source(Record& aRec, unsigned char const* aData, std::size_t aSize) : rec{ aRec }, mode{ Mode::Bytes }, data{ aData }, dataEnd{ aData + aSize } { rec.n = 0; }

        // uniform in [0, n); n == 0 means the whole 64-bit range
        u64 below(u64 n)
        {
            u64 r = 0;
            if (n != 1)
            {
                switch (mode)
                {
                case Mode::Random: r = splitmix(state); if (n) r = static_cast<u64>((static_cast<unsigned __int128>(r) * n) >> 64); break;
                case Mode::Choices: r = pos < choices->size() ? (*choices)[pos] : 0; ++pos; if (n && r >= n) r %= n; break;
                case Mode::Bytes:
                {
                    int bytes = n == 0 ? 8 : n <= 0x100 ? 1 : n <= 0x10000 ? 2 : n <= 0x100000000ull ? 4 : 8;
                    for (int i = 0; i < bytes && data != dataEnd; ++i) r |= static_cast<u64>(*data++) << (8 * i);
                    if (n) r %= n;
                    break;
                }
                }
            }
            else if (mode == Mode::Choices)
                ++pos;
            if (rec.n < kMaxDraws) { rec.v[rec.n] = r; rec.n = rec.n + 1; }
            else r = 0;
            return r;
        }
        bool exhausted() const { return rec.n >= kMaxDraws || (mode == Mode::Bytes && data == dataEnd); }
        i64 range(i64 lo, i64 hi) { return static_cast<i64>(static_cast<u64>(lo) + below(static_cast<u64>(hi) - static_cast<u64>(lo) + 1)); }
        bool chance(unsigned num, unsigned den) { return below(den) >= den - num; } // shrinks to false
        bool coin() { return below(2) != 0; }
        // log-uniform length in [0, max]
        std::size_t len(std::size_t max)
        {
            unsigned bits = 0; while ((std::size_t(1) << bits) <= max && bits < 40) ++bits; // 2^bits > max
            auto b = below(bits + 1);
            if (b == 0) return 0;
            std::size_t lo = std::size_t(1) << (b - 1), hi = (std::size_t(1) << b) - 1;
            if (hi > max) hi = max;
            if (lo > hi) lo = hi;
            return lo + below(hi - lo + 1);
        }
        template <typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
        template <typename V> auto const& pickv(V const& v) { return v[below(v.size())]; }
        // 64-bit value biased to boundaries
        u64 edgy()
        {
            switch (below(5))
            {
            case 0: return below(256);
            case 1: { unsigned s = static_cast<unsigned>(below(64)); return u64(1) << s; }
            case 2: { unsigned s = static_cast<unsigned>(below(64)); return (u64(1) << s) - 1 - below(3); }
            case 3: { unsigned s = static_cast<unsigned>(below(64)); return below(0) >> s; }
            default: return below(0);
            }
        }
        std::string bytes(std::size_t n) { std::string r; for (std::size_t i = 0; i < n; ++i) r += static_cast<char>(below(256)); return r; }
        std::string from(std::string const& alphabet, std::size_t n) { std::string r; for (std::size_t i = 0; i < n; ++i) r += alphabet[below(alphabet.size())]; return r; }
        std::uint32_t drawn() const { return rec.n; }
    private:
        Record& rec;
        Mode mode;
        u64 state = 0;
        std::vector<u64> const* choices = nullptr;
        std::size_t pos = 0;
        unsigned char const* data = nullptr;
        unsigned char const* dataEnd = nullptr;
    };

    // a scratch directory of this process's own, removed at the end of the run; not created here
    std::string tmpDir();

    // printable rendering of any bytes
    inline std::string show(std::string_view s)
    {
        std::string r = "\"";
        char b[8];
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
            else if (c < 32 || c >= 127) { std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
            else r += static_cast<char>(c);
        }
        return r + "\"";
    }

    class Case
    {
    public:
        Case(Source& s, bool aTrace) : s{ s }, tracing{ aTrace } {}
        Source& s;
        bool tracing;
        bool isNontrivial = false;
        std::ostringstream trace;
        std::string softFailure;
        std::vector<char const*> labels;
        void label(char const* l) { for (auto e : labels) if (e == l) return; labels.push_back(l); }
        void nontrivial(bool b = true) { if (b) isNontrivial = true; }
        template <typename... A> void note(A const&... a)
        {
            if (!tracing || traced > 40000) return;
            std::ostringstream o; (o << ... << a); o << '\n'; auto const l = o.str(); traced += l.size();
            if (traceFd >= 0) (void)!write(traceFd, l.data(), l.size()); // survives a crash
            else trace << l;
        }
        int traceFd = -1;
        std::size_t traced = 0;
        // for failures noticed where throwing is unsafe (callbacks, other threads under a lock, destructors)
        void soft(std::string const& m) { if (softFailure.empty()) softFailure = m; }
    };

    struct Suite
    {
        char const* name;
        void (*fn)(Case&);
        u64 quick;
        u64 thorough;
        unsigned jobs;     // max worker processes (0: all)
        Suite* next;
    };
    inline Suite*& suites() { static Suite* s = nullptr; return s; }
    struct Register
    {
        Suite suite;
        Register(char const* n, void (*f)(Case&), u64 q, u64 t, unsigned j) : suite{ n, f, q, t, j, nullptr }
        {
            Suite** p = &suites(); while (*p && std::strcmp((*p)->name, n) < 0) p = &(*p)->next;
            suite.next = *p; *p = &suite;
        }
    };
    // A recorded, unrepaired defect: returns true while the specific failing input still fails (a crash counts too).
    struct Finding { char const* id; char const* what; bool (*fn)(); Finding* next; };
    inline Finding*& findings() { static Finding* f = nullptr; return f; }
    struct RegisterFinding
    {
        Finding f;
        RegisterFinding(char const* id, char const* w, bool (*fn)()) : f{ id, w, fn, findings() } { findings() = &f; }
    };

    inline std::string cat() { return {}; }
    template <typename... A> std::string cat(A const&... a) { std::ostringstream o; (o << ... << a); return o.str(); }
}

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_SUITE_J(name, quick, thorough, jobs) \
    static void PBT_CAT(pbt_suite_, __LINE__)(pbt::Case& c); \
    static pbt::Register PBT_CAT(pbt_reg_, __LINE__){ name, &PBT_CAT(pbt_suite_, __LINE__), quick, thorough, jobs }; \
    static void PBT_CAT(pbt_suite_, __LINE__)([[maybe_unused]] pbt::Case& c)
#define PBT_SUITE(name, quick, thorough) PBT_SUITE_J(name, quick, thorough, 0)
#define PBT_FINDING(id, what) \
    static bool PBT_CAT(pbt_finding_, __LINE__)(); \
    static pbt::RegisterFinding PBT_CAT(pbt_freg_, __LINE__){ id, what, &PBT_CAT(pbt_finding_, __LINE__) }; \
    static bool PBT_CAT(pbt_finding_, __LINE__)()
#define REQUIRE(cond, ...) do { if (!(cond)) throw pbt::Failure{ pbt::cat(__FILE__, ":", __LINE__, ": ", #cond, "  " __VA_OPT__(,) __VA_ARGS__) }; } while (0)
#define FAIL(...) throw pbt::Failure{ pbt::cat(__FILE__, ":", __LINE__, ": ", __VA_ARGS__) }
