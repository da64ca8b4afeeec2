// C12: the pool allocators against a map of live blocks, and containers built on them against plain ones.
#include "tracked.hpp"
#include <list>
#include <map>
#include <set>
#include <vector>
#include <algorithm>
#include <neolib/core/allocator.hpp>

using namespace pbt;

namespace
{
    struct Odd { char b[12]; };
    struct Big { double d[25]; char tail[3]; };
    struct alignas(32) Wide { char b[40]; };
    struct Block { unsigned char* p; std::size_t n, size; unsigned char tag; };

    struct Arena
    {
        std::vector<Block> live; unsigned char next = 1;
        void add(Case& c, void* v, std::size_t n, std::size_t each, std::size_t align)
        {
            auto p = static_cast<unsigned char*>(v);
            REQUIRE(p != nullptr && reinterpret_cast<std::uintptr_t>(p) % align == 0, "misaligned block");
            for (auto& b : live) REQUIRE(p + n * each <= b.p || b.p + b.size <= p, "block overlaps a live block");
            Block b{ p, n, n * each, next++ }; if (!next) next = 1;
            std::memset(p, b.tag, b.size); live.push_back(b);
        }
        void verify() { for (auto& b : live) for (std::size_t i = 0; i < b.size; ++i) REQUIRE(b.p[i] == b.tag, "contents of a live block changed"); }
    };

    template <typename A>
    void blocks(Case& c, bool bulk, std::size_t capacity)
    {
        using T = typename A::value_type;
        A alloc; Arena arena; int frees = 0, reused = 0, refused = 0; std::size_t peak = 0; std::set<void*> seen;
        // whatever happens, everything goes back: the pools are shared by all cases of a process
        struct Cleanup { A& a; Arena& r; ~Cleanup() { for (auto& b : r.live) a.deallocate(reinterpret_cast<T*>(b.p), b.n); } } cleanup{ alloc, arena };
        int n = 1 + static_cast<int>(c.s.len(150));
        while (n-- > 0)
        {
            if (c.s.chance(3, 5) || arena.live.empty())
            {
                std::size_t k = bulk && c.s.chance(1, 5) ? c.s.below(6) + 2 : 1;
                if (capacity && c.s.chance(1, 10)) k = 2;
                c.note("allocate ", k);
                T* p = nullptr;
                try { A other{ alloc }; p = other.allocate(k); } catch (std::bad_alloc const&) { REQUIRE(capacity && (k != 1 || arena.live.size() == capacity), "refused with ", arena.live.size(), " of ", capacity, " in use"); ++refused; continue; }
                if (capacity) REQUIRE(k == 1 && arena.live.size() < capacity, "over-committed: ", arena.live.size(), " blocks were live");
                arena.add(c, p, k, sizeof(T), alignof(T));
                if (!seen.insert(p).second) ++reused;
            }
            else
            {
                std::size_t i = c.s.below(arena.live.size()); Block b = arena.live[i]; c.note("deallocate block ", i);
                for (std::size_t j = 0; j < b.size; ++j) REQUIRE(b.p[j] == b.tag, "contents of a live block changed");
                arena.live.erase(arena.live.begin() + i); alloc.deallocate(reinterpret_cast<T*>(b.p), b.n); ++frees;
            }
            peak = std::max(peak, arena.live.size());
            if (arena.live.size() % 8 == 0) arena.verify();
        }
        arena.verify();
        if (reused) c.label("block reused"); if (refused) c.label("request refused"); if (peak > 60) c.label("more than 60 live blocks");
        c.nontrivial(frees >= 2 && reused && peak >= 4);
    }

    template <typename T, std::size_t Chunk>
    void omega(Case& c)
    {
        using A = neolib::neo_pool_allocator<T, Chunk, true, 77>;
        int total = 0;
        for (int round = 0, rounds = 1 + static_cast<int>(c.s.below(3)); round < rounds; ++round)
        {
            A::omega_recycle(); // everything handed out before may be handed out again from here on
            Arena arena; int n = static_cast<int>(c.s.len(120));
            c.note("round of ", n);
            while (n-- > 0)
            {
                auto p = A::allocate(); arena.add(c, p, 1, sizeof(T), alignof(T)); ++total;
                if (c.s.chance(1, 5)) A::deallocate(p); // keeps the block
                if (n % 16 == 0) arena.verify();
            }
            arena.verify();
        }
        c.nontrivial(total >= 20);
    }

    // the element count must be right to within the pool's own bookkeeping, so containers built on the allocators act as plain ones
    template <template <typename> typename A>
    void containers(Case& c)
    {
        Tracked::reset();
        int ops = 0;
        {
            std::list<Tracked, A<Tracked>> l, l2; std::list<int> ml, ml2;
            std::map<int, Tracked, std::less<int>, A<std::pair<int const, Tracked>>> m; std::map<int, int> mm;
            std::vector<Tracked, A<Tracked>> v; std::vector<int> mv;
            int n = static_cast<int>(c.s.len(60));
            while (n-- > 0)
            {
                int x = static_cast<int>(c.s.below(50)); auto op = c.s.below(12); ++ops; c.note("op ", op, " value ", x);
                switch (op)
                {
                case 0: l.push_back(x); ml.push_back(x); break;
                case 1: l.push_front(x); ml.push_front(x); break;
                case 2: if (!ml.empty()) { auto k = static_cast<std::ptrdiff_t>(c.s.below(ml.size())); l.erase(std::next(l.begin(), k)); ml.erase(std::next(ml.begin(), k)); } break;
                case 3: l2.splice(l2.begin(), l); ml2.splice(ml2.begin(), ml); break;
                case 4: l2.swap(l); ml2.swap(ml); break;
                case 5: m.insert_or_assign(x, Tracked{ x * 2 }); mm[x] = x * 2; break;
                case 6: m.erase(x); mm.erase(x); break;
                case 7: { auto t = m; m.clear(); m = std::move(t); break; }
                case 8: v.push_back(x); mv.push_back(x); break;
                case 9: if (!mv.empty()) { auto k = c.s.below(mv.size()); v.erase(v.begin() + k); mv.erase(mv.begin() + k); } break;
                case 10: v.insert(v.begin(), x); mv.insert(mv.begin(), x); break;
                case 11: v.shrink_to_fit(); l.sort(); ml.sort(); break;
                }
                REQUIRE(std::equal(l.begin(), l.end(), ml.begin(), ml.end(), [](Tracked const& a, int b) { return a.v == b; }) && std::equal(l2.begin(), l2.end(), ml2.begin(), ml2.end(), [](Tracked const& a, int b) { return a.v == b; }), "list");
                REQUIRE(std::equal(v.begin(), v.end(), mv.begin(), mv.end(), [](Tracked const& a, int b) { return a.v == b; }), "vector");
                REQUIRE(std::equal(m.begin(), m.end(), mm.begin(), mm.end(), [](auto const& a, auto const& b) { return a.first == b.first && a.second.v == b.second; }), "map");
            }
        }
        REQUIRE(Tracked::error.empty() && Tracked::live == 0, Tracked::error);
        c.nontrivial(ops >= 10);
    }
    template <typename T> using Pool = neolib::neo_pool_allocator<T, 256, false, 5>;
    template <typename T> using BoostPool = neolib::pool_allocator<T>;
    template <typename T> using BoostFast = neolib::fast_pool_allocator<T>;
}

PBT_SUITE("pool-int", 2000, 60000) { blocks<neolib::neo_pool_allocator<int, 256>>(c, true, 0); }
PBT_SUITE("pool-odd-size", 2000, 60000) { blocks<neolib::neo_pool_allocator<Odd, 100>>(c, true, 0); }
PBT_SUITE("pool-bigger-than-chunk", 2000, 60000) { blocks<neolib::neo_pool_allocator<Big, 64>>(c, true, 0); }
PBT_SUITE("pool-over-aligned", 2000, 60000) { blocks<neolib::neo_pool_allocator<Wide, 1000>>(c, true, 0); }
PBT_SUITE("pool-tiny-chunk", 2000, 60000) { blocks<neolib::neo_pool_allocator<char, 4>>(c, true, 0); }
PBT_SUITE("reserve-int", 2000, 60000) { blocks<neolib::reserve_allocator<int, 7>>(c, false, 7); }
PBT_SUITE("reserve-odd", 2000, 60000) { blocks<neolib::reserve_allocator<Odd, 40>>(c, false, 40); }
PBT_SUITE("reserve-one", 1000, 60000) { blocks<neolib::reserve_allocator<Big, 1>>(c, false, 1); }
PBT_SUITE("reserve-over-aligned", 1000, 60000) { blocks<neolib::reserve_allocator<Wide, 9>>(c, false, 9); }
PBT_SUITE("omega-int", 2000, 60000) { omega<int, 200>(c); }
PBT_SUITE("omega-odd", 2000, 60000) { omega<Odd, 100>(c); }
PBT_SUITE("omega-big", 2000, 60000) { omega<Big, 64>(c); }
PBT_SUITE("containers-pool", 3000, 100000) { containers<Pool>(c); }
PBT_SUITE("containers-boost-pool", 500, 20000) { containers<BoostPool>(c); }
PBT_SUITE("containers-boost-fast-pool", 500, 20000) { containers<BoostFast>(c); }
