// E03: locks. One suite steps worker threads through a history of lock, try-lock and unlock calls and compares with an
// owner/depth model; the other lets threads contend freely over data that only the locks protect (ThreadSanitizer).
#if PBT_PART >= 3
#define NEOS_PROFILE_MUTEX
#endif
#include "pbt.hpp"
#include <neolib/neolib.hpp>
#include <neolib/core/service.hpp>
#include <neolib/core/mutex.hpp>
#include <boost/thread/lock_algorithms.hpp>
#include <deque>
#include <memory>
#include <thread>
#include <atomic>
#include <condition_variable>

using namespace pbt;

namespace
{
    struct Tag {}; // every part has its own instantiations
    using Lockable = neolib::i_lockable;
    using Rec = neolib::recursive_mutex<Tag>; using Spin = neolib::recursive_mutex<Tag, true>; using SpinYield = neolib::recursive_mutex<Tag, true, true>; using Switch = neolib::switchable_mutex<Tag>;
    std::unique_ptr<Lockable> make(Case& c, std::vector<std::unique_ptr<Lockable>>& owned, bool single)
    {
        switch (c.s.below(single ? 8 : 7))
        {
        case 0: return std::make_unique<Rec>();
        case 1: return std::make_unique<Spin>();
        case 2: return std::make_unique<SpinYield>();
        case 3: { auto m = std::make_unique<Switch>(); if (c.s.coin()) { m->set_single_threaded(); m->set_multi_threaded(); } return m; }
        case 4: { auto m = std::make_unique<Switch>(); m->set_multi_threaded_profiled(); return m; }
        case 5: { auto m = std::make_unique<Switch>(); m->set_multi_threaded_spinlock(); return m; }
        case 6: { auto m = make(c, owned, false); auto p = std::make_unique<neolib::proxy_mutex<Lockable>>(*m); owned.push_back(std::move(m)); return p; }
        default: { auto m = std::make_unique<Switch>(); m->set_single_threaded(); return m; }
        }
    }
    void services()
    {
        static bool const sProvider = (neolib::allocate_service_provider(), true); (void)sProvider;
    }
#ifdef NEOS_PROFILE_MUTEX
    struct Observer : neolib::i_mutex_profiler_observer
    {
        std::atomic<int> n{ 0 };
        void mutex_contended(Lockable&, const std::chrono::microseconds&, neolib::mutex_lock_info const*, std::size_t) noexcept override { ++n; }
    };
    void profile(Case& c)
    {
        static Observer& sObserver = *new Observer;
        auto& p = neolib::services::service<neolib::i_mutex_profiler>(); static bool const sOnce = (p.subscribe(sObserver), true); (void)sOnce;
        if (c.s.chance(3, 4)) p.enable(std::chrono::microseconds{ static_cast<int>(c.s.below(20)) }, static_cast<std::uint32_t>(c.s.below(3)), false); else p.disable();
    }
#else
    void profile(Case&) {}
#endif

    // a thread that runs one call at a time for the controller
    struct Worker
    {
        std::mutex m; std::condition_variable cv; std::function<void()> job; bool busy = false, stop = false; std::thread t;
        Worker() : t{ [this] { std::unique_lock l{ m }; for (;;) { cv.wait(l, [&] { return stop || job; }); if (!job) return; auto j = std::move(job); job = nullptr; l.unlock(); j(); l.lock(); busy = false; cv.notify_all(); } } } {}
        ~Worker() { { std::unique_lock l{ m }; stop = true; } cv.notify_all(); t.join(); }
        void start(std::function<void()> f) { std::unique_lock l{ m }; job = std::move(f); busy = true; cv.notify_all(); }
        void wait() { std::unique_lock l{ m }; cv.wait(l, [&] { return !busy; }); }
        bool done() { std::unique_lock l{ m }; return !busy; }
    };
}

#if PBT_PART == 0 
#define HISTORIES "histories"
#elif PBT_PART == 3
#define HISTORIES "histories_profiled"
#endif
#ifdef HISTORIES
PBT_SUITE(HISTORIES, PBT_PART == 0 ? 8000 : 2000, PBT_PART == 0 ? 100000 : 20000)
{
    services(); profile(c);
    int const T = 1 + static_cast<int>(c.s.below(3)), M = 1 + static_cast<int>(c.s.below(3));
    std::vector<std::unique_ptr<Lockable>> owned, mx; for (int i = 0; i < M; ++i) mx.push_back(make(c, owned, T == 1));
    struct Model { int owner = -1, depth = 0; std::vector<int> waiting; }; std::vector<Model> md(static_cast<std::size_t>(M));
    std::vector<std::unique_ptr<Worker>> w; for (int i = 0; i < T; ++i) w.push_back(std::make_unique<Worker>());
    std::vector<int> waitsFor(static_cast<std::size_t>(T), -1); std::vector<char> result(static_cast<std::size_t>(T));
    int contended = 0, recursed = 0, refused = 0; bool const nullMutex = T == 1;
    auto settle = [&](std::size_t m)
    {
        if (md[m].waiting.empty() || md[m].owner >= 0) return;
        // one waiter must get the lock; it is whichever finishes its call first
        for (;;) { for (std::size_t k = 0; k < md[m].waiting.size(); ++k) { int t = md[m].waiting[k]; if (w[static_cast<std::size_t>(t)]->done()) { md[m].owner = t; md[m].depth = 1; md[m].waiting.erase(md[m].waiting.begin() + static_cast<std::ptrdiff_t>(k)); waitsFor[static_cast<std::size_t>(t)] = -1; return; } } std::this_thread::yield(); }
    };
    auto unlock = [&](int t, std::size_t m)
    {
        w[static_cast<std::size_t>(t)]->start([&, m] { mx[m]->unlock(); }); w[static_cast<std::size_t>(t)]->wait();
        if (--md[m].depth == 0) { md[m].owner = -1; settle(m); }
    };
    auto blockedEarly = [&] { for (auto& m : md) for (int t : m.waiting) if (w[static_cast<std::size_t>(t)]->done()) FAIL("thread ", t, " got a lock that thread ", m.owner, " holds ", m.depth, " times"); };
    std::size_t n = 4 + c.s.len(36);
    while (n--)
    {
        int const t = static_cast<int>(c.s.below(static_cast<u64>(T))); auto const m = static_cast<std::size_t>(c.s.below(static_cast<u64>(M))); auto const op = c.s.below(5); bool const many = c.s.chance(1, 8);
        if (waitsFor[static_cast<std::size_t>(t)] >= 0) continue;
        if (op < 2)
        {
            if (md[m].owner >= 0 && md[m].owner != t)
            {
                // waiting would deadlock if the chain of owners leads back here
                bool cycle = false; for (int k = md[m].owner; k >= 0 && !cycle; ) { int wf = waitsFor[static_cast<std::size_t>(k)]; if (wf < 0) break; k = md[static_cast<std::size_t>(wf)].owner; cycle = k == t; }
                if (cycle) continue;
                c.note("thread ", t, " waits for lock ", m); ++contended; waitsFor[static_cast<std::size_t>(t)] = static_cast<int>(m); md[m].waiting.push_back(t);
                w[static_cast<std::size_t>(t)]->start([&, m] { mx[m]->lock(); });
            }
            else
            {
                int const times = many ? 1 + static_cast<int>(c.s.below(300)) : 1; c.note("thread ", t, " locks ", m, " ", times, " times"); if (md[m].owner == t || times > 1) ++recursed;
                w[static_cast<std::size_t>(t)]->start([&, m] { for (int k = 0; k < times; ++k) mx[m]->lock(); }); w[static_cast<std::size_t>(t)]->wait(); md[m].owner = t; md[m].depth += times;
            }
        }
        else if (op == 2)
        {
            bool const want = md[m].owner < 0 || md[m].owner == t; c.note("thread ", t, " tries ", m);
            w[static_cast<std::size_t>(t)]->start([&, m] { result[static_cast<std::size_t>(t)] = mx[m]->try_lock(); }); w[static_cast<std::size_t>(t)]->wait(); bool const got = result[static_cast<std::size_t>(t)];
            REQUIRE(got == want, "thread ", t, " try_lock of lock ", m, " owned by ", md[m].owner, " gave ", got);
            if (got) { if (md[m].owner == t) ++recursed; md[m].owner = t; ++md[m].depth; } else ++refused;
        }
        else if (md[m].owner == t) { int times = many ? md[m].depth : 1; c.note("thread ", t, " unlocks ", m, " ", times, " times"); while (times--) unlock(t, m); }
        blockedEarly();
    }
    // release everything; whoever waits must get in
    for (bool again = true; again; )
    {
        again = false;
        for (std::size_t m = 0; m < md.size(); ++m) while (md[m].owner >= 0 && waitsFor[static_cast<std::size_t>(md[m].owner)] < 0) { again = true; unlock(md[m].owner, m); blockedEarly(); }
    }
    for (std::size_t m = 0; m < md.size(); ++m) for (int t = 0; t < T; ++t)
    {
        w[static_cast<std::size_t>(t)]->start([&, m] { result[static_cast<std::size_t>(t)] = mx[m]->try_lock(); if (result[static_cast<std::size_t>(t)]) mx[m]->unlock(); }); w[static_cast<std::size_t>(t)]->wait();
        REQUIRE(result[static_cast<std::size_t>(t)], "lock ", m, " is not available to thread ", t, " after every acquisition was released");
    }
    if (refused) c.label("try_lock refused"); if (contended) c.label("waited"); if (nullMutex) c.label("one thread");
    c.nontrivial(recursed && contended + refused > 0);
}
#endif

#if PBT_PART == 1
#define CONTEND "contention"
#elif PBT_PART == 4
#define CONTEND "contention_profiled"
#endif
#ifdef CONTEND
namespace { struct Op { int k; std::size_t m; std::vector<std::size_t> set; int work; }; }
PBT_SUITE(CONTEND, PBT_PART == 1 ? 8000 : 2000, PBT_PART == 1 ? 100000 : 20000)
{
    services(); profile(c);
    int const T = 2 + static_cast<int>(c.s.below(4)); std::size_t const M = 1 + c.s.below(4);
    std::vector<std::unique_ptr<Lockable>> owned, mx; for (std::size_t i = 0; i < M; ++i) mx.push_back(make(c, owned, false));
    struct alignas(64) Data { int owner = -1, depth = 0; long sum = 0; }; std::vector<Data> data(M);
    std::vector<std::vector<Op>> prog(static_cast<std::size_t>(T)); int multi = 0, total = 0;
    for (auto& p : prog) for (std::size_t n = 5 + c.s.len(40); n--; )
    {
        Op o{ static_cast<int>(c.s.below(7)), static_cast<std::size_t>(c.s.below(M)), {}, static_cast<int>(c.s.below(30)) };
        if (o.k == 5) { for (std::size_t k = c.s.below(M + 2); k--; ) o.set.push_back(static_cast<std::size_t>(c.s.below(M))); if (o.set.size() > 1) ++multi; }
        ++total; p.push_back(std::move(o));
    }
    c.note(T, " threads over ", M, " locks, ", total, " operations");
    std::vector<std::string> bad(static_cast<std::size_t>(T)); std::atomic<int> ready{ 0 }; std::atomic<long> expected{ 0 }; std::atomic<int> fails{ 0 };
    auto run = [&](int t)
    {
        auto& why = bad[static_cast<std::size_t>(t)]; std::vector<int> held(M); long mine = 0;
        auto entered = [&](std::size_t m) { auto& d = data[m]; if (d.owner != (held[m] ? t : -1) || d.depth != held[m]) why = "entered lock " + std::to_string(m) + " while thread " + std::to_string(d.owner) + " holds it"; d.owner = t; d.depth = ++held[m]; };
        auto leave = [&](std::size_t m) { auto& d = data[m]; if (d.owner != t || d.depth != held[m]) why = "lost lock " + std::to_string(m) + " while holding it"; d.depth = --held[m]; if (!held[m]) d.owner = -1; };
        auto highest = [&] { std::ptrdiff_t h = -1; for (std::size_t k = 0; k < M; ++k) if (held[k]) h = static_cast<std::ptrdiff_t>(k); return h; };
        ++ready; while (ready < T) std::this_thread::yield();
        for (auto& o : prog[static_cast<std::size_t>(t)])
        {
            switch (o.k)
            {
            case 0: case 1: if (held[o.m] || static_cast<std::ptrdiff_t>(o.m) > highest()) { mx[o.m]->lock(); entered(o.m); } break;
            case 2: if (mx[o.m]->try_lock()) entered(o.m); else { ++fails; if (held[o.m]) why = "try_lock failed on a lock the thread owns"; } break;
            case 3: if (held[o.m]) { leave(o.m); mx[o.m]->unlock(); } break;
            case 4: for (std::size_t k = 0; k < M; ++k) while (held[k]) { leave(k); mx[k]->unlock(); } break;
            case 5:
                {
                    bool ok = true; for (auto k : o.set) ok = ok && (held[k] || static_cast<std::ptrdiff_t>(k) > highest()); if (!ok) break;
                    std::vector<neolib::proxy_mutex<Lockable>> l; for (auto k : o.set) l.push_back(neolib::proxy_mutex<Lockable>{ *mx[k] });
                    {
                        neolib::scoped_multi_lock<decltype(l)> lock{ l };
                        for (auto k : o.set) entered(k);
                        for (int i = 0; i < o.work; ++i) for (auto k : o.set) { ++data[k].sum; ++mine; }
                        for (auto k : o.set) leave(k);
                    }
                }
                break;
            default: for (int i = 0; i < o.work; ++i) for (std::size_t k = 0; k < M; ++k) if (held[k]) { ++data[k].sum; ++mine; } if (o.work % 7 == 0) std::this_thread::yield(); break;
            }
        }
        for (std::size_t k = 0; k < M; ++k) while (held[k]) { leave(k); mx[k]->unlock(); }
        expected += mine;
    };
    std::vector<std::thread> th; for (int t = 0; t < T; ++t) th.emplace_back(run, t); for (auto& t : th) t.join();
    for (auto& b : bad) REQUIRE(b.empty(), b);
    long sum = 0; for (auto& d : data) { sum += d.sum; REQUIRE(d.owner == -1 && d.depth == 0, "a lock's data was left owned"); }
    REQUIRE(sum == expected, "updates under the locks were lost: ", sum, " of ", expected.load());
    for (std::size_t m = 0; m < M; ++m) { REQUIRE(mx[m]->try_lock(), "lock ", m, " is not free at the end"); mx[m]->unlock(); }
    if (fails) c.label("try_lock refused"); c.nontrivial(multi >= 2 && total >= 20);
}
#endif

#if PBT_PART == 2
// few threads hammering one lock: wake-ups must not be lost
PBT_SUITE("handover", 800, 6000)
{
    services();
    std::vector<std::unique_ptr<Lockable>> owned; auto m = make(c, owned, false); int const T = 2 + static_cast<int>(c.s.below(7)); int const rounds = 200 + static_cast<int>(c.s.below(800)); int const hold = static_cast<int>(c.s.below(40)), rec = static_cast<int>(c.s.below(3));
    long count = 0; std::vector<std::thread> th; bool overlap = false; int inside = 0;
    for (int t = 0; t < T; ++t) th.emplace_back([&, t]
    {
        for (int r = 0; r < rounds; ++r) { m->lock(); for (int k = 0; k < rec; ++k) m->lock(); if (++inside != 1) overlap = true; for (int k = 0; k < hold; ++k) ++count; --inside; for (int k = 0; k < rec; ++k) m->unlock(); m->unlock(); if ((r + t) % 64 == 0) std::this_thread::yield(); }
    });
    for (auto& t : th) t.join();
    REQUIRE(!overlap, "two threads were inside at once"); REQUIRE(count == static_cast<long>(T) * rounds * hold, "updates lost");
    c.nontrivial(hold > 0 && T > 2);
}
#endif
