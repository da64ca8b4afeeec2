// E04: thread pool. Generated programs of submissions from one or several threads; every accepted task must run exactly
// once, futures must carry results and exceptions, wait() must cover everything submitted before. ThreadSanitizer.
#include "pbt.hpp"
#include <neolib/neolib.hpp>
#include <neolib/task/thread_pool.hpp>
#include <list>
#include <deque>
#include <set>
#include <memory>
#include <thread>
#include <atomic>
#include <chrono>

using namespace pbt;
#if PBT_PART == 0
unsigned gThreads = 4;
unsigned std::thread::hardware_concurrency() noexcept { return gThreads; } // pools size themselves by this
#else
extern unsigned gThreads;
#endif
namespace
{
    struct Oops { int id; };
    struct Job : neolib::task<>
    {
        std::atomic<int> started{ 0 }, finished{ 0 }; std::function<void()> body;
        Job(std::function<void()> b = {}) : body{ std::move(b) } {}
        void run(neolib::yield_type) override { ++started; if (body) body(); ++finished; }
    };
    struct Gate
    {
        std::mutex m; std::condition_variable cv; bool open = false; int waiting = 0;
        void pass() { std::unique_lock l{ m }; ++waiting; cv.notify_all(); cv.wait(l, [&] { return open; }); }
        void await(int n) { std::unique_lock l{ m }; cv.wait(l, [&] { return waiting >= n; }); }
        void release() { std::unique_lock l{ m }; open = true; cv.notify_all(); }
    };
    void spin(int n) { for (volatile int i = 0; i < n * 20; ++i) {} if (n % 5 == 0) std::this_thread::yield(); }
}

#if PBT_PART == 0
namespace
{
    struct Task { int kind, prio, work; int spawn; };
    struct Ran { std::atomic<int> runs{ 0 }; std::atomic<bool> done{ false }; bool submitted = false; };
    struct Step { int op; Task t; int n; };
}
PBT_SUITE("programs", 15000, 300000)
{
    gThreads = 1 + static_cast<unsigned>(c.s.below(5)); int const S = 1 + static_cast<int>(c.s.below(3)); bool const more = c.s.chance(1, 4), waitAtEnd = c.s.coin();
    std::vector<std::vector<Step>> prog(static_cast<std::size_t>(S)); int total = 0;
    for (auto& p : prog) for (std::size_t n = 1 + c.s.len(25); n--; ) { p.push_back(Step{ static_cast<int>(c.s.below(9)), Task{ static_cast<int>(c.s.below(4)), static_cast<int>(c.s.below(5)) - 2, static_cast<int>(c.s.below(60)), c.s.chance(1, 5) ? static_cast<int>(c.s.below(4)) : 0 }, static_cast<int>(c.s.below(20)) }); ++total; }
    c.note(S, " submitters, ", gThreads, " threads, ", total, " steps");
    std::vector<std::deque<Ran>> rec(static_cast<std::size_t>(S)); std::vector<std::deque<std::shared_ptr<Job>>> jobs(static_cast<std::size_t>(S)); std::vector<std::string> bad(static_cast<std::size_t>(S)); std::atomic<int> children{ 0 }, childRuns{ 0 }; std::atomic<int> waits{ 0 }, throws{ 0 };
    struct Promise { std::future<int> i; std::future<void> v; int kind; int value; };
    std::vector<std::vector<Promise>> futures(static_cast<std::size_t>(S));
    {
        neolib::thread_pool pool; if (more) { gThreads += 1; pool.reserve(gThreads); }
        REQUIRE(pool.max_threads() == gThreads && pool.idle() && !pool.busy() && !pool.stopped(), "a new pool is not idle with all its threads");
        auto submitter = [&](std::size_t me)
        {
            auto& why = bad[me]; int id = 0;
            auto all = [&] { for (auto& r : rec[me]) if (!r.done) return false; for (auto& j : jobs[me]) if (!j->finished) return false; return true; };
            for (auto& s : prog[me])
            {
                ++id; auto const t = s.t;
                auto body = [&, me, id, t](Ran& r) { ++r.runs; spin(t.work); for (int k = 0; k < t.spawn; ++k) { ++children; pool.run([&] { ++childRuns; }, t.prio + k - 1); } };
                switch (s.op)
                {
                case 0: case 1: case 2:
                    {
                        auto& r = rec[me].emplace_back(); int const value = static_cast<int>(me) * 1000 + id;
                        if (t.kind < 2) { auto f = pool.run<int>([&r, body, value, t]() { body(r); r.done = true; if (t.kind == 1) throw Oops{ value }; return value; }, t.prio); futures[me].push_back({ std::move(f.first), {}, t.kind, value }); }
                        else { auto f = pool.run([&r, body, value, t]() { body(r); r.done = true; if (t.kind == 3) throw Oops{ value }; }, t.prio); futures[me].push_back({ {}, std::move(f.first), t.kind, value }); }
                        if (t.kind % 2) ++throws;
                    }
                    break;
                case 3: case 4: { auto j = std::make_shared<Job>([t] { spin(t.work); }); jobs[me].push_back(j); if (s.op == 3) pool.start(j, t.prio); else pool.start(*j, t.prio); } break;
                case 5: { auto j = std::make_shared<Job>([t] { spin(t.work); }); bool ok = s.n % 2 ? pool.try_start(j, t.prio) : pool.try_start(*j, t.prio); if (ok) jobs[me].push_back(j); else if (j->started) why = "a refused task ran"; } break;
                case 6: { ++waits; pool.wait(); if (!all()) why = "wait() returned before a task submitted earlier by the same thread had finished"; } break;
                case 7: case 8:
                    {
                        ++waits; std::vector<int> v(static_cast<std::size_t>(s.n), 0); std::size_t const least = s.op == 7 ? 0 : static_cast<std::size_t>(t.work) / 4;
                        if (t.kind == 0) { std::list<int> l(v.begin(), v.end()); neolib::parallel_apply<std::list<int>>(pool, l, [&](int& e) { spin(t.work / 8); ++e; }, least); v.assign(l.begin(), l.end()); }
                        else neolib::parallel_apply<std::vector<int>>(pool, v, [&](int& e) { spin(t.work / 8); ++e; }, least);
                        for (auto x : v) if (x != 1) why = "parallel_apply called its function " + std::to_string(x) + " times for one of " + std::to_string(s.n) + " elements";
                    }
                    break;
                }
            }
            if (waitAtEnd) { pool.wait(); if (!all()) why = "the last wait() returned before a task submitted earlier by the same thread had finished"; }
        };
        std::vector<std::thread> th; for (std::size_t k = 1; k < prog.size(); ++k) th.emplace_back(submitter, k);
        submitter(0); for (auto& t : th) t.join();
        if (waitAtEnd) { pool.wait(); REQUIRE(pool.idle(), "the pool is not idle after wait()"); REQUIRE(pool.active_threads() == 0 && pool.available_threads() == pool.max_threads() && pool.total_threads() == pool.max_threads(), "threads of an idle pool are not all available: ", pool.active_threads(), " active, ", pool.total_threads(), " in all"); }
    } // the destructor waits as well
    for (auto& b : bad) REQUIRE(b.empty(), b);
    for (auto& v : rec) for (auto& r : v) REQUIRE(r.runs == 1 && r.done, "a submitted function ran ", r.runs.load(), " times");
    for (auto& v : jobs) for (auto& j : v) REQUIRE(j->started == 1 && j->finished == 1, "a submitted task ran ", j->started.load(), " times");
    REQUIRE(children == childRuns, "tasks submitted by tasks ran ", childRuns.load(), " of ", children.load(), " times");
    for (auto& v : futures) for (auto& f : v)
    {
        try { int got = f.value; if (f.kind < 2) got = f.i.get(); else f.v.get(); REQUIRE(f.kind % 2 == 0, "the exception of a task did not reach its future"); REQUIRE(got == f.value, "future has ", got, " instead of ", f.value); }
        catch (Oops const& o) { REQUIRE(f.kind % 2 == 1 && o.id == f.value, "future has the wrong exception"); }
    }
    if (waits && S > 1) c.label("several threads waiting"); if (throws) c.label("throwing task"); if (children) c.label("tasks submitting tasks");
    c.nontrivial(total >= 8 && gThreads > 1);
}
#elif PBT_PART == 1
// all threads are held at a gate while tasks are queued, cancelled, and the pool is queried or stopped
PBT_SUITE("gated", 15000, 300000)
{
    std::mutex om; std::vector<int> order; struct Q { std::shared_ptr<Job> j; int prio; bool cancelled; }; std::vector<Q> q;
    gThreads = 1 + static_cast<unsigned>(c.s.below(4)); Gate gate; auto const owned = std::make_unique<neolib::thread_pool>(); auto& pool = *owned; int const T = static_cast<int>(pool.max_threads());
    struct Open { Gate& g; ~Open() { g.release(); } } open{ gate }; std::vector<std::shared_ptr<Job>> held; for (int k = 0; k < T; ++k) { held.push_back(std::make_shared<Job>([&] { gate.pass(); })); if (k % 2) REQUIRE(pool.try_start(held.back()), "try_start refused with ", T - k, " threads free"); else pool.start(held.back()); }
    gate.await(T);
    REQUIRE(pool.active_threads() == static_cast<std::size_t>(T) && pool.available_threads() == 0 && pool.busy(), "pool with all threads held says ", pool.active_threads(), " active");
    auto refused = std::make_shared<Job>(); REQUIRE(!pool.try_start(refused) && !pool.try_start(*refused), "try_start accepted a task with no thread free");
    std::size_t n = 1 + c.s.len(25); for (std::size_t k = 0; k < n; ++k) { int const id = static_cast<int>(k), prio = static_cast<int>(c.s.below(4)) - 1; auto j = std::make_shared<Job>([&, id] { std::unique_lock l{ om }; order.push_back(id); }); q.push_back({ j, prio, c.s.chance(1, 4) }); pool.start(j, prio); c.note("task ", k, " priority ", prio, q.back().cancelled ? " cancelled" : ""); }
    for (auto& x : q) if (x.cancelled) { x.j->cancel(); REQUIRE(x.j->cancelled(), "cancelled() is false after cancel()"); }
    int const ending = static_cast<int>(c.s.below(3)); int const waiters = static_cast<int>(c.s.below(4)); std::vector<std::thread> th; std::atomic<int> incomplete{ 0 };
    c.note(T, " threads, ", waiters, " waiters, ending ", ending);
    auto unfinished = [&] { for (auto& x : q) if (!x.cancelled && !x.j->finished) return true; for (auto& h : held) if (!h->finished) return true; return false; };
    for (int k = 0; k < waiters; ++k) th.emplace_back([&] { pool.wait(); if (ending != 1 && unfinished()) ++incomplete; });
    std::vector<int> sorted; for (std::size_t k = 0; k < n; ++k) if (!q[k].cancelled) sorted.push_back(static_cast<int>(k));
    std::stable_sort(sorted.begin(), sorted.end(), [&](int a, int b) { return q[static_cast<std::size_t>(a)].prio > q[static_cast<std::size_t>(b)].prio; });
    if (ending == 1)
    {
        std::thread stopper{ [&] { pool.stop(); } };
        if (c.s.coin()) std::this_thread::sleep_for(std::chrono::microseconds{ 200 });
        gate.release(); stopper.join(); for (auto& t : th) t.join();
        std::size_t const ran = order.size(); auto late = std::make_shared<Job>(); pool.start(late); REQUIRE(pool.stopped() && !pool.try_start(late), "a stopped pool accepted a task");
        auto f = pool.run([&] { late->run(neolib::yield_type::NoYield); }); REQUIRE(!f.first.valid() && !f.second, "a stopped pool returned a future"); pool.wait();
        std::vector<int> v(3); neolib::parallel_apply<std::vector<int>>(pool, v, [](int& e) { ++e; }); REQUIRE(!late->started && v[0] == 0, "a task given to a stopped pool ran");
        REQUIRE(order.size() == ran, "a task ran after stop() returned");
        for (auto& x : q) REQUIRE(x.j->started <= 1 && x.j->started == x.j->finished && !(x.cancelled && x.j->started), "a task of a stopped pool ran ", x.j->started.load(), " times, finished ", x.j->finished.load(), x.cancelled ? ", cancelled" : "");
    }
    else
    {
        gate.release(); if (ending == 0) pool.wait(); for (auto& t : th) t.join();
        if (ending == 2 && waiters == 0) pool.wait();
        REQUIRE(!incomplete && !unfinished(), "wait() returned while tasks submitted before it were unfinished");
        for (auto& x : q) REQUIRE(x.j->started == (x.cancelled ? 0 : 1), "a ", x.cancelled ? "cancelled" : "queued", " task ran ", x.j->started.load(), " times");
        REQUIRE(!refused->started, "a refused task ran"); std::set<int> unique(order.begin(), order.end()); REQUIRE(unique.size() == sorted.size(), "not every queued task ran");
        if (T == 1) REQUIRE(order == sorted, "a pool of one thread did not run its queue by priority and then in order of submission");
    }
    if (T == 1) c.label("one thread"); if (waiters > 1) c.label("several waiters"); if (ending == 1) c.label("stopped"); c.nontrivial(n >= 4 && sorted.size() < n);
}
#endif
