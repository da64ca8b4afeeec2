// E06: thread objects and waitable events. Sequential model of an event; hand-offs and broadcasts between threads where no
// signal may be lost, duplicated or invented; generated thread lifecycles. ThreadSanitizer.
#include "pbt.hpp"
#include <neolib/neolib.hpp>
#include <neolib/task/thread.hpp>
#include <neolib/task/waitable_event.hpp>
#include <iostream>
#include <atomic>
#include <chrono>
#include <deque>
#include <thread>
#include <mutex>
#include <fstream>
#include <unistd.h>
#include <sys/syscall.h>

using namespace pbt;
namespace
{
    using clk = std::chrono::steady_clock;
    struct Messages : neolib::i_message_queue
    {
        mutable std::atomic<bool> any{ false };
        bool have_message() const override { return any; }
        int get_message() const override { any = false; return 0; }
        void bump() override {}
        bool in_idle() const override { return false; }
        void idle() override {}
    };
    struct Ready : neolib::waitable { std::atomic<bool> is{ false }; bool waitable_ready() const override { return is; } };
    // blocked: asleep in every one of several looks, so in the wait and not on its way to it
    bool asleep(long tid)
    {
        for (int k = 0; k < 4; ++k)
        {
            std::ifstream f{ "/proc/self/task/" + std::to_string(tid) + "/stat" }; std::string line; std::getline(f, line); auto const p = line.rfind(')');
            if (p == std::string::npos || p + 2 >= line.size() || line[p + 2] != 'S') return false;
            std::this_thread::sleep_for(std::chrono::microseconds{ 300 });
        }
        return true;
    }
    template <class F> bool eventually(F f, int seconds = 5)
    {
        auto const limit = clk::now() + std::chrono::seconds{ seconds };
        for (int n = 0; !f(); ++n) { if (clk::now() > limit) return false; if (n < 200) std::this_thread::yield(); else std::this_thread::sleep_for(std::chrono::microseconds{ 50 }); }
        return true;
    }
}
#if PBT_PART == 0
// one thread: an event is a flag; lists take the first ready event
PBT_SUITE("events", 20000, 150000)
{
    std::size_t const n = 1 + c.s.below(3); std::deque<neolib::waitable_event> e(n); std::vector<bool> m(n); Messages q; Ready w; bool all = false; int consumed = 0, refused = 0;
    for (std::size_t k = 1 + c.s.len(40); k--; )
    {
        std::size_t const i = c.s.below(n); int const op = static_cast<int>(c.s.below(13));
        auto firstReady = [&] { for (std::size_t j = 0; j < n; ++j) if (m[j]) return j; return n; };
        auto take = [&](neolib::wait_result const& r, bool msg, bool wtb)
        {
            std::size_t const j = firstReady();
            if (j < n) { REQUIRE(std::holds_alternative<neolib::wait_result_event>(r) && &std::get<neolib::wait_result_event>(r).iEvent == &e[j], "a list wait did not take the first ready event ", j); m[j] = false; ++consumed; }
            else if (msg) REQUIRE(std::holds_alternative<neolib::wait_result_message>(r), "a list wait with only a message did not report it");
            else if (wtb) REQUIRE(std::holds_alternative<neolib::wait_result_waitable>(r), "a list wait with only a waitable ready did not report it");
        };
        neolib::waitable_event_list list{ e.begin(), e.end() };
        switch (op)
        {
        case 0: case 1: c.note("signal_one ", i); e[i].signal_one(); m[i] = true; break;
        case 2: c.note("signal_all ", i); e[i].signal_all(); m[i] = true; all = true; break;
        case 3: c.note("reset ", i); e[i].reset(); m[i] = false; break;
        case 4: case 5: { unsigned const t = static_cast<unsigned>(c.s.below(2)); c.note("wait(", t, ") ", i); bool const r = e[i].wait(t); REQUIRE(r == m[i], "wait(", t, ") gave ", r, " but the event ", m[i] ? "was" : "was not", " signalled"); (r ? consumed : refused)++; m[i] = false; break; }
        case 6: if (m[i]) { c.note("wait() ", i); e[i].wait(); m[i] = false; ++consumed; } break;
        case 7: q.any = c.s.coin(); c.note("message ", q.any.load()); break;
        case 8: w.is = c.s.coin(); c.note("waitable ", w.is.load()); break;
        case 9: if (m[i] || q.any) { c.note("msg_wait ", i); bool const r = e[i].msg_wait(q); REQUIRE(r == m[i], "msg_wait gave ", r); m[i] = false; } break;
        case 10: { c.note("msg_wait(1) ", i); bool const r = e[i].msg_wait(q, 1); REQUIRE(r == m[i], "timed msg_wait gave ", r); m[i] = false; break; }
        case 11: if (firstReady() < n) { c.note("list wait"); if (n == 1 && c.s.coin()) take(neolib::waitable_event_list{ e[0] }.wait(), false, false); else take(list.wait(), false, false); } else if (w.is) { c.note("list wait, waitable"); take(list.wait(w), false, true); } break;
        default: if (firstReady() < n || q.any || w.is) { c.note("list msg_wait"); if (!q.any && w.is) take(list.msg_wait(q, w), q.any, w.is); else if (q.any || firstReady() < n) { if (c.s.coin()) take(list.msg_wait(q), q.any, false); else take(list.msg_wait(q, w), q.any, w.is); } } break;
        }
    }
    if (all) c.label("signal_all");
    c.nontrivial(consumed >= 2 && refused >= 1);
}

// signals handed one at a time to waiting threads: each taken exactly once
PBT_SUITE("handoff", 700, 8000)
{
    int const consumers = 1 + static_cast<int>(c.s.below(3)); int const rounds = 20 + static_cast<int>(c.s.below(200)); bool const byAll = consumers == 1 && c.s.coin(); int const pace = static_cast<int>(c.s.below(4));
    std::vector<int> kind; for (int k = 0; k < consumers; ++k) kind.push_back(static_cast<int>(c.s.below(5)));
    if (byAll) c.label("signal_all to one");
    neolib::waitable_event e; std::atomic<int> taken{ 0 }; std::atomic<bool> stop{ false }; Messages q; std::vector<std::thread> t; bool timed = false;
    for (int k = 0; k < consumers; ++k)
    {
        c.note("consumer ", k, " kind ", kind[k]); if (kind[k] == 1 || kind[k] == 2) timed = true;
        t.emplace_back([&, k]
        {
            while (!stop)
            {
                bool got = false;
                switch (kind[static_cast<std::size_t>(k)])
                {
                case 0: e.wait(); got = true; break;
                case 1: got = e.wait(0); break;
                case 2: got = e.wait(1); break;
                case 3: got = e.msg_wait(q, 1); break;
                default: { Ready none; got = std::holds_alternative<neolib::wait_result_event>(neolib::waitable_event_list{ e }.msg_wait(q, none)); break; }
                }
                if (got && !stop) ++taken;
            }
        });
    }
    int lost = -1, extra = 0;
    for (int r = 1; r <= rounds; ++r)
    {
        for (volatile int s = 0; s < pace * 50 * (r % 7); ++s) {}
        if (byAll) e.signal_all(); else e.signal_one();
        if (!eventually([&] { return taken >= r; })) { lost = r; break; }
        if (taken > r) { extra = taken - r; break; }
    }
    stop = true; q.any = true;
    std::atomic<int> left{ consumers }; std::thread kick{ [&] { while (left > 0) { e.signal_one(); std::this_thread::sleep_for(std::chrono::microseconds{ 20 }); } } };
    for (auto& x : t) { x.join(); --left; }
    kick.join();
    REQUIRE(lost < 0, "signal ", lost, " of ", rounds, " was lost"); REQUIRE(extra == 0, extra, " waits succeeded without a signal");
    c.nontrivial(rounds >= 50 && (timed || consumers > 1));
}

// threads blocked on an event: one signal releases one, a broadcast releases all
PBT_SUITE("broadcast", 400, 4000)
{
    int const n = 2 + static_cast<int>(c.s.below(4)); neolib::waitable_event e; std::atomic<int> entering{ 0 }, out{ 0 }; std::vector<std::thread> t; int const timed = static_cast<int>(c.s.below(static_cast<std::uint64_t>(n))); std::atomic<bool> honest{ true }; std::vector<std::atomic<long>> tids(static_cast<std::size_t>(n));
    for (int k = 0; k < n; ++k) t.emplace_back([&, k] { tids[static_cast<std::size_t>(k)] = syscall(SYS_gettid); ++entering; if (k < timed) { if (!e.wait(20000)) honest = false; } else e.wait(); ++out; });
    bool const blocked = eventually([&] { if (entering != n) return false; for (auto& x : tids) if (!asleep(x)) return false; return true; }, 20);
    int const singles = static_cast<int>(c.s.below(static_cast<std::uint64_t>(n - 1))); int bad = 0; bool stuck = false;
    c.note(n, " waiters, ", timed, " timed, ", singles, " released singly");
    for (int k = 1; k <= singles && !stuck; ++k) { e.signal_one(); stuck = !eventually([&] { return out >= k; }); if (k == 1) std::this_thread::sleep_for(std::chrono::milliseconds{ 1 }); if (out > k) bad = out - k; }
    e.signal_all(); bool const released = eventually([&] { return out == n; });
    if (!released) { std::atomic<bool> done{ false }; std::thread kick{ [&] { while (!done) { e.signal_one(); std::this_thread::sleep_for(std::chrono::milliseconds{ 1 }); } } }; for (auto& x : t) x.join(); done = true; kick.join(); }
    else for (auto& x : t) x.join();
    if (!blocked) { c.label("waiters never blocked"); return; }
    REQUIRE(!stuck, "a waiting thread was not released by a signal"); REQUIRE(bad == 0, bad, " threads too many were released by single signals");
    REQUIRE(released, "a broadcast did not release all ", n - singles, " waiting threads"); REQUIRE(honest, "a timed wait that was signalled reported a timeout");
    REQUIRE(!e.wait(0), "a broadcast taken by all its waiters was still signalled");
    c.nontrivial(n - singles >= 2);
}

namespace
{
    struct Body { int act; };
    struct Lived { std::atomic<int> runs{ 0 }, ends{ 0 }, unblocks{ 0 }; std::atomic<bool> wrong{ false }; std::atomic<bool> gate{ false }, up{ false }; };
    char const* kBody[] = { "returns", "", "", "cancels itself", "blocks until aborted", "waits for itself", "restarts itself", "aborts itself" };
}
// lifecycle of a thread object
PBT_SUITE("threads", 6000, 40000)
{
    using S = neolib::thread_state; int const body = c.s.pickv(std::vector<int>{ 0, 3, 4, 5, 6, 7 }), form = static_cast<int>(c.s.below(5)); bool const gated = c.s.coin(), never = c.s.chance(1, 8);
    Lived l; std::thread::id const self = std::this_thread::get_id(); neolib::thread* tp = nullptr; std::thread::id ran;
    auto fn = [&]
    {
        struct End { Lived& l; ~End() { ++l.ends; } } end{ l };
        ++l.runs; ran = std::this_thread::get_id(); l.up = true;
        if (!tp->in() || !(tp->running() || tp->aborted()) || tp->id() != ran || ran == self) l.wrong = true;
        if (gated && body != 4) while (!l.gate) std::this_thread::yield();
        switch (body)
        {
        case 3: tp->cancel(); if (!tp->aborted()) l.wrong = true; break;
        case 4: for (;;) { tp->block(); if (!tp->blocked()) l.wrong = true; tp->unblock(); ++l.unblocks; std::this_thread::yield(); } break;
        case 5: try { tp->wait(); l.wrong = true; } catch (neolib::thread::cannot_wait_on_self const&) {} break;
        case 6: try { tp->start(); l.wrong = true; } catch (neolib::thread::thread_already_started const&) {} break;
        case 7: tp->abort(); if (!tp->aborted()) l.wrong = true; break;
        default: break;
        }
    };
    std::streambuf* old = std::cerr.rdbuf(nullptr); struct Restore { std::streambuf* o; ~Restore() { std::cerr.rdbuf(o); } } restore{ old };
    auto t = std::make_unique<neolib::thread>(fn, "some"); tp = t.get();
    c.note("the function ", kBody[body], gated ? ", gated" : "", never ? ", never started" : "", ", finished by form ", form);
    auto refuses = [&](auto f, auto const* tag) { using X = std::remove_const_t<std::remove_pointer_t<decltype(tag)>>; try { f(); } catch (X const&) { return true; } return false; };
    neolib::thread::thread_not_started const* ns = nullptr; neolib::thread::thread_already_started const* as = nullptr; neolib::thread::not_in_thread const* nt = nullptr;
    REQUIRE(t->name() == "some" && t->state() == S::ReadyToStart && !t->started() && !t->running() && !t->finished() && !t->aborted() && !t->cancelled() && !t->error() && !t->blocked() && !t->using_existing_thread() && !t->has_thread_object(), "a new thread is in the wrong state");
    REQUIRE(refuses([&] { t->wait(); }, ns) && refuses([&] { t->in(); }, ns) && refuses([&] { t->block(); }, ns), "an unstarted thread can be waited for or blocked");
    if (never) { t.reset(); REQUIRE(l.runs == 0, "an unstarted thread ran"); c.label("never started"); c.nontrivial(false); return; }
    t->start();
    REQUIRE(t->started() && t->has_thread_object() && refuses([&] { t->start(); }, as), "a started thread can be started again");
    neolib::waitable_event none; neolib::waitable_event_list nothing{ none }; Messages q; bool ends = !(body == 4);
    if (gated && ends)
    {
        eventually([&] { return l.up.load(); });
        REQUIRE(t->running() && !t->finished() && !t->in() && t->id() != self, "a running thread is in the wrong state");
        REQUIRE(refuses([&] { t->block(); }, nt) && refuses([&] { t->unblock(); }, nt), "another thread could block this one");
        q.any = true; REQUIRE(!t->msg_wait(q), "msg_wait found a running thread finished"); REQUIRE(std::holds_alternative<neolib::wait_result_message>(t->msg_wait(q, nothing)), "msg_wait with an event list missed the message"); q.any = false;
        none.signal_one(); REQUIRE(std::holds_alternative<neolib::wait_result_event>(t->wait(nothing)), "wait with an event list missed the event");
        none.signal_one(); REQUIRE(std::holds_alternative<neolib::wait_result_event>(t->msg_wait(q, nothing)), "msg_wait with an event list missed the event");
        c.label("observed running");
    }
    bool const abortEarly = form == 4 || !ends; if (!ends && c.s.coin()) eventually([&] { return l.unblocks > 2; });
    l.gate = true;
    if (abortEarly)
    {
        bool const byCancel = c.s.coin(); if (byCancel) t->cancel(); else t->abort();
        REQUIRE(t->finished(), "an aborted thread is not finished"); int const r = l.runs; REQUIRE((l.ends == r || body == 3 || body == 7) && r <= 1, "abort returned while the function was running");
        std::this_thread::yield(); REQUIRE(l.runs == r || body == 3 || body == 7, "an aborted thread started its function later"); c.label("aborted");
    }
    else
    {
        bool const hook = form == 1 || form == 2 || form == 3;
        if (hook)
        {
            std::atomic<bool> back{ false };
            std::thread watchdog{ [&] { for (int k = 0; k < 50000 && !back; ++k) std::this_thread::sleep_for(std::chrono::microseconds{ 100 }); if (!back) { none.signal_all(); q.any = true; } } };
            bool good = false;
            if (form == 1) good = std::holds_alternative<neolib::wait_result_waitable>(t->wait(nothing)); else if (form == 2) good = t->msg_wait(q); else good = std::holds_alternative<neolib::wait_result_waitable>(t->msg_wait(q, nothing));
            back = true; watchdog.join(); REQUIRE(good, "a wait for a thread that has finished did not report it within 5 s"); c.label("waited with events or messages");
        }
        else t->wait();
        S const s = t->state(); bool const cancels = body == 3 || body == 7;
        REQUIRE(t->finished() && !t->running() && t->started(), "a thread that ended is not finished");
        REQUIRE(s == (cancels ? S::Cancelled : S::Finished), "the final state is ", static_cast<int>(s));
        REQUIRE(!t->error() && t->cancelled() == (cancels), "the final queries disagree with the state");
        if (!hook) REQUIRE(l.runs == 1 && l.ends == l.runs, "the function ran ", l.runs.load(), " times and ended ", l.ends.load(), " times");
        REQUIRE(refuses([&] { t->start(); }, as), "a finished thread was started again");
        if (c.s.coin()) { t->abort(); t->cancel(); REQUIRE(t->state() == s, "aborting a finished thread changed its state"); }
    }
    bool const wrong = l.wrong; t.reset();
    REQUIRE(!wrong && !l.wrong, "inside the function something was wrong"); REQUIRE(l.runs == l.ends && l.runs <= 1, "the thread was destroyed with its function running");
    c.nontrivial((gated || body != 0));
}

// a thread object that runs its function on the calling thread
PBT_SUITE("attached", 300, 3000)
{
    struct Own : neolib::thread { using neolib::thread::thread; int ran = 0; int mode = 0; bool good = true; void exec(neolib::yield_type) override { ++ran; good = in() && running(); if (mode == 1) throw std::runtime_error{ "x" }; if (mode == 2) cancel(); } };
    std::streambuf* old = std::cerr.rdbuf(nullptr); struct Restore { std::streambuf* o; ~Restore() { std::cerr.rdbuf(o); } } restore{ old };
    Own t{ "here", true }; t.mode = static_cast<int>(c.s.below(3)); REQUIRE(t.using_existing_thread() && t.in() && t.id() == std::this_thread::get_id() && !t.started(), "an attached thread is not the current one");
    c.note("mode ", t.mode); bool threw = false; try { t.start(); } catch (std::runtime_error const&) { threw = true; } REQUIRE(threw == (t.mode == 1), "an exception of an attached thread's function was lost or invented"); REQUIRE(t.ran == 1 && t.good, "an attached thread did not run its function at start()");
    REQUIRE(t.error() == (t.mode == 1) && t.cancelled() == (t.mode == 2) && t.running() == (t.mode == 0), "an attached thread ended in state ", static_cast<int>(t.state()));
    bool refused = false; try { t.start(); } catch (neolib::thread::thread_already_started const&) { refused = true; } REQUIRE(refused && t.ran == 1, "an attached thread was started twice");
    c.nontrivial(t.mode != 0);
}
#endif
