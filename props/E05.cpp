// E05: timers. Timer programs run under a virtual steady clock; every timer carries a script of calls made from inside
// its callback. neolib and a plain model interpret the same program and their logs must agree.
#include "pbt.hpp"
#include <neolib/neolib.hpp>
#include <neolib/core/service.hpp>
#include <neolib/task/async_task.hpp>
#include <neolib/task/async_thread.hpp>
#include <neolib/task/timer.hpp>
#include <neolib/task/time_slice.hpp>
#include <map>
#include <memory>
#include <sstream>
#include <thread>
#include <atomic>
#include <time.h>

using namespace pbt;

#if PBT_PART == 0
std::atomic<bool> gVirtual{ false }; std::atomic<long long> gNow{ 1000000000 };
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept
{
    if (gVirtual) return time_point{ duration{ gNow.load() } };
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return time_point{ duration{ t.tv_sec * 1000000000ll + t.tv_nsec } };
}
namespace
{
    enum Kind { Create, Destroy, Again, AgainIf, Cancel, Reset, Enable, Disable, Duration, Copy, Assign, Advance, Poll, GuardedPoll, DropContext, Throw, Nothing };
    char const* const kNames[] = { "create", "destroy", "again", "again_if", "cancel", "reset", "enable", "disable", "set_duration", "copy construct", "assign", "advance", "poll", "poll guarded", "drop context", "throw", "nothing" };
    struct Act { Kind k; int i, j, x; };
    struct Boom {};
    constexpr int NT = 4, NC = 2, kDepth = 3;
    struct Program { std::vector<Act> top; std::vector<std::vector<Act>> scripts; int slices; };
    struct Already {};

    template <typename W> struct Machine
    {
        Program const& p; W w; std::ostringstream log; long long now = 0; int depth = 0, fired = 0, calls = 0; std::map<int, int> generation;
        Machine(Program const& q) : p{ q }, w{ *this } {}
        void fire(int i, int script)
        {
            ++fired; log << "fired " << i << " at " << now << " waiting " << w.waiting(i) << "\n";
            if (fired > 200) return;
            for (auto& a : p.scripts[static_cast<std::size_t>(script)]) act(a, i);
        }
        void act(Act const& a, int self)
        {
            int const i = a.i < NT ? a.i : self < 0 ? a.i - NT : self;
            auto guarded = [&](auto&& f) { try { f(); } catch (Already const&) { log << kNames[a.k] << " " << i << " refused\n"; } };
            switch (a.k)
            {
            case Create: if (!w.has(i)) w.create(i, 1 + a.x * a.x, a.j % 4 != 0, a.j % 3 == 0 ? a.j % NC : -1, a.j % static_cast<int>(p.scripts.size())); break;
            case Destroy: if (w.has(i)) w.destroy(i); break;
            case Again: if (w.has(i)) guarded([&] { w.again(i); }); break;
            case AgainIf: if (w.has(i)) w.againIf(i); break;
            case Cancel: if (w.has(i)) w.cancel(i); break;
            case Reset: if (w.has(i)) w.reset(i); break;
            case Enable: if (w.has(i)) guarded([&] { w.enable(i, a.x % 3 != 0); }); break;
            case Disable: if (w.has(i)) guarded([&] { w.disable(i); }); break;
            case Duration: if (w.has(i)) w.duration(i, 1 + a.x * a.x, a.j % 2); break;
            case Copy: if (!w.has(i) && w.has(a.j % NT)) w.copy(i, a.j % NT); break;
            case Assign: if (w.has(i) && w.has(a.j % NT) && i != a.j % NT) w.assign(i, a.j % NT); break;
            case Advance: if (depth == 0) { now += a.x * (1 + a.j % 8); gNow = 1000000000 + now * 1000000; } break;
            case Poll: case GuardedPoll:
                if (depth < kDepth)
                {
                    ++depth; struct Down { int& d; ~Down() { --d; } } down{ depth };
                    if (a.k == Poll) w.poll(a.j % 3); else try { w.poll(a.j % 3); } catch (Boom const&) { log << "caught\n"; }
                }
                break;
            case DropContext: w.dropContext(a.j % NC); break;
            case Throw: if (depth > 0 && a.x % 2) throw Boom{}; break;
            case Nothing: break;
            }
        }
        void run()
        {
            for (auto& a : p.top)
            {
                w.step(); log << "step " << kNames[a.k] << "\n"; try { act(a, -1); } catch (Boom const&) { log << "escaped\n"; }
                for (int i = 0; i < NT; ++i) if (w.has(i)) log << i << ": waiting " << w.waiting(i) << " enabled " << w.enabled(i) << " duration " << w.durationOf(i) << "; ";
                log << "\n";
            }
            now += 1000; gNow = 1000000000 + now * 1000000; log << "last\n";
            for (int k = 0; k < 8; ++k) { ++depth; try { w.poll(0); } catch (Boom const&) { log << "escaped\n"; } --depth; }
        }
    };

    struct Real
    {
        struct Context : neolib::lifetime<neolib::i_lifetime> {};
        struct PlainContext { virtual ~PlainContext() = default; }; struct MixedContext : PlainContext, neolib::lifetime<neolib::i_lifetime> {};
        Machine<Real>& m; std::unique_ptr<neolib::async_task> task = std::make_unique<neolib::async_task>(); std::unique_ptr<neolib::callback_timer> t[NT]; std::unique_ptr<Context> ctx0 = std::make_unique<Context>(); std::unique_ptr<MixedContext> ctx1 = std::make_unique<MixedContext>();
        Real(Machine<Real>& mm) : m{ mm } {}
        using D = neolib::timer::duration_type;
        static D ms(int n) { return D{ n * 0.001 }; }
        void step() {}
        bool has(int i) { return t[i] != nullptr; }
        template <typename F> void call(F&& f) { try { f(); } catch (neolib::timer::already_waiting const&) { throw Already{}; } catch (neolib::timer::already_enabled const&) { throw Already{}; } catch (neolib::timer::already_disabled const&) { throw Already{}; } }
        void create(int i, int dur, bool wait, int c, int script)
        {
            auto tok = std::make_shared<int>(script);
            auto cb = [this, tok](neolib::callback_timer& x) { int me = -1; for (int k = 0; k < NT; ++k) if (t[k].get() == &x) me = k; int const s = *tok; m.fire(me, s); if (*tok != s) std::abort(); };
            if (c < 0) t[i] = std::make_unique<neolib::callback_timer>(*task, cb, ms(dur), wait);
            else if (c == 0) t[i] = std::make_unique<neolib::callback_timer>(*task, *ctx0, cb, ms(dur), wait);
            else t[i] = std::make_unique<neolib::callback_timer>(*task, static_cast<PlainContext const&>(*ctx1), cb, ms(dur), wait);
        }
        void destroy(int i) { auto x = std::move(t[i]); x.reset(); }
        void again(int i) { call([&] { t[i]->again(); }); }
        void againIf(int i) { t[i]->again_if(); }
        void cancel(int i) { t[i]->cancel(); }
        void reset(int i) { t[i]->reset(); }
        void enable(int i, bool w) { call([&] { t[i]->enable(w); }); }
        void disable(int i) { call([&] { t[i]->disable(); }); }
        void duration(int i, int d, bool now) { t[i]->set_duration(ms(d), now); }
        void copy(int i, int j) { t[i] = std::make_unique<neolib::callback_timer>(*t[j]); }
        void assign(int i, int j) { static_cast<neolib::timer&>(*t[i]) = static_cast<neolib::timer const&>(*t[j]); }
        void poll(int how)
        {
            if (how == 0) task->timer_service().poll(); else if (how == 1) task->timer_service().poll(false, 0);
            else if (m.p.slices) { neolib::scoped_time_slice slice{ std::chrono::milliseconds{ 5 } }; static_cast<neolib::i_task&>(*task).do_work(neolib::yield_type::NoYield); } else static_cast<neolib::i_task&>(*task).do_work(neolib::yield_type::NoYield);
        }
        void dropContext(int c) { if (c == 0) { ctx0.reset(); ctx0 = std::make_unique<Context>(); } else { ctx1.reset(); ctx1 = std::make_unique<MixedContext>(); } }
        bool waiting(int i) { return i >= 0 && t[i] && t[i]->waiting(); }
        bool enabled(int i) { return t[i]->enabled() && !t[i]->disabled(); }
        long durationOf(int i) { return std::lround(t[i]->duration().count() * 1000); }
    };

    struct Plain
    {
        struct Timer { int dur, script; bool enabled = true, waiting = false; std::shared_ptr<bool> ctx; int object = -1; };
        using TP = std::shared_ptr<Timer>;
        struct Object { long long due = -1; std::weak_ptr<Timer> owner; };
        Machine<Plain>& m; TP t[NT]; std::vector<Object> objects; std::shared_ptr<bool> ctx[NC] = { std::make_shared<bool>(true), std::make_shared<bool>(true) };
        Plain(Machine<Plain>& mm) : m{ mm } {}
        void step() {}
        bool has(int i) { return t[i] != nullptr; }
        void arm(TP& x) { if (!x->enabled) x->enabled = true; if (x->waiting) throw Already{}; if (x->object < 0) { x->object = static_cast<int>(objects.size()); objects.push_back({ -1, x }); } objects[static_cast<std::size_t>(x->object)].due = m.now + x->dur; x->waiting = true; }
        void disarm(TP& x) { if (x->waiting) { objects[static_cast<std::size_t>(x->object)].due = -1; x->waiting = false; } }
        void create(int i, int dur, bool wait, int c, int script) { auto n = std::make_shared<Timer>(); n->dur = dur; n->script = script; if (c >= 0) n->ctx = ctx[c]; t[i] = n; if (wait) arm(n); }
        void destroy(int i) { auto x = t[i]; disarm(x); t[i].reset(); }
        void again(int i) { arm(t[i]); }
        void againIf(int i) { if (!t[i]->waiting) arm(t[i]); }
        void cancel(int i) { disarm(t[i]); }
        void reset(int i) { disarm(t[i]); arm(t[i]); }
        void enable(int i, bool w) { if (t[i]->enabled) throw Already{}; t[i]->enabled = true; if (w) arm(t[i]); }
        void disable(int i) { if (!t[i]->enabled) throw Already{}; disarm(t[i]); t[i]->enabled = false; }
        void duration(int i, int d, bool now) { t[i]->dur = d; if (now && t[i]->waiting) { disarm(t[i]); arm(t[i]); } }
        void copy(int i, int j) { auto o = t[j]; auto n = std::make_shared<Timer>(*o); n->waiting = false; n->object = -1; t[i] = n; if (o->waiting) arm(n); }
        void assign(int i, int j) { disarm(t[i]); t[i]->dur = t[j]->dur; t[i]->enabled = t[j]->enabled; if (t[j]->waiting) arm(t[i]); }
        void poll(int)
        {
            for (bool some = true; some; )
            {
                some = false; auto const n = objects.size();
                for (std::size_t k = 0; k < n; ++k)
                {
                    if (objects[k].due < 0 || m.now < objects[k].due) continue;
                    some = true; objects[k].due = -1; auto x = objects[k].owner.lock(); if (!x) continue;
                    x->waiting = false; if (!x->enabled || (x->ctx && !*x->ctx)) continue;
                    int me = -1; for (int q = 0; q < NT; ++q) if (t[q] == x) me = q;
                    m.fire(me, x->script);
                }
            }
        }
        void dropContext(int c) { *ctx[c] = false; ctx[c] = std::make_shared<bool>(true); }
        bool waiting(int i) { return i >= 0 && t[i] && t[i]->waiting; }
        bool enabled(int i) { return t[i]->enabled; }
        long durationOf(int i) { return t[i]->dur; }
    };

    Act action(Case& c, bool inner)
    {
        static std::vector<Kind> const outerKinds{ Advance, Advance, Advance, Advance, Poll, Poll, Poll, Poll, GuardedPoll, Create, Create, Create, Destroy, Again, AgainIf, Cancel, Reset, Enable, Disable, Duration, Copy, Assign, DropContext };
        static std::vector<Kind> const innerKinds{ Nothing, Nothing, Again, Again, AgainIf, AgainIf, Cancel, Reset, Destroy, Destroy, Create, Enable, Disable, Duration, Copy, Assign, Poll, GuardedPoll, DropContext, Throw, Throw };
        return Act{ c.s.pickv(inner ? innerKinds : outerKinds), static_cast<int>(c.s.below(inner ? NT + NT : NT)), static_cast<int>(c.s.below(12)), static_cast<int>(c.s.below(6)) };
    }
    std::string text(Act const& a) { std::ostringstream o; o << kNames[a.k] << " " << (a.i < NT ? std::to_string(a.i) : "self") << " j " << a.j << " x " << a.x; return o.str(); }
}

PBT_SUITE("scripts", 200000, 2500000)
{
    static bool const sProvider = (neolib::allocate_service_provider(), true); (void)sProvider;
    gVirtual = true;
    Program p; p.scripts.resize(4); p.slices = static_cast<int>(c.s.below(2));
    for (std::size_t i = 0; i < p.scripts.size(); ++i) { std::size_t n = c.s.below(4); while (n--) { p.scripts[i].push_back(action(c, true)); c.note("script ", i, ": ", text(p.scripts[i].back())); } }
    std::size_t n = 3 + c.s.len(30); for (int k = 0; k < 2; ++k) p.top.push_back(Act{ Create, k, 1 + k * 6 + static_cast<int>(c.s.below(3)), static_cast<int>(c.s.below(4)) }); while (n--) p.top.push_back(action(c, false));
    for (auto& a : p.top) c.note(text(a));
    gNow = 1000000000; auto model = std::make_unique<Machine<Plain>>(p); model->run();
    gNow = 1000000000; auto real = std::make_unique<Machine<Real>>(p); real->run();
    std::string a = real->log.str(), b = model->log.str();
    if (a != b)
    {
        std::istringstream x{ a }, y{ b }; std::string l, k, last; int line = 0; while (std::getline(x, l) && std::getline(y, k) && l == k) { last = l; ++line; }
        FAIL("log line ", line, " after '", last, "': got '", l, "' expected '", k, "'");
    }
    // the task goes first: its timers must stay silent and usable
    int const fired = real->fired; bool const first = c.s.coin();
    if (first)
    {
        auto& w = real->w; if (c.s.coin()) static_cast<neolib::i_task&>(*w.task).cancel(); w.task.reset(); gNow += 100000000000ll;
        for (int k = 0; k < NT; ++k) if (w.t[k]) { w.t[k]->cancel(); w.t[k]->again_if(); w.t[k]->set_duration(Real::ms(3)); if (k % 2 && w.t[k]->enabled()) w.t[k]->disable(); }
        REQUIRE(real->fired == fired, "a timer fired without its task"); c.label("task destroyed first");
    }
    for (auto& t : real->w.t) t.reset();
    if (!first) { real->w.task->timer_service().poll(); REQUIRE(real->fired == fired, "a destroyed timer fired"); }
    if (a.find("refused") != std::string::npos) c.label("refused call"); if (a.find("caught") != std::string::npos || a.find("escaped") != std::string::npos) c.label("callback threw");
    c.nontrivial(fired >= 3);
}

extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
// timers that come and go leave nothing behind, in the task they were for or elsewhere
PBT_SUITE("gone", 300, 3000)
{
    static bool const sProvider = (neolib::allocate_service_provider(), true); (void)sProvider;
    gVirtual = true; gNow = 1000000000; neolib::async_task task; auto& service = task.timer_service(); int fired = 0; std::vector<std::unique_ptr<neolib::callback_timer>> stay;
    for (auto n = c.s.below(4); n > 0; --n) stay.push_back(std::make_unique<neolib::callback_timer>(task, [&](neolib::callback_timer& t) { ++fired; t.again(); }, std::chrono::milliseconds(1 + c.s.below(5))));
    struct Step { bool waits, fires, copy; int ms; }; std::vector<Step> round; for (auto n = 1 + c.s.len(8); n > 0; --n) { round.push_back(Step{ !c.s.chance(1, 4), c.s.coin(), c.s.chance(1, 4), static_cast<int>(1 + c.s.below(6)) }); c.note("timer of ", round.back().ms, round.back().waits ? " waits" : "", round.back().copy ? " copied" : "", round.back().fires ? " fires" : ""); }
    bool const cascade = c.s.coin(); int gone = 0;
    auto turn = [&]
    {
        for (auto& r : round)
        {
            auto t = std::make_unique<neolib::callback_timer>(task, [&](neolib::callback_timer&) { ++fired; }, std::chrono::milliseconds(r.ms), r.waits); std::unique_ptr<neolib::callback_timer> u;
            if (r.copy) u = std::make_unique<neolib::callback_timer>(*t);
            if (r.fires) { gNow += 10000000; service.poll(); if (cascade) service.poll(false); }
            ++gone;
        }
        service.poll();
    };
    for (int k = 0; k < 3; ++k) turn();
    auto const before = __sanitizer_get_current_allocated_bytes(); int const g = gone; for (int k = 0; k < 40; ++k) turn(); auto const after = __sanitizer_get_current_allocated_bytes();
    REQUIRE(after < before + static_cast<std::size_t>(gone - g) * 8 + 1024, gone - g, " timers came and went and left ", after - before, " bytes"); gVirtual = true;
    c.nontrivial(fired > 50);
}

// real clock, task in its own thread
PBT_SUITE("thread", 150, 4000)
{
    static bool const sProvider = (neolib::allocate_service_provider(), true); (void)sProvider;
    gVirtual = false; using clock = std::chrono::steady_clock;
    struct Watch { std::unique_ptr<neolib::callback_timer> t; int dur_us, times; std::atomic<int> fired{ 0 }; bool early = false, foreign = false; clock::time_point armed; };
    std::vector<std::unique_ptr<Watch>> ws; int total = 0; auto tid = std::make_shared<std::thread::id>();
    neolib::async_task task; std::atomic<int> done{ 0 };
    std::size_t const n = 1 + c.s.below(5);
    for (std::size_t k = 0; k < n; ++k) { ws.push_back(std::make_unique<Watch>()); auto& w = *ws.back(); w.dur_us = static_cast<int>(c.s.below(1500)); w.times = 1 + static_cast<int>(c.s.below(4)); total += w.times; c.note("timer of ", w.dur_us, " us, ", w.times, " times"); }
    for (auto& p : ws)
    {
        auto& w = *p; w.armed = clock::now();
        w.t = std::make_unique<neolib::callback_timer>(task, [&w, &done](neolib::callback_timer& t)
        {
            if (clock::now() < w.armed + std::chrono::microseconds{ w.dur_us }) w.early = true;
            if (++w.fired < w.times) { w.armed = clock::now(); t.again(); } else ++done;
        }, std::chrono::duration<double>{ w.dur_us * 1e-6 });
    }
    neolib::event<int> ev; neolib::sink sink; std::atomic<int> delivered{ 0 }; std::atomic<bool> subscribed{ false };
    {
        neolib::async_thread thread{ task, "timers" };
        thread.start();
        auto const limit = clock::now() + std::chrono::seconds{ 20 };
        while (done < static_cast<int>(n) && clock::now() < limit) std::this_thread::sleep_for(std::chrono::microseconds{ 100 });
    }
    REQUIRE(done == static_cast<int>(n), "only ", done.load(), " of ", n, " timers finished within 20 s");
    for (auto& w : ws) { REQUIRE(!w->early, "a timer of ", w->dur_us, " us fired early"); REQUIRE(w->fired == w->times, "a timer armed ", w->times, " times fired ", w->fired.load(), " times"); }
    for (auto& w : ws) w->t.reset();
    c.nontrivial(n > 1 && total > 3);
}
#endif
