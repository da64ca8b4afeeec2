// E07: asynchronous tasks. Programs of turns, posted handlers and event queues, with scripts run from inside them,
// against a plain model; time slices under a virtual clock; tasks run, halted, cancelled and destroyed over threads.
#include "pbt.hpp"
#include <neolib/neolib.hpp>
#include <neolib/core/service.hpp>
#include <neolib/task/async_task.hpp>
#include <neolib/task/async_thread.hpp>
#include <neolib/task/timer.hpp>
#include <neolib/task/time_slice.hpp>
#include <boost/asio.hpp>
#include <map>
#include <deque>
#include <memory>
#include <sstream>
#include <thread>
#include <atomic>
#include <time.h>

using namespace pbt;
using neolib::yield_type;

std::atomic<bool> gVirtual{ false }; std::atomic<long long> gNow{ 1000000000 };
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept
{
    if (gVirtual) return time_point{ duration{ gNow.load() } };
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return time_point{ duration{ t.tv_sec * 1000000000ll + t.tv_nsec } };
}
namespace
{
    void provider() { static bool const s = (neolib::allocate_service_provider(), true); (void)s; }
    struct Task : neolib::async_task
    {
        using neolib::async_task::async_task; using neolib::async_task::do_work; using neolib::async_task::cancel; using neolib::async_task::idle;
    };

    enum Kind { Turn, Poll, Post, Item, Enlist, Delist, PumpEvents, PumpMessages, Idle, Halt, DropIo, Nothing };
    char const* const kNames[] = { "turn", "poll", "post", "item", "register", "unregister", "pump events", "pump messages", "idle", "halt", "drop i/o", "nothing" };
    struct Act { Kind k; int i, x; };
    constexpr int NQ = 3, NS = 5, kDepth = 3; std::size_t const kPolls[] = { 256, 0, 1, 3 };
    struct Program { std::vector<Act> top; std::vector<std::vector<Act>> scripts; };

    template <typename W> struct Machine
    {
        Program const& p; std::ostringstream log; int depth = 0, ran = 0, halts = 0, handling = 0; W w;
        Machine(Program const& q) : p{ q }, w{ *this } {}
        void ranOne(char const* what, int i, int script)
        {
            ++ran; log << what << " " << i << " runs script " << script << "\n"; if (ran > 300) return;
            struct Handling { int& n; int by; ~Handling() { n -= by; } } h{ handling, *what == 'h' }; handling += h.by;
            for (auto& a : p.scripts[static_cast<std::size_t>(script)]) act(a);
        }
        void act(Act const& a)
        {
            // no polling from inside a handler: asio runs what was posted since only at a later poll
            struct Down { int& d; Down(int& x) : d{ x } { ++d; } ~Down() { --d; } };
            switch (a.k)
            {
            case Turn: if (depth < kDepth && !handling) { Down d{ depth }; log << "turn: " << w.turn(a.x) << "\n"; } break;
            case Poll: if (depth < kDepth && !handling) { Down d{ depth }; log << "poll: " << w.poll(a.i % 2, kPolls[a.x % 4]) << "\n"; } break;
            case Post: w.post(a.x); break;
            case Item: w.item(a.i, a.x); break;
            case Enlist: w.enlist(a.i); break;
            case Delist: w.delist(a.i); break;
            case PumpEvents: if (depth < kDepth) { Down d{ depth }; log << "pump: " << w.pumpEvents() << "\n"; } break;
            case PumpMessages: log << "messages: " << w.pumpMessages() << "\n"; break;
            case Idle: w.idle(); break;
            case Halt: ++halts; w.halt(); break;
            case DropIo: if (depth == 0) w.dropIo(); break;
            case Nothing: break;
            }
        }
        void run()
        {
            for (auto& a : p.top)
            {
                log << "step " << kNames[a.k] << "\n"; act(a); log << w.state() << "\n";
            }
        }
    };
    struct Real
    {
        struct Queue : neolib::lifetime<neolib::i_async_event_queue>
        {
            Machine<Real>& m; int me; std::deque<int> items; Queue(Machine<Real>& mm, int i) : m{ mm }, me{ i } {}
            void register_with_task(neolib::i_async_task& t) override { t.register_event_queue(*this); }
            bool pump_events() override { auto now = std::move(items); items.clear(); for (auto s : now) m.ranOne("queue", me, s); return !now.empty(); }
        };
        Machine<Real>& m; std::vector<std::unique_ptr<Queue>> q; std::unique_ptr<Task> task = std::make_unique<Task>("a task"); neolib::sink sink; long idles = 0; int begun = 0, over = 0, posted = 0;
        Real(Machine<Real>& mm) : m{ mm }
        {
            for (int i = 0; i < NQ; ++i) q.push_back(std::make_unique<Queue>(mm, i));
            neolib::i_async_task& t = *task; sink += t.idle_work([this] { ++idles; }); sink += t.destroying([this] { ++begun; REQUIRE(over == 0, "destruction is complete before it begins"); }); sink += t.destroyed([this] { ++over; REQUIRE(begun == 1, "destruction is complete before it begins"); });
        }
        bool worked(bool r, long before, bool expectIdle) { if (expectIdle) REQUIRE(idles > before, "no idle work was done"); return r; }
        bool turn(int y) { auto const b = idles; bool const h = task->halted(); return worked(task->do_work(y % 3 == 0 ? yield_type::NoYield : y % 3 == 1 ? yield_type::Yield : yield_type::Sleep), b, !h); }
        bool poll(bool e, std::size_t n) { return task->io_context().poll(e, n); }
        void post(int s) { int const k = posted++; boost::asio::post(task->io_context().native_object<boost::asio::io_context>(), [this, k, s] { m.ranOne("handler", k, s); }); }
        void item(int i, int s) { q[static_cast<std::size_t>(i % NQ)]->items.push_back(s); }
        void enlist(int i) { if (i % 2) task->register_event_queue(*q[static_cast<std::size_t>(i % NQ)]); else q[static_cast<std::size_t>(i % NQ)]->register_with_task(*task); }
        void delist(int i) { task->unregister_event_queue(*q[static_cast<std::size_t>(i % NQ)]); }
        bool pumpEvents() { return task->pump_events(); }
        bool pumpMessages() { auto const b = idles; return worked(task->pump_messages(), b, true); }
        void idle() { auto const b = idles; static_cast<neolib::i_async_task&>(*task).idle(); REQUIRE(idles == b + 1, "idle work"); }
        void halt() { task->halt(); }
        void dropIo() { task->cancel_io_context(); }
        std::string state()
        {
            auto refused = [](auto&& f) { try { f(); } catch (neolib::i_async_task::no_message_queue const&) { return true; } return false; };
            REQUIRE(!task->have_message_queue() && !task->have_messages() && refused([&] { (void)task->message_queue(); }) && refused([&] { (void)static_cast<Task const&>(*task).message_queue(); }), "a message queue from nowhere");
            REQUIRE(!task->running() && !task->finished() && !task->cancelled() && task->name() == "a task" && task->is_alive(), "state of a task that no thread runs");
            return task->halted() ? "halted" : "not halted";
        }
    };
    struct Plain
    {
        Machine<Plain>& m; std::deque<int> items[NQ]; std::vector<int> listed; std::deque<std::pair<int, int>> handlers; bool halted = false; int posted = 0;
        Plain(Machine<Plain>& mm) : m{ mm } {}
        bool pump(int i) { auto now = std::move(items[i]); items[i].clear(); for (auto s : now) m.ranOne("queue", i, s); return !now.empty(); }
        bool pumpEvents() { bool did = false; auto const now = listed; for (auto i : now) if (std::find(listed.begin(), listed.end(), i) != listed.end()) did = pump(i) || did; return did; }
        bool poll(bool, std::size_t n)
        {
            bool did = false; auto left = n; auto one = [&] { if (handlers.empty()) return false; auto h = handlers.front(); handlers.pop_front(); m.ranOne("handler", h.first, h.second); return true; };
            do
            {
                if (halted) return did;
                bool some = one(); if (some && n == 0) while (one()) {}
                if (!some) break;
                did = true;
            } while (n == 0 || --left > 0);
            return did;
        }
        bool turn(int) { if (halted) return false; bool did = pumpEvents(); return poll(true, 256) || did; }
        void post(int s) { handlers.push_back({ posted++, s }); }
        void item(int i, int s) { items[i % NQ].push_back(s); }
        void enlist(int i) { i %= NQ; if (std::find(listed.begin(), listed.end(), i) == listed.end()) listed.push_back(i); }
        void delist(int i) { i %= NQ; auto x = std::find(listed.begin(), listed.end(), i); if (x != listed.end()) listed.erase(x); }
        bool pumpMessages() { return false; }
        void idle() {}
        void halt() { halted = true; }
        void dropIo() { handlers.clear(); }
        std::string state() { return halted ? "halted" : "not halted"; }
    };
    Act action(Case& c, bool inner)
    {
        static std::vector<Kind> const outer{ Turn, Turn, Turn, Turn, Poll, Poll, Post, Post, Post, Item, Item, Item, Enlist, Enlist, Delist, PumpEvents, PumpMessages, Idle, DropIo };
        static std::vector<Kind> const in{ Nothing, Nothing, Nothing, Post, Post, Item, Item, Enlist, Delist, Turn, Poll, PumpEvents, PumpMessages, Idle, Halt };
        auto k = c.s.pickv(inner ? in : outer); if (k == Halt && c.s.chance(2, 3)) k = Nothing;
        if (!inner && k == DropIo && c.s.coin()) k = c.s.chance(1, 4) ? Halt : Turn;
        return Act{ k, static_cast<int>(c.s.below(12)), static_cast<int>(c.s.below(NS)) };
    }
    std::string text(Act const& a) { std::ostringstream o; o << kNames[a.k] << " " << a.i << " " << a.x; return o.str(); }
}

PBT_SUITE("turns", 40000, 600000)
{
    provider(); gVirtual = false; Program p; p.scripts.resize(NS);
    for (std::size_t i = 0; i < NS; ++i) for (auto n = c.s.below(4); n--; ) { p.scripts[i].push_back(action(c, true)); c.note("script ", i, ": ", text(p.scripts[i].back())); }
    p.top.push_back(Act{ Enlist, static_cast<int>(c.s.below(6)), 0 }); for (auto n = 3 + c.s.len(30); n--; ) p.top.push_back(action(c, false));
    for (auto& a : p.top) c.note(text(a));
    auto model = std::make_unique<Machine<Plain>>(p); model->run();
    auto real = std::make_unique<Machine<Real>>(p); real->run();
    std::string const a = real->log.str(), b = model->log.str();
    if (a != b)
    {
        std::istringstream x{ a }, y{ b }; std::string l, k, last; int line = 0; for (;;) { bool const gx = !!std::getline(x, l), gy = !!std::getline(y, k); if (!gx) l = "nothing"; if (!gy) k = "nothing"; if (l != k || !gx) break; last = l; ++line; }
        FAIL("log line ", line, " after '", last, "': got '", l, "' expected '", k, "'");
    }
    auto& w = real->w; auto const ran = real->ran; neolib::destroying_flag going{ *w.task }; neolib::destroyed_flag gone{ *w.task }; bool const cancelled = c.s.coin();
    if (cancelled) { w.task->cancel(); REQUIRE(w.task->cancelled() && !w.task->running() && w.begun == 0 && !going, "cancelled"); if (c.s.coin() && !w.task->halted()) { w.task->do_work(); c.label("turn after cancellation"); } }
    auto const after = real->ran; w.task.reset(); REQUIRE(w.begun == 1 && w.over == 1 && gone, "destruction announced ", w.begun, " times as begun and ", w.over, " times as complete"); REQUIRE(after >= ran && real->ran == after, "something ran in a destroyed task");
    if (real->halts) c.label("halted"); if (real->w.posted) c.label("handlers"); c.nontrivial(real->ran >= 3 && real->w.posted > 0);
}

// which kind of work has used up its share of a slice of time
PBT_SUITE("slices", 60000, 600000)
{
    provider(); gVirtual = true; gNow = 5000000000ll; auto& ts = neolib::service<neolib::i_time_slice>(); static neolib::time_slice_task tags[3];
    struct Slice { long long us; std::size_t splits = 0; std::map<int, long long> used; std::vector<int> entered; }; std::vector<Slice> m; int questions = 0, yes = 0, nested = 0; std::vector<int> order; // 's' or a tag, to leave in order
    REQUIRE(!ts.active() && !ts.expired(), "a slice from nowhere");
    auto pass = [&](long long ns) { gNow += ns; for (auto& s : m) if (!s.entered.empty()) s.used[s.entered.back()] += ns; };
    auto ask = [&]
    {
        REQUIRE(ts.active() == !m.empty(), "active");
        if (m.empty()) { REQUIRE(!ts.expired(), "expired without a slice"); return; }
        if (m.back().entered.empty()) { bool refused = false; try { (void)ts.expired(); } catch (std::logic_error const&) { refused = true; } REQUIRE(refused, "work that was not entered has a share"); return; }
        auto& s = m.back(); auto const share = s.us / static_cast<long long>(std::max<std::size_t>(1, s.splits)) * 1000; bool const want = s.used[s.entered.back()] > share; ++questions; yes += want;
        REQUIRE(ts.expired() == want, "work ", s.entered.back(), " used ", s.used[s.entered.back()], " ns of ", share, ", but is ", want ? "not " : "", "expired");
    };
    auto leave = [&] { auto o = order.back(); order.pop_back(); if (o < 0) { ts.pop(); m.pop_back(); } else { ts.leave(); if (!m.empty() && !m.back().entered.empty()) m.back().entered.pop_back(); } };
    for (auto n = 3 + c.s.len(40); n--; )
    {
        switch (c.s.below(8))
        {
        case 0: if (m.size() < 3) { auto us = static_cast<long long>(c.s.below(4) ? 1 + c.s.below(40) : c.s.below(3)); c.note("slice of ", us, " us"); if (us % 1000 == 0 && c.s.coin()) ts.push(std::chrono::milliseconds{ us / 1000 }); else ts.push(std::chrono::microseconds{ us }); m.push_back(Slice{ us }); order.push_back(-1); nested += m.size() > 1; } break;
        case 1: case 2: if (order.size() < 9 && !m.empty()) { int const t = static_cast<int>(c.s.below(3)); c.note("enter ", t); ts.enter(tags[t]); m.back().entered.push_back(t); order.push_back(t); } break;
        case 3: case 4: if (!order.empty()) { c.note("leave ", order.back()); leave(); } break;
        case 5: if (!m.empty()) { auto k = c.s.below(5); c.note("split by ", k); ts.split(k); m.back().splits += k; } else { ts.split(4); if (c.s.coin()) { ts.enter(tags[0]); ts.leave(); } } break;
        default: { auto ns = static_cast<long long>(c.s.below(3) ? c.s.below(30) * 1000 : c.s.below(4)); c.note("pass ", ns, " ns"); pass(ns); break; }
        }
        ask();
    }
    while (!order.empty()) { leave(); ask(); }
    { neolib::scoped_time_slice slice{ std::chrono::milliseconds{ 1 } }; REQUIRE(ts.active(), "scope"); { neolib::scoped_time_slice_task<Act> work; gNow += 1000000; REQUIRE(!ts.expired(), "a share used up exactly"); gNow += 1; REQUIRE(ts.expired(), "a share used up"); } neolib::scoped_time_slice_task<Program> other; REQUIRE(!ts.expired(), "the share of other work"); }
    bool refused = false; try { ts.pop(); } catch (std::logic_error const&) { refused = true; } REQUIRE(refused && !ts.active(), "a slice left twice");
    gVirtual = false; c.nontrivial(questions > 5 && yes > 0 && yes < questions); if (nested) c.label("nested slices");
}

// a task run by a thread: what is handed to it runs there, in order, until it is told to stop
PBT_SUITE("thread", 1200, 20000)
{
    provider(); (void)neolib::async_event_queue::instance(); gVirtual = false; using clock = std::chrono::steady_clock; auto const limit = clock::now() + std::chrono::seconds{ 60 };
    neolib::services::service<neolib::i_event_system>().set_locking_strategy(neolib::event_system_locking_strategy::MultiThreaded);
    enum How { Destroy, Cancel, CancelInside, HaltInside, HaltOutside, TimerCancels, EventCancels }; static char const* const names[] = { "destroyed", "cancelled", "cancelled from a handler", "halted from a handler", "halted", "cancelled from a timer", "cancelled from an event" };
    auto const how = static_cast<How>(c.s.below(7)); int const producers = 1 + static_cast<int>(c.s.below(3)), count = 1 + static_cast<int>(c.s.below(20)); bool const drain = c.s.coin(), sleepy = c.s.coin(); std::vector<u64> pace; for (int k = 0; k < 8; ++k) pace.push_back(c.s.below(3));
    c.note(producers, " producers of ", count, ", ", names[how], drain ? " after all is done" : "", sleepy ? ", sleepy" : "");
    struct Log { std::vector<std::vector<int>> handlers, events; std::atomic<int> n{ 0 }; std::atomic<bool> over{ false }; std::string bad; std::thread::id self; } l; l.handlers.resize(static_cast<std::size_t>(producers)); l.events.resize(static_cast<std::size_t>(producers));
    auto task = std::make_unique<Task>("worker"); auto& io = task->io_context().native_object<boost::asio::io_context>(); std::atomic<bool> ready{ false }; std::atomic<int> idles{ 0 }, stops{ 0 }; std::atomic<bool> gone{ false };
    neolib::event<int, int> ev; ev.set_trigger_type(neolib::trigger_type::Asynchronous); neolib::sink sink, idle; idle += ~static_cast<neolib::i_async_task&>(*task).idle_work([&] { ++idles; });
    auto check = [&] { if (std::this_thread::get_id() != l.self) l.bad = "ran on another thread"; if (l.over) l.bad = "ran after the task was stopped"; ++l.n; };
    auto stop = [&] { if (how == HaltInside) task->halt(); else task->cancel(); ++stops; };
    std::unique_ptr<neolib::callback_timer> timer;
    if (how == TimerCancels) timer = std::make_unique<neolib::callback_timer>(*task, [&](neolib::callback_timer& t) { if (drain && l.n < 2 * producers * count) { t.again(); return; } if (stops == 0) stop(); }, std::chrono::microseconds{ 200 });
    int const all = 2 * producers * count; bool timedOut = false;
    {
        struct Thread : neolib::async_thread { bool sleepy; Thread(neolib::async_task& t, bool s) : async_thread{ t, "worker" }, sleepy{ s } {} void exec(yield_type y) override { async_thread::exec(sleepy ? yield_type::Sleep : y); } };
        auto thread = std::make_unique<Thread>(*task, sleepy);
        REQUIRE(task->joined() && &task->thread() == thread.get() && !task->running() && !task->finished(), "joined");
        boost::asio::post(io, [&] { l.self = std::this_thread::get_id(); sink = ev([&](int p, int k) { check(); l.events[static_cast<std::size_t>(p)].push_back(k); if (how == EventCancels && k == count - 1 && !drain) stop(); }); ready = true; });
        thread->start(); auto expired = [&] { if (clock::now() > limit) timedOut = true; return timedOut; };
        while (!ready && !expired()) std::this_thread::yield();
        REQUIRE(timedOut || task->running() || stops > 0, "a running task says it is not");
        std::vector<std::thread> th;
        for (int p = 0; p < producers; ++p) th.emplace_back([&, p]
        {
            (void)neolib::async_event_queue::instance();
            for (int k = 0; k < count; ++k)
            {
                try { ev.trigger(p, k); } catch (std::logic_error const&) { if (!task->cancelled()) gone = true; } // its thread has ended
                boost::asio::post(io, [&, p, k] { check(); l.handlers[static_cast<std::size_t>(p)].push_back(k); if ((how == CancelInside || how == HaltInside) && !drain && k == count / 2) stop(); });
                if (pace[static_cast<std::size_t>(p + k) % 8] == 0) std::this_thread::yield(); else if (pace[static_cast<std::size_t>(p + k) % 8] == 1 && k % 7 == 3) std::this_thread::sleep_for(std::chrono::microseconds{ 100 });
            }
        });
        if (!drain && (how == Cancel || how == HaltOutside)) { while (l.n < 1 && !expired()) std::this_thread::yield(); }
        else for (auto& t : th) t.join();
        if (drain) while (l.n < all && !expired()) std::this_thread::yield();
        bool const inside = how == CancelInside || how == HaltInside || how == TimerCancels || how == EventCancels;
        if (how == Cancel) for (auto& t : th) if (t.joinable()) t.join(); // which post to what cancelling destroys
        if (how == Cancel) { task->cancel(); l.over = true; REQUIRE(task->cancelled() && !task->running(), "cancelled but running"); task->wait(); }
        else if (how == HaltOutside) task->halt();
        else if (inside && drain && how != TimerCancels) boost::asio::post(io, [&] { stop(); });
        if (inside) while (stops == 0 && !expired()) std::this_thread::yield();
        if (how == HaltOutside || how == HaltInside) REQUIRE(timedOut || (task->halted() && !task->running()), "halted, but does not say so");
        for (auto& t : th) if (t.joinable()) t.join();
        if (inside && how != HaltInside && !timedOut) { task->wait(); REQUIRE(task->cancelled(), "cancelled from inside, but does not say so"); while (!task->finished() && !expired()) std::this_thread::yield(); }
        if (how == HaltOutside && c.s.coin()) { std::this_thread::sleep_for(std::chrono::milliseconds{ 1 }); auto const n = l.n.load(); std::this_thread::sleep_for(std::chrono::milliseconds{ 1 }); if (l.n != n) l.bad = "a halted task goes on"; }
        thread.reset(); l.over = true;
        REQUIRE(!task->running() && !task->joined(), "not stopped with its thread");
        if (how != HaltOutside && how != HaltInside) REQUIRE(task->cancelled(), "not cancelled with its thread");
    }
    REQUIRE(!timedOut, "not done in 60 s: ", l.n.load(), " of ", all, " ran");
    timer.reset(); sink.clear(); task.reset(); idle.clear(); REQUIRE(l.bad.empty(), l.bad); REQUIRE(!gone, "events have nowhere to go while the task runs"); REQUIRE(idles > 0, "no idle work");
    for (int what = 0; what < 2; ++what) for (int p = 0; p < producers; ++p)
    {
        auto& v = (what ? l.events : l.handlers)[static_cast<std::size_t>(p)]; for (std::size_t k = 0; k < v.size(); ++k) REQUIRE(v[k] == static_cast<int>(k), what ? "event " : "handler ", v[k], " of producer ", p, " runs as number ", k);
        if (drain) REQUIRE(v.size() == static_cast<std::size_t>(count), v.size(), what ? " events" : " handlers", " of ", count, " of producer ", p, " ran");
    }
    c.label(names[how]); c.nontrivial(l.n >= 4);
}

// a thread with a queue of events ends while others trigger them: each is pumped in order there or has nowhere to go
PBT_SUITE("ending", 400, 12000)
{
    provider(); (void)neolib::async_event_queue::instance(); gVirtual = false;
    neolib::services::service<neolib::i_event_system>().set_locking_strategy(neolib::event_system_locking_strategy::MultiThreaded);
    int const producers = 1 + static_cast<int>(c.s.below(3)), rounds = 1 + static_cast<int>(c.s.below(6)), enough = static_cast<int>(c.s.below(12)); bool const dontQueue = c.s.below(4) == 0;
    c.note(producers, " producers, ", rounds, " ending threads, each after ", enough, dontQueue ? ", no duplicates" : ""); std::atomic<int> refused{ 0 }, got{ 0 }; std::string bad;
    for (int r = 0; r < rounds; ++r)
    {
        neolib::event<int, int> ev; ev.set_trigger_type(dontQueue ? neolib::trigger_type::AsynchronousDontQueue : neolib::trigger_type::Asynchronous); neolib::sink sink; std::atomic<bool> ready{ false }; std::atomic<int> triggered{ 0 };
        std::vector<int> last(static_cast<std::size_t>(producers), -1);
        std::thread t{ [&]
        {
            auto const self = std::this_thread::get_id(); auto& queue = neolib::async_event_queue::instance(); int n = 0;
            sink = ev([&, self](int p, int k) { if (std::this_thread::get_id() != self) bad = "ran on another thread"; auto& l = last[static_cast<std::size_t>(p)]; if (k <= l || (!dontQueue && k != l + 1)) bad = "out of order"; l = k; ++n; ++got; });
            ready = true; while (n < enough) { queue.pump_events(); std::this_thread::yield(); }
        } };
        std::vector<std::thread> th;
        for (int p = 0; p < producers; ++p) th.emplace_back([&, p]
        {
            (void)neolib::async_event_queue::instance(); while (!ready) std::this_thread::yield();
            for (int k = 0; k < 200000; ++k) { try { ev.trigger(p, k); ++triggered; } catch (std::logic_error const&) { ++refused; break; } if (k % 16 == 15) std::this_thread::yield(); }
        });
        t.join(); for (auto& x : th) x.join(); sink.clear(); REQUIRE(bad.empty(), bad);
    }
    REQUIRE(refused == producers * rounds, "triggered for a thread that has ended: ", refused.load(), " refused of ", producers * rounds); c.nontrivial(got > 0 || enough == 0);
}
