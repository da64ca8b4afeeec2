// E02: asynchronous events. One suite interprets scripted programs of triggers, pumps and removals with neolib and with
// a plain model of the queue and compares the logs; the other runs producers and consumers in threads and checks each
// slot's history. Built under ThreadSanitizer.
#include "pbt.hpp"
#include <neolib/neolib.hpp>
#include <neolib/core/service.hpp>
#include <neolib/task/event.hpp>
#include <map>
#include <memory>
#include <sstream>
#include <thread>
#include <atomic>

using namespace pbt;

#if PBT_PART == 0
namespace
{
    enum Kind { Subscribe, Prepend, Loose, ClearSink, NewSink, Trigger, Async, Pump, GuardedPump, Destroy, Throw, Remove, Extra, Nothing };
    struct Act { Kind k; int e, s, t, x; };
    struct Boom {};
    constexpr int NE = 4, NS = 4, NT = 5, kDepth = 4, kCalls = 300;
    using TT = neolib::trigger_type;
    struct Program { std::vector<Act> top; std::vector<std::vector<Act>> scripts; TT type[NE]; };
    bool dont_queue(TT t) { return t == TT::SynchronousDontQueue || t == TT::AsynchronousDontQueue; }
    bool asynchronous(TT t) { return t == TT::Asynchronous || t == TT::AsynchronousDontQueue; }

    template <typename W> struct Machine
    {
        Program const& p; W w; std::ostringstream out; std::vector<std::string> coalesced; bool draining = false; int calls = 0, depth = 0, nextSlot = 0; std::vector<std::shared_ptr<int>> args;
        Machine(Program const& q) : p{ q }, w{ *this } {}
        std::ostringstream& log() { std::sort(coalesced.begin(), coalesced.end()); for (auto& l : coalesced) out << l; coalesced.clear(); return out; }
        void called(int slot, int script, int arg, bool single)
        {
            ++calls; std::ostringstream l; l << "call slot " << slot << " arg " << arg << "\n";
            if (single) { coalesced.push_back(l.str()); return; } // the order of coalesced calls is not specified
            log() << l.str();
            for (auto& a : p.scripts[static_cast<std::size_t>(script)]) act(a, arg);
        }
        void pump() { ++depth; struct Down { int& d; ~Down() { --d; } } down{ depth }; bool r = w.pump(); log() << "pumped " << r << "\n"; }
        void act(Act const& a, int arg)
        {
            switch (a.k)
            {
            case Subscribe: case Prepend: case Loose: if (w.has(a.e) && nextSlot < 60) { bool const stateless = a.x % 4 == 0; w.subscribe(a.e, a.k == Loose ? -1 : a.s, ++nextSlot, stateless || dont_queue(p.type[a.e]) ? 0 : a.t, a.k == Prepend, stateless, a.x % 3 == 0); } break;
            case ClearSink: w.clearSink(a.s); break;
            case NewSink: w.newSink(a.s); break;
            case Trigger: case Async: if (w.has(a.e) && depth < kDepth && calls < kCalls && !draining) { ++depth; struct Down { int& d; ~Down() { --d; } } down{ depth }; args.push_back(std::make_shared<int>(0)); w.trigger(a.e, arg + a.x, a.k == Async, args.back()); } break;
            case Pump: if (depth < kDepth && calls < kCalls) pump(); break;
            case GuardedPump: if (depth < kDepth && calls < kCalls) try { pump(); } catch (Boom const&) { log() << "caught\n"; } break;
            case Destroy: w.destroy(a.e); break;
            case Remove: w.removeLoose(a.x); break;
            case Throw: if (depth > 0 && a.x % 2) throw Boom{}; break;
            case Extra: if (depth == 0) w.extraQueue(); break;
            case Nothing: break;
            }
        }
        void run()
        {
            for (auto& a : p.top)
            {
                for (int e = 0; e < NE; ++e) if (!w.has(e)) w.create(e);
                log() << "step\n"; try { act(a, 0); } catch (Boom const&) { log() << "escaped\n"; }
                auto& o = log(); o << "tokens " << w.tokens() << "\n";
            }
            draining = true;
            for (bool more = true; more; ) { log() << "last\n"; try { more = w.pump(); } catch (Boom const&) { log() << "escaped\n"; } }
        }
    };

    struct Real
    {
        using Arg = std::shared_ptr<int>; using Ev = neolib::event<int, Arg>; Machine<Real>& m; std::unique_ptr<Ev> ev[NE]; std::unique_ptr<neolib::sink> sk[NS]; std::map<int, std::weak_ptr<int>> alive;
        std::vector<neolib::slot_proxy<int, Arg>> loose;
        Real(Machine<Real>& mm) : m{ mm } { for (auto& s : sk) s = std::make_unique<neolib::sink>(); }
        bool has(int e) { return ev[e] != nullptr; }
        void create(int e) { ev[e] = std::make_unique<Ev>(); ev[e]->set_trigger_type(m.p.type[e]); }
        void subscribe(int e, int s, int id, int script, bool pri, bool stateless, bool emitter)
        {
            auto tok = std::make_shared<int>(id); alive[id] = tok; bool const single = stateless || dont_queue(m.p.type[e]);
            auto cb = [this, tok, id, script, single](int arg, Arg) { m.called(id, script, arg, single); if (*tok != id) std::abort(); };
            neolib::i_event<int, Arg>& ie = *ev[e]; auto px = ie(cb, pri);
            if (stateless) !px; if (emitter) ~px;
            if (s < 0) { if (id % 2) loose.push_back(px); } else if (id % 3 == 0) *sk[s] = std::move(px); else *sk[s] += std::move(px);
        }
        void clearSink(int s) { sk[s]->clear(); }
        void newSink(int s) { auto old = std::move(sk[s]); old.reset(); sk[s] = std::make_unique<neolib::sink>(); }
        void trigger(int e, int arg, bool async, Arg a) { if (async) ev[e]->async_trigger(arg, a); else (void)ev[e]->trigger(arg, a); }
        bool pump() { return neolib::async_event_queue::instance().pump_events(); }
        void destroy(int e) { ev[e].reset(); }
        void extraQueue() { neolib::async_event_queue q; (void)neolib::async_event_queue::instance(std::this_thread::get_id()); }
        void removeLoose(int x) { if (!loose.empty()) { auto i = static_cast<std::size_t>(x) % loose.size(); loose[i].slot->remove(); auto keep = loose[i]; loose.erase(loose.begin() + static_cast<std::ptrdiff_t>(i)); } }
        int tokens() { int n = 0; for (auto& a : alive) if (!a.second.expired()) ++n; return n; }
    };

    struct Plain
    {
        struct Slot { int id, script; bool single, removed = false; int e; };
        using SP = std::shared_ptr<Slot>; using Arg = std::shared_ptr<int>;
        struct Ev { std::vector<SP> slots; bool gone = false; };
        struct Entry { SP slot; std::shared_ptr<Ev> ev; int arg; Arg held; };
        Machine<Plain>& m; std::shared_ptr<Ev> ev[NE]; std::map<Slot*, std::shared_ptr<Ev>> of; std::vector<SP> sk[NS]; std::vector<SP> loose; std::vector<std::pair<int, SP>> every; std::vector<Entry> plain; std::map<int, Entry> single; std::vector<SP> calling;
        Plain(Machine<Plain>& mm) : m{ mm } {}
        bool has(int e) { return ev[e] != nullptr; }
        void create(int e) { ev[e] = std::make_shared<Ev>(); }
        void remove(SP s) { std::erase(of[s.get()]->slots, s); s->removed = true; }
        void subscribe(int e, int s, int id, int script, bool pri, bool stateless, bool)
        {
            auto n = std::make_shared<Slot>(Slot{ id, script, stateless || dont_queue(m.p.type[e]), false, e }); of[n.get()] = ev[e]; every.push_back({ id, n });
            auto& v = ev[e]->slots; v.insert(pri ? v.begin() : v.end(), n);
            if (s < 0) { if (id % 2) loose.push_back(n); } else { if (id % 3 == 0) clearSink(s); sk[s].push_back(n); }
        }
        void clearSink(int s) { auto old = sk[s]; for (auto& x : old) remove(x); sk[s].clear(); }
        void newSink(int s) { clearSink(s); }
        void trigger(int e, int arg, bool async, Arg a)
        {
            auto event = ev[e]; auto snapshot = event->slots;
            for (auto& s : snapshot)
            {
                if (!async && !asynchronous(m.p.type[e])) { if (s->removed) continue; auto keep = calling; calling.push_back(s); m.called(s->id, s->script, arg, s->single); if (event->gone) return; }
                else if (s->single) { single.erase(s->id); single.insert({ s->id, Entry{ s, event, arg, a } }); }
                else plain.push_back(Entry{ s, event, arg, a });
            }
        }
        bool pump()
        {
            std::vector<Entry> work; work.swap(plain); std::size_t const n = work.size(); for (auto& x : single) work.push_back(x.second); single.clear(); bool did = false;
            for (std::size_t i = 0; i < work.size(); ++i)
            {
                auto& w = work[i]; if (w.slot->removed || w.ev->gone) continue;
                try { m.called(w.slot->id, w.slot->script, w.arg, w.slot->single); did = true; }
                catch (...)
                {
                    if (i + 1 < n) plain.insert(plain.begin(), work.begin() + static_cast<std::ptrdiff_t>(i) + 1, work.begin() + static_cast<std::ptrdiff_t>(n));
                    for (auto k = std::max(i + 1, n); k < work.size(); ++k) single.insert({ work[k].slot->id, work[k] });
                    throw;
                }
            }
            return did;
        }
        void destroy(int e) { if (ev[e]) ev[e]->gone = true; ev[e].reset(); }
        void extraQueue() {}
        void removeLoose(int x) { if (!loose.empty()) { auto i = static_cast<std::size_t>(x) % loose.size(); remove(loose[i]); loose.erase(loose.begin() + static_cast<std::ptrdiff_t>(i)); } }
        int tokens()
        {
            int n = 0; for (auto& s : every) { auto e = of[s.second.get()]; bool held = !e->gone && std::count(e->slots.begin(), e->slots.end(), s.second); for (auto& v : sk) held = held || std::count(v.begin(), v.end(), s.second); held = held || std::count(loose.begin(), loose.end(), s.second); if (held) ++n; }
            return n;
        }
    };

    Act action(Case& c, bool inner)
    {
        static std::vector<Kind> const outerKinds{ Trigger, Trigger, Trigger, Trigger, Async, Async, Pump, Pump, GuardedPump, Subscribe, Subscribe, Subscribe, Prepend, Loose, Loose, ClearSink, NewSink, Destroy, Remove, Extra };
        static std::vector<Kind> const innerKinds{ Nothing, Nothing, Subscribe, Prepend, Loose, ClearSink, ClearSink, NewSink, NewSink, Trigger, Trigger, Async, Async, Pump, GuardedPump, GuardedPump, Destroy, Throw, Throw, Remove };
        return Act{ c.s.pickv(inner ? innerKinds : outerKinds), static_cast<int>(c.s.below(NE)), static_cast<int>(c.s.below(NS)), static_cast<int>(c.s.below(NT)), static_cast<int>(c.s.below(12)) };
    }
    char const* const kNames[] = { "subscribe", "subscribe first", "subscribe loosely", "clear sink", "new sink", "trigger", "async trigger", "pump", "pump guarded", "destroy event", "throw", "remove loose", "temporary queue", "nothing" };
    std::string text(Act const& a) { std::ostringstream o; o << kNames[a.k] << " event " << a.e << " sink " << a.s << " script " << a.t << " x " << a.x; return o.str(); }
}

PBT_SUITE("scripts", 60000, 2000000)
{
    static bool const sProvider = (neolib::allocate_service_provider(), (void)neolib::async_event_queue::instance(), true); (void)sProvider;
    using L = neolib::event_system_locking_strategy;
    neolib::services::service<neolib::i_event_system>().set_locking_strategy(c.s.pickv(std::vector<L>{ L::MultiThreaded, L::SingleThreaded, L::MultiThreadedSpinlock, L::MultiThreadedProfiled }));
    Program p; p.scripts.resize(NT); p.type[0] = TT::Asynchronous; p.type[1] = c.s.coin() ? TT::Asynchronous : TT::Synchronous; p.type[2] = c.s.coin() ? TT::AsynchronousDontQueue : TT::Asynchronous; p.type[3] = TT::Asynchronous;
    for (std::size_t i = 0; i < NT; ++i) { std::size_t n = i == 0 ? 0 : c.s.below(4); while (n--) { p.scripts[i].push_back(action(c, true)); c.note("script ", i, ": ", text(p.scripts[i].back())); } }
    std::size_t n = 2 + c.s.len(24); for (int k = 0; k < 3; ++k) { p.top.push_back(Act{ Subscribe, static_cast<int>(c.s.below(2)), static_cast<int>(c.s.below(NS)), static_cast<int>(c.s.below(NT)), 1 }); c.note(text(p.top.back())); } while (n--) { p.top.push_back(action(c, false)); c.note(text(p.top.back())); }
    auto model = std::make_unique<Machine<Plain>>(p); model->run();
    auto real = std::make_unique<Machine<Real>>(p); real->run();
    std::string a = real->log().str(), b = model->log().str();
    if (a != b)
    {
        std::istringstream x{ a }, y{ b }; std::string l, k, last; int line = 0; while (std::getline(x, l) && std::getline(y, k) && l == k) { last = l; ++line; }
        FAIL("log line ", line, " after '", last, "': got '", l, "' expected '", k, "'");
    }
    for (auto& x : real->args) REQUIRE(x.use_count() == 1, "the queue still holds arguments after it was pumped empty");
    auto tokens = real->w.alive;
    if (c.s.coin()) { for (auto& s : real->w.sk) s.reset(); real->w.loose.clear(); for (auto& e : real->w.ev) e.reset(); } else { for (auto& e : real->w.ev) e.reset(); real->w.loose.clear(); for (auto& s : real->w.sk) s.reset(); }
    for (auto& t : tokens) REQUIRE(t.second.expired(), "subscription ", t.first, " is still held after its event and sinks are gone");
    REQUIRE(!neolib::async_event_queue::instance().pump_events(), "a call was delivered after its event and slot were destroyed");
    if (a.find("caught") != std::string::npos || a.find("escaped") != std::string::npos) c.label("slot threw");
    std::size_t pumps = 0; for (std::size_t q = 0; (q = a.find("pumped 1", q)) != std::string::npos; ++q) ++pumps;
    c.nontrivial(pumps >= 2 && model->calls >= 4);
}
#endif

#if PBT_PART == 1
namespace
{
    struct Seen { int producer, seq; };
    struct Watch { int consumer, event; bool late, early; std::vector<Seen> seen; std::atomic<bool> removed{ false }; std::string bad; std::thread::id owner; neolib::sink sink; bool emitter = false; std::vector<int> fromSeq; };
}
PBT_SUITE("threads", 2500, 60000)
{
    static bool const sProvider = (neolib::allocate_service_provider(), (void)neolib::async_event_queue::instance(), true); (void)sProvider;
    using L = neolib::event_system_locking_strategy; using TT = neolib::trigger_type;
    neolib::services::service<neolib::i_event_system>().set_locking_strategy(c.s.pickv(std::vector<L>{ L::MultiThreaded, L::MultiThreaded, L::MultiThreadedSpinlock }));
    int const consumers = 1 + static_cast<int>(c.s.below(3)), producers = 1 + static_cast<int>(c.s.below(3)), events = 1 + static_cast<int>(c.s.below(2)), count = 1 + static_cast<int>(c.s.below(40));
    std::vector<std::unique_ptr<neolib::event<int, int>>> ev; for (int e = 0; e < events; ++e) { ev.push_back(std::make_unique<neolib::event<int, int>>()); ev.back()->set_trigger_type(c.s.coin() ? TT::Asynchronous : TT::Synchronous); }
    std::vector<std::vector<std::unique_ptr<Watch>>> watches(static_cast<std::size_t>(consumers));
    for (int k = 0; k < consumers; ++k) for (std::size_t n = 1 + c.s.below(3); n--; ) { auto w = std::make_unique<Watch>(); w->consumer = k; w->event = static_cast<int>(c.s.below(static_cast<u64>(events))); w->late = c.s.chance(1, 4); w->early = c.s.chance(1, 4); watches[static_cast<std::size_t>(k)].push_back(std::move(w)); }
    bool const churn = c.s.coin(), throwing = c.s.chance(1, 4); std::vector<u64> pattern; for (int k = 0; k < 16; ++k) pattern.push_back(c.s.below(4));
    c.note(consumers, " consumers ", producers, " producers ", events, " events ", count, " triggers each, churn ", churn, " throwing ", throwing);
    neolib::event<int, int> gate; neolib::sink gateSink; std::atomic<int> gateCalls{ 0 }, gateAccepted{ 0 }, gateAfter{ 0 };
    gateSink += ~gate([&](int, int s) { ++gateCalls; if (s % 2) gate.accept(); }); gateSink += ~gate([&](int, int) { ++gateAfter; });
    std::atomic<int> ready{ 0 }, producing{ producers }; std::atomic<bool> go{ false };
    std::vector<std::thread> th;
    for (int k = 0; k < consumers; ++k) th.emplace_back([&, k]
    {
        auto& mine = watches[static_cast<std::size_t>(k)];
        (void)neolib::async_event_queue::instance();
        auto subscribe = [&](Watch& w)
        {
            w.owner = std::this_thread::get_id();
            auto px = (*ev[static_cast<std::size_t>(w.event)])([&w, throwing](int p, int s)
            {
                if (std::this_thread::get_id() != w.owner) w.bad = "called on a thread that is not the subscriber's";
                if (w.removed) w.bad = "called after it was removed";
                w.seen.push_back({ p, s }); if (throwing && s % 5 == 3) throw 1;
            });
            w.sink = std::move(px);
        };
        auto pump = [&] { for (;;) try { return neolib::async_event_queue::instance().pump_events(); } catch (int) {} };
        for (auto& w : mine) if (!w->late) subscribe(*w);
        ++ready; while (!go) std::this_thread::yield();
        bool last = false; unsigned turn = 0;
        for (;;)
        {
            last = producing == 0;
            ++turn; if (turn == 2) for (auto& w : mine) if (w->late) subscribe(*w);
            if (turn == 4) for (auto& w : mine) if (w->early) { w->sink.clear(); w->removed = true; }
            pump();
            if (last && turn > 4) { while (pump()) {} break; }
            if (pattern[turn % 16] == 0) std::this_thread::yield();
        }
        for (auto& w : mine) { w->sink.clear(); w->removed = true; }
    });
    while (ready < consumers) std::this_thread::yield();
    for (int p = 0; p < producers; ++p) th.emplace_back([&, p]
    {
        while (!go) std::this_thread::yield();
        for (int k = 0; k < count; ++k) { bool const accepted = neolib::event_consumed(gate.sync_trigger(p, k)); if (accepted == (k % 2 == 1)) ++gateAccepted; for (auto& e : ev) if (pattern[static_cast<std::size_t>(k + p) % 16] == 1) e->async_trigger(p, k); else e->trigger(p, k); if (pattern[static_cast<std::size_t>(k * 3 + p) % 16] == 2) std::this_thread::yield(); }
        --producing;
    });
    if (churn) for (int k = 0; k < 2; ++k) th.emplace_back([&] { while (!go) std::this_thread::yield(); for (int r = 0; r < 3; ++r) std::thread{ [&] { (void)neolib::async_event_queue::instance(); neolib::async_event_queue::instance().pump_events(); } }.join(); });
    go = true;
    for (auto& t : th) t.join();
    bool interesting = false;
    REQUIRE(gateCalls == producers * count && gateAccepted == producers * count && gateAfter == producers * ((count + 1) / 2), "synchronous triggers from ", producers, " threads: ", gateCalls.load(), " calls, ", gateAccepted.load(), " right results, ", gateAfter.load(), " calls after accepting, of ", producers * count);
    for (auto& v : watches) for (auto& w : v)
    {
        REQUIRE(w->bad.empty(), "slot of consumer ", w->consumer, " ", w->bad);
        std::vector<std::vector<int>> got(static_cast<std::size_t>(producers)); for (auto& s : w->seen) got[static_cast<std::size_t>(s.producer)].push_back(s.seq);
        for (int p = 0; p < producers; ++p)
        {
            auto& g = got[static_cast<std::size_t>(p)];
            for (std::size_t i = 1; i < g.size(); ++i) REQUIRE(g[i] == g[i - 1] + 1, "consumer ", w->consumer, ": trigger ", g[i], " of producer ", p, " came after ", g[i - 1]);
            if (!w->late && !g.empty()) REQUIRE(g.front() == 0, "consumer ", w->consumer, " missed the first ", g.front(), " triggers of producer ", p);
            if (!w->early && !g.empty()) REQUIRE(g.back() == count - 1, "consumer ", w->consumer, " missed the last triggers of producer ", p, " after ", g.back());
            if (!w->late && !w->early) REQUIRE(static_cast<int>(g.size()) == count, "consumer ", w->consumer, " got ", g.size(), " of ", count, " triggers of producer ", p);
            if (g.size() > 3) interesting = true;
        }
        if (!w->seen.empty() && (w->late || w->early)) c.label("late or early");
    }
    c.nontrivial(interesting && producers + consumers >= 3);
}
#endif
