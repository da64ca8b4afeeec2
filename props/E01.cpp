// E01: synchronous events. Every subscription carries a script of actions to run when called; the same scripts are
// interpreted by neolib's events and by a plain model, and the two logs must agree.
#include "pbt.hpp"
#include <neolib/neolib.hpp>
#include <neolib/core/service.hpp>
#include <neolib/task/event.hpp>
#include <map>
#include <memory>
#include <sstream>

using namespace pbt;

namespace
{
    enum Kind { Subscribe, Prepend, Add, Loose, ClearSink, NewSink, CopySink, Trigger, Guarded, Accept, Destroy, Throw, Remove, Copy, Nothing };
    struct Act { Kind k; int e, s, t, x; };
    struct Boom {};
    constexpr int NE = 3, NS = 4, NT = 5, kDepth = 4, kCalls = 300;
    struct Program { std::vector<Act> top; std::vector<std::vector<Act>> scripts; };

    template <typename W> struct Machine
    {
        Program const& p; W w; std::ostringstream log; int calls = 0, depth = 0, nextSlot = 0; int curEvent = -1; std::shared_ptr<int> token = std::make_shared<int>(7);
        Machine(Program const& q) : p{ q }, w{ *this } {}
        void called(int slot, int event, int script, int arg)
        {
            ++calls; int const outer = curEvent; curEvent = event; log << "call slot " << slot << " arg " << arg << "\n";
            struct Restore { int& c; int o; ~Restore() { c = o; } } r{ curEvent, outer };
            for (auto& a : p.scripts[static_cast<std::size_t>(script)]) act(a, arg);
        }
        void act(Act const& a, int arg)
        {
            switch (a.k)
            {
            case Subscribe: case Prepend: case Add: case Loose: if (w.has(a.e) && nextSlot < 60) w.subscribe(a.e, a.k == Loose ? -1 : a.s, ++nextSlot, a.t, a.k == Prepend, a.k == Add); break;
            case ClearSink: w.clearSink(a.s); break;
            case NewSink: w.newSink(a.s); break;
            case CopySink: w.copySink(a.s, a.x % NS); break;
            case Trigger: case Guarded:
                if (w.has(a.e) && depth < kDepth && calls < kCalls)
                {
                    ++depth; struct Down { int& d; ~Down() { --d; } } down{ depth };
                    if (a.k == Trigger) { auto r = w.trigger(a.e, arg + a.x); log << "result " << r << "\n"; }
                    else try { auto r = w.trigger(a.e, arg + a.x); log << "result " << r << "\n"; } catch (Boom const&) { log << "caught\n"; }
                }
                break;
            case Accept: if (curEvent >= 0 && w.current(curEvent)) w.accept(curEvent); break;
            case Destroy: w.destroy(a.e); break;
            case Copy: if (depth == 0 && a.e != a.x % NE && w.has(a.e) && w.has(a.x % NE)) w.assign(a.e, a.x % NE); break;
            case Remove: w.removeLoose(a.x); break;
            case Throw: if (depth > 0 && a.x % 2) throw Boom{}; break;
            case Nothing: break;
            }
        }
        void run()
        {
            for (auto& a : p.top)
            {
                for (int e = 0; e < NE; ++e) if (!w.has(e)) w.create(e);
                log << "step\n"; try { act(a, 0); } catch (Boom const&) { log << "escaped\n"; }
                for (int e = 0; e < NE; ++e) if (w.has(e)) log << "slots " << w.hasSlots(e); for (int s = 0; s < NS; ++s) log << " sink " << w.sinkEmpty(s); log << " tokens " << w.tokens() << "\n";
            }
        }
    };

    // an event is reached through what the macros declare, with and without naming the priority
    struct Source
    {
        using Cb = std::function<void(int)>; virtual ~Source() = default;
        virtual neolib::event<int>& raw() = 0; virtual neolib::slot_proxy<int> subscribe(int id, Cb const& f, bool p) = 0;
        template <typename S> static neolib::slot_proxy<int> via(S& s, int id, Cb const& f, bool p)
        {
            S const& cs = s;
            switch (id % 5)
            {
            case 0: return p ? s.fired(f, p) : s.fired(f);
            case 1: return p ? cs.fired(f, p) : cs.fired(f);
            case 2: return p ? s.fired()(f, p) : s.fired()(f);
            case 3: return p ? cs.fired()(f, p) : cs.fired()(f);
            default: { neolib::i_event<int>& e = s.ev_fired(); return p ? e(f, p) : e(f); }
            }
        }
    };
    struct IDeclared { virtual ~IDeclared() = default; declare_event(fired, int) };
    struct Declared : Source, IDeclared { define_declared_event(Fired, fired, int) neolib::event<int>& raw() override { return Fired; } neolib::slot_proxy<int> subscribe(int id, Cb const& f, bool p) override { return via<IDeclared>(*this, id, f, p); } };
    struct Defined : Source { define_event(Fired, fired, int) neolib::event<int>& raw() override { return Fired; } neolib::slot_proxy<int> subscribe(int id, Cb const& f, bool p) override { return via(*this, id, f, p); } };

    // events are known by generation so that "current" means the very event that called us
    struct Real
    {
        Machine<Real>& m; std::unique_ptr<Source> ev[NE]; int gen[NE] = {}; std::unique_ptr<neolib::sink> sk[NS]; std::map<int, std::weak_ptr<int>> alive;
        std::vector<neolib::slot_proxy<int>> loose;
        Real(Machine<Real>& mm) : m{ mm } { for (auto& s : sk) s = std::make_unique<neolib::sink>(); }
        bool has(int e) { return ev[e] != nullptr; }
        void create(int e) { if (gen[e] % 2) ev[e] = std::make_unique<Declared>(); else ev[e] = std::make_unique<Defined>(); gen[e] += 1; }
        bool current(int ge) { int e = ge % NE; return has(e) && gen[e] == ge / NE; }
        void subscribe(int e, int s, int id, int script, bool pri, bool add)
        {
            auto tok = std::make_shared<int>(id); alive[id] = tok; int const ge = gen[e] * NE + e;
            auto cb = [this, tok, id, script, ge](int arg) { m.called(id, ge, script, arg); if (*tok != id) std::abort(); };
            auto ie = [&](auto const& f, bool p) { return ev[e]->subscribe(id, f, p); };
            if (s < 0) { auto px = ie(cb, pri); if (id % 3 == 0) loose.push_back(px); } else if (add) *sk[s] += ie(cb, pri); else if (id % 2) *sk[s] = ~ie(cb, pri); else *sk[s] = ie(cb, pri);
        }
        void clearSink(int s) { sk[s]->clear(); }
        void newSink(int s) { auto old = std::move(sk[s]); old.reset(); sk[s] = std::make_unique<neolib::sink>(); }
        void copySink(int s, int t) { if (m.calls % 2) *sk[s] = *sk[t]; else { auto copy = std::make_unique<neolib::sink>(*sk[t]); sk[s].swap(copy); } }
        std::string trigger(int e, int arg) { auto r = arg % 2 ? ev[e]->raw().trigger(arg) : ev[e]->raw()(arg); return neolib::event_consumed(r) ? "accepted" : r == neolib::trigger_result::Unaccepted ? "unaccepted" : "unknown"; }
        void accept(int ge) { ev[ge % NE]->raw().accept(); }
        void destroy(int e) { ev[e].reset(); }
        void assign(int e, int f) { if (m.calls % 2) ev[e]->raw() = ev[f]->raw(); else { neolib::event<int> copy{ ev[f]->raw() }; if (copy.has_slots()) m.log << "copy has slots\n"; } }
        void removeLoose(int x) { if (!loose.empty()) { auto i = static_cast<std::size_t>(x) % loose.size(); loose[i].slot->remove(); auto keep = loose[i]; loose.erase(loose.begin() + static_cast<std::ptrdiff_t>(i)); } }
        bool hasSlots(int e) { return ev[e]->raw().has_slots(); }
        bool sinkEmpty(int s) { return sk[s]->empty(); }
        int tokens() { int n = 0; for (auto& a : alive) if (!a.second.expired()) ++n; return n; }
    };

    struct Plain
    {
        struct Slot { int id, script, ge; bool removed = false; };
        using SP = std::shared_ptr<Slot>;
        struct Active { bool accepted = false; };
        struct Ev { std::vector<SP> slots; Active* active = nullptr; };
        Machine<Plain>& m; std::shared_ptr<Ev> ev[NE]; int gen[NE] = {}; std::vector<SP> sk[NS]; std::vector<SP> loose; std::vector<std::weak_ptr<Slot>> alive; std::map<int, std::weak_ptr<Ev>> byGe;
        Plain(Machine<Plain>& mm) : m{ mm } {}
        bool has(int e) { return ev[e] != nullptr; }
        void create(int e) { ev[e] = std::make_shared<Ev>(); gen[e] += 1; byGe[gen[e] * NE + e] = ev[e]; }
        bool current(int ge) { int e = ge % NE; return has(e) && gen[e] == ge / NE; }
        void remove(SP s) { if (auto e = byGe[s->ge].lock()) std::erase(e->slots, s); s->removed = true; }
        void subscribe(int e, int s, int id, int script, bool pri, bool add)
        {
            auto n = std::make_shared<Slot>(Slot{ id, script, gen[e] * NE + e }); alive.push_back(n);
            auto& v = ev[e]->slots; v.insert(pri ? v.begin() : v.end(), n);
            if (s < 0) { if (id % 3 == 0) loose.push_back(n); } else { if (!add) clearSink(s); sk[s].push_back(n); }
        }
        void clearSink(int s) { auto old = sk[s]; for (auto& x : old) remove(x); sk[s].clear(); }
        void newSink(int s) { clearSink(s); }
        void copySink(int s, int t) { if (m.calls % 2) { if (s != t) { auto v = sk[t]; clearSink(s); sk[s] = v; } } else { auto v = sk[t]; auto old = sk[s]; sk[s] = v; for (auto& x : old) remove(x); } }
        std::string trigger(int e, int arg)
        {
            std::weak_ptr<Ev> w = ev[e]; auto snapshot = ev[e]->slots; Active a; auto saved = ev[e]->active; ev[e]->active = &a;
            struct Restore { std::weak_ptr<Ev> w; Active* s; ~Restore() { if (auto p = w.lock()) p->active = s; } } r{ w, saved };
            for (auto& s : snapshot) { if (s->removed) continue; m.called(s->id, s->ge, s->script, arg); if (w.expired()) return "unaccepted"; if (a.accepted) return "accepted"; }
            return "unaccepted";
        }
        void accept(int ge) { if (auto& e = ev[ge % NE]; e && e->active) e->active->accepted = true; }
        void destroy(int e) { ev[e].reset(); }
        void assign(int e, int) { if (m.calls % 2) ev[e]->slots.clear(); }
        void removeLoose(int x) { if (!loose.empty()) { auto i = static_cast<std::size_t>(x) % loose.size(); remove(loose[i]); loose.erase(loose.begin() + static_cast<std::ptrdiff_t>(i)); } }
        bool hasSlots(int e) { return !ev[e]->slots.empty(); }
        bool sinkEmpty(int s) { return sk[s].empty(); }
        int tokens() { int n = 0; for (auto& a : alive) if (!a.expired()) ++n; return n; }
    };

    Act action(Case& c, bool inner)
    {
        static std::vector<Kind> const outerKinds{ Trigger, Trigger, Trigger, Trigger, Guarded, Subscribe, Subscribe, Subscribe, Prepend, Add, Add, Add, Loose, Loose, ClearSink, NewSink, CopySink, Destroy, Copy, Remove };
        static std::vector<Kind> const innerKinds{ Nothing, Nothing, Accept, Accept, Subscribe, Prepend, Add, Loose, ClearSink, ClearSink, NewSink, NewSink, CopySink, Trigger, Trigger, Guarded, Guarded, Destroy, Throw, Remove };
        return Act{ c.s.pickv(inner ? innerKinds : outerKinds), static_cast<int>(c.s.below(NE)), static_cast<int>(c.s.below(NS)), static_cast<int>(c.s.below(NT)), static_cast<int>(c.s.below(12)) };
    }
    char const* const kNames[] = { "subscribe", "subscribe first", "subscribe also", "subscribe loosely", "clear sink", "new sink", "copy sink", "trigger", "trigger guarded", "accept", "destroy event", "throw", "remove loose", "copy event", "nothing" };
    std::string text(Act const& a) { std::ostringstream o; o << kNames[a.k] << " event " << a.e << " sink " << a.s << " script " << a.t << " x " << a.x; return o.str(); }
}

PBT_SUITE("scripts", 150000, 5000000)
{
    static bool const sProvider = (neolib::allocate_service_provider(), true); (void)sProvider;
    using L = neolib::event_system_locking_strategy;
    neolib::services::service<neolib::i_event_system>().set_locking_strategy(c.s.pickv(std::vector<L>{ L::MultiThreaded, L::SingleThreaded, L::MultiThreadedSpinlock, L::MultiThreadedProfiled }));
    Program p; p.scripts.resize(NT);
    for (std::size_t i = 0; i < NT; ++i) { std::size_t n = i == 0 ? 0 : c.s.below(4); while (n--) { p.scripts[i].push_back(action(c, true)); c.note("script ", i, ": ", text(p.scripts[i].back())); } }
    std::size_t n = 2 + c.s.len(24); for (int k = 0; k < 3; ++k) { p.top.push_back(Act{ Add, static_cast<int>(c.s.below(2)), static_cast<int>(c.s.below(NS)), static_cast<int>(c.s.below(NT)), 0 }); c.note(text(p.top.back())); } while (n--) { p.top.push_back(action(c, false)); c.note(text(p.top.back())); }
    auto model = std::make_unique<Machine<Plain>>(p); model->run();
    auto real = std::make_unique<Machine<Real>>(p); real->run();
    std::string a = real->log.str(), b = model->log.str();
    if (a != b)
    {
        std::istringstream x{ a }, y{ b }; std::string l, k, last; int line = 0; while (std::getline(x, l) && std::getline(y, k) && l == k) { last = l; ++line; }
        FAIL("log line ", line, " after '", last, "': got '", l, "' expected '", k, "'");
    }
    auto tokens = real->w.alive; bool const order = c.s.coin();
    if (order) { for (auto& s : real->w.sk) s.reset(); real->w.loose.clear(); for (auto& e : real->w.ev) e.reset(); } else { for (auto& e : real->w.ev) e.reset(); real->w.loose.clear(); for (auto& s : real->w.sk) s.reset(); }
    for (auto& t : tokens) REQUIRE(t.second.expired(), "subscription ", t.first, " is still held after its event and sinks are gone");
    if (a.find("accepted") != std::string::npos) c.label("accepted"); if (a.find("caught") != std::string::npos || a.find("escaped") != std::string::npos) c.label("slot threw");
    c.nontrivial(model->calls >= 3 && model->calls > static_cast<int>(std::count_if(p.top.begin(), p.top.end(), [](Act const& x) { return x.k == Trigger || x.k == Guarded; })));
}
