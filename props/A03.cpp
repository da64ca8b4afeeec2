// A03: loggers. Part 0: histories on one thread against a model, exactly. Part 1: several threads, judged by what was written.
#include "pbt.hpp"
#include <neolib/neolib.hpp>
#include <neolib/app/ostream_logger.hpp>
#include <neolib/core/service.hpp>
#include <algorithm>
#include <atomic>
#include <sstream>
#include <thread>
#include <optional>

using namespace pbt;
namespace L = neolib::logger;

namespace
{
    #if !PBT_PART
    static bool const sProvider = (neolib::allocate_service_provider(), true);
#endif
    enum class Cat : std::int32_t { A, B, C, D };
    L::severity sev(int i) { return static_cast<L::severity>(i); }
    template <typename F> void on_thread(F f)
    {
        std::exception_ptr e; std::thread t{ [&] { try { f(); } catch (...) { e = std::current_exception(); } } };
        t.join(); if (e) std::rethrow_exception(e);
    }
    std::string payload(Source& s) { return s.chance(1, 12) ? std::string(1000 + s.below(5000), 'x') : s.from("abc \xc3\xa9", s.below(10)); }
}

#if PBT_PART == 0
namespace
{
    // what one logger is to do
    struct Model
    {
        int filter = 2; std::map<int, bool> categories; bool formatter = false; u64 line = 1; int severity = 2, category = 0;
        std::string out; std::vector<std::string> events; bool copying = false; Model* copy = nullptr;
        void each(std::function<void(Model&)> f) { f(*this); if (copying && copy) copy->each(f); }
        void message(std::string const& t)
        {
            auto c = categories.find(category);
            if (severity >= filter && (c == categories.end() || c->second))
            {
                auto w = formatter ? "[" + std::to_string(line) + " " + t + "]" : t;
                out += w; events.push_back(w); ++line;
            }
            if (copying && copy) copy->message(t);
        }
    };
    template <u64 I> struct Real
    {
        std::ostringstream os; std::vector<std::string> events; neolib::sink sink;
        L::formatter f{ [](L::i_logger const& l, neolib::i_string const& m, neolib::i_string& r) { r = "[" + std::to_string(l.line_id()) + " " + std::string(m.to_std_string_view()) + "]"; } };
        std::optional<L::ostream_logger<I>> l;
        Real() { l.emplace(os); sink += l->new_log_message([this](neolib::i_string const& s) { events.push_back(std::string(s.to_std_string_view())); }); }
        L::i_logger& i() { return *l; }
    };
    template <typename F> void with(Model& m, bool deep, F f) { if (deep) m.each(f); else f(m); }

    void history(Case& c)
    {
        auto& s = c.s; Real<0> a; Real<1> b; Real<2> d; Model ma, mb, md; ma.copy = &mb; mb.copy = &md;
        L::i_logger* l[3] = { &a.i(), &b.i(), &d.i() }; Model* m[3] = { &ma, &mb, &md }; std::ostringstream* o[3] = { &a.os, &b.os, &d.os };
        L::i_formatter* f[3] = { &a.f, &b.f, &d.f }; std::vector<std::string>* ev[3] = { &a.events, &b.events, &d.events };
        bool threaded[3] = { s.chance(1, 4), s.chance(1, 6), false };
        for (int k = 0; k < 3; ++k) if (threaded[k])
        {
            l[k]->create_logging_thread(); bool thrown = false;
            try { l[k]->create_logging_thread(); } catch (L::i_logger::logging_thread_already_created const&) { thrown = true; } REQUIRE(thrown, "two logging threads");
        }
        std::size_t messages = 0;
        for (auto n = 1 + s.len(30); n > 0; --n)
        {
            int k = static_cast<int>(s.below(3)); auto& x = *l[k]; auto& y = *m[k];
            REQUIRE(x.has_logging_thread() == threaded[k], "has_logging_thread");
            switch (s.below(13))
            {
            case 0: case 1: case 2: case 3: case 4:
            {
                std::string t; bool v = s.coin(), g = s.coin();
                int vs = static_cast<int>(s.below(6)), gs = static_cast<int>(s.below(5));
                if (v) { x << sev(vs); y.each([&](Model& q) { q.severity = vs; }); }
                if (g) { x << L::category{ static_cast<Cat>(gs) }; y.each([&](Model& q) { q.category = gs; }); }
                auto p = payload(s); x << p; t = p; if (s.coin()) { x << 42 << '!'; t += "42!"; }
                if (s.coin()) { x << std::endl; t += "\n"; } else x << std::flush;
                y.message(t); ++messages; c.note("logger ", k, " severity ", y.severity, " category ", y.category, " says ", show(t.substr(0, 30))); break;
            }
            case 5: { int v = static_cast<int>(s.below(6)); x.set_filter_severity(sev(v)); y.filter = v; c.note("logger ", k, " filter ", v); break; }
            case 6: { int g = static_cast<int>(s.below(5)); x.register_category(static_cast<Cat>(g), "name"); y.each([&](Model& q) { q.categories[g] = true; }); c.note("logger ", k, " registers ", g); break; }
            case 7: case 8:
            {
                int g = static_cast<int>(s.below(5)); bool on = s.coin(); if (on) x.enable_category(static_cast<Cat>(g)); else x.disable_category(static_cast<Cat>(g));
                y.each([&](Model& q) { if (q.categories.count(g)) q.categories[g] = on; }); c.note("logger ", k, on ? " enables " : " disables ", g); break;
            }
            case 9: if (s.coin()) { x.set_formatter(*f[k]); y.formatter = true; } else { x.clear_formatter(); y.formatter = false; } c.note("logger ", k, " formatter ", y.formatter); break;
            case 10: if (k < 2) { if (!y.copying) x.copy_to(*l[k + 1]); else x.cancel_copy_to(*l[k + 1]); y.copying = !y.copying; c.note("logger ", k, " copying ", y.copying); } break;
            case 11: { auto v = s.below(1000); x.reset_line_id(v); y.line = v; break; }
            default: x.commit(); if (threaded[k]) x.wait(); REQUIRE(o[k]->str() == y.out, "logger ", k, " wrote ", show(o[k]->str()), ", not ", show(y.out)); c.note("logger ", k, " commits");
            }
            for (int j = 0; j < 3; ++j)
            {
                REQUIRE(l[j]->line_id() == m[j]->line, "logger ", j, " is at line ", l[j]->line_id(), ", not ", m[j]->line);
                REQUIRE(static_cast<int>(l[j]->filter_severity()) == m[j]->filter, "filter severity");
                REQUIRE(l[j]->has_formatter() == m[j]->formatter, "has_formatter"); if (m[j]->formatter) REQUIRE(&l[j]->formatter() == f[j], "formatter");
                for (int g = 0; g < 5; ++g) { auto q = m[j]->categories.find(g); REQUIRE(l[j]->category_enabled(static_cast<Cat>(g)) == (q != m[j]->categories.end() && q->second), "logger ", j, ": category ", g, " enabled: ", l[j]->category_enabled(static_cast<Cat>(g))); }
                REQUIRE(*ev[j] == m[j]->events, "logger ", j, " announced ", ev[j]->size(), " messages, not ", m[j]->events.size(), ", or other ones");
                REQUIRE(threaded[j] || m[j]->out.compare(0, o[j]->str().size(), o[j]->str()) == 0, "logger ", j, " wrote ", show(o[j]->str()), ", which is not how ", show(m[j]->out), " starts");
            }
        }
        bool early = s.chance(1, 4); if (early) { a.l->finalize(); REQUIRE(a.os.str() == ma.out, "finalized, but ", show(a.os.str()), " is written"); if (s.coin()) { a.i() << sev(5) << "late" << std::flush; ma.each([](Model& q) { q.severity = 5; }); ma.message("late"); } }
        a.l.reset(); b.l.reset(); d.l.reset();
        for (int j = 0; j < 3; ++j) REQUIRE(o[j]->str() == m[j]->out, "logger ", j, " wrote ", show(o[j]->str()), ", not ", show(m[j]->out));
        c.nontrivial(messages > 5 && ma.out.size() + mb.out.size() > 0);
    }
}
PBT_SUITE("histories", 1500, 20000) { on_thread([&] { history(c); }); }
#endif
#if PBT_PART == 1
namespace
{
    struct Message { int severity, category; std::string text; };
    // every expected message once, whole, and those of a thread in order
    void judge(std::string const& out, std::vector<std::vector<Message>> const& programs, std::function<bool(Message const&)> enabled, char const* who)
    {
        std::vector<std::size_t> at(programs.size(), 0); std::size_t pos = 0;
        auto next = [&](std::size_t t) { while (at[t] < programs[t].size() && !enabled(programs[t][at[t]])) ++at[t]; return at[t] < programs[t].size(); };
        while (pos < out.size())
        {
            bool found = false;
            for (std::size_t t = 0; t < programs.size() && !found; ++t)
                if (next(t) && out.compare(pos, programs[t][at[t]].text.size(), programs[t][at[t]].text) == 0) { pos += programs[t][at[t]].text.size(); ++at[t]; found = true; }
            REQUIRE(found, who, " wrote, at ", pos, ", ", show(out.substr(pos, 40)), ", which is not any thread's next message");
        }
        for (std::size_t t = 0; t < programs.size(); ++t) REQUIRE(!next(t), who, " never wrote message ", at[t], " of thread ", t, ": ", show(programs[t][at[t]].text.substr(0, 30)));
    }
    // an output that can be slow, so that a commit in progress can be seen
    struct Output : std::stringbuf, std::ostream
    {
        bool slow = false; Output() : std::ostream(static_cast<std::stringbuf*>(this)) {}
        using std::stringbuf::str;
        std::streamsize xsputn(char const* p, std::streamsize n) override { if (slow) std::this_thread::sleep_for(std::chrono::milliseconds(3)); return std::stringbuf::xsputn(p, n); }
    };
    void threads(Case& c)
    {
        auto& s = c.s; Output oa, ob; oa.slow = s.chance(1, 6); std::optional<L::ostream_logger<10>> a; std::optional<L::ostream_logger<11>> b;
        a.emplace(oa); b.emplace(ob); bool ta = s.coin(), tb = s.coin(), copy = s.coin(); L::i_logger& la = *a; L::i_logger& lb = *b;
        if (copy) la.copy_to(lb);
        if (ta) la.create_logging_thread();
        if (tb) lb.create_logging_thread();
        for (auto g : { Cat::A, Cat::B, Cat::C }) la.register_category(g);
        int fa = static_cast<int>(s.below(4)), fb = static_cast<int>(s.below(4)); la.set_filter_severity(sev(fa)); lb.set_filter_severity(sev(fb));
        int off = static_cast<int>(s.below(4)); if (off < 3) la.disable_category(static_cast<Cat>(off)); bool offB = s.coin(); if (off < 3 && offB) lb.enable_category(static_cast<Cat>(off));
        std::size_t n = 1 + s.below(4); std::vector<std::vector<Message>> programs(n); std::vector<std::vector<int>> extras(n); std::size_t total = 0;
        for (std::size_t t = 0; t < n; ++t)
            for (auto k = s.below(30); k > 0; --k)
            {
                Message m{ static_cast<int>(s.below(6)), static_cast<int>(s.below(4)), "<" + std::to_string(t) + ":" + std::to_string(programs[t].size()) + payload(s) + (s.coin() ? ">" : ">\n") };
                programs[t].push_back(m); extras[t].push_back(static_cast<int>(s.below(12))); ++total;
            }
        int during = static_cast<int>(s.below(4)), after = static_cast<int>(s.below(3)); bool waves = s.coin();
        c.note(n, " threads, ", total, " messages, logging threads ", ta, tb, ", copying ", copy, ", filters ", fa, " ", fb, ", category off ", off, ", in waves ", waves);
        std::atomic<int> heard{ 0 }; neolib::sink sink; sink += ~a->new_log_message([&](neolib::i_string const&) { ++heard; });
        std::atomic<bool> go{ false };
        auto run = [&](std::size_t t)
        {
            while (!go) std::this_thread::yield();
            for (std::size_t k = 0; k < programs[t].size(); ++k)
            {
                auto& m = programs[t][k]; bool line = m.text.back() == '\n'; auto x = line ? m.text.substr(0, m.text.size() - 1) : m.text;
                la << sev(m.severity) << L::category{ static_cast<Cat>(m.category) } << x.substr(0, x.size() / 2) << x.substr(x.size() / 2); if (line) la << std::endl; else la << std::flush;
                switch (extras[t][k]) { case 0: la.commit(); break; case 1: std::this_thread::yield(); break; case 2: if (ta) la.wait(); break; case 3: lb.commit(); break; default:; }
            }
        };
        std::vector<std::thread> pool; go = waves;
        for (std::size_t t = 0; t < n; ++t) { pool.emplace_back(run, t); if (waves && t % 2) { for (auto& p : pool) p.join(); pool.clear(); } }
        go = true;
        for (int k = 0; k < during; ++k) { if (!ta) la.commit(); std::this_thread::yield(); }
        for (auto& p : pool) p.join();
        auto enA = [&](Message const& m) { return m.severity >= fa && (off == 3 || m.category != off); };
        auto enB = [&](Message const& m) { return copy && m.severity >= fb && (off == 3 || m.category != off || offB); };
        std::size_t expect = 0; for (auto& p : programs) expect += static_cast<std::size_t>(std::count_if(p.begin(), p.end(), enA));
        if (after) { la.commit(); la.wait(); if (after == 2 && !ta) la.commit(); judge(oa.str(), programs, enA, "after waiting, the logger"); }
        REQUIRE(static_cast<std::size_t>(heard) == expect, heard.load(), " messages are announced, not ", expect);
        REQUIRE(la.line_id() == expect + 1, "line ", la.line_id(), " after ", expect, " messages");
        if (s.coin()) { a->finalize(); judge(oa.str(), programs, enA, "finalized, the logger"); }
        sink.clear(); a.reset(); b.reset();
        judge(oa.str(), programs, enA, "the logger"); judge(ob.str(), programs, enB, "the copy");
        c.nontrivial(n > 1 && expect > 10);
    }
}
PBT_SUITE("threads", 300, 5000) { on_thread([&] { threads(c); }); }
#endif
