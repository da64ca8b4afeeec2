// L02: lifetime flags against a model of the objects they watch.
#include "pbt.hpp"
#include <neolib/neolib.hpp>
#include <neolib/core/lifetime.hpp>
#include <map>
#include <memory>
#include <optional>

using namespace pbt;

namespace
{
    using St = neolib::lifetime_state;
    std::vector<std::string> sSeen;
    struct Side { virtual ~Side() = default; };
    struct Watched : neolib::lifetime<>, Side
    {
        std::unique_ptr<neolib::destroyed_flag> own; bool announce = false; // what the derived destructor does and sees
        Watched(St s) : lifetime{ s } {}
        Watched(Watched const& o) : neolib::lifetime<>(o), Side{} {}
        Watched& operator=(Watched const& o) { neolib::lifetime<>::operator=(o); return *this; }
        ~Watched()
        {
            if (announce && !is_destroyed()) { set_destroying(); if (!is_destroying() || is_alive() || is_destroyed()) sSeen.push_back("announced destruction not seen inside"); }
            if (own && *own && !is_destroyed()) sSeen.push_back("reported destroyed before the end");
        }
    };

    struct AnyFlag
    {
        std::optional<neolib::lifetime_flag<St::Creating>> c; std::optional<neolib::lifetime_flag<St::Alive>> a; std::optional<neolib::destroying_flag> g; std::optional<neolib::destroyed_flag> d;
        int of = 0; // 0: not watching (moved from)
    };
    int kind(AnyFlag const& f) { return f.c ? 0 : f.a ? 1 : f.g ? 2 : 3; }
    template <typename F> void on(AnyFlag& f, F fn) { if (f.c) fn(*f.c); else if (f.a) fn(*f.a); else if (f.g) fn(*f.g); else if (f.d) fn(*f.d); }
    template <typename T> void watch(AnyFlag& f, int kind, T const& t) { f.c.reset(); f.a.reset(); f.g.reset(); f.d.reset(); switch (kind) { case 0: f.c.emplace(t); break; case 1: f.a.emplace(t); break; case 2: f.g.emplace(t); break; default: f.d.emplace(t); } }
}

PBT_SUITE("history", 100000, 4000000)
{
    sSeen.clear();
    {
        std::vector<AnyFlag> flags(6); std::map<int, std::unique_ptr<Watched>> obj; std::map<int, St> st; int next = 0, deaths = 0, outlived = 0, copies = 0;
        int n = static_cast<int>(c.s.len(40));
        while (n-- > 0)
        {
            auto i = c.s.below(6), j = c.s.below(6); auto op = c.s.below(20); std::vector<int> live; for (auto& e : obj) live.push_back(e.first); int o = live.empty() ? 0 : c.s.pickv(live); c.note("op ", op, " flag ", i, ",", j, " object ", o);
            auto thrown = [&](auto f) { try { f(); return 0; } catch (neolib::i_lifetime::not_creating const&) { return 1; } catch (neolib::i_lifetime::already_destroyed const&) { return 2; } };
            auto& f = flags[i]; auto& g = flags[j];
            switch (op)
            {
            case 0: case 1: { St s = c.s.chance(1, 3) ? St::Creating : St::Alive; obj[++next] = std::make_unique<Watched>(s); st[next] = s; obj[next]->announce = c.s.coin(); if (c.s.coin()) obj[next]->own = std::make_unique<neolib::destroyed_flag>(*obj[next]); break; }
            case 2: case 3: case 4: case 5: if (o) { auto k = static_cast<int>(c.s.below(4)); switch (c.s.below(3)) { case 0: watch(f, k, *obj[o]); break; case 1: watch(f, k, static_cast<neolib::i_lifetime const&>(*obj[o])); break; default: watch(f, k, static_cast<Side const&>(*obj[o])); } f.of = o; } break;
            case 6: if (i != j) { f = g; ++copies; } break; // copies, or assigns where the kinds agree
            case 7: if (i != j && g.of) { f = std::move(g); g.of = 0; ++copies; } break;
            case 8: if (g.of) { AnyFlag t{ g }; AnyFlag u{ std::move(t) }; f = u; ++copies; } break;
            case 9: if (g.of) { auto& self = g; g = self; } break;
            case 10: if (o) { int e = thrown([&] { obj[o]->set_alive(); }); REQUIRE(e == (st[o] == St::Creating ? 0 : 1), "set_alive"); if (!e) st[o] = St::Alive; } break;
            case 11: case 12: if (o) { int e = thrown([&] { obj[o]->set_destroying(); }); REQUIRE(e == (st[o] == St::Destroyed ? 2 : 0), "set_destroying"); if (!e) st[o] = St::Destroying; } break;
            case 13: if (o) { int e = thrown([&] { obj[o]->set_destroyed(); }); REQUIRE(!e); st[o] = St::Destroyed; } break;
            case 14: case 15: case 16: if (o) { obj.erase(o); st[o] = St::Destroyed; ++deaths; for (auto& x : flags) if (x.of == o) ++outlived; } break;
            case 17: f = AnyFlag{}; break;
            case 18: if (o && (st[o] == St::Alive || st[o] == St::Creating)) { obj[++next] = std::make_unique<Watched>(*obj[o]); st[next] = st[o]; } break;
            case 19: if (o && live.size() > 1) { int p = c.s.pickv(live); *obj[o] = *obj[p]; } break; // assigning a value gives no other life
            }
            for (auto& e : obj) { auto& w = *e.second; St s = st[e.first]; REQUIRE(w.object_state() == s && w.is_creating() == (s == St::Creating) && w.is_alive() == (s == St::Alive) && w.is_destroying() == (s == St::Destroying) && w.is_destroyed() == (s == St::Destroyed), "state of object ", e.first, " is ", static_cast<int>(w.object_state()), " expected ", static_cast<int>(s)); }
            for (std::size_t x = 0; x < flags.size(); ++x) if (flags[x].of)
                on(flags[x], [&](auto& fl)
                {
                    St s = st[flags[x].of], want = std::array<St, 4>{ St::Creating, St::Alive, St::Destroying, St::Destroyed }[static_cast<std::size_t>(kind(flags[x]))];
                    REQUIRE(fl.is_creating() == (s == St::Creating) && fl.is_alive() == (s == St::Alive) && fl.is_destroying() == (s == St::Destroying) && fl.is_destroyed() == (s == St::Destroyed), "flag ", x, " of object ", flags[x].of, " expected state ", static_cast<int>(s));
                    neolib::i_lifetime_flag& ab = fl; REQUIRE(static_cast<bool>(fl) == (s == want) && static_cast<bool>(ab) == (s == want), "flag ", x, " for state ", static_cast<int>(want), " of object ", flags[x].of, " in state ", static_cast<int>(s));
                    fl.set_debug(true); REQUIRE(fl.debug());
                });
            REQUIRE(sSeen.empty(), sSeen.front());
        }
        c.nontrivial(deaths && outlived && copies);
        if (c.s.coin()) { flags.clear(); obj.clear(); } else { obj.clear(); for (auto& x : flags) if (x.of) on(x, [&](auto& fl) { REQUIRE(fl.is_destroyed(), "object is gone but its flag does not say so"); }); }
    }
    REQUIRE(sSeen.empty(), sSeen.front());
}
