// S01: component stores. Histories of populating, changing, destroying, sorting, snapshotting and copying against a map.
#include "ecs_world.hpp"
#include "tracked.hpp"
#include <atomic>
#include <thread>

using namespace pbt; using namespace world;

namespace
{
    struct Boom {};
    bool gThrow = false;
    // throws from the next copy if told to
    struct Num
    {
        Tracked v{ 0 };
        Num() = default; Num(int x) : v{ x } {}
        Num(Num const& o) : v{ o.v } { if (gThrow) throw Boom{}; }
        Num(Num&& o) noexcept : v{ std::move(o.v) } {}
        Num& operator=(Num const& o) { if (gThrow) throw Boom{}; v = o.v; return *this; }
        Num& operator=(Num&& o) noexcept { v = std::move(o.v); return *this; }
        int get() const { v.check("read of dead record"); return v.v; }
        struct meta : world::meta<1> {};
    };
    using Opt = std::optional<Num>;
    constexpr int kNone = -1000000;
    int get(Num const& n) { return n.get(); }
    int get(Opt const& n) { return n ? n->get() : kNone; }
    template <typename D> D make(int x) { if constexpr (std::is_same_v<D, Opt>) { if (x % 5 == 0) return std::nullopt; return Num{ x }; } else return D{ x }; }
    template <typename D> int value(int x) { return std::is_same_v<D, Opt> && x % 5 == 0 ? kNone : x; }
    using Map = std::map<E::entity_id, int>;

    template <typename C> void same(C& c, Map const& m, char const* who)
    {
        REQUIRE(c.entities().size() == m.size() && c.component_data().size() == m.size(), who, " has ", c.component_data().size(), " records for ", c.entities().size(), " entities, not ", m.size());
        std::set<E::entity_id> seen;
        for (std::size_t i = 0; i < m.size(); ++i)
        {
            auto e = c.entities()[i]; auto x = m.find(e); REQUIRE(x != m.end() && seen.insert(e).second, who, ": entity ", e, " listed");
            REQUIRE(get(c.component_data()[i]) == x->second && get(c[i]) == x->second, who, ": record ", i, " is ", get(c[i]), ", not entity ", e, "'s ", x->second);
            REQUIRE(c.entity(c[i]) == e && c.entity(neolib::to_const(c)[i]) == e, who, ": entity of a record");
            REQUIRE(c.reverse_index(e) == i && c.reverse_index_no_lock(e) == i, who, ": entity ", e, "'s record index");
        }
        for (E::entity_id e = 0; e < 42; ++e)
        {
            auto x = m.find(e); bool const has = x != m.end();
            REQUIRE(c.has_entity_record(e) == has && c.has_entity_record_no_lock(e) == has, who, ": entity ", e, has ? " has no record" : " has a record");
            if (has) { REQUIRE(get(c.entity_record(e)) == x->second && get(neolib::to_const(c).entity_record(e)) == x->second, who, ": entity ", e, " has ", get(c.entity_record(e)), ", not ", x->second); }
            else { bool thrown = false; try { c.entity_record(e); } catch (typename C::entity_record_not_found const&) { thrown = true; } REQUIRE(thrown, who, ": a record of entity ", e, ", which has none"); }
        }
    }

    template <typename D> void history(Case& c)
    {
        auto& s = c.s; Tracked::reset(); gThrow = false; world::strategy(static_cast<int>(s.below(4)));
        {
            E::ecs ecs{ E::ecs_flags::NoThreads }; using C = E::component<D>; C k{ ecs }; Map m; std::optional<Map> snap; std::vector<typename C::scoped_snapshot> held;
            REQUIRE(&k.ecs() == &ecs && k.id() == Num::meta::id() && k.is_data_optional() == (std::is_same_v<D, Opt>) && k.field_count() == 1 && k.name() == Num::meta::name(), "description");
            int deletions = 0, snaps = 0, sorts = 0;
            auto ent = [&]() -> E::entity_id { return s.chance(1, 10) ? 41 - s.below(4) : 1 + s.below(9); };
            auto val = [&] { return static_cast<int>(s.below(200)); };
            for (auto n = 1 + s.len(50); n > 0; --n)
            {
                switch (s.below(17))
                {
                case 0: case 1: case 2: case 3:
                {
                    auto e = ent(); auto x = val(); int got = 0; auto how = s.below(4); c.note("populate ", e, " with ", value<D>(x), " (", how, ")");
                    if (how == 0) { D const d = make<D>(x); got = get(k.populate(e, d)); }
                    else if (how == 1) got = get(k.populate(e, make<D>(x)));
                    else if (std::is_same_v<D, Opt> && x % 5 == 0) got = get(*static_cast<D const*>(static_cast<E::i_component&>(k).populate(e, static_cast<void const*>(nullptr), sizeof(Num))));
                    else { Num const d{ x }; got = get(*static_cast<D const*>(static_cast<E::i_component&>(k).populate(e, static_cast<void const*>(&d), sizeof(Num)))); }
                    m[e] = value<D>(x); REQUIRE(got == m[e], "populated ", e, " with ", got, ", not ", m[e]); break;
                }
                case 4: case 5: case 6:
                {
                    auto e = s.chance(1, 4) || m.empty() ? ent() : std::next(m.begin(), static_cast<long>(s.below(m.size())))->first; bool thrown = false; c.note("destroy ", e);
                    try { static_cast<E::i_component&>(k).destroy_entity_record(e); } catch (typename C::entity_record_not_found const&) { thrown = true; }
                    REQUIRE(thrown == !m.count(e), "destroying ", e, thrown ? " is refused" : " is not refused");
                    if (m.erase(e)) { ++deletions; if (snap) snap->erase(e); } break;
                }
                case 7:
                {
                    bool const up = s.coin(); c.note("sort ", up ? "up" : "down"); ++sorts;
                    k.sort([&](D const& a, D const& b) { return up ? get(a) < get(b) : get(b) < get(a); });
                    for (std::size_t i = 1; i < k.component_data().size(); ++i) { auto a = get(k[i - 1]), b = get(k[i]); REQUIRE(up ? a <= b : b <= a, "sorted, but ", a, " comes before ", b); } break;
                }
                case 8: case 9: c.note("take snapshot, ", held.size(), " in use"); k.take_snapshot(); if (held.empty()) snap = m; ++snaps; break;
                case 10: if (snap) { c.note("use snapshot"); if (held.empty() || s.coin()) held.push_back(k.snapshot()); else { auto h = held.back(); held.push_back(h); } } break;
                case 11: if (!held.empty()) { c.note("leave snapshot"); held.pop_back(); } break;
                case 12: if (!m.empty()) { auto e = std::next(m.begin(), static_cast<long>(s.below(m.size())))->first; auto x = val(); c.note("change ", e, " to ", value<D>(x)); k.entity_record(e) = make<D>(x); m[e] = value<D>(x); } break;
                case 13: { auto e = ent(); c.note("record of ", e, ", created if absent"); auto& r = k.entity_record(e, true); if (!m.count(e)) m[e] = std::is_same_v<D, Opt> ? kNone : 0; REQUIRE(get(r) == m[e], "created record"); break; }
                case 14:
                {
                    int const d = 1 + static_cast<int>(s.below(5)); bool const par = s.chance(1, 6) && !std::is_same_v<D, Opt>; c.note(par ? "parallel apply +" : "apply +", d);
                    std::atomic<long> calls{ 0 };
                    auto f = [&](auto& who, D& x) { if (&who == &k) ++calls; if (get(x) != kNone) { if constexpr (std::is_same_v<D, Opt>) x->v.v += d; else x.v.v += d; } };
                    if (par) k.parallel_apply(f); else k.apply(f);
                    REQUIRE(static_cast<std::size_t>(calls) == m.size(), "applied to ", calls.load(), " records");
                    for (auto& x : m) if (x.second != kNone) x.second += d; break;
                }
                case 15:
                    if (!m.empty() && s.coin()) { auto e = std::next(m.begin(), static_cast<long>(s.below(m.size())))->first; auto to = ent(); c.note("populate ", to, " with the record of ", e); auto const v = m[e]; k.populate(to, k.entity_record(e)); m[to] = v; }
                    else if (s.coin())
                    {
                        auto e = ent(); Num const d{ 1 }; bool thrown = false; auto size = sizeof(Num) + (s.coin() ? 1 : -1); void const* p = s.coin() ? &d : nullptr; c.note("populate ", e, " with wrong data");
                        if (!p && !std::is_same_v<D, Opt>) size = sizeof(Num);
                        try { k.populate(e, p, size); } catch (typename C::invalid_data const&) { thrown = true; } REQUIRE(thrown, "wrong data is accepted");
                    }
                    else
                    {
                        auto e = ent(); bool const was = m.count(e); D const d = make<D>(7); bool thrown = false; c.note("populate ", e, " throws"); gThrow = true;
                        try { k.populate(e, d); } catch (Boom const&) { thrown = true; } gThrow = false; REQUIRE(thrown, "no exception"); REQUIRE(was || !k.has_entity_record(e), "a record that was not made");
                    }
                    break;
                default:
                {
                    c.note("copy"); C other{ k }; same(other, m, "the copy"); REQUIRE(!other.have_snapshot(), "copied snapshot");
                    auto e = ent(); other.populate(e, make<D>(3)); auto m2 = m; m2[e] = 3; same(other, m2, "the changed copy");
                    C third{ ecs }; third.populate(ent(), make<D>(4)); third = other; same(third, m2, "the assigned copy");
                }
                }
                same(k, m, "the component");
                REQUIRE(k.have_snapshot() == (snap != std::nullopt), "have_snapshot");
                if (snap) { auto ss = k.snapshot(); same(ss.data(), *snap, "the snapshot"); }
                for (auto& h : held) REQUIRE(get(h.data().component_data().empty() ? D{ make<D>(1) } : h.data()[0]) == (snap->empty() ? 1 : (*snap)[h.data().entities()[0]]), "snapshot in use");
                REQUIRE(Tracked::error.empty(), Tracked::error);
            }
            held.clear(); c.nontrivial(deletions > 1 && snaps > 0 && sorts > 0);
        }
        REQUIRE(Tracked::live == 0 && Tracked::error.empty(), Tracked::live, " records remain: ", Tracked::error);
    }

    // records that own handles
    struct Handled
    {
        E::handle_id h = E::null_id; int x = 0;
        struct meta : world::meta<2> { static constexpr bool has_handles = true; static inline int freed = 0; static void free_handles(Handled& d, E::i_ecs& e) { ++freed; e.release_handle<Handled*>(d.h); } };
    };
    void handles(Case& c)
    {
        auto& s = c.s; world::strategy(0); E::ecs real{ E::ecs_flags::NoThreads }; E::i_ecs& ecs = real; auto& k = ecs.component<Handled>(); std::map<E::entity_id, std::pair<E::handle_id, char*>> m; static char pool[4000]; char* next = pool; int released = 0; bool snap = false;
        for (auto n = 1 + s.len(30); n > 0; --n)
        {
            E::entity_id e = 1 + s.below(8); bool const has = m.count(e);
            if (s.chance(1, 5)) { c.note("snapshot"); k.take_snapshot(); snap = true; }
            else if (!has)
            {
                auto h = ecs.add_handle<Handled>(next); c.note("populate ", e, " with handle ", h); for (auto& x : m) REQUIRE(x.second.first != h, "handle ", h, " is given out while entity ", x.first, " has it");
                REQUIRE(h != E::null_id, "null handle"); k.populate(e, Handled{ h, 1 }); m[e] = { h, next++ };
            }
            else
            {
                c.note("destroy ", e); auto before = Handled::meta::freed; k.destroy_entity_record(e); m.erase(e); ++released;
                REQUIRE(Handled::meta::freed == before + 1, "the handles of a destroyed record are freed ", Handled::meta::freed - before, " times");
            }
            for (auto& x : m) REQUIRE(ecs.to_handle<char*>(x.second.first) == x.second.second && k.entity_record(x.first).h == x.second.first, "handle ", x.second.first, " of entity ", x.first);
        }
        c.nontrivial(released > 1 && snap);
    }

    struct Shared
    {
        int a = 0; std::string t;
        bool operator==(Shared const&) const = default; bool operator<(Shared const& o) const { return a < o.a; }
        struct meta : world::meta<3> { static constexpr bool has_updater = true; static inline int updates = 0; static void update(Shared&, E::i_ecs&, E::entity_id e) { if (e == E::null_entity) ++updates; } };
    };
    void shared(Case& c)
    {
        auto& s = c.s; world::strategy(static_cast<int>(s.below(4))); E::ecs ecs{ E::ecs_flags::NoThreads }; REQUIRE(!ecs.shared_component_registered<Shared>() && !ecs.shared_component_instantiated<Shared>(), "registered at first");
        if (s.coin()) { ecs.register_shared_component<Shared>(); bool thrown = false; try { ecs.register_shared_component<Shared>(); } catch (E::i_ecs::uuid_exists const&) { thrown = true; } REQUIRE(thrown, "registered twice"); }
        auto& k = ecs.shared_component<Shared>(); REQUIRE(&ecs.shared_component<Shared>() == &k && ecs.shared_component_instantiated<Shared>(), "instantiated");
        std::map<std::string, std::pair<Shared, Shared*>> m; int updated = 0;
        for (auto n = 1 + s.len(40); n > 0; --n)
        {
            auto name = s.chance(1, 3) ? "n" + std::to_string(s.below(40)) : std::string(1, static_cast<char>('a' + s.below(6))); Shared v{ static_cast<int>(s.below(9)), s.from("xyz", s.below(30)) }; Shared* p = nullptr; int const before = Shared::meta::updates;
            c.note("populate ", name, " with ", v.a);
            switch (s.below(5))
            {
            case 0: p = k.populate(name, v).ptr(); break;
            case 1: p = k.populate(name, Shared{ v }).ptr(); break;
            case 2: ecs.populate_shared(name, v); p = &k[name]; break;
            case 3: { p = const_cast<Shared*>(static_cast<Shared const*>(static_cast<E::i_shared_component&>(k).populate(name, static_cast<void const*>(&v), sizeof v))); break; }
            default: { bool thrown = false; try { k.populate(name, s.coin() ? static_cast<void const*>(&v) : nullptr, s.coin() ? sizeof v + 1 : sizeof v - 1); } catch (E::shared_component<Shared>::invalid_data const&) { thrown = true; } REQUIRE(thrown, "wrong data is accepted"); continue; }
            }
            REQUIRE(Shared::meta::updates == before + 1, "updater called ", Shared::meta::updates - before, " times"); auto i = m.find(name);
            if (i == m.end()) m[name] = { v, p }; else { REQUIRE(i->second.second == p, "the record of ", name, " moves"); i->second.first = v; ++updated; }
            REQUIRE(k.component_data().size() == m.size(), k.component_data().size(), " records, not ", m.size()); std::set<Shared*> all;
            for (std::size_t j = 0; j < m.size(); ++j) all.insert(&k[j]);
            for (auto& x : m)
            {
                E::shared<Shared> a{ x.second.second }, b{ k[x.first] }; REQUIRE(all.count(x.second.second) && *a == x.second.first && b.ptr() == a.ptr() && a == b && &neolib::to_const(k)[x.first] == a.ptr(), "the record of ", x.first);
                E::shared<Shared> o{ p }, none; REQUIRE((a == o) == (*a == v) && (a < o) == (*a < v) && !(none == a) && none < a && !(a < none) && none == E::shared<Shared>{} && !none && a, "comparison");
            }
        }
        bool thrown = false; try { neolib::to_const(k)[std::string("absent")]; } catch (E::shared_component<Shared>::entity_record_not_found const&) { thrown = true; } REQUIRE(thrown && k.component_data().size() == m.size(), "an absent record");
        c.nontrivial(updated > 0 && m.size() > 4);
    }

    struct Plain { int x = 0; struct meta : world::meta<4> {}; };
    void threads(Case& c)
    {
        auto& s = c.s; world::strategy(s.pick({ 0, 2, 3 })); E::ecs ecs{ E::ecs_flags::NoThreads }; auto& k = ecs.component<Plain>(); std::size_t const n = 2 + s.below(3);
        struct Op { int what; E::entity_id e; int x; }; std::vector<std::vector<Op>> p(n); std::vector<Map> m(n); std::vector<std::string> bad(n);
        for (auto& q : p) for (auto j = 20 + s.below(60); j > 0; --j) q.push_back({ static_cast<int>(s.below(7)), 1 + s.below(12), static_cast<int>(s.below(1000)) });
        c.note(n, " threads"); std::atomic<bool> go{ false }; std::vector<std::thread> ts;
        for (std::size_t t = 0; t < n; ++t) ts.emplace_back([&, t]
        {
            while (!go) std::this_thread::yield();
            for (auto& o : p[t])
            {
                auto const e = o.e * n + t; auto& mine = m[t]; auto i = mine.find(e);
                if (k.has_entity_record(e) != (i != mine.end())) { bad[t] = "entity " + std::to_string(e) + (i != mine.end() ? " has lost its record" : " has a record"); return; }
                if (o.what < 3) { k.populate(e, Plain{ o.x }); mine[e] = o.x; }
                else if (o.what < 5) { if (i != mine.end()) { k.destroy_entity_record(e); mine.erase(i); } }
                else if (o.what == 5) { E::scoped_component_data_lock<Plain> l{ ecs }; if (i != mine.end() && k.entity_record_no_lock(e).x != i->second) { bad[t] = "entity " + std::to_string(e) + " has another record"; return; } }
                else { std::size_t all = 0; k.apply([&](auto&, Plain&) { ++all; }); if (all < mine.size()) { bad[t] = "records are missing"; return; } }
            }
        });
        go = true; for (auto& t : ts) t.join(); for (auto& b : bad) REQUIRE(b.empty(), b);
        Map all; for (auto& x : m) all.insert(x.begin(), x.end()); REQUIRE(k.entities().size() == all.size() && k.component_data().size() == all.size(), k.entities().size(), " records, not ", all.size());
        for (auto& x : all) REQUIRE(k.has_entity_record(x.first) && k.entity_record(x.first).x == x.second, "entity ", x.first); c.nontrivial(all.size() > 5);
    }
}
PBT_SUITE("records", 1500, 20000) { history<Num>(c); }
PBT_SUITE("optional records", 1000, 15000) { history<Opt>(c); }
PBT_SUITE("handles", 600, 8000) { handles(c); }
PBT_SUITE("shared", 500, 6000) { shared(c); }
PBT_SUITE("threads", 100, 2000) { threads(c); }
