// S02: entities and handles. Part 0: histories on one thread against a model. Part 1: several threads over one ECS.
#include "ecs_world.hpp"
#include <neolib/ecs/time.hpp>
#include <neolib/ecs/entity_life_span.hpp>
#include <atomic>
#include <thread>

using namespace pbt; using namespace world;

namespace
{
    struct A { int x = 0; struct meta : world::meta<11> {}; };
    struct B { int x = 0; struct meta : world::meta<12> {}; };
    struct D { int x = 0; struct meta : world::meta<13> {}; };
    // gives every entity a B if it has none
    struct Archetype : E::entity_archetype
    {
        using E::entity_archetype::entity_archetype;
        void populate_default_components(E::i_ecs& e, E::entity_id id) override { if (!e.component<B>().has_entity_record(id)) e.populate(id, B{ 77 }); }
    };

    struct Model
    {
        struct Entity { neolib::uuid archetype; std::optional<int> a, b, d; std::optional<E::i64> life; E::i64 born = 0; bool doomed = false; };
        std::map<E::entity_id, Entity> live;
        std::vector<std::pair<neolib::uuid, Entity>> toCreate; std::vector<std::pair<E::entity_id, bool>> toDestroy;
        std::map<E::handle_id, char*> handles;
    };

    void history(Case& c)
    {
        auto& s = c.s; world::strategy(static_cast<int>(s.below(4))); bool const info = !s.chance(1, 4);
        std::vector<E::entity_id> created, destroyed; Model m; static char pool[1000]; char* nextHandle = pool; E::i64 now = 0;
        std::unique_ptr<E::ecs> real{ new E::ecs{ E::ecs_flags::NoThreads | (info ? E::ecs_flags::PopulateEntityInfo : E::ecs_flags::None) } }; E::i_ecs& ecs = *real;
        neolib::sink sink; sink += ecs.entity_created([&](E::entity_id e) { created.push_back(e); });
        bool watchRecords = true; sink += ecs.entity_destroyed([&](E::entity_id e) { destroyed.push_back(e); if (watchRecords && m.live.count(e) && m.live[e].a) REQUIRE(ecs.component<A>().has_entity_record(e), "the records are gone before it is announced"); });
        Archetype plain{ "plain", {} }; Archetype fancy{ "fancy", { A::meta::id(), B::meta::id() } }; auto unregistered = std::make_shared<Archetype>("third", std::initializer_list<E::component_id>{});
        if (s.coin()) ecs.register_archetype(plain);
        ecs.register_archetype(unregistered); bool twice = false; try { ecs.register_archetype(unregistered); } catch (E::i_ecs::uuid_exists const&) { twice = true; } REQUIRE(twice && ecs.archetype_registered(*unregistered), "registered twice");
        std::vector<std::unique_ptr<E::entity>> owners; int gone = 0, reused = 0; std::set<E::entity_id> before;
        auto fresh = [&](E::entity_id e, Model::Entity x, bool own)
        {
            REQUIRE(e != E::null_entity && !m.live.count(e), "entity ", e, " is created, which is alive"); if (before.count(e)) ++reused; before.insert(e);
            x.born = now; m.live[e] = x; (void)own;
        };
        auto pick = [&]() -> E::entity_id { return m.live.empty() ? E::null_entity : std::next(m.live.begin(), static_cast<long>(s.below(m.live.size())))->first; };
        auto kill = [&](E::entity_id e) { REQUIRE(m.live.erase(e) == 1, "entity ", e, " is destroyed, which is not alive"); ++gone; };
        auto commitDestroy = [&]
        {
            destroyed.clear(); ecs.commit_async_entity_destruction(); std::multiset<E::entity_id> told(destroyed.begin(), destroyed.end()), expect;
            for (auto& x : m.toDestroy) { if (x.second) expect.insert(x.first); kill(x.first); } m.toDestroy.clear();
            REQUIRE(told == expect, told.size(), " destructions are announced, not ", expect.size(), " or of other entities");
        };
        auto commitCreate = [&]
        {
            created.clear(); ecs.commit_async_entity_creation(); REQUIRE(created.size() == m.toCreate.size(), created.size(), " entities are created, not ", m.toCreate.size());
            // whichever order they come in: match by the number each was given
            for (auto e : created)
            {
                auto i = std::find_if(m.toCreate.begin(), m.toCreate.end(), [&](auto& x) { return ecs.component<A>().has_entity_record(e) && ecs.component<A>().entity_record(e).x == *x.second.a; });
                REQUIRE(i != m.toCreate.end(), "entity ", e, " is not one that was to be created"); auto x = i->second; m.toCreate.erase(i); fresh(e, x, false);
            }
        };
        int serial = 1000;
        for (auto n = 1 + s.len(45); n > 0; --n)
        {
            created.clear(); destroyed.clear();
            switch (s.below(22))
            {
            case 0: case 1: case 2: case 3:
            {
                Model::Entity x; E::entity_id e; int a = static_cast<int>(s.below(100)), b = static_cast<int>(s.below(100)); auto how = s.below(5); Archetype& t = s.coin() ? plain : fancy; x.archetype = t.id();
                switch (how)
                {
                case 0: if (!ecs.archetype_registered(t)) ecs.register_archetype(t); e = ecs.create_entity(t.id()); break;
                case 1: e = ecs.create_entity(t); break;
                case 2: x.a = a; x.b = 77; e = ecs.create_entity(t, A{ a }); break;
                case 3: x.a = a; x.b = b; { B const l{ b }; e = ecs.create_entity(t, A{ a }, l); } break;
                default: x.archetype = unregistered->id(); x.d = a; x.b = 77; e = ecs.create_entity(unregistered->id(), D{ a });
                }
                c.note("create ", e, " (", how, ")"); REQUIRE(created == std::vector<E::entity_id>{ e }, "creation is announced ", created.size(), " times"); fresh(e, x, false); break;
            }
            case 4:
            {
                if (!ecs.archetype_registered(plain)) ecs.register_archetype(plain);
                owners.push_back(std::make_unique<E::entity>(ecs, plain.id())); auto e = owners.back()->id(); Model::Entity x; x.archetype = plain.id(); c.note("create ", e, " with an owner"); fresh(e, x, true); break;
            }
            case 5: if (!owners.empty()) // an owner goes
            {
                auto k = s.below(owners.size()); auto& o = *owners[k]; auto e = o.id(); c.note("owner of ", e, " goes"); if (o.detached_or_destroyed()) { owners.erase(owners.begin() + static_cast<long>(k)); REQUIRE(destroyed.empty(), "destroyed without an owner"); break; }
                if (info && s.chance(1, 3)) { o.detach(); if (!m.live[e].b) m.live[e].b = 77; owners.erase(owners.begin() + static_cast<long>(k)); REQUIRE(destroyed.empty(), "a detached entity is destroyed"); break; }
                owners.erase(owners.begin() + static_cast<long>(k)); REQUIRE(destroyed == std::vector<E::entity_id>{ e }, "the destruction of ", e, " is announced ", destroyed.size(), " times"); kill(e);
                m.toDestroy.erase(std::remove_if(m.toDestroy.begin(), m.toDestroy.end(), [&](auto& x) { return x.first == e; }), m.toDestroy.end()); break;
            }
            break;
            case 6: case 7: case 8: if (auto e = pick()) // destroy
            {
                bool notify = !s.chance(1, 4); for (auto& o : owners) if (o->id() == e) notify = true; c.note("destroy ", e, notify ? "" : " quietly");
                ecs.destroy_entity(e, notify); REQUIRE(destroyed.size() == (notify ? 1u : 0u) && (!notify || destroyed[0] == e), "the destruction of ", e, " is announced ", destroyed.size(), " times"); kill(e);
                m.toDestroy.erase(std::remove_if(m.toDestroy.begin(), m.toDestroy.end(), [&](auto& x) { return x.first == e; }), m.toDestroy.end());
            }
            break;
            case 9: case 10: if (info) if (auto e = pick())
            {
                bool notify = !s.chance(1, 4); for (auto& o : owners) if (o->id() == e) notify = true; for (auto& x : m.toDestroy) if (x.first == e) notify = x.second; c.note("destroy ", e, " later"); ecs.async_destroy_entity(e, notify); if (!m.live[e].doomed) m.toDestroy.push_back({ e, notify }); m.live[e].doomed = true;
                REQUIRE(destroyed.empty() && ecs.component<E::entity_info>().entity_record(e).destroyed, "destroyed already");
            }
            break;
            case 11: c.note("commit destruction"); commitDestroy(); break;
            case 12: case 13:
            {
                Model::Entity x; x.a = ++serial; Archetype& t = s.coin() ? plain : fancy; x.archetype = t.id(); c.note("create later, ", serial);
                if (s.coin()) { x.b = 5; ecs.async_create_entity(t, A{ serial }, B{ 5 }); } else if (s.coin()) { x.d = 6; x.b = 77; auto const v = serial; ecs.async_create_entity(std::function<void()>{ [&ecs, v, &t] { ecs.create_entity(t, A{ v }, D{ 6 }); } }); } else { x.b = 77; ecs.async_create_entity(t, A{ serial }); }
                m.toCreate.push_back({ t.id(), x }); REQUIRE(created.empty(), "created already"); break;
            }
            case 14: c.note("commit creation"); commitCreate(); break;
            case 15: case 16: if (auto e = pick()) { int v = static_cast<int>(s.below(100)); auto& x = m.live[e]; c.note("populate ", e); switch (s.below(4)) { case 0: ecs.populate(e, A{ v }); x.a = v; break; case 1: ecs.populate(e, B{ v }, D{ v + 1 }); x.b = v; x.d = v + 1; break; case 2: ecs.component<D>().entity_record(e, true).x = v; x.d = v; break; default: if (x.d) { ecs.component<D>().destroy_entity_record(e); x.d.reset(); } } } break;
            case 17: { auto h = ecs.add_handle<A>(nextHandle); c.note("add handle ", h); REQUIRE(h != E::null_id && !m.handles.count(h), "handle ", h, " is given out twice"); m.handles[h] = nextHandle++; break; }
            case 18: if (!m.handles.empty()) { auto i = std::next(m.handles.begin(), static_cast<long>(s.below(m.handles.size()))); c.note("release handle ", i->first); REQUIRE(ecs.release_handle<char*>(i->first) == i->second, "release returns another"); m.handles.erase(i); } break;
            case 19: if (!m.handles.empty()) { auto i = std::next(m.handles.begin(), static_cast<long>(s.below(m.handles.size()))); c.note("update handle ", i->first); i->second = nextHandle++; REQUIRE((ecs.update_handle<A>(i->first, i->second)) == i->second, "update returns another"); }
                     { bool t1 = false, t2 = false, t3 = false; E::handle_id h = 5000; try { ecs.to_handle(h); } catch (E::i_ecs::invalid_handle_id const&) { t1 = true; } try { ecs.release_handle<char*>(h); } catch (E::i_ecs::invalid_handle_id const&) { t2 = true; } try { ecs.update_handle<A>(h, nextHandle); } catch (E::i_ecs::invalid_handle_id const&) { t3 = true; } REQUIRE(t1 && t2 && t3, "a handle that never was"); } break;
            case 20: if (info) // life spans and the world's clock
            {
                auto& time = ecs.system<E::time>(); auto& clock = ecs.shared_component<E::clock>()[0];
                if (auto e = pick()) { auto l = static_cast<E::i64>(s.below(50)); ecs.populate(e, E::entity_life_span{ l }); m.live[e].life = l; c.note("entity ", e, " lives ", l); }
                now += static_cast<E::i64>(s.below(40)); clock.time = now; c.note("time ", now); REQUIRE(time.world_time() == now, "world time"); REQUIRE(time.apply(), "time does not apply");
                for (auto& x : m.live) if (x.second.life && now - x.second.born > *x.second.life && !x.second.doomed) { x.second.doomed = true; m.toDestroy.push_back({ x.first, true }); }
            }
            break;
            default:
                if (s.chance(1, 4)) // the ECS does it on its own
                {
                    c.note("work"); auto const expectDestroyed = m.toDestroy.size(), expectCreated = m.toCreate.size(); std::multiset<E::entity_id> expect; for (auto& x : m.toDestroy) if (x.second) expect.insert(x.first); auto doomed = m.toDestroy; (void)expectDestroyed;
                    for (int k = 0; k < 200; ++k) { std::this_thread::sleep_for(std::chrono::milliseconds(2)); world::task().do_work(neolib::yield_type::NoYield); if (created.size() >= expectCreated && destroyed.size() >= expect.size() && k > 1) break; }
                    // life spans are looked at too
                    for (auto& x : m.live) if (x.second.life && now - x.second.born > *x.second.life && !x.second.doomed) { x.second.doomed = true; expect.insert(x.first); m.toDestroy.push_back({ x.first, true }); }
                    std::multiset<E::entity_id> told(destroyed.begin(), destroyed.end()); REQUIRE(told == expect, told.size(), " destructions are announced, not ", expect.size());
                    for (auto& x : m.toDestroy) kill(x.first); m.toDestroy.clear(); REQUIRE(created.size() == m.toCreate.size(), created.size(), " are created, not ", m.toCreate.size()); auto list = created;
                    for (auto e : list) { auto i = std::find_if(m.toCreate.begin(), m.toCreate.end(), [&](auto& x) { return ecs.component<A>().has_entity_record(e) && ecs.component<A>().entity_record(e).x == *x.second.a; }); REQUIRE(i != m.toCreate.end(), "entity ", e, " is not one that was to be created"); auto x = i->second; m.toCreate.erase(i); fresh(e, x, false); }
                }
                else
                {
                    c.note("pause and resume"); int p = 0, r = 0; neolib::sink w; w += ecs.systems_paused([&] { ++p; }); w += ecs.systems_resumed([&] { ++r; });
                    ecs.pause_all_systems(); ecs.pause_all_systems(); REQUIRE(p == 1 && ecs.all_systems_paused(), "paused ", p, " times"); if (info && s.coin()) { auto& t = ecs.system<E::time>(); REQUIRE(t.paused() && !t.apply(), "a paused system applies"); }
                    ecs.resume_all_systems(); ecs.resume_all_systems(); REQUIRE(r == 1 && !ecs.all_systems_paused(), "resumed ", r, " times"); if (info) REQUIRE(!ecs.system<E::time>().paused(), "a resumed system is paused");
                }
            }
            // every entity has what it should have and no others have anything
            auto records = [&](auto tag, auto const& get, char const* name)
            {
                using T = decltype(tag); if (!ecs.component_instantiated<T>()) { for (auto& x : m.live) REQUIRE(!get(x.second), name); return; }
                std::size_t k = 0; auto& comp = ecs.component<T>();
                for (auto& x : m.live) { auto& v = get(x.second); REQUIRE(comp.has_entity_record(x.first) == !!v, "entity ", x.first, !!v ? " has no " : " has a ", name); if (v) { ++k; if constexpr (std::is_same_v<T, E::entity_life_span>) REQUIRE(comp.entity_record(x.first).lifeSpan == *v, "entity ", x.first, "'s ", name); else REQUIRE(comp.entity_record(x.first).x == *v, "entity ", x.first, "'s ", name, " is ", comp.entity_record(x.first).x, ", not ", *v); } }
                REQUIRE(comp.entities().size() == k, comp.entities().size(), " entities have a ", name, ", not ", k);
            };
            records(A{}, [](Model::Entity& x) -> auto& { return x.a; }, "A"); records(B{}, [](Model::Entity& x) -> auto& { return x.b; }, "B"); records(D{}, [](Model::Entity& x) -> auto& { return x.d; }, "D"); records(E::entity_life_span{}, [](Model::Entity& x) -> auto& { return x.life; }, "life span");
            if (info)
            {
                auto& infos = ecs.component<E::entity_info>(); REQUIRE(infos.entities().size() == m.live.size(), infos.entities().size(), " entities, not ", m.live.size());
                for (auto& x : m.live) { REQUIRE(infos.has_entity_record(x.first), "entity ", x.first, " is not known"); auto& i = infos.entity_record(x.first); REQUIRE(i.archetypeId == x.second.archetype && i.creationTime == x.second.born && i.destroyed == x.second.doomed, "entity ", x.first, "'s information"); }
            }
            for (auto& h : m.handles) REQUIRE(ecs.to_handle<char*>(h.first) == h.second, "handle ", h.first, " is another");
            for (auto& o : owners) REQUIRE(o->detached_or_destroyed() || m.live.count(o->id()), "an owner of ", o->id(), ", which is gone");
        }
        watchRecords = false; for (auto& o : owners) if (!o->detached_or_destroyed()) { destroyed.clear(); auto e = o->id(); o.reset(); REQUIRE(destroyed == std::vector<E::entity_id>{ e }, "owner"); }
        sink.clear(); owners.clear(); real.reset(); c.nontrivial(gone > 1 && reused > 0);
    }

    void description(Case& c)
    {
        auto one = [&](auto tag) { using T = decltype(tag); std::set<std::string> names; for (std::uint32_t i = 0; i < T::meta::field_count(); ++i) { auto t = T::meta::field_type(i); REQUIRE(t != E::component_data_field_type::Invalid, T::meta::name(), " field ", i); names.insert(T::meta::field_name(i).to_std_string()); }
            REQUIRE(names.size() == T::meta::field_count(), "field names"); bool thrown = false; try { T::meta::field_type(T::meta::field_count()); } catch (E::i_component_data::meta::invalid_field_index const&) { thrown = true; } REQUIRE(thrown, T::meta::name(), " has a field too many"); };
        one(E::entity_info{}); one(E::entity_life_span{}); one(E::clock{}); c.nontrivial(true);
    }

    void threads(Case& c)
    {
        auto& s = c.s; world::strategy(s.pick({ 0, 2, 3 })); E::ecs real{ E::ecs_flags::NoThreads | E::ecs_flags::PopulateEntityInfo }; E::i_ecs& ecs = real; std::size_t const n = 2 + s.below(3); bool const warm = s.coin();
        Archetype t{ "plain", {} }; ecs.register_archetype(t); if (warm) { ecs.component<A>(); ecs.component<B>(); ecs.component<D>(); ecs.component<E::entity_info>(); } ecs.system<E::time>();
        struct Op { int what, x; }; std::vector<std::vector<Op>> p(n); std::vector<std::map<E::entity_id, int>> mine(n); std::vector<std::map<E::handle_id, char*>> handles(n); std::vector<std::string> bad(n); std::vector<int> async(n); std::atomic<int> announced{ 0 }, asked{ 0 };
        for (auto& q : p) for (auto j = 10 + s.below(40); j > 0; --j) q.push_back({ static_cast<int>(s.below(12)), static_cast<int>(s.below(1000)) });
        c.note(n, " threads"); neolib::sink sink; sink += ~ecs.entity_destroyed([&](E::entity_id) { ++announced; }); static char pool[1000]; std::atomic<bool> go{ false }; std::vector<std::thread> ts; long total = 0;
        for (std::size_t k = 0; k < n; ++k) ts.emplace_back([&, k]
        {
            auto& my = mine[k]; auto& hs = handles[k]; while (!go) std::this_thread::yield(); int h = 0;
            try
            {
                for (auto& o : p[k])
                {
                    auto some = [&] { return std::next(my.begin(), o.x % static_cast<long>(my.size())); };
                    switch (o.what)
                    {
                    case 0: case 1: case 2: { auto e = ecs.create_entity(t, A{ o.x }); if (!my.emplace(e, o.x).second) { bad[k] = "entity " + std::to_string(e) + " is created, which is alive"; return; } break; }
                    case 3: { auto e = ecs.create_entity(t, D{ 1 }, A{ o.x }, B{ 2 }); if (!my.emplace(e, o.x).second) { bad[k] = "entity " + std::to_string(e) + " is created, which is alive"; return; } break; }
                    case 4: if (!my.empty()) { auto i = some(); ++asked; ecs.destroy_entity(i->first); my.erase(i); } break;
                    case 5: if (!my.empty()) { auto i = some(); ++asked; ecs.async_destroy_entity(i->first); my.erase(i); } break;
                    case 6: if (!my.empty()) { auto i = some(); ecs.populate(i->first, A{ o.x + 1 }); i->second = o.x + 1; } break;
                    case 7: if (!my.empty()) { auto i = some(); E::scoped_component_data_lock<A, B> l{ ecs }; if (!ecs.component<A>().has_entity_record(i->first) || ecs.component<A>().entity_record(i->first).x != i->second) { bad[k] = "entity " + std::to_string(i->first) + " has lost its record"; return; } } break;
                    case 8: { E::scoped_component_data_lock<B, A> l{ ecs }; ++total; break; }
                    case 9: ecs.async_create_entity(t, D{ static_cast<int>(k) }, B{ 1 }); ++async[k]; break;
                    case 10: if (k == 0) { ecs.commit_async_entity_destruction(); ecs.commit_async_entity_creation(); } break;
                    default: { auto id = ecs.add_handle<A>(pool + k * 100 + h); if (!hs.emplace(id, pool + k * 100 + h).second) { bad[k] = "handle given out twice"; return; } h = (h + 1) % 100; if (o.x % 2) { auto i = hs.begin(); if (ecs.release_handle<char*>(i->first) != i->second) { bad[k] = "another handle"; return; } hs.erase(i); } }
                    }
                }
            }
            catch (std::exception const& e) { bad[k] = e.what(); }
        });
        go = true; for (auto& x : ts) x.join(); for (auto& b : bad) REQUIRE(b.empty(), b);
        ecs.commit_async_entity_destruction(); ecs.commit_async_entity_creation(); std::map<E::entity_id, int> all; std::size_t count = 0, made = 0; for (auto& x : mine) { all.insert(x.begin(), x.end()); count += x.size(); } for (auto x : async) made += static_cast<std::size_t>(x);
        REQUIRE(all.size() == count, "two threads have the same entity"); REQUIRE(announced == asked, announced.load(), " destructions are announced, not ", asked.load()); auto& infos = ecs.component<E::entity_info>(); REQUIRE(infos.entities().size() == count + made, infos.entities().size(), " entities, not ", count + made);
        auto& a = ecs.component<A>(); REQUIRE(a.entities().size() == count, a.entities().size(), " records, not ", count); for (auto& x : all) REQUIRE(a.has_entity_record(x.first) && a.entity_record(x.first).x == x.second && infos.has_entity_record(x.first), "entity ", x.first);
        std::map<E::handle_id, char*> hh; std::size_t hc = 0; for (auto& x : handles) { hh.insert(x.begin(), x.end()); hc += x.size(); } REQUIRE(hh.size() == hc, "two threads have the same handle"); for (auto& h : hh) REQUIRE(ecs.to_handle<char*>(h.first) == h.second, "handle ", h.first);
        sink.clear(); c.nontrivial(count > 5 && asked > 1);
    }
}
PBT_SUITE("histories", 8000, 150000) { history(c); }
PBT_SUITE("description", 1, 1) { description(c); }
PBT_SUITE("threads", 600, 60000) { threads(c); }
