// L01: reference counting against a model that counts owners.
#include "tracked.hpp"
#include <neolib/neolib.hpp>
#include <neolib/core/reference_counted.hpp>
#include <atomic>
#include <map>
#include <set>
#include <thread>

using namespace pbt;

namespace
{
    struct IShape : neolib::i_reference_counted { using abstract_type = IShape; virtual int id() const = 0; virtual neolib::ref_ptr<IShape>& child() = 0; };
    struct IOther { virtual ~IOther() = default; };
    std::set<int> sAlive; std::vector<int> sDied; std::string sError;
    template <bool Dealloc> struct ObjOf : neolib::reference_counted<IShape, Dealloc>
    {
        int iId; std::uint32_t magic = 0x5afe5afe; char* heap = new char; neolib::ref_ptr<IShape> iChild;
        ObjOf(int id) : iId{ id } { sAlive.insert(id); }
        ~ObjOf() { if (magic != 0x5afe5afe || !sAlive.erase(iId)) sError = "destroyed twice"; magic = 0; delete heap; sDied.push_back(iId); }
        int id() const override { if (magic != 0x5afe5afe) sError = "use of a dead object"; return iId; }
        neolib::ref_ptr<IShape>& child() override { return iChild; }
    };
    struct Obj : ObjOf<true> { using ObjOf<true>::ObjOf; };
    struct Obj2 : ObjOf<true>, IOther { using ObjOf<true>::ObjOf; };
    using P = neolib::ref_ptr<IShape>; using D = neolib::ref_ptr<Obj>; using W = neolib::weak_ref_ptr<IShape>; using IP = neolib::i_ref_ptr<IShape>;

    struct S { int man = 0, ptr = 0; bool counted = false; }; // what a strong slot manages, points at, and whether it counts
    struct Model
    {
        struct O { long n = 0; bool alive = true, pinned = false; S child; bool second = false; IShape* raw = nullptr; };
        std::map<int, O> o; std::vector<int> died;
        void inc(S const& s) { if (s.man && s.counted) ++o[s.man].n; }
        void dec(S const& s) { if (s.man && s.counted && --o[s.man].n <= 0 && !o[s.man].pinned) kill(s.man); }
        void kill(int k) { o[k].alive = false; died.push_back(k); auto c = o[k].child; o[k].child = {}; dec(c); }
        void assign(S& to, S from) { if (to.man == from.man && to.ptr == from.ptr && to.counted) return; inc(from); S old = to; to = from; dec(old); } // a counting reference given an uncounted view of the same object keeps counting
        void move(S& to, S& from) { S s = from; from = {}; assign(to, s); dec(s); }
    };
}

#if PBT_PART == 0
PBT_SUITE("history", 30000, 1000000)
{
    sAlive.clear(); sDied.clear(); sError.clear();
    Model m; int next = 0, deaths = 0, aliasing = 0, weaks = 0, views = 0;
    {
        constexpr int N = 5; P a[N]; S ma[N]; D d[2]; S md[2]; W w[3]; int mw[3] = { 0, 0, 0 };
        auto raw = [&](int k) { return k ? m.o[k].raw : nullptr; };
        auto concrete = [&](int k) { return static_cast<Obj*>(raw(k)); };
        // views must not be used once their object is gone, so the model drops dangling ones (the slot keeps its stale pointer until overwritten)
        auto stale = [&](S const& s) { return (s.man && !m.o[s.man].alive) || (s.ptr && !m.o[s.ptr].alive); };
        int n = static_cast<int>(c.s.len(45));
        auto alive = [&] { std::vector<int> r; for (auto& e : m.o) if (e.second.alive) r.push_back(e.first); return r; };
        while (n-- > 0)
        {
            int i = static_cast<int>(c.s.below(N)), j = static_cast<int>(c.s.below(N)), k = static_cast<int>(c.s.below(2)), l = static_cast<int>(c.s.below(3)); auto op = c.s.below(34);
            for (bool again = true; again;)
            {
                again = false;
                for (int x = 0; x < N; ++x) if (stale(ma[x])) { a[x].reset(); m.assign(ma[x], {}); again = true; }
                for (int x = 0; x < 2; ++x) if (stale(md[x])) { d[x].reset(); m.assign(md[x], {}); again = true; }
            }
            c.note("op ", op, " on ", i, ",", j, ",", k, ",", l); std::size_t const deadBefore = m.died.size();
            auto fresh = [&](IShape* p, bool second = false) { auto& o = m.o[++next]; o.raw = p; o.second = second; return S{ next, next, true }; };
            auto live = alive();
            switch (op)
            {
            case 0: { auto* p = new Obj{ next + 1 }; a[i] = P{ p }; m.assign(ma[i], fresh(p)); break; }
            case 1: { auto r = neolib::make_ref<Obj>(next + 1); auto* p = r.ptr(); a[i] = r; m.assign(ma[i], fresh(p)); break; }
            case 2: { d[k] = neolib::make_ref<Obj>(next + 1); m.assign(md[k], fresh(d[k].ptr())); break; }
            case 3: { auto* p = new Obj2{ next + 1 }; a[i].reset(p); m.assign(ma[i], fresh(p, true)); break; }
            case 4: { if (c.s.coin()) { a[i] = neolib::make_ref<Obj, IShape>(next + 1); } else a[i] = neolib::make_abstract_ref<Obj>(next + 1); m.assign(ma[i], fresh(a[i].ptr())); break; }
            case 5: case 6: a[i] = a[j]; m.assign(ma[i], ma[j]); break;
            case 7: case 8: a[i] = std::move(a[j]); if (i != j) m.move(ma[i], ma[j]); break;
            case 9: static_cast<IP&>(a[i]) = static_cast<IP const&>(a[j]); m.assign(ma[i], ma[j]); break;
            case 10: { P t{ a[j] }; P u{ std::move(t) }; REQUIRE(!t.valid() && !t.managing() && t.use_count() == 0); a[i] = u; m.assign(ma[i], ma[j]); break; }
            case 11: a[i] = d[k]; m.assign(ma[i], md[k]); break;
            case 12: a[i] = std::move(d[k]); m.move(ma[i], md[k]); break;
            case 13: a[i] = P{ d[k] }; m.assign(ma[i], md[k]); break;
            case 14: if (c.s.coin()) a[i].reset(); else a[i] = nullptr; m.assign(ma[i], {}); break;
            case 15: d[k].reset(); m.assign(md[k], {}); break;
            case 16: std::swap(a[i], a[j]); std::swap(ma[i], ma[j]); break;
            case 17: { P t{ a[i] }; REQUIRE(t == a[i]); break; }
            case 18: // aliasing: points at one, keeps another
                if (ma[j].man && !live.empty()) { int p = c.s.pickv(live); a[i] = P{ a[j], raw(p) }; m.assign(ma[i], S{ ma[j].man, p, ma[j].counted }); ++aliasing; } break;
            case 19: // down casts
                if (ma[j].ptr)
                {
                    bool second = m.o[ma[j].ptr].second; auto t = neolib::dynamic_pointer_cast<Obj2>(a[j]); REQUIRE(t.valid() == second); auto u = neolib::dynamic_pointer_cast<Obj>(a[j]); REQUIRE(u.valid() == !second);
                    if (!second && ma[j].man && !m.o[ma[j].man].second) { d[k] = u; m.assign(md[k], ma[j]); }
                }
                break;
            case 20: if (ma[j].ptr && !m.o[ma[j].ptr].second && ma[j].man && !m.o[ma[j].man].second) { if (c.s.coin()) { d[k] = neolib::static_pointer_cast<Obj>(a[j]); m.assign(md[k], ma[j]); } else { d[k] = neolib::static_pointer_cast<Obj>(std::move(a[j])); m.move(md[k], ma[j]); } } break;
            case 21: if (ma[j].ptr) { a[i] = neolib::const_pointer_cast<IShape>(a[j]); m.assign(ma[i], ma[j]); } break;
            case 22: // children make chains; younger objects keep older ones
                if (ma[i].ptr && ma[j].man && ma[j].ptr && ma[i].ptr > std::max(ma[j].man, ma[j].ptr) && ma[j].counted) { a[i]->child() = a[j]; m.assign(m.o[ma[i].ptr].child, ma[j]); } break;
            case 23: if (ma[i].ptr) { S s = m.o[ma[i].ptr].child; a[i] = a[i]->child(); m.assign(ma[i], s); } break;
            case 24: // head = std::move(head->next)
                if (ma[i].ptr && ma[i].man == ma[i].ptr) { auto& from = m.o[ma[i].ptr].child; a[i] = std::move(a[i]->child()); m.move(ma[i], from); } break;
            case 25: // give up ownership, then hand it to a slot again or delete
                if (ma[i].man && ma[i].counted)
                {
                    int const o = ma[i].man; bool const only = m.o[o].n == 1;
                    try
                    {
                        IShape* p = a[i].release(); REQUIRE(only, "released while shared"); REQUIRE(p == raw(o)); ma[i] = {}; m.o[o].n = 0;
                        REQUIRE(p->use_count() == 0 && sAlive.count(o)); bool viewed = false; for (auto& s : ma) if (s.man == o) viewed = true; (void)viewed;
                        if (c.s.coin()) { a[j] = P{ p }; m.assign(ma[j], S{ o, o, true }); } else { delete p; m.kill(o); }
                    }
                    catch (neolib::i_reference_counted::too_many_references const&) { REQUIRE(!only, "refused release of an only reference"); }
                }
                else if (!ma[i].man) { bool t = false; try { (void)a[i].release(); } catch (IP::no_managed_object const&) { t = true; } REQUIRE(t); }
                break;
            case 26: case 27: { if (c.s.coin()) w[l] = a[i]; else w[l] = W{ a[i] }; if (ma[i].man) ++weaks; mw[l] = ma[i].man; break; }
            case 28: { int o = c.s.below(3); if (c.s.coin()) w[l] = w[o]; else { W t{ w[o] }; w[l] = t; } mw[l] = m.o.count(mw[o]) && m.o[mw[o]].alive ? mw[o] : 0; break; }
            case 29: if (c.s.coin()) w[l].reset(); else w[l] = nullptr; mw[l] = 0; break;
            case 30: // locking a weak reference
                if (!w[l].expired()) { a[i] = P{ *w[l] }; m.assign(ma[i], S{ mw[l], mw[l], m.o[mw[l]].n > 0 }); } break;
            case 31: if (!live.empty()) { int o = c.s.pickv(live); a[i] = P{ *raw(o) }; m.assign(ma[i], S{ o, o, m.o[o].n > 0 }); } break;
            case 32: // a pinned object outlives its references
                if (!live.empty()) { int o = c.s.pickv(live); auto& mo = m.o[o]; if (!mo.pinned) { raw(o)->pin(); mo.pinned = true; } else { raw(o)->unpin(); mo.pinned = false; if (mo.n <= 0) m.kill(o); } } break;
            case 33: if (ma[j].man) { P t{ a[j] }; a[i] = P{ std::move(t), a[j].ptr() }; m.assign(ma[i], ma[j]); } break;
            }
            if (m.died.size() > deadBefore) ++deaths;
            REQUIRE(sError.empty(), sError);
            std::multiset<int> x(sDied.begin(), sDied.end()), y(m.died.begin(), m.died.end());
            REQUIRE(x == y, sDied.size(), " objects died, expected ", m.died.size(), " last ", sDied.empty() ? 0 : sDied.back());
            for (auto& e : m.o) if (e.second.alive) REQUIRE(e.second.raw->use_count() == e.second.n && e.second.raw->id() == e.first && e.second.raw->pinned() == e.second.pinned, "object ", e.first, " use count ", e.second.raw->use_count(), " expected ", e.second.n);
            auto slot = [&](IP const& p, S const& s, char const* what, int at)
            {
                if (stale(s)) return; if (!s.counted && s.man) ++views;
                REQUIRE(p.ptr() == raw(s.ptr) && p.managed_ptr() == raw(s.man) && p.valid() == (s.ptr != 0) && p.managing() == (s.man != 0) && static_cast<bool>(p) == p.valid() && (p == nullptr) == !p.valid(), what, " slot ", at, " pointer");
                if (s.man) REQUIRE(p.reference_counted() == s.counted && p.use_count() == (s.counted ? m.o[s.man].n : 0) && p.unique() == (s.counted ? m.o[s.man].n == 1 : p.valid()), what, " slot ", at, " count");
                else REQUIRE(p.use_count() == 0);
                if (s.ptr) REQUIRE(p->id() == s.ptr && (*p).id() == s.ptr); else { bool t = false; try { (void)p->id(); } catch (IP::no_object const&) { t = true; } REQUIRE(t, "null dereference accepted"); }
            };
            for (int q = 0; q < N; ++q) { slot(a[q], ma[q], "strong", q); for (int r = 0; r < N; ++r) if (!stale(ma[q]) && !stale(ma[r])) REQUIRE((a[q] == a[r]) == (ma[q].ptr == ma[r].ptr) && (a[q] != a[r]) != (a[q] == a[r]) && (a[q] < a[r]) == (raw(ma[q].ptr) < raw(ma[r].ptr)), "comparison"); }
            for (int q = 0; q < 2; ++q) slot(d[q], md[q], "derived", q);
            for (int q = 0; q < 3; ++q)
            {
                bool const on = mw[q] && m.o[mw[q]].alive; REQUIRE(w[q].expired() == !on && w[q].valid() == on && w[q].ptr() == (on ? raw(mw[q]) : nullptr), "weak slot ", q, " expiry");
                bool t = false; try { int v = w[q]->id(); REQUIRE(on && v == mw[q]); } catch (IP::no_object const&) { t = true; } REQUIRE(t == !on);
                t = false; try { (void)w[q].release(); } catch (W::bad_release const&) { t = on; } catch (IP::no_object const&) { t = !on; } REQUIRE(t, "weak release");
            }
            (void)concrete;
        }
        if (aliasing) c.label("aliasing pointer"); if (views) c.label("uncounted view"); if (weaks) c.label("weak reference");
        // pinned and unowned objects are ours to end
        for (auto& e : m.o) if (e.second.alive && e.second.pinned) { if (e.second.n == 0) m.kill(e.first), e.second.raw->unpin(); else { e.second.raw->unpin(); e.second.pinned = false; } }
    }
    REQUIRE(sError.empty(), sError); REQUIRE(sAlive.empty(), sAlive.size(), " objects outlived every reference");
    c.nontrivial(deaths >= 1 && next >= 2 && (aliasing || weaks || views));
}
#elif PBT_PART == 1
// objects that live in storage of their own are destroyed in place
PBT_SUITE("in-place", 4000, 100000)
{
    sAlive.clear(); sDied.clear(); sError.clear(); using O = ObjOf<false>;
    std::unique_ptr<unsigned char[]> store{ new unsigned char[sizeof(O) * 3] }; int n = 1 + static_cast<int>(c.s.below(3)), expect = 0; std::vector<P> p;
    for (int i = 0; i < n; ++i) { p.emplace_back(new (store.get() + sizeof(O) * static_cast<std::size_t>(i)) O{ i + 1 }); }
    std::vector<long> counts(static_cast<std::size_t>(n), 1); std::vector<int> of; for (int i = 0; i < n; ++i) of.push_back(i);
    int k = static_cast<int>(c.s.len(20)), copies = 0;
    while (k-- > 0 && !p.empty())
    {
        std::size_t i = c.s.below(p.size()); if (c.s.coin()) { P t = p[i]; p.push_back(t); of.push_back(of[i]); ++counts[static_cast<std::size_t>(of[i])]; ++copies; }
        else { int o = of[i]; p.erase(p.begin() + static_cast<std::ptrdiff_t>(i)); of.erase(of.begin() + static_cast<std::ptrdiff_t>(i)); if (!--counts[static_cast<std::size_t>(o)]) ++expect; }
        REQUIRE(sDied.size() == static_cast<std::size_t>(expect), "died ", sDied.size(), " expected ", expect); for (std::size_t q = 0; q < p.size(); ++q) REQUIRE(p[q]->id() == of[q] + 1 && p[q].use_count() == counts[static_cast<std::size_t>(of[q])]);
    }
    p.clear(); REQUIRE(sAlive.empty() && sError.empty()); c.nontrivial(copies && expect);
}

// counts kept by several threads at once: nothing is lost, the object dies once, after everyone has let go
PBT_SUITE("threads", 300, 20000)
{
    static std::atomic<int> died; died = 0;
    struct Shared : neolib::reference_counted<IShape> { P none; int magic = 77; ~Shared() { magic = 0; ++died; } int id() const override { return magic; } P& child() override { return none; } };
    int threads = 2 + static_cast<int>(c.s.below(3)), rounds = 20 + static_cast<int>(c.s.len(400)); std::atomic<int> bad{ 0 }, ready{ 0 };
    {
        auto first = neolib::make_ref<Shared, IShape>(); std::vector<std::thread> t; std::vector<std::vector<unsigned char>> progs; for (int i = 0; i < threads; ++i) { auto b = c.s.bytes(8); progs.emplace_back(b.begin(), b.end()); }
        for (int i = 0; i < threads; ++i)
            t.emplace_back([&, mine = first, prog = progs[static_cast<std::size_t>(i)]]() mutable
            {
                ++ready; while (ready < threads) std::this_thread::yield();
                P keep[4];
                for (int r = 0; r < rounds; ++r) { auto op = prog[static_cast<std::size_t>(r) % prog.size()]; P& k = keep[op % 4]; switch (op / 4 % 4) { case 0: k = mine; break; case 1: k.reset(); break; case 2: { P x{ mine }; k = std::move(x); break; } case 3: k = keep[op / 16 % 4]; break; } if (mine->id() != 77) ++bad; }
                for (auto& k : keep) if (k && k->id() != 77) ++bad; mine.reset();
            });
        first.reset(); for (auto& x : t) x.join();
    }
    REQUIRE(!bad, "object seen dead ", bad.load(), " times while referenced"); REQUIRE(died == 1, "object died ", died.load(), " times");
    c.nontrivial(rounds >= 50);
}
#endif
