// segmented_tree against a naive pointer forest.
#include "pbt.hpp"
#include "tracked.hpp"
#include <memory>
#include <algorithm>
#include <neolib/core/tree.hpp>
using namespace pbt;
namespace
{
    struct N { int v; bool skip = false; N* parent = nullptr; std::vector<std::unique_ptr<N>> ch; };
    std::size_t desc(N const& n) { std::size_t r = 0; for (auto& c : n.ch) r += 1 + desc(*c); return r; }
    void pre(N const& n, std::vector<N const*>& out, bool obeySkip) { for (auto& c : n.ch) { out.push_back(c.get()); if (!(obeySkip && c->skip)) pre(*c, out, obeySkip); } }
    std::size_t depth(N const* n) { std::size_t r = 0; while (n->parent->parent) { ++r; n = n->parent; } return r; }
    std::unique_ptr<N> clone(N const& n) { auto r = std::make_unique<N>(); r->v = n.v; r->skip = n.skip; for (auto& c : n.ch) { r->ch.push_back(clone(*c)); r->ch.back()->parent = r.get(); } return r; }
    template <typename P> void sortForest(N& n, P p) { std::stable_sort(n.ch.begin(), n.ch.end(), [&](auto const& a, auto const& b) { return p(a->v, b->v); }); for (auto& c : n.ch) sortForest(*c, p); }
    int num(int x) { return x; }
    int num(Tracked const& t) { return t.v; }
    int num(std::string const& s) { return std::stoi(s.substr(1)); }
    template <typename T> T val(int x);
    template <> int val<int>(int x) { return x; }
    template <> Tracked val<Tracked>(int x) { return Tracked{ x }; }
    template <> std::string val<std::string>(int x) { return "v" + std::to_string(x) + (x & 1 ? "" : "                            "); }

    template <typename I> void expectSeq(I b, I e, std::vector<N const*> const& m, char const* what)
    {
        std::size_t n = 0;
        for (auto i = b; i != e; ++i, ++n) { REQUIRE(n < m.size(), what, ": too many"); REQUIRE(num(*i) == m[n]->v, what, " #", n, " got ", num(*i), " want ", m[n]->v); }
        REQUIRE(n == m.size(), what, ": ", n, " want ", m.size());
        for (auto i = e; i != b;) { --i; REQUIRE(n > 0, what, " backward: too many"); --n; REQUIRE(num(*i) == m[n]->v, what, " backward #", n); }
        REQUIRE(n == 0, what, " backward");
    }
    std::vector<N const*> kids(N const& n) { std::vector<N const*> r; for (auto& c : n.ch) r.push_back(c.get()); return r; }

    template <typename Tree>
    void verify(Case& c, Tree& t, N const& root)
    {
        Tree const& ct = t;
        std::vector<N const*> all, vis; pre(root, all, false); pre(root, vis, true);
        REQUIRE(t.size() == all.size(), "size ", t.size(), " want ", all.size());
        REQUIRE(t.empty() == all.empty());
        REQUIRE(t.ksize() == vis.size(), "ksize ", t.ksize(), " want ", vis.size());
        expectSeq(t.begin(), t.end(), all, "pre-order");
        expectSeq(ct.begin(), ct.end(), all, "const pre-order");
        expectSeq(t.kbegin(), t.kend(), vis, "skip");
        expectSeq(ct.ckbegin(), ct.ckend(), vis, "const skip");
        expectSeq(t.sbegin(), t.send(), kids(root), "top-level siblings");
        expectSeq(ct.csbegin(), ct.csend(), kids(root), "const top-level siblings");
        { std::size_t n = all.size(); for (auto i = t.rbegin(); i != t.rend(); ++i) REQUIRE(num(*i) == all[--n]->v, "reverse"); REQUIRE(n == 0); }
        { std::size_t n = vis.size(); for (auto i = ct.crkbegin(); i != ct.crkend(); ++i) REQUIRE(num(*i) == vis[--n]->v, "reverse skip"); REQUIRE(n == 0); }
        { std::size_t n = root.ch.size(); for (auto i = ct.rsbegin(); i != ct.rsend(); ++i) REQUIRE(num(*i) == root.ch[--n]->v, "reverse siblings"); REQUIRE(n == 0); }
        auto ci = ct.begin();
        std::size_t k = 0;
        for (auto i = t.begin(); i != t.end(); ++i, ++ci, ++k)
        {
            N const& n = *all[k];
            REQUIRE(i.descendent_count() == desc(n), "descendants of ", n.v, ": ", i.descendent_count(), " want ", desc(n));
            REQUIRE(ci.descendent_count() == desc(n));
            REQUIRE(i.depth() == depth(&n), "depth of ", n.v); REQUIRE(ci.depth() == depth(&n));
            REQUIRE(i.children_skipped() == n.skip); REQUIRE(ci.children_skipped() == n.skip);
            REQUIRE(i.parent_is_root() == (n.parent == &root)); REQUIRE(ci.parent_is_root() == (n.parent == &root));
            if (n.parent != &root) { REQUIRE(num(*i.parent()) == n.parent->v, "parent of ", n.v); REQUIRE(num(*ci.cparent()) == n.parent->v); REQUIRE(num(*i.cparent()) == n.parent->v); REQUIRE(&*ci.parent() == &*i.parent()); }
            expectSeq(i.begin(), i.end(), kids(n), "children");
            expectSeq(ci.begin(), ci.end(), kids(n), "const children");
            if (!n.ch.empty()) { REQUIRE(num(*i.rbegin()) == n.ch.back()->v); REQUIRE(num(*std::prev(ci.rend())) == n.ch.front()->v); }
        }
        if (!all.empty())
        {
            std::size_t p = c.s.below(all.size());
            auto i = std::next(t.begin(), p); auto old = i++; REQUIRE(num(*old) == all[p]->v, "post-increment"); REQUIRE(i == std::next(t.begin(), p + 1));
            auto j = std::next(ct.begin(), p + 1); auto was = j--; REQUIRE(num(*j) == all[p]->v, "post-decrement"); REQUIRE(was == std::next(ct.begin(), p + 1));
        }
        REQUIRE(Tracked::error.empty(), Tracked::error);
    }

    template <typename T, std::size_t Seg>
    void history(Case& c, std::size_t maxNodes)
    {
        using Tree = neolib::tree<T, Seg>;
        auto& s = c.s;
        Tracked::reset();
        bool erasedSubtree = false, deep = false, skipped = false; std::size_t edits = 0;
        {
            Tree t; auto root = std::make_unique<N>(); root->v = -1;
            int counter = 1;
            auto add = [&](N& parent, std::size_t at, int v) { auto n = std::make_unique<N>(); n->v = v; n->parent = &parent; parent.ch.insert(parent.ch.begin() + at, std::move(n)); };
            auto all = [&] { std::vector<N const*> r; pre(*root, r, false); return r; };
            auto fresh = [&] { int v = counter++; return s.coin() ? v : v + 100000; };
            std::size_t steps = 1 + (s.coin() ? s.below(60) : s.len(60));
            for (std::size_t k = 0; k < steps; ++k)
            {
                auto nodes = all();
                auto op = s.below(20);
                if (nodes.size() >= maxNodes && op < 12) op = 12;
                std::size_t idx = nodes.empty() ? 0 : s.below(nodes.size());
                if (s.chance(1, 3) && !nodes.empty()) idx = nodes.size() - 1 - s.below(std::min<std::size_t>(nodes.size(), 3)); // grow deep
                N* at = nodes.empty() ? nullptr : const_cast<N*>(nodes[idx]);
                int v = fresh();
                switch (op)
                {
                case 0: c.note("push_back ", v); t.push_back(val<T>(v)); add(*root, root->ch.size(), v); break;
                case 1: c.note("push_front ", v); t.push_front(val<T>(v)); add(*root, 0, v); break;
                case 2: case 3: case 4: if (at) { c.note("push_back under ", at->v, ": ", v); t.push_back(std::next(t.begin(), idx), val<T>(v)); add(*at, at->ch.size(), v); if (depth(at) >= 2) deep = true; } break;
                case 5: case 6: if (at) { c.note("push_front under ", at->v, ": ", v); t.push_front(std::next(t.begin(), idx), val<T>(v)); add(*at, 0, v); } break;
                case 7: case 8: case 9: if (at) // as a sibling of an existing node
                {
                    auto& sib = at->parent->ch; std::size_t p = 0; while (sib[p].get() != at) ++p;
                    c.note("insert before ", at->v, ": ", v);
                    typename Tree::sibling_iterator pos{ std::next(t.begin(), idx) };
                    auto r = t.insert(pos, val<T>(v)); add(*at->parent, p, v);
                    REQUIRE(num(*r) == v, "insert result");
                    ++r; REQUIRE(num(*r) == at->v, "next sibling of inserted node");
                } break;
                case 10: case 11: if (at) // anywhere among the children, end included
                {
                    std::size_t p = s.below(at->ch.size() + 1); c.note("insert under ", at->v, " at ", p, ": ", v);
                    auto pos = std::next(std::next(t.begin(), idx).begin(), p);
                    auto r = t.insert(pos, val<T>(v)); add(*at, p, v); REQUIRE(num(*r) == v);
                } else { auto r = t.insert(t.send(), val<T>(v)); add(*root, root->ch.size(), v); REQUIRE(num(*r) == v); } break;
                case 12: case 13: if (at)
                {
                    c.note("erase ", at->v, " with ", desc(*at), " descendants");
                    if (!at->ch.empty()) erasedSubtree = true;
                    auto& sib = at->parent->ch; std::size_t p = 0; while (sib[p].get() != at) ++p;
                    auto r = t.erase(std::next(t.begin(), idx)); sib.erase(sib.begin() + p);
                    if (p < sib.size()) REQUIRE(num(*r) == sib[p]->v, "erase result is the next sibling");
                } break;
                case 14: c.note("sort"); t.sort(); sortForest(*root, [&](int a, int b) { return val<T>(a) < val<T>(b); }); break;
                case 15: c.note("sort descending"); t.sort([](T const& a, T const& b) { return b < a; }); sortForest(*root, [&](int a, int b) { return val<T>(b) < val<T>(a); }); break;
                case 16: if (at) { skipped = true; auto i = std::next(t.begin(), idx); bool on = s.chance(2, 3); c.note(on ? "skip children of " : "unskip children of ", at->v); if (on) i.skip_children(); else i.unskip_children(); at->skip = on; } break;
                case 17:
                {
                    c.note("copy"); Tree b(t); verify(c, b, *root);
                    b.push_back(val<T>(v)); if (!nodes.empty()) b.erase(std::next(b.begin(), idx)); verify(c, t, *root);
                    Tree d; d.push_back(val<T>(v)); d.push_back(d.begin(), val<T>(v)); d = t; verify(c, d, *root);
                    if (s.coin()) { d.push_back(val<T>(v)); add(*root, root->ch.size(), v); t = std::move(d); }
                    if (s.chance(1, 4)) { Tree const& self = t; t = self; }
                    break;
                }
                case 18: if (s.chance(1, 4)) { c.note("clear"); t.clear(); auto r = std::make_unique<N>(); r->v = -1; root = std::move(r); }
                         else if (at) { c.note("set ", at->v, " to ", v); *std::next(t.begin(), idx) = val<T>(v); at->v = v; } break;
                case 19: { c.note("move"); Tree b(std::move(t)); verify(c, b, *root); t = std::move(b); break; }
                }
                ++edits;
                verify(c, t, *root);
            }
        }
        c.nontrivial(edits >= 8 && erasedSubtree && deep);
        if (skipped) c.label("skipping used");
        REQUIRE(Tracked::live == 0, "values left alive: ", Tracked::live);
        REQUIRE(Tracked::error.empty(), Tracked::error);
    }
}
#if PBT_PART == 0
PBT_SUITE("tracked-2", 16000, 200000) { history<Tracked, 2>(c, 60); }
#endif
#if PBT_PART == 1
PBT_SUITE("tracked-64", 12000, 150000) { history<Tracked, 64>(c, 60); }
#endif
#if PBT_PART == 2
PBT_SUITE("int-4", 16000, 200000) { history<int, 4>(c, 60); }
#endif
#if PBT_PART == 3
PBT_SUITE("string-8", 8000, 100000) { history<std::string, 8>(c, 40); }
#endif

