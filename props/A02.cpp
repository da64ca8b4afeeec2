// A02: versions compared as tuples, printed and parsed.
#include "pbt.hpp"
#include <neolib/neolib.hpp>
#include <neolib/app/version.hpp>
#include <sstream>
#include <tuple>

using namespace pbt;
using neolib::version;

namespace
{
    struct V { std::uint32_t a, b, m, n; std::string name; auto t() const { return std::make_tuple(a, b, m, n); } };
    V draw(Source& s)
    {
        auto number = [&]() -> std::uint32_t { switch (s.below(4)) { case 0: return 0; case 1: return static_cast<std::uint32_t>(s.below(4)); case 2: return static_cast<std::uint32_t>(s.pick<u64>({ 9, 10, 99, 100, 0x7fffffff, 0x80000000, 0xffffffff })); default: return static_cast<std::uint32_t>(s.below(0xffffffff)); } };
        V v{ number(), number(), number(), number(), "" };
        if (s.coin()) v.name = s.from("ab1. -\xc3", 1 + s.below(8));
        return v;
    }
    version make(V const& v) { return version{ v.a, v.b, v.m, v.n, v.name }; }
    std::string nm(neolib::i_version const& v) { return v.version_name().to_std_string(); }
    void check(neolib::i_version const& v, V const& e, char const* what)
    {
        REQUIRE(std::make_tuple(v.version_major(), v.version_minor(), v.version_maintenance(), v.version_build()) == e.t(), what, " is ", v.version_major(), ".", v.version_minor(), ".", v.version_maintenance(), ".", v.version_build());
        REQUIRE(nm(v) == e.name, what, " is called ", show(nm(v)), ", not ", show(e.name));
    }
}

PBT_SUITE("order", 20000, 300000)
{
    std::vector<V> v; for (int i = 0; i < 3; ++i) { v.push_back(draw(c.s)); if (i && c.s.coin()) { auto k = c.s.below(4); V w = v[0]; w.name = v[i].name; if (k == 0) w.n = v[i].n; else if (k == 1) w.m = v[i].m; else if (k == 2) w.b = v[i].b; v[i] = w; } }
    for (auto& x : v) c.note(x.a, ".", x.b, ".", x.m, ".", x.n, " ", show(x.name));
    for (auto& x : v) for (auto& y : v)
    {
        auto p = make(x), q = make(y);
        REQUIRE((p < q) == (x.t() < y.t()), "less: ", p < q); REQUIRE((p > q) == (x.t() > y.t()), "greater: ", p > q);
        REQUIRE((p == q) == (x.t() == y.t()) && (p != q) == (x.t() != y.t()), "equal: ", p == q);
    }
    c.nontrivial(v[0].t() != v[1].t() && v[1].t() != v[2].t() && v[0].t() != v[2].t());
}

PBT_SUITE("text", 20000, 300000)
{
    auto& s = c.s; auto e = draw(s); auto v = make(e); check(v, e, "the version");
    std::ostringstream os; os << v; auto t = os.str();
    std::string numbers = std::to_string(e.a) + "." + std::to_string(e.b) + "." + std::to_string(e.m) + "." + std::to_string(e.n), name = e.name.empty() ? "" : " " + e.name;
    c.note(show(t));
    REQUIRE(t == numbers + name, "written as ", show(t));
    version back{ t }; check(back, e, "the version read back"); REQUIRE(back == v && !(back < v) && !(back > v), "read back as another version");
    // through the interface, which leaves out a build number of zero
    neolib::i_version const& i = v; auto u = neolib::to_string(i);
    REQUIRE(u == std::to_string(e.a) + "." + std::to_string(e.b) + "." + std::to_string(e.m) + (e.n ? "." + std::to_string(e.n) : "") + name, "written through the interface as ", show(u));
    check(version{ u }, e, "the version read back through the interface");
    version copy{ i }; check(copy, e, "a copy"); copy = version{ 7, 7, 7 }; copy = v; check(copy, e, "an assigned version");
    // fewer numbers
    V p = e; auto k = 1 + s.below(3); std::string text = std::to_string(e.a); if (k < 2) p.b = 0; else text += "." + std::to_string(e.b); if (k < 3) p.m = 0; else text += "." + std::to_string(e.m); p.n = 0;
    check(version{ text + name }, p, "a shorter version"); check(version{ "" }, V{ 0, 0, 0, 0, "" }, "no version"); check(version{}, V{ 0, 0, 0, 0, "" }, "no version");
    c.nontrivial(!e.name.empty() && (e.m || e.n));
}
