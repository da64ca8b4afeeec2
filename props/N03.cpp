// N03: easing curves against textbook formulas, and curves put together from them.
#include "pbt.hpp"
#include <neolib/neolib.hpp>
#include <span>
#include <cmath>
#include <neolib/core/easing.hpp>
using namespace pbt; namespace nm = neolib::math; using nm::easing; using nm::easing_class;
namespace
{
    using LD = long double; LD const PI = std::acos(-1.0L);
    enum Family { Linear, Quad, Cubic, Quart, Quint, Sine, Expo, Circ, Elastic, Back, Bounce, Zero, One, Step, FAMILIES };
    enum Way { Plain, In, Out, InOut, OutIn };
    char const* const names[] = { "Linear", "Quad", "Cubic", "Quart", "Quint", "Sine", "Expo", "Circ", "Elastic", "Back", "Bounce", "Zero", "One", "Step" };
    char const* const ways[] = { "", "In", "Out", "InOut", "OutIn" };
    struct Kind { Family f; Way w; bool reversed = false, inverted = false; LD a = 0.5L, p = 0.25L, s = 1.70158L; };
    LD bounce(LD t) { if (t < 1 / 2.75L) return 7.5625L * t * t; LD const c = t < 2 / 2.75L ? 1.5L : t < 2.5L / 2.75L ? 2.25L : 2.625L, base = t < 2 / 2.75L ? 0.75L : t < 2.5L / 2.75L ? 0.9375L : 0.984375L; t -= c / 2.75L; return 7.5625L * t * t + base; }
    LD in(Kind const& k, LD t)
    {
        switch (k.f)
        {
        case Linear: return t;
        case Quad: return t * t; case Cubic: return t * t * t; case Quart: return t * t * t * t; case Quint: return std::pow(t, 5.0L);
        case Sine: return 1 - std::cos(t * PI / 2); case Expo: return std::pow(2.0L, 10 * (t - 1)); case Circ: return 1 - std::sqrt(std::max(0.0L, 1 - t * t));
        case Elastic: { if (t == 0 || t == 1) return t; LD const a = std::max(k.a, 1.0L), s = k.a < 1 ? k.p / 4 : k.p / (2 * PI) * std::asin(1 / a); return -a * std::pow(2.0L, 10 * (t - 1)) * std::sin((t - 1 - s) * 2 * PI / k.p); }
        case Back: return t * t * ((k.s + 1) * t - k.s); case Bounce: return 1 - bounce(1 - t);
        case Zero: return 0; case One: return 1; case Step: return t < 0.5L ? 0 : 1; default: return 0;
        }
    }
    LD out(Kind const& k, LD t) { return k.f == Step ? 1 - in(k, t) : 1 - in(k, 1 - t); }
    LD value(Kind const& k, LD t) // t as given, in the caller's precision
    {
        if (k.f == Linear || k.f == Zero || k.f == One) return in(k, t);
        bool const late = t >= 0.5L; LD const u = late ? 2 * t - 1 : 2 * t;
        switch (k.w)
        {
        case In: return in(k, t); case Out: return out(k, t);
        case InOut: return k.f == Step ? (late ? out(k, u) : in(k, u)) : (late ? 1 + out(k, u) : in(k, u)) / 2;
        default: return k.f == Step ? (late ? in(k, u) : out(k, u)) : (late ? 1 + in(k, u) : out(k, u)) / 2;
        }
    }
    template <class T> LD flagged(Kind const& k, T t) { if (k.reversed) t = T(1) - t; LD const r = value(k, t); return k.inverted ? 1 - r : r; }
    std::string name(Kind const& k) { return std::string(k.reversed ? "Reversed" : "") + (k.inverted ? "Inverted" : "") + ways[k.w] + names[k.f]; }
    easing named(Kind const& k) { auto const e = neolib::try_string_to_enum<easing>(name(k)); if (!e) FAIL("there is no easing ", name(k)); return *e; }
    bool sawCirc = false, sawElastic = false;
    Kind draw(Case& c) { Kind k{ static_cast<Family>(c.s.below(FAMILIES)), static_cast<Way>(1 + c.s.below(4)) }; if (k.f == Zero || k.f == One || (k.f == Linear && c.s.coin())) k.w = Plain; k.reversed = c.s.chance(1, 3); k.inverted = c.s.chance(1, 3); sawCirc = sawCirc || k.f == Circ; sawElastic = sawElastic || k.f == Elastic; return k; }
    template <class T> T time(Case& c) { switch (c.s.below(4)) { case 0: return T(c.s.below(9)) / 8; case 1: return T(c.s.below(1001)) / 1000; case 2: { T const t = c.s.pick({ T(0), T(0.25), T(0.5), T(0.75), T(1) }); return std::min(std::max(c.s.coin() ? std::nextafter(t, T(2)) : std::nextafter(t, T(-1)), T(0)), T(1)); } default: return T(c.s.below(1 << 24)) / T((1 << 24) - 1); } }
    template <class T> bool close(LD x, LD y, LD scale = 1) { return std::abs(x - y) <= (std::is_same_v<T, float> ? 3e-5L : 1e-12L) * (1 + scale); }
    // near the start of elastic's argument the float rounding of 1 - t decides between the end value and the curve beside it
    template <class T> void family(Case& c)
    {
        Kind k = draw(c); T const t = time<T>(c); easing const e = named(k); c.note(name(k), " at ", t);
        LD const want = flagged(k, t); T const got = nm::ease(e, t);
        REQUIRE(close<T>(got, want), name(k), " gave ", got, " instead of ", static_cast<double>(want));
        Kind plain = k; plain.reversed = plain.inverted = false; easing const ep = named(plain);
        REQUIRE(close<T>(nm::standard_ease(ep, t), value(plain, t)), "standard_ease of ", name(plain), " gave ", nm::standard_ease(ep, t));
        // the functions themselves
        if (plain.w != Plain && plain.f != Linear)
        {
            LD const v = value(plain, t); T f = 0; bool called = true;
            #define FAMILY(F, n) case F: f = plain.w == In ? nm::ease_in_##n(t) : plain.w == Out ? nm::ease_out_##n(t) : plain.w == InOut ? nm::ease_in_out_##n(t) : nm::ease_out_in_##n(t); break;
            switch (plain.f) { FAMILY(Quad, quad) FAMILY(Cubic, cubic) FAMILY(Quart, quart) FAMILY(Quint, quint) FAMILY(Sine, sine) FAMILY(Expo, expo) FAMILY(Circ, circ) FAMILY(Elastic, elastic) FAMILY(Back, back) FAMILY(Bounce, bounce) FAMILY(Step, step) default: called = false; }
            if (called) REQUIRE(close<T>(f, v), "the function for ", name(plain), " gave ", f, " instead of ", static_cast<double>(v));
            if (plain.f == Back || plain.f == Elastic)
            {
                plain.s = T(c.s.below(400)) / 100; plain.a = T(25 + c.s.below(300)) / 100; plain.p = T(10 + c.s.below(90)) / 100; T const s = T(plain.s), a = T(plain.a), p = T(plain.p); c.note("s ", s, " a ", a, " p ", p);
                float const sf = static_cast<float>(s); Kind other = plain; other.s = sf; T g = 0; LD const w = value(plain, t);
                if (plain.f == Back) f = plain.w == In ? nm::ease_in_back(t, s) : plain.w == Out ? nm::ease_out_back(t, s) : plain.w == InOut ? nm::ease_in_out_back(t, s) : nm::ease_out_in_back(t, s);
                else f = plain.w == In ? nm::ease_in_elastic(t, a, p) : plain.w == Out ? nm::ease_out_elastic(t, a, p) : plain.w == InOut ? nm::ease_in_out_elastic(t, a, p) : nm::ease_out_in_elastic(t, a, p);
                REQUIRE(close<T>(f, w, std::abs(plain.a)), name(plain), " with arguments gave ", f, " instead of ", static_cast<double>(w));
                if (plain.f == Back) { g = plain.w == In ? nm::ease_in_back(t, sf) : plain.w == Out ? nm::ease_out_back(t, sf) : plain.w == InOut ? nm::ease_in_out_back(t, sf) : nm::ease_out_in_back(t, sf); REQUIRE(std::abs(g - value(other, t)) < 1e-4, name(plain), " with a float argument gave ", g); }
            }
        }
        c.label(ways[k.w][0] ? ways[k.w] : "no direction"); c.nontrivial(t > 0 && t < 1);
    }
    struct Piece { Kind k; double w; };
    // a sum of pieces at t, and a hair before and after it, since pieces may jump where they meet
    template <class T> LD pieces(std::vector<Piece> const& v, LD t, bool full)
    {
        LD total = 0; for (auto const& x : v) total += x.w; if (v.empty() || total <= 0) return 0;
        LD const scale = total / v.size(); LD at = 0, pos = flagged<LD>(v.front().k, 0);
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            auto const& [k, w] = v[i]; if (w <= 0) continue;
            if (t * total < at + w || i + 1 == v.size()) { LD const local = std::clamp((t * total - at) / w, 0.0L, 1.0L); return full ? scale * flagged<LD>(k, local) : scale * (pos + (flagged<LD>(k, local) - flagged<LD>(k, 0)) * w / total); }
            pos += (flagged<LD>(k, 1) - flagged<LD>(k, 0)) * w / total; at += w;
        }
        return full ? NAN : scale * pos;
    }
    template <class T> void check(T got, std::function<LD(LD)> f, T t, LD scale, std::string const& what)
    {
        LD const h = std::is_same_v<T, float> ? 2e-6L : 1e-13L; LD const steep = std::is_same_v<T, float> ? 400 : 1000;
        LD lo = INFINITY, hi = -INFINITY; LD const tol = (std::is_same_v<T, float> ? 3e-5L : 1e-12L) * (1 + steep / 100 * scale) + (sawCirc /* a vertical tangent */ ? scale * std::sqrt(16 * h) : 0) + (sawElastic /* jumps by this at its very ends */ ? scale / 1024 : 0);
        for (LD x : { LD(t), LD(t) - h, LD(t) + h }) { LD const y = f(std::clamp(x, 0.0L, 1.0L)); lo = std::min(lo, y); hi = std::max(hi, y); }
        if (got >= lo - tol && got <= hi + tol) return;
        FAIL(std::setprecision(20), what, " gave ", got, " instead of ", f(t), sizeof(T) == 4 ? " (float)" : " (double)");
    }
    template <class T> void together(Case& c)
    {
        sawCirc = sawElastic = false; T const t = time<T>(c); std::vector<Piece> v; std::size_t const n = c.s.below(7); bool const full = c.s.coin(); std::string all;
        for (std::size_t i = 0; i < n; ++i) { v.push_back({ draw(c), c.s.chance(1, 6) ? 0.0 : (1 + c.s.below(16)) / 4.0 }); all += name(v.back().k) + "*" + std::to_string(v.back().w) + " "; }
        if (full && !v.empty() && v.back().w == 0) v.back().w = 1; // where a last piece of no width is at the end is not claimed
        c.note("pieces ", all, full ? "full" : "normalised", " at ", t);
        std::vector<nm::ease_segment<T>> s; LD total = 0; for (auto const& x : v) { s.push_back({ named(x.k), T(x.w) }); total += x.w; }
        auto const mode = full ? nm::ease_partition::Full : nm::ease_partition::Normalized; auto const span = std::span<nm::ease_segment<T> const>(s);
        auto const ref = [&](LD x) { return pieces<T>(v, x, full); }; LD const scale = 2 + total;
        check<T>(nm::partitioned_ease(span, t, mode), ref, t, scale, "partitioned_ease");
        if (!full) check<T>(nm::partitioned_ease(span, t), ref, t, scale, "partitioned_ease by default");
        if (n >= 3) { check<T>(nm::partitioned_ease(std::span<nm::ease_segment<T> const, 3>(s.data(), 3), t, nm::ease_partition::Normalized), [&](LD x) { return pieces<T>({ v[0], v[1], v[2] }, x, false); }, t, scale, "partitioned_ease of three"); }
        if (n >= 2)
        {
            auto const& a = v[0]; auto const& b = v[1];
            if (b.w > 0 || !full) check<T>(nm::partitioned_ease(s[0].easing, s[1].easing, t, s[0].weight, s[1].weight, mode), [&](LD x) { return pieces<T>({ a, b }, x, full); }, t, scale, "partitioned_ease of two");
            check<T>(nm::partitioned_ease(s[0].easing, s[1].easing, t), [&](LD x) { return pieces<T>({ { a.k, 1 }, { b.k, 1 } }, x, false); }, t, scale, "partitioned_ease of two of weight one");
            check<T>(nm::ease(s[0].easing, s[1].easing, t), [&](LD x) { return x < 0.5L ? flagged<LD>(a.k, 2 * x) / 2 : (1 + flagged<LD>(b.k, 2 * x - 1)) / 2; }, t, 2, "ease of two");
            // there and back again
            Kind back = a.k; (back.reversed ? back.reversed : back.inverted) ^= true; T const w1 = T(1 + c.s.below(8)) / 4, w2 = T(1 + c.s.below(8)) / 4;
            check<T>(nm::partitioned_ease(s[0].easing, t, w1, w2), [&](LD x) { return pieces<T>({ { a.k, w1 }, { back, w2 } }, x, true); }, t, scale, "partitioned_ease there and back");
            check<T>(nm::partitioned_ease(s[0].easing, t, w1), [&](LD x) { return pieces<T>({ { a.k, w1 }, { back, w1 } }, x, true); }, t, scale, "partitioned_ease there and back at one weight");
            check<T>(nm::partitioned_ease(s[0].easing, t), [&](LD x) { return pieces<T>({ { a.k, 1 }, { back, 1 } }, x, true); }, t, scale, "partitioned_ease there and back by default");
        }
        if (n >= 4)
        {
            check<T>(nm::ease(s[0].easing, s[1].easing, s[2].easing, s[3].easing, t), [&](LD x) { int const q = std::min(3, static_cast<int>(x * 4)); return (q + flagged<LD>(v[q].k, 4 * x - q)) / 4; }, t, 2, "ease of four");
            if (v[3].w > 0 || !full) check<T>(nm::partitioned_ease(s[0].easing, s[1].easing, s[2].easing, s[3].easing, t, s[0].weight, s[1].weight, s[2].weight, s[3].weight, mode), [&](LD x) { return pieces<T>({ v[0], v[1], v[2], v[3] }, x, full); }, t, scale, "partitioned_ease of four");
            check<T>(nm::partitioned_ease(s[0].easing, s[1].easing, s[2].easing, s[3].easing, t), [&](LD x) { return pieces<T>({ { v[0].k, 1 }, { v[1].k, 1 }, { v[2].k, 1 }, { v[3].k, 1 } }, x, false); }, t, scale, "partitioned_ease of four of weight one");
        }
        {
            // by class: in with the first, out with the second
            auto k1 = draw(c), k2 = draw(c); auto const directed = [](Kind const& k) { return k.f != Zero && k.f != One; };
            if (directed(k1) && directed(k2)) { k1.w = In; k2.w = Out; k1.reversed = k1.inverted = k2.reversed = k2.inverted = false; check<T>(nm::ease(static_cast<easing_class>(k1.f), static_cast<easing_class>(k2.f), t), [&](LD x) { return x < 0.5L ? value(k1, 2 * x) / 2 : (1 + value(k2, 2 * x - 1)) / 2; }, t, 2, "ease of two classes"); }
            // from b, by c, over d
            Kind const k = draw(c); T const d = T(1 + c.s.below(40)) / 4, b = T(c.s.range(-50, 50)), by = T(c.s.range(-50, 50)), at = t * d; c.note(name(k), " from ", b, " by ", by, " in ", d);
            check<T>(nm::ease(named(k), at, b, by, d), [&](LD x) { return flagged<LD>(k, x) * by + b; }, t, 150, "ease over a range");
        }
        c.nontrivial(n >= 2 && t > 0 && t < 1);
    }
}
PBT_SUITE("families", 60000, 2000000) { if (c.s.coin()) family<double>(c); else family<float>(c); }
PBT_SUITE("together", 40000, 1000000) { if (c.s.coin()) together<double>(c); else together<float>(c); }
PBT_SUITE("names", 1, 1)
{
    std::size_t count = 0; std::set<std::uint32_t> values;
    for (int f = 0; f < FAMILIES; ++f) for (int w = 0; w < 5; ++w) for (int r = 0; r < 2; ++r) for (int i = 0; i < 2; ++i)
    {
        bool const constant = f == Zero || f == One; if (constant ? w != Plain : w == Plain && f != Linear) continue;
        Kind const k{ static_cast<Family>(f), static_cast<Way>(w), r != 0, i != 0 }; easing const e = named(k); ++count; values.insert(static_cast<std::uint32_t>(e));
        REQUIRE(neolib::enum_to_string(e) == name(k), name(k), " is named ", neolib::enum_to_string(e).to_std_string());
        REQUIRE((static_cast<easing_class>(e & easing_class::CLASS_MASK)) == static_cast<easing_class>(f), name(k), " is of another class"); REQUIRE(((e & easing_class::Reversed) != easing{}) == (r != 0) && ((e & easing_class::Inverted) != easing{}) == (i != 0), name(k), " has other flags");
        bool const standard = r == 0 && i == 0 && (f != Linear || w == Plain); auto const index = nm::standard_easing_index(e);
        REQUIRE(index < nm::standard_easings().size() && (nm::standard_easings()[index] == e) == standard, name(k), " has standard index ", index); if (!standard) REQUIRE(nm::standard_easings()[index] == easing::Zero, name(k), " is not standard");
    }
    REQUIRE(values.size() == count, count, " easings have ", values.size(), " values"); REQUIRE(neolib::enum_enumerators<easing>().size() == count, "there are ", neolib::enum_enumerators<easing>().size(), " names"); c.nontrivial(true);
}
