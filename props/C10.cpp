// C10: optional, variant, plugin_variant, any and pair against std::optional / a tagged model value.
#include "tracked.hpp"
#include <optional>
#include <neolib/core/optional.hpp>
#include <neolib/core/variant.hpp>
#include <neolib/core/any.hpp>
#include <neolib/core/pair.hpp>
#include <neolib/core/string.hpp>
#include <neolib/plugin/plugin_variant.hpp>
#include "C10_enum.hpp"

using namespace pbt;

namespace
{
    std::string text(int v) { return "value-" + std::string(static_cast<std::size_t>(v % 40), 'x') + std::to_string(v); }
    template <typename T> T make(int v);
    template <> int make<int>(int v) { return v; }
    template <> double make<double>(int v) { return v + 0.5; }
    template <> neolib::string make<neolib::string>(int v) { return neolib::string{ text(v) }; }
    template <> Tracked make<Tracked>(int v) { return Tracked{ v }; }
    template <typename T, typename A> bool same(A const& a, int v)
    {
        if constexpr (std::is_same_v<T, neolib::string>) return a.to_std_string() == text(v);
        else return a == make<T>(v);
    }
    std::partial_ordering cmp(std::string const& a, std::string const& b) { return a <=> b; }
    template <typename T> std::partial_ordering order(int a, int b)
    {
        if constexpr (std::is_same_v<T, neolib::string>) return text(a) <=> text(b); else return a <=> b;
    }
    void finish(Case& c, long base) { REQUIRE(Tracked::error.empty(), Tracked::error); REQUIRE(Tracked::live == base, "live objects ", Tracked::live, " expected ", base); }

    template <typename T>
    void optional_history(Case& c)
    {
        using O = neolib::optional<T>; using A = typename O::abstract_type; using M = std::optional<int>;
        Tracked::reset();
        int stores = 0, resets = 0, viaAbstract = 0, steps = 0;
        {
            O o[3]; M m[3];
            auto check = [&]
            {
                for (int i = 0; i < 3; ++i)
                {
                    A& a = o[i]; A const& ca = a; O const& co = o[i];
                    REQUIRE(o[i].has_value() == m[i].has_value() && a.has_value() == m[i].has_value() && static_cast<bool>(ca) == m[i].has_value() && static_cast<bool>(co) == m[i].has_value(), "optional ", i);
                    REQUIRE((ca == std::nullopt) == !m[i].has_value() && (co == std::nullopt) == !m[i].has_value() && (co != std::nullopt) == m[i].has_value());
                    REQUIRE(co.as_std_optional().has_value() == m[i].has_value() && co.to_std_optional().has_value() == m[i].has_value());
                    if (m[i])
                    {
                        REQUIRE(same<T>(co.value(), *m[i]) && same<T>(ca.value(), *m[i]) && same<T>(*co, *m[i]) && same<T>(*ca, *m[i]) && same<T>(*o[i], *m[i]) && same<T>(*a, *m[i]), "optional ", i, " expected ", *m[i]);
                        REQUIRE(static_cast<void const*>(&*co) == static_cast<void const*>(co.operator->()));
                        REQUIRE(co == make<T>(*m[i]) && !(co == make<T>(*m[i] + 1)));
                    }
                    else
                    {
                        bool threw = false; try { (void)co.value(); } catch (std::bad_optional_access const&) { threw = true; } REQUIRE(threw, "empty access must throw");
                        threw = false; try { (void)a.value(); } catch (std::bad_optional_access const&) { threw = true; } REQUIRE(threw, "empty access through the interface must throw");
                    }
                    for (int w : { 0, m[i].value_or(5), 50 })
                    {
                        T const x = make<T>(w); auto const e = m[i] ? order<T>(*m[i], w) : std::partial_ordering::less; bool const eq = m[i] == M{ w };
                        REQUIRE((co == x) == eq && (x == co) == eq && (co != x) == !eq && (x != co) == !eq, "equality of ", i, " and the value ", w);
                        REQUIRE((co <=> x) == e && (x <=> co) == (0 <=> e) && (co < x) == (e < 0) && (x < co) == (e > 0) && (co >= x) == (e >= 0) && (x >= co) == (e <= 0), "order of ", i, " and the value ", w);
                        if constexpr (!std::is_same_v<T, neolib::maybe_abstract_t<T>>)
                        {
                            neolib::maybe_abstract_t<T> const& ax = x;
                            REQUIRE((co <=> ax) == e && (ax <=> co) == (0 <=> e) && (co == ax) == eq && (ax == co) == eq, "comparison of ", i, " and the abstract value ", w);
                        }
                    }
                    T const dflt = make<T>(777); typename A::value_type const& adflt = dflt;
                    REQUIRE(same<T>(ca.value_or(adflt), m[i].value_or(777)));
                    for (int j = 0; j < 3; ++j)
                    {
                        A const& cb = o[j]; O const& cob = o[j];
                        REQUIRE((ca == cb) == (m[i] == m[j]) && (co == cob) == (m[i] == m[j]), "== of ", i, " and ", j);
                        auto const e = m[i] && m[j] ? order<T>(*m[i], *m[j]) : std::partial_ordering(m[i].has_value() <=> m[j].has_value());
                        REQUIRE((ca <=> cb) == e && (co <=> cob) == e, "<=> of ", i, " and ", j);
                    }
                }
            };
            int n = 1 + static_cast<int>(c.s.len(30)); steps = n;
            while (n-- > 0)
            {
                int i = static_cast<int>(c.s.below(3)), j = static_cast<int>(c.s.below(3)), v = static_cast<int>(c.s.below(100));
                A& a = o[i]; A const& b = o[j];
                auto const op = c.s.below(16);
                c.note("op ", op, " on ", i, " with ", j, " value ", v);
                switch (op)
                {
                case 0: o[i] = make<T>(v); m[i] = v; ++stores; break;
                case 1: { T t = make<T>(v); typename A::value_type const& r = t; a = r; m[i] = v; ++stores; ++viaAbstract; break; }
                case 2: o[i] = o[j]; m[i] = m[j]; break;
                case 3: a = b; m[i] = m[j]; ++viaAbstract; break;
                case 4: o[i] = b; m[i] = m[j]; ++viaAbstract; break;
                case 5: o[i].reset(); m[i].reset(); ++resets; break;
                case 6: a.reset(); m[i].reset(); ++resets; ++viaAbstract; break;
                case 7: a = std::nullopt; m[i] = {}; ++resets; ++viaAbstract; break;
                case 8: o[i] = std::nullopt; m[i] = {}; ++resets; break;
                case 9: { O t{ o[j] }; REQUIRE(t == o[j]); o[i] = t; m[i] = m[j]; break; }
                case 10: { O t{ b }; REQUIRE(t == o[j]); o[i] = std::move(t); m[i] = m[j]; break; }
                case 11: { O t{ make<T>(v) }; o[i] = t; m[i] = v; ++stores; break; }
                case 12: { std::optional<T> t; if (c.s.coin()) t = make<T>(v); O u{ t }; REQUIRE(u.has_value() == t.has_value()); o[i] = u; m[i] = t ? M{ v } : M{}; break; }
                case 13: if (m[i]) { o[i].value() = make<T>(v); m[i] = v; } break;
                case 14: { T& r = o[i].emplace(make<T>(v)); REQUIRE(same<T>(r, v)); m[i] = v; ++stores; break; }
                case 15: { using std::swap; swap(o[i], o[j]); std::swap(m[i], m[j]); break; }
                }
                check();
            }
        }
        finish(c, 0);
        c.nontrivial(steps >= 5 && stores && resets && viaAbstract);
    }

    struct Alt { int which = 0; int v = 0; bool operator==(Alt const&) const = default; };
    template <typename T> Alt alt(int v)
    {
        if constexpr (std::is_same_v<T, int>) return { 1, v }; else if constexpr (std::is_same_v<T, double>) return { 2, v };
        else if constexpr (std::is_same_v<T, neolib::string>) return { 3, v }; else return { 4, v };
    }
    std::partial_ordering order(Alt const& a, Alt const& b)
    {
        if (a.which != b.which) return a.which <=> b.which;
        if (a.which == 0) return std::partial_ordering::equivalent;
        return a.which == 3 ? order<neolib::string>(a.v, b.v) : std::partial_ordering(a.v <=> b.v);
    }
}

#if PBT_PART == 0
PBT_SUITE("optional-int", 3000, 150000) { optional_history<int>(c); }
#endif
#if PBT_PART == 1
PBT_SUITE("optional-string", 3000, 150000) { optional_history<neolib::string>(c); }
#endif
#if PBT_PART == 2
PBT_SUITE("optional-object", 3000, 150000) { optional_history<Tracked>(c); }
PBT_SUITE("optional-stream", 2000, 50000)
{
    neolib::optional<int> a, b; if (c.s.coin()) a = static_cast<int>(c.s.range(-1000, 1000)); if (c.s.coin()) b = 5;
    std::stringstream s; s << a; c.note("text ", s.str());
    s >> b; REQUIRE(a == b, "read back ", b.has_value() ? std::to_string(*b) : "empty", " from ", s.str());
    c.nontrivial();
}
#endif
#if PBT_PART == 3
PBT_SUITE("variant", 6000, 300000)
{
    using S = neolib::string;
    using V = neolib::variant<int, double, S, Tracked>; using A = V::abstract_type;
    Tracked::reset();
    int stores = 0, empties = 0, viaAbstract = 0, steps = 0;
    {
        V o[3]; Alt m[3];
        auto throwsBad = [](auto&& f) { try { f(); } catch (std::bad_variant_access const&) { return true; } return false; };
        auto check = [&]
        {
            for (int i = 0; i < 3; ++i)
            {
                V const& co = o[i]; A& a = o[i]; A const& ca = a; Alt const& e = m[i];
                REQUIRE(co.index() == static_cast<std::size_t>(e.which) && ca.index() == co.index(), "variant ", i, " index ", co.index(), " expected ", e.which);
                REQUIRE(std::holds_alternative<int>(co) == (e.which == 1) && std::holds_alternative<double>(co) == (e.which == 2) && std::holds_alternative<S>(co) == (e.which == 3) && std::holds_alternative<Tracked>(co) == (e.which == 4) && std::holds_alternative<neolib::none_t>(co) == (e.which == 0));
                REQUIRE(ca.holds_alternative<int>() == (e.which == 1) && ca.holds_alternative<double>() == (e.which == 2) && ca.holds_alternative<neolib::i_string>() == (e.which == 3) && ca.holds_alternative<Tracked>() == (e.which == 4));
                REQUIRE((co == neolib::none) == (e.which == 0) && (neolib::none != co) == (e.which != 0));
                REQUIRE((ca.get_if<int>() != nullptr) == (e.which == 1) && (a.get_if<neolib::i_string>() != nullptr) == (e.which == 3));
                if (e.which == 1) REQUIRE(std::get<int>(co) == e.v && ca.get<int>() == e.v && a.get<int>() == e.v && neolib::static_variant_cast<int>(co) == e.v);
                else REQUIRE(throwsBad([&] { (void)std::get<int>(co); }) && throwsBad([&] { (void)ca.get<int>(); }) && throwsBad([&] { (void)a.get<int>(); }));
                if (e.which == 2) REQUIRE(std::get<double>(co) == e.v + 0.5 && ca.get<double>() == e.v + 0.5);
                else REQUIRE(throwsBad([&] { (void)std::get<double>(co); }) && throwsBad([&] { (void)ca.get<double>(); }));
                if (e.which == 3) REQUIRE(same<S>(std::get<S>(co), e.v) && same<S>(ca.get<neolib::i_string>(), e.v) && same<S>(a.get<neolib::i_string>(), e.v));
                else REQUIRE(throwsBad([&] { (void)std::get<S>(co); }) && throwsBad([&] { (void)ca.get<neolib::i_string>(); }));
                if (e.which == 4) REQUIRE(std::get<Tracked>(co).v == e.v && ca.get<Tracked>().v == e.v);
                else REQUIRE(throwsBad([&] { (void)std::get<Tracked>(co); }) && throwsBad([&] { (void)ca.get<Tracked>(); }));
                Alt seen{ -1, 0 };
                std::visit([&](auto&& x) { using X = std::decay_t<decltype(x)>; if constexpr (std::is_same_v<X, int>) seen = { 1, x }; else if constexpr (std::is_same_v<X, double>) seen = { 2, static_cast<int>(x) }; else if constexpr (std::is_same_v<X, S>) seen = { 3, e.v }; else if constexpr (std::is_same_v<X, Tracked>) seen = { 4, x.v }; else seen = { 0, e.v }; }, co);
                REQUIRE(seen == e, "visit");
                if (e.which)
                {
                    int k = -1; auto vis = [&](auto const& x) { using X = std::decay_t<decltype(x)>; k = std::is_same_v<X, int> ? 1 : std::is_same_v<X, double> ? 2 : std::is_base_of_v<neolib::i_string, X> ? 3 : 4; };
                    neolib::visit(vis, ca); REQUIRE(k == e.which, "abstract visit"); k = -1;
                    neolib::visit(vis, a); REQUIRE(k == e.which, "abstract visit");
                }
                if (e.which == 1 || e.which == 2) REQUIRE(neolib::static_numeric_variant_cast<double>(co) == (e.which == 1 ? e.v : e.v + 0.5));
                else { bool t = false; try { (void)neolib::static_numeric_variant_cast<double>(co); } catch (neolib::bad_numeric_variant_cast const&) { t = true; } REQUIRE(t); }
                for (int j = 0; j < 3; ++j)
                {
                    auto const ord = order(m[i], m[j]);
                    REQUIRE((co == o[j]) == (ord == 0) && (co != o[j]) == (ord != 0) && (co < o[j]) == (ord < 0) && (co <= o[j]) == (ord <= 0) && (co > o[j]) == (ord > 0) && (co >= o[j]) == (ord >= 0), "comparison of ", i, " and ", j);
                    REQUIRE((co <=> o[j]) == ord);
                }
            }
        };
        int n = 1 + static_cast<int>(c.s.len(30)); steps = n;
        while (n-- > 0)
        {
            int i = static_cast<int>(c.s.below(3)), j = static_cast<int>(c.s.below(3)), v = static_cast<int>(c.s.below(100));
            A& a = o[i]; A const& b = o[j];
            auto const op = c.s.below(21);
            c.note("op ", op, " on ", i, " with ", j, " value ", v);
            switch (op)
            {
            case 0: o[i] = v; m[i] = { 1, v }; ++stores; break;
            case 1: { double d = v + 0.5; o[i] = d; m[i] = { 2, v }; ++stores; break; }
            case 2: { S s = make<S>(v); o[i] = s; REQUIRE(same<S>(s, v)); m[i] = { 3, v }; ++stores; break; }
            case 3: o[i] = Tracked{ v }; m[i] = { 4, v }; ++stores; break;
            case 4: { Tracked t{ v }; o[i] = t; REQUIRE(t.v == v); m[i] = { 4, v }; ++stores; break; }
            case 5: a = v; m[i] = { 1, v }; ++stores; ++viaAbstract; break;
            case 6: { S s = make<S>(v); neolib::i_string const& r = s; a = r; m[i] = { 3, v }; ++stores; ++viaAbstract; break; }
            case 7: { S s = make<S>(v); a = s; m[i] = { 3, v }; ++stores; ++viaAbstract; break; }
            case 8: { Tracked t{ v }; a = t; m[i] = { 4, v }; ++stores; ++viaAbstract; break; }
            case 9: o[i] = o[j]; m[i] = m[j]; break;
            case 10: a = b; m[i] = m[j]; ++viaAbstract; break;
            case 11: o[i] = b; m[i] = m[j]; ++viaAbstract; break;
            case 12: { V t{ o[j] }; REQUIRE(t == o[j]); o[i] = t; m[i] = m[j]; break; }
            case 13: { V t{ b }; REQUIRE(t == o[j]); o[i] = std::move(t); m[i] = m[j]; ++viaAbstract; break; }
            case 14: o[i] = neolib::none; m[i] = {}; ++empties; break;
            case 15: { V t; o[i] = t; m[i] = {}; ++empties; break; }
            case 16: { V t; A const& e = t; a = e; m[i] = {}; ++empties; ++viaAbstract; break; }
            case 17: if (m[i].which == 3) { a.get<neolib::i_string>() = make<S>(v); m[i].v = v; } else if (m[i].which == 1) { std::get<int>(o[i]) = v; m[i].v = v; } break;
            case 18: { V t{ make<S>(v) }; V u{ std::move(t) }; o[i] = std::move(u); m[i] = { 3, v }; ++stores; break; }
            case 20: if (m[i].which == 3) { a = a.get<neolib::i_string>(); ++viaAbstract; } else if (m[i].which == 4) { a = a.get<Tracked>(); ++viaAbstract; } else if (m[i].which == 1) { a = a.get<int>(); ++viaAbstract; } break;
            case 19: { using std::swap; swap(static_cast<V::std_type&>(o[i]), static_cast<V::std_type&>(o[j])); std::swap(m[i], m[j]); break; }
            }
            check();
        }
    }
    finish(c, 0);
    c.nontrivial(steps >= 5 && stores >= 2 && viaAbstract);
}
#endif
#if PBT_PART == 4
PBT_SUITE("plugin-variant", 4000, 200000)
{
    using S = neolib::string;
    using V = neolib::plugin_variant<verif::kind, int, double, S>; using A = V::abstract_type;
    int stores = 0, empties = 0, viaAbstract = 0;
    V o[3]; Alt m[3];
    auto throwsBad = [](auto&& f) { try { f(); } catch (neolib::bad_variant_access const&) { return true; } catch (std::bad_variant_access const&) { return true; } return false; };
    auto check = [&]
    {
        for (int i = 0; i < 3; ++i)
        {
            V const& co = o[i]; A& a = o[i]; A const& ca = a; Alt const& e = m[i];
            REQUIRE(co.empty() == (e.which == 0) && ca.empty() == co.empty() && (ca == neolib::none) == co.empty() && (ca != neolib::none) == !co.empty(), "variant ", i);
            if (e.which) REQUIRE(static_cast<int>(co.which()) == e.which - 1 && co.which_as_string() == (e.which == 1 ? "Int" : e.which == 2 ? "Real" : "Text"), "variant ", i, " holds ", static_cast<int>(co.which()), " expected ", e.which - 1);
            else REQUIRE(throwsBad([&] { (void)co.which(); }));
            if (e.which == 1) REQUIRE(ca.get<int>() == e.v && a.get<int>() == e.v && std::get<int>(co) == e.v && neolib::get_as<double>(ca) == e.v); else REQUIRE(throwsBad([&] { (void)ca.get<int>(); }) && throwsBad([&] { (void)a.get<int>(); }));
            if (e.which == 2) REQUIRE(ca.get<double>() == e.v + 0.5 && neolib::get_as<int>(ca) == e.v); else REQUIRE(throwsBad([&] { (void)ca.get<double>(); }));
            if (e.which == 3) REQUIRE(same<S>(ca.get<neolib::i_string>(), e.v) && same<S>(a.get<neolib::i_string>(), e.v) && same<S>(std::get<S>(co), e.v)); else REQUIRE(throwsBad([&] { (void)ca.get<neolib::i_string>(); }));
            if (e.which)
            {
                int k = -1; neolib::variant_visitors::visit([&](auto const& x) { using X = std::decay_t<decltype(x)>; k = std::is_same_v<X, int> ? 1 : std::is_same_v<X, double> ? 2 : 3; }, ca);
                REQUIRE(k == e.which, "abstract visit");
                auto const cl = ca.clone(); REQUIRE(*cl == ca, "clone");
            }
            for (int j = 0; j < 3; ++j)
            {
                auto const ord = order(m[i], m[j]); A const& cb = o[j];
                REQUIRE((ca == cb) == (ord == 0) && (ca < cb) == (ord < 0) && (ca <=> cb) == ord && (co <=> o[j]) == ord, "comparison of ", i, " and ", j);
            }
        }
    };
    int n = 1 + static_cast<int>(c.s.len(30)), steps = n;
    while (n-- > 0)
    {
        int i = static_cast<int>(c.s.below(3)), j = static_cast<int>(c.s.below(3)), v = static_cast<int>(c.s.below(100));
        A& a = o[i]; A const& b = o[j];
        auto const op = c.s.below(16);
        c.note("op ", op, " on ", i, " with ", j, " value ", v);
        switch (op)
        {
        case 0: a = static_cast<int const&>(v); m[i] = { 1, v }; ++stores; ++viaAbstract; break;
        case 1: { double const d = v + 0.5; a = d; m[i] = { 2, v }; ++stores; ++viaAbstract; break; }
        case 2: { S s = make<S>(v); neolib::i_string const& r = s; a = r; m[i] = { 3, v }; ++stores; ++viaAbstract; break; }
        case 3: o[i] = V{ v }; m[i] = { 1, v }; ++stores; break;
        case 4: o[i] = V{ make<S>(v) }; m[i] = { 3, v }; ++stores; break;
        case 5: o[i] = o[j]; m[i] = m[j]; break;
        case 6: a = b; m[i] = m[j]; ++viaAbstract; break;
        case 7: if (i != j) { a = std::move(static_cast<A&>(o[j])); m[i] = m[j]; m[j] = {}; ++viaAbstract; } break;
        case 8: { V t{ o[j] }; REQUIRE(t == b); o[i] = std::move(t); m[i] = m[j]; break; }
        case 9: { V t{ b }; REQUIRE(t == b); o[i] = t; m[i] = m[j]; ++viaAbstract; break; }
        case 10: { V t{ o[j] }; V u{ std::move(t) }; REQUIRE(u == b); break; }
        case 11: a.clear(); m[i] = {}; ++empties; break;
        case 12: o[i] = neolib::none; m[i] = {}; ++empties; break;
        case 13: a = neolib::none; m[i] = {}; ++empties; ++viaAbstract; break;
        case 14: if (m[i].which == 3) { a.get<neolib::i_string>() = make<S>(v); m[i].v = v; } else if (m[i].which == 1) { a.get<int>() = v; m[i].v = v; } break;
        case 15: { int w = v; a = std::move(w); m[i] = { 1, v }; ++stores; ++viaAbstract; break; }
        }
        check();
    }
    c.nontrivial(steps >= 5 && stores >= 2 && viaAbstract);
}
#endif
#if PBT_PART == 5
PBT_SUITE("any", 6000, 300000)
{
    using S = neolib::string; using neolib::any; using neolib::i_any;
    Tracked::reset();
    int stores = 0, viaAbstract = 0, steps = 0;
    {
        any o[3]; Alt m[3];
        auto throwsBad = [](auto&& f) { try { f(); } catch (std::bad_any_cast const&) { return true; } return false; };
        auto check = [&]
        {
            for (int i = 0; i < 3; ++i)
            {
                any const& co = o[i]; i_any& a = o[i]; i_any const& ca = a; Alt const& e = m[i];
                REQUIRE(co.has_value() == (e.which != 0) && ca.has_value() == co.has_value(), "any ", i);
                REQUIRE(ca.type() == (e.which == 0 ? typeid(void) : e.which == 1 ? typeid(int) : e.which == 2 ? typeid(double) : e.which == 3 ? typeid(S) : typeid(Tracked)), "any ", i, " holds ", ca.type().name(), " expected ", e.which);
                if (e.which == 1) REQUIRE(neolib::any_cast<int>(co) == e.v && neolib::any_cast<int>(ca) == e.v && neolib::any_cast<int&>(o[i]) == e.v && neolib::unsafe_any_cast<int>(co) == e.v && neolib::unsafe_any_cast<int>(ca) == e.v); else REQUIRE(throwsBad([&] { (void)neolib::any_cast<int>(co); }) && throwsBad([&] { (void)neolib::any_cast<int>(ca); }));
                if (e.which == 2) REQUIRE(neolib::any_cast<double>(co) == e.v + 0.5); else REQUIRE(throwsBad([&] { (void)neolib::any_cast<double>(co); }));
                if (e.which == 3) REQUIRE(same<S>(neolib::any_cast<S const&>(co), e.v) && same<S>(neolib::any_cast<S>(ca), e.v)); else REQUIRE(throwsBad([&] { (void)neolib::any_cast<S>(co); }));
                if (e.which == 4) REQUIRE(neolib::any_cast<Tracked const&>(co).v == e.v && neolib::unsafe_any_cast<Tracked>(o[i]).v == e.v); else REQUIRE(throwsBad([&] { (void)neolib::any_cast<Tracked>(co); }));
                auto p = neolib::any_cast<int>(&co); REQUIRE((p != nullptr) == (e.which == 1)); if (p) REQUIRE(*p == e.v);
                auto q = neolib::any_cast<Tracked>(&o[i]); REQUIRE((q != nullptr) == (e.which == 4)); if (q) REQUIRE(q->v == e.v);
                auto r = neolib::any_cast<S>(&ca); REQUIRE((r != nullptr) == (e.which == 3)); if (r) REQUIRE(same<S>(*r, e.v));
                auto t = neolib::any_cast<double>(&a); REQUIRE((t != nullptr) == (e.which == 2));
                for (int j = 0; j < 3; ++j)
                {
                    any const& cb = o[j]; i_any const& cab = cb; bool const eq = i == j || (m[i].which == 0 && m[j].which == 0);
                    REQUIRE((co == cb) == eq && (co != cb) == !eq && (ca == cab) == eq && (ca != cab) == !eq, "identity of any ", i, " and ", j);
                    REQUIRE((co < cb) == (ca < cab) && ((co < cb) + (cb < co) == !eq) && (m[i].which != 0 || m[j].which == 0 || co < cb), "order of any ", i, " and ", j);
                }
            }
        };
        int n = 1 + static_cast<int>(c.s.len(30)); steps = n;
        while (n-- > 0)
        {
            int i = static_cast<int>(c.s.below(3)), j = static_cast<int>(c.s.below(3)), v = static_cast<int>(c.s.below(100));
            i_any const& b = o[j];
            auto const op = c.s.below(22);
            c.note("op ", op, " on ", i, " with ", j, " value ", v);
            switch (op)
            {
            case 0: o[i] = v; m[i] = { 1, v }; ++stores; break;
            case 1: o[i] = v + 0.5; m[i] = { 2, v }; ++stores; break;
            case 2: { S s = make<S>(v); o[i] = s; m[i] = { 3, v }; ++stores; break; }
            case 3: o[i] = Tracked{ v }; m[i] = { 4, v }; ++stores; break;
            case 4: { Tracked const t{ v }; o[i] = t; m[i] = { 4, v }; ++stores; break; }
            case 5: o[i] = static_cast<any const&>(o[j]); m[i] = m[j]; break;
            case 6: o[i] = o[j]; m[i] = m[j]; c.label("assigned from a non-const any"); break;
            case 7: o[i] = b; m[i] = m[j]; ++viaAbstract; break;
            case 8: { any t{ static_cast<any const&>(o[j]) }; o[i] = std::move(t); REQUIRE(!t.has_value()); m[i] = m[j]; break; }
            case 9: { any t{ o[j] }; o[i] = std::move(t); m[i] = m[j]; c.label("copied from a non-const any"); break; }
            case 10: { any t{ b }; o[i] = std::move(t); m[i] = m[j]; ++viaAbstract; break; }
            case 11: { any t{ static_cast<any const&>(o[j]) }; any u{ std::move(t) }; REQUIRE(!t.has_value() && u.has_value() == (m[j].which != 0)); o[i] = std::move(u); m[i] = m[j]; break; }
            case 12: o[i].reset(); m[i] = {}; break;
            case 13: static_cast<i_any&>(o[i]).reset(); m[i] = {}; ++viaAbstract; break;
            case 14: o[i].swap(o[j]); std::swap(m[i], m[j]); break;
            case 15: { using std::swap; swap(o[i], o[j]); std::swap(m[i], m[j]); break; }
            case 16: o[i].emplace<Tracked>(v); m[i] = { 4, v }; ++stores; break;
            case 17: { any t{ make<S>(v) }; o[i] = t; m[i] = { 3, v }; ++stores; break; }
            case 18: o[i].emplace<Tracked>(); m[i] = { 4, 0 }; ++stores; break;
            case 20: { any u{ static_cast<any const&>(o[j]) }; o[i] = static_cast<i_any&&>(u); m[i] = m[j]; ++viaAbstract; break; }
            case 21: { any u{ static_cast<any const&>(o[j]) }; any t{ static_cast<i_any&&>(u) }; o[i] = std::move(t); m[i] = m[j]; ++viaAbstract; break; }
            case 19: if (m[i].which == 1) { neolib::any_cast<int&>(o[i]) = v; m[i].v = v; } else if (m[i].which == 4) { neolib::any_cast<Tracked&>(o[i]).v = v; m[i].v = v; } break;
            }
            check();
        }
    }
    finish(c, 0);
    c.nontrivial(steps >= 5 && stores >= 2 && viaAbstract);
}
#endif
#if PBT_PART == 6
PBT_SUITE("pair", 4000, 200000)
{
    using S = neolib::string; using P = neolib::pair<int, S>; using A = P::abstract_type;
    P o[3]; std::pair<int, std::string> m[3];
    int viaAbstract = 0, changes = 0;
    auto const txt = [](int v) { return v == 0 ? std::string{} : text(v); };
    int n = 1 + static_cast<int>(c.s.len(30)), steps = n;
    while (n-- > 0)
    {
        int i = static_cast<int>(c.s.below(3)), j = static_cast<int>(c.s.below(3)), v = static_cast<int>(c.s.below(6)), w = static_cast<int>(c.s.below(6));
        A& a = o[i]; A& b = o[j];
        auto const op = c.s.below(11);
        c.note("op ", op, " on ", i, " with ", j, " values ", v, " ", w);
        switch (op)
        {
        case 0: o[i] = P{ v, S{ txt(w) } }; m[i] = { v, txt(w) }; ++changes; break;
        case 1: a.first() = v; m[i].first = v; ++viaAbstract; ++changes; break;
        case 2: a.second() = S{ txt(w) }; m[i].second = txt(w); ++viaAbstract; ++changes; break;
        case 3: o[i] = o[j]; m[i] = m[j]; break;
        case 4: a = b; m[i] = m[j]; ++viaAbstract; break;
        case 5: { P t{ b }; REQUIRE(t == o[j]); o[i] = t; m[i] = m[j]; break; }
        case 6: { P t{ o[j] }; REQUIRE(t == o[j]); o[i] = std::move(t); m[i] = m[j]; break; }
        case 7: swap(o[i], o[j]); std::swap(m[i], m[j]); ++changes; break;
        case 8: { std::pair<int, S> t{ v, S{ txt(w) } }; P u{ t }; o[i] = u; m[i] = { v, txt(w) }; break; }
        case 9: neolib::get<0>(o[i]) = v; neolib::get<1>(o[i]) = S{ txt(w) }; m[i] = { v, txt(w) }; ++changes; break;
        case 10: o[i] = neolib::make_pair(v, S{ txt(w) }); m[i] = { v, txt(w) }; break;
        }
        for (int x = 0; x < 3; ++x)
        {
            P const& co = o[x]; A const& ca = o[x];
            REQUIRE(co.first() == m[x].first && ca.first() == m[x].first && co.second().to_std_string() == m[x].second && ca.second().to_std_string() == m[x].second, "pair ", x);
            REQUIRE(neolib::get<0>(co) == m[x].first && neolib::get<1>(co).to_std_string() == m[x].second && neolib::get<0>(ca) == m[x].first && neolib::get<1>(ca).to_std_string() == m[x].second);
            for (int y = 0; y < 3; ++y)
            {
                A const& cb = o[y];
                REQUIRE((co == o[y]) == (m[x] == m[y]) && (ca == cb) == (m[x] == m[y]), "==");
                auto const e = std::partial_ordering(m[x] <=> m[y]);
                REQUIRE((co <=> o[y]) == e && (ca <=> cb) == e, "<=>");
            }
        }
    }
    c.nontrivial(steps >= 5 && changes >= 2 && viaAbstract);
}
#endif
