// N01: vectors, matrices, rotations, affine interpolation, boxes and curves against component-wise references in long double.
#include "pbt.hpp"
#include <cmath>
#include <sstream>
#include <neolib/neolib.hpp>
#include <neolib/core/numerical.hpp>

using namespace pbt;
using namespace neolib;
using ld = long double;

namespace
{
    template <typename T> constexpr ld ulp = std::numeric_limits<T>::epsilon();
    template <typename T> T number(Case& c)
    {
        auto& s = c.s;
        if constexpr (std::is_integral_v<T>) return static_cast<T>(std::is_signed_v<T> ? s.range(-1000, 1000) : s.range(0, 1000));
        else switch (s.below(6))
        {
        case 0: return static_cast<T>(s.range(-4, 4));
        case 1: return static_cast<T>(s.range(-1000, 1000)) / T(8);
        case 2: return static_cast<T>(s.range(-1000000, 1000000)) / T(999983);
        case 3: return static_cast<T>(std::ldexp(static_cast<double>(s.range(-1000, 1000)), static_cast<int>(s.range(-12, 12))));
        case 4: return s.coin() ? T(0) : -T(0);
        default: return static_cast<T>(s.range(-1000, 1000)) / T(7);
        }
    }
    template <typename V> V vec(Case& c) { V v; for (auto& e : v) e = number<typename V::value_type>(c); return v; }
    template <typename M> M mat(Case& c)
    {
        M m; auto [rows, cols] = m.size(); int kind = static_cast<int>(c.s.below(8));
        for (std::uint32_t i = 0; i < cols; ++i) for (std::uint32_t j = 0; j < rows; ++j) m[i][j] = kind == 0 ? (i == j) : kind == 1 ? (i == j ? number<typename M::value_type>(c) : typename M::value_type(0)) : number<typename M::value_type>(c);
        if (kind == 2) m[c.s.below(cols)][c.s.below(rows)] = -typename M::value_type(0);
        if (kind == 3) { for (std::uint32_t i = 0; i < cols; ++i) for (std::uint32_t j = 0; j < rows; ++j) m[i][j] = (i == j); m[c.s.below(cols)][c.s.below(rows)] = number<typename M::value_type>(c); }
        return m;
    }
    // a is r up to k roundings of numbers of the given magnitude
    template <typename T> bool near(T a, ld r, ld scale, ld k = 8) { if constexpr (std::is_integral_v<T>) return a == static_cast<T>(r); else return std::fabs(static_cast<ld>(a) - r) <= k * ulp<T> * scale + k * std::numeric_limits<T>::denorm_min(); }
    template <typename X> std::string str(X const& x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }

    template <typename T, std::uint32_t N, typename O> void vectors(Case& c)
    {
        using V = basic_vector<T, N, O>; auto& s = c.s;
        V a = vec<V>(c), b = vec<V>(c); T k = number<T>(c); if (s.chance(1, 6)) b = a; if (s.chance(1, 6)) b[s.below(N)] = a[0];
        c.note("a ", str(a), " b ", str(b), " k ", k);
        auto comp = [&](char const* what, V const& r, auto f) { for (std::uint32_t i = 0; i < N; ++i) { T e = static_cast<T>(f(i)); REQUIRE(r[i] == e || (e != e && r[i] != r[i]), what, " component ", i, " is ", r[i], ", not ", e); } };
        comp("a+b", a + b, [&](int i) { return a[i] + b[i]; }); comp("a-b", a - b, [&](int i) { return a[i] - b[i]; }); comp("a+k", a + k, [&](int i) { return a[i] + k; }); comp("k+a", k + a, [&](int i) { return k + a[i]; });
        comp("a-k", a - k, [&](int i) { return a[i] - k; }); comp("k-a", k - a, [&](int i) { return k - a[i]; }); comp("a*k", a * k, [&](int i) { return a[i] * k; }); comp("k*a", k * a, [&](int i) { return a[i] * k; });
        comp("-a", -a, [&](int i) { return -a[i]; }); comp("scale", a.scale(b), [&](int i) { return a[i] * b[i]; }); comp("hadamard", a.hadamard_product(b), [&](int i) { return a[i] * b[i]; });
        comp("min", a.min(b), [&](int i) { return std::min(a[i], b[i]); }); comp("max", a.max(b), [&](int i) { return std::max(a[i], b[i]); });
        auto inplace = [&](auto f) { V r = a; f(r); return r; };
        comp("+=", inplace([&](V& r) { r += b; }), [&](int i) { return a[i] + b[i]; }); comp("-=", inplace([&](V& r) { r -= b; }), [&](int i) { return a[i] - b[i]; }); comp("*=", inplace([&](V& r) { r *= b; }), [&](int i) { return a[i] * b[i]; });
        comp("+=k", inplace([&](V& r) { r += k; }), [&](int i) { return a[i] + k; }); comp("-=k", inplace([&](V& r) { r -= k; }), [&](int i) { return a[i] - k; }); comp("*=k", inplace([&](V& r) { r *= k; }), [&](int i) { return a[i] * k; });
        comp("+= itself", inplace([&](V& r) { r += r; }), [&](int i) { return a[i] + a[i]; });
        bool zero = k == 0; for (auto e : b) zero = zero || e == 0; bool azero = false; for (auto e : a) azero = azero || e == 0;
        if (!zero)
        {
            comp("a/k", a / k, [&](int i) { return a[i] / k; }); comp("/=k", inplace([&](V& r) { r /= k; }), [&](int i) { return a[i] / k; }); comp("/=", inplace([&](V& r) { r /= b; }), [&](int i) { return a[i] / b[i]; }); comp("a%k", a % k, [&](int i) { return std::fmod(a[i], k); });
            comp("k/b", k / b, [&](int i) { return k / b[i]; });
        }
        T lowest = a[0]; for (auto e : a) lowest = std::min(lowest, e); REQUIRE(a.min() == lowest, "min() ", a.min());
        ld dot = 0, mag = 0, ss = 0, dd = 0; for (std::uint32_t i = 0; i < N; ++i) { dot += ld(a[i]) * b[i]; mag += std::fabs(ld(a[i]) * b[i]); ss += ld(a[i]) * a[i]; dd += (ld(a[i]) - b[i]) * (ld(a[i]) - b[i]); }
        REQUIRE(near(a.dot(b), dot, mag), "dot ", a.dot(b), ", not ", static_cast<double>(dot));
        if constexpr (std::is_floating_point_v<T>)
        {
            REQUIRE(near(a.magnitude(), std::sqrt(ss), std::sqrt(ss)), "magnitude ", a.magnitude()); REQUIRE(near(a.distance(b), std::sqrt(dd), std::sqrt(dd) + a.magnitude() + b.magnitude()), "distance ", a.distance(b), ", not ", static_cast<double>(std::sqrt(dd))); REQUIRE(a.distance(a) == 0, "distance to itself");
            comp("ceil", a.ceil(), [&](int i) { return std::ceil(a[i]); }); comp("floor", a.floor(), [&](int i) { return std::floor(a[i]); }); comp("round", a.round(), [&](int i) { return std::round(a[i]); });
            if (ss > 1e-12L) { auto n = a.normalized(); for (std::uint32_t i = 0; i < N; ++i) REQUIRE(near(n[i], a[i] / std::sqrt(ss), 1), "normalized ", str(n)); }
            T t = static_cast<T>(s.range(-8, 24)) / T(16); auto l = lerp(a, b, t);
            for (std::uint32_t i = 0; i < N; ++i) { REQUIRE(near(l[i], ld(a[i]) + (ld(b[i]) - a[i]) * t, std::fabs(a[i]) + std::fabs(b[i])), "lerp ", str(l), " at ", t); REQUIRE(near(lerp(a[i], b[i], t), ld(a[i]) + (ld(b[i]) - a[i]) * t, std::fabs(a[i]) + std::fabs(b[i])), "scalar lerp"); }
            REQUIRE(lerp(a, b, T(0)) == a, "lerp at 0"); auto end = lerp(a, b, T(1)); for (std::uint32_t i = 0; i < N; ++i) REQUIRE(near(end[i], b[i], std::fabs(a[i]) + std::fabs(b[i])), "lerp at 1 ", str(end));
            if constexpr (N == 3) { auto m = midpoint(a, b); for (int i = 0; i < 3; ++i) REQUIRE(near(m[i], (ld(a[i]) + b[i]) / 2, std::fabs(a[i]) + std::fabs(b[i])), "midpoint"); }
            auto f = a.template as<float>(); for (std::uint32_t i = 0; i < N; ++i) REQUIRE(f[i] == static_cast<float>(a[i]), "as float");
            std::stringstream io; io.precision(std::numeric_limits<T>::max_digits10); io << a << " " << b; V a2, b2; io >> a2 >> b2; REQUIRE(!io.fail() && a2 == a && b2 == b, "read back from ", io.str(), ": ", str(a2), " ", str(b2));
        }
        if constexpr (N == 3) { auto x = a.cross(b); for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, m = (i + 2) % 3; REQUIRE(near(x[i], ld(a[j]) * b[m] - ld(a[m]) * b[j], std::fabs(ld(a[j]) * b[m]) + std::fabs(ld(a[m]) * b[j])), "cross ", str(x)); } REQUIRE(a.x == a[0] && a.y == a[1] && a.z == a[2], "names"); }
        REQUIRE((a == b) == std::equal(a.begin(), a.end(), b.begin()) && (a != b) == !(a == b), "equality");
        REQUIRE((a < b) == std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()), "order");
        V sw = a, sx = b; swap(sw, sx); REQUIRE(sw == b && sx == a, "swap");
        V part{ { a[0] } }; for (std::uint32_t i = 0; i < N; ++i) REQUIRE(part[i] == (i ? T(0) : a[0]), "partial list");
        part = b; part = { a[0] }; for (std::uint32_t i = 0; i < N; ++i) REQUIRE(part[i] == (i ? T(0) : a[0]), "partial list assigned");
        basic_vector<double, 4, O> wide{ a }; for (std::uint32_t i = 0; i < 4; ++i) REQUIRE(wide[i] == (i < N ? static_cast<double>(a[i]) : 0.0), "widened ", str(wide));
        bool threw = false; try { std::initializer_list<T> five = { k, k, k, k, k }; V v{ a }; v = five; } catch (std::out_of_range const&) { threw = true; } REQUIRE(threw, "five values were accepted");
        if constexpr (std::is_same_v<O, column_vector>)
        {
            std::array<V, 3> q{ a, b, a }; auto check = [&](char const* what, std::array<V, 3> const& r, auto f) { for (int v = 0; v < 3; ++v) for (std::uint32_t i = 0; i < N; ++i) REQUIRE(r[v][i] == static_cast<T>(f(q[v][i], b[i])), what, " vertex ", v); };
            check("q+b", q + b, [](T x, T y) { return x + y; }); check("b+q", b + q, [](T x, T y) { return x + y; }); check("q-b", q - b, [](T x, T y) { return x - y; }); check("b-q", b - q, [](T x, T y) { return y - x; });
            auto p = q; p += b; check("q+=b", p, [](T x, T y) { return x + y; }); p = q; p -= b; check("q-=b", p, [](T x, T y) { return x - y; });
        }
        c.nontrivial(!(a == b) && !azero);
    }
    template <typename T> void anyVector(Case& c)
    {
        switch (c.s.below(5)) { case 0: vectors<T, 1, column_vector>(c); break; case 1: vectors<T, 2, column_vector>(c); break; case 2: vectors<T, 3, column_vector>(c); break; case 3: vectors<T, 4, column_vector>(c); break; default: if (c.s.coin()) vectors<T, 3, row_vector>(c); else vectors<T, 4, row_vector>(c); }
    }
}
#if PBT_PART == 0
PBT_SUITE("vectors", 12000*4, 400000*4) { switch (c.s.below(3)) { case 0: anyVector<double>(c); break; case 1: anyVector<float>(c); break; default: anyVector<std::int32_t>(c); } }

namespace
{
    template <typename V> struct Named { char const* name; std::vector<std::uint32_t> at; std::function<void(V&, V const&)> set, copy; std::function<void(V&, typename V::value_type)> fill; std::function<std::vector<typename V::value_type>(V const&)> get; };
    template <typename T, std::uint32_t N> void swizzles(Case& c)
    {
        using V = basic_vector<T, N>; auto& s = c.s; V a = vec<V>(c), b = vec<V>(c); T k = number<T>(c);
        using W = std::vector<T>;
#define GET(n) { #n, {}, {}, {}, {}, [](V const& v) { auto r = ~v.n; return W(r.begin(), r.end()); } }
#define SET(n, S) { #n, {}, [](V& v, V const& from) { basic_vector<T, S> w; for (std::uint32_t i = 0; i < S; ++i) w[i] = from[i]; v.n = w; }, [](V& v, V const& from) { v.n = from.n; }, [](V& v, T x) { v.n = x; }, [](V const& v) { basic_vector<T, S> r = v.n; return W(r.begin(), r.end()); } }
        static std::vector<Named<V>> const all = []
        {
            std::vector<Named<V>> r;
            if constexpr (N == 2) r = { GET(xx), GET(yy), GET(xxx), GET(xxy), GET(xyx), GET(xyy), GET(yxx), GET(yxy), GET(yyx), GET(yyy), SET(xy, 2), SET(yx, 2) };
            else r = { GET(xx), GET(yy), GET(zz), GET(xxx), GET(xxy), GET(xxz), GET(xyx), GET(xyy), GET(yxx), GET(yxy), GET(yyx), GET(yyy), GET(yyz), GET(yzy), GET(yzz), GET(zxx), GET(zxz), GET(zyy), GET(zyz), GET(zzx), GET(zzy), GET(zzz),
                SET(xy, 2), SET(xz, 2), SET(yx, 2), SET(yz, 2), SET(zx, 2), SET(zy, 2), SET(xyz, 3), SET(yxz, 3), SET(zxy, 3), SET(zyx, 3) };
            for (auto& n : r) for (char const* p = n.name; *p; ++p) n.at.push_back(static_cast<std::uint32_t>(*p - 'x'));
            return r;
        }();
        c.note("a ", str(a), " b ", str(b));
        for (int step = 0; step < 6; ++step)
        {
            auto const& n = all[s.below(all.size())]; auto got = n.get(a); REQUIRE(got.size() == n.at.size(), "size"); for (std::size_t i = 0; i < got.size(); ++i) REQUIRE(got[i] == a[n.at[i]], n.name, " of ", str(a), " component ", i, " is ", got[i]);
            if (!n.set) continue;
            V m = a, before = a; auto const from = s.chance(1, 4) ? a : b;
            switch (s.below(3))
            {
            case 0: n.set(a, from); for (std::size_t i = 0; i < n.at.size(); ++i) m[n.at[i]] = from[static_cast<std::uint32_t>(i)]; break;
            case 1: n.copy(a, from); for (auto i : n.at) m[i] = from[i]; break;
            default: n.fill(a, k); for (auto i : n.at) m[i] = k;
            }
            REQUIRE(a == m, n.name, " of ", str(before), " assigned from ", str(from), " or ", k, " gave ", str(a), ", not ", str(m)); c.nontrivial(!(a == before));
        }
        REQUIRE((a.xy == b.xy) == (a[0] == b[0] && a[1] == b[1]), "swizzle equality"); REQUIRE((a.xy != b.yx) == !(a[0] == b[1] && a[1] == b[0]), "swizzle inequality"); auto d = a.xy + b.yx, e = a.yx - b.yx; REQUIRE(d[0] == a[0] + b[1] && d[1] == a[1] + b[0], "swizzle sum"); REQUIRE(e[0] == a[1] - b[1] && e[1] == a[0] - b[0], "swizzle difference");
        REQUIRE((a.yx < b.xy) == (a[1] < b[0] || (a[1] == b[0] && a[0] < b[1])), "swizzle order");
    }
}
PBT_SUITE("swizzles", 6000*4, 200000*4) { if (c.s.coin()) swizzles<double, 3>(c); else if (c.s.coin()) swizzles<float, 2>(c); else swizzles<std::int32_t, 3>(c); }
#endif

namespace
{
    template <typename T, std::uint32_t R, std::uint32_t C> using M = basic_matrix<T, R, C>;
    // sum over k of l(k) * r(k) with the sum of magnitudes
    struct Sum { ld v = 0, m = 0; void add(ld a, ld b) { v += a * b; m += std::fabs(a * b); } };
    template <typename T, std::uint32_t R, std::uint32_t C> void elementwise(Case& c)
    {
        auto a = mat<M<T, R, C>>(c), b = mat<M<T, R, C>>(c); T k = number<T>(c); if (c.s.chance(1, 6)) b = a; c.note("a ", str(a), " b ", str(b), " k ", k);
        auto each = [&](char const* what, M<T, R, C> const& r, auto f) { for (std::uint32_t i = 0; i < C; ++i) for (std::uint32_t j = 0; j < R; ++j) { T e = f(a[i][j], b[i][j]); REQUIRE(r[i][j] == e, what, " element ", j, ",", i, " is ", r[i][j], ", not ", e); } };
        each("a+b", a + b, [](T x, T y) { return x + y; }); each("a-b", a - b, [](T x, T y) { return x - y; }); each("-a", -a, [](T x, T) { return -x; });
        each("a+k", a + k, [&](T x, T) { return x + k; }); each("k+a", k + a, [&](T x, T) { return x + k; }); each("a-k", a - k, [&](T x, T) { return x - k; }); each("k-a", k - a, [&](T x, T) { return k - x; }); each("a*k", a * k, [&](T x, T) { return x * k; }); each("k*a", k * a, [&](T x, T) { return x * k; }); if (k != 0) each("a/k", a / k, [&](T x, T) { return x / k; });
        auto t = a.transposed(); REQUIRE(t.size() == std::make_pair(C, R), "size of the transpose"); for (std::uint32_t i = 0; i < C; ++i) for (std::uint32_t j = 0; j < R; ++j) REQUIRE(t[j][i] == a[i][j], "transpose"); REQUIRE(t.transposed() == a, "twice transposed");
        T eps = std::ldexp(T(1), static_cast<int>(c.s.range(-6, 2))); if (c.s.coin()) eps = T(0.1); auto r = a.round_to(eps);
        for (std::uint32_t i = 0; i < C; ++i) for (std::uint32_t j = 0; j < R; ++j) { ld q = static_cast<ld>(r[i][j]) / eps; REQUIRE(std::fabs(ld(r[i][j]) - a[i][j]) <= eps / ld(2) + 4 * ulp<T> * (std::fabs(ld(a[i][j])) + eps), "round_to ", eps, " of ", a[i][j], " is ", r[i][j]); REQUIRE(std::fabs(q - std::round(q)) <= 4 * ulp<T> * (1 + std::fabs(q)), "round_to ", eps, " of ", a[i][j], " is ", r[i][j], ", no multiple"); }
        auto f = a.template as<float>(); for (std::uint32_t i = 0; i < C; ++i) for (std::uint32_t j = 0; j < R; ++j) { REQUIRE(f[i][j] == static_cast<float>(a[i][j]), "as float"); REQUIRE(a.data()[i * R + j] == a[i][j], "data is not column major"); }
        bool same = true; for (std::uint32_t i = 0; i < C; ++i) for (std::uint32_t j = 0; j < R; ++j) same = same && a[i][j] == b[i][j]; REQUIRE((a == b) == same && (a != b) == !same, "equality"); auto x = a, y = b; swap(x, y); REQUIRE(x == b && y == a, "swap");
        matrix_array<T, R, C> ma; for (std::uint32_t i = 0; i < C; ++i) for (std::uint32_t j = 0; j < R; ++j) ma[i][j] = a[i][j];
        auto sq = ma.apply([&](T const& v) { return v + k; }); auto mt = ma.transposed(); for (std::uint32_t i = 0; i < C; ++i) for (std::uint32_t j = 0; j < R; ++j) { REQUIRE(sq[i][j] == a[i][j] + k, "applied function"); REQUIRE(mt[j][i] == a[i][j], "transposed array"); REQUIRE(ma.data()[i * R + j] == a[i][j], "array data"); } auto mb = ma; REQUIRE(mb == ma && !(mb != ma), "copied array"); mb[C - 1][R - 1] += T(1000000); REQUIRE(mb != ma, "changed array");
        if constexpr (R != C)
        {
            auto o = mat<M<T, C, R>>(c); auto p = a * o; for (std::uint32_t i = 0; i < R; ++i) for (std::uint32_t j = 0; j < R; ++j) { Sum e; for (std::uint32_t n = 0; n < C; ++n) e.add(a[n][j], o[i][n]); REQUIRE(near(p[i][j], e.v, e.m), "product of ", str(a), " and ", str(o), " is ", str(p)); }
        }
        c.nontrivial(!same);
    }
    template <typename T, std::uint32_t D> void products(Case& c)
    {
        auto& s = c.s; using Mx = M<T, D, D>; using V = basic_vector<T, D>; using W = basic_vector<T, D, row_vector>;
        auto a = mat<Mx>(c), b = mat<Mx>(c); auto v = vec<V>(c), v2 = vec<V>(c); auto w = vec<W>(c), w2 = vec<W>(c); c.note("a ", str(a), " b ", str(b), " v ", str(v), " w ", str(w));
        auto product = [&](char const* what, Mx const& l, Mx const& r, Mx const& got) { for (std::uint32_t i = 0; i < D; ++i) for (std::uint32_t j = 0; j < D; ++j) { Sum e; for (std::uint32_t n = 0; n < D; ++n) e.add(l[n][j], r[i][n]); REQUIRE(near(got[i][j], e.v, e.m), what, " element ", j, ",", i, " is ", got[i][j], ", not ", static_cast<double>(e.v)); } };
        product("a*b", a, b, a * b); auto p = a; p *= b; product("a*=b", a, b, p); p = a; p *= p; product("a*=a", a, a, p); product("a*a", a, a, a * a); product("identity*a", Mx::identity(), a, Mx::identity() * a); product("a*identity", a, Mx::identity(), a * Mx::identity()); REQUIRE(Mx::identity() * a == a && a * Mx::identity() == a, "identity");
        bool id = true; for (std::uint32_t i = 0; i < D; ++i) for (std::uint32_t j = 0; j < D; ++j) { id = id && a[i][j] == (i == j); REQUIRE(Mx::identity()[i][j] == (i == j), "identity"); } if (!id) REQUIRE(!a.is_identity(), str(a), " passes for the identity"); REQUIRE(Mx::identity().is_identity(), "identity is not");
        auto column = [&](char const* what, V const& in, V const& got) { for (std::uint32_t j = 0; j < D; ++j) { Sum e; for (std::uint32_t n = 0; n < D; ++n) e.add(a[n][j], in[n]); REQUIRE(near(got[j], e.v, e.m), what, " component ", j, " is ", got[j], ", not ", static_cast<double>(e.v)); } };
        auto row = [&](char const* what, W const& in, W const& got) { for (std::uint32_t j = 0; j < D; ++j) { Sum e; for (std::uint32_t n = 0; n < D; ++n) e.add(in[n], a[j][n]); REQUIRE(near(got[j], e.v, e.m), what, " component ", j, " is ", got[j], ", not ", static_cast<double>(e.v)); } };
        column("a*v", v, a * v); row("w*a", w, w * a); std::array<V, 3> vs{ v, v2, v }; auto gv = a * vs; std::array<W, 3> ws{ w, w2, w }; auto gw = ws * a; for (int i = 0; i < 3; ++i) { column("a*array", vs[i], gv[i]); row("array*a", ws[i], gw[i]); }
        Sum d; for (std::uint32_t n = 0; n < D; ++n) d.add(w[n], v[n]); T got = w * v; REQUIRE(near(got, d.v, d.m), "w*v is ", got, ", not ", static_cast<double>(d.v));
        auto o = v * w; for (std::uint32_t i = 0; i < D; ++i) for (std::uint32_t j = 0; j < D; ++j) REQUIRE(near(o[i][j], ld(v[j]) * w[i], std::fabs(ld(v[j]) * w[i])), "v*w is ", str(o));
        if constexpr (D > 1) { auto nt = without_translation(a); for (std::uint32_t i = 0; i < D; ++i) for (std::uint32_t j = 0; j < D; ++j) REQUIRE(nt[i][j] == (i == D - 1 && j < D - 1 ? T(0) : a[i][j]), "without_translation"); }
        if constexpr (D == 4)
        {
            using V3 = basic_vector<T, 3>; auto u = vec<V3>(c); std::vector<V3> us; small_vector<V3, 2> ss; for (std::size_t i = s.len(5); i--;) { us.push_back(vec<V3>(c)); ss.push_back(us.back()); }
            if (!s.chance(1, 4)) { for (int i = 0; i < 3; ++i) a[i][3] = 0; a[3][3] = 1; }
            auto point = [&](char const* what, V3 const& in, V3 const& got) { for (std::uint32_t j = 0; j < 3; ++j) { Sum e; for (std::uint32_t n = 0; n < 3; ++n) e.add(a[n][j], in[n]); e.add(a[3][j], 1); REQUIRE(near(got[j], e.v, e.m), what, " component ", j, " is ", got[j], ", not ", static_cast<double>(e.v)); } };
            point("a*point", u, a * u); auto gus = a * us; auto gss = a * ss; REQUIRE(gus.size() == us.size() && gss.size() == us.size(), "point count"); for (std::size_t i = 0; i < us.size(); ++i) { point("a*points", us[i], gus[i]); point("a*small points", us[i], gss[i]); }
            auto t = a; auto& back = apply_translation(t, u); REQUIRE(&back == &t, "result"); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) REQUIRE(t[i][j] == (i == 3 && j < 3 ? a[i][j] + u[j] : a[i][j]), "apply_translation"); auto t2 = a; apply_translation(t2, basic_vector<T, 2>{ u[0], u[1] }); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) REQUIRE(t2[i][j] == (i == 3 && j < 2 ? a[i][j] + u[j] : a[i][j]), "apply_translation in the plane");
            Mx diag; for (int i = 0; i < 4; ++i) diag[i][i] = i == 3 ? T(1) : number<T>(c); diag[3][0] = u[1]; diag[3][2] = u[0]; auto sc = diag; apply_scaling(sc, u); auto sc2 = diag; apply_scaling(sc2, basic_vector<T, 2>{ u[0], u[1] });
            for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { REQUIRE(sc[i][j] == (i < 3 ? diag[i][j] * u[i] : diag[i][j]), "apply_scaling"); REQUIRE(sc2[i][j] == (i < 2 ? diag[i][j] * u[i] : diag[i][j]), "apply_scaling in the plane"); }
        }
        c.nontrivial(!id);
    }
    template <typename T> void matrices(Case& c)
    {
        switch (c.s.below(11)) { case 0: elementwise<T, 2, 3>(c); break; case 1: elementwise<T, 3, 2>(c); break; case 2: elementwise<T, 4, 4>(c); break; case 3: elementwise<T, 1, 4>(c); break; case 4: elementwise<T, 4, 2>(c); break; case 5: products<T, 1>(c); break; case 6: products<T, 2>(c); break; case 7: case 8: products<T, 3>(c); break; default: products<T, 4>(c); }
    }
}
#if PBT_PART == 1
PBT_SUITE("double_matrices", 8000*4, 250000*4) { matrices<double>(c); }
#endif
#if PBT_PART == 2
PBT_SUITE("float_matrices", 8000*4, 250000*4) { matrices<float>(c); }
#endif

#if PBT_PART == 3
namespace
{
    struct R3 { ld m[3][3]; }; // m[row][column]
    R3 mul(R3 const& a, R3 const& b) { R3 r{}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j]; return r; }
    R3 turn(int axis, ld t) { R3 r{}; int i = (axis + 1) % 3, j = (axis + 2) % 3; r.m[axis][axis] = 1; r.m[i][i] = r.m[j][j] = std::cos(t); r.m[i][j] = -std::sin(t); r.m[j][i] = std::sin(t); return r; }
    R3 euler(ld const* e) { return mul(turn(2, e[2]), mul(turn(1, e[1]), turn(0, e[0]))); }
    R3 axisAngle(ld const* a, ld t) { R3 r; ld k = 1 - std::cos(t), s = std::sin(t); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = k * a[i] * a[j] + (i == j ? std::cos(t) : j == (i + 1) % 3 ? -s * a[(i + 2) % 3] : s * a[3 - i - j]); return r; }
    R3 transposed(R3 const& a) { R3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = a.m[j][i]; return r; }
    ld angleOf(R3 const& r) { ld x = r.m[2][1] - r.m[1][2], y = r.m[0][2] - r.m[2][0], z = r.m[1][0] - r.m[0][1]; return std::atan2(std::sqrt(x * x + y * y + z * z), r.m[0][0] + r.m[1][1] + r.m[2][2] - 1); }
    template <typename Mx> R3 linear(Mx const& m) { R3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = m[j][i]; return r; }
    void same(Case& c, char const* what, R3 const& got, R3 const& e, ld tol) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) REQUIRE(std::fabs(got.m[i][j] - e.m[i][j]) <= tol, what, " element ", i, ",", j, " is ", static_cast<double>(got.m[i][j]), ", not ", static_cast<double>(e.m[i][j])); }
    void orthonormal(Case& c, char const* what, R3 const& r, ld tol)
    {
        auto p = mul(r, transposed(r)); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) REQUIRE(std::fabs(p.m[i][j] - (i == j)) <= tol, what, " is not orthonormal: R*Rt element ", i, ",", j, " is ", static_cast<double>(p.m[i][j]));
        ld det = 0; for (int i = 0; i < 3; ++i) det += r.m[0][i] * (r.m[1][(i + 1) % 3] * r.m[2][(i + 2) % 3] - r.m[1][(i + 2) % 3] * r.m[2][(i + 1) % 3]); REQUIRE(std::fabs(det - 1) <= tol, what, " has determinant ", static_cast<double>(det));
    }
    ld const PI = 3.14159265358979323846264338327950288L;
    template <typename T> T angle(Case& c)
    {
        auto& s = c.s;
        switch (s.below(6)) { case 0: return T(0); case 1: return static_cast<T>(PI * s.range(-4, 4) / 2); case 2: return static_cast<T>(PI * s.range(-8, 8) / 4) + static_cast<T>(s.range(-20, 20)) * T(1e-6); case 3: return static_cast<T>(s.range(-50, 50)) * T(1e-6); default: return static_cast<T>(s.range(-7000, 7000)) / T(1000); }
    }
    template <typename T> basic_vector<T, 3> direction(Case& c)
    {
        auto& s = c.s; for (;;)
        {
            if (s.chance(1, 3)) { basic_vector<T, 3> v{ T(0), T(0), T(0) }; v[s.below(3)] = s.coin() ? T(1) : T(-1); return v; }
            basic_vector<T, 3> v{ static_cast<T>(s.range(-100, 100)), static_cast<T>(s.range(-100, 100)), static_cast<T>(s.range(-100, 100)) }; if (v.magnitude() > T(0.5)) return v; if (s.exhausted()) return basic_vector<T, 3>{ T(1), T(0), T(0) };
        }
    }
    template <typename T> void rotations(Case& c)
    {
        auto& s = c.s; using V = basic_vector<T, 3>; ld const loose = 4e-5L, tight = 64 * ulp<T>;
        { // axis and angle
            V axis = direction<T>(c).normalized(); T t = angle<T>(c); ld a[3] = { axis[0], axis[1], axis[2] }; c.note("axis ", str(axis), " angle ", t);
            ld n = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); for (auto& x : a) x /= n;
            auto r = linear(rotation_matrix(axis, t)); same(c, "axis rotation", r, axisAngle(a, t), loose); orthonormal(c, "axis rotation", r, 2 * loose);
            T eps = std::is_same_v<T, float> ? T(1e-4) : T(1e-9); r = linear(rotation_matrix(axis, t, eps)); same(c, "axis rotation", r, axisAngle(a, t), 2 * eps);
        }
        { // one direction onto another
            V a = direction<T>(c), b = direction<T>(c); switch (s.below(5)) { case 0: b = a * static_cast<T>(1 + s.below(5)); break; case 1: b = a * -static_cast<T>(1 + s.below(5)); break; case 2: b = a * T(s.coin() ? 3 : -3) + direction<T>(c).normalized() * T(s.coin() ? 0.01 : 0.0001); break; default:; }
            c.note("from ", str(a), " to ", str(b)); auto m = rotation_matrix(a, b); ld apart = a.normalized().cross(b.normalized()).magnitude(), tol = 1e-4L + 16 * ulp<T> / std::max(apart, 1e-5L); orthonormal(c, "rotation between vectors", linear(m), tol); auto r = m * a.normalized(); auto e = b.normalized();
            for (int i = 0; i < 3; ++i) REQUIRE(std::fabs(ld(r[i]) - e[i]) <= tol, "the rotation from ", str(a), " to ", str(b), " takes the first to ", str(r));
        }
        { // angles about the axes
            V e{ angle<T>(c), angle<T>(c), angle<T>(c) }; if (s.chance(1, 4)) e[0] = e[1] = T(0); if (s.chance(1, 6)) e[s.below(3)] = T(0); ld a[3] = { e[0], e[1], e[2] }; c.note("angles ", str(e));
            auto r = rotation_matrix(e); auto f = affine_rotation_matrix(e); same(c, "rotation by angles", linear(r), euler(a), tight); same(c, "affine rotation", linear(f), euler(a), tight); orthonormal(c, "rotation by angles", linear(r), 4 * tight);
            for (int i = 0; i < 3; ++i) REQUIRE(f[3][i] == 0 && f[i][3] == 0, "affine parts"); REQUIRE(f[3][3] == 1, "affine corner");
            auto q = euler_to_quat(e); R3 qm{ { { 1 - 2 * (ld(q.y) * q.y + ld(q.z) * q.z), 2 * (ld(q.x) * q.y - ld(q.w) * q.z), 2 * (ld(q.x) * q.z + ld(q.w) * q.y) }, { 2 * (ld(q.x) * q.y + ld(q.w) * q.z), 1 - 2 * (ld(q.x) * q.x + ld(q.z) * q.z), 2 * (ld(q.y) * q.z - ld(q.w) * q.x) }, { 2 * (ld(q.x) * q.z - ld(q.w) * q.y), 2 * (ld(q.y) * q.z + ld(q.w) * q.x), 1 - 2 * (ld(q.x) * q.x + ld(q.y) * q.y) } } };
            same(c, "quaternion", qm, euler(a), tight);
        }
        T t = angle<T>(c); REQUIRE(near(to_deg(t), ld(t) * 180 / PI, std::fabs(ld(t)) * 60) && near(to_rad(to_deg(t)), t, std::fabs(ld(t))), "degrees");
        c.nontrivial(true);
    }
    template <typename T> void affine(Case& c)
    {
        auto& s = c.s; using V = basic_vector<T, 3>; ld const tight = 256 * ulp<T>;
        auto range = [&](auto f) { V a = f(), b = f(); return s.chance(1, 8) ? basic_vector3_range<T>{ a } : basic_vector3_range<T>{ a, b }; };
        auto tr = range([&] { return vec<V>(c); }), sc = range([&] { V v{ T(1), T(1), T(1) }; if (s.coin()) for (auto& e : v) e = static_cast<T>(s.range(-40, 40)) / T(8); return v; }), ro = range([&] { return V{ angle<T>(c), angle<T>(c), angle<T>(c) }; });
        if (s.chance(1, 4)) { ro.end = ro.start; ro.end[s.below(3)] += static_cast<T>(s.range(-60, 60)) / T(1000); }
        auto at = [&] { return s.chance(1, 3) ? static_cast<T>(s.below(2)) : static_cast<T>(s.below(257)) / T(256); };
        V tt{ at(), at(), at() }, ts{ at(), at(), at() }, tx{ at(), at(), at() }; T u = at(); bool uniform = s.coin(); if (uniform) { tx = V{ u, u, u }; if (s.coin()) tt = ts = tx; }
        c.note("translation ", str(tr.start), str(tr.end), " scaling ", str(sc.start), str(sc.end), " rotation ", str(ro.start), str(ro.end), " at ", str(tt), str(ts), str(tx));
        bool all = uniform && tt == tx && ts == tx; auto m = all && s.coin() ? affine_transformation_lerp(tr, sc, ro, u) : affine_transformation_lerp(tr, sc, ro, tt, ts, tx);
        auto gen = affine_transformation_lerp_generator(tr, sc, ro); REQUIRE(gen(tt, ts, tx) == m, "the generator differs"); if (all) REQUIRE(gen(u) == m, "the generator differs at ", u);
        for (int i = 0; i < 3; ++i) { REQUIRE(m[i][3] == 0, "last row"); REQUIRE(near(m[3][i], ld(tr.start[i]) + (ld(tr.end[i]) - tr.start[i]) * tt[i], std::fabs(tr.start[i]) + std::fabs(tr.end[i])), "translation ", i, " is ", m[3][i]); } REQUIRE(m[3][3] == 1, "corner");
        // reference rotation
        ld a[3], b[3], e[3]; for (int i = 0; i < 3; ++i) { a[i] = ro.start[i]; b[i] = ro.end[i]; e[i] = a[i] + std::remainder(b[i] - a[i], 2 * PI) * tx[i]; }
        R3 A = euler(a), B = euler(b), R = euler(e); ld tol = tight, magnitude = 0; for (int i = 0; i < 3; ++i) magnitude = std::max(magnitude, std::fabs(ld(sc.start[i])) + std::fabs(ld(sc.end[i])));
        bool judge = true;
        if (uniform || (tx[0] == tx[1] && tx[1] == tx[2]))
        {
            ld t = tx[0]; R3 D = mul(B, transposed(A)); ld w = angleOf(D);
            if (t == 0) R = A; else if (t == 1) R = B;
            else if (w > PI - 1e-3L) judge = false; // either way round is a shortest one
            else
            {
                ld x[3] = { D.m[2][1] - D.m[1][2], D.m[0][2] - D.m[2][0], D.m[1][0] - D.m[0][1] }; ld n = std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]);
                if (n < 1e-12L) R = A; else { for (auto& k : x) k /= n; R = mul(axisAngle(x, w * t), A); }
                tol += std::is_same_v<T, float> ? 2e-3L : 2e-5L; // straight interpolation is allowed over small angles
            }
        }
        else for (int i = 0; i < 3; ++i) if (std::fabs(std::fabs(std::remainder(b[i] - a[i], 2 * PI)) - PI) < 1e-4L && tx[i] != 0) judge = false; // either way round
        R3 L = linear(m); bool regular = true; for (int j = 0; j < 3; ++j) { ld k = ld(sc.start[j]) + (ld(sc.end[j]) - sc.start[j]) * ts[j]; if (std::fabs(k) < 1e-2L) regular = false; else for (int i = 0; i < 3; ++i) L.m[i][j] /= k; }
        if (regular) { ld t2 = (tol + tight * magnitude) * 100 ; orthonormal(c, "interpolated rotation", L, 100 * tight * (1 + magnitude)); if (judge) same(c, "interpolated rotation", L, R, std::min(t2, tol + 100 * tight * (1 + magnitude))); }
        c.nontrivial(regular && judge);
    }
    template <typename T, std::uint32_t N> void boxes(Case& c)
    {
        auto& s = c.s; using V = basic_vector<T, N>; std::vector<V> pts; small_vector<V, 2> sp; for (std::size_t n = 1 + s.len(6); n--;) { pts.push_back(s.chance(1, 3) ? V{} : vec<V>(c)); if (s.chance(1, 4)) for (auto& e : pts.back()) e = static_cast<T>(s.range(-2, 2)); sp.push_back(pts.back()); }
        auto make = [&](auto const& p) { if constexpr (N == 3) return to_aabb(p); else return to_aabb_2d(p); };
        using B = decltype(make(pts)); c.note(pts.size(), " points, first ", str(pts[0]));
        auto box = [&](std::vector<V> const& p) { B b{ p[0], p[0] }; for (auto const& v : p) for (std::uint32_t i = 0; i < N; ++i) { b.min[i] = std::min(b.min[i], v[i]); b.max[i] = std::max(b.max[i], v[i]); } return b; };
        B b = make(pts), e = box(pts); REQUIRE(b == e && make(sp) == e, "box ", str(b.min), str(b.max)); REQUIRE(make(std::vector<V>{}) == B{}, "box of nothing");
        if constexpr (N == 3) { auto flat = to_aabb_2d(pts); REQUIRE(flat.min[0] == e.min[0] && flat.min[1] == e.min[1] && flat.max[0] == e.max[0] && flat.max[1] == e.max[1] && to_aabb_2d(sp) == flat, "flat box"); }
        std::vector<V> other; for (std::size_t n = 1 + s.len(3); n--;) other.push_back(s.coin() ? pts[s.below(pts.size())] : vec<V>(c)); B o = box(other); V p = s.coin() ? pts[s.below(pts.size())] : vec<V>(c); if (s.coin()) { auto i = s.below(N); p[i] = (s.coin() ? b.min : b.max)[i]; }
        bool in = true, within = true, meet = true; ld vol = 1; for (std::uint32_t i = 0; i < N; ++i) { in = in && p[i] >= b.min[i] && p[i] <= b.max[i]; within = within && o.min[i] >= b.min[i] && o.max[i] <= b.max[i]; meet = meet && o.min[i] <= b.max[i] && o.max[i] >= b.min[i]; ld x = ld(b.max[i]) - b.min[i]; vol *= i == 2 && x == 0 ? 1 : x; }
        REQUIRE(aabb_contains(b, p) == in, "the box ", str(b.min), str(b.max), (in ? " misses " : " claims "), str(p)); REQUIRE(aabb_contains(b, o) == within && aabb_contains(b, b), "the box ", str(b.min), str(b.max), " and the box ", str(o.min), str(o.max), ": contains"); REQUIRE(aabb_intersects(b, o) == meet && aabb_intersects(o, b) == meet, "the boxes ", str(b.min), str(b.max), " and ", str(o.min), str(o.max), " meet: ", meet);
        optional<B> ob{ b }, no; std::optional<B> so{ o }, sn; REQUIRE(aabb_intersects(ob, o) == meet && aabb_intersects(ob, so) == meet && aabb_intersects(b, so) == meet && !aabb_intersects(no, o) && !aabb_intersects(ob, sn) && !aabb_intersects(b, sn), "optional boxes");
        REQUIRE(near(aabb_volume(b), vol, vol, 16), "volume ", aabb_volume(b)); auto un = aabb_union(b, o); auto joined = pts; joined.insert(joined.end(), other.begin(), other.end()); REQUIRE(un == box(joined) && aabb_contains(un, b) && aabb_contains(un, o), "union");
        auto ext = aabb_extents(b), mid = aabb_origin(b); for (std::uint32_t i = 0; i < N; ++i) { REQUIRE(ext[i] == b.max[i] - b.min[i], "extents"); REQUIRE(near(mid[i], (ld(b.max[i]) + b.min[i]) / 2, std::fabs(b.max[i]) + std::fabs(b.min[i])), "origin"); }
        REQUIRE((b < b) == false && !((b < o) && (o < b)) && ((b == o) || (b < o) || (o < b)), "box order");
        T size = std::fabs(number<T>(c)); V sizes = vec<V>(c).max(V{}); auto around = [&](auto const& z) { if constexpr (N == 3) return to_aabb(p, z); else return to_aabb_2d(p, z); };
        B c1 = around(size), c2 = around(sizes); for (std::uint32_t i = 0; i < N; ++i) REQUIRE(c1.min[i] == p[i] - size / 2 && c1.max[i] == p[i] + size / 2 && c2.min[i] == p[i] - sizes[i] / 2 && c2.max[i] == p[i] + sizes[i] / 2, "box around a point");
        // transformed: the box of the corners, holding every point
        using Mx = M<T, N + 1, N + 1>; auto affineMat = [&] { auto m = mat<Mx>(c); for (std::uint32_t i = 0; i <= N; ++i) m[i][N] = (i == N); return m; }; Mx t = affineMat(), t2 = affineMat();
        auto apply = [&](std::vector<Mx> const& ms, V const& v, ld* scale) { std::vector<ld> x(N + 1), mag(N + 1); for (std::uint32_t i = 0; i <= N; ++i) { x[i] = i == N ? 1 : v[i]; mag[i] = std::fabs(x[i]); } for (auto k = ms.rbegin(); k != ms.rend(); ++k) { std::vector<ld> y(N + 1), ym(N + 1); for (std::uint32_t i = 0; i <= N; ++i) for (std::uint32_t j = 0; j <= N; ++j) { y[i] += (*k)[j][i] * x[j]; ym[i] += std::fabs((*k)[j][i]) * mag[j]; } x = y; mag = ym; } for (std::uint32_t i = 0; i < N; ++i) *scale = std::max(*scale, mag[i]); return x; };
        auto corners = [&](B const& from, std::vector<Mx> const& ms, B const& got, char const* what) { ld scale = 0; std::vector<ld> lo(N, INFINITY), hi(N, -INFINITY); for (int k = 0; k < (1 << N); ++k) { V v; for (std::uint32_t i = 0; i < N; ++i) v[i] = (k >> i) & 1 ? from.max[i] : from.min[i]; auto x = apply(ms, v, &scale); for (std::uint32_t i = 0; i < N; ++i) { lo[i] = std::min(lo[i], x[i]); hi[i] = std::max(hi[i], x[i]); } } for (std::uint32_t i = 0; i < N; ++i) REQUIRE(near(got.min[i], lo[i], scale, 32) && near(got.max[i], hi[i], scale, 32), what, " axis ", i, " from ", got.min[i], " to ", got.max[i], ", not from ", static_cast<double>(lo[i]), " to ", static_cast<double>(hi[i])); };
        corners(b, { t }, aabb_transform(b, t), "transformed box"); corners(b, { t, t2 }, aabb_transform(b, t, t2), "box transformed twice"); if constexpr (N == 3) { corners(b, { t }, to_aabb(pts, t), "box of transformed points"); corners(b, { t }, to_aabb(sp, t), "box of transformed points"); } else { corners(b, { t }, to_aabb_2d(pts, t), "box of transformed points"); corners(b, { t }, to_aabb_2d(sp, t), "box of transformed points"); }
        c.nontrivial(!in || !within);
    }
    template <typename T> void curves(Case& c)
    {
        auto& s = c.s; using V = basic_vector<T, 2>; V p[4]; for (auto& q : p) q = vec<V>(c); T t = static_cast<T>(s.range(0, 64)) / T(64); c.note(str(p[0]), str(p[1]), str(p[2]), str(p[3]), " at ", t);
        auto ref = [&](ld x, int i) { ld y = 1 - x; return y * y * y * p[0][i] + 3 * y * y * x * p[1][i] + 3 * y * x * x * p[2][i] + x * x * x * p[3][i]; };
        auto check = [&](char const* what, V const& got, ld x) { for (int i = 0; i < 2; ++i) { ld m = 0; for (auto& q : p) m += std::fabs(q[i]); ld k = 1 + std::fabs(x); REQUIRE(near(got[i], ref(x, i), m * 4 * k * k * k, 16), what, " ", i, " is ", got[i], ", not ", static_cast<double>(ref(x, i))); } };
        check("curve", bezier_cubic(p[0], p[1], p[2], p[3], t), t); REQUIRE(bezier_cubic(p[0], p[1], p[2], p[3], T(0)) == p[0] && bezier_cubic(p[0], p[1], p[2], p[3], T(1)) == p[3], "ends");
        p[0] = V{ T(s.range(-50, 50)), T(s.range(-50, 50)) }; p[3] = p[0] + V{ static_cast<T>(1 << s.below(5)), -static_cast<T>(1 << s.below(5)) };
        check("curve by x", bezier_cubic_x(p[0], p[1], p[2], p[3], p[0].x + (p[3].x - p[0].x) * t), t); check("curve by y", bezier_cubic_y(p[0], p[1], p[2], p[3], p[0].y + (p[3].y - p[0].y) * t), t);
        std::array<V, 4> q; V corner = vec<V>(c); T w = static_cast<T>(s.range(0, 99)), h = static_cast<T>(s.range(0, 99)); q[0] = corner; q[1] = corner + V{ w, T(0) }; q[2] = corner + V{ w, h }; q[3] = corner + V{ T(0), h }; auto ex = quad_extents(q); ld sc = 1 + std::fabs(corner[0]) + std::fabs(corner[1]) + w + h; REQUIRE(near(ex[0], w, sc) && near(ex[1], h, sc), "extents ", str(ex));
        T l4[4], r4[4], m4[4], f4[4]; Sum sum; for (int i = 0; i < 4; ++i) { l4[i] = number<T>(c); r4[i] = number<T>(c); sum.add(l4[i], r4[i]); }
        REQUIRE(near(simd_fma_4d(l4[0], r4[0], l4[1], r4[1], l4[2], r4[2], l4[3], r4[3]), sum.v, sum.m) && near(fake_simd_fma_4d(l4[0], r4[0], l4[1], r4[1], l4[2], r4[2], l4[3], r4[3]), sum.v, sum.m), "sum of four products");
        simd_mul_4d(l4[0], r4[0], l4[1], r4[1], l4[2], r4[2], l4[3], r4[3], m4[0], m4[1], m4[2], m4[3]); fake_simd_mul_4d(l4[0], r4[0], l4[1], r4[1], l4[2], r4[2], l4[3], r4[3], f4[0], f4[1], f4[2], f4[3]); for (int i = 0; i < 4; ++i) REQUIRE(m4[i] == l4[i] * r4[i] && f4[i] == m4[i], "product ", i, " of four is ", m4[i], " or ", f4[i]);
        T a = number<T>(c), e = static_cast<T>(1 + s.below(100)) / T(1000), d = static_cast<T>(s.range(-300, 300)) / T(1000); T b = a + d; bool close = std::fabs(a - b) < e; REQUIRE(nearly_equal(a, b, e) == close, "nearly_equal ", a, " ", b, " within ", e);
        basic_vector<T, 3> va{ a, a, a }, vb = va; auto i = s.below(3); vb[i] = b; REQUIRE(nearly_equal(va, vb, e) == close && nearly_equal(std::make_pair(a, a), std::make_pair(a, b), e) == close && nearly_equal(std::vector<T>{ a, a }, std::vector<T>{ b, a }, e) == close && !nearly_equal(std::vector<T>{ a, a }, std::vector<T>{ a }, e) && nearly_equal(optional<T>{ a }, optional<T>{ b }, e) == close && !nearly_equal(optional<T>{ a }, optional<T>{}, e) && nearly_equal(std::optional<T>{}, std::optional<T>{}, e), "nearly_equal of collections");
        c.nontrivial(true);
    }
}
PBT_SUITE("rotations", 6000*4, 250000*4) { if (c.s.coin()) rotations<double>(c); else rotations<float>(c); }
PBT_SUITE("affine", 6000*4, 250000*4) { if (c.s.coin()) affine<double>(c); else affine<float>(c); }
PBT_SUITE("boxes", 6000*4, 200000*4) { switch (c.s.below(4)) { case 0: boxes<double, 3>(c); break; case 1: boxes<float, 3>(c); break; case 2: boxes<double, 2>(c); break; default: boxes<float, 2>(c); } }
PBT_SUITE("curves", 4000*4, 100000*4) { if (c.s.coin()) curves<double>(c); else curves<float>(c); }
#endif
