// C22: vectors and matrices - every operation equals its definition, on every size, orientation, element type and SIMD path.
#include "vf.hpp"
#include <cmath>
#include <cstring>
#include <neolib/neolib.hpp>
#include <neolib/core/numerical.hpp>
#include <neolib/core/simd.hpp>
#include <sstream>
#include <map>

using namespace neolib::math;
namespace
{
    using ld = long double;
    std::string fmt(ld v) { char b[40]; std::snprintf(b, sizeof b, "%.9Lg", v); return b; }
    template <typename V> std::string showv(V const& v) { std::string s = "["; for (auto const& e : v) s += fmt(ld(e)) + " "; return s + "]"; }
    template <typename T> bool close(ld got, ld want, ld scale)
    {
        if constexpr (std::is_integral_v<T>) return got == want;
        else return got == want || std::abs(got - want) <= (std::is_same_v<T, float> ? 1e-5L : 1e-13L) * (scale + std::abs(want)) ;
    }
    template <typename T> T number(vf::rng& r, int mode)
    {
        if constexpr (std::is_integral_v<T>) return std::is_signed_v<T> ? T(int(r.below(2001)) - 1000) : T(r.below(2000));
        else switch (mode)
        {
        case 0: return T(int(r.below(201)) - 100);
        case 1: return T(int(r.below(5)) - 2);
        case 2: return T((int(r.below(2000001)) - 1000000) / 1024.0);
        default: { T v = T((double(r.below(1u << 30)) + 1) / (1u << 30) * (r.chance(1, 2) ? 1 : -1)); return r.chance(1, 3) ? v * T(1000000) : r.chance(1, 3) ? v / T(1000000) : v; }
        }
    }
    template <typename T, std::uint32_t D, typename O> basic_vector<T, D, O> vec(vf::rng& r, int mode) { basic_vector<T, D, O> v; for (std::uint32_t i = 0; i < D; ++i) v[i] = number<T>(r, mode); return v; }
    template <typename T> T nz(vf::rng& r, int mode) { for (;;) { T v = number<T>(r, mode); if (v != T{}) return v; } }

    template <typename T, std::uint32_t D, typename O> void vectors(vf::rng& r, int mode)
    {
        using V = basic_vector<T, D, O>; auto a = vec<T, D, O>(r, mode), b = vec<T, D, O>(r, mode); T s = nz<T>(r, mode);
        for (std::uint32_t i = 0; i < D; ++i) if (r.chance(1, 3)) b[i] = a[i];
        auto ctx = vf::cat(typeid(T).name(), D, std::is_same_v<O, row_vector> ? "r " : "c ", showv(a), showv(b), fmt(ld(s)));
        auto want = [&](char const* what, V const& got, auto&& f) { for (std::uint32_t i = 0; i < D; ++i) { T w = f(i); if (!(got[i] == w) || std::memcmp(&got.v[i], &w, sizeof w)) if (mode <= 1 && std::is_floating_point_v<T> && ld(w) * 64 == std::floor(ld(w) * 64) ? !(got[i] == w) : !close<T>(got[i], w, 0)) vf::fail(vf::cat("vector:", what), vf::cat("[", i, "] ", fmt(got[i]), " want ", fmt(w), " ", ctx)); } vf::count("components", D); };
        auto same = [&](char const* what, ld got, ld w, ld scale) { if (!close<T>(got, w, scale)) vf::fail(vf::cat("vector:", what), vf::cat(fmt(got), " want ", fmt(w), " ", ctx)); };
        auto upd = [&](V v, auto&& f) { auto& ref = f(v); if (&ref != &v) vf::fail("vector:returns-self", ctx); return v; };
        want("add", a + b, [&](auto i) { return T(a[i] + b[i]); }); want("subtract", a - b, [&](auto i) { return T(a[i] - b[i]); });
        want("add-assign", upd(a, [&](V& v) -> V& { return v += b; }), [&](auto i) { return T(a[i] + b[i]); }); want("subtract-assign", upd(a, [&](V& v) -> V& { return v -= b; }), [&](auto i) { return T(a[i] - b[i]); });
        want("multiply-assign", upd(a, [&](V& v) -> V& { return v *= b; }), [&](auto i) { return T(a[i] * b[i]); });
        want("scalar-add-assign", upd(a, [&](V& v) -> V& { return v += s; }), [&](auto i) { return T(a[i] + s); }); want("scalar-subtract-assign", upd(a, [&](V& v) -> V& { return v -= s; }), [&](auto i) { return T(a[i] - s); });
        want("scalar-multiply-assign", upd(a, [&](V& v) -> V& { return v *= s; }), [&](auto i) { return T(a[i] * s); }); want("scalar-divide-assign", upd(a, [&](V& v) -> V& { return v /= s; }), [&](auto i) { return T(a[i] / s); });
        want("add-scalar", a + s, [&](auto i) { return T(a[i] + s); }); want("scalar-add", s + a, [&](auto i) { return T(s + a[i]); });
        want("subtract-scalar", a - s, [&](auto i) { return T(a[i] - s); }); want("scalar-subtract", s - a, [&](auto i) { return T(s - a[i]); });
        want("multiply-scalar", a * s, [&](auto i) { return T(a[i] * s); }); want("scalar-multiply", s * a, [&](auto i) { return T(s * a[i]); });
        want("divide-scalar", a / s, [&](auto i) { return T(a[i] / s); });
        { V c = a; for (std::uint32_t i = 0; i < D; ++i) if (c[i] == T{}) c[i] = T(1); want("divide-assign", upd(b, [&](V& v) -> V& { return v /= c; }), [&](auto i) { return T(b[i] / c[i]); });
          if constexpr (D != 3) want("scalar-divide", s / c, [&](auto i) { return T(s / c[i]); }); }
        want("negate", -a, [&](auto i) { return T(-a[i]); }); want("scale", a.scale(b), [&](auto i) { return T(a[i] * b[i]); }); want("hadamard", a.hadamard_product(b), [&](auto i) { return T(a[i] * b[i]); });
        want("min", a.min(b), [&](auto i) { return std::min<T>(a[i], b[i]); }); want("max", a.max(b), [&](auto i) { return std::max<T>(a[i], b[i]); });
        { T m = a[0]; for (auto e : a) m = std::min(m, T(e)); same("min-component", a.min(), m, 0); }
        { ld d = 0, sc = 0; for (std::uint32_t i = 0; i < D; ++i) { d += ld(a[i]) * ld(b[i]); sc += std::abs(ld(a[i]) * ld(b[i])); } if constexpr (std::is_integral_v<T>) same("dot", a.dot(b), T(d), 0); else same("dot", a.dot(b), d, sc);
          if constexpr (std::is_same_v<O, row_vector>) { basic_vector<T, D, column_vector> c; for (std::uint32_t i = 0; i < D; ++i) c[i] = b[i]; if constexpr (std::is_integral_v<T>) same("row-times-column", a * c, T(d), 0); else same("row-times-column", a * c, d, sc); } }
        if constexpr (std::is_floating_point_v<T>)
        {
            ld ss = 0, dd = 0; for (std::uint32_t i = 0; i < D; ++i) { ss += ld(a[i]) * a[i]; dd += (ld(a[i]) - b[i]) * (ld(a[i]) - b[i]); }
            same("magnitude", a.magnitude(), std::sqrt(ss), 0); same("distance", a.distance(b), std::sqrt(dd), std::sqrt(ss) * (std::is_same_v<T, float> ? 1 : 10));
            if (ss != 0) { auto n = a.normalized(); for (std::uint32_t i = 0; i < D; ++i) same("normalized", n[i], ld(a[i]) / std::sqrt(ss), 1); same("normalized-length", n.magnitude(), 1, 1); }
            want("ceil", a.ceil(), [&](auto i) { return std::ceil(a[i]); }); want("floor", a.floor(), [&](auto i) { return std::floor(a[i]); }); want("round", a.round(), [&](auto i) { return std::round(a[i]); });
            { V h = a / T(4); want("ceil", h.ceil(), [&](auto i) { return std::ceil(h[i]); }); want("floor", h.floor(), [&](auto i) { return std::floor(h[i]); }); want("round", h.round(), [&](auto i) { return std::round(h[i]); }); }
            want("modulo", a % s, [&](auto i) { return std::fmod(a[i], s); });
            T t = T(int(r.below(9)) - 2) / T(4); auto l = neolib::math::lerp(a, b, t); for (std::uint32_t i = 0; i < D; ++i) { same("lerp", l[i], ld(a[i]) + (ld(b[i]) - a[i]) * t, std::abs(ld(a[i])) + std::abs(ld(b[i]))); same("lerp-scalar", neolib::math::lerp(T(a[i]), T(b[i]), t), ld(a[i]) + (ld(b[i]) - a[i]) * t, std::abs(ld(a[i])) + std::abs(ld(b[i]))); }
            if constexpr (D == 3) { auto m = midpoint(a, b); for (std::uint32_t i = 0; i < 3; ++i) same("midpoint", m[i], (ld(a[i]) + b[i]) / 2, std::abs(ld(a[i])) + std::abs(ld(b[i]))); }
        }
        if constexpr (D == 3) { auto c = a.cross(b); for (std::uint32_t i = 0; i < 3; ++i) { auto j = (i + 1) % 3, k = (i + 2) % 3; ld p = ld(a[j]) * b[k], q = ld(a[k]) * b[j]; if constexpr (std::is_integral_v<T>) same("cross", c[i], T(a[j] * b[k] - a[k] * b[j]), 0); else same("cross", c[i], p - q, std::abs(p) + std::abs(q)); } }
        bool eq = true; int cmp = 0; for (std::uint32_t i = 0; i < D; ++i) { if (a[i] != b[i]) { eq = false; if (!cmp) cmp = a[i] < b[i] ? -1 : 1; } }
        if ((a == b) != eq || (a != b) == eq || !(a == V{ a }) || (a < b) != (cmp < 0)) vf::fail("vector:comparison", ctx);
        if ((a <= b) != (cmp <= 0) || (a > b) != (cmp > 0) || (a >= b) != (cmp >= 0)) vf::fail("vector:ordering", ctx);
        V x = a, y = b; { using std::swap; swap(x, y); } if (!(x == b) || !(y == a)) vf::fail("vector:swap", ctx); x = a; if (!(x == a)) vf::fail("vector:assign", ctx); V z{ std::move(x) }; if (!(z == a)) vf::fail("vector:move", ctx);
        if (V::size() != D || std::size_t(a.end() - a.begin()) != D) vf::fail("vector:size", ctx);
        typename V::array_type const& arr = a; for (std::uint32_t i = 0; i < D; ++i) if (arr[i] != a[i] || !(V{ arr } == a)) vf::fail("vector:array", ctx);
        V zero; for (auto e : zero) if (e != T{}) vf::fail("vector:default-zero", ctx);
        std::array<V, 3> pack{ a, b, vec<T, D, O>(r, mode) }; auto p1 = pack + a, p2 = a + pack, p3 = pack - a, p4 = a - pack; auto p5 = pack, p6 = pack; p5 += a; p6 -= a;
        for (int k = 0; k < 3; ++k) { want("array-add", p1[k], [&](auto i) { return T(pack[k][i] + a[i]); }); want("array-add", p2[k], [&](auto i) { return T(pack[k][i] + a[i]); }); want("array-subtract", p3[k], [&](auto i) { return T(pack[k][i] - a[i]); });
            want("array-subtract-left", p4[k], [&](auto i) { return T(a[i] - pack[k][i]); }); want("array-add-assign", p5[k], [&](auto i) { return T(pack[k][i] + a[i]); }); want("array-subtract-assign", p6[k], [&](auto i) { return T(pack[k][i] - a[i]); }); }
        auto as = a.template as<double>(); for (std::uint32_t i = 0; i < D; ++i) if (as[i] != double(a[i])) vf::fail("vector:as", ctx);
        if constexpr (D == 3) { basic_vector<T, 2, O> n{ a }; if (n[0] != a[0] || n[1] != a[1]) vf::fail("vector:narrow", ctx); basic_vector<T, 3, O> w{ n }; if (w[0] != a[0] || w[1] != a[1] || w[2] != T{}) vf::fail("vector:widen", ctx); }
        std::ostringstream os; os.precision(20); os << a; std::istringstream is(os.str()); V back; is >> back; if (is.fail() || !(back == a)) vf::fail("vector:stream-round-trip", vf::cat(os.str(), " read back ", showv(back)));
    }
    void initialisers(vf::rng& r)
    {
        auto n = r.below(6); std::initializer_list<double> lists[6] = { {}, { 1 }, { 1, 2 }, { 1, 2, 3 }, { 1, 2, 3, 4 }, { 1, 2, 3, 4, 5 } }; auto il = lists[n];
        auto t = [&](auto z) { using V = decltype(z); bool thrown = false; try { V v(il); for (std::uint32_t i = 0; i < V::Size; ++i) if (v[i] != (i < n ? i + 1.0 : 0.0)) vf::fail("vector:initializer-list", vf::cat(V::Size, " from ", n)); V w; for (auto& e : w) e = 9; w = il; if (!(w == v)) vf::fail("vector:assign-initializer-list", vf::cat(V::Size, " from ", n)); } catch (std::out_of_range const&) { thrown = true; }
            if (thrown != (n > V::Size)) vf::fail("vector:initializer-list-too-big", vf::cat(V::Size, " from ", n)); };
        t(vec1{}); t(vec2{}); t(vec3{}); t(vec4{}); t(basic_vector<double, 5>{}); t(row_vec3{});
        auto m = r.below(5); std::initializer_list<std::initializer_list<double>> cols[5] = { {}, { { 1, 2 } }, { { 1, 2 }, { 3, 4 } }, { { 1, 2 }, { 3, 4 }, { 5, 6 } }, { { 1, 2 }, { 3, 4 }, { 5, 6 }, { 7, 8 } } }; bool thrown = false;
        try { mat22 q(cols[m]); for (std::uint32_t c = 0; c < 2; ++c) for (std::uint32_t w = 0; w < 2; ++w) if (q[c][w] != (c < m ? 2 * c + w + 1.0 : 0.0)) vf::fail("matrix:initializer-list", vf::cat(m)); } catch (std::out_of_range const&) { thrown = true; } if (thrown != (m > 2)) vf::fail("matrix:initializer-list-too-big", vf::cat(m));
    }
    void swizzles(vf::rng& r)
    {
        auto a = vec<double, 3, column_vector>(r, 0); auto b = vec<double, 3, column_vector>(r, 0); auto four = vec<double, 4, column_vector>(r, 0); auto two = vec<double, 2, column_vector>(r, 0); auto one = vec<double, 1, column_vector>(r, 0);
#define X1(n) (#n[0] - 'x')
#define X2(n) (#n[1] - 'x')
#define X3(n) (#n[2] - 'x')
#define RD2(o, n) { vec2 g = o.n; vec2 h = ~o.n; if (g[0] != o[X1(n)] || g[1] != o[X2(n)] || !(g == h)) vf::fail("swizzle:read-" #n, vf::cat(o.size(), showv(o), showv(g))); vf::count("swizzle-reads"); }
#define RD3(o, n) { vec3 g = o.n; vec3 h = ~o.n; if (g[0] != o[X1(n)] || g[1] != o[X2(n)] || g[2] != o[X3(n)] || !(g == h)) vf::fail("swizzle:read-" #n, vf::cat(o.size(), showv(o), showv(g))); vf::count("swizzle-reads"); }
#define WR2(o, n) { auto m = o; vec2 s{ b[0], b[1] }; m.n = s; auto w = o; w[X1(n)] = s[0]; w[X2(n)] = s[1]; if (!(m == w)) vf::fail("swizzle:write-" #n, vf::cat(showv(m), " want ", showv(w))); m = o; m.n = 77.0; w = o; w[X1(n)] = 77; w[X2(n)] = 77; if (!(m == w)) vf::fail("swizzle:fill-" #n, vf::cat(showv(m), " want ", showv(w))); }
#define WR3(o, n) { auto m = o; m.n = b; auto w = o; w[X1(n)] = b[0]; w[X2(n)] = b[1]; w[X3(n)] = b[2]; if (!(m == w)) vf::fail("swizzle:write-" #n, vf::cat(showv(m), " want ", showv(w))); m = o; m.n = 77.0; w = o; w[X1(n)] = w[X2(n)] = w[X3(n)] = 77; if (!(m == w)) vf::fail("swizzle:fill-" #n, vf::cat(showv(m), " want ", showv(w))); }
#define ALL2(o) RD2(o, xx) RD2(o, xy) RD2(o, xz) RD2(o, yx) RD2(o, yy) RD2(o, yz) RD2(o, zx) RD2(o, zy) RD2(o, zz) WR2(o, xy) WR2(o, xz) WR2(o, yx) WR2(o, yz) WR2(o, zx) WR2(o, zy)
#define ALL3(o) RD3(o, xxx) RD3(o, xxy) RD3(o, xxz) RD3(o, xyx) RD3(o, xyy) RD3(o, xyz) RD3(o, yxx) RD3(o, yxy) RD3(o, yxz) RD3(o, yyx) RD3(o, yyy) RD3(o, yyz) RD3(o, yzx) RD3(o, yzy) RD3(o, yzz) RD3(o, zxx) RD3(o, zxy) RD3(o, zxz) RD3(o, zyx) RD3(o, zyy) RD3(o, zyz) RD3(o, zzx) RD3(o, zzy) RD3(o, zzz) WR3(o, xyz) WR3(o, yxz) WR3(o, yzx) WR3(o, zxy) WR3(o, zyx)
        ALL2(a) ALL3(a) ALL2(four) ALL3(four)
        RD2(two, xx) RD2(two, xy) RD2(two, yx) RD2(two, yy) WR2(two, xy) WR2(two, yx) RD3(two, xxx) RD3(two, xxy) RD3(two, xyx) RD3(two, xyy) RD3(two, yxx) RD3(two, yxy) RD3(two, yyx) RD3(two, yyy) RD2(one, xx) RD3(one, xxx)
        if (a.x != a[0] || a.y != a[1] || a.z != a[2] || two.x != two[0] || two.y != two[1] || one.x != one[0]) vf::fail("swizzle:member", showv(a));
        vec2 ab = a.xy + b.zy; if (ab[0] != a[0] + b[2] || ab[1] != a[1] + b[1]) vf::fail("swizzle:add", ""); ab = a.xz - b.yx; if (ab[0] != a[0] - b[1] || ab[1] != a[2] - b[0]) vf::fail("swizzle:subtract", "");
        if ((a.xy == b.xy) != (a[0] == b[0] && a[1] == b[1]) || (a.xy != b.xy) == (a[0] == b[0] && a[1] == b[1]) || (a.xy < b.xy) != (std::make_pair(a.x, a.y) < std::make_pair(b.x, b.y)) || (a.zy >= b.xy) != (std::make_pair(a.z, a.y) >= std::make_pair(b.x, b.y))) vf::fail("swizzle:compare", vf::cat(showv(a), showv(b)));
        vf::distinct(vf::hash(showv(a) + showv(b) + showv(four)));
    }

    template <typename T, std::uint32_t D> basic_matrix<T, D, D> mat(vf::rng& r, int mode)
    {
        basic_matrix<T, D, D> m; auto k = r.below(8);
        for (std::uint32_t c = 0; c < D; ++c) for (std::uint32_t w = 0; w < D; ++w) m[c][w] = k < 3 ? T(c == w) : number<T>(r, mode);
        if (k == 1) m[r.below(D)][r.below(D)] = number<T>(r, mode); if (k == 2) { m[r.below(D)][r.below(D)] = r.chance(1, 2) ? T(-0.0) : T(1); }
        return m;
    }
    template <typename M, std::uint32_t D> std::string showm(M const& m) { std::string s = "{"; for (std::uint32_t c = 0; c < D; ++c) s += showv(m[c]); return s + "}"; }
    template <typename T, std::uint32_t D> void matrices(vf::rng& r, int mode)
    {
        using M = basic_matrix<T, D, D>; auto a = mat<T, D>(r, mode), b = mat<T, D>(r, mode); auto c = vec<T, D, column_vector>(r, mode); auto w = vec<T, D, row_vector>(r, mode);
        auto ctx = vf::cat(typeid(T).name(), D, " ", showm<M, D>(a), showm<M, D>(b), showv(c), showv(w));
        auto cell = [&](char const* what, ld got, ld want, ld scale) { if (!close<T>(got, want, scale)) vf::fail(vf::cat("matrix:", what), vf::cat(fmt(got), " want ", fmt(want), " ", ctx)); vf::count("components"); };
        auto product = [&](char const* what, M const& p, M const& x, M const& y) { for (std::uint32_t col = 0; col < D; ++col) for (std::uint32_t row = 0; row < D; ++row) { ld s = 0, sc = 0; for (std::uint32_t k = 0; k < D; ++k) { s += ld(x[k][row]) * y[col][k]; sc += std::abs(ld(x[k][row]) * y[col][k]); } cell(what, p[col][row], s, sc); } };
        product("product", a * b, a, b); product("product", b * a, b, a); product("product-self", a * a, a, a); { M p = a; auto& q = (p *= b); if (&q != &p) vf::fail("matrix:returns-self", ctx); product("product-assign", p, a, b); }
        { M p = a; p *= p; product("square-assign", p, a, a); }
        product("product-identity", M::identity() * a, M::identity(), a); product("product-identity", a * M::identity(), a, M::identity());
        auto apply = [&](char const* what, basic_vector<T, D, column_vector> const& got, M const& x, basic_vector<T, D, column_vector> const& v) { for (std::uint32_t row = 0; row < D; ++row) { ld s = 0, sc = 0; for (std::uint32_t k = 0; k < D; ++k) { s += ld(x[k][row]) * v[k]; sc += std::abs(ld(x[k][row]) * v[k]); } cell(what, got[row], s, sc); } };
        auto applyr = [&](char const* what, basic_vector<T, D, row_vector> const& got, basic_vector<T, D, row_vector> const& v, M const& x) { for (std::uint32_t col = 0; col < D; ++col) { ld s = 0, sc = 0; for (std::uint32_t k = 0; k < D; ++k) { s += ld(v[k]) * x[col][k]; sc += std::abs(ld(v[k]) * x[col][k]); } cell(what, got[col], s, sc); } };
        apply("times-column", a * c, a, c); apply("times-column", M::identity() * c, M::identity(), c); applyr("row-times", w * a, w, a); applyr("row-times", w * M::identity(), w, M::identity());
        std::array<basic_vector<T, D, column_vector>, 3> cs{ c, vec<T, D, column_vector>(r, mode), vec<T, D, column_vector>(r, mode) }; auto cr = a * cs; for (int k = 0; k < 3; ++k) apply("times-columns", cr[k], a, cs[k]);
        std::array<basic_vector<T, D, row_vector>, 2> ws{ w, vec<T, D, row_vector>(r, mode) }; auto wr = ws * a; for (int k = 0; k < 2; ++k) applyr("rows-times", wr[k], ws[k], a);
        auto outer = c * w; for (std::uint32_t col = 0; col < D; ++col) for (std::uint32_t row = 0; row < D; ++row) cell("outer-product", outer[col][row], ld(c[row]) * w[col], 0);
        auto sum = a + b, diff = a - b, neg = -a; M sa = a, sb = a; sa += b; sb -= b; auto tr = a.transposed();
        for (std::uint32_t col = 0; col < D; ++col) for (std::uint32_t row = 0; row < D; ++row)
        {
            cell("add", sum[col][row], T(a[col][row] + b[col][row]), 0); cell("add-assign", sa[col][row], T(a[col][row] + b[col][row]), 0); cell("subtract", diff[col][row], T(a[col][row] - b[col][row]), 0); cell("subtract-assign", sb[col][row], T(a[col][row] - b[col][row]), 0); cell("negate", neg[col][row], -a[col][row], 0);
            cell("transpose", tr[row][col], a[col][row], 0); cell("identity", M::identity()[col][row], col == row, 0); if (a.data()[col * D + row] != a[col][row]) vf::fail("matrix:data", ctx);
        }
        bool same = true; for (std::uint32_t col = 0; col < D; ++col) for (std::uint32_t row = 0; row < D; ++row) same = same && a[col][row] == b[col][row];
        if ((a == b) != same || (a != b) == same || !(a == M{ a })) vf::fail("matrix:comparison", ctx);
        bool ident = true; for (std::uint32_t col = 0; col < D; ++col) for (std::uint32_t row = 0; row < D; ++row) ident = ident && a[col][row] == T(col == row) && !(col != row && std::signbit(a[col][row])); if (a.is_identity() != ident) vf::fail("matrix:is-identity", ctx); if (ident) vf::count("identity-operands");
        M x = a, y = b; { using std::swap; swap(x, y); } if (!(x == b) || !(y == a)) vf::fail("matrix:swap", ctx); auto asd = a.template as<double>(); for (std::uint32_t col = 0; col < D; ++col) for (std::uint32_t row = 0; row < D; ++row) if (asd[col][row] != double(a[col][row])) vf::fail("matrix:as", ctx);
        if (a.size() != std::make_pair(D, D)) vf::fail("matrix:size", ctx);
        if constexpr (D > 1) { auto wt = without_translation(a); for (std::uint32_t col = 0; col < D; ++col) for (std::uint32_t row = 0; row < D; ++row) cell("without-translation", wt[col][row], col == D - 1 && row < D - 1 ? T{} : a[col][row], 0); }
        T eps = T(1) / T(1 << r.below(8)); auto ro = a.round_to(eps); for (std::uint32_t col = 0; col < D; ++col) for (std::uint32_t row = 0; row < D; ++row) { ld q = ld(ro[col][row]) / eps; if (std::abs(q) < (1 << 22) && std::nearbyint(q) != q) vf::fail("matrix:round-to-multiple", vf::cat(fmt(a[col][row]), " to ", fmt(eps), " gave ", fmt(ro[col][row]))); if (std::abs(ld(ro[col][row]) - a[col][row]) > ld(eps) / 2 + std::abs(ld(a[col][row])) * (sizeof(T) == 4 ? 1e-6L : 1e-14L)) vf::fail("matrix:round-to-nearest", vf::cat(fmt(a[col][row]), " to ", fmt(eps), " gave ", fmt(ro[col][row]))); }
        std::ostringstream os; os.precision(20); os << a; std::istringstream is(os.str()); basic_vector<T, D * D> flat; is >> flat; for (std::uint32_t col = 0; col < D; ++col) for (std::uint32_t row = 0; row < D; ++row) if (!(flat[row * D + col] == a[col][row])) vf::fail("matrix:stream", os.str());
        vf::distinct(vf::hash(ctx)); vf::sample(ctx);
    }
    template <typename T> void oblong(vf::rng& r, int mode)
    {
        basic_matrix<T, 2, 3> a, b; matrix_array<T, 2, 3> q; for (std::uint32_t c = 0; c < 3; ++c) for (std::uint32_t w = 0; w < 2; ++w) { a[c][w] = number<T>(r, mode); b[c][w] = number<T>(r, mode); q[c][w] = a[c][w]; }
        auto s = a + b; auto d = a - b; auto t = a.transposed(); auto n = -a; auto qt = q.transposed(); auto f = q.apply([](T const& v) { return double(v) * 2 + 1; }); auto qd = q.template as<double>();
        for (std::uint32_t c = 0; c < 3; ++c) for (std::uint32_t w = 0; w < 2; ++w)
            if (s[c][w] != T(a[c][w] + b[c][w]) || d[c][w] != T(a[c][w] - b[c][w]) || t[w][c] != a[c][w] || n[c][w] != -a[c][w] || qt[w][c] != q[c][w] || f[c][w] != double(q[c][w]) * 2 + 1 || qd[c][w] != double(q[c][w]) || q.data()[c * 2 + w] != q[c][w]) vf::fail("matrix:oblong", vf::cat(c, ",", w));
        if (a.size() != std::make_pair(2u, 3u) || q.size() != std::make_pair(2u, 3u)) vf::fail("matrix:oblong-size", ""); auto q2 = q; if (q2 != q || !(q2 == q)) vf::fail("matrix:array-compare", ""); q2[2][1] += T(1); if (q2 == q) vf::fail("matrix:array-compare", ""); { using std::swap; auto q3 = q; swap(q2, q3); if (q2 != q) vf::fail("matrix:array-swap", ""); }
        matrix_array_ex<T, 2, 3> e; if (e.rows != 2 || e.columns != 3) vf::fail("matrix:array-extents", "");
    }
    template <typename T> void simd(vf::rng& r, int mode)
    {
        T v[8]; for (auto& e : v) e = number<T>(r, mode); ld p[4], s = 0, sc = 0; for (int i = 0; i < 4; ++i) { p[i] = ld(v[2 * i]) * v[2 * i + 1]; s += p[i]; sc += std::abs(p[i]); } std::string ctx; for (auto e : v) ctx += fmt(e) + " ";
        auto chk = [&](char const* w, ld g) { if (!close<T>(g, s, sc)) vf::fail(w, vf::cat(fmt(g), " want ", fmt(s), " ", ctx)); };
        chk("simd:fma", neolib::simd_fma_4d(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7])); chk("simd:fma-fallback", neolib::fake_simd_fma_4d(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]));
        T o[4] = {}; neolib::fake_simd_mul_4d(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], o[0], o[1], o[2], o[3]); for (int i = 0; i < 4; ++i) if (!close<T>(o[i], p[i], 0)) vf::fail("simd:mul-fallback", ctx);
        T q[4] = {}; neolib::simd_mul_4d(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], q[0], q[1], q[2], q[3]); for (int i = 0; i < 4; ++i) if (!close<T>(q[i], p[i], 0)) vf::fail("simd:mul", vf::cat(i, " ", fmt(q[i]), " want ", fmt(p[i]), " ", ctx));
        std::uint32_t up = 1 + r.below(1000); neolib::simd_srand(static_cast<std::uint32_t>(r.next())); for (int i = 0; i < 8; ++i) if (neolib::simd_rand(up) > up) vf::fail("simd:rand-range", "");
    }
    template <typename T> void points3(vf::rng& r, int mode)
    {
        auto m = mat<T, 4>(r, mode); auto ctx = showm<decltype(m), 4>(m); std::vector<basic_vector<T, 3>> vs; neolib::small_vector<basic_vector<T, 3>, 4> sv; for (auto n = r.below(7); n-- > 0;) { vs.push_back(vec<T, 3, column_vector>(r, mode)); sv.push_back(vs.back()); }
        auto got = m * vs; auto got2 = m * sv; if (got.size() != vs.size() || got2.size() != vs.size()) vf::fail("matrix:times-points-count", ctx);
        for (std::size_t i = 0; i < vs.size(); ++i) { auto one = m * vs[i]; for (std::uint32_t row = 0; row < 3; ++row) { ld s = m[3][row], sc = std::abs(s); for (std::uint32_t k = 0; k < 3; ++k) { s += ld(m[k][row]) * vs[i][k]; sc += std::abs(ld(m[k][row]) * vs[i][k]); } if (!close<T>(got[i][row], s, sc) || !close<T>(one[row], s, sc) || !close<T>(got2[i][row], s, sc)) vf::fail("matrix:times-point", vf::cat(fmt(got[i][row]), ",", fmt(one[row]), ",", fmt(got2[i][row]), " want ", fmt(s), " ", ctx, showv(vs[i]))); } vf::count("points"); }
    }
    template <typename T, std::uint32_t D> void both(vf::rng& r, int mode) { vectors<T, D, column_vector>(r, mode); vectors<T, D, row_vector>(r, mode); }
}
VF_SCENARIO(vectors, 3)
{
#ifdef USE_AVX_DYNAMIC
    neolib::use_simd() = r.chance(1, 2);
#endif
    int mode = int(r.below(4));
    switch (r.below(12)) { case 0: both<double, 1>(r, mode); break; case 1: both<double, 2>(r, mode); break; case 2: case 3: both<double, 3>(r, mode); break; case 4: both<double, 4>(r, mode); break; case 5: both<double, 5>(r, mode); break;
    case 6: both<float, 2>(r, mode); break; case 7: both<float, 3>(r, mode); break; case 8: both<float, 4>(r, mode); break; case 9: both<std::int32_t, 2>(r, mode); break; case 10: both<std::int32_t, 3>(r, mode); break; case 11: both<std::int32_t, 4>(r, mode); break; }
    vf::distinct(vf::hash(vf::cat(r.next())));
}
VF_SCENARIO(initialisers, 1) { initialisers(r); vf::distinct(vf::hash(vf::cat(idx % 60))); }
VF_SCENARIO(swizzles, 1) { swizzles(r); }
VF_SCENARIO(matrices, 3)
{
#ifdef USE_AVX_DYNAMIC
    neolib::use_simd() = r.chance(1, 2);
#endif
    int mode = int(r.below(4));
    switch (r.below(9)) { case 0: matrices<double, 1>(r, mode); break; case 1: matrices<double, 2>(r, mode); break; case 2: matrices<double, 3>(r, mode); break; case 3: case 4: matrices<double, 4>(r, mode); break; case 5: matrices<double, 5>(r, mode); break; case 6: matrices<float, 2>(r, mode); break; case 7: matrices<float, 3>(r, mode); break; case 8: matrices<float, 4>(r, mode); break; }
    oblong<double>(r, mode); oblong<int>(r, mode); simd<double>(r, mode); simd<float>(r, mode); points3<double>(r, mode); points3<float>(r, mode);
}
VF_MAIN
