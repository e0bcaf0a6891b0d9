// C27: rotations, affine transformations and bounding boxes - what each function produces is what its geometric meaning says.
#include "vf.hpp"
#include <cmath>
#include <cstring>
#include <neolib/neolib.hpp>
#include <neolib/core/numerical.hpp>
#include <algorithm>

using namespace neolib::math;
namespace
{
    using ld = long double;
    using P3 = std::array<ld, 3>; using M3 = std::array<P3, 3>; // [column][row]
    std::string fmt(ld v) { char b[40]; std::snprintf(b, sizeof b, "%.9Lg", v); return b; }
    template <typename V> std::string showv(V const& v) { std::string s = "["; for (auto const& e : v) s += fmt(ld(e)) + " "; return s + "]"; }
    template <typename M> std::string showm(M const& m) { std::string s = "{"; for (std::uint32_t c = 0; c < m.size().second; ++c) s += showv(m[c]); return s + "}"; }
    ld real(vf::rng& r, ld scale) { return (ld(r.below(2000001)) - 1000000) / 1000000 * scale; }
    template <typename T> basic_vector<T, 3> v3(vf::rng& r, ld scale) { return basic_vector<T, 3>{ T(real(r, scale)), T(real(r, scale)), T(real(r, scale)) }; }
    ld len(P3 const& a) { return std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
    template <typename V> P3 p3(V const& v) { return { ld(v[0]), ld(v[1]), ld(v[2]) }; }
    P3 mul(M3 const& m, P3 const& v) { P3 o{}; for (int w = 0; w < 3; ++w) for (int k = 0; k < 3; ++k) o[w] += m[k][w] * v[k]; return o; }
    M3 mul(M3 const& a, M3 const& b) { M3 o{}; for (int c = 0; c < 3; ++c) o[c] = mul(a, b[c]); return o; }
    M3 about(P3 const& n, ld angle) { ld c = std::cos(angle), s = std::sin(angle); M3 m{}; for (int col = 0; col < 3; ++col) for (int row = 0; row < 3; ++row) m[col][row] = n[col] * n[row] * (1 - c) + (col == row ? c : 0); m[1][0] -= n[2] * s; m[2][0] += n[1] * s; m[0][1] += n[2] * s; m[2][1] -= n[0] * s; m[0][2] -= n[1] * s; m[1][2] += n[0] * s; return m; }
    M3 euler(P3 const& a) { return mul(about({ 0, 0, 1 }, a[2]), mul(about({ 0, 1, 0 }, a[1]), about({ 1, 0, 0 }, a[0]))); }
    template <typename M> void same(char const* what, M const& got, M3 const& want, ld tol, std::string const& ctx) { for (int c = 0; c < 3; ++c) for (int w = 0; w < 3; ++w) if (!(std::abs(ld(got[c][w]) - want[c][w]) <= tol)) vf::fail(what, vf::cat("[", c, "][", w, "] ", fmt(got[c][w]), " want ", fmt(want[c][w]), " ", ctx)); vf::count("matrix-elements", 9); }
    template <typename M> M3 m3(M const& m) { M3 o; for (int c = 0; c < 3; ++c) for (int w = 0; w < 3; ++w) o[c][w] = m[c][w]; return o; }
    ld det(M3 const& m) { return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]); }
    ld angleOf(M3 const& m) { ld t = (m[0][0] + m[1][1] + m[2][2] - 1) / 2; return std::acos(std::clamp<ld>(t, -1, 1)); }
    M3 inv(M3 const& m) { M3 o; for (int c = 0; c < 3; ++c) for (int w = 0; w < 3; ++w) o[c][w] = m[w][c]; return o; }
    constexpr ld PI = 3.14159265358979323846264338327950288L;
    ld angle(vf::rng& r) { switch (r.below(6)) { case 0: return (int(r.below(17)) - 8) * PI / 4; case 1: return real(r, 1e-5L); case 2: return PI + real(r, 3e-5L); case 3: return -PI + real(r, 3e-5L); default: return real(r, 2 * PI); } }
    template <typename T> P3 axis(vf::rng& r) { for (;;) { P3 a = r.chance(1, 4) ? P3{} : P3{ real(r, 1), real(r, 1), real(r, 1) }; if (a == P3{}) { int k = int(r.below(6)); a[k % 3] = k < 3 ? 1 : -1; } ld l = len(a); if (l > 0.01L) return { a[0] / l, a[1] / l, a[2] / l }; } }
    template <typename T> void rotations(vf::rng& r)
    {
        ld const tol = sizeof(T) == 4 ? 2e-6L : 1e-12L;
        {
            P3 n = axis<T>(r); ld a = angle(r); T eps = r.chance(1, 2) ? T(0.00001) : r.chance(1, 2) ? T(0.0001) : T(1) / T(1 << 14); basic_vector<T, 3> nv{ T(n[0]), T(n[1]), T(n[2]) };
            auto m = r.chance(1, 2) ? rotation_matrix(nv, T(a), eps) : (eps = T(0.00001), rotation_matrix(nv, T(a))); auto ctx = vf::cat(typeid(T).name(), " axis ", showv(nv), " angle ", fmt(T(a)), " eps ", fmt(eps), " ", showm(m));
            same("rotation:axis-angle", m, about(p3(nv), T(a)), std::max<ld>(eps, 0) + tol + (std::abs(T(a)) <= eps ? ld(eps) : 0), ctx);
            vf::distinct(vf::hash(ctx)); vf::sample(ctx);
        }
        {
            auto a = v3<T>(r, 10), b = v3<T>(r, 10); auto k = r.below(6); if (k == 0) b = a * T(real(r, 3) + ld(3.5)); if (k == 1) b = a * T(-0.5 - ld(r.below(100)) / 50); if (k == 2) { b = a; b[r.below(3)] += T(real(r, 1e-3L)); } if (k == 3) { b = -a; b[r.below(3)] += T(real(r, sizeof(T) == 4 ? 0 : 1e-3L)); }
            if (len(p3(a)) < 0.05L || len(p3(b)) < 0.05L) return;
            auto m = rotation_matrix(a, b); auto ctx = vf::cat(typeid(T).name(), " kind ", k, " from ", showv(a), " to ", showv(b), " ", showm(m)); ld la = len(p3(a)), lb = len(p3(b)); P3 na = p3(a), nb = p3(b); for (auto& e : na) e /= la; for (auto& e : nb) e /= lb;
            ld dot = na[0] * nb[0] + na[1] * nb[1] + na[2] * nb[2]; ld tol2 = 4e-5L + (sizeof(T) == 4 ? (std::abs(dot) > 0.999L ? 2e-3L : 1e-4L) : 0);
            P3 g = mul(m3(m), na); for (int i = 0; i < 3; ++i) if (!(std::abs(g[i] - nb[i]) <= tol2)) vf::fail("rotation:between-vectors", vf::cat(fmt(g[i]), " want ", fmt(nb[i]), " ", ctx));
            M3 q = mul(m3(m), inv(m3(m))); same("rotation:between-vectors-orthonormal", q, M3{ P3{ 1, 0, 0 }, P3{ 0, 1, 0 }, P3{ 0, 0, 1 } }, 3 * tol2, ctx); if (!(std::abs(det(m3(m)) - 1) <= 6 * tol2)) vf::fail("rotation:between-vectors-reflects", vf::cat("det ", fmt(det(m3(m))), " ", ctx));
            vf::count(dot > 0.999999L ? "parallel-pairs" : dot < -0.999999L ? "antiparallel-pairs" : "general-pairs");
        }
        {
            basic_vector<T, 3> e{ T(angle(r)), T(angle(r)), T(angle(r)) }; if (r.chance(1, 4)) e[r.below(3)] = 0; if (r.chance(1, 6)) e.x = e.y = 0; auto ctx = vf::cat(typeid(T).name(), " angles ", showv(e)); M3 w = euler(p3(e));
            same("rotation:euler", rotation_matrix(e), w, tol, ctx); auto f = affine_rotation_matrix(e); same("rotation:affine-euler", f, w, tol, ctx); for (int i = 0; i < 3; ++i) if (f[3][i] != 0 || f[i][3] != 0) vf::fail("rotation:affine-euler", ctx); if (f[3][3] != 1) vf::fail("rotation:affine-euler", ctx);
            auto q = euler_to_quat(e); ld n = ld(q.w) * q.w + ld(q.x) * q.x + ld(q.y) * q.y + ld(q.z) * q.z; if (!(std::abs(n - 1) <= tol)) vf::fail("rotation:quaternion-unit", ctx);
            M3 qm{ P3{ 1 - 2 * (ld(q.y) * q.y + ld(q.z) * q.z), 2 * (ld(q.x) * q.y + ld(q.w) * q.z), 2 * (ld(q.x) * q.z - ld(q.w) * q.y) }, P3{ 2 * (ld(q.x) * q.y - ld(q.w) * q.z), 1 - 2 * (ld(q.x) * q.x + ld(q.z) * q.z), 2 * (ld(q.y) * q.z + ld(q.w) * q.x) }, P3{ 2 * (ld(q.x) * q.z + ld(q.w) * q.y), 2 * (ld(q.y) * q.z - ld(q.w) * q.x), 1 - 2 * (ld(q.x) * q.x + ld(q.y) * q.y) } };
            same("rotation:euler-to-quaternion", qm, w, 4 * tol, ctx);
        }
        T d = T(real(r, 720)); if (std::abs(ld(to_rad(d)) - ld(d) / 180 * PI) > 13 * tol || std::abs(ld(to_deg(to_rad(d))) - d) > 1000 * tol) vf::fail("angle:degrees", fmt(d));
    }
    template <typename T> void lerps(vf::rng& r)
    {
        ld const tol = sizeof(T) == 4 ? 1e-4L : 1e-10L; using V = basic_vector<T, 3>; using R = basic_vector3_range<T>;
        auto ang = [&] { return V{ T(angle(r)), T(angle(r)), T(angle(r)) }; };
        V t0 = v3<T>(r, 10), t1 = v3<T>(r, 10), s0 = v3<T>(r, 3), s1 = v3<T>(r, 3), r0 = ang(), r1 = ang(); if (r.chance(1, 4)) r1 = r0; if (r.chance(1, 4)) { r1 = r0; r1[r.below(3)] += T(real(r, 0.05L)); } for (auto* s : { &s0, &s1 }) for (auto& e : *s) e = T(std::abs(ld(e)) + 0.25L);
        R tr{ t0, t1 }, sc{ s0, s1 }, ro{ r0, r1 }; if (r.chance(1, 5)) { tr = R{ t0 }; t1 = t0; } if (r.chance(1, 5)) { sc = R{ s0 }; s1 = s0; } if (r.chance(1, 5)) { ro = R{ r0 }; r1 = r0; }
        auto gen = affine_transformation_lerp_generator(tr, sc, ro); auto ctx = vf::cat(typeid(T).name(), showv(t0), showv(t1), showv(s0), showv(s1), showv(r0), showv(r1)); M3 q0 = euler(p3(r0)), q1 = euler(p3(r1)); ld total = angleOf(mul(inv(q0), q1));
        auto check = [&](basic_matrix<T, 4, 4> const& m, P3 const& t, P3 const& s, M3 const* rot, std::string const& c) -> M3
        {
            for (int i = 0; i < 3; ++i) { if (!(std::abs(ld(m[3][i]) - t[i]) <= tol * 10)) vf::fail("lerp:translation", vf::cat(fmt(m[3][i]), " want ", fmt(t[i]), c)); if (m[i][3] != 0) vf::fail("lerp:bottom-row", c); } if (m[3][3] != 1) vf::fail("lerp:bottom-row", c);
            M3 rm = m3(m); for (int i = 0; i < 3; ++i) { ld l = len(rm[i]); if (!(std::abs(l - std::abs(s[i])) <= tol * 10)) vf::fail("lerp:scaling", vf::cat(fmt(l), " want ", fmt(s[i]), c)); for (auto& e : rm[i]) e /= s[i]; }
            same("lerp:orthonormal", mul(rm, inv(rm)), M3{ P3{ 1, 0, 0 }, P3{ 0, 1, 0 }, P3{ 0, 0, 1 } }, tol * 20, c); if (!(std::abs(det(rm) - 1) <= tol * 20)) vf::fail("lerp:reflects", c); if (rot) same("lerp:rotation", rm, *rot, tol * 20, c); vf::count("interpolations"); return rm;
        };
        auto at = [&](V const& a, V const& b, V const& t) { P3 o; for (int i = 0; i < 3; ++i) o[i] = ld(a[i]) + (ld(b[i]) - a[i]) * t[i]; return o; };
        V z{ T(0), T(0), T(0) }, o{ T(1), T(1), T(1) }; check(gen(T(0)), p3(t0), p3(s0), &q0, "t=0 " + ctx); check(gen(T(1)), p3(t1), p3(s1), &q1, "t=1 " + ctx); check(affine_transformation_lerp(tr, sc, ro, T(0)), p3(t0), p3(s0), &q0, "t=0 " + ctx); check(affine_transformation_lerp(tr, sc, ro, T(1)), p3(t1), p3(s1), &q1, "t=1 " + ctx);
        T u = T(r.below(1001)) / T(1000); V uv{ u, u, u }; auto c = vf::cat("t=", fmt(u), " ", ctx); auto m = gen(u); M3 rm = check(m, at(t0, t1, uv), at(s0, s1, uv), nullptr, c); if (!(affine_transformation_lerp(tr, sc, ro, u) == m)) vf::fail("lerp:generator-agrees", c);
        ld part = angleOf(mul(inv(q0), rm)), rest = angleOf(mul(inv(rm), q1)); ld at2 = sizeof(T) == 4 ? 2e-2L : 2e-5L; if (total < PI - 0.01L && (!(std::abs(part - total * u) <= at2) || !(std::abs(rest - total * (1 - ld(u))) <= at2))) vf::fail("lerp:constant-speed-shortest-arc", vf::cat(fmt(part), " + ", fmt(rest), " of ", fmt(total), " ", c));
        V a{ T(r.below(11)) / 10, T(r.below(11)) / 10, T(r.below(11)) / 10 }, b{ T(r.below(11)) / 10, T(r.below(11)) / 10, T(r.below(11)) / 10 }, g{ T(r.below(11)) / 10, T(r.below(11)) / 10, T(r.below(11)) / 10 }; if (g.x == g.y && g.y == g.z) g.x = T(0.55);
        P3 e; for (int i = 0; i < 3; ++i) e[i] = ld(r0[i]) + std::remainder(ld(r1[i]) - r0[i], 2 * PI) * g[i]; bool edge = false; for (int i = 0; i < 3; ++i) if (std::abs(std::abs(std::remainder(ld(r1[i]) - r0[i], 2 * PI)) - PI) < 1e-3L) edge = true; M3 er = euler(e);
        check(gen(a, b, g), at(t0, t1, a), at(s0, s1, b), edge ? nullptr : &er, "per-axis " + showv(a) + showv(b) + showv(g) + ctx); if (!(affine_transformation_lerp(tr, sc, ro, a, b, g) == gen(a, b, g))) vf::fail("lerp:generator-agrees", c);
        basic_matrix<T, 4, 4> k = m; apply_translation(k, t0); for (std::uint32_t col = 0; col < 4; ++col) for (std::uint32_t row = 0; row < 4; ++row) if (k[col][row] != T(m[col][row] + (col == 3 && row < 3 ? t0[row] : T{}))) vf::fail("apply:translation", c); k = m; apply_scaling(k, s0); for (std::uint32_t col = 0; col < 4; ++col) for (std::uint32_t row = 0; row < 4; ++row) if (k[col][row] != T(m[col][row] * (col == row && row < 3 ? s0[row] : T(1)))) vf::fail("apply:scaling", c);
        basic_vector<T, 2> t2{ t0.x, t0.y }; k = m; apply_translation(k, t2); for (std::uint32_t col = 0; col < 4; ++col) for (std::uint32_t row = 0; row < 4; ++row) if (k[col][row] != T(m[col][row] + (col == 3 && row < 2 ? t0[row] : T{}))) vf::fail("apply:translation-2d", c); k = m; apply_scaling(k, t2); for (std::uint32_t col = 0; col < 4; ++col) for (std::uint32_t row = 0; row < 4; ++row) if (k[col][row] != T(m[col][row] * (col == row && row < 2 ? t0[row] : T(1)))) vf::fail("apply:scaling-2d", c);
        vf::distinct(vf::hash(c));
    }
    template <std::uint32_t D, typename V> auto box(V const& a, V const& b) { if constexpr (D == 3) return basic_aabb<V>{ a, b }; else return basic_aabb_2d<V>{ a, b }; }
    template <typename T, std::uint32_t D> void boxes(vf::rng& r)
    {
        using V = basic_vector<T, D>; auto small = [&] { V v; for (auto& e : v) e = T(int(r.below(7)) - 3); return v; };
        auto mk = [&] { V a = small(), b = small(); return box<D>(a.min(b), a.max(b)); }; using B = decltype(mk()); B a = mk(), b = mk(); V p = small(); auto ctx = vf::cat(typeid(T).name(), D, showv(a.min), showv(a.max), showv(b.min), showv(b.max), showv(p));
        bool in = true, pin = true, touch = true; T vol = 1; bool flat = false; for (std::uint32_t i = 0; i < D; ++i) { in = in && a.min[i] <= b.min[i] && b.max[i] <= a.max[i]; pin = pin && a.min[i] <= p[i] && p[i] <= a.max[i]; touch = touch && a.min[i] <= b.max[i] && b.min[i] <= a.max[i]; if (!(D == 3 && i == 2 && a.max[i] == a.min[i])) vol *= a.max[i] - a.min[i]; else flat = true; }
        if (aabb_contains(a, b) != in) vf::fail("box:contains-box", vf::cat(aabb_contains(a, b), " ", ctx)); if (aabb_contains(a, p) != pin) vf::fail("box:contains-point", vf::cat(aabb_contains(a, p), " ", ctx)); if (aabb_intersects(a, b) != touch || aabb_intersects(b, a) != touch) vf::fail("box:intersects", ctx);
        neolib::optional<B> oa{ a }, on; std::optional<B> sb{ b }, sn; if (aabb_intersects(oa, sb) != touch || aabb_intersects(oa, b) != touch || aabb_intersects(a, sb) != touch || aabb_intersects(on, sb) || aabb_intersects(oa, sn) || aabb_intersects(on, sn) || aabb_intersects(on, b) || aabb_intersects(a, sn)) vf::fail("box:intersects-optional", ctx);
        if (aabb_volume(a) != vol) vf::fail("box:volume", vf::cat(fmt(aabb_volume(a)), " want ", fmt(vol), ctx)); auto u = aabb_union(a, b); for (std::uint32_t i = 0; i < D; ++i) if (u.min[i] != std::min(a.min[i], b.min[i]) || u.max[i] != std::max(a.max[i], b.max[i]) || aabb_extents(a)[i] != a.max[i] - a.min[i] || aabb_origin(a)[i] * 2 != a.min[i] + a.max[i]) vf::fail("box:union-extents-origin", ctx);
        if (!aabb_contains(u, a) || !aabb_contains(u, b)) vf::fail("box:union-contains", ctx); if ((a == b) != (a.min == b.min && a.max == b.max)) vf::fail("box:equal", ctx);
        auto key = [&](B const& x) { std::vector<T> k; for (auto const* v : { &x.min, &x.max }) for (std::uint32_t i = D; i-- > 0;) k.push_back((*v)[i]); return k; }; if ((a < b) != (key(a) < key(b)) || (a <= b) != (key(a) <= key(b)) || (a > b) != (key(a) > key(b)) || (a >= b) != (key(a) >= key(b))) vf::fail("box:order", ctx);
        // boxes from origin and size, and from points
        T s = T(r.below(9)); V sv = small(); for (auto& e : sv) e = std::abs(e); B c1, c2; if constexpr (D == 3) { c1 = to_aabb(p, s); c2 = to_aabb(p, sv); } else if constexpr (std::is_same_v<T, double>) { c1 = to_aabb_2d(p, s); c2 = to_aabb_2d(p, sv); }
        if constexpr (D == 3 || std::is_same_v<T, double>) for (std::uint32_t i = 0; i < D; ++i) if (c1.min[i] != p[i] - s / 2 || c1.max[i] != p[i] + s / 2 || c2.min[i] != p[i] - sv[i] / 2 || c2.max[i] != p[i] + sv[i] / 2) vf::fail("box:from-size", ctx);
        std::vector<V> pts; neolib::small_vector<V, 4> spts; for (auto n = r.below(8); n-- > 0;) { pts.push_back(small()); spts.push_back(pts.back()); } B w; if (!pts.empty()) w = B{ pts[0], pts[0] }; for (auto const& q : pts) { w.min = w.min.min(q); w.max = w.max.max(q); ctx += showv(q); } B g, gs;
        if constexpr (D == 3) { g = to_aabb(pts); gs = to_aabb(spts); } else { g = to_aabb_2d(pts); gs = to_aabb_2d(spts); } if (!(g == w) || !(gs == w)) vf::fail("box:from-points", ctx); if constexpr (D == 3) { auto f = to_aabb_2d(pts); auto fs = to_aabb_2d(spts); for (int i = 0; i < 2; ++i) if (f.min[i] != w.min[i] || f.max[i] != w.max[i] || fs.min[i] != w.min[i] || fs.max[i] != w.max[i]) vf::fail("box:2d-from-3d-points", ctx); }
        // transformed boxes: tight around the transformed corners, so they hold every transformed point
        basic_matrix<T, 4, 4> m = basic_matrix<T, 4, 4>::identity(), m2 = m; auto kind = r.below(5); if (kind != 0) for (int col = 0; col < 4; ++col) for (int row = 0; row < 3; ++row) if (kind != 1 || col == 3) { m[col][row] = T(int(r.below(7)) - 3); m2[col][row] = T(int(r.below(5)) - 2); } ctx += " " + showm(m) + showm(m2);
        auto xf = [&](V const& q, bool two) { P3 v{ ld(q[0]), ld(q[1]), 0 }; if constexpr (D == 3) v[2] = q[2]; for (auto const* x : { two ? &m2 : nullptr, &m }) if (x) { P3 o{ ld((*x)[3][0]), ld((*x)[3][1]), ld((*x)[3][2]) }; for (int row = 0; row < 3; ++row) for (int k = 0; k < 3; ++k) o[row] += ld((*x)[k][row]) * v[k]; v = o; } return v; };
        auto tight = [&](B const& src, bool two) { B o; bool first = true; for (unsigned k = 0; k < (1u << D); ++k) { V q; for (std::uint32_t i = 0; i < D; ++i) q[i] = k & (1u << i) ? src.max[i] : src.min[i]; auto t = xf(q, two); V tv; for (std::uint32_t i = 0; i < D; ++i) tv[i] = T(t[i]); o.min = first ? tv : o.min.min(tv); o.max = first ? tv : o.max.max(tv); first = false; } return o; };
        auto is = [&](char const* what, B const& got, B const& want) { if (!(got == want)) vf::fail(what, vf::cat(showv(got.min), showv(got.max), " want ", showv(want.min), showv(want.max), " ", ctx)); vf::count("boxes"); };
        is("box:transform", aabb_transform(a, m), tight(a, false)); is("box:transform-two", aabb_transform(a, m, m2), tight(a, true));
        if constexpr (D == 3) { is("box:points-transform", to_aabb(pts, m), tight(w, false)); is("box:points-transform", to_aabb(spts, m), tight(w, false)); auto f = to_aabb_2d(pts, m); auto tw = tight(w, false); for (int i = 0; i < 2; ++i) if (f.min[i] != tw.min[i] || f.max[i] != tw.max[i]) vf::fail("box:2d-points-transform", ctx); }
        else { basic_matrix<T, 3, 3> l = basic_matrix<T, 3, 3>::identity(); for (int col = 0; col < 2; ++col) for (int row = 0; row < 2; ++row) l[col][row] = m[col][row]; auto save = m; for (int row = 0; row < 3; ++row) m[3][row] = 0; is("box:linear-transform-2d", aabb_transform(a, l), tight(a, false)); is("box:points-linear-transform-2d", to_aabb_2d(pts, l), tight(w, false)); m = save; }
        (void)flat; vf::distinct(vf::hash(ctx)); vf::sample(ctx);
    }
    void curves(vf::rng& r)
    {
        auto p = [&] { return vec2{ double(real(r, 10)), double(real(r, 10)) }; }; vec2 p0 = p(), p1 = p(), p2 = p(), p3 = p(); double t = double(r.below(1001)) / 1000; if (std::abs(p3.x - p0.x) < 0.1) p3.x += 1; if (std::abs(p3.y - p0.y) < 0.1) p3.y += 1; auto ctx = vf::cat(showv(p0), showv(p1), showv(p2), showv(p3), fmt(t));
        auto B = [&](ld u, int i) { ld v = 1 - u; return v * v * v * p0[i] + 3 * v * v * u * p1[i] + 3 * v * u * u * p2[i] + u * u * u * p3[i]; }; auto is = [&](char const* w, vec2 const& g, ld u, ld tol) { for (int i = 0; i < 2; ++i) if (!(std::abs(g[i] - B(u, i)) <= tol)) vf::fail(w, vf::cat(fmt(g[i]), " want ", fmt(B(u, i)), ctx)); };
        is("bezier:point", bezier_cubic(p0, p1, p2, p3, t), t, 1e-12L); if (!(bezier_cubic(p0, p1, p2, p3, 0.0) == p0) || !(bezier_cubic(p0, p1, p2, p3, 1.0) == p3)) vf::fail("bezier:ends", ctx); double x = p0.x + (p3.x - p0.x) * t, y = p0.y + (p3.y - p0.y) * t; is("bezier:at-x", bezier_cubic_x(p0, p1, p2, p3, x), (x - ld(p0.x)) / (ld(p3.x) - p0.x), 1e-11L); is("bezier:at-y", bezier_cubic_y(p0, p1, p2, p3, y), (y - ld(p0.y)) / (ld(p3.y) - p0.y), 1e-11L);
        { vec2f f = bezier_cubic(p0.as<float>(), p1.as<float>(), p2.as<float>(), p3.as<float>(), float(t)); for (int i = 0; i < 2; ++i) if (!(std::abs(f[i] - B(t, i)) <= 1e-4L)) vf::fail("bezier:float", ctx); }
        double a = double(real(r, 3)), e = double(r.below(1000) + 1) / 4096, b = r.chance(1, 2) ? a + e * (r.chance(1, 2) ? 0.5 : -0.5) : a + e * (r.chance(1, 2) ? 2 : -2); bool near = std::abs(a - b) < e; vec3 va{ a, 1.0, 2.0 }, vb{ b, 1.0, 2.0 }, vc{ 1.0, 2.0, a }, vd{ 1.0, 2.0, b };
        if (nearly_equal(a, b, e) != near || nearly_equal(b, a, e) != near || nearly_equal(va, vb, e) != near || nearly_equal(vc, vd, e) != near || nearly_equal(std::make_pair(a, 1.0), std::make_pair(b, 1.0), e) != near || nearly_equal(std::make_pair(1.0, a), std::make_pair(1.0, b), e) != near || nearly_equal(std::vector<double>{ 1, a }, std::vector<double>{ 1, b }, e) != near || nearly_equal(std::optional<double>{ a }, std::optional<double>{ b }, e) != near || nearly_equal(neolib::optional<double>{ a }, neolib::optional<double>{ b }, e) != near) vf::fail("nearly-equal", vf::cat(fmt(a), " ", fmt(b), " ", fmt(e)));
        if (nearly_equal(std::optional<double>{ a }, std::optional<double>{}, e) || nearly_equal(std::optional<double>{}, std::optional<double>{ a }, e) || !nearly_equal(std::optional<double>{}, std::optional<double>{}, e) || nearly_equal(neolib::optional<double>{ a }, neolib::optional<double>{}, e) || nearly_equal(std::vector<double>{ a }, std::vector<double>{ a, a }, e) || nearly_equal(std::vector<double>{ a, a }, std::vector<double>{ a }, e) || nearly_equal(3, 4) || !nearly_equal(4, 4)) vf::fail("nearly-equal:shape", "");
        vf::distinct(vf::hash(ctx));
    }
}
VF_SCENARIO(rotations, 3) { r.chance(2, 3) ? rotations<double>(r) : rotations<float>(r); (void)idx; }
VF_SCENARIO(interpolation, 2) { r.chance(2, 3) ? lerps<double>(r) : lerps<float>(r); (void)idx; }
VF_SCENARIO(boxes, 3) { switch (r.below(4)) { case 0: boxes<double, 3>(r); break; case 1: boxes<float, 3>(r); break; case 2: boxes<double, 2>(r); break; default: boxes<float, 2>(r); } (void)idx; }
VF_SCENARIO(curves, 1) { curves(r); (void)idx; }
VF_MAIN
