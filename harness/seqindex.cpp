// C20: sequences with widths (indexitor) and tags (tag_array) against plain vectors.
#include "vf.hpp"
#include <vector>
#include <list>
#include <neolib/neolib.hpp>
#include <neolib/core/indexitor.hpp>
#include <neolib/core/tag_array.hpp>

namespace
{
    using vf::i64; using vf::u64;
    template <typename T> T mk(i64 v) { if constexpr (std::is_same_v<T, std::string>) return std::to_string(v) + (v % 2 ? "" : ":longer than any small string buffer"); else return T(v); }
    template <typename T> i64 num(T const& t) { if constexpr (std::is_same_v<T, std::string>) return std::stoll(t); else if constexpr (std::is_same_v<T, vf::tracked>) return vf::val(t); else return i64(t); }

    // ---- indexitor
    template <typename T, typename F> struct ix
    {
        using X = neolib::indexitor<T, F>; using V = typename X::value_type; using S = typename X::skip_type;
        struct row { i64 v; F w, a, b; };
        using M = std::vector<row>;
        vf::rng& r; std::string log; i64 nextv = 1; u64 found = 0;
        explicit ix(vf::rng& r) : r{ r } {}
        [[noreturn]] void bad(char const* what, std::string const& d = {}) { vf::fail(vf::cat("indexitor:", what), vf::cat(d, " history: ", log)); }
        F width() { return r.chance(1, 5) ? F(0) : F(1 + r.below(r.chance(1, 10) ? 1000 : 6)); }
        row fresh() { row x; x.v = nextv++; x.w = width(); bool skip = r.chance(1, 3); x.a = skip && r.chance(1, 2) ? F(r.below(4)) : F(0); x.b = skip && r.chance(1, 2) ? F(r.below(4)) : F(0); return x; }
        V val(row const& x) { return V{ mk<T>(x.v), x.w }; }
        S skip(row const& x) { return S{ x.a, x.b }; }
        static F span(row const& x) { return x.a + x.w + x.b; }
        F start(M const& m, std::size_t i) { F f{}; for (std::size_t k = 0; k < i; ++k) f += span(m[k]); return i < m.size() ? f + m[i].a : f; }
        template <typename It> void at(X const& x, M const& m, It it, std::size_t i, char const* op)
        {
            if (x.index(typename X::const_iterator{ it }) != i) bad("index", vf::cat("after ", op, ": ", x.index(typename X::const_iterator{ it }), " want ", i));
            if (i < m.size()) { if (num(it->first) != m[i].v || it->second != m[i].w) bad("element", vf::cat("after ", op, " at ", i, ": ", num(it->first), "/", it->second, " want ", m[i].v, "/", m[i].w)); }
            if (x.foreign_index(it) != start(m, i)) bad("foreign-index", vf::cat("after ", op, " at ", i, " of ", m.size(), ": ", x.foreign_index(it), " want ", start(m, i)));
            F a = i < m.size() ? m[i].a : F{}, b = i < m.size() ? m[i].b : F{};
            if (x.skip_before(it) != a || x.skip_after(it) != b) bad("skip", vf::cat("after ", op, " at ", i));
        }
        void lookup(X& x, M const& m, F f, char const* op)
        {
            std::size_t want = m.size(); F pos{}, at{};
            for (std::size_t i = 0; i < m.size(); ++i) { if (f >= pos + m[i].a && f < pos + m[i].a + m[i].w) { want = i; at = pos + m[i].a; break; } pos += span(m[i]); }
            if (want == m.size()) at = start(m, m.size());
            X const& cx = x;
            auto p = x.find_by_foreign_index(f); auto q = cx.find_by_foreign_index(f);
            std::size_t g = p.first - x.begin(), h = q.first - cx.begin();
            if (g != want || h != want) bad("find", vf::cat("after ", op, ": position ", f, " gives element ", g, "/", h, " of ", m.size(), " want ", want));
            if (p.second != at || q.second != at) bad("find-position", vf::cat("after ", op, ": position ", f, " gives start ", p.second, " want ", at));
            if (want != m.size()) { ++found; if (num(p.first->first) != m[want].v || num(q.first->first) != m[want].v) bad("find-element", op); }
        }
        void check(X& x, M const& m, char const* op)
        {
            X const& cx = x;
            if (x.size() != m.size() || x.empty() != m.empty()) bad("size", vf::cat("after ", op, ": ", x.size(), " want ", m.size()));
            std::size_t i = 0; for (auto it = x.begin(); it != x.end(); ++it, ++i) { if (i >= m.size()) bad("iteration", op); at(cx, m, it, i, op); } if (i != m.size()) bad("iteration", op);
            at(cx, m, cx.end(), m.size(), op);
            i = m.size(); for (auto it = cx.end(); it != cx.begin();) { --it; --i; if (num((*it).first) != m[i].v) bad("backwards", op); }
            i = m.size(); for (auto it = x.rbegin(); it != x.rend(); ++it) if (num((*it).first) != m[--i].v) bad("reverse", op);
            if (!m.empty()) { if (num(x.front().first) != m.front().v || num(cx.back().first) != m.back().v) bad("ends", op); }
            for (int k = 0; k < 3 && !m.empty(); ++k)
            {
                std::size_t a = r.below(m.size() + 1), b = r.below(m.size() + 1), c = r.below(m.size());
                auto it = x.begin() + a; it += std::ptrdiff_t(b) - std::ptrdiff_t(a); at(cx, m, it, b, op);
                auto ct = cx.end() - std::ptrdiff_t(m.size() - a); ct -= std::ptrdiff_t(a) - std::ptrdiff_t(b); at(cx, m, ct, b, op);
                if (it - (x.begin() + a) != std::ptrdiff_t(b) - std::ptrdiff_t(a) || (it < x.begin() + a) != (b < a) || (it <= x.begin() + a) != (b <= a)) bad("distance", op);
                if (num(x[c].first) != m[c].v || num(cx[c].first) != m[c].v || num(x.begin()[std::ptrdiff_t(c)].first) != m[c].v) bad("subscript", op);
                auto j = x.begin() + c; auto old = j++; at(cx, m, old, c, op); at(cx, m, j, c + 1, op); old = j--; at(cx, m, old, c + 1, op); at(cx, m, j, c, op);
            }
            F total = start(m, m.size());
            for (int k = 0; k < 4; ++k) lookup(x, m, F(r.range(-2, i64(total) + 2)), op);
            if (!m.empty()) { auto c = r.below(m.size()); F f = start(m, c); lookup(x, m, f, op); lookup(x, m, f - F(1), op); lookup(x, m, f + m[c].w, op); lookup(x, m, f + m[c].w - F(1), op); lookup(x, m, f + m[c].w + m[c].b, op); }
            lookup(x, m, total, op); lookup(x, m, F(0), op);
            vf::count("states"); vf::max("elements", m.size());
        }
        void run()
        {
            X x[2]; M m[2]; unsigned steps = 10 + r.below(40); bool wide = r.chance(1, 8);
            for (unsigned n = 0; n < steps; ++n)
            {
                int s = r.chance(1, 6); X& a = x[s]; M& b = m[s]; std::size_t p = r.below(b.size() + 1); char const* op = "?"; std::ostringstream o;
                switch (r.below(16))
                {
                case 0: case 1: { row f = fresh(); op = "insert"; auto it = a.insert(a.begin() + p, val(f), skip(f)); b.insert(b.begin() + p, f); at(a, b, it, p, op); break; }
                case 2: { row f = fresh(); f.a = f.b = F{}; op = "insert-plain"; auto it = a.insert(a.begin() + p, val(f)); b.insert(b.begin() + p, f); at(a, b, it, p, op); break; }
                case 3: { row f = fresh(); std::size_t c = r.below(5); op = "insert-count"; auto it = a.insert(a.begin() + p, c, val(f), skip(f)); b.insert(b.begin() + p, c, f); at(a, b, it, p, op); o << c; break; }
                case 4: { M f; std::vector<V> vs; std::vector<S> ss; for (std::size_t c = r.below(wide ? 40 : 6); c; --c) { row t = fresh(); f.push_back(t); vs.push_back(val(t)); ss.push_back(skip(t)); } op = "insert-range"; auto it = a.insert(a.begin() + p, vs.begin(), vs.end(), ss.begin(), ss.end()); b.insert(b.begin() + p, f.begin(), f.end()); at(a, b, it, p, op); o << f.size(); break; }
                case 5: { M f; std::list<V> vs; for (std::size_t c = r.below(wide ? 40 : 6); c; --c) { row t = fresh(); t.a = t.b = F{}; f.push_back(t); vs.push_back(val(t)); } op = "insert-range-plain"; auto it = a.insert(a.begin() + p, vs.begin(), vs.end()); b.insert(b.begin() + p, f.begin(), f.end()); at(a, b, it, p, op); o << f.size(); break; }
                case 6: { row f = fresh(); if (r.chance(1, 2)) { op = "push_back"; a.push_back(val(f), skip(f)); b.push_back(f); } else { op = "push_front"; a.push_front(val(f), skip(f)); b.insert(b.begin(), f); } break; }
                case 7: if (p < b.size()) { op = "erase"; auto it = a.erase(a.begin() + p); b.erase(b.begin() + p); at(a, b, it, p, op); } break;
                case 8: { std::size_t q = p + (r.chance(1, 3) ? r.below(b.size() - p + 1) : std::min<std::size_t>(r.below(3), b.size() - p)); op = "erase-range"; auto it = a.erase(a.begin() + p, a.begin() + q); b.erase(b.begin() + p, b.begin() + q); at(a, b, it, p, op); o << q; break; }
                case 9: if (!b.empty()) { if (r.chance(1, 2)) { op = "pop_back"; a.pop_back(); b.pop_back(); } else { op = "pop_front"; a.pop_front(); b.erase(b.begin()); } } break;
                case 10: case 11: if (p < b.size()) { op = "update"; row f = fresh(); b[p].w = f.w; if (r.chance(1, 2)) { b[p].a = f.a; b[p].b = f.b; a.update_foreign_index(a.begin() + p, f.w, skip(f)); } else { b[p].a = b[p].b = F{}; a.update_foreign_index(a.begin() + p, f.w); } } break;
                case 12: { std::size_t c = r.below(b.size() + 5); row f = fresh(); op = "resize"; a.resize(c, val(f), skip(f)); b.resize(c, f); o << c; break; }
                case 13: switch (r.below(4)) { case 0: { op = "copy"; X t{ a }; check(t, b, "copy-construct"); break; } case 1: op = "assign"; x[1 - s] = a; m[1 - s] = b; check(x[1 - s], m[1 - s], op); break; case 2: op = "swap"; a.swap(x[1 - s]); m[s].swap(m[1 - s]); check(x[1 - s], m[1 - s], op); break; default: op = "assign-self"; { X& t = a; a = t; } } break;
                case 14: if (r.chance(1, 6)) { op = "clear"; a.clear(); b.clear(); } else if (p < b.size()) { op = "write"; b[p].v = nextv++; switch (r.below(3)) { case 0: a[p].first = mk<T>(b[p].v); break; case 1: (*(a.begin() + p)).first = mk<T>(b[p].v); break; default: (a.begin() + p)->first = mk<T>(b[p].v); } } break;
                case 15: switch (r.below(3)) { case 0: { row f = fresh(); std::size_t c = r.below(6); op = "construct-count"; X t{ c, val(f) }; f.a = f.b = F{}; check(t, M(c, f), op); break; } case 1: { op = "construct-range"; std::vector<V> vs; M f; for (auto& y : b) { row z = y; z.a = z.b = F{}; f.push_back(z); vs.push_back(val(z)); } X t{ vs.begin(), vs.end() }; check(t, f, op); break; }
                    default: if (p < b.size()) { op = "insert-own"; std::size_t q = r.below(b.size()); a.insert(a.begin() + p, a[q], S{ b[q].a, b[q].b }); row f = b[q]; b.insert(b.begin() + p, f); } } break;
                }
                log += vf::cat(op, "@", p, o.str().empty() ? "" : ":" + o.str(), " "); vf::count(vf::cat("op:", op));
                check(a, b, op);
                if (m[s].size() > 250) { a.clear(); m[s].clear(); }
            }
            check(x[0], m[0], "end"); check(x[1], m[1], "end");
            vf::count("positions-found", found); vf::distinct(vf::hash(log)); vf::sample(log);
        }
    };

    // ---- tag_array. A tag as the class documents it: rebound to the node, made from the node and a tag.
    i64 tagsLive = 0;
    template <typename N> struct tag
    {
        template <typename U> struct rebind { using type = tag<U>; };
        int v; tag* self; N* node = nullptr;
        explicit tag(int v) : v{ v }, self{ this } { ++tagsLive; }
        tag(tag const& o) : v{ o.get() }, self{ this } { ++tagsLive; }
        tag(N& n, tag const& o) : v{ o.get() }, self{ this }, node{ &n } { ++tagsLive; }
        tag& operator=(tag const&) = delete;
        ~tag() { get(); self = nullptr; --tagsLive; }
        int get() const { if (self != this) vf::fail("tag_array:tag-lifetime", "a tag was used after it was destroyed or copied as raw memory"); return v; }
        bool operator==(tag const& o) const { return get() == o.get(); }
    };
    template <typename T, std::size_t A, std::size_t B> struct tg
    {
        using X = neolib::tag_array<tag<int>, T, A, B>; using G = typename X::tag_type;
        struct row { int t; i64 v; };
        using M = std::vector<row>;
        vf::rng& r; std::string log; i64 nextv = 1; int tags;
        explicit tg(vf::rng& r) : r{ r }, tags{ int(1 + r.below(4)) } {}
        [[noreturn]] void bad(char const* what, std::string const& d = {}) { vf::fail(vf::cat("tag_array:", what), vf::cat(d, " history: ", log)); }
        static std::string str(M const& m) { std::ostringstream o; for (auto& x : m) o << x.t << ":" << x.v << " "; return o.str(); }
        template <typename It> void at(X const& x, M const& m, It it, std::size_t i, char const* op)
        {
            typename X::const_iterator c{ it };
            if (std::size_t(c - x.begin()) != i) bad("position", vf::cat("after ", op, ": iterator at ", c - x.begin(), " want ", i));
            if ((c == x.end()) != (i == m.size())) bad("end", op);
            if (i < m.size()) { if (num(*it) != m[i].v) bad("element", vf::cat("after ", op, " at ", i, ": ", num(*it), " want ", str(m))); if (x.tag(c).get() != m[i].t) bad("tag", vf::cat("after ", op, " at ", i, ": ", x.tag(c).get(), " want ", str(m))); }
        }
        void check(X& x, M const& m, char const* op)
        {
            X const& cx = x;
            if (x.size() != m.size() || x.empty() != m.empty()) bad("size", vf::cat("after ", op, ": ", x.size(), " want ", m.size()));
            std::size_t i = 0; for (auto it = x.begin(); it != x.end(); ++it, ++i) { if (i >= m.size()) bad("iteration", op); at(cx, m, it, i, op); } if (i != m.size()) bad("iteration", op);
            i = m.size(); for (auto it = cx.end(); it != cx.begin();) { --it; --i; at(cx, m, it, i, op); }
            i = m.size(); for (auto it = cx.rbegin(); it != cx.rend(); ++it) if (num(*it) != m[--i].v) bad("reverse", op);
            if (!m.empty()) if (num(x.front()) != m.front().v || num(cx.back()) != m.back().v) bad("ends", op);
            for (int k = 0; k < 3 && !m.empty(); ++k)
            {
                std::size_t a = r.below(m.size() + 1), b = r.below(m.size() + 1), c = r.below(m.size());
                auto it = x.begin() + a; it += std::ptrdiff_t(b) - std::ptrdiff_t(a); at(cx, m, it, b, op);
                auto ct = cx.end() - std::ptrdiff_t(m.size() - a); ct -= std::ptrdiff_t(a) - std::ptrdiff_t(b); at(cx, m, ct, b, op);
                if (it - (x.begin() + a) != std::ptrdiff_t(b) - std::ptrdiff_t(a) || (it < x.begin() + a) != (b < a)) bad("distance", op);
                if (num(x[c]) != m[c].v || num(cx[c]) != m[c].v || num(x.begin()[std::ptrdiff_t(c)]) != m[c].v) bad("subscript", op);
                auto j = x.begin() + c; auto old = j++; at(cx, m, old, c, op); at(cx, m, j, c + 1, op); old = j--; at(cx, m, old, c + 1, op); at(cx, m, j, c, op);
            }
            vf::count("states"); vf::max("elements", m.size());
        }
        void run()
        {
            {
                X x[2]; M m[2]; unsigned steps = 10 + r.below(50);
                for (unsigned n = 0; n < steps; ++n)
                {
                    int s = r.chance(1, 6); X& a = x[s]; M& b = m[s]; std::size_t p = r.chance(1, 4) ? b.size() : r.below(b.size() + 1); char const* op = "?"; std::ostringstream o;
                    int tv = int(r.below(tags)); if (p && r.chance(1, 3)) tv = b[p - 1].t; G t{ tv };
                    log += vf::cat("#", n, "@", p, "/", b.size(), "t", tv, " ");
                    switch (r.below(12))
                    {
                    case 0: case 1: { row f{ tv, nextv++ }; op = "insert"; auto it = a.insert(t, a.begin() + p, mk<T>(f.v)); b.insert(b.begin() + p, f); at(a, b, it, p, op); break; }
                    case 2: { row f{ tv, nextv++ }; std::size_t c = r.below(5); op = "insert-count"; o << c; log += "c" + o.str(); T v = mk<T>(f.v); auto it = a.insert(t, a.begin() + p, c, v); b.insert(b.begin() + p, c, f); at(a, b, it, p, op); break; }
                    case 3: case 4: { M f; std::vector<T> vs; for (std::size_t c = r.below(r.chance(1, 4) ? B * 5 : B + 1); c; --c) { f.push_back({ tv, nextv++ }); vs.push_back(mk<T>(f.back().v)); } op = "insert-range"; o << f.size(); log += "r" + o.str(); auto it = a.insert(t, a.begin() + p, vs.begin(), vs.end()); b.insert(b.begin() + p, f.begin(), f.end()); at(a, b, it, p, op); break; }
                    case 5: { row f{ tv, nextv++ }; if (r.chance(1, 2)) { op = "push_back"; a.push_back(t, mk<T>(f.v)); b.push_back(f); } else { op = "push_front"; a.push_front(t, mk<T>(f.v)); b.insert(b.begin(), f); } break; }
                    case 6: if (p < b.size()) { op = "erase"; auto it = a.erase(a.begin() + p); b.erase(b.begin() + p); at(a, b, it, p, op); } break;
                    case 7: case 8: { std::size_t q = p + (r.chance(1, 2) ? r.below(b.size() - p + 1) : std::min<std::size_t>(r.below(4), b.size() - p)); op = "erase-range"; o << q; auto it = a.erase(a.begin() + p, a.begin() + q); b.erase(b.begin() + p, b.begin() + q); at(a, b, it, p, op); break; }
                    case 9: if (!b.empty()) { if (r.chance(1, 2)) { op = "pop_back"; a.pop_back(); b.pop_back(); } else { op = "pop_front"; a.pop_front(); b.erase(b.begin()); } } break;
                    case 10: switch (r.below(5)) { case 0: { op = "copy"; X u{ a }; check(u, b, "copy-construct"); if (!(u == a) || u != a) bad("equal", op); break; } case 1: op = "assign"; x[1 - s] = a; m[1 - s] = b; check(x[1 - s], m[1 - s], op); break; case 2: op = "swap"; a.swap(x[1 - s]); m[s].swap(m[1 - s]); check(x[1 - s], m[1 - s], op); break; case 3: { op = "assign-self"; X& u = a; a = u; break; }
                        default: { op = "insert-tagged"; X& c = x[1 - s]; M& d = m[1 - s]; std::size_t f = r.below(d.size() + 1), l = f + r.below(d.size() - f + 1); auto it = a.insert(a.begin() + p, c.begin() + f, c.begin() + l); b.insert(b.begin() + p, d.begin() + f, d.begin() + l); at(a, b, it, p, op); } } break;
                    case 11: if (r.chance(1, 5)) { op = "clear"; a.clear(); b.clear(); } else if (p < b.size()) { op = "write"; b[p].v = nextv++; if (r.chance(1, 2)) a[p] = mk<T>(b[p].v); else *(a.begin() + p) = mk<T>(b[p].v); }
                        else if (r.chance(1, 2)) { op = "construct"; std::size_t c = r.below(2 * B); T v = mk<T>(nextv); X u{ t, c, v }; check(u, M(c, row{ tv, nextv++ }), op); } else { op = "construct-range"; std::vector<T> vs; M f; for (auto& y : b) { f.push_back({ tv, y.v }); vs.push_back(mk<T>(y.v)); } X u{ t, vs.begin(), vs.end() }; check(u, f, op); } break;
                    }
                    log += vf::cat(op, o.str().empty() ? "" : ":" + o.str(), " "); vf::count(vf::cat("op:", op));
                    check(a, b, op);
                    if (m[s].size() > 150) { a.clear(); m[s].clear(); }
                }
                check(x[0], m[0], "end"); check(x[1], m[1], "end");
                bool same = m[0].size() == m[1].size() && std::equal(m[0].begin(), m[0].end(), m[1].begin(), [](row const& a, row const& b) { return a.v == b.v; });
                if ((x[0] == x[1]) != same || (x[0] != x[1]) == same) bad("equal", "end");
            }
            if (tagsLive != 0) bad("tags-leaked", std::to_string(tagsLive));
            vf::distinct(vf::hash(log)); vf::sample(log);
        }
    };
}
template <typename T, typename F> void index_case(vf::rng& r) { auto n = vf::tracked::live.load(); { ix<T, F> x{ r }; x.run(); } if (vf::tracked::live != n) vf::fail("indexitor:leak", vf::cat(vf::tracked::live - n, " elements leaked")); }
template <typename T, std::size_t A, std::size_t B> void tag_case(vf::rng& r) { tagsLive = 0; auto n = vf::tracked::live.load(); { tg<T, A, B> x{ r }; x.run(); } if (vf::tracked::live != n) vf::fail("tag_array:leak", vf::cat(vf::tracked::live - n, " elements leaked")); }
VF_SCENARIO(index_int, 3) { index_case<int, int>(r); }
VF_SCENARIO(index_tracked, 2) { index_case<vf::tracked, i64>(r); }
VF_SCENARIO(index_string, 1) { index_case<std::string, double>(r); }
VF_SCENARIO(tag_int4, 3) { tag_case<i64, 4, 8>(r); }
VF_SCENARIO(tag_tracked3, 2) { tag_case<vf::tracked, 3, 3>(r); }
VF_SCENARIO(tag_string, 1) { tag_case<std::string, 16, 256>(r); }
VF_MAIN
