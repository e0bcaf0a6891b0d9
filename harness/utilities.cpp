// C33: type-erased iterators and references, zipped iterators, scope guards, recursion limits, step counters, mutable sets.
#include "vf.hpp"
#include <cmath>
#include <vector>
#include <list>
#include <set>
#include <map>
#include <deque>
#include <thread>
#include <optional>
#include <algorithm>
#include <neolib/neolib.hpp>
#include <neolib/core/any_iterator.hpp>
#include <neolib/core/any_ref.hpp>
#include <neolib/core/generic_iterator.hpp>
#include <neolib/core/zip_iterator.hpp>
#include <neolib/core/scoped.hpp>
#include <neolib/core/recursion.hpp>
#include <neolib/core/bresenham_counter.hpp>
#include <neolib/core/mutable_set.hpp>
#include <neolib/core/visitor.hpp>

namespace
{
    using vf::i64; using vf::u64;
    // an iterator of a chosen size that notices being moved bytewise, copied over or leaked
    template <std::size_t Size> struct fat
    {
        using iterator_category = std::bidirectional_iterator_tag; using value_type = int; using difference_type = std::ptrdiff_t; using pointer = int*; using reference = int&;
        static_assert(Size >= 24);
        int* p; fat* self; unsigned char pad[Size - 16];
        static inline long live = 0;
        explicit fat(int* q) : p{ q }, self{ this } { ++live; fill(); }
        fat(fat const& o) : p{ o.get() }, self{ this } { ++live; fill(); }
        fat& operator=(fat const& o) { get(); p = o.get(); fill(); return *this; }
        ~fat() { get(); --live; self = nullptr; }
        void fill() { for (std::size_t i = 0; i < sizeof pad; ++i) pad[i] = (unsigned char)(std::size_t(p) / 4 + i); }
        int* get() const { if (self != this) vf::fail("iterator:lifetime", vf::cat("an iterator of ", Size, " bytes was used where it does not live")); for (std::size_t i = 0; i < sizeof pad; ++i) if (pad[i] != (unsigned char)(std::size_t(p) / 4 + i)) vf::fail("iterator:torn", vf::cat("an iterator of ", Size, " bytes was overwritten")); return p; }
        fat& operator++() { get(); ++p; fill(); return *this; } fat& operator--() { get(); --p; fill(); return *this; }
        int& operator*() const { return *get(); } int* operator->() const { return get(); }
        bool operator==(fat const& o) const { return get() == o.get(); }
        bool operator!=(fat const& o) const { return get() != o.get(); }
    };
    constexpr int kinds = 8;
    struct seqs { std::vector<int> v; std::list<int> l; std::set<int> s; std::deque<int> d; explicit seqs(std::size_t n) { for (int i = 0; i < int(n); ++i) { v.push_back(i); l.push_back(i); s.insert(i); d.push_back(i); } } };
    template <typename F> auto with(seqs& q, int kind, std::size_t at, F f)
    {
        switch (kind)
        {
        case 0: return f(q.v.data() + at); case 1: return f(q.v.begin() + at); case 2: return f(std::next(q.l.begin(), at)); case 3: return f(std::next(q.s.cbegin(), at));
        case 4: return f(q.d.begin() + at); case 5: return f(fat<24>{ q.v.data() + at }); case 6: return f(fat<56>{ q.v.data() + at }); default: return f(fat<64>{ q.v.data() + at });
        }
    }
    template <typename F> auto with_more(seqs& q, int kind, std::size_t at, F f) { if (kind == kinds) return f(fat<96>{ q.v.data() + at }); return with(q, kind, at, f); }

    template <typename A> struct any_it
    {
        vf::rng& r; seqs q; std::string log;
        explicit any_it(vf::rng& r) : r{ r }, q{ 1 + r.below(9) } {}
        struct slot { std::optional<A> a; int kind = -1; std::size_t at = 0; };
        [[noreturn]] void bad(char const* what) { vf::fail(vf::cat("any-iterator:", what), log); }
        template <typename E, typename F> void throws(char const* what, F f) { bool t = false; try { f(); } catch (E const&) { t = true; } if (!t) bad(what); }
        void check(slot& s)
        {
            A const& c = *s.a; if (c.empty() != (s.kind < 0) || c.something() == c.empty()) bad("empty"); if (s.kind < 0) { throws<typename A::bad_cast>("cast-empty", [&] { (void)static_cast<int* const&>(c); }); if (c.template is<int*>()) bad("is-empty"); return; }
            with_more(q, s.kind, s.at, [&](auto want) { using I = decltype(want); if (!c.template is<I>()) bad("is"); I const& got = static_cast<I const&>(c); if (!(got == want)) bad("place"); if (c.template is<double>()) bad("is-not"); throws<typename A::bad_cast>("cast-other", [&] { (void)static_cast<double const&>(c); }); return 0; });
            vf::count("any-iterators");
        }
        void run()
        {
            auto fats = [] { return fat<24>::live + fat<56>::live + fat<64>::live + fat<96>::live; }; auto was = fats();
            {
                slot s[4]; for (auto& x : s) x.a.emplace();
                for (unsigned n = 10 + r.below(60); n; --n)
                {
                    auto k = r.below(4), j = r.below(4); slot& x = s[k]; slot& y = s[j]; auto len = q.v.size(); auto op = r.below(11);
                    log += vf::cat(op, ":", k, j, "(", x.kind, "@", x.at, ") ");
                    switch (op)
                    {
                    case 0: case 1: { auto kind = int(r.below(kinds + 1)); auto at = r.below(len + 1); with_more(q, kind, at, [&](auto i) { if (op == 0) { x.a.reset(); x.a.emplace(i); } else *x.a = A{ i }; return 0; }); x.kind = kind; x.at = at; break; }
                    case 2: *x.a = *y.a; x.kind = y.kind; x.at = y.at; break;
                    case 3: { A c{ std::as_const(*x.a) }; x.a.reset(); x.a.emplace(std::as_const(c)); break; }
                    case 4: if (x.kind < 0) throws<typename A::is_empty>("increment-empty", [&] { ++*x.a; }); else if (x.at < len) { if (&++*x.a != &*x.a) bad("increment"); ++x.at; } break;
                    case 5: if (x.kind < 0) throws<typename A::is_empty>("decrement-empty", [&] { --*x.a; }); else if (x.at > 0) { if (&--*x.a != &*x.a) bad("decrement"); --x.at; } break;
                    case 6: if (x.kind < 0) throws<typename A::is_empty>("increment-empty", [&] { (*x.a)++; }); else if (x.at < len) { slot o; o.a.emplace((*x.a)++); o.kind = x.kind; o.at = x.at; check(o); ++x.at; } break;
                    case 7: if (x.kind < 0) throws<typename A::is_empty>("decrement-empty", [&] { (*x.a)--; }); else if (x.at > 0) { slot o; o.a.emplace((*x.a)--); o.kind = x.kind; o.at = x.at; check(o); --x.at; } break;
                    case 8: if (r.chance(1, 3)) { x.a->reset(); x.kind = -1; } break;
                    case 9: if (x.kind < 0) throws<typename A::is_empty>("compare-empty", [&] { (void)(*x.a == *y.a); }); else if (x.kind != y.kind) throws<typename A::bad_cast>("compare-kinds", [&] { (void)(*x.a == *y.a); }); else if ((*x.a == *y.a) != (x.at == y.at) || (*x.a != *y.a) == (x.at == y.at)) bad("compare"); break;
                    case 10: { A const& c = *x.a; *x.a = c; break; }
                    }
                    for (auto& z : s) check(z);
                }
            }
            if (fats() != was) vf::fail("iterator:leak", vf::cat(fats() - was, " ", log)); vf::distinct(vf::hash(log)); vf::sample(log.substr(0, 200));
        }
    };
}
VF_SCENARIO(any_iterators, 3) { any_it<neolib::any_iterator> t{ r }; t.run(); }
VF_SCENARIO(any_const_iterators, 3) { any_it<neolib::any_const_iterator> t{ r }; t.run(); }
VF_SCENARIO(any_cast, 1)
{
    std::vector<int> v(1 + r.below(6)); auto at = r.below(v.size() + 1); neolib::any_iterator i{ v.begin() + at };
    auto c = neolib::any_const_iterator_cast<std::vector<int>::iterator, std::vector<int>::const_iterator>(i);
    if (!c.is<std::vector<int>::const_iterator>() || static_cast<std::vector<int>::const_iterator const&>(c) != v.cbegin() + at) vf::fail("any-iterator:cast", "");
    vf::distinct(v.size() * 100 + at);
}
VF_SCENARIO(any_refs, 2)
{
    std::string log; int a[3] = { 1, 2, 3 }; std::string b[2] = { "x", "y" }; double d = 1.5;
    struct slot { std::optional<neolib::any_ref> m; std::optional<neolib::any_const_ref> c; void const* at = nullptr; int type = 0; } s[3]; for (auto& x : s) { x.m.emplace(); x.c.emplace(); }
    auto bad = [&](char const* w) { vf::fail(vf::cat("any-ref:", w), log); };
    for (unsigned n = 6 + r.below(40); n; --n)
    {
        auto k = r.below(3), j = r.below(3); auto op = r.below(9); slot& x = s[k]; slot& y = s[j]; log += vf::cat(op, ":", k, j, " ");
        switch (op)
        {
        case 0: { auto i = r.below(3); *x.m = neolib::any_ref{ a[i] }; *x.c = neolib::any_const_ref{ a[i] }; x.at = &a[i]; x.type = 1; break; }
        case 1: { auto i = r.below(2); x.m.reset(); x.m.emplace(b[i]); x.c.reset(); x.c.emplace(b[i]); x.at = &b[i]; x.type = 2; break; }
        case 2: *x.m = neolib::any_ref{ d }; *x.c = neolib::any_const_ref{ *x.m }; x.at = &d; x.type = 3; break;
        case 3: *x.m = *y.m; *x.c = *y.c; x.at = y.at; x.type = y.type; break;
        case 4: { neolib::any_ref t{ std::as_const(*y.m) }; neolib::any_const_ref u{ std::as_const(*y.c) }; x.m.reset(); x.m.emplace(t); x.c.reset(); x.c.emplace(u); x.at = y.at; x.type = y.type; break; }
        case 5: x.c.reset(); x.c.emplace(std::as_const(*x.m)); break;
        case 6: if (r.chance(1, 3)) { x.m->reset(); x.c->reset(); x.at = nullptr; x.type = 0; } break;
        case 7: if (x.type == 1) { int& i = *x.m; i += 10; if (*static_cast<int const*>(x.at) != i) bad("write"); } else if (x.type == 2) { std::string& t = *x.m; t += "z"; } break;
        case 8: { auto& m = *x.m; *x.m = m; auto& c = *x.c; *x.c = c; break; }
        }
        for (auto& z : s)
        {
            if (z.m->empty() != (z.type == 0) || z.c->empty() != (z.type == 0) || z.m->something() == z.m->empty() || z.c->something() == z.c->empty()) bad("empty");
            if (z.m->is<int>() != (z.type == 1) || z.c->is<int>() != (z.type == 1) || z.m->is<std::string>() != (z.type == 2) || z.c->is<std::string>() != (z.type == 2) || z.c->is<double>() != (z.type == 3)) bad("is");
            auto get = [&](auto const& ref, auto tag, int type) { using T = decltype(tag); constexpr bool C = std::is_same_v<std::decay_t<decltype(ref)>, neolib::any_const_ref>; using R = std::conditional_t<C, T const&, T&>; using X = std::conditional_t<C, neolib::any_const_ref_bad_cast, neolib::any_ref_bad_cast>; try { R t = ref; if (z.type != type) bad("wrong-type"); if (&t != z.at) bad("referent"); } catch (X const&) { if (z.type == type) bad("refused"); } };
            get(*z.m, int{}, 1); get(*z.m, std::string{}, 2); get(*z.m, double{}, 3); get(*z.c, int{}, 1); get(*z.c, std::string{}, 2); get(*z.c, double{}, 3); vf::count("any-refs");
        }
    }
    vf::distinct(vf::hash(log));
}
namespace
{
    template <typename I> void generic(vf::rng& r, char const* name, I first, std::vector<int> const& want)
    {
        std::string log = name; auto bad = [&](char const* w) { vf::fail(vf::cat("generic-iterator:", w), log); };
        using G = neolib::specialized_generic_iterator<I>; auto n = want.size(); I last = first; for (std::size_t i = 0; i < n; ++i) ++last;
        auto nth = [&](std::size_t k) { I i = first; for (; k; --k) ++i; return i; };
        G x[3] = { neolib::make_generic_iterator(first), G{ last }, G{ first } }; std::size_t at[3] = { 0, n, 0 };
        for (unsigned s = 5 + r.below(40); s; --s)
        {
            auto k = r.below(3), j = r.below(3); auto op = r.below(10); log += vf::cat(" ", op, ":", k, j, "@", at[k]); auto to = r.below(n + 1); auto d = std::ptrdiff_t(to) - std::ptrdiff_t(at[k]);
            auto same = [&](G const& g, std::size_t p) { if (!(g == G{ nth(p) }) || (g != G{ nth(p) }) || !g.template is_one_of<I>() || !(g.template get<I>() == nth(p))) bad("place"); if (p < n && (*g != want[p] || *g.operator->() != want[p])) bad("value"); };
            switch (op)
            {
            case 0: if (at[k] < n) { same(++x[k], ++at[k]); } break;
            case 1: if (at[k] > 0) { same(--x[k], --at[k]); } break;
            case 2: if (at[k] < n) { same(x[k]++, at[k]); ++at[k]; } break;
            case 3: if (at[k] > 0) { same(x[k]--, at[k]); --at[k]; } break;
            case 4: x[k] += d; at[k] = to; break;
            case 5: x[k] -= -d; at[k] = to; break;
            case 6: same(x[k] + d, to); break;
            case 7: same(x[k] - -d, to); break;
            case 8: x[k] = x[j]; at[k] = at[j]; break;
            case 9: { neolib::generic_iterator e; e = x[j]; neolib::generic_iterator f{ e }; if (!(e == x[j]) || e != f || e.is_one_of<double*, char*>() || !e.is_one_of<double*, I>() || !(e.get<I, I>() == nth(at[j]))) bad("erased"); bool t = false; try { (void)e.get<int const**>(); } catch (neolib::generic_iterator::wrong_iterator_type const&) { t = true; } if (!t) bad("wrong-type"); if (at[j] < n) { ++e; if (e == f) bad("shared"); } e = neolib::generic_iterator{}; e = f; same(G{ e }, at[j]); break; }
            }
            for (unsigned i = 0; i < 3; ++i) same(x[i], at[i]); if ((x[k] == x[j]) != (at[k] == at[j])) bad("compare");
            vf::count("generic-iterators", 3);
        }
        vf::distinct(vf::hash(log));
    }
}
VF_SCENARIO(generic_iterators, 2)
{
    seqs q{ 1 + r.below(8) }; auto fats = fat<24>::live + fat<56>::live + fat<64>::live;
    with(q, int(r.below(kinds)), 0, [&](auto i) { generic(r, typeid(i).name(), i, q.v); return 0; });
    if (fat<24>::live + fat<56>::live + fat<64>::live != fats) vf::fail("iterator:leak", "generic_iterator");
}
VF_SCENARIO(zips, 2)
{
    std::size_t n = r.below(20); std::vector<int> a; std::vector<std::string> b; std::deque<double> c; for (std::size_t i = 0; i < n; ++i) { a.push_back(int(r.below(8))); b.push_back(vf::cat("s", i)); c.push_back(double(i)); }
    auto z = neolib::make_zip_iterator(a.begin(), b.begin(), c.begin()), e = neolib::make_zip_iterator(a.end(), b.end(), c.end()); using Z = decltype(z);
    auto bad = [&](char const* w) { vf::fail(vf::cat("zip:", w), vf::cat("n=", n)); };
    if (e - z != std::ptrdiff_t(n)) bad("distance"); std::size_t k = 0;
    auto same = [&](Z i, std::size_t p) { if (i - z != std::ptrdiff_t(p) || (i == z) != (p == 0) || (i != e) != (p != n) || (z < i) != (p > 0)) bad("place"); if (p < n) { if (&std::get<0>(*i) != &a[p] || &std::get<1>(*i) != &b[p] || &std::get<2>(*i) != &c[p]) bad("reference"); auto q = i.operator->(); if (std::get<0>(q) != &a[p] || std::get<1>(q) != &b[p] || std::get<2>(q) != &c[p]) bad("pointer"); } vf::count("zips"); };
    for (unsigned s = r.below(40); s; --s)
    {
        auto to = r.below(n + 1); auto d = std::ptrdiff_t(to) - std::ptrdiff_t(k); auto i = z + std::ptrdiff_t(k); same(i, k);
        switch (r.below(6)) { case 0: if (k < n) { same(++i, ++k); } break; case 1: if (k > 0) { same(--i, --k); } break; case 2: if (k < n) { same(i++, k); ++k; } break; case 3: if (k > 0) { same(i--, k); --k; } break; case 4: same(i + d, to); i = i + d; k = to; break; case 5: same(i - -d, to); i = i - -d; k = to; break; }
        same(i, k);
        if (k < n) { std::get<0>(*i) += 1; std::get<1>(*i) += "!"; }
    }
    if (n > 1) { auto p = r.below(n), q = r.below(n); auto aa = a; auto bb = b; auto cc = c; std::iter_swap(z + p, z + q); std::swap(aa[p], aa[q]); std::swap(bb[p], bb[q]); std::swap(cc[p], cc[q]); if (a != aa || b != bb || c != cc) bad("swap"); }
    vf::distinct(vf::hash(vf::cat(n, k, a.empty() ? 0 : a[0])));
}
namespace
{
    struct tag1 { static constexpr std::size_t RecursionLimit = 5; }; struct tag2 { static constexpr std::size_t RecursionLimit = 2; };
    struct oops {};
    // what a guard changed is put back when its scope ends, however it ends, unless it was told not to
    struct guards
    {
        vf::rng& r; bool flag = false; std::atomic<bool> aflag{ false }; int counter = 0; std::string object = "o"; neolib::optional<int> opt, opt2; int* pointer = nullptr; int x[3] = {}; int cleanups = 0; int want_cleanups = 0; vf::tracked* owned = nullptr; std::string log;
        explicit guards(vf::rng& r) : r{ r } {}
        using st = std::tuple<bool, bool, int, std::string, int, int, int*, int, vf::tracked*>;
        st state() { return st(flag, aflag.load(), counter, object, bool(opt) ? *opt : -1, bool(opt2) ? *opt2 : -1, pointer, cleanups, owned); }
        void expect(st const& want, char const* w) { if (state() != want) vf::fail(vf::cat("scoped:", w), log); vf::count("guards"); }
        void go(int depth)
        {
            for (unsigned n = 1 + r.below(3); n; --n)
            {
                auto was = state(), now = was; bool ign = r.chance(1, 4); bool thrown = r.chance(1, 4); auto kind = r.below(9); log += vf::cat(kind, ign ? "i" : "", thrown ? "t" : "", "{");
                auto inside = [&](auto& g) { expect(now, "set"); if (depth) { try { go(depth - 1); } catch (oops const&) { } } if (ign && r.chance(1, 2)) g.ignore(); else if (ign) { g.ignore(); g.ignore(); } now = state(); if (thrown) throw oops{}; };
                bool v = r.chance(1, 2); int i = int(r.below(50));
                try
                {
                    switch (kind)
                    {
                    case 0: { std::get<0>(now) = v; neolib::scoped_flag g{ flag, v }; if (g.saved() != std::get<0>(was)) vf::fail("scoped:saved", log); inside(g); break; }
                    case 1: { std::get<1>(now) = v; neolib::scoped_atomic_flag g{ aflag, v }; if (g.saved() != std::get<1>(was)) vf::fail("scoped:saved", log); inside(g); break; }
                    case 2: { std::get<2>(now) += 1; neolib::scoped_counter<int> g{ counter }; inside(g); break; }
                    case 3: { auto s = vf::cat("value that does not fit into a string ", i); std::get<3>(now) = s; neolib::scoped_object<std::string> g{ object, s }; if (g.saved() != std::get<3>(was)) vf::fail("scoped:saved", log); inside(g); break; }
                    case 4: { std::get<4>(now) = i; neolib::scoped_optional<int> g{ opt, i }; inside(g); break; }
                    case 5: { if (std::get<5>(now) == -1) std::get<5>(now) = i; neolib::scoped_optional_if<int> g{ opt2, i }; inside(g); break; }
                    case 6: { std::get<6>(now) = &x[i % 3]; neolib::scoped_pointer<int> g{ pointer, &x[i % 3] }; inside(g); break; }
                    case 7: { auto f = [this] { ++cleanups; }; neolib::scoped_cleanup g{ f }; inside(g); break; }
                    case 8: { if (!owned) owned = new vf::tracked{ i }; std::get<8>(now) = owned; neolib::scoped_deleter<vf::tracked> g{ owned }; inside(g); break; }
                    }
                    if (thrown) vf::fail("scoped:swallowed", log);
                }
                catch (oops const&) {}
                log += "}";
                // now: what inside() left; the guard itself then restores its own variable only
                auto want = now;
                if (!ign) switch (kind) { case 0: std::get<0>(want) = std::get<0>(was); break; case 1: std::get<1>(want) = std::get<1>(was); break; case 2: std::get<2>(want) -= 1; break; case 3: std::get<3>(want) = std::get<3>(was); break; case 4: std::get<4>(want) = std::get<4>(was); break; case 5: std::get<5>(want) = std::get<5>(was); break; case 6: std::get<6>(want) = std::get<6>(was); break; case 7: std::get<7>(want) += 1; break; case 8: std::get<8>(want) = nullptr; break; }
                expect(want, ign ? "ignored" : "restored");
            }
        }
    };
    template <typename Tag> void recurse(std::size_t depth, std::size_t target, std::size_t limit, bool own, bool thrown, std::string const& d)
    {
        using L = neolib::recursion_limiter<Tag>;
        if (L::depth() != depth) vf::fail("recursion:depth", vf::cat("depth ", L::depth(), " at level ", depth, d));
        try
        {
            std::optional<L> l; if (own) l.emplace(limit); else l.emplace();
            if (depth + 1 > limit) vf::fail("recursion:allowed", vf::cat("level ", depth + 1, " of ", limit, d)); if (l->max_depth() != limit || L::depth() != depth + 1) vf::fail("recursion:depth", d);
            if (depth + 1 < target) { recurse<Tag>(depth + 1, target, limit, own, thrown, d); recurse<Tag>(depth + 1, depth + 2, limit, own, thrown, d); }
            if (thrown) throw oops{};
        }
        catch (typename L::too_deep const& e) { if (depth + 1 <= limit) vf::fail("recursion:refused", vf::cat("level ", depth + 1, " of ", limit, d)); if (!std::string{ e.what() }.size()) vf::fail("recursion:what", d); }
        catch (oops const&) {}
        if (L::depth() != depth) vf::fail("recursion:unwound", vf::cat("depth ", L::depth(), " back at level ", depth, " of ", limit, d)); vf::count("recursions");
    }
}
VF_SCENARIO(scope_guards, 3) { auto live = vf::tracked::live.load(); guards g{ r }; g.go(int(r.below(4))); delete g.owned; if (vf::tracked::live != live) vf::fail("scoped:leak", g.log); vf::distinct(vf::hash(g.log)); vf::sample(g.log.substr(0, 200)); }
VF_SCENARIO(recursion, 2)
{
    bool own = r.chance(1, 2), thrown = r.chance(1, 3); std::size_t limit = own ? r.below(8) : 5, target = 1 + r.below(9); std::string d = vf::cat(" limit ", limit, " target ", target, thrown);
    neolib::recursion_limiter<tag2> other; recurse<tag1>(0, target, limit, own, thrown, d); if (neolib::recursion_limiter<tag2>::depth() != 1) vf::fail("recursion:tags", d);
    if (r.chance(1, 10)) std::thread{ [&] { if (neolib::recursion_limiter<tag2>::depth() != 0) vf::fail("recursion:threads", d); recurse<tag2>(0, target, 2, false, thrown, d); } }.join();
    vf::distinct(vf::hash(d) * 2 + own);
}
namespace
{
    template <template <typename> class C> void steps(vf::rng& r, char const* name)
    {
        i64 n = 1 + i64(r.below(r.chance(1, 5) ? 2000 : 40)), a = 0, b; bool ranged = r.chance(1, 2), init = r.chance(1, 2); i64 span = r.pick<i64>({ 3, 100, 1000000 });
        if (ranged) { a = r.range(-span, span); b = r.range(-span, span); } else b = r.range(0, span);
        C<i64> c; if (!init) c = ranged ? C<i64>{ a, b, n } : C<i64>{ b, n }; else if (ranged) c.init(a, b, n); else c.init(b, n);
        i64 last = 0; auto d = vf::cat(name, " ", a, "..", b, " in ", n);
        for (i64 k = 0; k < n; ++k)
        {
            i64 v = r.chance(1, 2) ? i64(c) : c(); 
            if (k == 0 && v != a) vf::fail("counter:start", vf::cat(d, ": ", v)); if (k > 0 && k == n - 1 && v != b) vf::fail("counter:end", vf::cat(d, ": ", v));
            if (n > 1) { auto err = (v - a) * (n - 1) - (b - a) * k; if (err <= -(n - 1) || err >= n - 1) vf::fail("counter:line", vf::cat(d, ": step ", k, " is ", v)); }
            if (k && (b >= a ? v < last : v > last)) vf::fail("counter:monotone", vf::cat(d, " step ", k)); last = v; vf::count("counter-steps");
        }
        vf::distinct(vf::hash(d));
    }
    struct entry { using key_type = int; int k; std::string payload; operator key_type() const { return k; } };
    template <typename S, bool Multi> void sets(vf::rng& r)
    {
        S s; std::multimap<int, std::string> m; std::string log; auto bad = [&](char const* w) { vf::fail(vf::cat("mutable-set:", w), log); };
        if (r.chance(1, 3)) { std::vector<entry> e; for (auto k = r.below(6); k; --k) e.push_back({ int(r.below(8)), vf::cat("i", k) }); s = r.chance(1, 2) ? S(e.begin(), e.end()) : S{ entry{ 3, "a" }, entry{ 1, "b" }, entry{ 3, "c" } }; m.clear(); if (s.size() == std::size_t(Multi ? 3 : 2) && s.find(1) != s.end() && s.find(1)->payload == "b") e = { { 3, "a" }, { 1, "b" }, { 3, "c" } }; for (auto& x : e) if (Multi || !m.count(x.k)) m.emplace(x.k, x.payload); log += vf::cat("init", e.size(), " "); }
        for (unsigned n = 5 + r.below(40); n; --n)
        {
            int k = int(r.below(10)); auto op = r.below(5); log += vf::cat(op, ":", k, " ");
            switch (op)
            {
            case 0: case 1: { auto p = vf::cat("p", n); auto i = s.insert(entry{ k, p }); if (Multi || !m.count(k)) { m.emplace(k, p); if (i->payload != p) bad("inserted"); } else if (i->payload != m.find(k)->second) bad("existing"); if ((*i).k != k) bad("inserted-key"); break; }
            case 2: { auto i = s.find(k); auto j = std::as_const(s).find(entry{ k, "" }); auto w = m.count(k); if ((i == s.end()) != (w == 0) || (j == std::as_const(s).end()) != (w == 0) || (s.find(entry{ k, "" }) == s.end()) != (w == 0)) bad("find"); if (w && (i->k != k || j->k != k)) bad("found"); break; }
            case 3: { auto i = s.find(k); if (i != s.end()) { auto p = vf::cat("w", n); for (auto j = m.lower_bound(k); j != m.end() && j->first == k; ++j) if (j->second == i->payload) { j->second = p; break; } i->payload = p; } break; }
            case 4: if (s.erase(k) != m.erase(k)) bad("erase"); break;
            }
            if (s.size() != m.size() || s.empty() != m.empty()) bad("size"); auto j = m.begin(); for (auto& e : s) { if (j == m.end() || e.k != j->first || e.payload != j->second) bad("order"); ++j; } if (j != m.end()) bad("lost");
            auto rj = m.rbegin(); for (auto i = s.rbegin(); i != s.rend(); ++i) { if (i->k != rj->first || (*i).payload != rj->second) bad("reverse"); ++rj; } S const& cs = s; j = m.begin(); for (auto i = cs.begin(); i != cs.end(); ++i) { if ((*i).k != j->first || i->payload != j->second) bad("const"); ++j; } vf::count("mutable-sets");
        }
        vf::distinct(vf::hash(log));
    }
}
VF_SCENARIO(counters, 2) { if (r.chance(1, 2)) steps<neolib::bresenham_counter>(r, "bresenham"); else steps<neolib::bresenham_counter_alt>(r, "bresenham_alt"); }
VF_SCENARIO(mutable_sets, 1) { if (r.chance(1, 2)) sets<neolib::mutable_set<entry>, false>(r); else sets<neolib::mutable_multiset<entry>, true>(r); }
VF_MAIN
