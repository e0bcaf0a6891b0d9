// C36: small-buffer vectors (inline storage, then heap), their capacity limit, and the pool allocators.
#include "seqmodel.hpp"
#include <cstring>
#include <list>
#include <map>
#include <sstream>
#include <neolib/neolib.hpp>
#include <neolib/core/static_vector.hpp>
#include <neolib/core/vecarray.hpp>
#include <neolib/core/polymorphic_vecarray.hpp>
#include <neolib/core/string.hpp>
#include <neolib/core/allocator.hpp>

namespace
{
    using vf::i64; using vf::u64;
    seq::caps const bounded = [] { seq::caps k; k.swap = false; k.largeReserve = false; return k; }();
    seq::caps const unbounded = [] { seq::caps k; k.swap = false; return k; }();

    // is the storage inside the object?
    template <typename C> bool inside(C const& c) { auto p = reinterpret_cast<char const*>(c.data()), o = reinterpret_cast<char const*>(&c); return p >= o && p < o + sizeof(C); }

    template <typename C, std::size_t Cap> void storage(vf::rng& r, char const* name)
    {
        using T = typename C::value_type; using E = seq::elem<T>;
        auto const before = vf::tracked::live.load();
        {
            std::vector<std::pair<typename C::std_type, std::vector<i64>>> plain; std::vector<std::unique_ptr<C>> cs; std::vector<std::vector<i64>> ms; std::string log; i64 nextv = 1;
            auto bad = [&](char const* what, std::string const& d) { vf::fail(vf::cat(name, ":", what), vf::cat(d, " history: ", log)); };
            auto check = [&](char const* op) {
                for (std::size_t i = 0; i < cs.size(); ++i)
                {
                    C const& c = *cs[i]; auto const& m = ms[i];
                    if (c.size() != m.size()) bad(op, vf::cat("vector ", i, " size ", c.size(), " want ", m.size()));
                    for (std::size_t k = 0; k < m.size(); ++k) if (E::val(c[k]) != m[k]) bad(op, vf::cat("vector ", i, " element ", k, " is ", E::val(c[k]), " want ", m[k]));
                    if (c.capacity() < c.size()) bad("capacity", op);
                    // nobody else's storage
                    for (std::size_t j = 0; j < i; ++j) if (c.size() && cs[j]->size()) { auto a = reinterpret_cast<char const*>(c.data()), b = reinterpret_cast<char const*>(cs[j]->data()); if (a == b) bad("shared-storage", op); }
                    auto p = reinterpret_cast<char const*>(c.data());
                    for (std::size_t j = 0; j < cs.size(); ++j) if (j != i && c.size()) { auto o = reinterpret_cast<char const*>(&*cs[j]); if (p >= o && p < o + sizeof(C)) bad("foreign-storage", op); }
                    vf::count("elements-compared", m.size());
                    auto sv = c.to_std_vector(); if (sv.size() != m.size() || !std::equal(sv.begin(), sv.end(), m.begin(), [](auto& e, i64 v) { return E::val(e) == v; })) bad("to_std_vector", op);
                }
                for (auto& [v, m] : plain) if (v.size() != m.size() || !std::equal(v.begin(), v.end(), m.begin(), [](auto& e, i64 x) { return E::val(e) == x; })) bad("plain-copy", op);
            };
            auto n = r.below(40) + 5;
            for (std::size_t s = 0; s < n; ++s)
            {
                auto op = r.below(11);
                if (cs.empty() || (op == 0 && cs.size() < 6))
                {
                    auto k = r.below(Cap * 2 + 2); std::vector<T> src; std::vector<i64> m; for (std::size_t i = 0; i < k; ++i) { src.push_back(E::make(nextv)); m.push_back(nextv++); }
                    log += vf::cat("new", k, " ");
                    auto how = r.below(3);
                    switch (how)
                    {
                    case 0: cs.push_back(std::make_unique<C>(src.begin(), src.end())); break;
                    case 1: cs.push_back(std::make_unique<C>()); for (auto& e : src) cs.back()->push_back(e); break;
                    default: { std::unique_ptr<C> c{ new C{ E::make(nextv), E::make(nextv + 1), E::make(nextv + 2) } }; m = { nextv, nextv + 1, nextv + 2 }; nextv += 3; cs.push_back(std::move(c)); }
                    }
                    ms.push_back(m); check("construct");
                    if (how == 1 && m.size() <= Cap && m.size() && !inside(*cs.back())) bad("inline", vf::cat(m.size(), " elements of ", Cap, " are not stored inline"));
                    if (m.size() <= Cap && m.size()) vf::count("inline-vectors");
                    else if (m.size()) vf::count("spilled-vectors");
                    continue;
                }
                auto a = r.below(cs.size()), b = r.below(cs.size());
                switch (op)
                {
                case 1: if (cs.size() < 6) { log += vf::cat("copy", a, " "); auto c = std::make_unique<C>(*cs[a]); cs.push_back(std::move(c)); auto m = ms[a]; ms.push_back(m); check("copy"); } break;
                case 2: if (cs.size() < 6) { log += vf::cat("move", a, " "); auto c = std::make_unique<C>(std::move(*cs[a])); cs.push_back(std::move(c)); auto m = ms[a]; ms.push_back(m); cs[a]->clear(); ms[a].clear(); check("move"); } break;
                case 3: log += vf::cat("assign", a, "=", b, " "); *cs[a] = *cs[b]; { auto m = ms[b]; ms[a] = m; } check("assign"); break;
                case 4: if (a != b) { log += vf::cat("moveassign", a, "=", b, " "); *cs[a] = std::move(*cs[b]); { auto m = ms[b]; ms[a] = m; } cs[b]->clear(); ms[b].clear(); check("move-assign"); } break;
                case 5: { auto k = r.below(Cap + 2); log += vf::cat("push", a, "x", k, " "); for (std::size_t i = 0; i < k && ms[a].size() < 3 * Cap; ++i) { T v = E::make(nextv); cs[a]->push_back(v); ms[a].push_back(nextv++); } check("push_back"); } break;
                case 6: { auto k = r.below(ms[a].size() + 1); log += vf::cat("pop", a, "x", k, " "); for (std::size_t i = 0; i < k; ++i) { cs[a]->pop_back(); ms[a].pop_back(); } check("pop_back"); } break;
                case 7: log += vf::cat("delete", a, " "); cs.erase(cs.begin() + a); ms.erase(ms.begin() + a); check("destroy"); break;
                case 8: if constexpr (requires { cs[a]->shrink_to_fit(); }) { log += vf::cat("shrink", a, " "); cs[a]->shrink_to_fit(); check("shrink_to_fit"); } break;
                case 9: if (plain.size() < 4) { log += vf::cat("plain", a, " "); plain.emplace_back(std::as_const(*cs[a]).as_std_vector(), ms[a]); } break;
                case 10: if (!plain.empty()) { auto i = r.below(plain.size()); log += vf::cat("grow-plain", i, " "); for (auto k = r.below(Cap); k > 0 && plain[i].second.size() < 3 * Cap; --k) { plain[i].first.push_back(E::make(nextv)); plain[i].second.push_back(nextv++); } if (r.chance(1, 3)) plain.erase(plain.begin() + i); check("plain-copy"); } break;
                }
            }
            vf::distinct(vf::hash(log));
        }
        if (vf::tracked::live.load() != before) vf::fail(vf::cat(name, ":conservation"), vf::cat(vf::tracked::live.load() - before));
    }
    // a vector with a maximum refuses to exceed it, and is unharmed by the refusal
    template <typename C, std::size_t Max> void limit(vf::rng& r, char const* name)
    {
        using T = typename C::value_type; using E = seq::elem<T>;
        C c; std::vector<i64> m; auto const before = r.below(Max + 1); for (std::size_t i = 0; i < before; ++i) { T v = E::make(i64(i)); c.push_back(v); m.push_back(i64(i)); }
        auto check = [&](char const* op) { if (c.size() != m.size()) vf::fail(vf::cat(name, ":limit-", op), vf::cat("size ", c.size(), " want ", m.size())); for (std::size_t i = 0; i < m.size(); ++i) if (E::val(c[i]) != m[i]) vf::fail(vf::cat(name, ":limit-", op), vf::cat("element ", i)); };
        if (c.max_size() != Max || c.available() != Max - m.size()) vf::fail(vf::cat(name, ":max_size"), vf::cat(c.max_size(), " available ", c.available(), " of ", Max, " with ", m.size()));
        vf::distinct(vf::hash(vf::cat(name, before)));
        while (m.size() < Max) { T v = E::make(7); c.push_back(v); m.push_back(7); }
        check("filled");
        for (int i = 0; i < 2; ++i) { bool thrown = false; try { T v = E::make(8); c.push_back(v); } catch (std::length_error const&) { thrown = true; } if (!thrown) vf::fail(vf::cat(name, ":limit"), vf::cat("push_back beyond ", Max, " accepted")); check("refused"); }
        { bool thrown = false; try { c.resize(Max + 1 + r.below(100)); } catch (std::length_error const&) { thrown = true; } if (!thrown) vf::fail(vf::cat(name, ":limit"), "resize beyond the maximum accepted"); check("refused"); }
        { bool thrown = false; try { c.reserve(Max + 1 + r.below(100)); } catch (std::length_error const&) { thrown = true; } if (!thrown) vf::fail(vf::cat(name, ":limit"), "reserve beyond the maximum accepted"); check("refused"); }
        c.pop_back(); m.pop_back(); T v = E::make(9); c.push_back(v); m.push_back(9); check("reused"); vf::count("limits-reached");
    }
    // blocks handed out by an allocator: aligned, disjoint, stable
    template <typename T> struct blocks
    {
        struct b { T* p; std::size_t n; unsigned char tag; };
        std::vector<b> live; vf::rng& r; char const* name; std::string log; u64 got = 0;
        void take(T* p, std::size_t n)
        {
            if (!p || reinterpret_cast<std::uintptr_t>(p) % alignof(T)) vf::fail(vf::cat(name, ":alignment"), log);
            auto s = reinterpret_cast<unsigned char*>(p);
            for (auto& o : live) { auto q = reinterpret_cast<unsigned char*>(o.p); if (s < q + o.n * sizeof(T) && q < s + n * sizeof(T)) vf::fail(vf::cat(name, ":overlap"), vf::cat("a block of ", n, " overlaps a live block of ", o.n, " ", log)); }
            unsigned char t = static_cast<unsigned char>(r.below(250) + 1); std::memset(s, t, n * sizeof(T)); live.push_back({ p, n, t }); ++got;
        }
        void check() { for (auto& o : live) { auto q = reinterpret_cast<unsigned char*>(o.p); for (std::size_t i = 0; i < o.n * sizeof(T); ++i) if (q[i] != o.tag) vf::fail(vf::cat(name, ":corrupted"), vf::cat("byte ", i, " of a live block changed ", log)); } vf::count("blocks-checked", live.size()); }
    };
    template <typename A> void pooled(vf::rng& r, char const* name)
    {
        using T = typename A::value_type; A a; blocks<T> b{ {}, r, name, {} };
        auto n = r.below(300) + 20;
        for (std::size_t s = 0; s < n; ++s)
        {
            if (b.live.size() < 200 && r.chance(3, 5)) { std::size_t k = r.chance(1, 10) ? r.below(20) + 2 : 1; b.log += vf::cat("+", k); b.take(a.allocate(k), k); }
            else if (!b.live.empty()) { auto i = r.below(b.live.size()); if (r.chance(1, 2)) i = b.live.size() - 1; b.log += vf::cat("-", i); a.deallocate(b.live[i].p, b.live[i].n); b.live.erase(b.live.begin() + i); }
            if (s % 16 == 0) b.check();
        }
        b.check(); for (auto& o : b.live) a.deallocate(o.p, o.n);
        vf::count("blocks", b.got); vf::distinct(vf::hash(b.log, vf::hash(name)));
    }
    template <typename A> void omega(vf::rng& r, char const* name)
    {
        using T = typename A::value_type; A a; blocks<T> b{ {}, r, name, {} };
        a.omega_recycle(); auto chunks = [&] { std::ostringstream o; a.info(o); auto t = o.str(); return std::stoul(t.substr(t.find(':') + 1)); };
        std::size_t most = 0;
        for (auto round = r.below(4) + 2; round > 0; --round)
        {
            auto n = r.below(200); b.log += vf::cat("+", n, " ");
            auto had = chunks();
            for (std::size_t i = 0; i < n; ++i) { b.take(a.allocate(1), 1); if (r.chance(1, 8)) a.deallocate(b.live[r.below(b.live.size())].p, 1); }
            b.check();
            if (n <= most && chunks() != had) vf::fail(vf::cat(name, ":recycle"), vf::cat("recycled blocks were not reused: ", chunks(), " chunks, had ", had, " ", b.log));
            most = std::max(most, n);
            b.live.clear(); a.omega_recycle();
        }
        vf::count("blocks", b.got); vf::distinct(vf::hash(b.log, vf::hash(name)));
    }
    template <typename T, std::size_t N, std::size_t I> void reserved(vf::rng& r, char const* name)
    {
        neolib::reserve_allocator<T, N, I> a, other; blocks<T> b{ {}, r, name, {} };
        auto n = r.below(200) + 3 * N;
        for (std::size_t s = 0; s < n; ++s)
        {
            if (r.chance(3, 5))
            {
                bool thrown = false; b.log += '+';
                try { b.take((r.chance(1, 2) ? a : other).allocate(1), 1); } catch (std::bad_alloc const&) { thrown = true; }
                if (thrown != (b.live.size() == N) && thrown) vf::fail(vf::cat(name, ":refused"), vf::cat("refused with ", b.live.size(), " of ", N, " in use"));
                if (b.live.size() > N) vf::fail(vf::cat(name, ":over-reserve"), b.log);
                if (thrown) vf::count("reserve-exhausted");
            }
            else if (!b.live.empty()) { auto i = r.below(b.live.size()); b.log += vf::cat("-", i); (r.chance(1, 2) ? a : other).deallocate(b.live[i].p, 1); b.live.erase(b.live.begin() + i); }
            if (s % 8 == 0) b.check();
        }
        b.check(); for (auto& o : b.live) a.deallocate(o.p);
        if (r.chance(1, 4)) { bool thrown = false; try { a.allocate(2); } catch (std::bad_alloc const&) { thrown = true; } if (!thrown) vf::fail(vf::cat(name, ":array"), "an array was allocated from a reserve of single objects"); }
        vf::distinct(vf::hash(b.log, vf::hash(name)));
    }
    // standard containers on the pool allocators
    template <template <typename> class A> void onpool(vf::rng& r, char const* name)
    {
        auto const before = vf::tracked::live.load();
        {
            std::list<vf::tracked, A<vf::tracked>> l; std::list<i64> ml; std::map<int, std::string, std::less<int>, A<std::pair<int const, std::string>>> mp; std::map<int, std::string> mm; std::string log; i64 nv = 1;
            for (auto n = r.below(120) + 10; n > 0; --n) switch (auto op = r.below(7))
            {
            case 0: case 1: { auto p = r.below(ml.size() + 1); log += vf::cat("i", p); l.insert(std::next(l.begin(), p), vf::tracked{ nv }); ml.insert(std::next(ml.begin(), p), nv++); } break;
            case 2: if (!ml.empty()) { auto p = r.below(ml.size()); log += vf::cat("e", p); l.erase(std::next(l.begin(), p)); ml.erase(std::next(ml.begin(), p)); } break;
            case 3: case 4: { int k = int(r.below(60)); log += vf::cat("m", k); auto s = seq::elem<std::string>::make(nv++); mp[k] = s; mm[k] = s; } break;
            case 5: { int k = int(r.below(60)); log += vf::cat("x", k); mp.erase(k); mm.erase(k); } break;
            default: { auto c = l; auto d = mp; c.clear(); d.clear(); log += "c"; } break;
            }
            auto bad = [&](char const* w) { vf::fail(vf::cat(name, ":", w), log); };
            if (l.size() != ml.size()) bad("list"); auto i = ml.begin(); for (auto& e : l) if (vf::val(e) != *i++) bad("list");
            if (!std::equal(mp.begin(), mp.end(), mm.begin(), mm.end(), [](auto& a, auto& b) { return a.first == b.first && a.second == b.second; })) bad("map");
            vf::distinct(vf::hash(log, vf::hash(name)));
        }
        if (vf::tracked::live.load() != before) vf::fail(vf::cat(name, ":conservation"), vf::cat(vf::tracked::live.load() - before));
    }
    template <typename T> using pool_a = neolib::neo_pool_allocator<T, 256, false, 7>;
    template <typename T> using pool_b = neolib::neo_pool_allocator<T>;
    struct odd { char c[13]; }; struct alignas(16) wide { double d[4]; };
    template <std::size_t N, std::size_t M> struct pv : neolib::polymorphic::vecarray<vf::tracked, N, M> { using b = neolib::polymorphic::vecarray<vf::tracked, N, M>; using b::b; using b::operator=; };
}

VF_SCENARIO(grow_int4, 2) { seq::history<neolib::small_vector<int, 4>>("small_vector", r, 60, 60, unbounded); }
VF_SCENARIO(grow_tracked3, 3) { seq::history<neolib::small_vector<vf::tracked, 3>>("small_vector", r, 80, 40, unbounded); }
VF_SCENARIO(grow_tracked16, 2) { seq::history<neolib::growable_static_vector<vf::tracked, 16, 64>>("growable_static_vector", r, 80, 62, bounded); }
VF_SCENARIO(grow_string5, 1) { seq::history<neolib::vecarray<std::string, 5, 40>>("vecarray", r, 60, 38, bounded); }
VF_SCENARIO(poly_int6, 2) { seq::history<neolib::polymorphic::vecarray<int, 6, 200>>("polymorphic-vecarray", r, 60, 100, bounded); }
VF_SCENARIO(poly_tracked4, 2) { seq::history<neolib::polymorphic::vecarray<vf::tracked, 4, 100>>("polymorphic-vecarray", r, 60, 50, bounded); }
VF_SCENARIO(store_tracked, 3) { storage<neolib::small_vector<vf::tracked, 5>, 5>(r, "small_vector"); }
VF_SCENARIO(store_string, 1) { storage<neolib::vecarray<std::string, 3, 64>, 3>(r, "vecarray"); }
VF_SCENARIO(store_poly, 2) { storage<neolib::polymorphic::vecarray<vf::tracked, 5, 64>, 5>(r, "polymorphic-vecarray"); }
VF_SCENARIO(limits, 1)
{
    limit<neolib::growable_static_vector<vf::tracked, 4, 16>, 16>(r, "growable_static_vector"); limit<neolib::vecarray<int, 3, 20>, 20>(r, "vecarray");
    limit<neolib::polymorphic::vecarray<vf::tracked, 4, 4>, 4>(r, "polymorphic-vecarray"); limit<neolib::polymorphic::vecarray<int, 2, 9>, 9>(r, "polymorphic-vecarray");
}
VF_SCENARIO(pools, 3)
{
    switch (r.below(6))
    {
    case 0: pooled<neolib::neo_pool_allocator<int>>(r, "pool-int"); break;
    case 1: pooled<neolib::neo_pool_allocator<odd, 64>>(r, "pool-odd"); break;
    case 2: pooled<neolib::neo_pool_allocator<wide, 100>>(r, "pool-wide"); break;
    case 3: pooled<neolib::neo_pool_allocator<char, 32, false, 3>>(r, "pool-char"); break;
    case 4: pooled<neolib::neo_pool_allocator<wide, 8>>(r, "pool-one-per-chunk"); break;
    case 5: pooled<neolib::neo_pool_allocator<std::uint64_t, 8192>>(r, "pool-u64"); break;
    }
}
VF_SCENARIO(omegas, 2) { switch (r.below(3)) { case 0: omega<neolib::omega_pool_allocator<std::uint64_t, 256>>(r, "omega-u64"); break; case 1: omega<neolib::omega_pool_allocator<wide, 128>>(r, "omega-wide"); break; case 2: omega<neolib::omega_pool_allocator<odd, 100>>(r, "omega-odd"); break; } }
VF_SCENARIO(reserves, 1) { reserved<int, 8, 0>(r, "reserve-int"); reserved<wide, 3, 0>(r, "reserve-wide"); reserved<std::uint64_t, 1, 2>(r, "reserve-one"); }
VF_SCENARIO(containers_on_pools, 2) { if (r.chance(1, 2)) onpool<pool_a>(r, "on-pool"); else onpool<pool_b>(r, "on-default-pool"); }
VF_MAIN
