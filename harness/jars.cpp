// C19: jars. The oracle maps each cookie handed out to the value stored under it.
#include "vf.hpp"
#include <vector>
#include <map>
#include <set>
#include <thread>
#include <mutex>
#include <memory>
#include <neolib/neolib.hpp>
#include <neolib/core/string.hpp>
#include <neolib/core/jar.hpp>

#if defined(VF_THREADS)
extern "C" char const* __tsan_default_suppressions() { return "race:std::__exception_ptr\n"; }
#endif

namespace
{
    using vf::i64; using vf::u64;
    enum class tiny : std::uint8_t {};
    template <typename T> struct el { static T make(i64 v) { return T(v); } static i64 val(T const& v) { return i64(v); } };
    template <> struct el<vf::tracked> { static vf::tracked make(i64 v) { return vf::tracked{ v }; } static i64 val(vf::tracked const& v) { return vf::val(v); } };
    template <> struct el<neolib::string> { static neolib::string make(i64 v) { return neolib::string{ std::to_string(v) + (v % 2 ? "" : ":beyond-the-small-string-buffer") }; } static i64 val(neolib::i_string const& v) { return std::stoll(v.to_std_string()); } };
    template <> struct el<std::shared_ptr<vf::tracked>> { static vf::tracked make(i64 v) { return vf::tracked{ v }; } static i64 val(std::shared_ptr<vf::tracked> const& v) { return vf::val(*v); } };
    template <> struct el<std::unique_ptr<vf::tracked>> { static vf::tracked make(i64 v) { return vf::tracked{ v }; } static i64 val(std::unique_ptr<vf::tracked> const& v) { return vf::val(*v); } };
    template <typename C> u64 num(C c) { return u64(c); }

    // limit: number of cookies the type can represent (excluding none and invalid)
    template <typename J> struct model
    {
        using C = typename J::cookie_type; using T = typename J::value_type; using E = el<T>;
        char const* name; vf::rng& r; std::string log; i64 nextv = 1;
        struct state { std::map<u64, i64> items; std::set<u64> reserved, dead; };
        [[noreturn]] void bad(char const* what, std::string const& d = {}) { vf::fail(vf::cat(name, ":", what), vf::cat(d, " history: ", log)); }
        void check(J& j, state& s, char const* op)
        {
            J const& cj = j;
            if (cj.size() != s.items.size() || cj.empty() != s.items.empty()) bad("size", vf::cat("after ", op, ": ", cj.size(), " want ", s.items.size()));
            for (auto& [c, v] : s.items)
            {
                if (!cj.contains(C(c))) bad("contains", vf::cat("after ", op, ": cookie ", c, " of a live item is not contained"));
                if (E::val(cj[C(c)]) != v) bad("item", vf::cat("after ", op, ": cookie ", c, " gives ", E::val(cj[C(c)]), " want ", v));
                if (E::val(j[C(c)]) != v) bad("item", op);
                auto f = j.find(C(c)); if (f == j.end() || E::val(*f) != v) bad("find", op);
                auto cf = cj.find(C(c)); if (cf == cj.end() || E::val(*cf) != v) bad("find", op);
                if (num(j.item_cookie(cj[C(c)])) != c) bad("item-cookie", vf::cat("after ", op, ": item of cookie ", c, " says ", num(j.item_cookie(cj[C(c)]))));
            }
            std::multiset<i64> seen, want; for (auto& [c, v] : s.items) want.insert(v);
            for (auto i = cj.begin(); i != cj.end(); ++i) seen.insert(E::val(*i));
            if (seen != want) bad("iteration", op);
            seen.clear(); for (std::size_t i = 0; i < cj.size(); ++i) { seen.insert(E::val(cj.at_index(i))); if (s.items[num(j.item_cookie(j.at_index(i)))] != E::val(j.at_index(i))) bad("index-cookie", op); }
            if (seen != want) bad("at-index", op);
            { bool t = false; try { (void)cj.at_index(cj.size() + r.below(3)); } catch (std::out_of_range const&) { t = true; } if (!t) bad("at-index-range", op); }
            auto absent = [&](u64 c) { if (s.items.count(c)) return; bool t = false; if (j.contains(C(c)) || j.find(C(c)) != j.end()) bad("contains-dead", vf::cat("after ", op, ": cookie ", c)); try { (void)cj[C(c)]; } catch (neolib::cookie_invalid const&) { t = true; } if (!t) bad("dead-cookie", vf::cat("after ", op, ": cookie ", c, " still gives an item")); if (c != 0 && C(c) != neolib::invalid_cookie<C>) return; t = false; try { j.remove(C(c)); } catch (neolib::cookie_invalid const&) { t = true; } if (!t) bad("dead-remove", vf::cat("after ", op, ": cookie ", c)); };
            absent(0); absent(num(neolib::invalid_cookie<C>)); for (auto c : s.dead) if (r.chance(1, 3) && !s.reserved.count(c)) absent(c);
            vf::count("items-checked", s.items.size());
        }
        void fresh(state& s, C c, u64 limit, char const* op)
        {
            auto n = num(c);
            if (n == 0 || c == neolib::invalid_cookie<C>) bad("reserved-cookie", vf::cat(op, " handed out cookie ", n));
            if (s.items.count(n) || s.reserved.count(n)) bad("duplicate-cookie", vf::cat(op, " handed out cookie ", n, " which is in use"));
            if (n > limit) bad("cookie-range", op);
            s.dead.erase(n);
        }
        void run(std::size_t steps, u64 limit, bool fillup)
        {
            auto const before = vf::tracked::live.load();
            {
                auto j = std::make_unique<J>(); state s; auto j2 = std::make_unique<J>(); state s2;
                if constexpr (!neolib::detail::is_smart_ptr_v<T>) if (fillup) { auto n = limit - r.below(12); log += vf::cat("fill", n, " "); for (u64 i = 0; i < n; ++i) { auto c = j->emplace(E::make(nextv)); fresh(s, c, limit, "insert"); s.items[num(c)] = nextv++; } check(*j, s, "fill"); }
                for (std::size_t k = 0; k < steps; ++k)
                {
                    auto op = r.below(20); auto full = s.items.size() + s.reserved.size() >= limit;
                    auto any = [&] { auto i = s.items.begin(); std::advance(i, r.below(s.items.size())); return i; };
                    if (fillup && r.chance(2, 3)) op = r.below(6);
                    switch (op)
                    {
                    case 0: case 1: case 2: case 3: case 4: case 5:
                        {
                            auto v = nextv++; log += vf::cat("+", v, " ");
                            try
                            {
                                C c;
                                if constexpr (!neolib::detail::is_smart_ptr_v<T>) { if (op < 4) { T x = E::make(v); c = j->insert(x); } else c = j->emplace(E::make(v)); }
                                else c = j->emplace(E::make(v));
                                if (full) bad("exhausted", vf::cat("cookie ", num(c), " handed out with ", limit, " in use"));
                                fresh(s, c, limit, "insert"); s.items[num(c)] = v;
                            }
                            catch (neolib::cookies_exhausted const&) { if (!full) bad("exhausted", vf::cat("no cookie with ", s.items.size(), " items of ", limit)); vf::count("exhaustions"); }
                            check(*j, s, "insert");
                        }
                        break;
                    case 6: if (s.items.empty()) break;
                        { auto i = any(); log += vf::cat("-", i->first, " "); auto idx = std::size_t(&j->operator[](C(i->first)) - &j->at_index(0)); auto it = j->remove(C(i->first)); s.dead.insert(i->first); s.items.erase(i); if (it - j->begin() != std::ptrdiff_t(std::min(idx, s.items.size()))) bad("remove-iterator"); check(*j, s, "remove"); } break;
                    case 7: if (s.items.empty()) break;
                        { auto i = any(); log += vf::cat("-item", i->first, " "); j->remove(std::as_const(*j)[C(i->first)]); s.dead.insert(i->first); s.items.erase(i); check(*j, s, "remove-item"); } break;
                    case 8: if (s.items.empty()) break;
                        { auto i = any(); log += vf::cat("-it", i->first, " "); typename J::const_iterator ci = std::as_const(*j).find(C(i->first)); j->erase(ci); s.dead.insert(i->first); s.items.erase(i); check(*j, s, "erase"); } break;
                    case 9: if (s.items.empty()) break;
                        { // erase while iterating
                            log += "sweep "; std::size_t steps2 = 0;
                            for (auto it = j->begin(); it != j->end();) { if (++steps2 > 10000) bad("sweep-endless"); if (E::val(*it) % 3 == 0) { auto v = E::val(*it); for (auto m = s.items.begin(); m != s.items.end(); ++m) if (m->second == v) { s.dead.insert(m->first); s.items.erase(m); break; } it = j->erase(it); } else ++it; }
                            for (auto& [c, v] : s.items) if (v % 3 == 0) bad("sweep", "an item was skipped"); check(*j, s, "sweep"); } break;
                    case 10:
                        { try { auto c = j->next_cookie(); if (full) bad("exhausted"); fresh(s, c, limit, "next_cookie"); s.reserved.insert(num(c)); log += vf::cat("reserve", num(c), " "); } catch (neolib::cookies_exhausted const&) { if (!full) bad("exhausted"); } check(*j, s, "next_cookie"); } break;
                    case 11: if (s.reserved.empty()) break;
                        { auto c = *s.reserved.begin(); s.reserved.erase(c); if (r.chance(1, 2)) { log += vf::cat("return", c, " "); j->return_cookie(C(c)); s.dead.insert(c); check(*j, s, "return_cookie"); } else { auto v = nextv++; log += vf::cat("add", c, " "); if constexpr (!neolib::detail::is_smart_ptr_v<T>) { T x = E::make(v); auto it = j->add(C(c), x); if (E::val(*it) != v) bad("add-iterator"); } else j->add(C(c), E::make(v)); s.items[c] = v; check(*j, s, "add"); } } break;
                    case 12: if (s.items.empty()) break;
                        { auto i = any(); log += "addused "; bool t = false; try { if constexpr (!neolib::detail::is_smart_ptr_v<T>) { T x = E::make(-1); j->add(C(i->first), x); } else j->add(C(i->first), E::make(-1)); } catch (neolib::cookie_already_added const&) { t = true; } if (!t) bad("added-twice"); check(*j, s, "add-used"); } break;
                    case 13: if constexpr (std::is_copy_constructible_v<T>) { log += "copy "; J k{ *j }; auto sk = s; check(k, sk, "copy"); if (!sk.items.empty()) { k.remove(C(sk.items.begin()->first)); sk.items.erase(sk.items.begin()); } check(k, sk, "copy"); check(*j, s, "copied-from"); if (r.chance(1, 2)) { J l; l = *j; auto sl = s; check(l, sl, "copy-assign"); *j = l; check(*j, s, "assign-back"); } } break;
                    case 14: { log += "move "; auto k = std::make_unique<J>(std::move(*j)); check(*k, s, "move"); state e; check(*j, e, "moved-from"); if (r.chance(1, 2)) { *j = std::move(*k); check(*j, s, "move-assign"); check(*k, e, "moved-from"); } else j = std::move(k); } break;
                    case 15: if (r.chance(1, 3)) { log += "clear "; j->clear(); for (auto& [c, v] : s.items) s.dead.insert(c); s.items.clear(); s.reserved.clear(); check(*j, s, "clear"); } break;
                    case 16: if (!s.items.empty()) { auto i = any(); auto v = nextv++; log += vf::cat("write", i->first, " "); if constexpr (!neolib::detail::is_smart_ptr_v<T>) (*j)[C(i->first)] = E::make(v); else *(*j)[C(i->first)] = E::make(v); i->second = v; check(*j, s, "write"); } break;
                    case 18: log += "other "; std::swap(j, j2); std::swap(s, s2); break;
                    case 19: if (!r.chance(1, 2)) break;
                        if constexpr (std::is_copy_constructible_v<T> && !neolib::detail::is_smart_ptr_v<T>) if (r.chance(1, 2)) { log += "from-other "; *j = *j2; s = s2; check(*j, s, "assign-over"); check(*j2, s2, "assigned-from"); break; }
                        log += "move-from-other "; *j = std::move(*j2); s = s2; s2 = state{}; check(*j, s, "move-over"); check(*j2, s2, "moved-from"); break;
                    case 17: if (!s.items.empty() && s.items.size() > 20 && r.chance(1, 2)) { log += "drain "; while (s.items.size() > 5) { auto i = any(); j->remove(C(i->first)); s.dead.insert(i->first); s.items.erase(i); } check(*j, s, "drain"); } break;
                    }
                    vf::max("items", s.items.size());
                }
            }
            vf::distinct(vf::hash(log, vf::hash(name)));
            vf::count("operations", steps);
            if (vf::tracked::live.load() != before) bad("conservation", vf::cat(vf::tracked::live.load() - before));
        }
    };

    // a consumer that keeps the books
    struct consumer : neolib::i_basic_cookie_consumer<neolib::cookie>
    {
        std::map<neolib::cookie, long> n;
        void add_ref(neolib::cookie c, long k = 1) final { n[c] += k; }
        void release(neolib::cookie c, long k = 1) final { if (n[c] < k) vf::fail("cookie_ref_ptr:over-release", vf::cat("cookie ", c)); n[c] -= k; }
        long use_count(neolib::cookie c) const final { auto i = n.find(c); return i == n.end() ? 0 : i->second; }
    };
    void refs(vf::rng& r)
    {
        consumer cs[2]; using P = neolib::cookie_ref_ptr; struct m { int k; neolib::cookie c; };
        std::vector<std::unique_ptr<P>> ps; std::vector<m> ms; std::string log;
        auto check = [&](char const* op) {
            std::map<neolib::cookie, long> want[2]; for (auto& x : ms) if (x.k >= 0 && x.c) ++want[x.k][x.c];
            for (int k = 0; k < 2; ++k) for (neolib::cookie c = 0; c < 6; ++c) if (cs[k].use_count(c) != want[k][c]) vf::fail(vf::cat("cookie_ref_ptr:", op), vf::cat("consumer ", k, " cookie ", c, " has ", cs[k].use_count(c), " references, want ", want[k][c], " ", log));
            for (std::size_t i = 0; i < ps.size(); ++i) { bool v = ms[i].k >= 0 && ms[i].c; if (ps[i]->valid() != v || ps[i]->expired() == v || (v && ps[i]->cookie() != ms[i].c)) vf::fail(vf::cat("cookie_ref_ptr:", op), vf::cat("state of pointer ", i, " ", log)); for (std::size_t j = 0; j < ps.size(); ++j) if (v && ms[j].k >= 0 && ms[j].c && (*ps[i] == *ps[j]) != (ms[i].k == ms[j].k && ms[i].c == ms[j].c)) vf::fail("cookie_ref_ptr:equality", log); }
            vf::count("reference-states", ps.size());
        };
        for (auto n = r.below(60) + 10; n > 0; --n)
        {
            auto op = r.below(8); if (ps.empty() || ps.size() < 3) op = r.below(2); if (ps.size() > 8) op = 7;
            auto a = ps.empty() ? 0 : r.below(ps.size()), b = ps.empty() ? 0 : r.below(ps.size());
            switch (op)
            {
            case 0: ps.push_back(std::make_unique<P>()); ms.push_back({ -1, 0 }); log += "new "; break;
            case 1: { int k = int(r.below(2)); neolib::cookie c = neolib::cookie(r.below(6)); ps.push_back(std::make_unique<P>(cs[k], c)); ms.push_back({ k, c }); log += vf::cat("ref", k, ".", c, " "); } break;
            case 2: ps.push_back(std::make_unique<P>(*ps[a])); { auto x = ms[a]; ms.push_back(x); } log += vf::cat("copy", a, " "); break;
            case 3: ps.push_back(std::make_unique<P>(std::move(*ps[a]))); { auto x = ms[a]; ms.push_back(x); if (x.k >= 0 && x.c) ms[a] = { -1, 0 }; } log += vf::cat("move", a, " "); break;
            case 4: case 5: log += vf::cat(a, "=", b, " "); *ps[a] = *ps[b]; ms[a] = m(ms[b]); break;
            case 6: log += vf::cat(a, "<-", b, " "); *ps[a] = std::move(*ps[b]); if (a != b) { ms[a] = m(ms[b]); if (ms[b].k >= 0 && ms[b].c) ms[b] = { -1, 0 }; } break;
            default: log += vf::cat("del", a, " "); ps.erase(ps.begin() + a); ms.erase(ms.begin() + a);
            }
            check("count");
        }
        ps.clear(); ms.clear(); check("destroyed"); vf::distinct(vf::hash(log));
    }

    // many threads share a jar with a real mutex
    template <typename J> void shared(vf::rng& r, char const* name)
    {
        using C = typename J::cookie_type;
        J j; int const threads = int(r.below(3)) + 2; int const per = int(r.below(150)) + 20; std::vector<std::vector<std::pair<u64, i64>>> kept(threads); std::vector<std::string> errs(threads); std::mutex em; std::set<u64> owned; std::vector<u64> seeds; for (int i = 0; i < threads; ++i) seeds.push_back(r.next());
        auto work = [&](int t) {
            vf::rng q{ seeds[t] }; auto& mine = kept[t];
            for (int k = 0; k < per; ++k)
            {
                if (mine.empty() || q.chance(3, 5))
                {
                    i64 v = i64(t) * 1000000 + k; C c;
                    if (q.chance(1, 4)) { c = j.next_cookie(); if (q.chance(1, 3)) { j.return_cookie(c); continue; } j.add(c, v); } else c = j.insert(v);
                    { std::lock_guard l{ em }; if (!owned.insert(u64(c)).second) errs[t] = vf::cat("cookie ", u64(c), " handed to two threads"); }
                    mine.emplace_back(u64(c), v);
                }
                else
                {
                    auto i = q.below(mine.size()); auto c = C(mine[i].first);
                    if (!j.contains(c)) errs[t] = "own item not contained";
                    { std::scoped_lock l{ j.mutex() }; if (j[c] != mine[i].second) errs[t] = vf::cat("own item reads ", j[c], " want ", mine[i].second); if (q.chance(1, 2)) mine[i].second = j[c] = mine[i].second + 500000; }
                    if (q.chance(1, 2)) { { std::lock_guard l{ em }; owned.erase(u64(c)); } j.remove(c); mine.erase(mine.begin() + i); }
                }
            }
        };
        std::vector<std::thread> ts; for (int i = 0; i < threads; ++i) ts.emplace_back(work, i); for (auto& t : ts) t.join();
        std::size_t total = 0; for (int i = 0; i < threads; ++i) { if (!errs[i].empty()) vf::fail(vf::cat(name, ":threads"), errs[i]); total += kept[i].size(); for (auto& [c, v] : kept[i]) if (j[C(c)] != v) vf::fail(vf::cat(name, ":threads-item"), vf::cat("cookie ", c)); }
        if (j.size() != total) vf::fail(vf::cat(name, ":threads-size"), vf::cat(j.size(), " want ", total));
        vf::count("shared-operations", u64(threads) * per); vf::distinct(vf::hash(vf::cat(seeds[0], total)));
    }
}

#if !defined(VF_THREADS)
template <typename J> void hist(char const* n, vf::rng& r, std::size_t steps, u64 limit, bool fill = false) { model<J>{ n, r }.run(steps, limit, fill); }
using tiny_jar = neolib::basic_jar<int, neolib::vector<int>, tiny>;
using tiny_std = neolib::basic_std_vector_jar<vf::tracked, std::uint8_t>;
VF_SCENARIO(jar_tracked, 3) { hist<neolib::jar<vf::tracked>>("jar", r, 80, 0xFFFFFFFE); }
VF_SCENARIO(jar_string, 2) { hist<neolib::jar<neolib::string>>("jar-string", r, 50, 0xFFFFFFFE); }
VF_SCENARIO(jar_small, 1) { hist<neolib::small_jar<int>>("small_jar", r, 80, 0xFFFE); }
VF_SCENARIO(jar_tiny, 2) { hist<tiny_jar>("tiny-jar", r, 60, 254, true); }
VF_SCENARIO(std_tracked, 3) { hist<neolib::std_vector_jar<vf::tracked, std::recursive_mutex>>("std_vector_jar", r, 80, 0xFFFFFFFE); }
VF_SCENARIO(std_tiny, 2) { hist<tiny_std>("tiny-std_vector_jar", r, 60, 254, true); }
VF_SCENARIO(std_shared_ptr, 1) { hist<neolib::std_vector_jar<std::shared_ptr<vf::tracked>>>("std_vector_jar-shared_ptr", r, 60, 0xFFFFFFFE); }
VF_SCENARIO(std_unique_ptr, 1) { hist<neolib::std_vector_jar<std::unique_ptr<vf::tracked>>>("std_vector_jar-unique_ptr", r, 60, 0xFFFFFFFE); }
VF_SCENARIO(cookie_refs, 2) { refs(r); }
#else
VF_SCENARIO(shared_std, 1) { shared<neolib::std_vector_jar<i64, std::recursive_mutex>>(r, "std_vector_jar"); }
VF_SCENARIO(shared_jar, 1) { shared<neolib::jar<i64, std::recursive_mutex>>(r, "jar"); }
#endif
VF_MAIN
