// C16: the plugin-boundary containers behave as their standard counterparts through the abstract interfaces.
#include "vf.hpp"
#include <neolib/neolib.hpp>
#include <neolib/core/vector.hpp>
#include <neolib/core/list.hpp>
#include <neolib/core/deque.hpp>
#include <neolib/core/set.hpp>
#include <neolib/core/map.hpp>
#include <neolib/core/unordered_map.hpp>
#include <neolib/core/string.hpp>
#include <deque>
#include <list>
#include <set>
#include <map>
#include <algorithm>

namespace
{
    std::string show1(int v) { return std::to_string(v); }
    std::string show1(std::string const& v) { return vf::show(v, 40); }
    int plain(int v) { return v; }
    std::string plain(neolib::i_string const& s) { return s.to_std_string(); }
    template <typename T> struct kind;
    template <> struct kind<int> { using model = int; static int make(vf::rng& r) { return static_cast<int>(r.below(12)); } static int fresh() { return 0; } };
    template <> struct kind<neolib::string> { using model = std::string; static std::string make(vf::rng& r) { auto n = r.below(8); return n == 0 ? "" : n == 1 ? std::string(40, char('a' + r.below(3))) : std::string(1, char('a' + r.below(10))) + (n == 2 ? std::string("\0\xff", 2) : ""); } static std::string fresh() { return ""; } };

    template <typename C, typename M> void same(C const& c, M const& m, std::string const& log)
    {
        if (c.size() != m.size() || c.empty() != m.empty()) vf::fail("containers:size", vf::cat(c.size(), " want ", m.size(), log));
        auto w = m.begin(); std::size_t n = 0;
        for (auto i = c.begin(); i != c.end(); ++i, ++w, ++n) { if (n >= m.size()) vf::fail("containers:iteration", log); if (plain(*i) != *w) vf::fail("containers:value", vf::cat("at ", n, ": ", show1(plain(*i)), " want ", show1(*w), log)); }
        if (n != m.size()) vf::fail("containers:iteration", log);
        auto b = m.rbegin(); n = 0;
        for (auto i = c.rbegin(); i != c.rend(); ++i, ++b, ++n) { if (n >= m.size() || plain(*i) != *b) vf::fail("containers:reverse", log); }
        if (n != m.size()) vf::fail("containers:reverse", log);
    }
    // positions in a container through its abstract iterators
    template <typename A> auto at(A& a, std::size_t n) { auto i = a.begin(); while (n-- > 0) ++i; return i; }
    template <typename A> auto cat_(A const& a, std::size_t n) { auto i = a.cbegin(); while (n-- > 0) ++i; return i; }

    template <typename C, typename T, bool Indexed, bool Front> void sequence(vf::rng& r)
    {
        using K = kind<T>; using M = typename K::model; using A = typename C::abstract_type;
        C c, d; std::vector<M> m, md; std::string log;
        for (auto n = r.size(25, 120); n-- > 0;)
        {
            A& a = c; M v = K::make(r); T tv{ v }; auto i = r.below(m.size() + 1), j = i + r.below(m.size() - i + 1);
            auto op = r.below(16); log += vf::cat(" ", op, ":", i, ",", j, show1(v));
            switch (op)
            {
            case 0: case 1: a.push_back(tv); m.push_back(v); break;
            case 2: if (!m.empty()) { a.pop_back(); m.pop_back(); } break;
            case 3: case 4: { auto it = r.chance(1, 2) ? a.insert(at(a, i), tv) : a.insert(cat_(a, i), tv); m.insert(m.begin() + i, v); if (it != at(a, i) || plain(*it) != v) vf::fail("containers:insert-result", log); } break;
            case 5: if (i < m.size()) { auto it = r.chance(1, 2) ? a.erase(at(a, i)) : a.erase(cat_(a, i)); m.erase(m.begin() + i); if (it != at(a, i)) vf::fail("containers:erase-result", log); } break;
            case 6: { auto it = r.chance(1, 2) ? a.erase(at(a, i), at(a, j)) : a.erase(cat_(a, i), cat_(a, j)); m.erase(m.begin() + i, m.begin() + j); if (it != at(a, i)) vf::fail("containers:erase-range-result", log); } break;
            case 7: if (r.chance(1, 4)) { a.clear(); m.clear(); } break;
            case 8: { auto k = r.below(m.size() + 5); a.resize(k); m.resize(k, K::fresh()); } break;
            case 9: { auto k = r.below(m.size() + 5); a.resize(k, tv); m.resize(k, v); } break;
            case 10: { A& b = d; b.assign(a); md = m; if (r.chance(1, 4)) a.assign(static_cast<A const&>(c)); } break;
            case 11: { C e{ c }; same(static_cast<A const&>(e), m, log + " copy"); if (!(e == c) || (e <=> c) != 0) vf::fail("containers:compare-equal", log); C f{ std::move(e) }; same(static_cast<A const&>(f), m, log + " move"); e = f; d = std::move(f); md = m; same(static_cast<A const&>(e), m, log + " assign"); } break;
            case 12: { c = d; m = md; } break;
            case 13: if (!m.empty()) { if (plain(a.front()) != m.front() || plain(a.back()) != m.back()) vf::fail("containers:ends", log); a.front() = tv; m.front() = v; a.back() = tv; m.back() = v; } break;
            case 14: if (i < m.size()) { auto it = at(a, i); *it = tv; m[i] = v; } break;
            case 15: { a.reserve(r.below(50)); if (m.empty() == false && r.chance(1, 2)) { a.push_back(a.front()); m.push_back(M(m.front())); } } break;
            }
            if constexpr (Front) if (r.chance(1, 6)) { if (r.chance(1, 2)) { c.push_front(tv); m.insert(m.begin(), v); log += " pf"; } else if (!m.empty()) { c.pop_front(); m.erase(m.begin()); log += " popf"; } }
            same(static_cast<A const&>(c), m, log); same(static_cast<A const&>(d), md, log);
            if (((c <=> d) < 0) != (m < md) || ((c <=> d) > 0) != (md < m) || (c == d) != (m == md)) vf::fail("containers:compare", log);
            if constexpr (Indexed)
            {
                if (!m.empty()) { auto k = r.below(m.size()); if (plain(a[k]) != m[k] || plain(a.at(k)) != m[k] || plain(static_cast<A const&>(a)[k]) != m[k]) vf::fail("containers:index", log); if (static_cast<std::size_t>(a.end() - a.begin()) != m.size() || plain(*(a.begin() += k)) != m[k] || !(a.begin() < a.end()) || a.begin() > a.end()) vf::fail("containers:iterator-arithmetic", log); }
                bool t = false; try { a.at(m.size()); } catch (std::out_of_range const&) { t = true; } if (!t) vf::fail("containers:at", log);
            }
            if (!m.empty())
            {
                auto k = r.below(m.size()); auto it = at(a, k); auto old = it++; auto ci = cat_(a, k); auto cold = ci++;
                if (plain(*old) != m[k] || plain(*cold) != m[k] || !(it == at(a, k + 1)) || ci != cat_(a, k + 1) || (it-- == at(a, k)) || (ci-- == cat_(a, k)) || it != old || ci != cold || plain(*it) != m[k]) vf::fail("containers:post-increment", vf::cat("at ", k, log));
                typename A::const_iterator conv{ it }; if (plain(*conv) != m[k] || conv != ci) vf::fail("containers:iterator-conversion", log);
                if constexpr (requires(typename A::iterator n) { n.is_singular(); }) { bool t = false; try { typename A::iterator none; (void)*none; } catch (neolib::singular_iterator const&) { t = true; } if (!t) vf::fail("containers:singular", log); }
                if constexpr (Indexed) { auto h = r.below(m.size() + 1); if (k + h < m.size() && plain(*(at(a, k) + h)) != m[k + h]) vf::fail("containers:offset", log); if (h <= k && (plain(*(at(a, k) - h)) != m[k - h] || plain(*(cat_(a, k) - h)) != m[k - h] || at(a, k) - at(a, k - h) != static_cast<std::ptrdiff_t>(h))) vf::fail("containers:offset", log); }
            }
            vf::count("operations");
        }
        vf::distinct(vf::hash(log)); vf::sample(log.substr(0, 100));
    }
    template <typename C, typename T, bool Multi> void sets(vf::rng& r)
    {
        using K = kind<T>; using M = typename K::model; using A = typename C::abstract_type;
        C c, d; std::multiset<M> m, md; std::string log;
        for (auto n = r.size(25, 120); n-- > 0;)
        {
            A& a = c; M v = K::make(r); T tv{ v }; auto op = r.below(8); auto i = r.below(m.size() + 1), j = i + r.below(m.size() - i + 1); log += vf::cat(" ", op, ":", i, show1(v));
            switch (op)
            {
            case 0: case 1: case 2: { auto it = a.insert(tv); if (Multi || !m.count(v)) m.insert(v); if (plain(*it) != v) vf::fail("containers:set-insert", log); } break;
            case 3: { auto it = a.find(tv); if ((it == a.end()) != !m.count(v) || (it != a.end() && plain(*it) != v)) vf::fail("containers:set-find", log); auto ci = static_cast<A const&>(a).find(tv); if ((ci == static_cast<A const&>(a).end()) != !m.count(v)) vf::fail("containers:set-find", log); } break;
            case 4: if (i < m.size()) { auto it = a.erase(at(a, i)); m.erase(std::next(m.begin(), i)); if (it != at(a, i)) vf::fail("containers:set-erase", log); } break;
            case 5: { auto it = a.erase(at(a, i), at(a, j)); m.erase(std::next(m.begin(), i), std::next(m.begin(), j)); if (it != at(a, i)) vf::fail("containers:set-erase", log); } break;
            case 6: d.assign(a); md = m; break;
            case 7: if (r.chance(1, 4)) { a.clear(); m.clear(); } else { C e{ static_cast<A const&>(d) }; same(static_cast<A const&>(e), md, log); } break;
            }
            same(static_cast<A const&>(c), m, log); same(static_cast<A const&>(d), md, log); vf::count("operations");
        }
        vf::distinct(vf::hash(log));
    }
    template <typename C, typename KT, typename VT, bool Multi, bool Ordered> void maps(vf::rng& r)
    {
        using K = kind<KT>; using V = kind<VT>; using KM = typename K::model; using VM = typename V::model; using A = typename C::abstract_type;
        C c, d; std::multimap<KM, VM> m, md; std::string log;
        auto check = [&](C& x, std::multimap<KM, VM> const& w)
        {
            A const& a = x; if (a.size() != w.size()) vf::fail("containers:map-size", vf::cat(a.size(), " want ", w.size(), log));
            std::vector<std::pair<KM, VM>> got, want(w.begin(), w.end()); std::size_t n = 0;
            for (auto i = a.begin(); i != a.end(); ++i) { if (++n > w.size()) vf::fail("containers:map-iteration", log); got.emplace_back(plain(i->first()), plain((*i).second())); }
            if constexpr (Ordered) { for (std::size_t k = 1; k < got.size(); ++k) if (got[k].first < got[k - 1].first) vf::fail("containers:map-order", log); if (got != want && !Multi) vf::fail("containers:map-value", log); }
            if constexpr (Ordered && Multi) if (got != want) vf::fail("containers:multimap-order", log);
            std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); if (got != want) vf::fail("containers:map-value", log);
        };
        for (auto n = r.size(25, 120); n-- > 0;)
        {
            A& a = c; KM k = K::make(r); VM v = V::make(r); KT tk{ k }; VT tv{ v }; auto op = r.below(10); log += vf::cat(" ", op, ":", show1(k), show1(v));
            switch (op)
            {
            case 0: case 1: { auto it = a.insert(tk, tv); if (Multi || !m.count(k)) m.emplace(k, v); if (plain(it->first()) != k) vf::fail("containers:map-insert", log); if (plain(it->second()) != (Multi ? v : m.find(k)->second)) vf::fail("containers:map-insert", log); } break;
            case 2: { neolib::pair<const KT, VT> p{ tk, tv }; a.insert(p); if (Multi || !m.count(k)) m.emplace(k, v); } break;
            case 3: { auto it = a.find(tk); if ((it == a.end()) != !m.count(k)) vf::fail("containers:map-find", log); if (it != a.end() && plain(it->first()) != k) vf::fail("containers:map-find", log); if (!Multi && it != a.end()) { it->second() = tv; m.find(k)->second = v; } } break;
            case 4: if constexpr (!Multi) { a[tk] = tv; auto f = m.find(k); if (f == m.end()) m.emplace(k, v); else f->second = v; } break;
            case 5: if constexpr (!Multi) { bool t = false; try { if (plain(a.at(tk)) != m.find(k)->second) vf::fail("containers:map-at", log); } catch (std::out_of_range const&) { t = true; } if (t != !m.count(k)) vf::fail("containers:map-at", log); } break;
            case 6: { auto it = a.find(tk); if (it != a.end()) { VM x = plain(it->second()); a.erase(it); auto rg = m.equal_range(k); for (auto i = rg.first; i != rg.second; ++i) if (i->second == x) { m.erase(i); break; } } } break;
            case 7: d.assign(a); md = m; break;
            case 8: if (r.chance(1, 4)) { a.clear(); m.clear(); } else { C e{ c }; check(e, m); C f{ std::move(e) }; check(f, m); d = f; md = m; } break;
            case 9:
                if constexpr (Ordered)
                {
                    auto lo = a.lower_bound(tk), hi = a.upper_bound(tk); std::size_t x = 0, y = 0, wx = std::distance(m.begin(), m.lower_bound(k)), wy = std::distance(m.begin(), m.upper_bound(k));
                    for (auto i = a.begin(); i != lo; ++i) ++x; for (auto i = a.begin(); i != hi; ++i) ++y;
                    if (x != wx || y != wy) vf::fail("containers:map-bounds", log);
                }
                break;
            }
            check(c, m); check(d, md); vf::count("operations");
        }
        vf::distinct(vf::hash(log));
    }
}
VF_SCENARIO(vector_int, 2) { sequence<neolib::vector<int>, int, true, false>(r); }
VF_SCENARIO(vector_string, 2) { sequence<neolib::vector<neolib::string>, neolib::string, true, false>(r); }
VF_SCENARIO(list_int, 1) { sequence<neolib::list<int>, int, false, true>(r); }
VF_SCENARIO(deque_int, 2) { sequence<neolib::deque<int>, int, true, true>(r); }
VF_SCENARIO(set_int, 1) { sets<neolib::set<int>, int, false>(r); }
VF_SCENARIO(multiset_int, 1) { sets<neolib::multiset<int>, int, true>(r); }
VF_SCENARIO(list_string, 1) { sequence<neolib::list<neolib::string>, neolib::string, false, true>(r); }
VF_SCENARIO(deque_string, 2) { sequence<neolib::deque<neolib::string>, neolib::string, true, true>(r); }
VF_SCENARIO(set_string, 1) { sets<neolib::set<neolib::string>, neolib::string, false>(r); }
VF_SCENARIO(map_int, 1) { maps<neolib::map<int, int>, int, int, false, true>(r); }
VF_SCENARIO(map_string, 1) { maps<neolib::map<neolib::string, neolib::string>, neolib::string, neolib::string, false, true>(r); }
VF_SCENARIO(multimap_string, 1) { maps<neolib::multimap<neolib::string, int>, neolib::string, int, true, true>(r); }
VF_SCENARIO(unordered_map_string, 1) { maps<neolib::unordered_map<neolib::string, int>, neolib::string, int, false, false>(r); }
VF_SCENARIO(unordered_multimap, 1) { maps<neolib::unordered_multimap<int, neolib::string>, int, neolib::string, true, false>(r); }
VF_SCENARIO(unordered_flat_map, 1) { maps<neolib::unordered_flat_map<int, int>, int, int, false, false>(r); }
VF_MAIN
