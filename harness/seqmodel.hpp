// Model-based monitor for vector-like containers: every operation is mirrored on a std::vector<i64>
// and the complete observable state is compared after every operation.
#pragma once
#include "vf.hpp"
#include <vector>
#include <iterator>

namespace seq
{
    using vf::i64;
    using vf::u64;

    template <typename T> struct elem;
    template <> struct elem<int> { static int make(i64 v) { return static_cast<int>(v); } static i64 val(int v) { return v; } };
    template <> struct elem<vf::tracked> { static vf::tracked make(i64 v) { return vf::tracked{ v }; } static i64 val(vf::tracked const& v) { return vf::val(v); } };
    template <> struct elem<std::string>
    {
        // alternate between SSO and heap strings
        static std::string make(i64 v) { std::string s = std::to_string(v); if (v % 3 == 0) s += ":padding-beyond-the-small-string-buffer"; return s; }
        static i64 val(std::string const& v) { try { return std::stoll(v); } catch (...) { return -424242; } }
    };

    struct caps { bool push_front = true; bool resize = true; bool range_erase = true; bool swap = true; bool compare = true; bool at = true; bool assign = false; bool reserve = false; bool emplace = true; bool largeReserve = true; };

    template <typename C>
    struct run
    {
        using T = typename C::value_type;
        using E = elem<T>;
        std::string name;
        vf::rng& r;
        C c;
        std::vector<i64> m;
        i64 nextv = 1;
        u64 h = 0;
        std::string history;
        caps k;
        std::size_t maxLen;

        run(std::string n, vf::rng& rr, caps kk, std::size_t ml) : name{ n }, r{ rr }, k{ kk }, maxLen{ ml } {}

        void note(std::string const& s) { history += s; history += ' '; if (history.size() > 3000) history.erase(0, 1500); h = vf::hash(s, h); }
        [[noreturn]] void bad(std::string const& what, std::string const& d) { vf::fail(name + ":" + what, vf::cat(d, " | size(model)=", m.size(), " history: ", history)); }

        template <typename It> void at_pos(It const& it, std::size_t want, char const* op)
        {
            // the returned iterator must designate index `want`
            auto d = it - c.begin();
            if (d != static_cast<std::ptrdiff_t>(want)) bad(std::string(op) + "-iterator", vf::cat("returned iterator is at ", d, ", want ", want));
            if (want < m.size()) { if (E::val(*it) != m[want]) bad(std::string(op) + "-iterator", vf::cat("returned iterator designates ", E::val(*it), ", want ", m[want])); }
            else if (!(it == c.end())) bad(std::string(op) + "-iterator", "returned iterator should be end()");
        }

        void compare(char const* op)
        {
            C const& cc = c;
            if (c.size() != m.size()) bad(std::string(op) + "-size", vf::cat("size() is ", c.size(), ", want ", m.size()));
            if (c.empty() != m.empty()) bad(std::string(op) + "-empty", "empty() disagrees with size");
            std::size_t i = 0;
            for (auto it = cc.begin(); it != cc.end(); ++it, ++i)
            {
                if (i >= m.size()) bad(std::string(op) + "-iteration", "iteration runs past size()");
                if (E::val(*it) != m[i]) bad(std::string(op) + "-content", vf::cat("element ", i, " is ", E::val(*it), ", want ", m[i]));
            }
            if (i != m.size()) bad(std::string(op) + "-iteration", vf::cat("iteration visits ", i, " of ", m.size()));
            vf::count("elements-compared", m.size());
            if (m.size() && r.chance(1, 2))
            {
                // random access, reverse, arithmetic
                auto it = c.end();
                std::size_t j = m.size();
                if (m.size() < 200 || r.chance(1, 8))
                    while (j > 0) { --it; --j; if (E::val(*it) != m[j]) bad("reverse-iteration", vf::cat("element ", j, " is ", E::val(*it), ", want ", m[j])); }
                for (int n = 0; n < 4; ++n)
                {
                    auto a = r.below(m.size()), b = r.below(m.size() + 1);
                    if (E::val(c[a]) != m[a]) bad("subscript", vf::cat("[", a, "] is ", E::val(c[a]), ", want ", m[a]));
                    if (E::val(cc[a]) != m[a]) bad("subscript", vf::cat("const [", a, "] differs"));
                    auto ia = c.begin() + static_cast<std::ptrdiff_t>(a);
                    auto ib = c.begin() + static_cast<std::ptrdiff_t>(b);
                    if (E::val(*ia) != m[a]) bad("iterator-plus", vf::cat("*(begin()+", a, ") is ", E::val(*ia), ", want ", m[a]));
                    if (ib - ia != static_cast<std::ptrdiff_t>(b) - static_cast<std::ptrdiff_t>(a)) bad("iterator-difference", vf::cat("distance ", a, " to ", b, " is ", ib - ia));
                    auto ja = ib; ja += static_cast<std::ptrdiff_t>(a) - static_cast<std::ptrdiff_t>(b);
                    if (!(ja == ia) || E::val(*ja) != m[a]) bad("iterator-arithmetic", vf::cat("moving ", b, " to ", a, " misses"));
                    if ((ia < ib) != (a < b) || (ia == ib) != (a == b)) bad("iterator-order", vf::cat(a, " vs ", b));
                    auto ea = c.end() - static_cast<std::ptrdiff_t>(m.size() - a);
                    if (E::val(*ea) != m[a]) bad("iterator-minus", vf::cat("end()-", m.size() - a));
                    if constexpr (requires { c.at(a); }) if (k.at)
                    {
                        if (E::val(c.at(a)) != m[a]) bad("at", vf::cat("at(", a, ")"));
                        bool thrown = false;
                        try { (void)c.at(m.size() + r.below(3)); } catch (std::out_of_range const&) { thrown = true; }
                        if (!thrown) bad("at-range", "at(size()+k) did not throw std::out_of_range");
                    }
                }
                if constexpr (requires { cc.rbegin(); cc.rend(); }) if (m.size() < 200 || r.chance(1, 8))
                {
                    std::size_t k = m.size();
                    for (auto ri = cc.rbegin(); ri != cc.rend(); ++ri) { if (k == 0) bad("rbegin-iteration", "runs past the front"); if (E::val(*ri) != m[--k]) bad("rbegin-iteration", vf::cat("element ", k)); }
                    if (k != 0) bad("rbegin-iteration", "stops early");
                }
                if constexpr (requires { { c.data() } -> std::convertible_to<T const*>; }) if (r.chance(1, 6))
                {
                    auto d = c.data();
                    for (std::size_t k = 0; k < m.size(); ++k) if (E::val(d[k]) != m[k]) bad("data", vf::cat("data()[", k, "] is ", E::val(d[k]), ", want ", m[k]));
                }
                if (E::val(c.front()) != m.front() || E::val(c.back()) != m.back()) bad("front-back", vf::cat("front ", E::val(c.front()), " back ", E::val(c.back())));
            }
        }

        std::vector<T> block(std::size_t n) { std::vector<T> b; b.reserve(n); for (std::size_t i = 0; i < n; ++i) b.push_back(E::make(nextv + static_cast<i64>(i))); return b; }
        std::size_t chunk() { return r.chance(1, 6) ? r.below(maxLen / 3 + 2) : r.below(9); }
        std::size_t pos() { auto n = m.size(); switch (r.below(5)) { case 0: return 0; case 1: return n; case 2: return cursor = std::min<std::size_t>(n, cursor + r.below(3)); case 3: return cursor = std::min<std::size_t>(n, cursor); default: return cursor = r.below(n + 1); } }
        std::size_t cursor = 0;
        bool full(std::size_t n) { return m.size() + n > maxLen; }

        void step()
        {
            auto p = pos();
            auto cp = [&](std::size_t i) { return c.begin() + static_cast<std::ptrdiff_t>(i); };
            switch (r.below(26))
            {
            case 0: case 1: case 2:
                if (full(1)) break;
                { note(vf::cat("insert@", p)); T v = E::make(nextv); auto it = c.insert(cp(p), v); m.insert(m.begin() + p, nextv++); at_pos(it, p, "insert"); compare("insert"); }
                break;
            case 3:
                if (full(1)) break;
                if constexpr (requires { c.insert(c.begin(), std::declval<T>()); }) { note(vf::cat("insertmove@", p)); auto it = c.insert(cp(p), E::make(nextv)); m.insert(m.begin() + p, nextv++); at_pos(it, p, "insert"); compare("insert-rvalue"); }
                break;
            case 4: case 5:
                {
                    auto n = chunk(); if (full(n)) break;
                    note(vf::cat("insertN@", p, "x", n)); T v = E::make(nextv);
                    if constexpr (requires { c.insert(c.begin(), std::size_t{}, v); })
                    {
                        if constexpr (requires { { c.insert(c.begin(), std::size_t{}, v) } -> std::same_as<void>; }) c.insert(cp(p), n, v);
                        else { auto it = c.insert(cp(p), n, v); m.insert(m.begin() + p, n, nextv); at_pos(it, p, "insertN"); m.erase(m.begin() + p, m.begin() + p + n); }
                        m.insert(m.begin() + p, n, nextv); ++nextv; compare("insertN");
                    }
                }
                break;
            case 6: case 7:
                {
                    auto n = chunk(); if (full(n)) break;
                    note(vf::cat("insertrange@", p, "x", n)); auto b = block(n);
                    auto ins = [&] { for (std::size_t i = 0; i < n; ++i) m.insert(m.begin() + p + i, nextv + static_cast<i64>(i)); nextv += static_cast<i64>(n); };
                    if constexpr (requires { { c.insert(c.begin(), b.begin(), b.end()) } -> std::same_as<void>; }) { c.insert(cp(p), b.begin(), b.end()); ins(); }
                    else { auto it = c.insert(cp(p), b.begin(), b.end()); ins(); at_pos(it, p, "insertrange"); }
                    compare("insertrange");
                }
                break;
            case 8: case 9:
                if (full(1)) break;
                note("push_back"); { T v = E::make(nextv); c.push_back(v); m.push_back(nextv++); compare("push_back"); }
                break;
            case 10:
                if (full(1)) break;
                if constexpr (requires { c.push_front(std::declval<T const&>()); }) { note("push_front"); T v = E::make(nextv); c.push_front(v); m.insert(m.begin(), nextv++); compare("push_front"); }
                break;
            case 11:
                if (full(1)) break;
                if constexpr (requires { c.emplace_back(E::make(1)); }) { note("emplace_back"); c.emplace_back(E::make(nextv)); m.push_back(nextv++); compare("emplace_back"); }
                break;
            case 12:
                if (full(1)) break;
                if constexpr (requires { c.emplace(c.begin(), E::make(1)); }) { note(vf::cat("emplace@", p)); auto it = c.emplace(cp(p), E::make(nextv)); m.insert(m.begin() + p, nextv++); at_pos(it, p, "emplace"); compare("emplace"); }
                else if constexpr (requires { c.emplace_insert(c.begin(), E::make(1)); }) { note(vf::cat("emplace_insert@", p)); auto it = c.emplace_insert(cp(p), E::make(nextv)); m.insert(m.begin() + p, nextv++); at_pos(it, p, "emplace_insert"); compare("emplace_insert"); }
                else if constexpr (requires { c.emplace_front(E::make(1)); }) { note("emplace_front"); c.emplace_front(E::make(nextv)); m.insert(m.begin(), nextv++); compare("emplace_front"); }
                break;
            case 13: case 14:
                if (m.empty()) break;
                { p = std::min(p, m.size() - 1); note(vf::cat("erase@", p)); auto it = c.erase(cp(p)); m.erase(m.begin() + p); at_pos(it, p, "erase"); compare("erase"); }
                break;
            case 15: case 16: case 17:
                if (m.empty()) break;
                {
                    auto n = std::min(r.chance(1, 4) ? r.below(m.size() + 1) : r.below(9), m.size() - p);
                    note(vf::cat("erase@", p, "x", n)); auto it = c.erase(cp(p), cp(p + n)); m.erase(m.begin() + p, m.begin() + p + n); at_pos(it, p, "eraserange"); compare("eraserange");
                }
                break;
            case 18:
                if (m.empty()) break;
                note("pop_back"); c.pop_back(); m.pop_back(); compare("pop_back");
                break;
            case 19:
                if (m.empty()) break;
                if constexpr (requires { c.pop_front(); }) { note("pop_front"); c.pop_front(); m.erase(m.begin()); compare("pop_front"); }
                break;
            case 20:
                if constexpr (requires { c.resize(std::size_t{}); }) if (k.resize)
                {
                    auto n = std::min(maxLen, r.chance(1, 2) ? m.size() + r.below(9) : m.size() - std::min<std::size_t>(m.size(), r.below(9)));
                    if (r.chance(1, 10)) n = r.below(maxLen);
                    note(vf::cat("resize", n));
                    T v = E::make(nextv);
                    if constexpr (requires { c.resize(n, v); }) { c.resize(n, v); m.resize(n, nextv++); }
                    else { auto d = E::val(T{}); c.resize(n); m.resize(n, d); }
                    compare("resize");
                }
                break;
            case 21:
                // whole-container operations
                switch (r.below(12))
                {
                case 0: { note("copy"); C d{ c }; C const& cd = d; check_copy(cd, "copy"); if (m.size()) { d[0] = E::make(-5); compare("copy-aliases"); } } break;
                case 1: { note("copyassign"); C d; fill(d, r.below(20)); d = c; check_copy(d, "copyassign"); compare("copyassign-source"); } break;
                case 2: { note("move"); C d{ std::move(c) }; check_copy(d, "move"); if (r.chance(1, 2)) { c.clear(); m = fill(c, r.below(20)); compare("moved-from-reused"); m = saved; } C e; c = std::move(e); m.clear(); compare("moved-from-reassigned"); c = std::move(d); m = saved; compare("moveassign"); } break;
                case 3: if constexpr (requires { c.swap(c); }) if (k.swap) { note("swap"); C d; auto n = r.below(30); auto b = fill(d, n); c.swap(d); auto old = m; m = b; compare("swap"); m = old; c.swap(d); compare("swap-back"); } break;
                case 4: { note("selfassign"); C& alias = c; c = alias; compare("selfassign"); } break;
                case 5: if (r.chance(1, 3)) { note("clear"); c.clear(); m.clear(); compare("clear"); } break;
                case 6: if constexpr (requires { c.reserve(std::size_t{}); }) { auto n = r.below(k.largeReserve ? maxLen * 2 : maxLen + 1); note(vf::cat("reserve", n)); c.reserve(n); if constexpr (requires { c.capacity(); }) if (c.capacity() < n) bad("reserve", "capacity below the reserved size"); compare("reserve"); } break;
                case 7: if constexpr (requires { c.shrink_to_fit(); }) { note("shrink"); c.shrink_to_fit(); compare("shrink_to_fit"); } break;
                case 9: if (!full(3)) if constexpr (requires { c.insert(c.begin(), { E::make(1), E::make(2) }); }) { auto p = pos(); note(vf::cat("insertlist@", p)); auto it = c.insert(c.begin() + static_cast<std::ptrdiff_t>(p), { E::make(nextv), E::make(nextv + 1), E::make(nextv + 2) }); for (int i = 0; i < 3; ++i) m.insert(m.begin() + p + i, nextv++); at_pos(it, p, "insertlist"); compare("insertlist"); } break;
                case 10: if constexpr (std::is_constructible_v<C, std::initializer_list<T>>) { note("listconstruct"); c = C(std::initializer_list<T>{ E::make(nextv), E::make(nextv + 1), E::make(nextv + 2) }); m = { nextv, nextv + 1, nextv + 2 }; nextv += 3; compare("listconstruct"); } break;
                case 11: { auto n = r.below(12); auto b = block(n); if constexpr (requires { c.assign(b.begin(), b.end()); }) { note(vf::cat("assignrange", n)); c.assign(b.begin(), b.end()); m.clear(); for (std::size_t i = 0; i < n; ++i) m.push_back(nextv++); compare("assignrange"); } } break;
                case 8: if constexpr (requires { c.assign(std::size_t{}, E::make(1)); }) { auto n = r.below(9); note(vf::cat("assign", n)); T v = E::make(nextv); c.assign(n, v); m.assign(n, nextv++); compare("assign"); } break;
                }
                break;
            case 22:
                if constexpr (requires { c == c; }) if (k.compare)
                {
                    note("equality");
                    C d{ c };
                    if (!(c == d)) bad("equality", "a copy compares unequal");
                    if (m.size()) { d[r.below(m.size())] = E::make(-7); if (c == d) bad("equality", "a modified copy compares equal"); }
                    d.push_back(E::make(-1)); if (c == d) bad("equality", "a longer container compares equal");
                }
                break;
            case 24:
                // the inserted value is an element of the container itself
                if (m.empty() || full(1)) break;
                {
                    auto i = r.below(m.size()); auto v = m[i];
                    if (r.chance(1, 2)) { note(vf::cat("push_back_own", i)); c.push_back(c[i]); m.push_back(v); compare("push_back-own-element"); }
                    else { note(vf::cat("insert_own", i, "@", p)); auto it = c.insert(cp(p), c[i]); m.insert(m.begin() + p, v); at_pos(it, p, "insert-own-element"); compare("insert-own-element"); }
                }
                break;
            case 25:
                // single-pass input
                {
                    auto n = r.below(7); if (full(n)) break;
                    if constexpr (std::is_same_v<T, int>)
                    {
                        note(vf::cat("insertinput@", p, "x", n));
                        std::string text; for (std::size_t i = 0; i < n; ++i) text += std::to_string(nextv + static_cast<i64>(i)) + " ";
                        std::istringstream in{ text };
                        c.insert(cp(p), std::istream_iterator<int>{ in }, std::istream_iterator<int>{});
                        for (std::size_t i = 0; i < n; ++i) m.insert(m.begin() + p + i, nextv + static_cast<i64>(i));
                        nextv += static_cast<i64>(n);
                        compare("insertinput");
                    }
                }
                break;
            case 23:
                if (m.empty()) break;
                { auto i = r.below(m.size()); note(vf::cat("write@", i)); c[i] = E::make(nextv); m[i] = nextv++; if (r.chance(1, 2)) { auto j = r.below(m.size()); *cp(j) = E::make(nextv); m[j] = nextv++; } compare("write"); }
                break;
            }
        }
        std::vector<i64> saved;
        void check_copy(C const& d, char const* op)
        {
            saved = m;
            if (d.size() != m.size()) bad(std::string(op) + "-size", vf::cat(d.size(), " want ", m.size()));
            std::size_t i = 0;
            for (auto it = d.begin(); it != d.end(); ++it, ++i) if (i >= m.size() || E::val(*it) != m[i]) bad(std::string(op) + "-content", vf::cat("element ", i));
            if (i != m.size()) bad(std::string(op) + "-content", "short");
        }
        std::vector<i64> fill(C& d, std::size_t n) { std::vector<i64> v; for (std::size_t i = 0; i < n; ++i) { d.push_back(E::make(-1000 - static_cast<i64>(i))); v.push_back(-1000 - static_cast<i64>(i)); } return v; }

        void go(std::size_t steps)
        {
            for (std::size_t s = 0; s < steps; ++s)
            {
                try { step(); }
                catch (vf::failed const&) { throw; }
                catch (std::exception const& e) { bad("exception", vf::cat(vf::demangle(typeid(e).name()), " ", e.what())); }
            }
            vf::max("size", m.size());
            vf::count("operations", steps);
        }
    };

    // a whole case: random history on a fresh container, then destruction with conservation of elements
    template <typename C>
    inline void history(std::string const& name, vf::rng& r, std::size_t steps, std::size_t maxLen, caps k = {})
    {
        auto const before = vf::tracked::live.load();
        {
            run<C> x{ name, r, k, maxLen };
            if (r.chance(1, 3)) { auto n = r.below(maxLen); auto b = x.block(n); x.c.insert(x.c.begin(), b.begin(), b.end()); for (std::size_t i = 0; i < n; ++i) x.m.push_back(x.nextv++); x.note(vf::cat("bulk", n)); x.compare("bulk"); }
            x.go(steps);
            vf::distinct(x.h);
            vf::sample(vf::cat(name, ": ", x.history));
        }
        if (std::is_same_v<typename C::value_type, vf::tracked> && vf::tracked::live.load() != before)
            vf::fail(name + ":conservation", vf::cat(vf::tracked::live.load() - before, " element(s) constructed but never destroyed (negative: destroyed twice)"));
    }
}
