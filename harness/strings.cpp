// C18: neolib::string, string_view and quick_string behave as std::string / std::string_view whether they own or view their text.
#include "vf.hpp"
#include <neolib/neolib.hpp>
#include <neolib/core/string.hpp>
#include <neolib/core/string_view.hpp>
#include <neolib/core/quick_string.hpp>
#include <deque>

namespace
{
    using Q = neolib::quick_string; using S = std::string;
    S text(vf::rng& r) { static char const alpha[] = "aabbc.A\0\xff"; return r.text(r.chance(1, 12) ? r.below(60) : r.below(9), std::string_view{ alpha, 9 }); }
    int sign(int x) { return (x > 0) - (x < 0); }
    template <typename F, typename G> void both(F f, G g, char const* key, S const& log)
    {
        // both sides yield the same value or both throw out_of_range
        bool a = false, b = false; decltype(g()) x{}, y{}; try { x = f(); } catch (std::out_of_range const&) { a = true; } try { y = g(); } catch (std::out_of_range const&) { b = true; }
        if (a != b || !(x == y)) vf::fail(key, vf::cat(a ? "throws" : "", " got ", x, " want ", b ? "throws " : "", y, log));
    }
    void check(Q const& q, S const& m, S const& log)
    {
        if (q.size() != m.size() || q.length() != m.size() || q.empty() != m.empty()) vf::fail("quick:size", vf::cat(q.size(), " want ", m.size(), log));
        if (S{ q.begin(), q.end() } != m || S{ q.data(), q.size() } != m || q.to_std_string() != m || q.to_std_string_view() != m || S{ q.rbegin(), q.rend() } != S{ m.rbegin(), m.rend() }) vf::fail("quick:content", vf::cat(vf::show(q.to_std_string()), " want ", vf::show(m), log));
        if (!m.empty() && (q.back() != m.back() || q[m.size() - 1] != m.back() || q.at(0) != m[0])) vf::fail("quick:element", log);
    }
    void searches(vf::rng& r, Q const& q, S const& m, S const& log)
    {
        auto t = text(r).substr(0, r.below(4)); S z = t.c_str(); auto pos = r.chance(1, 3) ? S::npos : r.below(m.size() + 3); auto n = r.below(t.size() + 1); char c = "abc.A"[r.below(5)];
        auto l = vf::cat(" in ", vf::show(m), " for ", vf::show(t), " at ", pos, " n ", n, log);
        Q tv{ t.data(), t.size() }, to{ t };
        Q const& tq = r.chance(1, 2) ? tv : to;
#define SRCH(fn) \
        if (q.fn(tq, pos) != m.fn(t, pos)) vf::fail("quick:" #fn, l); if (q.fn(t, pos) != m.fn(t, pos)) vf::fail("quick:" #fn, l); if (q.fn(t.data(), pos, n) != m.fn(t.data(), pos, n)) vf::fail("quick:" #fn, l); \
        if (q.fn(z.c_str(), pos) != m.fn(z.c_str(), pos)) vf::fail("quick:" #fn, l); if (q.fn(c, pos) != m.fn(c, pos)) vf::fail("quick:" #fn, l); if (q.fn(tq) != m.fn(t)) vf::fail("quick:" #fn, l); if (q.fn(c) != m.fn(c)) vf::fail("quick:" #fn, l);
        SRCH(find) SRCH(rfind) SRCH(find_first_of) SRCH(find_last_of) SRCH(find_first_not_of) SRCH(find_last_not_of)
        if (q.starts_with(std::string_view{ t }) != m.starts_with(std::string_view{ t }) || q.starts_with(c) != m.starts_with(c) || q.starts_with(z.c_str()) != m.starts_with(z.c_str())) vf::fail("quick:starts-with", l);
        auto n1 = r.below(m.size() + 3), p1 = r.below(m.size() + 2), p2 = r.below(t.size() + 2), n2 = r.below(t.size() + 3);
        both([&] { return q.substr(p1, n1); }, [&] { return m.substr(p1, n1); }, "quick:substr", l);
        both([&] { return Q{ q, p1, n1 }.to_std_string(); }, [&] { return S{ m, p1, n1 }; }, "quick:sub-view", l);
        both([&] { return sign(q.compare(p1, n1, t)); }, [&] { return sign(m.compare(p1, n1, t)); }, "quick:compare-part", l);
        both([&] { return sign(q.compare(p1, n1, t, p2, n2)); }, [&] { return sign(m.compare(p1, n1, t, p2, n2)); }, "quick:compare-parts", l);
        both([&] { return sign(q.compare(p1, n1, z.c_str())); }, [&] { return sign(m.compare(p1, n1, z.c_str())); }, "quick:compare-cstr", l);
        both([&] { return sign(q.compare(p1, n1, t.data(), n)); }, [&] { return sign(m.compare(p1, n1, t.data(), n)); }, "quick:compare-ptr", l);
        both([&] { return q.at(p1); }, [&] { return m.at(p1); }, "quick:at", l);
        char b1[2000]{}, b2[2000]{}; both([&] { return q.copy(b1, n1, p1); }, [&] { return m.copy(b2, n1, p1); }, "quick:copy", l); if (std::memcmp(b1, b2, 2000)) vf::fail("quick:copy", l);
        if (sign(q.compare(tq)) != sign(m.compare(t)) || sign(q.compare(t)) != sign(m.compare(t)) || sign(q.compare(z.c_str())) != sign(m.compare(z.c_str()))) vf::fail("quick:compare", l);
        if ((q == tq) != (m == t) || ((q <=> tq) < 0) != (m < t) || ((q <=> tq) > 0) != (m > t)) vf::fail("quick:order", l);
        Q same{ m }; if (!(same == q) || hash_value(same) != hash_value(q)) vf::fail("quick:hash", l);
        if ((q + tq).to_std_string() != m + t || t + q != t + m || q + t != m + t || z.c_str() + q != z + m || q + z.c_str() != m + z || c + q != c + m || q + c != m + c) vf::fail("quick:plus", l);
        std::ostringstream o; o << q; if (o.str() != m) vf::fail("quick:print", l);
        vf::count("quick-searches");
    }
    void quick(vf::rng& r)
    {
        std::deque<S> pool, kept; std::vector<Q> v(3); std::vector<S> m(3); S log;
        for (auto n = r.size(15, 60); n-- > 0;)
        {
            auto i = r.below(3), j = r.below(3); pool.push_back(text(r)); kept.push_back(pool.back()); S const& t = pool.back(); S const z = t.c_str(); Q tv{ t.data(), t.size() }, to{ t }; Q const& tq = r.chance(1, 2) ? tv : to;
            Q& q = v[i]; S& x = m[i]; auto p = r.below(x.size() + 1), k = r.below(x.size() + 3), p2 = r.below(t.size() + 1), k2 = r.below(t.size() + 3); auto e = p + r.below(x.size() - p + 1); char c = "abc.A"[r.below(5)]; auto rep = r.below(4);
            auto op = r.below(38); log += vf::cat(" ", op, ":", i, ",", j, ",", p, ",", k, ",", vf::show(t, 12));
            switch (op)
            {
            case 0: case 1: q = Q{ t.data(), t.size() }; x = t; break;
            case 2: q = Q{ std::string_view{ t } }; x = t; break;
            case 3: q = Q{ t }; x = t; break;
            case 4: q = Q{ rep, c }; x = S(rep, c); break;
            case 5: pool.push_back(z); kept.push_back(z); q = pool.back().c_str(); x = z; break;
            case 6: q = c; x = S(1, c); break;
            case 7: q = v[j]; x = m[j]; break;
            case 8: { Q a{ v[j] }; check(a, m[j], log); Q b{ std::move(a) }; check(b, m[j], log); q = b; x = m[j]; } break;
            case 9: { std::allocator<char> al; Q a{ v[j], al }; check(a, m[j], log); q = a; x = m[j]; } break;
            case 10: q.swap(v[j]); std::swap(x, m[j]); break;
            case 11: q += tq; x += t; break;
            case 12: q += t; x += t; break;
            case 13: q += c; x += c; break;
            case 14: q.append(tq, p2, k2); x.append(t, p2, k2); break;
            case 15: q.append(t, p2, k2); x.append(t, p2, k2); break;
            case 16: q.append(t.data(), t.size()); q.append(rep, c); q.append(t.begin(), t.end()); x += t; x.append(rep, c); x += t; break;
            case 17: q.push_back(c); x.push_back(c); break;
            case 18: q.assign(tq, p2, k2); x.assign(t, p2, k2); break;
            case 19: if (r.chance(1, 2)) { q.assign(rep, c); x.assign(rep, c); } else { q.assign(tq); x = t; } break;
            case 20: q.insert(p, tq); x.insert(p, t); break;
            case 21: q.insert(p, tq, p2, k2); x.insert(p, t, p2, k2); break;
            case 22: q.insert(p, t.data(), t.size()); x.insert(p, t); break;
            case 23: q.insert(p, rep, c); x.insert(p, rep, c); break;
            case 24: { auto it = q.insert(q.begin() + p, c); auto w = x.insert(x.begin() + p, c); if (it - q.begin() != w - x.begin()) vf::fail("quick:insert-result", log); } break;
            case 25: { auto b = q.begin(); auto it = q.insert(b + p, t.begin(), t.end()); x.insert(x.begin() + p, t.begin(), t.end()); if (it - q.begin() != static_cast<std::ptrdiff_t>(p)) vf::fail("quick:insert-result", log); } break;
            case 26: q.erase(p, k); x.erase(p, k); break;
            case 27: if (p < x.size()) { auto it = q.erase(q.begin() + p); x.erase(x.begin() + p); if (it - q.begin() != static_cast<std::ptrdiff_t>(p)) vf::fail("quick:erase-result", log); } break;
            case 28: { auto b = q.begin(); q.erase(b + p, b + e); x.erase(p, e - p); } break;
            case 29: q.replace(p, k, tq); x.replace(p, k, t); break;
            case 30: q.replace(p, k, tq, p2, k2); x.replace(p, k, t, p2, k2); break;
            case 31: q.replace(p, k, t.data(), t.size()); x.replace(p, k, t); q.replace(0, 1, rep, c); x.replace(0, 1, rep, c); break;
            case 32: { auto b = q.begin(); q.replace(b + p, b + e, tq); x.replace(p, e - p, t); } break;
            case 33: { auto b = q.begin(); if (r.chance(1, 2)) { q.replace(b + p, b + e, t.begin(), t.end()); x.replace(p, e - p, t); } else { q.replace(b + p, b + e, rep, c); x.replace(p, e - p, rep, c); } } break;
            case 34: q.resize(k); x.resize(k); q.resize(k + rep, c); x.resize(k + rep, c); q.reserve(100); break;
            case 35: if (r.chance(1, 3)) { q.clear(); x.clear(); } else if (!x.empty()) { auto h = r.below(x.size()); q[h] = c; x[h] = c; q.at(x.size() - 1) = '!'; x.back() = '!'; } break;
            case 36: { auto s = static_cast<Q const&>(q).c_str(); if (S{ s, x.size() } != x || s[x.size()] != 0) vf::fail("quick:c-str", log); } break;
            case 37: { q += q; x += S{ x }; q.insert(p, q); x.insert(p, S{ x }); if (x.size() > 500) { q.resize(3); x.resize(3); } } break;
            }
            for (int h = 0; h < 3; ++h) check(v[h], m[h], log);
            for (std::size_t h = 0; h < pool.size(); ++h) if (pool[h] != kept[h]) vf::fail("quick:edited-viewed-text", log);
            searches(r, static_cast<Q const&>(v[i]), m[i], log);
            vf::count("quick-operations");
        }
        vf::distinct(vf::hash(log)); vf::sample(log.substr(0, 100));
    }
    void owned(vf::rng& r)
    {
        using N = neolib::string; using A = neolib::i_string;
        std::vector<N> v(3); std::vector<S> m(3); S log;
        auto same = [&](A const& a, S const& w) { if (a.size() != w.size() || a.length() != w.size() || a.to_std_string() != w || a.to_std_string_view() != w || S{ a.begin(), a.end() } != w || S{ a.c_str(), w.size() } != w || a.c_str()[w.size()] != 0 || S{ a.cdata(), w.size() } != w || S{ a.rbegin(), a.rend() } != S{ w.rbegin(), w.rend() }) vf::fail("string:content", vf::cat(vf::show(a.to_std_string()), " want ", vf::show(w), log)); };
        for (auto n = r.size(15, 60); n-- > 0;)
        {
            auto i = r.below(3), j = r.below(3); S t = text(r), u = text(r), z = t.c_str(); A& a = v[i]; S& x = m[i]; auto p = r.below(x.size() + 1), e = p + r.below(x.size() - p + 1); char c = "abc.A"[r.below(5)];
            auto op = r.below(24); log += vf::cat(" ", op, ":", i, ",", j, ",", p, vf::show(t, 12)); neolib::string_view tv{ t }; N ts{ t };
            switch (op)
            {
            case 0: v[i] = t; x = t; break;
            case 1: v[i] = std::string_view{ t }; x = t; break;
            case 2: v[i] = ts; x = t; break;
            case 3: a = static_cast<A const&>(ts); x = t; break;
            case 4: a = static_cast<neolib::i_string_view const&>(tv); x = t; break;
            case 5: v[i] = v[j]; x = m[j]; break;
            case 6: { N b{ v[j] }; same(b, m[j]); N d{ std::move(b) }; same(d, m[j]); v[i] = std::move(d); x = m[j]; } break;
            case 7: a.assign(z.c_str()); x = z; break;
            case 8: a.assign(t); x = t; break;
            case 9: a.assign(t.data(), t.size()); x = t; break;
            case 10: a.append(static_cast<A const&>(ts)); x += t; break;
            case 11: a.append(static_cast<neolib::i_string_view const&>(tv)); x += t; break;
            case 12: a.append(t.data(), t.size()); a.append(z.c_str()); x += t; x += z; break;
            case 13: a += static_cast<A const&>(v[j]); x += S{ m[j] }; if (x.size() > 300) { a.resize(3); x.resize(3); } break;
            case 14: { S f = u.substr(0, 2); if (!f.empty()) { a.replace_all(N{ f }, ts); S o; for (std::size_t k = 0; k < x.size();) if (x.compare(k, f.size(), f) == 0) { o += t; k += f.size(); } else o += x[k++]; x = o.substr(0, 300); a.resize(x.size()); } } break;
            case 15: a.push_back(c); x.push_back(c); break;
            case 16: if (!x.empty()) { a.pop_back(); x.pop_back(); } break;
            case 17: { auto it = a.insert(a.begin() + p, c); x.insert(x.begin() + p, c); if (*it != c || static_cast<std::size_t>(it - a.begin()) != p) vf::fail("string:insert", log); } break;
            case 18: { auto it = a.erase(a.begin() + p, a.begin() + e); x.erase(p, e - p); if (static_cast<std::size_t>(it - a.begin()) != p) vf::fail("string:erase", log); } break;
            case 19: if (p < x.size()) { a.erase(a.begin() + p); x.erase(p, 1); } break;
            case 20: a.resize(p); a.resize(p + 2, c); x.resize(p); x.resize(p + 2, c); break;
            case 21: { N b{ z.c_str() }; same(b, z); N d{ t.data(), t.size() }; same(d, t); N f{ static_cast<A const&>(v[j]) }; same(f, m[j]); N g{ static_cast<neolib::i_string_view const&>(tv) }; same(g, t); N h{ r.below(3) + 1, c }; if (h.size() > 3 || h[0] != c) vf::fail("string:fill", log); N k{ t.begin(), t.end() }; same(k, t); N l{ neolib::quick_string{ t.data(), t.size() } }; same(l, t); } break;
            case 22: a.assign(static_cast<A const&>(v[j])); x = S{ m[j] }; break;
            case 23: if (!x.empty()) { a.front() = c; x.front() = c; a.back() = '!'; x.back() = '!'; a[p % x.size()] = '?'; x[p % x.size()] = '?'; if (a.front() != x.front() || a.back() != x.back()) vf::fail("string:ends", log); } break;
            }
            for (int h = 0; h < 3; ++h) same(v[h], m[h]);
            A const& ca = v[i]; A const& cb = v[j]; auto const& y = m[j];
            if ((ca == cb) != (x == y) || ((ca <=> cb) < 0) != (x < y) || ((ca <=> cb) > 0) != (x > y) || (v[i] == v[j]) != (x == y) || ((v[i] <=> v[j]) < 0) != (x < y) || ((v[i] <=> v[j]) > 0) != (x > y)) vf::fail("string:compare", log);
            auto lower = [](S s) { for (auto& k : s) if (k >= 'A' && k <= 'Z') k += 32; return s; };
            if (neolib::ci_equal_to{}(ca, cb) != (lower(x) == lower(y))) vf::fail("string:ci-equal", log); if (neolib::ci_less{}(ca, cb) && neolib::ci_less{}(cb, ca)) vf::fail("string:ci-less", log);
            if (std::hash<A>{}(ca) != std::hash<N>{}(v[i])) vf::fail("string:hash", log); if (x == y && std::hash<N>{}(v[j]) != std::hash<N>{}(v[i])) vf::fail("string:hash", log);
            if ((v[i] + v[j]).to_std_string() != x + y) vf::fail("string:plus", log);
            bool th = false; try { a.at(x.size()); } catch (std::out_of_range const&) { th = true; } if (!th) vf::fail("string:at", log);
            std::ostringstream o; o << ca; if (o.str() != x) vf::fail("string:print", log);
            // views of it
            neolib::string_view w1{ ca }, w2{ x }, w3{ x.data(), x.size() }, w4{ std::string_view{ x } }, w5{ static_cast<neolib::i_string_view const&>(w2) }; neolib::i_string_view* all[] = { &w1, &w2, &w3, &w4, &w5 };
            for (auto w : all) { if (w->size() != x.size() || w->length() != x.size() || w->empty() != x.empty() || w->to_std_string() != x || S{ w->begin(), w->end() } != x || !(*w == w2) || (*w <=> w2) != 0 || (*w == y) != (x == y) || std::hash<neolib::i_string_view>{}(*w) != std::hash<neolib::string_view>{}(w2)) vf::fail("view:content", log); bool tv = false; try { w->at(x.size()); } catch (std::out_of_range const&) { tv = true; } if (!tv) vf::fail("view:at", log); if (!x.empty() && (w->front() != x.front() || w->back() != x.back() || w->at(x.size() - 1) != x.back())) vf::fail("view:ends", log); }
            neolib::string_view vy{ y }; if (((w1 <=> vy) < 0) != (x < y) || (w1 == vy) != (x == y) || neolib::ci_sv_equal_to{}(w1, vy) != (lower(x) == lower(y))) vf::fail("view:compare", log); static_cast<neolib::i_string_view&>(w1) = static_cast<neolib::i_string_view const&>(vy); if (w1.to_std_string() != y) vf::fail("view:assign", log);
            vf::count("string-operations");
        }
        vf::distinct(vf::hash(log));
    }
}
VF_SCENARIO(quick_string, 3) { quick(r); }
VF_SCENARIO(string, 2) { owned(r); }
VF_SCENARIO(fast_hash, 1)
{
    auto t = r.bytes(r.size(20, 300)); std::uint32_t h = 2166136261u; std::uint64_t g = 14695981039346656037ull; for (unsigned char c : t) { h = (h ^ c) * 16777619u; g = (g ^ c) * 1099511628211ull; }
    if (neolib::fast_hash<std::uint32_t>(t.data(), t.size()) != h || neolib::fast_hash(t.data(), t.size()) != h || neolib::fast_hash<std::uint64_t>(t.data(), t.size()) != g) vf::fail("fast-hash", vf::show(t)); vf::distinct(vf::hash(t));
}
VF_MAIN
