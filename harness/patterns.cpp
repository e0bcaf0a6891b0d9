// glob matching and multi-pattern search, judged by an independent dynamic-programming matcher
#include "vf.hpp"
#include <neolib/core/string_utils.hpp>

namespace
{
    // does p (with '*' any string, '?' any one character) match all of t ?
    bool glob(std::string_view t, std::string_view p)
    {
        std::vector<char> row(t.size() + 1, 0), next;
        row[0] = 1;
        for (char c : p)
        {
            next.assign(t.size() + 1, 0);
            if (c == '*') { bool any = false; for (std::size_t i = 0; i <= t.size(); ++i) { any |= row[i]; next[i] = any; } }
            else for (std::size_t i = 0; i < t.size(); ++i) next[i + 1] = row[i] && (c == '?' || c == t[i]);
            row.swap(next);
        }
        return row[t.size()];
    }
    std::string pattern(vf::rng& r, std::size_t n) { std::string p; for (std::size_t i = 0; i < n; ++i) p += r.pick({ 'a', 'a', 'b', 'b', 'c', '*', '?' }); return p; }
    struct hit { std::string pattern; std::ptrdiff_t b, e; auto operator<=>(hit const&) const = default; };
}

VF_SCENARIO(wildcard, 4)
{
    auto p = pattern(r, r.below(7));
    std::string t;
    if (r.chance(1, 2)) t = r.text(r.below(10), "abc");
    else for (char c : p) { if (c == '*') t += r.text(r.below(4), "abc"); else if (c == '?') t += r.pick({ 'a', 'b', 'c' }); else t += r.chance(1, 15) ? 'b' : c; }
    bool want = glob(t, p), got = neolib::wildcard_match(t, p);
    if (got != want) vf::fail("wildcard_match", vf::cat("wildcard_match(", vf::show(t), ", ", vf::show(p), ") is ", got));
    if (neolib::wildcard_match<char>(t.begin(), t.end(), p.begin(), p.end()) != want) vf::fail("wildcard_match", "iterator overload");
    std::u16string t16(t.begin(), t.end()), p16(p.begin(), p.end());
    if (neolib::wildcard_match(t16, p16) != want) vf::fail("wildcard_match-u16", vf::cat(vf::show(t), " ", vf::show(p)));
    vf::count(want ? "wildcard-matching" : "wildcard-nonmatching");
    vf::distinct(vf::hash(t + "|" + p));
}
VF_SCENARIO(search, 4)
{
    neolib::string_search_fsa fsa;
    std::vector<hit> got;
    std::string text;
    std::set<std::string> patterns;
    auto n = 1 + r.below(5);
    bool plain = r.chance(1, 2);
    for (std::size_t i = 0; i < n; ++i)
    {
        std::string p = plain ? r.text(1 + r.below(4), "ab?") : pattern(r, 1 + r.below(4));
        if (r.chance(1, 4) && !patterns.empty()) p = *patterns.begin() + r.text(r.below(2), "ab");      // related prefixes
        patterns.insert(p);
        fsa.add_pattern(p, [&, p](char const* b, char const* e) { got.push_back({ p, b ? b - text.data() : -1, e ? e - text.data() : -1 }); });
    }
    text = r.text(r.below(10), "abc");
    std::string list; for (auto& p : patterns) list += vf::show(p) + " ";
    for (bool remove : { false, true })
    {
        got.clear();
        fsa.search(text, remove);
        vf::count("search-hits", got.size());
        std::map<std::string, std::set<hit>> by;
        for (auto& h : got)
        {
            auto d = vf::cat("patterns ", list, " text ", vf::show(text), ": reported ", vf::show(h.pattern), " at [", h.b, ",", h.e, ")");
            if (h.b < 0 || h.e < h.b || h.e > static_cast<std::ptrdiff_t>(text.size())) vf::fail("search:range", d);
            if (!glob(std::string_view{ text }.substr(h.b, h.e - h.b), h.pattern)) vf::fail("search:false-hit", d);
            if (!by[h.pattern].insert(h).second) vf::fail("search:duplicate", d);
        }
        for (auto& p : patterns)
        {
            // every place the pattern occurs
            std::set<hit> all;
            for (std::size_t b = 0; b < text.size(); ++b) for (std::size_t e = b + 1; e <= text.size(); ++e)
                if (glob(std::string_view{ text }.substr(b, e - b), p)) all.insert({ p, static_cast<std::ptrdiff_t>(b), static_cast<std::ptrdiff_t>(e) });
            auto d = vf::cat("patterns ", list, " text ", vf::show(text), " pattern ", vf::show(p), remove ? " (submatches removed)" : "");
            if (p.find('*') == std::string::npos)
            {
                if (by[p] != all) vf::fail("search:missed", vf::cat(d, ": ", by[p].size(), " of ", all.size(), " occurrences reported"));
            }
            else if (by[p].empty() != all.empty()) vf::fail("search:missed", d);
            if (remove) for (auto& x : by[p]) for (auto& y : by[p]) if (!(x == y) && x.b <= y.b && x.e >= y.e) vf::fail("search:submatch", vf::cat(d, ": [", y.b, ",", y.e, ") lies within [", x.b, ",", x.e, ")"));
        }
    }
    vf::distinct(vf::hash(text + "|" + list));
    vf::sample(vf::cat(list, " in ", vf::show(text)));
}
VF_MAIN
