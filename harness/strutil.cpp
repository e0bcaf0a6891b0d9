// string utility monitors: splitting, replacing, trimming, escapes, formatting, case folding
#include "vf.hpp"
#include <neolib/core/string_utils.hpp>
#include <neolib/core/string_ci.hpp>

namespace
{
    std::string show(std::vector<std::string> const& v) { std::string r = "["; for (auto& s : v) r += vf::show(s, 40) + " "; return r + "]"; }
}

VF_SCENARIO(split, 4)
{
    auto line = r.text(r.below(14), "ab,;");
    std::string delim = r.text(r.below(4), ",;a");
    bool sub = r.chance(1, 2), skip = r.chance(1, 2);
    std::size_t maxTokens = r.chance(1, 2) ? 0 : 1 + r.below(4);
    // oracle: ordinary splitting; nothing at all for an empty line
    std::vector<std::string> want; std::size_t rest = 0;
    if (!line.empty())
    {
        if (delim.empty()) { want.push_back(line); rest = line.size(); }
        else
        {
            std::size_t b = 0;
            for (;;)
            {
                if (maxTokens && want.size() == maxTokens) break;
                auto e = sub ? line.find(delim, b) : line.find_first_of(delim, b);
                bool last = e == std::string::npos;
                if (last) e = line.size();
                bool empty = b == e;
                if (!empty || !skip) want.push_back(line.substr(b, e - b));
                if (last) { b = e; break; }
                b = e + (sub ? delim.size() : 1);
            }
            rest = b;
        }
    }
    std::vector<std::string> got;
    auto it = neolib::tokens(line.begin(), line.end(), delim.begin(), delim.end(), got, maxTokens, skip, sub);
    auto d = vf::cat("tokens(", vf::show(line), ", ", vf::show(delim), ", max ", maxTokens, skip ? ", skip empty" : "", sub ? ", subsequence" : "", ") gave ", show(got), " want ", show(want));
    if (got != want) vf::fail("tokens:result", d);
    if (maxTokens == 0 && it != line.end()) vf::fail("tokens:rest", vf::cat("returned position ", it - line.begin(), "; ", d));
    if (maxTokens && got.size() == maxTokens && static_cast<std::size_t>(it - line.begin()) != rest) vf::fail("tokens:rest", vf::cat("returned position ", it - line.begin(), " want ", rest, "; ", d));
    auto byValue = neolib::tokens(line, delim, maxTokens, skip, sub);
    auto byRange = neolib::tokens(line.begin(), line.end(), delim, maxTokens, skip, sub);
    std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>> pairs;
    std::string const& cl = line; std::string const& cd = delim;
    neolib::tokens(cl.begin(), cl.end(), cd.begin(), cd.end(), pairs, maxTokens, skip, sub);
    std::vector<std::string> fromPairs; for (auto& p : pairs) fromPairs.emplace_back(p.first, p.second);
    if (byValue != want || byRange != want || fromPairs != want) vf::fail("tokens:overloads", d);
    vf::distinct(vf::hash(line + "|" + delim) ^ maxTokens ^ (sub * 2 + skip) << 8);
    vf::count("splits"); vf::count("tokens", got.size());
}
VF_SCENARIO(replace, 3)
{
    auto text = r.text(r.below(16), "ab");
    auto search = r.text(r.below(4), "ab");
    auto with = r.text(r.below(4), "abc");
    auto s = text;
    bool any = false; std::string want;
    if (search.empty()) want = text;        // nothing to search for
    else for (std::size_t i = 0; i < text.size();)
    {
        if (text.compare(i, search.size(), search) == 0) { want += with; i += search.size(); any = true; }
        else want += text[i++];
    }
    bool got = neolib::replace_string(s, search, with);
    if (s != want || got != any) vf::fail("replace_string", vf::cat(vf::show(text), " ", vf::show(search), "->", vf::show(with), " gave ", vf::show(s), " (", got, ") want ", vf::show(want)));
    vf::distinct(vf::hash(text + "|" + search + "|" + with));
    vf::count("replacements", any);
}
VF_SCENARIO(trim, 2)
{
    auto s = r.text(r.below(12), "ab \t"); auto set = r.text(r.below(4), " \ta");
    auto lead = [&](std::string t) { std::size_t i = 0; while (i < t.size() && set.find(t[i]) != std::string::npos) ++i; return t.substr(i); };
    auto trail = [&](std::string t) { while (!t.empty() && set.find(t.back()) != std::string::npos) t.pop_back(); return t; };
    auto a = s, b = s, c = s;
    neolib::remove_leading(a, set); neolib::remove_trailing(b, set); neolib::remove_leading_and_trailing(c, set);
    auto d = vf::cat(vf::show(s), " set ", vf::show(set), ": ", vf::show(a), " ", vf::show(b), " ", vf::show(c));
    if (a != lead(s)) vf::fail("remove_leading", d);
    if (b != trail(s)) vf::fail("remove_trailing", d);
    if (c != trail(lead(s))) vf::fail("remove_leading_and_trailing", d);
    if (!s.empty() && !set.empty())
    {
        auto p = r.below(s.size());
        std::size_t first = std::string::npos, last = std::string::npos;
        for (std::size_t i = p + 1; i-- > 0;) if (set.find(s[i]) != std::string::npos) { first = i; break; }
        for (std::size_t i = p + 1; i-- > 0;) { if (set.find(s[i]) == std::string::npos) break; last = i; }
        if (neolib::reverse_find_first_of(s, set, p) != first) vf::fail("reverse_find_first_of", vf::cat(d, " from ", p));
        if (neolib::reverse_find_last_of(s, set, p) != last) vf::fail("reverse_find_last_of", vf::cat(d, " from ", p));
    }
    vf::distinct(vf::hash(s + "|" + set)); vf::count("trims");
}
VF_SCENARIO(escapes, 3)
{
    // unescape
    std::string s, want;
    auto n = r.below(10);
    bool hexOpen = false;
    for (std::size_t i = 0; i < n; ++i)
        switch (r.below(7))
        {
        case 0: { static char const* const e[] = { "n\n", "r\r", "t\t", "\\\\", "\"\"", "''" }; auto p = e[r.below(6)]; s += '\\'; s += p[0]; want += p[1]; hexOpen = false; break; }
        case 1: { unsigned v = r.below(256); char b[8]; std::snprintf(b, sizeof b, r.chance(1, 2) ? "\\x%02x" : "\\x%02X", v); s += b; want += static_cast<char>(v); hexOpen = true; break; }
        case 2: { s += "\\q"; want += "q"; hexOpen = false; break; }
        case 3: if (i + 1 == n) { s += "\\"; want += "\\"; } else { s += "zz"; want += "zz"; } hexOpen = false; break;
        default: { char c = hexOpen ? r.pick({ 'g', 'z', ' ', '-' }) : static_cast<char>(r.range(' ', '~')); if (c == '\\') c = '/'; s += c; want += c; hexOpen = false; }
        }
    if (neolib::unescape(s) != want) vf::fail("unescape", vf::cat(vf::show(s), " gave ", vf::show(neolib::unescape(s)), " want ", vf::show(want)));
    if (neolib::unescape(std::string_view{ s }) != want) vf::fail("unescape-view", vf::show(s));
    // hostile input: no crash, no growth
    auto junk = r.chance(1, 2) ? r.bytes(r.below(12)) : r.text(r.below(12), "\\x0fFg");
    auto out = neolib::unescape(junk);
    if (out.size() > junk.size()) vf::fail("unescape-growth", vf::show(junk));
    // to_escaped_string: printable, at most aMax source characters
    auto raw = r.bytes(r.below(20));
    std::size_t limit = r.chance(1, 2) ? 0 : 1 + r.below(24); bool dots = r.chance(1, 2);
    std::string esc;
    std::size_t k = 0;
    for (unsigned char c : raw)
    {
        if (limit && k++ == limit) { if (dots) esc += "..."; break; }
        if (c >= 32 && c < 128) esc += static_cast<char>(c);
        else if (c == '\n') esc += "\\n"; else if (c == '\r') esc += "\\r"; else if (c == '\t') esc += "\\t";
        else { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); esc += b; }
    }
    if (neolib::to_escaped_string(raw, limit, dots) != esc) vf::fail("to_escaped_string", vf::cat(vf::show(raw), " limit ", limit, " gave ", vf::show(neolib::to_escaped_string(raw, limit, dots)), " want ", vf::show(esc)));
    // URL escapes: %XX decodes to that byte, in place, once
    std::string u, plain;
    auto m = r.below(10);
    for (std::size_t i = 0; i < m; ++i)
        if (r.chance(1, 3)) { unsigned v = r.chance(1, 4) ? '%' : r.below(256); char b[8]; std::snprintf(b, sizeof b, r.chance(1, 2) ? "%%%02x" : "%%%02X", v); u += b; plain += static_cast<char>(v); }
        else { char c = static_cast<char>(r.range(' ', '~')); if (c == '%') c = '+'; u += c; plain += c; }
    if (neolib::parse_url_escapes(u) != plain) vf::fail("parse_url_escapes", vf::cat(vf::show(u), " gave ", vf::show(neolib::parse_url_escapes(u)), " want ", vf::show(plain)));
    (void)neolib::parse_url_escapes(r.text(r.below(8), "%1aG"));
    vf::distinct(vf::hash(s + u)); vf::count("escape-cases");
}
VF_SCENARIO(formatting, 3)
{
    // pieces of literal text, doubled braces (kept as they are) and argument references
    std::string fmt, want;
    std::vector<std::tuple<std::size_t, std::ptrdiff_t, std::ptrdiff_t>> args;
    int a0 = static_cast<int>(r.range(-99999, 99999)); std::string a1 = r.text(r.below(6), "xyz{}"); double a2 = r.range(-1000, 1000) / 8.0;
    auto n = r.below(7);
    bool automatic = r.chance(1, 3); std::size_t next = 0;
    for (std::size_t i = 0; i < n; ++i)
        switch (r.below(4))
        {
        case 0: { auto t = r.text(r.below(5), "ab }"); if (t.find('}') != std::string::npos) t = "ok"; fmt += t; want += t; break; }
        case 1: fmt += "{{x}}"; want += "{{x}}"; break;
        default:
            {
                std::size_t id = r.below(3);
                if (automatic) break;
                std::string spec, text;
                if (id == 0) switch (r.below(3)) { case 0: text = std::to_string(a0); break; case 1: spec = ":8"; text = std::format("{:8}", a0); break; default: spec = ":+06d"; text = std::format("{:+06d}", a0); }
                else if (id == 1) { if (r.chance(1, 2)) text = a1; else { spec = ":>9"; text = std::format("{:>9}", a1); } }
                else { spec = ":.2f"; text = std::format("{:.2f}", a2); }
                args.push_back({ id, static_cast<std::ptrdiff_t>(want.size()), static_cast<std::ptrdiff_t>(want.size() + text.size()) });
                fmt += "{" + std::to_string(id) + spec + "}"; want += text;
            }
        }
    (void)next;
    auto got = neolib::format(fmt, a0, a1, a2);
    if (static_cast<std::string const&>(got) != want) vf::fail("format:text", vf::cat(vf::show(fmt), " gave ", vf::show(got), " want ", vf::show(want)));
    if (got.args.size() != args.size()) vf::fail("format:args", vf::show(fmt));
    for (std::size_t i = 0; i < args.size(); ++i)
    {
        auto [id, b, e] = args[i];
        if (got.args[i].arg != id || got.args[i].begin != b || got.args[i].end != e) vf::fail("format:args", vf::cat(vf::show(fmt), " argument ", i));
    }
    for (std::size_t id = 0; id < 4; ++id)
    {
        auto f = std::find_if(args.begin(), args.end(), [&](auto& t) { return std::get<0>(t) == id; });
        if (got.has_arg(id) != (f != args.end())) vf::fail("format:has_arg", vf::show(fmt));
        if (f != args.end()) { if (got.arg_span(id) != std::string_view{ want }.substr(std::get<1>(*f), std::get<2>(*f) - std::get<1>(*f))) vf::fail("format:arg_span", vf::show(fmt)); }
        else { bool t = false; try { got.arg_span(id); } catch (std::format_error const&) { t = true; } if (!t) vf::fail("format:arg_span", "missing argument did not throw"); }
    }
    for (std::ptrdiff_t p = 0; p <= static_cast<std::ptrdiff_t>(want.size()); ++p)
    {
        auto f = std::find_if(args.begin(), args.end(), [&](auto& t) { return p >= std::get<1>(t) && p < std::get<2>(t); });
        if (got.arg_spanning(p) - got.args.begin() != f - args.begin()) vf::fail("format:arg_spanning", vf::cat(vf::show(fmt), " at ", p));
    }
    // malformed format strings throw rather than run on
    for (auto bad : { "{", "abc{", "{0", "x{0:" }) { bool t = false; try { (void)neolib::format(std::string{ bad }, a0); } catch (std::format_error const&) { t = true; } if (!t) vf::fail("format:malformed", bad); }
    vf::distinct(vf::hash(fmt)); vf::count("formats"); vf::count("format-args", args.size());
}
VF_SCENARIO(letter_case, 1)
{
    std::string s(r.below(12), 0); for (auto& c : s) c = static_cast<char>(r.range(' ', '~'));
    auto up = s, low = s;
    for (auto& c : up) if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32);
    for (auto& c : low) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
    if (neolib::to_upper(s) != up || neolib::to_lower(s) != low) vf::fail("letter-case", vf::show(s));
    auto t = s; for (auto& c : t) if (r.chance(1, 2)) c = neolib::to_lower(c); else c = neolib::to_upper(c);
    auto ci = neolib::make_ci_string(s);
    if (!(ci == t) || ci != neolib::make_ci_string(t) || (ci < t) || neolib::make_string(ci) != s) vf::fail("ci_string:equal", vf::cat(vf::show(s), " ", vf::show(t)));
    std::string o(r.below(12), 0); for (auto& c : o) c = static_cast<char>(r.range(' ', '~'));
    if (r.chance(1, 2)) o = t.substr(0, r.below(t.size() + 1)) + o.substr(0, 2);
    auto lo = o; for (auto& c : lo) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
    if ((ci == o) != (low == lo) || (ci < neolib::make_ci_string(o)) != (low < lo)) vf::fail("ci_string:order", vf::cat(vf::show(s), " ", vf::show(o)));
    if (neolib::lexicographical_compare_ignoring_case(s, o) != (low < lo)) vf::fail("lexicographical_compare_ignoring_case", vf::cat(vf::show(s), " ", vf::show(o)));
    if (!lo.empty()) { auto f = ci.find(lo.c_str(), 0, 1); auto w = low.find(lo[0]); if (f != w) vf::fail("ci_string:find", vf::cat(vf::show(s), " ", vf::show(o))); }
    vf::distinct(vf::hash(s + o)); vf::count("case-folds");
}
VF_MAIN
