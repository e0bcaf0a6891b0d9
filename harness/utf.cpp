// UTF-8 / UTF-16 / UTF-32 conversion monitor: an independent codec judges every conversion.
#include "vf.hpp"
#include <neolib/core/string_utf.hpp>

namespace
{
    bool surrogate(char32_t c) { return c >= 0xD800 && c <= 0xDFFF; }
    // oracle decoder: (code point, length) of the well-formed sequence at i, or length 0
    // (surrogate code points are tolerated, as "generalised UTF-8")
    std::pair<char32_t, int> decode(std::string_view s, std::size_t i)
    {
        auto b = [&](std::size_t k) -> unsigned { return static_cast<unsigned char>(s[k]); };
        unsigned c = b(i);
        if (c < 0x80) return { c, 1 };
        int n = c >= 0xC2 && c <= 0xDF ? 2 : c >= 0xE0 && c <= 0xEF ? 3 : c >= 0xF0 && c <= 0xF4 ? 4 : 0;
        if (!n || i + n > s.size()) return { 0, 0 };
        char32_t v = n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
        for (int k = 1; k < n; ++k) { if ((b(i + k) & 0xC0) != 0x80) return { 0, 0 }; v = v << 6 | (b(i + k) & 63); }
        if ((n == 3 && v < 0x800) || (n == 4 && (v < 0x10000 || v > 0x10FFFF))) return { 0, 0 };
        return { v, n };
    }
    std::string enc8(char32_t c)
    {
        std::string r;
        if (c < 0x80) r += char(c);
        else if (c < 0x800) { r += char(0xC0 | c >> 6); r += char(0x80 | (c & 63)); }
        else if (c < 0x10000) { r += char(0xE0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
        else { r += char(0xF0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
        return r;
    }
    void enc16(std::u16string& r, char32_t c)
    {
        if (c < 0x10000) r += char16_t(c);
        else { r += char16_t(0xD800 + ((c - 0x10000) >> 10)); r += char16_t(0xDC00 + ((c - 0x10000) & 0x3FF)); }
    }
    char32_t scalar(vf::rng& r)
    {
        switch (r.below(8))
        {
        case 0: return r.below(0x80);
        case 1: return r.range(0x80, 0x7FF);
        case 2: return r.range(0x800, 0xD7FF);
        case 3: return r.range(0xE000, 0xFFFF);
        case 4: return r.range(0x10000, 0x10FFFF);
        case 5: return r.pick({ 0x0, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0xFFFD, 0xFFFE, 0x10000, 0x10FFFF, 0xD7FF, 0xE000, 0x1FFFF, 0x103FF, 0x10400 });
        default: return r.range(0x20, 0x7E);
        }
    }
    std::string dump(std::u16string const& s) { std::ostringstream o; for (auto c : s) o << std::hex << unsigned(c) << ' '; return o.str(); }
    std::string dump(std::u32string const& s) { std::ostringstream o; for (auto c : s) o << std::hex << unsigned(c) << ' '; return o.str(); }

    void judge(std::string const& s)
    {
        // what the conversions must produce
        bool ok = true;
        std::u16string want16; std::u32string want32;
        std::vector<std::pair<std::size_t, std::size_t>> map16, map32;
        for (std::size_t i = 0; i < s.size();)
        {
            map16.push_back({ i, want16.size() }); map32.push_back({ i, want32.size() });
            auto [c, n] = decode(s, i);
            if (!n) { ok = false; c = 0xFFFD; n = 1; }
            enc16(want16, c); want32 += c;
            i += n;
        }
        vf::count(ok ? "well-formed" : "ill-formed");
        auto what = vf::show(s);
        if (neolib::check_utf8(s) != ok) vf::fail("utf:check", vf::cat("check_utf8 says ", !ok, " for ", what));
        if (neolib::check_utf8(std::string_view{ s }) != ok || neolib::check_utf8(neolib::string{ s }) != ok || neolib::check_utf8(neolib::string_view{ s }) != ok) vf::fail("utf:check", "overloads disagree for " + what);
        std::vector<std::pair<std::size_t, std::size_t>> got16, got32;
        auto u16 = neolib::utf8_to_utf16(s, [&](std::size_t a, std::size_t b) { got16.push_back({ a, b }); });
        auto u32 = neolib::utf8_to_utf32(s, [&](std::size_t a, std::size_t b) { got32.push_back({ a, b }); });
        if (u16 != want16) vf::fail("utf:8to16", what + " -> " + dump(u16) + "want " + dump(want16));
        if (u32 != want32) vf::fail("utf:8to32", what + " -> " + dump(u32) + "want " + dump(want32));
        if (neolib::utf8_to_utf16(s) != want16 || neolib::any_to_utf16(s) != want16 || neolib::utf8_to_utf32(s) != want32 || neolib::utf8_to_utf32(std::string_view{ s }) != want32 || neolib::utf8_to_utf32(s.begin(), s.end()) != want32) vf::fail("utf:overloads", what);
        if (got16 != map16) vf::fail("utf:8to16-positions", "reported source/target positions are wrong for " + what);
        if (got32 != map32) vf::fail("utf:8to32-positions", "reported source/target positions are wrong for " + what);
        if (ok)
        {
            if (neolib::utf8_to_utf16(s, true) != want16 || neolib::utf8_to_utf32(s, true) != want32) vf::fail("utf:fallback", "code page fallback changes well-formed " + what);
            if (neolib::utf16_to_utf8(u16) != s) vf::fail("utf:16to8-roundtrip", what + " came back as " + vf::show(neolib::utf16_to_utf8(u16)));
            if (neolib::utf32_to_utf8(u32) != s) vf::fail("utf:32to8-roundtrip", what + " came back as " + vf::show(neolib::utf32_to_utf8(u32)));
        }
        vf::distinct(vf::hash(s));
    }
}

VF_SCENARIO(wellformed, 3)
{
    std::string s;
    auto n = r.size(12, 300);
    for (std::size_t i = 0; i < n; ++i) s += enc8(scalar(r));
    judge(s);
    vf::sample(vf::show(s, 60));
}
VF_SCENARIO(damaged, 4)
{
    std::string s;
    auto n = 1 + r.below(10);
    for (std::size_t i = 0; i < n; ++i)
        switch (r.below(10))
        {
        case 0: { auto e = enc8(scalar(r)); s += e.substr(0, r.below(e.size() + 1)); break; }          // truncated
        case 1: { auto e = enc8(scalar(r)); s += e.substr(std::min<std::size_t>(1, e.size() - 1)); break; }  // lone trailers
        case 2: s += r.pick({ "\xC0\x80", "\xC1\xBF", "\xE0\x80\x80", "\xE0\x9F\xBF", "\xF0\x80\x80\x80", "\xF0\x8F\xBF\xBF", "\xF4\x90\x80\x80", "\xF5\x80\x80\x80", "\xF7\xBF\xBF\xBF", "\xF8\x88\x80\x80\x80", "\xFF", "\xFE", "\xEF\xBF\xBD", "\xED\x9F\xBF", "\xEE\x80\x80" }); break;
        case 3: { auto e = enc8(scalar(r)); e[r.below(e.size())] = static_cast<char>(r.next()); s += e; break; }
        case 4: s += static_cast<char>(0x80 + r.below(128)); break;
        default: s += enc8(scalar(r));
        }
    judge(s);
}
VF_SCENARIO(bytes, 2) { judge(r.bytes(r.below(8))); }
VF_SCENARIO(short_exhaustive, 2)
{
    // walks a different slice of the 2- and 3-byte space each time
    unsigned base = static_cast<unsigned>(r.next()) & 0xFFFFFF;
    for (unsigned k = 0; k < 64; ++k) { unsigned v = (base + k * 0x010203u) | 0x800000; std::string s{ char(v >> 16), char(v >> 8), char(v) }; judge(s); judge(s.substr(0, 2)); }
    vf::count("byte-triples", 64);
}
VF_SCENARIO(utf16, 3)
{
    // arbitrary UTF-16, paired and unpaired surrogates
    std::u16string w; std::string want; std::map<std::size_t, std::size_t> wantMap;
    auto n = r.size(12, 100);
    for (std::size_t i = 0; i < n; ++i)
        if (r.chance(1, 8)) w += static_cast<char16_t>(r.range(0xD800, 0xDFFF));
        else enc16(w, scalar(r));
    for (std::size_t i = 0; i < w.size();)
    {
        char32_t c = w[i]; std::size_t used = 1;
        if (c >= 0xD800 && c <= 0xDBFF && i + 1 < w.size() && w[i + 1] >= 0xDC00 && w[i + 1] <= 0xDFFF) { c = 0x10000 + ((c - 0xD800) << 10) + (w[i + 1] - 0xDC00); used = 2; }
        auto e = enc8(c);
        for (std::size_t k = 0; k < e.size(); ++k) wantMap[want.size() + k] = i;
        if (used == 2) wantMap[want.size() + e.size() - 1] = i + 1;
        want += e;
        i += used;
    }
    neolib::utf16_to_utf8_character_map got;
    auto s = neolib::utf16_to_utf8(w, got);
    if (s != want || neolib::utf16_to_utf8(w) != want || neolib::any_to_utf8(w) != want) vf::fail("utf:16to8", dump(w) + "-> " + vf::show(s) + " want " + vf::show(want));
    if (std::map<std::size_t, std::size_t>(got.begin(), got.end()) != wantMap) vf::fail("utf:16to8-map", dump(w));
    std::string one;
    char32_t c = r.chance(1, 4) ? static_cast<char32_t>(r.range(0x110000, 0xFFFFFFFFll)) : scalar(r);
    auto len = neolib::append_utf8(one, c);
    auto expect = c > 0x10FFFF ? std::string{ "?" } : enc8(c);
    if (one != expect || len != expect.size()) vf::fail("utf:append", vf::cat("U+", std::hex, unsigned(c), " -> ", vf::show(one)));
    vf::distinct(vf::hash_bytes(w.data(), w.size() * 2));
    vf::count("utf16-strings");
}
VF_MAIN
