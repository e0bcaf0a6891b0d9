// C14: uris built from parts, taken apart by a reference of its own, and put back together.
#include "vf.hpp"
#include <cstring>
#include <optional>
#include <sstream>
#include <neolib/neolib.hpp>
#include <neolib/io/uri.hpp>

namespace
{
    using str = std::string; using opt = std::optional<str>;
    char const url[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~:/?#[]@!$&'()*+,;=%";
    bool in_url(char c) { return c && std::strchr(url, c); }
    int hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
    str enc(unsigned char c, bool upper) { char b[4]; std::snprintf(b, sizeof b, upper ? "%%%02X" : "%%%02x", c); return b; }
    str esc(str const& s) { str o; for (char c : s) o += in_url(c) ? str(1, c) : enc((unsigned char)c, true); return o; }
    str unesc(str const& s) { str o; for (std::size_t i = 0; i < s.size(); ++i) if (s[i] == '%' && s.size() - i >= 3 && hex(s[i + 1]) >= 0 && hex(s[i + 2]) >= 0) { o += char(hex(s[i + 1]) * 16 + hex(s[i + 2])); i += 2; } else o += s[i]; return o; }
    struct parts
    {
        str scheme; opt user, host; std::optional<unsigned> port; str path, query, fragment; bool refused = false;
        str show() const { std::ostringstream o; o << "scheme [" << scheme << "] user [" << user.value_or("-") << "] host [" << host.value_or("-") << "] port [" << (port ? std::to_string(*port) : "-") << "] path [" << path << "] query [" << query << "] fragment [" << fragment << "]"; return vf::show(o.str()); }
    };
    parts got(neolib::uri const& u) { parts p; p.scheme = u.scheme(); auto& a = u.authority(); if (a.user_information()) p.user = *a.user_information(); if (a.host()) p.host = *a.host(); if (a.port()) p.port = *a.port(); p.path = u.path(); p.query = u.query(); p.fragment = u.fragment(); return p; }
    void same(char const* what, parts const& a, parts const& b, str const& d)
    {
        if (a.scheme != b.scheme || a.user.value_or("") != b.user.value_or("") || a.user.has_value() != b.user.has_value() || a.host.value_or("") != b.host.value_or("") || a.port != b.port || a.path != b.path || a.query != b.query || a.fragment != b.fragment) vf::fail(vf::cat("uri:", what), vf::cat(vf::show(d), " gives ", a.show(), " want ", b.show()));
        vf::count("uris");
    }
    void authority(parts& p, str a)
    {
        if (auto i = a.rfind('@'); i != str::npos) { p.user = a.substr(0, i); a.erase(0, i + 1); }
        if (a.empty()) return; std::size_t from = 0; if (a[0] == '[' && a.find(']') != str::npos) from = a.find(']');
        auto i = a.find(':', from); p.host = a.substr(0, i); if (i == str::npos || i + 1 == a.size()) return; unsigned long n = 0; for (char c : a.substr(i + 1)) { if (c < '0' || c > '9') { p.refused = true; return; } n = std::min(1000000ul, n * 10 + (c - '0')); } if (n > 65535) p.refused = true; else p.port = unsigned(n);
    }
    parts take(str s)
    {
        parts p; s = esc(s); auto i = s.find_first_of(":/?#"); if (i != str::npos && s.compare(i, 3, "://") == 0) { p.scheme = unesc(s.substr(0, i)); s.erase(0, i + 3); }
        if (i = s.find('#'); i != str::npos) { p.fragment = unesc(s.substr(i + 1)); s.resize(i); } if (i = s.find('?'); i != str::npos) { p.query = unesc(s.substr(i + 1)); s.resize(i); } if (i = s.find('/'); i != str::npos) { p.path = unesc(s.substr(i + 1)); s.resize(i); }
        authority(p, s); return p;
    }
    void back(neolib::uri const& u, str const& d)
    {
        auto s = u.to_string(); for (char c : s) if (!in_url(c)) vf::fail("uri:not-escaped", vf::cat(vf::show(d), " gives ", vf::show(s))); std::ostringstream o; o << u; if (o.str() != s) vf::fail("uri:stream", vf::show(d));
        neolib::uri v{ s }; same("round-trip", got(v), got(u), vf::cat(d, " through ", s)); if (v.to_string() != s) vf::fail("uri:settled", vf::cat(vf::show(s), " becomes ", vf::show(v.to_string())));
    }
    str bytes(vf::rng& r, std::size_t most) { str s; char const* w[] = { "a", "/", "?", "#", "%", "%41", "%2F", "://", ":", "@", "%zz", "%4", "\xC3\xA9", " ", "\"", "&x=1", "[", "]", "..", "%00" }; for (auto n = r.below(most + 1); n; --n) if (r.chance(1, 2)) s += w[r.below(20)]; else s += char(r.below(256)); return s; }
    str word(vf::rng& r, char const* of, std::size_t least, std::size_t most) { str s; auto k = std::strlen(of); for (auto n = least + r.below(most - least + 1); n; --n) s += of[r.below(k)]; return s; }
    // as somebody else would write it: what must be escaped is, what need not be may be
    str write(vf::rng& r, str const& s, char const* must) { str o; for (char c : s) o += !in_url(c) || c == '%' || std::strchr(must, c) || r.chance(1, 9) ? (!in_url(c) && r.chance(1, 2) ? str(1, c) : enc((unsigned char)c, r.chance(1, 2))) : str(1, c); return o; }
}
VF_SCENARIO(built, 4)
{
    parts p; p.scheme = word(r, "abcxyz019+.-", 1, 6); char const name[] = "abcXYZ019-._~!$&'()*+,;=";
    if (r.chance(1, 3)) p.user = word(r, r.chance(1, 2) ? "abcXYZ019-._~:" : name, 0, 8); p.host = r.chance(1, 5) ? vf::cat("[", word(r, "0123456789abcdef:.", 2, 16), "]") : word(r, name, 1, 12); if (r.chance(1, 2)) p.port = r.chance(1, 4) ? r.pick<unsigned>({ 0u, 1u, 80u, 443u, 65535u }) : unsigned(r.below(65536));
    if (r.chance(3, 4)) p.path = bytes(r, 8); if (r.chance(1, 2)) p.query = bytes(r, 8); if (r.chance(1, 2)) p.fragment = bytes(r, 8); for (auto s : { &p.path, &p.query, &p.fragment }) if (r.chance(1, 2)) { str o; for (char c : *s) if (c) o += c; *s = o; }
    str u = p.scheme + "://"; if (p.user) u += *p.user + "@"; u += *p.host; if (p.port) u += vf::cat(":", r.chance(1, 8) ? "00" : "", *p.port); else if (r.chance(1, 20)) u += ":";
    if (!p.path.empty() || r.chance(1, 2)) u += "/" + write(r, p.path, "?#"); if (!p.query.empty() || r.chance(1, 5)) u += "?" + write(r, p.query, "#"); if (!p.fragment.empty() || r.chance(1, 5)) u += "#" + write(r, p.fragment, "");
    neolib::uri n{ u }; same("parse", got(n), p, u); back(n, u); neolib::uri copy; copy = n; same("copy", got(copy), p, u); vf::distinct(vf::hash(u)); vf::sample(vf::show(u));
}
VF_SCENARIO(any_text, 4)
{
    str s = bytes(r, 20); if (r.chance(1, 3)) s = word(r, "a:/?#@[]%12", 0, 14); auto want = take(s); bool threw = false; std::optional<neolib::uri> u; try { u.emplace(s); } catch (std::logic_error const&) { threw = true; }
    if (threw != want.refused) vf::fail("uri:port", vf::cat(vf::show(s), threw ? " refused" : " taken")); if (u) { same("parse", got(*u), want, s); back(*u, s); } else vf::count("refused-ports"); vf::distinct(vf::hash(s)); vf::sample(vf::show(s));
}
VF_SCENARIO(ports, 1)
{
    str p = r.chance(1, 3) ? word(r, "0123456789", 1, 25) : r.chance(1, 2) ? vf::cat(r.range(-5, 70000)) : word(r, "0123 +-x", 1, 6); parts want; authority(want, "h:" + p); bool threw = false; neolib::uri_authority a; try { a = neolib::uri_authority{ "h:" + p }; } catch (std::logic_error const&) { threw = true; }
    if (threw != want.refused || (!threw && (a.port() != want.port || a.host() != want.host))) vf::fail("uri:port", vf::cat(vf::show(p), threw ? " refused" : " taken")); vf::count(threw ? "refused-ports" : "ports"); vf::distinct(vf::hash(p));
}
VF_SCENARIO(set_parts, 2)
{
    neolib::uri u; str log; parts p; for (unsigned n = 1 + r.below(10); n; --n) { auto s = bytes(r, 8); log += vf::cat(" ", vf::show(s)); switch (r.below(5)) { case 0: u.set_path(s); p.path = s; break; case 1: u.set_query(s); p.query = s; break; case 2: u.set_fragment(s); p.fragment = s; break; case 3: s = r.chance(1, 2) ? s : word(r, "abc+", 1, 5); u.set_scheme(s); p.scheme = s; break; case 4: { str a = vf::cat(r.chance(1, 2) ? "u:v@" : "", "host", r.chance(1, 2) ? ":81" : ""); u.set_authority(neolib::uri_authority{ a }); p.user.reset(); p.host.reset(); p.port.reset(); authority(p, a); } } }
    same("set", got(u), p, log); back(u, log); vf::distinct(vf::hash(log));
}
VF_SCENARIO(escapes, 2)
{
    str s = bytes(r, 12); auto e = neolib::uri::escaped(s); for (char c : e) if (!in_url(c)) vf::fail("uri:not-escaped", vf::show(s)); if (neolib::uri::unescaped(s) != unesc(s)) vf::fail("uri:unescaped", vf::cat(vf::show(s), " gives ", vf::show(neolib::uri::unescaped(s))));
    if (unesc(e) != unesc(s) || neolib::uri::unescaped(e) != unesc(s)) vf::fail("uri:escape-changes", vf::cat(vf::show(s), " as ", e)); str kept; for (char c : s) if (in_url(c)) kept += c; if (neolib::uri::escaped(kept) != kept) vf::fail("uri:over-escaped", kept); vf::count("escapes"); vf::distinct(vf::hash(s));
}
VF_MAIN
