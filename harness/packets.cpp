// C12: packets hold what was put in, and text is framed the same way however it arrives.
#include "vf.hpp"
#include <neolib/neolib.hpp>
#include <neolib/io/string_packet.hpp>
#include <neolib/io/binary_packet.hpp>

namespace
{
    [[noreturn]] void bad(char const* k, std::string const& d) { vf::fail(vf::cat("packet:", k), d); }
    template <typename C> struct semicolons { using character_type = C; static bool constexpr has_delimiters() { return true; } static bool constexpr is_delimiter(C c) { return c == C(';') || c == C(' ') || c == C(0); } static bool constexpr is_terminating_delimiter(C c) { return c == C(';'); } };
    template <typename C> struct nul_only { using character_type = C; static bool constexpr has_delimiters() { return true; } static bool constexpr is_delimiter(C c) { return c == C(0); } static bool constexpr is_terminating_delimiter(C c) { return c == C(0); } };
    template <typename C> std::string print(std::basic_string<C> const& s) { std::string t; for (auto c : s) t += c < C(256) && c >= C(0) ? static_cast<char>(c) : '?'; return vf::show(t); }

    // what the text consists of: the pieces between delimiters, but for empty ones; the last is complete if there is a delimiter after it
    template <typename C, typename T> std::vector<std::basic_string<C>> pieces(std::basic_string<C> const& s, std::basic_string<C>& rest)
    {
        std::vector<std::basic_string<C>> v; std::basic_string<C> cur; for (auto c : s) if (T::is_delimiter(c)) { if (!cur.empty()) v.push_back(cur); cur.clear(); } else cur += c; rest = cur; return v;
    }
    template <typename C, typename T> void framing(vf::rng& r)
    {
        std::basic_string<C> text; auto n = r.chance(1, 30) ? r.below(3000) : r.below(24);
        for (vf::u64 i = 0; i < n; ++i) switch (r.below(8)) { case 0: text += C('\r'); break; case 1: text += C('\n'); break; case 2: text += C('\r'); text += C('\n'); break; case 3: text += C(';'); break; case 4: text += r.chance(1, 2) ? C(' ') : C(0); break; case 5: text += static_cast<C>(r.below(256)); break; default: text += static_cast<C>('a' + r.below(4)); break; }
        std::basic_string<C> rest; auto want = pieces<C, T>(text, rest); neolib::basic_string_packet<C, T> p; std::vector<std::basic_string<C>> got; std::string cuts; std::size_t at = 0;
        while (at < text.size())
        {
            auto k = std::min<std::size_t>(text.size() - at, r.chance(1, 2) ? 1 : r.chance(1, 4) ? text.size() : r.range(1, 6)); cuts += vf::cat(k, ","); std::vector<C> chunk(text.begin() + at, text.begin() + at + k); at += k;
            C const* first = chunk.data(); C const* const last = first + k; int turns = 0;
            for (;;)
            {
                auto before = first; bool more = p.take_some(first, last); if (first < before || first > last) bad("bounds", "takes more than there is"); if (!more) break; if (++turns > static_cast<int>(k) + 2) bad("progress", "takes nothing for ever");
                if (!p.empty()) { if (p.length() != p.contents().size() || std::basic_string<C>(p.data(), p.length()) != p.contents() || std::basic_string<C>(p.begin(), p.end()) != p.contents()) bad("data", "data and contents differ"); got.push_back(p.contents()); p.clear(); }
            }
            if (first != last) bad("progress", vf::cat("leaves ", last - first, " of ", k, " of ", print(text)));
        }
        // what is complete has been given, and only the rest is pending
        if (p.contents() != rest) bad("rest", vf::cat("of ", print(text), " cut ", cuts, " is ", print(p.contents()), " expected ", print(rest)));
        if (got != want) { std::string s; for (auto& g : got) s += print(g) + " "; bad("framing", vf::cat(print(text), " cut ", cuts, " gives ", s)); }
        vf::count("packets", got.size()); if (want.size() > 1) vf::count("texts-of-several"); vf::distinct(vf::hash_bytes(text.data(), text.size() * sizeof(C), vf::hash(cuts)));
    }
    template <typename P> void holding(vf::rng& r)
    {
        using C = typename P::character_type; using S = std::basic_string<C>; struct one { std::unique_ptr<neolib::i_basic_packet<C>> p; S want; }; std::vector<one> v; std::string log;
        auto random = [&]() { S s; for (int i = 0, n = static_cast<int>(r.below(r.chance(1, 10) ? 300 : 9)); i < n; ++i) s += static_cast<C>(r.below(256)); return s; };
        auto check = [&]()
        {
            for (auto& o : v)
            {
                auto& p = *o.p; auto const& cp = p; if (p.length() != o.want.size() || p.empty() != o.want.empty() || p.has_max_length() || p.max_length() < p.length()) bad("length", log);
                if (o.want.empty()) { int thrown = 0; try { p.data(); } catch (typename neolib::i_basic_packet<C>::packet_empty const&) { ++thrown; } try { cp.data(); } catch (typename neolib::i_basic_packet<C>::packet_empty const&) { ++thrown; } if (thrown != 2 || p.begin() != p.end() || cp.begin() != cp.end()) bad("empty", log); }
                else if (S(p.data(), p.length()) != o.want || S(cp.begin(), cp.end()) != o.want || S(p.begin(), p.end()) != o.want) bad("content", vf::cat(print(o.want), "; ", log));
            }
        };
        for (int i = 0, n = static_cast<int>(r.range(3, 30)); i < n; ++i)
        {
            one* o = v.empty() ? nullptr : &v[r.below(v.size())];
            switch (r.below(9))
            {
            case 0: log += "n"; v.push_back({ std::make_unique<P>(), {} }); break;
            case 1: { log += "s"; auto s = random(); typename P::contents_type c(s.begin(), s.end()); v.push_back({ std::make_unique<P>(c), s }); break; }
            case 2: { log += "p"; auto s = random(); std::vector<C> exact(s.begin(), s.end()); v.push_back({ std::make_unique<P>(exact.data(), exact.size()), s }); break; }
            case 3: if (o) { log += "c"; auto c = o->p->clone(); auto w = o->want; v.push_back({ std::move(c), w }); } break;
            case 4: if (o) { auto& q = v[r.below(v.size())]; if (&q == o) break; log += "f"; o->p->copy_from(*q.p); o->want = q.want; } break;
            case 5: if (o) { auto& q = v[r.below(v.size())]; log += "="; static_cast<P&>(*o->p) = static_cast<P const&>(*q.p); o->want = q.want; } break;
            case 6: if (o) { log += "x"; o->p->clear(); o->want.clear(); } break;
            case 7: if (o && !o->want.empty()) { log += "w"; auto k = r.below(o->want.size()); auto c = static_cast<C>(r.below(256)); if (r.chance(1, 2)) o->p->data()[k] = c; else *(o->p->begin() + k) = c; o->want[k] = c; } break;
            default: if (o) { P copy{ static_cast<P const&>(*o->p) }; log += "k"; *o = { std::make_unique<P>(copy), o->want }; } break;
            }
            if (v.size() > 6) v.erase(v.begin() + r.below(v.size())); check();
        }
        vf::distinct(vf::hash(log)); vf::count("steps", log.size());
    }
    void binary(vf::rng& r)
    {
        neolib::binary_packet p; std::string all, got; std::string cuts; for (int i = 0, n = static_cast<int>(r.range(1, 8)); i < n; ++i)
        {
            std::string s; for (int k = 0, m = static_cast<int>(r.below(r.chance(1, 10) ? 5000 : 20)); k < m; ++k) s += static_cast<char>(r.below(256)); all += s; cuts += vf::cat(s.size(), ","); std::vector<char> exact(s.begin(), s.end()); char const* f = exact.data(); char const* l = f + exact.size();
            for (;;) { bool more = p.take_some(f, l); if (!more) break; if (r.chance(2, 3)) { got.append(p.begin(), p.end()); p.clear(); } } if (f != l) bad("binary", "leaves some");
        }
        if (!p.empty()) got.append(p.data(), p.length()); if (got != all) bad("binary", "cut " + cuts); vf::distinct(vf::hash(all, vf::hash(cuts)));
    }
}
VF_SCENARIO(lines, 5) { framing<char, neolib::default_string_packet_traits<char>>(r); }
VF_SCENARIO(wide_lines, 1) { r.chance(1, 2) ? framing<wchar_t, neolib::default_string_packet_traits<wchar_t>>(r) : framing<char16_t, neolib::default_string_packet_traits<char16_t>>(r); }
VF_SCENARIO(other_delimiters, 2) { r.chance(1, 2) ? framing<char, semicolons<char>>(r) : framing<char, nul_only<char>>(r); }
VF_SCENARIO(holding, 2) { switch (r.below(4)) { case 0: holding<neolib::string_packet>(r); break; case 1: holding<neolib::binary_packet>(r); break; case 2: holding<neolib::basic_string_packet<wchar_t>>(r); break; default: holding<neolib::basic_binary_packet<unsigned char>>(r); break; } }
VF_SCENARIO(binary, 1) { binary(r); }
VF_MAIN
