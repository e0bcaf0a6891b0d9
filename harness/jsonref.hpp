// reference JSON value, strict RFC 8259 parser (plus neolib's bare words) and document generator
#pragma once
#include "vf.hpp"
#include <neolib/file/json.hpp>

namespace jref
{
    enum kind { null, boolean, number, string, word, array, object };
    struct value
    {
        kind k = null; bool b = false; std::string s; std::vector<value> items; std::vector<std::pair<std::string, bool>> names; // name, is bare
    };
    struct bad {};

    inline void utf8(std::string& r, char32_t c)
    {
        if (c < 0x80) r += char(c);
        else if (c < 0x800) { r += char(0xC0 | c >> 6); r += char(0x80 | (c & 63)); }
        else if (c < 0x10000) { r += char(0xE0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
        else { r += char(0xF0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
    }
    inline bool word_start(unsigned char c) { return std::isalpha(c) || c == '$' || c == '_' || c == '@' || c >= 0x80; }

    struct parser
    {
        std::string_view t; std::size_t i = 0; bool words = true;
        char peek() const { return i < t.size() ? t[i] : '\0'; }
        void ws() { while (i < t.size() && (t[i] == ' ' || t[i] == '\t' || t[i] == '\n' || t[i] == '\r')) ++i; }
        unsigned hex4() { unsigned v = 0; for (int k = 0; k < 4; ++k) { if (i >= t.size() || !std::isxdigit((unsigned char)t[i])) throw bad{}; v = v * 16 + (std::isdigit((unsigned char)t[i]) ? t[i] - '0' : (t[i] | 32) - 'a' + 10); ++i; } return v; }
        std::string str()
        {
            std::string r; ++i;
            for (;;)
            {
                if (i >= t.size()) throw bad{};
                unsigned char c = t[i++];
                if (c == '"') return r;
                if (c < 32) throw bad{};
                if (c != '\\') { r += char(c); continue; }
                if (i >= t.size()) throw bad{};
                c = t[i++];
                switch (c)
                {
                case '"': case '\\': case '/': r += char(c); break;
                case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
                case 'u':
                    {
                        unsigned v = hex4();
                        if (v >= 0xDC00 && v <= 0xDFFF) throw bad{};
                        if (v >= 0xD800 && v <= 0xDBFF)
                        {
                            if (t.substr(i, 2) != "\\u") throw bad{};
                            i += 2; unsigned w = hex4();
                            if (w < 0xDC00 || w > 0xDFFF) throw bad{};
                            v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
                        }
                        utf8(r, v);
                    }
                    break;
                default: throw bad{};
                }
            }
        }
        std::string bare()
        {
            auto b = i; if (!words || i >= t.size() || !word_start(t[i])) throw bad{};
            while (i < t.size() && (word_start(t[i]) || std::isdigit((unsigned char)t[i]) || t[i] == '.')) ++i;
            return std::string{ t.substr(b, i - b) };
        }
        void digits() { if (!std::isdigit((unsigned char)peek())) throw bad{}; while (std::isdigit((unsigned char)peek())) ++i; }
        value val()
        {
            value v; char c = peek();
            if (i >= t.size()) throw bad{};
            if (c == '{')
            {
                v.k = object; ++i; ws();
                if (peek() == '}') { ++i; return v; }
                for (;;)
                {
                    ws(); std::string n; bool isBare = false;
                    if (peek() == '"') n = str(); else { n = bare(); isBare = true; if (n == "true" || n == "false" || n == "null") throw bad{}; }
                    ws(); if (peek() != ':') throw bad{}; ++i; ws();
                    v.items.push_back(val()); v.names.push_back({ n, isBare }); ws();
                    if (peek() == '}') { ++i; return v; }
                    if (peek() != ',') throw bad{}; ++i;
                }
            }
            if (c == '[')
            {
                v.k = array; ++i; ws();
                if (peek() == ']') { ++i; return v; }
                for (;;)
                {
                    ws(); v.items.push_back(val()); ws();
                    if (peek() == ']') { ++i; return v; }
                    if (peek() != ',') throw bad{}; ++i;
                }
            }
            if (c == '"') { v.k = string; v.s = str(); return v; }
            if (c == '-' || std::isdigit((unsigned char)c))
            {
                auto b = i; v.k = number; if (c == '-') ++i;
                auto d = i; digits(); if (t[d] == '0' && i - d > 1) throw bad{};
                if (peek() == '.') { ++i; digits(); }
                if (peek() == 'e' || peek() == 'E') { ++i; if (peek() == '+' || peek() == '-') ++i; digits(); }
                v.s = t.substr(b, i - b);
                return v;
            }
            auto w = bare();
            if (w == "true") { v.k = boolean; v.b = true; } else if (w == "false") { v.k = boolean; } else if (w == "null") {} else { v.k = word; v.s = w; }
            return v;
        }
        value document()
        {
            if (t.substr(0, 3) == "\xEF\xBB\xBF") i = 3;
            ws(); auto v = val(); ws(); if (i != t.size()) throw bad{}; return v;
        }
    };
    inline std::optional<value> parse(std::string_view s, bool words = true) { try { return parser{ s, 0, words }.document(); } catch (bad const&) { return {}; } }

    // ---- generation
    inline std::string any_text(vf::rng& r, std::size_t n)
    {
        std::string s;
        for (std::size_t i = 0; i < n; ++i)
            switch (r.below(12))
            {
            case 0: s += static_cast<char>(r.range(1, 31)); break;
            case 1: utf8(s, r.range(0x80, 0x7FF)); break;
            case 2: utf8(s, r.range(0x800, 0xD7FF)); break;
            case 3: utf8(s, r.range(0x10000, 0x10FFFF)); break;
            case 4: s += r.pick({ '"', '\\', '/', '\'', '`', '{', '[', ',', ':', '*' }); break;
            case 5: s += r.pick<std::string>({ "//", "/*", "*/", "\\u", "\\n", "''" }); break;
            default: s += static_cast<char>(r.range(' ', '~'));
            }
        return s;
    }
    inline std::string number_text(vf::rng& r)
    {
        std::string s = r.chance(1, 3) ? "-" : "";
        switch (r.below(8))
        {
        case 0: s += "0"; break;
        case 1: s += std::to_string(r.next()); break;
        case 2: s += std::to_string(r.next() >> r.below(64)); break;
        case 3: s += r.pick<std::string>({ "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999" }); break;
        case 4: return s + std::to_string(r.below(1000)) + "." + std::to_string(r.below(100000));
        case 5: return s + std::to_string(r.below(10)) + r.pick<std::string>({ "e", "E", "e+", "e-", ".5E-", ".25e+" }) + std::to_string(r.below(200));
        case 6: return s + "0." + std::string(r.below(4), '0') + std::to_string(r.next());
        default: s += std::to_string(r.below(1000));
        }
        return s;
    }
    inline value random_value(vf::rng& r, int depth, bool words)
    {
        value v;
        switch (r.below(depth > 0 ? 12 : 7))
        {
        case 0: v.k = null; break;
        case 1: v.k = boolean; v.b = r.chance(1, 2); break;
        case 2: case 3: v.k = number; v.s = number_text(r); break;
        case 4: case 5: v.k = string; v.s = any_text(r, r.size(6, 40)); break;
        case 6: if (words && r.chance(1, 2)) { v.k = word; v.s = r.pick<std::string>({ "abc", "tru", "nulls", "x.y", "_a1", "$v", "e5", "falsey" }); } else { v.k = string; } break;
        case 7: case 8: v.k = array; for (auto n = r.size(4, 12); n-- > 0;) v.items.push_back(random_value(r, depth - 1, words)); break;
        default:
            v.k = object;
            for (auto n = r.size(4, 12); n-- > 0;)
            {
                bool isBare = words && r.chance(1, 8);
                v.names.push_back({ isBare ? r.pick<std::string>({ "key", "a", "b.c", "_" }) : any_text(r, r.size(4, 20)), isBare });
                v.items.push_back(random_value(r, depth - 1, words));
            }
        }
        return v;
    }
    inline std::string gap(vf::rng& r) { std::string s; for (auto n = r.chance(1, 3) ? r.below(4) : 0; n-- > 0;) s += r.pick({ ' ', ' ', '\n', '\t', '\r' }); return s; }
    inline std::string quoted(vf::rng& r, std::string const& s, char q = '"')
    {
        std::string o{ q };
        for (std::size_t i = 0; i < s.size();)
        {
            unsigned char c = s[i];
            auto u = [&](unsigned v) { char b[16]; std::snprintf(b, sizeof b, r.chance(1, 2) ? "\\u%04x" : "\\u%04X", v); o += b; };
            if (c >= 0x80)
            {
                int n = c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : 2; char32_t v = c & (n == 4 ? 7 : n == 3 ? 15 : 31);
                for (int k = 1; k < n; ++k) v = v << 6 | (s[i + k] & 63);
                if (r.chance(1, 2)) o += s.substr(i, n);
                else if (v < 0x10000) u(v); else { u(0xD800 + ((v - 0x10000) >> 10)); u(0xDC00 + ((v - 0x10000) & 0x3FF)); }
                i += n; continue;
            }
            ++i;
            char const* e = c == '\b' ? "\\b" : c == '\f' ? "\\f" : c == '\n' ? "\\n" : c == '\r' ? "\\r" : c == '\t' ? "\\t" : nullptr;
            if (e && r.chance(2, 3)) o += e;
            else if (c < 32) u(c);
            else if (c == '"') { if (q == '"' || r.chance(1, 4)) o += "\\\""; else o += '"'; }
            else if (c == static_cast<unsigned char>(q)) u(c);
            else if (c == '\\') { if (r.chance(3, 4)) o += "\\\\"; else u(c); }
            else if (c == '/' && r.chance(1, 3)) o += "\\/";
            else if (r.chance(1, 20)) u(c);
            else o += static_cast<char>(c);
        }
        return o + q;
    }
    inline std::string text(vf::rng& r, value const& v)
    {
        switch (v.k)
        {
        case null: return "null";
        case boolean: return v.b ? "true" : "false";
        case number: case word: return v.s;
        case string: return quoted(r, v.s);
        case array:
            {
                std::string o = "[" + gap(r);
                for (std::size_t i = 0; i < v.items.size(); ++i) o += (i ? gap(r) + "," + gap(r) : "") + text(r, v.items[i]);
                return o + gap(r) + "]";
            }
        default:
            {
                std::string o = "{" + gap(r);
                for (std::size_t i = 0; i < v.items.size(); ++i) o += (i ? gap(r) + "," + gap(r) : "") + (v.names[i].second ? v.names[i].first : quoted(r, v.names[i].first)) + gap(r) + ":" + gap(r) + text(r, v.items[i]);
                return o + gap(r) + "}";
            }
        }
    }
    inline std::size_t nodes(value const& v) { std::size_t n = 1; for (auto& i : v.items) n += nodes(i); return n; }

    // ---- comparison of a neolib value with the reference ("" if equal)
    template <typename V>
    std::string diff(V const& g, value const& w, std::string const& path = "$")
    {
        using neolib::json_type;
        auto wrong = [&](std::string const& what) { return path + ": " + what + " (type " + neolib::to_string(g.type()) + ")"; };
        switch (w.k)
        {
        case null: return g.type() == json_type::Null ? "" : wrong("want null");
        case boolean: return g.type() == json_type::Bool && std::get<bool>(*g) == w.b ? "" : wrong("want bool");
        case string: return g.type() == json_type::String && g.text() == w.s ? "" : wrong("want string " + vf::show(w.s) + (g.type() == json_type::String ? " got " + vf::show(g.text().to_std_string()) : ""));
        case word: return g.type() == json_type::Keyword && g.text() == w.s ? "" : wrong("want word " + w.s);
        case number:
            {
                bool isInt = w.s.find_first_of(".eE") == std::string::npos;
                if (isInt)
                {
                    errno = 0; bool neg = w.s[0] == '-'; auto m = std::strtoull(w.s.c_str() + neg, nullptr, 10); bool over = errno == ERANGE;
                    if (!over && !neg)
                    {
                        if (m <= 0x7FFFFFFFull) return g.type() == json_type::Int && std::get<std::int32_t>(*g) == static_cast<std::int32_t>(m) ? "" : wrong("want int " + w.s);
                        if (m <= 0xFFFFFFFFull) return g.type() == json_type::Uint && std::get<std::uint32_t>(*g) == m ? "" : wrong("want uint " + w.s);
                        if (m <= 0x7FFFFFFFFFFFFFFFull) return g.type() == json_type::Int64 && std::get<std::int64_t>(*g) == static_cast<std::int64_t>(m) ? "" : wrong("want int64 " + w.s);
                        return g.type() == json_type::Uint64 && std::get<std::uint64_t>(*g) == m ? "" : wrong("want uint64 " + w.s);
                    }
                    if (!over && m <= 0x80000000ull) return g.type() == json_type::Int && std::get<std::int32_t>(*g) == static_cast<std::int32_t>(-static_cast<std::int64_t>(m)) ? "" : wrong("want int " + w.s);
                    if (!over && m <= 0x8000000000000000ull) return g.type() == json_type::Int64 && static_cast<std::uint64_t>(std::get<std::int64_t>(*g)) == 0 - m ? "" : wrong("want int64 " + w.s);
                }
                double d = std::strtod(w.s.c_str(), nullptr);
                if (g.type() != json_type::Double) return wrong("want real " + w.s);
                double x = std::get<double>(*g);
                if (std::isinf(d) || std::abs(d) < 1e-280) return std::isnan(x) ? wrong("want " + w.s) : "";
                return std::abs(x - d) <= std::abs(d) * 1e-13 ? "" : wrong(vf::cat("want ", w.s, " got ", x));
            }
        default:
            {
                if (g.type() != (w.k == array ? json_type::Array : json_type::Object)) return wrong("want composite");
                if (g.size() != w.items.size()) return wrong(vf::cat("has ", g.size(), " children, want ", w.items.size()));
                if (g.empty() != w.items.empty() || g.is_empty_composite() != w.items.empty() || g.has_children() == w.items.empty()) return wrong("emptiness");
                std::size_t n = 0;
                for (auto i = g.begin(); i != g.end(); ++i, ++n)
                {
                    auto p = vf::cat(path, "/", n);
                    auto& c = *i;
                    if (&c.parent() != &g) return p + ": wrong parent";
                    if (c.is_last_sibling() != (n + 1 == w.items.size())) return p + ": is_last_sibling";
                    if (w.k == object)
                    {
                        if (!c.has_name() || c.name() != w.names[n].first || c.name_is_keyword() != w.names[n].second) return p + ": want name " + vf::show(w.names[n].first) + (c.has_name() ? " got " + vf::show(c.name().to_std_string()) : "");
                    }
                    else if (c.has_name()) return p + ": array element has a name";
                    if (auto d = diff(c, w.items[n], p); !d.empty()) return d;
                }
                if (n && &*g.last_child() == nullptr) return wrong("last child");
                return "";
            }
        }
    }
    // a stream that cannot seek
    struct pipe_buf : std::streambuf
    {
        std::string data; std::size_t pos = 0; char c = 0;
        explicit pipe_buf(std::string d) : data{ std::move(d) } {}
        int_type underflow() override { if (pos >= data.size()) return traits_type::eof(); c = data[pos++]; setg(&c, &c, &c + 1); return traits_type::to_int_type(c); }
    };
}
