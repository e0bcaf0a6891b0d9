// JSON writer / RJSON / document editing monitors
#include "jsonref.hpp"
#include <fstream>

namespace
{
    using jref::value;
    // numeric equality of two reference trees ("" if the same)
    std::string same(value const& a, value const& b, bool exact, std::string const& path = "$")
    {
        if (a.k != b.k) return vf::cat(path, ": kind ", a.k, " want ", b.k);
        if (a.k == jref::boolean && a.b != b.b) return path + ": bool";
        if (a.k == jref::number)
        {
            bool ai = a.s.find_first_of(".eE") == std::string::npos, bi = b.s.find_first_of(".eE") == std::string::npos;
            if (ai && bi && a.s.size() < 19 && b.s.size() < 19 && std::stoll(a.s) != std::stoll(b.s)) return path + ": number " + a.s + " want " + b.s;
            double x = std::strtod(a.s.c_str(), nullptr), y = std::strtod(b.s.c_str(), nullptr);
            if (exact ? x != y : std::abs(x - y) > std::abs(y) * 1e-13) return path + ": number " + a.s + " want " + b.s;
        }
        if ((a.k == jref::string || a.k == jref::word) && a.s != b.s) return path + ": text " + vf::show(a.s) + " want " + vf::show(b.s);
        if (a.items.size() != b.items.size()) return vf::cat(path, ": ", a.items.size(), " children, want ", b.items.size());
        for (std::size_t i = 0; i < a.items.size(); ++i)
        {
            if (a.k == jref::object && a.names[i] != b.names[i]) return vf::cat(path, ": name ", vf::show(a.names[i].first), " want ", vf::show(b.names[i].first), b.names[i].second ? " (bare)" : "");
            if (auto d = same(a.items[i], b.items[i], exact, vf::cat(path, "/", i)); !d.empty()) return d;
        }
        return "";
    }
    template <typename Json> std::string read(Json& j, std::string const& t)
    {
        std::istringstream in{ t };
        return j.read(in) ? "" : "rejected: " + j.error_text();
    }
    template <typename Json> void written(vf::rng& r, Json& j, value const& want, std::string const& origin, bool exact)
    {
        std::ostringstream out;
        std::string indent = r.pick<std::string>({ "", " ", "  ", "\t" });
        // formatting state of the stream belongs to its owner
        bool odd = r.chance(1, 4);
        if (odd) out << std::setprecision(3);
        if (!j.write(out, indent)) vf::fail("json:write-result", origin);
        if (odd && out.precision() != 3) vf::fail("json:write-stream-state", "precision");
        auto text = out.str();
        auto back = jref::parse(text);
        if (!back) vf::fail("json:written-malformed", vf::show(text, 600) + " from " + origin);
        if (auto d = same(*back, want, exact); !d.empty()) vf::fail("json:written-value", d + " in " + vf::show(text, 600) + " from " + origin);
        Json k;
        if (auto e = read(k, text); !e.empty()) vf::fail("json:reread", e + " of " + vf::show(text, 600));
        std::ostringstream again; k.write(again, indent);
        auto second = jref::parse(again.str());
        if (!second || !same(*second, want, false).empty()) vf::fail("json:write-stable", vf::show(text, 400) + " then " + vf::show(again.str(), 400));
        vf::count("documents-written"); vf::max("written-bytes", text.size());
    }
    template <typename Json> void roundTrip(vf::rng& r)
    {
        auto v = jref::random_value(r, static_cast<int>(r.below(5)), true);
        auto t = jref::text(r, v);
        Json j; if (auto e = read(j, t); !e.empty()) vf::fail("json:rejected", e + " " + vf::show(t, 400));
        written(r, j, v, vf::show(t, 400), false);
        vf::distinct(vf::hash(t)); vf::sample(vf::show(t, 100));
    }
    // ---- RJSON text
    std::string filler(vf::rng& r, bool need = false)
    {
        std::string s;
        if (need || r.chance(1, 4)) s += r.pick<std::string>({ " ", "\n", "\t", "  " });
        for (auto n = r.chance(1, 4) ? 1 + r.below(2) : 0; n-- > 0;)
            switch (r.below(3))
            {
            case 0: s += "//" + r.text(r.below(8), "ab\"'{[,:*/ ") + "\n"; break;
            case 1: { auto c = r.text(r.below(8), "ab\"'{[,:\n* "); while (!c.empty() && c.back() == '*') c.pop_back(); s += "/*" + c + "*/"; } break;
            default: s += r.pick({ ' ', '\n', '\t', '\r' });
            }
        return s;
    }
    std::string relaxed(vf::rng& r, value const& v)
    {
        auto quoted = [&](std::string const& s) { return jref::quoted(r, s, r.pick({ '"', '\'', '`' })); };
        auto separator = [&] { return r.chance(1, 2) ? filler(r) + "," + filler(r) : filler(r, true); };
        switch (v.k)
        {
        case jref::string: return quoted(v.s);
        case jref::array:
            {
                std::string o = "[" + filler(r);
                for (std::size_t i = 0; i < v.items.size(); ++i) o += (i ? separator() : "") + relaxed(r, v.items[i]);
                return o + filler(r) + "]";
            }
        case jref::object:
            {
                std::string o = "{" + filler(r);
                for (std::size_t i = 0; i < v.items.size(); ++i) o += (i ? separator() : "") + (v.names[i].second ? v.names[i].first : quoted(v.names[i].first)) + filler(r) + ":" + filler(r) + relaxed(r, v.items[i]);
                return o + filler(r) + "}";
            }
        default: return jref::text(r, v);
        }
    }

    // ---- edits against a model
    template <typename Json> struct editor
    {
        using V = typename Json::json_value; using S = typename Json::json_string;
        using O = typename Json::json_object; using A = typename Json::json_array;
        vf::rng& r; Json j; value m; std::string log;
        explicit editor(vf::rng& r) : r{ r } {}
        struct spot { V* n; value* m; std::string path; bool dotted; };
        spot anywhere(bool composite)
        {
            for (int tries = 0; tries < 20; ++tries)
            {
                spot s{ &j.root(), &m, "", true };
                for (int depth = 0; depth < 6 && !s.m->items.empty() && !r.chance(1, 3); ++depth)
                {
                    auto i = r.below(s.m->items.size());
                    auto n = s.n->begin(); std::advance(n, i);
                    bool plain = s.m->k == jref::object && s.m->names[i].first.find('.') == std::string::npos && !s.m->names[i].first.empty();
                    s = spot{ &*n, &s.m->items[i], s.path + (s.path.empty() ? "" : ".") + (s.m->k == jref::object ? s.m->names[i].first : ""), s.dotted && plain };
                }
                if (!composite || s.m->k == jref::array || s.m->k == jref::object) return s;
            }
            return { nullptr, nullptr, "", false };
        }
        typename V::value_type fresh(value& w)
        {
            w = value{};
            switch (r.below(9))
            {
            case 0: w.k = jref::null; return typename V::json_null{};
            case 1: w.k = jref::boolean; w.b = r.chance(1, 2); return w.b;
            case 2: { w.k = jref::number; auto i = static_cast<std::int32_t>(r.next()); w.s = std::to_string(i); return i; }
            case 3: { w.k = jref::number; auto i = static_cast<std::uint32_t>(r.next()) | 0x80000000u; w.s = std::to_string(i); return i; }
            case 4: { w.k = jref::number; auto i = static_cast<std::int64_t>(r.next() | 0x100000000ull) & 0x7FFFFFFFFFFFFFFFll; w.s = std::to_string(i); return i; }
            case 5: { w.k = jref::number; double d = (r.real() - 0.5) * std::pow(10.0, static_cast<double>(r.range(-30, 30))); char b[64]; std::snprintf(b, sizeof b, "%.17e", d); w.s = b; return d; }
            case 6: w.k = jref::array; return A{};
            case 7: w.k = jref::object; return O{};
            default: w.k = jref::string; w.s = jref::any_text(r, r.size(5, 30)); return S{ w.s };
            }
        }
        std::string name() { static char const* const n[] = { "a", "b", "c", "key", "x y", "", "long name of a field that needs the heap", "\"q\"", "n.m", "d" }; return n[r.below(std::size(n))]; }
        void check()
        {
            if (auto d = jref::diff(j.croot(), m); !d.empty()) vf::fail("json:edit", d + " after" + log);
        }
        void step()
        {
            auto s = anywhere(true);
            if (!s.n) { value w; j.root() = typename V::value_type{ O{} }; m = value{}; m.k = jref::object; log += " root={}"; return check(); }
            if (s.m->k == jref::object)
            {
                auto& o = s.n->template as<O>(); auto n = name();
                auto find = [&](std::string const& k) -> std::size_t { for (std::size_t i = 0; i < s.m->items.size(); ++i) if (s.m->names[i].first == k) return i; return ~0ull; };
                auto at = find(n);
                switch (r.below(8))
                {
                case 0: case 1: case 2:
                    {
                        value w; auto v = fresh(w); log += vf::cat(" {", s.path, "}[", n, "]=", w.k);
                        o[S{ n }] = std::move(v);
                        if (at == ~0ull) { s.m->items.push_back(w); s.m->names.push_back({ n, false }); } else s.m->items[at] = w;
                    }
                    break;
                case 3:
                    {
                        log += vf::cat(" {", s.path, "}.has(", n, ")");
                        if (o.has(S{ n }) != (at != ~0ull)) vf::fail("json:has", n + log);
                        bool t = false; V const* f = nullptr; try { f = &std::as_const(o).at(S{ n }); } catch (std::out_of_range const&) { t = true; }
                        if (t != (at == ~0ull) || (f && f->name() != n)) vf::fail("json:object-at", n + log);
                        if (at != ~0ull && s.m->items[at].k == jref::string && std::as_const(o).at_or(S{ n }, S{ "zz" }) != s.m->items[at].s) vf::fail("json:at_or", n + log);
                        if (at == ~0ull && (std::as_const(o).at_or(S{ n }, S{ "zz" }) != "zz" || std::as_const(o).template at_or<int>(S{ n }, 17) != 17)) vf::fail("json:at_or", n + log);
                        if (at != ~0ull && s.m->items[at].k == jref::number && s.m->items[at].s.find_first_of(".eE") == std::string::npos && s.m->items[at].s.size() < 16 && std::as_const(o).template at_or<double>(S{ n }, 0.5) != std::strtod(s.m->items[at].s.c_str(), nullptr)) vf::fail("json:at_or", n + log);
                    }
                    break;
                case 4:
                    if (!s.m->items.empty()) { log += vf::cat(" {", s.path, "}.pop_back"); s.n->pop_back(); s.m->items.pop_back(); s.m->names.pop_back(); }
                    break;
                case 5:
                    if (!s.m->items.empty() && find(n) == ~0ull)
                    {
                        auto i = r.below(s.m->items.size()); log += vf::cat(" {", s.path, "}/", i, " name=", n);
                        auto c = s.n->begin(); std::advance(c, i); (*c).set_name(S{ n }); s.m->names[i] = { n, false };
                    }
                    break;
                case 6:
                    if (at == ~0ull)
                    {
                        value w; auto v = fresh(w); log += vf::cat(" {", s.path, "}.emplace_back(", n, ",", w.k, ")");
                        s.n->emplace_back(std::move(v)).set_name(S{ n }); s.m->items.push_back(w); s.m->names.push_back({ n, false });
                    }
                    break;
                case 7:
                    if (r.chance(1, 6)) { log += vf::cat(" {", s.path, "}.clear"); s.n->clear(); s.m->items.clear(); s.m->names.clear(); }
                    break;
                }
            }
            else
            {
                auto& a = s.n->template as<A>();
                switch (r.below(7))
                {
                case 0: case 1:
                    {
                        value w; auto v = fresh(w); log += vf::cat(" [", s.path, "].push_back(", w.k, ")");
                        auto& n = a.push_back(std::move(v)); s.m->items.push_back(w);
                        if (&n != s.n->last_child() || &a.back() != &n) vf::fail("json:array-push", log);
                    }
                    break;
                case 2: { value w; auto v = fresh(w); log += vf::cat(" [", s.path, "].emplace_back(", w.k, ")"); s.n->emplace_back(std::move(v)); s.m->items.push_back(w); } break;
                case 3: if (!s.m->items.empty()) { log += vf::cat(" [", s.path, "].pop_back"); s.n->pop_back(); s.m->items.pop_back(); } break;
                case 4:
                    if (!s.m->items.empty())
                    {
                        value w; auto i = r.below(s.m->items.size()); auto v = fresh(w); log += vf::cat(" [", s.path, "][", i, "]=", w.k);
                        a[i] = std::move(v); s.m->items[i] = w;
                    }
                    break;
                case 5:
                    {
                        log += vf::cat(" [", s.path, "] view");
                        std::size_t n = 0; for (auto e : std::as_const(a)) { if (n >= s.m->items.size() || e != &a[n]) vf::fail("json:array-view", log); ++n; }
                        if (n != s.m->items.size()) vf::fail("json:array-view", log);
                        bool t = false; try { a[n]; } catch (std::out_of_range const&) { t = true; } if (!t) vf::fail("json:array-view", "past the end" + log);
                    }
                    break;
                case 6: if (r.chance(1, 6)) { log += vf::cat(" [", s.path, "].clear"); s.n->clear(); s.m->items.clear(); } break;
                }
            }
            check();
            // path access finds the first field of each name
            auto p = anywhere(false);
            if (p.n && p.dotted && !p.path.empty())
            {
                value const* w = &m; std::string rest = p.path; bool unique = true;
                while (!rest.empty())
                {
                    auto d = rest.find('.'); auto bit = rest.substr(0, d); rest = d == std::string::npos ? "" : rest.substr(d + 1);
                    value const* f = nullptr; for (std::size_t i = 0; i < w->items.size(); ++i) if (w->names[i].first == bit) { if (f) unique = false; else f = &w->items[i]; }
                    w = f;
                }
                if (unique && &j.at(S{ p.path }) != p.n) vf::fail("json:path", p.path + " after" + log);
                bool t = false; try { if (unique && p.m->k == jref::object) j.at(S{ p.path + ".absent" }); else t = true; } catch (std::exception const&) { t = true; } if (!t) vf::fail("json:path", "absent field found below " + p.path);
                vf::count("paths");
            }
            vf::count("edits");
        }
    };
    template <typename Json> void edit(vf::rng& r)
    {
        editor<Json> e{ r };
        if (r.chance(1, 2))
        {
            e.m = jref::random_value(r, 3, false);
            std::function<void(value&)> unique = [&](value& v) { for (std::size_t i = 0; i < v.items.size(); ++i) { if (v.k == jref::object) { v.names[i].second = false; v.names[i].first = vf::cat(r.pick<std::string>({ "a", "b", "c" }), i ? std::to_string(i) : ""); } unique(v.items[i]); } };
            unique(e.m);
            auto t = jref::text(r, e.m); e.log = " " + vf::show(t, 200); if (auto x = read(e.j, t); !x.empty()) vf::fail("json:rejected", x + e.log);
        }
        else { e.j.root() = typename editor<Json>::V::value_type{ typename editor<Json>::O{} }; e.m.k = jref::object; }
        auto steps = r.size(12, 80);
        for (std::size_t i = 0; i < steps; ++i) e.step();
        written(r, e.j, e.m, e.log, false);
        vf::distinct(vf::hash(e.log)); vf::max("edit-steps", steps);
    }
}

VF_SCENARIO(roundtrip, 3) { roundTrip<neolib::json>(r); }
VF_SCENARIO(roundtrip_relaxed, 1) { roundTrip<neolib::rjson>(r); }
VF_SCENARIO(exact_reals, 1)
{
    neolib::json j; value m; m.k = jref::array; j.root() = neolib::json_value::value_type{ neolib::json_array{} };
    for (auto n = 1 + r.below(8); n-- > 0;)
    {
        double d; do { auto bits = r.next(); std::memcpy(&d, &bits, 8); } while (!std::isfinite(d));
        if (r.chance(1, 3)) d = static_cast<double>(r.range(-100000, 100000)) / std::pow(10.0, static_cast<double>(r.below(8)));
        j.root().as<neolib::json_array>().push_back(d);
        char b[64]; std::snprintf(b, sizeof b, "%.17e", d); value w; w.k = jref::number; w.s = b; m.items.push_back(w);
        vf::distinct(vf::hash_bytes(&d, 8));
    }
    std::ostringstream o; j.write(o, "");
    auto back = jref::parse(o.str()); if (!back) vf::fail("json:written-malformed", o.str());
    if (auto d = same(*back, m, true); !d.empty()) vf::fail("json:written-real", d);
}
VF_SCENARIO(superset, 2)
{
    // a standard document means the same when read as relaxed JSON
    auto v = jref::random_value(r, static_cast<int>(r.below(5)), true);
    auto t = jref::gap(r) + jref::text(r, v) + jref::gap(r);
    neolib::rjson j; if (auto e = read(j, t); !e.empty()) vf::fail("rjson:rejected", e + " " + vf::show(t, 400));
    if (auto d = jref::diff(j.croot(), v); !d.empty()) vf::fail("rjson:value", d + " in " + vf::show(t, 400));
    vf::distinct(vf::hash(t));
}
VF_SCENARIO(relaxations, 4)
{
    auto v = jref::random_value(r, 1 + static_cast<int>(r.below(4)), true);
    auto t = filler(r) + relaxed(r, v) + filler(r);
    neolib::rjson j; if (auto e = read(j, t); !e.empty()) vf::fail("rjson:rejected", e + " " + vf::show(t, 400));
    if (auto d = jref::diff(j.croot(), v); !d.empty()) vf::fail("rjson:value", d + " in " + vf::show(t, 400));
    written(r, j, v, vf::show(t, 300), false);
    vf::distinct(vf::hash(t)); vf::sample(vf::show(t, 100)); vf::count("relaxed-documents");
}
VF_SCENARIO(edits, 3) { edit<neolib::json>(r); }
VF_SCENARIO(edits_relaxed, 1) { edit<neolib::rjson>(r); }
VF_SCENARIO(hostile_relaxed, 2)
{
    // damaged relaxed text: an answer, never a crash
    auto t = relaxed(r, jref::random_value(r, 3, true));
    for (auto n = 1 + r.below(4); n-- > 0;) { auto p = r.below(t.size() + 1); if (r.chance(1, 3)) t.erase(p, 1); else t.insert(p, r.pick<std::string>({ "/", "/*", "*/", "//", "'", "`", "\"", "\\", "\\u", "{", "}", "[", "]", ",", ":", "1", "-", ".", "e", "\n", std::string(1, char(r.next())) })); }
    if (r.chance(1, 3)) t.resize(r.below(t.size() + 1));
    neolib::rjson j; std::istringstream in{ t };
    bool ok = j.read(in);
    if (!ok && j.error_text().empty()) vf::fail("rjson:error-text", vf::show(t));
    if (ok) { std::ostringstream o; j.write(o, ""); }
    neolib::fjson f; std::istringstream in2{ t }; f.read(in2);
    vf::distinct(vf::hash(t)); vf::count(ok ? "hostile-accepted" : "hostile-rejected");
}
VF_SCENARIO(files, 1)
{
    auto v = jref::random_value(r, 3, true); auto path = vf::tmp() + "/doc.json";
    { neolib::json j; if (auto e = read(j, jref::text(r, v)); !e.empty()) vf::fail("json:rejected", e); if (!j.write(path, " ")) vf::fail("json:file-write", ""); }
    neolib::json k{ path };
    std::ifstream f{ path }; std::string text{ std::istreambuf_iterator<char>{ f }, {} };
    auto back = jref::parse(text); if (!back) vf::fail("json:written-malformed", vf::show(text, 400));
    if (auto d = same(*back, v, false); !d.empty()) vf::fail("json:file", d);
    neolib::json n; if (n.read(vf::tmp() + "/absent.json") || n.error_text().empty()) vf::fail("json:absent-file", "");
    bool t = false; try { neolib::json x{ vf::tmp() + "/absent.json" }; } catch (neolib::json_error const&) { t = true; } if (!t) vf::fail("json:absent-file", "constructor");
    vf::count("files");
}
VF_MAIN
