// XML monitor: documents generated from a reference tree, edited against a model, written and read back
#include "vf.hpp"
#include "jsonref.hpp"
#include <neolib/core/string_utils.hpp>
#include <neolib/file/xml.hpp>

namespace
{
    enum kind { element, text, comment, declaration, cdata, dtd };
    struct node { kind k = element; std::string s; std::map<std::string, std::string> attr; std::vector<node> kids; bool pair = false; };

    bool space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
    bool blank(std::string const& s) { return std::all_of(s.begin(), s.end(), space); }
    std::string collapse(std::string const& s) { std::string r; for (char c : s) if (space(c)) { if (!r.empty() && r.back() != ' ') r += ' '; } else r += c; while (!r.empty() && r.back() == ' ') r.pop_back(); return r; }
    std::string name(vf::rng& r) { static char const* const n[] = { "a", "b", "item", "ns:tag", "x-y", "_z", "a1", "very-long-element-name-over-the-small-string-size", "\xC3\xA9t\xC3\xA9" }; return n[r.below(std::size(n))]; }
    std::string chars(vf::rng& r, std::size_t n, bool forText)
    {
        std::string s;
        while (n-- > 0)
            switch (r.below(10))
            {
            case 0: jref::utf8(s, r.range(0x80, 0x7FF)); break;
            case 1: jref::utf8(s, r.pick<int>({ 0x20AC, 0xD7FF, 0xE000, 0x1F600, 0x10FFFF, 0xFFFD })); break;
            case 2: s += r.pick({ '&', '<', '>', '"', '\'', ';', '#', '/', '=', '!', '-', ']', '?' }); break;
            case 3: s += r.pick({ ' ', '\n', '\t', ' ' }); break;
            case 4: s += r.pick<std::string>({ "&amp;", "]]>", "-->", "/>", "&#65;", "</a>" }); break;
            default: s += static_cast<char>(r.range('!', '~'));
            }
        if (forText && !s.empty() && r.chance(1, 4)) s += '\n';
        return s;
    }
    // character data as it may legally appear in a document
    std::string encode(vf::rng& r, std::string const& s, char quote, bool strip)
    {
        std::string o; std::string_view v = s;
        for (std::size_t i = 0; i < v.size();)
        {
            unsigned char c = v[i]; int n = c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : c >= 0xC0 ? 2 : 1;
            char32_t cp = n == 1 ? c : c & (n == 4 ? 7 : n == 3 ? 15 : 31); for (int k = 1; k < n; ++k) cp = cp << 6 | (v[i + k] & 63);
            char b[16];
            auto ref = [&] { std::snprintf(b, sizeof b, r.chance(1, 2) ? "&#%u;" : "&#x%X;", static_cast<unsigned>(cp)); o += b; };
            if (c == '&') { if (r.chance(3, 4)) o += "&amp;"; else ref(); }
            else if (c == '<') { if (r.chance(3, 4)) o += "&lt;"; else ref(); }
            else if (c == static_cast<unsigned char>(quote)) { if (r.chance(3, 4)) o += quote == '"' ? "&quot;" : "&apos;"; else ref(); }
            else if (c == '>' && r.chance(1, 2)) o += "&gt;";
            else if (c == '"' && r.chance(1, 4)) o += "&quot;";
            else if (c == '\'' && r.chance(1, 4)) o += "&apos;";
            else if ((!space(static_cast<char>(c)) || !strip) && !space(static_cast<char>(c)) && r.chance(1, 10)) ref();
            else o += v.substr(i, n);
            i += n;
        }
        return o;
    }
    std::string misc(vf::rng& r, std::size_t n, std::string const& avoid)
    {
        std::string s;
        for (;;) { s = chars(r, n, false); if (s.find(avoid) == std::string::npos && (s.empty() || avoid[0] != '-' || (s.find("--") == std::string::npos && s.back() != '-')) && (avoid[0] != ']' || s.empty() || s.back() != ']') && (avoid[0] != '?' || s.empty() || s.back() != '?')) return s; }
    }
    node random_element(vf::rng& r, int depth)
    {
        node e; e.s = name(r);
        for (auto n = r.size(2, 6, 20); n-- > 0;) e.attr[name(r)] = chars(r, r.below(8), false);
        if (depth > 0)
            for (auto n = r.size(4, 10); n-- > 0;)
            {
                node c;
                switch (r.below(8))
                {
                case 0: case 1: case 2: if (!e.kids.empty() && e.kids.back().k == text) continue; c.k = text; c.s = chars(r, 1 + r.below(10), true); if (blank(c.s)) c.s += "x"; break;
                case 3: c.k = comment; c.s = misc(r, r.below(6), "-->"); break;
                case 4: c.k = cdata; c.s = misc(r, r.below(6), "]]>"); break;
                case 5: if (r.chance(1, 3)) { c.k = declaration; c.s = "pi " + misc(r, r.below(5), "?>"); break; } [[fallthrough]];
                default: c = random_element(r, depth - 1);
                }
                e.kids.push_back(std::move(c));
            }
        e.pair = !e.kids.empty() || r.chance(1, 3);
        return e;
    }
    std::string ws(vf::rng& r, bool need = false) { std::string s; if (need) s += r.pick({ ' ', '\n', '\t' }); if (r.chance(1, 6)) s += r.pick<std::string>({ " ", "\n", "\r\n", "\t\t" }); return s; }
    void write(vf::rng& r, node const& n, std::string& o, bool strip)
    {
        switch (n.k)
        {
        case text: o += encode(r, n.s, '\0', strip); break;
        case comment: o += "<!--" + n.s + "-->"; break;
        case declaration: o += "<?" + n.s + "?>"; break;
        case cdata: o += "<![CDATA[" + n.s + "]]>"; break;
        case dtd: o += "<!DOCTYPE" + n.s + ">"; break;
        case element:
            o += "<" + n.s;
            for (auto& [k, v] : n.attr) { char q = r.pick({ '"', '\'' }); o += ws(r, true) + k + ws(r) + "=" + ws(r) + q + encode(r, v, q, strip) + q; }
            o += ws(r);
            if (!n.pair) { o += "/>"; break; }
            o += ">";
            for (std::size_t i = 0; i < n.kids.size(); ++i)
            {
                // white space between two markups is not content
                if (n.kids[i].k != text && (i == 0 || n.kids[i - 1].k != text) && r.chance(1, 4)) o += ws(r, true);
                write(r, n.kids[i], o, strip);
            }
            if ((n.kids.empty() || n.kids.back().k != text) && r.chance(1, 4)) o += ws(r, true);
            o += "</" + n.s + ws(r) + ">";
        }
    }
    template <typename X> std::string diff(typename X::node const& g, node const& w, bool strip, bool reread, std::string const& path)
    {
        using N = typename X::node;
        static int const type[] = { N::Element, N::Text, N::Comment, N::Declaration, N::Cdata, N::Dtd };
        if (g.type() != type[w.k]) return vf::cat(path, ": node type ", g.type(), " want ", type[w.k]);
        auto differ = [&](std::string const& got, std::string const& want) { return got == want ? "" : path + ": got " + vf::show(got) + " want " + vf::show(want); };
        auto str = [](auto const& s) { return std::string{ s.to_std_string_view() }; };
        switch (w.k)
        {
        case text: { auto s = str(static_cast<typename X::text const&>(g).content()); return reread ? differ(collapse(s), collapse(w.s)) : differ(s, strip ? collapse(w.s) : w.s); }
        case comment: return differ(str(static_cast<typename X::comment const&>(g).content()), w.s);
        case declaration: return differ(str(static_cast<typename X::declaration const&>(g).content()), w.s);
        case cdata: return differ(str(static_cast<typename X::cdata const&>(g).content()), w.s);
        case dtd: return differ(str(static_cast<typename X::dtd const&>(g).content()), w.s);
        case element:
            {
                auto& e = static_cast<typename X::element const&>(g);
                if (str(e.name()) != w.s) return path + ": element " + str(e.name()) + " want " + w.s;
                auto p = path + "/" + w.s;
                if (e.attributes().size() != w.attr.size()) return vf::cat(p, ": ", e.attributes().size(), " attributes, want ", w.attr.size());
                for (auto& [k, v] : w.attr)
                {
                    auto want = strip ? collapse(v) : v;
                    if (!e.has_attribute(k) || str(e.attribute_value(k)) != want) return p + "@" + k + ": got " + vf::show(str(e.attribute_value(k))) + " want " + vf::show(want);
                    if (&e.attribute_value("no such", k) != &e.attribute_value(k)) return p + "@" + k + ": old name fallback";
                }
                if (e.has_attribute("no such") || !e.attribute_value("no such").empty()) return p + ": missing attribute has a value";
                std::size_t n = 0, elements = 0; std::string all; bool onlyText = true;
                for (auto& k : w.kids) { if (k.k == text) all += strip ? collapse(k.s) : k.s; else onlyText = false; if (k.k == element) ++elements; }
                auto const& base = static_cast<N const&>(e);
                for (auto i = base.begin(); i != base.end(); ++i, ++n)
                {
                    if (n >= w.kids.size()) return p + ": too many children";
                    if (auto d = diff<X>(*i, w.kids[n], strip, reread && !(onlyText && w.kids.size() == 1 && !strip), vf::cat(p, "/", n)); !d.empty()) return d;
                }
                if (n != w.kids.size() || e.empty() != w.kids.empty()) return vf::cat(p, ": ", n, " children, want ", w.kids.size());
                n = 0; std::size_t at = 0;
                for (auto i = e.begin(); i != e.end(); ++i, ++n)
                {
                    while (at < w.kids.size() && w.kids[at].k != element) ++at;
                    if (at >= w.kids.size() || str((*i).name()) != w.kids[at++].s) return p + ": element iteration";
                }
                if (n != elements) return vf::cat(p, ": element iteration visits ", n, " of ", elements);
                for (auto f : { N::Text, N::Comment, N::Cdata })
                {
                    std::size_t want = 0, back = 0; n = 0; for (auto& k : w.kids) if (type[k.k] & f) ++want;
                    auto b = base.begin(f), z = base.end(f);
                    for (auto i = b; i != z; ++i, ++n) if (i->type() != f) return p + ": filtered iteration visits another type";
                    if (want) { auto i = z; do { --i; ++back; if (i->type() != f) return p + ": filtered reverse iteration visits another type"; } while (i != b && back < 1000); }
                    if (n != want || back != want) return vf::cat(p, ": filtered iteration visits ", n, "/", back, " of ", want);
                }
                if (!reread && str(e.text()) != all) return p + ": text() " + vf::show(str(e.text())) + " want " + vf::show(all);
                auto f = base.find(w.kids.empty() ? "zz" : w.kids[0].s.c_str()); node const* first = nullptr;
                for (auto& k : w.kids) if (!first && k.k == element && k.s == w.kids[0].s) first = &k;
                if ((f != base.end()) != (first != nullptr)) return p + ": find";
                return "";
            }
        }
        return "";
    }
    template <typename X> std::string diffDocument(X const& x, std::vector<node> const& w, bool strip, bool reread)
    {
        std::size_t n = 0; node const* root = nullptr; for (auto& i : w) if (i.k == element) root = &i;
        for (auto i = x.document().begin(); i != x.document().end(); ++i, ++n)
        {
            if (n >= w.size()) return "too many top level nodes";
            if (auto d = diff<X>(*i, w[n], strip, reread, vf::cat("", n)); !d.empty()) return d;
        }
        if (n != w.size()) return vf::cat(n, " top level nodes, want ", w.size());
        if (x.got_root() != (root != nullptr)) return "got_root";
        return "";
    }
    template <typename X> void writeBack(vf::rng& r, X& x, std::vector<node> const& w, bool strip, std::string const& origin)
    {
        if (r.chance(1, 2)) x.set_indent(' ', r.below(5));
        std::ostringstream o; x.write(o); auto t = o.str();
        X y{ strip }; std::istringstream in{ t };
        if (!y.read(in) || y.error()) vf::fail("xml:written-malformed", vf::show(t, 600) + " from " + origin);
        if (auto d = diffDocument(y, w, strip, true); !d.empty()) vf::fail("xml:written", d + " in " + vf::show(t, 600) + " from " + origin);
        // elements keep their form
        vf::count("documents-written");
    }
    std::vector<node> random_document(vf::rng& r, std::string& t, bool strip)
    {
        std::vector<node> d;
        auto top = [&] { for (auto n = r.below(3); n-- > 0;) if (r.chance(1, 3)) { node c; c.k = comment; c.s = misc(r, r.below(8), "-->"); d.push_back(c); } };
        if (r.chance(1, 3)) { node c; c.k = declaration; c.s = "xml version='1.0'"; d.push_back(c); }
        top();
        if (r.chance(1, 4)) { node c; c.k = dtd; c.s = r.pick<std::string>({ " a", " a SYSTEM \"x.dtd\"", " a [<!ELEMENT a (b)>\n<!ENTITY c 'd'>]" }); d.push_back(c); }
        top(); d.push_back(random_element(r, static_cast<int>(r.below(5)))); top();
        for (auto& n : d) { t += ws(r); write(r, n, t, strip); }
        t += ws(r);
        return d;
    }
    std::size_t nodes(node const& n) { std::size_t c = 1; for (auto& k : n.kids) c += nodes(k); return c; }
    template <typename X> void readDocument(vf::rng& r)
    {
        bool strip = r.chance(1, 3); std::string t; auto d = random_document(r, t, strip);
        X x{ strip };
        if (r.chance(1, 4)) { std::istringstream in{ "<other><doc/></other>" }; x.read(in); }
        bool ok; if (r.chance(3, 4)) { std::istringstream in{ t }; ok = x.read(in); } else { jref::pipe_buf b{ t }; std::istream in{ &b }; ok = x.read(in); }
        if (!ok || x.error()) vf::fail("xml:rejected", vf::show(t, 600));
        if (auto e = diffDocument(x, d, strip, false); !e.empty()) vf::fail("xml:value", e + " in " + vf::show(t, 600));
        writeBack(r, x, d, strip, vf::show(t, 300));
        vf::distinct(vf::hash(t)); vf::sample(vf::show(t, 120)); std::size_t n = 0; for (auto& i : d) n += nodes(i); vf::max("nodes", n);
    }
    using std_xml = neolib::basic_xml<char>;

    struct absent {};
    template <typename X> struct editor
    {
        vf::rng& r; X x; node m; std::string log;
        explicit editor(vf::rng& r) : r{ r } {}
        using E = typename X::element; using N = typename X::node;
        std::pair<E*, node*> pick()
        {
            E* e = &x.root(); node* n = &m;
            while (!n->kids.empty() && !r.chance(1, 3))
            {
                auto i = r.below(n->kids.size()); if (n->kids[i].k != element) break;
                auto it = static_cast<N&>(*e).begin(); for (auto k = i; k-- > 0;) ++it;
                e = static_cast<E*>(&*it); n = &n->kids[i];
            }
            return { e, n };
        }
        void step()
        {
            auto [e, n] = pick(); auto& base = static_cast<N&>(*e); auto nm = name(r);
            auto at = [&](std::size_t i) { auto it = base.begin(); while (i-- > 0) ++it; return it; };
            auto child = [&] { node c; c.s = nm; return c; };
            log += " " + n->s + ":";
            switch (r.below(9))
            {
            case 0: { log += "append " + nm; auto& c = r.chance(1, 2) ? x.append(base, nm.c_str()) : e->append(nm); if (c.name() != nm) vf::fail("xml:append", log); n->kids.push_back(child()); } break;
            case 1: { auto i = r.below(n->kids.size() + 1); log += vf::cat("insert ", i, " ", nm); auto it = x.insert(base, at(i), nm.c_str()); if (static_cast<E&>(*it).name() != nm) vf::fail("xml:insert", log); n->kids.insert(n->kids.begin() + i, child()); } break;
            case 2: if (!n->kids.empty()) { auto i = r.below(n->kids.size()); log += vf::cat("erase ", i); x.erase(base, at(i)); n->kids.erase(n->kids.begin() + i); } break;
            case 3:
                {
                    log += "find_or_append " + nm; auto it = x.find_or_append(base, nm.c_str()); std::size_t i = 0;
                    while (i < n->kids.size() && !(n->kids[i].k == element && n->kids[i].s == nm)) ++i;
                    if (i == n->kids.size()) n->kids.push_back(child());
                    if (it != at(i)) vf::fail("xml:find_or_append", log);
                }
                break;
            case 4:
                {
                    log += "find " + nm; auto it = x.find(base, nm.c_str()); std::size_t i = 0;
                    while (i < n->kids.size() && !(n->kids[i].k == element && n->kids[i].s == nm)) ++i;
                    if (it != (i == n->kids.size() ? base.end() : at(i))) vf::fail("xml:find", log);
                    if (base.find_maybe(nm).has_value() != (i != n->kids.size())) vf::fail("xml:find_maybe", log);
                    bool t = false; try { base.template find_or_throw<absent>(nm); } catch (absent const&) { t = true; } if (t != (i == n->kids.size())) vf::fail("xml:find_or_throw", log);
                }
                break;
            case 5: case 6: { auto v = chars(r, r.below(6), false); log += "@" + nm; e->set_attribute(nm, v); n->attr[nm] = v; } break;
            case 7: if (n->kids.empty() || n->kids.back().k != text) { node t; t.k = text; t.s = chars(r, 1 + r.below(6), true); if (blank(t.s)) t.s = "x" + t.s; log += "text"; e->append_text(t.s); n->kids.push_back(t); } break;
            case 8: if (r.chance(1, 8)) { log += "clear"; base.clear(); n->kids.clear(); } break;
            }
            // text nodes that became adjacent would be read back as one
            std::vector<node> d{ m };
            if (auto f = diffDocument(x, d, false, false); !f.empty()) vf::fail("xml:edit", f + " after" + log);
            vf::count("edits");
        }
    };
    bool adjacent(node const& n) { for (std::size_t i = 0; i < n.kids.size(); ++i) { if (i && n.kids[i].k == text && n.kids[i - 1].k == text) return true; if (adjacent(n.kids[i])) return true; } return false; }
    template <typename X> void edit(vf::rng& r)
    {
        editor<X> e{ r };
        if (r.chance(1, 2)) { e.m = random_element(r, 3); std::string t; write(r, e.m, t, false); std::istringstream in{ t }; if (!e.x.read(in) || e.x.error()) vf::fail("xml:rejected", vf::show(t, 600)); e.log = " " + vf::show(t, 200); }
        else { e.m.s = "root"; e.x.root().name() = "root"; }
        for (auto n = r.size(12, 60); n-- > 0;) e.step();
        if (!adjacent(e.m)) writeBack(r, e.x, { e.m }, false, e.log);
        vf::distinct(vf::hash(e.log));
    }
}
VF_SCENARIO(documents, 4) { readDocument<std_xml>(r); }
VF_SCENARIO(documents_pooled, 1) { readDocument<neolib::xml>(r); }
VF_SCENARIO(edits, 3) { edit<std_xml>(r); }
VF_SCENARIO(edits_pooled, 1) { edit<neolib::xml>(r); }
VF_SCENARIO(truncated, 2)
{
    // a document cut inside its root element is never passed off as a whole one
    node e = random_element(r, 3); std::string t; write(r, e, t, false);
    auto cut = t.substr(0, r.below(t.size()));
    std_xml x; std::istringstream in{ cut };
    if (x.read(in) && !x.error()) vf::fail("xml:truncated-accepted", vf::show(cut, 600));
    vf::distinct(vf::hash(cut)); vf::count("truncations");
}
VF_SCENARIO(mismatched, 1)
{
    node e = random_element(r, 4); std::string t; write(r, e, t, false);
    std::vector<std::size_t> ends; for (std::size_t p = 0; (p = t.find("</", p)) != std::string::npos; ++p) ends.push_back(p);
    // only when every "</" is an end tag
    auto hasMarkup = [&](auto& self, node const& n) -> bool { if (n.k != element && n.s.find("</") != std::string::npos) return true; for (auto& a : n.attr) if (a.second.find("</") != std::string::npos) return true; for (auto& k : n.kids) if (self(self, k)) return true; return false; };
    if (ends.empty() || hasMarkup(hasMarkup, e)) { vf::trivial(); return; }
    auto p = r.pick(ends); t.insert(p + 2, r.pick<std::string>({ "q", "/", "x:" }));
    std_xml x; std::istringstream in{ t };
    if (x.read(in) && !x.error()) vf::fail("xml:mismatch-accepted", vf::show(t, 600));
    vf::distinct(vf::hash(t)); vf::count("mismatches");
}
VF_SCENARIO(hostile, 3)
{
    std::string t;
    if (r.chance(1, 2)) { bool strip = false; random_document(r, t, strip); for (auto n = 1 + r.below(4); n-- > 0;) { auto p = r.below(t.size() + 1); if (r.chance(1, 3)) t.erase(p, 1); else t.insert(p, r.pick<std::string>({ "<", ">", "/", "&", ";", "\"", "'", "=", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<!DOCTYPE ", "&#", "&#x;", "&;", "</", "/>", std::string(1, char(r.next())) })); } }
    else { static char const* const b[] = { "<", ">", "</", "/>", "a", "b", "=", "'", "\"", " ", "<!--", "-->", "<?", "?>", "<![CDATA[", "]]>", "<!DOCTYPE ", "&", ";", "#", "&lt;" }; for (auto n = r.below(12); n-- > 0;) t += b[r.below(std::size(b))]; }
    if (r.chance(1, 4)) t.resize(r.below(t.size() + 1));
    std_xml x{ r.chance(1, 3) }; std::istringstream in{ t }; bool ok = x.read(in);
    if (ok) { std::ostringstream o; x.write(o); std::size_t n = 0; for (auto i = x.document().begin(); i != x.document().end(); ++i) ++n; vf::count("hostile-accepted", n > 0); }
    vf::distinct(vf::hash(t)); vf::count(x.error() ? "hostile-error" : "hostile-no-error");
}
VF_MAIN
