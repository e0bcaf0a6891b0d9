// JSON reader monitor: acceptance and value of every document judged by an independent RFC 8259 parser
#include "jsonref.hpp"

namespace
{
    template <typename Json>
    void judge(Json& j, std::string const& text, bool seekable = true, bool validate = false)
    {
        auto want = jref::parse(text);
        bool ok;
        if (seekable) { std::istringstream in{ text }; ok = j.read(in, validate); }
        else { jref::pipe_buf b{ text }; std::istream in{ &b }; ok = j.read(in, validate); }
        auto what = vf::show(text, 500);
        vf::count(want ? "well-formed" : "malformed");
        if (ok != want.has_value()) vf::fail(ok ? "json:malformed-accepted" : "json:rejected", vf::cat(what, ok ? "" : " : " + j.error_text()));
        if (!ok) { if (j.error_text().empty()) vf::fail("json:error-text", what); return; }
        if (auto d = jref::diff(j.croot(), *want); !d.empty()) vf::fail("json:value", d + " in " + what);
        // the document iterator visits every node in document order
        std::vector<void const*> order, seen;
        std::function<void(typename Json::json_value const&)> walk = [&](typename Json::json_value const& v) { order.push_back(&v); for (auto& c : v) walk(c); };
        walk(j.croot());
        for (auto i = j.cbegin(); i != j.cend(); ++i) { seen.push_back(&i.value()); if (seen.size() > order.size()) break; }
        if (seen != order) vf::fail("json:document-order", what);
        std::size_t visited = 0; j.visit([&](auto&&) { ++visited; });
        if (visited != order.size()) vf::fail("json:visit", what);
        vf::count("nodes", order.size());
    }
    template <typename Json> void all(Json& j, jref::value const& want, typename Json::json_value const& g)
    {
        // named access
        if (want.k != jref::object) { std::size_t n = 0; if (want.k == jref::array) { auto& a = g.template as<typename Json::json_array>(); for (auto e : a) { if (e != &a[n++]) vf::fail("json:array-view", "iteration and index disagree"); } if (n != want.items.size()) vf::fail("json:array-view", "size"); bool t = false; try { a[n]; } catch (std::out_of_range const&) { t = true; } if (!t) vf::fail("json:array-view", "index past the end"); } }
        else
        {
            auto& o = g.template as<typename Json::json_object>();
            for (std::size_t i = 0; i < want.items.size(); ++i)
            {
                auto& name = want.names[i].first;
                if (!o.has(typename Json::json_string{ name })) vf::fail("json:object-view", "has() misses " + vf::show(name));
                auto& f = o.at(typename Json::json_string{ name });
                if (f.name() != name || &f.parent() != &g) vf::fail("json:object-view", "at() finds another field than " + vf::show(name));
            }
            bool t = false; try { o.at(typename Json::json_string{ "no such field!" }); } catch (std::out_of_range const&) { t = true; } if (!t || o.has(typename Json::json_string{ "no such field!" })) vf::fail("json:object-view", "missing field found");
        }
        std::size_t n = 0; for (auto& c : g) all(j, want.items[n++], c);
    }
}

VF_SCENARIO(valid, 4)
{
    auto v = jref::random_value(r, static_cast<int>(r.below(5)), true);
    auto t = jref::gap(r) + jref::text(r, v) + jref::gap(r);
    if (r.chance(1, 20)) t = "\xEF\xBB\xBF" + t;
    neolib::json j; judge(j, t, r.chance(3, 4), r.chance(1, 2));
    if (auto d = jref::diff(j.croot(), v); !d.empty()) vf::fail("json:value", d + " in " + vf::show(t));
    all(j, v, j.croot());
    vf::distinct(vf::hash(t)); vf::sample(vf::show(t, 80)); vf::max("document-nodes", jref::nodes(v));
}
VF_SCENARIO(fast, 2)
{
    auto v = jref::random_value(r, static_cast<int>(r.below(5)), true);
    auto t = jref::text(r, v);
    neolib::fast_json j; judge(j, t); all(j, v, j.croot());
    vf::distinct(vf::hash(t));
}
VF_SCENARIO(damaged, 6)
{
    auto t = jref::text(r, jref::random_value(r, static_cast<int>(r.below(4)), r.chance(1, 2)));
    for (auto n = 1 + r.below(3); n-- > 0;)
    {
        auto p = r.below(t.size() + 1);
        switch (r.below(7))
        {
        case 0: t.erase(p, 1); break;
        case 1: t.insert(p, 1, r.pick({ '{', '}', '[', ']', ',', ':', '"', '\\', '0', '-', '.', 'e', 'u', '\n', ' ', '\t', '/', '*', '\'', '\x7f', '+' })); break;
        case 2: if (!t.empty()) t[p % t.size()] = static_cast<char>(r.next()); break;
        case 3: t.resize(p); break;
        case 4: { auto q = r.below(t.size() + 1); t.insert(q, t.substr(std::min(p, q), 1 + r.below(6))); break; }
        case 5: { auto a = r.below(t.size() + 1), b = r.below(t.size() + 1); if (a < t.size() && b < t.size()) std::swap(t[a], t[b]); break; }
        case 6: t.insert(p, r.pick<std::string>({ "\\u", "\\ud800", "\\udc00", "\\u12", ",,", "[]", "{}", "//x", "/**/", "null", "00", "1.", "-", "\"\"", "}{", "][", "\\'", ":1" })); break;
        }
    }
    neolib::json j; judge(j, t, r.chance(3, 4));
    vf::distinct(vf::hash(t));
}
VF_SCENARIO(soup, 3)
{
    std::string t;
    static char const* const bits[] = { "{", "}", "[", "]", ",", ":", "\"a\"", "\"\"", "1", "-2.5e3", "true", "null", " ", "\n", "a", "{}", "[]", "\"a\":1", "0", "\\", "\"" };
    for (auto n = r.below(9); n-- > 0;) t += bits[r.below(std::size(bits))];
    neolib::json j; judge(j, t);
    vf::distinct(vf::hash(t));
}
VF_SCENARIO(bytes, 1)
{
    auto t = r.bytes(r.below(20)); neolib::json j; judge(j, t, r.chance(1, 2)); vf::distinct(vf::hash(t));
}
VF_SCENARIO(reread, 2)
{
    // one document object, several documents: each read stands alone
    neolib::json j; std::string all;
    for (auto n = 2 + r.below(4); n-- > 0;)
    {
        auto t = jref::text(r, jref::random_value(r, static_cast<int>(r.below(4)), true));
        if (r.chance(1, 3)) t.resize(r.below(t.size() + 1));
        judge(j, t, r.chance(1, 2)); all += t;
    }
    vf::distinct(vf::hash(all)); vf::count("rereads");
}
VF_SCENARIO(utf, 1)
{
    auto v = jref::random_value(r, 2, false); auto t = jref::text(r, v);
    if (r.chance(1, 2)) t = "[\"" + std::string{ r.pick<char const*>({ "\xC0\x80", "\xFF", "\xE2\x82", "\xF5\x80\x80\x80", "\x80", "ok", "\xC3\xA9", "\xF0\x9F\x98\x80" }) } + "\"," + t + "]";
    bool well = neolib::check_utf8(t);
    neolib::json j; std::istringstream in{ t };
    if (j.read(in, true) != well) vf::fail("json:utf-validation", vf::show(t));
    vf::distinct(vf::hash(t));
}
VF_SCENARIO(large, 1)
{
    // many nodes, long strings, documents around the block size of an unseekable stream
    std::string t = "[";
    std::size_t target = r.pick({ 1000, 1020, 1022, 1023, 1024, 1025, 2040, 2048, 2050, 20000 });
    while (t.size() < target) { t += jref::text(r, jref::random_value(r, 1, false)); t += ","; }
    t += "0]"; if (r.chance(1, 2)) { t.pop_back(); t.resize(std::max<std::size_t>(t.size(), target + 30), ' '); t += "]"; }
    neolib::json j; judge(j, t, r.chance(1, 2));
    auto depth = r.below(500); std::string deep(depth, '['); deep += std::string(depth, ']'); if (depth) judge(j, deep); vf::max("depth", depth);
    vf::distinct(vf::hash(t));
}
VF_MAIN
