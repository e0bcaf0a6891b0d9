// C37: settings have the value last applied, default otherwise, tell of every change, and survive in their file.
#include "vf.hpp"
#include <filesystem>
#include <fstream>
#include <limits>
#include <optional>
#include <neolib/neolib.hpp>
#include <neolib/core/service.hpp>
#include <boost/asio.hpp>
#include <neolib/task/async_task.hpp>
#include <neolib/app/settings.hpp>

namespace { neolib::async_task& main_task() { static auto& t = *new neolib::async_task{ "settings" }; return t; } }
namespace neolib { template<> i_async_task& services::start_service<i_async_task>() { return main_task(); } }
namespace
{
    void ready() { static bool const r = (neolib::allocate_service_provider(), neolib::services::service<neolib::i_async_task>(), true); (void)r; }
    template <typename T> T value(vf::rng& r)
    {
        if constexpr (std::is_same_v<T, bool>) return r.chance(1, 2);
        else if constexpr (std::is_same_v<T, neolib::string>) { std::string s; for (int i = 0, n = static_cast<int>(r.below(9)); i < n; ++i) s += r.pick({ "a", "b", " ", "&", "<", ">", "\"", "'", "=", ".", "0", "\xC3\xA9", "\xF0\x9F\x98\x80", "&amp;", "text", "/>" }); return neolib::string{ s }; }
        else if constexpr (std::is_floating_point_v<T>) switch (r.below(5)) { case 0: return static_cast<T>(r.range(-5, 5)); case 1: return static_cast<T>(r.real()); case 2: return static_cast<T>(std::ldexp(r.real() - 0.5, static_cast<int>(r.range(-100, 100)))); case 3: return r.pick({ std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), T{ 0 } }); default: return static_cast<T>(r.range(-1000000, 1000000)) / static_cast<T>(1000); }
        else switch (r.below(4)) { case 0: return static_cast<T>(r.below(4)); case 1: return r.pick({ std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T{ 9 }, T{ 10 }, T{ 32 }, T{ 48 } }); default: return static_cast<T>(r.next()); }
    }
    template <typename T> std::string show(T const& v) { if constexpr (std::is_same_v<T, neolib::string>) return vf::show(v.to_std_string()); else if constexpr (std::is_floating_point_v<T>) { char b[64]; std::snprintf(b, sizeof b, "%.20g", static_cast<double>(v)); return b; } else return std::to_string(v); }
    struct world;
    struct item
    {
        std::string key; bool optional; bool enabled = true; world* w; neolib::i_setting* s = nullptr; int changing = 0, changed = 0; neolib::sink sinks; std::string format;
        virtual ~item() = default;
        virtual void attach(neolib::i_settings& m) = 0; virtual void set(bool viaManager, bool now) = 0; virtual void apply(bool expectedInPlace) = 0; virtual void discard() = 0; virtual void clear() = 0; virtual void redefault() = 0; virtual void check() = 0; virtual bool modified() const = 0; virtual bool stored() const = 0; virtual void reload() = 0; virtual void assigns() = 0; virtual std::string describe() const = 0;
    };
    struct world
    {
        vf::rng& r; std::string file, log, problem; std::vector<std::unique_ptr<item>> items; neolib::ref_ptr<neolib::settings> m; neolib::sink sinks; std::vector<std::string> changing, changed, deleted, categories, wantChanging, wantChanged, wantCategories, wantDeleted; bool dirty = false; int registrations = 0;
        world(vf::rng& r) : r{ r }, file{ vf::tmp() + "/settings.xml" } { std::filesystem::remove(file); }
        ~world() { std::filesystem::remove(file); }
        void wrong(std::string const& k, std::string const& d) { if (problem.empty()) problem = k + "\n" + d + "; " + log; }
        void open();
        void events(char const* when) { if (changing != wantChanging) wrong("changing", vf::cat(when, ": ", changing.size(), " of ", wantChanging.size())); if (changed != wantChanged) wrong("changed", vf::cat(when, ": ", changed.size(), " of ", wantChanged.size())); if (categories != wantCategories) wrong("categories", vf::cat(when, ": ", categories.size(), " of ", wantCategories.size())); if (deleted != wantDeleted) wrong("deleted", when); changing.clear(); wantChanging.clear(); changed.clear(); wantChanged.clear(); categories.clear(); wantCategories.clear(); deleted.clear(); wantDeleted.clear(); }
        void check(char const* when)
        {
            events(when); bool any = dirty; for (auto& i : items) { i->check(); any = any || i->modified(); }
            if (m->modified() != any) wrong("modified", when);
            if (m->all_settings().size() != items.size() || m->all_settings_ordered().size() != items.size()) wrong("list", when); std::size_t k = 0; for (auto const& s : m->all_settings_ordered()) { if (k < items.size() && &*s != items[k]->s) wrong("order", when); ++k; }
        }
        void run();
    };
    template <typename T> struct typed : item
    {
        T d; std::optional<T> v; std::optional<std::optional<T>> n;
        T now() const { return v ? *v : d; }
        T next() const { return n ? (*n ? **n : d) : now(); }
        void attach(neolib::i_settings& m) override
        {
            neolib::setting_constraints<T> c{ optional, !enabled };
            s = &m.register_setting<T>(neolib::string{ key }, d, c, neolib::string{ format }); sinks.clear();
            sinks += s->changing([this]() { ++changing; }); sinks += s->changed([this]() { ++changed; });
        }
        void told(bool isChange) { (isChange ? w->wantChanged : w->wantChanging).push_back(key); if (isChange) w->dirty = true; }
        int wantChanging = 0, wantChanged = 0;
        void tell(bool isChange) { ++(isChange ? wantChanged : wantChanging); told(isChange); }
        void model_set(T const& x) { if (!(now() == x)) { if (!n || !(*n == std::optional<T>{ x })) { n = std::optional<T>{ x }; tell(false); } } else if (n) { n.reset(); tell(false); } }
        bool model_apply() { if (!n) return false; bool c = v != *n; v = *n; n.reset(); tell(c); return true; }
        void set(bool viaManager, bool applyNow) override
        {
            T x = w->r.chance(1, 5) ? d : w->r.chance(1, 5) ? now() : value<T>(w->r); w->log += vf::cat(viaManager ? applyNow ? "A" : "M" : "S", key, "=", show(x), " "); model_set(x);
            if (!viaManager) { switch (w->r.below(3)) { case 0: s->set_value(neolib::setting_value<T>{ x }); break; case 1: s->template set_value<T>(x); break; default: { neolib::setting_value<T> t{ x }; s->operator=(static_cast<neolib::i_setting_value const&>(t)); } } }
            else { if (applyNow) { model_apply(); w->dirty = false; } w->m->change_setting(*s, static_cast<neolib::i_setting_value const&>(neolib::setting_value<T>{ x }), applyNow); }
        }
        void assigns() override { T x = value<T>(w->r); w->log += vf::cat("V", key, "=", show(x), " "); model_set(x); model_apply(); s->template apply_value<T>(x); }
        void apply(bool) override { model_apply(); }
        void discard() override { if (n) { n.reset(); tell(false); } }
        void clear() override
        {
            w->log += "C" + key + " ";
            if (!optional) { try { s->clear(); w->wrong("clear", key + " is not optional"); } catch (neolib::i_setting::setting_not_optional const&) {} return; }
            if (!v) { if (n) { n.reset(); tell(false); } } else { n.emplace(); tell(false); } s->clear();
        }
        void redefault() override { T x = w->r.chance(1, 5) ? d : value<T>(w->r); w->log += vf::cat("D", key, "=", show(x), " "); bool differs = !(d == x); d = x; if (differs && !v) tell(true); if (w->r.chance(1, 2)) s->template set_default_value<T>(x); else s->set_default_value(neolib::setting_value<T>{ x }); }
        bool modified() const override { return !!n; }
        bool stored() const override { return !!v; }
        std::string describe() const override { return vf::cat(key, " default ", show(d), " value ", v ? show(*v) : "none", " new ", n ? *n ? show(**n) : "cleared" : "none"); }
        void check() override
        {
            auto bad = [&](char const* what) { w->wrong(vf::cat("value:", what), describe() + " is " + show(T(s->template value<T>()))); };
            if (!(T(s->template value<T>()) == now())) bad("value"); if (!(T(s->template value<T>(true)) == next())) bad("next"); if (s->modified() != !!n) bad("modified"); if (s->is_default() != !v || s->is_default(true) != (n ? !*n : !v)) bad("is_default"); if (!(T(s->default_value().template get<T>()) == d)) bad("default");
            if (n && *n) { if (!(T(s->template modified_value<T>()) == **n)) bad("modified_value"); } else if (!n) { try { s->modified_value(); bad("modified_value"); } catch (neolib::i_setting::setting_not_modified const&) {} }
            if (s->is_enabled() != enabled || s->hidden() != format.empty() || s->key().to_std_string() != key || s->constraints().optional() != optional || &s->manager() != &*w->m) bad("attributes"); if (&w->m->setting(neolib::string{ key }) != s) bad("lookup");
            if (changing != wantChanging || changed != wantChanged) w->wrong("events", vf::cat(describe(), " changing ", changing, " of ", wantChanging, " changed ", changed, " of ", wantChanged)); changing = changed = wantChanging = wantChanged = 0;
        }
        void reload() override { n.reset(); if (v && *v == d) v.reset(); changing = changed = wantChanging = wantChanged = 0; }
    };
    void world::open()
    {
        m = neolib::make_ref<neolib::settings>(neolib::string{ file }); dirty = false; sinks.clear();
        sinks += m->setting_changing([this](neolib::i_setting const& s) { changing.push_back(s.key().to_std_string()); }); sinks += m->setting_changed([this](neolib::i_setting const& s) { changed.push_back(s.key().to_std_string()); }); sinks += m->setting_deleted([this](neolib::i_setting const& s) { deleted.push_back(s.key().to_std_string()); }); sinks += m->settings_changed([this](neolib::i_string const& c) { categories.push_back(c.to_std_string()); });
    }
    void world::run()
    {
        std::vector<std::string> keys = { "a.x", "a.y", "a.x.z", "b", "b.c", "colour.one.two", "colour.one", "z9.long_name-1", "settings.a", "a.y.x", "c.a", "b.a.y", "y.b" }; for (std::size_t i = keys.size(); i > 1; --i) std::swap(keys[i - 1], keys[r.below(i)]);
        auto add = [&](auto tag) { using T = decltype(tag); auto i = std::make_unique<typed<T>>(); i->w = this; i->key = keys.back(); keys.pop_back(); i->optional = r.chance(1, 2); i->d = value<T>(r); i->format = r.chance(1, 3) ? "" : "%1%"; log += vf::cat("+", i->key, ":", show(i->d), " "); i->attach(*m); items.push_back(std::move(i)); };
        auto one = [&]() { switch (r.below(12)) { case 0: add(bool{}); break; case 1: add(std::int8_t{}); break; case 2: add(std::int16_t{}); break; case 3: add(std::int32_t{}); break; case 4: add(std::int64_t{}); break; case 5: add(std::uint8_t{}); break; case 6: add(std::uint16_t{}); break; case 7: add(std::uint32_t{}); break; case 8: add(std::uint64_t{}); break; case 9: add(float{}); break; case 10: add(double{}); break; default: add(neolib::string{}); } };
        open(); for (int i = 0, n = static_cast<int>(r.range(1, 6)); i < n; ++i) one(); check("registered");
        for (int k = 0, n = static_cast<int>(r.range(5, 50)); k < n && problem.empty(); ++k)
        {
            auto& i = items[r.below(items.size())]; vf::count("operations");
            switch (r.below(14))
            {
            case 0: case 1: case 2: i->set(false, false); break;
            case 3: i->set(true, true); break;
            case 4: i->set(true, false); break;
            case 5: i->clear(); break;
            case 6: if (r.chance(1, 2)) i->redefault(); break;
            case 7: if (r.chance(1, 2)) i->assigns(); break;
            case 8: case 9:
            {
                log += "! "; bool any = dirty; for (auto& x : items) any = any || x->modified(); std::set<std::string> cs; std::map<std::string, item*> sorted; for (auto& x : items) sorted[x->key] = x.get(); if (any) { for (auto& x : sorted) if (x.second->modified()) { cs.insert(x.first.substr(0, x.first.find('.'))); x.second->apply(true); } dirty = false; } for (auto& c : cs) wantCategories.push_back(c); m->apply_changes(); break;
            }
            case 10: { log += "? "; std::map<std::string, item*> sorted; for (auto& x : items) sorted[x->key] = x.get(); for (auto& x : sorted) x.second->discard(); m->discard_changes(); break; }
            case 11: if (!keys.empty() && r.chance(1, 2)) one(); else if (r.chance(1, 3)) try { m->register_setting<bool>(neolib::string{ i->key }, true, neolib::setting_constraints<bool>{}, neolib::string{}); wrong("registered", i->key + " twice"); } catch (neolib::i_settings::setting_already_registered const&) {} break;
            case 12: if (items.size() > 1 && r.chance(1, 3)) { log += "-" + i->key + " "; wantDeleted.push_back(i->key); auto key = i->key; i->sinks.clear(); neolib::i_setting& s = *i->s; for (auto x = items.begin(); x != items.end(); ++x) if (x->get() == i.get()) { auto keep = std::move(*x); items.erase(x); m->delete_setting(s); break; } dirty = false; try { m->setting(neolib::string{ key }); wrong("deleted", key + " is there"); } catch (neolib::i_settings::setting_not_found const&) {} keys.insert(keys.begin(), key); } else { i->enabled = !i->enabled; i->s->set_enabled(i->enabled); wantChanged.push_back(i->key); dirty = true; ++i->changed; i->changed = 0; i->check(); } break;
            default: // saved and read again
                log += "@ "; m->save(); dirty = false; check("saved"); for (auto& x : items) { x->sinks.clear(); x->reload(); } sinks.clear(); open(); for (auto& x : items) x->attach(*m); vf::count("reloads"); changing.clear(); changed.clear(); break;
            }
            check("after a step");
        }
        if (!problem.empty()) { auto n = problem.find('\n'); vf::fail("settings:" + problem.substr(0, n), problem.substr(n + 1)); }
        for (auto& x : items) x->sinks.clear(); sinks.clear(); vf::distinct(vf::hash(log)); vf::sample(log);
    }
}
namespace
{
    // whatever the file holds, settings come up, and work
    void files(vf::rng& r)
    {
        ready(); auto file = vf::tmp() + "/odd.xml"; std::string text = "<?xml version=\"1.0\"?>\n<settings>\n<a>\n<x type=\"int32_t\" value=\"42\" />\n<y type=\"string\" value=\"text\">\n<z type=\"double\" value=\"1.5\" />\n</y>\n</a>\n<b type=\"bool\" value=\"1\" />\n</settings>\n"; auto whole = text;
        for (int i = 0, n = static_cast<int>(r.below(5)); i < n; ++i) switch (r.below(5)) { case 0: text.resize(r.below(text.size() + 1)); break; case 1: if (!text.empty()) text[r.below(text.size())] = static_cast<char>(r.next()); break; case 2: text.insert(r.below(text.size() + 1), r.pick({ "<", ">", "/", "\"", "&", "<a>", "</a>", "value=\"\"", " ", "<!--", "<![CDATA[" })); break; case 3: if (!text.empty()) text.erase(r.below(text.size()), r.below(12)); break; default: if (r.chance(1, 4)) text = r.bytes(r.below(60)); }
        { std::ofstream o{ file, std::ios::binary }; o << text; }
        auto m = neolib::make_ref<neolib::settings>(neolib::string{ file }); auto reg = [](neolib::settings& m) { m.register_setting<std::int32_t>(neolib::string{ "a.x" }, 1, neolib::setting_constraints<std::int32_t>{}, neolib::string{}); m.register_setting<neolib::string>(neolib::string{ "a.y" }, neolib::string{ "none" }, neolib::setting_constraints<neolib::string>{}, neolib::string{}); m.register_setting<double>(neolib::string{ "a.y.z" }, 0.25, neolib::setting_constraints<double>{}, neolib::string{}); m.register_setting<bool>(neolib::string{ "b" }, false, neolib::setting_constraints<bool>{}, neolib::string{}); };
        reg(*m); auto x = [](neolib::settings& m) { return vf::cat(m.setting(neolib::string{ "a.x" }).value<std::int32_t>(), " ", m.setting(neolib::string{ "a.y" }).value_as_string(), " ", m.setting(neolib::string{ "a.y.z" }).value<double>(), " ", m.setting(neolib::string{ "b" }).value<bool>()); };
        if (text == whole && x(*m) != "42 text 1.5 1") vf::fail("settings:file", x(*m)); if (text.empty() && x(*m) != "1 none 0.25 0") vf::fail("settings:file", "empty: " + x(*m));
        auto v = static_cast<std::int32_t>(r.next()); neolib::i_settings& im = *m; im.change_setting<std::int32_t>(m->setting(neolib::string{ "a.x" }), v); im.change_setting<neolib::string>(m->setting(neolib::string{ "a.y" }), neolib::string{ "y" }); auto want = x(*m); m = neolib::make_ref<neolib::settings>(neolib::string{ file }); reg(*m); if (x(*m) != want) vf::fail("settings:file", vf::cat(x(*m), " expected ", want, " after ", vf::show(text)));
        std::filesystem::remove(file); vf::distinct(vf::hash(text)); vf::count("files");
    }
    // titles of categories and groups, friendly texts
    void titles(vf::rng& r)
    {
        ready(); auto m = neolib::make_ref<neolib::settings>(neolib::string{}); std::map<std::string, std::string> cats; std::map<std::string, std::map<std::string, std::string>> groups; std::map<std::pair<int, std::string>, std::string> friendly; std::vector<neolib::i_setting*> s; std::string log; char const* const keys[] = { "a", "b", "a.x", "a.y", "b.x", "a.x.y", "c", "ab.x" };
        for (int i = 0; i < 3; ++i) s.push_back(&m->register_setting<int>(neolib::string{ vf::cat("s.", i) }, i, neolib::setting_constraints<int>{}, neolib::string{}));
        for (int k = 0, n = static_cast<int>(r.range(1, 30)); k < n; ++k)
        {
            std::string key = keys[r.below(8)], title = r.chance(1, 5) ? "" : vf::cat("title ", r.below(100)); auto which = r.below(6); log += vf::cat(which, key, " ");
            if (which == 0) { m->register_category(neolib::string{ key }, neolib::string{ title }); cats[key] = title; } else if (which == 1) { m->register_group(neolib::string{ key }, neolib::string{ title }); groups[key.substr(0, key.find('.'))][key] = title; } else if (which == 2) { int i = static_cast<int>(r.below(3)); m->register_friendly_text(*s[i], neolib::string{ key }, neolib::string{ title }); friendly[{ i, key }] = title; }
            else if (which == 3) { std::string got = "-"; try { got = m->category_title(neolib::string{ key }).to_std_string(); } catch (neolib::i_settings::category_not_found const&) {} if (got != (cats.count(key) ? cats[key] : "-")) vf::fail("settings:category", vf::cat(key, " is ", got, "; ", log)); }
            else if (which == 4) { std::string got = "-"; try { got = m->group_title(neolib::string{ key }).to_std_string(); } catch (neolib::i_settings::group_not_found const&) {} auto g = groups.find(key.substr(0, key.find('.'))); if (got != (g != groups.end() && g->second.count(key) ? g->second[key] : "-")) vf::fail("settings:group", vf::cat(key, " is ", got, "; ", log)); }
            else { int i = static_cast<int>(r.below(3)); auto got = m->friendly_text(*s[i], neolib::string{ key }).to_std_string(); auto f = friendly.find({ i, key }); if (got != (f != friendly.end() ? f->second : key)) vf::fail("settings:friendly", vf::cat(key, " is ", got, "; ", log)); }
            if (m->all_categories().size() != cats.size() || m->all_groups().size() != groups.size()) vf::fail("settings:titles", log);
        }
        vf::distinct(vf::hash(log)); vf::count("titles");
    }
}
VF_SCENARIO(files, 2) { files(r); }
VF_SCENARIO(titles, 1) { titles(r); }
VF_SCENARIO(settings, 4) { ready(); world w{ r }; w.run(); }
VF_MAIN
