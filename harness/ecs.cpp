// C28: an entity component system keeps every entity's data, ids, handles and events straight.
#include <cmath>
#include <cstring>
#include "vf.hpp"
#include <thread>
#include <latch>
#include <neolib/neolib.hpp>
#include <neolib/core/service.hpp>
#include <boost/asio.hpp>
#include <neolib/task/async_task.hpp>
#include <neolib/app/i_power.hpp>
#include <neolib/ecs/ecs.hpp>
#include <neolib/ecs/entity.hpp>
#include <neolib/ecs/entity_archetype.hpp>
#include <neolib/ecs/entity_info.hpp>
#include <neolib/ecs/entity_life_span.hpp>
#include <neolib/ecs/time.hpp>
#include <neolib/ecs/system.hpp>

namespace ne = neolib::ecs;
namespace { neolib::async_task& main_task() { static auto& t = *new neolib::async_task{ "ecs" }; return t; } }
namespace neolib { template<> i_async_task& services::start_service<i_async_task>() { return main_task(); } }
namespace
{
#ifdef VF_THREADS
    [[maybe_unused]] bool const gWall = (vf::opts().wallSeconds = 120, true);
#endif
    template <int N> struct meta_base : ne::i_component_data::meta
    {
        static neolib::uuid const& id() { static neolib::uuid const sId{ 0xABCD0000u + N, 0x1111, 0x2222, 0x3333, { 1, 2, 3, 4, 5, N } }; return sId; }
        static neolib::i_string const& name() { static neolib::string const sName{ "Data " + std::to_string(N) }; return sName; }
        static std::uint32_t field_count() { return 1; }
        static ne::component_data_field_type field_type(std::uint32_t) { return ne::component_data_field_type::Int64; }
        static neolib::i_string const& field_name(std::uint32_t) { static neolib::string const sName{ "Value" }; return sName; }
    };
    struct A { std::int64_t v = 0; struct meta : meta_base<1> {}; };
    struct B { vf::tracked v{ 0 }; struct meta : meta_base<2> {}; };
    struct C { std::string v; struct meta : meta_base<3> {}; };
    thread_local std::vector<ne::handle_id> gFreed;
    struct D // holds a handle, freed with the record
    {
        std::int64_t v = 0; ne::handle_id h = ne::null_id;
        struct meta : meta_base<4> { static constexpr bool has_handles = true; static void free_handles(D& d, ne::i_ecs& e) { gFreed.push_back(d.h); e.release_handle<void*>(d.h); } };
    };
    struct S { std::int64_t v = 0; std::string s; struct meta : meta_base<5> { static constexpr bool has_updater = true; static inline int sUpdates = 0; static void update(S&, ne::i_ecs&, ne::entity_id) { ++sUpdates; } }; };
    struct O { std::int64_t v = 0; struct meta : meta_base<6> {}; };
    struct late { std::int64_t v = 0; struct meta : meta_base<7> {}; };

    std::int64_t get(A const& x) { return x.v; } std::int64_t get(B const& x) { return vf::val(x.v); } std::int64_t get(C const& x) { return x.v.empty() ? 0 : std::stoll(x.v); } std::int64_t get(D const& x) { return x.v; }
    void put(A& x, std::int64_t v) { x.v = v; } void put(B& x, std::int64_t v) { x.v = vf::tracked{ v }; } void put(C& x, std::int64_t v) { x.v = v ? std::to_string(v) + std::string(20, ' ') : std::string{}; } void put(D& x, std::int64_t v) { x.v = v; }
    template <typename T> T make(std::int64_t v) { T t; put(t, v); return t; }

    struct counting : ne::system<A, B>
    {
        int applied = 0;
        counting(ne::i_ecs& e) : ne::system<A, B>{ e } {}
        ne::system_id const& id() const final { return meta::id(); } neolib::i_string const& name() const final { return meta::name(); }
        bool apply() final { if (!can_apply()) throw cannot_apply(); if (paused()) return false; ++applied; return true; }
        struct meta : meta_base<20> {};
    };
    struct other_system : ne::system<C>
    {
        other_system(ne::i_ecs& e) : ne::system<C>{ e } {}
        ne::system_id const& id() const final { return meta::id(); } neolib::i_string const& name() const final { return meta::name(); }
        bool apply() final { return true; }
        struct meta : meta_base<21> {};
    };

    neolib::async_task& task()
    {
        static bool const ready = (neolib::allocate_service_provider(), neolib::services::service<neolib::i_async_task>(), true);
        return main_task();
    }

    struct record { std::int64_t v; };
    struct world
    {
        vf::rng& r; std::string log; bool info; std::optional<ne::ecs> e; std::int64_t next = 1;
        ne::entity_archetype plain{ "Plain", { A::meta::id(), B::meta::id() } }, fancy{ "Fancy", { C::meta::id() } };
        using rec_t = std::map<ne::entity_id, std::int64_t>;
        rec_t a, b, c, d; std::map<ne::entity_id, ne::handle_id> dh; std::map<ne::handle_id, void*> handles; std::map<ne::entity_id, neolib::uuid> alive; std::map<ne::entity_id, bool> pending /* notify */; std::map<ne::entity_id, std::int64_t> spans;
        std::vector<ne::entity_id> created, destroyed, wantCreated, wantDestroyed; neolib::sink sink;
        std::map<std::string, std::int64_t> shared; std::map<std::string, S const*> sharedAt; std::deque<std::unique_ptr<ne::entity>> owned;
        std::optional<rec_t> snap[2]; int queued = 0; bool paused = false; std::vector<std::function<void(ne::entity_id)>> queue;
        explicit world(vf::rng& r) : r{ r }
        {
            info = r.chance(2, 3); neolib::services::service<ne::i_ecs_params>().set_locking_strategy(r.pick({ ne::ecs_locking_strategy::SingleThreaded, ne::ecs_locking_strategy::MultiThreaded, ne::ecs_locking_strategy::MultiThreadedProfiled, ne::ecs_locking_strategy::MultiThreadedSpinlock }));
            e.emplace(ne::ecs_flags::NoThreads | (info ? ne::ecs_flags::PopulateEntityInfo : ne::ecs_flags::None));
            sink += e->entity_created([this](ne::entity_id id) { created.push_back(id); }); sink += e->entity_destroyed([this](ne::entity_id id) { destroyed.push_back(id); });
        }
        ne::i_ecs& ie() { return *e; }
        ne::clock& clock() { e->system<ne::time>(); return e->shared_component<ne::clock>()[0]; }
        [[noreturn]] void bad(char const* what, std::string const& d) { vf::fail(vf::cat("ecs:", what), vf::cat(d, "; ", log)); }
        template <typename T> rec_t& m() { if constexpr (std::is_same_v<T, A>) return a; else if constexpr (std::is_same_v<T, B>) return b; else if constexpr (std::is_same_v<T, C>) return c; else return d; }
        ne::entity_id some() { if (alive.empty()) return 0; return std::next(alive.begin(), r.below(alive.size()))->first; }
        void* pointer() { return reinterpret_cast<void*>(static_cast<std::uintptr_t>(next++ * 16 + (1ull << 40))); }
        ne::handle_id new_handle()
        {
            auto p = pointer(); auto h = ie().add_handle<A>(p); if (h == ne::null_id) bad("handle", "null handle id"); if (handles.count(h)) bad("handle", vf::cat("handle id ", h, " issued while in use")); handles[h] = p; return h;
        }
        // only the values of D records are released by the system itself
        template <typename T> T value(ne::entity_id id, bool update)
        {
            auto v = next++; m<T>()[id] = v; auto t = make<T>(v);
            if constexpr (std::is_same_v<T, D>) { if (update && dh.count(id)) t.h = dh[id]; else { t.h = new_handle(); dh[id] = t.h; } }
            return t;
        }
        template <typename T> void populate()
        {
            auto id = some(); if (!id) return; bool had = m<T>().count(id); auto t = value<T>(id, had); log += vf::cat("p", id);
            switch (r.below(4))
            {
            case 0: e->populate(id, t); break;
            case 1: { auto& x = e->component<T>().populate(id, std::move(t)); if (get(x) != m<T>()[id]) bad("populate", "the record returned holds another value"); break; }
            case 2: { e->component<T>(); auto p = static_cast<T const*>(e->component(T::meta::id()).populate(id, &t, sizeof t)); if (get(*p) != m<T>()[id]) bad("populate", "the record returned holds another value"); break; }
            default: e->component<T>().entity_record(id, true) = t; break;
            }
        }
        void adopt(ne::entity_id id, neolib::uuid const& arch)
        {
            if (id == ne::null_entity) bad("id", "null entity created"); if (alive.count(id)) bad("id", vf::cat("entity id ", id, " issued while in use")); alive[id] = arch; wantCreated.push_back(id);
        }
        void create()
        {
            auto& arch = r.chance(1, 2) ? plain : fancy; ne::entity_id id = 0; log += "+";
            if (!e->archetype_registered(arch)) { if (r.chance(1, 2)) e->register_archetype(arch); else e->register_archetype(std::make_shared<ne::entity_archetype>(arch)); }
            switch (r.below(4))
            {
            case 0: adopt(id = e->create_entity(arch.id()), arch.id()); break;
            case 1: { auto v = next++; adopt(id = e->create_entity(arch, make<A>(v)), arch.id()); a[id] = v; break; }
            case 2: { auto v = next++; next++; adopt(id = e->create_entity(arch.id(), make<A>(v), make<B>(v + 1)), arch.id()); a[id] = v; b[id] = v + 1; break; }
            default: { auto v = next++; auto x = make<C>(v); adopt(id = e->create_entity(arch, x), arch.id()); c[id] = v; break; }
            }
            log += vf::cat(id);
        }
        void create_async()
        {
            log += "~+"; auto& arch = r.chance(1, 2) ? plain : fancy; if (!e->archetype_registered(arch)) e->register_archetype(arch);
            auto v = next++;
            switch (r.below(3))
            {
            case 0: ie().async_create_entity(arch.id(), make<A>(v)); queue.push_back([this, v, &arch](ne::entity_id) {}); lateA.insert(v); break;
            case 1: ie().async_create_entity(arch, make<C>(v)); lateC.insert(v); break;
            default: e->async_create_entity([this, v, &arch]() { auto id = e->create_entity(arch.id()); e->populate(id, make<B>(v)); }); lateB.insert(v); break;
            }
        }
        std::set<std::int64_t> lateA, lateB, lateC;
        void commit()
        {
            log += "|"; auto before = created.size(); auto n = lateA.size() + lateB.size() + lateC.size(); bool destroys = r.chance(1, 2);
            if (destroys) commit_destruction();
            e->commit_async_entity_creation();
            if (created.size() - before != n) bad("async_create", vf::cat(created.size() - before, " entities created of ", n, " asked for"));
            for (auto i = before; i < created.size(); ++i)
            {
                auto id = created[i]; if (alive.count(id)) bad("id", vf::cat("entity id ", id, " issued while in use")); alive[id] = neolib::uuid{}; wantCreated.push_back(id); int found = 0;
                if (e->component<A>().has_entity_record(id)) { auto v = get(e->component<A>().entity_record(id)); if (!lateA.erase(v)) bad("async_create", "value"); a[id] = v; ++found; }
                if (e->component<B>().has_entity_record(id)) { auto v = get(e->component<B>().entity_record(id)); if (!lateB.erase(v)) bad("async_create", "value"); b[id] = v; ++found; }
                if (e->component<C>().has_entity_record(id)) { auto v = get(e->component<C>().entity_record(id)); if (!lateC.erase(v)) bad("async_create", "value"); c[id] = v; ++found; }
                if (found != 1) bad("async_create", vf::cat("entity ", id, " has ", found, " components"));
            }
            if (!lateA.empty() || !lateB.empty() || !lateC.empty()) bad("async_create", "an entity is missing");
            vf::count("async-created", n); queue.clear();
        }
        void gone(ne::entity_id id, bool notified)
        {
            if (notified) wantDestroyed.push_back(id);
            a.erase(id); b.erase(id); c.erase(id); d.erase(id); spans.erase(id); if (dh.count(id)) { handles.erase(dh[id]); dh.erase(id); }
            for (auto& s : snap) if (s) s->erase(id);
            alive.erase(id); vf::count("destroyed");
        }
        bool held(ne::entity_id id) { for (auto& o : owned) if (o->id() == id) return true; return false; }
        void destroy() { auto id = some(); if (!id) return; bool notify = r.chance(3, 4) || held(id); log += vf::cat("-", id, notify ? "" : "q"); e->destroy_entity(id, notify); pending.erase(id); gone(id, notify); }
        void destroy_async()
        {
            auto id = some(); if (!id || !info) return; bool notify = r.chance(3, 4) || held(id); log += vf::cat("~-", id); e->async_destroy_entity(id, notify);
            if (!e->component<ne::entity_info>().entity_record(id).destroyed) bad("async_destroy", "not marked as destroyed"); pending.emplace(id, notify);
        }
        void commit_destruction()
        {
            log += "/"; auto before = destroyed.size(); e->commit_async_entity_destruction();
            std::multiset<ne::entity_id> got{ destroyed.begin() + before, destroyed.end() }, want; for (auto& p : pending) if (p.second) want.insert(p.first);
            if (got != want) bad("async_destroy", vf::cat(got.size(), " notifications, expected ", want.size()));
            wantDestroyed.insert(wantDestroyed.end(), destroyed.begin() + before, destroyed.end());
            for (auto& p : pending) gone(p.first, false); vf::count("async-destroyed", pending.size()); pending.clear();
        }
        void own()
        {
            if (owned.size() < 3 && r.chance(1, 2)) { log += "o"; if (!e->archetype_registered(plain)) e->register_archetype(plain); if (r.chance(1, 2)) owned.push_back(std::make_unique<ne::entity>(*e, plain.id())); else { auto v = next++; owned.push_back(std::make_unique<ne::entity>(*e, plain.id(), make<A>(v))); a[owned.back()->id()] = v; } adopt(owned.back()->id(), plain.id()); return; }
            if (owned.empty()) return;
            auto o = std::move(owned.front()); owned.pop_front(); auto id = o->id();
            if (id == ne::null_entity) { if (!o->detached_or_destroyed()) bad("entity", "destroyed entity has no id"); return; }
            if (!alive.count(id)) bad("entity", vf::cat("holds the id of a dead entity ", id));
            if (info && r.chance(1, 3)) { log += "t"; auto was = o->detach(); if (was != id || !o->detached_or_destroyed()) bad("entity", "detach"); o.reset(); }
            else { log += vf::cat("x", id); o.reset(); pending.erase(id); gone(id, true); }
        }
        template <typename T> void sort_records()
        {
            log += "s"; if (m<T>().empty()) return; bool desc = r.chance(1, 2);
            e->component<T>().sort([desc](auto const& x, auto const& y) { return desc ? get(y) < get(x) : get(x) < get(y); });
            auto& data = e->component<T>().component_data(); for (std::size_t i = 1; i < data.size(); ++i) if (desc ? get(data[i - 1]) < get(data[i]) : get(data[i]) < get(data[i - 1])) bad("sort", "not sorted");
            vf::count("sorts");
        }
        template <typename T> void check_component(bool full)
        {
            auto& k = m<T>(); auto& x = e->component<T>();
            if (x.component_data().size() != k.size() || x.entities().size() != k.size()) bad("records", vf::cat(x.component_data().size(), " records and ", x.entities().size(), " entities, expected ", k.size(), " of ", T::meta::name()));
            std::set<ne::entity_id> seen;
            for (std::size_t i = 0; i < x.entities().size(); ++i)
            {
                auto id = x.entities()[i]; if (!k.count(id)) bad("records", vf::cat("record of entity ", id, ", which has none")); if (!seen.insert(id).second) bad("records", vf::cat("two records of entity ", id));
                if (get(x[i]) != k[id]) bad("records", vf::cat("entity ", id, " has ", get(x[i]), " expected ", k[id])); if (x.reverse_index(id) != i) bad("records", vf::cat("index of entity ", id)); if (x.entity(x[i]) != id) bad("records", "entity of a record");
            }
            for (auto& p : k) { if (!x.has_entity_record(p.first) || get(x.entity_record(p.first)) != p.second) bad("records", vf::cat("record of entity ", p.first)); }
            if (full)
            {
                auto dead = static_cast<ne::entity_id>(r.below(40)); if (!k.count(dead)) { if (x.has_entity_record(dead)) bad("records", vf::cat("a record for ", dead)); try { vf::val(vf::tracked{ get(std::as_const(x).entity_record(dead)) }); bad("records", "no exception for a missing record"); } catch (typename ne::component<T>::entity_record_not_found const&) {} try { x.destroy_entity_record(dead); bad("records", "no exception for a missing record"); } catch (typename ne::component<T>::entity_record_not_found const&) {} }
                std::multiset<std::int64_t> got, want; for (auto& p : k) want.insert(p.second); x.apply([&](auto& owner, auto& rec) { if (&owner != &x) bad("apply", "component"); got.insert(get(rec)); }); if (got != want) bad("apply", "records visited");
            }
        }
        template <typename T, int N> void snapshots()
        {
            auto& x = e->component<T>(); log += "n";
            auto compare = [&](auto const& ss)
            {
                auto& y = ss.data(); if (y.component_data().size() != snap[N]->size()) bad("snapshot", vf::cat(y.component_data().size(), " records, expected ", snap[N]->size()));
                for (auto& p : *snap[N]) if (!y.has_entity_record(p.first) || get(y.entity_record(p.first)) != p.second) bad("snapshot", vf::cat("record of entity ", p.first));
            };
            if (snap[N]) { if (!x.have_snapshot()) bad("snapshot", "gone"); auto ss = x.snapshot(); compare(ss); if (r.chance(1, 2)) { auto copy = ss; x.take_snapshot(); compare(copy); vf::count("snapshot-in-use"); return; } }
            else if (x.have_snapshot()) bad("snapshot", "there is none");
            x.take_snapshot(); snap[N] = m<T>(); { auto ss = x.snapshot(); compare(ss); } vf::count("snapshots");
        }
        void shared_data()
        {
            std::string name = r.pick(std::vector<std::string>{ "one", "two", "", "three", "a long name that does not fit into any buffer", "six" }); log += "h"; S s; s.v = next++; s.s = name + "!"; auto updates = S::meta::sUpdates;
            S const* p = nullptr;
            switch (r.below(4))
            {
            case 0: e->populate_shared(name, s); break;
            case 1: p = e->shared_component<S>().populate(name, s).ptr(); break;
            case 2: p = e->shared_component<S>().populate(name, S{ s }).ptr(); break;
            default: e->shared_component<S>(); p = static_cast<S const*>(e->shared_component(S::meta::id()).populate(name, &s, sizeof s)); break;
            }
            if (S::meta::sUpdates != updates + 1) bad("shared", "not updated once"); shared[name] = s.v; auto& x = e->shared_component<S>(); auto* at = &x[name]; if (p && p != at) bad("shared", "populate returns other data");
            if (sharedAt.count(name) && sharedAt[name] != at) bad("shared", "the data moved"); sharedAt[name] = at; check_shared();
        }
        void check_shared()
        {
            if (shared.empty()) return; auto& x = e->shared_component<S>(); if (x.component_data().size() != shared.size()) bad("shared", "number");
            for (auto& p : shared) if (x[p.first].v != p.second || x[p.first].s != p.first + "!") bad("shared", p.first);
            std::multiset<std::int64_t> got, want; for (std::size_t i = 0; i < shared.size(); ++i) got.insert(x[i].v); for (auto& p : shared) want.insert(p.second); if (got != want) bad("shared", "by index");
        }
        void handle()
        {
            log += "H"; std::vector<ne::handle_id> free; for (auto& p : handles) { bool inRecord = false; for (auto& q : dh) inRecord |= q.second == p.first; if (!inRecord) free.push_back(p.first); }
            if (free.empty() || r.chance(1, 2)) new_handle();
            else { auto h = r.pick(free); if (r.chance(1, 2)) { auto p = pointer(); if (ie().update_handle<A>(h, p) != p) bad("handle", "update"); handles[h] = p; } else { if (ie().release_handle<void*>(h) != handles[h]) bad("handle", "released another one"); handles.erase(h); } }
            ne::handle_id beyond = static_cast<ne::handle_id>(100000 + r.below(1000)); try { ie().release_handle<void*>(beyond); bad("handle", "an unknown one released"); } catch (ne::i_ecs::invalid_handle_id const&) {} try { ie().to_handle<void*>(beyond); bad("handle", "an unknown one found"); } catch (ne::i_ecs::invalid_handle_id const&) {}
            for (auto& p : handles) if (ie().to_handle<void*>(p.first) != p.second) bad("handle", vf::cat("of id ", p.first));
        }
        template <typename T> void span(T) 
        {
            if (!info) return; auto id = some(); if (!id) return;
            switch (r.below(3))
            {
            case 0: { std::int64_t n = r.below(100); log += vf::cat("L", id, ":", n); e->populate(id, ne::entity_life_span{ n }); spans[id] = n; break; }
            case 1: { clock().time += r.below(60); log += vf::cat("T", clock().time.load()); break; }
            default:
                {
                    log += "A"; auto& t = e->template system<ne::time>(); auto now = clock().time.load(); if (t.world_time() != now) bad("time", "world time");
                    bool done = t.apply(); if (done == paused) bad("time", "applied while paused, or not applied");
                    if (!paused) for (auto& p : spans) { auto& i = e->template component<ne::entity_info>().entity_record(p.first); bool due = now - i.creationTime > p.second; if (due && !pending.count(p.first)) { pending.emplace(p.first, true); vf::count("lapsed"); } if (i.destroyed != (pending.count(p.first) != 0)) bad("lifespan", vf::cat("entity ", p.first, " aged ", now - i.creationTime, " of ", p.second, i.destroyed ? " is destroyed" : " is not destroyed")); }
                }
            }
        }
        void systems()
        {
            log += "y";
            switch (r.below(4))
            {
            case 0: { bool had = e->system_instantiated<counting>(); auto& s = e->system<counting>(); if (!e->system_instantiated<counting>() || &e->system(counting::meta::id()) != &s || !s.components_available()) bad("system", "instantiation"); if (!had && s.paused() != paused) bad("system", "new system does not pause as all do"); break; }
            case 1: if (paused) e->resume_all_systems(); else e->pause_all_systems(); paused = !paused; if (e->all_systems_paused() != paused) bad("system", "pausing"); break;
            case 2: if (e->system_instantiated<counting>()) { auto& s = e->system<counting>(); auto n = s.applied; bool done = s.apply(); if (s.paused() != paused || done == paused || s.applied != n + !paused) bad("system", "applied while paused, or not applied"); s.pause(); if (s.apply()) bad("system", "applied while paused"); s.resume(); if (s.paused() != paused) bad("system", "pauses do not nest"); } break;
            default:
                try { e->register_component<A>(); if (regA) bad("register", "twice"); regA = true; } catch (ne::i_ecs::uuid_exists const&) {}
                try { e->component(neolib::uuid{ 1, 2, 3, 4, { 5, 6 } }); bad("register", "an unknown component"); } catch (ne::i_ecs::component_not_found const&) {}
                try { e->system(neolib::uuid{ 1, 2, 3, 4, { 5, 6 } }); bad("register", "an unknown system"); } catch (ne::i_ecs::system_not_found const&) {}
                try { e->archetype(neolib::uuid{ 1, 2, 3, 4, { 5, 6 } }); bad("register", "an unknown archetype"); } catch (ne::i_ecs::entity_archetype_not_found const&) {}
                regA = e->component_registered<A>();
            }
        }
        bool regA = false;
        void check(bool full)
        {
            if (created != wantCreated) bad("events", "entity_created"); if (destroyed != wantDestroyed) bad("events", vf::cat("entity_destroyed ", destroyed.size(), " expected ", wantDestroyed.size()));
            check_component<A>(full); check_component<B>(full); check_component<C>(full); check_component<D>(full);
            if (static_cast<std::int64_t>(b.size()) * (snap[1] ? 2 : 1) < 0) bad("live", "");
            if (info) { auto& x = e->component<ne::entity_info>(); if (x.entities().size() != alive.size()) bad("info", vf::cat(x.entities().size(), " entities known, expected ", alive.size())); for (auto& p : alive) { auto& i = x.entity_record(p.first); if (p.second != neolib::uuid{} && i.archetypeId != p.second) bad("info", "archetype"); if (i.destroyed != (pending.count(p.first) != 0)) bad("info", "destroyed"); } }
            for (auto& o : owned) if (o->id() && !alive.count(o->id())) bad("entity", vf::cat("holds the id of a dead entity ", o->id()));
            for (auto& p : handles) if (ie().to_handle<void*>(p.first) != p.second) bad("handle", vf::cat("of id ", p.first)); check_shared();
        }
        void step()
        {
            switch (r.below(27))
            {
            case 0: case 1: case 2: create(); break; case 3: create_async(); break; case 4: commit(); break; case 5: case 6: destroy(); break; case 7: destroy_async(); break; case 8: commit_destruction(); break;
            case 9: own(); break; case 10: populate<A>(); break; case 11: populate<B>(); break; case 12: populate<C>(); break; case 13: case 14: populate<D>(); break;
            case 15: sort_records<A>(); break; case 16: r.chance(1, 2) ? sort_records<B>() : sort_records<D>(); break; case 17: snapshots<B, 0>(); break; case 18: snapshots<D, 1>(); break; case 19: shared_data(); break; case 20: handle(); break; case 21: case 22: case 23: case 24: case 25: span(0); break; default: systems(); break;
            }
        }
        void finish() { owned.clear(); }
    };
    void history(vf::rng& r)
    {
        task(); auto live = vf::tracked::live.load();
        { world w{ r }; int n = static_cast<int>(r.size(60, 250)); for (int i = 0; i < n; ++i) { w.step(); w.check(r.chance(1, 8)); } w.check(true); w.finish(); vf::distinct(vf::hash(w.log)); vf::max("entities", w.alive.size()); vf::count("steps", n); vf::sample(w.log); }
        if (vf::tracked::live != live) vf::fail("ecs:leak", vf::cat(vf::tracked::live - live, " component values outlive their system"));
    }
    // a component new to the system is used for the first time by an entity created later
    void first_use(vf::rng& r)
    {
        task(); neolib::services::service<ne::i_ecs_params>().set_locking_strategy(r.pick({ ne::ecs_locking_strategy::MultiThreaded, ne::ecs_locking_strategy::MultiThreadedProfiled, ne::ecs_locking_strategy::MultiThreadedSpinlock }));
        ne::ecs e_{ ne::ecs_flags::NoThreads }; ne::i_ecs& e = e_; ne::entity_archetype arch{ "Late", {} }; e.register_archetype(arch); bool before = r.chance(1, 2); if (before) e.create_entity(arch.id(), A{ 1 });
        int n = 1 + static_cast<int>(r.below(3)); for (int i = 0; i < n; ++i) e.async_create_entity(arch.id(), late{ i }); if (r.chance(1, 2)) e.async_create_entity(arch.id(), C{ "1" });
        e.commit_async_entity_creation();
        // whatever was locked for it is free again, from any thread
        bool free[2]{}; std::thread t{ [&]() { auto& m = e.component<late>().mutex(); free[0] = m.try_lock(); if (free[0]) m.unlock(); if (before) { auto& k = e.component<A>().mutex(); free[1] = k.try_lock(); if (free[1]) k.unlock(); } } }; t.join();
        if (!free[0] || (before && !free[1])) vf::fail("ecs:first_use", "a component is left locked"); if (e.component<late>().component_data().size() != static_cast<std::size_t>(n)) vf::fail("ecs:first_use", "records");
        std::atomic<int> inside{ 0 }; std::atomic<bool> overlap{ false }; auto& m = e.component<late>().mutex(); // and still excludes
        { m.lock(); bool other = false; std::thread t2{ [&]() { other = m.try_lock(); if (other) m.unlock(); } }; t2.join(); m.unlock(); if (other) vf::fail("ecs:first_use", "the mutex of a component excludes nobody"); } vf::distinct(vf::hash(vf::cat(before, n, e.component<late>().component_data().size()))); vf::count("first-uses");
    }
    void optional_data(vf::rng& r)
    {
        task(); ne::ecs e_{ ne::ecs_flags::NoThreads }; ne::i_ecs& e = e_; ne::component<std::optional<O>> x{ e }; std::map<ne::entity_id, std::optional<std::int64_t>> k; std::string log; bool optional = x.is_data_optional(); if (!optional) vf::fail("ecs:optional", "not optional");
        for (int i = 0; i < 30; ++i)
        {
            ne::entity_id id = static_cast<ne::entity_id>(1 + r.below(12)); log += vf::cat(id, " ");
            switch (r.below(4))
            {
            case 0: x.populate(id, static_cast<void const*>(nullptr), sizeof(O)); k[id] = std::nullopt; break;
            case 1: { O o{ i }; x.populate(id, &o, sizeof o); k[id] = i; break; }
            case 2: x.populate(id, std::optional<O>{ O{ i } }); k[id] = i; break;
            default: if (k.erase(id)) x.destroy_entity_record(id); else try { x.populate(id, static_cast<void const*>(nullptr), sizeof(O) + 1); vf::fail("ecs:optional", "wrong size accepted"); } catch (ne::component<std::optional<O>>::invalid_data const&) {}
            }
            if (x.component_data().size() != k.size()) vf::fail("ecs:optional", log); for (auto& p : k) { auto& v = x.entity_record(p.first); if (v.has_value() != p.second.has_value() || (v && v->v != *p.second)) vf::fail("ecs:optional", log); }
        }
        vf::distinct(vf::hash(log));
    }
}
#ifndef VF_THREADS
VF_SCENARIO(histories, 12) { history(r); }
VF_SCENARIO(first_use, 1) { first_use(r); }
namespace
{
    template <typename T> void describe(std::vector<ne::component_data_field_type> const& types, std::vector<std::string> const& names)
    {
        task(); ne::ecs e_{ ne::ecs_flags::NoThreads }; ne::i_ecs& e = e_; e.component<T>(); auto& c = e.component(T::meta::id()); std::string n; 
        if (c.id() != T::meta::id() || c.field_count() != types.size()) vf::fail("ecs:describe", "identity"); if (&c.ecs() != &e) vf::fail("ecs:describe", "ecs");
        for (std::uint32_t i = 0; i < types.size(); ++i) if (c.field_type(i) != types[i] || c.field_name(i).to_std_string() != names[i] || c.field_type_id(i) != neolib::uuid{}) vf::fail("ecs:describe", vf::cat(names[i], " of ", c.name().to_std_string()));
        for (std::uint32_t i = 0; i < 3; ++i) try { c.field_type(static_cast<std::uint32_t>(types.size()) + i); vf::fail("ecs:describe", "a field that is not there"); } catch (ne::i_component_data::meta::invalid_field_index const&) {}
    }
}
VF_SCENARIO(descriptions, 1)
{
    using t = ne::component_data_field_type; vf::distinct(vf::hash("descriptions"));
    describe<ne::clock>({ t::Int64 | t::Atomic, t::Int64, t::Float64, t::Int64 }, { "Time", "Timestep", "Timestep Growth", "Maximum Time Step" });
    describe<ne::entity_info>({ t::Uuid, t::Int64, t::Bool | t::Atomic, t::Bool | t::Atomic }, { "Archetype Id", "Creation Time", "Destroyed", "Debug" }); describe<ne::entity_life_span>({ t::Int64 }, { "Life Span" });
}
VF_SCENARIO(optional_data, 1) { optional_data(r); }
#else
namespace
{
    struct mine_t { std::map<ne::entity_id, std::int64_t> e; std::map<ne::handle_id, void*> h; };
    void crowd(vf::rng& r)
    {
        task(); neolib::services::service<ne::i_ecs_params>().set_locking_strategy(r.pick({ ne::ecs_locking_strategy::MultiThreaded, ne::ecs_locking_strategy::MultiThreadedProfiled, ne::ecs_locking_strategy::MultiThreadedSpinlock }));
        ne::ecs e_{ ne::ecs_flags::NoThreads | ne::ecs_flags::PopulateEntityInfo }; ne::i_ecs& e = e_; ne::entity_archetype arch{ "Crowd", {} }; e.register_archetype(arch); e.component<A>(); e.component<C>(); e.component<ne::entity_info>(); e.system<ne::time>();
        std::atomic<int> created{ 0 }, destroyed{ 0 }, asked{ 0 }; neolib::sink sink; sink += ~~~~e.entity_created([&](ne::entity_id) { ++created; }); sink += ~~~~e.entity_destroyed([&](ne::entity_id) { ++destroyed; });
        int const T = 2 + static_cast<int>(r.below(3)), N = 30; std::vector<mine_t> mine(T); std::vector<std::string> bad(T); std::latch start{ T + 1 }; std::atomic<int> running{ T }; std::vector<vf::u64> seeds; for (int i = 0; i < T; ++i) seeds.push_back(r.next()); std::atomic<int> destroys{ 0 };
        std::vector<std::thread> ts;
        for (int t = 0; t < T; ++t) ts.emplace_back([&, t]()
        {
            vf::rng q{ seeds[t] }; auto& m = mine[t]; start.arrive_and_wait(); auto fail = [&](std::string s) { if (bad[t].empty()) bad[t] = s; };
            try
            {
                for (int i = 0; i < N; ++i)
                {
                    std::int64_t v = t * 1000000 + i; auto pickmine = [&]() { return std::next(m.e.begin(), q.below(m.e.size())); };
                    switch (q.below(9))
                    {
                    case 0: case 1: { auto id = e.create_entity(arch.id(), A{ v }, make<C>(v)); if (!m.e.emplace(id, v).second) fail("an id of its own again"); break; }
                    case 2: e.async_create_entity(arch.id(), A{ -1 }); ++asked; break;
                    case 3: if (!m.e.empty()) { auto p = pickmine(); e.destroy_entity(p->first); ++destroys; m.e.erase(p); } break;
                    case 4: if (!m.e.empty()) { auto p = pickmine(); e.async_destroy_entity(p->first); ++destroys; m.e.erase(p); } break;
                    case 5: case 6: if (!m.e.empty()) { auto p = pickmine(); ne::scoped_component_data_lock<A, C> lock{ e }; if (e.component<A>().entity_record(p->first).v != p->second || get(e.component<C>().entity_record(p->first)) != p->second) fail("values of an entity of its own"); p->second = v; e.populate(p->first, A{ v }, make<C>(v)); } break;
                    case 7: { auto p = reinterpret_cast<void*>(static_cast<std::uintptr_t>(v * 16 + 16)); auto h = e.add_handle<A>(p); if (!m.h.emplace(h, p).second) fail("a handle id of its own again"); break; }
                    default: if (!m.h.empty()) { auto p = m.h.begin(); if (e.to_handle<void*>(p->first) != p->second || e.release_handle<void*>(p->first) != p->second) fail("a handle of its own"); m.h.erase(p); } break;
                    }
                }
            }
            catch (std::exception const& x) { fail(vf::cat("exception ", x.what())); }
            --running;
        });
        start.arrive_and_wait(); int snaps = 0; std::size_t seen = 0;
        while (running) { e.commit_async_entity_creation(); e.commit_async_entity_destruction(); e.component<A>().take_snapshot(); { ne::scoped_component_data_lock<A> lock{ e }; seen += e.component<A>().component_data().size(); } ++snaps; std::this_thread::yield(); }
        for (auto& t : ts) t.join(); e.commit_async_entity_creation(); e.commit_async_entity_destruction();
        for (auto& b : bad) if (!b.empty()) vf::fail("ecs:threads", b);
        std::map<ne::entity_id, std::int64_t> all; std::size_t n = 0; for (auto& m : mine) for (auto& p : m.e) { ++n; if (!all.emplace(p).second) vf::fail("ecs:threads", vf::cat("entity id ", p.first, " issued to two threads")); }
        std::set<ne::handle_id> hs; for (auto& m : mine) for (auto& p : m.h) { if (!hs.insert(p.first).second) vf::fail("ecs:threads", "handle id issued to two threads"); if (e.to_handle<void*>(p.first) != p.second) vf::fail("ecs:threads", "handle"); }
        auto& x = e.component<A>(); std::size_t own = 0, other = 0; for (std::size_t i = 0; i < x.entities().size(); ++i) if (auto p = all.find(x.entities()[i]); p != all.end()) { ++own; if (x[i].v != p->second) vf::fail("ecs:threads", "value"); } else { ++other; if (x[i].v != -1) vf::fail("ecs:threads", "value of an entity created later"); }
        if (own != n || other != static_cast<std::size_t>(asked)) vf::fail("ecs:threads", vf::cat(own, " of ", n, " entities and ", other, " of ", asked.load(), " created later")); if (e.component<ne::entity_info>().entities().size() != own + other) vf::fail("ecs:threads", "entity infos");
        if (destroyed != destroys || created != static_cast<int>(own + other) + destroys) vf::fail("ecs:threads", vf::cat("events ", created.load(), " ", destroyed.load(), " expected ", own + other + destroys, " ", destroys.load()));
        vf::count("thread-entities", created); vf::count("snapshots", snaps); vf::distinct(vf::hash(vf::cat(own, ",", other, ",", seen, ",", snaps)));
    }
    void parallel(vf::rng& r)
    {
        task(); neolib::services::service<ne::i_ecs_params>().set_locking_strategy(ne::ecs_locking_strategy::MultiThreaded); ne::ecs e_{ ne::ecs_flags::NoThreads }; ne::i_ecs& e = e_; ne::entity_archetype arch{ "P", {} }; e.register_archetype(arch);
        int n = static_cast<int>(r.size(40, 400)); for (int i = 0; i < n; ++i) e.create_entity(arch.id(), A{ i }); e.component<A>();
        for (int round = 0; round < 3; ++round) { e.component<A>().parallel_apply([&](auto&, A& a) { a.v += 1000000; }, r.below(30)); for (auto& a : e.component<A>().component_data()) if (a.v / 1000000 != round + 1) vf::fail("ecs:parallel", vf::cat("a record was visited ", a.v / 1000000, " times of ", round + 1)); }
        vf::distinct(vf::hash(vf::cat("p", n))); vf::count("parallel-records", n * 3);
    }
}
namespace
{
    struct worker : ne::system<A, C>
    {
        std::atomic<int> applied{ 0 }, elsewhere{ 0 }, overlapping{ 0 }, inside{ 0 }, waits{ 0 }; std::atomic<bool> sleepy{ false }; std::thread::id mine{}; ne::component<A>& as;
        worker(ne::i_ecs& e) : ne::system<A, C>{ e }, as{ e.component<A>() } { start_thread_if(); }
        ~worker() { terminate(); }
        ne::system_id const& id() const final { return meta::id(); } neolib::i_string const& name() const final { return meta::name(); }
        bool apply() final
        {
            if (!can_apply()) throw cannot_apply(); if (paused()) return false;
            if (inside++) ++overlapping; if (mine == std::thread::id{}) mine = std::this_thread::get_id(); else if (mine != std::this_thread::get_id()) ++elsewhere;
            { ne::scoped_component_lock lock{ as }; for (auto& a : as.component_data()) ++a.v; }
            --inside; ++applied; if (sleepy && have_thread() && get_thread().in()) { ++waits; wait_for(0.002); } return true;
        }
        struct meta : meta_base<22> {};
    };
    // a system with a thread of its own
    void own_thread(vf::rng& r)
    {
        task(); neolib::services::service<ne::i_ecs_params>().set_locking_strategy(r.pick({ ne::ecs_locking_strategy::MultiThreaded, ne::ecs_locking_strategy::MultiThreadedProfiled, ne::ecs_locking_strategy::MultiThreadedSpinlock }));
        std::string log; int total = 0;
        {
            bool startPaused = r.chance(1, 3); ne::ecs e_{ startPaused ? ne::ecs_flags::CreatePaused : ne::ecs_flags::None }; ne::i_ecs& e = e_; ne::entity_archetype arch{ "W", {} }; e.register_archetype(arch); for (int i = 0; i < 5; ++i) e.create_entity(arch.id(), A{ 0 });
            auto& s = e.system<worker>(); bool paused = startPaused; auto spin = [](auto&& done) { while (!done()) std::this_thread::yield(); };
            for (int i = 0; i < 8; ++i)
                switch (r.below(6))
                {
                case 0: log += "p"; if (!paused) { e_.pause_all_systems(); paused = true; spin([&]() { return s.waiting(); }); int n = s.applied; std::this_thread::yield(); if (s.applied != n) vf::fail("ecs:worker", "applied while paused"); } break;
                case 1: log += "r"; if (paused) { e_.resume_all_systems(); paused = false; int n = s.applied; spin([&]() { return s.applied > n; }); } break;
                case 2: log += "w"; if (!paused) { int n = s.applied; spin([&]() { return s.applied > n + 2; }); } break;
                case 3: log += "s"; s.sleepy = !s.sleepy; break;
                case 4: { log += "c"; try { if (s.can_apply()) vf::fail("ecs:worker", "another thread may apply it"); s.apply(); vf::fail("ecs:worker", "another thread applied it"); } catch (worker::cannot_apply const&) {} catch (ne::i_system::cannot_apply const&) {} break; }
                default: { log += "+"; auto id = e.create_entity(arch.id(), A{ 0 }); if (r.chance(1, 2)) e.destroy_entity(id); break; }
                }
            total = s.applied; if (s.elsewhere || s.overlapping) vf::fail("ecs:worker", "applied by several threads");
        }
        vf::count("applied", total); vf::distinct(vf::hash(log + std::to_string(total)));
    }
}
VF_SCENARIO(own_thread, 2) { own_thread(r); }
VF_SCENARIO(crowd, 4) { crowd(r); }
VF_SCENARIO(parallel, 1) { parallel(r); }
#endif
VF_MAIN
