// C15: reference counted objects live exactly as long as something holds them.
#include "vf.hpp"
#include <neolib/neolib.hpp>
#include <neolib/core/reference_counted.hpp>
#include <thread>
#include <memory>
#include <array>
#include <set>

namespace
{
    struct world;
    struct i_obj : neolib::i_reference_counted { typedef i_obj abstract_type; virtual int id() const = 0; virtual neolib::ref_ptr<i_obj>& child() = 0; };
    struct world { std::set<int> destroyed; } *gWorld = nullptr;
    struct obj : neolib::reference_counted<i_obj>
    {
        int n; neolib::ref_ptr<i_obj> c; std::unique_ptr<int> heap{ new int(1) };
        explicit obj(int n) : n{ n } {}
        obj(obj const& o, int n) : neolib::reference_counted<i_obj>{ o }, n{ n } {}
        ~obj() { if (gWorld && !gWorld->destroyed.insert(n).second) vf::record("refs:destroyed-twice", vf::cat(n)); n = -1; }
        int id() const override { return n; }
        neolib::ref_ptr<i_obj>& child() override { return c; }
    };
    struct sub : obj { int extra = 42; using obj::obj; };
    struct other : obj { std::string extra = "other"; using obj::obj; };

    struct slot { int p = -1, m = -1; bool counted = false; };   // what a pointer points at, manages, and whether it holds a reference
    constexpr int NI = 5, NO = 4, NS = 3, NW = 4;

    struct machine
    {
        vf::rng& r; std::string log; world w;
        struct rec { i_obj* raw; bool alive = true, pinned = false, isSub = false; int control = 0; slot child; int extra = 0; };
        std::vector<rec> objs;
        std::array<neolib::ref_ptr<i_obj>, NI> i; std::array<neolib::ref_ptr<obj>, NO> o; std::array<neolib::ref_ptr<sub>, NS> s;
        std::array<neolib::weak_ref_ptr<i_obj>, NW> w1; std::array<neolib::weak_ref_ptr<obj>, NW> w2;
        std::array<slot, NI> mi; std::array<slot, NO> mo; std::array<slot, NS> ms; std::array<int, NW> mw1, mw2;
        explicit machine(vf::rng& r) : r{ r } { gWorld = &w; mw1.fill(-1); mw2.fill(-1); }
        ~machine() { gWorld = nullptr; }
        long count(int m) const
        {
            long n = objs[m].extra; auto add = [&](slot const& x) { if (x.counted && x.m == m) ++n; };
            for (auto& x : mi) add(x); for (auto& x : mo) add(x); for (auto& x : ms) add(x); for (auto& x : objs) if (x.alive) add(x.child);
            return n;
        }
        // drop the reference a slot held: objects nothing holds any more die, and so on
        void dropped(slot const& was) { if (was.counted && was.m >= 0) maybe_die(was.m); }
        void maybe_die(int m) { auto& x = objs[m]; if (x.alive && !x.pinned && count(m) == 0) { x.alive = false; slot c = x.child; x.child = {}; dropped(c); } }
        void set(slot& x, slot v) { slot was = x; x = v; dropped(was); }
        int fresh(bool asSub) { int n = static_cast<int>(objs.size()); obj* p = asSub ? new sub{ n } : r.chance(1, 3) ? new other{ n } : new obj{ n }; objs.push_back({ p }); objs.back().isSub = asSub; return n; }
        std::vector<int> alive() const { std::vector<int> v; for (std::size_t k = 0; k < objs.size(); ++k) if (objs[k].alive) v.push_back(static_cast<int>(k)); return v; }
        // an object may only be adopted by a counting pointer (a dangling count of zero would not be destroyed by it)
        std::string describe(slot const& x) { return vf::cat("p", x.p, " m", x.m, x.counted ? "" : " uncounted"); }
        template <typename P> void same(P const& p, slot const& x, char const* what)
        {
            i_obj* wp = x.p < 0 ? nullptr : objs[x.p].raw; i_obj* wm = x.m < 0 ? nullptr : objs[x.m].raw;
            if (static_cast<i_obj*>(p.ptr()) != wp || static_cast<i_obj*>(p.managed_ptr()) != wm || p.valid() != (wp != nullptr) || static_cast<bool>(p) != (wp != nullptr) || p.managing() != (wm != nullptr) || (p == nullptr) != (wp == nullptr)) vf::fail("refs:target", vf::cat(what, " want ", describe(x), log));
            if (wm && p.reference_counted() != x.counted) vf::fail("refs:counted", vf::cat(what, " want ", describe(x), log));
            if (wm && x.counted) { if (p.use_count() != count(x.m)) vf::fail("refs:use_count", vf::cat(what, " ", p.use_count(), " want ", count(x.m), log)); if (p.unique() != (count(x.m) == 1)) vf::fail("refs:unique", log); }
            if (!wm && p.use_count() != 0) vf::fail("refs:use_count-empty", log);
            if (wp && x.p >= 0 && objs[x.p].alive && (p->id() != x.p || (*p).id() != x.p)) vf::fail("refs:deref", log);
            if (!wp) { bool t = false; try { p->id(); } catch (typename P::no_object const&) { t = true; } if (!t) vf::fail("refs:null-deref", log); }
        }
        void check()
        {
            for (std::size_t k = 0; k < objs.size(); ++k)
            {
                bool dead = w.destroyed.count(static_cast<int>(k)) != 0;
                if (dead && objs[k].alive) vf::fail("refs:destroyed-early", vf::cat("object ", k, log));
                if (!dead && !objs[k].alive) vf::fail("refs:leaked", vf::cat("object ", k, " use_count ", objs[k].raw->use_count(), log));
                if (!dead && objs[k].raw->use_count() != count(static_cast<int>(k))) vf::fail("refs:use_count", vf::cat("object ", k, " ", objs[k].raw->use_count(), " want ", count(static_cast<int>(k)), log));
                if (!dead) same(objs[k].raw->child(), objs[k].child, "child");
            }
            for (int k = 0; k < NI; ++k) same(i[k], mi[k], "i"); for (int k = 0; k < NO; ++k) same(o[k], mo[k], "o"); for (int k = 0; k < NS; ++k) same(s[k], ms[k], "s");
            auto weak = [&](auto const& p, int x)
            {
                bool exp = x < 0 || !objs[x].alive;
                if (p.expired() != exp || p.valid() == exp || (p.ptr() == nullptr) != exp) vf::fail("refs:weak-expired", vf::cat("weak to ", x, log));
                if (!exp && (static_cast<i_obj*>(p.ptr()) != objs[x].raw || p->id() != x)) vf::fail("refs:weak-target", vf::cat("weak to ", x, log));
                if (exp) { bool t = false; try { p->id(); } catch (typename std::decay_t<decltype(p)>::no_object const&) { t = true; } if (!t) vf::fail("refs:weak-null-deref", log); }
            };
            for (int k = 0; k < NW; ++k) { weak(w1[k], mw1[k]); weak(w2[k], mw2[k]); }
        }
        i_obj* target(int n) { return n < 0 ? nullptr : objs[n].raw; }
        void step()
        {
            int a = static_cast<int>(r.below(NI)), b = static_cast<int>(r.below(NI)), oa = static_cast<int>(r.below(NO)), ob = static_cast<int>(r.below(NO)), sa = static_cast<int>(r.below(NS));
            auto live = alive(); int any = live.empty() ? -1 : r.pick(live);
            auto opn = r.below(30);
            log += vf::cat(" ", opn, ":", a, b, oa, ob, sa, "/", any);
            switch (opn)
            {
            case 0: case 1: { int n = fresh(false); i[a].reset(objs[n].raw); set(mi[a], { n, n, true }); } break;
            case 2: { int n = fresh(false); o[oa] = neolib::ref_ptr<obj>{ static_cast<obj*>(objs[n].raw) }; set(mo[oa], { n, n, true }); } break;
            case 3: { int n = fresh(true); s[sa] = neolib::ref_ptr<sub>{ static_cast<sub*>(objs[n].raw) }; set(ms[sa], { n, n, true }); } break;
            case 4: i[a] = i[b]; set(mi[a], slot{ mi[b] }); break;
            case 5: { i[a] = std::move(i[b]); if (a != b) { slot v = mi[b]; mi[b] = {}; set(mi[a], v); } } break;
            case 6: i[a] = o[oa]; set(mi[a], slot{ mo[oa] }); break;
            case 7: { i[a] = std::move(o[oa]); slot v = mo[oa]; mo[oa] = {}; set(mi[a], v); } break;
            case 8: o[oa] = s[sa]; set(mo[oa], slot{ ms[sa] }); break;
            case 9: i[a].reset(); set(mi[a], {}); break;
            case 10: o[oa] = nullptr; set(mo[oa], {}); break;
            case 11: s[sa].reset(); set(ms[sa], {}); break;
            case 12: { neolib::ref_ptr<i_obj> t{ i[a] }; neolib::ref_ptr<i_obj> u{ std::move(t) }; if (t.managing() || t.valid()) vf::fail("refs:moved-from", log); if (mi[a].counted && mi[a].m >= 0 && u.use_count() != count(mi[a].m) + 1) vf::fail("refs:temporary", log); } break;
            case 13: if (mi[a].p < 0 || objs[mi[a].p].alive) { auto t = neolib::dynamic_pointer_cast<sub>(i[a]); int m = mi[a].m, p = mi[a].p; bool is = p >= 0 && objs[p].alive && objs[p].isSub && m == p; if (p < 0 || (objs[p].alive && m == p)) { if (static_cast<bool>(t) != is) vf::fail("refs:dynamic-cast", log); if (is) { s[sa] = std::move(t); set(ms[sa], slot{ mi[a] }); } } } break;
            case 14: if (mi[a].p >= 0 && mi[a].p == mi[a].m && objs[mi[a].p].alive) { o[oa] = neolib::static_pointer_cast<obj>(i[a]); set(mo[oa], slot{ mi[a] }); } break;
            case 15: if (any >= 0) { i[a] = neolib::ref_ptr<i_obj>{ i[b], objs[any].raw }; set(mi[a], { any, mi[b].m, mi[b].counted }); } break;      // alias
            case 16: w1[a % NW] = i[b]; mw1[a % NW] = mi[b].m; break;
            case 17: w2[a % NW] = o[oa]; mw2[a % NW] = mo[oa].m; break;
            case 18: w1[a % NW] = w1[b % NW]; mw1[a % NW] = mw1[b % NW] >= 0 && objs[mw1[b % NW]].alive ? mw1[b % NW] : -1; break;
            case 19: { neolib::weak_ref_ptr<i_obj> t{ w1[a % NW] }; w1[b % NW].reset(); mw1[b % NW] = -1; if (t.expired() == false && t.ptr() == nullptr) vf::fail("refs:weak", log); } break;
            case 20: if (int x = mw1[a % NW]; x >= 0 && objs[x].alive && count(x) > 0) { i[b] = neolib::ref_ptr<i_obj>{ *w1[a % NW] }; set(mi[b], { x, x, true }); } break;   // promote
            case 21: if (any >= 0 && mi[a].m != any) { objs[any].raw->child() = i[a]; set(objs[any].child, slot{ mi[a] }); } break;
            case 22: if (any >= 0) { objs[any].raw->child().reset(); set(objs[any].child, {}); } break;
            case 23: if (mi[a].p >= 0 && objs[mi[a].p].alive) { int p = mi[a].p; i[a] = i[a]->child(); set(mi[a], slot{ objs[p].child }); } break;        // pop from a list
            case 24: if (mi[a].p >= 0 && objs[mi[a].p].alive) { int p = mi[a].p; i[a] = std::move(i[a]->child()); slot v = objs[p].child; objs[p].child = {}; set(mi[a], v); } break;
            case 25: if (any >= 0 && !objs[any].pinned && r.chance(1, 2)) { objs[any].raw->pin(); objs[any].pinned = true; } break;
            case 26: for (int k : live) if (objs[k].pinned && r.chance(1, 2)) { objs[k].pinned = false; objs[k].raw->unpin(); maybe_die(k); break; } break;
            case 27:
                // take over from the smart pointer, or be refused while the object is shared
                if (mi[a].m >= 0 && mi[a].counted)
                {
                    int m = mi[a].m; bool t = false; i_obj* p = nullptr;
                    try { p = i[a].release(); } catch (neolib::i_reference_counted::too_many_references const&) { t = true; }
                    if (t != (count(m) != 1)) vf::fail("refs:release", log);
                    if (!t) { mi[a] = {}; if (p != objs[m].raw || p->use_count() != 0) vf::fail("refs:release-result", log); i[b].reset(p); set(mi[b], { m, m, true }); }
                }
                break;
            case 28: if (mi[a].m >= 0 && mi[a].counted) { int m = mi[a].m; auto p = i[a].detach(); mi[a] = {}; objs[m].extra = 1; if (p != objs[m].raw) vf::fail("refs:detach", log); check(); objs[m].extra = 0; p->release(); maybe_die(m); } break;
            case 29: { if (any >= 0 && objs[any].raw->use_count() == 0) { i[a].reset(objs[any].raw); set(mi[a], { any, any, true }); } else { i[a].reset(target(mi[b].p), target(mi[b].m), mi[b].m >= 0, true); slot v = mi[b]; v.counted = v.m >= 0; set(mi[a], v); } } break;
            }
            check(); vf::count("operations");
        }
        void finish()
        {
            for (auto& x : objs) if (x.alive) { auto k = static_cast<int>(&x - &objs[0]); if (objs[k].alive) { objs[k].raw->child().reset(); slot c = objs[k].child; objs[k].child = {}; dropped(c); } }
            for (int k = 0; k < NI; ++k) { i[k].reset(); set(mi[k], {}); } for (int k = 0; k < NO; ++k) { o[k].reset(); set(mo[k], {}); } for (int k = 0; k < NS; ++k) { s[k].reset(); set(ms[k], {}); }
            for (std::size_t k = 0; k < objs.size(); ++k) if (objs[k].alive && objs[k].pinned) { objs[k].pinned = false; objs[k].raw->unpin(); maybe_die(static_cast<int>(k)); }
            check();
            for (std::size_t k = 0; k < objs.size(); ++k) if (objs[k].alive) vf::fail("refs:harness", "an object outlived the history");
            vf::count("objects", objs.size()); vf::max("objects", objs.size());
        }
    };
    struct in_place : neolib::reference_counted<neolib::i_reference_counted, false> { int* n; explicit in_place(int* n) : n{ n } {} ~in_place() { ++*n; } };
    struct counted_obj : neolib::reference_counted<neolib::i_reference_counted> { std::atomic<int>& live; int payload = 7; explicit counted_obj(std::atomic<int>& l) : live{ l } { ++live; } ~counted_obj() { payload = 0; --live; } };
}
#ifdef VF_THREADS
VF_SCENARIO(threads, 1)
{
    vf::opts().wallSeconds = 120; vf::opts().cpuSeconds = 0;
    std::atomic<int> live{ 0 }; std::vector<std::thread> ts; vf::u64 seeds[4]; for (auto& s : seeds) s = r.next();
    std::atomic<int> bad{ 0 };
    {
        auto p = neolib::make_ref<counted_obj>(live), q = neolib::make_ref<counted_obj>(live);
        for (int t = 0; t < 4; ++t) ts.emplace_back([&, t, p, q]() mutable
        {
            vf::rng x{ seeds[t] }; std::array<neolib::ref_ptr<counted_obj>, 4> l;
            for (int n = 0; n < 300; ++n) { auto& a = l[x.below(4)]; switch (x.below(5)) { case 0: a = p; break; case 1: a = q; break; case 2: a.reset(); break; case 3: a = l[x.below(4)]; break; case 4: a = std::move(l[x.below(4)]); break; } if (a && a->payload != 7) ++bad; if (n == 150 + t * 10) p.reset(); if (n == 200 + t) q = l[0]; }
        });
        p.reset(); if (r.chance(1, 2)) q.reset();
        for (auto& t : ts) t.join();
    }
    ts.clear();
    if (bad) vf::fail("refs:threads-dead-object", "an object was used after its destruction");
    if (live != 0) vf::fail("refs:threads-leak", vf::cat(live.load(), " objects left"));
    vf::count("threaded-operations", 1200); vf::distinct(seeds[0]);
}
#else
VF_SCENARIO(histories, 12)
{
    machine m{ r }; for (auto n = 10 + r.size(40, 200); n-- > 0;) m.step(); m.finish(); vf::distinct(vf::hash(m.log)); vf::sample(m.log.substr(0, 120));
}
VF_SCENARIO(in_place, 1)
{
    int n = 0; { alignas(in_place) unsigned char store[sizeof(in_place)]; neolib::ref_ptr<in_place> a{ new (store) in_place{ &n } }; { auto b = a; auto c = b; if (n) vf::fail("refs:in-place", "destroyed early"); } a.reset(); if (n != 1) vf::fail("refs:in-place", vf::cat("destroyed ", n, " times")); }
    vf::trivial();
}
VF_SCENARIO(uncounted, 1)
{
    // a pointer to an object nothing counts never destroys it
    world w; gWorld = &w; { obj x{ 0 }; { neolib::ref_ptr<obj> p{ x }; neolib::ref_ptr<i_obj> q = p; auto t = std::move(q); if (p.reference_counted() || t.reference_counted() || p->id() != 0 || !p.unique()) vf::fail("refs:uncounted", "state"); } if (!w.destroyed.empty()) vf::fail("refs:uncounted", "destroyed"); } gWorld = nullptr; vf::trivial();
}
#endif
VF_MAIN
