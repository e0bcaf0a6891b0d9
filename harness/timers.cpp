// C25: timers fire once, when due and while wanted; tasks run what they are given on their thread.
#include "vf.hpp"
#include <deque>
#include <neolib/neolib.hpp>
#include <neolib/core/service.hpp>
#include <boost/asio.hpp>
#include <neolib/task/thread.hpp>
#include <neolib/task/time_slice.hpp>
#include <neolib/task/async_task.hpp>
#include <neolib/task/async_thread.hpp>
#include <neolib/task/timer_object.hpp>
#include <neolib/task/timer.hpp>
#include <neolib/task/event.hpp>
#include <neolib/app/i_module_services.hpp>

// the count of an exception_ptr lives in the uninstrumented libstdc++, so TSan does not see it order the last release
extern "C" const char* __tsan_default_suppressions() { return "race:std::__exception_ptr::exception_ptr::_M_release\n"; }

namespace
{
    [[maybe_unused]] bool const gOpts = (vf::opts().wallSeconds = 60, neolib::allocate_service_provider(), true);
    using clk = std::chrono::steady_clock; using secs = std::chrono::duration<double>;
    struct task_t : neolib::async_task { task_t() : async_task{ "task" } {} using neolib::async_task::do_work; using neolib::async_task::cancel; using neolib::async_task::set_destroying; };
    struct boom { int n; };

    // what each timer may do, and what it has done
    struct model
    {
        secs dur{}, armedDur{}; bool enabled = true, waiting = false; clk::time_point armed, seenAt; vf::u64 arms = 0, seenArms = 0, fires = 0; int context = -1;
        // surely due: the clock was read by the test after the timer read it
        bool due(clk::time_point now) { if (seenArms != arms) { seenArms = arms; seenAt = now; } return waiting && now >= seenAt + std::chrono::duration_cast<std::chrono::nanoseconds>(armedDur) + std::chrono::nanoseconds(2); }
        void arm() { waiting = true; armed = clk::now(); armedDur = dur; ++arms; }
    };
    struct context : neolib::lifetime<> {};
    struct world;
    // a timer that can be copied, each copy with a life of its own
    struct own_timer : neolib::timer { world& w; int id; template <typename... Args> own_timer(world& w, int id, Args&&... args) : timer{ std::forward<Args>(args)... }, w{ w }, id{ id } {} own_timer(own_timer const& other, int id) : timer{ other }, w{ other.w }, id{ id } {} void ready() override; };
    struct world
    {
        vf::rng& r; std::string log; std::optional<task_t> task; std::vector<std::unique_ptr<neolib::timer>> timers; std::vector<model> m; std::vector<std::unique_ptr<context>> contexts; std::vector<bool> contextAlive; int depth = 0, budget = 60; bool destroyedTask = false; vf::u64 fired = 0, thrown = 0, pumped = 0, copies = 0;
        std::vector<int> posted, run; int nextPost = 0; int inTimer = -1;
        explicit world(vf::rng& r) : r{ r } { task.emplace(); for (int k = 0; k < 2; ++k) { contexts.push_back(std::make_unique<context>()); contextAlive.push_back(true); } }
        ~world() { timers.clear(); }
        secs duration() { switch (r.below(6)) { case 0: return secs{ 1e6 }; case 1: return secs{ r.below(30) * 1e-4 }; case 2: return secs{ -1 }; default: return secs{ 0 }; } }
        template <typename E, typename F> void must_throw(F&& f, char const* what) { try { f(); } catch (E const&) { return; } vf::fail(vf::cat("timer:", what), vf::cat("did not throw; ", log)); }
        // runs inside the callback; the timer may be gone when it returns
        void fire(int id, neolib::timer& t)
        {
            auto now = clk::now(); log += vf::cat("<", id);
            if (id >= static_cast<int>(m.size()) || !timers[id] || timers[id].get() != &t) vf::fail("timer:dead", vf::cat("a destroyed timer fired ", id, "; ", log));
            auto& k = m[id]; if (!k.waiting) vf::fail("timer:unwanted", vf::cat("timer ", id, " fired when not waiting (cancelled, or a second time); ", log)); if (!k.enabled) vf::fail("timer:disabled", vf::cat("timer ", id, " fired while disabled; ", log));
            if (k.context >= 0 && !contextAlive[k.context]) vf::fail("timer:context", vf::cat("timer ", id, " fired after its context died; ", log));
            if (now < k.armed + std::chrono::duration_cast<std::chrono::nanoseconds>(k.armedDur) - std::chrono::nanoseconds(2)) vf::fail("timer:early", vf::cat("timer ", id, "; ", log));
            k.waiting = false; ++k.fires; ++fired; if (t.waiting()) vf::fail("timer:waiting", vf::cat("waiting in its own callback; ", log));
            ++depth; int n = static_cast<int>(r.below(3)); for (int i = 0; i < n; ++i) step(id); --depth;
            if (r.chance(1, 12)) { log += "!"; ++thrown; throw boom{ id }; }
            log += ">";
        }
        // a timer whose context died lapses without a word
        void lapse() { for (std::size_t i = 0; i < m.size(); ++i) if (timers[i] && m[i].context >= 0 && !contextAlive[m[i].context]) m[i].waiting = m[i].waiting && timers[i]->waiting(); }
        int pick() { if (timers.empty()) return -1; int id = static_cast<int>(r.below(timers.size())); return timers[id] ? id : -1; }
        void make()
        {
            int id = static_cast<int>(timers.size()); if (id > 12) return; model k; k.dur = duration(); bool wait = r.chance(2, 3); timers.emplace_back(); m.push_back(k); auto cb = [this, id](neolib::callback_timer& t) { auto w = this; auto i = id; w->fire(i, t); };
            if (r.chance(1, 3)) { int c = static_cast<int>(r.below(2)); if (contextAlive[c]) { m[id].context = c; if (wait) m[id].arm(); if (r.chance(1, 2)) timers[id] = std::make_unique<own_timer>(*this, id, *task, *contexts[c], k.dur, wait); else timers[id] = std::make_unique<neolib::callback_timer>(*task, *contexts[c], cb, k.dur, wait); log += vf::cat("new", id, "ctx", c, ' '); return; } }
            if (wait) m[id].arm(); if (r.chance(1, 2)) timers[id] = std::make_unique<own_timer>(*this, id, *task, k.dur, wait); else timers[id] = std::make_unique<neolib::callback_timer>(*task, cb, k.dur, wait); log += vf::cat("new", id, wait ? "w " : " ");
        }
        void check(int id) { auto& t = *timers[id]; auto& k = m[id]; if (t.waiting() != k.waiting || t.enabled() != k.enabled || t.disabled() == k.enabled || t.duration() != k.dur) vf::fail("timer:state", vf::cat("timer ", id, " waiting ", t.waiting(), '/', k.waiting, " enabled ", t.enabled(), '/', k.enabled, "; ", log)); if (&t.owner_task() != &*task) vf::fail("timer:owner", log); }
        void step(int self)
        {
            if (--budget < 0) return; lapse(); int id = self >= 0 && r.chance(1, 2) && timers[self] ? self : pick(); auto op = r.below(17); if (op < 13 && op > 0 && id < 0) op = 0;
            switch (op)
            {
            case 0: make(); return;
            case 1: log += vf::cat("again", id, ' '); if (m[id].waiting) { must_throw<neolib::timer::already_waiting>([&] { timers[id]->again(); }, "again"); m[id].enabled = true; } else { m[id].enabled = true; m[id].arm(); timers[id]->again(); } break;
            case 2: log += vf::cat("again_if", id, ' '); if (!m[id].waiting) { m[id].enabled = true; m[id].arm(); } timers[id]->again_if(); break;
            case 3: log += vf::cat("cancel", id, ' '); timers[id]->cancel(); m[id].waiting = false; break;
            case 4: case 5: log += vf::cat("reset", id, ' '); m[id].enabled = true; m[id].arm(); timers[id]->reset(); break;
            case 6: { bool w = r.chance(1, 2); log += vf::cat("enable", id, w, ' '); if (m[id].enabled) must_throw<neolib::timer::already_enabled>([&] { timers[id]->enable(w); }, "enable"); else { m[id].enabled = true; if (w) m[id].arm(); timers[id]->enable(w); } break; }
            case 7: log += vf::cat("disable", id, ' '); if (!m[id].enabled) must_throw<neolib::timer::already_disabled>([&] { timers[id]->disable(); }, "disable"); else { timers[id]->disable(); m[id].enabled = false; m[id].waiting = false; } break;
            case 8: { auto d = duration(); bool now = r.chance(1, 2); log += vf::cat("dur", id, now, ' '); m[id].dur = d; if (now && m[id].waiting) m[id].arm(); timers[id]->set_duration(d, now); break; }
            case 9: { log += vf::cat("del", id, ' '); auto dead = std::move(timers[id]); m[id].waiting = false; dead.reset(); return; }
            case 10: { int from = pick(); if (from < 0 || from == id) return; log += vf::cat("assign", id, '=', from, ' '); m[id].dur = m[from].dur; m[id].enabled = m[from].enabled; m[id].waiting = false; if (m[from].waiting) m[id].arm(); static_cast<neolib::timer&>(*timers[id]) = *timers[from]; break; }
            case 11: { log += vf::cat("copy", id, ' '); bool w = m[id].waiting; if (auto* own = dynamic_cast<own_timer*>(&*timers[id])) { int to = static_cast<int>(timers.size()); if (to > 12) return; model k = m[id]; k.fires = k.seenArms = k.arms = 0; k.waiting = false; timers.emplace_back(); m.push_back(k); if (w) m[to].arm(); timers[to] = std::make_unique<own_timer>(*own, to); check(to); ++copies; break; } neolib::callback_timer c{ static_cast<neolib::callback_timer&>(*timers[id]) }; if (c.waiting() != w || c.enabled() != m[id].enabled || c.duration() != m[id].dur) vf::fail("timer:copy", log); break; }
            case 12: { int c = static_cast<int>(r.below(2)); if (!contextAlive[c]) return; log += vf::cat("ctx", c, "dies "); contextAlive[c] = false; contexts[c].reset(); break; }
            case 13: { auto& io = task->io_context().native_object<boost::asio::io_context>(); int n = nextPost++; posted.push_back(n); log += vf::cat("post", n, ' '); boost::asio::post(io, [this, n] { log += vf::cat("{", n, "}"); run.push_back(n); }); return; }
            case 14: if (depth || !r.chance(1, 4)) return; log += "cancelio "; task->cancel_io_context(); posted = run; return;
            default: if (depth < 3) work(); return;
            }
            if (timers[id]) check(id);
        }
        bool work(bool slice = true)
        {
            ++pumped; ++depth; log += "["; struct due { int id; vf::u64 arms; }; std::vector<due> dues; auto now = clk::now(); for (std::size_t i = 0; i < m.size(); ++i) if (timers[i] && m[i].due(now)) dues.push_back({ static_cast<int>(i), m[i].arms });
            bool did = true, threw = false; std::optional<neolib::scoped_time_slice> s; if (slice && r.chance(1, 3)) s.emplace(std::chrono::microseconds{ r.pick({ 0, 1, 1000000 }) });
            try { did = task->do_work(neolib::yield_type::NoYield); } catch (boom const&) { threw = true; log += "threw"; }
            --depth; log += "]";
            // context deaths disarm silently
            if (!did && !threw) for (auto& d : dues) if (timers[d.id] && m[d.id].waiting && m[d.id].arms == d.arms)
            {
                if (m[d.id].context >= 0 && !contextAlive[m[d.id].context]) { m[d.id].waiting = timers[d.id]->waiting(); if (m[d.id].waiting) vf::fail("timer:stuck", vf::cat("timer ", d.id, " keeps waiting after its context died; ", log)); }
                else vf::fail("timer:late", vf::cat("timer ", d.id, " was due and the task had nothing to do; ", log));
            }
            lapse();
            return did || threw;
        }
        void settle()
        {
            int n = 0; while (work(n > 50)) if (++n > 2000) vf::fail("timer:endless", log);
            if (depth == 0 && run != posted) vf::fail("task:posted", vf::cat("ran ", run.size(), " of ", posted.size(), "; ", log));
            for (std::size_t i = 0; i < m.size(); ++i) if (timers[i]) check(static_cast<int>(i));
        }
    };
    inline void own_timer::ready() { w.fire(id, *this); }
    void histories(vf::rng& r)
    {
        world w{ r }; int n = static_cast<int>(r.size(20, 120, 30)); for (int i = 0; i < n; ++i) { w.budget = 40; w.step(-1); if (r.chance(1, 6)) w.settle(); }
        w.settle(); if (r.chance(1, 4)) { auto until = clk::now() + std::chrono::milliseconds(4); while (clk::now() < until) {} w.settle(); for (std::size_t i = 0; i < w.m.size(); ++i) if (w.timers[i] && w.m[i].waiting && w.m[i].armedDur < secs{ 0.01 } && w.m[i].armed + std::chrono::milliseconds(30) < clk::now() && !(w.m[i].context >= 0 && !w.contextAlive[w.m[i].context])) vf::fail("timer:late", w.log); }
        if (r.chance(1, 3))
        {   // the task goes first
            w.task->halt(); if (!w.task->halted() || w.task->do_work(neolib::yield_type::NoYield)) vf::fail("task:halted", w.log);
            w.log += "task dies "; auto fired = w.fired; if (r.chance(1, 2)) w.task->cancel(); w.task.reset(); for (auto& t : w.timers) if (t) { t->again_if(); t->cancel(); if (r.chance(1, 2)) t.reset(); } if (w.fired != fired) vf::fail("timer:task", w.log);
        }
        vf::count("timer-fired", w.fired); vf::count("timer-threw", w.thrown); vf::count("task-rounds", w.pumped); vf::count("timer-copies", w.copies); vf::count("task-posted", w.posted.size()); vf::distinct(vf::hash(w.log));
    }
    // timer objects shared by several subscribers
    struct probe : neolib::lifetime<neolib::reference_counted<neolib::i_timer_subscriber>>
    {
        std::function<void()> f; bool isAttached = true; int* detached; static inline int alive = 0;
        probe(std::function<void()> f, int* d) : f{ f }, detached{ d } { ++alive; } ~probe() { --alive; }
        void timer_expired(neolib::i_timer_object&) override { f(); } bool attached() const override { return isAttached; } void detach() override { if (isAttached) ++*detached; isAttached = false; }
    };
    void objects(vf::rng& r)
    {
        std::string log; int alive = probe::alive;
        {
            struct sub { neolib::ref_ptr<neolib::i_timer_subscriber> s; int detached = 0; bool on = true; int calls = 0; bool wrapped = false; }; struct obj { std::deque<sub> subs; neolib::ref_ptr<neolib::i_timer_object> o; bool set = false, removed = false; }; std::deque<obj> os; int nested = 0; task_t task; auto& service = task.timer_service();
            std::function<void()> act; auto pick = [&]() -> obj* { if (os.empty()) return nullptr; return &os[r.below(os.size())]; };
            auto callback = [&](obj& o, sub& s) { ++s.calls; log += vf::cat("<", &o - &os[0], '.', s.calls); if (!s.on) vf::fail("object:unsubscribed", vf::cat("an unsubscribed subscriber was called; ", log)); ++nested; if (nested < 3 && r.chance(1, 2)) act(); --nested; if (r.chance(1, 15)) { log += "!"; throw boom{ 0 }; } log += ">"; };
            act = [&]
            {
                switch (r.below(7))
                {
                case 0: if (os.size() < 6) { auto& o = os.emplace_back(); o.o = service.create_timer_object(); log += "obj "; } break;
                case 1: if (auto* o = pick()) { if (o->removed || o->subs.size() > 5) break; auto& s = o->subs.emplace_back(); s.wrapped = r.chance(1, 2); log += vf::cat("sub", o - &os[0], ' '); if (s.wrapped) s.s = o->o->async_wait(std::function<void()>{ [&, o, ps = &s] { callback(*o, *ps); } }); else { s.s = neolib::make_ref<probe>([&, o, ps = &s] { callback(*o, *ps); }, &s.detached); o->o->async_wait(*s.s); } } break;
                case 2: if (auto* o = pick()) { if (o->removed || o->subs.empty()) break; auto& s = o->subs[r.below(o->subs.size())]; log += vf::cat("unsub", o - &os[0], ' '); if (s.on) { o->o->unsubscribe(*s.s); s.on = false; if (s.s->attached()) vf::fail("object:attached", log); } else try { o->o->unsubscribe(*s.s); vf::fail("object:unsubscribe-twice", log); } catch (neolib::i_timer_object::subscriber_not_found const&) {} } break;
                case 3: if (auto* o = pick()) { if (o->removed) break; log += vf::cat("set", o - &os[0], ' '); o->o->expires_from_now(secs{ r.chance(1, 4) ? 1e6 : 0.0 }); o->set = true; } break;
                case 4: if (auto* o = pick()) { if (o->removed) break; log += vf::cat("cancel", o - &os[0], ' '); o->o->cancel(); } break;
                case 5: if (auto* o = pick()) { if (o->removed || nested) break; log += vf::cat("remove", o - &os[0], ' '); o->removed = true; service.remove_timer_object(*o->o); for (auto& s : o->subs) s.on = false; o->o.reset(); for (auto& s : o->subs) if (s.s->attached()) vf::fail("object:attached", vf::cat("a subscriber of a destroyed timer object is still attached; ", log)); } break;
                default: if (nested < 2) { log += "["; std::vector<int> before; try { bool did = task.do_work(neolib::yield_type::NoYield); log += did ? "]" : ".]"; } catch (boom const&) { log += "threw]"; } } break;
                }
            };
            for (int i = 0; i < 50; ++i) act();
            // one expiry, each current subscriber once
            for (auto& o : os) if (!o.removed) { o.o->cancel(); }
            for (auto& o : os) if (!o.removed) { for (auto& s : o.subs) s.calls = 0; nested = 5; o.o->expires_from_now(secs{ 0 }); bool threw = false; try { if (!o.o->poll()) vf::fail("object:poll", log); } catch (boom const&) { threw = true; } if (o.o->poll()) vf::fail("object:poll-again", log); if (!threw) for (auto& s : o.subs) if (s.calls != (s.on ? 1 : 0)) vf::fail("object:once", vf::cat("a subscriber was called ", s.calls, " times, subscribed ", s.on, "; ", log)); nested = 0; }
            vf::count("object-histories");
        }
        if (probe::alive != alive) vf::fail("object:leak", vf::cat(probe::alive - alive, " subscribers never released; ", log)); vf::distinct(vf::hash(log));
    }
    struct owner : neolib::timer { using timer::timer; using timer::timer_object; void ready() override {} };
    void released(vf::rng& r)
    {
        task_t task; std::vector<neolib::destroyed_flag> gone; int N = 1 + static_cast<int>(r.below(20)); std::deque<owner> keep;
        for (int n = 0; n < N; ++n) { std::optional<owner> t; t.emplace(task, secs{ r.chance(1, 2) ? 0 : 1e6 }, r.chance(1, 2)); neolib::destroyed_flag f{ t->timer_object() }; if (r.chance(1, 2)) task.do_work(); if (f) vf::fail("object:gone", "a timer in use lost its timer object"); t.reset(); if (r.chance(1, 2)) task.do_work(); if (!f) vf::fail("object:kept", vf::cat("the timer object outlives its timer, ", n)); }
        vf::count("timer-objects-released", N); vf::distinct(vf::hash(vf::cat(N, r.s)));
    }
    struct tag_a {}; struct tag_b {};
    void slices(vf::rng& r)
    {
        auto& ts = neolib::service<neolib::i_time_slice>(); auto spin = [](long us) { auto t = clk::now() + std::chrono::microseconds(us); while (clk::now() < t) {} return 0; };
        if (ts.active() || ts.expired()) vf::fail("slice:inactive", "active with nothing pushed"); bool big = r.chance(1, 2); auto n = 1 + r.below(4);
        {
            neolib::scoped_time_slice s{ std::chrono::microseconds{ big ? 3600000000ll : 40 } }; if (!ts.active()) vf::fail("slice:active", ""); ts.split(n);
            { neolib::scoped_time_slice_task<tag_a> a; if (big) { spin(50); if (ts.expired()) vf::fail("slice:early", ""); } else { spin(45 / static_cast<long>(n) + 2); if (!ts.expired()) vf::fail("slice:late", vf::cat(n)); }
              { neolib::scoped_time_slice_task<tag_b> b; if (big && ts.expired()) vf::fail("slice:inner", ""); { neolib::scoped_time_slice inner{ std::chrono::hours{ 1 } }; neolib::scoped_time_slice_task<tag_b> b2; if (ts.expired()) vf::fail("slice:nested", ""); } if (!big) { spin(60); if (!ts.expired()) vf::fail("slice:late", "inner"); } }
              if (!big && !ts.expired()) vf::fail("slice:forgot", ""); if (big && ts.expired()) vf::fail("slice:early", ""); }
        }
        if (ts.active()) vf::fail("slice:left", ""); vf::count("slices"); vf::distinct(vf::hash(vf::cat(big, n)));
    }
    // a task on its own thread
    std::mutex gTextMutex; std::string gText; std::atomic<vf::u64> gBad{ 0 };
    void complain(std::string const& s) { std::lock_guard l{ gTextMutex }; if (gBad++ == 0) gText = s; }
    struct worker : neolib::async_task, neolib::async_thread
    {
        std::function<void(worker&)> preamble; std::optional<neolib::callback_timer> once, repeat; std::atomic<int> onceFired{ 0 }, repeats{ 0 }; std::atomic<bool> ready{ false }; neolib::sink sink; std::thread::id on; clk::time_point armed;
        explicit worker(std::function<void(worker&)> p) : async_task{ "task" }, async_thread{ *this, "thread" }, preamble{ p } { start(); }
        ~worker() { stop(); async_thread::cancel(); }
        void stop() { async_task::cancel(); }
        void exec_preamble() override { async_thread::exec_preamble(); on = std::this_thread::get_id(); preamble(*this); ready = true; }
    };
    void threads(vf::rng& r)
    {
        int P = 1 + static_cast<int>(r.below(3)), N = 1 + static_cast<int>(r.below(60)), W = 1 + static_cast<int>(r.below(2)); bool abrupt = r.chance(1, 4); std::deque<neolib::event<int>> events(P); struct seen { std::vector<std::vector<int>> got; int n = 0; std::atomic<int> total{ 0 }; }; std::deque<seen> seens(W); long wantMs = static_cast<long>(r.below(3)); std::deque<std::unique_ptr<worker>> ws;
        for (int w = 0; w < W; ++w)
        {
            seens[w].got.resize(P);
            ws.push_back(std::make_unique<worker>([&, w](worker& me)
            {
                for (int p = 0; p < P; ++p) me.sink += events[p]([&, w, p](int v) { if (std::this_thread::get_id() != me.on) complain("a slot ran on another thread"); seens[w].got[p].push_back(v); ++seens[w].total; });
                me.armed = clk::now(); me.once.emplace(me, [&](neolib::callback_timer&) { if (clk::now() < me.armed + std::chrono::milliseconds(wantMs)) complain("early"); if (std::this_thread::get_id() != me.on) complain("a timer fired on another thread"); ++me.onceFired; }, std::chrono::milliseconds(wantMs));
                me.repeat.emplace(me, [&](neolib::callback_timer& t) { ++me.repeats; t.again(); }, secs{ 0 });
            }));
        }
        for (auto& w : ws) while (!w->ready) std::this_thread::yield();
        std::vector<std::thread> ts; for (int p = 0; p < P; ++p) ts.emplace_back([&, p] { for (int n = 0; n < N; ++n) events[p].trigger(n); }); for (auto& t : ts) t.join();
        if (!abrupt) { for (int w = 0; w < W; ++w) { while (seens[w].total != P * N || ws[w]->onceFired == 0 || ws[w]->repeats < 3) std::this_thread::yield(); if (!ws[w]->async_task::running()) complain("not running"); } }
        for (auto& w : ws) { w->stop(); if (w->async_task::running()) complain("running after cancel"); w->async_task::wait(); }
        for (int w = 0; w < W; ++w) { if (ws[w]->onceFired > 1) complain("a timer fired twice"); for (int p = 0; p < P; ++p) { auto& g = seens[w].got[p]; for (std::size_t i = 0; i < g.size(); ++i) if (g[i] != static_cast<int>(i)) complain("events out of order"); if (!abrupt && g.size() != static_cast<std::size_t>(N)) complain("an event was delivered twice or not at all"); } }
        ws.clear(); if (gBad) { gBad = 0; vf::fail("task:threads", vf::cat(gText, " P", P, " N", N, " W", W)); } vf::count("task-threads", W); vf::count("task-events", P * N * W); vf::distinct(vf::hash(vf::cat(P, ' ', N, ' ', W, abrupt, wantMs)));
    }
}
template<> neolib::i_async_task& neolib::services::start_service<neolib::i_async_task>() { static neolib::async_task t; return t; }
#ifndef VF_THREADS
VF_SCENARIO(histories, 6) { histories(r); }
VF_SCENARIO(objects, 3) { objects(r); }
VF_SCENARIO(slices, 1) { slices(r); }
VF_SCENARIO(released, 1) { released(r); }
#else
VF_SCENARIO(threads, 1) { threads(r); }
#endif
VF_MAIN
