// C24: every subscribed slot receives each event exactly once, in order, on its own thread.
#include "vf.hpp"
#include <neolib/neolib.hpp>
#include <neolib/task/event.hpp>
#include <thread>
#include <memory>
#include <deque>
#include <chrono>
#include <condition_variable>

namespace
{
    typedef neolib::event<> ev0; typedef neolib::event<int> ev1; typedef neolib::event<int, std::string> ev2;
    struct boom {};
    [[maybe_unused]] bool const gServices = (neolib::allocate_service_provider(), true);

    // ---- one thread: an online monitor of every callback --------------------------------------------
    // A stack of active operations (triggers and pumps) says which callback may come next.
    struct world
    {
        struct mslot { int event; bool stateless = false, subscribed = true, gone = false; };
        struct mevent { std::vector<int> slots; bool alive = true; neolib::trigger_type type = neolib::trigger_type::Synchronous; };
        struct queued { int slot, event, arg; };
        struct op { bool pump; int event = -1; int arg = 0; std::vector<int> list; std::size_t pos = 0; bool accepted = false, dead = false; std::deque<queued> multiple; std::vector<queued> single; };
        vf::rng& r; std::string log; int budget = 0, depth = 0; bool stop = false;
        std::vector<std::unique_ptr<ev0>> e0; std::vector<std::unique_ptr<ev1>> e1; std::vector<std::unique_ptr<ev2>> e2;
        std::vector<mevent> ev; std::vector<mslot> sl; std::vector<std::unique_ptr<neolib::sink>> sinks; std::vector<std::vector<int>> held;
        std::deque<queued> qm; std::vector<queued> qs; std::vector<op> ops; std::vector<std::weak_ptr<int>> tokens;
        vf::u64 calls = 0, accepts = 0, throws = 0, nested = 0, skipped = 0;
        static constexpr int NE = 5, NS = 5;
        explicit world(vf::rng& r) : r{ r }
        {
            e0.resize(NE); e1.resize(NE); e2.resize(NE); ev.resize(NE);
            for (int k = 0; k < NE; ++k) make(k);
            for (int k = 0; k < NS; ++k) { sinks.push_back(std::make_unique<neolib::sink>()); held.emplace_back(); }
        }
        ~world() { sinks.clear(); e0.clear(); e1.clear(); e2.clear(); drain(); }
        // whatever is left in the thread's queue belongs to destroyed events
        void drain() { for (int k = 0; k < 3; ++k) try { if (!neolib::async_event_queue::instance().pump_events()) break; } catch (...) {} }
        void make(int k) { if (k % 3 == 0) e0[k] = std::make_unique<ev0>(); else if (k % 3 == 1) e1[k] = std::make_unique<ev1>(); else e2[k] = std::make_unique<ev2>(); ev[k] = {}; }
        template <typename F> auto with(int k, F&& f) { if (k % 3 == 0) return f(*e0[k]); if (k % 3 == 1) return f(*e1[k]); return f(*e2[k]); }
        bool active(int k) const { for (auto& o : ops) if (!o.pump && o.event == k && !o.dead) return true; return false; }
        bool active_any() const { return !ops.empty(); }
        void say(std::string const& s) { if (log.size() < 6000) { log += ' '; log += s; } }

        // a slot was called
        void called(int s, int arg, std::string const* text)
        {
            ++calls; say(vf::cat("[s", s, "(", arg, ")"));
            if (sl[s].gone) { stop = true; vf::fail("events:called-after-unsubscribed", vf::cat("slot ", s, log)); }
            if (ops.empty()) { stop = true; vf::fail("events:unexpected-call", vf::cat("slot ", s, log)); }
            auto& o = ops.back(); bool ok = false;
            if (!ev[sl[s].event].alive) { stop = true; vf::fail("events:called-after-event-destroyed", log); }
            if (o.pump)
            {
                while (!o.multiple.empty() && (sl[o.multiple.front().slot].gone || !ev[o.multiple.front().event].alive)) { o.multiple.pop_front(); ++skipped; }
                if (!o.multiple.empty()) { ok = o.multiple.front().slot == s && o.multiple.front().arg == arg; if (ok) o.multiple.pop_front(); }
                else for (auto i = o.single.begin(); i != o.single.end(); ++i) if (i->slot == s) { ok = i->arg == arg; if (ok) o.single.erase(i); break; }
            }
            else if (!o.dead && !o.accepted)
            {
                while (o.pos < o.list.size() && sl[o.list[o.pos]].gone) { ++o.pos; ++skipped; }
                ok = o.pos < o.list.size() && o.list[o.pos] == s && o.arg == arg; ++o.pos;
            }
            if (text && *text != "t" + std::to_string(arg)) ok = false;
            if (!ok) { stop = true; vf::fail(o.pump ? "events:wrong-delivery" : "events:wrong-call", vf::cat("slot ", s, " arg ", arg, log)); }
            // now misbehave
            if (depth < 3) { ++depth; try { for (int n = static_cast<int>(r.below(3)); n > 0 && budget > 0; --n) { ++nested; step(sl[s].event); } } catch (...) { --depth; throw; } --depth; }
            if (!ev[sl[s].event].alive) { say("]"); return; }
            if (r.chance(1, 12) && budget > 0) { ++throws; say("throw]"); throw boom{}; }
            say("]");
        }
        // what remained at the end of an operation must have been skippable
        void finish(op& o)
        {
            if (o.pump)
            {
                for (auto& q : o.multiple) if (!sl[q.slot].gone && ev[q.event].alive) vf::fail("events:lost", vf::cat("queued call of slot ", q.slot, log));
                for (auto& q : o.single) if (!sl[q.slot].gone && ev[q.event].alive) vf::fail("events:lost", vf::cat("queued call of slot ", q.slot, log));
            }
            else if (!o.dead && !o.accepted)
                for (; o.pos < o.list.size(); ++o.pos) if (!sl[o.list[o.pos]].gone) vf::fail("events:not-called", vf::cat("slot ", o.list[o.pos], log));
        }
        void enqueue(int k, int arg, bool noDup)
        {
            for (int s : ev[k].slots)
                if (noDup || sl[s].stateless) { bool f = false; for (auto& q : qs) if (q.slot == s && q.event == k) { q.arg = arg; f = true; } if (!f) qs.push_back({ s, k, arg }); }
                else qm.push_back({ s, k, arg });
        }
        neolib::trigger_result fire(int k, int arg)
        {
            if (k % 3 == 0) return r.chance(1, 2) ? e0[k]->trigger() : (*e0[k])();
            if (k % 3 == 1) return r.chance(1, 2) ? e1[k]->trigger(arg) : (*e1[k])(arg);
            return e2[k]->trigger(arg, "t" + std::to_string(arg));
        }
        void fire_async(int k, int arg) { if (k % 3 == 0) e0[k]->async_trigger(); else if (k % 3 == 1) e1[k]->async_trigger(arg); else e2[k]->async_trigger(arg, "t" + std::to_string(arg)); }
        void trigger(int k)
        {
            int arg = k % 3 == 0 ? 0 : static_cast<int>(r.below(1000)); auto& e = ev[k];
            bool async = r.chance(1, 4) || e.type == neolib::trigger_type::Asynchronous || e.type == neolib::trigger_type::AsynchronousDontQueue;
            say(vf::cat(async ? "async e" : "sync e", k, "(", arg, ")"));
            if (async)
            {
                enqueue(k, arg, e.type == neolib::trigger_type::AsynchronousDontQueue);
                if (e.type == neolib::trigger_type::Asynchronous || e.type == neolib::trigger_type::AsynchronousDontQueue) { if (fire(k, arg) != neolib::trigger_result::Unknown) vf::fail("events:result", "async trigger" + log); }
                else fire_async(k, arg);
                return;
            }
            op o{ false, k, arg, e.slots }; auto d = ops.size(); ops.push_back(o);
            neolib::trigger_result res;
            try { res = fire(k, arg); } catch (...) { ops.resize(d); throw; }
            auto done = ops.back(); ops.resize(d); say("=" + std::to_string(static_cast<int>(res)));
            finish(done);
            auto want = done.accepted && !done.dead ? neolib::trigger_result::Accepted : neolib::trigger_result::Unaccepted;
            if (res != want) vf::fail("events:result", vf::cat("got ", static_cast<int>(res), " want ", static_cast<int>(want), log));
            if (neolib::event_consumed(res) != (want == neolib::trigger_result::Accepted)) vf::fail("events:consumed", log);
        }
        void pump()
        {
            say("pump"); op o{ true }; o.multiple = qm; o.single = qs; qm.clear(); qs.clear(); auto d = ops.size(); ops.push_back(o); auto before = calls;
            bool any;
            try { any = neolib::async_event_queue::instance().pump_events(); }
            catch (...)
            {   // what the interrupted pump did not deliver is still to come, ahead of anything newer
                if (!stop)
                {
                    auto rest = ops[d]; ops.resize(d); std::deque<queued> keep;
                    for (auto& q : rest.multiple) keep.push_back(q);
                    for (auto& q : qm) keep.push_back(q); qm = keep;
                    for (auto& q : rest.single) { bool newer = false; for (auto& x : qs) newer |= x.slot == q.slot; if (!newer) qs.push_back(q); }
                }
                throw;
            }
            auto done = ops.back(); ops.resize(d); finish(done);
            if (any != (calls != before)) { /* nested pumps and triggers call slots too */ if (!any && calls != before) vf::fail("events:pump-result", log); if (any && calls == before) vf::fail("events:pump-result", log); }
        }
        void subscribe(int k)
        {
            int s = static_cast<int>(sl.size()); sl.push_back({ k }); bool prio = r.chance(1, 5), emitter = r.chance(1, 4), stateless = r.chance(1, 4); sl[s].stateless = stateless;
            auto token = std::make_shared<int>(s); tokens.push_back(token);
            auto take = [&](auto&& proxy)
            {
                if (emitter) ~proxy; if (stateless) !proxy;
                int h = static_cast<int>(r.below(NS + 1));
                if (h == NS) { say("unheld"); return; } say(vf::cat("k", h));
                if (r.chance(1, 3)) { drop_sink(h); *sinks[h] = std::move(proxy); } else *sinks[h] += std::move(proxy);
                held[h].push_back(s);
            };
            say(vf::cat("sub e", k, "->s", s, prio ? "!" : ""));
            if (prio) ev[k].slots.insert(ev[k].slots.begin(), s); else ev[k].slots.push_back(s);
            if (k % 3 == 0) take((*e0[k])([this, s, token]() { called(s, 0, nullptr); }, prio));
            else if (k % 3 == 1) take((*e1[k])([this, s, token](int a) { called(s, a, nullptr); }, prio));
            else take((*e2[k])([this, s, token](int a, std::string t) { called(s, a, &t); }, prio));
        }
        void gone(int s) { if (sl[s].gone) return; sl[s].gone = true; for (auto& e : ev) std::erase(e.slots, s); }
        void drop_sink(int h) { for (int s : held[h]) gone(s); held[h].clear(); }
        void destroy(int k)
        {
            say(vf::cat("destroy e", k)); ev[k].alive = false;
            for (auto& o : ops) if (!o.pump && o.event == k) o.dead = true;
            e0[k].reset(); e1[k].reset(); e2[k].reset();
        }
        void step(int from)
        {
            --budget; int k = static_cast<int>(r.below(NE)); if (from >= 0 && r.chance(1, 3)) k = from;
            auto what = r.below(100);
            if (!ev[k].alive) { if (from < 0) { int n = k; // a new event may take the old one's storage: its slots are no longer anybody's
                    for (std::size_t s = 0; s < sl.size(); ++s) if (sl[s].event == n) { sl[s].gone = true; } make(n); say(vf::cat("new e", n)); } return; }
            if (what < 30) subscribe(k);
            else if (what < 60) trigger(k);
            else if (what < 70) pump();
            else if (what < 78) { int h = static_cast<int>(r.below(NS)); say(vf::cat("clear k", h)); drop_sink(h); if (r.chance(1, 2)) sinks[h]->clear(); else sinks[h] = std::make_unique<neolib::sink>(); if (!sinks[h]->empty()) vf::fail("events:sink-empty", log); }
            else if (what < 82) { int a = static_cast<int>(r.below(NS)), b = static_cast<int>(r.below(NS)); if (a == b) return; say(vf::cat("copy k", b, "->k", a)); drop_sink(a); held[a] = held[b]; if (r.chance(1, 2)) *sinks[a] = *sinks[b]; else { sinks[a]->clear(); sinks[a] = std::make_unique<neolib::sink>(*sinks[b]); } }
            else if (what < 90)
            {   // the slot being run accepts the event
                say(vf::cat("accept e", k)); with(k, [](auto& e) { e.accept(); });
                for (auto o = ops.rbegin(); o != ops.rend(); ++o) if (!o->pump && o->event == k && !o->dead) { o->accepted = true; ++accepts; break; }
            }
            else if (what < 94) { if (!active(k)) { auto t = r.pick({ neolib::trigger_type::Synchronous, neolib::trigger_type::SynchronousDontQueue, neolib::trigger_type::Asynchronous, neolib::trigger_type::AsynchronousDontQueue, neolib::trigger_type::Synchronous }); ev[k].type = t; with(k, [&](auto& e) { e.set_trigger_type(t); if (e.trigger_type() != t) vf::fail("events:trigger_type", log); }); say(vf::cat("type e", k, "=", static_cast<int>(t))); } }
            else if (what < 97) destroy(k);
            else if (ops.empty())
            {
                for (auto& q : qm) if (q.event == k) return; for (auto& q : qs) if (q.event == k) return;
                int j = (k + 3) % NE; if (j % 3 != k % 3 || !ev[j].alive || j == k) return;
                say(vf::cat("assign e", k, "=e", j)); for (std::size_t s = 0; s < sl.size(); ++s) if (sl[s].event == k && !sl[s].gone) sl[s].gone = true;
                if (k % 3 == 0) *e0[k] = *e0[j]; else if (k % 3 == 1) *e1[k] = *e1[j]; else *e2[k] = *e2[j];
                ev[k].slots.clear(); ev[k].type = ev[j].type;
            }
            if (ops.empty() && qm.empty() && qs.empty()) for (std::size_t s = 0; s < sl.size(); ++s) if (sl[s].gone && !tokens[s].expired()) { bool in = false; for (auto& h : held) for (int x : h) in |= x == static_cast<int>(s); if (!in) vf::fail("events:slot-kept-after-unsubscribe", vf::cat("slot ", s, log)); }
            if (ev[k].alive) { bool has = with(k, [](auto& e) { return e.has_slots(); }); if (has != !ev[k].slots.empty()) vf::fail("events:has_slots", vf::cat("e", k, log)); }
        }
    };

    void single_history(vf::rng& r)
    {
        world w{ r }; w.budget = static_cast<int>(10 + r.below(120));
        while (w.budget > 0 && !w.stop)
        {
            try { w.step(-1); }
            catch (boom const&) { w.ops.clear(); w.depth = 0; }
        }
        vf::count("callbacks", w.calls); vf::count("accepted", w.accepts); vf::count("callbacks-that-threw", w.throws); vf::count("nested-operations", w.nested); vf::count("skipped-unsubscribed", w.skipped);
        vf::distinct(vf::hash(w.log)); vf::sample(w.log); if (w.calls == 0) vf::trivial();
    }
}

#ifndef VF_THREADS
VF_SCENARIO(single_thread, 8) { single_history(r); }
#else
namespace
{
    [[maybe_unused]] bool const gOpts = (vf::opts().wallSeconds = 60, true);
    constexpr int SEQ = 1 << 16;
    struct gate { std::mutex m; std::condition_variable c; int n; explicit gate(int n) : n{ n } {} void arrive() { std::unique_lock l{ m }; if (--n == 0) c.notify_all(); else c.wait(l, [&] { return n <= 0; }); } };
    void jitter(vf::rng& r) { auto k = r.below(40); if (k == 0) std::this_thread::sleep_for(std::chrono::microseconds(r.below(80))); else if (k < 8) std::this_thread::yield(); }
    void strategy(vf::rng& r)
    {
        using s = neolib::event_system_locking_strategy;
        neolib::service<neolib::i_event_system>().set_locking_strategy(r.pick({ s::MultiThreaded, s::MultiThreaded, s::MultiThreadedProfiled, s::MultiThreadedSpinlock }));
    }

    // fixed subscribers on their own threads, several emitters: exactly once, in each emitter's order, on the right thread
    void fanout(vf::rng& r)
    {
        strategy(r); int W = 1 + static_cast<int>(r.below(3)), M = 1 + static_cast<int>(r.below(3)), N = 20 + static_cast<int>(r.below(150)), E = 1 + static_cast<int>(r.below(2));
        bool accepting = r.chance(1, 2), asyncType = r.chance(1, 4) && !accepting, dont = r.chance(1, 4) && !accepting;
        std::vector<std::unique_ptr<ev2>> ev; for (int k = 0; k < E; ++k) { ev.push_back(std::make_unique<ev2>()); if (asyncType) ev[k]->set_trigger_type(dont ? neolib::trigger_type::AsynchronousDontQueue : neolib::trigger_type::Asynchronous); else if (dont) ev[k]->set_trigger_type(neolib::trigger_type::SynchronousDontQueue); }
        struct got { int slot, event, id; std::thread::id on; bool coalesced; };
        std::atomic<bool> done{ false }; gate ready{ W + M + 1 }, begin{ W + M + 1 };
        std::vector<std::vector<got>> seen(W); std::vector<std::thread> ts; std::vector<vf::u64> seeds; for (int i = 0; i < W + M; ++i) seeds.push_back(r.next());
        std::atomic<vf::u64> total{ 0 }, bad{ 0 }; std::mutex badMutex; std::string badText; auto complain = [&](std::string const& s) { std::lock_guard l{ badMutex }; if (bad++ == 0) badText = s; };
        neolib::sink emitterSinks; std::vector<std::vector<std::vector<int>>> direct(M, std::vector<std::vector<int>>(E)); std::vector<std::thread::id> ids(M);
        for (int k = 0; k < E; ++k) emitterSinks += ~(*ev[k])([&, k](int id, std::string const& t)
        {   // called on whichever thread emits
            auto m = id / SEQ; if (std::this_thread::get_id() != ids[m]) complain("emitter-thread slot on another thread"); if (t != std::to_string(id)) complain("argument " + t);
            direct[m][k].push_back(id); if (accepting && id % 3 == 0) ev[k]->accept();
        }, true);
        for (int w = 0; w < W; ++w) ts.emplace_back([&, w]
        {
            vf::rng rr{ seeds[w] }; auto& queue = neolib::async_event_queue::instance(); std::vector<std::unique_ptr<neolib::sink>> sinks; auto me = std::this_thread::get_id();
            for (int k = 0; k < E; ++k) for (int s = 0; s < 2; ++s)
            {
                sinks.push_back(std::make_unique<neolib::sink>()); bool coalesce = s == 1; auto f = [&, k, s, coalesce](int id, std::string const& t) { if (t != std::to_string(id)) complain("argument " + t); seen[w].push_back({ s, k, id, std::this_thread::get_id(), coalesce }); if (std::this_thread::get_id() != me) complain("slot on another thread"); };
                if (coalesce) *sinks.back() = !(*ev[k])(f); else *sinks.back() = (*ev[k])(f);
            }
            ready.arrive(); begin.arrive();
            while (!done) { queue.pump_events(); jitter(rr); }
            while (queue.pump_events()) {}
            sinks.clear();
        });
        for (int m = 0; m < M; ++m) ts.emplace_back([&, m]
        {
            vf::rng rr{ seeds[W + m] }; ids[m] = std::this_thread::get_id(); (void)neolib::async_event_queue::instance(); ready.arrive(); begin.arrive();
            for (int n = 0; n < N; ++n) for (int k = 0; k < E; ++k)
            {
                int id = m * SEQ + n; auto res = ev[k]->trigger(id, std::to_string(id));
                auto want = asyncType ? neolib::trigger_result::Unknown : accepting && id % 3 == 0 ? neolib::trigger_result::Accepted : neolib::trigger_result::Unaccepted;
                if (res != want) complain(vf::cat("trigger ", n, " of emitter ", m, " gave ", static_cast<int>(res), " want ", static_cast<int>(want)));
                jitter(rr);
            }
            while (neolib::async_event_queue::instance().pump_events()) {}
        });
        ready.arrive(); begin.arrive();
        for (int m = 0; m < M; ++m) ts[W + m].join();
        done = true; for (int w = 0; w < W; ++w) ts[w].join();
        emitterSinks.clear();
        auto desc = vf::cat(" W", W, " M", M, " N", N, " E", E, accepting ? " accepting" : "", asyncType ? " async" : "", dont ? " no-dup" : "");
        if (bad) vf::fail("events:threads", badText + desc);
        for (int m = 0; m < M; ++m) for (int k = 0; k < E; ++k)
        {   // the emitter's own slot
            int prev = -1; std::size_t n = direct[m][k].size(); for (int id : direct[m][k]) { if (id <= prev) vf::fail("events:threads-order", "emitter slot" + desc); prev = id; }
            bool coalesced = dont && asyncType; if (coalesced ? (n == 0 || direct[m][k].back() != m * SEQ + N - 1) : n != static_cast<std::size_t>(N)) vf::fail("events:threads-count", vf::cat("emitter slot saw ", n, desc));
        }
        vf::u64 h = 0;
        for (int w = 0; w < W; ++w)
        {
            for (int k = 0; k < E; ++k) for (int s = 0; s < 2; ++s)
            {
                std::vector<std::vector<int>> by(M); int lastId = -1; for (auto& g : seen[w]) if (g.slot == s && g.event == k) { by[g.id / SEQ].push_back(g.id % SEQ); lastId = g.id; }
                bool coalesced = s == 1 || dont;
                for (int m = 0; m < M; ++m)
                {
                    for (std::size_t i = 1; i < by[m].size(); ++i) if (by[m][i] <= by[m][i - 1]) vf::fail(by[m][i] == by[m][i - 1] ? "events:threads-twice" : "events:threads-order", vf::cat("worker ", w, " emitter ", m, " ", by[m][i - 1], " then ", by[m][i], desc));
                    if (accepting) for (int n : by[m]) if ((m * SEQ + n) % 3 == 0) vf::fail("events:threads-accepted-delivered", desc);
                    int want = 0; for (int n = 0; n < N; ++n) if (!(accepting && (m * SEQ + n) % 3 == 0)) ++want;
                    if (!coalesced && by[m].size() != static_cast<std::size_t>(want)) vf::fail("events:threads-count", vf::cat("worker ", w, " slot ", s, " saw ", by[m].size(), " of ", want, " from emitter ", m, desc));
                    total += by[m].size();
                }
                if (coalesced)
                {   // the last event of all is delivered: it is some emitter's last
                    int lastN = -1; for (int n = 0; n < N; ++n) if (lastId >= 0 && !(accepting && ((lastId / SEQ) * SEQ + n) % 3 == 0)) lastN = n;
                    if (lastId < 0 || lastId % SEQ != lastN) vf::fail("events:threads-latest-lost", vf::cat("worker ", w, " saw ", lastId, " last", desc));
                }
            }
            std::string order; for (auto& g : seen[w]) order += vf::cat(g.event, g.slot, '.', g.id, ' '); h ^= vf::hash(order, w + 1);
        }
        vf::count("cross-thread-deliveries", total); vf::distinct(h); vf::sample(desc);
    }
    // subscriptions come and go while other threads emit
    void churn(vf::rng& r)
    {
        strategy(r); int W = 1 + static_cast<int>(r.below(3)), N = 100 + static_cast<int>(r.below(300)); ev1 ev; std::atomic<int> started{ -1 }, finished{ -1 }; std::atomic<bool> done{ false };
        std::atomic<vf::u64> total{ 0 }, bad{ 0 }, subs{ 0 }; std::mutex badMutex; std::string badText; auto complain = [&](std::string const& s) { std::lock_guard l{ badMutex }; if (bad++ == 0) badText = s; };
        gate ready{ W + 2 }; std::vector<std::thread> ts; std::vector<vf::u64> seeds; for (int i = 0; i <= W; ++i) seeds.push_back(r.next());
        for (int w = 0; w < W; ++w) ts.emplace_back([&, w]
        {
            vf::rng rr{ seeds[w] }; auto& queue = neolib::async_event_queue::instance(); ready.arrive(); auto me = std::this_thread::get_id();
            while (!done)
            {
                struct receiver { std::vector<int> ids; bool live = true; }; auto rec = std::make_unique<receiver>(); auto* raw = rec.get();
                auto sink = std::make_unique<neolib::sink>();
                auto f = [raw, me, &complain](int id) { if (std::this_thread::get_id() != me) complain("slot on another thread"); if (!raw->live) complain("called after unsubscribe"); raw->ids.push_back(id); };
                *sink = ev(f, rr.chance(1, 4)); int from = started.load(); ++subs;
                for (int n = static_cast<int>(rr.below(6)); n >= 0; --n) { queue.pump_events(); jitter(rr); }
                int to = finished.load(); if (rr.chance(3, 4)) queue.pump_events(); else to = -1;
                if (rr.chance(1, 2)) sink->clear(); sink.reset(); raw->live = false;
                int prev = -1; for (int id : raw->ids) { if (id <= prev) complain(vf::cat("delivered ", id, " after ", prev)); prev = id; }
                std::size_t need = to > from ? static_cast<std::size_t>(to - from) : 0, have = 0; for (int id : raw->ids) if (id > from && id <= to) ++have;
                if (have != need) complain(vf::cat("subscribed through (", from, ",", to, "] but received ", have));
                total += raw->ids.size(); rec.reset();   // any later call of the slot would touch freed memory
                if (rr.chance(1, 2)) queue.pump_events();
                jitter(rr);
            }
            while (queue.pump_events()) {}
        });
        ts.emplace_back([&] { vf::rng rr{ seeds[W] }; ready.arrive(); for (int n = 0; n < N; ++n) { started = n; ev.trigger(n); finished = n; jitter(rr); } done = true; });
        ready.arrive(); for (auto& t : ts) t.join();
        if (bad) vf::fail("events:churn", vf::cat(badText, " W", W, " N", N));
        if (ev.has_slots()) vf::fail("events:churn-left", "slots remain");
        vf::count("cross-thread-deliveries", total); vf::count("subscriptions-churned", subs); vf::distinct(vf::hash(vf::cat(total, ' ', subs, ' ', N, ' ', W)));
    }
    // threads (and their queues) come and go while others emit to queues that stay
    void threads_come_and_go(vf::rng& r)
    {
        strategy(r); ev1 ev; std::atomic<bool> done{ false }; std::atomic<int> got{ 0 }; gate ready{ 3 }; int N = 50 + static_cast<int>(r.below(150)); auto s1 = r.next();
        std::thread stay{ [&] { auto& q = neolib::async_event_queue::instance(); neolib::sink s; s = ev([&](int) { ++got; }); ready.arrive(); while (!done) { q.pump_events(); std::this_thread::yield(); } while (q.pump_events()) {} } };
        std::thread emit{ [&] { vf::rng rr{ s1 }; ready.arrive(); for (int n = 0; n < N; ++n) { ev.trigger(n); jitter(rr); } } };
        ready.arrive(); int born = 0;
        for (int n = 0; n < 20; ++n) { std::thread t{ [&] { neolib::event<int> own; int x = 0; auto& q = neolib::async_event_queue::instance(); neolib::sink s; s = own([&](int v) { x += v; }); own.async_trigger(7); q.pump_events(); if (x != 7 || &q != &neolib::async_event_queue::instance(std::this_thread::get_id())) vf::record("events:own-queue", "a thread's own queue does not work"); } }; ++born; t.join(); }
        emit.join(); done = true; stay.join();
        if (got != N) vf::fail("events:threads-count", vf::cat("got ", got, " of ", N)); vf::count("threads-born", born); vf::distinct(vf::hash(vf::cat(N)));
    }
}
VF_SCENARIO(fanout, 4) { fanout(r); }
VF_SCENARIO(churn, 4) { churn(r); }
VF_SCENARIO(threads, 1) { threads_come_and_go(r); }
#endif
VF_MAIN
