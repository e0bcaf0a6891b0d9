// C23: a thread pool runs every task exactly once, and waiting for it means what it says; threads start, end and cancel once.
#include "vf.hpp"
#include <neolib/neolib.hpp>
#include <neolib/task/thread.hpp>
#include <neolib/task/thread_pool.hpp>
#include <list>
#include <deque>
#include <condition_variable>

// the count of an exception_ptr lives in the uninstrumented libstdc++, so TSan does not see it order the last release
extern "C" const char* __tsan_default_suppressions() { return "race:std::__exception_ptr::exception_ptr::_M_release\n"; }

namespace
{
    [[maybe_unused]] bool const gOpts = (vf::opts().wallSeconds = 60, true);
    struct gate { std::mutex m; std::condition_variable c; bool open = false; int inside = 0; void pass() { std::unique_lock l{ m }; ++inside; c.notify_all(); c.wait(l, [&] { return open; }); } void release() { std::lock_guard l{ m }; open = true; c.notify_all(); } void await(int n) { std::unique_lock l{ m }; c.wait(l, [&] { return inside >= n; }); } };
    struct oops { int n; };
    void jitter(vf::rng& r) { auto k = r.below(30); if (k == 0) std::this_thread::sleep_for(std::chrono::microseconds(r.below(100))); else if (k < 6) std::this_thread::yield(); }
    std::mutex gTextMutex; std::string gText; std::atomic<vf::u64> gBad{ 0 };
    void complain(std::string const& s) { std::lock_guard l{ gTextMutex }; if (gBad++ == 0) gText = s; }
    void verdict(char const* key, std::string const& what) { if (gBad) { gBad = 0; vf::fail(key, gText + what); } }

    struct counted_task : neolib::task<>
    {
        std::atomic<int> runs{ 0 }; std::function<void()> f; std::atomic<int>* destroyed = nullptr;
        explicit counted_task(std::function<void()> f) : neolib::task<>{ "counted" }, f{ f } {}
        ~counted_task() { if (destroyed) ++*destroyed; }
        void run(neolib::yield_type) override { ++runs; f(); }
    };
    // any number of producers, tasks that make tasks, waiters, priorities, cancellations, failures
    void stress(vf::rng& r)
    {
        auto pool = std::make_unique<neolib::thread_pool>(); if (r.chance(1, 4)) pool->reserve(pool->max_threads() + r.below(4));
        int P = 1 + static_cast<int>(r.below(4)), N = 5 + static_cast<int>(r.below(60)); bool waits = r.chance(2, 3), destroyBusy = r.chance(1, 3); int rounds = 1 + static_cast<int>(r.below(3));
        struct item { std::atomic<int> runs{ 0 }; }; std::vector<std::vector<std::deque<item>>> items(P); std::atomic<int> destroyed{ 0 }; std::atomic<vf::u64> executed{ 0 }, children{ 0 }, childrenRun{ 0 }, cancelled{ 0 }, failures{ 0 }; int owned = 0; std::mutex ownedMutex;
        std::vector<vf::u64> seeds; for (int p = 0; p < P; ++p) seeds.push_back(r.next());
        std::vector<std::thread> ts; std::vector<std::vector<std::shared_ptr<counted_task>>> borrowed(P);
        for (int p = 0; p < P; ++p) { items[p].resize(rounds); for (auto& d : items[p]) d.resize(N); }
        for (int p = 0; p < P; ++p) ts.emplace_back([&, p]
        {
            vf::rng rr{ seeds[p] };
            for (int round = 0; round < rounds; ++round)
            {
                struct pending { std::future<int> f; int want; bool throws; }; std::vector<pending> futures; std::vector<std::future<void>> voids; std::vector<std::shared_ptr<counted_task>> tasks; std::vector<bool> maybe(N, false);
                for (int n = 0; n < N; ++n)
                {
                    auto& it = items[p][round][n]; int prio = static_cast<int>(rr.below(5)) - 2; auto spin = rr.below(200); bool child = rr.chance(1, 8) && !destroyBusy;
                    auto body = [&, spin, child] { ++it.runs; for (vf::u64 k = 0; k < spin; ++k) { [[maybe_unused]] volatile vf::u64 x = k; } ++executed; if (child) { ++children; pool->run([&] { ++childrenRun; }); } };
                    switch (rr.below(6))
                    {
                    case 0: { bool t = rr.chance(1, 4); auto x = pool->run<int>([&, body, n, t]() -> int { body(); if (t) { ++failures; throw oops{ n }; } return n * 3; }, prio); if (!x.first.valid() || !x.second) complain("run gave no future"); else futures.push_back({ std::move(x.first), t ? n : n * 3, t }); break; }
                    case 1: { auto x = pool->run(body, prio); if (!x.first.valid()) complain("run gave no future"); else voids.push_back(std::move(x.first)); break; }
                    case 2: { auto t = std::make_shared<counted_task>(body); t->destroyed = &destroyed; { std::lock_guard l{ ownedMutex }; ++owned; } pool->start(t, prio); break; }
                    case 3: { auto t = std::make_shared<counted_task>(body); borrowed[p].push_back(t); pool->start(*t, prio); tasks.push_back(t); break; }
                    case 4: { auto t = std::make_shared<counted_task>(body); borrowed[p].push_back(t); if (!(rr.chance(1, 2) ? pool->try_start(*t, prio) : pool->try_start(neolib::thread_pool::task_pointer{ t }, prio))) { ++it.runs; ++executed; } break; }
                    case 5: { auto t = std::make_shared<counted_task>(body); t->cancel(); ++cancelled; borrowed[p].push_back(t); pool->start(*t, prio); if (t->name() != "counted") complain("name"); ++it.runs; ++executed; t->f = [] { complain("a cancelled task was run"); }; break; }
                    }
                    jitter(rr);
                }
                for (auto& f : futures) { try { int v = f.f.get(); if (f.throws) complain("an exception was lost"); else if (v != f.want) complain("a future holds the wrong value"); } catch (oops const& o) { if (!f.throws || o.n != f.want) complain("wrong exception"); } }
                if (rr.chance(1, 2)) for (auto& v : voids) v.get();
                if (waits) { pool->wait(); for (int n = 0; n < N; ++n) if (items[p][round][n].runs != 1) complain(vf::cat("after wait, task ", n, " had run ", items[p][round][n].runs.load(), " times")); }
                if (pool->active_threads() > pool->total_threads()) complain("more active threads than threads");
            }
        });
        std::vector<std::thread> waiters; for (int k = static_cast<int>(r.below(3)); k > 0; --k) waiters.emplace_back([&] { pool->wait(); });
        for (auto& t : ts) t.join();
        if (!destroyBusy) { pool->wait(); if (!pool->idle() || pool->busy() || pool->active_threads() != 0 || pool->available_threads() != pool->max_threads()) complain("not idle after wait"); }
        for (auto& w : waiters) w.join();
        auto threads = pool->total_threads(); if (threads < pool->max_threads()) complain("threads missing");
        pool.reset();
        for (auto& a : items) for (auto& b : a) for (auto& i : b) if (i.runs != 1) complain(vf::cat("a task ran ", i.runs.load(), " times"));
        if (children != childrenRun) complain(vf::cat(children.load(), " child tasks, ", childrenRun.load(), " run"));
        if (destroyed != owned) complain(vf::cat("owned tasks ", owned, " destroyed ", destroyed.load()));
        verdict("pool:stress", vf::cat(" P", P, " N", N, " rounds", rounds, waits ? " waits" : ""));
        vf::count("tasks-executed", executed); vf::count("child-tasks", children); vf::count("tasks-cancelled", cancelled); vf::count("tasks-failed", failures);
        vf::distinct(vf::hash(vf::cat(P, ' ', N, ' ', rounds, ' ', executed.load(), ' ', children.load(), ' ', seeds[0])));
    }
    // one free thread takes the waiting tasks highest priority first, equal ones in order
    void priorities(vf::rng& r)
    {
        neolib::thread_pool pool; int T = static_cast<int>(pool.max_threads()); std::vector<std::unique_ptr<gate>> gates; for (int t = 0; t < T; ++t) { gates.push_back(std::make_unique<gate>()); pool.run([&, t] { gates[t]->pass(); }); gates[t]->await(1); }
        if (pool.available_threads() != 0 || pool.active_threads() != static_cast<std::size_t>(T) || pool.idle()) vf::fail("pool:busy", "every thread is blocked");
        counted_task never{ [] {} }; if (pool.try_start(never)) vf::fail("pool:try_start", "started with no thread available");
        int N = 1 + static_cast<int>(r.below(40)); std::vector<std::pair<int, int>> want; std::mutex m; std::vector<int> got; std::vector<std::future<void>> fs; int span = 1 + static_cast<int>(r.below(6));
        for (int n = 0; n < N; ++n) { int p = static_cast<int>(r.below(span)) - span / 2; want.emplace_back(p, n); fs.push_back(pool.run([&, n] { std::lock_guard l{ m }; got.push_back(n); }, p).first); }
        std::stable_sort(want.begin(), want.end(), [](auto& a, auto& b) { return a.first > b.first; });
        int freed = static_cast<int>(r.below(T)); gates[freed]->release(); for (auto& f : fs) f.get();
        for (auto& g : gates) g->release(); pool.wait();
        std::string order; for (auto& w : want) order += vf::cat(w.second, ' '); std::string o2; for (int g : got) o2 += vf::cat(g, ' ');
        if (order != o2) vf::fail("pool:priority", vf::cat("ran ", o2, " want ", order)); if (never.runs) vf::fail("pool:try_start", "ran");
        vf::count("priority-orders-checked"); vf::distinct(vf::hash(vf::cat(order, freed)));
    }
    // stopping: nothing runs twice or after the stop, everyone waiting comes back
    void stopping(vf::rng& r)
    {
        auto pool = std::make_unique<neolib::thread_pool>(); int N = 1 + static_cast<int>(r.below(200)); std::deque<std::atomic<int>> runs(N); std::vector<std::future<void>> fs; std::atomic<bool> stopped{ false };
        for (int n = 0; n < N; ++n) fs.push_back(pool->run([&, n] { ++runs[n]; if (stopped) complain("a task ran after stop returned"); if (n % 16 == 0) std::this_thread::sleep_for(std::chrono::microseconds(100)); }).first);
        std::vector<std::thread> waiters; for (int k = static_cast<int>(r.below(4)); k > 0; --k) waiters.emplace_back([&] { pool->wait(); });
        jitter(r); pool->stop(); stopped = true; if (!pool->stopped()) complain("not stopped"); pool->wait(); for (auto& w : waiters) w.join();
        auto late = pool->run([&] { complain("ran on a stopped pool"); }); if (late.first.valid()) complain("a stopped pool accepted a task");
        counted_task t{ [] { complain("ran on a stopped pool"); } }; if (pool->try_start(t)) complain("a stopped pool accepted a task"); pool->start(t); pool->stop();
        pool.reset(); vf::u64 ran = 0;
        for (int n = 0; n < N; ++n)
        {
            if (runs[n] > 1) complain("a task ran twice"); ran += runs[n];
            try { fs[n].get(); if (runs[n] != 1) complain("a future was satisfied by nothing"); } catch (std::future_error const&) { if (runs[n] != 0) complain("a task that ran broke its promise"); }
        }
        verdict("pool:stop", vf::cat(" N", N)); vf::count("stopped-pools"); vf::count("tasks-executed", ran); vf::distinct(vf::hash(vf::cat(N, ' ', ran)));
    }
    // stopping a pool that has more work than threads, with others inside wait(): all of them come back
    void stopping_full(vf::rng& r)
    {
        auto pool = std::make_unique<neolib::thread_pool>(); int T = static_cast<int>(pool->max_threads()); std::vector<std::unique_ptr<gate>> gates; for (int t = 0; t < T; ++t) { gates.push_back(std::make_unique<gate>()); pool->run([&, t] { gates[t]->pass(); }); gates[t]->await(1); }
        int N = 1 + static_cast<int>(r.below(6)), W = 1 + static_cast<int>(r.below(3)); std::deque<std::atomic<int>> runs(N); std::vector<std::future<void>> fs; for (int n = 0; n < N; ++n) fs.push_back(pool->run([&, n] { ++runs[n]; }, static_cast<int>(r.below(3))).first);
        std::atomic<int> back{ 0 }; std::vector<std::thread> waiters; for (int k = 0; k < W; ++k) waiters.emplace_back([&] { pool->wait(); ++back; });
        if (r.chance(3, 4)) std::this_thread::sleep_for(std::chrono::milliseconds(1 + r.below(3))); if (back != 0) complain("wait returned with every thread busy");
        std::atomic<bool> stopped{ false }; std::thread stopper{ [&] { pool->stop(); stopped = true; } };
        std::vector<int> order(T); for (int t = 0; t < T; ++t) order[t] = t; if (r.chance(1, 2)) for (int t = T - 1; t > 0; --t) std::swap(order[t], order[r.below(t + 1)]);
        for (int t : order) { if (r.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(1500))); gates[t]->release(); }
        stopper.join(); std::vector<int> ran; for (auto& n : runs) ran.push_back(n);
        for (auto& w : waiters) w.join(); pool.reset(); vf::u64 total = 0;
        for (int n = 0; n < N; ++n) { if (runs[n] != ran[n]) complain("a task ran after stop returned"); if (runs[n] > 1) complain("a task ran twice"); total += runs[n]; try { fs[n].get(); if (runs[n] != 1) complain("a future was satisfied by nothing"); } catch (std::future_error const&) { if (runs[n] != 0) complain("a task that ran broke its promise"); } }
        verdict("pool:stop-full", vf::cat(" N", N, " W", W)); vf::count("stopped-pools"); vf::count("tasks-executed", total); vf::count("waiters-across-stop", W); vf::distinct(vf::hash(vf::cat(N, ' ', W, ' ', total, ' ', order[0], order[T - 1])));
    }
    template <typename C> void apply_one(vf::rng& r, neolib::thread_pool& pool)
    {
        C c; int n = static_cast<int>(r.size(20, 3000, 30)); for (int k = 0; k < n; ++k) c.push_back(k); std::size_t minimum = r.pick({ 0, 1, 2, 10, 4000 });
        std::deque<std::atomic<int>> seen(n); neolib::parallel_apply(pool, c, std::function<void(int&)>{ [&](int& x) { ++seen[x]; x = -x - 1; } }, minimum);
        int k = 0; for (int x : c) { if (x != -k - 1 || seen[k] != 1) vf::fail("pool:parallel_apply", vf::cat("element ", k, " of ", n, " visited ", seen[k].load(), " times, minimum ", minimum)); ++k; }
        vf::count("elements-applied", n); vf::distinct(vf::hash(vf::cat(n, ' ', minimum, ' ', typeid(C).name())));
    }
    void apply(vf::rng& r) { static neolib::thread_pool& pool = *new neolib::thread_pool; for (int k = 0; k < 5; ++k) { if (r.chance(1, 2)) apply_one<std::vector<int>>(r, pool); else apply_one<std::list<int>>(r, pool); } }

    // life of a single thread
    struct my_thread : neolib::thread
    {
        std::function<void(my_thread&)> f; std::atomic<int> preambles{ 0 };
        explicit my_thread(std::function<void(my_thread&)> f) : neolib::thread{ "mine" }, f{ f } {}
        ~my_thread() { if (started() && !finished()) abort(); }
        void exec_preamble() override { ++preambles; }
        void exec(neolib::yield_type) override { f(*this); }
    };
    template <typename E, typename F> bool throws(F&& f) { try { f(); } catch (E const&) { return true; } return false; }
    struct no_messages : neolib::i_message_queue { bool have_message() const override { return false; } int get_message() const override { return 0; } void bump() override {} bool in_idle() const override { return false; } void idle() override {} };
    void lives(vf::rng& r)
    {
        auto how = r.below(8); auto desc = vf::cat(" way ", how); std::atomic<int> ran{ 0 }, after{ 0 }; std::thread::id on; gate g; 
        if (how == 0)
        {
            neolib::thread t{ [&] { ++ran; on = std::this_thread::get_id(); jitter(r); }, "a name" };
            if (t.name() != "a name" || t.started() || t.running() || t.finished() || t.state() != neolib::thread_state::ReadyToStart || t.has_thread_object()) vf::fail("thread:new", desc);
            if (!throws<neolib::thread::thread_not_started>([&] { t.wait(); }) || !throws<neolib::thread::thread_not_started>([&] { t.in(); }) || !throws<neolib::thread::no_thread_object>([&] { t.thread_object(); })) vf::fail("thread:not-started", desc);
            t.start(); if (!throws<neolib::thread::thread_already_started>([&] { t.start(); })) vf::fail("thread:started-twice", desc);
            t.wait(); if (ran != 1 || !t.finished() || t.running() || !t.started() || t.state() != neolib::thread_state::Finished || t.id() != on || t.in() || t.aborted() || t.cancelled() || t.error()) vf::fail("thread:finished", desc);
        }
        else if (how == 1)
        {   // a thread cancelled from inside ends there, and only it
            my_thread t{ [&](my_thread& me) { ++ran; if (!me.in() || !me.running()) complain("in()"); if (!throws<neolib::thread::cannot_wait_on_self>([&] { me.wait(); })) complain("waited on self"); if (r.chance(1, 2)) me.cancel(); else me.abort(); ++after; } };
            t.start(); t.wait(); if (ran != 1 || after != 0 || t.preambles != 1 || !t.finished() || !t.cancelled()) vf::fail("thread:cancel-self", vf::cat("after ", after.load(), desc));
        }
        else if (how == 2)
        {   // aborting a running thread: it is told at its next blocking point, and abort waits for it
            my_thread t{ [&](my_thread& me) { ++ran; g.pass(); for (;;) { me.block(); if (!me.blocked()) complain("blocked()"); me.unblock(); std::this_thread::yield(); } } };
            t.start(); g.await(1); g.release(); jitter(r); if (r.chance(1, 2)) t.abort(); else t.cancel();
            if (ran != 1 || !t.finished() || t.thread_object().joinable()) vf::fail("thread:abort", desc);
        }
        else if (how == 3)
        {   // destroyed while starting or running: runs at most once, and not after
            { my_thread t{ [&](my_thread& me) { ++ran; while (!me.aborted()) std::this_thread::yield(); ++after; } }; t.start(); jitter(r); }
            if (ran > 1 || ran != after) vf::fail("thread:destroyed", vf::cat(ran.load(), ' ', after.load(), desc));
        }
        else if (how == 4)
        {   // waiting for the thread or an event, whichever comes first
            neolib::waitable_event e; bool signal = r.chance(1, 2); gate g2; neolib::thread t{ [&] { ++ran; if (signal) g2.pass(); } }; t.start();
            if (signal) { std::thread s{ [&] { jitter(r); e.signal_one(); } }; auto w = t.wait(neolib::waitable_event_list{ e }); if (!std::holds_alternative<neolib::wait_result_event>(w) || &std::get<neolib::wait_result_event>(w).iEvent != &e) vf::record("thread:wait-event", desc); s.join(); g2.release(); }
            else { auto w = t.wait(neolib::waitable_event_list{ e }); if (!std::holds_alternative<neolib::wait_result_waitable>(w)) vf::fail("thread:wait-thread", desc); }
            t.wait(); if (ran != 1) vf::fail("thread:ran", desc);
        }
        else if (how == 5)
        {
            my_thread t{ [&](my_thread&) { ++ran; } }; if (!t.preambles) { if (!throws<neolib::thread::thread_not_started>([&] { t.block(); })) vf::fail("thread:block", desc); }
            if (t.finished() || t.started() || ran) vf::fail("thread:unstarted", desc);
        }
        else if (how == 6)
        {
            struct attached : neolib::thread { int& n; attached(int& n) : neolib::thread{ "attached", true }, n{ n } {} void exec(neolib::yield_type) override { ++n; } }; int n = 0; attached t{ n };
            if (!t.using_existing_thread() || !t.in() || t.id() != std::this_thread::get_id()) vf::fail("thread:attached", desc); t.start(); if (n != 1 || !t.in() || !t.running()) vf::fail("thread:attached-run", desc);
        }
        else
        {
            no_messages q; neolib::thread t{ [&] { ++ran; jitter(r); } }; t.start(); if (!t.msg_wait(q)) vf::fail("thread:msg_wait", desc); t.wait(); if (ran != 1) vf::fail("thread:ran", desc);
        }
        verdict("thread:life", desc); vf::count("thread-lives"); vf::distinct(vf::hash(vf::cat(how, ' ', r.s)));
    }
}
VF_SCENARIO(stress, 6) { stress(r); }
VF_SCENARIO(priorities, 2) { priorities(r); }
VF_SCENARIO(stopping, 3) { stopping(r); }
VF_SCENARIO(stopping_full, 2) { stopping_full(r); }
VF_SCENARIO(parallel_apply, 2) { apply(r); }
VF_SCENARIO(thread_lives, 6) { lives(r); }
VF_MAIN
