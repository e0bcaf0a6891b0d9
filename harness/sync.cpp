// C26: mutexes exclude and nest; events release whom they should and lose no signal.
#include "vf.hpp"
#include <neolib/neolib.hpp>
#include <neolib/core/service.hpp>
#include <neolib/core/mutex.hpp>
#include <neolib/task/thread.hpp>
#include <neolib/task/waitable_event.hpp>
#include <neolib/app/i_module_services.hpp>
#include <sys/syscall.h>
#include <unistd.h>
#include <deque>
#include <list>
#include <fstream>
#include <condition_variable>

namespace
{
    [[maybe_unused]] bool const gOpts = (vf::opts().wallSeconds = 60, neolib::allocate_service_provider(), true);
    std::mutex gTextMutex; std::string gText; std::atomic<vf::u64> gBad{ 0 };
    void complain(std::string const& s) { std::lock_guard l{ gTextMutex }; if (gBad++ == 0) gText = s; }
    void verdict(std::string const& key, std::string const& what) { if (gBad) { gBad = 0; vf::fail(key, gText + what); } }
    void jitter(vf::rng& r) { auto k = r.below(40); if (k == 0) std::this_thread::sleep_for(std::chrono::microseconds(r.below(80))); else if (k < 6) std::this_thread::yield(); }

    // a thread the test can see going to sleep: both its state and its switch counts come from the kernel
    struct sleeper { std::atomic<long> tid{ 0 }; std::atomic<bool> done{ false }; std::thread t; };
    std::string status(long tid)
    {
        std::ifstream f(vf::cat("/proc/self/task/", tid, "/status")); std::string l, out; while (std::getline(f, l)) { if (l.rfind("State:", 0) == 0) out += l.substr(7, 1); if (l.find("ctxt_switches") != std::string::npos) out += l; } return out;
    }
    // every thread that is not done sleeps, and none ran between two looks: with nobody running nobody holds the event's lock, so all are in its wait
    void settle(std::deque<sleeper>& s)
    {
        for (;;)
        {
            std::string a, b; bool asleep = true; std::vector<bool> d; for (auto& x : s) d.push_back(x.done);
            for (std::size_t i = 0; i < s.size(); ++i) if (!d[i]) { auto t = s[i].tid ? status(s[i].tid) : std::string{}; if (t.empty() || t[0] != 'S') asleep = false; a += t; }
            if (asleep) { for (std::size_t i = 0; i < s.size(); ++i) if (!d[i]) b += status(s[i].tid); if (a == b) { bool same = true; for (std::size_t i = 0; i < s.size(); ++i) same = same && d[i] == s[i].done; if (same) return; } }
            std::this_thread::sleep_for(std::chrono::microseconds(200));
        }
    }
    int finished(std::deque<sleeper>& s) { int n = 0; for (auto& x : s) n += x.done; return n; }

    template <typename M> void exclusion(vf::rng& r, char const* name, std::function<void(M&)> setup = {})
    {
        std::deque<M> ms(1 + r.below(3)); if (setup) for (auto& m : ms) setup(m);
        struct state { int depth = 0; long owner = -1; vf::u64 count = 0; vf::u64 check = 0; std::atomic<int> inside{ 0 }; }; std::deque<state> st(ms.size());
        int T = 2 + static_cast<int>(r.below(5)), N = 20 + static_cast<int>(r.below(150)); bool multi = r.chance(1, 3); std::vector<vf::u64> seeds; for (int t = 0; t < T; ++t) seeds.push_back(r.next());
        std::atomic<vf::u64> entered{ 0 }, refused{ 0 }; std::vector<std::thread> ts; std::atomic<int> go{ 0 };
        for (int t = 0; t < T; ++t) ts.emplace_back([&, t]
        {
            vf::rng rr{ seeds[t] }; ++go; while (go != T) std::this_thread::yield();
            std::function<void(std::size_t, int)> inside = [&](std::size_t k, int depth)
            {
                auto& s = st[k]; if (depth == 0) { if (s.inside.fetch_add(1) != 0) complain("two threads are inside"); s.owner = t; }
                else if (s.owner != t) complain("another thread got in while the mutex was held");
                auto const c = s.count; if (rr.chance(1, 30)) jitter(rr); s.count = c + 1; s.check ^= s.count * 0x9e3779b97f4a7c15ull; ++entered;
                if (depth < 3 && rr.chance(1, 4)) { if (rr.chance(1, 2)) { ms[k].lock(); inside(k, depth + 1); ms[k].unlock(); } else if (ms[k].try_lock()) { inside(k, depth + 1); ms[k].unlock(); } else complain("try_lock refused its owner"); if (s.owner != t || s.inside != 1) complain("releasing an inner lock let another thread in"); }
                if (depth == 0) { s.owner = -1; s.inside.fetch_sub(1); }
            };
            for (int n = 0; n < N; ++n)
            {
                auto k = rr.below(ms.size());
                if (multi && rr.chance(1, 4)) { neolib::scoped_multi_lock<std::deque<M>> l{ ms }; for (std::size_t j = 0; j < ms.size(); ++j) inside(j, 0); }
                else if (rr.chance(1, 3)) { if (ms[k].try_lock()) { inside(k, 0); ms[k].unlock(); } else ++refused; }
                else if (rr.chance(1, 4)) { neolib::proxy_mutex<M> p{ ms[k] }; neolib::i_lockable& l = p; l.lock(); inside(k, 0); l.unlock(); }
                else { neolib::i_lockable& l = ms[k]; std::scoped_lock g{ l }; inside(k, 0); }
                jitter(rr);
            }
        });
        for (auto& t : ts) t.join();
        vf::u64 total = 0; for (auto& s : st) { total += s.count; vf::u64 x = 0; for (vf::u64 c = 1; c <= s.count; ++c) x ^= c * 0x9e3779b97f4a7c15ull; if (x != s.check) complain("an update was lost"); } if (total != entered) complain(vf::cat("updates lost: ", total, " of ", entered.load()));
        verdict(vf::cat("mutex:", name), vf::cat(" T", T, " N", N, " mutexes", ms.size()));
        // ownership seen from another thread
        auto& m = ms[0]; auto other = [&] { bool b = false; std::thread t{ [&] { b = m.try_lock(); if (b) m.unlock(); } }; t.join(); return b; };
        int depth = 1 + static_cast<int>(r.below(4)); for (int d = 0; d < depth; ++d) { if (r.chance(1, 2)) m.lock(); else if (!m.try_lock()) vf::fail(vf::cat("mutex:", name), "try_lock refused a free or own mutex"); }
        for (int d = depth; d > 0; --d) { if (other()) vf::fail(vf::cat("mutex:", name), vf::cat("another thread took a mutex held ", d, " times")); m.unlock(); }
        if (!other()) vf::fail(vf::cat("mutex:", name), "a released mutex stays held");
        vf::count("critical-sections", entered); vf::count("try-refused", refused); vf::count(name); vf::distinct(vf::hash(vf::cat(name, seeds[0])));
    }
    struct observer : neolib::i_mutex_profiler_observer
    {
        std::atomic<int> n{ 0 }; std::atomic<neolib::i_lockable*> last{ nullptr }; std::atomic<long long> shortest{ 1 << 30 }; std::atomic<int> infos{ 0 };
        void mutex_contended(neolib::i_lockable& m, std::chrono::microseconds const& d, neolib::mutex_lock_info const* p, std::size_t k) noexcept override { ++n; last = &m; if (d.count() < shortest) shortest = d.count(); for (std::size_t i = 0; i < k; ++i) { volatile auto c = p[i].duration.count(); (void)c; } infos += static_cast<int>(k); }
    };
    using any_mutex = neolib::recursive_mutex<int>;
    void mutexes(vf::rng& r)
    {
        auto& profiler = neolib::service<neolib::i_mutex_profiler>(); bool profile = r.chance(1, 3); if (profile) profiler.enable(std::chrono::microseconds{ r.pick({ 0, 10, 1000 }) }, static_cast<std::uint32_t>(r.below(4)), r.chance(1, 2)); else profiler.disable();
        observer o; if (profile) profiler.subscribe(o);
        switch (r.below(6))
        {
        case 0: exclusion<any_mutex>(r, "recursive"); break;
        case 1: exclusion<neolib::recursive_mutex<int, true>>(r, "spinlock"); break;
        case 2: exclusion<neolib::recursive_mutex<int, true, true>>(r, "yielding-spinlock"); break;
        case 3: exclusion<neolib::switchable_mutex<int>>(r, "switchable-std", [](auto& m) { m.set_single_threaded(); m.set_multi_threaded(); }); break;
        case 4: exclusion<neolib::switchable_mutex<int>>(r, "switchable-profiled", [](auto& m) { m.set_multi_threaded_profiled(); }); break;
        case 5: exclusion<neolib::switchable_mutex<int>>(r, "switchable-spinlock", [](auto& m) { m.set_multi_threaded_spinlock(); }); break;
        }
        if (profile) { profiler.unsubscribe(o); vf::count("contentions-reported", o.n); profiler.disable(); }
    }
    // contention long enough and often enough is reported, and nothing else is
    void profiling(vf::rng& r)
    {
        auto& profiler = neolib::service<neolib::i_mutex_profiler>(); auto timeout = r.pick({ 300, 1500 }); auto maxCount = static_cast<int>(r.below(3)); profiler.enable(std::chrono::microseconds{ timeout }, maxCount, r.chance(1, 2));
        observer o; profiler.subscribe(o); any_mutex m; int waits = 0; bool off = r.chance(1, 4); if (off) profiler.disable();
        for (int n = 0; n < (off ? 6 : 60) && (off || o.n == 0); ++n) { std::atomic<bool> about{ false }; m.lock(); std::thread t{ [&] { about = true; m.lock(); m.unlock(); } }; while (!about) std::this_thread::yield(); std::this_thread::sleep_for(std::chrono::microseconds(timeout * 2)); m.unlock(); t.join(); ++waits; if (o.n * (maxCount + 1) > waits) vf::fail("profiler:early", vf::cat(o.n.load(), " reports of ", waits, " waits, every ", maxCount + 1)); }
        if (off ? o.n != 0 : o.n == 0) vf::fail("profiler:reports", vf::cat(o.n.load(), " reports of ", waits, " waits, disabled ", off)); if (o.n && (o.last != &m || o.shortest < timeout)) vf::fail("profiler:what", vf::cat(o.shortest.load(), " of ", timeout));
        profiler.unsubscribe(o); profiler.disable(); vf::count("profiled-waits", waits); vf::distinct(vf::hash(vf::cat(timeout, maxCount, off)));
    }

    struct messages : neolib::i_message_queue { std::atomic<int> n{ 0 }; bool have_message() const override { return n > 0; } int get_message() const override { return 0; } void bump() override {} bool in_idle() const override { return false; } void idle() override {} };
    struct never_ready : neolib::waitable { bool ready = false; bool waitable_ready() const noexcept override { return ready; } };
    // each signal, waited for in any way, is seen once
    void handshake(vf::rng& r)
    {
        std::deque<neolib::waitable_event> es(1 + r.below(3)); neolib::waitable_event back; int N = 20 + static_cast<int>(r.below(200)); std::vector<int> sent; auto seed = r.next(); messages none; never_ready never; std::atomic<bool> over{ false }; std::vector<int> got; bool list = es.size() > 1;
        for (int n = 0; n < N; ++n) sent.push_back(static_cast<int>(r.below(es.size())));
        std::thread consumer{ [&]
        {
            vf::rng rr{ seed }; std::vector<neolib::waitable_event const*> p; 
            for (int n = 0; n < N; ++n)
            {
                int k = -1;
                if (list || rr.chance(1, 4))
                {
                    neolib::waitable_event_list l{ es.begin(), es.end() }; auto w = [&]() -> neolib::wait_result { switch (rr.below(4)) { case 0: return l.wait(); case 1: return l.wait(never); case 2: return l.msg_wait(none); default: return l.msg_wait(none, never); } }();
                    if (!std::holds_alternative<neolib::wait_result_event>(w)) complain("a list wait ended for nothing"); else for (std::size_t j = 0; j < es.size(); ++j) if (&es[j] == &std::get<neolib::wait_result_event>(w).iEvent) k = static_cast<int>(j);
                }
                else
                {
                    k = 0; switch (rr.below(5)) { case 0: es[0].wait(); break; case 1: while (!es[0].wait(0)) {} break; case 2: while (!es[0].wait(1)) {} break; case 3: if (!es[0].msg_wait(none)) complain("msg_wait found a message"); break; case 4: while (!es[0].msg_wait(none, 1)) {} break; }
                }
                got.push_back(k); if (rr.chance(1, 4)) for (auto& e : es) if (e.wait(0)) complain("one signal was seen twice"); jitter(rr); back.signal_one();
            }
            over = true;
        } };
        for (int n = 0; n < N && !over; ++n) { jitter(r); if (r.chance(1, 2)) es[sent[n]].signal_one(); else es[sent[n]].signal_all(); if (r.chance(1, 2)) back.wait(); else while (!back.wait(1)) {} }
        consumer.join(); if (got != sent) complain("the wrong event was reported"); for (auto& e : es) if (e.wait(0)) complain("an event stays signalled"); if (back.wait(0)) complain("an event stays signalled");
        verdict("event:handshake", vf::cat(" N", N, " events", es.size())); vf::count("signals", N * 2); vf::distinct(vf::hash(vf::cat(N, es.size(), seed)));
    }
    // n threads asleep in wait
    void present(vf::rng& r)
    {
        neolib::waitable_event e; int N = 1 + static_cast<int>(r.below(6)); bool timed = r.chance(1, 3); std::deque<sleeper> s(N);
        for (auto& x : s) x.t = std::thread{ [&] { x.tid = ::syscall(SYS_gettid); if (timed) { if (!e.wait(50000)) complain("timed out early"); } else e.wait(); x.done = true; } };
        settle(s); int left = N, steps = 0; auto finish = [&](int atLeast) { while (finished(s) < atLeast) std::this_thread::yield(); settle(s); };
        while (left > 0)
        {
            ++steps; int before = N - left; if (finished(s) != before) { vf::record("event:spurious", "a wait ended without a signal"); break; }
            switch (r.below(5))
            {
            case 0: e.signal_all(); finish(N); break;
            case 1: e.signal_all(); e.signal_one(); finish(N); e.reset(); break;
            case 2: e.signal_one(); e.signal_all(); finish(N); e.reset(); break;
            case 3: { int k = 1 + static_cast<int>(r.below(3)); for (int j = 0; j < k; ++j) e.signal_one(); finish(before + 1); if (finished(s) > before + k) vf::record("event:signal_one", vf::cat(k, " signals released ", finished(s) - before, " of ", left)); e.reset(); settle(s); break; }
            default: e.signal_one(); finish(before + 1); if (finished(s) != before + 1) vf::record("event:signal_one", vf::cat("one signal released ", finished(s) - before, " of ", left)); break;
            }
            left = N - finished(s);
        }
        while (finished(s) != N) { e.signal_all(); std::this_thread::yield(); } for (auto& x : s) x.t.join(); e.reset();
        verdict("event:present", vf::cat(" N", N)); vf::count("waiters-released", N); vf::count("signal-steps", steps); vf::distinct(vf::hash(vf::cat(N, timed, r.s)));
    }
    // one thread, every history
    void history(vf::rng& r)
    {
        std::deque<neolib::waitable_event> es(3); bool ready[3] = {}; std::string log; messages q; never_ready w; auto clock = [] { return std::chrono::steady_clock::now(); };
        for (int n = 0; n < 40; ++n)
        {
            auto k = r.below(3); auto bad = [&](char const* what) { vf::fail(vf::cat("event:", what), log); };
            switch (r.below(9))
            {
            case 0: es[k].signal_one(); ready[k] = true; log += vf::cat("1:", k, ' '); break;
            case 1: es[k].signal_all(); ready[k] = true; log += vf::cat("*:", k, ' '); break;
            case 2: es[k].reset(); ready[k] = false; log += vf::cat("reset:", k, ' '); break;
            case 3: { int t = static_cast<int>(r.below(3)); auto a = clock(); log += vf::cat("wait", t, ':', k, ' '); bool b = es[k].wait(t); if (b != ready[k]) bad("timed"); if (!b && clock() - a < std::chrono::milliseconds(t)) bad("early"); ready[k] = false; break; }
            case 4: if (ready[k]) { log += vf::cat("wait:", k, ' '); es[k].wait(); ready[k] = false; } break;
            case 5: { q.n = static_cast<int>(r.below(2)); log += vf::cat("msg", q.n.load(), ':', k, ' '); if (q.n || ready[k]) { if (es[k].msg_wait(q) != ready[k]) bad("message"); ready[k] = false; } else { auto a = clock(); if (es[k].msg_wait(q, 1)) bad("message"); if (clock() - a < std::chrono::milliseconds(1)) bad("early"); } break; }
            default:
                {
                    std::vector<neolib::waitable_event> dummy; std::size_t a = r.below(3), b = a + 1 + r.below(3 - a); bool any = false; for (auto j = a; j < b; ++j) any = any || ready[j]; q.n = static_cast<int>(r.below(2)); w.ready = r.chance(1, 2); auto how = r.below(4); log += vf::cat("list", how, '[', a, ',', b, ") ");
                    neolib::waitable_event_list l{ es.begin() + a, es.begin() + b }; bool m = (how & 1) && q.n > 0, x = (how & 2) && w.ready; if (!any && !m && !x) break;
                    auto got = how == 0 ? l.wait() : how == 1 ? l.msg_wait(q) : how == 2 ? l.wait(w) : l.msg_wait(q, w);
                    if (auto* e = std::get_if<neolib::wait_result_event>(&got)) { auto j = a; while (j < b && &es[j] != &e->iEvent) ++j; if (j == b || !ready[j]) bad("list-event"); ready[j] = false; }
                    else if (any || (std::holds_alternative<neolib::wait_result_message>(got) ? !m : !x)) bad("list");
                }
            }
            vf::distinct(vf::hash(log)); vf::count("event-operations");
        }
        for (int k = 0; k < 3; ++k) if (es[k].wait(0) != ready[k]) vf::fail("event:left", log);
    }
}
#ifndef VF_HISTORY
VF_SCENARIO(mutexes, 4) { mutexes(r); }
VF_SCENARIO(handshake, 4) { handshake(r); }
VF_SCENARIO(present, 3) { present(r); }
#ifdef NEOS_PROFILE_MUTEX
VF_SCENARIO(profiling, 1) { profiling(r); }
#endif
#else
VF_SCENARIO(history, 1) { history(r); }
#endif
VF_MAIN
