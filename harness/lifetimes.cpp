// C31: flags, objects and services tell and follow the life of their subjects.
#include "vf.hpp"
#include <thread>
#include <latch>
#include <sys/wait.h>
#include <neolib/neolib.hpp>
#include <neolib/core/lifetime.hpp>
#include <neolib/core/service.hpp>
#ifdef VF_OBJECTS
#include <boost/asio.hpp>
#include <neolib/task/async_task.hpp>
#include <neolib/app/object.hpp>
#endif

namespace
{
    using neolib::lifetime_state; using neolib::lifetime_flag;
    lifetime_state const states[] = { lifetime_state::Creating, lifetime_state::Alive, lifetime_state::Destroying, lifetime_state::Destroyed };
    int index(lifetime_state s) { return static_cast<int>(s); }
    struct plain : neolib::lifetime<> { int v; plain(int v, lifetime_state s) : neolib::lifetime<>{ s }, v{ v } {} };
    struct i_thing { virtual ~i_thing() = default; virtual int value() const = 0; };           // known by an interface without a lifetime
    struct thing : i_thing, neolib::lifetime<> { int v; thing(int v, lifetime_state s) : neolib::lifetime<>{ s }, v{ v } {} int value() const override { return v; } };

    struct any_flag { virtual ~any_flag() = default; virtual neolib::i_lifetime_flag& flag() = 0; virtual std::unique_ptr<any_flag> copy() const = 0; virtual std::unique_ptr<any_flag> take() = 0; virtual void assign(any_flag const&) = 0; virtual void take_from(any_flag&) = 0; int required; std::shared_ptr<int> of; };
    template <lifetime_state S> struct flag_of : any_flag
    {
        lifetime_flag<S> f;
        template <typename X> flag_of(X const& x) : f{ x } { required = index(S); }
        flag_of(flag_of const& o) = default; flag_of(flag_of&& o) = default;
        neolib::i_lifetime_flag& flag() override { return f; }
        std::unique_ptr<any_flag> copy() const override { return std::make_unique<flag_of>(*this); }
        std::unique_ptr<any_flag> take() override { auto o = of; auto r = std::make_unique<flag_of>(std::move(*this)); r->of = o; return r; }
        void assign(any_flag const& o) override { f = static_cast<flag_of const&>(o).f; of = o.of; }
        void take_from(any_flag& o) override { f = std::move(static_cast<flag_of&>(o).f); of = o.of; }
    };
    template <typename X> std::unique_ptr<any_flag> new_flag(vf::rng& r, X const& x)
    {
        switch (r.below(4)) { case 0: return std::make_unique<flag_of<lifetime_state::Creating>>(x); case 1: return std::make_unique<flag_of<lifetime_state::Alive>>(x); case 2: return std::make_unique<flag_of<lifetime_state::Destroying>>(x); default: return std::make_unique<flag_of<lifetime_state::Destroyed>>(x); }
    }
    void check_flag(any_flag& f, int want, std::string const& log)
    {
        auto& x = f.flag(); bool const is[] = { x.is_creating(), x.is_alive(), x.is_destroying(), x.is_destroyed() };
        for (int i = 0; i < 4; ++i) if (is[i] != (i == want)) vf::fail("lifetime:flag", vf::cat("flag says ", is[i], " to state ", i, " of one in state ", want, "; ", log));
        if (static_cast<bool>(x) != (f.required == want)) vf::fail("lifetime:flag", vf::cat("flag for state ", f.required, " of one in state ", want, "; ", log));
    }
    template <typename X> void check_object(X& o, int want, std::string const& log)
    {
        bool const is[] = { o.is_creating(), o.is_alive(), o.is_destroying(), o.is_destroyed() };
        for (int i = 0; i < 4; ++i) if (is[i] != (i == want)) vf::fail("lifetime:object", vf::cat("object says ", is[i], " to state ", i, " in state ", want, "; ", log));
        if (index(o.object_state()) != want) vf::fail("lifetime:object", vf::cat("object_state ", index(o.object_state()), " in state ", want, "; ", log));
    }
    template <typename X> void histories(vf::rng& r)
    {
        struct one { std::unique_ptr<X> x; std::shared_ptr<int> state; };
        std::vector<one> objects; std::vector<std::unique_ptr<any_flag>> flags; std::string log; int next = 0;
        auto verify = [&]() { for (auto& o : objects) check_object(*o.x, *o.state, log); for (auto& f : flags) check_flag(*f, *f->of, log); };
        auto steps = r.range(5, 60);
        for (int n = 0; n < steps; ++n)
        {
            auto any = [&]() -> one* { return objects.empty() ? nullptr : &objects[r.below(objects.size())]; };
            switch (r.below(12))
            {
            case 0: case 1: { auto s = r.below(3) ? lifetime_state::Alive : lifetime_state::Creating; log += s == lifetime_state::Alive ? "n" : "N"; objects.push_back({ std::make_unique<X>(++next, s), std::make_shared<int>(index(s)) }); break; }
            case 2: if (auto o = any()) { log += "a"; bool ok = *o->state == 0; try { o->x->set_alive(); if (!ok) vf::fail("lifetime:transition", "set_alive twice; " + log); *o->state = 1; } catch (typename neolib::i_lifetime::not_creating const&) { if (ok) vf::fail("lifetime:transition", "set_alive refused; " + log); } } break;
            case 3: if (auto o = any()) { log += "g"; bool ok = *o->state != 3; try { o->x->set_destroying(); if (!ok) vf::fail("lifetime:transition", "destroying after destroyed; " + log); *o->state = 2; } catch (typename neolib::i_lifetime::already_destroyed const&) { if (ok) vf::fail("lifetime:transition", "set_destroying refused; " + log); } } break;
            case 4: if (auto o = any()) { log += "d"; o->x->set_destroyed(); *o->state = 3; } break;
            case 5: if (!objects.empty()) { log += "-"; auto i = objects.begin() + r.below(objects.size()); *i->state = 3; objects.erase(i); } break;
            case 6: if (auto o = any(); o && *o->state == 1) { log += "c"; auto x = std::make_unique<X>(*o->x); if (x->v != o->x->v) vf::fail("lifetime:copy", "value"); objects.push_back({ std::move(x), std::make_shared<int>(1) }); vf::count("copies"); } break;
            case 7: if (auto o = any()) { auto p = any(); log += "="; *o->x = *p->x; if (o->x->v != p->x->v) vf::fail("lifetime:copy", "value"); } break;
            case 8: case 9:
                if (auto o = any())
                {
                    log += "f"; std::unique_ptr<any_flag> f;
                    if constexpr (std::is_base_of_v<i_thing, X>) f = r.chance(1, 2) ? new_flag(r, static_cast<i_thing const&>(*o->x)) : new_flag(r, *o->x); else f = r.chance(1, 2) ? new_flag(r, static_cast<neolib::i_lifetime const&>(*o->x)) : new_flag(r, *o->x);
                    f->of = o->state; flags.push_back(std::move(f));
                }
                break;
            case 10:
                if (!flags.empty())
                {
                    auto i = r.below(flags.size()), j = r.below(flags.size()); if (flags[i]->required != flags[j]->required) j = i;
                    if (flags[i]->flag().debug()) vf::fail("lifetime:flag", "debugging");
                    switch (r.below(4)) { case 0: log += "C"; flags.push_back(flags[i]->copy()); break; case 1: { log += "M"; auto f = flags[i]->take(); flags[i] = std::move(f); break; } case 2: log += "A"; flags[i]->assign(*flags[j]); break; default: if (i != j) { log += "T"; flags[i]->take_from(*flags[j]); flags.erase(flags.begin() + j); } break; }
                }
                break;
            default: if (!flags.empty()) { log += "x"; flags.erase(flags.begin() + r.below(flags.size())); } break;
            }
            verify(); vf::count("steps");
        }
        while (!objects.empty()) { *objects.back().state = 3; objects.pop_back(); verify(); }
        vf::max("flags", flags.size()); vf::distinct(vf::hash(log)); vf::sample(log);
    }
    // the state is seen going forwards only, by any thread, and for as long as flags of it are kept
    void watched(vf::rng& r)
    {
        int const n = static_cast<int>(r.range(1, 4)); auto o = std::make_unique<plain>(1, lifetime_state::Creating); std::latch ready{ n + 1 }; std::atomic<int> backwards{ 0 }, seen[4] = {};
        std::vector<std::thread> ts; std::atomic<bool> stop{ false };
        for (int i = 0; i < n; ++i) ts.emplace_back([&, f = lifetime_flag<lifetime_state::Destroyed>{ *o }]() mutable
        {
            ready.arrive_and_wait(); int last = 0;
            for (;;)
            {
                auto g = f; auto saw = [&](bool is, int s) { if (!is) return; if (s < last) ++backwards; last = std::max(s, last); seen[s]++; };
                saw(g.is_creating(), 0); saw(f.is_alive(), 1); saw(g.is_destroying(), 2); saw(g.is_alive(), 1); saw(f.is_destroyed(), 3); f = g;
                if (f) break; std::this_thread::yield();
            }
        });
        ready.arrive_and_wait(); o->set_alive(); if (r.chance(1, 2)) std::this_thread::yield(); if (r.chance(1, 2)) o->set_destroying(); o.reset(); for (auto& t : ts) t.join();
        if (backwards) vf::fail("lifetime:threads", "a state was seen after a later one");
        vf::count("watchers", n); vf::distinct(vf::hash(vf::cat("w", n, seen[1] > 0, seen[2] > 0)));
    }

#ifdef VF_OBJECTS
    neolib::async_task& main_task() { static auto& t = *new neolib::async_task{ "objects" }; return t; }
}
namespace neolib { template<> i_async_task& services::start_service<i_async_task>() { return main_task(); } }
namespace
{
    struct widget : neolib::object<> { widget() { this->set_alive(); } widget(lifetime_state s) : neolib::object<>{ s } {} };
    void objects(vf::rng& r)
    {
        static bool const once = (neolib::allocate_service_provider(), neolib::services::service<neolib::i_async_task>(), true); (void)once;
        std::string log; std::vector<std::string> got; neolib::sink sink; bool alive = r.chance(3, 4);
        auto o = alive ? std::make_unique<widget>() : std::make_unique<widget>(lifetime_state::Creating); if (o->is_alive() != alive) vf::fail("object:state", "alive");
        lifetime_flag<lifetime_state::Destroyed> destroyed{ *o }; lifetime_flag<lifetime_state::Destroying> destroying{ *o };
        sink += neolib::destroying(*o, [&]() { got.push_back("destroying"); if (destroyed) got.push_back("early"); }); sink += neolib::destroyed(*o, [&]() { got.push_back("destroyed"); });
        std::vector<std::string> want; bool gone = false, leaving = false;
        for (int i = 0, n = static_cast<int>(r.below(4)); i < n; ++i)
            switch (r.below(3))
            {
            case 0: log += "g"; o->set_destroying(); if (alive && !leaving && !gone) { want.push_back("destroying"); leaving = true; } if (destroying != (leaving && !gone)) vf::fail("object:state", "destroying; " + log); break;
            case 1: log += "d"; o->set_destroyed(); if (!gone) { if (alive && !leaving) want.push_back("destroying"); want.push_back("destroyed"); gone = leaving = true; } if (!destroyed) vf::fail("object:state", "not destroyed; " + log); break;
            default: if (neolib::is_alive(*o) != (alive && !leaving && !gone)) vf::fail("object:state", "alive; " + log); break;
            }
        log += alive ? "~" : "-"; o.reset(); if (!gone) { if (alive && !leaving) want.push_back("destroying"); want.push_back("destroyed"); }
        if (got != want) { std::string s; for (auto& g : got) s += g + " "; vf::fail("object:events", vf::cat("announced ", s, "; ", log)); }
        if (!destroyed || destroying) vf::fail("object:state", "not destroyed at the end; " + log);
        vf::count("announcements", got.size()); vf::distinct(vf::hash(log));
    }
#endif

    // services: one process has one provider, so every case has a process of its own
    std::atomic<int> gStarted[4]; std::atomic<int> gNested;
    template <int N> struct svc : neolib::i_service { int which; explicit svc(int w = 0) : which{ w } {} static neolib::uuid const& iid() { static neolib::uuid const s{ 0xF00D0000u + N, 1, 2, 3, { 1, 2, 3, 4, 5, N } }; return s; } };
}
namespace neolib::services
{
    template <> svc<0>& start_service<svc<0>>() { ++gStarted[0]; return *new svc<0>{ gStarted[0] }; }
    template <> svc<1>& start_service<svc<1>>() { ++gStarted[1]; (void)service<svc<0>>(); ++gNested; return *new svc<1>{ gStarted[1] }; }
    template <> svc<2>& start_service<svc<2>>() { ++gStarted[2]; std::this_thread::yield(); return *new svc<2>{ gStarted[2] }; }
    template <> svc<3>& start_service<svc<3>>() { ++gStarted[3]; (void)service<svc<2>>(); (void)service<svc<1>>(); return *new svc<3>{ gStarted[3] }; }
}
namespace
{
    struct provider : neolib::i_service_provider // one supplied by the host of a plugin
    {
        mutable std::recursive_mutex m; std::map<neolib::uuid, neolib::i_service*> s;
        bool try_lock() final { return m.try_lock(); } void lock() final { m.lock(); } void unlock() final { m.unlock(); }
        bool service_registered(neolib::uuid i) const final { std::unique_lock l{ m }; return s.count(i) != 0; }
        neolib::i_service& service(neolib::uuid i) final { std::unique_lock l{ m }; auto f = s.find(i); if (f == s.end()) throw neolib::service_not_found{}; return *f->second; }
        void register_service(neolib::i_service& x, neolib::uuid i) final { std::unique_lock l{ m }; s[i] = &x; }
        void unregister_service(neolib::uuid i) final { std::unique_lock l{ m }; if (!s.erase(i)) throw neolib::service_not_found{}; }
        void migrate_to(neolib::i_service_provider& o) final { std::scoped_lock l{ m, o }; for (auto& x : s) o.register_service(*x.second, x.first); s.clear(); }
    };
    template <typename F> void in_process(F f)
    {
        int p[2]; if (::pipe(p)) throw std::runtime_error("pipe"); std::fflush(stdout); std::fflush(stderr);
        auto pid = ::fork();
        if (pid == 0)
        {
            ::close(p[0]); std::string out = "ok"; try { out += f(); } catch (std::pair<std::string, std::string> const& e) { out = e.first + "\n" + e.second; } catch (std::exception const& e) { out = std::string{ "service:exception\n" } + e.what(); }
            std::size_t at = 0; while (at < out.size()) { auto n = ::write(p[1], out.data() + at, out.size() - at); if (n <= 0) break; at += n; } ::_exit(0);
        }
        ::close(p[1]); std::string got; char buf[512]; for (;;) { auto n = ::read(p[0], buf, sizeof buf); if (n > 0) got.append(buf, n); else if (n == 0 || errno != EINTR) break; } ::close(p[0]); int status = 0; while (::waitpid(pid, &status, 0) < 0 && errno == EINTR);
        if (got.rfind("ok", 0) == 0 && WIFEXITED(status) && WEXITSTATUS(status) == 0) { vf::distinct(vf::hash(got)); vf::sample(got.substr(2)); return; }
        auto nl = got.find('\n'); if (nl == std::string::npos) vf::fail("service:died", vf::cat("the process ended with status ", status, " ", got)); vf::fail(got.substr(0, nl), got.substr(nl + 1));
    }
    [[noreturn]] void bad(std::string const& k, std::string const& d) { throw std::pair<std::string, std::string>{ "service:" + k, d }; }
    struct services_model
    {
        vf::rng& r; std::string log; void* at[4] = {}; int started[4] = {};
        template <int N> void use()
        {
            log += vf::cat("u", N); if constexpr (N == 1) { if (!at[1]) expect<0>(); } if constexpr (N == 3) { if (!at[3]) { expect<2>(); if (!at[1]) expect<0>(); expect<1>(); } } expect<N>(false);
            auto& s = neolib::service<svc<N>>(); if (at[N] && at[N] != &s) bad("instance", vf::cat("service ", N, " is another one; ", log));
            settle();
        }
        template <int N> void expect(bool = true) { if (!at[N]) want[N] = true; }
        bool want[4] = {};
        // after use, what had to be started is there, once
        void settle() { one<0>(); one<1>(); one<2>(); one<3>(); check(); }
        template <int N> void one() { if (!want[N]) return; want[N] = false; ++started[N]; at[N] = &neolib::get_service_provider().service<svc<N>>(); }
        void check() { c<0>(); c<1>(); c<2>(); c<3>(); }
        template <int N> void c()
        {
            if (gStarted[N] != started[N]) bad("started", vf::cat("service ", N, " started ", gStarted[N], " times, expected ", started[N], "; ", log));
            if (neolib::service_registered<svc<N>>() != (at[N] != nullptr)) bad("registered", vf::cat("service ", N, " registered: ", at[N] == nullptr, "; ", log));
            if (at[N]) { if (&neolib::service<svc<N>>() != at[N]) bad("instance", vf::cat("service ", N, " is another one; ", log)); if (&neolib::get_service_provider().service<svc<N>>() != at[N]) bad("instance", vf::cat("the provider has another service ", N, "; ", log)); }
            else { try { neolib::get_service_provider().service(svc<N>::iid()); bad("registered", "found; " + log); } catch (neolib::service_not_found const&) {} }
        }
        template <int N> void other()
        {
            if (r.chance(1, 2)) { log += vf::cat("r", N); auto x = new svc<N>{ 100 }; neolib::register_service(*x); at[N] = x; }
            else if (at[N]) { log += vf::cat("-", N); neolib::unregister_service(*static_cast<svc<N>*>(at[N])); at[N] = nullptr; }
            else { log += vf::cat("x", N); svc<N> x; try { neolib::unregister_service(x); bad("unregister", "unregistered what was not; " + log); } catch (neolib::service_not_found const&) {} }
        }
        template <typename F> void of(F f) { switch (r.below(4)) { case 0: f(std::integral_constant<int, 0>{}); break; case 1: f(std::integral_constant<int, 1>{}); break; case 2: f(std::integral_constant<int, 2>{}); break; default: f(std::integral_constant<int, 3>{}); break; } }
        std::string run()
        {
            if (neolib::service_provider_allocated()) bad("provider", "allocated at first");
            try { neolib::get_service_provider(); bad("provider", "there is one"); } catch (neolib::no_service_provider_instance const&) {}
            try { neolib::service<svc<0>>(); bad("provider", "service without provider"); } catch (neolib::no_service_provider_instance const&) {}
            provider* mine = nullptr; if (r.chance(1, 5)) { mine = new provider; neolib::set_service_provider(*mine); log += "P"; } else if (&neolib::allocate_service_provider() != &neolib::get_service_provider()) bad("provider", "another one");
            if (!neolib::service_provider_allocated()) bad("provider", "not allocated");
            int n = static_cast<int>(r.range(3, 25));
            for (int i = 0; i < n; ++i)
            {
                switch (r.below(10))
                {
                case 0: case 1: case 2: of([&](auto N) { use<N.value>(); }); break;
                case 3: case 4: case 5: of([&](auto N) { other<N.value>(); }); break;
                case 6: log += "!"; try { neolib::allocate_service_provider(); bad("provider", "allocated twice; " + log); } catch (neolib::service_provider_instance_exists const&) {} break;
                case 7:
                {
                    log += "p"; auto x = new provider; if (r.chance(1, 3)) { neolib::get_service_provider().migrate_to(*x); log += "m"; }
                    neolib::set_service_provider(*x); if (&neolib::get_service_provider() != x) bad("provider", "not the one set; " + log); if (mine) { if (!mine->s.empty()) bad("migrate", "the former one keeps services; " + log); } mine = x; break;
                }
                case 8: { log += "s"; neolib::set_service_provider(neolib::get_service_provider()); break; }
                default:
                {
                    log += "l"; auto& p = neolib::get_service_provider(); std::unique_lock l{ p }; std::unique_lock l2{ p }; bool could = true; std::thread t{ [&]() { could = p.try_lock(); if (could) p.unlock(); } }; t.join(); if (could) bad("lock", "locked by two threads; " + log);
                    l2.unlock(); l.unlock(); std::thread t2{ [&]() { could = p.try_lock(); if (could) p.unlock(); } }; t2.join(); if (!could) bad("lock", "still locked; " + log); break;
                }
                }
                check();
            }
            return log;
        }
    };
    void service_histories(vf::rng& r) { in_process([&]() { return services_model{ r }.run(); }); vf::count("processes"); }
    // first use by many threads at once
    void service_race(vf::rng& r)
    {
        in_process([&]() -> std::string
        {
            neolib::allocate_service_provider(); int n = static_cast<int>(r.range(2, 6)); std::latch go{ n }; std::vector<std::thread> ts; std::vector<std::array<void*, 4>> got(n); std::vector<std::vector<int>> order(n);
            for (auto& o : order) { o = { 0, 1, 2, 3 }; for (int i = 3; i > 0; --i) std::swap(o[i], o[r.below(i + 1)]); }
            for (int i = 0; i < n; ++i) ts.emplace_back([&, i]() { go.arrive_and_wait(); for (int s : order[i]) switch (s) { case 0: got[i][0] = &neolib::service<svc<0>>(); break; case 1: got[i][1] = &neolib::service<svc<1>>(); break; case 2: got[i][2] = &neolib::service<svc<2>>(); break; default: got[i][3] = &neolib::service<svc<3>>(); break; } });
            for (auto& t : ts) t.join();
            for (int s = 0; s < 4; ++s) { if (gStarted[s] != 1) bad("race", vf::cat("service ", s, " started ", gStarted[s], " times")); for (int i = 0; i < n; ++i) if (got[i][s] != got[0][s]) bad("race", vf::cat("service ", s, " is another one in another thread")); }
            std::string s; for (auto& o : order) { for (int x : o) s += static_cast<char>('0' + x); s += ' '; } return s;
        });
        vf::count("first-uses");
    }
}
#ifdef VF_OBJECTS
VF_SCENARIO(objects, 1) { objects(r); }
#elif defined VF_SERVICES
VF_SCENARIO(service_histories, 3) { service_histories(r); }
VF_SCENARIO(service_race, 2) { service_race(r); }
VF_SCENARIO(watched, 2) { watched(r); }
#else
VF_SCENARIO(plain_objects, 1) { histories<plain>(r); }
VF_SCENARIO(things, 1) { histories<thing>(r); }
#endif
VF_MAIN
