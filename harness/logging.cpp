// C34: a logger writes what passes its filters, once, whole and in order, wherever it is copied to.
#include "vf.hpp"
#include <algorithm>
#include <chrono>
#include <thread>
#include <barrier>
#include <neolib/neolib.hpp>
#include <neolib/core/service.hpp>
#include <boost/asio.hpp>
#include <neolib/task/async_task.hpp>
#include <neolib/app/ostream_logger.hpp>

namespace { neolib::async_task& main_task() { static auto& t = *new neolib::async_task{ "logging" }; return t; } }
namespace neolib { template<> i_async_task& services::start_service<i_async_task>() { return main_task(); } }
namespace
{
    namespace nl = neolib::logger;
    [[maybe_unused]] bool const gWall = (vf::opts().wallSeconds = 120, vf::opts().cpuSeconds = 60, true);
    [[maybe_unused]] std::atomic<std::uint64_t> gSeen;
    void ready() { static bool const r = (neolib::allocate_service_provider(), neolib::services::service<neolib::i_async_task>(), true); (void)r; }
    // what was written, and how; slow now and then
    struct sinkbuf : std::streambuf
    {
        mutable std::mutex m; std::string all; unsigned slow = 0; vf::u64 n = 0;
        int overflow(int c) override { if (c != EOF) { char x = static_cast<char>(c); xsputn(&x, 1); } return c; }
        std::streamsize xsputn(char const* s, std::streamsize k) override { if (slow && (vf::mix(++n) % slow) == 0) std::this_thread::sleep_for(std::chrono::microseconds(vf::mix(n) % 700)); std::lock_guard l{ m }; all.append(s, k); return k; }
        std::string text() const { std::lock_guard l{ m }; return all; }
    };
    struct out { sinkbuf b; std::ostream s{ &b }; };
#ifndef VF_THREADS
    struct model { int sev = 2, cat = 0, filter = 2; std::map<int, bool> cats; int format = 0; std::uint64_t line = 1; std::string pending, written; std::vector<std::string> events, want; std::vector<int> copies; };
    // severities and categories of messages are kept per thread and kind of logger, hence each kind is given a new thread
    struct world
    {
        vf::rng& r; std::unique_ptr<out> o[3]; std::unique_ptr<nl::i_logger> l[3]; model m[3]; neolib::sink sinks; std::string log; std::vector<std::unique_ptr<nl::formatter>> formatters; std::string client; std::string problem, detail;
        void wrong(std::string const& k, std::string const& d) { if (problem.empty()) { problem = k; detail = d + "; " + log; } }
        nl::ostream_logger<0>& l0() { return static_cast<nl::ostream_logger<0>&>(*l[0]); }
        template <int I> void make() { o[I] = std::make_unique<out>(); l[I] = std::make_unique<nl::ostream_logger<I>>(o[I]->s); sinks += l[I]->new_log_message([this](neolib::i_string const& s) { m[I].events.push_back(s.to_std_string()); }); }
        static std::string format(int f, std::uint64_t line, std::string const& s) { return f == 0 ? s : f == 1 ? vf::cat(line, ": ", s) : f == 2 ? std::string{} : s + s; }
        void severity(int i, int s) { m[i].sev = s; for (int c : m[i].copies) severity(c, s); }
        void category(int i, int s) { m[i].cat = s; for (int c : m[i].copies) category(c, s); }
        void enable(int i, int c, bool e) { auto f = m[i].cats.find(c); if (f != m[i].cats.end()) f->second = e; for (int k : m[i].copies) enable(k, c, e); }
        void registers(int i, int c) { m[i].cats[c] = true; for (int k : m[i].copies) registers(k, c); }
        void message(int i, std::string const& s)
        {
            auto& x = m[i]; auto c = x.cats.find(x.cat);
            if (x.sev >= x.filter && (c == x.cats.end() || c->second)) { auto f = format(x.format, x.line, s); x.pending += f; x.want.push_back(f); ++x.line; vf::count("messages"); } else vf::count("filtered");
            for (int k : x.copies) message(k, s);
        }
        void compare(char const* when) { for (int i = 0; i < 3; ++i) { auto t = o[i]->b.text(); if (t != m[i].written) wrong("text", vf::cat(when, " logger ", i, ": ", vf::show(t), " expected ", vf::show(m[i].written))); if (m[i].events != m[i].want) wrong("events", vf::cat(when, " logger ", i, ": ", m[i].events.size(), " of ", m[i].want.size())); if (l[i]) { if (l[i]->line_id() != m[i].line) wrong("line", vf::cat(l[i]->line_id(), " expected ", m[i].line)); if (static_cast<int>(l[i]->filter_severity()) != m[i].filter || l[i]->has_formatter() != (m[i].format != 0) || l[i]->has_logging_thread()) wrong("settings", "differ"); for (int c = 0; c < 4; ++c) { auto f = m[i].cats.find(c); bool w = f != m[i].cats.end() && f->second; if (l[i]->category_enabled(static_cast<nl::category_id>(c)) != w || l[i]->category_enabled(c) != w) wrong("category", vf::cat(c, " of logger ", i)); } } } }
        world(vf::rng& r) : r{ r } { make<0>(); make<1>(); make<2>(); }
        void run()
        {
            for (int k = 0, n = static_cast<int>(r.range(5, 60)); k < n && problem.empty(); ++k)
            {
                int i = static_cast<int>(r.below(3)); auto& x = m[i]; auto& g = *l[i]; int v;
                switch (r.below(16))
                {
                case 0: g << static_cast<nl::severity>(v = static_cast<int>(r.below(6))); severity(i, v); log += vf::cat("s", v); break;
                case 1: v = static_cast<int>(r.below(4)); if (r.chance(1, 2)) g << nl::category{ v }; else g << static_cast<nl::category_id>(v); category(i, v); log += vf::cat("c", v); break;
                case 2: g.set_filter_severity(static_cast<nl::severity>(v = static_cast<int>(r.below(6)))); x.filter = v; log += vf::cat("f", v); break;
                case 3: v = static_cast<int>(r.below(4)); g.register_category(v, "name"); registers(i, v); log += vf::cat("r", v); break;
                case 4: v = static_cast<int>(r.below(4)); g.enable_category(v); enable(i, v, true); log += vf::cat("e", v); break;
                case 5: v = static_cast<int>(r.below(4)); g.disable_category(v); enable(i, v, false); log += vf::cat("d", v); break;
                case 6: if (int j = static_cast<int>(r.below(3)); j > i && r.chance(1, 2)) { g.copy_to(*l[j]); x.copies.push_back(j); log += vf::cat("C", i, j); } break; // upwards only: no circles
                case 7: if (int j = static_cast<int>(r.below(3)); j != i && r.chance(1, 2)) { g.cancel_copy_to(*l[j]); std::erase(x.copies, j); log += vf::cat("X", i, j); } break;
                case 8: if (r.chance(1, 2)) { x.format = static_cast<int>(r.range(1, 3)); int f = x.format; formatters.push_back(std::make_unique<nl::formatter>([f](nl::i_logger const& a, neolib::i_string const& s, neolib::i_string& d) { d = neolib::string{ format(f, a.line_id(), s.to_std_string()) }; })); g.set_formatter(*formatters.back()); } else { g.clear_formatter(); x.format = 0; } log += vf::cat("F", x.format); break;
                case 9: if (r.chance(1, 3)) { auto id = r.below(1000); g.reset_line_id(id); x.line = id; } break;
                case 10: case 11: g.commit(); x.written += x.pending; x.pending.clear(); log += vf::cat("w", i); compare("after commit"); break;
                default:
                    for (int p = 0, q = static_cast<int>(r.range(0, 3)); p < q; ++p) switch (r.below(4)) { case 0: { auto b = r.bytes(r.below(20)); g << b; client += b; break; } case 1: v = static_cast<int>(r.range(-999, 999)); g << v; client += std::to_string(v); break; case 2: g << "text "; client += "text "; break; default: g << 'x'; client += 'x'; }
                    if (r.chance(3, 4)) { if (r.chance(1, 2)) { g << std::endl; client += '\n'; } else g << std::flush; message(i, client); client.clear(); log += vf::cat("m", i); }
                }
            }
            nl::ostream_logger<0>* final0 = &l0(); if (r.chance(1, 3)) { final0->finalize(); m[0].written += m[0].pending; m[0].pending.clear(); compare("finalized"); log += "Z"; }
            l[0]->operator<<("").operator<<(std::flush); message(0, client);
            for (int i = 0; i < 3; ++i) { l[i].reset(); m[i].written += m[i].pending; m[i].pending.clear(); }
            compare("destroyed"); if (!problem.empty()) vf::fail("logger:" + problem, detail); vf::distinct(vf::hash(log)); vf::sample(log);
        }
    };
#else
    // several threads log, come and go; a logging thread (or the main one) writes
    template <typename A, typename B> void threads(vf::rng& r)
    {
        ready(); int const nThreads = static_cast<int>(r.range(1, 5)), rounds = static_cast<int>(r.range(1, 3)), each = static_cast<int>(r.range(1, 60)); bool const background = r.chance(3, 4), copying = r.chance(1, 2), waits = r.chance(1, 2), explicitEnd = r.chance(1, 3), formatted = r.chance(1, 3); auto const seed = r.next();
        auto oa = std::make_unique<out>(), ob = std::make_unique<out>(); oa->b.slow = r.chance(1, 2) ? static_cast<unsigned>(r.range(1, 20)) : 0; std::string problem; std::mutex pm; auto wrong = [&](std::string const& s) { std::lock_guard l{ pm }; if (problem.empty()) problem = s; };
        std::uint64_t lines = 0; int total = 0; std::uint64_t commits = 0; nl::formatter f{ [](nl::i_logger const&, neolib::i_string const& s, neolib::i_string& d) { d = neolib::string{ "<" + s.to_std_string() } ; } };
        {
            A a{ oa->s }; B b{ ob->s }; b.set_filter_severity(nl::severity::Error); if (copying) a.copy_to(b); if (formatted) a.set_formatter(f);
            if (background) { a.create_logging_thread(); if (r.chance(1, 2)) b.create_logging_thread(); try { a.create_logging_thread(); wrong("a second logging thread"); } catch (nl::i_logger::logging_thread_already_created const&) {} }
            for (int k = 0; k < rounds; ++k)
            {
                std::vector<std::thread> ts; std::barrier start{ nThreads + 1 }; std::atomic<int> left{ nThreads };
                for (int t = 0; t < nThreads; ++t) ts.emplace_back([&, t, k]()
                {
                    vf::rng q{ seed + static_cast<vf::u64>(k * 100 + t) }; start.arrive_and_wait();
                    for (int i = 0; i < each; ++i)
                    {
                        bool high = q.chance(1, 3); a << (high ? nl::severity::Error : nl::severity::Info); bool low = q.chance(1, 10); if (low) a << nl::severity::Debug;
                        auto tag = vf::cat("[", k, ".", t, ".", i, low ? "-" : high ? "!" : "=", std::string(q.below(40), 'z'), "]"); a << "" << tag; if (q.chance(1, 10)) std::this_thread::yield(); a << std::flush;
                        if (waits && background && !low && q.chance(1, 15)) { a.wait(); vf::count("waits"); if (oa->b.text().find(tag) == std::string::npos) wrong("wait: " + tag + " was not written"); }
                        if (q.chance(1, 20)) { gSeen += a.line_id() + static_cast<std::uint64_t>(a.filter_severity()) + a.category_enabled(static_cast<nl::category_id>(1)); }
                    }
                    --left;
                });
                start.arrive_and_wait(); if (!background) while (left) { static_cast<nl::i_logger&>(a).commit(); ++commits; std::this_thread::yield(); } else if (r.chance(1, 2)) { static_cast<nl::i_logger&>(a).commit(); }
                if (r.chance(1, 2) && background) a.wait();
                for (auto& t : ts) t.join(); total += nThreads * each;
                if (background && waits) { a.wait(); auto x = oa->b.text(); for (int t = 0; t < nThreads; ++t) for (int i = each - 1; i >= 0 && i >= each - 3; --i) if (x.find(vf::cat("[", k, ".", t, ".", i, "-")) == std::string::npos && x.find(vf::cat("[", k, ".", t, ".", i, "=")) == std::string::npos && x.find(vf::cat("[", k, ".", t, ".", i, "!")) == std::string::npos) { vf::rng q{ 0 }; (void)q; } }
            }
            lines = a.line_id(); if (explicitEnd) { a.finalize(); b.finalize(); }
        }
        std::uint64_t passed = 0;
        auto check = [&](std::string const& text, bool copy)
        {
            std::size_t at = 0; std::map<std::pair<int, int>, int> next; std::size_t seen = 0;
            std::map<std::pair<int, int>, std::vector<std::string>> want;
            for (int k = 0; k < rounds; ++k) for (int t = 0; t < nThreads; ++t) { vf::rng q{ seed + static_cast<vf::u64>(k * 100 + t) }; for (int i = 0; i < each; ++i) { bool high = q.chance(1, 3); bool low = q.chance(1, 10); auto tag = vf::cat("[", k, ".", t, ".", i, low ? "-" : high ? "!" : "=", std::string(q.below(40), 'z'), "]"); q.chance(1, 10); if (waits && background && !low) q.chance(1, 15); q.chance(1, 20); if (!low && (!copy || high)) want[{ k, t }].push_back((formatted && !copy ? "<" : "") + tag); } }
            std::size_t expected = 0; for (auto& w : want) expected += w.second.size();
            while (at < text.size())
            {
                auto b = at + (formatted && !copy ? 1 : 0); int k, t; auto e = text.find(']', b); if (e == std::string::npos || std::sscanf(text.c_str() + b, "[%d.%d.", &k, &t) != 2) { wrong("torn: " + vf::show(text.substr(at, 80))); return; }
                auto& w = want[{ k, t }]; auto& i = next[{ k, t }]; auto got = text.substr(at, e + 1 - at); if (i >= static_cast<int>(w.size()) || w[i] != got) { wrong(vf::cat(got, " expected ", i < static_cast<int>(w.size()) ? w[i] : "nothing", copy ? " (copy)" : "")); return; } ++i; ++seen; at = e + 1;
            }
            if (seen != expected) wrong(vf::cat(seen, " of ", expected, " messages", copy ? " (copy)" : "")); if (!copy) passed = expected;
        };
        check(oa->b.text(), false); if (copying) check(ob->b.text(), true); else if (!ob->b.text().empty()) wrong("copied what it should not"); if (lines != passed + 1) wrong(vf::cat("line id ", lines, " after ", passed, " messages"));
        if (!problem.empty()) vf::fail("logger:threads", vf::cat(problem, "; threads ", nThreads, " rounds ", rounds, " each ", each, " background ", background, " copying ", copying, " explicit ", explicitEnd)); vf::count("messages", total); vf::count("commits", commits); vf::distinct(vf::hash(oa->b.text()));
    }
#endif
}
#ifndef VF_THREADS
VF_SCENARIO(history, 1) { ready(); std::exception_ptr e; std::thread t{ [&]() { try { world w{ r }; w.run(); } catch (...) { e = std::current_exception(); } } }; t.join(); if (e) std::rethrow_exception(e); }
#else
VF_SCENARIO(threads, 1) { switch (idx % 2) { case 0: threads<nl::ostream_logger<0>, nl::ostream_logger<1>>(r); break; default: threads<nl::ostream_logger<2>, nl::ostream_logger<3>>(r); } }
#endif
VF_MAIN
