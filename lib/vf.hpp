// vf.hpp - common machinery of the neolib runtime monitors.
//
// A harness registers scenarios; each scenario is a function of (case index, seeded rng).  The
// driver runs a range of cases, records oracle failures (key + detail + case) to a jsonl file, keeps a
// progress file so that the runner can attribute a sanitizer abort / hang to the exact case and
// resume behind it, and writes measured coverage counters at the end.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <string_view>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <fstream>
#include <iostream>
#include <stdexcept>
#include <typeinfo>
#include <mutex>
#include <atomic>
#include <csignal>
#include <cxxabi.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>

namespace vf
{
    using u64 = std::uint64_t;
    using i64 = std::int64_t;

    inline u64 mix(u64 x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
    inline u64 hash_bytes(void const* p, std::size_t n, u64 h = 1469598103934665603ull)
    {
        auto b = static_cast<unsigned char const*>(p);
        for (std::size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
        return mix(h);
    }
    inline u64 hash(std::string_view s, u64 h = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), h); }

    struct rng
    {
        u64 s;
        explicit rng(u64 seed) : s{ mix(seed) } {}
        u64 next() { s += 0x9E3779B97F4A7C15ull; u64 x = s; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
        u64 below(u64 n) { return n == 0 ? 0 : next() % n; }
        i64 range(i64 a, i64 b) { return a + static_cast<i64>(below(static_cast<u64>(b - a) + 1)); }
        bool chance(unsigned num, unsigned den) { return below(den) < num; }
        double real() { return static_cast<double>(next() >> 11) / 9007199254740992.0; }
        template <typename C> auto const& pick(C const& c) { return c[below(c.size())]; }
        template <typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
        // skewed small sizes: mostly small, sometimes crossing thresholds
        std::size_t size(std::size_t maxSmall, std::size_t maxBig, unsigned bigPercent = 10) { return chance(bigPercent, 100) ? below(maxBig + 1) : below(maxSmall + 1); }
        std::string bytes(std::size_t n) { std::string r(n, 0); for (auto& c : r) c = static_cast<char>(next()); return r; }
        std::string text(std::size_t n, std::string_view alphabet) { std::string r(n, 0); for (auto& c : r) c = alphabet[below(alphabet.size())]; return r; }
    };

    struct failed {};                      // thrown by fail(): abandons the case, not the run

    inline std::string demangle(char const* n) { int st = 0; char* d = abi::__cxa_demangle(n, nullptr, nullptr, &st); std::string r = d ? d : n; std::free(d); return r; }
    inline std::string json_escape(std::string_view s)
    {
        std::string r;
        char buf[8];
        for (unsigned char c : s)
            if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
            else if (c < 32 || c >= 127) { std::snprintf(buf, sizeof buf, "\\u%04x", c); r += buf; }
            else r += static_cast<char>(c);
        return r;
    }
    inline std::string show(std::string_view s, std::size_t maxLen = 300)
    {
        std::string r = "\"";
        char buf[8];
        std::size_t n = 0;
        for (unsigned char c : s)
        {
            if (++n > maxLen) { r += "..."; break; }
            if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
            else if (c == '\n') r += "\\n";
            else if (c < 32 || c >= 127) { std::snprintf(buf, sizeof buf, "\\x%02x", c); r += buf; }
            else r += static_cast<char>(c);
        }
        r += "\"";
        if (s.size() > maxLen) r += "(" + std::to_string(s.size()) + " bytes)";
        return r;
    }
    template <typename... Args> inline std::string cat(Args const&... args) { std::ostringstream o; ((o << args), ...); return o.str(); }

    struct state
    {
        std::string job;
        u64 seed = 1, start = 0, count = 0, cur = 0;
        std::string tier = "quick";
        std::FILE* failFile = nullptr;
        int progressFd = -1;
        std::map<std::string, u64> counters;
        std::unordered_set<u64> distinct;
        u64 trivial = 0;
        std::vector<std::string> samples;
        std::mutex mutex;
        u64 fails = 0;
        std::map<std::string, u64> failKeys;
        std::string ctx;                     // free text describing what the case is doing
        std::string tmp;
    };
    inline state& st() { static state* s = new state; return *s; }

    inline bool thorough() { return st().tier == "thorough"; }
    inline void count(std::string const& name, u64 n = 1) { std::lock_guard l{ st().mutex }; st().counters[name] += n; }
    inline void max(std::string const& name, u64 n) { std::lock_guard l{ st().mutex }; auto& c = st().counters["max:" + name]; if (n > c) c = n; }
    // one observed behaviour, counted as distinct if its hash is new
    inline void distinct(u64 h) { std::lock_guard l{ st().mutex }; st().distinct.insert(h); }
    inline void trivial() { std::lock_guard l{ st().mutex }; ++st().trivial; }
    inline void sample(std::string const& s) { std::lock_guard l{ st().mutex }; if (st().samples.size() < 3) st().samples.push_back(s.substr(0, 600)); }
    inline void record(std::string const& key, std::string const& detail)
    {
        std::lock_guard l{ st().mutex };
        ++st().fails;
        if (++st().failKeys[key] > 5)
            return;
        std::fprintf(st().failFile, "{\"key\":\"%s\",\"case\":%llu,\"detail\":\"%s\"}\n", json_escape(key).c_str(), (unsigned long long)st().cur, json_escape(detail.substr(0, 4000)).c_str());
        std::fflush(st().failFile);
    }
    [[noreturn]] inline void fail(std::string const& key, std::string const& detail) { record(key, detail); throw failed{}; }

    // the scratch directory the runner made for this process
    inline std::string const& tmp() { return st().tmp; }

    // an element type that watches its own lifetime: construction/destruction balance, no use of
    // dead or foreign storage, no assignment into raw memory
    struct tracked
    {
        static inline std::atomic<i64> live{ 0 };
        static constexpr u64 MAGIC = 0xA11CE5ED0B1EC7ull;
        u64 magic; void const* self; i64 v; int* heap;
        void alive(char const* where) const { if (magic != MAGIC || self != this) fail(cat("lifetime:", where), cat("element at ", this, " used while not alive (", where, ")")); }
        tracked(i64 x = 0) : magic{ MAGIC }, self{ this }, v{ x }, heap{ new int(static_cast<int>(x)) } { ++live; }
        tracked(tracked const& o) : magic{ MAGIC }, self{ this }, v{ (o.alive("copy-from-dead"), o.v) }, heap{ new int(static_cast<int>(o.v)) } { ++live; }
        tracked(tracked&& o) : magic{ MAGIC }, self{ this }, v{ (o.alive("move-from-dead"), o.v) }, heap{ new int(static_cast<int>(o.v)) } { ++live; o.v = -777; }
        tracked& operator=(tracked const& o) { alive("assign-to-dead"); o.alive("assign-from-dead"); v = o.v; return *this; }
        tracked& operator=(tracked&& o) { alive("assign-to-dead"); o.alive("assign-from-dead"); if (this != &o) { v = o.v; o.v = -777; } return *this; }
        ~tracked() { if (magic != MAGIC || self != this) { record("lifetime:destroy-dead", cat("destructor of an element not alive at ", this)); std::_Exit(98); } magic = 0; self = nullptr; delete heap; --live; }
        friend bool operator==(tracked const& a, tracked const& b) { a.alive("compare-dead"); b.alive("compare-dead"); return a.v == b.v; }
        friend bool operator<(tracked const& a, tracked const& b) { a.alive("compare-dead"); b.alive("compare-dead"); return a.v < b.v; }
        friend auto operator<=>(tracked const& a, tracked const& b) { a.alive("compare-dead"); b.alive("compare-dead"); return a.v <=> b.v; }
        friend std::ostream& operator<<(std::ostream& o, tracked const& t) { return o << t.v; }
    };
    inline i64 val(tracked const& t) { t.alive("read-dead"); return t.v; }

    using scenario_fn = std::function<void(rng&, u64)>;
    struct scenario { std::string name; unsigned weight; scenario_fn fn; };
    inline std::vector<scenario>& scenarios() { static auto* v = new std::vector<scenario>; return *v; }
    struct reg { reg(std::string n, unsigned w, scenario_fn f) { scenarios().push_back({ n, w, f }); } };

    inline void on_hang(int)
    {
        static char const msg[] = "\nVF-HANG\n";
        [[maybe_unused]] auto r = ::write(2, msg, sizeof msg - 1);
        ::_exit(97);
    }
    // per case CPU budget (0: wall clock budget is used instead, for threaded harnesses)
    struct options { unsigned cpuSeconds = 5; unsigned wallSeconds = 0; };
    inline options& opts() { static options o; return o; }

    inline void arm()
    {
        itimerval t{};
        if (opts().wallSeconds) { t.it_value.tv_sec = opts().wallSeconds; ::setitimer(ITIMER_REAL, &t, nullptr); }
        else { t.it_value.tv_sec = opts().cpuSeconds; ::setitimer(ITIMER_PROF, &t, nullptr); }
    }

    inline int run(int argc, char** argv)
    {
        std::string failPath, outPath, progressPath, only;
        double scale = 1.0;
        for (int i = 1; i + 1 < argc; i += 2)
        {
            std::string a = argv[i], v = argv[i + 1];
            if (a == "--seed") st().seed = std::stoull(v);
            else if (a == "--start") st().start = std::stoull(v);
            else if (a == "--count") st().count = std::stoull(v);
            else if (a == "--tier") st().tier = v;
            else if (a == "--fails") failPath = v;
            else if (a == "--out") outPath = v;
            else if (a == "--progress") progressPath = v;
            else if (a == "--tmp") st().tmp = v;
            else if (a == "--only") only = v;
            else if (a == "--budget") scale = std::stod(v);
        }
        opts().cpuSeconds = static_cast<unsigned>(opts().cpuSeconds * scale);
        opts().wallSeconds = static_cast<unsigned>(opts().wallSeconds * scale);
        st().failFile = failPath.empty() ? stderr : std::fopen(failPath.c_str(), "a");
        if (!progressPath.empty()) st().progressFd = ::open(progressPath.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
        std::signal(SIGPROF, on_hang);
        std::signal(SIGALRM, on_hang);
        std::vector<std::size_t> wheel;
        for (std::size_t i = 0; i < scenarios().size(); ++i)
            if (only.empty() || scenarios()[i].name == only)
                for (unsigned w = 0; w < scenarios()[i].weight; ++w) wheel.push_back(i);
        if (wheel.empty()) { std::fprintf(stderr, "no scenario\n"); return 3; }
        // spread the scenarios evenly along the case axis
        { rng r{ 12345 }; for (std::size_t i = wheel.size(); i > 1; --i) std::swap(wheel[i - 1], wheel[r.below(i)]); }
        for (u64 c = st().start; c < st().start + st().count; ++c)
        {
            auto& s = scenarios()[wheel[c % wheel.size()]];
            st().cur = c;
            if (st().progressFd >= 0)
            {
                char buf[160];
                int n = std::snprintf(buf, sizeof buf, "%-20llu %-100s\n", (unsigned long long)c, s.name.c_str());
                [[maybe_unused]] auto r = ::pwrite(st().progressFd, buf, n, 0);
            }
            arm();
            rng r{ mix(st().seed) ^ mix(c * 2654435761ull + hash(s.name)) };
            try { s.fn(r, c); }
            catch (failed const&) {}
            catch (std::exception const& e) { record("unexpected-exception:" + s.name + ":" + demangle(typeid(e).name()), e.what()); }
            catch (...) { record("unexpected-exception:" + s.name + ":unknown", ""); }
            count("scenario:" + s.name);
        }
        itimerval off{};
        ::setitimer(ITIMER_PROF, &off, nullptr);
        ::setitimer(ITIMER_REAL, &off, nullptr);
        if (!outPath.empty())
        {
            std::ofstream o{ outPath };
            o << "{\"cases\":" << st().count << ",\"fails\":" << st().fails << ",\"trivial\":" << st().trivial << ",\"counters\":{";
            bool first = true;
            for (auto& [k, v] : st().counters) { o << (first ? "" : ",") << "\"" << json_escape(k) << "\":" << v; first = false; }
            o << "},\"distinct\":[";
            first = true;
            u64 n = 0;
            for (auto h : st().distinct) { if (++n > 400000) break; o << (first ? "" : ",") << "\"" << std::hex << h << std::dec << "\""; first = false; }
            o << "],\"samples\":[";
            first = true;
            for (auto& s : st().samples) { o << (first ? "" : ",") << "\"" << json_escape(s) << "\""; first = false; }
            o << "]}";
        }
        std::fflush(nullptr);
        if (st().failFile != stderr) std::fclose(st().failFile);
        ::_exit(0);   // the cases are what is judged, not static destruction
    }
}

#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define VF_SCENARIO(name, weight) \
    static void VF_CAT(vf_scn_, name)(vf::rng& r, vf::u64 idx); \
    static vf::reg VF_CAT(vf_reg_, name){ #name, weight, VF_CAT(vf_scn_, name) }; \
    static void VF_CAT(vf_scn_, name)([[maybe_unused]] vf::rng& r, [[maybe_unused]] vf::u64 idx)
#define VF_CHECK(cond, key, detail) do { if (!(cond)) vf::fail((key), (detail)); } while (0)
#define VF_EXPECT(a, b, key, detail) do { auto const& vf_a = (a); auto const& vf_b = (b); if (!(vf_a == vf_b)) vf::fail((key), vf::cat("got ", vf_a, " want ", vf_b, "; ", detail)); } while (0)
#define VF_MAIN int main(int argc, char** argv) { return vf::run(argc, argv); }
