// C13: a packet stream delivers what is sent over it, in order, once, and says truthfully what becomes of it.
#include "vf.hpp"
#include <chrono>
#include <csignal>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <unistd.h>
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/x509.h>
#include <openssl/evp.h>
#include <neolib/neolib.hpp>
#include <neolib/core/service.hpp>
#include <boost/asio.hpp>
#include <neolib/task/async_task.hpp>
#include <neolib/io/packet_stream.hpp>

namespace { neolib::async_task& main_task() { static auto& t = *new neolib::async_task{ "streams" }; return t; } }
namespace neolib { template<> i_async_task& services::start_service<i_async_task>() { return main_task(); } }
namespace
{
    [[maybe_unused]] bool const gWall = (::signal(SIGPIPE, SIG_IGN), vf::opts().wallSeconds = 240, vf::opts().cpuSeconds = 40, true);
    neolib::async_task& task() { static bool const ready = (neolib::allocate_service_provider(), neolib::services::service<neolib::i_async_task>(), true); (void)ready; return main_task(); }
    SSL_CTX* tls()
    {
        static SSL_CTX* const ctx = []()
        {
            auto key = EVP_EC_gen("P-256"); auto x = X509_new(); X509_set_version(x, 2); ASN1_INTEGER_set(X509_get_serialNumber(x), 1); X509_gmtime_adj(X509_getm_notBefore(x), -3600); X509_gmtime_adj(X509_getm_notAfter(x), 86400); X509_set_pubkey(x, key);
            X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, reinterpret_cast<unsigned char const*>("localhost"), -1, -1, 0); X509_set_issuer_name(x, X509_get_subject_name(x)); X509_sign(x, key, EVP_sha256());
            auto c = SSL_CTX_new(TLS_server_method()); SSL_CTX_use_certificate(c, x); SSL_CTX_use_PrivateKey(c, key); X509_free(x); EVP_PKEY_free(key); return c;
        }();
        return ctx;
    }
    // the other end of one connection, by system calls only
    struct conn
    {
        bool secure = false, shaken = false, eof = false, accepted = false; int fd = -1; SSL* ssl = nullptr; unsigned short port = 0; std::string stream, received, toSend, arrivedRaw; std::size_t written = 0; bool mute = false;
        ~conn() { drop(true); }
        void drop(bool reset) { if (ssl) { if (shaken && !reset) SSL_shutdown(ssl); SSL_free(ssl); ssl = nullptr; } if (fd >= 0) { if (reset) { linger l{ 1, 0 }; ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); } ::close(fd); fd = -1; } }
        void accept_as(int f) { fd = f; accepted = true; ::fcntl(fd, F_SETFL, O_NONBLOCK); int one = 1; ::setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); if (secure) { ssl = SSL_new(tls()); SSL_set_fd(ssl, fd); SSL_set_accept_state(ssl); } }
        bool read_some()
        {
            if (fd < 0 || eof || mute) return false; char b[32768]; long n; ERR_clear_error();
            if (!secure) { n = ::recv(fd, b, sizeof b, 0); if (n == 0 || (n < 0 && errno != EAGAIN && errno != EINTR)) { eof = true; return true; } }
            else { if (!shaken) { if (SSL_do_handshake(ssl) != 1) { auto e = SSL_get_error(ssl, -1); if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) eof = true; return false; } shaken = true; } n = SSL_read(ssl, b, sizeof b); if (n <= 0) { auto e = SSL_get_error(ssl, static_cast<int>(n)); if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) eof = true; } }
            if (n > 0) { received.append(b, n); return true; } return false;
        }
        bool write_some(std::size_t most)
        {
            if (fd < 0 || written == toSend.size() || (secure && !shaken)) return false; auto n = std::min(most, toSend.size() - written); ERR_clear_error(); long k = secure ? SSL_write(ssl, toSend.data() + written, static_cast<int>(n)) : ::send(fd, toSend.data() + written, n, MSG_NOSIGNAL); if (k > 0) { written += k; return true; } return false;
        }
    };
    struct listener
    {
        int fd; unsigned short port; listener(bool listening) { fd = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (fd < 0 || ::bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) || (listening && ::listen(fd, 64))) throw std::runtime_error("listen"); socklen_t l = sizeof a; ::getsockname(fd, reinterpret_cast<sockaddr*>(&a), &l); port = ntohs(a.sin_port); ::fcntl(fd, F_SETFL, O_NONBLOCK); }
        ~listener() { ::close(fd); }
    };
    std::vector<std::string> lines(std::string const& s) { std::vector<std::string> v; std::string c; for (char x : s) if (x == '\r' || x == '\n') { if (!c.empty()) v.push_back(c); c.clear(); } else c += x; return v; }

    enum state { Closed, Opening, Connected, Failed };
    template <typename Stream> struct world
    {
        using packet = typename Stream::packet_type; static constexpr bool text = std::is_same_v<packet, neolib::string_packet>;
        vf::rng& r; bool secure; std::string log, problem; listener open_{ true }, refuse{ false }; std::unique_ptr<Stream> s; neolib::sink sink; std::vector<std::shared_ptr<conn>> conns; std::shared_ptr<conn> cur;
        state st = Closed; bool expectFail = false, dirty = false; std::deque<std::string> queue; std::optional<std::string> inflight; std::vector<std::string> got; std::string gotBytes; int actions; int opens = 0, established = 0, failures = 0, closes = 0, wantCloses = 0; bool inHandler = false; bool dead = false;
        boost::asio::io_context& io;
        world(vf::rng& r, bool secure) : r{ r }, secure{ secure }, io{ task().io_context().template native_object<boost::asio::io_context>() } { actions = r.chance(1, 3) ? 0 : static_cast<int>(r.below(6)); }
        ~world() { s.reset(); for (int i = 0; i < 3; ++i) { io.restart(); io.poll(); } }
        void wrong(std::string const& k, std::string const& d) { if (problem.empty()) problem = k + "\n" + d + "; " + log; }
        void verdict() { if (!problem.empty()) { auto n = problem.find('\n'); vf::fail("stream:" + problem.substr(0, n), problem.substr(n + 1)); } }
        static std::string bytes(packet const& p) { return p.empty() ? std::string{} : std::string(p.data(), p.length()); }
        void create(bool withHost)
        {
            if (withHost) { log += "H"; fresh(); s = std::make_unique<Stream>(task(), "127.0.0.1", open_.port, secure); watch(); opened(false); }
            else { log += "N"; s = std::make_unique<Stream>(task(), secure); st = Closed; queue.clear(); inflight.reset(); watch(); }
        }
        void fresh() { queue.clear(); inflight.reset(); }
        void watch()
        {
            sink.clear();
            sink += s->connection_established([this]() { event("E"); ++established; if (st != Opening || expectFail) return wrong("established", "out of place"); st = Connected; if (!s->connected() || s->closed() || s->has_error()) wrong("state", "established but not connected, or with an error"); act(); pick(); });
            sink += s->connection_failure([this](boost::system::error_code const& e) { event("F"); ++failures; if (st != Opening || !expectFail) return wrong("failure", vf::cat("out of place: ", e.message())); st = Failed; if (!s->has_error() || s->error_code() == 0 || s->connected()) wrong("state", "failed without error"); act(); });
            sink += s->packet_sent([this](packet const& p) { event("s"); if (st != Connected || !inflight) return wrong("sent", "out of place"); if (bytes(p) != *inflight) wrong("sent", vf::cat(vf::show(bytes(p)), " expected ", vf::show(*inflight))); inflight.reset(); vf::count("sent"); act(); pick(); });
            sink += s->packet_arrived([this](packet const& p) { event("a"); if (st != Connected) return wrong("arrived", "when not connected: " + vf::show(bytes(p))); if (p.empty()) wrong("arrived", "an empty packet"); got.push_back(bytes(p)); gotBytes += bytes(p); vf::count("arrived"); auto before = got.back(); bool more = act(); if (!more && s && bytes(p) != before) wrong("arrived", "the packet changed while it was handled"); });
            sink += s->transfer_failure([this](boost::system::error_code const& e) { event("T"); if (st != Connected) return wrong("transfer_failure", "when not connected"); if (!dirty) wrong("transfer_failure", e.message()); inflight.reset(); wantClosed = true; act(); });
            sink += s->connection_closed([this]() { event("C"); ++closes; if (leaving) return; if (!wantClosed) return wrong("closed", "for no reason"); wantClosed = false; if (st != Connected) return wrong("closed", "when not connected"); st = Closed; fresh(); if (s->connected() || !s->closed() || !s->underflow()) wrong("state", "closed but still something"); act(); });
        }
        bool wantClosed = false, leaving = false;
        void event(char const* e) { log += e; if (dead) wrong("destroyed", "an event of a stream that is gone"); }
        void pick() { if (st != Connected || inflight || queue.empty() || !cur) return; inflight = queue.front(); queue.pop_front(); cur->stream += *inflight; }
        // something done from within a handler; true: the stream was closed or destroyed
        bool act()
        {
            if (actions <= 0 || !r.chance(1, 3)) return false; --actions; vf::count("acts-in-handlers");
            switch (r.below(8))
            {
            case 0: case 1: case 2: send(); return false;
            case 3: close(); return true;
            case 4: close(); if (s) open(); return true;
            case 5: destroy(); return true;
            default: return false;
            }
        }
        void send()
        {
            if (!s) return; std::string d; auto kind = r.below(20); if (kind == 0) ; else if (kind == 1 && !secure) d.assign(r.range(100000, 1500000), 'x'); else for (int i = 0, n = static_cast<int>(r.range(1, 30)); i < n; ++i) d += static_cast<char>(r.below(256)); if (r.chance(1, 2) && kind) d += "\n";
            bool high = r.chance(1, 4); log += high ? "!" : "+"; if (d.empty()) log += "0"; if (d.size() > 1000) log += "B";
            if (high) queue.push_front(d); else queue.push_back(d); pick();
            try { s->send_packet(packet{ d.data(), d.size() }, high); } catch (std::exception const& e) { wrong("send", vf::cat("throws ", e.what())); } vf::count("packets");
        }
        void open()
        {
            if (!s || st != Closed) return; bool bad = r.chance(1, 8); log += bad ? "X" : "O"; opened(bad);
            bool ok = false; try { ok = s->open(r.chance(1, 4) ? "localhost" : "127.0.0.1", bad ? refuse.port : open_.port, secure); } catch (std::exception const& e) { wrong("open", e.what()); } if (!ok) wrong("open", "refused"); if (cur) cur->port = s->connection().local_port(); if (!s->opened() || s->connected() || s->has_error()) wrong("state", "not opened, or with an error");
        }
        void opened(bool bad) { ++opens; expectFail = bad; dirty = false; st = Opening; got.clear(); gotBytes.clear(); cur = std::make_shared<conn>(); cur->secure = secure; cur->port = s ? s->connection().local_port() : 0; conns.push_back(cur); vf::count("connections"); }
        void close() { if (!s) return; log += "c"; bool was = st == Connected; if (was) wantClosed = true; auto before = closes; bool opening = st == Opening; if (opening) vf::count("closed-while-opening"); if (!was) { st = Closed; fresh(); } s->close(); if (was && closes == before && !dead && wantClosed) wrong("closed", "not told"); }
        void destroy() { if (!s) return; log += "D"; wantClosed = false; leaving = true; st = Closed; fresh(); s.reset(); leaving = false; sink.clear(); vf::count("destroyed"); }
        void pump(bool drain = true)
        {
            io.restart(); io.poll();
            for (;;) { sockaddr_in a{}; socklen_t l = sizeof a; int f = ::accept(open_.fd, reinterpret_cast<sockaddr*>(&a), &l); if (f < 0) break; auto p = ntohs(a.sin_port); bool found = false; for (auto i = conns.rbegin(); i != conns.rend() && !found; ++i) if ((*i)->port == p && !(*i)->accepted) { (*i)->accept_as(f); found = true; } if (!found) ::close(f); }
            if (drain) for (auto& c : conns) { while (c->read_some()); if (c->stream.compare(0, c->received.size(), c->received) != 0 || c->received.size() > c->stream.size()) wrong("received", vf::cat("the other end got ", vf::show(c->received), " of ", vf::show(c->stream))); }
            for (auto& c : conns) c->write_some(r.chance(1, 2) ? 1 << 20 : r.range(1, 10));
            arrivals();
        }
        void arrivals()
        {
            if (!cur) return; std::string raw = cur->toSend.substr(0, cur->written); // partly written records of TLS are whole or not at all
            if constexpr (text) { auto want = lines(raw); if (got.size() > want.size() || !std::equal(got.begin(), got.end(), want.begin())) wrong("arrived", vf::cat(got.size(), " lines, the last ", got.empty() ? "" : vf::show(got.back()), " of ", vf::show(raw))); }
            else if (gotBytes.size() > raw.size() || raw.compare(0, gotBytes.size(), gotBytes) != 0) wrong("arrived", vf::cat(vf::show(gotBytes), " of ", vf::show(raw)));
        }
        template <typename F> void until(char const* what, F done)
        {
            auto start = std::chrono::steady_clock::now(); int idle = 0;
            while (problem.empty() && !done()) { pump(); if (++idle > 20) { std::this_thread::sleep_for(std::chrono::microseconds(200)); } if (static int stalls = 0; std::chrono::steady_clock::now() - start > std::chrono::seconds(stalls ? 3 : 45)) { ++stalls; wrong("stalled", vf::cat(what, ": state ", int(st), " accepted ", cur && cur->accepted, " queued ", queue.size(), " in flight ", inflight ? 1 : 0, " received ", cur ? cur->received.size() : 0, " of ", cur ? cur->stream.size() : 0, " written ", cur ? cur->written : 0, " of ", cur ? cur->toSend.size() : 0, " shaken ", cur && cur->shaken, " end ", cur && cur->eof, " got ", got.size())); } }
            verdict();
        }
        bool all_arrived() { if (!cur || cur->written != cur->toSend.size()) return false; if constexpr (text) return got.size() == lines(cur->toSend).size(); else return gotBytes.size() == cur->toSend.size(); }
        void settle() // wait for whatever must come
        {
            auto c = cur; auto o = opens; until("opening", [&]() { return st != Opening || o != opens; }); if (o != opens || st != Connected) return;
            until("transfer", [&]() { return o != opens || st != Connected || (cur->accepted && queue.empty() && !inflight && cur->received.size() == cur->stream.size() && all_arrived()); });
            if (o == opens && st == Connected && !s->underflow()) wrong("underflow", "all was sent"); verdict();
        }
        void run()
        {
            if (r.chance(1, 3)) create(true); else { create(false); if (r.chance(2, 3)) open(); }
            for (int i = 0, n = static_cast<int>(r.range(4, 30)); i < n; ++i)
            {
                if (!s) { if (r.chance(1, 2)) create(r.chance(1, 3)); else { pump(); verdict(); continue; } }
                switch (r.below(15))
                {
                case 0: case 1: open(); break;
                case 2: case 3: case 4: send(); break;
                case 5: if (st != Closed && r.chance(1, 2)) close(); break;
                case 6: if (r.chance(1, 4)) destroy(); break;
                case 7: case 8: case 14: if (st == Opening && r.chance(1, 2)) settle(); if (cur && st == Connected) { log += "w"; for (int k = 0, m = static_cast<int>(r.range(1, 12)); k < m; ++k) { cur->toSend += r.pick({ "\n", "\r\n", "\r", "abc", "x", "\n\n", "line\n" }); if (r.chance(1, 30)) cur->toSend.append(r.range(900, 5000), 'y'); } } break;
                case 9: case 10: log += "."; pump(r.chance(1, 2)); break;
                case 11: case 12: log += "="; settle(); break;
                default: // the other end leaves
                    if (cur && st == Connected && cur->accepted && r.chance(1, 2))
                    {
                        auto how = r.below(3); auto c = cur; auto o = opens; log += how == 0 ? "f" : how == 1 ? "q" : "R"; vf::count("peer-left");
                        if (how == 0) { settle(); if (o != opens || st != Connected) break; wantClosed = true; dirty = secure; auto b = closes; c->drop(false); until("close", [&]() { return closes != b || o != opens || !s; }); }
                        else { dirty = true; wantClosed = true; auto b = closes; c->drop(how == 2); until("close", [&]() { if (st == Connected && c->fd < 0 && s && !inflight && queue.empty() && how == 1) {} return closes != b || o != opens || !s; }); }
                    }
                    break;
                }
                verdict();
            }
            if (s && st != Closed) settle(); verdict(); auto last = cur; bool clean = s && st == Connected && !dirty; close(); verdict(); destroy();
            for (int i = 0; i < 4; ++i) pump(); verdict(); if (clean && last && last->fd >= 0) until("end seen by the other side", [&]() { return last->eof; });
            verdict(); vf::distinct(vf::hash(log)); vf::sample(log);
        }
    };
    template <typename S> void go(vf::rng& r, bool secure) { task(); world<S> w{ r, secure }; w.run(); }
    // destroyed or reopened while the name is still being looked up
    void brief(vf::rng& r)
    {
        using S = neolib::tcp_string_packet_stream; task(); auto& io = main_task().io_context().native_object<boost::asio::io_context>(); listener l{ true }; int events = 0; neolib::sink sink; std::string log;
        for (int i = 0, n = static_cast<int>(r.range(1, 4)); i < n; ++i)
        {
            auto s = std::make_unique<S>(main_task(), "127.0.0.1", l.port); sink += s->connection_established([&]() { ++events; }); sink += s->connection_failure([&](boost::system::error_code const&) { ++events; }); sink += s->connection_closed([&]() { ++events; });
            if (r.chance(1, 2)) { s->send_packet(neolib::string_packet{ std::string{ "abc\n" } }); log += "s"; } if (r.chance(1, 2)) { s->close(); log += "c"; } s.reset(); log += "d"; sink.clear(); if (r.chance(1, 2)) { io.restart(); io.poll(); log += "."; }
        }
        auto start = std::chrono::steady_clock::now(); while (std::chrono::steady_clock::now() - start < std::chrono::milliseconds(r.below(4))) { io.restart(); io.poll(); } if (events) vf::fail("stream:destroyed", vf::cat(events, " events; ", log)); vf::count("brief"); vf::distinct(vf::hash(log));
    }
}
VF_SCENARIO(text, 6) { go<neolib::tcp_string_packet_stream>(r, false); }
VF_SCENARIO(binary, 3) { go<neolib::tcp_binary_packet_stream>(r, false); }
VF_SCENARIO(small_buffer, 2) { go<neolib::packet_stream<neolib::string_packet, neolib::tcp_protocol, 7>>(r, false); }
#ifndef VF_PLAIN
VF_SCENARIO(secure, 3) { go<neolib::tcp_string_packet_stream>(r, true); }
#endif
VF_SCENARIO(brief, 1) { brief(r); }
VF_MAIN
