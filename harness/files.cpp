// C30: file helpers act on exactly the path and data they are given.
#include "vf.hpp"
#include <fstream>
#include <filesystem>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <neolib/neolib.hpp>
#include <neolib/file/file.hpp>
#include <neolib/file/hexdump.hpp>

namespace
{
    [[noreturn]] void bad(char const* k, std::string const& d) { vf::fail(vf::cat("files:", k), d); }
    struct entry { bool dir; std::string content; std::time_t date; };
    // a name the way POSIX has them: any bytes but '/' and NUL; or one which has a wide form too
    std::string some_name(vf::rng& r, bool& wide)
    {
        static std::vector<std::string> const nice = { "a", "b", "file.txt", "archive.tar.gz", ".hidden", "trailing.", "two words", "\xC3\xA9t\xC3\xA9", "\xE6\x97\xA5\xE6\x9C\xAC.txt", "\xF0\x9F\x98\x80", "x\\y", "UPPER.TXT", "dir.d", "percent%20", "..."  };
        static std::vector<std::string> const raw = { "\xFF", "caf\xE9", "\xC3", "\xED\xA0\x80", "\x80.bin", "a\xF4\x90\x80\x80", "\n", "\x01.x" };
        wide = r.chance(2, 3); if (wide) return r.pick(nice); if (r.chance(1, 2)) return r.pick(raw);
        std::string s; for (int i = 0, n = static_cast<int>(r.range(1, 6)); i < n; ++i) { char c; do c = static_cast<char>(r.below(256)); while (c == 0 || c == '/'); s += c; } if (s == "." || s == "..") s = "z"; return s;
    }
    std::wstring widen(std::string const& s)
    {
        std::wstring w; for (std::size_t i = 0; i < s.size();) { unsigned char c = s[i]; int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; wchar_t x = n == 1 ? c : c & (0xFF >> (n + 1)); for (int k = 1; k < n; ++k) x = (x << 6) | (s[i + k] & 0x3F); w += x; i += n; } return w;
    }
    std::string read_all(std::string const& p) { int f = ::open(p.c_str(), O_RDONLY); if (f < 0) return "<none>"; std::string s; char b[4096]; for (;;) { auto n = ::read(f, b, sizeof b); if (n <= 0) break; s.append(b, n); } ::close(f); return s; }
    void write_all(std::string const& p, std::string const& s) { int f = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (f < 0) throw std::runtime_error("open " + vf::show(p)); if (!s.empty() && ::write(f, s.data(), s.size()) != static_cast<ssize_t>(s.size())) throw std::runtime_error("write"); ::close(f); }

    struct disk
    {
        vf::rng& r; std::string root; std::map<std::string, entry> m; std::string log; std::map<std::string, bool> wide;
        explicit disk(vf::rng& r, vf::u64 id) : r{ r }, root{ vf::tmp() + "/d" + std::to_string(id) } { std::filesystem::remove_all(root); std::filesystem::create_directory(root); m[""] = { true, "", 0 }; wide[""] = true; }
        ~disk() { std::error_code ec; std::filesystem::remove_all(root, ec); }
        std::string at(std::string const& p) { return p.empty() ? root : root + "/" + p; }
        std::string some(bool anything = false) { std::vector<std::string> v; for (auto& x : m) if (anything || !x.first.empty()) v.push_back(x.first); return v.empty() ? "" : v[r.below(v.size())]; }
        std::string dir() { std::vector<std::string> v; for (auto& x : m) if (x.second.dir) v.push_back(x.first); return v[r.below(v.size())]; }
        std::string fresh_or_not() { bool w; auto n = some_name(r, w); auto d = dir(); auto p = d.empty() ? n : d + "/" + n; wide[p] = w && wide[d]; return p; }
        std::string parent(std::string const& p) { auto s = p.rfind('/'); return s == std::string::npos ? "" : p.substr(0, s); }
        bool W(std::string const& p) { return wide[p]; }
        void check_one(std::string const& p)
        {
            auto f = m.find(p); bool there = f != m.end(); auto path = at(p);
            if (neolib::file_exists(path) != there) bad("exists", vf::cat(vf::show(p), " exists: ", !there, "; ", log));
            if (W(p) && neolib::file_exists(widen(path)) != there) bad("exists", vf::cat("(wide) ", vf::show(p), " exists: ", !there, "; ", log));
            vf::count("looked-at");
            if (!there) { if (neolib::can_read_file(path)) bad("can_read", vf::cat(vf::show(p), " is not there; ", log)); try { neolib::file_size(path); bad("size", "of no file; " + log); } catch (std::exception const&) {} return; }
            if (f->second.dir) return;
            if (!neolib::can_read_file(path)) bad("can_read", vf::cat(vf::show(p), " can be read; ", log));
            if (neolib::file_size(path) != f->second.content.size() || neolib::large_file_size(path) != f->second.content.size()) bad("size", vf::cat(vf::show(p), "; ", log));
            if (f->second.date && neolib::file_date(path) != f->second.date) bad("date", vf::cat(vf::show(p), " ", neolib::file_date(path), " expected ", f->second.date, "; ", log));
            if (W(p)) { auto w = widen(path); if (!neolib::can_read_file(w) || neolib::file_size(w) != f->second.content.size() || neolib::large_file_size(w) != f->second.content.size() || (f->second.date && neolib::file_date(w) != f->second.date)) bad("wide", vf::cat(vf::show(p), "; ", log)); }
        }
        void check_all()
        {
            std::map<std::string, entry> got;
            for (auto& e : std::filesystem::recursive_directory_iterator(root)) { auto p = e.path().string().substr(root.size() + 1); auto f = m.find(p); if (f == m.end()) bad("created", vf::cat(vf::show(p), " is there; ", log)); got[p]; if (e.is_directory() != f->second.dir) bad("kind", vf::show(p)); if (!f->second.dir && read_all(e.path().string()) != f->second.content) bad("content", vf::cat(vf::show(p), "; ", log)); }
            if (got.size() + 1 != m.size()) bad("lost", vf::cat(m.size() - 1 - got.size(), " entries are lost; ", log));
        }
        bool free_path(std::string const& p) { for (auto q = parent(p); !q.empty(); q = parent(q)) { auto f = m.find(q); if (f != m.end() && !f->second.dir) return false; } return true; }
        void make_dirs(std::string const& p) { for (auto q = p; !q.empty(); q = parent(q)) if (!m.count(q)) { m[q] = { true, "", 0 }; wide.emplace(q, wide[p]); } }
        void step()
        {
            switch (r.below(8))
            {
            case 0: // create_path
            {
                auto p = fresh_or_not(); bool w = wide[p]; for (int i = 0, n = static_cast<int>(r.below(3)); i < n; ++i) { bool w2; p += "/" + some_name(r, w2); w = w && w2; } wide[p] = w; log += " cp:" + vf::show(p);
                auto f = m.find(p); if (!free_path(p) || (f != m.end() && !f->second.dir)) return;
                if (w && r.chance(1, 3)) { auto x = widen(at(p)); if (&neolib::create_path(x) != &x) bad("create_path", "returns another path"); } else { auto x = at(p); if (&neolib::create_path(x) != &x) bad("create_path", "returns another path"); }
                make_dirs(p); break;
            }
            case 1: // create_file
            {
                auto p = fresh_or_not(); log += " cf:" + vf::show(p); auto f = m.find(p); if (f != m.end() && f->second.dir) return;
                if (W(p) && r.chance(1, 3)) neolib::create_file(widen(at(p))); else if (neolib::create_file(at(p)) != at(p)) bad("create_file", "returns another name");
                if (f == m.end()) m[p] = { false, "", 0 }; break;
            }
            case 2: case 3: // somebody else writes
            {
                auto p = fresh_or_not(); auto f = m.find(p); if (f != m.end() && f->second.dir) return; log += " w:" + vf::show(p);
                std::string s; for (int i = 0, n = static_cast<int>(r.below(40)); i < n; ++i) s += static_cast<char>(r.below(256)); write_all(at(p), s); std::time_t date = 0;
                if (r.chance(2, 3)) { date = static_cast<std::time_t>(r.pick({ 1ll, 1000000000ll, 1234567890ll, 2000000000ll, 4102444800ll }) + static_cast<long long>(r.below(100000))); struct timespec t[2] = { { date, 0 }, { date, static_cast<long>(r.pick({ 0, 1, 499999999, 500000000, 999999999 })) } }; if (::utimensat(AT_FDCWD, at(p).c_str(), t, 0)) date = 0; }
                m[p] = { false, s, date }; break;
            }
            case 4: case 5: // move
            {
                auto from = r.chance(4, 5) ? some() : fresh_or_not(), to = fresh_or_not(); if (r.chance(1, 4)) { bool w; to += "/" + some_name(r, w); wide[to] = w && wide[parent(to)]; if (r.chance(1, 2)) { to += "/q"; wide[to] = wide[parent(to)]; } } if (from.empty()) return;
                log += " mv:" + vf::show(from) + ">" + vf::show(to); auto f = m.find(from), t = m.find(to);
                if (to == from || to.rfind(from + "/", 0) == 0) return;
                bool intoFile = !free_path(to), overDir = t != m.end() && t->second.dir; bool there = f != m.end(); bool dirMove = there && f->second.dir;
                if (dirMove || overDir) return; // directories: what rename does of them is the system's affair
                bool ok; try { ok = neolib::move_file(at(from), at(to)); } catch (std::exception const& e) { bad("move", vf::cat("throws ", e.what(), "; ", log)); }
                if (ok != (there && !intoFile)) bad("move", vf::cat("says ", ok, "; ", log));
                if (!intoFile) make_dirs(parent(to));
                if (ok) { auto e = f->second; m.erase(from); m[to] = e; vf::count("moves"); } break;
            }
            case 6: // open
            {
                auto p = some(); if (p.empty()) return; auto f = m.find(p); log += " o:" + vf::show(p);
                neolib::simple_file none; if (none.valid() || none.error() || static_cast<std::FILE*>(none)) bad("simple_file", "valid when empty");
                neolib::simple_file x{ at(p), "rb" }; if (f->second.dir) { if (!x.valid() && x.error() == 0) bad("simple_file", "no error"); return; }
                if (!x.valid() || x.error()) bad("simple_file", vf::cat("not opened; ", log));
                auto y = x; if (r.chance(1, 2)) { x.close(); if (x.valid()) bad("simple_file", "valid after close"); } std::string s; char b[64]; for (;;) { auto n = std::fread(b, 1, sizeof b, y); if (!n) break; s.append(b, n); } if (s != f->second.content) bad("simple_file", vf::cat("content; ", log));
                auto off = static_cast<long long>(r.below(s.size() + 1)); if (neolib::large_file_seek(y, off, SEEK_SET) || std::ftell(y) != off) bad("seek", log); if (neolib::large_file_seek(y, -off, SEEK_END) || std::ftell(y) != static_cast<long>(s.size()) - off) bad("seek", log); if (neolib::large_file_seek(y, -1 - off, SEEK_SET) == 0) bad("seek", "before the beginning");
                neolib::simple_file gone{ at(p) + ".none", "rb" }; if (gone.valid() || gone.error() != ENOENT) bad("simple_file", "opened what is not there");
                break;
            }
            default: { auto p = some(); if (p.empty()) return; auto f = m.find(p); if (f->second.dir) return; log += " rm:" + vf::show(p); ::unlink(at(p).c_str()); m.erase(p); break; }
            }
            check_all();
        }
    };
    void histories(vf::rng& r, vf::u64 id)
    {
        disk d{ r, id }; int n = static_cast<int>(r.range(3, 25)); for (int i = 0; i < n; ++i) { d.step(); for (int k = 0; k < 3; ++k) d.check_one(k ? d.some(true) : d.fresh_or_not()); vf::count("steps"); }
        vf::distinct(vf::hash(d.log)); vf::sample(d.log);
    }
    // in the current directory, paths without a directory
    void relative(vf::rng& r, vf::u64 id)
    {
        auto dir = vf::tmp() + "/r" + std::to_string(id); std::filesystem::create_directories(dir); struct back { std::string was = std::filesystem::current_path().string(), dir; ~back() { ::chdir(was.c_str()) ? void() : void(); std::filesystem::remove_all(dir); } } b; b.dir = dir; if (::chdir(dir.c_str())) throw std::runtime_error("chdir");
        bool w; auto x = some_name(r, w), y = some_name(r, w); if (x == y) y += "2"; write_all(x, "abc"); bool deep = r.chance(1, 3); auto to = deep ? "sub.dir/deeper/" + y : y;
        if (!neolib::file_exists(x) || neolib::file_exists(to) || neolib::file_size(x) != 3) bad("relative", vf::show(x));
        bool ok; try { ok = neolib::move_file(x, to); } catch (std::exception const& e) { bad("move", vf::cat("throws ", e.what(), " moving ", vf::show(x), " to ", vf::show(to))); }
        if (!ok || read_all(to) != "abc" || neolib::file_exists(x)) bad("move", vf::cat(vf::show(x), " to ", vf::show(to)));
        bool again; try { again = neolib::move_file(x, to); } catch (std::exception const& e) { bad("move", vf::cat("throws ", e.what())); } if (again || read_all(to) != "abc") bad("move", "moved what is not there");
        neolib::create_file(to); if (read_all(to) != "abc") bad("create_file", "empties the file"); vf::count("relative"); vf::distinct(vf::hash(x + "\n" + to));
    }
    void extensions(vf::rng& r)
    {
        std::string p; for (int i = 0, n = static_cast<int>(r.below(12)); i < n; ++i) p += r.pick({ "/", ".", "a", "b.c", "\xC3\xA9", "..", "tar", "/x" });
        auto name = p.substr(p.rfind('/') == std::string::npos ? 0 : p.rfind('/') + 1); auto dot = name.rfind('.'); auto want = dot == std::string::npos ? "" : name.substr(dot + 1);
        if (neolib::file_ext(p) != want) bad("ext", vf::cat("of ", vf::show(p), " is ", vf::show(neolib::file_ext(p)), " expected ", vf::show(want)));
        if (neolib::file_ext(widen(p)) != widen(want)) bad("ext", vf::cat("(wide) of ", vf::show(p)));
        if (neolib::tidy_path(p) != p || neolib::tidy_path(widen(p)) != widen(p)) bad("tidy", vf::show(p));
        if (neolib::convert_path(p) != widen(neolib::convert_path(widen(p)))) bad("convert", vf::show(p));
        vf::distinct(vf::hash(p));
    }
    void big(vf::rng& r, vf::u64 id)
    {
        auto p = vf::tmp() + "/big" + std::to_string(id); long long size = static_cast<long long>(r.pick({ 2147483647ull, 2147483648ull, 4294967295ull, 4294967296ull, 5000000000ull, 1ull << 40 })); { int f = ::open(p.c_str(), O_WRONLY | O_CREAT, 0600); if (f < 0 || ::ftruncate(f, size)) { if (f >= 0) ::close(f); ::unlink(p.c_str()); return; } ::close(f); }
        auto s = neolib::large_file_size(p); auto s2 = neolib::file_size(p); long long at = -1, e = -1; { neolib::simple_file f{ p, "rb" }; if (f.valid() && neolib::large_file_seek(f, size - 1, SEEK_SET) == 0) at = ::ftello(f); if (f.valid() && neolib::large_file_seek(f, -1, SEEK_END) == 0) e = ::ftello(f); } ::unlink(p.c_str());
        if (s != static_cast<unsigned long long>(size) || s2 != static_cast<unsigned long>(size)) bad("size", vf::cat(s, " expected ", size)); if (at != size - 1 || e != size - 1) bad("seek", vf::cat(at, " ", e, " expected ", size - 1)); vf::count("big"); vf::distinct(vf::hash(vf::cat(size)));
    }
    void program(vf::rng& r)
    {
        auto p = neolib::program_file(); if (p != std::filesystem::read_symlink("/proc/self/exe").string()) bad("program", p); if (neolib::program_directory() != p.substr(0, p.rfind('/'))) bad("program", neolib::program_directory());
        if (::getuid() == 0 && r.chance(1, 4))
        { // a user the system has no record of
            auto pid = ::fork(); if (pid == 0) { if (::setuid(54321 + static_cast<unsigned>(r.below(100)))) ::_exit(0); auto a = neolib::user_documents_directory(), b = neolib::user_settings_directory(); ::_exit(a == b ? 0 : 1); }
            int st = 0; while (::waitpid(pid, &st, 0) < 0 && errno == EINTR); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad("user", "directories of an unknown user"); vf::count("unknown-users");
        }
        vf::distinct(vf::hash(p)); 
    }
    void hexdumps(vf::rng& r)
    {
        std::string data; auto n = r.chance(1, 20) ? r.below(70000) : r.below(80); for (vf::u64 i = 0; i < n; ++i) data += r.chance(1, 3) ? static_cast<char>(r.below(256)) : static_cast<char>(32 + r.below(95));
        std::size_t width = r.chance(1, 3) ? 16 : r.range(1, 40); std::vector<char> exact(data.begin(), data.end()); std::ostringstream o; o << std::dec;
        if (width == 16 && r.chance(1, 2)) neolib::hex_dump(exact.data(), exact.size(), o); else neolib::hex_dump(exact.data(), exact.size(), o, width);
        std::ostringstream was; auto text = o.str(); std::string back; std::size_t at = 0, line = 0;
        while (at < text.size())
        {
            auto e = text.find('\n', at); if (e == std::string::npos) bad("hexdump", "line without end"); auto l = text.substr(at, e - at); at = e + 1;
            auto c = l.find(" : "); if (c == std::string::npos || c < 4) bad("hexdump", "offset: " + vf::show(l)); if (std::stoull(l.substr(0, c), nullptr, 16) != line * width) bad("hexdump", vf::cat("offset of line ", line, ": ", vf::show(l)));
            auto chars = l.substr(c + 3, width); auto rest = l.substr(c + 3 + width); if (chars.size() != width || rest.empty() || rest[0] != ' ') bad("hexdump", "columns: " + vf::show(l));
            std::istringstream h{ rest }; std::string b; std::string bytes; while (h >> b) { if (b.size() != 2) bad("hexdump", "byte: " + vf::show(l)); bytes += static_cast<char>(std::stoi(b, nullptr, 16)); }
            if (bytes.size() != std::min(width, data.size() - line * width)) bad("hexdump", "bytes: " + vf::show(l));
            for (std::size_t i = 0; i < bytes.size(); ++i) if (chars[i] != (static_cast<signed char>(bytes[i]) < 32 ? '.' : bytes[i])) bad("hexdump", "characters: " + vf::show(l));
            back += bytes; ++line;
        }
        if (back != data) bad("hexdump", vf::cat("lost bytes of ", vf::show(data)));
        o.str(""); o << 255; if (o.str() != "255") bad("hexdump", "leaves the stream changed: 255 is written " + o.str()); o.str(""); o.width(5); o << 1; if (o.str() != "    1") bad("hexdump", "leaves the stream changed: fills with " + o.str());
        vf::count("dumped", data.size()); vf::distinct(vf::hash(data, width));
    }
}
VF_SCENARIO(histories, 6) { histories(r, idx); }
VF_SCENARIO(relative, 2) { relative(r, idx); }
VF_SCENARIO(extensions, 8) { extensions(r); }
VF_SCENARIO(big, 1) { big(r, idx); }
VF_SCENARIO(program, 1) { program(r); }
VF_SCENARIO(hexdumps, 8) { hexdumps(r); }
VF_MAIN
