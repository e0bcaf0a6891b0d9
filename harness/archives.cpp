// C11: zip and gunzip against archives written here, whole and damaged.
#include "vf.hpp"
#include <cstring>
#include <vector>
#include <set>
#include <fstream>
#include <sstream>
#include <filesystem>
#include <algorithm>
#include <zlib.h>
#include <neolib/neolib.hpp>
#include <neolib/file/zip.hpp>
#include <neolib/file/gunzip.hpp>

namespace
{
    namespace fs = std::filesystem; using bytes = std::string;
    void le(bytes& b, std::uint32_t v, int n) { for (int i = 0; i < n; ++i) b += char(v >> (8 * i)); }
    void put(bytes& b, std::size_t at, std::uint32_t v, int n) { for (int i = 0; i < n; ++i) if (at + i < b.size()) b[at + i] = char(v >> (8 * i)); }
    std::uint32_t crc(bytes const& b) { return std::uint32_t(::crc32(0, reinterpret_cast<Bytef const*>(b.data()), uInt(b.size()))); }
    bytes content(vf::rng& r)
    {
        bytes b; std::size_t n = r.chance(1, 6) ? 0 : r.chance(1, 12) ? r.below(200000) : r.below(600);
        switch (r.below(4)) { case 0: b.assign(n, char(r.below(256))); break; case 1: for (; b.size() < n;) b += char(r.below(256)); break; case 2: { auto k = 1 + r.below(20); for (std::size_t i = 0; i < n; ++i) b += char('a' + i % k); break; } default: { char const* w[] = { "neo", "lib ", "zip", "\n", "\0x", "lorem ipsum " }; for (; b.size() < n;) b += w[r.below(6)]; b.resize(n); } }
        return b;
    }
    bytes squeeze(vf::rng& r, bytes const& b)
    {
        z_stream s{}; deflateInit2(&s, int(r.below(10)), Z_DEFLATED, -MAX_WBITS, 8, r.pick<int>({ Z_DEFAULT_STRATEGY, Z_FIXED, Z_HUFFMAN_ONLY })); bytes o(deflateBound(&s, b.size()) + 64, 0);
        s.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(b.data())); s.avail_in = uInt(b.size()); s.next_out = reinterpret_cast<Bytef*>(o.data()); s.avail_out = uInt(o.size());
        if (deflate(&s, Z_FINISH) != Z_STREAM_END) vf::fail("harness:deflate", ""); o.resize(s.total_out); deflateEnd(&s); return o;
    }
    struct entry { std::string name; bytes data, packed; bool deflated, trailing; std::size_t at = 0, dir = 0; };
    struct archive { std::vector<entry> e; bytes b; std::size_t dir = 0; std::string log; };
    archive make(vf::rng& r, bool evil)
    {
        archive a; auto n = r.chance(1, 10) ? 0 : 1 + r.below(7); auto junk = [&](std::size_t most) { bytes j; if (r.chance(1, 3)) for (auto k = r.below(most); k; --k) j += char(r.below(256)); return j; };
        for (std::size_t i = 0; i < n; ++i)
        {
            entry e; e.name = r.chance(1, 8) && i ? a.e[r.below(i)].name : vf::cat(r.chance(1, 3) ? "dir/" : "", r.chance(1, 4) ? "\xC3\xA9 name " : "f", i, r.chance(1, 2) ? ".txt" : ""); if (r.chance(1, 20)) e.name = "";
            if (evil && r.chance(1, 2)) e.name = vf::cat(r.pick<char const*>({ "../x", "../../x", "dir/../../x", "./../x", "dir/../x", "..x", "x..", "dir/..x" }), i);
            e.data = content(r); e.deflated = r.chance(2, 3); e.trailing = r.chance(1, 4); e.packed = e.deflated ? squeeze(r, e.data) : e.data; a.e.push_back(e);
        }
        std::vector<std::size_t> order(n); for (std::size_t i = 0; i < n; ++i) order[i] = i; if (r.chance(1, 3)) for (std::size_t i = n; i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
        a.b = junk(40);
        for (auto i : order)
        {
            auto& e = a.e[i]; e.at = a.b.size(); auto extra = junk(20); bool t = e.trailing; auto name = e.name;
            le(a.b, 0x04034b50, 4); le(a.b, 20, 2); le(a.b, t ? 8 : 0, 2); le(a.b, e.deflated ? 8 : 0, 2); le(a.b, r.below(65536), 2); le(a.b, r.below(65536), 2); le(a.b, t ? 0 : crc(e.data), 4); le(a.b, t ? 0 : e.packed.size(), 4); le(a.b, t ? 0 : e.data.size(), 4); le(a.b, name.size(), 2); le(a.b, extra.size(), 2);
            a.b += name + extra + e.packed; if (t) { le(a.b, 0x08074b50, 4); le(a.b, crc(e.data), 4); le(a.b, e.packed.size(), 4); le(a.b, e.data.size(), 4); }
            a.b += junk(30);
        }
        a.dir = a.b.size();
        for (auto& e : a.e)
        {
            e.dir = a.b.size(); auto extra = junk(20), comment = junk(20);
            le(a.b, 0x02014b50, 4); le(a.b, 20, 2); le(a.b, 20, 2); le(a.b, e.trailing ? 8 : 0, 2); le(a.b, e.deflated ? 8 : 0, 2); le(a.b, 0, 4); le(a.b, crc(e.data), 4); le(a.b, e.packed.size(), 4); le(a.b, e.data.size(), 4); le(a.b, e.name.size(), 2); le(a.b, extra.size(), 2); le(a.b, comment.size(), 2); le(a.b, 0, 2); le(a.b, 0, 2); le(a.b, 0, 4); le(a.b, e.at, 4);
            a.b += e.name + extra + comment;
        }
        auto size = a.b.size() - a.dir; le(a.b, 0x06054b50, 4); le(a.b, 0, 2); le(a.b, 0, 2); le(a.b, n, 2); le(a.b, n, 2); le(a.b, size, 4); le(a.b, a.dir, 4); le(a.b, 0, 2);
        std::ostringstream o; for (auto& e : a.e) o << "[" << e.name << " " << e.data.size() << (e.deflated ? " deflated " : " stored ") << e.packed.size() << (e.trailing ? " trailing" : "") << "]"; a.log = o.str(); return a;
    }
    using Z = neolib::zip;
    // an archive in memory of exactly its size, so that reading beyond it is seen
    struct holder { std::unique_ptr<unsigned char[]> m; std::size_t n; explicit holder(bytes const& b) : m{ new unsigned char[b.size() ? b.size() : 1] }, n{ b.size() } { std::memcpy(m.get(), b.data(), n); } };
    std::unique_ptr<Z> open(vf::rng& r, holder const& h)
    {
        switch (r.below(4))
        {
        case 0: { Z::buffer_type v(h.m.get(), h.m.get() + h.n); v.shrink_to_fit(); return std::make_unique<Z>(v); }
        case 1: { Z::buffer_type v(h.m.get(), h.m.get() + h.n); v.shrink_to_fit(); return std::make_unique<Z>(std::move(v)); }
        case 2: { auto p = vf::tmp() + "/a.zip"; { std::ofstream f{ p, std::ios::binary }; f.write(reinterpret_cast<char const*>(h.m.get()), h.n); } auto z = std::make_unique<Z>(p); fs::remove(p); return z; }
        default: return std::make_unique<Z>(h.m.get(), h.n);
        }
    }
    std::string slurp(fs::path const& p) { std::ifstream f{ p, std::ios::binary }; std::ostringstream o; o << f.rdbuf(); return o.str(); }
}

VF_SCENARIO(zip_whole, 3)
{
    auto a = make(r, false); holder h{ a.b }; auto z = open(r, h); auto bad = [&](char const* w, std::string const& d = {}) { vf::fail(vf::cat("zip:", w), vf::cat(d, " ", a.log)); };
    if (!z->ok()) bad("refused"); if (z->file_count() != a.e.size()) bad("count", vf::cat(z->file_count()));
    std::vector<std::size_t> order; for (std::size_t i = 0; i < a.e.size(); ++i) order.push_back(i); for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
    for (auto i : order)
    {
        auto& e = a.e[i]; if (z->file_path(i) != e.name) bad("name", z->file_path(i));
        std::size_t first = i; for (std::size_t k = a.e.size(); k--;) if (a.e[k].name == e.name) first = k; if (z->index_of(e.name) != first) bad("index", e.name);
        Z::buffer_type v; if (r.chance(1, 2)) v.resize(r.below(1000), 7);
        if (!z->extract_to(i, v) || !z->ok()) bad("extract", vf::cat(i)); if (bytes(v.begin(), v.end()) != e.data) bad("content", vf::cat(i)); if (z->extract_to_string(i) != e.data) bad("string", vf::cat(i));
        vf::count("extracted"); vf::count("bytes", e.data.size()); vf::count(e.deflated ? "deflated" : "stored"); if (e.data.empty()) vf::count("empty-files");
    }
    Z::buffer_type v; if (z->extract_to(a.e.size(), v) || z->extract_to(a.e.size() + 1 + r.below(100), v)) bad("beyond");
    bool t = false; try { (void)z->index_of("not there"); } catch (Z::file_not_found const&) { t = true; } if (!t) bad("not-found");
    vf::distinct(vf::hash(a.b)); vf::sample(a.log);
}
// extracting to a directory writes the file there, and never anything outside of it
VF_SCENARIO(zip_directory, 2)
{
    auto a = make(r, true); holder h{ a.b }; auto bad = [&](char const* w, std::string const& d = {}) { vf::fail(vf::cat("zip:", w), vf::cat(d, " ", a.log)); };
    auto root = fs::path{ vf::tmp() } / "root"; fs::remove_all(root); auto target = root / "a" / "b" / "target"; fs::create_directories(target / "dir");
    for (std::size_t i = 0; i < a.e.size(); ++i)
    {
        auto& e = a.e[i]; auto z = open(r, h); bool done = z->extract(i, target.string()); bool plain = !e.name.empty();
        for (auto& c : fs::path{ e.name }) if (c == ".." || c == ".") plain = false;
        if (plain && (!done || !z->ok())) bad("extract-file", e.name); if (done && plain && slurp(target / e.name) != e.data) bad("file-content", e.name); if (!done && z->ok()) bad("failure-not-shown", e.name);
        for (auto& p : fs::recursive_directory_iterator(root)) if (!p.is_directory() && p.path().string().compare(0, target.string().size() + 1, target.string() + "/") != 0) { auto d = p.path().string(); fs::remove_all(root); bad("escaped", d); }
        vf::count(plain ? "extracted-to-file" : "evil-names"); for (auto& p : fs::recursive_directory_iterator(target)) if (!p.is_directory()) fs::remove(p.path());
    }
    if (!a.e.empty()) { auto z = open(r, h); if (z->extract(0, (root / "nowhere").string())) bad("extract-nowhere"); if (fs::exists(root / "nowhere") ) bad("extract-nowhere"); }
    fs::remove_all(root); vf::distinct(vf::hash(a.b));
}
// whatever a damaged archive yields is one of the files that were put in it, and anything else is refused
VF_SCENARIO(zip_damaged, 5)
{
    auto a = make(r, false); bytes b = a.b; std::ostringstream log; auto const dh = b.size() - 22;
    auto edges = [&] { return r.pick<std::uint32_t>({ 0u, 1u, 29u, 30u, 31u, 45u, 46u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffff0u, 0xffffu, std::uint32_t(b.size()), std::uint32_t(b.size() - 1), std::uint32_t(b.size() - 22), std::uint32_t(b.size() - 30), std::uint32_t(b.size() - 29), std::uint32_t(dh + 1) }) + std::uint32_t(r.chance(1, 3) ? r.below(3) : 0); };
    for (auto k = 1 + r.below(3); k; --k) switch (r.below(8))
    {
    case 0: { auto n = r.chance(1, 2) ? r.below(b.size() + 1) : b.size() - std::min<std::size_t>(b.size(), r.below(60)); b.resize(n); log << "cut " << n; break; }
    case 1: if (!b.empty()) { auto i = r.below(b.size()); b[i] = char(b[i] ^ (1 << r.below(8))); log << "flip " << i; } break;
    case 2: if (b.size() >= 22) { auto f = r.pick<int>({ 8, 10, 12, 16, 20 }); auto v = edges(); put(b, b.size() - 22 + f, v, f < 12 || f == 20 ? 2 : 4); log << "end+" << f << "=" << v; } break;
    case 3: case 4: if (!a.e.empty()) { auto& e = a.e[r.below(a.e.size())]; auto f = r.pick<int>({ 0, 10, 16, 20, 24, 28, 30, 32, 42, 42 }); auto v = edges(); put(b, e.dir + f, v, f == 10 || (f >= 28 && f <= 32) ? 2 : 4); log << "dir+" << f << "=" << v; } break;
    case 5: if (!a.e.empty()) { auto& e = a.e[r.below(a.e.size())]; auto f = r.pick<int>({ 0, 8, 14, 18, 22, 26, 28 }); auto v = edges(); put(b, e.at + f, v, f == 8 || f >= 26 ? 2 : 4); log << "local+" << f << "=" << v; } break;
    case 6: { auto i = r.below(b.size() + 1); bytes j(1 + r.below(30), char(r.below(256))); if (r.chance(1, 2)) b.insert(i, j); else { b.erase(i, j.size()); } log << "shift " << i; break; }
    case 7: if (!a.e.empty()) { auto& e = a.e[r.below(a.e.size())]; auto& f = a.e[r.below(a.e.size())]; put(b, e.dir + 42, std::uint32_t(f.at), 4); log << "offset of another"; } break;
    }
    if (r.chance(1, 50)) { b.clear(); for (auto k = r.below(80); k; --k) b += char(r.below(256)); log << "noise"; }
    holder h{ b }; auto z = open(r, h); auto bad = [&](char const* w, std::string const& d = {}) { vf::fail(vf::cat("zip:", w), vf::cat(d, " ", log.str(), " of ", a.log)); };
    std::set<bytes> known{ bytes{} }; for (auto& e : a.e) known.insert(e.data); if (b == a.b) vf::count("undamaged");
    vf::count(z->ok() ? "opened" : "refused"); if (!z->ok()) { Z::buffer_type v; if (z->extract_to(0, v)) bad("extract-refused"); }
    if (z->ok() && z->file_count() > b.size() / 46) bad("count", vf::cat(z->file_count()));
    for (std::size_t i = 0; i < z->file_count() + 1; ++i)
    {
        auto y = open(r, h); Z::buffer_type v; bool was = y->ok(); if (i < y->file_count()) (void)y->file_path(i).size(); bool done = y->extract_to(i, v); if (done && !was) bad("extract-refused"); if (done && i == z->file_count()) bad("beyond");
        if (done && !known.count(bytes(v.begin(), v.end()))) bad("damaged-content", vf::cat(i)); if (!done && i < y->file_count() && y->ok()) bad("failure-not-shown"); vf::count(done ? "damaged-extracted" : "damaged-refused");
    }
    vf::distinct(vf::hash(b)); vf::sample(log.str());
}
namespace
{
    struct gz { bytes b, data; std::size_t payload = 0; };
    gz zipped(vf::rng& r)
    {
        gz g; g.data = content(r); int flags = r.chance(1, 2) ? 0 : int(r.below(32)); g.b = bytes("\x1f\x8b\x08", 3); g.b += char(flags); le(g.b, std::uint32_t(r.next()), 4); g.b += char(r.below(5)); g.b += char(3);
        if (flags & 4) { auto n = r.below(40); le(g.b, n, 2); for (; n; --n) g.b += char(r.below(256)); } auto text = [&] { for (auto n = r.below(20); n; --n) g.b += char(1 + r.below(255)); g.b += '\0'; }; if (flags & 8) text(); if (flags & 16) text(); if (flags & 2) le(g.b, crc(g.b) & 0xffff, 2);
        g.payload = g.b.size(); g.b += squeeze(r, g.data); le(g.b, crc(g.data), 4); le(g.b, std::uint32_t(g.data.size()), 4); return g;
    }
    std::pair<bool, bytes> unzip(bytes const& b) { neolib::gunzip::compressed_data_t v(b.begin(), b.end()); v.shrink_to_fit(); neolib::gunzip z{ v }; return { z.ok(), bytes(z.uncompressed_data().begin(), z.uncompressed_data().end()) }; }
}
VF_SCENARIO(gzip_whole, 2) { auto g = zipped(r); auto u = unzip(g.b); if (!u.first) vf::fail("gzip:refused", vf::cat(g.data.size(), " bytes, flags ", int(g.b[3]))); if (u.second != g.data) vf::fail("gzip:content", vf::cat(g.data.size(), " bytes, flags ", int(g.b[3]))); vf::count("gunzipped"); vf::count("bytes", g.data.size()); vf::distinct(vf::hash(g.b)); }
VF_SCENARIO(gzip_damaged, 4)
{
    auto g = zipped(r); bytes b = g.b; std::ostringstream log; auto kind = r.below(9);
    switch (kind)
    {
    case 0: b.resize(r.chance(1, 2) ? r.below(b.size()) : b.size() - 1 - r.below(std::min<std::size_t>(20, b.size()))); log << "cut to " << b.size(); break;
    case 1: { auto i = r.below(b.size()); b[i] = char(b[i] ^ (1 << r.below(8))); log << "flip " << i; break; }
    case 2: { auto i = b.size() - 8 + r.below(8); b[i] = char(b[i] + 1 + r.below(255)); log << "trailer " << i; break; }
    case 3: put(b, b.size() - 4, r.pick<std::uint32_t>({ 0u, 1u, 0x7fffffffu, 0x80000000u, 0xffffffffu, std::uint32_t(g.data.size() + 1), std::uint32_t(g.data.size() - 1), std::uint32_t(g.data.size() * 2) }), 4); log << "size"; break;
    case 4: for (auto k = 1 + r.below(20); k; --k) b += char(r.below(256)); log << "more"; break;
    case 5: { auto i = g.payload + r.below(b.size() - 8 - g.payload); b.erase(i, 1 + r.below(10)); log << "erase " << i; break; }
    case 6: b = zipped(r).b; { auto k = r.below(b.size()); b = b.substr(0, k) + g.b.substr(std::min(k, g.b.size())); } log << "spliced"; break;
    case 7: b[3] = char(r.below(256)); log << "flags " << int(b[3]); break;
    case 8: b.clear(); for (auto k = r.below(60); k; --k) b += char(r.below(256)); if (b.size() > 4 && r.chance(3, 4)) { b[0] = '\x1f'; b[1] = '\x8b'; b[2] = 8; } log << "noise"; break;
    }
    auto u = unzip(b); if (u.first && u.second != g.data && !(kind == 8 && u.second.empty()) && kind != 6) vf::fail("gzip:damaged-content", vf::cat(log.str(), " of ", g.data.size(), " bytes gives ", u.second.size()));
    if (u.first) { bytes t; le(t, crc(u.second), 4); le(t, std::uint32_t(u.second.size()), 4); if (b.size() < 18 || b.substr(b.size() - 8) != t) vf::fail("gzip:trailer", log.str()); }
    if (!u.first && !u.second.empty()) vf::fail("gzip:refused-content", log.str()); vf::count(u.first ? "gzip-opened" : "gzip-refused"); vf::count(vf::cat("damage:", kind)); vf::distinct(vf::hash(b)); vf::sample(log.str());
}
VF_SCENARIO(gzip_members, 1) { auto g = zipped(r), k = zipped(r); auto u = unzip(g.b + k.b); if (u.first && u.second != g.data + k.data) vf::fail("gzip:members", vf::cat(g.data.size(), " and ", k.data.size(), " bytes give ", u.second.size())); vf::count(u.first ? "gzip-opened" : "gzip-refused"); vf::distinct(vf::hash(g.b + k.b)); }
VF_MAIN
