// scalar encodings: decimal/hex text, LEB128, CRC-32, UUID text, named enumerators, integer ramps
#include "vf.hpp"
#include <bitset>
#include <neolib/core/string_utils.hpp>
#include <neolib/core/string_numeric.hpp>
#include <neolib/core/leb128.hpp>
#include <neolib/core/crc.hpp>
#include <neolib/core/uuid.hpp>
#include <neolib/core/enum.hpp>
#include <neolib/core/bresenham_counter.hpp>

enum class colour : std::uint32_t { red = 1, green = 2, blue = 0x80000000u, ultra = 0xFFFFFFFFu };
begin_declare_enum(colour)
declare_enum_string(colour, red)
declare_enum_string(colour, green)
declare_enum_string(colour, blue)
declare_enum_string_explicit(colour, ultra, Ultra Violet)
end_declare_enum(colour)
enum class depth : std::int16_t { low = -3, zero = 0, high = 1000 };
begin_declare_enum(depth)
declare_enum_string(depth, low)
declare_enum_string(depth, zero)
declare_enum_string(depth, high)
end_declare_enum(depth)

namespace
{
    std::uint64_t spread(vf::rng& r) { auto v = r.next() >> r.below(64); switch (r.below(6)) { case 0: return v | (1ull << r.below(64)); case 1: return (1ull << r.below(64)) - r.below(2); case 2: return ~v; default: return v; } }
    template <typename V> std::vector<std::uint8_t> bytes(V const& v) { return std::visit([](auto const& a) { return std::vector<std::uint8_t>(a.begin(), a.end()); }, v); }
    template <typename I> std::string dec(I v) { return std::to_string(v); }
}

VF_SCENARIO(numeric_text, 4)
{
    using namespace neolib;
    auto v = spread(r);
    auto i32 = static_cast<std::int32_t>(v); auto u32 = static_cast<std::uint32_t>(v); auto i64 = static_cast<std::int64_t>(v); auto u64 = v;
    auto ck = [&](bool ok, char const* what) { if (!ok) vf::fail(std::string("numeric:") + what, vf::cat("value bits ", v)); };
    ck(int32_to_string<char>(i32) == dec(i32) && int64_to_string<char>(i64) == dec(i64) && uint32_to_string<char>(u32) == dec(u32) && uint64_to_string<char>(u64) == dec(u64), "to-decimal");
    ck(string_to_int32(dec(i32)) == i32 && string_to_int64(dec(i64)) == i64 && string_to_uint32(dec(u32)) == u32 && string_to_uint64(dec(u64)) == u64, "from-decimal");
    ck(string_to_int32(std::string_view{ dec(i32) }) == i32 && string_to_int64(std::string_view{ dec(i64) }) == i64 && string_to_uint32(std::string_view{ dec(u32) }) == u32 && string_to_uint64(std::string_view{ dec(u64) }) == u64, "from-decimal-view");
    // text that follows the number is left alone
    auto tail = r.pick<std::string>({ " ", "x", "abc", ";12", "-" });
    ck(string_to_int64(dec(i64) + tail) == i64 && string_to_uint32(dec(u32) + tail) == u32 && string_to_int32(dec(i32) + tail) == i32, "from-decimal-prefix");
    char h[40]; std::snprintf(h, sizeof h, "%llX", (unsigned long long)u64);
    ck(uint64_to_string<char>(u64, 16) == h && uint64_to_string<char>(u64, 16, 0, '0', true) == std::string("0x") + h, "to-hex");
    ck(string_to_uint64(std::string{ h }, 16) == u64 && string_to_uint64(std::string("0x") + h, 16) == u64, "from-hex");
    std::snprintf(h, sizeof h, "%X", u32); ck(string_to_uint32(std::string{ h }, 16) == u32, "from-hex32");
    std::snprintf(h, sizeof h, "%llo", (unsigned long long)u64); ck(uint64_to_string<char>(u64, 8) == h && string_to_uint64(std::string{ h }, 8) == u64, "octal");
    auto w = r.below(30); auto padded = uint64_to_string<char>(u64, 10, w); auto d = dec(u64);
    ck(padded == (d.size() < w ? std::string(w - d.size(), '0') + d : d), "width");
    ck(neolib::to_std_string(i64) == d.substr(0, 0) + dec(i64) && neolib::from_std_string<std::int64_t>(dec(i64)) == i64 && neolib::from_std_string<std::uint32_t>(neolib::to_std_string(u32)) == u32, "generic");
    // doubles
    double x = std::ldexp(r.real() - 0.5, static_cast<int>(r.range(-60, 60)));
    auto t = double_to_string<char>(x, 17, false);
    ck(std::stod(t) == x, "double-to-text");
    auto back = string_to_double(t);
    if (std::abs(back - x) > std::abs(x) * 1e-13) vf::fail("numeric:double", vf::cat(t, " came back as ", back));
    double q = r.range(-1000000, 1000000) / 64.0;
    ck(string_to_double(double_to_string<char>(q, 6)) == q, "double-fixed");
    // the narrowest type that holds the number
    auto num = string_to_number(std::string_view{ dec(i64) });
    double back2 = 0; int which = -1;
    std::visit([&](auto const& n) { using N = std::decay_t<decltype(n)>; if constexpr (std::is_arithmetic_v<N>) { back2 = static_cast<double>(n); which = std::is_same_v<N, std::int32_t> ? 0 : std::is_same_v<N, std::uint32_t> ? 1 : std::is_same_v<N, std::int64_t> ? 2 : std::is_same_v<N, std::uint64_t> ? 3 : 4; } }, num);
    int wantWhich = i64 >= INT32_MIN && i64 <= INT32_MAX ? 0 : i64 >= 0 && i64 <= UINT32_MAX ? 1 : 2;
    if (which != wantWhich || back2 != static_cast<double>(i64)) vf::fail("numeric:string_to_number", vf::cat(dec(i64), " became alternative ", which, " value ", back2));
    auto real = vf::cat(static_cast<int>(r.range(-5000, 5000)), r.pick({ ".5", ".25", ".125e2", "e3", ".0625E-1" }));
    double rv = -1; auto rn = string_to_number(std::string_view{ real });
    std::visit([&](auto const& n) { if constexpr (std::is_arithmetic_v<std::decay_t<decltype(n)>>) rv = static_cast<double>(n); }, rn);
    if (std::abs(rv - std::stod(real)) > 1e-9 * std::abs(rv)) vf::fail("numeric:string_to_number-real", vf::cat(real, " became ", rv));
    bool thrown = false; try { (void)string_to_number(std::string_view{ "abc" }); } catch (string_to_number_failure const&) { thrown = true; }
    ck(thrown, "string_to_number-garbage");
    vf::distinct(v); vf::count("numbers");
}
VF_SCENARIO(leb, 3)
{
    auto v = spread(r);
    auto ck = [&](std::vector<std::uint8_t> const& b, bool sgn, std::uint64_t value, char const* what)
    {
        // decode independently
        unsigned __int128 acc = 0; unsigned shift = 0;
        for (std::size_t i = 0; i < b.size(); ++i)
        {
            acc |= static_cast<unsigned __int128>(b[i] & 0x7F) << shift; shift += 7;
            if (((b[i] & 0x80) != 0) != (i + 1 < b.size())) vf::fail(std::string("leb128:") + what + "-continuation", vf::cat("value ", value, " byte ", i));
        }
        if (sgn && (b.back() & 0x40)) acc |= ~static_cast<unsigned __int128>(0) << shift;
        if (static_cast<std::uint64_t>(acc) != value) vf::fail(std::string("leb128:") + what, vf::cat("value ", value));
        // shortest encoding
        if (b.size() > 1 && (sgn ? (b.back() == 0 && !(b[b.size() - 2] & 0x40)) || (b.back() == 0x7F && (b[b.size() - 2] & 0x40)) : b.back() == 0)) vf::fail(std::string("leb128:") + what + "-length", vf::cat("value ", value));
        vf::count("leb128-bytes", b.size());
    };
    ck(bytes(neolib::leb128::ULEB128(v)), false, v, "unsigned");
    ck(bytes(neolib::leb128::SLEB128(static_cast<std::int64_t>(v))), true, v, "signed");
    ck(bytes(neolib::leb128::LEB128(static_cast<std::uint32_t>(v))), false, static_cast<std::uint32_t>(v), "opcode");
    vf::distinct(v);
}
VF_SCENARIO(crc, 1)
{
    auto s = r.bytes(r.size(20, 3000));
    std::uint32_t c = ~0u;
    for (unsigned char b : s) { c ^= b; for (int k = 0; k < 8; ++k) c = c >> 1 ^ (c & 1 ? 0xEDB88320u : 0); }
    c = ~c;
    auto got = neolib::crc32(reinterpret_cast<std::uint8_t const*>(s.data()), static_cast<std::uint32_t>(s.size()));
    if (got != c) vf::fail("crc32", vf::cat(s.size(), " bytes: ", got, " want ", c));
    vf::distinct(vf::hash(s)); vf::count("crc-bytes", s.size());
}
VF_SCENARIO(uuid, 2)
{
    auto mk = [&] { neolib::uuid u{}; u.part1 = static_cast<std::uint32_t>(spread(r)); u.part2 = static_cast<std::uint16_t>(spread(r)); u.part3 = static_cast<std::uint16_t>(spread(r)); u.part4 = static_cast<std::uint16_t>(spread(r)); for (auto& b : u.part5) b = static_cast<std::uint8_t>(spread(r)); return u; };
    auto a = mk(), b = r.chance(1, 2) ? mk() : a;
    if (r.chance(1, 2)) switch (r.below(5)) { case 0: b.part1 = a.part1; break; case 1: b = a; b.part5[r.below(6)] ^= 1; break; case 2: b = a; b.part4 ^= 0x100; break; case 3: b = a; b.part3 ^= 1; break; case 4: b = a; b.part2 ^= 1; break; }
    auto text = [](neolib::uuid const& u) { char t[64]; std::snprintf(t, sizeof t, "%08X-%04X-%04X-%04X-%02X%02X%02X%02X%02X%02X", u.part1, u.part2, u.part3, u.part4, u.part5[0], u.part5[1], u.part5[2], u.part5[3], u.part5[4], u.part5[5]); return std::string{ t }; };
    if (neolib::uuid_to_string(a) != text(a)) vf::fail("uuid:text", neolib::uuid_to_string(a) + " want " + text(a));
    auto lower = text(a); for (auto& c : lower) c = static_cast<char>(std::tolower(c));
    if (!(neolib::make_uuid(text(a)) == a) || !(neolib::make_uuid(lower) == a)) vf::fail("uuid:parse", text(a));
    std::istringstream in{ text(a) + " " + text(b) }; neolib::uuid c{}, d{}; in >> c >> d;
    if (!(c == a) || !(d == b)) vf::fail("uuid:stream", text(a));
    std::ostringstream out; out << a << 255; if (out.str() != text(a) + "255") vf::fail("uuid:stream-state", out.str());
    int cmp = text(a).compare(text(b));
    if ((a == b) != (cmp == 0) || (a < b) != (cmp < 0) || (a > b) != (cmp > 0)) vf::fail("uuid:order", text(a) + " vs " + text(b));
    if (a == b && std::hash<neolib::uuid>{}(a) != std::hash<neolib::uuid>{}(b)) vf::fail("uuid:hash", text(a));
    if (a == b && neolib::quick_uuid_hash{}(a) != neolib::quick_uuid_hash{}(b)) vf::fail("uuid:hash", text(a));
    vf::distinct(vf::hash(text(a) + text(b)));
    static std::set<std::string> made;
    auto g = neolib::generate_uuid(); auto t = neolib::uuid_to_string(g);
    if (t[14] != '4' || !std::strchr("89AB", t[19])) vf::fail("uuid:version", t);
    if (!made.insert(t).second) vf::fail("uuid:repeated", t);
    vf::count("uuids");
}
VF_SCENARIO(enums, 1)
{
    using neolib::enum_to_string; using neolib::string_to_enum;
    struct { colour c; char const* n; } const cs[] = { { colour::red, "red" }, { colour::green, "green" }, { colour::blue, "blue" }, { colour::ultra, "Ultra Violet" } };
    auto& x = cs[r.below(4)];
    if (enum_to_string(x.c).to_std_string() != x.n || string_to_enum<colour>(std::string{ x.n }) != x.c || neolib::try_string_to_enum<colour>(std::string{ x.n }) != x.c) vf::fail("enum:names", x.n);
    auto raw = static_cast<std::uint32_t>(spread(r)); bool listed = raw == 1 || raw == 2 || raw == 0x80000000u || raw == 0xFFFFFFFFu;
    char hex[32]; std::snprintf(hex, sizeof hex, "0x%08Xu", raw);
    if (!listed)
    {
        if (enum_to_string(static_cast<colour>(raw)).to_std_string() != hex) vf::fail("enum:hex", enum_to_string(static_cast<colour>(raw)).to_std_string());
        bool t = false; try { enum_to_string(static_cast<colour>(raw), true); } catch (neolib::bad_enum_value const&) { t = true; } if (!t) vf::fail("enum:must-enumerate", hex);
    }
    auto word = r.text(r.below(6), "redgn");
    if (word != "red" && word != "green")
    {
        if (neolib::try_string_to_enum<colour>(word)) vf::fail("enum:unknown-accepted", word);
        bool t = false; try { string_to_enum<colour>(word); } catch (neolib::bad_enum_string const&) { t = true; } if (!t) vf::fail("enum:unknown-accepted", word);
    }
    neolib::basic_enum<depth> e{ depth::low };
    if (!(e.value() == -3) || e.to_std_string() != "low") vf::fail("enum:object", "low");
    auto d = r.pick({ depth::low, depth::zero, depth::high }); auto name = d == depth::low ? "low" : d == depth::zero ? "zero" : "high";
    e.set_value(neolib::string{ name });
    if (e.value() != static_cast<std::int16_t>(d) || e.to_std_string() != name) vf::fail("enum:object", name);
    bool t = false; try { e.set_value(neolib::string{ "nope" }); } catch (std::logic_error const&) { t = true; } if (!t || e.value() != static_cast<std::int16_t>(d)) vf::fail("enum:object-unknown", name);
    auto copy = e; if (!(copy == e)) vf::fail("enum:copy", name);
    auto cl = static_cast<neolib::i_basic_enum<std::int16_t> const&>(e).clone(); if (!(*cl == e)) vf::fail("enum:clone", name);
    vf::distinct(raw * 16ull + static_cast<unsigned>(x.c)); vf::count("enums");
}
VF_SCENARIO(ramp, 2)
{
    long n = 2 + static_cast<long>(r.size(20, 400)), a = static_cast<long>(r.range(-1000, 1000)), b = static_cast<long>(r.range(-1000, 1000));
    if (r.chance(1, 2)) a = 0;
    if (a == 0 && b < 0) b = -b;
    auto judge = [&](auto&& c, char const* name)
    {
        long prev = a;
        for (long i = 0; i < n; ++i)
        {
            long v = c();
            double exact = a + static_cast<double>(b - a) * i / (n - 1);
            auto d = vf::cat(name, ": ", a, "..", b, " in ", n, " steps: step ", i, " is ", v, " (exact ", exact, ")");
            if (std::abs(v - exact) > 1.0) vf::fail("ramp:value", d);
            if (i == 0 && v != a) vf::fail("ramp:start", d);
            if (i == n - 1 && v != b) vf::fail("ramp:end", d);
            if (b >= a ? v < prev : v > prev) vf::fail("ramp:monotone", d);
            prev = v;
        }
    };
    judge(neolib::bresenham_counter<long>{ a, b, n }, "bresenham_counter");
    judge(neolib::bresenham_counter_alt<long>{ a, b, n }, "bresenham_counter_alt");
    if (a == 0) { judge(neolib::bresenham_counter<long>{ b, n }, "bresenham_counter(range)"); judge(neolib::bresenham_counter_alt<long>{ b, n }, "bresenham_counter_alt(range)"); }
    neolib::bresenham_counter<long> c; c.init(a, b, n); judge(c, "bresenham_counter::init");
    neolib::bresenham_counter_alt<long> ca; ca.init(a, b, n); judge(ca, "bresenham_counter_alt::init");
    vf::distinct(static_cast<vf::u64>(n) << 40 ^ static_cast<vf::u64>(a + 5000) << 20 ^ static_cast<vf::u64>(b + 5000)); vf::count("ramps");
}
VF_MAIN
