// C17: optional, variant, any and pair hold exactly the value last stored, through concrete and abstract interfaces.
#include "vf.hpp"
#include <neolib/neolib.hpp>
#include <neolib/core/vector.hpp>
#include <neolib/core/string.hpp>
#include <neolib/core/optional.hpp>
#include <neolib/core/variant.hpp>
#include <neolib/core/any.hpp>
#include <neolib/core/pair.hpp>
#include <optional>
#include <variant>
#include <any>
#include <utility>

namespace
{
    std::string show1(int v) { return std::to_string(v); }
    std::string show1(std::string const& v) { return vf::show(v, 40); }
    std::string show1(vf::i64 v) { return std::to_string(v); }
    int plain(int v) { return v; }
    std::string plain(neolib::i_string const& s) { return s.to_std_string(); }
    vf::i64 plain(vf::tracked const& t) { return vf::val(t); }
    template <typename T> struct kind;
    template <> struct kind<int> { using model = int; static int make(vf::rng& r) { return static_cast<int>(r.below(6)) - 2; } static int fresh() { return 0; } };
    template <> struct kind<vf::tracked> { using model = vf::i64; static vf::i64 make(vf::rng& r) { return static_cast<vf::i64>(r.below(6)) - 2; } static vf::i64 fresh() { return 0; } };
    template <> struct kind<neolib::string> { using model = std::string; static std::string make(vf::rng& r) { auto n = r.below(5); return n == 0 ? "" : n == 1 ? std::string(40, char('a' + r.below(3))) : std::string(1, char('a' + r.below(4))) + (n == 2 ? std::string("\0\xff", 2) : ""); } static std::string fresh() { return ""; } };

    template <typename T> void optionals(vf::rng& r)
    {
        using K = kind<T>; using M = typename K::model; using O = neolib::optional<T>; using A = typename O::abstract_type; constexpr bool Abs = !std::is_same_v<T, neolib::maybe_abstract_t<T>>;
        std::string log; auto base = vf::tracked::live.load();
        {
            std::vector<O> o(3); std::vector<std::optional<M>> m(3);
            auto check = [&](O const& x, std::optional<M> const& w)
            {
                A const& a = x;
                if (x.has_value() != w.has_value() || a.has_value() != w.has_value() || static_cast<bool>(a) != w.has_value() || (x == std::nullopt) == w.has_value() || (x != std::nullopt) != w.has_value()) vf::fail("optional:has-value", log);
                if (w) { if (plain(x.value()) != *w || plain(*x) != *w || plain(a.value()) != *w || plain(*a) != *w || plain(*a.operator->()) != *w || plain(*x.as_std_optional()) != *w) vf::fail("optional:value", vf::cat(show1(plain(x.value())), " want ", show1(*w), log)); }
                else { bool t = false; try { (void)x.value(); } catch (std::bad_optional_access const&) { t = true; } if (!t) vf::fail("optional:value-of-empty", log); }
                T d{ K::make(r) }; neolib::maybe_abstract_t<T> const& ad = d;
                if (plain(a.value_or(ad)) != (w ? *w : M(plain(d)))) vf::fail("optional:value-or", log);
            };
            for (auto n = r.size(20, 80); n-- > 0;)
            {
                auto i = r.below(3), j = r.below(3); M v = K::make(r); T tv{ v }; auto op = r.below(13); log += vf::cat(" ", op, ":", i, ",", j, show1(v)); O& x = o[i]; A& a = x;
                switch (op)
                {
                case 0: x.reset(); m[i].reset(); break;
                case 1: a = std::nullopt; m[i] = std::nullopt; break;
                case 2: x = o[j]; m[i] = m[j]; break;
                case 3: a = static_cast<A const&>(o[j]); m[i] = m[j]; break;
                case 4: a = static_cast<neolib::maybe_abstract_t<T> const&>(tv); m[i] = v; break;
                case 5: x.emplace(v); m[i] = v; break;
                case 6: { O y{ o[j] }; check(y, m[j]); O z{ std::move(y) }; check(z, m[j]); x = std::move(z); m[i] = m[j]; } break;
                case 7: { O y{ static_cast<A const&>(o[j]) }; check(y, m[j]); } break;
                case 8: { O y{ tv }; check(y, v); O e{ std::nullopt }; check(e, std::nullopt); auto k = neolib::make_optional(tv); check(k, v); x = y; m[i] = v; } break;
                case 9: if (m[i]) { T w{ K::make(r) }; x.value() = w; m[i] = plain(w); } break;
                case 10: if (m[i]) { *a = tv; m[i] = v; } break;
                case 11: { std::optional<T> s; if (r.chance(1, 2)) s.emplace(v); O y{ s }; check(y, s ? std::optional<M>{ v } : std::nullopt); x.as_std_optional() = s; m[i] = s ? std::optional<M>{ v } : std::nullopt; } break;
                case 12: if (m[i]) { T& ref = x.value_or(tv) == tv && m[i] != v ? tv : *x; if (plain(ref) != *m[i]) vf::fail("optional:value-or", log); } break;
                }
                for (int k = 0; k < 3; ++k) check(o[k], m[k]);
                O const& p = o[i]; O const& q = o[j]; auto const& u = m[i]; auto const& w = m[j];
                if ((p == q) != (u == w) || ((p <=> q) < 0) != (u < w) || ((p <=> q) > 0) != (u > w) || ((p <=> q) == 0) != (u == w)) vf::fail("optional:compare", log);
                A const& pa = p; A const& qa = q;
                if ((pa == qa) != (u == w) || ((pa <=> qa) < 0) != (u < w) || ((pa <=> qa) > 0) != (u > w)) vf::fail("optional:compare-abstract", log);
                if constexpr (!Abs) { if ((p == tv) != (u == v) || (tv == p) != (u == v) || ((p <=> tv) < 0) != (u < v) || ((p <=> tv) > 0) != (u > v) || ((tv <=> p) < 0) != (u > v) || ((tv <=> p) > 0) != (u < v)) vf::fail("optional:compare-value", log); if (((pa <=> tv) < 0) != (u < v)) vf::fail("optional:compare-value", log); }
                vf::count("optional-operations");
            }
        }
        if (vf::tracked::live != base) { vf::tracked::live = base; vf::fail("optional:lifetime", log); }
        vf::distinct(vf::hash(log)); vf::sample(log.substr(0, 80));
    }

    struct other { int x = 0; friend bool operator==(other const&, other const&) = default; friend auto operator<=>(other const&, other const&) = default; };
    using V = neolib::variant<int, neolib::string, vf::tracked, other>;
    using VM = std::variant<std::monostate, int, std::string, vf::i64, other>;
    std::string showv(VM const& m) { return m.index() == 0 ? "none" : m.index() == 1 ? vf::cat("i", std::get<1>(m)) : m.index() == 2 ? "s" + show1(std::get<2>(m)) : m.index() == 3 ? vf::cat("t", std::get<3>(m)) : vf::cat("o", std::get<4>(m).x); }
    neolib::string const es; vf::tracked const et; other const eo;
    void check_variant(V const& v, VM const& m, std::string const& log)
    {
        V::abstract_type const& a = v;
        if (v.index() != m.index() || a.index() != m.index() || (v == neolib::none) != (m.index() == 0) || (neolib::none != v) != (m.index() != 0)) vf::fail("variant:index", vf::cat(v.index(), " want ", showv(m), log));
        auto holds = [&](auto const& tag, std::size_t k) { using T = std::decay_t<decltype(tag)>; if (std::holds_alternative<T>(v) != (m.index() == k) || a.template holds_alternative<neolib::maybe_abstract_t<T>>() != (m.index() == k) || (a.template get_if<neolib::maybe_abstract_t<T>>() != nullptr) != (m.index() == k)) vf::fail("variant:holds", log); bool t = false; try { (void)std::get<T>(v); } catch (std::bad_variant_access const&) { t = true; } bool u = false; try { (void)a.template get<neolib::maybe_abstract_t<T>>(); } catch (std::bad_variant_access const&) { u = true; } if (t != (m.index() != k) || u != t) vf::fail("variant:get-wrong", log); };
        holds(int{}, 1); holds(es, 2); holds(et, 3); holds(eo, 4);
        VM got; std::visit([&](auto const& x) { using T = std::decay_t<decltype(x)>; if constexpr (std::is_same_v<T, int>) got.emplace<1>(x); else if constexpr (std::is_same_v<T, neolib::string>) got.emplace<2>(x.to_std_string()); else if constexpr (std::is_same_v<T, vf::tracked>) got.emplace<3>(vf::val(x)); else if constexpr (std::is_same_v<T, other>) got.emplace<4>(x); }, v);
        if (got != m) vf::fail("variant:value", vf::cat(showv(got), " want ", showv(m), log));
        VM ga; if (auto p = a.get_if<int>()) ga.emplace<1>(*p); if (auto p = a.get_if<neolib::i_string>()) ga.emplace<2>(p->to_std_string()); if (auto p = a.get_if<vf::tracked>()) ga.emplace<3>(vf::val(*p)); if (auto p = a.get_if<other>()) ga.emplace<4>(*p);
        if (ga != m) vf::fail("variant:abstract-value", vf::cat(showv(ga), " want ", showv(m), log));
    }
    void variants(vf::rng& r)
    {
        std::string log; auto base = vf::tracked::live.load();
        {
            std::vector<V> v(3); std::vector<VM> m(3);
            for (auto n = r.size(20, 80); n-- > 0;)
            {
                auto i = r.below(3), j = r.below(3); V& x = v[i]; V::abstract_type& a = x; auto op = r.below(14); auto num = static_cast<int>(r.below(7)) - 3; auto s = kind<neolib::string>::make(r); log += vf::cat(" ", op, ":", i, ",", j, ",", num, show1(s));
                switch (op)
                {
                case 0: x = num; m[i].emplace<1>(num); break;
                case 1: x = neolib::string{ s }; m[i].emplace<2>(s); break;
                case 2: x = vf::tracked{ num }; m[i].emplace<3>(num); break;
                case 3: { other o{ num }; x = o; m[i].emplace<4>(o); } break;
                case 4: x = v[j]; m[i] = m[j]; break;
                case 5: a = static_cast<V::abstract_type const&>(v[j]); m[i] = m[j]; break;
                case 6: x = neolib::none; m[i] = std::monostate{}; break;
                case 7: { neolib::string ns{ s }; neolib::i_string const& is = ns; a = is; m[i].emplace<2>(s); } break;
                case 8: { a = num; m[i].emplace<1>(num); } break;
                case 9: { V c{ v[j] }; check_variant(c, m[j], log); V d{ std::move(c) }; check_variant(d, m[j], log); x = std::move(d); m[i] = m[j]; } break;
                case 10: { V c{ static_cast<V::abstract_type const&>(v[j]) }; check_variant(c, m[j], log); x = static_cast<V::abstract_type const&>(c); m[i] = m[j]; } break;
                case 11: { V c{ num }; check_variant(c, VM{ std::in_place_index<1>, num }, log); V d{ neolib::string{ s } }; check_variant(d, VM{ std::in_place_index<2>, s }, log); neolib::string ns{ s }; V e{ static_cast<neolib::i_string const&>(ns) }; check_variant(e, VM{ std::in_place_index<2>, s }, log); V f; check_variant(f, VM{}, log); } break;
                case 12: if (auto p = a.get_if<neolib::i_string>()) { *p = s; m[i].emplace<2>(s); } else if (auto p = a.get_if<int>()) { *p = num; m[i].emplace<1>(num); } break;
                case 13: { if (std::holds_alternative<vf::tracked>(x)) { std::get<vf::tracked>(x) = vf::tracked{ num }; m[i].emplace<3>(num); } } break;
                }
                for (int k = 0; k < 3; ++k) check_variant(v[k], m[k], log);
                V const& p = v[i]; V const& q = v[j];
                if ((p == q) != (m[i] == m[j]) || (p != q) != (m[i] != m[j]) || (p < q) != (m[i] < m[j]) || (p <= q) != (m[i] <= m[j]) || (p > q) != (m[i] > m[j]) || (p >= q) != (m[i] >= m[j])) vf::fail("variant:compare", log);
                auto visited = std::string{}; if (m[i].index()) { std::size_t k = 0; neolib::visit([&](auto&& y) { using T = std::decay_t<decltype(y)>; k = std::is_same_v<T, int> ? 1 : std::is_base_of_v<neolib::i_string, T> ? 2 : std::is_same_v<T, vf::tracked> ? 3 : 4; }, a); if (k != m[i].index()) vf::fail("variant:visit", log); }
                vf::count("variant-operations");
            }
        }
        if (vf::tracked::live != base) { vf::tracked::live = base; vf::fail("variant:lifetime", log); }
        vf::distinct(vf::hash(log));
    }
    void anys(vf::rng& r)
    {
        std::string log; auto base = vf::tracked::live.load();
        {
            std::vector<neolib::any> v(3); std::vector<VM> m(3);
            auto check = [&](neolib::any& x, VM const& w)
            {
                neolib::any const& c = x; neolib::i_any const& a = x; static std::type_info const* ti[] = { &typeid(void), &typeid(int), &typeid(neolib::string), &typeid(vf::tracked), &typeid(other) };
                if (c.has_value() != (w.index() != 0) || a.has_value() != c.has_value() || c.type() != *ti[w.index()] || a.type() != c.type()) vf::fail("any:type", vf::cat(vf::demangle(c.type().name()), " want ", showv(w), log));
                auto want = [&](auto const& tag, std::size_t k, auto get) { using T = std::decay_t<decltype(tag)>; if ((neolib::any_cast<T>(&c) != nullptr) != (w.index() == k) || (neolib::any_cast<T>(&x) != nullptr) != (w.index() == k)) vf::fail("any:pointer-cast", log); bool t = false; try { if (!get(neolib::any_cast<T const&>(c)) || !get(neolib::any_cast<T&>(x)) || !get(neolib::any_cast<T>(c)) || !get(neolib::unsafe_any_cast<T const&>(c))) vf::fail("any:value", log); } catch (std::bad_any_cast const&) { t = true; } if (t != (w.index() != k)) vf::fail("any:cast", log); };
                
                want(int{}, 1, [&](int k) { return k == std::get<1>(w); }); want(es, 2, [&](neolib::string const& k) { return k.to_std_string() == std::get<2>(w); }); want(et, 3, [&](vf::tracked const& k) { return vf::val(k) == std::get<3>(w); }); want(eo, 4, [&](other const& k) { return k == std::get<4>(w); });
                if (!(x == x) || x != x || x < x) vf::fail("any:self-compare", log);
            };
            for (auto n = r.size(20, 80); n-- > 0;)
            {
                auto i = r.below(3), j = r.below(3); auto& x = v[i]; neolib::i_any& a = x; auto op = r.below(14); auto num = static_cast<int>(r.below(7)) - 3; auto s = kind<neolib::string>::make(r); log += vf::cat(" ", op, ":", i, ",", j, ",", num, show1(s));
                switch (op)
                {
                case 0: x = num; m[i].emplace<1>(num); break;
                case 1: { neolib::string ns{ s }; x = ns; m[i].emplace<2>(s); } break;
                case 2: x = vf::tracked{ num }; m[i].emplace<3>(num); break;
                case 3: { other o{ num }; x = o; m[i].emplace<4>(o); } break;
                case 4: x = v[j]; m[i] = m[j]; break;
                case 5: x = static_cast<neolib::any const&>(v[j]); m[i] = m[j]; break;
                case 6: a.reset(); m[i] = std::monostate{}; break;
                case 7: x = static_cast<neolib::i_any const&>(v[j]); m[i] = m[j]; break;
                case 8: { neolib::any c{ v[j] }; check(c, m[j]); neolib::any d{ std::move(c) }; check(d, m[j]); check(c, VM{}); x = std::move(d); check(d, VM{}); m[i] = m[j]; } break;
                case 9: { neolib::any c{ static_cast<neolib::i_any const&>(v[j]) }; check(c, m[j]); neolib::any d{ static_cast<neolib::any const&>(v[j]) }; check(d, m[j]); } break;
                case 10: x.emplace<vf::tracked>(num); m[i].emplace<3>(num); break;
                case 11: { neolib::string& e = x.emplace<neolib::string>(); m[i].emplace<2>(""); if (e.size() != 0) vf::fail("any:emplace", log); } break;
                case 12: if (r.chance(1, 2)) x.swap(v[j]); else swap(x, v[j]); std::swap(m[i], m[j]); break;
                case 13: if (auto p = neolib::any_cast<int>(&x)) { *p = num; m[i].emplace<1>(num); } break;
                }
                for (int k = 0; k < 3; ++k) check(v[k], m[k]);
                vf::count("any-operations");
            }
        }
        if (vf::tracked::live != base) { vf::tracked::live = base; vf::fail("any:lifetime", log); }
        vf::distinct(vf::hash(log));
    }
    template <typename T1, typename T2> void pairs(vf::rng& r)
    {
        using K1 = kind<T1>; using K2 = kind<T2>; using P = neolib::pair<T1, T2>; using A = typename P::abstract_type; using M = std::pair<typename K1::model, typename K2::model>;
        std::vector<P> v(3); std::vector<M> m(3, M{ K1::fresh(), K2::fresh() }); std::string log;
        auto check = [&](P const& x, M const& w) { A const& a = x; if (plain(x.first()) != w.first || plain(x.second()) != w.second || plain(a.first()) != w.first || plain(a.second()) != w.second || plain(neolib::get<0>(x)) != w.first || plain(neolib::get<1>(x)) != w.second || plain(neolib::get<0>(a)) != w.first || plain(neolib::get<1>(a)) != w.second) vf::fail("pair:value", log); };
        for (auto n = r.size(20, 80); n-- > 0;)
        {
            auto i = r.below(3), j = r.below(3); auto a = K1::make(r); auto b = K2::make(r); auto op = r.below(8); log += vf::cat(" ", op, ":", i, ",", j, show1(a), show1(b)); P& x = v[i]; A& ax = x; M mv{ a, b }; P pv{ T1{ a }, T2{ b } };
            switch (op)
            {
            case 0: x = pv; m[i] = mv; break;
            case 1: ax = static_cast<A const&>(pv); m[i] = mv; break;
            case 2: x = v[j]; m[i] = m[j]; break;
            case 3: swap(x, v[j]); std::swap(m[i], m[j]); break;
            case 4: { P c{ v[j] }; check(c, m[j]); P d{ static_cast<A const&>(v[j]) }; check(d, m[j]); P e{ std::pair<T1, T2>{ T1{ a }, T2{ b } } }; check(e, mv); auto f = neolib::make_pair(T1{ a }, T2{ b }); check(f, mv); } break;
            case 5: x.first() = T1{ a }; m[i].first = a; break;
            case 6: ax.second() = T2{ b }; m[i].second = b; break;
            case 7: ax = static_cast<A const&>(v[j]); m[i] = m[j]; break;
            }
            for (int k = 0; k < 3; ++k) check(v[k], m[k]);
            P const& p = v[i]; P const& q = v[j]; A const& pa = p; A const& qa = q; auto const& u = m[i]; auto const& w = m[j];
            if ((p == q) != (u == w) || ((p <=> q) < 0) != (u < w) || ((p <=> q) > 0) != (u > w) || (pa == qa) != (u == w) || ((pa <=> qa) < 0) != (u < w) || ((pa <=> qa) > 0) != (u > w)) vf::fail("pair:compare", log);
            vf::count("pair-operations");
        }
        vf::distinct(vf::hash(log));
    }
}
VF_SCENARIO(optional_int, 1) { optionals<int>(r); }
VF_SCENARIO(optional_string, 1) { optionals<neolib::string>(r); }
VF_SCENARIO(optional_tracked, 1) { optionals<vf::tracked>(r); }
VF_SCENARIO(optional_stream, 1) { neolib::optional<int> a, b{ 5 }; if (r.chance(2, 3)) a = static_cast<int>(r.below(1000)); std::ostringstream o; o << a << ' ' << 7; if (o.str() != (a.has_value() ? std::to_string(a.value()) : "?") + " 7") vf::fail("optional:print", o.str()); std::istringstream i{ o.str() }; int n = 0; if (r.chance(1, 2)) b = std::nullopt; i >> b >> n; if (!(a == b) || n != 7) vf::fail("optional:read", o.str()); vf::distinct(vf::hash(o.str())); }
VF_SCENARIO(variant_, 3) { variants(r); }
VF_SCENARIO(any_, 2) { anys(r); }
VF_SCENARIO(pair_int_string, 1) { pairs<int, neolib::string>(r); }
VF_SCENARIO(pair_string_int, 1) { pairs<neolib::string, int>(r); }
VF_MAIN
