// C29: intrusive_sort through its swapper, and red_black_tree through a derived class, against std::stable_sort / std::multiset order.
#include "vf.hpp"
#include <cmath>
#include <vector>
#include <list>
#include <deque>
#include <memory>
#include <algorithm>
#include <numeric>
#include <neolib/neolib.hpp>
#include <neolib/core/intrusive_sort.hpp>
#include <neolib/core/red_black_tree.hpp>

namespace
{
    using vf::i64; using vf::u64;
    std::vector<i64> keys(vf::rng& r, std::size_t n, std::string& shape)
    {
        std::vector<i64> v(n);
        switch (r.below(12))
        {
        case 0: shape = "random"; for (auto& x : v) x = r.range(-1000000, 1000000); break;
        case 1: shape = "equal"; break;
        case 2: shape = "few"; { auto k = 2 + r.below(3); for (auto& x : v) x = r.below(k); } break;
        case 3: shape = "up"; for (std::size_t i = 0; i < n; ++i) v[i] = i64(i); break;
        case 4: shape = "down"; for (std::size_t i = 0; i < n; ++i) v[i] = -i64(i); break;
        case 5: shape = "organ"; for (std::size_t i = 0; i < n; ++i) v[i] = i64(std::min(i, n - i)); break;
        case 6: shape = "saw"; { auto k = 1 + r.below(9); for (std::size_t i = 0; i < n; ++i) v[i] = i64(i % k); } break;
        case 7: shape = "equal-but-last"; if (n) v[n - 1] = r.chance(1, 2) ? 1 : -1; break;
        case 8: shape = "equal-but-some"; for (auto k = 1 + r.below(4); k && n; --k) v[r.below(n)] = r.range(-2, 2); break;
        case 9: shape = "nearly-up"; for (std::size_t i = 0; i < n; ++i) v[i] = i64(i); for (auto k = 1 + r.below(4); k && n; --k) std::swap(v[r.below(n)], v[r.below(n)]); break;
        case 10: shape = "extremes"; for (auto& x : v) x = r.pick<i64>({ INT64_MIN, INT64_MAX, 0, -1, 1 }); break;
        default: shape = "halves"; for (std::size_t i = 0; i < n; ++i) v[i] = i64(i < n / 2 ? i : r.below(n)); break;
        }
        return v;
    }
    struct item { i64 key; int id; };
}

// sorting moves nothing itself: what it does must come out through the swapper, within the range, and sort it
template <typename C> void sort_case(vf::rng& r, char const* kind)
{
    auto pre = r.below(4), post = r.below(4); std::string shape; std::size_t n = r.chance(1, 3) ? r.below(12) : r.chance(1, 8) ? r.below(1500) : r.below(200);
    auto k = keys(r, n, shape); int order = int(r.below(3));
    auto less = [&](item const& a, item const& b) { return order == 1 ? a.key > b.key : order == 2 ? (a.key & 7) < (b.key & 7) : a.key < b.key; };
    C c; for (std::size_t i = 0; i < pre; ++i) c.push_back({ 1ll << 40, -1 }); for (std::size_t i = 0; i < n; ++i) c.push_back({ k[i], int(i) }); for (std::size_t i = 0; i < post; ++i) c.push_back({ -(1ll << 40), -2 });
    std::string what = vf::cat(kind, " ", shape, " n=", n, " order=", order);
    u64 compares = 0, swaps = 0; auto first = c.begin() + pre, last = first + n;
    auto owned = [&](item const& a) { if (a.id < 0) vf::fail("sort:outside", vf::cat("an element outside of the range was compared: ", what)); };
    neolib::intrusive_sort(first, last, [&](auto a, auto b) { ++swaps; if (a < first || !(a < last) || b < first || !(b < last)) vf::fail("sort:outside", vf::cat("swap of ", a - first, " and ", b - first, ": ", what)); std::swap(*a, *b); },
        [&](item const& a, item const& b) { ++compares; owned(a); owned(b); return less(a, b); });
    std::vector<char> seen(n);
    for (std::size_t i = 0; i < c.size(); ++i)
    {
        auto& x = c[i]; if (i < pre ? x.id != -1 : i >= pre + n ? x.id != -2 : x.id < 0) vf::fail("sort:outside", what);
        if (i >= pre && i < pre + n) { if (x.key != k[x.id] || seen[x.id]++) vf::fail("sort:lost", what); if (i > pre && less(x, c[i - 1])) vf::fail("sort:order", vf::cat(what, " at ", i - pre)); }
    }
    if (n > 1 && compares > u64(12 * double(n) * (std::log2(double(n)) + 1)) + 20) vf::fail("sort:cost", vf::cat(what, ": ", compares, " comparisons"));
    vf::count("sorted", n); vf::count("comparisons", compares); vf::count("swaps", swaps); vf::count(vf::cat("shape:", shape)); vf::max("n", n);
    u64 h = vf::hash(what); for (auto x : k) h = h * 1000003 + u64(x); vf::distinct(h); if (n < 30) vf::sample(what);
}
VF_SCENARIO(sort_vector, 3) { sort_case<std::vector<item>>(r, "vector"); }
VF_SCENARIO(sort_deque, 1) { sort_case<std::deque<item>>(r, "deque"); }
VF_SCENARIO(sort_default, 1)
{
    std::string shape; auto v = keys(r, r.below(120), shape), w = v; std::sort(w.begin(), w.end());
    neolib::intrusive_sort(v.begin(), v.end(), [](auto a, auto b) { std::iter_swap(a, b); });
    if (v != w) vf::fail("sort:order", vf::cat("default order ", shape, " n=", v.size()));
    auto u = w; std::reverse(u.begin(), u.end()); neolib::intrusive_sort(u.data(), u.data() + u.size(), [](i64* a, i64* b) { std::swap(*a, *b); }, std::greater<i64>{}); std::reverse(u.begin(), u.end());
    if (u != w) vf::fail("sort:order", vf::cat("pointers ", shape, " n=", v.size()));
    u64 h = 7; for (auto x : v) h = h * 1000003 + u64(x); vf::distinct(h);
}

namespace
{
    struct rb : neolib::red_black_tree
    {
        using node = neolib::red_black_tree::node;
        struct item : node { i64 key; int id; item(i64 k, int i) : key{ k }, id{ i } {} };
        static item* it(node* n) { return static_cast<item*>(n); }
        struct pred { bool operator()(node* a, node* b) const { return it(a)->key < it(b)->key; } };
    };
    struct rbt
    {
        using I = rb::item;
        vf::rng& r; std::string log; std::vector<std::unique_ptr<I>> all; int next = 0;
        struct one { rb t; std::list<I*> order; };
        [[noreturn]] void bad(char const* what, std::string const& d) { vf::fail(vf::cat("rb:", what), vf::cat(d, " history: ", log)); }
        std::size_t walk(one& o, rb::node* n, rb::node* up, std::list<I*>::iterator& at, std::size_t depth, std::size_t& deepest)
        {
            auto nil = o.t.nil_node(); if (n == nil) { deepest = std::max(deepest, depth); return 0; }
            if (depth > 200) bad("cycle", "");
            if (n->is_nil()) bad("nil", "a node is a nil of another tree");
            if (n->parent() != up) bad("parent", vf::cat("of ", rb::it(n)->key));
            if (n->color() == rb::node::RED && (up == nil || up->color() == rb::node::RED)) bad("red-red", vf::cat(rb::it(n)->key));
            if (n->has_left() != (n->left() != nil) || n->has_right() != (n->right() != nil) || n->has_parent() != (up != nil)) bad("has", vf::cat(rb::it(n)->key));
            bool sib = up != nil && (up->left() == n ? up->right() : up->left()) != nil;
            if (n->has_sibling() != sib) bad("sibling", vf::cat(rb::it(n)->key)); if (sib && n->sibling() != (up->left() == n ? up->right() : up->left())) bad("sibling", ""); if (!sib) { bool threw = false; try { (void)n->sibling(); } catch (rb::node::no_sibling const&) { threw = true; } if (!threw) bad("no-sibling", ""); }
            auto l = walk(o, n->left(), n, at, depth + 1, deepest);
            if (at == o.order.end() || *at != n) bad("order", vf::cat("found ", rb::it(n)->key, "#", rb::it(n)->id, " want ", at == o.order.end() ? "nothing" : vf::cat((*at)->key, "#", (*at)->id)));
            ++at; auto rr = walk(o, n->right(), n, at, depth + 1, deepest);
            if (l != rr) bad("black-height", vf::cat(l, " and ", rr, " at ", rb::it(n)->key));
            return l + (n->color() == rb::node::BLACK);
        }
        void check(one& o, char const* op)
        {
            auto at = o.order.begin(); std::size_t deepest = 0; walk(o, o.t.root_node(), o.t.nil_node(), at, 0, deepest);
            if (at != o.order.end()) bad("lost", vf::cat("after ", op)); if (!o.t.nil_node()->is_nil()) bad("nil", op);
            if (double(deepest) > 2 * std::log2(double(o.order.size()) + 1) + 1) bad("height", vf::cat(deepest, " for ", o.order.size()));
            vf::count("states"); vf::max("nodes", o.order.size()); vf::max("height", deepest);
        }
        void insert(one& o, I* n, bool hint)
        {
            rb::node* h = nullptr;
            if (hint && o.t.root_node() != o.t.nil_node()) { auto x = o.t.root_node(); for (auto k = r.below(6);; --k) { h = x; auto d = n->key < rb::it(x)->key ? x->left() : x->right(); if (k == 0 || d == o.t.nil_node()) break; x = d; } }
            if (h) o.t.insert_node(n, rb::pred{}, h); else o.t.insert_node(n, rb::pred{});
            o.order.insert(std::find_if(o.order.begin(), o.order.end(), [&](I* x) { return x->key > n->key; }), n);
        }
        void run()
        {
            auto a = std::make_unique<one>(), b = std::make_unique<one>(); unsigned steps = 10 + r.below(120), grow = 3 + r.below(6); i64 span = r.pick<i64>({ 3, 30, 1000000 }); i64 up = 0; unsigned shape = r.below(4);
            for (unsigned s = 0; s < steps; ++s)
            {
                auto w = r.below(24); char const* op = "";
                if (w < 2 * grow) { op = "insert"; for (auto k = r.chance(1, 20) ? r.below(60) : 1; k; --k) { i64 key = shape == 0 ? ++up : shape == 1 ? --up : r.range(-span, span); all.push_back(std::make_unique<I>(key, next++)); bool hint = r.chance(1, 4); log += vf::cat(hint ? "i^" : "i", key, " "); insert(*a, all.back().get(), hint); } }
                else if (w < 21) { if (!a->order.empty()) { op = "erase"; for (auto k = r.chance(1, 20) ? r.below(40) : 1; k && !a->order.empty(); --k) { auto i = a->order.begin(); std::advance(i, r.chance(1, 4) ? 0 : r.below(a->order.size())); auto n = *i; log += vf::cat("e", n->key, "#", n->id, " "); a->t.delete_node(n); a->order.erase(i); if (r.chance(1, 3)) { log += "back "; insert(*a, n, false); } else { for (auto& p : all) if (p.get() == n) { std::swap(p, all.back()); all.pop_back(); break; } } if (k > 1) check(*a, op); } } }
                else if (w == 21) { op = "swap"; log += "swap "; if (r.chance(1, 2)) a->t.swap(b->t); else b->t.swap(a->t); a->order.swap(b->order); }
                else if (w == 22) { if (r.chance(1, 3)) { op = "clear"; log += "clear "; a->t.clear(); a->order.clear(); } }
                else { op = "other"; log += "other "; std::swap(a, b); }
                check(*a, op); check(*b, op); vf::count(vf::cat("op:", op));
            }
            if (r.chance(1, 2)) { log += "drop "; a.reset(); if (!b->order.empty()) { b->t.delete_node(b->order.front()); b->order.pop_front(); } check(*b, "drop"); }
            else { b.reset(); while (!a->order.empty()) { auto i = a->order.begin(); std::advance(i, r.below(a->order.size())); log += vf::cat("d", (*i)->key, " "); a->t.delete_node(*i); a->order.erase(i); check(*a, "drain"); } if (a->t.root_node() != a->t.nil_node()) bad("empty", ""); }
            vf::distinct(vf::hash(log)); vf::sample(log.substr(0, 300));
        }
    };
}
VF_SCENARIO(red_black, 4) { rbt t{ r }; t.run(); }
VF_MAIN
