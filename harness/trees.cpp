// C21: segmented_tree against a plain tree of nodes.
#include "vf.hpp"
#include <vector>
#include <memory>
#include <algorithm>
#include <neolib/neolib.hpp>
#include <neolib/core/segmented_tree.hpp>

namespace
{
    using vf::i64; using vf::u64;
    template <typename T> T mk(i64 v) { if constexpr (std::is_same_v<T, std::string>) { char b[64]; std::snprintf(b, sizeof b, "%08lld%s", (long long)v, v % 2 ? "" : ":longer than any small string buffer"); return b; } else return T(v); }
    template <typename T> i64 num(T const& t) { if constexpr (std::is_same_v<T, std::string>) return std::stoll(t); else if constexpr (std::is_same_v<T, vf::tracked>) return vf::val(t); else return i64(t); }
    template <typename T> struct less { bool operator()(T const& a, T const& b) const { return num(a) < num(b); } };
    template <typename T> struct greater { bool operator()(T const& a, T const& b) const { return num(a) > num(b); } };

    struct mn
    {
        i64 v = 0; bool skip = false; mn* up = nullptr; std::vector<std::unique_ptr<mn>> ch;
        std::size_t count() const { std::size_t n = 0; for (auto& c : ch) n += 1 + c->count(); return n; }
        std::size_t shown() const { std::size_t n = 0; for (auto& c : ch) n += 1 + (c->skip ? 0 : c->shown()); return n; }
        std::size_t depth() const { std::size_t d = 0; for (mn* p = up; p->up; p = p->up) ++d; return d; }
        std::size_t at() const { for (std::size_t i = 0; i < up->ch.size(); ++i) if (up->ch[i].get() == this) return i; return 0; }
        void list(std::vector<mn*>& l, bool all) { for (auto& c : ch) { l.push_back(c.get()); if (all || !c->skip) c->list(l, all); } }
        std::unique_ptr<mn> clone(mn* u) const { auto n = std::make_unique<mn>(); n->v = v; n->skip = skip; n->up = u; for (auto& c : ch) n->ch.push_back(c->clone(n.get())); return n; }
        mn* add(std::size_t i, i64 x) { auto n = std::make_unique<mn>(); n->v = x; n->up = this; auto p = n.get(); ch.insert(ch.begin() + i, std::move(n)); return p; }
        void sort(bool desc) { std::sort(ch.begin(), ch.end(), [&](auto& a, auto& b) { return desc ? a->v > b->v : a->v < b->v; }); for (auto& c : ch) c->sort(desc); }
        std::string str() const { std::ostringstream o; for (auto& c : ch) { o << c->v << (c->skip ? "-" : ""); if (!c->ch.empty()) o << "(" << c->str() << ")"; o << " "; } return o.str(); }
    };

    template <typename T, std::size_t N> struct tc
    {
        using X = neolib::segmented_tree<T, N>;
        vf::rng& r; std::string log; i64 nextv = 1;
        explicit tc(vf::rng& r) : r{ r } {}
        mn* model = nullptr;
        [[noreturn]] void bad(char const* what, std::string const& d = {}) { vf::fail(vf::cat("tree:", what), vf::cat(d, " model: ", model ? model->str() : "", " history: ", log)); }
        // the public way to a node: down the sibling lists
        typename X::sibling_iterator find(X& x, mn* n)
        {
            if (n->up->up == nullptr) { auto i = x.sbegin(); for (std::size_t k = n->at(); k; --k) ++i; return i; }
            auto i = find(x, n->up).begin(); for (std::size_t k = n->at(); k; --k) ++i; return i;
        }
        typename X::sibling_iterator slot(X& x, mn* up, std::size_t k)
        {
            auto i = up->up == nullptr ? x.sbegin() : find(x, up).begin(); for (; k; --k) i++; return i;
        }
        template <typename It> void at(It i, mn* n, char const* op)
        {
            if (num(*i) != n->v || num(*i.operator->()) != n->v) bad("value", vf::cat("after ", op, ": ", num(*i), " want ", n->v));
            if (i.depth() != n->depth()) bad("depth", vf::cat("after ", op, ": ", i.depth(), " want ", n->depth(), " of ", n->v));
            if (i.descendent_count() != n->count()) bad("descendents", vf::cat("after ", op, ": ", i.descendent_count(), " want ", n->count(), " of ", n->v));
            if (i.children_skipped() != n->skip) bad("skipped", vf::cat("after ", op, " of ", n->v));
            if (i.parent_is_root() != (n->up->up == nullptr)) bad("parent-is-root", op);
            if (n->up->up && num(*i.parent()) != n->up->v) bad("parent", vf::cat("after ", op, ": parent of ", n->v, " is ", num(*i.parent())));
            if (n->up->up && num(*i.cparent()) != n->up->v) bad("parent", op);
        }
        template <typename It> void walk(It first, It last, std::vector<mn*> const& l, char const* op, char const* how, bool full)
        {
            std::size_t k = 0; bool post = r.chance(1, 3);
            for (auto i = first; i != last;) { if (k >= l.size()) bad(how, vf::cat("after ", op, ": more than ", l.size(), " nodes")); if (full) at(i, l[k], op); else if (num(*i) != l[k]->v) bad(how, op); auto old = i; if (post) { auto was = i++; if (!(was == old)) bad("postfix", op); } else ++i; if (i == old) bad("stuck", vf::cat(how, " after ", op)); ++k; }
            if (k != l.size()) bad(how, vf::cat("after ", op, ": ", k, " nodes, want ", l.size()));
            for (auto i = last; k > 0;) { auto old = i; if (post) { auto was = i--; if (!(was == old)) bad("postfix", op); } else --i; --k; if (num(*i) != l[k]->v) bad(how, vf::cat("backwards after ", op, ": ", num(*i), " want ", l[k]->v)); if ((i == first) != (k == 0)) bad(how, "backwards begin"); }
            auto b = std::make_reverse_iterator(last); for (k = l.size(); k > 0; ++b) if (num(*b) != l[--k]->v) bad(how, vf::cat("reverse after ", op)); if (!(b == std::make_reverse_iterator(first))) bad(how, "reverse end");
        }
        void siblings(typename X::sibling_iterator i, typename X::sibling_iterator e, mn* m, char const* op)
        {
            std::vector<mn*> l; for (auto& c : m->ch) l.push_back(c.get());
            walk(i, e, l, op, "siblings", false);
            for (auto& c : m->ch) { at(i, c.get(), op); walk(i.cbegin(), i.cend(), [&] { std::vector<mn*> k; for (auto& d : c->ch) k.push_back(d.get()); return k; }(), op, "csiblings", false); siblings(i.begin(), i.end(), c.get(), op); ++i; }
        }
        void check(X& x, mn& m, char const* op)
        {
            model = &m; X const& cx = x;
            if (x.size() != m.count() || x.empty() != m.ch.empty()) bad("size", vf::cat("after ", op, ": ", x.size(), " want ", m.count()));
            if (x.ksize() != m.shown()) bad("shown-size", vf::cat("after ", op, ": ", x.ksize(), " want ", m.shown()));
            std::vector<mn*> all, shown; m.list(all, true); m.list(shown, false);
            walk(x.begin(), x.end(), all, op, "order", true); walk(cx.begin(), cx.end(), all, op, "corder", r.chance(1, 3));
            walk(x.kbegin(), x.kend(), shown, op, "skip-order", false); walk(cx.kbegin(), cx.kend(), shown, op, "cskip-order", r.chance(1, 3));
            { std::size_t k = all.size(); for (auto i = cx.crbegin(); i != cx.crend(); ++i) { if (k == 0 || num(*i) != all[--k]->v) bad("rorder", op); } k = shown.size(); for (auto i = x.rkbegin(); i != x.rkend(); ++i) { if (k == 0 || num(*i) != shown[--k]->v) bad("rskip-order", op); } k = m.ch.size(); for (auto i = x.rsbegin(); i != x.rsend(); ++i) { if (k == 0 || num(*i) != m.ch[--k]->v) bad("rsiblings", op); } }
            siblings(x.sbegin(), x.send(), &m, op);
            vf::count("states"); vf::count("nodes-checked", all.size()); vf::max("nodes", all.size()); std::size_t d = 0; for (auto n : all) d = std::max(d, n->depth() + 1); vf::max("depth", d);
        }
        void run()
        {
            auto x = std::make_unique<X>(), y = std::make_unique<X>(); auto m = std::make_unique<mn>(), o = std::make_unique<mn>();
            unsigned steps = 8 + r.below(35); bool bushy = r.chance(1, 3), dup = r.chance(1, 4);
            for (unsigned s = 0; s < steps; ++s)
            {
                std::vector<mn*> all; m->list(all, true);
                char const* op = "?"; std::ostringstream note;
                mn* n = all.empty() || (bushy && r.chance(1, 2)) ? nullptr : all[r.below(all.size())];
                mn* up = n ? n : m.get(); i64 v = dup ? i64(r.below(9)) : r.chance(1, 2) ? nextv++ : 1000000 - nextv++;
                switch (r.below(14))
                {
                case 0: case 1: { std::size_t k = r.below(up->ch.size() + 1); op = "insert"; note << v << ">" << (n ? n->v : 0) << ":" << k; auto i = x->insert(slot(*x, up, k), mk<T>(v)); auto a = up->add(k, v); model = m.get(); at(i, a, op); break; }
                case 2: op = "push_back"; note << v; if (r.chance(1, 2)) up = all.empty() ? m.get() : all.back(); note << ">" << up->v; if (up->up) x->push_back(find(*x, up), mk<T>(v)); else x->push_back(mk<T>(v)); up->add(up->ch.size(), v); break;
                case 3: op = "push_front"; note << v << ">" << up->v; if (up->up) x->push_front(find(*x, up), mk<T>(v)); else x->push_front(mk<T>(v)); up->add(0, v); break;
                case 4: { op = "many"; auto c = r.below(r.chance(1, 4) ? 4 * N : 4); note << c << ">" << up->v; for (; c; --c) { v = dup ? i64(r.below(9)) : nextv++; auto k = r.below(up->ch.size() + 1); x->insert(slot(*x, up, k), mk<T>(v)); up->add(k, v); } break; }
                case 5: case 6: if (n) { op = "erase"; note << n->v; auto k = std::size_t(std::find(all.begin(), all.end(), n) - all.begin()); auto const nextAt = k + 1 + n->count(); typename X::const_iterator pos; if (r.chance(1, 2)) pos = typename X::const_iterator{ find(*x, n) }; else pos = std::next(x->cbegin(), k); mn* next = nextAt < all.size() ? all[nextAt] : nullptr; auto i = x->erase(pos); auto u = n->up; u->ch.erase(u->ch.begin() + n->at()); model = m.get(); if ((i == x->end()) != (next == nullptr)) bad("erase-end", op); if (next) at(i, next, op); } break;
                case 7: case 8: if (n) { op = n->skip ? "unskip" : "skip"; note << n->v; auto i = find(*x, n); if (r.chance(1, 4)) { if (n->skip) i.skip_children(); else i.unskip_children(); } else { if (n->skip) i.unskip_children(); else i.skip_children(); n->skip = !n->skip; } } break;
                case 9: if (!dup) { op = "sort"; bool desc = r.chance(1, 2); note << desc; if (desc) x->sort(greater<T>{}); else if constexpr (!std::is_same_v<T, vf::tracked>) x->sort(); else x->sort(less<T>{}); m->sort(desc); } break;
                case 10: switch (r.below(3)) { case 0: { op = "copy"; X z{ *x }; check(z, *m, "copy-construct"); break; } case 1: op = "assign"; *y = *x; o = m->clone(nullptr); check(*y, *o, op); break; default: op = "other"; std::swap(x, y); std::swap(m, o); } break;
                case 11: switch (r.below(3)) { case 0: { op = "move"; auto z = std::make_unique<X>(std::move(*x)); x = std::move(z); break; } case 1: op = "move-assign"; *y = std::move(*x); o = std::move(m); m = std::make_unique<mn>(); x = std::make_unique<X>(); check(*y, *o, op); break; default: op = "swap"; std::swap(*x, *y); std::swap(m, o); check(*y, *o, op); } break;
                case 12: if (n) { op = "write"; note << n->v << "=" << v; *find(*x, n) = mk<T>(v); n->v = v; } break;
                case 13: if (r.chance(1, 6)) { op = "clear"; x->clear(); m->ch.clear(); } else if (n) { op = "insert-own"; note << n->v; i64 w = n->v; X& t = *x; if (r.chance(1, 2)) { t.push_back(find(t, n), *find(t, n)); n->add(n->ch.size(), w); } else { t.push_back(*find(t, n)); m->add(m->ch.size(), w); } dup = true; } break;
                }
                log += vf::cat(op, " ", note.str(), "; "); vf::count(vf::cat("op:", op));
                check(*x, *m, op);
                if (all.size() > 120) { x->clear(); m->ch.clear(); }
            }
            check(*x, *m, "end"); check(*y, *o, "end");
            vf::distinct(vf::hash(log)); vf::sample(log);
        }
    };
}
template <typename T, std::size_t N> void tree_case(vf::rng& r) { auto n = vf::tracked::live.load(); { tc<T, N> x{ r }; x.run(); } if (vf::tracked::live != n) vf::fail("tree:leak", vf::cat(vf::tracked::live - n, " values leaked")); }
VF_SCENARIO(tree_int3, 3) { tree_case<i64, 3>(r); }
VF_SCENARIO(tree_tracked4, 2) { tree_case<vf::tracked, 4>(r); }
VF_SCENARIO(tree_string64, 1) { tree_case<std::string, 64>(r); }
VF_MAIN
