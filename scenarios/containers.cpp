// C19: sequence containers against a model, with allocations and element copies failing
#include <neolib/neolib.hpp>
#include <neolib/core/gap_vector.hpp>
#include <neolib/core/segmented_array.hpp>
#include <neolib/core/vecarray.hpp>
#include <neolib/core/polymorphic_vecarray.hpp>
#include <neolib/core/vector.hpp>
#include <neolib/core/list.hpp>
#include <neolib/core/deque.hpp>
#include <neolib/core/small_vector.hpp>
#include <neolib/core/tree.hpp>
#include <neolib/core/map.hpp>
#include <neolib/core/unordered_map.hpp>
#include <neolib/core/set.hpp>
#include <neolib/core/optional.hpp>
#include <neolib/core/variant.hpp>
#include <neolib/core/string.hpp>
#include <set>
#include <unordered_set>
#include <list>
#include "common.hpp"
#include "elements.hpp"

namespace
{
    using namespace elements;
    using ids = std::vector<int>;

    template <typename S> struct traits { static constexpr bool own = false; static constexpr bool arithmetic = true; static constexpr std::size_t max = 1000000; };
    template <std::size_t G, std::size_t N> struct traits<neolib::gap_vector<item, G, N>> : traits<void> { static constexpr bool own = true; };
    template <std::size_t N> struct traits<neolib::segmented_array<item, N>> : traits<void> { static constexpr bool own = true; };
    template <> struct traits<neolib::growable_static_vector<item, 3, 12>> : traits<void> { static constexpr std::size_t max = 12; };
    template <> struct traits<neolib::polymorphic::vecarray<item, 3, 12>> : traits<void> { static constexpr std::size_t max = 12; };

    template <> struct traits<neolib::deque<item>> : traits<void> { static constexpr bool arithmetic = false; }; // its iterators cannot be added to

    template <typename S> auto at_pos(S& s, std::size_t n) { auto i = s.begin(); for (; n; --n) ++i; return i; }
    template <typename S> auto cat_pos(S& s, std::size_t n) { auto i = s.cbegin(); for (; n; --n) ++i; return i; }

    bool subsequence(ids const& small, ids const& big) { std::size_t k = 0; for (int i : big) if (k < small.size() && small[k] == i) ++k; return k == small.size(); }
    std::string show(ids const& v) { std::string r; for (int i : v) r += (r.empty() ? "" : ",") + std::to_string(i); return "[" + r + "]"; }

    template <typename S> bool same(S const& s, ids const& want);
    // reads a container every way it can be read, and compares
    template <typename S> ids read(S const& cs, bool all)
    {
        no_faults nf; ids got; S& s = const_cast<S&>(cs);
        for (auto i = cs.begin(), e = cs.end(); i != e; ++i) { SIM_CHECK(got.size() <= cs.size(), "wrong-items", "iterating goes beyond the %zu items", cs.size()); got.push_back(id_of(*i)); }
        SIM_CHECK(got.size() == cs.size() && cs.empty() == got.empty(), "wrong-size", "the container says it has %zu items, iterating gives %zu", (std::size_t)cs.size(), got.size());
        if (!all) return got;
        std::size_t const n = got.size();
        if constexpr (requires { s.rbegin(); }) { std::size_t k = n; for (auto i = s.rbegin(), e = s.rend(); i != e; ++i) { SIM_CHECK(k > 0 && id_of(*i) == got[k - 1], "wrong-items", "backwards iteration differs at %zu of %s", k, show(got).c_str()); --k; } SIM_CHECK(k == 0, "wrong-items", "backwards iteration stops early"); }
        { auto i = s.end(); for (std::size_t k = n; k > 0; --k) { --i; SIM_CHECK(id_of(*i) == got[k - 1], "wrong-items", "stepping back from the end differs at %zu", k - 1); } SIM_CHECK(i == s.begin(), "wrong-items", "stepping back from the end does not reach the start"); }
        if constexpr (requires { s[0]; }) for (std::size_t k = 0; k < n; ++k) SIM_CHECK(id_of(s[k]) == got[k] && id_of(cs[k]) == got[k], "wrong-items", "[%zu] is not the item iterated there, of %s", k, show(got).c_str());
        if constexpr (requires { s.at(0); })
        {
            for (std::size_t k = 0; k < n; ++k) SIM_CHECK(id_of(s.at(k)) == got[k] && id_of(cs.at(k)) == got[k], "wrong-items", "at(%zu) is not the item iterated there", k);
            for (std::size_t k : { n, n + 1 + sim::rnd(600), ~std::size_t{} - sim::rnd(300) }) { bool threw = false; try { (void)s.at(k); } catch (std::out_of_range const&) { threw = true; } SIM_CHECK(threw, "no-bounds", "at(%zu) of %zu items does not throw", k, n); }
        }
        if (n) { SIM_CHECK(id_of(s.front()) == got.front() && id_of(cs.front()) == got.front(), "wrong-items", "front() is not the first item"); SIM_CHECK(id_of(s.back()) == got.back() && id_of(cs.back()) == got.back(), "wrong-items", "back() is not the last item"); }
        if constexpr (traits<S>::arithmetic && requires { s.begin() + 1; s.end() - s.begin(); })
        {
            for (int t = 0; t < 4; ++t)
            {
                std::size_t const a = sim::rnd(n + 1), b = sim::rnd(n + 1);
                auto i = s.begin() + (std::ptrdiff_t)a, j = s.end() - (std::ptrdiff_t)(n - b);
                SIM_CHECK(j - i == (std::ptrdiff_t)b - (std::ptrdiff_t)a, "wrong-distance", "iterators at %zu and %zu of %zu are %td apart", a, b, n, j - i);
                SIM_CHECK((i == j) == (a == b) && (i < j) == (a < b), "wrong-order", "iterators at %zu and %zu compare wrongly", a, b);
                if (a < n) SIM_CHECK(id_of(*i) == got[a], "wrong-items", "begin()+%zu is item %d instead of %d", a, id_of(*i), got[a]);
                auto k = i; k += (std::ptrdiff_t)b - (std::ptrdiff_t)a; SIM_CHECK(k == j, "wrong-items", "an iterator moved from %zu to %zu of %zu is elsewhere", a, b, n); if (b < n) SIM_CHECK(id_of(*k) == got[b], "wrong-items", "an iterator moved from %zu to %zu is at item %d instead of %d", a, b, id_of(*k), got[b]);
            }
        }
        return got;
    }

    template <typename S> bool same(S const& s, ids const& want) { no_faults nf; return read(s, true) == want; }

    template <typename S> void history(bool faults)
    {
        using T = traits<S>; enter(faults);
        auto box = std::make_unique<std::optional<S>>(std::in_place); S& s = **box; ids model; int next = 1; std::size_t const big = T::max < 100 ? 4 : sim::chance(20) ? 40 : 6;
        int const ops = 1 + (int)sim::rnd(60);
        for (int o = 0; o < ops; ++o)
        {
            if (sim::chance(2)) { model.clear(); box->reset(); SIM_CHECK(live() == 0, "leak", "%zu items outlive their container", live()); box->emplace(); }
            unsigned const k = (unsigned)sim::rnd(24); std::size_t const n = model.size(); sim::state(k * 1000 + n);
            std::size_t const at = sim::chance(30) ? n : sim::chance(20) ? 0 : sim::rnd(n + 1), many = sim::rnd(big), to = std::min(n, at + sim::rnd(big));
            std::vector<item> src; ids srcIds; { no_faults nf; for (std::size_t i = 0; i < many; ++i) { src.emplace_back(next); srcIds.push_back(next++); } }
            ids want = model, extra; bool insert = true, replace = false, atEnd = false; int returned = -1; bool const room = n + many + 1 <= T::max;
            auto check_returned = [&](auto i) { std::size_t d = 0; no_faults nf; for (auto b = s.begin(); b != i; ++b) { ++d; SIM_CHECK(d <= want.size(), "wrong-position", "the iterator returned is nowhere in the container"); } SIM_CHECK(d == (std::size_t)returned, "wrong-position", "the iterator returned is at %zu instead of %d of %zu", d, returned, want.size()); };
            sim::log("op %u n=%zu at=%zu many=%zu", k, n, at, many);
            std::optional<armed> af; bool const willArm = faults && sim::chance(60); auto arm = [&] { if (willArm) af.emplace(); };
            auto ins = [&](std::size_t where, ids const& what) { want.insert(want.begin() + where, what.begin(), what.end()); extra = what; if (!what.empty()) returned = (int)where; arm(); };
            try
            {
                struct disarm { std::optional<armed>& af; ~disarm() { af.reset(); } } da{ af };
                switch (k)
                {
                case 0: if (room) { item i{ next }; ins(n, { next++ }); atEnd = true; s.push_back(i); } break;
                case 1: if (room) if constexpr (requires { s.push_back(item{}); }) { ins(n, { next++ }); atEnd = true; s.push_back(item{ next - 1 }); } break;
                case 2: if (room) if constexpr (requires { s.emplace_back(1); }) { ins(n, { next++ }); atEnd = true; s.emplace_back(next - 1); } break;
                case 3: case 4: if (room) { item i{ next }; ins(at, { next++ }); check_returned(s.insert(cat_pos(s, at), i)); } break;
                case 5: if (room) if constexpr (T::arithmetic && requires { s.emplace(s.cbegin(), 1); }) { ins(at, { next++ }); check_returned(s.emplace(cat_pos(s, at), next - 1)); }
                        else if constexpr (requires { s.emplace_insert(s.cbegin(), 1); }) { ins(at, { next++ }); check_returned(s.emplace_insert(cat_pos(s, at), next - 1)); } break;
                case 6: if (room) if constexpr (requires { s.insert(s.cbegin(), std::size_t{}, item{}); }) { item i{ next }; ins(at, ids(many, next++)); if (returned < 0) returned = (int)at; check_returned(s.insert(cat_pos(s, at), many, i)); } break;
                case 7: case 8: if (room) if constexpr (requires { s.insert(s.cbegin(), src.begin(), src.end()); }) { ins(at, srcIds); if (returned < 0) returned = (int)at; check_returned(s.insert(cat_pos(s, at), src.begin(), src.end())); } break;
                case 9: if (room) if constexpr (requires { s.insert(s.cbegin(), std::initializer_list<item>{}); }) { item a{ next }, b{ next + 1 }, c{ next + 2 }; if (n + 3 <= T::max) { ins(at, { next, next + 1, next + 2 }); next += 3; std::initializer_list<item> l{ a, b, c }; check_returned(s.insert(cat_pos(s, at), l)); } } break;
                case 10: case 11: if (at < n) { want.erase(want.begin() + at); insert = false; returned = (int)at; arm(); check_returned(s.erase(cat_pos(s, at))); } break;
                case 12: case 13: { want.erase(want.begin() + at, want.begin() + to); insert = false; returned = (int)at; arm(); check_returned(s.erase(cat_pos(s, at), cat_pos(s, to))); } break;
                case 14: if (n) { want.pop_back(); insert = false; arm(); s.pop_back(); } break;
                case 15: if (n) if constexpr (requires { s.pop_front(); }) { want.erase(want.begin()); insert = false; arm(); s.pop_front(); } break;
                case 16: if (sim::chance(20)) { want.clear(); insert = false; arm(); s.clear(); } break;
                case 17: { item i{ next }; std::size_t const m = at + (room && sim::flip() ? many : 0); if (m > n) { ins(n, ids(m - n, next)); } else { want.resize(m); insert = false; } ++next; arm(); s.resize(m, i); } break;
                case 18: { replace = true; arm(); S other{ s }; SIM_CHECK(same(other, model), "bad-copy", "a copy of %s is %s", show(model).c_str(), show(read(other, false)).c_str()); if (room) { { no_faults nf; want.push_back(next++); } item i{ next - 1 }; other.push_back(i); } s = other; SIM_CHECK(same(other, want), "bad-copy", "assigning a container changed it"); } break;
                case 19: { replace = true; arm(); S other{ s }; if (room) { { no_faults nf; want.push_back(next++); } item i{ next - 1 }; other.push_back(i); } if (sim::flip()) s = std::move(other); else { S third{ std::move(other) }; SIM_CHECK(same(third, want), "bad-move", "moving %s gives %s", show(want).c_str(), show(read(third, false)).c_str());
                           if (sim::flip()) { other.clear(); item i{ next++ }; other.push_back(i); SIM_CHECK([&] { no_faults nf; return same(other, ids(1, next - 1)); }(), "moved-from-unusable", "a moved-from container cannot be filled again"); }
                           if constexpr (requires { s.swap(third); }) { s.swap(third); SIM_CHECK(same(third, model), "bad-swap", "swapping gives %s", show(read(third, false)).c_str()); } else s = std::move(third); } } break;
                case 20: { auto const& self = s; replace = true; arm(); s = self; } break;
                case 21: if (n && room) { auto const which = sim::rnd(n); if constexpr (requires { s[0]; }) { ins(at, { model[which] }); check_returned(s.insert(cat_pos(s, at), s[which])); } else { ins(n, { model.front() }); s.push_back(s.front()); } } break;
                case 22: if constexpr (requires { s.reserve(1); }) { insert = false; arm(); s.reserve(std::min(T::max, n + many)); if constexpr (requires { s.shrink_to_fit(); }) if (sim::flip()) s.shrink_to_fit(); } break;
                case 23: if (room) { if constexpr (requires { s.push_front(item{}); }) { item i{ next }; ins(0, { next++ }); s.push_front(i); } else if constexpr (requires { s.assign(src.begin(), src.end()); }) { replace = true; want = srcIds; arm(); s.assign(src.begin(), src.end()); } } break;
                }
                af.reset(); model = want;
            }
            catch (std::exception const& e)
            {
                if (!dynamic_cast<std::bad_alloc const*>(&e) && !dynamic_cast<copy_failed const*>(&e)) sim::fail("unexpected-exception", "operation %u threw %s", k, e.what());
                sim::probe("operation failed partway");
                ids const now = read(s, false);
                if (replace) { ids old = model; for (int i : want) old.push_back(i); for (int i : now) SIM_CHECK(i == -2 || i == 0 || std::find(old.begin(), old.end(), i) != old.end(), "invented", "after a failed replacement item %d appeared", i); }
                else if (!T::own && k >= 6 && k <= 9) {} // a standard vector promises no more than to stay usable
                else if (insert)
                {
                    SIM_CHECK(subsequence(model, now), "lost", "a failed insertion turned %s into %s (inserting %s at %zu)", show(model).c_str(), show(now).c_str(), show(extra).c_str(), at);
                    SIM_CHECK(now.size() <= want.size(), "invented", "a failed insertion turned %s into %s", show(model).c_str(), show(now).c_str());
                    if (T::own) { ids rest = now; for (int i : model) rest.erase(std::find(rest.begin(), rest.end(), i)); for (int i : rest) SIM_CHECK(std::find(extra.begin(), extra.end(), i) != extra.end(), "invented", "a failed insertion of %s turned %s into %s", show(extra).c_str(), show(model).c_str(), show(now).c_str()); }
                    if (extra.size() == 1 && (atEnd || T::own)) SIM_CHECK(now == model || !T::own && now == want, "not-undone", "a failed insertion of one item turned %s into %s", show(model).c_str(), show(now).c_str());
                }
                else SIM_CHECK(subsequence(now, model) && subsequence(want, now), "lost", "a failed removal turned %s into %s (wanted %s)", show(model).c_str(), show(now).c_str(), show(want).c_str());
                model = now;
            }
            if (T::own || true) { ids const now = read(s, sim::chance(40)); SIM_CHECK(now == model, "wrong-items", "after operation %u (at %zu to %zu, %zu items) the container is %s instead of %s", k, at, to, many, show(now).c_str(), show(model).c_str()); }
            src.clear(); SIM_CHECK(live() == model.size(), "leak", "%zu items exist, the container has %zu", live(), model.size());
        }
        box.reset(); SIM_CHECK(live() == 0, "leak", "%zu items outlive their container", live());
    }
}

SIM_SCENARIO(seq_history)
{
    sim::enable_fault("alloc_failure"); sim::enable_fault("copy_failure"); bool const faults = sim::chance(70);
    warm(); auto const before = sim::live_blocks();
    switch (sim::rnd(11))
    {
    case 0: history<neolib::gap_vector<item>>(faults); break;
    case 1: history<neolib::gap_vector<item, 4, 1>>(faults); break;
    case 2: history<neolib::gap_vector<item, 8, 2>>(faults); break;
    case 3: history<neolib::segmented_array<item, 4>>(faults); break;
    case 4: history<neolib::segmented_array<item, 16>>(faults); break;
    case 5: history<neolib::growable_static_vector<item, 3, 12>>(faults); break;
    case 6: history<neolib::polymorphic::vecarray<item, 3, 12>>(faults); break;
    case 7: history<neolib::vector<item>>(faults); break;
    case 8: history<neolib::list<item>>(faults); break;
    case 9: history<neolib::deque<item>>(faults); break;
    case 10: history<neolib::small_vector<item, 4>>(faults); break;
    }
    SIM_CHECK(sim::live_blocks() == before, "leak", "%lld blocks of memory are left", (long long)(sim::live_blocks() - before));
}

namespace
{
    // ---- trees
    struct mnode { int id; mnode* parent; bool skip = false; std::vector<std::unique_ptr<mnode>> kids; mnode(int id, mnode* p) : id{ id }, parent{ p } {} };
    std::size_t below(mnode const& n) { std::size_t r = 0; for (auto& k : n.kids) r += 1 + below(*k); return r; }
    void preorder(mnode const& n, int depth, bool skip, std::vector<std::pair<mnode const*, int>>& out) { if (skip && n.skip) return; for (auto& k : n.kids) { out.push_back({ k.get(), depth }); preorder(*k, depth + 1, skip, out); } }
    std::unique_ptr<mnode> clone(mnode const& n, mnode* p) { auto r = std::make_unique<mnode>(n.id, p); r->skip = n.skip; for (auto& k : n.kids) r->kids.push_back(clone(*k, r.get())); return r; }
    void sort_all(mnode& n) { std::sort(n.kids.begin(), n.kids.end(), [](auto& a, auto& b) { return a->id < b->id; }); for (auto& k : n.kids) sort_all(*k); }
    mnode* pick(mnode& root) { std::vector<std::pair<mnode const*, int>> all; preorder(root, 0, false, all); return all.empty() ? nullptr : const_cast<mnode*>(all[sim::rnd(all.size())].first); }
    std::size_t index_of(mnode const& root, mnode const* n) { std::vector<std::pair<mnode const*, int>> all; preorder(root, 0, false, all); for (std::size_t i = 0; i < all.size(); ++i) if (all[i].first == n) return i; return all.size(); }

    // every way through a tree, by its const or mutable iterators
    template <typename Tree, typename Items> void walk(Tree& t, Items const& all, Items const& shown, mnode const& root)
    {
        std::size_t k = all.size();
        for (auto i = t.end(); k > 0; --k) { i--; SIM_CHECK(id_of(*i) == all[k - 1].first->id, "wrong-items", "backwards, item %zu is %d instead of %d", k - 1, id_of(*i), all[k - 1].first->id); }
        for (auto i = t.rbegin(); i != t.rend(); ++i, ++k) SIM_CHECK(k < all.size() && id_of(*i) == all[all.size() - 1 - k].first->id, "wrong-items", "reversed, item %zu is wrong", k);
        SIM_CHECK(k == all.size(), "wrong-items", "reversed, %zu items are found instead of %zu", k, all.size());
        k = 0; for (auto i = t.begin(); i != t.end(); ++i, ++k)
        {
            SIM_CHECK(k < all.size() && (int)i.depth() == all[k].second && i.descendent_count() == below(*all[k].first) && i.children_skipped() == all[k].first->skip && i.parent_is_root() == (all[k].second == 0), "wrong-items", "what item %zu says of its place is wrong", k);
            if (all[k].second) SIM_CHECK(id_of(*i.parent()) == all[k].first->parent->id && id_of(*i.cparent()) == all[k].first->parent->id, "wrong-parent", "item %zu has a wrong parent", k);
            auto const& kids = all[k].first->kids; std::size_t c = 0; for (auto j = i.begin(); j != i.end(); ++j, ++c) SIM_CHECK(c < kids.size() && id_of(*j) == kids[c]->id, "wrong-items", "child %zu of item %zu is wrong", c, k);
            SIM_CHECK(c == kids.size(), "wrong-items", "item %zu has %zu children instead of %zu", k, c, kids.size()); for (auto j = i.cbegin(); j != i.cend(); ++j) --c; SIM_CHECK(c == 0, "wrong-items", "item %zu has another number of const children", k); c = kids.size();
            for (auto j = i.rbegin(); j != i.rend(); ++j) { SIM_CHECK(c > 0 && id_of(*j) == kids[c - 1]->id, "wrong-items", "child %zu of item %zu is wrong backwards", c, k); --c; }
            c = kids.size(); for (auto j = i.crbegin(); j != i.crend(); ++j) { SIM_CHECK(c > 0 && id_of(*j) == kids[c - 1]->id, "wrong-items", "const child %zu of item %zu is wrong backwards", c, k); --c; }
        }
        k = 0; for (auto i = t.kbegin(); i != t.kend(); i++, ++k) SIM_CHECK(k < shown.size() && id_of(*i) == shown[k].first->id, "wrong-items", "skipping, item %zu of %zu is %d", k, shown.size(), id_of(*i));
        SIM_CHECK(k == shown.size(), "wrong-items", "skipping, %zu items are found instead of %zu", k, shown.size());
        for (auto i = t.rkbegin(); i != t.rkend(); ++i) { SIM_CHECK(k > 0 && id_of(*i) == shown[k - 1].first->id, "wrong-items", "skipping backwards, item %zu of %zu is wrong", k, shown.size()); --k; }
        SIM_CHECK(k == 0, "wrong-items", "skipping backwards ends early");
        for (auto i = t.sbegin(); i != t.send(); ++i, ++k) SIM_CHECK(k < root.kids.size() && id_of(*i) == root.kids[k]->id, "wrong-items", "top-level item %zu is wrong", k);
        SIM_CHECK(k == root.kids.size(), "wrong-items", "there are %zu top-level items instead of %zu", k, root.kids.size());
        for (auto i = t.rsbegin(); i != t.rsend(); ++i) { SIM_CHECK(k > 0 && id_of(*i) == root.kids[k - 1]->id, "wrong-items", "top-level item %zu is wrong backwards", k); --k; }
        SIM_CHECK(k == 0, "wrong-items", "top-level items end early backwards");
    }

    template <typename Tree> void compare(Tree const& ct, mnode const& root, bool deep, unsigned op)
    {
        no_faults nf; Tree& t = const_cast<Tree&>(ct);
        std::vector<std::pair<mnode const*, int>> all, shown; preorder(root, 0, false, all); preorder(root, 0, true, shown);
        SIM_CHECK(ct.size() == all.size() && ct.empty() == all.empty(), "wrong-size", "after operation %u the tree says it has %zu items instead of %zu", op, ct.size(), all.size());
        SIM_CHECK(ct.ksize() == shown.size(), "wrong-size", "after operation %u the tree says %zu items are not skipped instead of %zu", op, ct.ksize(), shown.size());
        std::size_t k = 0;
        for (auto i = ct.begin(); i != ct.end(); ++i, ++k)
        {
            SIM_CHECK(k < all.size(), "wrong-items", "iterating goes beyond the %zu items", all.size());
            SIM_CHECK(id_of(*i) == all[k].first->id, "wrong-items", "after operation %u item %zu of the tree is %d instead of %d", op, k, id_of(*i), all[k].first->id);
            if (!deep) continue;
            SIM_CHECK((int)i.depth() == all[k].second, "wrong-depth", "item %d is at depth %d instead of %d", all[k].first->id, (int)i.depth(), all[k].second);
            SIM_CHECK(i.descendent_count() == below(*all[k].first), "wrong-size", "item %d says it has %zu descendents instead of %zu", all[k].first->id, (std::size_t)i.descendent_count(), below(*all[k].first));
            SIM_CHECK(i.children_skipped() == all[k].first->skip, "wrong-items", "item %d has forgotten whether its children are skipped", all[k].first->id);
            SIM_CHECK(i.parent_is_root() == (all[k].second == 0), "wrong-parent", "item %d does not know whether it is at the top", all[k].first->id);
            if (all[k].second) SIM_CHECK(id_of(*i.parent()) == all[k].first->parent->id, "wrong-parent", "item %d thinks its parent is %d", all[k].first->id, id_of(*i.parent()));
            std::size_t c = 0; for (auto j = i.begin(); j != i.end(); ++j, ++c) SIM_CHECK(c < all[k].first->kids.size() && id_of(*j) == all[k].first->kids[c]->id, "wrong-items", "child %zu of item %d is wrong", c, all[k].first->id);
            SIM_CHECK(c == all[k].first->kids.size(), "wrong-items", "item %d has %zu children instead of %zu", all[k].first->id, c, all[k].first->kids.size());
            for (auto j = i.rbegin(); j != i.rend(); ++j) { --c; SIM_CHECK(id_of(*j) == all[k].first->kids[c]->id, "wrong-items", "child %zu of item %d is wrong backwards", c, all[k].first->id); }
        }
        SIM_CHECK(k == all.size(), "wrong-items", "after operation %u iterating ends after %zu of %zu items", op, k, all.size());
        if (!deep) return;
        walk(t, all, shown, root); walk(ct, all, shown, root);
        std::vector<int> f; for (auto i = t.cbegin(); i != t.cend(); ++i) f.push_back(id_of(*i)); SIM_CHECK(f.size() == all.size(), "wrong-items", "const iteration ends early");
        k = f.size(); for (auto i = t.crbegin(); i != t.crend(); ++i) { SIM_CHECK(k > 0 && id_of(*i) == f[k - 1], "wrong-items", "const iteration backwards is wrong at %zu", k); --k; }
        for (auto i = t.ckbegin(); i != t.ckend(); i++, ++k) SIM_CHECK(k < shown.size() && id_of(*i) == shown[k].first->id, "wrong-items", "const skipping, item %zu of %zu is %d", k, shown.size(), id_of(*i));
        for (auto i = t.crkbegin(); i != t.crkend(); ++i) { SIM_CHECK(k > 0 && id_of(*i) == shown[k - 1].first->id, "wrong-items", "const skipping backwards, item %zu of %zu is wrong", k, shown.size()); --k; }
        k = root.kids.size(); for (auto i = t.crsbegin(); i != t.crsend(); ++i) { SIM_CHECK(k > 0 && id_of(*i) == root.kids[k - 1]->id, "wrong-items", "const top-level item %zu is wrong backwards", k); --k; }
        SIM_CHECK(k == 0, "wrong-items", "const top-level items end early backwards");
    }

    template <typename Tree> void tree_history(bool faults)
    {
        auto t = std::make_unique<Tree>(); auto model = std::make_unique<mnode>(-1, nullptr); int next = 1;
        int const ops = 1 + (int)sim::rnd(60);
        for (int o = 0; o < ops; ++o)
        {
            unsigned const k = (unsigned)sim::rnd(16); mnode& root = *model; bool const arm = faults && sim::chance(60);
            std::unique_ptr<mnode> undo; { undo = clone(root, nullptr); }
            mnode* const at = sim::chance(30) ? nullptr : pick(root); mnode& under = at ? *at : root; std::size_t const ix = at ? index_of(root, at) : 0;
            auto it = [&] { return std::next(t->begin(), (std::ptrdiff_t)ix); };
            std::size_t const place = sim::rnd(under.kids.size() + 1); sim::state(k * 1000 + below(root)); sim::log("op %u size=%zu at=%d place=%zu", k, below(root), at ? at->id : -1, place);
            try
            {
                std::optional<armed> af; item fresh{ next };
                switch (k)
                {
                case 0: case 1: case 2: case 3: case 4:
                {
                    under.kids.insert(under.kids.begin() + (std::ptrdiff_t)place, std::make_unique<mnode>(next++, &under)); typename Tree::const_sibling_iterator pos = at ? it().begin() : t->sbegin(); std::advance(pos, (std::ptrdiff_t)place);
                    if (arm) af.emplace(); auto r = t->insert(pos, fresh); af.reset(); SIM_CHECK(id_of(*r) == fresh.id, "wrong-position", "inserting %d gave an iterator at %d", fresh.id, id_of(*r));
                } break;
                case 5: case 6: under.kids.push_back(std::make_unique<mnode>(next++, &under)); if (arm) af.emplace(); if (at) t->push_back(it(), fresh); else t->push_back(fresh); break;
                case 7: under.kids.insert(under.kids.begin(), std::make_unique<mnode>(next++, &under)); if (arm) af.emplace(); if (at) t->push_front(it(), fresh); else t->push_front(fresh); break;
                case 8: case 9: case 10: if (at)
                {
                    auto& sibs = at->parent->kids; auto const gone = std::find_if(sibs.begin(), sibs.end(), [&](auto& p) { return p.get() == at; }); std::vector<std::pair<mnode const*, int>> all; preorder(root, 0, false, all);
                    std::size_t const after = ix + 1 + below(*at); int const follower = after < all.size() ? all[after].first->id : -1; sibs.erase(gone);
                    if (arm) af.emplace(); auto r = t->erase(it()); af.reset();
                    if (follower < 0) SIM_CHECK(r == t->end(), "wrong-position", "erasing the last items did not return the end"); else SIM_CHECK(r != t->end() && id_of(*r) == follower, "wrong-position", "erasing returned an iterator at %d instead of %d", r == t->end() ? -1 : id_of(*r), follower);
                } break;
                case 11: if (sim::chance(30)) { sort_all(root); if (arm) af.emplace(); t->sort(); } break;
                case 12: if (at) { at->skip = true; it().skip_children(); } break;
                case 13: if (at) { at->skip = false; it().unskip_children(); } break;
                case 14: if (sim::chance(20)) { root.kids.clear(); t->clear(); } break;
                case 15:
                {
                    if (arm) af.emplace(); Tree other{ *t }; auto was = [&] { no_faults nf; return clone(root, nullptr); }(); compare(other, *was, true, 100);
                    other.push_back(fresh); { no_faults nf; root.kids.push_back(std::make_unique<mnode>(next++, &root)); }
                    switch (sim::rnd(3)) { case 0: *t = other; break; case 1: *t = std::move(other); break; case 2: { Tree third{ std::move(other) }; *t = std::move(third); } break; }
                    af.reset(); compare(*t, root, true, 101);
                } break;
                }
            }
            catch (std::exception const& e)
            {
                if (!dynamic_cast<std::bad_alloc const*>(&e) && !dynamic_cast<copy_failed const*>(&e)) sim::fail("unexpected-exception", "operation %u threw %s", k, e.what());
                sim::probe("operation failed partway"); model = std::move(undo); if (k >= 8 && k <= 14) sim::fail("unexpected-exception", "operation %u, which adds nothing, failed", k);
            }
            compare(*t, *model, sim::chance(40), k);
            SIM_CHECK(live() == below(*model), "leak", "%zu items exist, the tree has %zu", live(), below(*model));
        }
        t.reset(); SIM_CHECK(live() == 0, "leak", "%zu items outlive their tree", live());
    }
}

SIM_SCENARIO(tree_history)
{
    sim::enable_fault("alloc_failure"); sim::enable_fault("copy_failure"); bool const faults = sim::chance(70); warm(); auto const before = sim::live_blocks();
    switch (sim::rnd(3)) { case 0: tree_history<neolib::tree<item, 2>>(faults); break; case 1: tree_history<neolib::tree<item, 4>>(faults); break; case 2: tree_history<neolib::tree<item>>(faults); break; }
    SIM_CHECK(sim::live_blocks() == before, "leak", "%lld blocks of memory are left", (long long)(sim::live_blocks() - before));
}

#include "keyed.hpp"
