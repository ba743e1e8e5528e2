// C18: jars
#include <neolib/neolib.hpp>
#include <neolib/core/jar.hpp>
#include <neolib/core/service.hpp>
#include "common.hpp"

namespace
{
    std::atomic<int> sItems; // live items
    struct item
    {
        int id; std::string payload; // copying allocates
        item(int id = -1) : id{ id }, payload((std::size_t)(20 + (id & 7)), (char)('a' + (id & 15))) { ++sItems; }
        item(item const& o) : id{ o.id }, payload{ o.payload } { ++sItems; }
        item(item&& o) noexcept : id{ o.id }, payload{ std::move(o.payload) } { o.id = -2; ++sItems; }
        item& operator=(item const& o) { payload = o.payload; id = o.id; return *this; }
        item& operator=(item&& o) noexcept { id = o.id; payload = std::move(o.payload); o.id = -2; return *this; }
        ~item() { --sItems; }
        bool whole() const { return payload == std::string((std::size_t)(20 + (id & 7)), (char)('a' + (id & 15))); }
    };
    int id_of(item const& i) { SIM_CHECK(i.whole(), "corrupt", "item %d is damaged", i.id); return i.id; }
    int id_of(std::unique_ptr<item> const& i) { SIM_CHECK(i != nullptr, "corrupt", "an item is empty"); return id_of(*i); }
    int id_of(std::shared_ptr<item> const& i) { SIM_CHECK(i != nullptr, "corrupt", "an item is empty"); return id_of(*i); }
    template <typename J> typename J::cookie_type put(J& j, int id, unsigned how)
    {
        if constexpr (std::is_same_v<typename J::value_type, item>)
        {
            if (how == 0) { item i{ id }; return j.insert(i); }
            if (how == 1) return j.emplace(id);
            auto c = j.next_cookie();
            try { if (how == 2) { item i{ id }; j.add(c, i); } else j.add(c, id); } catch (...) { j.return_cookie(c); throw; }
            return c;
        }
        else if constexpr (std::is_same_v<typename J::value_type, std::shared_ptr<item>>)
        {
            if (how == 0) { auto p = std::make_shared<item>(id); return j.insert(p); }
            return j.emplace(id);
        }
        else
        {
            if (how < 2) return j.emplace(id);
            auto c = j.next_cookie();
            try { j.add(c, id); } catch (...) { j.return_cookie(c); throw; }
            return c;
        }
    }
    template <typename J> constexpr unsigned hows = std::is_same_v<typename J::value_type, item> ? 4 : 3;

    template <typename J> void history(bool faults)
    {
        using C = typename J::cookie_type;
        std::map<C, int> model; std::set<C> reserved; std::vector<C> gone; int next = 1;
        auto j = std::make_unique<J>();
        std::size_t const limit = sizeof(C) == 1 ? 254 : 1000000; bool wasFull = false;
        auto check = [&](bool deep)
        {
            SIM_CHECK(j->size() == model.size() && j->empty() == model.empty(), "wrong-size", "the jar holds %zu items instead of %zu", j->size(), model.size());
            if (!deep) return;
            for (auto const& e : model)
            {
                SIM_CHECK(j->contains(e.first), "lost", "item %d is not found under its cookie %u", e.second, (unsigned)e.first);
                int const got = id_of((*j)[e.first]); SIM_CHECK(got == e.second, "wrong-item", "cookie %u leads to item %d instead of %d", (unsigned)e.first, got, e.second);
                J const& cj = *j; { auto f = cj.find(e.first); SIM_CHECK(f != cj.end() && id_of(*f) == e.second && id_of(cj[e.first]) == e.second, "wrong-item", "find(%u) of a const jar leads elsewhere", (unsigned)e.first); }
                auto f = j->find(e.first); SIM_CHECK(f != j->end() && id_of(*f) == e.second, "wrong-item", "find(%u) leads elsewhere", (unsigned)e.first);
                SIM_CHECK(j->item_cookie((*j)[e.first]) == e.first, "wrong-cookie", "item %d does not know its cookie %u", e.second, (unsigned)e.first);
            }
            for (auto c : gone) if (!model.count(c))
            {
                SIM_CHECK(!j->contains(c), "not-absent", "removed cookie %u is still present", (unsigned)c);
                SIM_CHECK(j->find(c) == j->end(), "not-absent", "removed cookie %u is still found", (unsigned)c);
                bool threw = false; try { (void)(*j)[c]; } catch (neolib::cookie_invalid const&) { threw = true; } SIM_CHECK(threw, "not-absent", "removed cookie %u still leads to an item", (unsigned)c);
                threw = false; try { j->remove(c); } catch (neolib::cookie_invalid const&) { threw = true; } SIM_CHECK(threw, "not-absent", "cookie %u was removed twice", (unsigned)c);
            }
            { J const& cj = *j; std::size_t n = 0; for (auto i = cj.begin(); i != cj.end(); ++i, ++n) SIM_CHECK(id_of(*i) == id_of(cj.at_index(n)) && id_of(cj.items()[n]) == id_of(j->items()[n]), "wrong-items", "item %zu differs by the way it is reached", n); SIM_CHECK(n == cj.size() && (std::size_t)std::distance(cj.cbegin(), cj.cend()) == n, "wrong-items", "iterating a const jar gives %zu items", n); }
            std::multiset<int> seen, want; for (auto i = j->begin(); i != j->end(); ++i) seen.insert(id_of(*i)); for (auto const& e : model) want.insert(e.second);
            SIM_CHECK(seen == want, "wrong-items", "iterating gives %zu items, %zu are stored", seen.size(), want.size());
            for (std::size_t i = 0; i < j->size(); ++i) SIM_CHECK(want.count(id_of(j->at_index(i))), "wrong-items", "at_index gives an item that is not stored");
        };
        auto given = [&](C c, int id)
        {
            SIM_CHECK(!model.count(c), "cookie-reused", "cookie %u was given to item %d while item %d has it", (unsigned)c, id, model[c]);
            SIM_CHECK(!reserved.count(c), "cookie-reused", "cookie %u was given twice", (unsigned)c);
            SIM_CHECK(c != neolib::invalid_cookie<C>, "cookie-invalid", "an invalid cookie was given");
        };
        int const ops = 1 + (int)sim::rnd(sizeof(C) == 1 && sim::chance(30) ? 900 : 40); bool const big = ops > 300;
        for (int o = 0; o < ops; ++o)
        {
            std::optional<sim::alloc_faults> af; if (faults) af.emplace(120);
            unsigned const k = big && o < 280 ? 0 : (unsigned)sim::rnd(12); sim::state(k * 1000 + model.size());
            auto pick = [&] { auto it = model.begin(); std::advance(it, (long)sim::rnd(model.size())); return it->first; };
            try
            {
                if (k < 5)
                {
                    int const id = next++; unsigned const how = (unsigned)sim::rnd(hows<J>);
                    C c = put(*j, id, how); af.reset(); given(c, id); model[c] = id;
                    if (model.size() > limit) wasFull = true;
                }
                else if (k < 8) { if (!model.empty()) { C const c = pick(); auto r = j->remove(c); bool const atEnd = r == j->end(); af.reset(); (void)atEnd; model.erase(c); gone.push_back(c); sim::probe("removed"); } }
                else if (k == 8) { if (!model.empty()) { C const c = pick(); if (sim::flip()) j->erase(j->find(c)); else j->remove((*j)[c]); af.reset(); model.erase(c); gone.push_back(c); } }
                else if (k == 9) { C const c = j->next_cookie(); af.reset(); given(c, -1); reserved.insert(c); if (sim::flip()) { j->return_cookie(c); reserved.erase(c); } }
                else if (k == 10) { if (!reserved.empty()) { C const c = *reserved.begin(); int const id = next++; if constexpr (std::is_same_v<typename J::value_type, std::shared_ptr<item>>) j->add(c, std::make_shared<item>(id)); else j->add(c, id); af.reset(); reserved.erase(c); model[c] = id; } }
                else if (sim::chance(20) && !model.empty())
                {
                    C const c = pick(); bool refused = false; int const id = next++; // a cookie in use is refused
                    try { if constexpr (std::is_same_v<typename J::value_type, std::shared_ptr<item>>) j->add(c, std::make_shared<item>(id)); else j->add(c, id); } catch (neolib::cookie_already_added const&) { refused = true; }
                    af.reset(); SIM_CHECK(refused, "cookie-reused", "an item was added under cookie %u, which item %d has", (unsigned)c, model[c]); sim::probe("refused");
                }
                else if (sim::chance(50))
                {
                    af.reset();
                    if (sim::flip())
                    {
                        // removing while iterating meets every item once
                        unsigned const which = (unsigned)sim::rnd(4); std::map<int, C> byId; for (auto const& e : model) byId[e.second] = e.first;
                        std::multiset<int> met; std::size_t const n = model.size();
                        for (auto i = j->begin(); i != j->end() && met.size() <= n;)
                        {
                            int const id = id_of(*i); met.insert(id);
                            if (id % 4 == (int)which || which == 3) { i = j->erase(i); model.erase(byId[id]); gone.push_back(byId[id]); } else ++i;
                        }
                        SIM_CHECK(met.size() == n && std::set<int>(met.begin(), met.end()).size() == n, "wrong-items", "removing while iterating met %zu of %zu items", met.size(), n); sim::probe("removed_while_iterating");
                    }
                    else if (sim::flip()) { j->clear(); model.clear(); reserved.clear(); gone.clear(); }
                    else if constexpr (std::is_copy_constructible_v<typename J::value_type>)
                    {
                        auto j2 = std::make_unique<J>(); if (sim::flip()) *j2 = *j; else j2 = std::make_unique<J>(*j);
                        if (sim::flip()) { int id = next++; C c = put(*j2, id, 0); given(c, id); j2->remove(c); }
                        j = std::move(j2); sim::probe("copied");
                    }
                    else { auto j2 = std::make_unique<J>(std::move(*j)); if (sim::flip()) { *j = std::move(*j2); } else std::swap(j, j2); if (sim::flip()) { SIM_CHECK(j2->empty(), "not-absent", "a jar that was moved from has items"); j2->clear(); C const c = put(*j2, next, 0); SIM_CHECK(j2->contains(c) && j2->size() == 1 && id_of((*j2)[c]) == next, "wrong-item", "a jar that was moved from does not work"); ++next; } }
                    for (auto c : gone) (void)c;
                }
            }
            catch (std::bad_alloc const&) { sim::probe("no_memory"); }
            catch (neolib::cookies_exhausted const&) { af.reset(); SIM_CHECK(sizeof(C) == 1 && model.size() + reserved.size() + 12 >= limit, "exhausted", "cookies ran out with %zu items", model.size()); sim::probe("cookies_exhausted"); }
            af.reset();
            check(!big || o % 16 == 0 || o > ops - 4);
        }
        // cookies run out only when they do, and come back
        check(true); j.reset();
        SIM_CHECK(sItems == 0, "leak", "%d items are never destroyed", sItems.load()); (void)wasFull;
    }
    template <typename J> void shared_history()
    {
        using C = typename J::cookie_type;
        J j; int const nt = 2 + (int)sim::rnd(3); std::map<C, int> owner; // under quiet
        std::vector<std::vector<unsigned>> scripts; for (int t = 0; t < nt; ++t) { scripts.emplace_back(); int n = 1 + (int)sim::rnd(8); for (int i = 0; i < n; ++i) scripts.back().push_back((unsigned)sim::rnd(8 * 24)); }
        std::vector<std::map<C, int>> mine((std::size_t)nt); std::vector<std::thread> ts;
        for (int t = 0; t < nt; ++t) ts.emplace_back([&, t]
        {
            auto& M = mine[(std::size_t)t]; int next = 100 * (t + 1); std::vector<C> gone;
            for (auto c0 : scripts[(std::size_t)t])
            {
                unsigned const op = c0 % 8, which = c0 / 8;
                auto pick = [&] { auto it = M.begin(); std::advance(it, (long)(which % M.size())); return it->first; };
                if (op < 3)
                {
                    int const id = next++; C c = put(j, id, which % hows<J>);
                    { sim::quiet q; SIM_CHECK(!owner.count(c), "cookie-reused", "cookie %u was given to item %d while item %d has it", (unsigned)c, id, owner[c]); owner[c] = id; }
                    M[c] = id;
                }
                else if (op == 3) { if (!M.empty()) { C c = pick(); { sim::quiet q; owner.erase(c); } if (which & 1) { std::scoped_lock lk{ j.mutex() }; j.remove(c); } else j.remove(c); M.erase(c); sim::probe("removed"); } }
                else if (op == 4) { if (!M.empty()) { C c = pick(); SIM_CHECK(j.contains(c), "lost", "cookie %u is not found by the thread that stored it", (unsigned)c); } }
                else if (op == 5) { if (!M.empty()) { C c = pick(); std::scoped_lock lk{ j.mutex() }; int const got = id_of(j[c]); SIM_CHECK(got == M[c], "wrong-item", "cookie %u leads to item %d instead of %d", (unsigned)c, got, M[c]); auto f = j.find(c); SIM_CHECK(f != j.end() && id_of(*f) == M[c], "wrong-item", "find leads elsewhere"); } }
                else if (op == 6) { std::size_t const s = j.size(); bool const e = j.empty(); if (!M.empty()) SIM_CHECK(s >= M.size() && !e, "wrong-size", "the jar says %zu items while this thread alone stored %zu", s, M.size()); }
                else { std::scoped_lock lk{ j.mutex() }; std::size_t n = 0; for (auto i = j.begin(); i != j.end(); ++i, ++n) (void)id_of(*i); SIM_CHECK(n == j.size(), "wrong-items", "iterating under the lock gives %zu of %zu items", n, j.size()); }
            }
        });
        for (auto& t : ts) t.join();
        std::size_t n = 0; for (auto& M : mine) for (auto& e : M) { ++n; SIM_CHECK(j.contains(e.first), "lost", "cookie %u is lost", (unsigned)e.first); int const got = id_of(j[e.first]); SIM_CHECK(got == e.second, "wrong-item", "cookie %u leads to item %d instead of %d", (unsigned)e.first, got, e.second); }
        SIM_CHECK(j.size() == n, "wrong-size", "the jar holds %zu items instead of %zu", j.size(), n);
        sim::state(n);
    }
}
SIM_SCENARIO(jar_history)
{
    sim::enable_fault("alloc_failure", 60);
    sim::set_time_limit(60 * sim::sec); sItems = 0;
    bool const f = sim::fault_enabled("alloc_failure");
    switch (sim::rnd(6))
    {
    case 0: history<neolib::jar<item>>(f); break;
    case 1: history<neolib::small_jar<item>>(f); break;
    case 2: history<neolib::std_vector_jar<item>>(f); break;
    case 3: history<neolib::std_vector_jar<std::unique_ptr<item>>>(f); break;
    case 4: history<neolib::basic_std_vector_jar<item, std::uint8_t>>(f); break;
    case 5: history<neolib::basic_jar<item, neolib::vector<item>, std::uint8_t>>(f); break;
    }
}
SIM_SCENARIO(jar_shared)
{
    neolib::allocate_service_provider();
    sim::enable_fault("time_skip"); sim::enable_fault("spurious_wakeup");
    sim::set_time_limit(60 * sim::sec); sItems = 0;
    switch (sim::rnd(3))
    {
    case 0: shared_history<neolib::jar<item, neolib::recursive_mutex<>>>(); break;
    case 1: shared_history<neolib::std_vector_jar<item, std::recursive_mutex>>(); break;
    case 2: shared_history<neolib::std_vector_jar<std::unique_ptr<item>, neolib::recursive_mutex<>>>(); break;
    }
}
