// C19: maps, sets, optional, variant and string against standard models, with allocations and element copies failing
namespace
{
    using nstring = neolib::string;
    std::string key_name(int k) { return k % 3 ? "k" + std::to_string(k) : "a rather long key that needs the heap " + std::to_string(k); }
    nstring nkey(int k) { no_faults nf; return nstring{ key_name(k) }; }
    bool expected(std::exception const& e) { return dynamic_cast<std::bad_alloc const*>(&e) || dynamic_cast<copy_failed const*>(&e); }

    template <typename Map, bool Multi, bool Ordered> void map_history(bool faults)
    {
        using entry = std::pair<std::string, int>; using model_type = std::vector<entry>; // in key order, equal keys in insertion order
        auto box = std::make_unique<Map>(); model_type model; int next = 1;
        auto lower = [&](model_type& m, std::string const& k) { return std::lower_bound(m.begin(), m.end(), k, [](auto& e, auto& k) { return e.first < k; }); };
        auto upper = [&](model_type& m, std::string const& k) { return std::upper_bound(m.begin(), m.end(), k, [](auto& k, auto& e) { return k < e.first; }); };
        auto sorted = [](model_type m) { if (!Ordered) std::sort(m.begin(), m.end()); return m; };
        auto contents = [&](Map const& m, bool deep) {
            no_faults nf; model_type r; auto const e = m.end();
            for (auto i = m.begin(); i != e; ++i) { SIM_CHECK(r.size() <= m.size(), "wrong-items", "iterating goes beyond the %zu entries", (std::size_t)m.size()); r.push_back({ i->first().to_std_string(), id_of(i->second()) }); }
            SIM_CHECK(r.size() == m.size() && m.empty() == r.empty(), "wrong-size", "the map says it has %zu entries, iterating gives %zu", (std::size_t)m.size(), r.size());
            if (deep)
            {
                auto const& s = [&]() -> auto& { if constexpr (requires { m.as_std_multimap(); }) return m.as_std_multimap(); else return m.as_std_map(); }();
                for (auto& n : s) SIM_CHECK(n.first.to_std_string() == n.second.first().to_std_string(), "wrong-items", "the entry stored under %s says its key is %s", n.first.to_std_string().c_str(), n.second.first().to_std_string().c_str());
                if constexpr (Ordered) { auto i = m.end(); for (std::size_t k = r.size(); k; --k) { --i; SIM_CHECK(id_of(i->second()) == r[k - 1].second, "wrong-items", "stepping back differs at entry %zu", k - 1); } SIM_CHECK(i == m.begin(), "wrong-items", "stepping back does not reach the start"); }
            }
            return sorted(r);
        };
        int const ops = 1 + (int)sim::rnd(50);
        for (int o = 0; o < ops; ++o)
        {
            Map& m = *box; unsigned const op = (unsigned)sim::rnd(15); int const kn = (int)sim::rnd(10); std::string const ks = key_name(kn); nstring const key = nkey(kn); item const fresh{ next };
            sim::state(op * 1000 + model.size()); sim::log("op %u key %d, %zu entries", op, kn, model.size());
            model_type want = model; bool removal = false, replace = false; bool const willArm = faults && sim::chance(60); std::optional<armed> af; auto arm = [&] { if (willArm) af.emplace(); };
            auto add = [&](int id) { if (Multi) want.insert(upper(want, ks), { ks, id }); else { auto i = lower(want, ks); if (i == want.end() || i->first != ks) want.insert(i, { ks, id }); } };
            try
            {
                struct disarm { std::optional<armed>& af; ~disarm() { af.reset(); } } da{ af };
                switch (op)
                {
                case 0: case 1: case 2: { add(next++); arm(); auto i = m.insert(key, fresh); af.reset(); SIM_CHECK(i->first() == key, "wrong-position", "inserting %s returned an iterator at %s", ks.c_str(), i->first().to_std_string().c_str()); int const id = id_of(i->second()); SIM_CHECK(id == fresh.id || !Multi && std::find(model.begin(), model.end(), entry{ ks, id }) != model.end(), "wrong-position", "inserting %d returned an iterator at %d", fresh.id, id); } break;
                case 3: { add(next++); arm(); auto& e = m.emplace(key, fresh); af.reset(); SIM_CHECK(e.first() == key, "wrong-position", "emplacing %s returned entry %s", ks.c_str(), e.first().to_std_string().c_str()); } break;
                case 4: { add(next++); auto k = nkey(kn); arm(); auto& e = m.emplace(std::move(k), fresh.id); af.reset(); SIM_CHECK(e.first() == key, "wrong-position", "emplacing %s returned entry %s", ks.c_str(), e.first().to_std_string().c_str()); } break;
                case 5: { arm(); auto i = m.find(key); auto const e = m.end(); auto const& c = m; auto j = c.find(key); auto const ce = c.end(); af.reset(); bool const in = lower(model, ks) != upper(model, ks); SIM_CHECK((i != e) == in && (j != ce) == in, "wrong-find", "find(%s) %s", ks.c_str(), in ? "misses it" : "finds what is not there"); if (in) { SIM_CHECK(i->first() == key && j->first() == key, "wrong-find", "find(%s) finds %s", ks.c_str(), i->first().to_std_string().c_str()); } } break;
                case 6: if constexpr (Ordered) { arm(); auto i = m.lower_bound(key), j = m.upper_bound(key); auto const e = m.end(); auto const& c = m; auto ci = c.lower_bound(key), cj = c.upper_bound(key); auto const ce = c.end(); af.reset();
                    auto l = lower(model, ks), u = upper(model, ks); auto is = [&](auto& x, auto& end, auto y) { if ((x == end) != (y == model.end())) return false; return y == model.end() || id_of(x->second()) == y->second; };
                    SIM_CHECK(is(i, e, l) && is(ci, ce, l), "wrong-find", "lower_bound(%s) is wrong", ks.c_str()); SIM_CHECK(is(j, e, u) && is(cj, ce, u), "wrong-find", "upper_bound(%s) is wrong", ks.c_str()); } break;
                case 7: if constexpr (requires { m[key]; }) { auto l = lower(want, ks); bool const in = l != want.end() && l->first == ks; if (!in) want.insert(l, { ks, 0 }); arm(); auto& v = m[key]; af.reset(); int const id = id_of(v); SIM_CHECK(id == (in ? lower(model, ks)->second : 0), "wrong-items", "[%s] is %d", ks.c_str(), id); if (sim::flip()) { v.id = next; lower(want, ks)->second = next++; } } break;
                case 8: if constexpr (requires { m.at(key); }) { auto l = lower(model, ks); bool const in = l != model.end() && l->first == ks; auto const& c = m; bool t1 = false, t2 = false; try { SIM_CHECK(id_of(m.at(key)) == (in ? l->second : -9), "wrong-items", "at(%s) is wrong", ks.c_str()); } catch (std::out_of_range const&) { t1 = true; } try { SIM_CHECK(id_of(c.at(key)) == (in ? l->second : -9), "wrong-items", "at(%s) is wrong", ks.c_str()); } catch (std::out_of_range const&) { t2 = true; } SIM_CHECK(t1 == !in && t2 == !in, "no-bounds", "at(%s) %s", ks.c_str(), in ? "throws" : "does not throw"); } break;
                case 9: case 10: { auto i = m.find(key); if (i == m.end()) break; int const id = id_of(i->second()); auto w = std::find(want.begin(), want.end(), entry{ ks, id }); SIM_CHECK(w != want.end(), "wrong-find", "find(%s) finds an entry that is not there", ks.c_str()); w = want.erase(w); removal = true; arm(); auto r = m.erase(i); af.reset();
                    if constexpr (Ordered) { if (w == want.end()) SIM_CHECK(r == m.end(), "wrong-position", "erasing the last entry did not return the end"); else SIM_CHECK(r != m.end() && id_of(r->second()) == w->second, "wrong-position", "erasing %s returned the wrong iterator", ks.c_str()); } } break;
                case 11: { std::size_t const a = sim::rnd(model.size() + 1), b = a + sim::rnd(model.size() - a + 1); auto i = m.begin(); for (std::size_t k = 0; k < a; ++k) ++i; auto j = i; for (std::size_t k = a; k < b; ++k) { auto w = std::find(want.begin(), want.end(), entry{ j->first().to_std_string(), id_of(j->second()) }); SIM_CHECK(w != want.end(), "wrong-items", "iterating found an entry that is not there"); want.erase(w); ++j; } removal = true; arm(); m.erase(i, j); } break;
                case 12: if (sim::chance(20)) { want.clear(); removal = true; arm(); m.clear(); } break;
                case 13: { replace = true; arm(); Map other{ m }; SIM_CHECK(contents(other, false) == sorted(model), "bad-copy", "a copy differs"); other.insert(key, fresh); add(next++); if (sim::flip()) { m = other; } else { Map third{ std::move(other) }; m = std::move(third); } } break;
                case 14: { replace = true; typename Map::abstract_type const& abstract = m; arm(); if (sim::flip()) { Map other{ abstract }; SIM_CHECK(contents(other, true) == sorted(model), "bad-copy", "a copy through the interface differs"); SIM_CHECK(other.size() == m.size(), "bad-copy", "a copy through the interface differs"); m = other; } else m.assign(abstract); } break;
                }
                af.reset(); model = want;
            }
            catch (std::exception const& e)
            {
                if (!expected(e)) sim::fail("unexpected-exception", "operation %u threw %s", op, e.what());
                sim::probe("operation failed partway"); auto const now = contents(m, true);
                if (replace) { for (auto& x : now) SIM_CHECK(std::find(model.begin(), model.end(), x) != model.end() || std::find(want.begin(), want.end(), x) != want.end(), "invented", "a failed replacement invented an entry"); }
                else SIM_CHECK(now == sorted(model) || now == sorted(want), "not-undone", "a failed operation %u left the map neither as it was nor as asked for", op);
                model.clear(); for (auto& x : now) model.push_back(x);
                if (!Ordered) std::sort(model.begin(), model.end());
            }
            SIM_CHECK(contents(*box, sim::chance(40)) == sorted(model), "wrong-items", "after operation %u on %s the map has the wrong entries", op, ks.c_str());
            SIM_CHECK(live() == model.size() + 1, "leak", "%zu items exist, the map has %zu", live() - 1, model.size());
        }
        box.reset(); SIM_CHECK(live() == 0, "leak", "%zu items outlive their map", live());
    }

    template <typename Set, bool Multi> void set_history(bool faults)
    {
        auto box = std::make_unique<Set>(); std::multiset<std::string> model; int const ops = 1 + (int)sim::rnd(50);
        auto contents = [](Set const& s) { no_faults nf; std::vector<std::string> r; auto const e = s.end(); for (auto i = s.begin(); i != e; ++i) { SIM_CHECK(r.size() <= s.size(), "wrong-items", "iterating goes beyond the %zu items", (std::size_t)s.size()); r.push_back(i->to_std_string()); } SIM_CHECK(r.size() == s.size() && s.empty() == r.empty(), "wrong-size", "the set says it has %zu items, iterating gives %zu", (std::size_t)s.size(), r.size()); return r; };
        for (int o = 0; o < ops; ++o)
        {
            Set& s = *box; unsigned const op = (unsigned)sim::rnd(9); int const kn = (int)sim::rnd(10); std::string const ks = key_name(kn); nstring const key = nkey(kn); auto want = model; bool replace = false; bool const willArm = faults && sim::chance(60); std::optional<armed> af; auto arm = [&] { if (willArm) af.emplace(); };
            sim::state(op * 1000 + model.size()); sim::log("op %u key %d, %zu items", op, kn, model.size());
            try
            {
                struct disarm { std::optional<armed>& af; ~disarm() { af.reset(); } } da{ af };
                switch (op)
                {
                case 0: case 1: case 2: { if (Multi || !want.count(ks)) want.insert(ks); arm(); auto i = s.insert(key); af.reset(); SIM_CHECK(i->to_std_string() == ks, "wrong-position", "inserting %s returned an iterator at %s", ks.c_str(), i->to_std_string().c_str()); } break;
                case 3: { arm(); auto i = s.find(key); auto const e = s.end(); auto const& c = s; auto j = c.find(key); auto const ce = c.end(); af.reset(); SIM_CHECK((i != e) == (model.count(ks) > 0) && (j != ce) == (model.count(ks) > 0), "wrong-find", "find(%s) is wrong", ks.c_str()); if (model.count(ks)) SIM_CHECK(i->to_std_string() == ks && j->to_std_string() == ks, "wrong-find", "find(%s) finds another", ks.c_str()); } break;
                case 4: { auto i = s.find(key); if (i == s.end()) break; want.erase(want.find(ks)); arm(); s.erase(i); } break;
                case 5: { std::size_t const a = sim::rnd(model.size() + 1), b = a + sim::rnd(model.size() - a + 1); auto i = s.begin(); for (std::size_t k = 0; k < a; ++k) ++i; auto j = i; for (std::size_t k = a; k < b; ++k) ++j; want.erase(std::next(want.begin(), (std::ptrdiff_t)a), std::next(want.begin(), (std::ptrdiff_t)b)); arm(); s.erase(i, j); } break;
                case 6: if (sim::chance(20)) { want.clear(); arm(); s.clear(); } break;
                case 7: { replace = true; arm(); Set other{ s }; SIM_CHECK(contents(other) == std::vector<std::string>(model.begin(), model.end()), "bad-copy", "a copy differs"); other.insert(key); if (Multi || !want.count(ks)) want.insert(ks); s = other; } break;
                case 8: { replace = true; typename Set::abstract_type const& abstract = s; arm(); Set other{ abstract }; SIM_CHECK(contents(other) == std::vector<std::string>(model.begin(), model.end()), "bad-copy", "a copy through the interface differs"); s.assign(other); s.assign(abstract); } break;
                }
                af.reset(); model = want;
            }
            catch (std::exception const& e)
            {
                if (!expected(e)) sim::fail("unexpected-exception", "operation %u threw %s", op, e.what());
                sim::probe("operation failed partway"); auto const now = contents(s);
                if (replace) { for (auto& x : now) SIM_CHECK(want.count(x), "invented", "a failed replacement invented %s", x.c_str()); }
                else SIM_CHECK(now == std::vector<std::string>(model.begin(), model.end()) || now == std::vector<std::string>(want.begin(), want.end()), "not-undone", "a failed operation %u left the set neither as it was nor as asked for", op);
                model = { now.begin(), now.end() };
            }
            SIM_CHECK(contents(*box) == std::vector<std::string>(model.begin(), model.end()), "wrong-items", "after operation %u on %s the set has the wrong items", op, ks.c_str());
        }
    }

    // optionals and variants: what they hold, in place of what they held
    void holder_history(bool faults)
    {
        using var = neolib::variant<int, nstring, item>; using opt = neolib::optional<item>; using sopt = neolib::optional<nstring>;
        var v; opt p; std::optional<int> mp; sopt sp; std::optional<std::string> msp; int next = 1; int const ops = 1 + (int)sim::rnd(50);
        struct vstate { int index; int num; std::string text; bool operator==(vstate const&) const = default; };
        auto read_v = [](var const& v) { no_faults nf; vstate r{ (int)v.index(), 0, {} }; neolib::i_variant<int, neolib::i_string, item> const& a = v; SIM_CHECK(a.index() == v.index(), "wrong-items", "a variant's interface disagrees about what it holds");
            if (v.index() == 1) { r.num = std::get<int>(v); SIM_CHECK(a.get<int>() == r.num, "wrong-items", "a variant's interface gives another number"); } else if (v.index() == 2) { r.text = std::get<nstring>(v).to_std_string(); SIM_CHECK(a.get<neolib::i_string>().to_std_string() == r.text, "wrong-items", "a variant's interface gives another string"); } else if (v.index() == 3) { r.num = id_of(std::get<item>(v)); SIM_CHECK(id_of(a.get<item>()) == r.num, "wrong-items", "a variant's interface gives another item"); }
            bool threw = false; try { if (v.index() != 1) (void)a.get<int>(); else (void)a.get<item>(); } catch (std::bad_variant_access const&) { threw = true; } SIM_CHECK(threw, "wrong-items", "a variant gives what it does not hold"); SIM_CHECK((v == neolib::none) == (v.index() == 0), "wrong-items", "a variant does not know whether it is empty"); return r; };
        vstate mvs{ 0, 0, {} };
        auto read_p = [](opt const& p) { no_faults nf; std::optional<int> r; if (p.has_value()) r = id_of(p.value()); SIM_CHECK((bool)p == r.has_value(), "wrong-items", "an optional contradicts itself"); if (r) SIM_CHECK(id_of(*p) == *r, "wrong-items", "an optional contradicts itself"); return r; };
        auto read_s = [](sopt const& p) { no_faults nf; std::optional<std::string> r; if (p.has_value()) r = p.value().to_std_string(); return r; };
        for (int o = 0; o < ops; ++o)
        {
            unsigned const op = (unsigned)sim::rnd(22); int const kn = (int)sim::rnd(10); std::string const ks = key_name(kn); nstring const key = nkey(kn); item const fresh{ next }; sim::state(op * 100 + mvs.index * 10 + mp.has_value() * 2 + msp.has_value()); sim::log("op %u key %d", op, kn);
            auto wv = mvs; auto wp = mp; auto ws = msp; bool const willArm = faults && sim::chance(60); std::optional<armed> af; auto arm = [&] { if (willArm) af.emplace(); };
            try
            {
                struct disarm { std::optional<armed>& af; ~disarm() { af.reset(); } } da{ af };
                switch (op)
                {
                case 0: wv = { 1, next++, {} }; arm(); v = next - 1; break;
                case 1: wv = { 2, 0, ks }; arm(); v = key; break;
                case 2: wv = { 3, next++, {} }; arm(); v = fresh; break;
                case 3: { wv = { 2, 0, ks }; neolib::i_string const& a = key; arm(); v = a; } break;
                case 4: { wv = { 0, 0, {} }; arm(); v = neolib::none; } break;
                case 5: { wv = { 3, next++, {} }; arm(); var other{ fresh }; SIM_CHECK(read_v(other) == wv, "wrong-items", "a variant made of an item is not that item"); v = other; } break;
                case 6: { wv = { 2, 0, ks }; arm(); var other{ key }; var::abstract_type const& a = other; v = a; } break;
                case 7: { wv = { 0, 0, {} }; var other; var::abstract_type const& a = other; arm(); v = a; } break;
                case 8: { var::abstract_type const& a = v; arm(); v = a; } break;
                case 9: { arm(); var other{ v }; SIM_CHECK(read_v(other) == mvs, "bad-copy", "a copied variant differs"); var third{ std::move(other) }; SIM_CHECK(read_v(third) == mvs, "bad-copy", "a moved variant differs"); v = std::move(third); } break;
                case 10: { var::abstract_type const& a = v; arm(); var other{ a }; SIM_CHECK(read_v(other) == mvs, "bad-copy", "a variant copied through its interface differs"); } break;
                case 11: case 12: wp = next++; arm(); p = fresh; break;
                case 13: wp.reset(); arm(); if (sim::flip()) p = std::nullopt; else p.reset(); break;
                case 14: { arm(); opt other{ p }; SIM_CHECK(read_p(other) == mp, "bad-copy", "a copied optional differs"); opt::abstract_type const& a = p; opt third{ a }; SIM_CHECK(read_p(third) == mp, "bad-copy", "an optional copied through its interface differs"); p = third; SIM_CHECK(p == third, "wrong-items", "equal optionals differ"); } break;
                case 15: { auto const& self = p; opt::abstract_type const& a = p; arm(); if (sim::flip()) p = self; else p = a; } break;
                case 16: wp = next++; arm(); p.emplace(fresh); break;
                case 17: { item d{ 7777 }; opt const& c = p; arm(); int const got = id_of(c.value_or(d)); SIM_CHECK(got == (mp ? *mp : 7777), "wrong-items", "value_or gives %d", got); bool threw = false; try { (void)p.value(); } catch (std::bad_optional_access const&) { threw = true; } SIM_CHECK(threw == !mp, "wrong-items", "an empty optional gives a value"); } break;
                case 18: { ws = ks; neolib::i_string const& a = key; arm(); sp = a; } break;
                case 19: ws.reset(); arm(); sp = std::nullopt; break;
                case 20: { ws = ks; sopt other{ key }; sopt::abstract_type const& a = other; arm(); sp = a; } break;
                case 21: { arm(); sopt::abstract_type const& a = sp; sopt other{ a }; SIM_CHECK(read_s(other) == msp, "bad-copy", "an optional string copied through its interface differs"); sp = other; } break;
                }
            }
            catch (std::exception const& e)
            {
                if (!expected(e)) sim::fail("unexpected-exception", "operation %u threw %s", op, e.what());
                sim::probe("operation failed partway"); auto const nv = read_v(v); auto const np = read_p(p); auto const ns = read_s(sp);
                SIM_CHECK(nv == mvs || nv == wv || nv.index == 0 || v.valueless_by_exception() || op == 8, "not-undone", "a failed assignment left the variant with something else"); SIM_CHECK(np == mp || np == wp || !np, "not-undone", "a failed assignment left the optional with something else");
                SIM_CHECK(ns == msp || ns == ws, "not-undone", "a failed assignment left the optional string with something else"); if (v.valueless_by_exception()) { no_faults nf; v = var{}; } wv = read_v(v); wp = np; ws = ns;
            }
            mvs = wv; mp = wp; msp = ws;
            SIM_CHECK(read_v(v) == mvs, "wrong-items", "after operation %u the variant holds (%d,%d,%s) instead of (%d,%d,%s)", op, read_v(v).index, read_v(v).num, read_v(v).text.c_str(), mvs.index, mvs.num, mvs.text.c_str());
            SIM_CHECK(read_p(p) == mp, "wrong-items", "after operation %u the optional is wrong", op); SIM_CHECK(read_s(sp) == msp, "wrong-items", "after operation %u the optional string is wrong", op);
            SIM_CHECK(live() == 1u + (mvs.index == 3) + mp.has_value(), "leak", "%zu items exist", live());
        }
    }

    void string_history(bool faults)
    {
        auto box = std::make_unique<nstring>(); std::string model; int const ops = 1 + (int)sim::rnd(50);
        auto word = [] { std::string w; for (std::size_t n = sim::rnd(sim::chance(20) ? 60 : 5); n; --n) w += (char)("abcA\0"[sim::rnd(5)]); return w; };
        for (int o = 0; o < ops; ++o)
        {
            nstring& s = *box; unsigned const op = (unsigned)sim::rnd(16); std::string const w = word(), w2 = word(); nstring const nw{ w }, nw2{ w2 }; std::size_t const at = sim::rnd(model.size() + 1), to = at + sim::rnd(model.size() - at + 1); std::string want = model; bool const willArm = faults && sim::chance(60); std::optional<armed> af; auto arm = [&] { if (willArm) af.emplace(); };
            sim::state(op * 1000 + model.size()); sim::log("op %u, %zu characters", op, model.size()); bool partial = false;
            try
            {
                struct disarm { std::optional<armed>& af; ~disarm() { af.reset(); } } da{ af };
                switch (op)
                {
                case 0: want += 'x'; arm(); s.push_back('x'); break;
                case 1: if (!model.empty()) { want.pop_back(); arm(); s.pop_back(); } break;
                case 2: { want.insert(at, 1, 'y'); arm(); auto i = s.insert(s.cbegin() + (std::ptrdiff_t)at, 'y'); af.reset(); SIM_CHECK(*i == 'y' && (std::size_t)(i - s.begin()) == at, "wrong-position", "inserting a character at %zu returned an iterator elsewhere", at); } break;
                case 3: if (at < model.size()) { want.erase(at, 1); arm(); auto i = s.erase(s.cbegin() + (std::ptrdiff_t)at); af.reset(); SIM_CHECK((std::size_t)(i - s.begin()) == at, "wrong-position", "erasing character %zu returned an iterator elsewhere", at); } break;
                case 4: { want.erase(at, to - at); arm(); s.erase(s.cbegin() + (std::ptrdiff_t)at, s.cbegin() + (std::ptrdiff_t)to); } break;
                case 5: want = w; arm(); s = nw; break;
                case 6: { want = w; neolib::i_string const& a = nw; arm(); s = a; } break;
                case 7: { want = w; nstring m{ nw }; arm(); s = std::move(m); } break;
                case 8: want += w; arm(); s.append(nw); break;
                case 9: { want += w; neolib::i_string const& a = nw; arm(); s += a; } break;
                case 10: want = w; arm(); s.assign(w.data(), w.size()); break;
                case 11: want += model; arm(); s.append(s); break;
                case 12: if (!w.empty()) { std::string r; for (std::size_t i = 0; i < want.size();) if (want.compare(i, w.size(), w) == 0) { r += w2; i += w.size(); } else r += want[i++]; want = r; partial = true; arm(); s.replace_all(nw, nw2); } break;
                case 13: { want.resize(at + w.size(), 'z'); arm(); s.resize(at + w.size(), 'z'); } break;
                case 14: if (sim::chance(30)) { want.clear(); s.clear(); } else { arm(); nstring c{ s }; nstring d{ std::move(c) }; neolib::i_string const& a = d; nstring e{ a }; SIM_CHECK(e.to_std_string() == model, "bad-copy", "a copied string differs"); SIM_CHECK(e == s && e == a && !(e < s), "wrong-items", "equal strings differ"); } break;
                case 15: { arm(); s.reserve(w.size() * 3); auto const t = s + nw; SIM_CHECK(t.to_std_string() == model + w, "wrong-items", "adding strings gives another"); SIM_CHECK((s <=> nw) == (model <=> w), "wrong-items", "strings compare the wrong way"); } break;
                }
                af.reset(); model = want;
            }
            catch (std::exception const& e)
            {
                if (!expected(e)) sim::fail("unexpected-exception", "operation %u threw %s", op, e.what());
                no_faults nf; sim::probe("operation failed partway"); auto const now = s.to_std_string(); SIM_CHECK(now == model || now == want || partial, "not-undone", "a failed operation %u left the string neither as it was nor as asked for", op); model = now;
            }
            no_faults nf; std::string byIteration; for (auto i = s.cbegin(), e = s.cend(); i != e; ++i) byIteration += *i;
            SIM_CHECK(s.to_std_string() == model && s.size() == model.size() && byIteration == model && s.to_std_string_view() == model && s.c_str()[model.size()] == 0, "wrong-items", "after operation %u the string is wrong", op);
            std::size_t k = model.size(); for (auto i = s.rbegin(), e = s.rend(); i != e; ++i) { SIM_CHECK(k > 0 && *i == model[k - 1], "wrong-items", "backwards iteration of a string is wrong"); --k; } SIM_CHECK(k == 0, "wrong-items", "backwards iteration of a string ends early");
            for (std::size_t i = 0; i < model.size(); ++i) SIM_CHECK(s[i] == model[i] && s.at(i) == model[i], "wrong-items", "[%zu] of a string is wrong", i);
        }
    }
}

SIM_SCENARIO(keyed_history)
{
    sim::enable_fault("alloc_failure"); sim::enable_fault("copy_failure"); bool const faults = sim::chance(70); warm(); auto const before = sim::live_blocks();
    switch (sim::rnd(6))
    {
    case 0: map_history<neolib::map<nstring, item>, false, true>(faults); break;
    case 1: map_history<neolib::multimap<nstring, item>, true, true>(faults); break;
    case 2: map_history<neolib::unordered_map<nstring, item>, false, false>(faults); break;
    case 3: set_history<neolib::set<nstring>, false>(faults); break;
    case 4: holder_history(faults); break;
    case 5: string_history(faults); break;
    }
    SIM_CHECK(sim::live_blocks() == before, "leak", "%lld blocks of memory are left", (long long)(sim::live_blocks() - before));
}
