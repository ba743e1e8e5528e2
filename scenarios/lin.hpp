// history checking: an observed history (invocations and returns in global order) against a nondeterministic
// sequential model, by simulating the set of model states the history allows
#pragma once
#include <cstdint>
#include <set>
#include <vector>
namespace lin
{
    struct event { bool ret; int op; };
    // Model: using state = ordered type; void steps(state const&, int op, F emit) internal steps op may take while invoked;
    //        bool returned(state const&, int op) state in which op may return with its observed result
    // returns index of the first event no model state explains, or -1
    template <typename Model, typename AtEnd>
    int check(Model const& m, typename Model::state init, std::vector<event> const& history, AtEnd atEnd)
    {
        std::set<typename Model::state> cur{ init }; std::vector<int> open;
        auto close = [&]
        {
            std::vector<typename Model::state> work(cur.begin(), cur.end());
            while (!work.empty())
            {
                auto s = work.back(); work.pop_back();
                for (int o : open) m.steps(s, o, [&](typename Model::state const& n) { if (cur.insert(n).second) work.push_back(n); });
            }
        };
        int i = 0;
        for (auto const& e : history)
        {
            if (!e.ret) open.push_back(e.op);
            else
            {
                close();
                std::set<typename Model::state> next;
                for (auto const& s : cur) if (m.returned(s, e.op)) next.insert(s);
                cur.swap(next);
                if (cur.empty()) return i;
                for (auto it = open.begin(); it != open.end(); ++it) if (*it == e.op) { open.erase(it); break; }
            }
            ++i;
        }
        close();
        for (auto const& s : cur) if (atEnd(s)) return -1;
        return i;
    }
}
