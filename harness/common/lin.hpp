// Linearizability check of one short history (Wing and Gong, with memoisation of visited configurations).
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace vf {

struct LinOp
{
    uint64_t call, ret;   // ret == UINT64_MAX: still open
    int id;               // index given back to the model
};

// Model: struct with  bool apply(State&, int op_id)  (returns whether the recorded result is the one the state gives,
// and advances the state) and State is ordered (operator<).
// Returns 1 linearizable, 0 not, -1 undecided within the limit.
template <class State, class Apply>
int linearizable(const std::vector<LinOp>& ops, const State& init, Apply apply, long limit = 200000)
{
    const size_t n = ops.size();
    if (n > 63) return -1;
    std::set<std::pair<uint64_t, State>> visited;
    long steps = 0;
    bool undecided = false;
    uint64_t must = 0;
    for (size_t i = 0; i < n; ++i) if (ops[i].ret != UINT64_MAX) must |= 1ull << i;
    std::function<bool(uint64_t, const State&)> go = [&](uint64_t done, const State& st) -> bool
            {
                if ((done & must) == must) return true;
                if (++steps > limit)
                {
                    undecided = true;
                    return true;
                }
                if (!visited.insert({done, st}).second) return false;
                uint64_t min_ret = UINT64_MAX;
                for (size_t i = 0; i < n; ++i)
                    if (!(done >> i & 1) && ops[i].ret < min_ret) min_ret = ops[i].ret;
                for (size_t i = 0; i < n; ++i)
                {
                    if (done >> i & 1 || ops[i].call > min_ret) continue;
                    State s2 = st;
                    if (apply(s2, ops[i].id) && go(done | 1ull << i, s2)) return true;
                }
                return false;
            };
    bool r = go(0, init);
    return undecided ? -1 : r;
}

} // namespace vf
