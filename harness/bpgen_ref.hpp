// Balanced parentheses generator (1 = open).
#pragma once
#include "../engine/gen.hpp"

namespace hx {
using eng::Rng;
using eng::Src;
using gen::Bits;

inline uint64_t bp_runlen(Src& s, uint64_t max)
{
    switch (s.draw(4)) {
    case 0: return s.draw(std::min<uint64_t>(max, 10) + 1);
    case 1: return s.draw(std::min<uint64_t>(max, 140) + 1);
    default: return gen::size_upto(s, max);
    }
}

// A balanced sequence of about `target` bits.
inline Bits balanced(Src& s, uint64_t target)
{
    Bits b;
    uint64_t depth = 0;
    target &= ~uint64_t(1);
    unsigned guard = 0;
    if (s.draw(4) == 1 && target >= 2) { // a spine above everything
        uint64_t d = s.draw(3) ? 1 : s.draw(target / 2 + 1);
        b.run(true, d);
        depth = d;
    }
    while (b.n + depth < target && ++guard < 60) {
        uint64_t left = target - b.n - depth; // room keeping the close-all tail inside target
        switch (s.draw(7)) {
        case 0: { // open run
            uint64_t l = std::min(bp_runlen(s, left / 2), left / 2);
            b.run(true, l);
            depth += l;
            break;
        }
        case 1: { // close run
            uint64_t l = std::min(bp_runlen(s, depth), depth);
            b.run(false, l);
            depth -= l;
            break;
        }
        case 2: { // comb ()()()
            uint64_t l = std::min(bp_runlen(s, left / 2), left / 2);
            for (uint64_t i = 0; i < l; ++i) {
                b.push(true);
                b.push(false);
            }
            break;
        }
        case 3: { // nested pairs of fixed depth, repeated
            uint64_t d = 1 + s.draw(70), reps = 1 + s.draw(200);
            for (uint64_t i = 0; i < reps && b.n + depth + 2 * d <= target; ++i) {
                b.run(true, d);
                b.run(false, d);
            }
            break;
        }
        case 6: { // runs of opens and closes of random length: zig-zag with ties
            unsigned k = 1 + unsigned(s.draw(9));
            uint64_t steps = 1 + s.draw(300);
            Rng r(s.seed());
            for (uint64_t i = 0; i < steps; ++i) {
                uint64_t l = 1 + r.below(uint64_t(1) << k);
                if (r.below(2)) {
                    if (b.n + depth + 2 * l > target) break;
                    b.run(true, l);
                    depth += l;
                } else {
                    l = std::min(l, depth);
                    b.run(false, l);
                    depth -= l;
                }
            }
            break;
        }
        default: { // random walk with a drift
            uint64_t l = bp_runlen(s, left);
            uint64_t p = 1 + s.draw(15); // opens with probability p/16
            Rng r(s.seed());
            for (uint64_t i = 0; i < l && b.n + depth + 2 <= target; ++i) {
                if (depth == 0 || r.below(16) < p) {
                    b.push(true);
                    ++depth;
                } else {
                    b.push(false);
                    --depth;
                }
            }
        }
        }
    }
    // close everything, possibly with leaves on the way up
    if (depth && b.n + depth + 2 <= target && s.draw(2)) {
        uint64_t spare = (target - b.n - depth) / 2;
        Rng r(s.seed());
        while (depth) {
            if (spare && r.below(3) == 0) {
                b.push(true);
                b.push(false);
                --spare;
            }
            b.push(false);
            --depth;
        }
        for (; spare; --spare) {
            b.push(true);
            b.push(false);
        }
    }
    b.run(false, depth);
    while (b.n < target) {
        b.push(true);
        b.push(false);
    }
    return b;
}

struct BpRef {
    std::vector<uint32_t> match, parent; // parent only for opens; NONE if root
    std::vector<int32_t> exc;            // n + 1 entries
    static constexpr uint32_t NONE = 0xFFFFFFFFu;
    explicit BpRef(Bits const& b) : match(b.n, NONE), parent(b.n, NONE), exc(b.n + 1)
    {
        std::vector<uint32_t> st;
        int32_t e = 0;
        for (uint64_t i = 0; i < b.n; ++i) {
            exc[i] = e;
            if (b.get(i)) {
                if (!st.empty()) parent[i] = st.back();
                st.push_back(uint32_t(i));
                ++e;
            } else {
                match[i] = st.back();
                match[st.back()] = uint32_t(i);
                st.pop_back();
                --e;
            }
        }
        exc[b.n] = e;
    }
};
} // namespace hx
