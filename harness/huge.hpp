// Reference bit strings beyond 2^32 bits.
#pragma once
#include "common.hpp"

// A reference made of few long segments keeps the oracle small: each segment is
// a run or a repetition of one 64-bit word.
namespace hx {
struct Seg {
    uint64_t start, len, word; // bit i of the segment = bit (i % 64) of word
    uint64_t ones_before;
};
struct Huge {
    std::vector<Seg> seg;
    uint64_t n = 0, ones = 0;
    void add(uint64_t len, uint64_t word)
    {
        if (!len) return;
        seg.push_back(Seg{n, len, word, ones});
        n += len;
        ones += cnt(word, len);
    }
    static uint64_t cnt(uint64_t word, uint64_t len)
    {
        uint64_t c = len / 64 * uint64_t(__builtin_popcountll(word));
        if (len % 64) c += uint64_t(__builtin_popcountll(word & ((uint64_t(1) << (len % 64)) - 1)));
        return c;
    }
    Seg const& at(uint64_t p) const
    {
        size_t lo = 0, hi = seg.size();
        while (lo + 1 < hi) {
            size_t m = (lo + hi) / 2;
            if (seg[m].start <= p) lo = m; else hi = m;
        }
        return seg[lo];
    }
    bool get(uint64_t p) const
    {
        Seg const& g = at(p);
        return (g.word >> ((p - g.start) % 64)) & 1;
    }
    uint64_t rank(uint64_t p) const
    {
        if (p == n) return ones;
        Seg const& g = at(p);
        return g.ones_before + cnt(g.word, p - g.start);
    }
    // position of k-th bit equal to v, by binary search on rank
    uint64_t select(uint64_t k, bool v) const
    {
        uint64_t lo = 0, hi = n; // smallest p with rank_v(p+1) > k
        while (lo < hi) {
            uint64_t m = lo + (hi - lo) / 2;
            uint64_t r = rank(m + 1);
            if (!v) r = m + 1 - r;
            if (r > k) hi = m; else lo = m + 1;
        }
        return lo;
    }
    void fill(succinct::bit_vector_builder& b) const
    {
        b.reserve(n);
        for (Seg const& g : seg) {
            if (g.word == 0) { b.zero_extend(g.len); continue; }
            if (g.word == ~uint64_t(0)) { b.one_extend(g.len); continue; }
            uint64_t left = g.len;
            while (left >= 64) { b.append_bits(g.word, 64); left -= 64; }
            if (left) b.append_bits(g.word & ((uint64_t(1) << left) - 1), left);
        }
    }
};

inline Huge huge_bits(Src& s, uint64_t target)
{
    Huge h;
    unsigned nseg = 3 + unsigned(s.draw(6));
    for (unsigned k = 0; k < nseg; ++k) {
        uint64_t w;
        switch (s.draw(4)) {
        case 0: w = 0; break;
        case 1: w = ~uint64_t(0); break;
        case 2: w = s.draw(0); break;
        default: w = uint64_t(1) << s.draw(64);
        }
        uint64_t len = k + 1 == nseg ? 1 + s.draw(100000000) : (target > h.n ? target - h.n : 0) / (1 + s.draw(3)) + s.draw(100000);
        if (k + 2 == nseg && h.n < target) len = target - h.n + s.draw(5000);
        h.add(len, w);
    }
    return h;
}
template <typename F>
void huge_positions(Rng& r, uint64_t n, unsigned c, F f)
{
    if (!n) return;
    const uint64_t B32 = uint64_t(1) << 32, B31 = uint64_t(1) << 31;
    for (unsigned i = 0; i < c; ++i) {
        uint64_t p;
        switch (i % 5) {
        case 0: p = r.below(n); break;
        case 1: p = B32 + r.below(4000) - 2000; break;
        case 2: p = B31 + r.below(4000) - 2000; break;
        case 3: p = n - 1 - r.below(std::min<uint64_t>(n, 3000)); break;
        default: p = B32 < n ? B32 + r.below(n - B32) : r.below(n);
        }
        if (p >= n) p = n - 1;
        f(p);
    }
}
} // namespace hx
