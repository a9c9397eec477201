// Generators and reference models. Nothing here uses the library under test.
#pragma once
#include "engine.hpp"

namespace gen {
using eng::Rng;
using eng::Src;

// ------------------------------------------------------------------ sizes
// Size classes: small cases dominate in number, large ones reach several
// blocks / superblocks / hints. All sizes may be snapped next to a power-of-two
// style boundary, where block arithmetic goes wrong.
inline uint64_t snap(Src& s, uint64_t n, uint64_t max)
{
    if (!s.chance(1, 2)) return n;
    static const uint64_t unit[] = {64, 512, 256, 1024, 8192, 65536, 128};
    uint64_t which = s.draw(9);
    uint64_t u = which < 7 ? unit[which] : 64;
    if (which >= 7 && n >= 64)
        while (u <= n / 2) u *= 2; // the power of two below n
    if (n < u) {
        u = 64;
        if (n < u) return n;
    }
    n = n / u * u;
    uint64_t d = s.draw(5); // 0, +1, -1, +63, -63
    if (d == 1) n += 1;
    if (d == 2 && n) n -= 1;
    if (d == 3) n += 63;
    if (d == 4 && n >= 63) n -= 63;
    return std::min(n, max);
}

// size up to max: half log-uniform, half uniform; then snapped
inline uint64_t size_upto(Src& s, uint64_t max)
{
    bool uni = s.draw(2);
    return snap(s, uni ? s.draw(max + 1) : s.logu(max), max);
}

// lo..hi, uniform, then snapped
inline uint64_t size_between(Src& s, uint64_t lo, uint64_t hi)
{
    uint64_t n = lo + s.draw(hi - lo + 1);
    return std::max(lo, snap(s, n, hi));
}

// max size by class: weights over {200, 3000, 40k, 300k, xl}
inline uint64_t size_class(Src& s, uint64_t xl, unsigned w_small = 50, unsigned w_mid = 30, unsigned w_large = 14,
                           unsigned w_vl = 5, unsigned w_xl = 1)
{
    uint64_t t = s.draw(w_small + w_mid + w_large + w_vl + w_xl);
    if (t < w_small) return 200;
    t -= w_small;
    if (t < w_mid) return 3000;
    t -= w_mid;
    if (t < w_large) return 40000;
    t -= w_large;
    if (t < w_vl) return 300000;
    return xl;
}

// ------------------------------------------------------- reference bit string
struct Bits {
    std::vector<uint64_t> w;
    uint64_t n = 0;

    void push(bool b)
    {
        if (n % 64 == 0) w.push_back(0);
        if (b) w.back() |= uint64_t(1) << (n % 64);
        ++n;
    }
    bool get(uint64_t i) const { return (w[i / 64] >> (i % 64)) & 1; }
    void set(uint64_t i, bool b)
    {
        uint64_t m = uint64_t(1) << (i % 64);
        if (b)
            w[i / 64] |= m;
        else
            w[i / 64] &= ~m;
    }
    // bits [i, i+len), zero padded past the end; len <= 64
    uint64_t read(uint64_t i, unsigned len) const
    {
        uint64_t r = 0;
        if (!len) return 0;
        uint64_t b = i / 64, sh = i % 64;
        if (b < w.size()) r = w[b] >> sh;
        if (sh && b + 1 < w.size()) r |= w[b + 1] << (64 - sh);
        if (len < 64) r &= (uint64_t(1) << len) - 1;
        return r;
    }
    void push_bits(uint64_t v, unsigned len)
    {
        for (unsigned i = 0; i < len; ++i) push((v >> i) & 1);
    }
    void run(bool b, uint64_t len)
    {
        while (len && n % 64) {
            push(b);
            --len;
        }
        while (len >= 64) {
            w.push_back(b ? ~uint64_t(0) : 0);
            n += 64;
            len -= 64;
        }
        while (len--) push(b);
    }
    std::vector<bool> vec() const
    {
        std::vector<bool> v(n);
        for (uint64_t i = 0; i < n; ++i) v[i] = get(i);
        return v;
    }
};

inline std::string show(Bits const& b, uint64_t max = 130)
{
    std::ostringstream os;
    os << "n=" << b.n << ":";
    for (uint64_t i = 0; i < b.n && i < max; ++i) os << (b.get(i) ? '1' : '0');
    if (b.n > max) os << "...";
    return os.str();
}

// Rank/select/pred/succ oracle over Bits: cumulative counts per word plus
// per-word linear work; select by binary search over the counts.
struct Oracle {
    Bits const* b;
    std::vector<uint64_t> cum; // ones before word i
    explicit Oracle(Bits const& bits) : b(&bits), cum(bits.w.size() + 1, 0)
    {
        for (size_t i = 0; i < bits.w.size(); ++i) cum[i + 1] = cum[i] + uint64_t(__builtin_popcountll(bits.w[i]));
    }
    uint64_t ones() const { return cum.back(); }
    uint64_t zeros() const { return b->n - ones(); }
    uint64_t rank(uint64_t p) const
    {
        uint64_t r = cum[p / 64];
        if (p % 64) r += uint64_t(__builtin_popcountll(b->w[p / 64] & ((uint64_t(1) << (p % 64)) - 1)));
        return r;
    }
    uint64_t rank0(uint64_t p) const { return p - rank(p); }
    uint64_t select(uint64_t k) const
    {
        size_t i = size_t(std::upper_bound(cum.begin(), cum.end(), k) - cum.begin()) - 1;
        uint64_t x = b->w[i], left = k - cum[i];
        while (left--) x &= x - 1;
        return i * 64 + uint64_t(__builtin_ctzll(x));
    }
    uint64_t select0(uint64_t k) const
    {
        size_t lo = 0, hi = b->w.size(); // last word with zeros-before <= k
        while (lo + 1 < hi) {
            size_t mid = (lo + hi) / 2;
            if (mid * 64 - cum[mid] <= k)
                lo = mid;
            else
                hi = mid;
        }
        uint64_t x = ~b->w[lo], left = k - (lo * 64 - cum[lo]);
        while (left--) x &= x - 1;
        return lo * 64 + uint64_t(__builtin_ctzll(x));
    }
};

// ---------------------------------------------------------- bit string shapes
// A concatenation of segments; each segment has a kind, a length and, for noisy
// kinds, a density and a seed that are choices of the tape.
inline void segment(Src& s, Bits& b, uint64_t len)
{
    switch (s.draw(8)) {
    case 0: b.run(false, len); break;
    case 1: b.run(true, len); break;
    case 2: { // uniformly random words
        Rng r(s.seed());
        uint64_t left = len;
        while (left >= 64 && b.n % 64 == 0) {
            b.w.push_back(r.next());
            b.n += 64;
            left -= 64;
        }
        while (left) {
            uint64_t x = r.next();
            for (unsigned i = 0; i < 64 && left; ++i, --left) {
                b.push(x & 1);
                x >>= 1;
                if (b.n % 64 == 0 && left > 64) {
                    --left;
                    break;
                }
            }
            while (left >= 64 && b.n % 64 == 0) {
                b.w.push_back(r.next());
                b.n += 64;
                left -= 64;
            }
        }
        break;
    }
    case 3: // sparse ones: density 2^-d
    case 4: { // sparse zeros
        bool inv = s.draw(2);
        unsigned d = 1 + unsigned(s.draw(14));
        Rng r(s.seed());
        uint64_t i = 0;
        while (i < len) {
            uint64_t gap = r.below(uint64_t(2) << d);
            gap = std::min(gap, len - i);
            b.run(inv, gap);
            i += gap;
            if (i < len) {
                b.push(!inv);
                ++i;
            }
        }
        break;
    }
    case 5: { // periodic
        uint64_t p = 1 + s.draw(130), on = s.draw(p + 1);
        for (uint64_t i = 0; i < len;) {
            uint64_t a = std::min(on, len - i);
            b.run(true, a);
            i += a;
            uint64_t z = std::min(p - on, len - i);
            b.run(false, z);
            i += z;
        }
        break;
    }
    case 6: { // one literal word repeated
        uint64_t x = s.draw(0);
        for (uint64_t i = 0; i < len; ++i) b.push((x >> (i % 64)) & 1);
        break;
    }
    default: { // runs with geometric lengths
        unsigned d = 1 + unsigned(s.draw(12));
        Rng r(s.seed());
        bool v = s.draw(2);
        for (uint64_t i = 0; i < len;) {
            uint64_t l = std::min(1 + r.below(uint64_t(1) << d), len - i);
            b.run(v, l);
            i += l;
            v = !v;
        }
    }
    }
}

// Makes the number of ones (or of zeros) a multiple of a block-like unit, or
// one off, by flipping the last of them.
inline void snap_count(Src& s, Bits& b)
{
    static const uint64_t unit[] = {1024, 65536, 32, 2048, 512, 8192};
    bool v = s.draw(2);
    uint64_t u = unit[s.draw(6)], d = s.draw(4), c = 0;
    for (uint64_t i = 0; i < b.w.size(); ++i) c += uint64_t(__builtin_popcountll(b.w[i]));
    if (!v) c = b.n - c;
    if (c < u) {
        u = 32;
        if (c < u) return;
    }
    uint64_t target = c / u * u;
    if (d == 1 && target < c) ++target;
    if (d == 2) --target;
    for (uint64_t i = b.n; i-- && c > target;)
        if (b.get(i) == v) {
            b.set(i, !v);
            --c;
        }
}

inline Bits bits_of_size(Src& s, uint64_t total)
{
    Bits b;
    uint64_t nseg = 1 + s.draw(6);
    for (uint64_t k = 0; k < nseg && b.n < total; ++k) {
        uint64_t len = total - b.n;
        if (k + 1 < nseg) len = std::min(len, size_upto(s, total));
        segment(s, b, len);
    }
    if (b.n < total) b.run(s.draw(2), total - b.n);
    // a few point flips
    uint64_t flips = s.draw(4);
    for (uint64_t k = 0; k < flips && b.n; ++k) {
        uint64_t p = s.draw(b.n);
        if (s.draw(2)) p = b.n - 1 - std::min<uint64_t>(s.draw(70), b.n - 1);
        b.set(p, !b.get(p));
    }
    if (s.chance(1, 4)) snap_count(s, b);
    return b;
}

inline Bits bits(Src& s, uint64_t xl = 2000000)
{
    uint64_t max = size_class(s, xl * uint64_t(s.scale));
    return bits_of_size(s, size_upto(s, max));
}

// ---------------------------------------------------- query position sampling
// All positions when n is small; otherwise positions at and around block
// boundaries plus random ones.
template <typename F>
void for_positions(Src& s, uint64_t n, uint64_t budget, F f)
{
    if (n <= budget) {
        for (uint64_t i = 0; i < n; ++i) f(i);
        return;
    }
    Rng r(s.seed());
    for (uint64_t i = 0; i < 130 && i < n; ++i) f(i);
    for (uint64_t i = n > 700 ? n - 700 : 0; i < n; ++i) f(i);
    static const uint64_t unit[] = {64, 512, 1024, 8192, 65536, 256};
    for (uint64_t q = 0; q < budget; ++q) {
        uint64_t p = r.below(n);
        if (q % 2) {
            uint64_t u = unit[r.below(6)];
            p = p / u * u;
            uint64_t d = r.below(5);
            p = p + d >= 2 ? p + d - 2 : p;
            if (p >= n) p = n - 1;
        }
        f(p);
    }
}

// ------------------------------------------------------------- integer values
// Shapes of unsigned values bounded by max (inclusive)
struct ValueGen {
    unsigned kind;
    uint64_t max;
    uint64_t a, bsz;
    Rng r;
    uint64_t i = 0;
    ValueGen(Src& s, uint64_t mx) : kind(unsigned(s.draw(8))), max(mx), a(0), bsz(1), r(0)
    {
        a = std::min(s.logu(mx), mx);
        bsz = 1 + s.draw(64);
        r = Rng(s.seed());
    }
    uint64_t next()
    {
        uint64_t v = 0;
        switch (kind) {
        case 0: v = a; break;                         // constant
        case 1: v = a == UINT64_MAX ? r.next() : r.below(a + 1); break;
        case 2: {                                     // log-uniform
            unsigned b = unsigned(r.below(65));
            v = b ? (b == 64 ? r.next() : r.below(uint64_t(1) << b)) : 0;
            break;
        }
        case 3: {                                     // 2^k - 1, 2^k, 2^k + 1, ...
            uint64_t p = uint64_t(1) << r.below(64);
            v = p + r.below(5) - 2;
            break;
        }
        case 4: v = r.below(4) ? 0 : r.next(); break; // mostly zero
        case 5: v = max - r.below(3); break;          // near the maximum
        case 6: v = (i / bsz) % 2 ? a : r.below(3); break; // plateaus
        default: v = r.below(16); break;
        }
        ++i;
        return std::min(v, max);
    }
};

inline std::vector<uint64_t> values(Src& s, uint64_t n, uint64_t max)
{
    std::vector<uint64_t> v;
    v.reserve(n);
    uint64_t nseg = 1 + s.draw(4);
    for (uint64_t k = 0; k < nseg && v.size() < n; ++k) {
        uint64_t len = n - v.size();
        if (k + 1 < nseg) len = std::min<uint64_t>(len, size_upto(s, n));
        ValueGen g(s, max);
        for (uint64_t i = 0; i < len; ++i) v.push_back(g.next());
    }
    while (v.size() < n) v.push_back(0);
    return v;
}

template <typename V>
std::string show_vec(V const& v, size_t max = 24)
{
    std::ostringstream os;
    os << "len=" << v.size() << ":[";
    for (size_t i = 0; i < v.size() && i < max; ++i) os << (i ? "," : "") << v[i];
    if (v.size() > max) os << ",...";
    os << "]";
    return os.str();
}

// ------------------------------------------- leftmost-minimum range reference
// Block decomposition + sparse table over block minima; get(i) gives values,
// less is a strict weak order. Returns the leftmost minimum in [a, b].
template <typename Get, typename Less>
struct Rmq {
    Get get;
    Less less;
    uint64_t n;
    static constexpr uint64_t B = 32;
    std::vector<std::vector<uint64_t>> st;
    Rmq(Get g, Less l, uint64_t n_) : get(g), less(l), n(n_)
    {
        uint64_t nb = (n + B - 1) / B;
        st.push_back(std::vector<uint64_t>(nb));
        for (uint64_t k = 0; k < nb; ++k) st[0][k] = scan(k * B, std::min(n, (k + 1) * B) - 1);
        for (unsigned j = 1; (uint64_t(1) << j) <= nb; ++j) {
            uint64_t len = uint64_t(1) << j;
            st.push_back(std::vector<uint64_t>(nb - len + 1));
            for (uint64_t k = 0; k + len <= nb; ++k) st[j][k] = best(st[j - 1][k], st[j - 1][k + len / 2]);
        }
    }
    uint64_t best(uint64_t x, uint64_t y) const { return less(get(y), get(x)) ? y : x; } // x left of y
    uint64_t scan(uint64_t a, uint64_t b) const
    {
        uint64_t m = a;
        for (uint64_t i = a + 1; i <= b; ++i)
            if (less(get(i), get(m))) m = i;
        return m;
    }
    uint64_t query(uint64_t a, uint64_t b) const
    {
        uint64_t ba = a / B, bb = b / B;
        if (bb - ba < 2) return scan(a, b);
        uint64_t m = scan(a, (ba + 1) * B - 1);
        uint64_t lo = ba + 1, hi = bb; // [lo, hi)
        unsigned j = 63 - unsigned(__builtin_clzll(hi - lo));
        m = best(m, best(st[j][lo], st[j][hi - (uint64_t(1) << j)]));
        return best(m, scan(bb * B, b));
    }
};
template <typename Get, typename Less>
Rmq<Get, Less> make_rmq(Get g, Less l, uint64_t n)
{
    return Rmq<Get, Less>(g, l, n);
}

} // namespace gen
