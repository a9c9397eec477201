// The cases beyond 2^32 bits of C01, C04, C05, C08 to C14, C23, C27 and C28: inputs
// given by formulas, so that the reference stays small.
#include <boost/iterator/counting_iterator.hpp>
#include <boost/iterator/transform_iterator.hpp>
#include <boost/range.hpp>
#include "huge.hpp"
#include "mapper.hpp"
#include "darray64.hpp"
#include "elias_fano.hpp"
#include "elias_fano_list.hpp"
#include "elias_fano_compressed_list.hpp"
#include "forward_enumerator.hpp"
#include "gamma_vector.hpp"
#include "gamma_bit_vector.hpp"
#include "nibble_vector.hpp"

#include <fcntl.h>
#include <stdio.h>
#include <sys/mman.h>
#include <unistd.h>

using namespace succinct;
using namespace hx;

namespace {
const uint64_t B32 = uint64_t(1) << 32;

uint64_t mix(uint64_t x)
{
    x ^= x >> 30;
    x *= 0xbf58476d1ce4e5b9ull;
    x ^= x >> 27;
    x *= 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

// a range of n values given by a function of the index
template <typename F>
auto range_of(uint64_t n, F f)
{
    typedef boost::transform_iterator<F, boost::counting_iterator<uint64_t>, typename std::result_of<F(uint64_t)>::type, typename std::result_of<F(uint64_t)>::type> it;
    return boost::make_iterator_range(it(boost::counting_iterator<uint64_t>(0), f), it(boost::counting_iterator<uint64_t>(n), f));
}
struct ValueAt {
    uint64_t seed;
    unsigned lo, hi; // code lengths in bits
    uint64_t max;
    typedef uint64_t result_type;
    uint64_t operator()(uint64_t i) const
    {
        uint64_t h = mix(seed + i * 0x9e3779b97f4a7c15ull);
        unsigned l = lo + unsigned((h & 0xff) % (hi - lo + 1));
        uint64_t v = l >= 64 ? h : h >> (64 - l);
        if (l && l < 64) v |= uint64_t(1) << (l - 1);
        return v > max ? max : v;
    }
};
struct ByteAt {
    uint64_t seed;
    typedef uint8_t result_type;
    uint8_t operator()(uint64_t i) const { return uint8_t((i * 0x9e3779b97f4a7c15ull + seed) >> 57); }
};
struct NibbleAt {
    uint64_t seed;
    typedef uint8_t result_type;
    uint8_t operator()(uint64_t i) const { return uint8_t((i * 0x9e3779b97f4a7c15ull + seed) >> 60); }
};
} // namespace

// ---------------------------------------------------------------------- C01
FACET(huge_builder, "a case is a builder of more than 2^32 bits, constructed with a fill or extended, then changed by set, set_bits, append_bits, push_back, zero_extend, one_extend, append, reverse and swap around 2^31, 2^32 and the end; always non-trivial")
{
    s.nontrivial();
    Huge h;
    std::map<uint64_t, bool> over;
    uint64_t first = B32 - 5000 + s.draw(10000);
    bit_vector_builder b;
    bool fill = s.draw(2);
    if (s.draw(2)) {
        bit_vector_builder(first, fill).swap(b);
    } else if (s.draw(2)) {
        uint64_t part = s.draw(first);
        fill ? b.one_extend(part) : b.zero_extend(part);
        fill ? b.one_extend(first - part) : b.zero_extend(first - part);
    } else {
        fill ? b.one_extend(first) : b.zero_extend(first);
    }
    h.add(first, fill ? ~uint64_t(0) : 0);
    DESC(s, "first=" << first << " fill=" << fill << " ");
    auto add_bits = [&](uint64_t bits, unsigned len) { // the reference of appending
        for (unsigned i = 0; i < len; ++i) over[h.n + i] = (bits >> i) & 1;
        h.add(len, 0);
    };
    unsigned steps = 5 + unsigned(s.draw(60));
    Rng r(s.seed());
    bool reversed = false;
    for (unsigned st = 0; st < steps; ++st) {
        switch (s.draw(9)) {
        case 0: {
            bool v = s.draw(2);
            b.push_back(v);
            add_bits(v, 1);
            break;
        }
        case 1:
        case 2: {
            unsigned len = unsigned(s.draw(65));
            uint64_t bits = len ? s.draw(0) & (~uint64_t(0) >> (64 - len)) : 0;
            b.append_bits(bits, len);
            add_bits(bits, len);
            break;
        }
        case 3: {
            uint64_t n = s.draw(3) ? s.draw(300) : s.draw(40000000);
            b.zero_extend(n);
            h.add(n, 0);
            break;
        }
        case 4: {
            uint64_t n = s.draw(3) ? s.draw(300) : s.draw(40000000);
            b.one_extend(n);
            h.add(n, ~uint64_t(0));
            break;
        }
        case 5: {
            bit_vector_builder c;
            uint64_t n = s.draw(3000);
            c.zero_extend(n);
            c.append_bits(5, 3);
            b.append(c);
            h.add(n, 0);
            add_bits(5, 3);
            break;
        }
        case 6:
        case 7:
            huge_positions(r, h.n, 5, [&](uint64_t p) {
                unsigned len = unsigned(std::min<uint64_t>(r.below(65), h.n - p));
                if (r.below(2)) {
                    bool v = r.below(2);
                    b.set(p, v);
                    over[p] = v;
                } else {
                    uint64_t bits = len ? r.next() & (~uint64_t(0) >> (64 - len)) : 0;
                    b.set_bits(p, bits, len);
                    for (unsigned i = 0; i < len; ++i) over[p + i] = (bits >> i) & 1;
                }
            });
            break;
        default: {
            bit_vector_builder c;
            c.swap(b);
            CK_EQ("size after swapping away", uint64_t(0), uint64_t(b.size()), "");
            b.swap(c);
        }
        }
        CK_EQ("builder size", h.n, uint64_t(b.size()), "step " << st);
    }
    if (s.draw(3) == 0) {
        b.reverse();
        reversed = true;
        DESC(s, "reversed ");
    }
    DESC(s, steps << " steps, n=" << h.n);
    bit_vector v(&b);
    CK_EQ("size", h.n, uint64_t(v.size()), "");
    auto at = [&](uint64_t p) {
        auto it = over.find(p);
        bool e = it != over.end() ? it->second : h.get(p);
        uint64_t q = reversed ? h.n - 1 - p : p;
        CK_EQ("bit", e, bool(v[q]), "pos " << q);
    };
    for (auto const& kv : over) {
        at(kv.first);
        if (kv.first) at(kv.first - 1);
        if (kv.first + 1 < h.n) at(kv.first + 1);
    }
    for (Seg const& g : h.seg) {
        at(g.start);
        if (g.start) at(g.start - 1);
    }
    huge_positions(r, h.n, 200000, at);
}

// ----------------------------------------------------------------- C04, C05
FACET(huge_enum, "a case is a bit vector of more than 2^32 bits in few segments, walked by both enumerators with jumps of up to the whole vector; always non-trivial")
{
    s.nontrivial();
    Huge h;
    if (s.draw(3) == 0) { // one enormous run
        h.add(s.draw(200), s.draw(0));
        h.add(B32 - 100 + s.draw(100000), s.draw(2) ? 0 : ~uint64_t(0));
        h.add(200 + s.draw(2000), s.draw(0) | 1);
    } else
        h = huge_bits(s, B32 + s.draw(1000000));
    DESC(s, "n=" << h.n << " ones=" << h.ones << " segments=" << h.seg.size());
    bit_vector v;
    {
        bit_vector_builder b;
        h.fill(b);
        bit_vector(&b).swap(v);
    }
    uint64_t zeros = h.n - h.ones;
    for (unsigned round = 0; round < 3; ++round) {
        uint64_t p = s.draw(2) ? s.draw(300) : s.draw(h.n);
        bit_vector::enumerator e(v, p);
        for (unsigned st = 0; st < 40 && p < h.n; ++st) {
            switch (s.draw(3)) {
            case 0:
                CK_EQ("next", h.get(p), e.next(), "pos " << p);
                ++p;
                break;
            case 1: {
                unsigned len = unsigned(std::min<uint64_t>(s.draw(65), h.n - p));
                uint64_t x = 0;
                for (unsigned i = 0; i < len; ++i) x |= uint64_t(h.get(p + i)) << i;
                CK_EQ("take", x, uint64_t(e.take(len)), "pos " << p << " len " << len);
                p += len;
                break;
            }
            default: {
                uint64_t k = h.rank(p);
                if (k == h.ones) break;
                uint64_t q = h.select(k, true);
                CK_EQ("skip_zeros", q - p, uint64_t(e.skip_zeros()), "pos " << p);
                p = q + 1;
            }
            }
            CK_EQ("position", p, uint64_t(e.position()), "");
        }
        p = s.draw(2) ? s.draw(300) : s.draw(h.n);
        uint64_t k = h.rank(p); // ones before the start
        bit_vector::unary_enumerator u(v, p);
        for (unsigned st = 0; st < 6 && k < h.ones; ++st) {
            uint64_t j = s.draw(2) ? s.draw(std::min<uint64_t>(h.ones - k, 300)) : s.draw(h.ones - k);
            CK_EQ("skip_no_move", h.select(k + j, true), uint64_t(u.skip_no_move(j)), "k " << k << " j " << j);
            if (s.draw(2)) {
                u.skip(j);
                k += j;
                CK_EQ("position after skip", h.select(k, true), uint64_t(u.position()), "k " << k);
            }
            CK_EQ("next", h.select(k, true), uint64_t(u.next()), "k " << k);
            ++k;
        }
        p = s.draw(2) ? s.draw(300) : s.draw(h.n);
        uint64_t z = p - h.rank(p);
        if (z < zeros) {
            bit_vector::unary_enumerator w(v, p);
            uint64_t j = s.draw(2) ? s.draw(std::min<uint64_t>(zeros - z, 300)) : s.draw(zeros - z);
            w.skip0(j);
            CK_EQ("position after skip0", h.select(z + j, false), uint64_t(w.position()), "from " << p << " j " << j);
            uint64_t q = w.position();
            if (h.rank(q) < h.ones) CK_EQ("next after skip0", h.select(h.rank(q), true), uint64_t(w.next()), "pos " << q);
        }
    }
}

// ---------------------------------------------------------------------- C08
FACET(huge_da64, "a case is a darray64 of over 66M ones and 2^32 bits from a periodic history of skips; always non-trivial")
{
    s.nontrivial();
    unsigned P = 1 + unsigned(s.draw(300));
    std::vector<uint64_t> skip(P), before(P + 1, 0);
    unsigned lo = 56 + unsigned(s.draw(8));
    Rng r(s.seed());
    for (unsigned i = 0; i < P; ++i) {
        skip[i] = lo + r.below(64 - lo + 1);
        before[i + 1] = before[i] + skip[i] + 1;
    }
    uint64_t m = (B32 + 1000000) / (before[P] / P) + 1000 + s.draw(100000);
    DESC(s, "ones=" << m << " period=" << P << " skips " << lo << "..64");
    auto pos = [&](uint64_t k) { return k / P * before[P] + before[k % P] + skip[k % P]; };
    darray64 d;
    {
        darray64::builder b;
        for (uint64_t i = 0; i < m; i += P)
            for (unsigned j = 0; j < P && i + j < m; ++j) b.append1(size_t(skip[j]));
        darray64(&b).swap(d);
    }
    CK_EQ("num_ones", m, uint64_t(d.num_ones()), "");
    CK_EQ("bits size", pos(m - 1) + 1, uint64_t(d.bits().size()), "");
    for (unsigned i = 0; i < 300000; ++i) {
        uint64_t k = i < 3000 ? m - 1 - i : r.below(m);
        CK_EQ("select", pos(k), uint64_t(d.select(k)), "k " << k);
        CK_EQ("bits()[select]", true, bool(d.bits()[pos(k)]), "k " << k);
    }
}

// ----------------------------------------------------------------- C09, C10
FACET(huge_ef, "a case is an elias_fano of over 120M values whose low bits exceed 2^32, the values given by a formula; always non-trivial")
{
    s.nontrivial();
    unsigned l = 34 + unsigned(s.draw(3));
    uint64_t m = (B32 + 100000000) / (l - 1) + s.draw(1000000);
    uint64_t step = (uint64_t(1) << l) + s.draw(uint64_t(1) << (l - 2));
    uint64_t seed = s.seed();
    auto at = [&](uint64_t i) { return i * step + mix(seed + i) % step; };
    uint64_t n = m * step + s.draw(1000);
    DESC(s, "m=" << m << " universe=" << n << " l=" << l);
    elias_fano ef;
    {
        elias_fano::elias_fano_builder b(n, m);
        for (uint64_t i = 0; i < m; ++i) b.push_back(at(i));
        elias_fano(&b).swap(ef);
    }
    CK_EQ("size", n, uint64_t(ef.size()), "");
    CK_EQ("num_ones", m, uint64_t(ef.num_ones()), "");
    Rng r(s.seed());
    for (unsigned q = 0; q < 100000; ++q) {
        uint64_t k = q < 2000 ? m - 1 - q : r.below(m);
        uint64_t x = at(k);
        CK_EQ("select", x, uint64_t(ef.select(k)), "k " << k);
        CK_EQ("delta", k ? x - at(k - 1) : x, uint64_t(ef.delta(k)), "k " << k);
        if (k + 1 < m) {
            auto p = ef.select_range(k);
            CK_EQ("select_range first", x, uint64_t(p.first), "k " << k);
            CK_EQ("select_range second", at(k + 1), uint64_t(p.second), "k " << k);
        }
        uint64_t p = r.below(2) ? r.below(n) : x + r.below(3) - 1;
        if (p >= n) continue;
        uint64_t i = std::min(m, p / step), below = i; // values before step i are below p
        if (i < m && at(i) < p) ++below;
        bool here = below < m && at(below) == p;
        CK_EQ("rank", below, uint64_t(ef.rank(p)), "pos " << p);
        CK_EQ("operator[]", here, bool(ef[p]), "pos " << p);
        if (below < m) CK_EQ("successor1", at(below), uint64_t(ef.successor1(p)), "pos " << p);
        if (p + 1 < n && (here || below)) CK_EQ("predecessor1", here ? p : at(below - 1), uint64_t(ef.predecessor1(p)), "pos " << p);
    }
    for (unsigned q = 0; q < 300; ++q) {
        uint64_t k = q < 3 ? m - 1 - 200 * q : r.below(m);
        elias_fano::select_enumerator e(ef, k);
        for (uint64_t i = k; i < m && i < k + 300; ++i) CK_EQ("select_enumerator next", at(i), uint64_t(e.next()), "start " << k << " index " << i);
    }
}

// ------------------------------------------------------------- C11 .. C14
namespace {
template <typename L>
void huge_list(Src& s, ValueAt f, uint64_t n, L& l)
{
    DESC(s, "n=" << n << " lengths " << f.lo << ".." << f.hi);
    s.nontrivial();
    L(range_of(n, f)).swap(l);
    CK_EQ("size", n, uint64_t(l.size()), "");
    Rng r(s.seed());
    for (unsigned q = 0; q < 200000; ++q) {
        uint64_t i = q < 2000 ? n - 1 - q : r.below(n);
        CK_EQ("operator[]", f(i), uint64_t(l[i]), "index " << i);
    }
    for (unsigned q = 0; q < 200; ++q) {
        uint64_t k = q < 3 ? n - 1 - 200 * q : r.below(n);
        forward_enumerator<L> e(l, k);
        for (uint64_t i = k; i < n && i < k + 300; ++i) CK_EQ("enumerator next", f(i), uint64_t(e.next()), "start " << k << " index " << i);
    }
}
} // namespace
FACET(huge_ef_list, "a case is an elias_fano_list of over 130M integers whose low bits exceed 2^32; always non-trivial")
{
    elias_fano_list l;
    uint64_t n = 130000000 + s.draw(5000000);
    ValueAt f{s.seed(), 36, 36, UINT64_MAX};
    huge_list(s, f, n, l);
    uint64_t sum = 0;
    for (uint64_t i = 0; i < n; ++i) sum += f(i);
    CK_EQ("sum", sum, uint64_t(l.sum()), "");
}
FACET(huge_ef_compressed, "a case is an elias_fano_compressed_list of over 70M integers, over 2^32 bits; always non-trivial")
{
    elias_fano_compressed_list l;
    huge_list(s, ValueAt{s.seed(), 62, 64, UINT64_MAX - 1}, 71000000 + s.draw(1000000), l);
}
FACET(huge_gamma, "a case is a gamma_vector of over 70M integers, over 2^32 bits; always non-trivial")
{
    gamma_vector l;
    huge_list(s, ValueAt{s.seed(), 62, 64, UINT64_MAX - 1}, 71000000 + s.draw(1000000), l);
}
FACET(huge_gamma_bit, "a case is a gamma_bit_vector of over 70M integers, over 2^32 bits; always non-trivial")
{
    gamma_bit_vector l;
    huge_list(s, ValueAt{s.seed(), 62, 64, UINT64_MAX - 2}, 71000000 + s.draw(1000000), l);
}

// More than 2^32 elements: positions, ranks and counts that exceed 32 bits while
// each element takes a bit or two.
namespace {
struct BitAt { // 0 or 1, ones with the density of thr / 256
    uint64_t seed;
    unsigned thr;
    typedef uint64_t result_type;
    uint64_t operator()(uint64_t i) const { return ((i * 0x9e3779b97f4a7c15ull + seed) >> 56) < thr; }
};
template <typename L>
void many_list(Src& s, L& l, bool sum)
{
    s.nontrivial();
    uint64_t n = B32 + 1 + s.draw(1000000);
    BitAt f{s.seed(), s.draw(2) ? unsigned(s.draw(3)) : unsigned(s.draw(257))};
    DESC(s, "n=" << n << " values 0 and 1, density of ones " << f.thr << "/256");
    L(range_of(n, f)).swap(l);
    CK_EQ("size", n, uint64_t(l.size()), "");
    Rng r(s.seed());
    for (unsigned q = 0; q < 200000; ++q) {
        uint64_t i = q < 2000 ? n - 1 - q : q < 6000 ? B32 - 3000 + q : r.below(n);
        if (i < n) CK_EQ("operator[]", f(i), uint64_t(l[i]), "index " << i);
    }
    for (unsigned q = 0; q < 200; ++q) {
        uint64_t k = q < 3 ? n - 1 - 200 * q : q == 3 ? B32 - 100 : r.below(n);
        forward_enumerator<L> e(l, k);
        for (uint64_t i = k; i < n && i < k + 300; ++i) CK_EQ("enumerator next", f(i), uint64_t(e.next()), "start " << k << " index " << i);
    }
    if (!sum) return;
    uint64_t t = 0;
    for (uint64_t i = 0; i < n; ++i) t += f(i);
    if constexpr (std::is_same<L, elias_fano_list>::value) CK_EQ("sum", t, uint64_t(l.sum()), "");
}
} // namespace
FACET(many_darray, "a case is a bit vector of more than 2^32 ones (or zeros) with a regular pattern of exceptions and a darray over the frequent value; always non-trivial")
{
    s.nontrivial();
    bool one = !s.draw(2);
    uint64_t gap = 64 * (2 + s.draw(3000)); // one exception per gap, in the last word of it
    unsigned at = unsigned(s.draw(64));
    uint64_t k = B32 / (gap - 1) + 1 + s.draw(1000), n = k * gap, cnt = k * (gap - 1);
    DESC(s, "n=" << n << (one ? " darray1 over " : " darray0 over ") << cnt << " positions, an exception every " << gap);
    bit_vector bv;
    {
        bit_vector_builder b(n, one);
        for (uint64_t i = 0; i < k; ++i) b.set(i * gap + gap - 64 + at, !one);
        bit_vector(&b).swap(bv);
    }
    auto pos = [&](uint64_t i) { uint64_t o = i % (gap - 1); return i / (gap - 1) * gap + o + (o >= gap - 64 + at); };
    auto check = [&](auto const& d) {
        CK_EQ("num_positions", cnt, uint64_t(d.num_positions()), "");
        Rng r(s.seed());
        for (unsigned q = 0; q < 300000; ++q) {
            uint64_t i = q < 3000 ? cnt - 1 - q : q < 9000 ? std::min(cnt - 1, B32 - 6000 + q) : r.below(cnt);
            CK_EQ("select", pos(i), uint64_t(d.select(bv, i)), "k " << i);
        }
    };
    if (one) {
        darray1 d(bv);
        check(d);
    } else {
        darray0 d(bv);
        check(d);
    }
}
FACET(many_da64, "a case is a darray64 of more than 2^32 ones, nearly all without zeros between; always non-trivial")
{
    s.nontrivial();
    uint64_t m = B32 + 1 + s.draw(1000000), P = 3 + s.draw(5000);
    DESC(s, "ones=" << m << ", one zero before each " << P << "-th");
    darray64 d;
    {
        darray64::builder b;
        b.bits.reserve(m + m / P + 64);
        uint64_t left = 0;
        for (uint64_t i = 0; i < m; ++i) {
            if (!left) {
                b.append1(1);
                left = P;
            } else b.append1();
            --left;
        }
        darray64(&b).swap(d);
    }
    auto pos = [&](uint64_t i) { return i + i / P + 1; };
    CK_EQ("num_ones", m, uint64_t(d.num_ones()), "");
    CK_EQ("bits size", pos(m - 1) + 1, uint64_t(d.bits().size()), "");
    Rng r(s.seed());
    for (unsigned q = 0; q < 300000; ++q) {
        uint64_t i = q < 3000 ? m - 1 - q : q < 9000 ? std::min(m - 1, B32 - 6000 + q) : r.below(m);
        CK_EQ("select", pos(i), uint64_t(d.select(i)), "k " << i);
    }
}
FACET(many_ef, "a case is an elias_fano of more than 2^32 values in a universe smaller than that, so that most occur often; always non-trivial")
{
    s.nontrivial();
    uint64_t m = B32 + 1 + s.draw(1000000), rep = 1 + s.draw(200), n = (m - 1) / rep + 1 + s.draw(100);
    DESC(s, "m=" << m << " each value " << rep << " times, universe " << n);
    elias_fano ef;
    {
        elias_fano::elias_fano_builder b(n, m);
        uint64_t v = 0, left = rep;
        for (uint64_t i = 0; i < m; ++i) {
            b.push_back(v);
            if (!--left) {
                ++v;
                left = rep;
            }
        }
        elias_fano(&b).swap(ef);
    }
    CK_EQ("size", n, uint64_t(ef.size()), "");
    CK_EQ("num_ones", m, uint64_t(ef.num_ones()), "");
    Rng r(s.seed());
    for (unsigned q = 0; q < 100000; ++q) {
        uint64_t k = q < 2000 ? m - 1 - q : q < 6000 ? std::min(m - 1, B32 - 4000 + q) : r.below(m);
        uint64_t x = k / rep;
        CK_EQ("select", x, uint64_t(ef.select(k)), "k " << k);
        CK_EQ("delta", uint64_t(k && k % rep == 0), uint64_t(ef.delta(k)), "k " << k);
        if (k + 1 < m) CK_EQ("select_range second", (k + 1) / rep, uint64_t(ef.select_range(k).second), "k " << k);
        CK_EQ("rank", x * rep, uint64_t(ef.rank(x)), "pos " << x);
        CK_EQ("operator[]", true, bool(ef[x]), "pos " << x);
        CK_EQ("successor1", x, uint64_t(ef.successor1(x)), "pos " << x);
        if (x + 1 < n) CK_EQ("predecessor1", x, uint64_t(ef.predecessor1(x)), "pos " << x);
    }
    for (unsigned q = 0; q < 300; ++q) {
        uint64_t k = q < 3 ? m - 1 - 200 * q : q == 3 ? B32 - 100 : r.below(m);
        elias_fano::select_enumerator e(ef, k);
        for (uint64_t i = k; i < m && i < k + 300; ++i) CK_EQ("select_enumerator next", i / rep, uint64_t(e.next()), "start " << k << " index " << i);
    }
}
FACET(many_ef_list, "a case is an elias_fano_list of more than 2^32 zeros and ones; always non-trivial")
{
    elias_fano_list l;
    many_list(s, l, true);
}
FACET(many_ef_compressed, "a case is an elias_fano_compressed_list of more than 2^32 zeros and ones; always non-trivial")
{
    elias_fano_compressed_list l;
    many_list(s, l, false);
}
FACET(many_gamma, "a case is a gamma_vector of more than 2^32 zeros and ones; always non-trivial")
{
    gamma_vector l;
    many_list(s, l, false);
}
FACET(many_gamma_bit, "a case is a gamma_bit_vector of more than 2^32 zeros and ones; always non-trivial")
{
    gamma_bit_vector l;
    many_list(s, l, false);
}

// ----------------------------------------------------------------- C23, C27
FACET(huge_nibble, "a case is a nibble_vector of over 2^32 values; always non-trivial")
{
    s.nontrivial();
    uint64_t n = B32 + 1 + s.draw(100000);
    NibbleAt f{s.seed()};
    DESC(s, "n=" << n);
    nibble_vector v(range_of(n, f));
    CK_EQ("size", n, uint64_t(v.size()), "");
    Rng r(s.seed());
    huge_positions(r, n, 2000000, [&](uint64_t i) { CK_EQ("operator[]", unsigned(f(i)), unsigned(v[i]), "index " << i); });
}
FACET(huge_mv, "a case is a mappable_vector of over 2^32 bytes, constructed from a range, assigned or stolen; always non-trivial")
{
    s.nontrivial();
    uint64_t n = B32 + 1 + s.draw(100000);
    ByteAt f{s.seed()};
    unsigned how = unsigned(s.draw(3));
    DESC(s, "n=" << n << (how == 0 ? " range" : how == 1 ? " assign" : " steal"));
    mapper::mappable_vector<uint8_t> v;
    if (how == 0) {
        mapper::mappable_vector<uint8_t>(range_of(n, f)).swap(v);
    } else if (how == 1) {
        v.assign(range_of(n, f));
    } else {
        std::vector<uint8_t> x(n);
        for (uint64_t i = 0; i < n; ++i) x[i] = f(i);
        v.steal(x);
        CK(x.empty(), "the source of steal is not empty");
    }
    CK_EQ("size", n, uint64_t(v.size()), "");
    CK_EQ("end - begin", n, uint64_t(v.end() - v.begin()), "");
    CK_EQ("size_of", n + 8, uint64_t(mapper::size_of(v)), "");
    Rng r(s.seed());
    huge_positions(r, n, 2000000, [&](uint64_t i) { CK_EQ("operator[]", unsigned(f(i)), unsigned(v[i]), "index " << i); });
}

// ----------------------------------------------------------------------- C28
namespace {
// a text of few lines that together pass 2^32 bytes
struct HugeText {
    std::vector<uint64_t> len; // without the newline
    std::vector<bool> cr;      // the last byte of the line is a CR
    bool last_newline;
    uint64_t size() const
    {
        uint64_t n = 0;
        for (size_t i = 0; i < len.size(); ++i) n += len[i] + 1;
        return n - (last_newline ? 0 : 1);
    }
    explicit HugeText(eng::Src& s)
    {
        uint64_t n = 0;
        while (n <= B32) {
            uint64_t l;
            switch (s.draw(6)) {
            case 0: l = s.draw(300); break;
            case 1: l = (uint64_t(1) << 31) - 2 + s.draw(100); break;
            case 2: l = (n > 1000000 ? B32 / 4 : B32) - 2 + s.draw(100); break;
            default: l = (uint64_t(1) << 30) + s.draw(70000); break;
            }
            len.push_back(l);
            cr.push_back(l && s.draw(3) == 0);
            n += l + 1;
            if (len.size() == 40) { // the choices have run out
                len.back() = B32;
                break;
            }
        }
        for (uint64_t k = 1 + s.draw(3); k; --k) {
            len.push_back(1 + s.draw(300));
            cr.push_back(s.draw(3) == 0);
        }
        last_newline = s.draw(2);
    }
    std::string describe() const
    {
        std::ostringstream o;
        for (size_t i = 0; i < len.size(); ++i) o << (i ? " " : "") << len[i] << (cr[i] ? "r" : "");
        o << (last_newline ? "" : " (no final newline)");
        return o.str();
    }
};
// the same text as a stream of 'x'
struct TextCookie {
    HugeText const* t;
    size_t line;
    uint64_t in_line;
    static ssize_t read(void* c, char* buf, size_t n)
    {
        TextCookie& k = *(TextCookie*)c;
        HugeText const& t = *k.t;
        size_t done = 0;
        while (done < n && k.line < t.len.size()) {
            uint64_t left = t.len[k.line] - k.in_line;
            if (left) {
                size_t m = size_t(std::min<uint64_t>(left, n - done));
                memset(buf + done, 'x', m);
                done += m;
                k.in_line += m;
                if (m == left && t.cr[k.line]) buf[done - 1] = '\r';
                continue;
            }
            if (k.line + 1 < t.len.size() || t.last_newline) buf[done++] = '\n';
            ++k.line;
            k.in_line = 0;
        }
        return ssize_t(done);
    }
};
void huge_line_is(std::string const& got, uint64_t xs, const char* tail, size_t i)
{
    size_t tl = strlen(tail);
    CK_EQ("length of the line", xs + tl, uint64_t(got.size()), "line " << i);
    CK(!tl || memcmp(got.data() + xs, tail, tl) == 0, "line " << i << " ends in other bytes");
    // all equal to their neighbour
    CK(!xs || (got[0] == 'x' && memcmp(got.data(), got.data() + 1, xs - 1) == 0), "line " << i << " holds other bytes");
}
} // namespace
FACET(huge_lines, "a case is a text of over 2^32 bytes read from a buffer, a mapped file or a stream; always non-trivial")
{
    s.nontrivial();
    HugeText t(s);
    uint64_t n = t.size();
    unsigned how = unsigned(s.draw(3));
    DESC(s, (how == 0 ? "buffer: " : how == 1 ? "mmap_lines: " : "stream: ") << t.describe());
    if (how == 2) {
        TextCookie c{&t, 0, 0};
        cookie_io_functions_t io = {TextCookie::read, 0, 0, 0};
        struct File { FILE* f; ~File() { fclose(f); } } file{fopencookie(&c, "r", io)};
        bool trim = s.draw(2);
        std::string line;
        for (size_t i = 0; i < t.len.size(); ++i) {
            CK_EQ("fast_getline", true, util::fast_getline(line, file.f, trim), "line " << i);
            bool nl = i + 1 < t.len.size() || t.last_newline;
            huge_line_is(line, t.len[i] - t.cr[i], trim ? "" : t.cr[i] ? (nl ? "\r\n" : "\r") : nl ? "\n" : "", i);
        }
        CK_EQ("fast_getline at the end", false, util::fast_getline(line, file.f, trim), "");
        return;
    }
    // mostly holes: NULs with some other bytes in between
    std::vector<std::pair<uint64_t, char>> marks;
    uint64_t p = 0;
    Rng r(s.seed());
    for (size_t i = 0; i < t.len.size(); ++i) {
        for (int k = 0; k < 5 && t.len[i] > 1; ++k) marks.push_back(std::make_pair(p + r.below(t.len[i] - 1), char('a' + r.below(26))));
        p += t.len[i];
        if (t.cr[i]) marks.push_back(std::make_pair(p - 1, '\r'));
        if (p < n) marks.push_back(std::make_pair(p, '\n'));
        ++p;
    }
    struct Map { char* p; uint64_t n; ~Map() { if (p) munmap(p, n); } } m{0, n};
    auto check = [&](util::buffer_line_iterator it, const char* text) {
        util::buffer_line_iterator end;
        uint64_t at = 0;
        for (size_t i = 0; i < t.len.size(); ++i, ++it) {
            CK(it != end, "only " << i << " lines are read");
            uint64_t l = t.len[i] - t.cr[i];
            CK_EQ("length of the line", l, uint64_t(it->size()), "line " << i);
            CK(memcmp(it->data(), text + at, l) == 0, "line " << i << " holds other bytes");
            at += t.len[i] + 1;
        }
        CK(it == end, "more than " << t.len.size() << " lines are read");
    };
    if (how == 0) {
        void* q = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (q == MAP_FAILED) throw std::bad_alloc();
        m.p = (char*)q;
        for (size_t i = 0; i < marks.size(); ++i) m.p[marks[i].first] = marks[i].second;
        check(util::buffer_line_iterator(m.p, n), m.p);
        return;
    }
    std::string path = eng::scratch_file("huge_lines");
    struct Rm { std::string p; ~Rm() { unlink(p.c_str()); } } rm{path};
    int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    bool ok = fd >= 0 && ftruncate(fd, off_t(n)) == 0;
    for (size_t i = 0; ok && i < marks.size(); ++i) ok = pwrite(fd, &marks[i].second, 1, off_t(marks[i].first)) == 1;
    if (ok) {
        m.p = (char*)mmap(0, n, PROT_READ, MAP_SHARED, fd, 0);
        if (m.p == (char*)MAP_FAILED) m.p = 0, ok = false;
    }
    if (fd >= 0) close(fd);
    if (!ok) {
        perror(path.c_str());
        _exit(77);
    }
    util::mmap_lines lines(path);
    check(lines.begin(), m.p);
    CK(lines.end() == util::mmap_lines::const_iterator(), "end() is not the end");
}
