// Ways to make a builder hold given bits.
// The token `succinct` may be renamed with -Dsuccinct=... (see h_cfg).
#pragma once
#include <deque>
#include <list>
#include <vector>
#include <boost/range/adaptor/transformed.hpp>
#include "../engine/gen.hpp"
#include "bit_vector.hpp"

namespace succinct {
namespace kinds {
using gen::Bits;
using eng::Rng;

// A non-zero integer of type T: small, a single high bit, only high bits, all ones, any.
template <typename T>
T nonzero(Rng& r)
{
    uint64_t v;
    switch (r.below(6)) {
    case 0: v = 1; break;
    case 1: v = uint64_t(1) << r.below(8 * sizeof(T)); break;
    case 2: v = ~uint64_t(0) << r.below(8 * sizeof(T)); break;
    case 3: v = ~uint64_t(0); break;
    case 4: v = uint64_t(1) << (8 * sizeof(T) - 1); break;
    default: v = r.next();
    }
    T t = T(v);
    return t ? t : T(1);
}

template <typename T, typename C>
C truth_range(Bits const& x, Rng& r)
{
    C c;
    for (uint64_t i = 0; i < x.n; ++i) c.push_back(x.get(i) ? nonzero<T>(r) : T(0));
    return c;
}

struct is_odd_word {
    typedef bool result_type;
    bool operator()(uint64_t v) const { return v & 1; }
};

// f(range) with a range of booleans or integers of some type and shape that
// stands for the bits x.
template <typename F>
void bits_range(Bits const& x, Rng& r, F f)
{
    switch (r.below(9)) {
    case 0: f(x.vec()); break;
    case 1: f(truth_range<uint8_t, std::vector<uint8_t> >(x, r)); break;
    case 2: f(truth_range<int, std::list<int> >(x, r)); break;
    case 3: f(truth_range<uint64_t, std::vector<uint64_t> >(x, r)); break;
    case 4: f(truth_range<int64_t, std::deque<int64_t> >(x, r)); break;
    case 5: f(truth_range<uint16_t, std::vector<uint16_t> >(x, r)); break;
    case 6: { // a pair of pointers
        std::vector<uint32_t> v = truth_range<uint32_t, std::vector<uint32_t> >(x, r);
        f(std::pair<uint32_t const*, uint32_t const*>(v.data(), v.data() + v.size()));
        break;
    }
    case 7: { // part of a longer sequence
        std::vector<int8_t> v = truth_range<int8_t, std::vector<int8_t> >(x, r);
        v.push_back(1);
        f(boost::make_iterator_range(v.begin(), v.end() - 1));
        break;
    }
    default: { // computed elements
        std::vector<uint64_t> v;
        for (uint64_t i = 0; i < x.n; ++i) v.push_back(2 * r.next() + (x.get(i) ? 1 : 0));
        f(v | boost::adaptors::transformed(is_odd_word()));
    }
    }
}

struct minus_mask { // computed element, by value
    typedef uint64_t result_type;
    uint64_t mask;
    uint64_t operator()(uint64_t v) const { return v ^ mask; }
};

// f(range) with the values in v, in a range of another shape than a vector.
template <typename T, typename F>
void vals_range(std::vector<uint64_t> const& v, Rng& r, F f)
{
    switch (r.below(5)) {
    case 0: f(std::list<T>(v.begin(), v.end())); break;
    case 1: f(std::deque<T>(v.begin(), v.end())); break;
    case 2: {
        std::vector<T> w(v.begin(), v.end());
        w.push_back(T(1));
        f(std::pair<T const*, T const*>(w.data(), w.data() + v.size()));
        break;
    }
    case 3: { // part of a longer sequence
        std::deque<T> w(v.begin(), v.end());
        w.push_back(T(-1));
        w.push_front(T(-1));
        f(boost::make_iterator_range(w.begin() + 1, w.end() - 1));
        break;
    }
    default: {
        minus_mask m = {r.next()};
        std::vector<uint64_t> w;
        for (uint64_t x : v) w.push_back(x ^ m.mask);
        f(w | boost::adaptors::transformed(m));
    }
    }
}

// Produces exactly the bits x by a random mix of builder operations.
inline void route_builder(Bits const& x, Rng& r, bit_vector_builder& b)
{
    unsigned style = unsigned(r.below(7));
    if (x.n > 200000 && style != 5 && style != 2) style = 1;
    switch (style) {
    case 0:
        for (uint64_t i = 0; i < x.n; ++i) b.push_back(x.get(i));
        break;
    case 2: { // preallocated with either fill, then set
        bool init = r.below(2);
        bit_vector_builder c(x.n, init);
        if (x.n > 200000 || r.below(3) == 0) { // by words or shorter fields
            unsigned step = r.below(2) ? 64 : 1 + unsigned(r.below(64));
            for (uint64_t i = 0; i < x.n; i += step) {
                unsigned len = unsigned(std::min<uint64_t>(step, x.n - i));
                c.set_bits(i, x.read(i, len), len);
            }
        } else {
            for (uint64_t i = 0; i < x.n; ++i)
                if (x.get(i) != init || r.below(4) == 0) c.set(i, x.get(i));
        }
        c.swap(b);
        break;
    }
    case 3: { // random mix of all appends
        uint64_t i = 0;
        if (r.below(2)) b.reserve(x.n + r.below(200));
        while (i < x.n) {
            switch (r.below(5)) {
            case 0: b.push_back(x.get(i++)); break;
            case 1: {
                unsigned len = unsigned(std::min<uint64_t>(r.below(65), x.n - i));
                b.append_bits(x.read(i, len), len);
                i += len;
                break;
            }
            case 2: {
                uint64_t j = i;
                bool v = x.get(i);
                while (j < x.n && x.get(j) == v && j - i < 500) ++j;
                if (v) b.one_extend(j - i);
                else b.zero_extend(j - i);
                i = j;
                break;
            }
            case 3: {
                uint64_t len = std::min<uint64_t>(r.below(300), x.n - i);
                bit_vector_builder c;
                for (uint64_t k = 0; k < len; ++k) c.push_back(x.get(i + k));
                b.append(c);
                i += len;
                break;
            }
            default: {
                uint64_t len = std::min<uint64_t>(r.below(65), x.n - i);
                b.zero_extend(len);
                b.set_bits(i, x.read(i, unsigned(len)), len);
                i += len;
            }
            }
        }
        break;
    }
    case 4: // written backwards, then reversed
        for (uint64_t i = x.n; i-- > 0;) b.push_back(x.get(i));
        b.reverse();
        break;
    case 5: { // two halves appended
        uint64_t h = x.n ? r.below(x.n + 1) : 0;
        bit_vector_builder c;
        for (uint64_t i = 0; i < h; i += 64) {
            unsigned len = unsigned(std::min<uint64_t>(64, h - i));
            b.append_bits(x.read(i, len), len);
        }
        for (uint64_t i = h; i < x.n; i += 64) {
            unsigned len = unsigned(std::min<uint64_t>(64, x.n - i));
            c.append_bits(x.read(i, len), len);
        }
        b.append(c);
        break;
    }
    default:
        for (uint64_t i = 0; i < x.n; i += 64) {
            unsigned len = unsigned(std::min<uint64_t>(64, x.n - i));
            b.append_bits(x.read(i, len), len);
        }
    }
}

} // namespace kinds
} // namespace succinct
