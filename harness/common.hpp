// Helpers shared by the harnesses: build library objects from reference data.
// Only the public API of the library is used.
#pragma once
#include <cassert>
#include <limits>
#include <list>
#include <deque>

#include "../engine/gen.hpp"

#include "bit_vector.hpp"
#include "routes.hpp"

namespace hx {
using eng::Src;
using eng::Rng;
using gen::Bits;

// Fill a builder with the reference bits, by one of several routes.
inline void fill(succinct::bit_vector_builder& b, Bits const& x, unsigned route = 1)
{
    switch (route) {
    case 0:
        for (uint64_t i = 0; i < x.n; ++i) b.push_back(x.get(i));
        break;
    default:
        for (uint64_t i = 0; i < x.n; i += 64) {
            unsigned len = unsigned(std::min<uint64_t>(64, x.n - i));
            b.append_bits(x.read(i, len), len);
        }
        break;
    }
}

// Build any class constructible from a range or a builder pointer (bit_vector,
// rs_bit_vector, bp_vector) into out, by a route chosen on the tape.
template <typename BV>
void build(Src& s, Bits const& x, BV& out)
{
    unsigned r = unsigned(s.draw(7));
    if (x.n > 400000 && r < 5) r = 1;
    switch (r) {
    case 0: {
        succinct::bit_vector_builder b;
        fill(b, x, 0);
        BV(&b).swap(out);
        break;
    }
    case 5:
    case 6: {
        Rng g(s.seed());
        succinct::bit_vector_builder b;
        succinct::kinds::route_builder(x, g, b);
        BV(&b).swap(out);
        break;
    }
    case 2:
    case 3:
    case 4: {
        Rng g(s.seed());
        succinct::kinds::bits_range(x, g, [&](auto const& range) { BV(range).swap(out); });
        break;
    }
    default: {
        succinct::bit_vector_builder b;
        fill(b, x, 1);
        BV(&b).swap(out);
    }
    }
}

template <typename BV>
void build_plain(Bits const& x, BV& out)
{
    succinct::bit_vector_builder b;
    fill(b, x, 1);
    BV(&b).swap(out);
}

// Complete content check through data(); cheap, used after every build.
template <typename BV>
void same_content(Bits const& x, BV const& bv, const char* what)
{
    CK_EQ("size", x.n, uint64_t(bv.size()), what);
    uint64_t words = (x.n + 63) / 64;
    for (uint64_t i = 0; i < words; ++i) {
        unsigned len = unsigned(std::min<uint64_t>(64, x.n - i * 64));
        uint64_t e = x.read(i * 64, len);
        uint64_t g = bv.get_bits(i * 64, len);
        if (e != g) eng::fail_eq("64 bits at position", e, g, std::string(what) + " pos " + std::to_string(i * 64) + " " + gen::show(x));
    }
}

inline std::string sz_label(const char* what, uint64_t n)
{
    const char* c = n == 0 ? "0" : n < 64 ? "<64" : n < 512 ? "<512" : n < 8192 ? "<8192" : n < 65536 ? "<2^16" : n < 1048576 ? "<2^20" : ">=2^20";
    return std::string(what) + c;
}
} // namespace hx
