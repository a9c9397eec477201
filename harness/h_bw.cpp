// C24 broadword primitives
#include <cassert>
#include <cstddef>
#include "../engine/gen.hpp"
#include "broadword.hpp"

using namespace succinct;
using eng::Rng;
using eng::Src;

namespace {
uint64_t word(Src& s)
{
    uint64_t x = 0;
    switch (s.draw(10)) {
    case 0: return s.draw(3) == 0 ? 0 : s.draw(2) ? ~uint64_t(0) : s.draw(256);
    case 1: return uint64_t(1) << s.draw(64);
    case 2: return ~(uint64_t(1) << s.draw(64));
    case 3: { // bytes from a small alphabet
        static const uint8_t al[] = {0x00, 0x01, 0x7f, 0x80, 0x81, 0xff, 0xfe, 0x40, 0x55, 0xaa, 0x3f, 0x10};
        for (int i = 0; i < 8; ++i) x = x << 8 | al[s.draw(12)];
        return x;
    }
    case 4: { // run of ones
        unsigned a = unsigned(s.draw(64)), b = unsigned(s.draw(64));
        if (a > b) std::swap(a, b);
        for (unsigned i = a; i <= b; ++i) x |= uint64_t(1) << i;
        return x;
    }
    case 5: return s.draw(0) & s.draw(0) & s.draw(0);
    case 6: return s.draw(0) | s.draw(0) | s.draw(0);
    case 7: { // few bits
        for (unsigned k = unsigned(s.draw(5)); k; --k) x |= uint64_t(1) << s.draw(64);
        return x;
    }
    default: return s.draw(0);
    }
}
unsigned pop(uint64_t x)
{
    unsigned c = 0;
    for (unsigned i = 0; i < 64; ++i) c += (x >> i) & 1;
    return c;
}
void unary(uint64_t x)
{
    unsigned c = pop(x);
#define HEX std::hex << "x=0x" << x
    CK_EQ("popcount", uint64_t(c), uint64_t(broadword::popcount(x)), HEX);
    uint64_t bc = 0, rby = 0, rbi = 0;
    for (unsigned i = 0; i < 8; ++i) {
        bc |= uint64_t(pop(x >> (8 * i) & 0xff)) << (8 * i);
        rby |= (x >> (8 * i) & 0xff) << (8 * (7 - i));
    }
    for (unsigned i = 0; i < 64; ++i) rbi |= (x >> i & 1) << (63 - i);
    CK_EQ("byte_counts", bc, uint64_t(broadword::byte_counts(x)), HEX);
    CK_EQ("bytes_sum", uint64_t(c), uint64_t(broadword::bytes_sum(bc)), HEX);
    CK_EQ("reverse_bytes", rby, uint64_t(broadword::reverse_bytes(x)), HEX);
    CK_EQ("reverse_bits", rbi, uint64_t(broadword::reverse_bits(x)), HEX);
    unsigned k = 0;
    int lo = -1, hi = -1;
    for (unsigned i = 0; i < 64; ++i)
        if (x >> i & 1) {
            CK_EQ("select_in_word", uint64_t(i), uint64_t(broadword::select_in_word(x, k)), HEX << " k=" << k);
            ++k;
            if (lo < 0) lo = int(i);
            hi = int(i);
        }
    unsigned long r = 1234;
    bool ok = broadword::msb(x, r) != 0;
    CK_EQ("msb found", x != 0, ok, HEX);
    if (ok) CK_EQ("msb", (unsigned long)hi, r, HEX);
    r = 1234;
    ok = broadword::lsb(x, r) != 0;
    CK_EQ("lsb found", x != 0, ok, HEX);
    if (ok) CK_EQ("lsb", (unsigned long)lo, r, HEX);
    if (x) {
        CK_EQ("msb(x)", hi, int(broadword::msb(x)), HEX);
        CK_EQ("lsb(x)", lo, int(broadword::lsb(x)), HEX);
    }
    if (c == 1) CK_EQ("bit_position", lo, int(broadword::bit_position(x)), HEX);
    uint64_t z = 0;
    for (unsigned i = 0; i < 8; ++i)
        if (x >> (8 * i) & 0xff) z |= uint64_t(1) << (8 * i);
    CK_EQ("zcompare_step_8", z, uint64_t(broadword::zcompare_step_8(x)), HEX);
#undef HEX
}
void binary(uint64_t x, uint64_t y)
{
#define HEX std::hex << "x=0x" << x << " y=0x" << y
    uint64_t u8 = 0, u9 = 0, l8 = 0, l8mask = 0;
    for (unsigned i = 0; i < 8; ++i) {
        uint8_t a = uint8_t(x >> (8 * i)), b = uint8_t(y >> (8 * i));
        if (a <= b) u8 |= uint64_t(1) << (8 * i);
        uint8_t d = uint8_t(b - a);
        if (d != 0x80) {
            l8mask |= uint64_t(1) << (8 * i);
            if (d < 0x80) l8 |= uint64_t(1) << (8 * i);
        }
    }
    uint64_t m63 = ~uint64_t(0) >> 1;
    for (unsigned i = 0; i < 7; ++i) {
        unsigned a = unsigned((x & m63) >> (9 * i) & 0x1ff), b = unsigned((y & m63) >> (9 * i) & 0x1ff);
        if (a <= b) u9 |= uint64_t(1) << (9 * i);
    }
    CK_EQ("uleq_step_8", u8, uint64_t(broadword::uleq_step_8(x, y)), HEX);
    CK_EQ("uleq_step_9", u9, uint64_t(broadword::uleq_step_9(x & m63, y & m63)), HEX);
    CK_EQ("leq_step_8", l8, uint64_t(broadword::leq_step_8(x, y)) & l8mask, HEX);
    bool same = (!x && !y) || (x && y && __builtin_clzll(x) == __builtin_clzll(y));
    CK_EQ("same_msb", same, bool(broadword::same_msb(x, y)), HEX);
#undef HEX
}
} // namespace

FACET(words, "a case is a pair of 64-bit words from structured families (single bits, runs, byte alphabets, sparse, dense, equal or near-equal pairs); non-trivial unless both are 0 or all ones")
{
    uint64_t x = word(s), y;
    switch (s.draw(4)) {
    case 0: y = x; break;
    case 1: y = x ^ (uint64_t(1) << s.draw(64)); break;
    case 2: y = x + (s.draw(2) ? 1 : uint64_t(1) << (8 * s.draw(8))); break;
    default: y = word(s);
    }
    DESC(s, std::hex << "x=0x" << x << " y=0x" << y);
    s.nontrivial(x != 0 && ~x != 0);
    unary(x);
    binary(x, y);
}

FACET(fields, "a case is two field values tried in every byte / 9-bit position on a random background; non-trivial always")
{
    uint64_t a = s.draw(256), b = s.draw(256), c = s.draw(512), d = s.draw(512);
    uint64_t bx = s.draw(2) ? 0 : s.draw(0), by = s.draw(2) ? bx : s.draw(0);
    DESC(s, "bytes " << a << "," << b << " fields " << c << "," << d);
    s.nontrivial();
    for (unsigned i = 0; i < 8; ++i) {
        uint64_t m = ~(uint64_t(0xff) << (8 * i));
        unary((bx & m) | a << (8 * i));
        binary((bx & m) | a << (8 * i), (by & m) | b << (8 * i));
    }
    for (unsigned i = 0; i < 7; ++i) {
        uint64_t m = ~(uint64_t(0x1ff) << (9 * i));
        binary((bx & m) | c << (9 * i), (by & m) | d << (9 * i));
    }
}

FACET(bulk, "a case is a seed expanded to 2000 word pairs of mixed density, plus every single bit, every run of ones and every byte value in every position once per case; non-trivial always")
{
    Rng r(s.seed());
    s.nontrivial();
    unsigned part = unsigned(s.draw(4));
    DESC(s, "seed-expanded, part " << part);
    for (unsigned i = 0; i < 2000; ++i) {
        uint64_t x = r.next(), y = r.next();
        switch (i % 5) {
        case 0: x &= r.next(); break;
        case 1: x |= r.next(); y = x ^ (y & 0x0101010101010101ull); break;
        case 2: x &= r.next() & r.next() & r.next(); break;
        case 3: x >>= r.below(64); y >>= r.below(64); break;
        }
        unary(x);
        binary(x, y);
    }
    if (part == 0)
        for (unsigned a = 0; a < 64; ++a) {
            unary(uint64_t(1) << a);
            unary(~(uint64_t(1) << a));
            for (unsigned b = a; b < 64; ++b) {
                uint64_t x = (~uint64_t(0) >> (63 - b)) & (~uint64_t(0) << a);
                unary(x);
                unary(~x);
                binary(x, uint64_t(1) << b);
                binary(uint64_t(1) << a, x);
            }
        }
    if (part == 1) {
        unary(0);
        unary(~uint64_t(0));
        binary(0, 0);
        for (unsigned i = 0; i < 8; ++i)
            for (unsigned v = 0; v < 256; ++v) {
                unary(uint64_t(v) << (8 * i));
                unary(~(uint64_t(v) << (8 * i)));
            }
    }
    if (part == 2) { // all byte pairs, in one position
        unsigned i = unsigned(s.draw(8));
        for (uint64_t a = 0; a < 256; ++a)
            for (uint64_t b = 0; b < 256; ++b) binary(a << (8 * i), b << (8 * i));
    }
    if (part == 3) { // all 9-bit pairs with a fixed left value
        unsigned i = unsigned(s.draw(7));
        for (uint64_t a = s.draw(16); a < 512; a += 16)
            for (uint64_t b = 0; b < 512; ++b) binary(a << (9 * i), b << (9 * i));
    }
}
