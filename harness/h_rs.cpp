// C06 rs_bit_vector, C07 darray1/0, C08 darray64, and the > 2^32 bit cases.
#include "common.hpp"
#include "huge.hpp"
#include "rs_bit_vector.hpp"
#include "darray.hpp"
#include "darray64.hpp"

using namespace succinct;
using namespace hx;
using gen::Oracle;

template <typename RS>
static void check_rs(Src& s, Bits const& x, Oracle const& o, RS const& v, uint64_t budget, const char* cfg)
{
    CK_EQ("size", x.n, uint64_t(v.size()), cfg << " " << gen::show(x));
    CK_EQ("num_ones", o.ones(), uint64_t(v.num_ones()), cfg << " " << gen::show(x));
    CK_EQ("num_zeros", o.zeros(), uint64_t(v.num_zeros()), cfg << " " << gen::show(x));
    CK_EQ("rank(size)", o.ones(), uint64_t(v.rank(x.n)), cfg << " " << gen::show(x));
    CK_EQ("rank0(size)", o.zeros(), uint64_t(v.rank0(x.n)), cfg << " " << gen::show(x));
    gen::for_positions(s, x.n, budget, [&](uint64_t p) {
        CK_EQ("rank", o.rank(p), uint64_t(v.rank(p)), cfg << " pos " << p << " " << gen::show(x));
        CK_EQ("rank0", o.rank0(p), uint64_t(v.rank0(p)), cfg << " pos " << p << " " << gen::show(x));
        CK_EQ("operator[]", x.get(p), bool(v[p]), cfg << " pos " << p << " " << gen::show(x));
    });
    gen::for_positions(s, o.ones(), budget, [&](uint64_t k) {
        CK_EQ("select", o.select(k), uint64_t(v.select(k)), cfg << " k " << k << " " << gen::show(x));
    });
    gen::for_positions(s, o.zeros(), budget, [&](uint64_t k) {
        CK_EQ("select0", o.select0(k), uint64_t(v.select0(k)), cfg << " k " << k << " " << gen::show(x));
    });
}

static void rs_case(Src& s, Bits const& x, uint64_t budget)
{
    DESC(s, gen::show(x));
    Oracle o(x);
    static const char* names[] = {"no hints", "select hints", "select0 hints", "both hints"};
    unsigned only = x.n > 100000 ? unsigned(s.draw(4)) : 4;
    for (unsigned h = 0; h < 4; ++h) {
        if (only < 4 && h != only) continue;
        rs_bit_vector v;
        if (x.n < 3000 && s.draw(2)) {
            Rng g(s.seed());
            kinds::bits_range(x, g, [&](auto const& range) { rs_bit_vector(range, h & 1, (h >> 1) & 1).swap(v); });
        } else {
            bit_vector_builder b;
            fill(b, x);
            rs_bit_vector(&b, h & 1, (h >> 1) & 1).swap(v);
        }
        check_rs(s, x, o, v, budget, names[h]);
    }
    if (!(s.draw(4))) { // default flags
        rs_bit_vector v;
        build_plain(x, v);
        check_rs(s, x, o, v, 200, "default flags");
    }
    s.label(sz_label("n", x.n));
    s.nontrivial(x.n > 512 && o.ones() && o.zeros());
}

FACET(rs, "a case is a bit string queried under all hint configurations; non-trivial: more than one 512-bit block, both bit values")
{
    rs_case(s, gen::bits(s, 3000000), 3000);
}
FACET(rs_mid, "as rs, 0..20000 bits, exhaustive queries")
{
    rs_case(s, gen::bits_of_size(s, gen::size_upto(s, 20000)), 6000);
}

// Blocks of 512 bits with exactly chosen popcounts: rank/hint thresholds
// (multiples of 1024 ones or zeros) fall on block and word boundaries.
FACET(rs_blocks, "a case is a sequence of 512-bit blocks with chosen popcounts and layouts (full, empty, one missing, prefix/suffix ones); non-trivial: >= 3 blocks")
{
    Bits x;
    unsigned nb = 1 + unsigned(s.draw(24));
    unsigned style = unsigned(s.draw(3));
    for (unsigned i = 0; i < nb; ++i) {
        unsigned rep = 1 + (s.draw(4) ? 0 : unsigned(s.draw(6)));
        static const unsigned pops[] = {0, 512, 511, 1, 256, 510, 2, 64, 448, 128, 384, 513};
        unsigned pc = pops[s.draw(12)];
        if (pc == 513) pc = unsigned(s.draw(513));
        unsigned lay = unsigned(s.draw(4));
        for (unsigned r = 0; r < rep; ++r) {
            if (style == 1) { // word-granular: each word full or empty
                uint64_t m = s.draw(256);
                for (unsigned w = 0; w < 8; ++w) x.run((m >> w) & 1, 64);
                continue;
            }
            switch (lay) {
            case 0: x.run(true, pc); x.run(false, 512 - pc); break;
            case 1: x.run(false, 512 - pc); x.run(true, pc); break;
            case 2: { unsigned a = pc / 2; x.run(true, a); x.run(false, 512 - pc); x.run(true, pc - a); break; }
            default: { // evenly spread
                unsigned acc = 0;
                for (unsigned k = 0; k < 512; ++k) {
                    acc += pc;
                    if (acc >= 512) { acc -= 512; x.push(true); } else x.push(false);
                }
            }
            }
        }
    }
    uint64_t tail = gen::size_upto(s, 700);
    x.run(s.draw(2), tail);
    rs_case(s, x, 4000);
    s.nontrivial(x.n >= 1536);
}

// ------------------------------------------------------------------- C07
static void darray_case(Src& s, Bits const& x, uint64_t budget)
{
    DESC(s, gen::show(x));
    bit_vector bv;
    build_plain(x, bv);
    Oracle o(x);
    {
        darray1 d(bv);
        CK_EQ("darray1 num_positions", o.ones(), uint64_t(d.num_positions()), gen::show(x));
        gen::for_positions(s, o.ones(), budget, [&](uint64_t k) {
            CK_EQ("darray1 select", o.select(k), uint64_t(d.select(bv, k)), "k " << k << " " << gen::show(x));
        });
    }
    {
        darray0 d(bv);
        CK_EQ("darray0 num_positions", o.zeros(), uint64_t(d.num_positions()), gen::show(x));
        gen::for_positions(s, o.zeros(), budget, [&](uint64_t k) {
            CK_EQ("darray0 select", o.select0(k), uint64_t(d.select(bv, k)), "k " << k << " " << gen::show(x));
        });
    }
    s.label(sz_label("n", x.n));
    s.nontrivial(x.n > 2048 && (o.ones() > 32 || o.zeros() > 32));
}
FACET(darray, "a case is a bit string, both darrays; non-trivial: > 2048 bits and more than one sub-block of positions")
{
    darray_case(s, gen::bits(s, 3000000), 5000);
}
// Position lists built block by block: span of each 1024-block chosen around
// the 2^16 threshold, mixing dense and sparse blocks.
FACET(darray_spans, "a case is a list of 1024-position blocks whose spans are chosen around 2^16 (dense, threshold-1, threshold, threshold+1, sparse) for ones or for zeros; non-trivial: at least two blocks")
{
    Bits x;
    bool one = !s.draw(2);
    unsigned nb = 1 + unsigned(s.draw(5));
    x.run(!one, s.logu(3000));
    std::string spans;
    for (unsigned b = 0; b < nb; ++b) {
        bool last = b + 1 == nb;
        uint64_t cnt = last && s.draw(2) ? 1 + s.draw(1024) : 1024;
        uint64_t span; // last - first
        switch (s.draw(8)) {
        case 0: span = 65535; break;
        case 1: span = 65536; break;
        case 2: span = 65537; break;
        case 3: span = 65534; break;
        case 4: span = cnt - 1; break;
        case 5: span = 65000 + s.draw(1500); break;
        case 6: span = 30000 + s.draw(200000); break;
        default: span = cnt - 1 + s.logu(60000);
        }
        if (cnt == 1) span = 0;
        if (span < cnt - 1) span = cnt - 1;
        spans += " " + std::to_string(cnt) + "/" + std::to_string(span);
        uint64_t slack = span - (cnt - 1);
        unsigned lay = unsigned(s.draw(4));
        Rng r(s.seed());
        // distribute slack over cnt-1 gaps
        for (uint64_t k = 0; k < cnt; ++k) {
            x.push(one);
            if (k + 1 == cnt) break;
            uint64_t g;
            uint64_t left = cnt - 1 - k;
            if (lay == 0) g = (k == 0) ? slack : 0;              // one gap first
            else if (lay == 1) g = (left == 1) ? slack : 0;      // one gap last
            else if (lay == 2) g = left == 1 ? slack : std::min(slack, r.below(2 * slack / left + 1));
            else g = left == 1 ? slack : (k % 32 == 30 ? std::min(slack, slack / (left / 32 + 1)) : 0);
            slack -= g;
            x.run(!one, g);
        }
        x.run(!one, s.draw(3) ? s.draw(200) : s.logu(100000));
    }
    DESC(s, (one ? "ones" : "zeros") << " count/span:" << spans << " ");
    darray_case(s, x, 5000);
    s.nontrivial(nb >= 2);
}

// ------------------------------------------------------------------- C08
FACET(darray64_history, "a case is a sequence of append1(skip) runs; non-trivial: more than one 64-sub-block")
{
    darray64::builder b;
    Bits x;
    std::vector<uint64_t> pos;
    uint64_t t = s.draw(24);
    uint64_t total = gen::size_upto(s, t < 16 ? 2500 : t < 23 ? 20000 : 140000);
    unsigned nseg = 1 + unsigned(s.draw(6));
    DESC(s, "runs:");
    for (unsigned k = 0; k < nseg && pos.size() < total; ++k) {
        uint64_t len = k + 1 < nseg ? std::min<uint64_t>(gen::size_upto(s, total), total - pos.size()) : total - pos.size();
        unsigned kind = unsigned(s.draw(5));
        unsigned a = unsigned(s.draw(65));
        Rng r(s.seed());
        DESC(s, " " << len << "x(kind " << kind << ", skip " << a << ")");
        for (uint64_t i = 0; i < len; ++i) {
            unsigned sk = kind == 0 ? 0 : kind == 1 ? 64 : kind == 2 ? a : kind == 3 ? unsigned(r.below(a + 1)) : (r.below(8) ? 63 + unsigned(r.below(2)) : 0);
            if (sk == 0 && r.below(2))
                b.append1();
            else
                b.append1(sk);
            x.run(false, sk);
            x.push(true);
            pos.push_back(x.n - 1);
        }
    }
    darray64 d;
    CK_EQ("default num_ones", uint64_t(0), uint64_t(d.num_ones()), "");
    darray64(&b).swap(d);
    CK_EQ("num_ones", uint64_t(pos.size()), uint64_t(d.num_ones()), "");
    same_content(x, d.bits(), "bits()");
    for (size_t i = 0; i < pos.size(); ++i)
        CK_EQ("select", pos[i], uint64_t(d.select(i)), "k " << i << " of " << pos.size());
    s.label(sz_label("ones", pos.size()));
    s.nontrivial(pos.size() > 64);
}

// ----------------------------------------------------------- beyond 2^32 bits
FACET(huge_rs, "a case is a bit vector of more than 2^32 bits made of 3..8 periodic segments; reads, pred/succ, rank/select around 2^31, 2^32 and the end; always non-trivial")
{
    Huge h = huge_bits(s, (uint64_t(1) << 32) + s.draw(1000000));
    unsigned hints = unsigned(s.draw(4));
    DESC(s, "n=" << h.n << " ones=" << h.ones << " segments=" << h.seg.size() << " hints=" << hints);
    rs_bit_vector v;
    {
        bit_vector_builder b;
        h.fill(b);
        CK_EQ("builder size", h.n, b.size(), "");
        rs_bit_vector(&b, hints & 1, (hints >> 1) & 1).swap(v);
    }
    CK_EQ("size", h.n, uint64_t(v.size()), "");
    CK_EQ("num_ones", h.ones, uint64_t(v.num_ones()), "");
    CK_EQ("num_zeros", h.n - h.ones, uint64_t(v.num_zeros()), "");
    Rng r(s.seed());
    huge_positions(r, h.n, 30000, [&](uint64_t p) {
        CK_EQ("operator[]", h.get(p), bool(v[p]), "pos " << p);
        CK_EQ("rank", h.rank(p), uint64_t(v.rank(p)), "pos " << p);
        CK_EQ("rank0", p - h.rank(p), uint64_t(v.rank0(p)), "pos " << p);
        unsigned len = unsigned(std::min<uint64_t>(r.below(65), h.n - p));
        uint64_t e = 0;
        for (unsigned i = 0; i < len; ++i) e |= uint64_t(h.get(p + i)) << i;
        CK_EQ("get_bits", e, uint64_t(v.get_bits(p, len)), "pos " << p << " len " << len);
        if (len < 64) e = v.get_word(p) & (len ? (uint64_t(1) << len) - 1 : 0); else e = v.get_word(p);
        CK_EQ("get_word", uint64_t(v.get_bits(p, len)), e, "pos " << p);
    });
    unsigned far = 12;
    huge_positions(r, h.n, 3000, [&](uint64_t p) {
        // nearest matches; few of those further than 100000 away, to bound the scan
        auto near = [&](uint64_t d) { return d < 100000 || (far && far--); };
        uint64_t r1 = h.rank(p + 1), r0 = p + 1 - r1;
        if (r1) { uint64_t q = h.select(r1 - 1, true); if (near(p - q)) CK_EQ("predecessor1", q, uint64_t(v.predecessor1(p)), "pos " << p); }
        if (r0) { uint64_t q = h.select(r0 - 1, false); if (near(p - q)) CK_EQ("predecessor0", q, uint64_t(v.predecessor0(p)), "pos " << p); }
        r1 = h.rank(p); r0 = p - r1;
        if (r1 < h.ones) { uint64_t q = h.select(r1, true); if (near(q - p)) CK_EQ("successor1", q, uint64_t(v.successor1(p)), "pos " << p); }
        if (r0 < h.n - h.ones) { uint64_t q = h.select(r0, false); if (near(q - p)) CK_EQ("successor0", q, uint64_t(v.successor0(p)), "pos " << p); }
        // enumerators started far into the vector
        bit_vector::enumerator e(v, p);
        for (unsigned i = 0; i < 5 && p + i < h.n; ++i) CK_EQ("enumerator next", h.get(p + i), e.next(), "pos " << p + i);
        CK_EQ("enumerator position", std::min(h.n, p + 5), uint64_t(e.position()), "start " << p);
        if (r1 < h.ones && h.select(r1, true) - p < 100000) {
            bit_vector::unary_enumerator u(v, p);
            CK_EQ("unary next", h.select(r1, true), uint64_t(u.next()), "pos " << p);
        }
    });
    huge_positions(r, h.ones, 20000, [&](uint64_t k) { CK_EQ("select", h.select(k, true), uint64_t(v.select(k)), "k " << k); });
    huge_positions(r, h.n - h.ones, 20000, [&](uint64_t k) { CK_EQ("select0", h.select(k, false), uint64_t(v.select0(k)), "k " << k); });
    s.nontrivial(h.n > (uint64_t(1) << 32));
}

FACET(huge_darray, "a case is a bit vector of more than 2^32 bits, mostly runs, with a darray over the rarer value; always non-trivial")
{
    // few ones (or few zeros) so that the index stays small
    bool one = !s.draw(2);
    Huge h;
    uint64_t fillw = one ? 0 : ~uint64_t(0);
    uint64_t target = (uint64_t(1) << 32) + s.draw(1000000);
    unsigned clusters = 2 + unsigned(s.draw(4));
    for (unsigned k = 0; k < clusters; ++k) {
        uint64_t w = s.draw(0);
        h.add(1000 + s.draw(300000), one ? w & s.draw(0) : w | s.draw(0));
        uint64_t rest = target > h.n ? (target - h.n) / (clusters - k) : 1000;
        h.add(rest, fillw);
        h.add(1 + s.draw(70000), one ? uint64_t(1) << s.draw(64) : ~(uint64_t(1) << s.draw(64)));
    }
    h.add(5000 + s.draw(100000), s.draw(0));
    DESC(s, "n=" << h.n << " ones=" << h.ones << (one ? " darray1" : " darray0"));
    bit_vector bv;
    {
        bit_vector_builder b;
        h.fill(b);
        bit_vector(&b).swap(bv);
    }
    Rng r(s.seed());
    uint64_t cnt = one ? h.ones : h.n - h.ones;
    if (one) {
        darray1 d(bv);
        CK_EQ("num_positions", cnt, uint64_t(d.num_positions()), "");
        for (unsigned i = 0; i < 60000; ++i) {
            uint64_t k = i < 3000 ? cnt - 1 - i % cnt : r.below(cnt);
            CK_EQ("darray1 select", h.select(k, true), uint64_t(d.select(bv, k)), "k " << k);
        }
    } else {
        darray0 d(bv);
        CK_EQ("num_positions", cnt, uint64_t(d.num_positions()), "");
        for (unsigned i = 0; i < 60000; ++i) {
            uint64_t k = i < 3000 ? cnt - 1 - i % cnt : r.below(cnt);
            CK_EQ("darray0 select", h.select(k, false), uint64_t(d.select(bv, k)), "k " << k);
        }
    }
    s.nontrivial(true);
}
