// C01..C05: bit_vector_builder, bit_vector reads, pred/succ, enumerators.
#include "common.hpp"

using namespace succinct;
using namespace hx;
using gen::Oracle;

// ------------------------------------------------------------------- C01
namespace {
struct Slot {
    bit_vector_builder* b;
    Bits m;
};

void model_append(Bits& a, Bits const& b)
{
    for (uint64_t i = 0; i < b.n; i += 64) {
        unsigned len = unsigned(std::min<uint64_t>(64, b.n - i));
        uint64_t v = b.read(i, len);
        if (len == 64 && a.n % 64 == 0) {
            a.w.push_back(v);
            a.n += 64;
        } else
            a.push_bits(v, len);
    }
}

Bits model_reverse(Bits const& a)
{
    Bits r;
    r.w.reserve(a.w.size());
    for (uint64_t i = a.n; i-- > 0;) r.push(a.get(i));
    return r;
}

uint64_t rnd_len_value(Src& s, unsigned len)
{
    if (!len) return 0;
    uint64_t v;
    switch (s.draw(4)) {
    case 0: v = 0; break;
    case 1: v = ~uint64_t(0); break;
    case 2: v = uint64_t(1) << (len - 1); break;
    default: v = s.draw(0);
    }
    if (len < 64) v &= (uint64_t(1) << len) - 1;
    return v;
}

void peek(Slot const& sl, const char* after)
{
    CK_EQ("builder size", sl.m.n, sl.b->size(), after);
    bit_vector_builder c;
    c.append(*sl.b);
    bit_vector bv(&c);
    same_content(sl.m, bv, after);
}

void final_check(Slot& sl, const char* after)
{
    CK_EQ("builder size", sl.m.n, sl.b->size(), after);
    bit_vector bv(sl.b);
    same_content(sl.m, bv, after);
    uint64_t words = (sl.m.n + 63) / 64;
    CK_EQ("data().size()", words, uint64_t(bv.data().size()), after);
    for (uint64_t i = 0; i < words; ++i)
        CK_EQ("stored word", sl.m.read(i * 64, 64), uint64_t(bv.data()[i]), after << " word " << i << " of " << gen::show(sl.m));
}
} // namespace

static void builder_history(Src& s, uint64_t cap, unsigned max_ops)
{
    const unsigned K = 3;
    Slot sl[K];
    struct Own {
        Slot* s;
        ~Own()
        {
            for (unsigned i = 0; i < 3; ++i) delete s[i].b;
        }
    } own{sl};
    for (unsigned i = 0; i < K; ++i) sl[i].b = 0;
    for (unsigned i = 0; i < K; ++i) sl[i].b = new bit_vector_builder;
    unsigned nops = 1 + unsigned(s.draw(max_ops));
    DESC(s, "ops:");
    unsigned kinds = 0;
    uint64_t maxsz = 0;
    const char* last = "";
    for (unsigned o = 0; o < nops; ++o) {
        unsigned i = unsigned(s.draw(K)) % 3;
        if (s.draw(3)) i = 0;
        Slot& x = sl[i];
        uint64_t room = x.m.n < cap ? cap - x.m.n : 0;
        unsigned op = unsigned(s.draw(14));
        kinds |= 1u << op;
        DESC(s, " b" << i << ".");
        switch (op) {
        case 0: {
            last = "push_back";
            unsigned c = 1 + unsigned(s.draw(70));
            uint64_t v = s.draw(0);
            for (unsigned k = 0; k < c; ++k) {
                bool b = (v >> (k % 64)) & 1;
                x.b->push_back(b);
                x.m.push(b);
            }
            DESC(s, "push_back*" << c << "(" << v << ")");
            break;
        }
        case 1: {
            last = "set";
            if (!x.m.n) break;
            unsigned c = 1 + unsigned(s.draw(4));
            for (unsigned k = 0; k < c; ++k) {
                uint64_t p = s.draw(x.m.n);
                if (s.draw(2)) p = x.m.n - 1 - p % std::min<uint64_t>(x.m.n, 130);
                bool b = s.draw(2);
                x.b->set(p, b);
                x.m.set(p, b);
                DESC(s, "set(" << p << "," << b << ")");
            }
            break;
        }
        case 2:
        case 3: {
            last = "set_bits";
            unsigned c = 1 + unsigned(s.draw(3));
            for (unsigned k = 0; k < c; ++k) {
                unsigned len = unsigned(std::min<uint64_t>(s.draw(65), x.m.n));
                uint64_t p = s.draw(x.m.n - len + 1);
                if (s.draw(2)) p = x.m.n - len - std::min<uint64_t>(s.draw(70), x.m.n - len);
                uint64_t v = rnd_len_value(s, len);
                x.b->set_bits(p, v, len);
                for (unsigned j = 0; j < len; ++j) x.m.set(p + j, (v >> j) & 1);
                DESC(s, "set_bits(" << p << "," << v << "," << len << ")");
            }
            break;
        }
        case 4:
        case 5: {
            last = "append_bits";
            unsigned c = 1 + unsigned(s.draw(4));
            for (unsigned k = 0; k < c; ++k) {
                unsigned len = unsigned(s.draw(65));
                uint64_t v = rnd_len_value(s, len);
                x.b->append_bits(v, len);
                x.m.push_bits(v, len);
                DESC(s, "append_bits(" << v << "," << len << ")");
            }
            break;
        }
        case 6: {
            last = "zero_extend";
            uint64_t n = std::min(room, gen::size_upto(s, s.draw(8) ? 300 : cap));
            x.b->zero_extend(n);
            x.m.run(false, n);
            DESC(s, "zero_extend(" << n << ")");
            break;
        }
        case 7: {
            last = "one_extend";
            uint64_t n = std::min(room, gen::size_upto(s, s.draw(8) ? 300 : cap));
            x.b->one_extend(n);
            x.m.run(true, n);
            DESC(s, "one_extend(" << n << ")");
            break;
        }
        case 8: {
            last = "append";
            unsigned j = (i + 1 + unsigned(s.draw(2))) % K;
            if (sl[j].m.n > room) break;
            x.b->append(*sl[j].b);
            model_append(x.m, sl[j].m);
            DESC(s, "append(b" << j << ")");
            break;
        }
        case 9:
            last = "reverse";
            x.b->reverse();
            x.m = model_reverse(x.m);
            DESC(s, "reverse");
            break;
        case 10: {
            last = "reserve";
            uint64_t n = s.draw(2) ? x.m.n + s.logu(200000) : s.logu(200000);
            x.b->reserve(n);
            DESC(s, "reserve(" << n << ")");
            break;
        }
        case 11: {
            last = "swap";
            unsigned j = unsigned(s.draw(K));
            x.b->swap(*sl[j].b);
            if (j != i) std::swap(x.m, sl[j].m);
            DESC(s, "swap(b" << j << ")");
            break;
        }
        case 12: {
            last = "construct";
            uint64_t n = gen::size_upto(s, s.draw(4) ? 300 : cap);
            bool init = s.draw(2);
            bit_vector_builder* nb = init || s.draw(2) ? new bit_vector_builder(n, init) : new bit_vector_builder(n);
            delete x.b;
            x.b = nb;
            x.m = Bits();
            x.m.run(init, n);
            DESC(s, "construct(" << n << "," << init << ")");
            break;
        }
        default: {
            last = "finish";
            final_check(x, "history");
            bit_vector_builder* nb = new bit_vector_builder;
            delete x.b;
            x.b = nb;
            x.m = Bits();
            DESC(s, "finish");
        }
        }
        maxsz = std::max(maxsz, x.m.n);
        CK_EQ("builder size", x.m.n, x.b->size(), last);
        if (x.m.n < 2000 || s.draw(8) == 0) peek(x, last);
    }
    for (unsigned i = 0; i < K; ++i) final_check(sl[i], "end of history");
    s.label(sz_label("max ", maxsz));
    s.nontrivial(__builtin_popcount(kinds) >= 3 && maxsz > 64);
}

FACET(builder_history, "a case is a history of builder operations over 3 builders; non-trivial: at least 3 operation kinds and more than one word")
{
    builder_history(s, 6000, 40);
}
FACET(builder_large, "as builder_history with builders up to 300k bits")
{
    builder_history(s, 300000, 14);
}

// ------------------------------------------------------------------- C02
static void reads(Src& s, Bits const& x)
{
    DESC(s, gen::show(x));
    bit_vector bv;
    build(s, x, bv);
    bit_vector const& c = bv;
    CK_EQ("size", x.n, uint64_t(c.size()), gen::show(x));
    uint64_t words = (x.n + 63) / 64;
    CK_EQ("data().size()", words, uint64_t(c.data().size()), gen::show(x));
    for (uint64_t i = 0; i < words; ++i)
        CK_EQ("data() word", x.read(i * 64, 64), uint64_t(c.data()[i]), "word " << i << " of " << gen::show(x));
    Rng r(s.seed());
    bool full = x.n <= 260;
    gen::for_positions(s, x.n, 3000, [&](uint64_t p) {
        CK_EQ("operator[]", x.get(p), bool(c[p]), "pos " << p << " " << gen::show(x));
        CK_EQ("get_word", x.read(p, 64), uint64_t(c.get_word(p)), "pos " << p << " " << gen::show(x));
        unsigned maxlen = unsigned(std::min<uint64_t>(64, x.n - p));
        if (full) {
            for (unsigned len = 0; len <= maxlen; ++len)
                CK_EQ("get_bits", x.read(p, len), uint64_t(c.get_bits(p, len)), "pos " << p << " len " << len << " " << gen::show(x));
        } else {
            unsigned l[4] = {maxlen, unsigned(r.below(maxlen + 1)), unsigned(r.below(maxlen + 1)), unsigned(std::min<uint64_t>(maxlen, 64 - p % 64))};
            for (unsigned len : l)
                CK_EQ("get_bits", x.read(p, len), uint64_t(c.get_bits(p, len)), "pos " << p << " len " << len << " " << gen::show(x));
        }
        if (p / 8 + 8 <= words * 8) {
            const uint64_t m56 = (uint64_t(1) << 56) - 1;
            CK_EQ("get_word56", x.read(p, 64) & m56, uint64_t(c.get_word56(p)) & m56, "pos " << p << " " << gen::show(x));
        }
    });
    CK_EQ("get_bits(size,0)", uint64_t(0), uint64_t(c.get_bits(x.n, 0)), gen::show(x));
    s.label(sz_label("n", x.n));
    s.nontrivial(x.n > 64);
}
FACET(reads, "a case is a bit string with all/sampled (position, length) reads; non-trivial: longer than one word")
{
    reads(s, gen::bits(s, 1500000));
}
FACET(reads_small, "as reads, n <= 300, exhaustive (position, length); non-trivial: longer than one word")
{
    reads(s, gen::bits_of_size(s, s.draw(300)));
}

// ------------------------------------------------------------------- C03
static void predsucc(Src& s, Bits const& x)
{
    DESC(s, gen::show(x));
    bit_vector bv;
    build(s, x, bv);
    Oracle o(x);
    unsigned answered = 0;
    auto at = [&](uint64_t p) {
        uint64_t r1 = o.rank(p + 1), r0 = p + 1 - r1;
        if (r1) { CK_EQ("predecessor1", o.select(r1 - 1), uint64_t(bv.predecessor1(p)), "pos " << p << " " << gen::show(x)); ++answered; }
        if (r0) { CK_EQ("predecessor0", o.select0(r0 - 1), uint64_t(bv.predecessor0(p)), "pos " << p << " " << gen::show(x)); ++answered; }
        r1 = o.rank(p);
        r0 = p - r1;
        if (r1 < o.ones()) { CK_EQ("successor1", o.select(r1), uint64_t(bv.successor1(p)), "pos " << p << " " << gen::show(x)); ++answered; }
        if (r0 < o.zeros()) { CK_EQ("successor0", o.select0(r0), uint64_t(bv.successor0(p)), "pos " << p << " " << gen::show(x)); ++answered; }
    };
    // long uniform gaps make each query linear in the gap: bound the work
    uint64_t budget = x.n <= 20000 ? 4000 : 600;
    gen::for_positions(s, x.n, budget, at);
    s.label(sz_label("n", x.n));
    s.nontrivial(x.n > 64 && answered > 10 && o.ones() && o.zeros());
}
FACET(predsucc, "a case is a bit string with all/sampled positions for the 4 queries; non-trivial: more than one word, both bit values present")
{
    predsucc(s, gen::bits(s, 1500000));
}
FACET(predsucc_small, "as predsucc, n <= 500, exhaustive positions")
{
    predsucc(s, gen::bits_of_size(s, s.draw(500)));
}

// ------------------------------------------------------------------- C04
static void enum_history(Src& s, Bits const& x)
{
    DESC(s, gen::show(x) << " calls:");
    bit_vector bv;
    build_plain(x, bv);
    Oracle o(x);
    uint64_t pos = s.draw(x.n + 1);
    if (s.draw(2)) pos = std::min<uint64_t>(pos % 130, x.n);
    bit_vector::enumerator e;
    e = bit_vector::enumerator(bv, pos);
    bit_vector::enumerator saved = e;
    uint64_t saved_pos = pos;
    unsigned calls = 4 + unsigned(s.draw(60));
    unsigned kinds = 0, done = 0;
    unsigned bias = unsigned(s.draw(4));
    uint64_t start = pos;
    DESC(s, " start " << pos);
    std::ostringstream hist;
    hist << "start " << pos;
    for (unsigned k = 0; k < calls; ++k) {
        unsigned op = unsigned(s.draw(6));
        if (op == 0 && pos < x.n) {
            unsigned c = 1 + unsigned(s.draw(66));
            hist << " next*" << c;
            for (unsigned j = 0; j < c && pos < x.n; ++j, ++pos)
                CK_EQ("next", x.get(pos), e.next(), hist.str() << " at " << pos << " " << gen::show(x));
            kinds |= 1;
            ++done;
        } else if (op == 1 || op == 2) {
            uint64_t l = s.draw(65);
            if (bias == 1) l = 64;
            if (bias == 2) l = l % 2 ? 64 - start % 64 : l;
            l = std::min(l, x.n - pos);
            hist << " take " << l;
            CK_EQ("take", x.read(pos, unsigned(l)), uint64_t(e.take(l)), hist.str() << " at " << pos << " " << gen::show(x));
            pos += l;
            kinds |= 2;
            ++done;
        } else if (op == 3 || op == 4) {
            uint64_t r = o.rank(pos);
            if (r >= o.ones()) continue;
            uint64_t q = o.select(r);
            hist << " skip_zeros";
            CK_EQ("skip_zeros", q - pos, uint64_t(e.skip_zeros()), hist.str() << " at " << pos << " " << gen::show(x));
            pos = q + 1;
            kinds |= 4;
            ++done;
        } else if (op == 5) {
            if (s.draw(2)) {
                saved = e;
                saved_pos = pos;
                hist << " save";
            } else {
                e = saved;
                pos = saved_pos;
                hist << " restore";
            }
        }
        CK_EQ("position", pos, uint64_t(e.position()), hist.str() << " " << gen::show(x));
    }
    DESC(s, hist.str());
    s.label("kinds " + std::to_string(kinds));
    s.nontrivial(x.n > 64 && done >= 4 && __builtin_popcount(kinds) >= 2);
}
FACET(enum_history, "a case is a bit string, a start and a sequence of next/take/skip_zeros/copy calls; non-trivial: >64 bits, >=4 calls of >=2 kinds")
{
    enum_history(s, gen::bits_of_size(s, gen::size_upto(s, s.draw(5) ? 3000 : 40000)));
}

// ------------------------------------------------------------------- C05
static void unary_history(Src& s, Bits const& x)
{
    if (!x.n) throw eng::Discard();
    DESC(s, gen::show(x) << " calls:");
    bit_vector bv;
    build_plain(x, bv);
    Oracle o(x);
    uint64_t pos = s.draw(x.n);
    if (s.draw(2)) pos %= 130;
    if (pos >= x.n) pos = 0;
    bit_vector::unary_enumerator dflt;
    CK_EQ("default position", uint64_t(0), uint64_t(dflt.position()), "");
    bit_vector::unary_enumerator e(bv, pos), saved = e;
    bool consumed = false, saved_consumed = false; // the one at pos was returned by next()
    uint64_t saved_pos = pos;
    unsigned calls = 4 + unsigned(s.draw(80));
    unsigned kinds = 0, done = 0;
    std::ostringstream hist;
    hist << "start " << pos;
    for (unsigned k = 0; k < calls; ++k) {
        CK_EQ("position", pos, uint64_t(e.position()), hist.str() << " " << gen::show(x));
        unsigned op = unsigned(s.draw(6));
        uint64_t before1 = o.rank(pos) + (consumed ? 1 : 0); // ones no longer available
        uint64_t avail1 = o.ones() - before1;
        // zeros-like available positions: zeros at >= pos, plus pos itself if consumed
        uint64_t avail0 = o.zeros() - o.rank0(pos) + (consumed ? 1 : 0);
        if (op == 0 || op == 1) {
            unsigned c = 1 + unsigned(s.draw(op ? 70 : 2));
            hist << " next*" << c;
            for (unsigned j = 0; j < c && avail1; ++j) {
                uint64_t q = o.select(before1);
                CK_EQ("next", q, uint64_t(e.next()), hist.str() << " " << gen::show(x));
                pos = q;
                consumed = true;
                ++before1;
                --avail1;
                kinds |= 1;
            }
            ++done;
        } else if ((op == 2 || op == 3) && avail1) {
            uint64_t kk = s.logu(avail1 - 1);
            if (!s.draw(8)) kk = s.draw(avail1);
            uint64_t q = o.select(before1 + kk);
            if (op == 2) {
                hist << " skip " << kk;
                e.skip(kk);
                pos = q;
                // a one skipped to is not consumed
                consumed = false;
                kinds |= 2;
            } else {
                hist << " skip_no_move " << kk;
                CK_EQ("skip_no_move", q, uint64_t(e.skip_no_move(kk)), hist.str() << " " << gen::show(x));
                kinds |= 4;
            }
            ++done;
        } else if (op == 4 && avail0) {
            uint64_t kk = s.logu(avail0 - 1);
            if (!s.draw(8)) kk = s.draw(avail0);
            hist << " skip0 " << kk;
            uint64_t q;
            if (consumed && kk == 0)
                q = pos;
            else
                q = o.select0(o.rank0(pos) + kk - (consumed ? 1 : 0));
            e.skip0(kk);
            if (q != pos) consumed = false;
            pos = q;
            kinds |= 8;
            ++done;
        } else if (op == 5) {
            if (s.draw(2)) {
                saved = e;
                saved_pos = pos;
                saved_consumed = consumed;
                hist << " save";
            } else {
                e = saved;
                pos = saved_pos;
                consumed = saved_consumed;
                hist << " restore";
            }
        }
    }
    CK_EQ("position", pos, uint64_t(e.position()), hist.str() << " " << gen::show(x));
    DESC(s, hist.str());
    s.label("kinds " + std::to_string(kinds));
    s.nontrivial(x.n > 64 && done >= 4 && __builtin_popcount(kinds) >= 2);
}
FACET(unary_history, "a case is a bit string, a start and a sequence of next/skip/skip_no_move/skip0/copy calls; non-trivial: >64 bits, >=4 calls of >=2 kinds")
{
    unary_history(s, gen::bits_of_size(s, gen::size_upto(s, s.draw(5) ? 3000 : 40000)));
}
