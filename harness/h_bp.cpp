// C15 find_close/find_open/enclose, C16 excess and excess_rmq.
#include "bpgen.hpp"
#include "bp_vector.hpp"

using namespace succinct;
using namespace hx;

static void build_bp(Src& s, Bits const& b, bp_vector& v)
{
    unsigned h = unsigned(s.draw(4));
    if (b.n < 3000 && s.draw(4) == 1) {
        Rng g(s.seed());
        kinds::bits_range(b, g, [&](auto const& range) { bp_vector(range, h & 1, (h >> 1) & 1).swap(v); });
        return;
    }
    bit_vector_builder bb;
    fill(bb, b);
    if (h == 0)
        bp_vector(&bb).swap(v);
    else
        bp_vector(&bb, h & 1, (h >> 1) & 1).swap(v);
}

static void nav_at(Bits const& b, BpRef const& r, bp_vector const& v, uint64_t p)
{
    if (b.get(p)) {
        CK_EQ("find_close", uint64_t(r.match[p]), uint64_t(v.find_close(p)), "pos " << p << " " << gen::show(b));
        if (r.parent[p] != BpRef::NONE)
            CK_EQ("enclose", uint64_t(r.parent[p]), uint64_t(v.enclose(p)), "pos " << p << " " << gen::show(b));
    } else {
        CK_EQ("find_open", uint64_t(r.match[p]), uint64_t(v.find_open(p)), "pos " << p << " " << gen::show(b));
    }
}

static void nav_case(Src& s, Bits const& b, uint64_t budget)
{
    DESC(s, gen::show(b));
    bp_vector v;
    build_bp(s, b, v);
    CK_EQ("size", b.n, uint64_t(v.size()), "");
    BpRef r(b);
    gen::for_positions(s, b.n, budget, [&](uint64_t p) {
        nav_at(b, r, v, p);
        // the partner and the parent are interesting positions too
        if (b.n > budget) nav_at(b, r, v, r.match[p]);
    });
    int32_t maxd = *std::max_element(r.exc.begin(), r.exc.end());
    s.label(sz_label("n", b.n));
    s.label(maxd < 64 ? "depth<64" : maxd < 256 ? "depth<256" : maxd < 8192 ? "depth<8192" : maxd < 32768 ? "depth<2^15" : "depth>=2^15");
    s.nontrivial(b.n > 64 && maxd > 1);
}

FACET(bp_nav, "a case is a balanced sequence queried at all/sampled positions; non-trivial: > 64 bits, depth > 1")
{
    nav_case(s, balanced(s, gen::size_upto(s, gen::size_class(s, 3000000 * uint64_t(s.scale), 30, 35, 28, 6, 1))), 6000);
}
FACET(bp_nav_mid, "as bp_nav, up to 20000 bits, exhaustive positions")
{
    nav_case(s, balanced(s, gen::size_upto(s, 20000)), 20000);
}

// One pair whose two ends are placed at chosen distances from block, superblock
// and tree-node boundaries, with filler around it.
FACET(bp_far_pair, "a case is a few nested far pairs placed at chosen offsets around 64/256/8192-bit boundaries, filler between; non-trivial: span over one superblock")
{
    static const uint64_t unit[] = {64, 256, 8192, 16384, 32768, 65536, 131072};
    uint64_t K = 1 + s.draw(4); // nested pairs
    Bits b;
    auto filler = [&](uint64_t upto) {
        if (b.n >= upto) return;
        uint64_t len = upto - b.n;
        unsigned k = unsigned(s.draw(4));
        if (k == 0) { // comb
            for (uint64_t i = 0; i + 2 <= len; i += 2) { b.push(true); b.push(false); }
        } else if (k == 1) { // one mountain
            b.run(true, len / 2);
            b.run(false, len / 2);
        } else if (k == 2) { // mountains of fixed height
            uint64_t d = 1 + s.draw(300);
            for (uint64_t i = 0; i + 2 * d <= len; i += 2 * d) { b.run(true, d); b.run(false, d); }
        } else {
            Bits f = balanced(s, len & ~uint64_t(1));
            for (uint64_t i = 0; i < f.n; ++i) b.push(f.get(i));
        }
    };
    auto target = [&](uint64_t from) {
        uint64_t u = unit[s.draw(7)];
        uint64_t t = (from / u + 1 + s.draw(3)) * u;
        t += s.draw(5);
        return t >= 2 ? t - 2 : t;
    };
    for (uint64_t k = 0; k < K; ++k) {
        filler(target(b.n));
        b.push(true);
    }
    for (uint64_t k = 0; k < K; ++k) {
        filler(target(b.n));
        b.push(false);
    }
    if (s.draw(2)) filler(target(b.n));
    nav_case(s, b, 3000);
    s.nontrivial(b.n > 8192);
}

// ------------------------------------------------------------------- C16
static void rmq_case(Src& s, Bits const& b, uint64_t budget)
{
    DESC(s, gen::show(b));
    bp_vector v;
    build_bp(s, b, v);
    BpRef r(b);
    gen::for_positions(s, b.n + 1, 2000, [&](uint64_t p) {
        CK_EQ("excess", int64_t(r.exc[p]), int64_t(v.excess(p)), "pos " << p << " " << gen::show(b));
    });
    auto rmq = gen::make_rmq([&](uint64_t i) { return r.exc[i]; }, std::less<int32_t>(), b.n + 1);
    auto query = [&](uint64_t x, uint64_t y) {
        if (x > y) std::swap(x, y);
        uint64_t e = rmq.query(x, y);
        bp_vector::excess_t m = 12345;
        uint64_t g = v.excess_rmq(x, y, m);
        CK_EQ("excess_rmq position", e, g, "[" << x << "," << y << "] " << gen::show(b));
        CK_EQ("excess_rmq minimum", int64_t(r.exc[e]), int64_t(m), "[" << x << "," << y << "] " << gen::show(b));
    };
    if (b.n <= 140) {
        for (uint64_t x = 0; x <= b.n; ++x)
            for (uint64_t y = x; y <= b.n; ++y) {
                query(x, y);
                CK_EQ("excess_rmq (no minimum)", rmq.query(x, y), uint64_t(v.excess_rmq(x, y)), "[" << x << "," << y << "] " << gen::show(b));
            }
    } else {
        Rng q(s.seed());
        static const uint64_t unit[] = {1, 8, 64, 256, 8192, 16384, 32768};
        auto pt = [&](uint64_t base) {
            uint64_t u = unit[q.below(7)];
            uint64_t p = base / u * u;
            uint64_t d = q.below(5);
            p = p + d >= 2 ? p + d - 2 : p;
            return std::min(p, b.n);
        };
        for (uint64_t i = 0; i < budget; ++i) {
            uint64_t x = pt(q.below(b.n + 1)), y;
            switch (q.below(4)) {
            case 0: y = pt(q.below(b.n + 1)); break;
            case 1: y = std::min(b.n, x + q.below(600)); break;
            case 2: y = pt(std::min(b.n, x + q.below(40000))); break;
            default: y = x && q.below(2) ? pt(q.below(x)) : b.n;
            }
            query(x, y);
        }
    }
    int32_t maxd = *std::max_element(r.exc.begin(), r.exc.end());
    s.label(sz_label("n", b.n));
    s.nontrivial(b.n > 64 && maxd > 1);
}
FACET(bp_rmq, "a case is a balanced sequence with all (n<=140) or sampled ranges, aligned near word/block/superblock borders; non-trivial: > 64 bits, depth > 1")
{
    rmq_case(s, balanced(s, gen::size_upto(s, gen::size_class(s, 3000000 * uint64_t(s.scale), 30, 30, 25, 13, 2))), 3000);
}
FACET(bp_rmq_super, "as bp_rmq with 20k..600k bits (3..70 superblocks)")
{
    rmq_case(s, balanced(s, gen::size_between(s, 20000, s.draw(2) ? 600000 : 80000)), 4000);
}

// ------------------------------------------------------ beyond 2^31 / 2^32 bits
// Levels k = 1..K: open run d_k, comb c_k pairs; then for k = K..1: comb e_k
// pairs, close run d_k.  Matching, enclosing and range minima are known in
// closed form.
FACET(huge_bp, "a case is a nested structure of long open/close runs and combs totalling over 2^31 or 2^32 bits with matches known in closed form; always non-trivial")
{
    struct S { unsigned kind; unsigned level; uint64_t start, len; int64_t exc; }; // 0 open 1 close 2 comb
    uint64_t goal = s.draw(2) ? (uint64_t(1) << 32) : (uint64_t(1) << 31);
    goal += s.draw(1000000);
    unsigned K = 2 + unsigned(s.draw(3));
    std::vector<uint64_t> d(K), c(K), e(K);
    // depth total at most 2^30
    for (unsigned k = 0; k < K; ++k) {
        d[k] = 1 + (s.draw(2) ? s.draw((uint64_t(1) << 30) / K) : s.draw(70000));
        c[k] = s.draw(300000);
        e[k] = s.draw(300000);
    }
    uint64_t tot = 0;
    for (unsigned k = 0; k < K; ++k) tot += 2 * (d[k] + c[k] + e[k]);
    if (tot < goal) (s.draw(2) ? c : e)[s.draw(K)] += (goal - tot) / 2 + 1 + s.draw(5000);
    std::vector<S> seg;
    uint64_t n = 0;
    int64_t ex = 0;
    std::vector<size_t> opens(K), closes(K);
    for (unsigned k = 0; k < K; ++k) {
        opens[k] = seg.size();
        seg.push_back(S{0, k, n, d[k], ex});
        n += d[k];
        ex += int64_t(d[k]);
        if (c[k]) seg.push_back(S{2, k, n, 2 * c[k], ex});
        n += 2 * c[k];
    }
    for (unsigned k = K; k-- > 0;) {
        if (e[k]) seg.push_back(S{2, k, n, 2 * e[k], ex});
        n += 2 * e[k];
        closes[k] = seg.size();
        seg.push_back(S{1, k, n, d[k], ex});
        n += d[k];
        ex -= int64_t(d[k]);
    }
    DESC(s, "n=" << n << " levels=" << K);
    bp_vector v;
    {
        bit_vector_builder b;
        b.reserve(n);
        for (S const& g : seg) {
            if (g.kind == 0) b.one_extend(g.len);
            else if (g.kind == 1) b.zero_extend(g.len);
            else {
                uint64_t l = g.len;
                for (; l >= 64; l -= 64) b.append_bits(0x5555555555555555ull, 64);
                for (; l; l -= 2) b.append_bits(1, 2);
            }
        }
        CK_EQ("builder size", n, b.size(), "");
        bp_vector(&b).swap(v);
    }
    auto at = [&](uint64_t p) -> S const& {
        size_t lo = 0, hi = seg.size();
        while (lo + 1 < hi) { size_t m = (lo + hi) / 2; if (seg[m].start <= p) lo = m; else hi = m; }
        return seg[lo];
    };
    auto excess = [&](uint64_t p) -> int64_t {
        if (p == n) return 0;
        S const& g = at(p);
        uint64_t o = p - g.start;
        return g.kind == 0 ? g.exc + int64_t(o) : g.kind == 1 ? g.exc - int64_t(o) : g.exc + int64_t(o % 2);
    };
    Rng r(s.seed());
    auto point = [&]() -> uint64_t {
        uint64_t p;
        switch (r.below(5)) {
        case 0: p = r.below(n); break;
        case 1: { S const& g = seg[r.below(seg.size())]; p = g.start + r.below(600) - 300; break; }
        case 2: { S const& g = seg[r.below(seg.size())]; p = g.start + r.below(g.len); break; }
        case 3: p = (uint64_t(1) << 31) + r.below(20000) - 10000; break;
        default: p = (uint64_t(1) << 32) + r.below(20000) - 10000;
        }
        return p < n ? p : r.below(n);
    };
    for (unsigned q = 0; q < 20000; ++q) {
        uint64_t p = point();
        S const& g = at(p);
        uint64_t o = p - g.start;
        if (g.kind == 0) {
            S const& cl = seg[closes[g.level]];
            CK_EQ("find_close", cl.start + cl.len - 1 - o, uint64_t(v.find_close(p)), "pos " << p << " n " << n);
            if (p) {
                S const* pl = g.level ? &seg[opens[g.level - 1]] : 0;
                if (o || pl) CK_EQ("enclose", o ? p - 1 : pl->start + pl->len - 1, uint64_t(v.enclose(p)), "pos " << p << " n " << n);
            }
        } else if (g.kind == 1) {
            S const& op = seg[opens[g.level]];
            CK_EQ("find_open", op.start + op.len - 1 - o, uint64_t(v.find_open(p)), "pos " << p << " n " << n);
        } else if (o % 2 == 0) {
            CK_EQ("find_close", p + 1, uint64_t(v.find_close(p)), "pos " << p << " n " << n);
            S const& op = seg[opens[g.level]];
            CK_EQ("enclose", op.start + op.len - 1, uint64_t(v.enclose(p)), "pos " << p << " n " << n);
        } else {
            CK_EQ("find_open", p - 1, uint64_t(v.find_open(p)), "pos " << p << " n " << n);
        }
        CK_EQ("excess", excess(p), int64_t(v.excess(p)), "pos " << p << " n " << n);
        uint64_t a = p, b = point();
        if (r.below(3) == 0) b = std::min(n, a + r.below(100000));
        if (a > b) std::swap(a, b);
        uint64_t best = a;
        int64_t be = excess(a);
        auto cand = [&](uint64_t x) {
            if (x < a || x > b) return;
            int64_t y = excess(x);
            if (y < be || (y == be && x < best)) { be = y; best = x; }
        };
        cand(a + 1);
        for (S const& t : seg) cand(t.start);
        cand(n);
        cand(b);
        // inside a falling run ending the range, or a comb entered at an odd offset: covered by b / a + 1
        bp_vector::excess_t m;
        uint64_t got = v.excess_rmq(a, b, m);
        CK_EQ("excess_rmq", best, got, "[" << a << "," << b << "] n " << n);
        CK_EQ("excess_rmq minimum", be, int64_t(m), "[" << a << "," << b << "] n " << n);
    }
    s.nontrivial(true);
}
