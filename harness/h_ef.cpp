// C09 elias_fano, C10 its enumerator, C11 elias_fano_list, C12 elias_fano_compressed_list.
#include "lists.hpp"
#include "elias_fano.hpp"
#include "elias_fano_list.hpp"
#include "elias_fano_compressed_list.hpp"

using namespace succinct;
using namespace hx;

namespace {
struct Mono {
    std::vector<uint64_t> v; // non-decreasing
    uint64_t n;              // universe, all v <= n
    uint64_t declared = 0;   // values announced to the builder, at least v.size()
};

uint64_t below_or_eq(Rng& r, uint64_t max) { return max == UINT64_MAX ? r.next() : r.below(max + 1); }

Mono mono(Src& s, uint64_t max_m)
{
    Mono x;
    uint64_t m = gen::size_upto(s, max_m);
    uint64_t U;
    unsigned uk = unsigned(s.draw(6));
    if (uk == 0) U = s.logu(UINT64_MAX);
    else if (uk == 1) U = s.draw(4 * m + 2); // dense
    else if (uk == 2) { // ratio exactly around a power of two
        unsigned k = unsigned(s.draw(40));
        U = (m ? m : 1) << k;
        U += s.draw(5);
        U = U >= 2 ? U - 2 : 0;
    } else if (uk == 3) U = UINT64_MAX - s.draw(4);
    else if (uk == 4) U = m * (1 + s.draw(70)) + s.draw(64);
    else U = (uint64_t(1) << s.draw(64)) - s.draw(2);
    unsigned kind = unsigned(s.draw(7));
    Rng r(s.seed());
    uint64_t a = U == UINT64_MAX ? s.draw(0) : s.draw(U + 1);
    x.v.reserve(m);
    switch (kind) {
    case 0: for (uint64_t i = 0; i < m; ++i) x.v.push_back(below_or_eq(r, U)); break;
    case 1: for (uint64_t i = 0; i < m; ++i) x.v.push_back(a); break; // one duplicated value
    case 2: { // clusters
        uint64_t width = 1 + s.logu(U);
        uint64_t c = below_or_eq(r, U);
        for (uint64_t i = 0; i < m; ++i) {
            if (r.below(50) == 0) c = below_or_eq(r, U);
            uint64_t d = r.below(width);
            x.v.push_back(c > U - std::min(U, d) ? U : c + d);
        }
        break;
    }
    case 3: { // arithmetic progression
        uint64_t step = m ? U / m : 0;
        for (uint64_t i = 0; i < m; ++i) x.v.push_back(i * step);
        break;
    }
    case 4: { // dense prefix, sparse tail
        for (uint64_t i = 0; i < m; ++i) x.v.push_back(r.below(4) ? std::min<uint64_t>(U, r.below(m + 1)) : below_or_eq(r, U));
        break;
    }
    case 5: for (uint64_t i = 0; i < m; ++i) x.v.push_back(r.below(2) ? 0 : U); break; // the two ends
    default: { // strictly increasing when it fits
        uint64_t cur = 0;
        uint64_t step = m ? std::max<uint64_t>(1, U / m) : 1;
        for (uint64_t i = 0; i < m; ++i) {
            x.v.push_back(std::min(cur, U));
            uint64_t d = 1 + r.below(step);
            cur = cur > UINT64_MAX - d ? UINT64_MAX : cur + d;
        }
    }
    }
    std::sort(x.v.begin(), x.v.end());
    unsigned ext = unsigned(s.draw(4));
    uint64_t mx = x.v.empty() ? 0 : x.v.back();
    x.n = ext == 0 ? std::max(U, mx) : ext == 1 ? mx : ext == 2 ? (mx == UINT64_MAX ? mx : mx + 1) : std::max(U, mx);
    x.declared = m;
    if (s.chance(1, 8)) x.declared += 1 + s.logu(3 * m + 200);
    return x;
}

std::string show(Mono const& x) { return "universe " + std::to_string(x.n) + (x.declared > x.v.size() ? " announced " + std::to_string(x.declared) : "") + " " + gen::show_vec(x.v); }

void build_ef(Mono const& x, bool with_rank, elias_fano& out)
{
    elias_fano::elias_fano_builder b(x.n, std::max<uint64_t>(x.declared, x.v.size()));
    for (uint64_t i = 0; i < x.v.size(); ++i) b.push_back(x.v[i]);
    // the rank index is built unless it is declined
    if (with_rank && x.v.size() % 2) elias_fano(&b).swap(out);
    else elias_fano(&b, with_rank).swap(out);
}

void check_ef(Src& s, Mono const& x, elias_fano const& ef, bool with_rank, uint64_t budget)
{
    uint64_t m = x.v.size();
    CK_EQ("size", x.n, uint64_t(ef.size()), show(x));
    CK_EQ("num_ones", m, uint64_t(ef.num_ones()), show(x));
    gen::for_positions(s, m, budget, [&](uint64_t k) {
        CK_EQ("select", x.v[k], uint64_t(ef.select(k)), "k " << k << " " << show(x));
        CK_EQ("delta", k ? x.v[k] - x.v[k - 1] : x.v[0], uint64_t(ef.delta(k)), "k " << k << " " << show(x));
        if (k + 1 < m) {
            std::pair<uint64_t, uint64_t> p = ef.select_range(k);
            CK_EQ("select_range.first", x.v[k], p.first, "k " << k << " " << show(x));
            CK_EQ("select_range.second", x.v[k + 1], p.second, "k " << k << " " << show(x));
        }
    });
    if (!with_rank) return;
    bool top = m && x.v.back() == x.n; // a value equal to the universe
    Rng r(s.seed());
    uint64_t work = 0;
    unsigned gap_bits = m && x.n / m ? 63 - unsigned(__builtin_clzll(x.n / m)) : 0;
    auto query = [&](uint64_t p) {
        if (p >= x.n || work > 20 * budget) return;
        uint64_t lo = uint64_t(std::lower_bound(x.v.begin(), x.v.end(), p) - x.v.begin());
        uint64_t hi = uint64_t(std::upper_bound(x.v.begin() + ptrdiff_t(lo), x.v.end(), p) - x.v.begin());
        // ranking scans back over the values sharing the high part: bound the work
        uint64_t be = gap_bits < 63 && (p >> gap_bits) + 1 < (UINT64_MAX >> gap_bits)
                          ? uint64_t(std::lower_bound(x.v.begin() + ptrdiff_t(lo), x.v.end(), ((p >> gap_bits) + 1) << gap_bits) - x.v.begin())
                          : m;
        work += 1 + (be - lo) / 16;
        CK_EQ("rank", lo, uint64_t(ef.rank(p)), "pos " << p << " " << show(x));
        CK_EQ("operator[]", hi > lo, bool(ef[p]), "pos " << p << " " << show(x));
        if (lo < m) CK_EQ("successor1", x.v[lo], uint64_t(ef.successor1(p)), "pos " << p << " " << show(x));
        if (hi && !(top && p + 1 == x.n)) CK_EQ("predecessor1", x.v[hi - 1], uint64_t(ef.predecessor1(p)), "pos " << p << " " << show(x));
    };
    if (!top) CK_EQ("rank(size)", m, uint64_t(ef.rank(x.n)), show(x));
    if (x.n <= 2000) {
        for (uint64_t p = 0; p < x.n; ++p) query(p);
    } else {
        query(0);
        query(1);
        query(x.n - 1);
        query(x.n - 2);
        query(x.n / 2);
        for (uint64_t q = 0; q < budget && work < 20 * budget; ++q) {
            if (m && q % 3 != 0) {
                uint64_t v = x.v[r.below(m)];
                query(v);
                if (v) query(v - 1);
                query(v + 1 > v ? v + 1 : v);
                uint64_t w = x.v[r.below(m)];
                query(v / 2 + w / 2);
            } else
                query(r.below(x.n));
        }
    }
}

void ef_case(Src& s, Mono const& x, uint64_t budget)
{
    DESC(s, show(x));
    bool with_rank = s.draw(8) != 7;
    elias_fano ef;
    build_ef(x, with_rank, ef);
    check_ef(s, x, ef, with_rank, budget);
    double ratio = x.v.empty() ? 0 : double(x.n) / double(x.v.size());
    s.label(ratio < 1 ? "universe<m" : ratio < 2 ? "ratio<2" : ratio < 256 ? "ratio<256" : ratio < 4294967296.0 ? "ratio<2^32" : "ratio>=2^32");
    s.label(hx::sz_label("m", x.v.size()));
    s.nontrivial(x.v.size() >= 3 && x.v.front() != x.v.back());
}
} // namespace

FACET(ef_mono, "a case is a universe and a non-decreasing sequence; non-trivial: >= 3 values not all equal")
{
    ef_case(s, mono(s, s.draw(6) ? 300 : 5000), 400);
}
FACET(ef_large, "as ef_mono, up to 150k values")
{
    ef_case(s, mono(s, 150000), 1500);
}
FACET(ef_bits, "a case is a bit string given through a builder; non-trivial: >= 3 ones")
{
    Bits b = gen::bits(s, 1000000);
    Mono x;
    x.n = b.n;
    for (uint64_t i = 0; i < b.n; ++i)
        if (b.get(i)) x.v.push_back(i);
    DESC(s, gen::show(b));
    bool with_rank = s.draw(8) != 7;
    bit_vector_builder bvb;
    fill(bvb, b);
    if (with_rank && s.draw(2)) {
        elias_fano ef(&bvb);
        check_ef(s, x, ef, true, 1000);
    } else {
        elias_fano ef(&bvb, with_rank);
        check_ef(s, x, ef, with_rank, 1000);
    }
    s.nontrivial(x.v.size() >= 3);
}

// ------------------------------------------------------------------- C10
static void ef_enum_case(Src& s, Mono const& x)
{
    DESC(s, show(x) << " starts:");
    elias_fano ef;
    build_ef(x, s.draw(2), ef);
    uint64_t m = x.v.size();
    if (!m) {
        elias_fano::select_enumerator e(ef, 0);
        (void)e;
        return;
    }
    unsigned starts = 1 + unsigned(s.draw(6));
    if (m <= 140) starts = unsigned(m);
    for (unsigned k = 0; k < starts; ++k) {
        uint64_t st = m <= 140 ? k : s.draw(m);
        DESC(s, " " << st);
        uint64_t run = std::min<uint64_t>(m - st, s.draw(5) ? 400 : 100000);
        elias_fano::select_enumerator e(ef, st);
        uint64_t fork_at = s.draw(130);
        for (uint64_t i = 0; i < run; ++i) {
            CK_EQ("next", x.v[st + i], uint64_t(e.next()), "start " << st << " index " << st + i << " " << show(x));
            if (i == fork_at) {
                elias_fano::select_enumerator c(e);
                for (uint64_t j = i + 1; j < run && j < i + 80; ++j)
                    CK_EQ("copy next", x.v[st + j], uint64_t(c.next()), "start " << st << " index " << st + j << " " << show(x));
            }
        }
    }
    s.label(hx::sz_label("m", m));
    s.nontrivial(m >= 3 && x.v.front() != x.v.back());
}
FACET(ef_enum, "a case is a non-decreasing sequence enumerated from all (small) or several start indices; non-trivial: >= 3 values not all equal")
{
    ef_enum_case(s, mono(s, s.draw(4) ? 200 : 6000));
}
FACET(ef_enum_large, "as ef_enum, up to 60k values")
{
    ef_enum_case(s, mono(s, 60000));
}

// ------------------------------------------------------------------- C11
FACET(ef_list, "a case is a sequence of unsigned integers with sum < 2^64-1, of some element type; non-trivial: >= 3 values with a non-zero one")
{
    Elem e = pick_elem(s);
    uint64_t n = list_len(s, 300000);
    std::vector<uint64_t> v = gen::values(s, n, elem_max(e));
    uint64_t sum = 0;
    bool nz = false;
    uint64_t cap = s.draw(3) ? UINT64_MAX - 1 : s.logu(UINT64_MAX - 1); // sum < cap
    for (uint64_t i = 0; i < n; ++i) {
        uint64_t left = cap > sum ? cap - sum - (cap == UINT64_MAX - 1 ? 0 : 0) : 0;
        if (v[i] > left) v[i] = left;
        sum += v[i];
        nz = nz || v[i];
    }
    DESC(s, elem_name(e) << " " << gen::show_vec(v));
    elias_fano_list l;
    build_list(s, v, e, l);
    check_random_access(s, v, l, 4000);
    CK_EQ("sum", sum, uint64_t(l.sum()), gen::show_vec(v));
    check_forward(s, v, l);
    s.label(hx::sz_label("n", n));
    s.label(elem_name(e));
    s.nontrivial(n >= 3 && nz);
}

// ------------------------------------------------------------------- C12
FACET(ef_compressed_list, "a case is a sequence of unsigned integers < 2^64-1 of some element type; non-trivial: >= 3 values, not all equal")
{
    Elem e = pick_elem(s);
    uint64_t n = list_len(s, 300000);
    std::vector<uint64_t> v = gen::values(s, n, std::min<uint64_t>(elem_max(e), UINT64_MAX - 1));
    DESC(s, elem_name(e) << " " << gen::show_vec(v));
    elias_fano_compressed_list l;
    build_list(s, v, e, l);
    check_random_access(s, v, l, 4000);
    check_forward(s, v, l);
    s.label(hx::sz_label("n", n));
    s.label(elem_name(e));
    s.nontrivial(n >= 3 && *std::min_element(v.begin(), v.end()) != *std::max_element(v.begin(), v.end()));
}
