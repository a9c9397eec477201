// C30: space bounds
#include <math.h>
#include "kinds.hpp"

using namespace succinct;
using namespace succinct::kinds;
using eng::Src;

namespace {
uint64_t flog2(uint64_t x) // floor(log2(x)), x > 0
{
    uint64_t r = 0;
    while (x >>= 1) ++r;
    return r;
}
template <typename T>
void bound(Src& s, const char* what, T& o, double bits, std::string const& ctx)
{
    double got = 8.0 * double(mapper::size_of(o));
    if (!(got <= bits)) {
        std::ostringstream os;
        os << what << ": " << got << " bits, bound " << bits << "  [" << ctx << "]";
        eng::fail(os.str());
    }
    char b[96];
    snprintf(b, sizeof(b), "%s at <=%u%% of the bound", what, unsigned(got / bits * 10 + 1) * 10);
    s.label(b);
}
uint64_t pick_n(Src& s, uint64_t big)
{
    switch (s.draw(4)) {
    case 0: return gen::size_upto(s, 300);
    case 1: return gen::size_upto(s, 5000);
    default: return gen::size_upto(s, s.draw(3) ? big / 10 : big);
    }
}
void fill(gen::Bits const& x, bit_vector_builder& b)
{
    for (uint64_t i = 0; i < x.n; i += 64) {
        unsigned len = unsigned(std::min<uint64_t>(64, x.n - i));
        b.append_bits(x.read(i, len), len);
    }
}
double ef_bound(double m, double universe)
{
    if (m == 0) return 2500;
    uint64_t q = uint64_t(universe / m);
    double l = q ? double(flog2(q)) : 0;
    return m * (l + 8.5) + 2500;
}
} // namespace

FACET(space_bits, "a case is a bit vector (runs, densities, sparse spans, blocks) stored as bit_vector, rs_bit_vector with every hint setting and darray1/darray0, measured with size_of; non-trivial with at least 1000 bits")
{
    gen::Bits x = gen::bits_of_size(s, pick_n(s, 1000000));
    if (s.draw(3) == 0 && x.n) { // adversarial for darray: blocks just over the sparse span
        uint64_t gap = 60 + s.draw(8);
        gen::Bits y;
        y.run(false, x.n);
        for (uint64_t i = 0; i < x.n; i += gap) y.set(i, true);
        x = y;
    }
    std::string ctx = gen::show(x, 60);
    DESC(s, ctx);
    s.nontrivial(x.n >= 1000);
    double n = double(x.n);
    gen::Oracle ref(x);
    {
        bit_vector_builder c;
        fill(x, c);
        bit_vector v(&c);
        bound(s, "bit_vector", v, n + 300, ctx);
        darray1 d1(v);
        darray0 d0(v);
        bound(s, "darray1", d1, n + 0.6 * double(ref.ones()) + 2500, ctx);
        bound(s, "darray0", d0, n + 0.6 * double(ref.zeros()) + 2500, ctx);
    }
    for (unsigned h = 0; h < 4; ++h) {
        bit_vector_builder c;
        fill(x, c);
        rs_bit_vector v(&c, h & 1, h & 2);
        bound(s, h == 0 ? "rs_bit_vector" : h == 3 ? "rs_bit_vector with both hints" : "rs_bit_vector with one hint", v,
              h == 0 ? 1.25 * n + 2000 : 1.32 * n + 2500, ctx);
    }
    bit_vector_builder c;
    fill(x, c);
    rs_bit_vector v(&c); // hints are only built on demand
    bound(s, "rs_bit_vector built by default", v, 1.25 * n + 2000, ctx);
}

FACET(space_bp, "a case is a balanced sequence stored as bp_vector, and an array stored as cartesian_tree, measured with size_of; non-trivial with at least 1000 elements")
{
    gen::Bits x = hx::balanced(s, pick_n(s, 500000));
    std::string ctx = gen::show(x, 60);
    DESC(s, ctx);
    s.nontrivial(x.n >= 1000);
    for (unsigned h = 0; h < 4; ++h) {
        bit_vector_builder c;
        fill(x, c);
        bp_vector v(&c, h & 1, h & 2);
        bound(s, h ? "bp_vector with hints" : "bp_vector", v, (h ? 1.39 : 1.33) * double(x.n) + (h ? 3500 : 3000), ctx);
    }
    {
        bit_vector_builder c;
        fill(x, c);
        bp_vector v(&c);
        bound(s, "bp_vector built by default", v, 1.33 * double(x.n) + 3000, ctx);
    }
    std::vector<uint64_t> vals = gen::values(s, pick_n(s, 100000), s.draw(2) ? 1000 : UINT64_MAX);
    cartesian_tree t(vals);
    bound(s, "cartesian_tree", t, 2.75 * double(vals.size()) + 4000, gen::show_vec(vals, 10));
}

FACET(space_ef, "a case is a monotone sequence (any universe, clustered or spread, duplicates) stored as elias_fano, or a list stored as elias_fano_list / elias_fano_compressed_list, measured with size_of; non-trivial with at least 500 values")
{
    uint64_t m = pick_n(s, 200000);
    if (s.draw(2)) {
        uint64_t u = s.draw(2) ? (m + 1) * (1 + s.draw(300)) : s.logu(UINT64_MAX - 1);
        uint64_t win = s.draw(2) ? u : s.logu(u); // values clustered in a window
        uint64_t step = s.draw(3);
        eng::Rng r(s.seed());
        std::vector<uint64_t> v;
        uint64_t lo = s.draw(2) ? u - win : 0;
        for (uint64_t i = 0; i < m; ++i) {
            if (step == 2 && m) v.push_back(lo + uint64_t((unsigned __int128)win * i / m));
            else v.push_back(lo + (win == UINT64_MAX ? r.next() : r.below(win + 1)));
        }
        std::sort(v.begin(), v.end());
        std::ostringstream c;
        c << "elias_fano universe " << u << " values " << gen::show_vec(v, 10);
        DESC(s, c.str());
        s.nontrivial(m >= 500);
        for (int rank = 0; rank < 2; ++rank) {
            elias_fano::elias_fano_builder b(u, m);
            for (uint64_t x : v) b.push_back(x);
            elias_fano e(&b, rank);
            bound(s, rank ? "elias_fano with rank" : "elias_fano", e, ef_bound(double(m), double(u)), c.str());
        }
    } else {
        std::vector<uint64_t> v = gen::values(s, m, s.draw(2) ? 300 : 0xffffffffu);
        DESC(s, "lists of " << gen::show_vec(v, 10));
        s.nontrivial(v.size() >= 500);
        double sum = 0, len = 0;
        for (uint64_t x : v) {
            sum += double(x);
            len += double(flog2(x + 1));
        }
        elias_fano_list l(v);
        bound(s, "elias_fano_list", l, ef_bound(double(v.size()), sum) + 200, gen::show_vec(v, 10));
        elias_fano_compressed_list cl(v);
        bound(s, "elias_fano_compressed_list", cl, len + ef_bound(double(v.size()) + 1, len) + 600, gen::show_vec(v, 10));
    }
}

FACET(space_gamma, "a case is an integer list stored as gamma_vector, gamma_bit_vector and (reduced mod 16) nibble_vector, measured with size_of; non-trivial with at least 500 values")
{
    std::vector<uint64_t> v = gen::values(s, pick_n(s, 200000), s.draw(2) ? s.logu(UINT64_MAX - 3) : 50);
    std::string ctx = gen::show_vec(v, 10);
    DESC(s, ctx);
    s.nontrivial(v.size() >= 500);
    double g = 0, gb = 0, n = double(v.size());
    std::vector<uint64_t> nib;
    for (uint64_t x : v) {
        g += 2 * double(flog2(x + 1)) + 1;
        gb += 2 * double(flog2(x + 2));
        nib.push_back(x & 15);
    }
    gamma_vector a(v);
    bound(s, "gamma_vector", a, g + 0.32 * n + 2000, ctx);
    gamma_bit_vector b(v);
    bound(s, "gamma_bit_vector", b, gb + 0.32 * n + 2000, ctx);
    nibble_vector c(nib);
    bound(s, "nibble_vector", c, 4 * n + 200, ctx);
}
