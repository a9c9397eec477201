// C17 cartesian_tree, C18 topk_vector
#include <boost/iterator/counting_iterator.hpp>
#include <boost/iterator/transform_iterator.hpp>
#include "lists.hpp"
#include "cartesian_tree.hpp"
#include "topk_vector.hpp"
#include "mapper.hpp"
#include "gamma_vector.hpp"
#include "gamma_bit_vector.hpp"
#include "elias_fano_list.hpp"
#include "elias_fano_compressed_list.hpp"

using namespace succinct;
using eng::Rng;
using eng::Src;
using hx::Bits;

namespace {

// ------------------------------------------------------------------ arrays
// Shapes that make deep, shallow, left-leaning, right-leaning and mixed trees
// with many or no ties.
std::vector<uint64_t> array_of(Src& s, uint64_t n)
{
    std::vector<uint64_t> v;
    v.reserve(n);
    uint64_t nseg = 1 + s.draw(5);
    for (uint64_t k = 0; k < nseg && v.size() < n; ++k) {
        uint64_t len = n - v.size();
        if (k + 1 < nseg) len = std::min<uint64_t>(len, gen::size_upto(s, n));
        unsigned kind = unsigned(s.draw(10));
        uint64_t a = s.draw(1000), p = 1 + s.draw(600);
        Rng r(s.seed());
        for (uint64_t i = 0; i < len; ++i) {
            uint64_t x = 0;
            switch (kind) {
            case 0: x = a; break;                                  // constant
            case 1: x = a + i; break;                              // increasing
            case 2: x = a + len - i; break;                        // decreasing
            case 3: x = r.below(4); break;                         // many ties
            case 4: x = r.next(); break;                           // no ties, full range
            case 5: x = a + i / p; break;                          // increasing plateaus
            case 6: x = a + (len - i) / p; break;                  // decreasing plateaus
            case 7: x = i % p; break;                              // saw
            case 8: x = i % (2 * p) < p ? i % p : p - i % p; break; // zigzag
            default: x = (i % p == 0) ? r.below(3) : a + r.below(50); // rare minima
            }
            v.push_back(x);
        }
    }
    while (v.size() < n) v.push_back(0);
    return v;
}

template <typename Less>
void check_rmq(Src& s, std::vector<uint64_t> const& v, Less less, cartesian_tree const& t, uint64_t queries,
               const char* how)
{
    uint64_t n = v.size();
    CK_EQ("cartesian_tree::size", n, t.size(), how);
    if (!n) return;
    auto ref = gen::make_rmq([&v](uint64_t i) -> uint64_t { return v[i]; }, less, n);
    auto ask = [&](uint64_t a, uint64_t b) {
        CK_EQ("cartesian_tree::rmq", ref.query(a, b), t.rmq(a, b),
              how << " a=" << a << " b=" << b << " " << gen::show_vec(v, 200));
    };
    if (n <= 48) {
        for (uint64_t a = 0; a < n; ++a)
            for (uint64_t b = a; b < n; ++b) ask(a, b);
        return;
    }
    Rng r(s.seed());
    ask(0, n - 1);
    for (uint64_t q = 0; q < queries; ++q) {
        uint64_t a = r.below(n), b = r.below(n);
        switch (q % 5) {
        case 0: b = a + r.below(70); break;
        case 1: b = a + r.below(1 + r.below(2 * r.below(n) + 1)); break;
        case 2: a = 0; break;
        case 3: b = n - 1; break;
        default: break;
        }
        if (b >= n) b = n - 1;
        if (a > b) std::swap(a, b);
        ask(a, b);
    }
}

struct by_mod {
    uint64_t m;
    bool operator()(uint64_t a, uint64_t b) const { return a % m < b % m; }
};
struct by_ptr { // values compared through a table, as test_topk-like users do
    std::vector<uint64_t> const* t;
    bool operator()(uint64_t a, uint64_t b) const { return (*t)[a] < (*t)[b]; }
};
struct never {
    bool operator()(uint64_t, uint64_t) const { return false; }
};

// Element type narrower than the values: build the tree over T.
template <typename T>
std::vector<T> narrow(std::vector<uint64_t>& v)
{
    std::vector<T> o;
    for (uint64_t& x : v) {
        x = uint64_t(T(x));
        o.push_back(T(x));
    }
    return o;
}

template <typename V, typename Comp>
void build_by(Src& s, V const& v, Comp const& comp, cartesian_tree& out, std::string& how)
{
    typedef typename V::value_type T;
    switch (s.draw(4)) {
    case 0:
        cartesian_tree(v, comp).swap(out);
        how = "range+comp";
        break;
    case 1: {
        cartesian_tree::builder<T> b;
        Rng g(s.seed());
        std::unique_ptr<T> cur; // each value lives only during its push_back
        for (auto const& x : v) {
            if (g.below(16) && cur) *cur = x;
            else cur.reset(new T(x));
            b.push_back(*cur, comp);
        }
        cartesian_tree(&b).swap(out);
        how = "builder";
        break;
    }
    case 2: { // expected size exact, too small or too large
        uint64_t n = uint64_t(std::distance(v.begin(), v.end()));
        uint64_t e = s.draw(3);
        cartesian_tree::builder<T> b(e == 0 ? n : e == 1 ? n / 2 + s.draw(5) : 2 * n + s.draw(100));
        for (auto const& x : v) b.push_back(x, comp);
        cartesian_tree(&b).swap(out);
        how = "builder(reserved)";
        break;
    }
    default: { // a list: forward iterators only
        std::list<T> l(v.begin(), v.end());
        cartesian_tree(l, comp).swap(out);
        how = "list range";
    }
    }
}

void ct_case(Src& s, uint64_t n, uint64_t queries)
{
    std::vector<uint64_t> v = array_of(s, n);
    cartesian_tree t;
    std::string how;
    DESC(s, gen::show_vec(v));
    s.nontrivial(n >= 3);
    s.label(hx::sz_label("n", n));
    switch (s.draw(10)) {
    case 0:
        cartesian_tree(v).swap(t);
        check_rmq(s, v, std::less<uint64_t>(), t, queries, "default less");
        break;
    case 1:
        build_by(s, v, std::greater<uint64_t>(), t, how);
        check_rmq(s, v, std::greater<uint64_t>(), t, queries, (how + " greater").c_str());
        break;
    case 2: {
        by_mod c{1 + s.draw(200)};
        build_by(s, v, c, t, how);
        check_rmq(s, v, c, t, queries, (how + " mod").c_str());
        break;
    }
    case 3: {
        for (auto& x : v) x %= 977;
        std::vector<uint64_t> tab(977);
        Rng r(s.seed());
        for (auto& x : tab) x = r.below(500);
        by_ptr c{&tab};
        build_by(s, v, c, t, how);
        check_rmq(s, v, c, t, queries, (how + " indirect").c_str());
        break;
    }
    case 4:
        build_by(s, v, never(), t, how);
        check_rmq(s, v, never(), t, queries, (how + " all equal").c_str());
        break;
    case 5: {
        std::vector<uint8_t> w = narrow<uint8_t>(v);
        build_by(s, w, std::less<uint8_t>(), t, how);
        check_rmq(s, v, std::less<uint64_t>(), t, queries, (how + " uint8").c_str());
        break;
    }
    case 6: { // signed elements
        std::vector<int> w;
        for (auto& x : v) w.push_back(int(uint32_t(x)));
        build_by(s, w, std::less<int>(), t, how);
        auto less = [](uint64_t a, uint64_t b) { return int(uint32_t(a)) < int(uint32_t(b)); };
        check_rmq(s, v, less, t, queries, (how + " int").c_str());
        break;
    }
    case 7: { // doubles
        std::vector<double> w;
        for (auto& x : v) w.push_back(-double(x % 4096) / 8);
        build_by(s, w, std::less<double>(), t, how);
        auto less = [](uint64_t a, uint64_t b) { return a % 4096 > b % 4096; };
        check_rmq(s, v, less, t, queries, (how + " double").c_str());
        break;
    }
    case 8: {
        std::vector<std::string> w;
        for (auto& x : v) {
            x %= 1000;
            w.push_back(std::string(1, char('a' + x / 100)) + std::to_string(x));
        }
        build_by(s, w, std::less<std::string>(), t, how);
        auto less = [](uint64_t a, uint64_t b) {
            return std::string(1, char('a' + a / 100)) + std::to_string(a) <
                   std::string(1, char('a' + b / 100)) + std::to_string(b);
        };
        check_rmq(s, v, less, t, std::min<uint64_t>(queries, 100), (how + " string").c_str());
        break;
    }
    default:
        build_by(s, v, std::less<uint64_t>(), t, how);
        check_rmq(s, v, std::less<uint64_t>(), t, queries, how.c_str());
    }
}

// ------------------------------------------------------------------- topk
typedef std::pair<uint64_t, uint64_t> entry; // value, index

// Reference: sorted entries of [a, b]
std::vector<entry> ref_topk(std::vector<uint64_t> const& v, uint64_t a, uint64_t b, uint64_t k)
{
    std::vector<entry> e;
    for (uint64_t i = a; i <= b; ++i) e.push_back(entry(v[i], i));
    auto cmp = [](entry const& x, entry const& y) {
        return x.first > y.first || (x.first == y.first && x.second < y.second);
    };
    if (k < e.size()) {
        std::partial_sort(e.begin(), e.begin() + ptrdiff_t(k), e.end(), cmp);
        e.resize(k);
    } else {
        std::sort(e.begin(), e.end(), cmp);
    }
    return e;
}

void pick_range(Rng& r, uint64_t n, uint64_t& a, uint64_t& b)
{
    a = r.below(n);
    switch (r.below(4)) {
    case 0: b = a + r.below(12); break;
    case 1: b = a + r.below(300); break;
    case 2: a = 0; b = n - 1; break;
    default: b = r.below(n);
    }
    if (b >= n) b = n - 1;
    if (a > b) std::swap(a, b);
}

struct EnumModel {
    bool live = false; // obtained and not cleared
    uint64_t a = 0, b = 0;
    std::vector<entry> order;
    uint64_t pos = 0;
};

template <typename TK>
void check_topk(Src& s, std::vector<uint64_t> const& v, TK const& t, uint64_t budget)
{
    uint64_t n = v.size();
    CK_EQ("topk size", n, t.size(), "");
    for (uint64_t i = 0; i < n && i < 5000; ++i)
        CK_EQ("topk operator[]", v[i], uint64_t(t[i]), "i=" << i);
    if (!n) return;
    Rng r(s.seed());
    auto same = [&](entry const& e, typename TK::entry_type const& g, const char* what, uint64_t a, uint64_t b,
                    uint64_t i) {
        if (uint64_t(boost::get<0>(g)) != e.first || boost::get<1>(g) != e.second) {
            std::ostringstream os;
            os << what << ": expected (" << e.first << "," << e.second << "), got (" << uint64_t(boost::get<0>(g))
               << "," << boost::get<1>(g) << ") at place " << i << " of [" << a << "," << b << "] "
               << gen::show_vec(v, 100);
            eng::fail(os.str());
        }
    };
    for (unsigned q = 0; q < budget; ++q) {
        uint64_t a, b;
        pick_range(r, n, a, b);
        uint64_t len = b - a + 1;
        uint64_t k;
        bool wide = false; // a k far beyond any range
        switch (r.below(6)) {
        case 0: k = 0; break;
        case 5: {
            static const uint64_t big[] = {UINT64_MAX, uint64_t(1) << 63, uint64_t(1) << 32, uint64_t(1) << 31, uint64_t(1) << 16};
            k = big[r.below(5)] + (r.below(2) ? r.below(3) : 0);
            if (k < len) k = UINT64_MAX;
            if (len > 3000) k = len;
            else wide = true;
            break;
        }
        case 1: k = len; break;
        case 2: k = len + 1 + r.below(3); break;
        case 3: k = 1 + r.below(10); break;
        default: k = r.below(std::min<uint64_t>(len, 400) + 1);
        }
        if (!wide && k > 3000 && len > 3000) k = 3000;
        auto exp = ref_topk(v, a, b, k);
        auto got = t.topk(a, b, size_t(k));
        CK_EQ("topk length", exp.size(), got.size(), "a=" << a << " b=" << b << " k=" << k);
        for (uint64_t i = 0; i < exp.size(); ++i) same(exp[i], got[i], "topk", a, b, i);
    }
    // enumerator histories: two enumerators, reused, cleared, copied, swapped
    typedef typename TK::enumerator E;
    E e[2];
    EnumModel m[2];
    unsigned ops = 10 + unsigned(s.draw(60));
    for (unsigned o = 0; o < ops; ++o) {
        unsigned w = unsigned(s.draw(2));
        switch (s.draw(9)) {
        case 0: {
            uint64_t a, b;
            pick_range(r, n, a, b);
            if (b - a > 600) b = a + 600;
            t.get_topk_enumerator(a, b, e[w]);
            m[w] = EnumModel{true, a, b, ref_topk(v, a, b, UINT64_MAX), 0};
            break;
        }
        case 1: {
            uint64_t a, b;
            pick_range(r, n, a, b);
            if (b - a > 600) b = a + 600;
            e[w] = t.get_topk_enumerator(a, b);
            m[w] = EnumModel{true, a, b, ref_topk(v, a, b, UINT64_MAX), 0};
            break;
        }
        case 2:
            if (s.draw(3)) break;
            e[w].clear();
            m[w] = EnumModel();
            break;
        case 3:
            e[w].swap(e[1 - w]);
            std::swap(m[0], m[1]);
            break;
        case 4:
            e[w] = e[1 - w];
            m[w] = m[1 - w];
            break;
        default: {
            uint64_t steps = s.draw(3) ? 1 + s.draw(8) : 1000;
            for (uint64_t i = 0; i < steps; ++i) {
                bool has = m[w].live && m[w].pos < m[w].order.size();
                bool g = e[w].next();
                CK_EQ("enumerator next()", has, g,
                      "after " << m[w].pos << " of " << m[w].order.size() << " entries");
                if (!has) break;
                same(m[w].order[m[w].pos], e[w].value(), "enumerator", m[w].a, m[w].b, m[w].pos);
                ++m[w].pos;
            }
            if (m[w].live && m[w].pos) // value() keeps reporting the last entry
                same(m[w].order[m[w].pos - 1], e[w].value(), "value() again", m[w].a, m[w].b, m[w].pos - 1);
        }
        }
    }
}

template <typename TK, typename T>
void topk_with(Src& s, std::vector<uint64_t> v, uint64_t budget)
{
    std::vector<T> w;
    for (auto& x : v) {
        x = uint64_t(T(x));
        w.push_back(T(x));
    }
    TK t;
    if (s.draw(3) == 1 && w.size() < 5000) {
        Rng g(s.seed());
        kinds::vals_range<T>(v, g, [&](auto const& range) { TK(range).swap(t); });
    } else
        TK(w).swap(t);
    check_topk(s, v, t, budget);
    if (s.draw(3) == 0) { // built over, then swapped
        TK u;
        u.swap(t);
        check_topk(s, v, u, 2);
        CK_EQ("size of the swapped-out topk_vector", uint64_t(0), t.size(), "");
    }
}

void topk_case(Src& s, uint64_t n, uint64_t budget)
{
    std::vector<uint64_t> v = array_of(s, n);
    DESC(s, gen::show_vec(v));
    s.nontrivial(n >= 3);
    s.label(hx::sz_label("n", n));
    switch (s.draw(9)) {
    case 8:
        for (auto& x : v)
            if (x >= UINT64_MAX - 2) x = UINT64_MAX - 3;
        topk_with<topk_vector<gamma_bit_vector>, uint64_t>(s, v, budget);
        break;
    case 0: topk_with<topk_vector<mapper::mappable_vector<uint8_t>>, uint8_t>(s, v, budget); break;
    case 1: topk_with<topk_vector<mapper::mappable_vector<uint16_t>>, uint16_t>(s, v, budget); break;
    case 2: topk_with<topk_vector<mapper::mappable_vector<uint32_t>>, uint32_t>(s, v, budget); break;
    case 3: // sums must stay below 2^64 - 1
        topk_with<topk_vector<elias_fano_list>, uint32_t>(s, v, budget);
        break;
    case 4:
        for (auto& x : v)
            if (x >= UINT64_MAX - 1) x = UINT64_MAX - 2;
        topk_with<topk_vector<elias_fano_compressed_list>, uint64_t>(s, v, budget);
        break;
    case 5:
        for (auto& x : v)
            if (x >= UINT64_MAX - 1) x = UINT64_MAX - 2;
        topk_with<topk_vector<gamma_vector>, uint64_t>(s, v, budget);
        break;
    default: topk_with<topk_vector<mapper::mappable_vector<uint64_t>>, uint64_t>(s, v, budget);
    }
}

} // namespace

FACET(ct_small, "a case is an array of at most 48 elements, a comparator and a construction route; every range is queried; non-trivial with at least 3 elements")
{
    ct_case(s, s.draw(49), 0);
}
FACET(ct_mid, "a case is an array (plateaus, runs, saws, ties), a comparator and a construction route; ranges sampled; non-trivial with at least 3 elements")
{
    ct_case(s, gen::size_upto(s, gen::size_class(s, 60000, 40, 40, 20, 0, 0)), 400);
}
FACET(ct_large, "a case is an array of 4k to 600k elements, so the tree spans many superblocks; non-trivial always")
{
    ct_case(s, gen::size_between(s, 4000, (s.draw(2) ? 600000 : 60000) * uint64_t(s.scale)), 1500);
}
FACET(topk_small, "a case is a short array, an underlying vector type, topk queries and an enumerator history; non-trivial with at least 3 elements")
{
    topk_case(s, s.draw(40), 12);
}
FACET(topk_mid, "a case is an array of up to 3000 (sometimes 40000) elements, topk queries and an enumerator history; non-trivial with at least 3 elements")
{
    topk_case(s, gen::size_upto(s, s.draw(12) ? 3000 : 40000), 10);
}

FACET(huge_ct, "a case is a saw-shaped array of over 2^30 or 2^31 elements with a few unique dips, so that the tree exceeds 2^31 or 2^32 bits; minima known in closed form; always non-trivial")
{
    uint64_t n = (uint64_t(1) << (s.draw(2) ? 30 : 31)) + 1 + s.draw(100000000);
    uint64_t p = 2 + s.draw(300000);
    std::vector<uint64_t> dip; // sorted positions with value 0
    for (unsigned k = unsigned(s.draw(6)); k; --k) dip.push_back(s.draw(n));
    std::sort(dip.begin(), dip.end());
    dip.erase(std::unique(dip.begin(), dip.end()), dip.end());
    DESC(s, "n=" << n << " period=" << p << " dips=" << gen::show_vec(dip));
    s.nontrivial();
    cartesian_tree t;
    {
        cartesian_tree::builder<uint32_t> b(n);
        size_t d = 0;
        uint32_t x = 0;
        for (uint64_t i = 0; i < n; ++i) {
            uint32_t val = x + 1;
            if (++x == p) x = 0;
            if (d < dip.size() && dip[d] == i) {
                val = 0;
                ++d;
            }
            b.push_back(val, std::less<uint32_t>());
        }
        cartesian_tree(&b).swap(t);
    }
    CK_EQ("size", n, t.size(), "");
    auto ref = [&](uint64_t a, uint64_t b) -> uint64_t {
        auto it = std::lower_bound(dip.begin(), dip.end(), a);
        if (it != dip.end() && *it <= b) return *it;
        uint64_t m = (a + p - 1) / p * p;
        return m <= b ? m : a;
    };
    Rng r(s.seed());
    for (unsigned q = 0; q < 20000; ++q) {
        uint64_t a = r.below(n), b = r.below(n);
        switch (q % 5) {
        case 0: b = a + r.below(3 * p); break;
        case 1: a = r.below(5000); b = n - 1 - r.below(5000); break;
        case 2: a = n - 1 - r.below(3 * p); break;
        case 3: if (!dip.empty()) { a = dip[r.below(dip.size())] + r.below(3); a = a ? a - 1 : a; } break;
        default: break;
        }
        a = std::min(a, n - 1);
        b = std::min(b, n - 1);
        if (a > b) std::swap(a, b);
        CK_EQ("rmq", ref(a, b), t.rmq(a, b), "n=" << n << " a=" << a << " b=" << b << " p=" << p);
    }
}

// ---------------------------------------------------------------------- C18
namespace {
struct SparseTops { // 0 everywhere, 1 at the multiples of p, and a few distinct larger values
    uint64_t p;
    std::vector<std::pair<uint64_t, uint64_t>> const* top; // position, value
    typedef uint64_t result_type;
    uint64_t operator()(uint64_t i) const
    {
        auto it = std::lower_bound(top->begin(), top->end(), std::make_pair(i, uint64_t(0)));
        if (it != top->end() && it->first == i) return it->second;
        return i % p == 0;
    }
};
} // namespace
FACET(huge_topk, "a case is a topk_vector of over 2^31 elements, zero but for a regular pattern of ones and a few larger values; entries known in closed form; always non-trivial")
{
    s.nontrivial();
    uint64_t n = (uint64_t(1) << (s.draw(2) ? 31 : 32)) + 1 + s.draw(1000000), p = 2 + s.draw(3000000);
    std::vector<std::pair<uint64_t, uint64_t>> top;
    for (unsigned k = unsigned(s.draw(12)); k; --k) top.emplace_back(s.draw(n), 2 + s.draw(4));
    std::sort(top.begin(), top.end());
    top.erase(std::unique(top.begin(), top.end(), [](auto const& a, auto const& b) { return a.first == b.first; }), top.end());
    DESC(s, "n=" << n << " period=" << p << " larger values: " << top.size());
    SparseTops f{p, &top};
    typedef boost::transform_iterator<SparseTops, boost::counting_iterator<uint64_t>, uint64_t, uint64_t> it;
    topk_vector<elias_fano_compressed_list> t(
        boost::make_iterator_range(it(boost::counting_iterator<uint64_t>(0), f), it(boost::counting_iterator<uint64_t>(n), f)));
    CK_EQ("size", n, uint64_t(t.size()), "");
    Rng r(s.seed());
    for (unsigned q = 0; q < 3000; ++q) {
        uint64_t a = r.below(n), b = r.below(n);
        if (a > b) std::swap(a, b);
        switch (r.below(4)) {
        case 0: b = std::min(n - 1, a + r.below(3 * p)); break;
        case 1: b = n - 1 - r.below(std::min(n, p)); break;
        case 2: a = r.below(std::min<uint64_t>(b + 1, p)); break;
        default: break;
        }
        if (a > b) std::swap(a, b);
        uint64_t k = std::min<uint64_t>(1 + r.below(20), b - a + 1);
        std::vector<std::pair<uint64_t, uint64_t>> exp; // value, position
        auto lo = std::lower_bound(top.begin(), top.end(), std::make_pair(a, uint64_t(0)));
        for (; lo != top.end() && lo->first <= b; ++lo) exp.emplace_back(lo->second, lo->first);
        std::stable_sort(exp.begin(), exp.end(), [](auto const& x, auto const& y) { return x.first > y.first; });
        for (uint64_t i = (a + p - 1) / p * p; exp.size() < k && i <= b; i += p)
            if (f(i) == 1) exp.emplace_back(1, i);
        for (uint64_t i = a; exp.size() < k && i <= b; ++i)
            if (f(i) == 0) exp.emplace_back(0, i);
        auto got = t.topk(a, b, k);
        CK_EQ("topk entries", k, uint64_t(got.size()), "a=" << a << " b=" << b);
        for (uint64_t i = 0; i < k; ++i) {
            CK_EQ("topk value", exp[i].first, uint64_t(got[i].get<0>()), "entry " << i << " a=" << a << " b=" << b);
            CK_EQ("topk index", exp[i].second, uint64_t(got[i].get<1>()), "entry " << i << " a=" << a << " b=" << b);
        }
        CK_EQ("operator[]", f(a), uint64_t(t[a]), "index " << a);
    }
}
