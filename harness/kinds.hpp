// Every kind of structure behind one interface: build from a Content by a
// random route, and answer a list of queries determined by the Content alone.
// The token `succinct` may be renamed with -Dsuccinct=... (see h_cfg).
#pragma once
#include <memory>
#include <cassert>
#include <limits>
#include <boost/range.hpp>
#include "contents.hpp"
#include "routes.hpp"

#include "mapper.hpp"
#include "bit_vector.hpp"
#include "rs_bit_vector.hpp"
#include "bp_vector.hpp"
#include "darray.hpp"
#include "darray64.hpp"
#include "elias_fano.hpp"
#include "elias_fano_list.hpp"
#include "elias_fano_compressed_list.hpp"
#include "forward_enumerator.hpp"
#include "gamma_vector.hpp"
#include "gamma_bit_vector.hpp"
#include "nibble_vector.hpp"
#include "cartesian_tree.hpp"
#include "topk_vector.hpp"

namespace succinct {
namespace kinds {
using hx::Answers;
using hx::Bits;
using hx::Content;
using eng::Rng;

// ------------------------------------------------------------ construction
template <typename F>
void bits_source(Bits const& x, Rng& r, F f) // f(source) with several source types
{
    uint64_t q = r.below(6);
    if (x.n > 200000) q = 5;
    if (q < 3) {
        bits_range(x, r, f);
    } else {
        bit_vector_builder b;
        route_builder(x, r, b);
        f(&b);
    }
}

template <typename F>
void vals_source(std::vector<uint64_t> const& v, Rng& r, F f)
{
    if (v.size() <= 50000 && r.below(3))
        vals_range<uint64_t>(v, r, f);
    else
        f(v);
}

// ------------------------------------------------------------------ queries
template <typename F>
void sample(uint64_t n, uint64_t budget, Rng& r, F f)
{
    if (n <= budget) {
        for (uint64_t i = 0; i < n; ++i) f(i);
        return;
    }
    for (uint64_t i = 0; i < 4; ++i) f(i);
    for (uint64_t i = n - 4; i < n; ++i) f(i);
    for (uint64_t q = 0; q < budget; ++q) {
        uint64_t p = r.below(n);
        if (q % 3 == 0) p = p / 64 * 64;
        if (q % 3 == 1) p = p / 512 * 512;
        f(p);
    }
}

inline void bit_answers(bit_vector const& o, Bits const& x, gen::Oracle const& ref, Rng& r, uint64_t budget, Answers& a)
{
    a.put("size", o.size());
    a.put("words", o.data().size());
    if (o.size() != x.n || o.data().size() != x.w.size()) return;
    sample(x.w.size(), budget, r, [&](uint64_t i) { a.put("data word", o.data()[i]); });
    sample(x.n, budget, r, [&](uint64_t i) {
        a.put("operator[]", o[i]);
        a.put("get_word", o.get_word(i));
        uint64_t len = std::min<uint64_t>(r.below(65), x.n - i);
        a.put("get_bits", o.get_bits(i, len));
        if (i / 8 + 8 <= x.w.size() * 8) a.put("get_word56", o.get_word56(i) & ((uint64_t(1) << 56) - 1));
        uint64_t ones = ref.rank(i + 1), ones_before = ref.rank(i);
        if (ones) a.put("predecessor1", o.predecessor1(i));
        if (i + 1 - ones) a.put("predecessor0", o.predecessor0(i));
        if (ones_before < ref.ones()) a.put("successor1", o.successor1(i));
        if (i - ones_before < ref.zeros()) a.put("successor0", o.successor0(i));
    });
    if (x.n) {
        uint64_t st = r.below(x.n);
        bit_vector::enumerator e(o, st);
        uint64_t p = st;
        for (unsigned k = 0; k < 60 && p < x.n; ++k) {
            uint64_t len = std::min<uint64_t>(r.below(65), x.n - p);
            if (k % 3 == 0) {
                a.put("enumerator next", e.next());
                ++p;
            } else if (k % 3 == 1 && ref.rank(p) < ref.ones()) {
                a.put("skip_zeros", e.skip_zeros());
                p = ref.select(ref.rank(p)) + 1;
            } else {
                a.put("take", e.take(len));
                p += len;
            }
            a.put("position", e.position());
        }
        bit_vector::unary_enumerator u(o, st);
        uint64_t left = ref.ones() - ref.rank(st);
        for (unsigned k = 0; k < 60 && left; ++k) {
            uint64_t sk = r.below(std::min<uint64_t>(left, 70));
            a.put("skip_no_move", u.skip_no_move(sk));
            if (k % 4 == 0) {
                u.skip(sk);
                left -= sk;
            }
            a.put("unary next", u.next());
            --left;
        }
    }
}

inline void rs_answers(rs_bit_vector const& o, Bits const& x, gen::Oracle const& ref, Rng& r, uint64_t budget, Answers& a)
{
    bit_answers(o, x, ref, r, budget / 2 + 1, a);
    if (o.size() != x.n) return;
    a.put("num_ones", o.num_ones());
    a.put("num_zeros", o.num_zeros());
    sample(x.n, budget, r, [&](uint64_t i) {
        a.put("rank", o.rank(i));
        a.put("rank0", o.rank0(i));
    });
    a.put("rank(size)", o.rank(x.n));
    if (o.num_ones() != ref.ones()) return;
    sample(ref.ones(), budget, r, [&](uint64_t k) { a.put("select", o.select(k)); });
    sample(ref.zeros(), budget, r, [&](uint64_t k) { a.put("select0", o.select0(k)); });
}

template <typename L>
void list_answers(L const& o, uint64_t n, Rng& r, uint64_t budget, Answers& a)
{
    a.put("size", o.size());
    if (o.size() != n) return;
    sample(n, budget, r, [&](uint64_t i) { a.put("operator[]", uint64_t(o[i])); });
}
template <typename L>
void enum_answers(L const& o, uint64_t n, Rng& r, uint64_t budget, Answers& a)
{
    if (!n || o.size() != n) return;
    uint64_t st = r.below(n);
    forward_enumerator<L> e(o, st);
    for (uint64_t i = st; i < n && i < st + budget; ++i) a.put("forward_enumerator next", e.next());
    forward_enumerator<L> e0(o);
    for (uint64_t i = 0; i < n && i < budget / 2; ++i) a.put("forward_enumerator next from 0", e0.next());
}

// -------------------------------------------------------------------- kinds
inline uint64_t pod_bits(float d)
{
    uint32_t u;
    memcpy(&u, &d, 4);
    return u;
}
inline uint64_t pod_bits(double d)
{
    uint64_t u;
    memcpy(&u, &d, 8);
    return u;
}
template <typename T>
uint64_t pod_bits(T t)
{
    return uint64_t(t);
}
template <typename T>
struct make_pod {
    static T of(uint64_t x) { return T(x); }
};
template <typename P, unsigned ID>
struct MV {
    typedef mapper::mappable_vector<P> T;
    static const unsigned id = ID;
    static void build(Content const& c, T& o, Rng& r)
    {
        std::vector<P> v;
        for (uint64_t x : c.vals) v.push_back(make_pod<P>::of(x));
        switch (r.below(4)) {
        case 0: o.steal(v); break;
        case 1: o.assign(v); break;
        default: std::unique_ptr<T>(make(c, r))->swap(o);
        }
    }
    // a new object, constructed in place
    static T* make(Content const& c, Rng& r)
    {
        std::vector<P> v;
        for (uint64_t x : c.vals) v.push_back(make_pod<P>::of(x));
        if (r.below(2)) return new T(std::list<P>(v.begin(), v.end()));
        return new T(v);
    }
    static void answers(T const& o, Content const& c, Rng& r, uint64_t budget, Answers& a)
    {
        a.put("size", o.size());
        a.put("end-begin", uint64_t(o.end() - o.begin()));
        if (o.size() != c.vals.size()) return;
        sample(c.vals.size(), budget, r, [&](uint64_t i) {
            a.put("operator[]", pod_bits(o[i]));
            a.put("begin()[i]", pod_bits(*(o.begin() + i)));
            a.put("data()[i]", pod_bits(o.data()[i]));
            o.prefetch(i);
        });
    }
};

struct BV {
    typedef bit_vector T;
    static const unsigned id = hx::K_BV;
    static void build(Content const& c, T& o, Rng& r) { std::unique_ptr<T>(make(c, r))->swap(o); }
    static T* make(Content const& c, Rng& r)
    {
        T* p = 0;
        bits_source(c.bits, r, [&](auto const& src) { p = new T(src); });
        return p;
    }
    static void answers(T const& o, Content const& c, Rng& r, uint64_t budget, Answers& a)
    {
        gen::Oracle ref(c.bits);
        bit_answers(o, c.bits, ref, r, budget, a);
    }
};
struct RS {
    typedef rs_bit_vector T;
    static const unsigned id = hx::K_RS;
    static void build(Content const& c, T& o, Rng& r) { std::unique_ptr<T>(make(c, r))->swap(o); }
    static T* make(Content const& c, Rng& r)
    {
        T* p = 0;
        bool defaults = r.below(2); // leave out the arguments that have their default value
        bits_source(c.bits, r, [&](auto const& src) {
            if (defaults && !c.f1 && !c.f2) p = new T(src);
            else if (defaults && !c.f2) p = new T(src, c.f1);
            else p = new T(src, c.f1, c.f2);
        });
        return p;
    }
    static void answers(T const& o, Content const& c, Rng& r, uint64_t budget, Answers& a)
    {
        gen::Oracle ref(c.bits);
        rs_answers(o, c.bits, ref, r, budget, a);
    }
};
struct BP {
    typedef bp_vector T;
    static const unsigned id = hx::K_BP;
    static void build(Content const& c, T& o, Rng& r) { std::unique_ptr<T>(make(c, r))->swap(o); }
    static T* make(Content const& c, Rng& r)
    {
        T* p = 0;
        bool defaults = r.below(2); // leave out the arguments that have their default value
        bits_source(c.bits, r, [&](auto const& src) {
            if (defaults && !c.f1 && !c.f2) p = new T(src);
            else if (defaults && !c.f2) p = new T(src, c.f1);
            else p = new T(src, c.f1, c.f2);
        });
        return p;
    }
    static void answers(T const& o, Content const& c, Rng& r, uint64_t budget, Answers& a)
    {
        Bits const& x = c.bits;
        gen::Oracle ref(x);
        rs_answers(o, x, ref, r, budget / 2 + 1, a);
        if (o.size() != x.n) return;
        sample(x.n, budget, r, [&](uint64_t i) {
            a.put("excess", uint64_t(int64_t(o.excess(i))));
            if (x.get(i)) {
                a.put("find_close", o.find_close(i));
                if (2 * ref.rank(i) - i > 0) a.put("enclose", o.enclose(i));
            } else
                a.put("find_open", o.find_open(i));
            uint64_t b = i + r.below(1 + (r.below(3) ? std::min<uint64_t>(x.n - i, 600) : x.n - i));
            bp_vector::excess_t m = 0;
            a.put("excess_rmq", o.excess_rmq(i, b, m));
            a.put("excess_rmq min", uint64_t(int64_t(m)));
        });
    }
};

struct darrays {
    bit_vector bv;
    darray1 d1;
    darray0 d0;
    darrays() {}
    template <typename S>
    explicit darrays(S const& src) : bv(src), d1(bv), d0(bv)
    {}
    template <typename Visitor>
    void map(Visitor& visit)
    {
        visit(bv, "bv")(d1, "d1")(d0, "d0");
    }
    void swap(darrays& other)
    {
        bv.swap(other.bv);
        d1.swap(other.d1);
        d0.swap(other.d0);
    }
};
struct DARRAY {
    typedef darrays T;
    static const unsigned id = hx::K_DARRAY;
    static void build(Content const& c, T& o, Rng& r)
    {
        bits_source(c.bits, r, [&](auto const& src) { bit_vector(src).swap(o.bv); });
        darray1(o.bv).swap(o.d1);
        darray0(o.bv).swap(o.d0);
    }
    static T* make(Content const& c, Rng& r)
    {
        T* p = 0;
        bits_source(c.bits, r, [&](auto const& src) { p = new T(src); });
        return p;
    }
    static void answers(T const& o, Content const& c, Rng& r, uint64_t budget, Answers& a)
    {
        gen::Oracle ref(c.bits);
        a.put("bv size", o.bv.size());
        a.put("d1 num_positions", o.d1.num_positions());
        a.put("d0 num_positions", o.d0.num_positions());
        if (o.bv.size() != c.bits.n || o.d1.num_positions() != ref.ones() || o.d0.num_positions() != ref.zeros()) return;
        sample(ref.ones(), budget, r, [&](uint64_t k) { a.put("d1 select", o.d1.select(o.bv, k)); });
        sample(ref.zeros(), budget, r, [&](uint64_t k) { a.put("d0 select", o.d0.select(o.bv, k)); });
    }
};

struct DA64 {
    typedef darray64 T;
    static const unsigned id = hx::K_DA64;
    static void build(Content const& c, T& o, Rng& r) { std::unique_ptr<T>(make(c, r))->swap(o); }
    static T* make(Content const& c, Rng&)
    {
        darray64::builder b;
        for (uint64_t x : c.vals) {
            if (x) b.append1(size_t(x));
            else b.append1();
        }
        return new T(&b);
    }
    static void answers(T const& o, Content const& c, Rng& r, uint64_t budget, Answers& a)
    {
        a.put("num_ones", o.num_ones());
        a.put("bits size", o.bits().size());
        if (o.num_ones() != c.vals.size()) return;
        sample(c.vals.size(), budget, r, [&](uint64_t k) { a.put("select", o.select(k)); });
        uint64_t words = o.bits().data().size();
        a.put("words", words);
        sample(words, budget, r, [&](uint64_t i) { a.put("bits word", o.bits().data()[i]); });
    }
};

struct EF {
    typedef elias_fano T;
    static const unsigned id = hx::K_EF;
    static void build(Content const& c, T& o, Rng& r) { std::unique_ptr<T>(make(c, r))->swap(o); }
    static T* make(Content const& c, Rng& r)
    {
        bool defaults = c.f1 && r.below(2);
        if (c.increasing && r.below(2)) {
            Bits x;
            x.run(false, c.universe);
            for (uint64_t v : c.vals) x.set(v, true);
            bit_vector_builder b;
            route_builder(x, r, b);
            return defaults ? new T(&b) : new T(&b, c.f1);
        }
        elias_fano::elias_fano_builder b(c.universe, c.vals.size());
        for (uint64_t v : c.vals) b.push_back(v);
        return defaults ? new T(&b) : new T(&b, c.f1);
    }
    static void answers(T const& o, Content const& c, Rng& r, uint64_t budget, Answers& a)
    {
        uint64_t m = c.vals.size(), n = c.universe;
        a.put("size", o.size());
        a.put("num_ones", o.num_ones());
        if (o.size() != n || o.num_ones() != m) return;
        sample(m, budget, r, [&](uint64_t k) {
            a.put("select", o.select(k));
            a.put("delta", o.delta(k));
            if (k + 1 < m) {
                std::pair<uint64_t, uint64_t> p = o.select_range(k);
                a.put("select_range begin", p.first);
                a.put("select_range end", p.second);
            }
        });
        if (m) {
            uint64_t st = r.below(m);
            elias_fano::select_enumerator e(o, st);
            for (uint64_t i = st; i < m && i < st + budget; ++i) a.put("select_enumerator next", e.next());
        }
        if (c.f1 && n) {
            for (uint64_t q = 0; q < budget; ++q) {
                uint64_t p = r.below(n);
                if (m && q % 2) {
                    p = c.vals[r.below(m)];
                    uint64_t d = r.below(3);
                    if (d == 1 && p) --p;
                    if (d == 2) ++p;
                    if (p >= n) p = n - 1;
                }
                uint64_t below = uint64_t(std::lower_bound(c.vals.begin(), c.vals.end(), p) - c.vals.begin());
                uint64_t upto = uint64_t(std::upper_bound(c.vals.begin(), c.vals.end(), p) - c.vals.begin());
                a.put("operator[]", o[p]);
                a.put("rank", o.rank(p));
                if (below < m) a.put("successor1", o.successor1(p));
                if (upto && p + 1 < n) a.put("predecessor1", o.predecessor1(p));
            }
        }
    }
};

template <typename L, unsigned ID>
struct LIST {
    typedef L T;
    static const unsigned id = ID;
    static void build(Content const& c, T& o, Rng& r) { std::unique_ptr<T>(make(c, r))->swap(o); }
    static T* make(Content const& c, Rng& r)
    {
        T* p = 0;
        vals_source(c.vals, r, [&](auto const& v) { p = new T(v); });
        return p;
    }
    static void more(elias_fano_list const& o, Answers& a) { a.put("sum", o.sum()); }
    template <typename X>
    static void more(X const&, Answers&)
    {}
    static void answers(T const& o, Content const& c, Rng& r, uint64_t budget, Answers& a)
    {
        more(o, a);
        list_answers(o, c.vals.size(), r, budget, a);
        enum_answers(o, c.vals.size(), r, budget, a);
    }
};
struct NV {
    typedef nibble_vector T;
    static const unsigned id = hx::K_NV;
    static void build(Content const& c, T& o, Rng& r) { std::unique_ptr<T>(make(c, r))->swap(o); }
    static T* make(Content const& c, Rng& r)
    {
        T* p = 0;
        vals_source(c.vals, r, [&](auto const& v) { p = new T(v); });
        return p;
    }
    static void answers(T const& o, Content const& c, Rng& r, uint64_t budget, Answers& a)
    {
        list_answers(o, c.vals.size(), r, budget, a);
    }
};

inline void rmq_answers(cartesian_tree const& o, uint64_t n, Rng& r, uint64_t budget, Answers& a)
{
    a.put("cartesian_tree size", o.size());
    if (o.size() != n) return;
    sample(n, budget, r, [&](uint64_t i) {
        uint64_t b = i + r.below(r.below(3) ? std::min<uint64_t>(n - i, 500) : n - i);
        a.put("rmq", o.rmq(i, b));
    });
}
struct CT {
    typedef cartesian_tree T;
    static const unsigned id = hx::K_CT;
    static void build(Content const& c, T& o, Rng& r) { std::unique_ptr<T>(make(c, r))->swap(o); }
    static T* make(Content const& c, Rng& r)
    {
        T* p = 0;
        switch (r.below(4)) {
        case 0: {
            cartesian_tree::builder<uint64_t> b(r.below(2) ? c.vals.size() : 0);
            for (uint64_t x : c.vals) b.push_back(x, std::less<uint64_t>());
            return new T(&b);
        }
        case 1: vals_source(c.vals, r, [&](auto const& v) { p = new T(v, std::less<uint64_t>()); }); break;
        default: vals_source(c.vals, r, [&](auto const& v) { p = new T(v); });
        }
        return p;
    }
    static void answers(T const& o, Content const& c, Rng& r, uint64_t budget, Answers& a)
    {
        rmq_answers(o, c.vals.size(), r, budget, a);
    }
};
template <typename V, unsigned ID>
struct TK {
    typedef topk_vector<V> T;
    static const unsigned id = ID;
    static void build(Content const& c, T& o, Rng& r) { std::unique_ptr<T>(make(c, r))->swap(o); }
    static T* make(Content const& c, Rng& r)
    {
        T* p = 0;
        vals_source(c.vals, r, [&](auto const& v) { p = new T(v); });
        return p;
    }
    static void answers(T const& o, Content const& c, Rng& r, uint64_t budget, Answers& a)
    {
        uint64_t n = c.vals.size();
        list_answers(o, n, r, budget, a);
        if (!n || o.size() != n) return;
        for (uint64_t q = 0; q < budget / 16 + 2; ++q) {
            uint64_t i = r.below(n), b = i + r.below(std::min<uint64_t>(n - i, 200));
            size_t k = size_t(r.below(20));
            typename T::entry_vector_type e = o.topk(i, b, k);
            a.put("topk size", e.size());
            for (auto const& x : e) {
                a.put("topk value", uint64_t(boost::get<0>(x)));
                a.put("topk index", boost::get<1>(x));
            }
        }
        uint64_t i = r.below(n);
        typename T::enumerator en = o.get_topk_enumerator(i, n - 1);
        for (unsigned k = 0; k < 40; ++k) {
            bool more = en.next();
            a.put("enumerator more", more);
            if (!more) break;
            a.put("enumerator value", uint64_t(boost::get<0>(en.value())));
            a.put("enumerator index", boost::get<1>(en.value()));
        }
    }
};

// A user-defined composition with POD fields of odd sizes and nesting.
struct user_inner {
    bool flag;
    topk_vector<mapper::mappable_vector<uint64_t>> topk;
    gamma_vector gv;
    user_inner() : flag(false) {}
    template <typename Visitor>
    void map(Visitor& visit)
    {
        visit(flag, "flag")(topk, "topk")(gv, "gv");
    }
    void swap(user_inner& o)
    {
        std::swap(flag, o.flag);
        topk.swap(o.topk);
        gv.swap(o.gv);
    }
};
struct user_record {
    uint8_t tag;
    mapper::mappable_vector<uint16_t> a;
    rs_bit_vector rs;
    uint64_t x;
    elias_fano_list efl;
    mapper::mappable_vector<uint8_t> b;
    user_inner inner;
    double d;
    bp_vector bp;
    user_record() : tag(0), x(0), d(0) {}
    template <typename Visitor>
    void map(Visitor& visit)
    {
        visit(tag, "tag")(a, "a")(rs, "rs")(x, "x")(efl, "efl")(b, "b")(inner, "inner")(d, "d")(bp, "bp");
    }
    void swap(user_record& o)
    {
        std::swap(tag, o.tag);
        a.swap(o.a);
        rs.swap(o.rs);
        std::swap(x, o.x);
        efl.swap(o.efl);
        b.swap(o.b);
        inner.swap(o.inner);
        std::swap(d, o.d);
        bp.swap(o.bp);
    }
};
typedef MV<uint8_t, hx::K_MV8> MV8;
typedef MV<uint16_t, hx::K_MV16> MV16;
typedef MV<uint32_t, hx::K_MV32> MV32;
typedef MV<uint64_t, hx::K_MV64> MV64;
typedef MV<double, hx::K_MVD> MVD;
typedef MV<float, hx::K_MVP> MVP;
typedef LIST<elias_fano_list, hx::K_EFL> EFL;
typedef LIST<elias_fano_compressed_list, hx::K_EFCL> EFCL;
typedef LIST<gamma_vector, hx::K_GV> GV;
typedef LIST<gamma_bit_vector, hx::K_GBV> GBV;
typedef TK<mapper::mappable_vector<uint64_t>, hx::K_TK64> TK64;
typedef TK<elias_fano_list, hx::K_TKEF> TKEF;
typedef TK<gamma_vector, hx::K_TKGV> TKGV;

struct USER {
    typedef user_record T;
    static const unsigned id = hx::K_USER;
    static void build(Content const& c, T& o, Rng& r)
    {
        if (c.sub.empty()) {
            T().swap(o);
            return;
        }
        MV16::build(c.sub[0], o.a, r);
        RS::build(c.sub[1], o.rs, r);
        EFL::build(c.sub[2], o.efl, r);
        MV8::build(c.sub[3], o.b, r);
        TK64::build(c.sub[4], o.inner.topk, r);
        GV::build(c.sub[5], o.inner.gv, r);
        BP::build(c.sub[6], o.bp, r);
        o.tag = uint8_t(c.vals[0]);
        o.x = c.vals[1];
        o.inner.flag = c.vals[2] != 0;
        o.d = double(c.vals[3]) / 16;
    }
    static T* make(Content const& c, Rng& r)
    {
        std::unique_ptr<T> p(new T);
        build(c, *p, r);
        return p.release();
    }
    static void answers(T const& o, Content const& c, Rng& r, uint64_t budget, Answers& a)
    {
        static const Content none;
        bool e = c.sub.empty();
        a.put("tag", o.tag);
        a.put("x", o.x);
        a.put("flag", o.inner.flag);
        a.put("d", pod_bits(o.d));
        MV16::answers(o.a, e ? none : c.sub[0], r, budget / 4, a);
        RS::answers(o.rs, e ? none : c.sub[1], r, budget / 4, a);
        EFL::answers(o.efl, e ? none : c.sub[2], r, budget / 4, a);
        MV8::answers(o.b, e ? none : c.sub[3], r, budget / 4, a);
        TK64::answers(o.inner.topk, e ? none : c.sub[4], r, budget / 4, a);
        GV::answers(o.inner.gv, e ? none : c.sub[5], r, budget / 4, a);
        BP::answers(o.bp, e ? none : c.sub[6], r, budget / 4, a);
    }
};

template <typename F>
void with_kind(unsigned k, F f)
{
    switch (k) {
    case hx::K_MV8: f(MV8()); break;
    case hx::K_MV16: f(MV16()); break;
    case hx::K_MV32: f(MV32()); break;
    case hx::K_MV64: f(MV64()); break;
    case hx::K_MVD: f(MVD()); break;
    case hx::K_MVP: f(MVP()); break;
    case hx::K_BV: f(BV()); break;
    case hx::K_RS: f(RS()); break;
    case hx::K_BP: f(BP()); break;
    case hx::K_DARRAY: f(DARRAY()); break;
    case hx::K_DA64: f(DA64()); break;
    case hx::K_EF: f(EF()); break;
    case hx::K_EFL: f(EFL()); break;
    case hx::K_EFCL: f(EFCL()); break;
    case hx::K_GV: f(GV()); break;
    case hx::K_GBV: f(GBV()); break;
    case hx::K_NV: f(NV()); break;
    case hx::K_CT: f(CT()); break;
    case hx::K_TK64: f(TK64()); break;
    case hx::K_TKEF: f(TKEF()); break;
    case hx::K_TKGV: f(TKGV()); break;
    default: f(USER());
    }
}

template <typename K>
Answers ask(typename K::T const& o, Content const& c, uint64_t seed, uint64_t budget)
{
    Answers a;
    Rng r(seed);
    K::answers(o, c, r, budget, a);
    return a;
}

// ------------------------------------------------------------- files, bytes
inline std::string slurp(std::string const& path)
{
    std::string s;
    FILE* f = fopen(path.c_str(), "rb");
    if (!f) return s;
    char buf[65536];
    size_t n;
    while ((n = fread(buf, 1, sizeof(buf), f)) > 0) s.append(buf, n);
    fclose(f);
    return s;
}

struct tmp_path {
    std::string p;
    explicit tmp_path(const char* tag) : p(eng::scratch_file(tag)) {}
    ~tmp_path() { unlink(p.c_str()); }
    operator const char*() const { return p.c_str(); }
};

template <typename T>
std::string frozen(T& o, uint64_t flags = 0)
{
    tmp_path p("frozen");
    mapper::freeze(o, p, flags);
    return slurp(p.p);
}
} // namespace kinds
} // namespace succinct
