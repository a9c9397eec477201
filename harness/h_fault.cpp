// C36: a failed allocation, a throwing input or a throwing stream leaves nothing behind.
#include <signal.h>
#include <sys/resource.h>
#include "alloc.hpp"
#include "kinds.hpp"
#include "vbyte.hpp"

using namespace succinct;
using namespace succinct::kinds;
using eng::Src;
using hx::Content;

namespace {
struct FailAt { // the n-th allocation from here on fails (n >= 1)
    explicit FailAt(uint64_t n) { hx::fail_countdown() = int64_t(n); }
    ~FailAt() { hx::fail_countdown() = 0; }
};
uint64_t pick_point(Src& s, uint64_t total)
{
    if (!total) throw eng::Discard();
    switch (s.draw(4)) {
    case 0: return 1 + s.draw(std::min<uint64_t>(total, 8));
    case 1: return total - s.draw(std::min<uint64_t>(total, 8));
    default: return 1 + s.draw(total);
    }
}
} // namespace

FACET(alloc_fault, "a case is a structure kind, a content, and one of the allocations made while constructing it, freezing it or mapping it, which fails; checked: the exception arrives, no allocation is left over, another object of the kind is unchanged, and the same operation succeeds afterwards; non-trivial if the failing allocation was reached")
{
    unsigned kind = unsigned(s.draw(hx::K_COUNT));
    Content a = hx::make_content(s, kind, 200), c = hx::make_content(s, kind, s.draw(6) ? 400 : 20000);
    s.label(hx::kind_name(kind));
    uint64_t seed = s.seed(), rs = s.seed();
    unsigned what = unsigned(s.draw(6)); // 0: freeze, 1: map, 2: size tree, 3: queries, else construct
    hx::warm_iostreams();
    with_kind(kind, [&](auto k) {
        typedef decltype(k) K;
        typedef typename K::T T;
        Rng r0(s.seed());
        std::unique_ptr<T> other(K::make(a, r0)), same;
        Answers exp = ask<K>(*other, a, seed, 30), exp_c;
        std::string img, img_c;
        img = frozen(*other);
        {
            Rng r(rs);
            same.reset(K::make(c, r));
            exp_c = ask<K>(*same, c, seed, 30);
            img_c = frozen(*same);
        }
        tmp_path p("af");
        std::unique_ptr<T> target; // of map
        auto op = [&](bool) {
            if (what == 0) {
                mapper::freeze(*same, p);
            } else if (what == 1) {
                mapper::map(*target, img_c.data());
            } else if (what == 2) {
                mapper::size_of(*same);
                mapper::size_tree_of(*same);
            } else if (what == 3) {
                ask<K>(*same, c, seed, 30);
            } else {
                Rng r(rs);
                std::unique_ptr<T> n(K::make(c, r));
            }
        };
        auto fresh_target = [&] {
            if (what != 1) return;
            Rng r(rs);
            target.reset(K::make(a, r));
        };
        fresh_target();
        uint64_t t0 = hx::alloc_total();
        op(false);
        uint64_t total = hx::alloc_total() - t0;
        fresh_target();
        uint64_t n = what == 1 && !total ? 1 : pick_point(s, total);
        DESC(s, hx::show_content(c) << "; operation " << what << ", allocation " << n << " of " << total << " fails");
        uint64_t live = hx::live_allocs();
        bool threw = false;
        {
            FailAt f(n);
            try {
                op(true);
            } catch (std::exception const&) {
                threw = true;
            }
        }
        s.nontrivial(threw);
        if (what == 1) {
            // mapping releases what the target held
            CK(hx::live_allocs() <= live, "mapping left allocations behind");
            target.reset();
        } else if (!(what == 0 && threw)) // (the runtime keeps the text of a failed stream open)
            CK_EQ("live allocations after the failure", live, hx::live_allocs(), hx::kind_name(kind) << " operation " << what << " allocation " << n << " of " << total);
        hx::same_answers("another object after a failed allocation", exp, ask<K>(*other, a, seed, 30), a);
        hx::same_answers("the frozen, mapped or queried object after a failed allocation", exp_c, ask<K>(*same, c, seed, 30), c);
        CK(frozen(*other) == img, "another object freezes differently after a failed allocation");
        CK(frozen(*same) == img_c, "the object freezes differently after a failed allocation");
        Rng r(rs);
        std::unique_ptr<T> again(K::make(c, r));
        hx::same_answers("construction after a failed allocation", exp_c, ask<K>(*again, c, seed, 30), c);
        if (s.draw(2)) again->swap(*other);
        else util::dispose(*other);
    });
}

namespace {
template <typename P>
void mv_fault(Src& s)
{
    typedef mapper::mappable_vector<P> V;
    V o;
    std::vector<P> model;
    auto check = [&](const char* after) {
        CK_EQ("size", uint64_t(model.size()), o.size(), after);
        CK_EQ("end - begin", ptrdiff_t(model.size()), o.end() - o.begin(), after);
        for (size_t i = 0; i < model.size(); ++i) CK_EQ("element", model[i], o[i], after << " index " << i);
    };
    unsigned steps = 1 + unsigned(s.draw(8));
    for (unsigned st = 0; st < steps; ++st) {
        std::vector<uint64_t> ref = gen::values(s, s.draw(4) ? s.draw(12) : s.draw(2000), 200);
        std::vector<P> v(ref.begin(), ref.end());
        std::vector<P> const keep = v;
        unsigned op = unsigned(s.draw(4));
        uint64_t n = 1 + s.draw(3);
        DESC(s, "op " << op << " of " << v.size() << " elements, allocation " << n << " fails; ");
        bool threw = false, faulty = s.draw(3) != 0;
        {
            std::list<P> l(v.begin(), v.end());
            uint64_t live = hx::live_allocs();
            {
                FailAt f(faulty ? n : 0);
                try {
                    switch (op) {
                    case 0: o.steal(v); break;
                    case 1: o.assign(v); break;
                    case 2: o.assign(l); break;
                    default: V(v).swap(o);
                    }
                } catch (std::bad_alloc const&) {
                    threw = true;
                }
            }
            if (threw) CK(hx::live_allocs() <= live, "allocations left over by a failed operation");
        }
        if (!threw) model = keep;
        else {
            s.nontrivial();
            // the old value or an empty vector
            if (o.size() == 0) model.clear();
            if (op == 0) CK(v == keep, "a failed steal changed its source");
        }
        check(threw ? "after a failed operation" : "after an operation");
    }
}
} // namespace

FACET(mv_alloc_fault, "a case is a history of steal, assign and construct on a mappable_vector in which allocations fail; after a failure the vector holds its old value or is empty, and nothing is left over; non-trivial if a failing allocation was reached")
{
    uint64_t live = hx::live_allocs();
    if (s.draw(2)) mv_fault<uint8_t>(s);
    else mv_fault<uint64_t>(s);
    (void)live;
}

// ------------------------------------------------------------ throwing input
namespace {
struct Boom : std::exception {};
uint64_t g_left; // dereferences until Boom (0: never)
uint64_t g_count;
template <typename E>
struct throwing_iterator {
    typedef std::forward_iterator_tag iterator_category;
    typedef E value_type;
    typedef ptrdiff_t difference_type;
    typedef E const* pointer;
    typedef E const& reference;
    E const* p;
    throwing_iterator() : p(0) {}
    explicit throwing_iterator(E const* q) : p(q) {}
    reference operator*() const
    {
        ++g_count;
        if (g_left && --g_left == 0) throw Boom();
        return *p;
    }
    throwing_iterator& operator++() { ++p; return *this; }
    throwing_iterator operator++(int) { throwing_iterator t = *this; ++p; return t; }
    bool operator==(throwing_iterator o) const { return p == o.p; }
    bool operator!=(throwing_iterator o) const { return p != o.p; }
};
struct throwing_less {
    bool operator()(uint64_t a, uint64_t b) const
    {
        ++g_count;
        if (g_left && --g_left == 0) throw Boom();
        return a < b;
    }
};
template <typename F>
void explore(Src& s, const char* what, F f)
{
    g_left = 0;
    g_count = 0;
    f();
    uint64_t total = g_count;
    uint64_t n = pick_point(s, total);
    DESC(s, what << ": input " << n << " of " << total << " throws");
    s.label(what);
    uint64_t live = hx::live_allocs();
    bool threw = false;
    g_left = n;
    try {
        f();
    } catch (Boom const&) {
        threw = true;
    }
    g_left = 0;
    s.nontrivial(threw);
    CK(threw, what << ": an exception thrown by the input did not reach the caller");
    CK_EQ("live allocations after the exception", live, hx::live_allocs(), what);
}
} // namespace

FACET(throwing_input, "a case is a structure built from a range whose iterator throws at a drawn dereference, or a cartesian_tree whose comparator throws, or an assign from such a range; checked: the exception arrives, no allocation is left over, the target of assign is empty or unchanged; non-trivial if it threw")
{
    uint64_t n = 1 + s.draw(s.draw(4) ? 60 : 3000);
    unsigned what = unsigned(s.draw(13));
    std::vector<uint64_t> v = gen::values(s, n, what == 8 ? 15 : 1 << 20);
    std::vector<bool> flags;
    std::unique_ptr<bool[]> b(new bool[n]);
    for (uint64_t i = 0; i < n; ++i) b[i] = v[i] & 1;
    typedef throwing_iterator<uint64_t> It;
    typedef throwing_iterator<bool> BIt;
    boost::iterator_range<It> r(It(v.data()), It(v.data() + n));
    boost::iterator_range<BIt> br(BIt(b.get()), BIt(b.get() + n));
    switch (what) {
    case 0: explore(s, "mappable_vector", [&] { mapper::mappable_vector<uint64_t> o(r); }); break;
    case 1: explore(s, "mappable_vector<uint8_t>", [&] { mapper::mappable_vector<uint8_t> o(br); }); break;
    case 2: explore(s, "bit_vector", [&] { bit_vector o(br); }); break;
    case 3: explore(s, "rs_bit_vector", [&] { rs_bit_vector o(br, true, true); }); break;
    case 4: explore(s, "elias_fano_list", [&] { elias_fano_list o(r); }); break;
    case 5: explore(s, "elias_fano_compressed_list", [&] { elias_fano_compressed_list o(r); }); break;
    case 6: explore(s, "gamma_vector", [&] { gamma_vector o(r); }); break;
    case 7: explore(s, "gamma_bit_vector", [&] { gamma_bit_vector o(r); }); break;
    case 8: explore(s, "nibble_vector", [&] { nibble_vector o(r); }); break;
    case 9: explore(s, "cartesian_tree", [&] { cartesian_tree o(r); }); break;
    case 10: explore(s, "cartesian_tree comparator", [&] { cartesian_tree o(v, throwing_less()); }); break;
    case 11: explore(s, "topk_vector", [&] { topk_vector<mapper::mappable_vector<uint64_t>> o(r); }); break;
    default: {
        mapper::mappable_vector<uint64_t> o;
        std::vector<uint64_t> old(3, 7);
        explore(s, "mappable_vector assign", [&] {
            o.assign(old);
            try {
                o.assign(r);
            } catch (...) {
                CK(o.size() == 0 || (o.size() == 3 && o[0] == 7 && o[2] == 7), "assign failed and left a vector of " << o.size());
                for (uint64_t x : o) CK_EQ("element", uint64_t(7), x, "");
                o.clear();
                throw;
            }
            o.clear();
        });
    }
    }
}

// ----------------------------------------------------------- throwing stream
FACET(throwing_stream, "a case is a structure frozen through a stream that is set to throw, onto a file that may not grow beyond a drawn number of bytes or a full device; checked: freeze or close throws, no allocation is left over, the structure is unchanged; non-trivial if it threw")
{
    unsigned kind = unsigned(s.draw(hx::K_COUNT));
    Content c = hx::make_content(s, kind, s.draw(4) ? 3000 : 100000);
    DESC(s, hx::show_content(c) << "; ");
    s.label(hx::kind_name(kind));
    hx::warm_iostreams();
    signal(SIGXFSZ, SIG_IGN);
    with_kind(kind, [&](auto k) {
        typedef decltype(k) K;
        Rng r(s.seed());
        std::unique_ptr<typename K::T> o(K::make(c, r));
        std::string img = frozen(*o);
        tmp_path p("ts");
        bool full = s.draw(4) == 0, unbuffered = s.draw(3) == 0;
        if (full && access("/dev/full", W_OK)) throw eng::Discard();
        uint64_t limit = s.draw(2) ? s.draw(img.size() + 1) : s.draw(std::min<uint64_t>(img.size(), 40));
        bool hits = full || limit < img.size();
        DESC(s, (full ? "full device" : "limit " + std::to_string(limit)) << " of " << img.size());
        struct rlimit old, rl;
        if (getrlimit(RLIMIT_FSIZE, &old)) throw eng::Discard();
        rl = old;
        rl.rlim_cur = rlim_t(limit);
        bool threw = false;
        auto attempt = [&](bool first) {
            uint64_t live = hx::live_allocs();
            {
                std::ofstream f;
                if (unbuffered) f.rdbuf()->pubsetbuf(0, 0);
                f.open(full ? "/dev/full" : p.p.c_str(), std::ios::binary);
                f.exceptions(std::ios::badbit | std::ios::failbit);
                if (!full) setrlimit(RLIMIT_FSIZE, &rl);
                try {
                    mapper::freeze(*o, f);
                    f.close();
                } catch (std::ios_base::failure const&) {
                    threw = true;
                }
                f.exceptions(std::ios::goodbit);
                f.clear();
                f.close();
            }
            setrlimit(RLIMIT_FSIZE, &old);
            if (!first) CK_EQ("live allocations after a freeze through a throwing stream", live, hx::live_allocs(), hx::kind_name(kind));
        };
        attempt(true); // one-time allocations of the runtime
        attempt(false);
        s.nontrivial(threw);
        CK(threw == hits, "freezing through a throwing stream " << (threw ? "threw though everything was written" : "did not throw though not everything could be written"));
        CK(frozen(*o) == img, "the structure freezes differently after a failed freeze");
    });
}

namespace {
struct thrower { // a user type whose map() throws between two members
    mapper::mappable_vector<uint64_t> a;
    rs_bit_vector b;
    gamma_vector c;
    uint32_t d = 7;
    template <typename Visitor>
    void map(Visitor& visit)
    {
        step();
        visit(a, "a");
        step();
        visit(b, "b");
        step();
        visit(d, "d")(c, "c");
        step();
    }
    static void step()
    {
        ++g_count;
        if (g_left && --g_left == 0) throw Boom();
    }
};
struct outer {
    thrower x, y;
    template <typename Visitor>
    void map(Visitor& visit)
    {
        visit(x, "x")(y, "y");
    }
};
} // namespace

FACET(throwing_member, "a case is a user type whose map() throws at a drawn point while it is frozen, measured or mapped; checked: the exception arrives, no allocation is left over, the next attempt succeeds with the same result; non-trivial if it threw")
{
    hx::warm_iostreams();
    outer o;
    for (thrower* t : {&o.x, &o.y}) {
        std::vector<uint64_t> v = gen::values(s, s.draw(60), 1 << 20);
        t->a.assign(v);
        gamma_vector(v).swap(t->c);
        std::vector<bool> w;
        for (uint64_t x : v) w.push_back(x & 1);
        rs_bit_vector(w, true).swap(t->b);
    }
    g_left = 0;
    std::string img = frozen(o);
    tmp_path p("tm");
    unsigned what = unsigned(s.draw(5));
    uint64_t seen = 0;
    switch (what) {
    case 0: explore(s, "freeze by name", [&] { seen = mapper::freeze(o, p); }); break;
    case 1: explore(s, "freeze through a stream", [&] { std::ofstream f(p.p.c_str(), std::ios::binary); seen = mapper::freeze(o, f); }); break;
    case 2: explore(s, "size_of", [&] { seen = 8 + mapper::size_of(o); }); break;
    case 3: explore(s, "size_tree_of", [&] { seen = 8 + mapper::size_tree_of(o)->size; }); break;
    default: explore(s, "map", [&] { outer m; seen = mapper::map(m, img.data()); });
    }
    CK_EQ("bytes", uint64_t(img.size()), seen, "");
    CK(frozen(o) == img, "freezes differently after an exception in map()");
}
