// C34: mapping a frozen structure and querying it reads only a few pages of
// the mapped bytes. The image lies in memory that is inaccessible until a
// fault on a page makes that page readable and counts it; the count is reset
// before every measured call.
#include <signal.h>
#include <sys/mman.h>
#include "huge.hpp"
#include "kinds.hpp"

using namespace succinct;
using namespace succinct::kinds;
using eng::Src;
using hx::Content;

namespace {
const size_t PG = 4096;
char* g_base = 0;
size_t g_pages = 0;
const size_t MAXT = 1 << 16;
uint32_t g_touched[MAXT];
volatile size_t g_n = 0;

void on_fault(int sig, siginfo_t* si, void*)
{
    char* a = (char*)si->si_addr;
    if (g_base && a >= g_base && a < g_base + g_pages * PG) {
        size_t p = size_t(a - g_base) / PG;
        size_t n = 1;
        if (g_n >= MAXT - 1) n = g_pages - p; // far beyond every bound: stop counting
        if (mprotect(g_base + p * PG, n * PG, PROT_READ) == 0) {
            if (g_n < MAXT - 1) {
                g_touched[g_n] = uint32_t(p);
                g_n = g_n + 1;
            }
            return;
        }
    }
    signal(sig, SIG_DFL); // a real fault: it happens again and ends the process
}

struct Watched {
    struct sigaction old;
    explicit Watched(std::string const& b)
    {
        g_pages = b.size() / PG + 1;
        g_base = (char*)mmap(0, g_pages * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (g_base == (char*)MAP_FAILED) {
            g_base = 0;
            throw eng::Discard();
        }
        memcpy(g_base, b.data(), b.size());
        g_n = 0;
        mprotect(g_base, g_pages * PG, PROT_NONE);
        struct sigaction sa;
        memset(&sa, 0, sizeof(sa));
        sa.sa_sigaction = on_fault;
        sa.sa_flags = SA_SIGINFO;
        sigaction(SIGSEGV, &sa, &old);
    }
    ~Watched()
    {
        sigaction(SIGSEGV, &old, 0);
        munmap(g_base, g_pages * PG);
        g_base = 0;
        g_pages = 0;
    }
    Watched(Watched const&) = delete;
};

std::map<std::string, double>& worst()
{
    static std::map<std::string, double> m;
    return m;
}
template <typename F>
void measure(const char* what, double bound, F f)
{
    for (size_t i = 0; i < g_n; ++i) mprotect(g_base + g_touched[i] * PG, PG, PROT_NONE);
    g_n = 0;
    f();
    size_t n = g_n;
    if (getenv("PAGES_REPORT")) {
        double& w = worst()[what];
        if (double(n) / bound > w) {
            w = double(n) / bound;
            FILE* fp = fopen(getenv("PAGES_REPORT"), "a");
            fprintf(fp, "%s %.3f n=%zu bound=%.1f pages=%zu\n", what, w, n, bound, g_pages);
            fclose(fp);
        }
        return;
    }
    if (double(n) > bound) {
        std::ostringstream os;
        os << what << " read " << n << " pages, bound " << bound << " (image of " << g_pages << " pages)";
        eng::fail(os.str());
    }
}

volatile uint64_t g_sink;
void use(uint64_t x) { g_sink = g_sink + x; }

double lg(uint64_t n) { return n < 2 ? 0 : std::log2(double(n)); }

uint64_t big(Src& s) // up to a few megabytes of image
{
    uint64_t t = s.draw(10);
    uint64_t mx = t < 4 ? 300000 : t < 8 ? 3000000 : 20000000;
    return mx / 4 + s.draw(mx - mx / 4);
}

void finish_map(Src& s, unsigned kind, uint64_t n, size_t bytes)
{
    s.label(hx::kind_name(kind));
    DESC(s, hx::kind_name(kind) << " of " << n << ", image " << bytes << " bytes; ");
    s.nontrivial(bytes > 16 * PG);
}
const uint64_t Q = 60;
const double MAP_PAGES = 20;
} // namespace

FACET(pages_bits, "a case is a bit_vector, rs_bit_vector (any hints) or darray pair of up to 20M bits, mapped over counted pages; pages read by map and by each of a sample of queries are compared with the bounds; non-trivial if the image exceeds 16 pages")
{
    unsigned kind = unsigned(s.draw(3));
    uint64_t n = big(s);
    Bits x = gen::bits_of_size(s, n);
    bool f1 = s.draw(2), f2 = s.draw(2);
    Rng r(s.seed());
    gen::Oracle ref(x);
    if (kind == 0) {
        bit_vector o, m;
        bit_vector_builder b;
        route_builder(x, r, b);
        bit_vector(&b).swap(o);
        std::string img = frozen(o);
        Watched w(img);
        finish_map(s, hx::K_BV, x.n, img.size());
        measure("bit_vector map", MAP_PAGES, [&] { mapper::map(m, g_base); });
        measure("bit_vector size", 2, [&] { use(m.size()); });
        for (uint64_t q = 0; q < Q && x.n > 64; ++q) {
            uint64_t i = r.below(x.n - 64);
            measure("bit_vector operator[]", 2, [&] { use(m[i]); });
            measure("bit_vector get_bits", 2, [&] { use(m.get_bits(i, r.below(65))); });
            measure("bit_vector get_word", 2, [&] { use(m.get_word(i)); });
            measure("bit_vector get_word56", 2, [&] { use(m.get_word56(i)); });
            if (ref.rank(i) < ref.ones()) {
                double g = double(ref.select(ref.rank(i)) - i);
                measure("bit_vector successor1", 4 + g / 32768, [&] { use(m.successor1(i)); });
                measure("bit_vector unary_enumerator next", 4 + g / 32768, [&] {
                    bit_vector::unary_enumerator e(m, i);
                    use(e.next());
                });
                measure("bit_vector enumerator skip_zeros", 4 + g / 32768, [&] {
                    bit_vector::enumerator e(m, i);
                    use(e.skip_zeros());
                });
            }
            if (ref.rank(i + 1)) {
                double g = double(i - ref.select(ref.rank(i + 1) - 1));
                measure("bit_vector predecessor1", 4 + g / 32768, [&] { use(m.predecessor1(i)); });
            }
            uint64_t z = i - ref.rank(i); // zeros before i
            if (z < ref.zeros()) {
                double g = double(ref.select0(z) - i);
                measure("bit_vector successor0", 4 + g / 32768, [&] { use(m.successor0(i)); });
                uint64_t k = r.below(std::min<uint64_t>(ref.zeros() - z, 1000));
                g = double(ref.select0(z + k) - i);
                measure("bit_vector unary_enumerator skip0", 4 + g / 32768, [&] {
                    bit_vector::unary_enumerator e(m, i);
                    e.skip0(k);
                    use(e.position());
                });
            }
            if (i + 1 - ref.rank(i + 1)) {
                double g = double(i - ref.select0(i - ref.rank(i + 1)));
                measure("bit_vector predecessor0", 4 + g / 32768, [&] { use(m.predecessor0(i)); });
            }
            uint64_t left = ref.ones() - ref.rank(i);
            if (left) {
                uint64_t k = r.below(std::min<uint64_t>(left, 1000));
                double g = double(ref.select(ref.rank(i) + k) - i);
                measure("bit_vector unary_enumerator skip", 4 + g / 32768, [&] {
                    bit_vector::unary_enumerator e(m, i);
                    use(e.skip_no_move(k));
                    e.skip(k);
                    use(e.position());
                });
            }
            measure("bit_vector enumerator take", 3, [&] {
                bit_vector::enumerator e(m, i);
                use(e.take(1 + r.below(64)));
            });
        }
        bit_vector().swap(m);
    } else if (kind == 1) {
        rs_bit_vector o, m;
        bit_vector_builder b;
        route_builder(x, r, b);
        rs_bit_vector(&b, f1, f2).swap(o);
        std::string img = frozen(o);
        Watched w(img);
        finish_map(s, hx::K_RS, x.n, img.size());
        measure("rs_bit_vector map", MAP_PAGES, [&] { mapper::map(m, g_base); });
        measure("rs_bit_vector num_ones", 2, [&] { use(m.num_ones() + m.size()); });
        measure("rs_bit_vector num_zeros", 2, [&] { use(m.num_zeros()); });
        double sb = 10 + 2 * lg(x.n / 131072 + 1);
        for (uint64_t q = 0; q < Q; ++q) {
            uint64_t i = r.below(x.n + 1);
            measure("rs_bit_vector rank", 6, [&] { use(m.rank(i)); });
            measure("rs_bit_vector rank0", 6, [&] { use(m.rank0(i)); });
            if (ref.ones()) measure("rs_bit_vector select", sb, [&] { use(m.select(r.below(ref.ones()))); });
            if (ref.zeros()) measure("rs_bit_vector select0", sb, [&] { use(m.select0(r.below(ref.zeros()))); });
        }
        rs_bit_vector().swap(m);
    } else {
        darrays o, m;
        bit_vector_builder b;
        route_builder(x, r, b);
        bit_vector(&b).swap(o.bv);
        darray1(o.bv).swap(o.d1);
        darray0(o.bv).swap(o.d0);
        std::string img = frozen(o);
        Watched w(img);
        finish_map(s, hx::K_DARRAY, x.n, img.size());
        measure("darray map", MAP_PAGES, [&] { mapper::map(m, g_base); });
        measure("darray num_positions", 2, [&] { use(m.d1.num_positions() + m.d0.num_positions()); });
        for (uint64_t q = 0; q < Q; ++q) {
            if (ref.ones()) measure("darray1 select", 12, [&] { use(m.d1.select(m.bv, r.below(ref.ones()))); });
            if (ref.zeros()) measure("darray0 select", 12, [&] { use(m.d0.select(m.bv, r.below(ref.zeros()))); });
        }
        darrays().swap(m);
    }
}

FACET(pages_trees, "a case is a bp_vector of up to 20M bits, or a cartesian_tree or topk_vector of up to 4M values, mapped over counted pages; non-trivial if the image exceeds 16 pages")
{
    unsigned kind = unsigned(s.draw(3));
    Rng r(s.seed());
    if (kind == 0) {
        Bits x = hx::balanced(s, big(s));
        bool f1 = s.draw(2), f2 = s.draw(2);
        bp_vector o, m;
        bit_vector_builder b;
        route_builder(x, r, b);
        bp_vector(&b, f1, f2).swap(o);
        std::string img = frozen(o);
        Watched w(img);
        finish_map(s, hx::K_BP, x.n, img.size());
        measure("bp_vector map", MAP_PAGES, [&] { mapper::map(m, g_base); });
        double nb = 20 + 4 * lg(x.n / 32768 + 1);
        gen::Oracle ref(x);
        for (uint64_t q = 0; q < Q && x.n; ++q) {
            uint64_t i = r.below(x.n);
            measure("bp_vector excess", 8, [&] { use(uint64_t(m.excess(i))); });
            if (x.get(i)) {
                measure("bp_vector find_close", nb, [&] { use(m.find_close(i)); });
                if (2 * ref.rank(i) - i > 0) measure("bp_vector enclose", nb, [&] { use(m.enclose(i)); });
            } else
                measure("bp_vector find_open", nb, [&] { use(m.find_open(i)); });
            uint64_t e = i + r.below(x.n - i + 1);
            bp_vector::excess_t me;
            measure("bp_vector excess_rmq", nb, [&] { use(m.excess_rmq(i, e, me)); });
        }
        bp_vector().swap(m);
        return;
    }
    uint64_t n = 1 + big(s) / 5;
    std::vector<uint64_t> v = gen::values(s, n, s.draw(2) ? 1000 : UINT64_MAX);
    double nb = 30 + 6 * lg(n / 16384 + 1);
    if (kind == 1) {
        cartesian_tree o, m;
        cartesian_tree(v).swap(o);
        std::string img = frozen(o);
        Watched w(img);
        finish_map(s, hx::K_CT, n, img.size());
        measure("cartesian_tree map", MAP_PAGES, [&] { mapper::map(m, g_base); });
        measure("cartesian_tree size", 2, [&] { use(m.size()); });
        for (uint64_t q = 0; q < Q; ++q) {
            uint64_t a = r.below(n), b = a + r.below(n - a);
            measure("cartesian_tree rmq", nb, [&] { use(m.rmq(a, b)); });
        }
        cartesian_tree().swap(m);
    } else {
        typedef topk_vector<mapper::mappable_vector<uint64_t>> T;
        T o, m;
        T(v).swap(o);
        std::string img = frozen(o);
        Watched w(img);
        finish_map(s, hx::K_TK64, n, img.size());
        measure("topk_vector map", MAP_PAGES, [&] { mapper::map(m, g_base); });
        measure("topk_vector size", 2, [&] { use(m.size()); });
        for (uint64_t q = 0; q < Q / 3; ++q) {
            uint64_t a = r.below(n), b = a + r.below(n - a), k = 1 + r.below(6);
            measure("topk_vector topk", (2 * double(k) + 1) * (nb + 1), [&] { use(m.topk(a, b, k).size()); });
            measure("topk_vector operator[]", 2, [&] { use(m[a]); });
            measure("topk_vector enumerator", (2 * double(k) + 1) * (nb + 1), [&] {
                T::enumerator e;
                m.get_topk_enumerator(a, b, e);
                for (uint64_t j = 0; j < k && e.next(); ++j) use(boost::get<1>(e.value()));
            });
        }
        T().swap(m);
    }
}

FACET(pages_lists, "a case is an elias_fano, elias_fano_list, elias_fano_compressed_list, gamma_vector, gamma_bit_vector, darray64, nibble_vector or mappable_vector of up to 3M values, mapped over counted pages; non-trivial if the image exceeds 16 pages")
{
    static const unsigned kinds[] = {hx::K_EF, hx::K_EFL, hx::K_EFCL, hx::K_GV, hx::K_GBV, hx::K_DA64, hx::K_NV, hx::K_MV32};
    unsigned kind = kinds[s.draw(8)];
    uint64_t n = 1 + big(s) / 6;
    Content c;
    c.kind = kind;
    Rng r(s.seed());
    if (kind == hx::K_EF) {
        uint64_t u = s.draw(2) ? n * (1 + s.draw(300)) : s.logu(UINT64_MAX - 1);
        unsigned dup = unsigned(s.draw(3));
        for (uint64_t i = 0; i < n; ++i) c.vals.push_back(dup == 1 && i && r.below(3) == 0 ? c.vals[i - 1] : dup == 2 && r.below(2) ? r.below(u / 1000 + 1) : r.below(u + 1));
        std::sort(c.vals.begin(), c.vals.end());
        c.universe = u;
        c.f1 = true;
    } else
        c.vals = gen::values(s, n, kind == hx::K_NV ? 15 : kind == hx::K_DA64 ? 64 : kind == hx::K_MV32 ? 0xffffffffu : kind == hx::K_EFL ? (uint64_t(1) << 40) : UINT64_MAX - 2);
    uint64_t universe = c.universe;
    if (kind == hx::K_EFL)
        for (uint64_t v : c.vals) universe += v;
    double l = 0;
    if (universe / n) l = std::floor(std::log2(double(universe / n)));
    double L = std::pow(2.0, l);
    auto run = [&](auto k) {
        typedef decltype(k) K;
        typename K::T o, m;
        K::build(c, o, r);
        std::string img = frozen(o);
        Watched w(img);
        finish_map(s, kind, n, img.size());
        measure("list map", MAP_PAGES, [&] { mapper::map(m, g_base); });
        measure("list size", 2, [&] {
            if constexpr (K::id == hx::K_DA64) use(m.num_ones());
            else use(m.size());
            if constexpr (K::id == hx::K_EF) use(m.num_ones());
        });
        for (uint64_t q = 0; q < Q; ++q) {
            uint64_t i = r.below(n);
            if constexpr (K::id == hx::K_EF) {
                // delta and select_range look for the neighbouring one, rank and
                // operator[] scan the values sharing the high part
                double gb = i ? double(c.vals[i] - c.vals[i - 1]) / L : 0, ga = i + 1 < n ? double(c.vals[i + 1] - c.vals[i]) / L : 0;
                measure("elias_fano select", 16, [&] { use(m.select(i)); });
                measure("elias_fano delta", 20 + gb / 32768, [&] { use(m.delta(i)); });
                if (i + 1 < n) measure("elias_fano select_range", 20 + ga / 32768, [&] { use(m.select_range(i).second); });
                measure("elias_fano select_enumerator", 20 + (double(c.vals[i]) - double(i ? c.vals[i - 1] : 0)) / L / 32768, [&] {
                    elias_fano::select_enumerator e(m, i);
                    use(e.next());
                });
                if (universe) {
                    uint64_t p = r.below(2) ? r.below(universe) : std::min(c.vals[i], universe - 1);
                    uint64_t Li = uint64_t(L), lo = p / Li * Li;
                    double in = double(std::upper_bound(c.vals.begin(), c.vals.end(), lo + (Li - 1)) - std::lower_bound(c.vals.begin(), c.vals.end(), lo));
                    double scan = in * (l + 1) / 32768;
                    measure("elias_fano rank", 20 + scan, [&] { use(m.rank(p)); });
                    measure("elias_fano operator[]", 20 + scan, [&] { use(m[p]); });
                    if (p <= c.vals.back()) measure("elias_fano successor1", 36 + scan, [&] { use(m.successor1(p)); });
                    if (p >= c.vals.front() && p + 1 < universe) {
                        uint64_t lo1 = (p + 1) / Li * Li;
                        double in1 = double(std::upper_bound(c.vals.begin(), c.vals.end(), lo1 + (Li - 1)) - std::lower_bound(c.vals.begin(), c.vals.end(), lo1));
                        measure("elias_fano predecessor1", 36 + in1 * (l + 1) / 32768, [&] { use(m.predecessor1(p)); });
                    }
                }
            } else if constexpr (K::id == hx::K_DA64) {
                measure("darray64 select", 8, [&] { use(m.select(i)); });
            } else {
                double b = K::id == hx::K_NV || K::id == hx::K_MV32 ? 2 : K::id == hx::K_EFL ? 20 + double(c.vals[i]) / L / 32768 : 16;
                std::string what = std::string(hx::kind_name(K::id)) + " operator[]";
                measure(what.c_str(), b, [&] { use(uint64_t(m[i])); });
                what = std::string(hx::kind_name(K::id)) + " forward_enumerator";
                if constexpr (K::id != hx::K_NV)
                    measure(what.c_str(), b, [&] {
                        forward_enumerator<typename K::T> e(m, i);
                        use(uint64_t(e.next()));
                    });
            }
        }
        if constexpr (K::id == hx::K_EFL) measure("elias_fano_list sum", 16, [&] { use(m.sum()); });
        typename K::T().swap(m);
    };
    switch (kind) {
    case hx::K_EF: run(EF()); break;
    case hx::K_EFL: run(EFL()); break;
    case hx::K_EFCL: run(EFCL()); break;
    case hx::K_GV: run(GV()); break;
    case hx::K_GBV: run(GBV()); break;
    case hx::K_DA64: run(DA64()); break;
    case hx::K_NV: run(NV()); break;
    default: run(MV32());
    }
}

FACET(pages_huge, "a case is an rs_bit_vector (any hints), bp_vector or mappable_vector of 50 to 700 megabytes, mapped over counted pages; always non-trivial")
{
    s.nontrivial();
    unsigned kind = unsigned(s.draw(3));
    Rng r(s.seed());
    if (kind == 0) {
        hx::Huge h = hx::huge_bits(s, (uint64_t(1) << 28) + (s.draw(4) ? s.draw(uint64_t(1) << 30) : s.draw(uint64_t(1) << 32)));
        unsigned hints = unsigned(s.draw(4));
        DESC(s, "rs_bit_vector n=" << h.n << " ones=" << h.ones << " hints=" << hints);
        std::unique_ptr<Watched> w;
        {
            rs_bit_vector o;
            bit_vector_builder b;
            h.fill(b);
            rs_bit_vector(&b, hints & 1, hints & 2).swap(o);
            w.reset(new Watched(frozen(o)));
        }
        rs_bit_vector m;
        measure("rs_bit_vector map", MAP_PAGES, [&] { mapper::map(m, g_base); });
        measure("rs_bit_vector num_ones", 2, [&] { use(m.num_ones() + m.size()); });
        double sb = 10 + 2 * lg(h.n / 131072 + 1);
        for (unsigned q = 0; q < 500; ++q) {
            uint64_t i = r.below(h.n);
            measure("rs_bit_vector operator[]", 2, [&] { use(m[i]); });
            measure("rs_bit_vector rank", 6, [&] { use(m.rank(i)); });
            measure("rs_bit_vector rank0", 6, [&] { use(m.rank0(i)); });
            if (h.ones) measure("rs_bit_vector select", sb, [&] { use(m.select(r.below(h.ones))); });
            if (h.n - h.ones) measure("rs_bit_vector select0", sb, [&] { use(m.select0(r.below(h.n - h.ones))); });
        }
    } else if (kind == 1) {
        hx::Huge h;
        uint64_t deep = s.draw(3) ? s.draw(1000) : s.draw(uint64_t(1) << 28), n = (uint64_t(1) << 27) + s.draw(uint64_t(1) << 28);
        h.add(deep, ~uint64_t(0));
        h.add(2 * n, 0x5555555555555555ull);
        h.add(deep, 0);
        DESC(s, "bp_vector of " << n << " pairs at depth " << deep);
        std::unique_ptr<Watched> w;
        {
            bp_vector o;
            bit_vector_builder b;
            h.fill(b);
            bp_vector(&b).swap(o);
            w.reset(new Watched(frozen(o)));
        }
        bp_vector m;
        measure("bp_vector map", MAP_PAGES, [&] { mapper::map(m, g_base); });
        double nb = 20 + 4 * lg(h.n / 32768 + 1);
        for (unsigned q = 0; q < 500; ++q) {
            uint64_t i = r.below(h.n), e = i + r.below(h.n - i + 1);
            measure("bp_vector excess", 8, [&] { use(uint64_t(m.excess(i))); });
            if (h.get(i)) measure("bp_vector find_close", nb, [&] { use(m.find_close(i)); });
            else measure("bp_vector find_open", nb, [&] { use(m.find_open(i)); });
            measure("bp_vector excess_rmq", nb, [&] { use(m.excess_rmq(i, e)); });
        }
    } else {
        uint64_t n = 8000000 + s.draw(60000000);
        DESC(s, "mappable_vector of " << n << " 64-bit values");
        std::unique_ptr<Watched> w;
        {
            std::vector<uint64_t> v(n);
            for (uint64_t i = 0; i < n; ++i) v[i] = i * 0x9e3779b97f4a7c15ull;
            mapper::mappable_vector<uint64_t> o;
            o.steal(v);
            w.reset(new Watched(frozen(o)));
        }
        mapper::mappable_vector<uint64_t> m;
        measure("mappable_vector map", MAP_PAGES, [&] { mapper::map(m, g_base); });
        for (unsigned q = 0; q < 500; ++q) {
            uint64_t i = r.below(n);
            measure("mappable_vector operator[]", 2, [&] { use(m[i]); });
        }
    }
}
