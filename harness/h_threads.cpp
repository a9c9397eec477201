// C32: concurrent const queries, and independent objects in different threads.
#include <thread>
#include <atomic>
#include <sstream>
#include "kinds.hpp"
#include "util.hpp"
#include "vbyte.hpp"

using namespace succinct;
using namespace succinct::kinds;
using eng::Src;

namespace {
struct Gate { // threads start together
    std::atomic<unsigned> ready;
    unsigned n;
    explicit Gate(unsigned k) : ready(0), n(k) {}
    void pass()
    {
        ready.fetch_add(1);
        while (ready.load() < n) std::this_thread::yield();
    }
};
void rethrow(std::vector<std::string> const& e)
{
    for (auto const& x : e)
        if (!x.empty()) eng::fail(x);
}
} // namespace

FACET(shared_queries, "a case is a structure (built or mapped) queried by 2 to 4 threads at once, with the same or different query lists, before any sequential query; answers compared with a sequential run and the frozen image before with the one after; non-trivial with at least 2 elements")
{
    unsigned kind = unsigned(s.draw(hx::K_COUNT));
    uint64_t t = s.draw(100);
    Content c = hx::make_content(s, kind, t < 50 ? 300 : t < 85 ? 3000 : 30000);
    DESC(s, hx::show_content(c));
    s.label(hx::kind_name(kind));
    s.nontrivial(hx::content_size(c) >= 2);
    unsigned nt = 2 + unsigned(s.draw(3));
    bool same = s.draw(2), mapped = s.draw(3) == 0;
    unsigned rounds = 1 + unsigned(s.draw(3));
    uint64_t seed = s.seed(), budget = 100 + s.draw(100);
    DESC(s, " threads=" << nt << (same ? " same queries" : "") << (mapped ? " mapped" : ""));
    with_kind(kind, [&](auto k) {
        typedef decltype(k) K;
        typename K::T o, m;
        Rng r(s.seed());
        K::build(c, o, r);
        std::string img = frozen(o);
        std::vector<uint64_t> buf(img.size() / 8 + 1);
        memcpy(buf.data(), img.data(), img.size());
        typename K::T const* q = &o;
        if (mapped) {
            mapper::map(m, (const char*)buf.data());
            q = &m;
        }
        std::vector<Answers> got(nt);
        std::vector<std::string> err(nt);
        Gate g(nt);
        std::vector<std::thread> th;
        for (unsigned i = 0; i < nt; ++i)
            th.emplace_back([&, i]() {
                try {
                    g.pass();
                    for (unsigned j = 0; j < rounds; ++j) got[i] = ask<K>(*q, c, same ? seed : seed + i, budget);
                } catch (std::exception const& e) {
                    err[i] = e.what();
                } catch (...) {
                    err[i] = "exception in a querying thread";
                }
            });
        for (auto& x : th) x.join();
        rethrow(err);
        for (unsigned i = 0; i < nt; ++i)
            hx::same_answers("concurrent answers against sequential ones", ask<K>(*q, c, same ? seed : seed + i, budget), got[i], c);
        CK(frozen(o) == img, "the frozen image changed through const queries: " << hx::show_content(c));
        if (mapped) {
            CK(!memcmp(buf.data(), img.data(), img.size()), "const queries wrote to the mapped bytes: " << hx::show_content(c));
            typename K::T().swap(m);
        }
    });
}

FACET(private_objects, "a case is 2 to 4 contents (often of the same kind), each built, queried, frozen and mapped in its own thread at the same time; answers and image compared with a later sequential run; non-trivial with at least 2 elements in one")
{
    unsigned nt = 2 + unsigned(s.draw(3));
    bool same = s.draw(2);
    unsigned kind = unsigned(s.draw(hx::K_COUNT));
    std::vector<Content> c;
    for (unsigned i = 0; i < nt; ++i) {
        if (i && !same) kind = unsigned(s.draw(hx::K_COUNT));
        c.push_back(hx::make_content(s, kind, s.draw(4) ? 300 : 3000));
        DESC(s, hx::show_content(c.back()) << "; ");
        s.label(hx::kind_name(kind));
        s.nontrivial(hx::content_size(c.back()) >= 2);
    }
    uint64_t seed = s.seed(), route = s.seed(), budget = 80;
    auto work = [&](unsigned i, Answers& a, std::string& img) {
        with_kind(c[i].kind, [&](auto k) {
            typedef decltype(k) K;
            typename K::T o, m;
            Rng r(route + i);
            K::build(c[i], o, r);
            a = ask<K>(o, c[i], seed + i, budget);
            std::ostringstream tag;
            tag << "thr" << i;
            tmp_path p(tag.str().c_str());
            mapper::freeze(o, p);
            img = slurp(p.p);
            std::vector<uint64_t> buf(img.size() / 8 + 1);
            memcpy(buf.data(), img.data(), img.size());
            mapper::map(m, (const char*)buf.data());
            hx::same_answers("mapped in a thread", a, ask<K>(m, c[i], seed + i, budget), c[i]);
            typename K::T().swap(m);
        });
    };
    std::vector<Answers> got(nt);
    std::vector<std::string> img(nt), err(nt);
    Gate g(nt);
    std::vector<std::thread> th;
    for (unsigned i = 0; i < nt; ++i)
        th.emplace_back([&, i]() {
            try {
                g.pass();
                work(i, got[i], img[i]);
            } catch (eng::Violation const& v) {
                err[i] = v.msg;
            } catch (std::exception const& e) {
                err[i] = e.what();
            }
        });
    for (auto& x : th) x.join();
    rethrow(err);
    for (unsigned i = 0; i < nt; ++i) {
        Answers a;
        std::string im;
        work(i, a, im);
        hx::same_answers("object used in its own thread against a sequential run", a, got[i], c[i]);
        CK(im == img[i], "image frozen in a thread differs: " << hx::show_content(c[i]));
    }
}

namespace {
// What one thread does with objects of its own: line readers over a text,
// builders, vbyte buffers, size measurements, mapping a shared image.
struct Task {
    std::string text; // no NUL bytes
    bool trim;
    std::vector<uint64_t> vals;
    uint64_t seed;
};

template <typename It>
void join_lines(It b, It e, std::string& out)
{
    for (; b != e; ++b) {
        out += *b;
        out += '|';
    }
}

std::vector<std::string> tools(Task const& t, unsigned id, std::vector<uint64_t> const& image, size_t image_bytes)
{
    std::vector<std::string> out;
    std::ostringstream tag;
    tag << "tool" << id;
    tmp_path p(tag.str().c_str());
    {
        std::ofstream f(p.p.c_str(), std::ios::binary);
        f.write(t.text.data(), std::streamsize(t.text.size()));
    }
    std::string got;
    {
        util::auto_file f(p);
        std::string line;
        while (util::fast_getline(line, f.get(), t.trim)) {
            got += line;
            got += '|';
            std::this_thread::yield();
        }
    }
    out.push_back(got);
    got.clear();
    {
        util::auto_file f(p);
        util::line_range_t r = util::lines(f.get(), t.trim);
        join_lines(r.first, r.second, got);
    }
    out.push_back(got);
    got.clear();
    join_lines(util::buffer_line_iterator(t.text.data(), t.text.size()), util::buffer_line_iterator(), got);
    out.push_back(got);
    if (!t.text.empty()) {
        util::mmap_lines m(p.p);
        got.clear();
        join_lines(m.begin(), m.end(), got);
        out.push_back(got);
    }
    // vbyte
    std::vector<uint8_t> vb;
    std::ostringstream os;
    for (uint64_t x : t.vals) os << append_vbyte(vb, x) << ',';
    for (size_t o = 0; o < vb.size();) {
        size_t v;
        o += decode_vbyte(vb, o, v);
        os << v << ',';
    }
    // builders
    bit_vector_builder b;
    for (uint64_t x : t.vals) {
        b.append_bits(x & 0xFFFFF, 20);
        b.push_back(x & 1);
        b.zero_extend(x % 70);
    }
    bit_vector_builder b2(t.vals.size(), true);
    b2.append(b);
    b2.reverse();
    rs_bit_vector rs(&b2, true, true);
    os << rs.size() << ' ' << rs.num_ones() << ' ';
    for (uint64_t i = 0; i < rs.num_ones(); i += 37) os << rs.select(i) << ',';
    cartesian_tree::builder<uint64_t> cb;
    for (uint64_t x : t.vals) cb.push_back(x, std::greater<uint64_t>());
    cartesian_tree ct(&cb);
    for (uint64_t i = 0; i < t.vals.size(); i += 5) os << ct.rmq(i, std::min<uint64_t>(t.vals.size() - 1, i + 2 * (i % 50))) << ',';
    elias_fano::elias_fano_builder eb(uint64_t(1) << 40, t.vals.size());
    uint64_t last = 0;
    for (uint64_t x : t.vals) eb.push_back(last += x % 1000);
    elias_fano ef(&eb);
    for (uint64_t i = 0; i < t.vals.size(); i += 7) os << ef.select(i) << ',';
    out.push_back(os.str());
    // measuring and freezing
    std::ostringstream sz;
    mapper::size_tree_of(ct, "mine")->dump(sz);
    sz << mapper::size_of(ef) << ' ' << mapper::freeze(ef, p) << ' ' << mapper::freeze(rs, p);
    out.push_back(sz.str());
    out.push_back(slurp(p.p));
    // all threads map the same bytes, each into an object of its own
    if (image_bytes) {
        rs_bit_vector m;
        std::ostringstream q;
        q << mapper::map(m, (const char*)image.data(), id % 2 ? mapper::map_flags::warmup : 0) << ' ';
        Rng r(t.seed);
        for (unsigned i = 0; i < 50 && m.size(); ++i) q << m.rank(r.below(m.size())) << ',';
        out.push_back(q.str());
    }
    return out;
}
} // namespace

FACET(private_tools, "a case is 2 to 4 threads, each reading a text of its own with every line reader, filling builders, encoding vbytes, measuring and freezing structures of its own, and mapping the same image; everything compared with a later sequential run; non-trivial with two texts of at least 2 bytes")
{
    unsigned nt = 2 + unsigned(s.draw(3));
    std::vector<Task> task(nt);
    unsigned long_texts = 0;
    for (unsigned i = 0; i < nt; ++i) {
        Task& t = task[i];
        uint64_t len = s.draw(4) ? s.draw(600) : 60000 + s.draw(90000);
        t.seed = s.seed();
        unsigned every = 1 + unsigned(s.draw(200));
        Rng r(t.seed);
        for (uint64_t k = 0; k < len; ++k)
            t.text += r.below(every) == 0 && len < 1000 ? (r.below(3) ? '\n' : '\r') : len >= 1000 && r.below(20000) == 0 ? '\n' : char('a' + r.below(26));
        t.trim = s.draw(2);
        uint64_t nv = s.draw(300);
        for (uint64_t k = 0; k < nv; ++k) t.vals.push_back(r.next() >> r.below(64));
        if (len >= 2) ++long_texts;
        DESC(s, "text " << len << " bytes, " << nv << " values; ");
    }
    s.nontrivial(long_texts >= 2);
    s.label("threads " + std::to_string(nt));
    rs_bit_vector shared;
    {
        Bits x = gen::bits_of_size(s, s.draw(3000));
        bit_vector_builder b;
        for (uint64_t i = 0; i < x.n; ++i) b.push_back(x.get(i));
        rs_bit_vector(&b, true, false).swap(shared);
    }
    std::string img = frozen(shared);
    std::vector<uint64_t> image(img.size() / 8 + 1);
    memcpy(image.data(), img.data(), img.size());
    std::vector<std::vector<std::string>> got(nt);
    std::vector<std::string> err(nt);
    Gate g(nt);
    std::vector<std::thread> th;
    for (unsigned i = 0; i < nt; ++i)
        th.emplace_back([&, i]() {
            try {
                g.pass();
                got[i] = tools(task[i], i, image, img.size());
            } catch (std::exception const& e) {
                err[i] = std::string("exception in a thread: ") + e.what();
            }
        });
    for (auto& x : th) x.join();
    rethrow(err);
    static const char* names[] = {"fast_getline", "lines", "buffer_line_iterator", "mmap_lines"};
    for (unsigned i = 0; i < nt; ++i) {
        std::vector<std::string> e = tools(task[i], i, image, img.size());
        for (size_t k = 0; k < e.size(); ++k)
            CK(k < got[i].size() && e[k] == got[i][k], "thread " << i << ", step " << k << (k < 3 ? std::string(" (") + names[k] + ")" : "") << " differs from a sequential run");
    }
}
