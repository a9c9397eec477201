// C19 freeze/map round trips, C20 sizes, C21 determinism of frozen bytes,
// C22 value histories, C23 mappable_vector histories
#include <sys/statvfs.h>
#include "alloc.hpp"
#include "kinds.hpp"

using namespace succinct;
using namespace succinct::kinds;
using eng::Src;
using hx::Content;

namespace {

uint64_t pick_max(Src& s)
{
    uint64_t t = s.draw(100);
    return t < 50 ? 200 : t < 80 ? 3000 : t < 97 ? 30000 : 300000;
}

void note(Src& s, Content const& c)
{
    DESC(s, hx::show_content(c) << "; ");
    s.label(hx::kind_name(c.kind));
    s.nontrivial(hx::content_size(c) >= 2);
}

// An aligned or deliberately offset heap copy of exactly the given bytes.
struct HeapCopy {
    char* raw;
    char* p;
    HeapCopy(std::string const& b, size_t shift = 0)
    {
        raw = (char*)malloc(b.size() + shift + (b.size() + shift ? 0 : 1));
        p = raw + shift;
        memcpy(p, b.data(), b.size());
    }
    ~HeapCopy() { free(raw); }
    HeapCopy(HeapCopy const&) = delete;
};

// Now and then an array or bit vector of exactly a power of two of bytes (up
// to 4 MiB), or next to it, the units I/O is done in.
Content sized_content(Src& s, unsigned kind)
{
    static const unsigned bytes[] = {1, 2, 4, 8, 8};
    if ((kind <= hx::K_MVD || kind == hx::K_BV) && s.chance(1, 12)) {
        Content c;
        c.kind = kind;
        uint64_t n = uint64_t(1) << (12 + s.draw(11)), d = s.draw(4);
        unsigned mult = unsigned(1 + s.draw(3));
        if (mult > 1 && n < (1 << 20)) n = n * mult;
        if (kind == hx::K_BV) {
            n *= 8;
            if (d == 1) n += 1;
            if (d == 2) n -= 1;
            if (d == 3) n -= 64;
            c.bits = gen::bits_of_size(s, n);
        } else {
            n /= bytes[kind - hx::K_MV8];
            if (d == 1) n += 1;
            if (d == 2) n -= 1;
            c.vals = gen::values(s, n, kind == hx::K_MV8 ? 0xff : kind == hx::K_MV16 ? 0xffff : kind == hx::K_MV32 ? 0xffffffffu : uint64_t(1) << 53);
        }
        return c;
    }
    return hx::make_content(s, kind, pick_max(s));
}

} // namespace

// ---------------------------------------------------------------------- C19
FACET(roundtrip, "a case is a structure kind, its content, a construction route, a way to freeze (file name or stream) and to map (file or memory, warmup or not, fresh or used target); non-trivial with at least 2 elements")
{
    unsigned kind = unsigned(s.draw(hx::K_COUNT));
    Content c = sized_content(s, kind);
    note(s, c);
    uint64_t seed = s.seed();
    with_kind(kind, [&](auto k) {
        typedef decltype(k) K;
        typedef typename K::T T;
        Rng r(s.seed());
        T o;
        K::build(c, o, r);
        Answers before = ask<K>(o, c, seed, 120);
        tmp_path p("rt");
        size_t off = 0;
        if (s.draw(2)) {
            mapper::freeze(o, p);
        } else {
            std::ofstream f(p, std::ios::binary);
            off = size_t(8 * s.draw(5));
            f << std::string(off, 'x');
            mapper::freeze(o, f, 0, "named");
        }
        hx::same_answers("the original after freezing", before, ask<K>(o, c, seed, 120), c);

        uint64_t flags = s.draw(2) ? mapper::map_flags::warmup : 0;
        T m;
        if (s.draw(2)) { // an already used target
            Content d = hx::make_content(s, kind, 300);
            K::build(d, m, r);
            if (s.draw(2)) ask<K>(m, d, seed, 40); // and queried
        }
        if (s.draw(2)) {
            boost::iostreams::mapped_file_source src(p.p);
            if (off) mapper::map(m, src.data() + off, flags);
            else if (s.draw(2)) mapper::map(m, src, flags);
            else mapper::map(m, src, flags, "named");
            hx::same_answers("mapped from a file", before, ask<K>(m, c, seed, 120), c);
            // swapping a mapped object around keeps it usable
            T n;
            n.swap(m);
            hx::same_answers("mapped from a file, swapped", before, ask<K>(n, c, seed, 60 * 2), c);
            T().swap(n);
        } else {
            std::string bytes = slurp(p.p).substr(off);
            HeapCopy h(bytes, s.draw(4) ? 0 : 8);
            mapper::map(m, h.p, flags);
            hx::same_answers("mapped from memory", before, ask<K>(m, c, seed, 120), c);
            if (s.draw(3) == 0) { // freeze the mapped object again and map that
                std::string again = frozen(m);
                HeapCopy h2(again);
                T n;
                mapper::map(n, h2.p);
                hx::same_answers("mapped, frozen and mapped again", before, ask<K>(n, c, seed, 120), c);
                hx::same_answers("the mapped object after freezing it", before, ask<K>(m, c, seed, 120), c);
            }
            if (s.draw(3) == 0) { // map the same bytes over it once more
                mapper::map(m, h.p, flags);
                hx::same_answers("mapped twice over the same object", before, ask<K>(m, c, seed, 120), c);
            }
            hx::same_answers("the original at the end", before, ask<K>(o, c, seed, 120), c);
            // drop the mapping before the bytes go away
            T().swap(m);
        }
    });
}

FACET(multi, "a case is a file holding 2 to 6 structures of random kinds written through one stream, mapped back one after another at the offsets given by the returned sizes; non-trivial always")
{
    unsigned n = 2 + unsigned(s.draw(5));
    std::vector<Content> c;
    std::vector<uint64_t> seeds;
    s.nontrivial();
    for (unsigned i = 0; i < n; ++i) {
        c.push_back(hx::make_content(s, unsigned(s.draw(hx::K_COUNT)), s.draw(6) ? 200 : 3000));
        seeds.push_back(s.seed());
        DESC(s, hx::show_content(c.back()) << "; ");
    }
    tmp_path p("multi");
    std::vector<Answers> exp(n);
    std::vector<size_t> len(n);
    {
        std::ofstream f(p, std::ios::binary);
        for (unsigned i = 0; i < n; ++i)
            with_kind(c[i].kind, [&](auto k) {
                typedef decltype(k) K;
                Rng r(s.seed());
                typename K::T o;
                K::build(c[i], o, r);
                exp[i] = ask<K>(o, c[i], seeds[i], 80);
                len[i] = mapper::freeze(o, f);
            });
    }
    std::string bytes = slurp(p.p);
    HeapCopy h(bytes);
    uint64_t flags = s.draw(2) ? mapper::map_flags::warmup : 0;
    size_t off = 0;
    for (unsigned i = 0; i < n; ++i)
        with_kind(c[i].kind, [&](auto k) {
            typedef decltype(k) K;
            typename K::T m;
            CK(off + 16 <= bytes.size() || bytes.size() == off + len[i], "offset " << off << " beyond the file of " << bytes.size());
            size_t got = mapper::map(m, h.p + off, flags);
            CK_EQ("bytes of a structure in a shared file", len[i], got, hx::show_content(c[i]));
            hx::same_answers("mapped from a shared file", exp[i], ask<K>(m, c[i], seeds[i], 80), c[i]);
            off += got;
        });
    CK_EQ("total size of the shared file", bytes.size(), off, "");
}

// ---------------------------------------------------------------------- C20
static void check_tree(mapper::size_node_ptr const& n, unsigned depth)
{
    size_t sum = 0;
    for (auto const& ch : n->children) {
        CK(ch->size <= n->size, "child " << ch->name << " of " << ch->size << " bytes in " << n->name << " of " << n->size);
        sum += ch->size;
        check_tree(ch, depth + 1);
    }
    CK(sum <= n->size, "children of " << n->name << " sum to " << sum << " > " << n->size);
}

FACET(sizes, "a case is a structure kind and content; freeze/map/size_of/size_tree_of values compared with the bytes on disk; non-trivial with at least 2 elements")
{
    unsigned kind = unsigned(s.draw(hx::K_COUNT));
    Content c = sized_content(s, kind);
    note(s, c);
    with_kind(kind, [&](auto k) {
        typedef decltype(k) K;
        typedef typename K::T T;
        Rng r(s.seed());
        T o;
        if (s.draw(12)) K::build(c, o, r); // else: default-constructed
        size_t sz = mapper::size_of(o);
        tmp_path p("sz");
        size_t prefix = 0, written, delta;
        if (s.draw(2)) {
            written = mapper::freeze(o, p);
            delta = slurp(p.p).size();
        } else {
            prefix = s.draw(3) ? size_t(s.draw(100)) : 0;
            {
                std::ofstream f(p, std::ios::binary);
                f << std::string(prefix, 'y');
                std::streamoff a = f.tellp();
                written = mapper::freeze(o, f);
                std::streamoff b = f.tellp();
                CK_EQ("stream position advance", uint64_t(written), uint64_t(b - a), hx::show_content(c));
            }
            delta = slurp(p.p).size() - prefix;
        }
        CK_EQ("freeze() return value vs bytes in the file", delta, written, hx::show_content(c));
        CK_EQ("size_of + header vs freeze()", written, sz + 8, hx::show_content(c));
        std::string bytes = slurp(p.p).substr(prefix);
        HeapCopy h(bytes);
        {
            T m;
            if (s.draw(2)) K::build(c, m, r);
            size_t got = mapper::map(m, h.p, s.draw(2) ? mapper::map_flags::warmup : 0);
            CK_EQ("map() return value", written, got, hx::show_content(c));
            CK_EQ("size_of the mapped object", sz, mapper::size_of(m), hx::show_content(c));
            T().swap(m);
        }
        {
            boost::iostreams::mapped_file_source src(p.p);
            T m;
            if (!prefix) {
                size_t got = mapper::map(m, src);
                CK_EQ("map() return value (file)", written, got, hx::show_content(c));
            }
        }
        CK_EQ("size_of again", sz, mapper::size_of(o), hx::show_content(c));
        std::string name = "n" + std::to_string(s.draw(100000));
        mapper::size_node_ptr t = s.draw(4) ? mapper::size_tree_of(o, name.c_str()) : mapper::size_tree_of(o);
        CK(t != 0, "null size tree");
        CK_EQ("size of the root of the size tree", sz, t->size, hx::show_content(c));
        if (t->name != "<TOP>") CK_EQ("name of the root", name, t->name, "");
        check_tree(t, 0);
        // composed structures have exactly the sizes of their parts below them
        if (kind == hx::K_DARRAY) {
            CK_EQ("children of a three-part record", size_t(3), t->children.size(), "");
            CK_EQ("children add up when there are no PODs", sz, t->children[0]->size + t->children[1]->size + t->children[2]->size, "");
            CK_EQ("child name", std::string("bv"), t->children[0]->name, "");
        }
    });
}

// --------------------------------------------------------- C19, C20: records
// A user type whose parts are only known at run time: PODs of several sizes,
// vectors, bit structures and nested records, in any order.
namespace {
#pragma pack(push, 1)
struct pod3 { uint8_t a; uint16_t b; };
#pragma pack(pop)
struct pod24 { uint64_t a; double b; uint32_t c; uint32_t d; };
struct dyn;
struct part {
    unsigned type;
    std::string name;
    std::vector<uint64_t> ref; // the values it should hold
    bool f; uint8_t u8; int16_t i16; uint32_t u32; uint64_t u64; double d; float fl; pod3 p3; pod24 p24; uint8_t arr[5];
    mapper::mappable_vector<uint8_t> v8;
    mapper::mappable_vector<uint16_t> v16;
    mapper::mappable_vector<uint32_t> v3;
    mapper::mappable_vector<uint64_t> v64;
    mapper::mappable_vector<double> v24;
    bit_vector bv;
    gamma_vector gv;
    std::unique_ptr<dyn> rec;
    part() : type(0), f(false), u8(0), i16(0), u32(0), u64(0), d(0), fl(0) { memset(&p3, 0, sizeof(p3)); memset(&p24, 0, sizeof(p24)); memset(arr, 0, sizeof(arr)); }
};
enum { P_BOOL, P_U8, P_I16, P_U32, P_U64, P_DOUBLE, P_FLOAT, P_POD3, P_POD24, P_ARR, P_V8, P_V16, P_V3, P_V64, P_V24, P_BV, P_GV, P_REC, P_COUNT };
struct dyn {
    std::vector<std::unique_ptr<part>> parts;
    template <typename Visitor>
    void map(Visitor& visit)
    {
        for (auto& q : parts) {
            const char* n = q->name.c_str();
            switch (q->type) {
            case P_BOOL: visit(q->f, n); break;
            case P_U8: visit(q->u8, n); break;
            case P_I16: visit(q->i16, n); break;
            case P_U32: visit(q->u32, n); break;
            case P_U64: visit(q->u64, n); break;
            case P_DOUBLE: visit(q->d, n); break;
            case P_FLOAT: visit(q->fl, n); break;
            case P_POD3: visit(q->p3, n); break;
            case P_POD24: visit(q->p24, n); break;
            case P_ARR: for (uint8_t& x : q->arr) visit(x, n); break;
            case P_V8: visit(q->v8, n); break;
            case P_V16: visit(q->v16, n); break;
            case P_V3: visit(q->v3, n); break;
            case P_V64: visit(q->v64, n); break;
            case P_V24: visit(q->v24, n); break;
            case P_BV: visit(q->bv, n); break;
            case P_GV: visit(q->gv, n); break;
            default: visit(*q->rec, n);
            }
        }
    }
    // every value in the order of the parts
    void values(std::vector<uint64_t>& o) const
    {
        auto put = [&](uint64_t x) { o.push_back(x); };
        auto p24v = [&](pod24 const& x) { put(x.a); put(pod_bits(x.b)); put(x.c); put(x.d); };
        for (auto& q : parts) {
            put(q->type);
            switch (q->type) {
            case P_BOOL: put(q->f); break;
            case P_U8: put(q->u8); break;
            case P_I16: put(uint64_t(q->i16)); break;
            case P_U32: put(q->u32); break;
            case P_U64: put(q->u64); break;
            case P_DOUBLE: put(pod_bits(q->d)); break;
            case P_FLOAT: put(pod_bits(q->fl)); break;
            case P_POD3: put(q->p3.a); put(q->p3.b); break;
            case P_POD24: p24v(q->p24); break;
            case P_ARR: for (uint8_t x : q->arr) put(x); break;
            case P_V8: put(q->v8.size()); for (uint8_t x : q->v8) put(x); break;
            case P_V16: put(q->v16.size()); for (uint16_t x : q->v16) put(x); break;
            case P_V3: put(q->v3.size()); for (uint32_t x : q->v3) put(x); break;
            case P_V64: put(q->v64.size()); for (uint64_t x : q->v64) put(x); break;
            case P_V24: put(q->v24.size()); for (double x : q->v24) put(pod_bits(x)); break;
            case P_BV: put(q->bv.size()); for (uint64_t i = 0; i < q->bv.size(); ++i) put(q->bv[i]); break;
            case P_GV: put(q->gv.size()); for (uint64_t i = 0; i < q->gv.size(); ++i) put(q->gv[i]); break;
            default: q->rec->values(o);
            }
        }
    }
};
pod24 mk24(uint64_t x) { pod24 p = {x, double(x % 1000) / 8, uint32_t(x >> 7), uint32_t(x)}; return p; }
pod3 mk3(uint64_t x) { pod3 p; memset(&p, 0, sizeof(p)); p.a = uint8_t(x); p.b = uint16_t(x >> 8); return p; }
// `blank`: the same shape with default values
void gen_dyn(Src& s, dyn& o, dyn& blank, dyn& used, unsigned depth)
{
    unsigned n = unsigned(s.draw(depth ? 4 : 9));
    for (unsigned i = 0; i < n; ++i) {
        std::unique_ptr<part> q(new part), e(new part), u(new part);
        q->type = e->type = u->type = unsigned(s.draw(depth < 3 ? P_COUNT : P_REC));
        q->name = "p" + std::to_string(s.draw(50));
        e->name = u->name = q->name;
        DESC(s, q->type << ":" << q->name << " ");
        uint64_t x = gen::values(s, 1, ~uint64_t(0))[0];
        std::vector<uint64_t> v;
        if (q->type >= P_V8 && q->type < P_REC) v = gen::values(s, s.draw(6) ? s.draw(20) : s.draw(800), ~uint64_t(0) >> 1);
        switch (q->type) {
        case P_BOOL: q->f = x & 1; break;
        case P_U8: q->u8 = uint8_t(x); break;
        case P_I16: q->i16 = int16_t(x); break;
        case P_U32: q->u32 = uint32_t(x); break;
        case P_U64: q->u64 = x; break;
        case P_DOUBLE: q->d = double(x) / 3; break;
        case P_FLOAT: q->fl = float(x) / 3; break;
        case P_POD3: q->p3 = mk3(x); break;
        case P_POD24: q->p24 = mk24(x); break;
        case P_ARR: for (unsigned k = 0; k < 5; ++k) q->arr[k] = uint8_t(x >> (8 * k)); break;
        case P_V8: q->v8.assign(std::vector<uint8_t>(v.begin(), v.end())); u->v8.assign(std::vector<uint8_t>(7)); break;
        case P_V16: q->v16.assign(std::vector<uint16_t>(v.begin(), v.end())); break;
        case P_V3: {
            std::vector<uint32_t> t(v.begin(), v.end());
            q->v3.steal(t);
            break;
        }
        case P_V64: q->v64.steal(v); u->v64.assign(std::vector<uint64_t>(9)); break;
        case P_V24: {
            std::vector<double> t(v.begin(), v.end());
            q->v24.assign(t);
            break;
        }
        case P_BV: {
            std::vector<bool> t;
            for (uint64_t y : v) t.push_back(y & 1);
            bit_vector(t).swap(q->bv);
            bit_vector(std::vector<bool>(100)).swap(u->bv);
            break;
        }
        case P_GV: gamma_vector(v).swap(q->gv); break;
        case P_REC:
            q->rec.reset(new dyn);
            e->rec.reset(new dyn);
            u->rec.reset(new dyn);
            DESC(s, "{ ");
            gen_dyn(s, *q->rec, *e->rec, *u->rec, depth + 1);
            DESC(s, "} ");
        }
        o.parts.push_back(std::move(q));
        blank.parts.push_back(std::move(e));
        used.parts.push_back(std::move(u));
    }
}
// The tree of a record names its parts in order, each with the bytes it takes; PODs have no node.
void check_dyn_tree(dyn& o, mapper::size_node_ptr const& t)
{
    size_t at = 0, pods = 0, below = 0;
    for (auto& q : o.parts) {
        size_t sz = 0;
        switch (q->type) {
        case P_BOOL: case P_U8: pods += 1; continue;
        case P_I16: pods += 2; continue;
        case P_U32: case P_FLOAT: pods += 4; continue;
        case P_U64: case P_DOUBLE: pods += 8; continue;
        case P_POD3: pods += sizeof(pod3); continue;
        case P_POD24: pods += sizeof(pod24); continue;
        case P_ARR: pods += 5; continue;
        case P_V8: sz = mapper::size_of(q->v8); break;
        case P_V16: sz = mapper::size_of(q->v16); break;
        case P_V3: sz = mapper::size_of(q->v3); break;
        case P_V64: sz = mapper::size_of(q->v64); break;
        case P_V24: sz = mapper::size_of(q->v24); break;
        case P_BV: sz = mapper::size_of(q->bv); break;
        case P_GV: sz = mapper::size_of(q->gv); break;
        default: sz = mapper::size_of(*q->rec);
        }
        CK(at < t->children.size(), "no node for part " << q->name << " of " << t->name);
        CK_EQ("name of a part in the size tree", q->name, t->children[at]->name, t->name);
        CK_EQ("size of a part in the size tree", sz, t->children[at]->size, q->name);
        if (q->type == P_REC) check_dyn_tree(*q->rec, t->children[at]);
        below += sz;
        ++at;
    }
    CK_EQ("number of nodes below a record", at, t->children.size(), t->name);
    CK_EQ("parts and PODs add up to the record", below + pods, t->size, t->name);
}
void expect_dump(mapper::size_node_ptr const& t, size_t depth, std::string& out)
{
    out += std::string(depth * 4, ' ') + t->name + ": " + std::to_string(t->size) + "\n";
    for (auto const& c : t->children) expect_dump(c, depth + 1, out);
}
} // namespace

FACET(records, "a case is a user-defined record whose parts (PODs of 1 to 24 bytes, arrays of PODs, vectors of five element types, bit and gamma vectors, nested records up to 4 deep) are drawn; frozen with drawn flags, mapped over a blank or used record of the same shape, every value compared, the header, the sizes and the size tree compared with the parts; non-trivial with at least 2 parts")
{
    dyn o, blank, used;
    DESC(s, "record ");
    gen_dyn(s, o, blank, used, 0);
    s.nontrivial(o.parts.size() >= 2);
    std::vector<uint64_t> exp;
    o.values(exp);
    uint64_t flags = s.draw(2) ? gen::values(s, 1, ~uint64_t(0))[0] : 0;
    bool warm = s.draw(2), by_name = s.draw(2), over_used = s.draw(2), old_file = s.draw(2);
    DESC(s, "; flags " << flags << ", warmup " << warm);
    tmp_path p("rec");
    if (old_file) { // a longer file is already there
        std::ofstream f(p, std::ios::binary);
        f << std::string(200000, 'z');
    }
    size_t written;
    if (by_name) written = flags ? mapper::freeze(o, p, flags) : mapper::freeze(o, p);
    else {
        std::ofstream f(p, std::ios::binary);
        written = flags ? mapper::freeze(o, f, flags, "x") : mapper::freeze(o, f);
    }
    std::string img = slurp(p.p);
    CK_EQ("freeze() return value vs bytes in the file", img.size(), written, "");
    CK_EQ("size_of + header", img.size(), mapper::size_of(o) + 8, "");
    uint64_t head;
    memcpy(&head, img.data(), 8);
    CK_EQ("flags in the header", flags, head, "");
    dyn& m = over_used ? used : blank;
    {
        HeapCopy h(img);
        size_t got = warm ? mapper::map(m, h.p, mapper::map_flags::warmup) : mapper::map(m, h.p);
        CK_EQ("map() return value", written, got, "");
        std::vector<uint64_t> v;
        m.values(v);
        CK(v == exp, "a mapped record holds other values");
        CK_EQ("size_of the mapped record", img.size() - 8, mapper::size_of(m), "");
        CK(frozen(m, flags) == img, "a mapped record freezes to other bytes");
        v.clear();
        o.values(v);
        CK(v == exp, "freezing and mapping changed the original");
    }
    mapper::size_node_ptr t = s.draw(2) ? mapper::size_tree_of(o) : mapper::size_tree_of(o, "<TOP>");
    CK_EQ("name of the root", std::string("<TOP>"), t->name, "");
    CK_EQ("size of the root", img.size() - 8, t->size, "");
    check_dyn_tree(o, t);
    std::string want;
    size_t depth = size_t(s.draw(3));
    expect_dump(t, depth, want);
    std::ostringstream os;
    if (depth) t->dump(os, depth);
    else t->dump(os);
    CK_EQ("dump()", want, os.str(), "");
}

struct huge_rec {
    mapper::mappable_vector<uint64_t> a;
    mapper::mappable_vector<uint16_t> b;
    template <typename Visitor>
    void map(Visitor& visit)
    {
        visit(a, "a")(b, "b");
    }
};
// freeze more than 4 GiB and look at the file
template <typename T>
static void huge_freeze(T& v, const char* base, size_t bytes, std::vector<uint64_t> const& marks)
{
    tmp_path p("hs");
    {
        std::ofstream touch(p);
        struct statvfs vfs;
        if (statvfs(p.p.c_str(), &vfs) || uint64_t(vfs.f_bavail) * vfs.f_frsize < 4 * uint64_t(bytes)) return; // no room
    }
    CK_EQ("freeze()", bytes, mapper::freeze(v, p), "");
    boost::iostreams::mapped_file_source src(p.p);
    CK_EQ("bytes in the file", bytes, size_t(src.size()), "");
    for (uint64_t i : marks)
        CK_EQ("word in the file", 0, memcmp(src.data() + 16 + i * 8, base + 16 + i * 8, 8), "i=" << i);
    CK_EQ("end of the file", 0, memcmp(src.data() + bytes - 6, base + bytes - 6, 6), "");
}
static void huge_record(const char* base, size_t bytes, bool warm, std::vector<uint64_t> const& marks, uint64_t n)
{
    huge_rec v;
    CK_EQ("map()", bytes, mapper::map(v, base, warm ? mapper::map_flags::warmup : 0), "");
    CK_EQ("size", n, v.a.size(), "");
    for (uint64_t i : marks) CK_EQ("far element", i ^ 0x123456789abcdefull, v.a[i], "i=" << i);
    CK_EQ("size of the vector behind 4 GB", uint64_t(3), v.b.size(), "");
    CK_EQ("element behind 4 GB", 65535u, unsigned(v.b[2]), "");
    CK_EQ("size_of", bytes - 8, mapper::size_of(v), "");
    mapper::size_node_ptr t = mapper::size_tree_of(v);
    CK_EQ("size tree", bytes - 8, t->size, "");
    CK_EQ("size tree child", size_t(8 + n * 8), t->children[0]->size, "");
    huge_freeze(v, base, bytes, marks);
}

FACET(huge_sizes, "a case is a mappable_vector (or a record of two) of over 2^32 bytes mapped over zero pages with marked words, checked for sizes, far indices and the bytes counted and written by freeze; always non-trivial")
{
    uint64_t n = (uint64_t(1) << 29) + 1 + s.draw(1000); // of 8 bytes
    bool warm = s.draw(4) == 0;
    bool record = s.draw(2);
    size_t bytes = size_t(16 + n * 8 + (record ? 8 + 3 * 2 : 0));
    DESC(s, "n=" << n << " record=" << record);
    s.nontrivial();
    char* base = (char*)mmap(0, bytes + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == (char*)MAP_FAILED) throw eng::Discard();
    struct Un { char* p; size_t n; ~Un() { munmap(p, n); } } un{base, bytes + 4096};
    uint64_t* w = (uint64_t*)base;
    w[1] = n;
    std::vector<uint64_t> marks;
    for (unsigned k = 0; k < 10; ++k) marks.push_back(s.draw(n));
    marks.push_back(0);
    marks.push_back(n - 1);
    marks.push_back(uint64_t(1) << 29);
    for (uint64_t i : marks) w[2 + i] = i ^ 0x123456789abcdefull;
    if (record) {
        w[2 + n] = 3;
        uint16_t* q = (uint16_t*)(w + 3 + n);
        q[0] = 7;
        q[1] = 8;
        q[2] = 65535;
    }
    auto check = [&](mapper::mappable_vector<uint64_t> const& v) {
        CK_EQ("size", n, v.size(), "");
        for (uint64_t i : marks) CK_EQ("far element", i ^ 0x123456789abcdefull, v[i], "i=" << i);
        CK_EQ("end - begin", n, uint64_t(v.end() - v.begin()), "");
    };
    if (!record) {
        mapper::mappable_vector<uint64_t> v;
        CK_EQ("map()", bytes, mapper::map(v, base, warm ? mapper::map_flags::warmup : 0), "");
        check(v);
        CK_EQ("size_of", bytes - 8, mapper::size_of(v), "");
        CK_EQ("size tree", bytes - 8, mapper::size_tree_of(v)->size, "");
        huge_freeze(v, base, bytes, marks);
    } else {
        huge_record(base, bytes, warm, marks, n);
    }
}

// ---------------------------------------------------------------------- C21
FACET(determinism, "a case is a content built twice by different routes into differently pre-filled memory, with swaps, disposals and map/re-freeze in between; the frozen images are compared byte for byte; non-trivial with at least 2 elements")
{
    unsigned kind = unsigned(s.draw(hx::K_COUNT));
    Content c = hx::make_content(s, kind, pick_max(s));
    if (s.draw(8) == 0) { // empty content, built
        c = Content();
        c.kind = kind;
        if (kind == hx::K_USER) c.vals.assign(4, 0);
        if (kind == hx::K_EF) c.f1 = s.draw(2);
    }
    note(s, c);
    with_kind(kind, [&](auto k) {
        typedef decltype(k) K;
        typedef typename K::T T;
        struct Slot {
            alignas(16) unsigned char mem[sizeof(T)];
            T* o;
            explicit Slot(int fill)
            {
                memset(mem, fill, sizeof(T));
                o = new (mem) T;
            }
            ~Slot() { o->~T(); }
        };
        auto image = [&](unsigned variant) -> std::string {
            static const int fills[] = {0x00, 0xff, 0xa5, 0x5a};
            Slot a(fills[s.draw(4)]), b(fills[s.draw(4)]);
            hx::perturb(fills[s.draw(4)]);
            Rng r(s.seed());
            K::build(c, *a.o, r);
            if (variant & 1) { // through a used object and back
                Content d = hx::make_content(s, kind, 300);
                K::build(d, *b.o, r);
                a.o->swap(*b.o);
                if (s.draw(2)) util::dispose(*a.o);
                a.o->swap(*b.o);
            }
            if (variant & 2) { // map into a used object, freeze that
                std::string x = frozen(*a.o);
                HeapCopy h(x);
                if (s.draw(2)) {
                    Content d = hx::make_content(s, kind, 300);
                    K::build(d, *b.o, r);
                }
                mapper::map(*b.o, h.p, s.draw(2) ? mapper::map_flags::warmup : 0);
                std::string y = frozen(*b.o);
                T().swap(*b.o);
                hx::perturb(0);
                return y;
            }
            if (variant & 4) { // answering queries first
                ask<K>(*a.o, c, r.next(), 30);
            }
            std::string x = frozen(*a.o);
            hx::perturb(0);
            return x;
        };
        std::string x = image(unsigned(s.draw(8))), y = image(unsigned(s.draw(8)));
        if (x != y) {
            size_t i = 0;
            while (i < x.size() && i < y.size() && x[i] == y[i]) ++i;
            std::ostringstream os;
            os << "frozen images differ: " << x.size() << " and " << y.size() << " bytes, first at byte " << i << "  [" << hx::show_content(c) << "]";
            eng::fail(os.str());
        }
        // default-constructed and disposed objects
        auto empty_image = [&](bool disposed) -> std::string {
            Slot a(s.draw(2) ? 0xff : 0x5a);
            if (disposed) {
                Rng r(s.seed());
                K::build(c, *a.o, r);
                util::dispose(*a.o);
            }
            return frozen(*a.o);
        };
        bool d1 = s.draw(2), d2 = s.draw(2);
        std::string e1 = empty_image(d1), e2 = empty_image(d2);
        if (e1 != e2) eng::fail(std::string("frozen images of empty objects differ: ") + hx::kind_name(kind));
    });
}

// ---------------------------------------------------------------------- C22
FACET(value_history, "a case is a history of construct, swap (also self), dispose, map-into, re-create over 3 objects of one kind, each compared after every step with the value it logically holds, and the number of live allocations at the end; non-trivial with at least 3 steps")
{
    unsigned kind = unsigned(s.draw(hx::K_COUNT));
    uint64_t maxn = s.draw(4) ? 150 : 2500;
    unsigned steps = 2 + unsigned(s.draw(14));
    s.label(hx::kind_name(kind));
    DESC(s, "history over three objects of kind " << hx::kind_name(kind) << ", " << steps << " steps: ");
    s.nontrivial(steps >= 3);
    hx::warm_iostreams();
    uint64_t live0 = hx::live_allocs();
    with_kind(kind, [&](auto k) {
        typedef decltype(k) K;
        typedef typename K::T T;
        std::vector<Content> pool;
        std::vector<Answers> exp;
        std::vector<std::string> img;
        uint64_t seed = s.seed();
        auto add = [&](Content const& c) {
            Rng r(seed ^ pool.size());
            std::unique_ptr<T> o(K::make(c, r));
            pool.push_back(c);
            exp.push_back(ask<K>(*o, c, seed, 50));
            img.push_back(frozen(*o));
        };
        // now and then one of the values is far larger than the others
        unsigned big = s.chance(1, 12) ? unsigned(s.draw(3)) : 3;
        for (unsigned i = 0; i < 3; ++i) add(hx::make_content(s, kind, i == big ? 160000 : maxn));
        Content none;
        none.kind = kind;
        const unsigned N = 3;
        T* obj[N];
        int val[N]; // -1: empty
        std::vector<std::unique_ptr<HeapCopy>> bytes; // kept alive to the end
        for (unsigned i = 0; i < N; ++i) {
            obj[i] = new T;
            val[i] = -1;
        }
        struct Cleanup { T** o; ~Cleanup() { for (unsigned i = 0; i < N; ++i) delete o[i]; } } cl{obj};
        Rng r(s.seed());
        auto verify = [&](unsigned i, const char* after) {
            if (val[i] >= 0) {
                if (r.below(3) == 0) CK(frozen(*obj[i]) == img[size_t(val[i])], after << ": a " << hx::kind_name(kind) << " freezes to other bytes than a fresh one of the same value");
                hx::same_answers(after, exp[size_t(val[i])], ask<K>(*obj[i], pool[size_t(val[i])], seed, 50), pool[size_t(val[i])]);
                return;
            }
            Answers e = ask<K>(*obj[i], none, seed, 50);
            for (size_t q = 0; q < e.v.size(); ++q)
                if (e.v[q]) {
                    std::ostringstream os;
                    os << after << ": an empty " << hx::kind_name(kind) << " reports " << e.tag[q] << " = " << e.v[q];
                    eng::fail(os.str());
                }
        };
        for (unsigned st = 0; st < steps; ++st) {
            unsigned i = unsigned(s.draw(N)), j = unsigned(s.draw(N));
            unsigned v = unsigned(s.draw(pool.size()));
            switch (s.draw(9)) {
            case 8:
                DESC(s, "construct" << i << "=v" << v << " ");
                delete obj[i];
                obj[i] = 0;
                obj[i] = K::make(pool[v], r);
                val[i] = int(v);
                verify(i, "after construction in place");
                break;
            case 0: {
                DESC(s, "build" << i << "=v" << v << " ");
                T t;
                K::build(pool[v], t, r);
                t.swap(*obj[i]);
                val[i] = int(v);
                verify(i, "after construct and swap");
                break;
            }
            case 1:
            case 2:
                DESC(s, "swap" << i << j << " ");
                obj[i]->swap(*obj[j]);
                std::swap(val[i], val[j]);
                verify(i, "after swap");
                verify(j, "after swap");
                break;
            case 3:
                DESC(s, "dispose" << i << " ");
                util::dispose(*obj[i]);
                val[i] = -1;
                verify(i, "after dispose");
                break;
            case 4:
                DESC(s, "map" << i << "=v" << v << " ");
                bytes.emplace_back(new HeapCopy(img[v]));
                mapper::map(*obj[i], bytes.back()->p, s.draw(2) ? mapper::map_flags::warmup : 0);
                val[i] = int(v);
                verify(i, "after map");
                break;
            case 5: {
                DESC(s, "refreeze" << i << "->" << j << " ");
                std::string x = frozen(*obj[i]);
                bytes.emplace_back(new HeapCopy(x));
                size_t got = mapper::map(*obj[j], bytes.back()->p);
                CK_EQ("bytes mapped", x.size(), got, hx::kind_name(kind));
                val[j] = val[i];
                verify(i, "after freeze");
                verify(j, "after map of a refrozen object");
                break;
            }
            case 6:
                DESC(s, "recreate" << i << " ");
                delete obj[i];
                obj[i] = new T;
                val[i] = -1;
                verify(i, "after default construction");
                break;
            default:
                DESC(s, "selfswap" << i << " ");
                obj[i]->swap(*obj[i]);
                verify(i, "after swap with itself");
            }
        }
        for (unsigned i = 0; i < N; ++i) verify(i, "at the end");
    });
    uint64_t live1 = hx::live_allocs();
    CK_EQ("live allocations after the history", live0, live1, hx::kind_name(kind));
}

// ---------------------------------------------------------------------- C23
namespace {
template <typename P>
void mv_history(Src& s)
{
    typedef mapper::mappable_vector<P> V;
    struct Model {
        std::vector<uint64_t> v;
        bool owned; // it has a non-empty buffer of its own
        Model() : owned(false) {}
    };
    const unsigned N = 3;
    V* o[N];
    Model m[N];
    for (unsigned i = 0; i < N; ++i) o[i] = new V;
    struct Cleanup { V** o; ~Cleanup() { for (unsigned i = 0; i < N; ++i) delete o[i]; } } cl{o};
    std::vector<std::unique_ptr<HeapCopy>> bytes;
    std::vector<std::string> byte_copy;
    auto fresh = [&](std::vector<uint64_t>& ref) -> std::vector<P> {
        uint64_t mx = sizeof(P) >= 8 ? (uint64_t(1) << 53) : (uint64_t(1) << (8 * sizeof(P))) - 1;
        uint64_t n = s.draw(5) ? s.draw(20) : s.draw(3000);
        ref = gen::values(s, n, mx);
        std::vector<P> p;
        for (uint64_t x : ref) p.push_back(make_pod<P>::of(x));
        return p;
    };
    auto check = [&](unsigned i, const char* after) {
        V const& v = *o[i];
        CK_EQ("size", uint64_t(m[i].v.size()), v.size(), after);
        CK_EQ("end - begin", ptrdiff_t(m[i].v.size()), v.end() - v.begin(), after);
        if (v.size()) CK(v.data() == v.begin(), after);
        for (size_t q = 0; q < m[i].v.size(); ++q) {
            uint64_t e = pod_bits(make_pod<P>::of(m[i].v[q]));
            CK_EQ("operator[]", e, pod_bits(v[q]), after << " index " << q);
        }
        size_t q = 0;
        for (typename V::const_iterator it = v.begin(); it != v.end(); ++it, ++q)
            CK_EQ("iteration", pod_bits(make_pod<P>::of(m[i].v[q])), pod_bits(*it), after << " index " << q);
    };
    unsigned steps = 2 + unsigned(s.draw(16));
    s.nontrivial(steps >= 3);
    for (unsigned st = 0; st < steps; ++st) {
        unsigned i = unsigned(s.draw(N)), j = unsigned(s.draw(N));
        switch (s.draw(9)) {
        case 0: {
            DESC(s, "construct" << i << " ");
            std::vector<uint64_t> ref;
            std::vector<P> p = fresh(ref);
            delete o[i];
            o[i] = new V;
            V(p).swap(*o[i]);
            m[i].v = ref;
            m[i].owned = !ref.empty();
            break;
        }
        case 1: {
            DESC(s, "steal" << i << " ");
            std::vector<uint64_t> ref;
            std::vector<P> p = fresh(ref);
            if (s.draw(2)) p.reserve(p.size() + 10);
            const P* addr = p.empty() ? 0 : &p[0];
            o[i]->steal(p);
            m[i].v = ref;
            m[i].owned = !ref.empty();
            if (!ref.empty()) {
                CK(o[i]->data() == addr, "steal moved the elements");
                CK(p.empty(), "the source of steal is not empty");
                // the emptied source is the caller's to use
                p.assign(5, make_pod<P>::of(1));
            }
            break;
        }
        case 2: {
            DESC(s, "assign" << i << " ");
            std::vector<uint64_t> ref;
            std::vector<P> p = fresh(ref);
            if (s.draw(2)) {
                std::list<P> l(p.begin(), p.end());
                o[i]->assign(l);
            } else
                o[i]->assign(p);
            m[i].v = ref;
            m[i].owned = !ref.empty();
            break;
        }
        case 3:
            DESC(s, "copy" << j << "->" << i << " ");
            if (i != j) {
                o[i]->assign(boost::make_iterator_range(o[j]->begin(), o[j]->end()));
                m[i].v = m[j].v;
                m[i].owned = !m[i].v.empty();
            }
            break;
        case 4:
            DESC(s, "swap" << i << j << " ");
            o[i]->swap(*o[j]);
            std::swap(m[i].v, m[j].v);
            std::swap(m[i].owned, m[j].owned);
            break;
        case 5: {
            DESC(s, "clear" << i << " ");
            uint64_t live = hx::live_allocs();
            o[i]->clear();
            if (m[i].owned) CK(hx::live_allocs() < live, "clear() did not release the buffer");
            m[i].v.clear();
            m[i].owned = false;
            break;
        }
        case 6: {
            DESC(s, "map" << j << "->" << i << " ");
            std::string x = frozen(*o[j]);
            bytes.emplace_back(new HeapCopy(x));
            byte_copy.push_back(x);
            uint64_t flags = s.draw(2) ? mapper::map_flags::warmup : 0;
            uint64_t live = hx::live_allocs();
            mapper::map(*o[i], bytes.back()->p, flags);
            if (m[i].owned) CK(hx::live_allocs() < live, "mapping over a vector did not release its buffer");
            m[i].v = m[j].v;
            m[i].owned = false;
            CK(!o[i]->size() || ((const char*)o[i]->data() >= bytes.back()->p && (const char*)o[i]->data() < bytes.back()->p + x.size()),
               "a mapped vector does not point into the mapped bytes");
            break;
        }
        case 7: {
            DESC(s, "range" << j << "->new" << i << " ");
            if (i != j) {
                V* n = s.draw(2) ? new V(boost::make_iterator_range(o[j]->begin(), o[j]->end())) : new V(std::vector<P>(o[j]->begin(), o[j]->end()));
                delete o[i];
                o[i] = n;
                m[i].v = m[j].v;
                m[i].owned = !m[i].v.empty();
            }
            break;
        }
        default:
            DESC(s, "delete" << i << " ");
            delete o[i];
            o[i] = new V;
            m[i].v.clear();
            m[i].owned = false;
        }
        check(i, "after a step");
        check(j, "after a step");
    }
    for (unsigned i = 0; i < N; ++i) check(i, "at the end");
    for (size_t q = 0; q < bytes.size(); ++q)
        CK(!memcmp(bytes[q]->p, byte_copy[q].data(), byte_copy[q].size()), "mapped bytes were modified");
}
} // namespace

FACET(mv_history, "a case is a history of construct, assign, steal, copy, swap, clear, map and destroy over three mappable_vectors of one POD type; contents compared after each step and live allocations at the end; non-trivial with at least 3 steps")
{
    // (long enough for the description to be on the heap before counting)
    DESC(s, "history over three mappable_vectors: ");
    hx::warm_iostreams();
    uint64_t live0 = hx::live_allocs();
    switch (s.draw(7)) {
    case 0: mv_history<uint8_t>(s); break;
    case 1: mv_history<uint16_t>(s); break;
    case 2: mv_history<uint32_t>(s); break;
    case 3: mv_history<double>(s); break;
    case 4: mv_history<float>(s); break;
    default: mv_history<uint64_t>(s);
    }
    CK_EQ("live allocations after the history", live0, hx::live_allocs(), "");
}
