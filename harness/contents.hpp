// Logical contents for every kind of structure. Independent of the library.
#pragma once
#include <list>
#include <deque>
#include "../engine/gen.hpp"
#include "bpgen_ref.hpp"

namespace hx {
using eng::Rng;
using eng::Src;
using gen::Bits;

enum KindId {
    K_MV8, K_MV16, K_MV32, K_MV64, K_MVD, K_MVP,
    K_BV, K_RS, K_BP, K_DARRAY, K_DA64,
    K_EF, K_EFL, K_EFCL, K_GV, K_GBV, K_NV,
    K_CT, K_TK64, K_TKEF, K_TKGV, K_USER,
    K_COUNT
};
inline const char* kind_name(unsigned k)
{
    static const char* n[] = {"mappable_vector<u8>", "mappable_vector<u16>", "mappable_vector<u32>", "mappable_vector<u64>",
                              "mappable_vector<double>", "mappable_vector<float>", "bit_vector", "rs_bit_vector",
                              "bp_vector", "darray1+darray0", "darray64", "elias_fano", "elias_fano_list",
                              "elias_fano_compressed_list", "gamma_vector", "gamma_bit_vector", "nibble_vector",
                              "cartesian_tree", "topk_vector<mappable_vector>", "topk_vector<elias_fano_list>",
                              "topk_vector<gamma_vector>", "user record"};
    return n[k];
}

struct Content {
    unsigned kind = 0;
    Bits bits;                  // BV, RS, BP, DARRAY
    std::vector<uint64_t> vals; // the rest (DA64: skips; EF: monotone values)
    bool f1 = false, f2 = false; // RS/BP: hints; EF: f1 rank index
    uint64_t universe = 0;      // EF
    bool increasing = false;    // EF: strictly increasing and below the universe
    std::vector<Content> sub;   // USER
};

inline Content make_content(Src& s, unsigned kind, uint64_t maxn)
{
    Content c;
    c.kind = kind;
    switch (kind) {
    case K_MV8: c.vals = gen::values(s, gen::size_upto(s, maxn), 0xff); break;
    case K_MV16: c.vals = gen::values(s, gen::size_upto(s, maxn), 0xffff); break;
    case K_MV32: c.vals = gen::values(s, gen::size_upto(s, maxn), 0xffffffffu); break;
    case K_MV64: c.vals = gen::values(s, gen::size_upto(s, maxn), UINT64_MAX); break;
    case K_MVD: c.vals = gen::values(s, gen::size_upto(s, maxn), uint64_t(1) << 53); break;
    case K_MVP: c.vals = gen::values(s, gen::size_upto(s, maxn), 0xffffff); break;
    case K_BV:
    case K_DARRAY: c.bits = gen::bits_of_size(s, gen::size_upto(s, maxn)); break;
    case K_RS:
        c.bits = gen::bits_of_size(s, gen::size_upto(s, maxn));
        c.f1 = s.draw(2);
        c.f2 = s.draw(2);
        break;
    case K_BP:
        c.bits = balanced(s, gen::size_upto(s, maxn));
        c.f1 = s.draw(2);
        c.f2 = s.draw(2);
        break;
    case K_DA64: c.vals = gen::values(s, gen::size_upto(s, maxn / 4 + 1), 64); break;
    case K_EF: {
        uint64_t m = gen::size_upto(s, maxn / 4 + 1);
        uint64_t maxu = s.draw(2) ? (m + 1) * (1 + s.draw(200)) : s.logu(UINT64_MAX - 1);
        c.f1 = s.draw(4) != 1;
        if (s.draw(3) == 0) { // a set: strictly increasing, below the universe
            Bits b = gen::bits_of_size(s, gen::size_upto(s, maxn));
            for (uint64_t i = 0; i < b.n; ++i)
                if (b.get(i)) c.vals.push_back(i);
            c.universe = b.n;
            c.increasing = true;
            break;
        }
        Rng r(s.seed());
        unsigned dup = unsigned(s.draw(3));
        c.vals.reserve(m);
        for (uint64_t i = 0; i < m; ++i) {
            if (dup && i && r.below(3) < dup) c.vals.push_back(c.vals[r.below(i)]);
            else c.vals.push_back(maxu == UINT64_MAX ? r.next() : r.below(maxu + 1));
        }
        std::sort(c.vals.begin(), c.vals.end());
        c.universe = s.draw(2) ? maxu : (m ? c.vals.back() + (c.vals.back() != UINT64_MAX ? 1 : 0) : 0);
        break;
    }
    case K_EFL:
    case K_TKEF: // sums must stay below 2^64 - 1
        c.vals = gen::values(s, gen::size_upto(s, kind == K_EFL ? maxn / 4 + 1 : maxn / 16 + 1), s.draw(2) ? 0xffffffffu : 300);
        break;
    case K_EFCL:
    case K_GV: c.vals = gen::values(s, gen::size_upto(s, maxn / 4 + 1), UINT64_MAX - 1); break;
    case K_GBV: c.vals = gen::values(s, gen::size_upto(s, maxn / 4 + 1), UINT64_MAX - 2); break;
    case K_NV: c.vals = gen::values(s, gen::size_upto(s, maxn), 15); break;
    case K_CT: c.vals = gen::values(s, gen::size_upto(s, maxn / 2 + 1), s.draw(2) ? 1000 : UINT64_MAX); break;
    case K_TK64: c.vals = gen::values(s, gen::size_upto(s, maxn / 16 + 1), s.draw(2) ? 50 : UINT64_MAX); break;
    case K_TKGV: c.vals = gen::values(s, gen::size_upto(s, maxn / 16 + 1), s.draw(2) ? 50 : UINT64_MAX - 1); break;
    case K_USER: {
        static const unsigned parts[] = {K_MV16, K_RS, K_EFL, K_MV8, K_TK64, K_GV, K_BP};
        for (unsigned p : parts) c.sub.push_back(make_content(s, p, maxn / 6 + 1));
        c.vals.push_back(s.draw(256));
        c.vals.push_back(s.draw(0));
        c.vals.push_back(s.draw(2));
        c.vals.push_back(s.draw(1u << 20));
        break;
    }
    }
    return c;
}

inline uint64_t content_size(Content const& c)
{
    if (c.kind == K_USER) {
        uint64_t n = 0;
        for (auto const& x : c.sub) n += content_size(x);
        return n;
    }
    return c.bits.n + c.vals.size();
}

inline std::string show_content(Content const& c)
{
    std::ostringstream os;
    os << kind_name(c.kind) << " ";
    if (c.kind == K_USER) {
        for (auto const& x : c.sub) os << "{" << show_content(x) << "} ";
    } else if (c.bits.n)
        os << gen::show(c.bits, 60);
    else
        os << gen::show_vec(c.vals, 10);
    if (c.kind == K_RS || c.kind == K_BP) os << " hints=" << c.f1 << c.f2;
    if (c.kind == K_EF) os << " universe=" << c.universe << " rank=" << c.f1;
    return os.str();
}

// The answers of an object to a fixed list of queries.
struct Answers {
    std::vector<uint64_t> v;
    std::vector<const char*> tag;
    void put(const char* t, uint64_t x)
    {
        v.push_back(x);
        tag.push_back(t);
    }
};
inline void same_answers(const char* what, Answers const& exp, Answers const& got, Content const& c)
{
    size_t n = std::min(exp.v.size(), got.v.size());
    for (size_t i = 0; i < n; ++i)
        if (exp.v[i] != got.v[i] || strcmp(exp.tag[i], got.tag[i])) {
            std::ostringstream os;
            os << what << ": query " << i << " (" << exp.tag[i] << ") expected " << exp.v[i] << ", got " << got.v[i]
               << " (" << got.tag[i] << ")  [" << show_content(c) << "]";
            eng::fail(os.str());
        }
    if (exp.v.size() != got.v.size()) {
        std::ostringstream os;
        os << what << ": " << exp.v.size() << " answers expected, " << got.v.size() << " got  [" << show_content(c) << "]";
        eng::fail(os.str());
    }
}
} // namespace hx
