#define ENGINE_NO_MAIN 1
// Compiled once per configuration, with -Dsuccinct=<namespace> and
// -DCFG_NAME=<identifier>, against that configuration's copy of the library.
#include "kinds.hpp"
#include "cfg_api.hpp"
#include "broadword.hpp"
#include "util.hpp"

namespace {
hx::Answers build(hx::Content const& c, uint64_t route, uint64_t qseed, uint64_t budget, std::string* image, uint64_t* bytes)
{
    hx::Answers a;
    succinct::kinds::with_kind(c.kind, [&](auto k) {
        typedef decltype(k) K;
        eng::Rng r(route);
        typename K::T o;
        K::build(c, o, r);
        a = succinct::kinds::ask<K>(o, c, qseed, budget);
        *bytes = succinct::mapper::size_of(o);
        *image = succinct::kinds::frozen(o);
    });
    return a;
}
hx::Answers map(hx::Content const& c, const char* image, uint64_t qseed, uint64_t budget, uint64_t* consumed)
{
    hx::Answers a;
    succinct::kinds::with_kind(c.kind, [&](auto k) {
        typedef decltype(k) K;
        typename K::T o;
        *consumed = succinct::mapper::map(o, image);
        a = succinct::kinds::ask<K>(o, c, qseed, budget);
    });
    return a;
}
void words(uint64_t x, uint64_t y, hx::Answers& a)
{
    namespace bw = succinct::broadword;
    uint64_t n = uint64_t(bw::popcount(x));
    a.put("popcount", n);
    a.put("byte_counts", bw::byte_counts(x));
    a.put("reverse_bits", bw::reverse_bits(x));
    a.put("reverse_bytes", bw::reverse_bytes(x));
    unsigned long r = 0;
    a.put("msb nonzero", bw::msb(x, r));
    if (x) a.put("msb", r);
    r = 0;
    a.put("lsb nonzero", bw::lsb(x, r));
    if (x) a.put("lsb", r);
    if (x) {
        a.put("msb(x)", bw::msb(x));
        a.put("lsb(x)", bw::lsb(x));
        a.put("select_in_word", bw::select_in_word(x, y % n));
    }
    a.put("same_msb", bw::same_msb(x, y));
}
} // namespace

#define CFG_GLUE2(A, B) A##B
#define CFG_GLUE(A, B) CFG_GLUE2(A, B)
#define CFG_STR2(A) #A
#define CFG_STR(A) CFG_STR2(A)
extern "C" const CfgVariant* CFG_GLUE(cfg_variant_, CFG_NAME)()
{
    static const CfgVariant v = {CFG_STR(CFG_NAME), &build, &map, &words};
    return &v;
}
