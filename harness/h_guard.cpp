// C31: a structure mapped from memory between two inaccessible pages reads
// nothing outside the bytes map() reports as consumed. (The other half of C31
// is every other harness compiled with AddressSanitizer.)
#include "kinds.hpp"

using namespace succinct;
using namespace succinct::kinds;
using eng::Src;

namespace {
struct Fenced { // bytes between inaccessible pages, touching the right or the left one
    char* base;
    size_t len;
    char* p;
    Fenced(std::string const& b, bool right)
    {
        size_t pg = 4096, body = (b.size() + pg) / pg * pg;
        len = body + 2 * pg;
        base = (char*)mmap(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == MAP_FAILED) throw eng::Discard();
        // keep the start 8-aligned: up to 7 bytes of slack on the right
        p = right ? base + pg + body - (b.size() + 7) / 8 * 8 : base + pg;
        memcpy(p, b.data(), b.size());
        if (mprotect(base, pg, PROT_NONE) || mprotect(base + pg + body, pg, PROT_NONE) ||
            mprotect(base + pg, body, PROT_READ))
            throw eng::Discard();
    }
    ~Fenced() { munmap(base, len); }
    Fenced(Fenced const&) = delete;
};
} // namespace

FACET(fenced, "a case is a structure kind and content, frozen and mapped from read-only memory fenced by inaccessible pages on both sides (image flush against the right or left fence), then queried everywhere; non-trivial with at least 2 elements")
{
    unsigned kind = unsigned(s.draw(hx::K_COUNT));
    uint64_t t = s.draw(100);
    Content c = hx::make_content(s, kind, t < 50 ? 300 : t < 80 ? 3000 : t < 97 ? 30000 : 300000);
    DESC(s, hx::show_content(c));
    s.label(hx::kind_name(kind));
    s.nontrivial(hx::content_size(c) >= 2);
    uint64_t seed = s.seed(), budget = 300;
    uint64_t flags = s.draw(3) == 0 ? mapper::map_flags::warmup : 0;
    bool right = s.draw(4) != 3;
    with_kind(kind, [&](auto k) {
        typedef decltype(k) K;
        typename K::T o, m;
        Rng r(s.seed());
        K::build(c, o, r);
        Answers exp = ask<K>(o, c, seed, budget);
        std::string img = frozen(o);
        Fenced f(img, right);
        uint64_t used = mapper::map(m, f.p, flags);
        CK_EQ("bytes consumed", uint64_t(img.size()), used, hx::show_content(c));
        hx::same_answers("mapped between fences", exp, ask<K>(m, c, seed, budget), c);
        std::string again = frozen(m);
        CK(again == img, "re-frozen image differs " << hx::show_content(c));
        typename K::T().swap(m);
    });
}
