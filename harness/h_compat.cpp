// C33: files frozen by the pinned version and by the current tree are
// interchangeable. Two variants are linked: the current tree and `pinned`.
#include "cfg_api.hpp"
using eng::Src;
using hx::Content;
using hx::Answers;

extern "C" const CfgVariant* cfg_variant_dbg();
extern "C" const CfgVariant* cfg_variant_pinned();

FACET(compat, "a case is a structure kind and content, frozen by the pinned version and mapped by the current tree and the other way round, compared with the answers of the version that built it; non-trivial with at least 2 elements")
{
    unsigned kind = unsigned(s.draw(hx::K_COUNT));
    uint64_t t = s.draw(100);
    Content c = hx::make_content(s, kind, t < 40 ? 300 : t < 75 ? 5000 : t < 97 ? 40000 : 400000);
    uint64_t route = s.seed(), q = s.seed();
    uint64_t budget = 150 + s.draw(300);
    DESC(s, hx::show_content(c));
    s.label(hx::kind_name(kind));
    s.nontrivial(hx::content_size(c) >= 2);
    const CfgVariant* v[2] = {cfg_variant_pinned(), cfg_variant_dbg()};
    static const char* what[2] = {"a file of the pinned version mapped by the current tree", "a file of the current tree mapped by the pinned version"};
    for (unsigned from = 0; from < 2; ++from) {
        std::string img;
        uint64_t bytes = 0, used = 0;
        Answers a = v[from]->build(c, route, q, budget, &img, &bytes);
        std::vector<uint64_t> buf(img.size() / 8 + 1);
        memcpy(buf.data(), img.data(), img.size());
        Answers b = v[1 - from]->map(c, (const char*)buf.data(), q, budget, &used);
        hx::same_answers(what[from], a, b, c);
        CK_EQ("bytes consumed by map", uint64_t(img.size()), used, what[from] << " " << hx::show_content(c));
    }
}
