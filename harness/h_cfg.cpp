// C25: the same library compiled in several instruction-set configurations,
// linked into one program under different namespaces.
#include "cfg_api.hpp"
using eng::Src;
using hx::Content;
using hx::Answers;

#define CFG_DECL(N) extern "C" const CfgVariant* cfg_variant_##N();
CFG_VARIANTS(CFG_DECL)
#define CFG_CALL(N) cfg_variant_##N(),

static std::vector<const CfgVariant*> const& variants()
{
    static const std::vector<const CfgVariant*> v = {CFG_VARIANTS(CFG_CALL)};
    return v;
}

FACET(cfg_structures, "a case is a structure kind and content built in every configuration; answers and frozen bytes are compared pairwise and each image is mapped by the other configurations; non-trivial with at least 2 elements")
{
    auto const& v = variants();
    unsigned kind = unsigned(s.draw(hx::K_COUNT));
    uint64_t t = s.draw(100);
    Content c = hx::make_content(s, kind, t < 40 ? 300 : t < 75 ? 5000 : t < 97 ? 40000 : 400000);
    uint64_t route = s.seed(), q = s.seed();
    uint64_t budget = 150 + s.draw(300);
    DESC(s, hx::show_content(c));
    s.label(hx::kind_name(kind));
    s.nontrivial(hx::content_size(c) >= 2);
    std::vector<std::string> img(v.size());
    Answers first;
    uint64_t bytes0 = 0;
    for (size_t i = 0; i < v.size(); ++i) {
        uint64_t bytes = 0;
        Answers a = v[i]->build(c, route, q, budget, &img[i], &bytes);
        if (i == 0) {
            first = a;
            bytes0 = bytes;
        } else {
            std::string w = std::string("answers of configuration ") + v[i]->name + " against " + v[0]->name;
            hx::same_answers(w.c_str(), first, a, c);
            CK_EQ("size_of", bytes0, bytes, v[i]->name << " " << hx::show_content(c));
            CK(img[i] == img[0], "frozen image of " << v[i]->name << " differs from " << v[0]->name << " " << hx::show_content(c));
        }
    }
    size_t from = s.draw(v.size());
    std::vector<uint64_t> buf(img[from].size() / 8 + 1);
    memcpy(buf.data(), img[from].data(), img[from].size());
    for (size_t i = 0; i < v.size(); ++i) {
        uint64_t used = 0;
        Answers a = v[i]->map(c, (const char*)buf.data(), q, budget, &used);
        std::string w = std::string("image of ") + v[from]->name + " mapped by " + v[i]->name;
        hx::same_answers(w.c_str(), first, a, c);
        CK_EQ("bytes consumed by map", uint64_t(img[from].size()), used, v[i]->name);
    }
}

FACET(cfg_words, "a case is a batch of 200 word pairs given to the word primitives of every configuration; always non-trivial")
{
    auto const& v = variants();
    s.nontrivial();
    Content c;
    c.kind = hx::K_BV;
    eng::Rng r(s.seed());
    unsigned style = unsigned(s.draw(6));
    uint64_t lit = s.draw(0);
    DESC(s, "style " << style << " word " << lit);
    for (unsigned k = 0; k < 200; ++k) {
        uint64_t x = r.next(), y = r.next();
        switch (style) {
        case 1: x = y & r.next() & r.next(); break;
        case 2: x = uint64_t(1) << (x % 64); break;
        case 3: x = x >> (y % 64); break;
        case 4: x = ~(y & r.next() & r.next()); break;
        case 5: x = x << (y % 64); break;
        default: break;
        }
        if (k == 0) x = lit;
        if (k == 1) x = 0;
        Answers first;
        v[0]->words(x, y, first);
        for (size_t i = 1; i < v.size(); ++i) {
            Answers a;
            v[i]->words(x, y, a);
            std::ostringstream w;
            w << "word primitives of " << v[i]->name << " against " << v[0]->name << " on " << x << ", " << y;
            hx::same_answers(w.str().c_str(), first, a, c);
        }
    }
}
