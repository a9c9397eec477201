// C13 gamma_vector, C14 gamma_bit_vector.
#include "lists.hpp"
#include "gamma_vector.hpp"
#include "gamma_bit_vector.hpp"

using namespace succinct;
using namespace hx;

// Values chosen by code length: runs of the same length (0, 1, 62, 63, ...) so
// that whole blocks of the length index have extreme gaps.
static std::vector<uint64_t> by_length(Src& s, uint64_t n, uint64_t max, uint64_t off)
{
    std::vector<uint64_t> v;
    v.reserve(n);
    while (v.size() < n) {
        uint64_t len = std::min<uint64_t>(n - v.size(), 1 + s.draw(4) * s.draw(800));
        unsigned kind = unsigned(s.draw(4));
        unsigned L = unsigned(s.draw(64));
        if (kind == 0) L = 63;
        if (kind == 1) L = 0;
        Rng r(s.seed());
        for (uint64_t i = 0; i < len; ++i) {
            unsigned l = kind == 3 ? unsigned(r.below(L + 1)) : L;
            uint64_t lo = uint64_t(1) << l;
            uint64_t x = r.below(3) ? lo + (lo > 1 ? r.below(lo) : 0) : r.below(2) ? lo : lo + (lo - 1);
            x = x >= off ? x - off : 0;
            v.push_back(std::min(x, max));
        }
    }
    return v;
}

template <typename L>
static void gamma_case(Src& s, uint64_t off, L& l, std::vector<uint64_t>& v)
{
    Elem e = pick_elem(s);
    uint64_t n = list_len(s, 300000);
    uint64_t max = std::min<uint64_t>(elem_max(e), UINT64_MAX - off);
    v = s.draw(2) ? by_length(s, n, max, off) : gen::values(s, n, max);
    DESC(s, elem_name(e) << " " << gen::show_vec(v));
    build_list(s, v, e, l);
    check_random_access(s, v, l, 4000);
    check_forward(s, v, l);
    s.label(hx::sz_label("n", n));
    s.label(elem_name(e));
    s.nontrivial(n >= 3 && *std::min_element(v.begin(), v.end()) != *std::max_element(v.begin(), v.end()));
}

FACET(gamma_vector, "a case is a sequence of unsigned integers < 2^64-1 (by value or by code length), random access and enumeration; non-trivial: >= 3 values, not all equal")
{
    gamma_vector l;
    std::vector<uint64_t> v;
    gamma_case(s, 1, l, v);
}

FACET(gamma_bit_vector, "a case is a sequence of unsigned integers < 2^64-2, random access, enumeration and next/skip mixes; non-trivial: >= 3 values, not all equal")
{
    gamma_bit_vector l;
    std::vector<uint64_t> v;
    gamma_case(s, 2, l, v);
    if (v.empty()) return;
    uint64_t i = s.draw(v.size());
    std::ostringstream h;
    h << "start " << i;
    forward_enumerator<gamma_bit_vector> e(l, i);
    unsigned calls = unsigned(s.draw(30));
    for (unsigned k = 0; k < calls && i < v.size(); ++k) {
        if (s.draw(2)) {
            uint64_t sk = s.logu(v.size() - i);
            h << " skip " << sk;
            e.skip(sk);
            i += sk;
        } else {
            h << " next";
            CK_EQ("next after skips", v[i], uint64_t(e.next()), h.str() << " " << gen::show_vec(v));
            ++i;
        }
    }
    DESC(s, " " << h.str());
}
