// Sequences of integers and monotone sequences for EF / gamma harnesses.
#pragma once
#include "common.hpp"
#include "forward_enumerator.hpp"

namespace hx {

// Element types a list can be built from.
enum Elem { U64, U32, U16, U8 };
inline uint64_t elem_max(Elem e)
{
    return e == U64 ? UINT64_MAX : e == U32 ? 0xFFFFFFFFull : e == U16 ? 0xFFFFull : 0xFFull;
}
inline const char* elem_name(Elem e) { return e == U64 ? "u64" : e == U32 ? "u32" : e == U16 ? "u16" : "u8"; }
inline Elem pick_elem(Src& s)
{
    unsigned d = unsigned(s.draw(8));
    return d < 4 ? U64 : d < 6 ? U32 : d < 7 ? U16 : U8;
}

template <typename T>
std::vector<T> as(std::vector<uint64_t> const& v)
{
    return std::vector<T>(v.begin(), v.end());
}

// Build a list class from a vector of the chosen element type or a range of
// another shape.
template <typename L>
void build_list(Src& s, std::vector<uint64_t> const& v, Elem e, L& out)
{
    bool linked = v.size() < 3000 && s.draw(4) == 1;
    if (linked) {
        Rng g(s.seed());
        auto f = [&](auto const& range) { L(range).swap(out); };
        switch (e) {
        case U64: succinct::kinds::vals_range<uint64_t>(v, g, f); break;
        case U32: succinct::kinds::vals_range<uint32_t>(v, g, f); break;
        case U16: succinct::kinds::vals_range<uint16_t>(v, g, f); break;
        case U8: succinct::kinds::vals_range<uint8_t>(v, g, f); break;
        }
        return;
    }
    switch (e) {
    case U64: L(v).swap(out); break;
    case U32: L(as<uint32_t>(v)).swap(out); break;
    case U16: L(as<uint16_t>(v)).swap(out); break;
    case U8: L(as<uint8_t>(v)).swap(out); break;
    }
}

inline uint64_t list_len(Src& s, uint64_t xl)
{
    return gen::size_upto(s, gen::size_class(s, xl, 40, 40, 16, 3, 1));
}

template <typename L>
void check_random_access(Src& s, std::vector<uint64_t> const& v, L const& l, uint64_t budget)
{
    CK_EQ("size", uint64_t(v.size()), uint64_t(l.size()), gen::show_vec(v));
    gen::for_positions(s, v.size(), budget, [&](uint64_t i) {
        CK_EQ("operator[]", v[i], uint64_t(l[i]), "index " << i << " of " << gen::show_vec(v));
    });
}

template <typename L>
void check_forward(Src& s, std::vector<uint64_t> const& v, L const& l)
{
    unsigned starts = 1 + unsigned(s.draw(3));
    for (unsigned k = 0; k < starts; ++k) {
        uint64_t st = v.empty() ? 0 : s.draw(v.size());
        uint64_t run = v.size() - st;
        if (run > 5000 && s.draw(4)) run = 5000;
        if (k == 0 && s.draw(2)) {
            succinct::forward_enumerator<L> e(l);
            for (uint64_t i = 0; i < v.size(); ++i)
                CK_EQ("enumerator next", v[i], uint64_t(e.next()), "from 0, index " << i << " of " << gen::show_vec(v));
            continue;
        }
        succinct::forward_enumerator<L> e(l, st);
        for (uint64_t i = 0; i < run; ++i) {
            CK_EQ("enumerator next", v[st + i], uint64_t(e.next()), "start " << st << ", index " << st + i << " of " << gen::show_vec(v));
            if (i == run / 2) { // a copy must continue independently
                succinct::forward_enumerator<L> c(e);
                for (uint64_t j = i + 1; j < run && j < i + 70; ++j)
                    CK_EQ("copied enumerator next", v[st + j], uint64_t(c.next()), "start " << st << ", index " << st + j << " of " << gen::show_vec(v));
            }
        }
    }
}
} // namespace hx
