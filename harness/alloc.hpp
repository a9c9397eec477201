// Counting of live allocations, usable with and without AddressSanitizer, and
// a switch that makes malloc return pre-filled memory.
#pragma once
#include <stdint.h>
#include <stdlib.h>
#include <malloc.h>
#include <fstream>
#include <memory>
#include <new>
#include "../engine/engine.hpp"

#if defined(__SANITIZE_ADDRESS__)
#define HX_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HX_ASAN 1
#endif
#endif

namespace hx {
inline int64_t& alloc_count()
{
    static int64_t n = 0;
    return n;
}
inline uint64_t live_allocs() { return uint64_t(alloc_count()); }
// When positive: counts down per allocation, the one that reaches 0 fails.
inline int64_t& fail_countdown()
{
    static int64_t n = 0;
    return n;
}
inline uint64_t& alloc_total()
{
    static uint64_t n = 0;
    return n;
}
inline unsigned char& new_fill()
{
    static unsigned char f = 0;
    return f;
}
} // namespace hx

#ifdef HX_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
namespace hx {
inline void on_malloc(const volatile void*, size_t) { ++alloc_count(); }
inline void on_free(const volatile void* p) { if (p) --alloc_count(); }
static int hooks_installed = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
inline void perturb(int) {}
}
#else
// operator new/delete are replaced: counted, and filled with a pattern
static void* hx_new(size_t n)
{
    ++hx::alloc_total();
    if (hx::fail_countdown() > 0 && --hx::fail_countdown() == 0) throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (hx::new_fill()) memset(p, hx::new_fill(), n);
    ++hx::alloc_count();
    return p;
}
static void hx_delete(void* p)
{
    if (!p) return;
    --hx::alloc_count();
    free(p);
}
void* operator new(size_t n) { return hx_new(n); }
void* operator new[](size_t n) { return hx_new(n); }
void operator delete(void* p) noexcept { hx_delete(p); }
void operator delete[](void* p) noexcept { hx_delete(p); }
void operator delete(void* p, size_t) noexcept { hx_delete(p); }
void operator delete[](void* p, size_t) noexcept { hx_delete(p); }
namespace hx {
inline void perturb(int f) { new_fill() = (unsigned char)f; }
}
#endif

namespace hx {
// one-time allocations of the C++ runtime must not look like leaks
inline void warm_iostreams()
{
    static bool done = false;
    if (done) return;
    std::string p = eng::scratch_file("warm");
    {
        std::ofstream f(p.c_str(), std::ios::binary);
        f << "x" << 12;
    }
    {
        FILE* f = fopen(p.c_str(), "rb");
        if (f) {
            (void)fgetc(f);
            fclose(f);
        }
    }
    unlink(p.c_str());
    done = true;
}
} // namespace hx
