// Interface between h_cfg.cpp and the per-configuration copies of the library.
#pragma once
#include "contents.hpp"
struct CfgVariant {
    const char* name;
    hx::Answers (*build)(hx::Content const&, uint64_t route, uint64_t qseed, uint64_t budget, std::string* image, uint64_t* bytes);
    hx::Answers (*map)(hx::Content const&, const char* image, uint64_t qseed, uint64_t budget, uint64_t* consumed);
    void (*words)(uint64_t x, uint64_t y, hx::Answers& a);
};
