// Balanced parentheses generator, for harnesses using the library.
#pragma once
#include "common.hpp"
#include "bpgen_ref.hpp"
