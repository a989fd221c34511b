#pragma once
#include_next <nanoflann.hpp>
namespace nanoflann {
// renamed in newer nanoflann
struct SearchParams : SearchParameters { SearchParams(int = 32, float e = 0, bool s = true) : SearchParameters(e, s) {} };
}
