// Reference results computed by plain CGAL (exact predicates), never preempted and independent of /repo.
#pragma once
#include <array>
#include <cstdint>
#include <utility>
#include <vector>
namespace oracle {
template<unsigned D> using Pt = std::pair<std::array<double, D>, uint64_t>;
template<unsigned D> using Simplices = std::vector<std::array<uint64_t, D + 1>>;   // vertex ids ascending, simplices ascending
template<unsigned D> Simplices<D> delaunay(const std::vector<Pt<D>> &p);
template<unsigned D> int in_sphere(const std::array<std::array<double, D>, D + 1> &s, const std::array<double, D> &p);   // 1 strictly inside, 0 on, -1 outside
}
