#include "oracle.h"
#include <CGAL/Exact_predicates_inexact_constructions_kernel.h>
#include <CGAL/Delaunay_triangulation_2.h>
#include <CGAL/Triangulation_vertex_base_with_info_2.h>
#include <CGAL/Triangulation_vertex_base_with_info_3.h>
#include <CGAL/Triangulation_cell_base_3.h>
#include <CGAL/Triangulation_data_structure_3.h>
#include <CGAL/Delaunay_triangulation_3.h>
#include <algorithm>
typedef CGAL::Exact_predicates_inexact_constructions_kernel K;
namespace oracle {
template<> Simplices<2> delaunay<2>(const std::vector<Pt<2>> &p) {
    typedef CGAL::Triangulation_data_structure_2<CGAL::Triangulation_vertex_base_with_info_2<uint64_t, K>> T; CGAL::Delaunay_triangulation_2<K, T> t;
    std::vector<std::pair<K::Point_2, uint64_t>> v; for (auto &x : p) v.emplace_back(K::Point_2(x.first[0], x.first[1]), x.second);
    t.insert(v.begin(), v.end()); Simplices<2> r;
    for (auto f = t.finite_faces_begin(); f != t.finite_faces_end(); ++f) { std::array<uint64_t, 3> a; for (int i = 0; i < 3; ++i) a[i] = f->vertex(i)->info(); std::sort(a.begin(), a.end()); r.push_back(a); }
    std::sort(r.begin(), r.end()); return r;
}
template<> Simplices<3> delaunay<3>(const std::vector<Pt<3>> &p) {
    typedef CGAL::Triangulation_data_structure_3<CGAL::Triangulation_vertex_base_with_info_3<uint64_t, K>, CGAL::Delaunay_triangulation_cell_base_3<K>> T; CGAL::Delaunay_triangulation_3<K, T> t;
    std::vector<std::pair<K::Point_3, uint64_t>> v; for (auto &x : p) v.emplace_back(K::Point_3(x.first[0], x.first[1], x.first[2]), x.second);
    t.insert(v.begin(), v.end()); Simplices<3> r;
    for (auto f = t.finite_cells_begin(); f != t.finite_cells_end(); ++f) { std::array<uint64_t, 4> a; for (int i = 0; i < 4; ++i) a[i] = f->vertex(i)->info(); std::sort(a.begin(), a.end()); r.push_back(a); }
    std::sort(r.begin(), r.end()); return r;
}
template<> int in_sphere<2>(const std::array<std::array<double, 2>, 3> &s, const std::array<double, 2> &p) {
    auto P = [](const std::array<double, 2> &a) { return K::Point_2(a[0], a[1]); };
    auto b = CGAL::side_of_bounded_circle(P(s[0]), P(s[1]), P(s[2]), P(p)); return b == CGAL::ON_BOUNDED_SIDE ? 1 : b == CGAL::ON_BOUNDARY ? 0 : -1;
}
template<> int in_sphere<3>(const std::array<std::array<double, 3>, 4> &s, const std::array<double, 3> &p) {
    auto P = [](const std::array<double, 3> &a) { return K::Point_3(a[0], a[1], a[2]); };
    auto b = CGAL::side_of_bounded_sphere(P(s[0]), P(s[1]), P(s[2]), P(s[3]), P(p)); return b == CGAL::ON_BOUNDED_SIDE ? 1 : b == CGAL::ON_BOUNDARY ? 0 : -1;
}
}
