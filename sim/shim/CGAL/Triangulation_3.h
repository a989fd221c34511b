#pragma once
// Older CGAL did not require range types of the triangulation data structure.
#include <CGAL/Triangulation_data_structure_3.h>
#include <CGAL/Triangulation_cell_base_3.h>
#include <CGAL/Triangulation_vertex_base_3.h>
#include <CGAL/spatial_sort.h>
#include <CGAL/Spatial_sort_traits_adapter_3.h>
#include <CGAL/Iterator_project.h>
#include <CGAL/Spatial_lock_grid_3.h>
#include <CGAL/Triangulation_segment_traverser_3.h>
#include <CGAL/STL_Extension/internal/info_check.h>
#include <CGAL/Filtered_kernel/internal/Static_filters/tools.h>
#include <CGAL/Triangulation_structural_filtering_traits.h>
#include <CGAL/determinant.h>
#include <boost/iterator/zip_iterator.hpp>
#include <boost/unordered_map.hpp>
#define Cell_handles Vertex
#define Vertex_handles Vertex
#define Facets Vertex
#define Edges Vertex
// (old CGAL always took the general path)
#define is_small_hole(n) dimension() < -100
#define SIMSH_H2(c, f) _insert_in_hole(c.begin(), c.end(), f.back().first, f.back().second)
#define SIMSH_H3(p, c, f) simsh_insert_in_small_hole(p, c, f)
#define SIMSH_PICK(a, b, c, N, ...) N
#define _insert_in_small_hole(...) SIMSH_PICK(__VA_ARGS__, SIMSH_H3, SIMSH_H2, )(__VA_ARGS__)
#include_next <CGAL/Triangulation_3.h>
#undef Cell_handles
#undef Vertex_handles
#undef Facets
#undef Edges
#undef is_small_hole
#undef _insert_in_small_hole
