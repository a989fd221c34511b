#pragma once
// Older CGAL did not require range types of the triangulation data structure.
#include <CGAL/Triangulation_data_structure_2.h>
#include <CGAL/Triangulation_vertex_base_2.h>
#include <CGAL/Triangulation_face_base_2.h>
#include <CGAL/Triangulation_2/internal/Triangulation_line_face_circulator_2.h>
#include <CGAL/spatial_sort.h>
#include <CGAL/Spatial_sort_traits_adapter_2.h>
#include <CGAL/boost/iterator/transform_iterator.hpp>
#include <boost/iterator/zip_iterator.hpp>
#include <CGAL/STL_Extension/internal/info_check.h>
#include <CGAL/Filtered_kernel/internal/Static_filters/tools.h>
#include <CGAL/Triangulation_structural_filtering_traits.h>
#include <CGAL/determinant.h>
#include <unordered_map>
#define Face_handles Vertex
#define Vertex_handles Vertex
#define Edges Vertex
#include_next <CGAL/Triangulation_2.h>
#undef Face_handles
#undef Vertex_handles
#undef Edges
