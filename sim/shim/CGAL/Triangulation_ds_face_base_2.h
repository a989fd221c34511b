#pragma once
// Older CGAL had no Face_data in the 2D triangulation data structure concept.
#include <CGAL/Triangulation_utils_2.h>
#include <CGAL/Dummy_tds_2.h>
#define Face_data Vertex_handle
#include_next <CGAL/Triangulation_ds_face_base_2.h>
#undef Face_data
