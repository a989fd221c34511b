#pragma once
// Header of older CGAL releases that the pinned code includes; CGAL 5.6 moved it.
// CGAL_TRIANGULATION_DEBUG_CHECKS is off, as in the repository's own release builds.
#include <CGAL/assertions.h>
#ifndef CGAL_triangulation_assertion
#define CGAL_triangulation_assertion(x) CGAL_assertion(x)
#define CGAL_triangulation_precondition(x) CGAL_precondition(x)
#define CGAL_triangulation_precondition_msg(x, m) CGAL_precondition_msg(x, m)
#define CGAL_triangulation_postcondition(x) CGAL_postcondition(x)
#define CGAL_triangulation_expensive_precondition(...) static_cast<void>(0)
#define CGAL_triangulation_expensive_precondition_msg(...) static_cast<void>(0)
#define CGAL_triangulation_expensive_postcondition(...) static_cast<void>(0)
#define CGAL_triangulation_expensive_assertion(...) static_cast<void>(0)
#if defined(CGAL_NO_ASSERTIONS) || defined(NDEBUG)
#define CGAL_triangulation_assertion_code(...)
#define CGAL_triangulation_precondition_code(...)
#define CGAL_triangulation_postcondition_code(...)
#else
#define CGAL_triangulation_assertion_code(...) __VA_ARGS__
#define CGAL_triangulation_precondition_code(...) __VA_ARGS__
#define CGAL_triangulation_postcondition_code(...) __VA_ARGS__
#endif
#define CGAL_triangulation_expensive_precondition_code(...)
#define CGAL_triangulation_expensive_assertion_code(...)
#endif
