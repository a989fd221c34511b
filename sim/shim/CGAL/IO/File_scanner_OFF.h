#pragma once
// CGAL 5.6 moved this header and gave scan_facet_vertex_index a third parameter.
#include <CGAL/IO/OFF/File_scanner_OFF.h>
namespace CGAL { namespace simshim {
struct File_scanner_OFF : ::CGAL::File_scanner_OFF {
    using ::CGAL::File_scanner_OFF::File_scanner_OFF;
    using ::CGAL::File_scanner_OFF::scan_facet_vertex_index;
    void scan_facet_vertex_index(std::size_t &index, std::size_t facet) { ::CGAL::File_scanner_OFF::scan_facet_vertex_index(index, 0, facet); }
};
} }
#define File_scanner_OFF simshim::File_scanner_OFF
