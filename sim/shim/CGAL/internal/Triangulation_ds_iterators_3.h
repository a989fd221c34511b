#include <CGAL/TDS_3/internal/Triangulation_ds_iterators_3.h>
