G = "include/Geometry.h"
DC = "src/lib/DCTriangulator.cpp"
NOGEO = "No test triangulates anything; whether the merge of partial triangulations is right depends on the point configuration, the partition tree and the schedule of the parallel phases together."
p("D01", "Divide and conquer yields the Delaunay triangulation under every schedule",
  "For every set of points in general position, wherever it lies and however it is shaped, every partitioner, recursion depth, thread count, grid occupancy and choice of parallel base and border triangulation, and under every schedule of the parallel phases, the divide-and-conquer triangulator returns exactly the simplices of the Delaunay triangulation of the points together with its artificial points at infinity - none missing, none foreign, none twice, vertices in ascending order - and these artificial points surround the data with a wide margin in every orthant. It does so whether or not a log is kept. It always terminates, without failing an assertion and without touching memory it does not own.",
  ["schedules", "inputs", "configurations"], "all schedules and task placements, all point clouds in general position (2D and 3D), all partitioners, depths and parallel options",
  NOGEO, [DC, "include/DCTriangulator.h", G],
  [("recursive division and parallel triangulation of the parts", DC + ": _triangulateBase/_triangulate"), ("border detection and border triangulation", DC + ": getEdge, extractPoints"), ("merge", DC + ": mergeTriangulation"), ("circumsphere test against partition boxes", G + ": dSimplex::circumsphere")], [], ["returned simplices"],
  note="seeded schedules, placements and inputs; result compared with an exact-arithmetic reference triangulation (harness/oracle.cpp) after every run")
p("D02", "A merged triangulation is structurally consistent",
  "The triangulation returned by the divide-and-conquer triangulator is usable as a data structure: simplex ids are unique and every simplex is found under its id, each face belongs to at most two simplices, the neighbour entry opposite each vertex names exactly the simplex that shares the remaining vertices - in both directions, and no simplex at all where there is none -, the convex hull lists every simplex that has a vertex at infinity exactly once and no other, and the reported size is the number of simplices.",
  ["schedules", "inputs", "configurations"], "all schedules of the concurrent neighbour updates and where-used insertions; all inputs and configurations of D01",
  NOGEO, [DC, G],
  [("concurrent neighbour repair after a merge", DC + ": updateNeighbors, mergeTriangulation"), ("where-used table", DC + ": buildWhereUsed"), ("block arrays keyed by simplex id", "include/datastructures/BlockedArray2.hxx")], [], ["ids", "neighbors", "convexHull", "exact_size"],
  note="seeded schedules and inputs; every face, neighbour link, id and hull entry recomputed from the vertices")
p("D04", "Point statistics and partitioners: every point in exactly one sound part",
  "Whatever the schedule and the splitting of the parallel loops, the statistics of a set of points are the exact minimum, maximum and midpoint per dimension (infinite points only counted on request), also for negative coordinates, and are the same sequentially and in parallel. Every partitioner puts each finite point of the set into exactly one of its parts and every infinite point into all of them (or into none on request), each part's box contains its points, the boxes lie inside and tile the bounding box of the set, the parts are numbered in order and a point is found in its part; the cycle, extend and fixed-dimension partitioners split the dimension they promise at its midpoint.",
  ["schedules", "inputs"], "all schedules, range splittings and task placements; all point sets including shared and negative coordinates, all partitioners, 2D and 3D, float and double",
  NOGEO, ["src/lib/Partitioner.cpp", "include/Partitioner.h", G],
  [("parallel reduction of extreme coordinates", "include/Partitioner.h: getPointStats"), ("parallel assignment of points to concurrent bit sets", "src/lib/Partitioner.cpp: partition")], [], ["dPointStats", "Partitioning"],
  note="seeded schedules, splittings and inputs against exact reference statistics and an exactly-once ledger")
p("D06", "Verification and comparison of triangulations report exactly what is wrong",
  "Verifying a triangulation answers 'valid' if and only if it is a consistent Delaunay triangulation of the given points: all neighbour links mutual and between simplices that share a face, no duplicate simplex, no point inside the circumsphere of an adjacent simplex, the convex hull complete and free of finite simplices, every point used and no unknown one. The report lists exactly the duplicates, exactly the points inside circumspheres and at least every wrong neighbour pair. Comparing two triangulations reports exactly the missing and the foreign simplices and says valid only if there are none and no simplex lacks a neighbour it has in the other, and equal triangulations have equal fingerprints. All this under every schedule and range splitting of the parallel checks.",
  ["schedules", "inputs", "histories"], "all schedules and range splittings; correct triangulations and all kinds and combinations of corruption",
  "A verifier is only exercised by wrong triangulations, which no test constructs; the reports are collected by concurrent tasks.", ["src/lib/Geometry.cpp", G],
  [("parallel verification with concurrent report containers", "src/lib/Geometry.cpp: dSimplices::verify"), ("parallel comparison", "src/lib/Geometry.cpp: crossCheck, countDuplicates, genFingerprint")], [], ["VerificationReport", "CrossCheckReport"],
  note="seeded schedules; corruption faults injected into real triangulations, reports compared with a reference verification in exact arithmetic")
p("D07", "Base solvers triangulate any subset, the parallel one under every schedule",
  "The base solvers - sequential in two and three dimensions and the concurrent one in three dimensions, which locks cells of a shared grid - return for every subset of the points, with or without points at infinity, exactly the Delaunay triangulation of that subset with correct neighbour links, whatever the schedule, the number of workers and the grid resolution; they terminate (no deadlock or livelock on the cell locks) and hand out every simplex id only once.",
  ["schedules", "inputs", "configurations"], "all schedules and task placements of the concurrent insertion; all subsets, grid occupancies, with or without infinite points",
  NOGEO, ["src/lib/CGALTriangulator.cpp", "include/CGALTriangulator.h", "include/mods/Delaunay_triangulation_3.h", "include/mods/Indexed_Triangulation_data_structure_3.h", "include/mods/Indexed_Triangulation_data_structure_2.h", "include/utils/IndexHandler.h"],
  [("concurrent insertion with per-cell try locks and retries", "include/mods/Delaunay_triangulation_3.h: Insert_point"), ("concurrent cell ids", "include/mods/Indexed_Triangulation_data_structure_3.h, include/utils/IndexHandler.h"), ("conversion to simplices", "src/lib/CGALTriangulator.cpp: _delaunayCgal")], [], ["returned simplices"],
  note="seeded schedules and inputs; result compared with an exact-arithmetic reference triangulation, neighbour links recomputed")
p("D08", "Point files load completely or fail loudly, whatever happens to the I/O",
  "A point set whose storing reported success loads back identically, including the points at infinity. If storing fails - disk full, I/O error, file cannot be opened - the caller is told. A file that was cut short by a crash, or whose reading fails, is never accepted as a smaller or different point set. Short and interrupted reads and writes change nothing. Loading points from a text file yields exactly the points of the file, appended to those already there, with the exact bounds of what was loaded, or reports the error.",
  ["fault_sequences", "crash_points", "inputs"], "all sequences of short, interrupted and failing reads and writes, full disks, failing opens; a crash after any number of durable bytes; all point sets",
  "Tests run on a disk that never fills up, never fails and never loses power.", [G, "include/utils/Serialization.hxx"],
  [("binary archive with checked close", "include/utils/Serialization.hxx: storeObject/loadObject"), ("text parser", G + ": dPoints::loadFromFile")], [], ["loaded points", "exceptions"],
  note="simulated file system with injected faults; content compared with the original")
p("D09", "Running out of memory during a triangulation surfaces and is survivable",
  "If the system runs out of memory at any allocation made while a divide-and-conquer triangulation runs, in whichever thread, the caller either gets the correct triangulation or std::bad_alloc - never a wrong result, a hang, an aborted process or a write to memory that is gone -, and repeating the triangulation with the same triangulator once memory is available again succeeds with the correct result.",
  ["fault_sequences", "schedules", "inputs"], "every allocation may fail, in any worker, at any schedule",
  "No test makes an allocation fail; which task suffers it and what its siblings do meanwhile is a matter of the schedule.", [DC, "src/lib/CGALTriangulator.cpp", "include/mods/Indexed_Triangulation_data_structure_3.h", "include/mods/Indexed_Triangulation_data_structure_2.h", "include/utils/IndexHandler.h"],
  [("unwinding of partially built triangulations", "include/mods/Indexed_Triangulation_data_structure_*.h destructors"), ("exceptions across parallel tasks", DC)], [], ["exceptions", "the triangulation repeated afterwards"],
  note="seeded injection of std::bad_alloc combined with seeded schedules; checking heap; reference triangulation")
p("D03", "Point location finds the simplex that holds a point",
  "In every triangulation that divide and conquer returns - whatever the schedule that merged it and however many simplices were deleted on the way - locating a point anywhere within the artificial hull, near the data or far outside of it, starting from any simplex of the triangulation or without a start, terminates with the existing simplex that contains the point, found by walking along the neighbour links, without failing an assertion.",
  ["schedules", "inputs", "configurations"], "all merged triangulations in 2D and 3D, all query points that are not on a face, all starting simplices",
  NOGEO, [G, "src/lib/Geometry.cpp", "include/datastructures/BlockedArray2.hxx"],
  [("best-first walk along neighbour links", G + ": dSimplices::findNearestSimplex"), ("barycentric containment and distance to faces", "src/lib/Geometry.cpp: inSimplex, sqDistanceToFace")], [], ["findNearestSimplex"],
  note="seeded schedules produce the triangulation, seeded queries are compared with barycentric coordinates of all simplices in extended precision")
p("D10", "Stored triangulations load back completely or fail loudly",
  "A triangulation, merged from many blocks and with deleted simplices in between, whose storing reported success loads back identically: the same simplices under the same ids, with the same vertices, neighbours and convex hull; the loaded triangulation verifies, compares equal and is as usable as the original. If storing fails - disk full, I/O error, file cannot be opened - the caller is told, and a file that was cut short by a crash, or whose reading fails, is reported and never accepted as another triangulation. Short and interrupted reads and writes change nothing.",
  ["fault_sequences", "crash_points", "inputs"], "all sequences of short, interrupted and failing reads and writes, full disks, failing opens; a crash after any number of durable bytes; all triangulations",
  "No test stores a triangulation, let alone on a failing disk.", [G, "include/datastructures/BlockedArray2.hxx", "include/utils/Serialization.hxx"],
  [("serialization of the blocks and the hull", "include/datastructures/BlockedArray2.hxx: save/load; " + G + ": dSimplices::serialize"), ("binary archive with checked close", "include/utils/Serialization.hxx: storeObject/loadObject")], [], ["loaded triangulation", "exceptions"],
  note="simulated file system with injected faults; loaded simplices compared one by one and judged against the reference triangulation")
p("D11", "Generated point sets are complete, inside the bounds and reproducible",
  "For every distribution, number of points (including zero, one and numbers that do not divide evenly) and bounding box, generating a point set yields exactly the requested number of points under the ids from 1 on: every one of them is set, lies inside the requested bounds up to rounding, and - except for the deliberately malicious distribution - coincides with no other. The same state of the random number generator yields the same points, whichever way the generator object was made and however many threads generate at the same time, sharing one generator object or not. The spatial sort applied to the points only permutes them and leaves the unused slot 0 alone. A failing allocation reaches the caller, and repeating the generation then yields the same points.",
  ["inputs", "schedules", "fault_sequences", "configurations"], "all distributions, dimensions, sizes, boxes and random states; all interleavings of concurrently generating threads; all sequences of failing allocations",
  "The repository's tests generate no points; a shared mutable state inside a generator needs a particular interleaving to show.", ["include/utils/Generator.h", "include/load_balancing/UnboundBubbleGenerator.h", "include/load_balancing/PatchBubbleGenerator.h", "include/load_balancing/MaliciousBubbleGenerator.h", "src/lib/SpatialSort.cpp", "include/load_balancing/CommandLineInterface.h"],
  [("generation into slots 1..n", "include/utils/Generator.h: PointGenerator::generate and the subclasses' _gen"), ("spatial sort", "src/lib/SpatialSort.cpp: CGALSpatialSorter::sort"), ("choice of the generator", "GeneratorFactory::make, createGenerator")], [], ["generated points"],
  note="seeded random states and schedules; every concurrent generation is compared with the one made alone, which is judged point by point")
