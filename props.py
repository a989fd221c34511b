"""What each check runs: property -> binaries, search budget, and what is real / simulated."""
SIM_REAL = "scheduler-visible code compiled from /repo's current tree with every atomic, plain access and call a preemption point"
STUB_TBB = "oneTBB replaced by a simulated work-stealing runtime (sim/core/simtbb.cpp): task placement, range splitting and stealing are seeded"
STUB_OS = "pthread, clocks, sleeps, host name, /proc and file I/O replaced by the simulator (sim/core/rt_interpose.cpp)"
STUB_HEAP = "operator new/delete served by a checking heap (use-after-free, out-of-bounds, double free, injected std::bad_alloc)"
SC = "sequentially consistent interleavings only: reorderings allowed by the C++ memory model but not by SC are outside the simulator"

P = {}
def prop(pid, bins, real, quick=(1_000_000, 20), thorough=(100_000_000, 480), stubs=(), assume=(), rule=""):
    P[pid] = dict(bins=bins, real=real, quick=quick, thorough=thorough, stubs=list(stubs), assume=[SC] + list(assume), rule=rule)

HASH = ["include/datastructures/LP_Set.hxx", "include/datastructures/LP_Map.hxx", "include/datastructures/LP_MultiMap.hxx", "include/datastructures/Growing_LP.hxx"]
BITS = ["include/datastructures/Bit_Set.hxx", "include/datastructures/BlockedArray.hxx", "include/datastructures/BlockedArray2.hxx"]
prop("C04", ["bits"], BITS)
prop("C07", ["bits"], ["include/utils/IndexHandler.h"])
prop("C11", ["bits"], BITS)
prop("C14", ["bits"], ["include/mods/parallel_do.h"])
prop("C01", ["hash"], HASH)
prop("C02", ["hash"], HASH)
prop("C03", ["hash"], HASH)
prop("C05", ["hash"], HASH)
prop("C06", ["hash", "bits"], HASH + BITS)
prop("C15", ["hash", "bits"], HASH + BITS)
UT = ["src/utils/*.cpp", "include/utils/*.h"]
for x in ("C08", "C09", "C10", "C12", "C13"):
    prop(x, ["utils"], UT)
GEO = ["src/lib/Geometry.cpp", "src/lib/Partitioner.cpp", "src/lib/Triangulator.cpp", "src/lib/DCTriangulator.cpp", "src/lib/CGALTriangulator.cpp", "include/mods/*.h", "include/datastructures/*", "include/Geometry.h", "src/utils/Predicates.cpp"]
GENERAL = "point clouds in general position (random mantissas, several shapes, scales and offsets); degenerate inputs such as cospherical or coinciding points are outside, because their Delaunay triangulation is not unique"
SMALLBASE = "the recursion's base case size is lowered to 40 points by the hook PARDETRIA_SIM_BASE_CUTOFF, so that small clouds are divided and merged"
for x in ("D01", "D02", "D09"):
    prop(x, ["geo"], GEO, quick=(1_000_000, 25), assume=[GENERAL, SMALLBASE])
prop("D06", ["geo"], GEO, assume=[GENERAL, SMALLBASE])
prop("D07", ["geo"], GEO, assume=[GENERAL, "headers of CGAL itself run as real code, its parallel parts on the simulated runtime"])
prop("D04", ["geo"], ["src/lib/Partitioner.cpp", "include/Partitioner.h", "include/Geometry.h", "include/datastructures/Bit_Set.hxx"])
prop("D08", ["geo"], ["include/Geometry.h", "include/utils/Serialization.hxx"])
LB = ["include/LoadBalancedDCTriangulator.h", "include/load_balancing/*.h", "include/load_balancing/sample_partitioner/*.h", "include/load_balancing/monitors/*.h", "include/datastructures/AABBTree.h"] + GEO
KAHIP = "KaHIP (not installed) replaced by a stub that partitions the sample graph in one of three seeded ways and records what it was given (sim/core/simkahip.cpp)"
prop("E01", ["lb"], LB, quick=(1_000_000, 30), stubs=[KAHIP], assume=[GENERAL])
prop("E02", ["lb"], LB, quick=(1_000_000, 20), stubs=[KAHIP], assume=[GENERAL])
prop("E03", ["lb", "lbr"], LB, quick=(1_000_000, 20), stubs=[KAHIP], assume=[GENERAL])
prop("E04", ["lb"], LB, quick=(1_000_000, 25), stubs=[KAHIP], assume=[GENERAL])
prop("D03", ["geo"], GEO, assume=[GENERAL, SMALLBASE])
prop("D10", ["geo"], GEO, assume=[GENERAL, SMALLBASE])
prop("E05", ["prog"], ["src/exe/LB_Experiments.cpp", "src/exe/LB_PointDump.cpp", "src/exe/Benchmark.cpp", "src/utils/Timings.cpp", "src/utils/Logger.cpp"] + LB, quick=(1_000_000, 35), stubs=[KAHIP], assume=[GENERAL, SMALLBASE])
prop("D11", ["gen"], ["include/utils/Generator.h", "include/load_balancing/*BubbleGenerator.h", "src/lib/SpatialSort.cpp", "include/load_balancing/CommandLineInterface.h", "include/Geometry.h"], assume=["the random number engine std::mt19937 itself is the real one, its seed is the simulator's"])
prop("C16", ["hash", "bits", "geo", "lb"], sorted(set(HASH + BITS + LB)), quick=(1_000_000, 40), stubs=[KAHIP], assume=[GENERAL, SMALLBASE, "memory of CGAL and GMP allocated with malloc is not accounted for, nor what CGAL keeps after a failed allocation"])
