L = "include/load_balancing/"
NOLB = "No test compiles the load balancing code; whether a border is found depends on the point configuration, the shape of the parts and the concurrent assignment of points together."
p("E01", "Load-balanced divide and conquer yields the Delaunay triangulation",
  "For every set of points in general position, every load balancing strategy (k-way splitting, the classic partitioners by depth, binary boxes estimated from a sample, assignment to the part whose centre, bounds or sample point is nearest, bipartitioning by hyperplanes or by nearest sample points), flattened or not, every border test (bounding boxes, estimated or accurate grids of any cell width), number of parts, cutoff, sample size, edge weighting, outcome of the graph partitioner, thread count, and under every schedule of the parallel phases, the load-balanced triangulator returns exactly the simplices of the Delaunay triangulation of the points together with its artificial points at infinity, structurally consistent (unique ids, mutual neighbour links, exact convex hull, exact size). Parts that received no or very few points do no harm, nor does keeping a log. It always terminates, without failing an assertion and without touching memory it does not own.",
  ["schedules", "inputs", "configurations"], "all schedules and task placements, all point clouds in general position (2D and 3D), all strategies, border tests and partitions of the sample graph",
  NOLB, ["include/LoadBalancedDCTriangulator.h", L + "PartitionTree.h", L + "Partitioner.h", L + "IntersectionChecker.h", L + "GridIntersectionChecker.h", L + "AccurateGridIntersectionChecker.h", G],
  [("recursive triangulation of the partition tree and merge", "include/LoadBalancedDCTriangulator.h: triangulateTree, mergeTriangulation"), ("border detection against several neighbouring parts", "include/LoadBalancedDCTriangulator.h: getEdge; " + L + "IntersectionChecker.h")], [], ["returned simplices"],
  note="seeded schedules, partitions of the sample graph and inputs; result compared with an exact-arithmetic reference triangulation after every run")
p("E02", "Load balancing partition trees are partitions, and border tests never miss",
  "Whatever the schedule and splitting of the parallel assignment, every load balancing strategy puts each finite point it was given into exactly one leaf of its tree, adds no other, and puts every point at infinity into every leaf if there is more than one; strategies with a fixed number of parts yield exactly that many, the others at most as many as asked; a flattened tree has only leaves below its root; centre, bounds and nearest-sample assignment put each point where the sample says it is nearest. Each node's bounds contain its points. Its border test never denies that a sphere reaches the part if it contains one of the part's points, does not claim it of spheres that stay clear of the part's bounds (or its occupied grid cells), and a copy of it or of the tree answers alike. Converting a tree to the classic partitioning keeps all parts, points and border tests. A partitioner can be used again.",
  ["schedules", "inputs", "configurations"], "all schedules and range splittings of the parallel assignment; all point sets and subsets, points on grid lines, all strategies and cell widths",
  NOLB, [L + "PartitionTree.h", L + "Partitioner.h", L + "kWaySplitter.h", L + "OldPartitionerPartitioner.h", L + "FlatPartitioner.h", L + "GridIntersectionChecker.h", L + "AccurateGridIntersectionChecker.h", "include/datastructures/AABBTree.h"],
  [("parallel assignment of points to parts", L + "sample_partitioner/*PointAssigningSamplePartitioner.h"), ("bounds and occupied cells of parts", L + "BoundsIntersectionChecker.h, GridIntersectionChecker.h, AccurateGridIntersectionChecker.h"), ("tree of boxes", "include/datastructures/AABBTree.h: intersects")], [], ["PartitionTree", "IntersectionChecker::intersects"],
  note="seeded schedules and inputs; exactly-once ledger over the leaves, border tests probed with spheres of neighbouring parts and judged in exact arithmetic")
p("E03", "Sample graphs are valid, symmetric Delaunay graphs and reproducible",
  "A sample drawn for load balancing consists of distinct finite points of the given set, as many as asked for (or all there are), and the same seed draws the same sample again whatever the schedule. Built in reproducible mode (REPRODUCIBLE), the same seed also yields the same graph, array by array, and the same partition. The graph handed to the graph partitioner and published with the sample has exactly the edges of the Delaunay triangulation of the sample, each in both directions with equal weight, no loops and no duplicates, with offsets that start at zero and end at the number of edges; uniform weights are one, length dependent weights are the given function of the squared length relative to the bounding box, mapped linearly to 1..99. Each sample point is assigned a valid part.",
  ["schedules", "inputs", "configurations"], "all schedules of the parallel triangulation of the sample, all point sets and subsets, sample sizes and weightings",
  NOLB, [L + "sample_partitioner/Sampler.h", L + "sample_partitioner/SamplePartitioner.h"],
  [("random draw and triangulation of the sample", L + "sample_partitioner/Sampler.h: operator()"), ("adjacency arrays and integer weights", L + "sample_partitioner/Sampler.h: makeGraph")], [], ["Sampling"],
  note="seeded schedules and inputs; graph compared with the edges of a reference triangulation, graph partitioner replaced by a recording stub")
p("E04", "Monitors and experiment reports describe exactly the run that was made",
  "The monitor of a load-balanced triangulation reports the size of every leaf of the partition tree, every base triangulation of a non-empty part exactly once with its number of points, the border triangulations (at least one and fewer than there are parts) and, for sampling strategies, those of samples, and their sum - although they are reported by concurrent tasks. The partitioning and the triangulation time are measured durations: they cover the respective phase, never exceed the time the call took, and steps of the wall clock do not affect them. An experiment's report is well formed and describes each of its runs on its own: sizes, base triangulations, sums, times and validity of a run do not include those of earlier runs, and repeated runs yield the same number of simplices.",
  ["schedules", "inputs", "fault_sequences"], "all schedules of concurrent reports, slow partitioners, steps of the wall clock between any two readings, one or several runs",
  NOLB, [L + "monitors/ComprehensiveMonitor.h", L + "monitors/TimingMonitor.h", L + "Experiment.h", "include/LoadBalancedDCTriangulator.h"],
  [("locked accumulation of reports", L + "monitors/ComprehensiveMonitor.h"), ("report of an experiment", L + "Experiment.h: runOnce")], [], ["ComprehensiveAccumulator", "text of the report"],
  note="seeded schedules, simulated clock with injected steps; reports compared with a spy around the partitioner")

EX = "src/exe/"
p("E05", "Experiment, point dump and benchmark programs do what their options say",
  "The experiment program triangulates the points of the given file, or as many generated points as asked for with the given seed and distribution, by the strategy named, and ends with code 0 and one well-formed report in which arguments, distribution or file, number of points, number of threads, seed, strategy, one result per run and the requested verification appear; its number of simplices is that of the Delaunay triangulation of the points in the file, and the same arguments yield the same number again, whatever the schedule and however short the reads of the file. Log output is as verbose as asked for and never disturbs the run. Unknown strategies, distributions, border tests or sampling rules, contradictory, incomplete, out-of-range or unparsable options and missing point files are refused: no report, and an exception or an error code. The point dump prints exactly as many points as asked for, all within the cube from 0 to 100, and the same for the same seed. The benchmark program lists every run of the study for the given bounds exactly once, executes each listed run (or the single one given) in the order asked for and prints one result for each, which repeats the run's traits and, for divide and conquer, the number of simplices of the Delaunay triangulation; a file of runs that is missing or cannot be read completely is refused; a run in which an allocation fails ends the program or is noted in the file of failed experiments, and the remaining runs are not affected.",
  ["inputs", "configurations", "schedules", "fault_sequences"], "all valid and a family of invalid option combinations, all point files, schedules, short reads of the point file, missing, short and failing reads of the file of runs, failing allocations during benchmark runs",
  "No test runs any of the programs; their results depend on options, files, schedules and failing allocations together.",
  [EX + "LB_Experiments.cpp", EX + "LB_PointDump.cpp", EX + "Benchmark.cpp", L + "CommandLineInterface.h", L + "Experiment.h", "include/utils/Timings.h", "include/utils/Logger.h"],
  [("options to strategy, sampler and border test", L + "CommandLineInterface.h: createPartitioner, createSampler, createGenerator"), ("loop over runs, record of failed runs", EX + "Benchmark.cpp: runExperiment, runExperiments, generateExperimentRuns")], [], ["standard output", "exit code", "failedExperiments"],
  note="the unchanged main functions run inside the simulator with seeded options, files, schedules and faults; output parsed and compared with a reference triangulation")
