p("C04", "Concurrent bit set: each bit linearizable, bulk operations exact",
  "Setting, clearing and testing bits of one concurrent bit set from any number of threads behaves, bit by bit, like some sequential order that respects real time: each operation reports the state the bit had, exactly one of several concurrent first setters learns that it was the first, and neighbouring bits of the same machine word never influence each other. When no operation is running, the counts of set and cleared bits, emptiness, membership (also outside the bounds: not set), and in-order iteration agree with the content. Moving and converting between sequential and concurrent form, merging, filtered merging, filtering, copying, storing and loading, resizing and setting a whole range of bits yield exactly the bits set algebra prescribes, with a correct count.",
  ["schedules", "inputs", "histories"], "all interleavings of set/unset/test on shared and neighbouring words; all bounds, densities, overlaps of the operands and sub-word ranges of the bulk operations",
  NOTEST, [D + "Bit_Set.hxx"],
  [("compare-and-swap loop on 32-bit blocks with a separate ones counter", D + "Bit_Set.hxx: Concurrent_Bit_Set"), ("block-wise set algebra", D + "Bit_Set.hxx: Bit_Set::merge/filter/copy/resize/batchSet")],
  [("m_ones", "number of set bits", D + "Bit_Set.hxx")], ["return values", "ones()/zeros()", "iteration"],
  note="seeded schedule search, per-bit linearizability of the recorded history against a one-bit model, set algebra reference for bulk operations")
p("C07", "Id allocator never hands out an id that is in use",
  "Whatever threads request and release ids at the same time, the concurrent id allocator never hands out an id that is currently held by anybody, all ids handed out lie between its first id and its maximum id without gaps (the maximum counts every id ever handed out), and released ids are reused before new ones are created once the allocator is quiescent - unless recycling is disabled, in which case no id is ever handed out twice.",
  ["schedules", "histories"], "all interleavings of getId/releaseId/maxId, all release rates, recycling on or off",
  NOTEST, ["include/utils/IndexHandler.h"],
  [("concurrent free list in front of an atomic counter", "include/utils/IndexHandler.h: Concurrent_IndexHandler")], [], ["returned ids", "maxId()"],
  note="seeded schedule search; ownership model of held ids checked at every hand-out")
p("C08", "Log entries of concurrent threads stay whole, ordered and attributed",
  "When any number of threads or tasks write log entries at the same time, the printed log contains every entry whose level the configured verbosity admits exactly once, complete and not mixed with other entries, indented by the indentation of the thread that wrote it; changing the indentation in one thread never affects another. An entry that was finished before another one began is printed before it. Printing with a lower verbosity yields exactly the entries of at most that level, a silent logger prints nothing, and the first use of the logger may happen in several threads at once.",
  ["schedules", "inputs"], "all interleavings of logging threads and tasks, all verbosity levels, indentation changes and first uses",
  NOTEST, ["src/utils/Logger.cpp", "include/utils/Logger.h"],
  [("one stream per entry in a concurrent vector", "src/utils/Logger.cpp: addLogEntry"), ("thread-local indentation", "src/utils/Logger.cpp: indentLevel"), ("level filter", "src/utils/Logger.cpp: printLog; Logger.h: LOG/VLOG/PLOG")], [], ["printed log"],
  note="seeded schedule search; the printed log is compared with the recorded history of entries")
p("C09", "Concurrent profiling measurements and counters are exact; records round-trip",
  "Measurements added and counters incremented by any number of threads, directly or through the process-wide profiler, are all recorded exactly: afterwards every counter equals the sum of its increments, every measurement holds exactly the added values, averages are the rounded-down mean, and a copy of the run has the same content. Without an attached run the profiler ignores everything. A run written to its text record and read back has the same traits, except for the fields that identify host, revision and time of the run, and two runs that differ only in those fields compare equal.",
  ["schedules", "inputs"], "all interleavings of measuring threads, all name collisions, all traits representable with the chosen separators",
  "The tests record from one thread only; lost updates need a particular interleaving.", ["include/utils/Timings.h", "src/utils/Timings.cpp"],
  [("concurrent maps of measurements and counters", "include/utils/Timings.h: addMeasurement/incCounter"), ("text record parser", "src/utils/Timings.cpp: ExperimentRun(const std::string &)")], [], ["counters()", "measurements()", "str()"],
  note="seeded schedule search; exact reference sums and multisets")
p("C10", "Progress display counts every increment and draws the whole bar once",
  "Whatever threads increment one progress display at the same time, no increment is lost, each increment returns the count it produced (so the returned values are the partial sums of one order of the increments), and the drawn bar is the scale followed only by tics: never more than the progress made justifies, never fewer, exactly 51 and a line break when the expected count is reached. Restarting begins again at zero with a fresh scale.",
  ["schedules", "inputs"], "all interleavings of incrementing threads, all expected counts and increments",
  NOTEST, ["include/utils/ProgressDisplay.h"],
  [("spin lock around count and tics", "include/utils/ProgressDisplay.h: operator+="), ("tic computation", "include/utils/ProgressDisplay.h: display_tic")], [], ["return values", "characters written"],
  note="seeded schedule search; serialisability of the returned counts and exact bar")
p("C11", "Block arrays: reserved elements stay reachable and keep their place",
  "After a reservation has returned, every index below the reserved size can be accessed by the reserving thread, whatever other threads reserve or access at the same time; an element never moves or changes because the array grows, so references and written values stay valid, and bounds-checked access throws exactly for indices at or beyond the end. A block array assembled from disjoint index blocks in any order, merged or moved, reaches through any number of per-thread lookup handles exactly the elements of its blocks: bounds, size, in-order iteration in both directions, comparison of iterators, membership of existing and of missing indices, and bounds-checked access are right whatever was looked up before.",
  ["schedules", "inputs", "histories"], "all interleavings of reserving, writing and reading threads; all layouts of blocks and gaps, all merge orders, all lookup sequences",
  NOTEST, [D + "BlockedArray.hxx", D + "BlockedArray2.hxx"],
  [("growth under a mutex, blocks never relocated", D + "BlockedArray.hxx: Concurrent_BlockedArray::reserve"), ("lookup hint per handle", D + "BlockedArray2.hxx: BlockedArray2Handle")], [], ["element values", "exceptions", "iteration"],
  note="seeded schedule search over growth and layouts; per-thread expected values; checking heap for stale references")
p("C12", "Recorded task times are exact whatever the clock does",
  "For every task timed by any number of threads at once, exactly one record is logged when the task ends (explicitly or by leaving its scope, none for a task never started, none twice), it names the task and rank, its duration equals the difference of its two time stamps, and it is the time that really passed between start and end - also when the wall clock of the machine is set forward or back meanwhile.",
  ["schedules", "inputs", "fault_sequences"], "all interleavings of timed tasks, all durations, wall clock steps at any moment",
  "Real tests cannot set the clock and cannot assert exact durations.", ["include/utils/TaskTimer.h", "include/utils/Timings.h"],
  [("time stamps from a clock", "include/utils/TaskTimer.h: start/end"), ("clock choice", "include/utils/Timings.h: Clock")], [], ["TIMING lines of the log"],
  note="simulated clock with injected wall clock steps; durations compared with simulated time")
p("C13", "Host information is correct or absent, never garbage, when host calls fail",
  "Host name, memory usage, date, stack trace and the host and revision traits of a run are the true values whenever the operating system provides them. When a host call fails or its answer is truncated - no host name, an overlong one without terminator, unreadable, empty or garbled process statistics - the reported value is empty, zero or a prefix of the truth, never leftover memory, and nothing crashes or leaks file handles, also when several threads ask at once.",
  ["fault_sequences", "schedules", "configurations"], "all outcomes of the host calls (success, failure, truncation, garbled content), all name lengths, concurrent callers",
  "Tests run on a host where every call succeeds.", ["src/utils/System.cpp", "src/utils/System.c", "src/utils/Timings.cpp"],
  [("host name buffer", "src/utils/System.cpp: getHostname"), ("parsing of /proc/self/statm", "src/utils/System.c: getCurrentRSS")], [], ["returned strings and numbers", "open files"],
  note="injected host call failures under seeded schedules; stack pre-filled with junk so that uninitialised memory is visible")
p("C14", "Parallel work lists process every item exactly once",
  "The parallel work list loop processes every item of the given sequence and every item that processing adds exactly once, whatever the schedule, the number of workers, the kind of iterator (random access, forward, input) or container, and the number of items; items arrive unaltered, items passed by reference are modified in place, and the loop returns only after the last item has been processed.",
  ["schedules", "inputs"], "all task placements and interleavings, all numbers of initial and added items, all iterator categories",
  NOTEST, ["include/mods/parallel_do.h"],
  [("task blocks of a few items, continuation tasks", "include/mods/parallel_do.h: do_group_task_*, do_task_iter"), ("feeder", "include/mods/parallel_do.h: parallel_do_feeder_impl")], [], ["processed items", "moment of return"],
  note="seeded search over task placements and schedules; exactly-once ledger of items")
p("C16", "No memory is lost, whatever the schedule, growth or failure",
  "When hash containers, bit sets, block arrays, index handlers, work lists, triangulators, triangulations, partitioners, partition trees, border tests, samples and experiments are destroyed, everything they ever allocated has been released exactly once: also after concurrent growth through many tables with several handles, after merging, rehashing, copying, moving and converting, after loading and storing, and - for containers - after an allocation failed at any point.",
  ["schedules", "inputs", "fault_sequences"], "all schedules, operations and inputs of the other properties, including failing allocations in containers",
  "A table that is migrated, a part that is merged or a border test that is replaced changes hands between threads; whether somebody releases it, and only once, depends on the schedule, and no test counts allocations.",
  [D + "Growing_LP.hxx", D + "LP_Set.hxx", D + "Bit_Set.hxx", D + "BlockedArray2.hxx", "src/lib/DCTriangulator.cpp", "include/LoadBalancedDCTriangulator.h", "include/load_balancing/Partitioner.h", "include/load_balancing/PartitionTree.h"],
  [("shared ownership of tables under migration", D + "Growing_LP.hxx: GrowingHashTableHandle"), ("destruction through base classes", "include/load_balancing/Partitioner.h, IntersectionChecker.h, include/Partitioner.h"), ("raw array ownership", D + "LP_Set.hxx, Bit_Set.hxx")], [], ["allocated bytes after destruction"],
  note="the seeded runs of the other properties, with every allocation of the code under test accounted for by the simulated heap")
