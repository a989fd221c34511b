# binary -> (harness sources, repository sources, defines, libraries)
BINS = {
    "hash": (["c_hash.cpp"], UTIL, ["-DPARDETRIA_SIM_GRAIN=4"], ["-lboost_serialization"]),
    "utils": (["c_utils.cpp"], UTIL, [], []),
    "bits": (["c_bits.cpp"], UTIL, ["-DPARDETRIA_SIM_GRAIN=4"], ["-lboost_serialization"]),
    "geo": (["c_geo.cpp", ("oracle.cpp", "plain")], ["src/lib/Geometry.cpp", "src/lib/Partitioner.cpp", "src/lib/Triangulator.cpp", "src/lib/DCTriangulator.cpp", ("src/lib/CGALTriangulator.cpp", "clang"), "src/utils/Predicates.cpp", "src/utils/StringUtils.cxx"] + UTIL, ["-DPARDETRIA_SIM_BASE_CUTOFF=40", "-DPARDETRIA_SIM_GRAIN=16"], ["-lgmp", "-lmpfr", "-lboost_serialization"]),
    "lb": (["c_lb.cpp", ("oracle.cpp", "plain")], ["src/lib/Geometry.cpp", "src/lib/Partitioner.cpp", "src/lib/Triangulator.cpp", "src/lib/DCTriangulator.cpp", ("src/lib/CGALTriangulator.cpp", "clang"), "src/utils/Predicates.cpp", "src/utils/StringUtils.cxx"] + UTIL, ["-DPARDETRIA_SIM_BASE_CUTOFF=40", "-DPARDETRIA_SIM_GRAIN=16"], ["-lgmp", "-lmpfr", "-lboost_serialization", "-lboost_program_options"]),
    "lbr": (["c_lbr.cpp", ("oracle.cpp", "plain")], ["src/lib/Geometry.cpp", "src/lib/Partitioner.cpp", "src/lib/Triangulator.cpp", "src/lib/DCTriangulator.cpp", ("src/lib/CGALTriangulator.cpp", "clang"), "src/utils/Predicates.cpp", "src/utils/StringUtils.cxx"] + UTIL, ["-DPARDETRIA_SIM_BASE_CUTOFF=40", "-DPARDETRIA_SIM_GRAIN=16"], ["-lgmp", "-lmpfr", "-lboost_serialization", "-lboost_program_options"]),
    "gen": (["c_gen.cpp", ("oracle.cpp", "plain")], ["src/lib/SpatialSort.cpp", "src/lib/Geometry.cpp", "src/lib/Partitioner.cpp", "src/lib/Triangulator.cpp", "src/lib/DCTriangulator.cpp", ("src/lib/CGALTriangulator.cpp", "clang"), "src/utils/Predicates.cpp", "src/utils/StringUtils.cxx"] + UTIL, ["-DPARDETRIA_SIM_BASE_CUTOFF=40", "-DPARDETRIA_SIM_GRAIN=16"], ["-lgmp", "-lmpfr", "-lboost_serialization", "-lboost_program_options"]),
    "prog": (["c_prog.cpp", "prog_lb.cpp", "prog_dump.cpp", "prog_bench.cpp", ("oracle.cpp", "plain")], ["src/lib/SpatialSort.cpp", "src/lib/Geometry.cpp", "src/lib/Partitioner.cpp", "src/lib/Triangulator.cpp", "src/lib/DCTriangulator.cpp", ("src/lib/CGALTriangulator.cpp", "clang"), "src/utils/Predicates.cpp", "src/utils/StringUtils.cxx"] + UTIL, ["-DPARDETRIA_SIM_BASE_CUTOFF=40", "-DPARDETRIA_SIM_GRAIN=16"], ["-Wl,-z,muldefs", "-lgmp", "-lmpfr", "-lboost_serialization", "-lboost_program_options"]),
}
