#!/usr/bin/env python3
"""The listed properties; `python3 spec.py` writes properties.jsonl and MANIFEST.json from it."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
S = []
def p(pid, title, statement, over, text, why, files, mech, state=(), observe=(), claimed=True, note="", na=None):
    S.append(dict(pid=pid, note=note, na=na, line=dict(
        id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None))))

D = "include/datastructures/"
NOTEST = "The repository's tests only start a process-wide experiment run; none of them touches this code, and a schedule-dependent failure needs one particular interleaving out of very many."

p("C01", "Growing concurrent set neither loses nor invents elements",
  "Any number of threads may insert into and query one growing hash set at the same time while it migrates to larger tables: every inserted element is reported as new by exactly one insertion, is visible from the moment its insertion (or any query that saw it) has returned, and no element that was not inserted is ever visible. When all threads are done, size, emptiness, membership, iteration, indexed access, read-only handles, moving the table and conversion to a sequential set all show exactly the union of inserted elements. Every insertion returns: growth never reports a full table to the user, never blocks forever and never loses an element.",
  ["schedules", "inputs", "histories"], "all interleavings of inserting/querying threads and tasks, all key sets (dense, colliding, arbitrary bits), all initial capacities and prefills, short- and long-lived handles",
  NOTEST, [D + "Growing_LP.hxx", D + "LP_Set.hxx"],
  [("block-wise asynchronous migration with helpers", D + "Growing_LP.hxx: GrowingHashTableHandle::grow/migrate"), ("epoch-checked table handles", D + "Growing_LP.hxx: getTable/rlsTable"), ("CAS insertion with linear probing", D + "LP_Set.hxx: Concurrent_LP_Set::insert/_migrate")],
  [("current table, epoch, worker count", "which table is live and who is still copying", D + "Growing_LP.hxx")], ["return value of insert/contains/size", "content after all threads joined"],
  note="seeded search over schedules at atomic/plain-access granularity; every run ends in a full content check and a linearizability argument over the recorded history")
p("C02", "Growing concurrent multimap keeps every inserted pair exactly once",
  "Any number of threads may insert key/value pairs into one growing multimap at the same time while it migrates to larger tables: every insertion reports success, and afterwards a lookup of a key yields exactly the multiset of values inserted for it, each value once and none belonging to another key, while never-inserted keys yield nothing. A thread that alone inserts a key finds all its pairs at every moment, whatever other threads insert or however often the table grows. Size, iteration, read-only handles and conversion to a sequential multimap agree with the inserted pairs.",
  ["schedules", "inputs", "histories"], "all interleavings of inserting/querying threads, all key distributions including heavy duplication and colliding hashes, all initial capacities",
  NOTEST, [D + "Growing_LP.hxx", D + "LP_MultiMap.hxx"],
  [("slot reservation and CAS insertion", D + "LP_MultiMap.hxx: Concurrent_LP_MultiMap::insert"), ("block-wise migration", D + "Growing_LP.hxx, LP_MultiMap.hxx: _migrate"), ("key range lookup", D + "LP_MultiMap.hxx: get")],
  [], ["insert/get/contains/size/iteration"],
  note="seeded search over schedules; multiset reference model, read-your-own-writes checked during the run")
p("C03", "Fixed-capacity concurrent hash containers are linearizable",
  "On a concurrent hash set, map or multimap of fixed capacity, every interleaving of insertions, lookups and size queries has the outcome of some sequential order that respects real time: one insertion per element reports it as new, a map keeps one of the values offered for a key and reports it to every later lookup, and no lookup sees a half-written element. An insertion that finds no free slot reports that the container is full, without hanging and without disturbing the content, and no insertion reports a full container while at least half of the slots are free (a set: while any slot is free). Afterwards the content is exactly the set of successful insertions.",
  ["schedules", "inputs", "histories"], "all interleavings of up to a handful of threads, all fill levels up to completely full, all key distributions",
  NOTEST, [D + "LP_Set.hxx", D + "LP_Map.hxx", D + "LP_MultiMap.hxx"],
  [("CAS on the key slot", "Concurrent_LP_*::insert"), ("bounded linear probing", "Concurrent_LP_*::insert/contains/get")],
  [], ["return values", "final content"], note="seeded schedule search, recorded histories checked for linearizability against a sequential model (exact for sets, search-based for maps)")
p("C05", "Parallel bulk operations on hash containers equal their set algebra",
  "Merging two hash containers (sets, maps or multimaps, sequential, concurrent or growing), with or without a filter of elements to drop (for sequential sets also to keep), rehashing to another capacity, copying, storing and loading, and converting between sequential and concurrent form yield exactly the elements set algebra prescribes, whatever the schedule of the parallel work, the sizes of the operands, or the fill level, including empty operands. The result remains a working container: size, membership, iteration agree, and further insertions succeed. The source of a copy is unchanged. Over any sequence of such operations and insertions a sequential container grows as needed, reports new elements correctly, and a map keeps the value stored last.",
  ["schedules", "inputs", "configurations", "histories"], "all schedules and range splittings of the parallel merge/rehash, all operand sizes and capacities, all filters",
  NOTEST, [D + "LP_Set.hxx", D + "LP_Map.hxx", D + "LP_MultiMap.hxx", D + "Growing_LP.hxx"],
  [("parallel_for over table ranges", "unsafe_rehash/unsafe_merge/unsafe_copy"), ("move conversions", "LP_* <-> Concurrent_LP_* constructors")], [], ["content after the operation"],
  note="seeded search over schedules, range splittings and operands against std::set/map/multimap algebra")
p("C06", "Splitting a container's range visits every element exactly once",
  "However a container's iteration range is split for parallel processing - by any work-stealing runtime, any grain size, in any order and to any depth - every element is visited exactly once and nothing else is visited. An empty range never claims to be divisible, and iterating any part of a range ends.",
  ["inputs", "schedules", "configurations"], "all split trees and task placements, all fill levels, all range-providing containers (hash sets, maps, multimaps, bit sets, blocked arrays)",
  NOTEST, [D + "LP_Set.hxx", D + "LP_Map.hxx", D + "LP_MultiMap.hxx", D + "Growing_LP.hxx", D + "Bit_Set.hxx", D + "BlockedArray2.hxx"],
  [("range_type splitting constructor and setNext/halfway point", "LP_*.hxx, Bit_Set.hxx, BlockedArray2.hxx: range_type")], [], ["multiset of visited elements"],
  note="seeded search over split trees, grain sizes and task placements")
p("C15", "A failing memory allocation surfaces and leaves containers usable",
  "If the system runs out of memory while a hash container is created, grown, rehashed, merged, copied or filled, or a bit set is created, resized, merged or copied, the failure reaches the caller as an allocation exception instead of a crash, a hang, a corrupted heap or silent loss. A concurrent growing table stays usable by all threads: what had been inserted is still there, the failed insertion can be repeated, and once memory is available again it succeeds.",
  ["fault_sequences", "schedules", "inputs"], "every allocation of every operation may fail, at every schedule of the threads involved",
  "No test makes an allocation fail; the combination of the failing allocation and the schedule around it cannot be sampled by unit tests.",
  [D + "LP_Set.hxx", D + "LP_Map.hxx", D + "LP_MultiMap.hxx", D + "Growing_LP.hxx", D + "Bit_Set.hxx"],
  [("try/catch around table allocation", "LP_*.hxx constructors and reset/rehash"), ("growth protocol", D + "Growing_LP.hxx: grow")], [], ["exceptions", "content after recovery"],
  note="seeded injection of std::bad_alloc at allocation points combined with seeded schedules; checking heap")

for _f in ("spec_more.py", "spec_geo.py", "spec_lb.py"):
    if os.path.exists(os.path.join(HERE, _f)):
        exec(open(os.path.join(HERE, _f)).read())

def main():
    from props import P
    S.sort(key=lambda s: s["pid"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for s in S:
            f.write(json.dumps(s["line"]) + "\n")
    m = dict(version=1, setup_cmd="python3 check.py setup",
        checks=[dict(property=s["pid"], quick_cmd="python3 check.py %s" % s["pid"], thorough_cmd="python3 check.py %s --thorough" % s["pid"],
            technique="deterministic simulation: seeded schedule and fault search", level="exploration",
            level_note=(s["note"] or "seeded search over schedules and faults") + ". Sequentially consistent interleavings only; oneTBB, OS and heap are simulated; absence of a violation is evidence, not proof.") for s in S if s["pid"] in P and not s["na"]],
        not_applicable=[dict(property=s["pid"], reason=s["na"] or "machinery under construction") for s in S if s["pid"] not in P or s["na"]],
        hooks=dict(guard="PARDETRIA_SIM_BASE_CUTOFF and PARDETRIA_SIM_GRAIN", enable="the simulation binaries are compiled with -DPARDETRIA_SIM_BASE_CUTOFF=<n> -DPARDETRIA_SIM_GRAIN=<n> (bins.py); undefined, the shipped values are used", source_commits=["9be3d9f", "0188d30"]),
        notes="Scheduling points need no hooks in /repo: they come from compiling /repo's sources with -fsanitize=thread callbacks against the simulator's own runtime; see DESIGN.md.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

if __name__ == "__main__":
    main()
