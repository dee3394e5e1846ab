"""What each property's check builds and runs. A job is one harness binary; all jobs of a property run in parallel."""

SOLVERS = """astar best_first bfs dfs dijkstra eidastar eidbest_first eiddfs flood fringe gbest_first gbfs gdfs gstar
idastar idbest_first iddfs mgstar osmastar smastar""".split()
JPS = ["jps", "gjps"]
OPT_GRID = "astar gstar fringe idastar eidastar bfs gbfs iddfs eiddfs dijkstra mgstar smastar osmastar".split()
OPT_GRAPH = "astar gstar fringe idastar eidastar dijkstra mgstar smastar osmastar".split()
BOUNDED = ["mgstar", "smastar", "osmastar"]


class Job:
    FIELDS = ("name", "src", "defs", "flavour", "kinds", "shards", "args", "flags", "libs", "units")

    def __init__(self, name, src, defs=(), kinds=(), flavour="plain", shards=4, args=(), flags=(), libs=(), units=0):
        self.units = units
        self.name, self.src, self.defs, self.flavour = name, src, list(defs), flavour
        self.kinds, self.shards, self.args, self.flags, self.libs = sorted(kinds), shards, list(args), list(flags), list(libs)

    def binary(self):
        return (self.src, tuple(self.defs), self.flavour, tuple(self.flags), tuple(self.libs), self.units)

    def to_json(self):
        return {k: getattr(self, k) for k in self.FIELDS}

    @staticmethod
    def from_json(d):
        return Job(**d)


ENDED = {"crash", "hang", "exception"}             # a query that gives no answer
ENDED_REACHABLE = {k + "!" for k in ENDED}         # ... although the goal can be reached
ENDS = ENDED | ENDED_REACHABLE


def solver_jobs(names, part, kinds, flavour="plain", shards=4, flags=()):
    def make(tier):
        return [Job(s, "solve.cpp", [f"SOLVER={s}", f"PART={part}"] + (["JPS"] if s in JPS else []), kinds, flavour, shards, flags=flags) for s in names]
    return make


PROPERTIES = {}


def prop(pid, level, rule, jobs, **kw):
    PROPERTIES[pid] = dict(level=level, rule=rule, jobs=jobs, **kw)


GRID_RULE = ("Every obstacle layout of each listed grid shape, times every start and every goal (cells outside the grid where named so), times every "
             "listed option, executed on the real searches and compared with a reference search; a case is non-trivial if the goal can be reached.")
GRAPH_RULE = ("Every assignment of {no edge, listed weights} to every vertex pair of each listed vertex count, times every start and goal, times the listed "
              "heuristics (zero, capped, exact distance), executed on the real searches and compared with all-pairs shortest paths; "
              "non-trivial if the goal can be reached.")
TRUST = ["the reference search and the route checks of harness/solve.cpp", "g++ 13 at -O1 with assertions on"]
RELEASE = [TRUST[0], "g++ 13 at -O1 with assertions off"]

prop("P01", "exploration", GRID_RULE, solver_jobs(SOLVERS, 1, {"malformed", "repeat", "ghost"}, flags=["-DNDEBUG"]), assumptions=RELEASE)
prop("P02", "exploration", GRID_RULE, solver_jobs(SOLVERS, 1, {"missed", "ghost"} | ENDS),
     assumptions=TRUST + ["a query that uses 4 s of CPU time (16 s when run alone) never ends"])
prop("P03", "exploration", GRID_RULE, solver_jobs(OPT_GRID, 1, {"suboptimal", "missed"} | ENDED_REACHABLE), assumptions=TRUST)
prop("P04", "exploration", GRAPH_RULE, solver_jobs(SOLVERS, 2, {"malformed", "repeat", "ghost"}, flags=["-DNDEBUG"]), assumptions=RELEASE)
prop("P05", "exploration", GRAPH_RULE, solver_jobs(SOLVERS, 2, {"missed", "ghost"} | ENDS),
     assumptions=TRUST + ["a query that uses 4 s of CPU time (16 s when run alone) never ends"])
prop("P06", "exploration", GRAPH_RULE, solver_jobs(OPT_GRAPH, 2, {"suboptimal", "missed"} | ENDED_REACHABLE), assumptions=TRUST)
prop("P07", "exploration", GRID_RULE, solver_jobs(JPS, 1, {"malformed", "repeat", "ghost", "missed", "suboptimal"} | ENDS, shards=16),
     assumptions=TRUST)
prop("P08", "exploration",
     "Every obstacle layout or weighted graph within the bound, times every query, times every memory limit in the listed range, with an auditing memory "
     "resource that counts live nodes; non-trivial if the goal can be reached.",
     solver_jobs(BOUNDED, 3, {"malformed", "repeat", "ghost", "missed", "suboptimal", "overrun", "memory"} | ENDS, shards=12),
     assumptions=TRUST + ["nodes are the allocations of at most 96 bytes"], counters={0: "max_nodes_beyond_limit", 1: "max_live_nodes"})
prop("P09", "exploration",
     "The explorations of the other checks on smaller spaces under AddressSanitizer and UndefinedBehaviorSanitizer, with pools of 64-byte stack blocks and "
     "256-byte heap blocks, and with an auditing resource; non-trivial if the goal can be reached.",
     solver_jobs(SOLVERS + JPS, 4, {"memory", "overrun", "malformed", "missed"} | ENDS, flavour="asan", shards=4),
     assumptions=TRUST + ["AddressSanitizer and UndefinedBehaviorSanitizer of g++ 13"])


def harness_jobs(src, part, kinds, shards=16, **kw):
    return lambda tier: [Job(src.split(".")[0] + str(part), src, [f"PART={part}"], kinds + ["crash", "hang", "exception"], "asan", shards, **kw)]


SANITIZED = ["the reference model in the harness", "AddressSanitizer and UndefinedBehaviorSanitizer of g++ 13 at -O1"]
HISTORY_RULE = ("Every sequence of the listed operations up to the listed length, executed on the real class under AddressSanitizer and "
                "UndefinedBehaviorSanitizer and compared with a reference model after every operation; ")
POOL_RULE = HISTORY_RULE + ("after every operation every live block is checked for its contents, its alignment and overlap with other blocks, and the upstream "
                            "resource's ledger must match when the pool is reset or destroyed; non-trivial if blocks were handed out.")
prop("P12", "model_checking", POOL_RULE, harness_jobs("pools.cpp", 1, ["pool"]), assumptions=SANITIZED)
prop("P13", "model_checking", POOL_RULE, harness_jobs("pools.cpp", 2, ["pool"]), assumptions=SANITIZED)
prop("P14", "model_checking", POOL_RULE, harness_jobs("pools.cpp", 3, ["pool"]), assumptions=SANITIZED)
prop("P15", "model_checking", HISTORY_RULE + "non-trivial if the heap held entries.", harness_jobs("containers.cpp", 1, ["heap"]), assumptions=SANITIZED)
prop("P17", "model_checking", HISTORY_RULE + "non-trivial if the set held keys.", harness_jobs("containers.cpp", 3, ["set"]), assumptions=SANITIZED)
prop("P16", "model_checking", HISTORY_RULE + "non-trivial if the container held entries.", harness_jobs("containers.cpp", 2, ["stack", "queue"]), assumptions=SANITIZED)
prop("P18", "exploration", "Every obstacle layout of each listed grid shape and cell type, times every cell of the grid: the reported neighbours are compared with "
     "the definition; non-trivial if the cell has a free neighbour.", harness_jobs("maze.cpp", 1, ["neighbour"], 8), assumptions=SANITIZED)
prop("P19", "exploration", "Every cell of every listed grid shape, for each listed coordinate type; non-trivial always.", harness_jobs("maze.cpp", 2, ["coordinate"], 8),
     assumptions=SANITIZED)
prop("P20", "exploration", "Every pair (and triple) of points of each listed coordinate range, for each metric and scalar; non-trivial if the points differ.",
     harness_jobs("maze.cpp", 3, ["heuristic"], 8), assumptions=SANITIZED)
prop("P21", "model_checking", HISTORY_RULE + "non-trivial if the graph held vertices.", harness_jobs("maze.cpp", 4, ["graph"], 8), assumptions=SANITIZED)
prop("P22", "exploration", "Every undirected graph with each assignment of {no edge, listed weights} to the vertex pairs of each listed vertex count (some pairs with "
     "parallel edges), pruned and compared with all-pairs shortest paths of the original; non-trivial if a vertex was removed.",
     harness_jobs("maze.cpp", 5, ["prune"], 8), assumptions=SANITIZED)

prop("P24", "model_checking", HISTORY_RULE + "and every content of each listed small grid shape; non-trivial always.", harness_jobs("values.cpp", 2, ["contents"], 8),
     assumptions=SANITIZED)
prop("P25", "exploration", "Every argument (pair, triple) of the listed sets of values, for each arithmetic type: all values of 8 bits, and of wider types all those around powers "
     "of two and the limits; every short numeric string; every duration that is a multiple of a step. Square roots a second time as they are evaluated in constant "
     "expressions. Non-trivial unless all arguments are zero.",
     lambda tier: harness_jobs("values.cpp", 1, ["arithmetic"], 4)(tier) + [Job("values1c", "values.cpp", ["PART=1", "CONSTANT"], ["arithmetic", "crash", "hang", "exception"], "asan", 2)],
     assumptions=["the arithmetic of 128-bit integers and of the C++ library in the harness", SANITIZED[1]])

prop("P23", "model_checking",
     "Every obstacle layout of each listed grid shape times each listed number of processor cores: all schedules of the building threads at the granularity of "
     "synchronisation operations (families named after their shape: all schedules within the listed number of preemptions; families named layouts: one schedule), "
     "executed on the real code with a happens-before check of every memory access; non-trivial if the graph has edges.",
     lambda tier: [Job("sched", "sched.cpp", [], ["race", "graph", "exception", "crash", "hang"], "race", 8)],
     technique="stateless model checking of the real threads under a controlled scheduler, with happens-before race detection",
     assumptions=["the scheduler and race detector of harness/sched_rt.cpp", "code inside the C++ library's binaries is not checked for races",
                  "free of data races, threads interact only at synchronisation operations"],
     counters={0: "max_threads", 1: "max_schedules_of_a_case", 32: "schedules"})

prop("P27", "exploration",
     "Every obstacle layout or weighted graph of each listed shape, times every query, on mazes that note which of their cells and vertices a search looks around at, with a "
     "heuristic that counts its calls and a memory resource that counts its blocks; the least that suffices is computed by a reference (shortest distances; for iterative "
     "deepening an enumeration of all loop-free walks); non-trivial if the goal can be reached.",
     lambda tier: solver_jobs([s for s in SOLVERS + JPS if s not in BOUNDED], 6, {"work"} | ENDS, shards=6)(tier),
     assumptions=TRUST + ["mazes derived from the library's, whose neighbours they pass on"])

prop("P26", "model_checking",
     "Every obstacle layout (with at most the listed number of obstacles) or weighted graph of each listed shape, times every query of one thread, times the same, the "
     "reversed or a neighbouring query of one or two more (graphs: any other query), all threads sharing the maze: all schedules at the granularity of synchronisation "
     "operations, executed on the real code with a happens-before check of every memory access, and every answer compared with the one the query gets alone. In the families "
     "named cold every execution happens in a process that has never run a query. Non-trivial if a route exists.",
     lambda tier: [Job("at-once-" + (s or "graphs"), "parallel.cpp", (["SOLVER=" + s] if s else []) + (["OCT=true"] if s in JPS else []), ["race", "disturbed", "crash", "hang"], "race", 2)
                   for s in [""] + SOLVERS + JPS],
     technique="stateless model checking of real threads under a controlled scheduler, with happens-before race detection",
     assumptions=["the scheduler and race detector of harness/sched_rt.cpp", "code inside the C++ library's binaries is not checked for races",
                  "free of data races, threads interact only at synchronisation operations"],
     counters={0: "max_threads", 1: "max_schedules_of_a_case", 32: "schedules"})

prop("P10", "model_checking",
     "Every sequence of operations up to the listed length, where an operation is one query (a search, a maze, end points, with or without clean-up) or a reset, "
     "release or move of the pools, all over one set of pools, executed under AddressSanitizer and UndefinedBehaviorSanitizer; every answer is compared with the "
     "answer with fresh pools; non-trivial if a route was found.",
     lambda tier: [Job("histories%d" % p, "histories.cpp", [f"PART={p}"], ["history", "exception", "crash", "hang"], "asan", 16, units=6) for p in (1, 2)],
     assumptions=SANITIZED)

prop("P11", "fault_enumeration",
     "Every obstacle layout or weighted graph within the bound, times every allocation the query makes as the one that fails, or as the first of all that fail: "
     "at the caller's own memory resource, or at the operator new behind the library's pools (which also serves everything else the query allocates); then the query "
     "once more without a fault on the same resources; non-trivial if the goal can be reached.",
     solver_jobs(SOLVERS + JPS, 5, {"malformed", "repeat", "ghost", "missed", "suboptimal", "memory", "leak"} | ENDS, flavour="asan", shards=4),
     assumptions=TRUST + ["AddressSanitizer and UndefinedBehaviorSanitizer of g++ 13"], counters={32: "failed_allocations"})

prop("P28", "fault_enumeration",
     "Every sequence of operations up to the listed length on each container, graph, grid and pool, times every request for memory it makes as the one that fails, or as the first "
     "of all that fail; compared with a reference model after the failure, after the operation is repeated and at the end, with all memory accounted for; graphs "
     "built by threads: every request at the caller's resource. Non-trivial if a request can fail.",
     lambda tier: [j for part in range(1, 7) for j in harness_jobs("faults.cpp", part, ["fault"], 4)(tier)],
     assumptions=SANITIZED, counters={32: "failed_allocations"})
