"""Per-property run counts (quick, thorough) and the level notes used in MANIFEST.json and the evidence files."""
QUICK_DEFAULT = 80000
QUICK = {"C05": 40000, "C24": 24000, "C13": 100000}
THOROUGH_MULT = 25
QUICK_CAP_S = 60.0          # wall clock cap for the search part of one quick check
THOROUGH_CAP_S = 780.0

REAL = "all of hogl's library sources (src/*.cc) and the decoding parts of tools/, compiled from the working tree"
STUB = "threads, mutexes, conditions, clocks, sleeps, allocator, files, pipes and stdio are the simulator's; scheduling parameter and CPU affinity calls are recorded, granted by Linux's rules or refused as a fault"
ASSUME = ["interleavings are sequentially consistent: the simulator switches threads at every memory access and call, but does not model store buffers or compiler/CPU reordering (x86 barriers are compiler fences)",
          "code inside hogl/fmt and std::regex runs without being interleaved (it works on private data)"]
P = {}          # property -> (scenarios, extra assumptions, level)
def reg(props, scen, extra=(), level="exploration"):
    for p in props.split():
        e = P.setdefault(p, {"scen": [], "extra": [], "level": level}); e["scen"].append(scen); e["extra"] += list(extra)
reg("C01 C02 C03 C04 C05 C07 C08 C09 C16 C22", "engine", ["output goes to an in-memory sink through hogl's own output/ostrbuf classes"])
reg("C17 C18 C19", "file", ["max_count of at least 2 (with 1 the numbering rules make rotation overwrite the current chunk)", "symlink() and rename() succeed; opening chunks and writing headers may fail"])
reg("C11 C12 C13 C14", "reg", ["output goes to an in-memory sink through hogl's own output/ostrbuf classes"])
reg("C20 C21", "sink", ["outputs driven directly and through a real engine"])

reg("C10 C15 C22", "life", ["posts stop using an engine's areas before that engine is destroyed"])
reg("C23 C26 C27 C30", "raw", ["names of rings, areas and sections are 2 to 128 printable characters where the log is decoded (the decoder's own rule)"])
reg("C24", "core", ["the file format of core dumps is the business of libbfd, which is replaced by a stand-in serving segments of the simulated memory"])
reg("C25", "oom", ["std::terminate on std::bad_alloc in hogl's own threads counts as the standard out-of-memory path"])

reg("C28", "capi", ["C code is compiled as C by clang; strings passed through the C interface fit the record"])
reg("C29", "sched", ["the simulated machine has 256 CPUs", "the default engine is not stopped while other threads are still inside thread_enter (their warnings refer to its areas)"])

def describe(prop):
    e = P[prop]
    return {"level": e["level"], "assumptions": ASSUME + e["extra"], "scenarios": e["scen"], "real": REAL, "stub": STUB}
NOTE = {}
PURE = "A pure function of its input with no schedule, clock, I/O or fault in it: simulation decides nothing that plain input generation would not."
NA = {"C40": PURE, "C41": PURE}
