"""What each property's check builds and runs."""
from check import Job, McJob

STDS = ["c++11", "c++14", "c++17", "c++20"]
ASSUME = ["long double reference model (src/ref.hpp) written from the "
          "mathematical definition, no code shared with the library",
          "data values: unit impulses (they span all data, the library being "
          "linear) and generic data; tolerance 1e-10..1e-8 relative to the "
          "magnitude of the terms"]


def cfg(cell=0, nodummy=0, mt=0, *more):
    d = []
    if cell: d.append("INTP_CELL_LAYOUT")
    if nodummy: d.append("INTP_PERIODIC_NO_DUMMY_POINT")
    if mt: d.append("INTP_MULTITHREAD")
    return d + list(more)


def cname(d, std):
    short = {"INTP_CELL_LAYOUT": "cell", "INTP_PERIODIC_NO_DUMMY_POINT": "nodummy",
             "INTP_MULTITHREAD": "mt", "INTP_ENABLE_ASSERTION": "assert",
             "INTP_DEBUG": "debug"}
    return "+".join([short.get(x, x) for x in d] or ["plain"]) + "/" + std


def grid_configs(i, tier):
    """All four layout x dummy combinations, multithreading and language
    standard rotating with i; all sixteen in the thorough tier."""
    if tier == "thorough":
        return [(cfg(c, n, m), s) for c in (0, 1) for n in (0, 1)
                for m in (0, 1) for s in (STDS[(i + c + 2 * m) % 4],)]
    return [(cfg(c, n, (i + c + n) % 2), STDS[(i + 2 * c + n) % 4])
            for c in (0, 1) for n in (0, 1)]


def value(part, what):
    def spec(tier):
        jobs = []
        for o in (11, 9, 8) if tier == "thorough" else (9, 8):
            d, s = grid_configs(o, "quick")[o % 4]
            for sh in range(2):
                jobs.append(Job("order%d %s %d" % (o, cname(d, s), sh),
                                "value.cpp", s,
                                d + ["PART=%d" % part, "ORD=%d" % o, "MAXD=2"],
                                args=("--shard", str(sh), "2"),
                                timeout=250 if tier == "quick" else 1500))
        for o in (7, 6, 5, 4, 3, 2, 1, 0):
            for d, s in grid_configs(o, tier):
                maxd = 3 if o > 2 else 4 if o > 1 else 5
                jobs.append(Job("order%d %s" % (o, cname(d, s)), "value.cpp", s,
                                d + ["PART=%d" % part, "ORD=%d" % o,
                                     "MAXD=%d" % maxd],
                                timeout=200 if tier == "quick" else 1500))
        return dict(jobs=jobs, rule=what, bounds="orders 0..7 in 1-3 dimensions "
                    "(4 for order 2, 5 for orders 0 and 1, up to 7 with multilinear "
                    "data), orders 8 and 9 in 1-2 "
                    "dimensions, all periodic/aperiodic x uniform/"
                    "non-uniform combinations, sizes from the smallest solvable, "
                    "spacing patterns over {1, 2.5, 0.5} at four scales (1e-9 to "
                    "3e8), graded axes (ratio 2 and 1/2), eight ranges, uniform "
                    "axes up to 257 points with the full reference and up to "
                    "66003 with a windowed one, planes of up to 295 lines, 4 layout/"
                    "dummy configurations per order", assumptions=ASSUME)
    return spec


ASAN = ("-O1", "-g1", "-fsanitize=address,undefined",
        "-fno-sanitize-recover=undefined", "-fsanitize=float-cast-overflow",
        "-fno-omit-frame-pointer")
MSAN = ("-O1", "-g1", "-fsanitize=memory", "-fno-omit-frame-pointer")
REF = ASSUME


def tmo(tier, quick=250):
    return quick if tier == "quick" else 3000


def c06(tier):
    jobs = []
    for o in (9, 8, 7, 6, 5, 4, 3, 2, 1, 0):
        for d, s in grid_configs(o, tier):
            jobs.append(Job("order%d %s" % (o, cname(d, s)), "access.cpp", s,
                            d + ["ORD=%d" % o, "MAXD=%d" % (2 if o > 7 else 3 if o > 2 else 4)],
                            timeout=tmo(tier)))
    return dict(jobs=jobs, assumptions=["the range given at construction is "
                "compared with the coordinate itself, no tolerance"],
                rule="every tuple of coordinates {ends, their floating-point "
                "neighbours, inside, far outside} in all dimensions, every call "
                "form of at and derivative_at",
                bounds="orders 0..7, 1-3 dimensions (4 for orders 0..2), orders 8 and 9 in 1-2 dimensions, axes of up to 4099 points, all "
                "periodicity and uniformity mixes")


def c07(tier):
    jobs = []
    for o in (9, 8, 7, 6, 5, 4, 3, 2, 1, 0):
        for d, s in grid_configs(o + 1, tier):
            jobs.append(Job("order%d %s" % (o, cname(d, s)), "tmpl.cpp", s,
                            d + ["ORD=%d" % o], timeout=tmo(tier)))
    return dict(jobs=jobs, assumptions=["equality is bitwise between the forms, "
                "within rounding against the reference spline"],
                rule="every sequence of interpolate calls (mesh, iterators, "
                "filling fresh and used targets, consuming) up to the depth, "
                "each result compared with direct construction; every "
                "convenience constructor against the full one",
                bounds="orders 0..6 in 1-3, 7..9 in 1-2 dimensions, up to 4099 points, call sequences of length "
                "2-3 (quick) / 3-4 (thorough)")


def c08(tier):
    jobs = []
    depth = "5" if tier == "quick" else "6"
    k = 0
    for dim, o in ((1, 3), (2, 2)):
        for c in (0, 1):
            for v in range(4):
                s = STDS[k % 4]
                mt = (k // 4) % 2
                k += 1
                d = cfg(c, (k // 2) % 2, mt) + ["DIM=%d" % dim, "ORD=%d" % o]
                for sh in range(1 if tier == "quick" else 4):
                    jobs.append(Job(
                        "dim%d order%d variant%d %s %d" %
                        (dim, o, v, cname(cfg(c, (k // 2) % 2, mt), s), sh),
                        "ops.cpp", s, d, flags=ASAN, mem_gb=0,
                        args=("--variant", str(v), "--depth", depth, "--eager",
                              "4" if tier == "quick" else "5", "--shard",
                              str(sh), "1" if tier == "quick" else "4"),
                        timeout=tmo(tier)))
    for k, (dim, o, v) in enumerate(((1, 3, 4), (1, 2, 5), (1, 3, 6), (1, 3, 7),
                                     (2, 1, 4), (2, 2, 5))):
        d = cfg(k % 2, k // 2 % 2, 0)
        s = STDS[(k + 2) % 4]
        jobs.append(Job("alike grids dim%d order%d variant%d %s" %
                        (dim, o, v, cname(d, s)), "ops.cpp", s,
                        d + ["DIM=%d" % dim, "ORD=%d" % o], flags=ASAN, mem_gb=0,
                        args=("--variant", str(v), "--depth", depth, "--eager",
                              "4"), timeout=tmo(tier)))
    for i, s in enumerate(STDS):
        d = cfg(i % 2, i // 2, 0)
        jobs.append(Job("histories dim1 %s" % cname(d, s), "ops.cpp", s,
                        d + ["DIM=1", "ORD=3"], flags=ASAN, mem_gb=0,
                        args=("--variant", "0", "--depth", "3", "--hist"),
                        timeout=tmo(tier)))
    return dict(jobs=jobs, assumptions=["slot model: each slot holds nothing or "
                "the identity of a function/template; AddressSanitizer watches "
                "every step"],
                rule="every operation sequence on two template and two function "
                "slots is executed from scratch; every slot is observed and "
                "compared with the model at the end of the sequence (lazy) or, "
                "in a second run, after every operation (eager)",
                bounds="depth %s lazy, depth %s eager, plus histories of depth 3 "
                "over the larger operation set" %
                (depth, "4" if tier == "quick" else "5"))


def c09(tier):
    jobs = []
    f = ("-O0",)
    def add(d, s, sel, cxx="g++", flags=f):
        jobs.append(Job("%s sel%d %s" % (cname(d, s), sel, cxx), "conf.cpp", s,
                        d + ["SEL=%d" % sel], flags=flags, cxx=cxx,
                        extra_src=("conf2.cpp",), fallback=False,
                        timeout=tmo(tier)))
    k = 0
    stds = STDS + (["c++23"] if tier == "thorough" else [])
    for c in (0, 1):
        for n in (0, 1):
            for m in (0, 1):
                for s in stds:
                    for sel in range(3):
                        if tier == "thorough" or sel == k % 3:
                            add(cfg(c, n, m), s, sel)
                    k += 1
    extra = [["INTP_ENABLE_ASSERTION"], ["INTP_DEBUG"], ["INTP_TRACE"],
             ["INTP_STACK_ALLOCATOR"], ["INTP_DEBUG", "INTP_TRACE"],
             ["INTP_ENABLE_ASSERTION", "INTP_DEBUG", "INTP_TRACE"]]
    for i, e in enumerate(extra):
        for j, s in enumerate(stds):
            if tier == "thorough":
                for c in (0, 1):
                    for m in (0, 1):
                        add(cfg(c, (i + j) % 2, m, *e), s, (i + j) % 3)
            else:
                add(cfg((i + j) % 2, (i + j // 2) % 2, (i + j // 2) % 2, *e), s,
                    (i + j) % 3)
    for j, s in enumerate(stds):
        for c in (0, 1):
            add(cfg(c, j % 2, (c + j) % 2), s, (j + c) % 3, "clang++")
    for j, s in enumerate(stds):
        add(cfg(j % 2, j // 2 % 2, 1), s, j % 3, flags=("-O3", "-march=x86-64-v3"))
    return dict(jobs=jobs, assumptions=REF,
                rule="every combination of the layout, dummy-point and threading "
                "macros with every language standard, plus assertion, debug, "
                "trace and allocator macros, two compilers, O0 and O3; each "
                "program is two translation units",
                bounds="orders 0..7 in rotation, 1-3 dimensions, both "
                "periodicities and uniformities; values and derivatives against "
                "the reference, so all builds agree with each other")


def c10(tier):
    jobs = []
    k = 0
    for o in (9, 8, 7, 6, 5, 4, 3, 2, 1, 0):
        for n in (0, 1):
            for m in ((0, 1) if tier == "thorough" else ((o + n) % 2,)):
                s = STDS[k % 4]
                k += 1
                d = cfg(1, n, m)
                jobs.append(Job("order%d %s" % (o, cname(d, s)), "proxy.cpp", s,
                                d + ["ORD=%d" % o], timeout=tmo(tier)))
    return dict(jobs=jobs, assumptions=["proxies exist only with the cell layout"],
                rule="every tuple of special coordinates (inside, on knots and "
                "ends, outside, several periods away), each proxy applied to "
                "several functions, repeatedly, after the template is gone",
                bounds="orders 0..7 in 1-3, 8 and 9 in 1-2 dimensions; large grids of up to 66003 points, all mixes")


def c11(tier):
    jobs = [Job("plain %s" % s, "band.cpp", s, flags=f, mem_gb=0, timeout=tmo(tier))
            for s, f in (("c++11", ASAN), ("c++14", ASAN), ("c++17", ASAN),
                         ("c++20", ("-O2",)))]
    return dict(jobs=jobs, assumptions=["diagonally dominant entries (the solver "
                "does not pivot); dense long double elimination as oracle"],
                rule="every dimension and pair of bandwidths, unit and generic "
                "entries, every unit right-hand side, all container and iterator "
                "kinds", bounds="dimension <= 6/8 (quick), 9/12 (thorough) with every bandwidth; bands of up to 66003 rows with a known solution")


def c12(tier):
    jobs = [Job("plain %s" % s, "mesh.cpp", s, flags=f, mem_gb=0, timeout=tmo(tier))
            for s, f in (("c++11", ASAN), ("c++14", ASAN), ("c++17", ASAN),
                         ("c++20", ASAN), ("c++17", ("-O2",)))]
    return dict(jobs=jobs, assumptions=["row-major index arithmetic as model"],
                rule="every shape, every index tuple, every line and every "
                "iterator pair and step on it; resize sequences; allocators",
                bounds="1-4 dimensions, extents up to 4-6; meshes of up to 90000 elements in 1-6 dimensions; index arithmetic of shapes up to 2^60 elements")


def c17(tier):
    jobs = []
    for o in (6, 5, 4, 3, 2, 1, 0):
        for d, s in grid_configs(o, tier):
            d = d + ["INTP_ENABLE_ASSERTION"]
            jobs.append(Job("order%d %s" % (o, cname(d, s)), "assertm.cpp", s,
                            d + ["ORD=%d" % o], timeout=tmo(tier)))
    return dict(jobs=jobs, assumptions=["validity predicate written from the "
                "documentation: strictly increasing, matching counts"],
                rule="every coordinate sequence over a small alphabet, every "
                "count mismatch within a margin, every dimension position, every "
                "out-of-range index around the valid ones",
                bounds="orders 0..6, sequences up to order+3 coordinates, "
                "1-3 dimensions")


def c18(tier):
    jobs = []
    dbg = ASAN + ("-D_GLIBCXX_DEBUG",)
    for i, o in enumerate((8, 9, 12)):
        for mon, cxx, fl in (("asan", "g++", dbg), ("msan", "clang++", MSAN)):
            d, s = cfg((i + (mon == "msan")) % 2, i == 1), STDS[(i + 1) % 4]
            jobs.append(Job("%s order%d %s" % (mon, o, cname(d, s)), "mem.cpp", s,
                            d + ["ORD=%d" % o, "MAXD=1", "VERIF_MONITOR"], cxx=cxx,
                            flags=fl, mem_gb=0, timeout=tmo(tier, 300)))
    for o in (6, 5, 4, 3, 2, 1, 0) + ((7,) if tier == "thorough" else ()):
        for i, (d, s) in enumerate(grid_configs(o, tier)):
            d = d + ["ORD=%d" % o, "MAXD=%d" % (3 if o > 2 else 4),
                     "VERIF_MONITOR"]
            nm = "order%d %s" % (o, cname(d[:-3], s))
            jobs.append(Job("asan " + nm, "mem.cpp", s, d, flags=dbg, mem_gb=0,
                            timeout=tmo(tier, 300)))
            if tier == "thorough" or i == o % 4 or i == (o + 2) % 4:
                # (libstdc++'s thread support is not instrumented: no threads)
                d = [x for x in d if x != "INTP_MULTITHREAD"]
                nm = "order%d %s" % (o, cname(d[:-3], s))
                jobs.append(Job("msan " + nm, "mem.cpp", s, d, cxx="clang++",
                                flags=MSAN, mem_gb=0,
                                timeout=tmo(tier, 300)))
    return dict(jobs=jobs, assumptions=["AddressSanitizer, UBSan with "
                "float-cast-overflow, MemorySanitizer and the checked standard "
                "library are the oracle for each execution"],
                rule="every enumerated construction and coordinate (on and next "
                "to every knot, seam and end, far outside) executed under the "
                "monitors", bounds="orders 0..6 (7), 1-3 dimensions (4 for orders "
                "0..2), orders 8, 9 and 12 in 1 dimension, all mixes")


def c19(tier):
    jobs = []
    for o in (5, 4, 3, 2, 1, 0):
        for d, s in grid_configs(o, tier):
            jobs.append(Job("order%d %s" % (o, cname(d, s)), "alloc.cpp", s,
                            d + ["ORD=%d" % o], args=("--thorough",),
                            timeout=tmo(tier)))
    return dict(jobs=jobs, level="fault_enumeration",
                assumptions=["malloc, calloc, realloc, memalign, aligned_alloc "
                "and posix_memalign are replaced; the failing allocation is one "
                "made by the calling thread; leaks are judged in single-threaded "
                "builds"],
                rule="the k-th allocation of each operation fails, for every k "
                "until the operation no longer reaches it; afterwards all other "
                "objects are compared bit by bit, the operation is repeated, and "
                "the blocks still alive are counted; in multithreaded builds also "
                "every allocation of the very first use (thread pool start)",
                bounds="orders 0..5, 1-3 dimensions, all periodicity and "
                "uniformity mixes, one failure per operation")


def c20(tier):
    jobs = []
    for o in (7, 6, 5, 4, 3, 2, 1, 0):
        for part in range(3):
            for i, (d, s) in enumerate(grid_configs(o + part, tier)):
                if tier == "quick" and i != (o + part) % 4:
                    continue
                jobs.append(Job("order%d part%d %s" % (o, part, cname(d, s)),
                                "types.cpp", s, d + ["ORD=%d" % o,
                                                     "PART=%d" % part],
                                args=("--thorough",) if part < 2 or o < 4 or
                                tier == "thorough" else (), timeout=tmo(tier)))
    for part in range(3):
        d, s = cfg(1, part % 2, 0), STDS[part]
        jobs.append(Job("order3 part%d %s clang" % (part, cname(d, s)),
                        "types.cpp", s, d + ["ORD=3", "PART=%d" % part],
                        flags=("-O1",), cxx="clang++", timeout=tmo(tier)))
    return dict(jobs=jobs, assumptions=REF + ["integer valued grids (exact in "
                "every coordinate type) and a third of them (all digits used); "
                "data and points use all digits of their type; tolerance proportional to the type's epsilon"],
                rule="every value type {float, double, long double, complex of "
                "each, 3-vector} x coordinate type x form in which coordinates "
                "are given (native, float, int, long double, scaled by a third), against the "
                "reference of each component; linearity; evaluation arguments "
                "of every arithmetic type",
                bounds="orders 0..7, 1-3 dimensions, all mixes")


def c21(tier):
    jobs = []
    for o in (9, 8, 7, 6):
        d, s = cfg(o % 2, 0, o // 2 % 2), STDS[o % 4]
        n = 3 if o > 7 else 2
        for sh in range(n):
            jobs.append(Job("order%d %s %d" % (o, cname(d, s), sh), "bsp.cpp", s,
                            d + ["ORD=%d" % o], args=("--shard", str(sh), str(n)),
                            timeout=tmo(tier)))
    for o in (5, 4, 3, 2, 1, 0):
        for i in range(4):
            d = cfg(i % 2, 0, i // 2)
            s = STDS[(o + i) % 4]
            asan = o <= 2 or tier == "thorough"
            n = (4 if tier == "quick" else 8) if o > 2 else 1
            for sh in range(n):
                if tier == "quick" and o > 2 and (sh + i) % 2:
                    continue
                jobs.append(Job("order%d %s %d" % (o, cname(d, s), sh),
                                "bsp.cpp", s, d + ["ORD=%d" % o],
                                flags=ASAN if asan else ("-O2",),
                                mem_gb=0 if asan else 12,
                                args=("--shard", str(sh), str(n)),
                                timeout=tmo(tier)))
    return dict(jobs=jobs, assumptions=["piecewise polynomial basis functions "
                "in long double (src/ref.hpp) as oracle", "knot vectors whose "
                "first and last domain segments are not empty"],
                rule="every multiplicity pattern 1..order+1 of up to 3 interior "
                "knots, clamped, unclamped and partially repeated ends, periodic "
                "patterns with repeated knots; all derivative orders; every "
                "admissible hint; every construction form",
                bounds="orders 0..5 in 1-3 dimensions, 6..9 in 1; up to 4111 knots")


SCHED = ["every execution runs the real code under a scheduler of our own "
         "(mc/mcrt.cpp), switching at lock, wait, notify, atomic, once, futex, "
         "create and join; memory accesses are checked by vector clocks, so a "
         "race is seen in whichever order it happens",
         "sequentially consistent atomics; libstdc++ and glibc are trusted; "
         "standard smart pointers' reference counts are not switching points"]


def mcjobs(src, variants, tier, ref=(), args=()):
    return [McJob(("%s %s" % (src[:-4], cname(d, s))).strip(), src, s, d,
                  ref=ref, args=args, timeout=420 if tier == "quick" else 4200)
            for d, s in variants]


def c13(tier):
    v = [(["PART=13"], "c++17"), (["PART=13", "INTP_DEBUG"], "c++11")]
    if tier == "thorough":
        v += [(["PART=13"], "c++14"), (["PART=13"], "c++20")]
    return dict(jobs=mcjobs("selftest.cpp", [([], "c++17")], "quick") +
                mcjobs("pool.cpp", v[:1], tier) +
                mcjobs("pool.cpp", v[1:], tier,
                       args=() if tier == "thorough" else ("--light",)),
                serial=True, assumptions=SCHED + ["tasks do not wait for other "
                "queued tasks"],
                rule="every schedule of each scenario within its preemption "
                "bound, every choice of the thread woken by notify_one, spurious "
                "wake-ups; states are deduplicated by happens-before hash",
                bounds="1-3 workers, 1-3 tasks (18 for batches), 1-2 submitters, "
                "nested submissions, throwing tasks; preemption bound per "
                "scenario in the evidence (-1: none)")


def c14(tier):
    v = [(["PART=14"], "c++17"), (["PART=14", "INTP_DEBUG"], "c++11")]
    if tier == "thorough":
        v += [(["PART=14"], "c++14"), (["PART=14"], "c++20")]
    return dict(jobs=mcjobs("pool.cpp", v[:1], tier) +
                mcjobs("pool.cpp", v[1:], tier,
                       args=() if tier == "thorough" else ("--light",)),
                serial=True, assumptions=SCHED,
                rule="every schedule of start-up and shut-down within the "
                "preemption bound with idle, waking and busy workers and pending "
                "tasks, every single (for one worker: double) failing thread "
                "creation",
                bounds="1-3 workers (8 without preemption), 0-3 pending tasks "
                "(12-40 with at most one departure from the default schedule)")


def c15(tier):
    v = [(["INTP_MULTITHREAD"], "c++17"),
         (["INTP_MULTITHREAD", "INTP_CELL_LAYOUT"], "c++14")]
    if tier == "thorough":
        v += [(["INTP_MULTITHREAD"], "c++11"),
              (["INTP_MULTITHREAD", "INTP_CELL_LAYOUT"], "c++20")]
    return dict(jobs=mcjobs("build.cpp", v, tier, ref=("cases_ref.cpp",)),
                serial=True, assumptions=SCHED,
                rule="every schedule of building calls within the preemption "
                "bound; results compared bit by bit with the library built "
                "without threads and across schedules",
                bounds="1-8 workers, 1-4 dimensions, 1-2 user threads; schedules "
                "up to the preemption bound for meshes of 9 to 72 points; without "
                "preemption every number of lines 2-18 and 40, 99, 300 lines")


def c16(tier):
    v = [([], "c++17"), (["INTP_CELL_LAYOUT"], "c++11"),
         (["INTP_MULTITHREAD"], "c++14"), (["INTP_ENABLE_ASSERTION"], "c++20")]
    if tier == "thorough":
        v += [(["INTP_MULTITHREAD", "INTP_CELL_LAYOUT"], "c++17"),
              (["INTP_CELL_LAYOUT"], "c++14"), (["INTP_CELL_LAYOUT"], "c++20"),
              (["INTP_PERIODIC_NO_DUMMY_POINT"], "c++17")]
    return dict(jobs=mcjobs("shared.cpp", v, tier), serial=True,
                assumptions=SCHED,
                rule="every pair (some triples) of 14 const operations on fresh "
                "shared objects, every schedule of their synchronisation; a "
                "race between plain accesses is found in any order",
                bounds="5 kinds of functions in 1-3 dimensions, 2-3 threads; "
                "unbounded preemptions without threads in the library, none "
                "with them (quick)")


SPECS = {
    "C01": value(1, "every grid point of every enumerated grid and data set; "
                    "oracle: the data"),
    "C02": value(2, "order+2 points per knot segment, knots and grid points with "
                    "their floating-point neighbours; oracle: reference spline"),
    "C03": value(3, "points outside each subset of aperiodic dimensions at nine "
                    "distances; oracle: end polynomial of the reference"),
    "C04": value(4, "special and generic coordinates shifted by -1000..1000 "
                    "periods; oracle: reference spline wrapped exactly"),
    "C05": value(5, "every derivative order combination 0..order+2; oracle: "
                    "polynomial differentiation of the reference"),
    "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11,
    "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21,
}

META = {
    "C08": ("model_checking", "explicit-state exploration of all value-operation "
            "sequences on the real objects, replayed against a slot model",
            "All sequences up to the depth; slot model as oracle; "
            "AddressSanitizer watches memory. Trusts compiler and sanitizer."),
    "C13": ("model_checking", "stateless model checking of the real code under a "
            "controlled scheduler with a happens-before race detector",
            "All schedules of the scenarios within their preemption bounds are "
            "executed on the real code; sequential consistency; trusts the "
            "scheduler (self tested), libstdc++ and glibc."),
    "C14": ("model_checking", "stateless model checking of the real code under a "
            "controlled scheduler with a happens-before race detector",
            "All schedules of the scenarios within their preemption bounds are "
            "executed on the real code; sequential consistency; trusts the "
            "scheduler (self tested), libstdc++ and glibc."),
    "C15": ("model_checking", "stateless model checking of the real code under a "
            "controlled scheduler with a happens-before race detector",
            "All schedules of the scenarios within their preemption bounds are "
            "executed on the real code; sequential consistency; trusts the "
            "scheduler (self tested), libstdc++ and glibc."),
    "C16": ("model_checking", "stateless model checking of the real code under a "
            "controlled scheduler with a happens-before race detector",
            "All schedules of the scenarios within their preemption bounds are "
            "executed on the real code; sequential consistency; trusts the "
            "scheduler (self tested), libstdc++ and glibc."),
    "C18": ("model_checking", "exhaustive bounded enumeration of constructions "
            "and coordinates under memory and arithmetic monitors",
            "Every execution within the bounds runs under ASan, UBSan, MSan and "
            "the checked standard library, which are trusted as oracles."),
    "C19": ("fault_enumeration", "exhaustive enumeration of every single failing "
            "allocation in every operation on the real code",
            "Every allocation position of every enumerated operation fails once; "
            "worker-thread allocations are not failed; no double faults."),
    "default": ("model_checking",
                "exhaustive bounded enumeration of grids, data and points on "
                "the real code against a reference model",
                "Every configuration within the stated bounds is executed on "
                "the real headers and compared with an independent long double "
                "reference; outside the bounds nothing is claimed. Trusts the "
                "compiler, the reference model and the rounding tolerances."),
}
