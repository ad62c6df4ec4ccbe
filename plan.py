# What each check runs.  A run: target (harness + repository sources), mode, (quick, thorough) case counts, MPI ranks,
# OpenMP threads, build flavor.
FD = ["-DPARTICLE_SIMULATOR_THREAD_PARALLEL", "-DPARTICLE_SIMULATOR_MPI_PARALLEL"]
SYS = ["Sylinder/SylinderSystem.cpp", "Sylinder/Sylinder.cpp", "Sylinder/SylinderConfig.cpp", "Boundary/*.cpp", "Constraint/*.cpp",
       "Trilinos/TpetraUtil.cpp", "Util/Base64.cpp"]
TARGETS = {
    "util": {"src": ["h:h_util.cpp"], "libs": False, "defs": ["-fext-numeric-literals"], "ld": ["-lquadmath"]},
    "cmd": {"src": ["h:h_util.cpp"], "libs": False, "defs": ["-fext-numeric-literals", "-DNOQUAD"], "ld": ["-lquadmath"]},
    "geom": {"src": ["h:h_geom.cpp", "Boundary/*.cpp", "Sylinder/Sylinder.cpp", "Util/Base64.cpp"], "libs": False},
    "solver": {"src": ["h:h_solver.cpp", "Collision/CPSolver.cpp", "Constraint/*.cpp", "Trilinos/TpetraUtil.cpp", "Util/Base64.cpp"]},
    "comm": {"src": ["h:h_comm.cpp"], "defs": FD},
    "fdps2": {"src": ["h:h_fdps2.cpp"], "defs": FD},
    "fdps": {"src": ["h:h_fdps.cpp"], "defs": FD},
    "collect": {"src": ["h:h_collect.cpp"] + SYS, "defs": FD},
    "io": {"src": ["h:h_io.cpp"] + SYS, "defs": FD},
    "cfg": {"src": ["h:h_cfg.cpp", "Sylinder/SylinderConfig.cpp", "Boundary/*.cpp", "Util/Base64.cpp"], "libs": False},
    "rand": {"src": ["h:h_rand.cpp", "Util/PointDistribution.cpp"], "libs": False},
    "step": {"src": ["h:h_step.cpp"] + SYS, "defs": FD},
    "traj": {"src": ["h:h_traj.cpp"] + SYS, "defs": FD},
}
GEN = "seeded generator, each case from its own 64-bit seed; "
MON = "runtime monitor: "
BOUND = "Bounded by case count, not proved; decides the executions it runs. "


def R(target, mode, cases, np=(1,), threads=(1,), **kw):
    th = list(threads) * len(np) if len(threads) == 1 else list(threads)
    return [dict(target=target, mode=mode, cases=cases, np=n, threads=t, **kw) for n, t in zip(np, th)]


CHECKS = {}


def C(pid, runs, technique, note, rule, floor=1, dfloor=1, **kw):
    CHECKS[pid] = dict(runs=runs, technique=technique, note=BOUND + note, rule=GEN + rule, floor=floor, dfloor=dfloor, **kw)


C("P01", R("geom", "segdist", (2000, 40000)), MON + "online oracle (80-bit minimiser over edges and interior) on the real distance query",
  "Oracle: exhaustive minimum over the interior stationary point and the four edges in long double; tolerance follows conditioning.",
  "20 segment pairs per case over 16 kinds (random, parallel, collinear, crossing, touching, zero length, 1e-8..1e8 aspect, corner minimisers); a distinct case has its own seed and kind", 20000, 20000)
C("P02", R("solver", "lcp", (300, 5000), (1, 2, 3)), MON + "residual and KKT oracle on recorded solver iterates (instrumented operator)",
  "Oracle recomputes the residual from the returned x with dense arithmetic and solves well conditioned cases by active-set enumeration; convergence is only required where conditioning allows it.",
  "SPD and singular LCPs of size 0..40, planted active sets, guesses, tolerances, iteration limits, rows spread unevenly over ranks; distinct = case seed x rank count", 600, 600)
C("P03", R("solver", "bcqp", (300, 5000), (1, 2, 3)), MON + "projected-gradient oracle on recorded solver iterates",
  "As P02, with bound boxes infinite, equal, huge or one-sided.",
  "SPD BCQPs of size 0..40 with 7 bound kinds; distinct = case seed x rank count", 600, 600)
C("P04", R("solver", "conop", (300, 5000), (1, 2, 3)), MON + "online comparison of the operator with a dense model",
  "Dense reference assembled from the blocks, not from the code's sparse matrices.", "random block sets, mobilities, multivectors, alpha/beta; distinct = case seed x rank count", 600, 600)
C("P05", R("solver", "collector", (300, 5000), (1, 2, 3), (2, 1, 2)), MON + "exactly-once and content oracle over assembled blocks",
  "Blocks carry unique contents, so loss, duplication and mispairing are all visible.", "random queues per thread (also empty), ranks with no object or block; distinct = case seed x rank count", 600, 600)
C("P06", R("solver", "consolver", (300, 5000), (1, 2, 3)), MON + "complementarity, spring law and force-balance oracle on solved constraints",
  "Complementarity is claimed for problems whose conditioning lets the residual tolerance be reached.", "random unilateral/bilateral block sets on 1..12 bodies, both solvers, cut short or solved; distinct = case seed x rank count", 600, 600)
C("P07", R("comm", "exchange", (300, 5000), (1, 2, 3, 5), (2, 2, 1, 1)), MON + "exactly-once delivery checker over tagged messages",
  "Every message has a unique tag and payload derived from it.", "7 traffic patterns, 5 payload sizes, 0..6000 items per rank, reused buffers; distinct = case seed x rank count", 900, 900)
C("P08", R("geom", "sort", (4000, 40000), threads=(4,)), MON + "permutation/pairing/order/stability checker on tagged elements",
  "Elements carry unique ids.", "int, unsigned, 64-bit and double tags, sizes 0..5000, heavy duplicates and extremes; distinct = case seed", 4000, 4000)
C("P09", R("comm", "directory", (200, 3000), (1, 2, 3, 5)), MON + "directory model over publish/lookup histories",
  "Answers are compared with a map of what was published in the latest round.", "histories of publish/build/lookup rounds on one directory object; sparse, dense, extreme ids; distinct = case seed x round x rank count", 600, 600)
C("P10", R("comm", "mixpair", (60, 1000), (1, 2, 3, 4), (2, 2, 1, 1)), MON + "brute-force pair oracle, exactly-once pair log gathered from all ranks",
  "Pairs within a rounding band of the range are not judged.", "clouds of 0..400 targets/sources, all 8 boundary conditions, clusters, box faces, several rounds with moves and re-decomposition; distinct = case seed x round x rank count", 200, 200)
C("P11", R("solver", "tutil", (300, 5000), (1, 2, 3)), MON + "value/order oracle on distributed vectors, maps and files read back",
  "Files are parsed by an independent Matrix Market reader.", "local sizes 0..50 per rank; distinct = case seed x rank count", 600, 600)
C("P12", R("geom", "boundary", (4000, 40000)), MON + "analytic closest-point oracle on boundary projections",
  "Analytic geometry in long double; ties (centre, axis) accept any nearest point.", "shells, walls, tubes with random frames and sizes; points inside, outside, on the surface, at centre/axis; distinct = case seed x query", 20000, 20000)
C("P13", R("geom", "kinematics", (4000, 40000)), MON + "rotation-group oracle over step histories",
  "Exact rotation by Rodrigues' formula in long double.", "histories of 1..50 Euler steps with zero, tiny, ordinary and huge angular velocities; distinct = case seed x length", 4000, 4000)
C("P14", R("geom", "drag", (4000, 40000)), MON + "formula oracle on drag coefficients",
  "Closed formulae evaluated independently.", "lengths, radii and viscosities over many decades, the sphere/rod switch from both sides; distinct = case seed x particle", 4000, 4000)
C("P30", R("geom", "pbc", (4000, 40000)), MON + "range/image/nearest oracle on periodic images, exact maps on random geometry",
  "Tolerances are a few ulps of the operands.", "boxes from 1e-6 to 1e6, coordinates many boxes away and within ulps of the faces; distinct = case seed x query", 20000, 20000)
SYSRULE = "whole SylinderSystem worlds of 1..60 rods and spheres (clustered, crossed, parallel, touching, face-hugging), all 8 periodicities, collision ratios and buffers, two rounds each; distinct = case seed x round x rank count"
C("P15", R("collect", "pairs", (600, 8000), (1, 2, 3, 4), (4, 2, 2, 1)), MON + "brute-force all-pairs all-images oracle over the constraint pool of all ranks",
  "Pairs within a rounding band of the threshold are not judged; boxes are wide enough that a particle does not meet its own image.", SYSRULE, 400, 400)
C("P16", R("collect", "pairs", (600, 8000), (1, 2, 3), (4, 2, 1)), MON + "geometric and virial oracle (long double) on every recorded collision block",
  "Closest points of (nearly) parallel rods are not unique: there any pair of points at the true distance is accepted.", SYSRULE, 400, 400)
C("P17", R("collect", "links", (600, 8000), (1, 2, 3), (4, 2, 2)), MON + "exactly-once link oracle over the constraint pool of all ranks",
  "Link ends exactly half a box apart accept either image.", SYSRULE + "; random link graphs (chains, stars, rings)", 500, 500)
C("P18", R("collect", "bounds", (900, 9000), (1, 2, 3), (4, 2, 2)), MON + "signed-distance oracle over the constraint pool of all ranks",
  "Points within a rounding band of the threshold are not judged.", SYSRULE + "; 0..3 shells, walls and tubes, points inside, outside and on them", 800, 800)
STEPRULE = "histories of 2..53 steps of whole SylinderSystem worlds (1..45 particles, links, boundaries, all 8 periodicities, monolayer, fixed, Brownian, prescribed forces and velocities, insertions of particles and links from all ranks); distinct = case seed x step x rank count"
C("P19", R("step", "hist", (200, 3000), (1, 2, 3, 4), (4, 2, 2, 1)), MON + "reference model of particle identity, images and links, compared after every step on all ranks",
  "Links already in the map are not added again (what that means is not specified).", STEPRULE, 1000, 1000)
C("P21", R("step", "hist", (200, 3000), (1, 2, 3), (4, 2, 1)), MON + "independent recomputation (long double) of velocities, forces, balance and moves from the recorded parts and constraint blocks",
  "A monolayer step in which two cores cross has no contact normal in the plane: there the out-of-plane constraint velocity is not judged.", STEPRULE, 1000, 1000)
C("P20", R("traj", "overlap", (150, 2000), (1, 2, 3), (4, 2, 1)), MON + "independent geometry (all pairs, all images, boundaries, links) after every step the solver reports converged",
  "Judged with an explicit bound for the curvature of the step; crossed cores (no normal) and nearly parallel rods (one contact cannot hold them) are not judged.",
  "histories of 2..8 steps of driven and jammed worlds (2..40 rods and spheres, containers and channels, links, immovable particles, both solvers, all 8 periodicities); distinct = case seed x step x rank count", 500, 500)
C("P22", [dict(target="traj", mode="traj", cases=(100, 1200), np=1, threads=1)] +
  [dict(target="traj", mode="traj", cases=(100, 1200), np=n, threads=t, after=0) for n, t in ((1, 4), (2, 2), (3, 1), (4, 2))],
  MON + "state by state comparison of the same histories run on other rank and thread counts",
  "Compared as long as every contact has a unique geometry and every solve converged: up to 1e-4 of the constraint motion with contacts, to rounding without.",
  "histories of 2..6 steps of worlds as in P20, solved to 1e-9; distinct = case seed x step x rank count", 500, 300)
C("P33", R("step", "hist", (200, 3000), (1, 2, 3, 4), (2, 2, 1, 1)) + R("solver", "collector", (120, 1500), (1, 2), (2, 2)), MON + "independent recomputation of every reported diagnostic from the gathered particles and blocks",
  "Logged numbers are compared at the six digits they are printed with.", STEPRULE, 1000, 1000)
IORULE = "histories of whole SylinderSystem worlds (1..25 rods and spheres, links, boundaries, immovable and fixed particles, Brownian motion, prescribed forces and velocities); distinct = case seed x step x rank count"
C("P23", R("io", "snap", (80, 1000), (1, 2, 3), (4, 2, 2)), MON + "independent parser of every written file (base64, XML, parallel headers, ascii) compared with memory",
  "32-bit fields are compared after the same rounding.", IORULE, 300, 300)
C("P24", [dict(target="io", mode="write", cases=(40, 600), np=2, threads=2), dict(target="io", mode="write", cases=(40, 600), np=1, threads=1)] +
  [dict(target="io", mode="restart", cases=(40, 600), np=n, threads=t, after=a) for n, t, a in ((1, 2, 0), (2, 1, 0), (3, 1, 0), (1, 1, 1), (3, 2, 1))],
  MON + "restarted runs (other rank counts too) compared with the uninterrupted run that wrote the snapshot",
  "Fields are stored in 32 bits, so continuations are compared within a tolerance and only where no cores cross.", IORULE + "; every case stops after one of its snapshots and continues 1..5 steps", 200, 80)
C("P27", R("io", "brown", (60, 800), (1, 2, 3), (4, 2, 1)), MON + "whitened Brownian velocities: exact zero/in-plane laws, repetition detector and moment tests at 6.5 standard errors",
  "Distribution shape is decided by moments up to the fourth and all cross-correlations.", "suspensions of 1..120 separated rods and spheres, 8 steps each, all scales; distinct = case seed x step x rank count", 1000, 1000)
C("P35", R("io", "init", (300, 3000), (1, 2, 3), (4, 2, 1)), MON + "oracle over generated position files and configurations",
  "Axes are judged to 2e-6 (quaternions of nearly antiparallel directions).", "position files of 1..80 particles in any order with links, comments and odd formats; configurations of 1..300 particles; distinct = case seed x rank count", 800, 800)
C("P34", R("fdps", "domain", (700, 8000), (1, 2, 3, 5), (4, 2, 1, 1)), MON + "tiling and conservation oracle over the decomposed domains and the exchanged particles, gathered from all ranks",
  "Default smoothing coefficient of the decomposition.", "boxes open/periodic per axis, clouds of 6 kinds (uniform, clustered, on faces, coincident) starting on one, some or all ranks, every process grid, repeated drift-decompose-exchange rounds; distinct = case seed x rank count", 4000, 1200)
C("P36", R("fdps", "search", (900, 9000), (1, 2, 3, 5), (4, 2, 1, 1)), MON + "all-pairs periodic distance oracle for the particles each tree walk presents to a recording interaction kernel",
  "Pairs within a relative 1e-9 of the search radius are not judged.", "gather, scatter and symmetric searches with a fresh or reused list, and the long-range walk; radii equal, random, bimodal and up to several box lengths; leaf and group sizes from 1; distinct = case seed x rank count", 3000, 1200)
C("P25", R("cfg", "yaml", (3000, 40000), mpi=False), MON + "generated configuration files read by the code in a child process, values, defaults, boundaries and errors compared with the generator's own record",
  "Keys given twice and values YAML itself reinterprets (octal, sexagesimal) are not generated.", "valid files (any key order, layout and number format, 0..6 boundaries) and files with exactly one mistake of 9 kinds; distinct = case seed", 3000, 3000)
C("P26", [dict(target="rand", mode="streams", cases=(300, 5000), np=n, threads=1, **kw) for n, kw in ((1, {}), (2, {}), (4, {}), (1, {"after": 0}), (2, {"after": 1}))],
  MON + "stream monitor: window repetition detector over all ranks and threads, run-to-run comparison, moment tests at 6.5 standard errors",
  "The TRNG library is not installed: its engine and distributions are a stand-in (shim/trng), so what is decided is TRngPool's own use of them. A lag longer than 600 numbers is not seen.",
  "pools of 1..4 ranks x 1..5 threads, 600 numbers per stream, seeds incl. 0 and the neighbouring seed; distinct = case seed x rank count", 1000, 800)
C("P28", R("cfg", "enc", (1500, 20000), mpi=False), MON + "independent strict base64/XML reader over everything written, canary bytes around decoded buffers",
  "Array names are plain identifiers.", "byte strings of every length 0..259 and random ones to 5000, vectors of 4 types, files of 0..6 arrays, 4 kinds of parallel headers; distinct = case seed x string", 9000, 9000)
C("P29", R("rand", "points", (400, 6000), (1, 2, 3, 5)), MON + "exactly-once, order and domain oracle over generated, distributed, collected and dumped points",
  "Uniformity by moments only.", "random counts, boxes, seeds, dimensions; uneven and empty shares per rank; distinct = case seed x rank count", 1500, 1500)

C("P37", R("util", "quad", (3, 20), mpi=False), MON + "the nodes and weights handed out compared with the zeros of the Legendre polynomials found by Newton's method in 128-bit arithmetic",
  "The order of the points is free; double precision is what the tables are written for.", "every number of points from 1 to 128 in float, double and long double, output vectors with old contents: exhaustive; distinct = number of points x type", 1000, 300)
C("P38", R("cmd", "cmd", (20000, 200000), mpi=False), MON + "generated parser declarations and command lines, read back and compared with the generator's own record",
  "Not generated, because unspecified: single-valued options given twice, half numeric words, words after a flag.", "parsers of 0..8 options of 10 types, given or not, in any order, under either name, with every kind of mistake; distinct = case seed", 15000, 10000)

C("P39", R("fdps2", "files", (600, 8000), (1, 2, 3, 5), (2, 1, 1, 1)), MON + "particles read back compared one by one, in order, with the generator's own record; the rest after removals compared as multisets",
  "What the particle type itself writes and reads is the harness's (%.17g text, raw bytes).", "0..200 particles in 5 kinds of shares, text and binary, one file or one per rank, no header / header with and without a count, the type's own or another format, fresh or used systems, newline bytes in the data; distinct = case seed x rank count", 2000, 2000)
C("P40", R("fdps2", "blocks", (600, 8000), (1, 2, 3, 5), (2, 3, 1, 1)), MON + "exact reference arithmetic on small integers, std::vector and std::stable_sort models, lattice geometry, reductions computed on every rank",
  "Arithmetic is compared where it is exact.", "vectors, matrices, boxes (touching, nested, apart), Morton keys on and inside cells, radix sorts of 4 widths with 1..3 threads, up to 6 arrays sharing the memory pool, reductions and exchanges on 1..5 ranks; distinct = case seed x rank count", 2000, 2000)

# ---- how it runs: memory errors and races.  The same workloads, and every monitor of theirs along as a plain user of
# the results; only what the sanitizers report counts here.
A = dict(flavor="asan", timeout=800)
V = dict(tool="memcheck", timeout=800, stall=400)


def W(target, mode, cases, np=1, threads=2, **kw):
    return dict(target=target, mode=mode, cases=cases, np=np, threads=threads, **kw)


P31 = [W("io", "write", (12, 150), 2, **A), W("io", "restart", (12, 150), 1, after=0, **A),
       W("step", "hist", (40, 600), 1, **A), W("step", "hist", (40, 600), 2, 1, **A), W("step", "hist", (30, 600), 3, 1, **A),
       W("traj", "overlap", (40, 600), 1, **A), W("traj", "overlap", (30, 600), 2, 1, **A),
       W("collect", "pairs", (80, 1500), 1, 3, **A), W("collect", "pairs", (60, 1500), 3, 1, **A),
       W("collect", "links", (80, 1500), 2, **A), W("collect", "bounds", (100, 1500), 1, **A),
       W("io", "snap", (12, 150), 1, **A), W("io", "snap", (10, 150), 3, 1, **A), W("io", "init", (60, 600), 2, 1, **A),
       W("io", "brown", (12, 150), 1, 3, **A),
       W("comm", "mixpair", (25, 400), 1, 3, **A), W("comm", "mixpair", (20, 400), 3, 1, **A),
       W("comm", "exchange", (60, 800), 3, 1, **A), W("comm", "directory", (60, 800), 3, 1, **A)]
P31 += [W("solver", m, (100, 1500), np, t, **A) for m in ("lcp", "bcqp", "conop", "collector", "consolver", "tutil") for np, t in ((1, 2), (2, 1))]
P31 += [W("geom", m, (1000, 20000), 1, 2, **A) for m in ("segdist", "sort", "boundary", "kinematics", "drag", "pbc")]
P31 += [W("cfg", "yaml", (400, 6000), mpi=False, **A), W("cfg", "enc", (400, 6000), mpi=False, **A),
        W("cmd", "cmd", (3000, 20000), mpi=False, **A),
        W("rand", "streams", (60, 800), 2, 1, **A), W("rand", "points", (100, 1500), 3, 1, **A)]
P31 += [W("fdps", "search", (80, 1000), 1, 3, **A), W("fdps", "search", (50, 800), 3, 1, **A), W("fdps", "domain", (60, 800), 3, 1, **A)]
P31 += [W("fdps2", m, (150, 2000), np, t, **A) for m in ("files", "blocks") for np, t in ((1, 3), (3, 1))]
n31 = len(P31)
P31 += [W("step", "hist", (12, 80), 1, 1, **V), W("step", "hist", (4, 30), 2, 1, **V), W("traj", "overlap", (8, 60), 1, 1, **V),
        W("collect", "pairs", (12, 80), 1, 1, **V), W("collect", "bounds", (20, 150), 1, 1, **V), W("collect", "links", (20, 150), 1, 1, **V),
        W("io", "snap", (3, 30), 1, 1, **V), W("io", "init", (15, 100), 1, 1, **V), W("io", "brown", (3, 20), 1, 1, **V),
        W("comm", "mixpair", (8, 60), 1, 1, **V), W("comm", "mixpair", (4, 40), 2, 1, **V), W("comm", "exchange", (10, 80), 2, 1, **V),
        W("fdps", "search", (6, 60), 1, 1, **V), W("fdps", "domain", (8, 60), 2, 1, **V),
        W("comm", "directory", (10, 80), 2, 1, **V), W("rand", "points", (20, 150), 1, 1, **V), W("cfg", "yaml", (40, 400), 1, 1, mpi=False, **V),
        W("cfg", "enc", (60, 400), 1, 1, mpi=False, **V)]
P31 += [W("solver", m, (25, 150), 1, 1, **V) for m in ("lcp", "bcqp", "conop", "collector", "consolver", "tutil")]
P31 += [W("geom", m, (300, 2000), 1, 1, **V) for m in ("segdist", "boundary", "pbc", "kinematics", "sort", "drag")]
C("P31", P31, "sanitizers: AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions on every workload, valgrind memcheck (uninitialised values) on the central ones",
  "A report counts when the sanitizer ends the run or memcheck names a frame of the repository; leaks are not judged.",
  "the workloads of all other properties, all targets; distinct = case of one of them", 5000, 3000,
  keys=("crash:asan:", "crash:ubsan:", "crash:stdlib:", "memcheck:"))
T = dict(flavor="tsan", timeout=800, stall=300)
P32 = [W("step", "hist", (60, 800), 1, 4, **T), W("step", "hist", (40, 800), 1, 7, **T), W("step", "hist", (30, 400), 2, 3, **T), W("fdps", "search", (120, 1500), 1, 5, **T), W("fdps", "search", (60, 800), 2, 3, **T), W("fdps", "domain", (80, 800), 2, 3, **T), W("fdps2", "blocks", (100, 1000), 1, 5, **T),
       W("traj", "overlap", (50, 600), 1, 4, **T), W("collect", "pairs", (120, 1500), 1, 5, **T), W("collect", "pairs", (60, 800), 2, 3, **T),
       W("collect", "links", (120, 1500), 1, 4, **T), W("collect", "bounds", (150, 1500), 1, 4, **T), W("collect", "bounds", (100, 1500), 1, 8, **T),
       W("io", "snap", (12, 150), 1, 4, **T), W("io", "brown", (16, 150), 1, 5, **T), W("io", "init", (80, 800), 1, 4, **T),
       W("comm", "mixpair", (40, 600), 1, 4, **T), W("comm", "exchange", (60, 800), 2, 3, **T), W("comm", "directory", (60, 800), 2, 3, **T),
       W("rand", "streams", (60, 800), 1, 5, **T), W("rand", "points", (100, 1000), 1, 4, **T), W("geom", "sort", (800, 8000), 1, 5, **T)]
P32 += [W("solver", m, (120, 1500), 1, 4, **T) for m in ("collector", "conop", "consolver")] + \
       [W("solver", m, (80, 1000), 1, 4, **T) for m in ("lcp", "bcqp")] + [W("solver", "tutil", (80, 1000), 2, 3, **T)]
C("P32", P32, "race detector: ThreadSanitizer with an OpenMP runtime of our own (harness/tsan_gomp.cpp) that tells it exactly the ordering OpenMP promises and injects random delays",
  "A report counts when one of the two accesses has a frame of the repository; races with MPI progress or inside Trilinos and VTK (not instrumented) are not seen.",
  "the threaded workloads of all other properties on 3..8 threads; an evaluation is a parallel region run by several threads; distinct = case of one of them", 20000, 1500,
  keys=("race:",), count=("parallel regions run by several threads",))
