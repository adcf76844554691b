"""Worlds (simulator executables) and the properties they decide."""
COEFF = ["stokes_coefficients.cpp"]
GRAV = COEFF + ["gravity"]
OCEAN = COEFF + ["icgem", "aod1b", "doodson", "fundarg", "iau", "atmospheric_tides", "ocean_tide", "tide_atlas.cpp", "tidal_constituent.cpp", "tide_atlas_groops.cpp"]
MODELS = COEFF + ["fundarg", "iau", "earth_rotation", "eop", "relativity", "solid_earth_tides", "free_core_nutation", "pole_tide", "doodson"]
WORLDS = {
    "coeffs": dict(source="coeffs", flavour="asan", groups=COEFF),
    "gravity": dict(source="gravity", flavour="asan", groups=GRAV),
    "gravity_mt": dict(source="gravity", flavour="sched", groups=GRAV),
    "eop": dict(source="eop", flavour="asan", groups=["eop", "fundarg"]),
    "icgem": dict(source="icgem", flavour="asan", groups=COEFF + ["icgem"]),
    "aod1b": dict(source="aod1b", flavour="asan", groups=COEFF + ["aod1b", "doodson", "fundarg"]),
    "atmtide": dict(source="atmtide", flavour="asan", groups=COEFF + ["aod1b", "doodson", "fundarg", "iau", "atmospheric_tides", "tide_atlas.cpp", "tidal_constituent.cpp"]),
    "octide": dict(source="octide", flavour="asan", groups=OCEAN),
    "octide_sparse": dict(source="octide", flavour="asan", groups=OCEAN, defines=["SPARSE_ADMITTANCE_MATRIX"]),
    "tides": dict(source="tides", flavour="asan", groups=OCEAN),
    "tides_mt": dict(source="tides", flavour="sched", groups=OCEAN),
    "poletide": dict(source="poletide", flavour="asan", groups=COEFF + ["pole_tide"]),
    "fcn": dict(source="fcn", flavour="asan", groups=["free_core_nutation"]),
    "models": dict(source="models", flavour="asan", groups=MODELS),
    "models_mt": dict(source="models", flavour="sched", groups=MODELS),
    "clock": dict(source="clock", flavour="asan", groups=[]),
    # as above, the library's DEBUG checks compiled in (as the upstream tests build it)
    "coeffs_dbg": dict(source="coeffs", flavour="asan", groups=COEFF, defines=["DEBUG"]),
    "gravity_dbg": dict(source="gravity", flavour="asan", groups=GRAV, defines=["DEBUG"]),
    "sums": dict(source="sums", flavour="asan", groups=[]),
    "grid": dict(source="grid", flavour="asan", groups=[]),
    "doodson": dict(source="doodson", flavour="asan", groups=["doodson"]),
    "spice": dict(source="spice", flavour="asan", groups=["planets"]),
    "eop_mt": dict(source="eop", flavour="sched", groups=["eop", "fundarg"]),
}
# script lines whose integer arguments the minimiser may shrink
SHRINKABLE = {"new", "set", "resize", "cresize", "snew", "sresize", "scresize", "sshrink", "failalloc",
              "addred", "addredsc", "redsum", "addredsum", "preempt",
              "gen", "push", "ask", "askrec", "dut", "chunk"}

HEAP = "every allocation the library makes goes through the simulator: seeded garbage in fresh blocks, per-block accounting, injected failure of the n-th allocation"
THREADS = "library code compiled with the compiler's thread instrumentation against the simulator's own runtime; one simulated thread runs at a time and every memory access to shared memory, atomic, lock and static-initialisation guard is a scheduling point"
DISK = "file opens, reads, seeks and closes of the library go to the simulated disk (short reads, EINTR, EIO at a byte, early end of file, failing opens, replaced files)"

def part(world, cfg, quick, thorough, cost=1.0, **k):
    return dict(world=world, cfg=cfg, quick=quick, thorough=thorough, cost=cost, **k)

PROPS = {}
def prop(id, title, parts, rule, **k):
    PROPS[id] = dict(parts=parts, rule=rule, level=k.pop("level", "exploration"), title=title, **k)

prop("C01", "seeded schedule simulation, race detection and comparison with isolated calls",
     [part("gravity_mt", "x", 900, 12000)],
     "Each seed draws 1-3 gravity fields, 2-4 threads with 1-3 evaluations each (own or internal scratch, Legendre functions, point masses) and a schedule of forced preemptions and bursts over the memory accesses; the first call of the process happens inside the simulation.",
     measure="distinct interleavings: hash of the sequence of (from, to, accesses of the running thread) at every switch",
     real=["src/lib/gravity", "src/lib/stokes_coefficients.cpp", "Eigen", "libstdc++ templates"],
     stub=["thread scheduler and synchronisation runtime (simulated)", THREADS],
     assumptions=["sequentially consistent interleavings plus happens-before race detection; weak-memory effects show up as races only"],
     probes=["interleaved run", "static_init_contended"])
prop("C03", "seeded histories and allocation faults against an independent harmonic sum",
     [part("gravity", "x", 5000, 60000), part("gravity", "alloc", 2500, 30000), part("gravity", "deep", 1200, 20000, 3.0), part("gravity_dbg", "x", 1500, 15000)],
     "Each seed draws fields (full, decaying, single-coefficient; with garbage past the order, or shrunk from larger ones), then a history of evaluations with varying degree/order/scratch (internal, caller-supplied with garbage or as earlier calls left it, too small), repeated calls, related positions (mirrored, turned, a small step on), fields that change in between, inadmissible requests and failing allocations.",
     measure="distinct (field degree, requested degree, order, scratch modes)",
     real=["src/lib/gravity", "src/lib/stokes_coefficients.cpp"], stub=["heap: " + HEAP],
     assumptions=["relative agreement 1e-12 of the sum of term magnitudes (1e-10 above degree 60) counts as equal"],
     probes=["order below degree", "internal scratch", "half internal scratch", "rejected request", "repeated call", "scratch of an earlier call", "field changed between calls",
             "failstop_terminate", "degree beyond factor table rejected"])
prop("C04", "seeded operation histories over a simulated heap against a map model",
     [part("coeffs", "x", 9000, 120000), part("coeffs_dbg", "x", 3000, 30000)],
     "Each seed draws a history of 10-60 construct/write/copy/move/swap/resize/bulk operations over four slots for one of the storage schemes; fresh memory holds garbage.",
     measure="distinct (shape, content) states reached", real=["include/coeff_matrix_2d.hpp", "include/coeff_matrix_storage.hpp"],
     stub=["heap: " + HEAP])
prop("C05", "seeded operation histories with injected allocation failures against a model",
     [part("coeffs", "m", 6000, 80000), part("coeffs", "stokes", 6000, 80000), part("coeffs_dbg", "m", 2000, 20000)],
     "As C04/C06 with allocation failures armed before random operations; after a failure the object must equal its old or an admissible new state and stay usable.",
     measure="distinct (shape, content) states reached", real=["include/coeff_matrix_2d.hpp", "include/stokes_coefficients.hpp", "src/lib/stokes_coefficients.cpp"],
     stub=["heap: " + HEAP], level="exploration")
prop("C06", "seeded operation histories against a reference model",
     [part("coeffs", "x", 9000, 120000), part("coeffs_dbg", "x", 3000, 30000)],
     "Each seed draws a history of construct/resize/shrink/clear/scale/copy/move/convert/accumulate operations over several coefficient sets.",
     measure="distinct (degree, order, content) states reached", real=["include/stokes_coefficients.hpp", "src/lib/stokes_coefficients.cpp"],
     stub=["heap: " + HEAP])
prop("C07", "seeded expression histories against element-wise evaluation",
     [part("coeffs", "x", 9000, 120000), part("coeffs_dbg", "x", 3000, 30000)],
     "Each seed draws operands in varying states and a sequence of sums, scalings and assignments, including targets that appear in the expression.",
     measure="distinct (shape, content) states reached", real=["include/coeff_matrix_2d.hpp"], stub=["heap: " + HEAP])
prop("C27", "seeded evaluation histories into dirty, exactly sized matrices",
     [part("gravity", "x", 6000, 60000), part("gravity", "deep", 1500, 20000, 3.0), part("gravity", "huge", 80, 1500, 40), part("gravity_dbg", "x", 1500, 15000)],
     "Each seed draws 1-6 evaluations (one, of degree 990-1500, in huge) (with or without derivatives) of random degree/order/latitude (often repeated or mirrored, also at the poles) into matrices that are exact or larger and hold garbage or what the last call left.",
     measure="distinct (kind, degree, order) prefixes", real=["src/lib/gravity/forward_column_alf.cpp"], stub=["heap: " + HEAP],
     probes=["exact matrix", "larger matrix", "order below degree", "matrix of an earlier call"])

EOPREAL = ["src/lib/eop", "src/lib/fundarg", "libstdc++ streams"]
DT = "third-party datetime library: stood in for by /verif/shim (same interface, own implementation)"
prop("C02", "seeded schedule simulation, race detection and comparison with isolated queries",
     [part("eop_mt", "x", 6000, 60000)],
     "Each seed draws one series (often across a leap second), possibly queried before, 2-4 threads with 1-4 queries/copies each and a schedule of forced preemptions and bursts over the memory accesses.",
     measure="distinct interleavings: hash of the sequence of (from, to, accesses of the running thread) at every switch",
     real=EOPREAL, stub=["thread scheduler and synchronisation runtime (simulated)", THREADS, DT],
     assumptions=["sequentially consistent interleavings plus happens-before race detection"], probes=["interleaved run"])
prop("C10", "seeded files and windows on a simulated disk with short and interrupted reads, against an independent parser",
     [part("eop", "x", 3500, 50000)],
     "Each seed draws 1-2 well-formed C04/14 or C04/20 files (daily or sub-daily, around leap seconds), how reads are split or interrupted, and 1-4 loads (explicit or detected layout) for windows on, off and around record epochs into one series, with queries in between.",
     measure="distinct (file, outcome, record count, mode)", real=EOPREAL, stub=[DISK, DT],
     probes=["empty window", "window inverted", "file continues after window"])
prop("C11", "seeded damage and I/O faults on a simulated disk against an independent parser",
     [part("eop", "io", 4000, 50000), part("eop", "dmg", 4000, 50000)],
     "As C10 with failing opens, I/O errors, early end of file (any or the n-th open), missing files, truncation, byte corruption, torn blocks, lost, duplicated and reordered lines.",
     measure="distinct (file, outcome, record count, mode)", real=EOPREAL, stub=[DISK, DT], probes=["damage reported"])
prop("C12", "seeded histories of queries and object operations against a reference interpolation",
     [part("eop", "x", 9000, 120000)],
     "Each seed draws 8-40 loads, insertions, copies, moves, clears, regularisations and queries (on, next to, between and outside record epochs, any degree) over three series.",
     measure="distinct (outcome, records, degree)", real=EOPREAL, stub=[DT],
     assumptions=["agreement to 1e-12 of the sum of term magnitudes counts as equal"],
     probes=["linear", "out of span", "full degree", "lowered degree", "empty series queried", "regularised"])

ICREAL = ["src/lib/icgem", "src/lib/stokes_coefficients.cpp", "libstdc++ streams"]
prop("C08", "seeded model files on a simulated disk with short and interrupted reads, against an independent parser",
     [part("icgem", "x", 4000, 50000)],
     "Each seed draws 1-3 well-formed files (format 1.0/2.0, every error model, static, trend and periodic terms, consecutive validity intervals, shuffled lines, missing coefficients, Fortran exponents), how reads are split or interrupted, and 2-9 opens/loads for varying degree, order and epoch (on and next to interval ends) into reused objects.",
     measure="distinct (version, error model, requested and resulting degree/order)", real=ICREAL, stub=[DISK, DT],
     assumptions=["time-varying terms agree to 1e-14 of their magnitude (times the phase)"], probes=["time-varying coefficient", "load reported an error"])
prop("C09", "seeded damage and I/O faults on a simulated disk against an independent parser",
     [part("icgem", "io", 4000, 50000), part("icgem", "dmg", 8000, 100000)],
     "As C08 with failing opens, I/O errors, early end of file (any or the n-th open), files missing or replaced between opens, truncation, byte corruption, torn blocks, lost, duplicated and reordered lines.",
     measure="distinct (version, error model, requested and resulting degree/order)", real=ICREAL, stub=[DISK, DT],
     probes=["header rejected", "load reported an error"])

AODREAL = ["src/lib/aod1b", "include/aod1b.hpp, aod1b_data_stream.hpp", "src/lib/doodson", "src/lib/stokes_coefficients.cpp", "libstdc++ streams and filesystem"]
prop("C13", "seeded AOD1B products on a simulated disk with short and interrupted reads, against an independent parser",
     [part("aod1b", "x", 3000, 40000)],
     "Each seed draws 1-3 well-formed products (degree, block types, orders and numbers of epochs, header spacing, optional header lines, shuffled and missing coefficients), how reads are split or interrupted, and opens, copies, moves and block iterations (begin, advance, skip, collect with and without resizing) interleaved over three iterators.",
     measure="distinct (type, block, requested and resulting degree/order)", real=AODREAL, stub=[DISK, DT],
     probes=["block found", "block collected", "end of data", "inadmissible request"])
prop("C14", "seeded damage and I/O faults on a simulated disk against an independent parser",
     [part("aod1b", "io", 3000, 40000), part("aod1b", "dmg", 8000, 100000)],
     "As C13 with failing opens, I/O errors, early end of file, missing files, truncation, byte corruption, torn blocks, lost, duplicated and reordered lines.",
     measure="distinct (type, block, requested and resulting degree/order)", real=AODREAL, stub=[DISK, DT],
     probes=["header rejected", "collect reported an error"])
prop("C15", "seeded request histories against interpolation of the independently parsed blocks",
     [part("aod1b", "x", 2500, 40000)],
     "Each seed draws a product, two streams and a history of 5-40 requests: forward sweeps, jumps, repeats, epochs on and one nanosecond beside a block, outside the data, re-initialisation, moves of the stream, targets smaller and larger than the product.",
     measure="distinct (bracketing block, number of blocks, current file, eighth of the interval)", real=AODREAL, stub=[DISK, DT],
     assumptions=["interpolated values agree to 1e-13 of the larger block value"], probes=["on a block epoch", "between blocks", "request refused", "stream moved"])
prop("C16", "seeded request histories over a directory of daily files with missing and failing files",
     [part("aod1b", "x", 2500, 40000)],
     "As C15 over 2-4 daily files, short or very long directory names, with missing files, failing opens, I/O errors and early end of file on any of them.",
     measure="distinct (bracketing block, number of blocks, current file, eighth of the interval)", real=AODREAL, stub=[DISK, DT],
     assumptions=["interpolated values agree to 1e-13 of the larger block value", "a request that needs more than one new file may be refused"],
     probes=["next file fed", "between blocks", "request refused"])

TIDEREAL = ["src/lib/aod1b", "src/lib/atmospheric_tides", "src/lib/tide_atlas.cpp, tidal_constituent.cpp", "src/lib/doodson", "src/lib/fundarg", "src/lib/iau", "src/lib/stokes_coefficients.cpp"]
OCEANREAL = ["src/lib/tide_atlas_groops.cpp, tide_atlas.cpp, tidal_constituent.cpp", "src/lib/ocean_tide", "src/lib/atmospheric_tides", "src/lib/icgem", "src/lib/doodson", "src/lib/fundarg", "src/lib/iau", "src/lib/stokes_coefficients.cpp", "Eigen"]
TOL = "agreement to 3e-10 of the sum of term magnitudes counts as equal (arguments are of the order of 1e4 rad)"
prop("C17", "seeded histories of appends, copies and evaluations over faulty AOD1B tide products, against an independent reader and an independent tidal sum",
     [part("atmtide", "x", 3000, 40000), part("atmtide", "io", 2500, 40000), part("atmtide", "dmg", 3000, 60000)],
     "Each seed draws 1-5 tidal products of different waves and degrees on the simulated disk with delivery faults, I/O faults or damage, and a history of appends, copies, moves, swaps and evaluations of two models and of reads straight into the caller's coefficients; each state is compared with the independently read coefficients and each correction with an independently computed sum.",
     measure="distinct (waves, degrees, orders) held by a model", real=TIDEREAL, stub=[DISK, DT], assumptions=[TOL],
     probes=["wave appended", "append refused"])
prop("C18", "seeded GROOPS atlases on a simulated disk with faults, damage and inconsistent sets, against independent readers",
     [part("octide", "x", 2500, 40000), part("octide", "io", 2500, 40000), part("octide", "dmg", 3500, 60000), part("octide", "bad", 3000, 40000),
      part("octide_sparse", "x", 400, 6000), part("octide_sparse", "bad", 600, 6000)],
     "Each seed draws 1-2 models (file list, constituent files of equal or different degree, Doodson and admittance matrices; long names and directories) and delivery faults, I/O faults, damage, or an inconsistent set (lost or repeated line, lost or added column, missing file, file without counterpart, two waves of one Doodson number), then builds atlases, ocean and atmospheric models from them for varying degree/order and evaluates them.",
     measure="distinct (waves, degrees, admittance) built", real=OCEANREAL, stub=[DISK, DT], assumptions=[TOL],
     probes=["set rejected", "admittance read", "evaluated with admittance"])
prop("C24", "seeded histories of construction, copy, move, swap and admittance changes against a value model",
     [part("octide", "x", 4000, 60000), part("octide_sparse", "x", 600, 8000)],
     "Each seed draws 1-3 models with and without admittance and a history of 4-25 copy/move construction and assignment, swap, self-assignment, admittance attachment, rebuild, destruction and evaluation over three objects; all memory is accounted for.",
     measure="distinct (waves, degrees, admittance) built", real=OCEANREAL, stub=[DISK, DT, "heap: " + HEAP], assumptions=[TOL],
     probes=["mismatch reported", "admittance attached", "foreign admittance attached", "epoch repeated"])
prop("C25", "seeded evaluation histories against an independent tidal sum",
     [part("octide", "x", 4000, 60000), part("octide_sparse", "x", 600, 8000)],
     "Each seed draws 1-3 models and a history of evaluations at varying and repeated epochs, between copies, moves and admittance changes; every result is compared with an independently computed sum and repeated epochs bit for bit.",
     measure="distinct (waves, degrees, admittance) built", real=OCEANREAL, stub=[DISK, DT], assumptions=[TOL],
     probes=["evaluated with admittance", "epoch repeated"])

POLEREAL = ["pole_tide (ocean pole tide coefficients, model and deformation grid, secular pole)", "StokesCoeffs/CoeffMatrix2D", "libstdc++ streams"]
prop("C19", "seeded ocean pole tide files on a simulated disk with faults, damage and inadmissible content, against an independent reader and series",
     [part("poletide", "x", 3000, 40000), part("poletide", "io", 2500, 30000), part("poletide", "dmg", 3000, 60000), part("poletide", "bad", 2000, 30000), part("poletide", "deep", 40, 400, cost=40)],
     "Each seed lays out a coefficient file (degree 0-30, up to 360 in deep) and a history of coefficient loads, model constructions, copies, moves and evaluations (whole and partial degree/order) at varying pole coordinates; delivery, I/O faults, damage or inadmissible rows as the part says. Results are compared with an independent reader and an independently computed series.",
     measure="distinct (degree, order, file) loaded", real=POLEREAL, stub=[DISK, DT, "heap: " + HEAP], assumptions=[TOL],
     probes=["coefficients compared", "model built", "part of the model evaluated", "evaluation refused", "file refused", "model refused"])
prop("C20", "seeded deformation grids on a simulated disk with faults, damage and inadmissible content, against an independent reader and interpolation",
     [part("poletide", "x", 3000, 40000), part("poletide", "io", 2500, 30000), part("poletide", "dmg", 3000, 60000), part("poletide", "bad", 2000, 30000)],
     "Each seed lays out a deformation grid (header limits, steps, records) and a history of requests for lists of sites, on nodes, between nodes, across the seam and at the poles, under delivery variants, I/O faults, damage or inadmissible content as the part says; every result is compared with an independent bilinear interpolation.",
     measure="distinct (grid, cell) interpolated", real=POLEREAL + ["TwoDimGrid"], stub=[DISK, DT, "geodesy: shim types"], assumptions=[TOL],
     probes=["site interpolated", "site across the seam", "request refused"])
prop("C21", "seeded amplitude files on a simulated disk with faults and damage, against an independent reader and model",
     [part("fcn", "x", 6000, 60000), part("fcn", "io", 4000, 50000), part("fcn", "dmg", 5000, 80000)],
     "Each seed writes an amplitude file of 0-160 entries and a history of loads (whole, windows) and evaluations before, on, between and after the entries, on a machine where no request may exceed 64 MB; delivery, I/O faults or damage as the part says.",
     measure="distinct (series, interval) evaluated", real=["parse_lambert_coefficients", "lambert_fcn", "load_iers10_table52c", "libstdc++ streams"], stub=[DISK, DT, "memory limit of the machine"], assumptions=[TOL],
     probes=["series loaded", "one entry evaluated", "empty series evaluated", "before the series", "after the series", "inside the series", "load refused", "convention table evaluated"])

prop("C22", "seeded timer histories on simulated clocks (steps, slews, stalls, coarse resolution) against exact bookkeeping",
     [part("clock", "x", 8000, 60000), part("clock", "step", 8000, 60000)],
     "Each seed draws boot time, clock resolution and read cost and a history of 4-60 operations on three timers (labels of 0-400 characters, start/stop, copies, moves, assignments, totals and means in four units, comparisons) while time passes; 'step' also steps and slews the wall clock between any two operations.",
     measure="distinct (samples, total) averaged", real=["include/clock.hpp", "libstdc++ <chrono>"],
     stub=["clock_gettime/gettimeofday: monotonic and wall clock of the simulator", "heap: " + HEAP],
     assumptions=["a stop without a start is not judged"],
     probes=["long label", "average without samples", "average judged", "total judged", "order judged", "comparison judged", "compared without samples"])
prop("C23", "seeded call histories over a simulated SPICE toolkit with missing, corrupt and failing kernels",
     [part("spice", "x", 8000, 60000), part("spice", "bad", 8000, 60000)],
     "Each seed lays out 2-9 kernels (leap seconds, constants, ephemerides; names that are prefixes, extensions or long look-alikes of each other; partial coverage) and 4-30 calls (loads, constants, positions, states, loads and unloads by the rest of the program, with or without clearing the error state); 'bad' adds corrupt kernels, coverage gaps and failures of the n-th read.",
     measure="distinct (kernel pool, call)", real=["src/lib/planets", "include/planets.hpp"],
     stub=["CSPICE toolkit: kernel pool, error state (action RETURN), constants and ephemerides of the simulator", DT],
     probes=["kernel loaded", "loaded already", "failure reported", "constants read", "position read", "state read", "unknown planet", "called with an error pending", "error cleared by the caller"])

prop("C26", "seeded schedule simulation and call histories against the same evaluation alone in a fresh process",
     [part("models_mt", "x", 1500, 15000, 3.0), part("models", "hist", 2000, 20000, 2.0), part("models", "agree", 2000, 20000)],
     "Each seed draws 1-4 epochs and 1-4 argument sets (often equal in all but a few fields) and evaluations of 35 models with them (also with constants of the caller and objects of its own): 2-4 threads with 1-4 evaluations each under a schedule of forced preemptions and bursts (x), 4-24 evaluations in one thread reusing the same argument buffers on a dirty stack (hist), or all alternative entry points for the same arguments (agree).",
     measure="distinct interleavings (hash of the sequence of (from, to, accesses of the running thread) at every switch) and distinct results",
     real=["src/lib/fundarg", "src/lib/iau", "src/lib/earth_rotation", "src/lib/eop (models)", "src/lib/relativity", "src/lib/solid_earth_tides", "src/lib/free_core_nutation", "src/lib/pole_tide (closed forms)"],
     stub=["thread scheduler and synchronisation runtime (simulated)", THREADS, DT, "geodesy: shim types"],
     assumptions=["sequentially consistent interleavings plus happens-before race detection", "alternative entry points agree to 1e-14 rad (CIP coordinates), 1e-12 rad (others) and about 1e-13 of a rotation"],
     probes=["interleaved run", "evaluated again", "entry points compared"])

prop("C31", "seeded histories of building atlases and models with failing allocations, and seeded schedules of threads using models of shared atlases, against a value model and the same evaluation alone",
     [part("tides", "x", 4000, 60000), part("tides", "alloc", 4000, 60000), part("tides_mt", "x", 2500, 25000, 2.0)],
     "Each seed builds three atlases wave by wave (near-duplicate Doodson numbers, mixed degrees and orders), looks waves up, builds constituents from table entries, writes coefficients, copies, moves and swaps, builds ocean (with and without admittance) and atmospheric models from them and evaluates at related epochs, in between (x), with failing allocations (alloc), or in 2-4 threads that each build and evaluate models of shared atlases under a schedule of forced preemptions and bursts, also as the first calls of the process (tides_mt).",
     measure="distinct (waves, degree, order) appended; distinct interleavings (hash of the sequence of (from, to, accesses of the running thread) at every switch)",
     real=["src/lib/tide_atlas.cpp, tidal_constituent.cpp", "src/lib/ocean_tide", "src/lib/atmospheric_tides", "src/lib/doodson", "src/lib/fundarg", "src/lib/iau", "src/lib/stokes_coefficients.cpp", "Eigen"],
     stub=["thread scheduler and synchronisation runtime (simulated)", THREADS, DT, "heap: " + HEAP], assumptions=[TOL, "an allocation failure inside a noexcept operation ends the program (fail-stop)"],
     probes=["duplicate refused", "wave found", "wave not found", "mismatch reported", "interleaved run"])

prop("C32", "seeded histories of feeding, reading, copying and resetting accumulators against exact sums",
     [part("sums", "x", 8000, 120000)],
     "Each seed draws a history of 6-300 operations on four accumulators (start values, single terms and series of up to 2000, of like, wide, cancelling, one-sided, tied and far-apart magnitudes; reads, copies, assignments, copies that carry on beside the original) in memory that held garbage.",
     measure="distinct (sum, terms)", real=["include/kahan.hpp"], stub=["heap: " + HEAP],
     assumptions=["4 ulp/2 of the result plus 4 n^2 u^2 of the magnitudes counts as exact", "non-finite terms are not judged"],
     probes=["cancelled", "long series", "copy carried on"])
prop("C33", "seeded histories of building, copying and asking grids against exact cell bookkeeping",
     [part("grid", "x", 8000, 120000)],
     "Each seed draws a history of 10-90 operations on three grids of either leading axis (1-1500 nodes per axis; dyadic, geodetic, decimal and arbitrary starts and steps): builds, copies, assignments, nodes of indices, cells of and nodes around points inside cells, on nodes, within three ulps of a border, beyond it and not finite.",
     measure="distinct (cell, shape, leading axis)", real=["include/grid.hpp"], stub=["heap: " + HEAP],
     assumptions=["steps are positive", "a point within rounding of a node line may belong to the cell on either side", "the nodes around a point of the last column or row (which have none on one side) are not judged"],
     probes=["out of range", "surrounded", "on a node line", "inside a cell", "node of an oblong grid", "at a border"])

prop("C30", "seeded histories of reading, writing, changing, comparing and looking up Doodson numbers in whole and damaged text columns",
     [part("doodson", "x", 6000, 100000), part("doodson", "bad", 6000, 100000)],
     "Each seed draws 8-70 operations on five numbers: built, changed in place and copied (close together, over the whole range, of listed waves and next to them), written and read back, compared, turned into arguments, looked up by name and number; texts lie in buffers of exactly their size, with leading blanks and trailing text, in 'bad' mostly damaged (bytes replaced, lost, inserted, cut off).",
     measure="distinct texts", real=["include/doodson.hpp", "src/lib/doodson"], stub=["heap: " + HEAP, "geodesy: angle normalisation of the shim"],
     assumptions=["letters in a number of the IERS form are not judged", "writing needs 8 bytes (the header says 7, without the final NUL)"],
     probes=["refused", "read a string", "read a column", "read back", "argument", "equal", "same constituent", "same group", "same species", "other species", "wave found", "wave not found"])

NA = {
    "C28": "pure closed-form functions of their arguments: no schedule, clock, I/O, allocation or history for a simulator to control (their repeatability under threads and call orders is claimed as C26), and no independent reference implementation is available offline",
    "C29": "pure closed-form functions of their arguments: nothing nondeterministic to simulate and no independent reference available offline",
}
