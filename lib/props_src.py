#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 lib/props_src.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Concurrent gravity evaluations are independent",
  "Any number of threads may evaluate spherical-harmonic gravity and point-mass accelerations at the same time on shared read-only Stokes coefficients, each with its own (or internal) scratch space. There is no data race or deadlock, and every thread gets exactly the value that the same call returns when it is the first and only call of a fresh process.",
  ["schedules", "histories"], "over all interleavings of the threads' memory accesses and all mixes of call arguments, including which thread makes the first call of the process",
  "The tests are single threaded and make one call per process; an interleaving or a first-call race is never exercised.",
  ["src/lib/gravity/sh_cunningham_normalized_gradient.cpp", "src/lib/gravity/forward_column_alf.cpp", "src/lib/gravity/point_mass_acceleration.cpp", "include/gravity.hpp"],
  [("static table of normalisation factors, filled once", "src/lib/gravity/sh_cunningham_normalized_gradient.cpp"), ("internal scratch allocated per call", "src/lib/gravity/sh_cunningham_normalized_gradient.cpp")],
  [("F", "process-wide table of normalisation factors", "src/lib/gravity/sh_cunningham_normalized_gradient.cpp")],
  ["dso::sh2gradient_cunningham", "dso::point_mass_acceleration", "dso::forward_column_alf"])
p("C02", "Concurrent const EOP queries are safe and exact",
  "A loaded EOP series may be queried through its const interface by several threads at once, and copied while others query it. There is no data race, and every query returns exactly what it returns when it is the only query ever made on that series.",
  ["schedules", "histories"], "over all interleavings of const queries and copies on a shared series, and all query epochs",
  "No test shares a series between threads, and the EOP tests are not even built in this environment.",
  ["include/eop.hpp", "src/lib/eop/lagrange_interpolation.cpp"],
  [("const member functions of the series", "include/eop.hpp")],
  [("interpolation cache/work space", "data reused between queries", "include/eop.hpp")], ["dso::EopSeries::interpolate", "dso::EopSeries::approx_dut1"])
p("C03", "Gravity evaluation equals the harmonic sum, whatever ran before",
  "Evaluating a gravity field for any position and any admissible degree/order returns the acceleration and gradient of the spherical-harmonic potential defined by exactly those coefficients, degree, order, GM and radius. The result does not depend on earlier calls, on the content of caller-supplied scratch space, on whether scratch space is supplied, or on recycled memory; scratch that is too small, an inadmissible degree, or a failed allocation gives an error and no out-of-bounds access or leak.",
  ["inputs", "histories", "fault_sequences"], "over all coefficient sets, positions, degrees/orders, scratch contents, call histories and allocation failures",
  "No test of the built suite evaluates the gradient against a reference; the COST-G benchmark (not built) samples one field with one degree and always supplies scratch.",
  ["src/lib/gravity/sh_cunningham_normalized_gradient.cpp", "src/lib/gravity/forward_column_alf.cpp", "include/gravity.hpp"],
  [("recurrences with cached factors", "src/lib/gravity/sh_cunningham_normalized_gradient.cpp")],
  [("W, M scratch", "values of the basis functions, reused across calls", "caller or internal")], ["acceleration and gradient", "return value"])
p("C04", "Coefficient matrices behave as a map from (row,col) to value",
  "Through any sequence of construction, writes, copies, moves, swaps, resizes and bulk operations, a coefficient matrix of any storage scheme holds exactly the values last written at every stored position, and a resized matrix that promises to keep its content keeps the common part and zeroes the rest. No operation leaks, double-frees, touches memory outside its storage, or changes another matrix.",
  ["histories", "inputs", "configurations"], "over all operation histories, shapes and the four storage schemes",
  "Tests check a few fixed shapes and single operations; they never move-assign onto a live matrix, resize repeatedly, or check for leaks.",
  ["include/coeff_matrix_2d.hpp", "include/coeff_matrix_storage.hpp"],
  [("index maps per storage scheme", "include/coeff_matrix_storage.hpp"), ("ownership and capacity", "include/coeff_matrix_2d.hpp")],
  [("buffer, capacity", "owned storage", "include/coeff_matrix_2d.hpp")], ["operator()", "rows/cols/num_elements"])
p("C05", "Failed allocations leave coefficient containers intact",
  "When an allocation fails inside a coefficient container operation, the failure is reported to the caller as an exception. Every object involved is still usable and destructible afterwards: it is either unchanged or consistently empty/resized, never half updated, never pointing at freed memory, and nothing leaks.",
  ["fault_sequences", "histories"], "over all operation histories with an allocation failure at any allocation",
  "Allocation failure is never injected by the tests.",
  ["include/coeff_matrix_2d.hpp", "include/stokes_coefficients.hpp", "src/lib/stokes_coefficients.cpp"],
  [("allocate before release", "include/coeff_matrix_2d.hpp")], (), ["object state after the exception"])
p("C06", "Stokes coefficient sets keep degree, order and values consistent",
  "Through any sequence of construction, resize, shrink, clear, scaling, copying, conversion and accumulation, a set of Stokes coefficients reports the degree/order it was given and holds exactly the C and S values the operations define. Accumulating another set, scaled or not, adds to exactly the coefficients of the other set's degree and order and changes no other.",
  ["histories", "inputs"], "over all operation histories, degrees and orders",
  "One test covers one conversion for one shape; no history of resizes, shrinks and accumulations is exercised.",
  ["include/stokes_coefficients.hpp", "src/lib/stokes_coefficients.cpp"],
  [("pair of lower-triangular matrices", "include/stokes_coefficients.hpp")],
  [("degree, order", "logical extent inside the allocated one", "include/stokes_coefficients.hpp")], ["C(n,m), S(n,m), max_degree, max_order"])
p("C07", "Lazy coefficient expressions equal their element-wise meaning",
  "Evaluating any combination of coefficient-matrix sums and scalings into a new or existing matrix gives at every position the element-wise result, also when the target appears in the expression. Operands are not changed and the target's other positions and storage stay valid.",
  ["histories", "inputs", "configurations"], "over all expression shapes, storage schemes, matrix shapes and prior histories of target and operands",
  "Tests evaluate a few fixed expressions on freshly built operands.",
  ["include/coeff_matrix_2d.hpp"], [("expression templates", "include/coeff_matrix_2d.hpp")], (), ["operator() of the target"])
p("C08", "Gravity model files load exactly, however the file is delivered",
  "Loading a well-formed ICGEM gravity model for a requested degree, order and epoch returns for every coefficient exactly the value the file defines at that epoch (static part plus trend and periodic terms inside their validity), zero for coefficients the file lacks, together with the file's constants. The result does not depend on how the operating system splits or delays the reads, nor on what was loaded before into the same objects.",
  ["inputs", "configurations", "fault_sequences", "histories"], "over all well-formed v1/v2 files, requested degree/order/epoch, read chunkings and load histories",
  "The ICGEM reader is not built or tested here; upstream compares one file.",
  ["src/lib/icgem/icgemio_read_header.cpp", "src/lib/icgem/icgemio_read_data_v1.cpp", "src/lib/icgem/icgemio_read_data_v2.cpp", "src/lib/icgem/resolve_igcem_data_line_v1.cpp", "src/lib/icgem/resolve_igcem_data_line_v2.cpp", "include/icgemio.hpp"],
  [("header keywords, data line resolution", "src/lib/icgem")], (), ["StokesCoeffs after parse_data, getters of the header"])
p("C09", "Damaged or unreadable gravity files never yield wrong coefficients",
  "When a gravity model file cannot be opened, fails with an I/O error, is cut short, or contains damaged lines, loading reports an error or returns what the surviving content defines. It never crashes, aborts, hangs, leaks, writes outside its buffers, or reports success with values the content does not support.",
  ["fault_sequences", "crash_points", "inputs"], "over all disk faults at any byte of header or data, and all torn or corrupted contents",
  "No test injects an I/O fault or a damaged file.",
  ["src/lib/icgem/icgemio_read_header.cpp", "src/lib/icgem/icgemio_read_data_v1.cpp", "src/lib/icgem/icgemio_read_data_v2.cpp", "src/lib/icgem/resolve_igcem_data_line_v1.cpp", "src/lib/icgem/resolve_igcem_data_line_v2.cpp"],
  [("stream state checks and return codes", "src/lib/icgem")], (), ["return value / exception, StokesCoeffs"])
p("C10", "EOP files load exactly the requested window",
  "Loading a well-formed IERS C04 file (either published layout, explicit or auto-detected) for a time window returns one record per file day inside the window, in increasing time order, with every field equal to the file's value in the documented units and time scale. The result does not depend on how the reads are split.",
  ["inputs", "configurations", "fault_sequences"], "over all well-formed files, windows and read chunkings",
  "EOP parsing is not built or tested here; upstream runs one file.",
  ["src/lib/eop/parse_iers_c04.cpp", "src/lib/eop/parse_iers_c0414.cpp", "src/lib/eop/parse_iers_c0420.cpp", "src/lib/eop/choose_eop_c04_series.cpp"],
  [("fixed format line resolution", "src/lib/eop")], (), ["EopSeries content"])
p("C11", "Unreadable or damaged EOP files are reported",
  "When an EOP file cannot be opened or read, is cut short inside the requested window, or has a damaged line there, the load returns an error or a series holding only records the surviving content defines. It never crashes, aborts, hangs or leaks, and a failed load is never reported as success.",
  ["fault_sequences", "crash_points", "inputs"], "over all disk faults at any byte and all torn or corrupted contents",
  "No test injects an I/O fault or a damaged file.",
  ["src/lib/eop/parse_iers_c04.cpp", "src/lib/eop/parse_iers_c0414.cpp", "src/lib/eop/parse_iers_c0420.cpp", "src/lib/eop/choose_eop_c04_series.cpp"],
  [("stream state checks and return codes", "src/lib/eop")], (), ["return value, EopSeries content"])
p("C12", "EOP interpolation depends only on the data and the epoch",
  "For any history of queries, insertions, copies, moves, clears and regularisation, interpolating an EOP series at an epoch returns the value the interpolating polynomial of the series' own records gives there, with the documented outcome outside the covered span. The answer never depends on earlier queries or on other series, also not after the series it was copied from changed or died.",
  ["histories", "inputs"], "over all series, query sequences in any time order and object histories",
  "Not built or tested here; upstream interpolates forward in time only, on one live series.",
  ["include/eop.hpp", "src/lib/eop/lagrange_interpolation.cpp", "src/lib/eop/regularize.cpp", "src/lib/eop/approx_dut1.cpp"],
  [("cached position in the table", "include/eop.hpp")], [("last index / work arrays", "cache across queries", "include/eop.hpp")], ["EopSeries::interpolate"])
p("C13", "AOD1B products are read exactly",
  "Reading a well-formed AOD1B product returns its header values, and stepping or seeking through its data blocks returns for the requested kind and epoch exactly the coefficients of that block up to the requested degree/order. The result does not depend on how reads are split or on which blocks were visited before.",
  ["inputs", "configurations", "fault_sequences", "histories"], "over all well-formed files, block sequences, requested degree/order, read chunkings",
  "AOD1B reading is not built or tested here (test data is missing too).",
  ["src/lib/aod1b/aod1b.cpp", "src/lib/aod1b/aod1b_read_header.cpp", "src/lib/aod1b/aod1b_goto_next_block.cpp", "src/lib/aod1b/aod1b_collect_coeffs.cpp", "src/lib/aod1b/aod1b_parse_data_block_header.cpp", "src/lib/aod1b/aod1b_skip_header.cpp", "include/aod1b.hpp"],
  [("block iterator over the open stream", "include/aod1b.hpp")], [("stream position, current block", "iterator state", "include/aod1b.hpp")], ["Aod1bIn getters, Aod1bDataBlockIterator"])
p("C14", "Damaged or unreadable AOD1B files are reported",
  "When an AOD1B file cannot be opened or read, ends early, or has damaged header, block or coefficient lines, reading reports an error or end of data, or returns what the surviving content defines. It never crashes, aborts, hangs, leaks, or writes outside its buffers or the coefficient set.",
  ["fault_sequences", "crash_points", "inputs"], "over all disk faults at any byte and all torn or corrupted contents",
  "No test injects an I/O fault or a damaged file.",
  ["src/lib/aod1b/aod1b_read_header.cpp", "src/lib/aod1b/aod1b_goto_next_block.cpp", "src/lib/aod1b/aod1b_collect_coeffs.cpp", "src/lib/aod1b/aod1b_parse_data_block_header.cpp", "src/lib/aod1b/aod1b_get_tidal_wave.cpp"],
  [("stream state checks and return codes", "src/lib/aod1b")], (), ["return values, StokesCoeffs"])
p("C15", "Streamed AOD1B coefficients depend only on the requested epoch",
  "Asking an AOD1B data stream for the coefficients at any epoch inside its data returns the linear interpolation between the two blocks that bracket the epoch (the block itself at a block epoch). This holds for any request sequence, forward, backward or repeated, and for copies or moves of the stream.",
  ["histories", "inputs"], "over all files, request sequences and object histories",
  "Not built or tested here; a monotone request sequence is all an example shows.",
  ["include/aod1b_data_stream.hpp", "include/aod1b.hpp"],
  [("two-block window over the iterator", "include/aod1b_data_stream.hpp")], [("current and next block", "interpolation window", "include/aod1b_data_stream.hpp")], ["Aod1bDataStream::coefficients_at"])
p("C16", "AOD1B streams continue across files and report missing ones",
  "A data stream that runs past the end of one daily file continues with the next file of the series and returns the same coefficients as if all blocks were in one file. If the next file is missing or unreadable the request reports an error, and the stream still answers correctly for epochs it still covers.",
  ["histories", "fault_sequences"], "over all file series, request sequences and missing/unreadable files",
  "Not built or tested here; no test crosses a file boundary.",
  ["include/aod1b_data_stream.hpp", "src/lib/aod1b/aod1bnontidalproductnaming.cpp"],
  [("next-file naming and re-initialisation", "include/aod1b_data_stream.hpp")], (), ["Aod1bDataStream::coefficients_at"])
p("C17", "Atmospheric tide waves load and sum exactly",
  "Appending AOD1B tidal-wave products builds an atmospheric tide model holding for each wave exactly the file's sine and cosine coefficients and its identity; the model's correction at an epoch is the sum over its waves. A product that cannot be read or does not name a known wave is reported and leaves the model as it was.",
  ["inputs", "fault_sequences", "histories"], "over all well-formed wave files, append orders, degree/order requests and disk faults",
  "Not built or tested here.",
  ["src/lib/aod1b/aod1b_get_tidal_wave.cpp", "src/lib/atmospheric_tides/atm_tides_append_wave.cpp", "src/lib/atmospheric_tides/atm_tides_geopotential.cpp", "include/atmospheric_tides.hpp", "include/tide_atlas.hpp"],
  [("wave vector with per-wave coefficients", "include/tide_atlas.hpp")], (), ["AtmosphericTide::stokes_coeffs, atlas content"])
p("C18", "Ocean tide atlases are built exactly from GROOPS files",
  "Building a tide atlas from a GROOPS file list (with or without an admittance matrix) yields every listed wave with exactly the sine and cosine coefficients of its files, paired with the right wave and column of the admittance. A missing, unreadable, short or inconsistent file or matrix is reported as an error, never accepted as a partial or zero-filled atlas, and never crashes.",
  ["inputs", "configurations", "fault_sequences"], "over all wave lists, file orders, admittance matrices, read chunkings and disk faults",
  "Not built or tested here beyond a header compile check.",
  ["src/lib/tide_atlas_groops.cpp", "src/lib/tide_atlas.cpp", "include/groops_tide_model.hpp", "include/tide_atlas.hpp"],
  [("file name parsing, per-constituent pairing", "src/lib/tide_atlas_groops.cpp")], (), ["TideAtlas content, GroopsTideModel"])
p("C19", "Pole tide coefficients load exactly or are reported",
  "Loading the ocean pole tide coefficient file returns for every degree and order up to the requested ones exactly the file's values. A file that is missing, unreadable, truncated before the requested degree or damaged there is reported as an error, without out-of-bounds access, crash or hang.",
  ["inputs", "fault_sequences", "configurations"], "over all well-formed files, requested degree/order, read chunkings and disk faults",
  "Not built or tested here.",
  ["src/lib/pole_tide/parse_desai02_coeffs.cpp", "src/lib/pole_tide/ocean_pole_tide_geopotential.cpp", "include/pole_tide.hpp"],
  [("line-wise parse with index check", "src/lib/pole_tide/parse_desai02_coeffs.cpp")], (), ["coefficient matrices, return value"])
p("C20", "Pole tide deformation grids interpolate exactly or are reported",
  "Reading the ocean pole tide deformation grid for a set of sites returns for each site the bilinear interpolation of the four surrounding grid records, wherever the site lies and in whatever order the sites are given. A file that ends early or has damaged records the sites need is reported as an error, without wrong values, crash or hang.",
  ["inputs", "fault_sequences"], "over all site sets, grid values, read chunkings and disk faults",
  "Not built or tested here.",
  ["src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp", "include/grid.hpp", "include/pole_tide.hpp"],
  [("two-tier grid streaming", "src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp")], (), ["per-site coefficients, return value"])
p("C21", "Free core nutation series load and interpolate exactly",
  "Loading an FCN amplitude file for a window returns exactly the file's entries there, and evaluating the model at an epoch interpolates the entries around it, for any query order. An unreadable or damaged file is reported; an empty or one-entry series never causes undefined behaviour.",
  ["inputs", "histories", "fault_sequences"], "over all files, windows, query sequences, read chunkings and disk faults",
  "Not built or tested here.",
  ["src/lib/free_core_nutation/parse_lambert_coeffs.cpp", "src/lib/free_core_nutation/lambert.cpp", "include/fcn.hpp"],
  [("line parse and window", "src/lib/free_core_nutation/parse_lambert_coeffs.cpp")], (), ["coefficient vector, FcnResult"])
p("C22", "Timing statistics survive clock steps and empty runs",
  "The timing helper reports, for any sequence of start/stop pairs and copies, the total and mean of the elapsed times (in the requested unit, to within one unit) and which of two timers is faster. Elapsed times are never negative and do not change when the system's wall clock is stepped or slewed meanwhile. Reporting before any sample, or with a label of any length, is well defined.",
  ["fault_sequences", "histories"], "over all clock readings, wall-clock jumps, sample histories and labels",
  "The header is only compile-checked.",
  ["include/clock.hpp"], [("clock source", "include/clock.hpp")], (), ["Clock output"])
p("C23", "SPICE kernels are loaded once and failures are reported",
  "Asking for a kernel to be loaded if it is not yet loaded loads exactly that kernel exactly once, whatever other kernels are loaded and in whatever order calls come. Failures to load or to read constants or positions are returned to the caller and never leave outputs reported as valid.",
  ["histories", "fault_sequences"], "over all kernel pools, call sequences and SPICE failures",
  "Not built or tested here (SPICE is not installed).",
  ["src/lib/planets/kernel.cpp", "src/lib/planets/kernel_consts.cpp", "src/lib/planets/planet_pos.cpp", "src/lib/planets/planet_state.cpp", "include/planets.hpp"],
  [("loaded-kernel scan", "src/lib/planets/kernel.cpp")], (), ["SPICE calls made, return values"])
p("C24", "Ocean tide models are values",
  "Copying, moving, swapping and re-assigning ocean tide models, and attaching or detaching admittance information, gives objects that evaluate exactly like the originals did. No object depends on another's lifetime, and none leaks or frees twice.",
  ["histories"], "over all sequences of construction, copy, move, assignment and destruction",
  "Not built or tested here.",
  ["include/ocean_tide.hpp", "include/tide_atlas.hpp", "include/groops_tide_model.hpp", "src/lib/ocean_tide/ocean_tide_potential.cpp"],
  [("owned or absent admittance model", "include/ocean_tide.hpp")], [("gmodel", "optional admittance model", "include/ocean_tide.hpp")], ["OceanTide::stokes_coeffs"])
p("C25", "Tide corrections depend only on the epoch and the model",
  "Evaluating an ocean tide model at an epoch returns the sum over its waves of cosine and sine coefficients weighted by the wave's argument (through the admittance matrix when there is one). The result does not depend on earlier evaluations, their epochs or order.",
  ["histories", "inputs"], "over all models and evaluation sequences",
  "Not built or tested here.",
  ["src/lib/ocean_tide/ocean_tide_potential.cpp", "include/ocean_tide.hpp", "include/doodson.hpp"],
  [("per-call reset of the accumulator", "src/lib/ocean_tide/ocean_tide_potential.cpp")], [("cs", "accumulator reused between calls", "include/ocean_tide.hpp")], ["OceanTide::stokes_coeffs"])
p("C26", "Stateless geophysical models are repeatable and thread safe",
  "Evaluating the astronomical-argument, precession-nutation, Earth-rotation, libration, EOP tidal variation, relativity, free-core-nutation, pole tide and (with an object per thread) solid Earth tide models any number of times, in any order and from any number of threads, gives bit-identical results for identical arguments. There is no data race, also not on the first call of a process. Alternative entry points for one quantity (by epoch or by Julian century, with given or own fundamental arguments, term by term or combined, rotation as one quaternion, in two parts or with its time derivative) agree to rounding.",
  ["schedules", "histories"], "over all interleavings, call orders, epochs and arguments",
  "The tests are single threaded, and these models are not built here.",
  ["src/lib/fundarg/fundarg.cpp", "include/fundarg.hpp", "src/lib/iau", "src/lib/eop/libration.cpp", "src/lib/eop/ocean_tide_variation.cpp", "src/lib/eop/zonal_tides.cpp", "src/lib/relativity", "src/lib/free_core_nutation/lambert.cpp", "src/lib/earth_rotation", "src/lib/solid_earth_tides", "src/lib/pole_tide/pole_tide_deformation.cpp"],
  [("constant tables, no mutable statics", "src/lib/eop, src/lib/iau")], (), ["returned values"])
p("C27", "Legendre functions equal their definition and stay in their matrix",
  "For any latitude and admissible degree/order the computed normalised associated Legendre functions (and first derivatives, away from the poles) equal their mathematical definition. This holds for a matrix just large enough or larger, whatever values the matrix held before, and nothing outside the matrix is touched.",
  ["inputs", "histories"], "over all angles, degrees, orders, matrix sizes and previous matrix contents", "The test samples one angle grid with one oversized, fresh matrix.",
  ["src/lib/gravity/forward_column_alf.cpp"], [("forward column recurrence", "src/lib/gravity/forward_column_alf.cpp")])
p("C28", "Precession-nutation and Earth rotation match the IAU conventions",
  "Fundamental arguments, CIP coordinates, CIO locator, Earth rotation angle, sidereal time and the resulting celestial-to-terrestrial rotation agree with the IAU 2006/2000A definitions at any epoch.",
  ["inputs"], "over all epochs", "Reference implementations (SOFA) are not available here; upstream samples random epochs.",
  ["src/lib/iau", "src/lib/fundarg/fundarg.cpp", "src/lib/earth_rotation", "include/earth_rotation.hpp"], [("series evaluation", "src/lib/iau")])
p("C29", "Solid Earth and pole tide closed forms match IERS 2010",
  "Solid Earth tide and pole tide displacements and geopotential corrections agree with the IERS 2010 conventions for any site, epoch and tide-raising body position.",
  ["inputs"], "over all sites, epochs and body positions", "Not built here; upstream samples a few epochs.",
  ["src/lib/solid_earth_tides", "src/lib/pole_tide"], [("closed-form evaluation", "src/lib/solid_earth_tides")])
p("C30", "Doodson numbers survive text, copies and changes, and tell waves apart",
  "A Doodson number written to text and read back is unchanged; text of any other form is refused, and no more is read of it than the seven characters of a number (after leading blanks). Two numbers are equal, or of one species, group or constituent, exactly if the multipliers (and phase) that define these agree, whatever was written, copied or changed before. A wave is found by its name or number exactly if it is listed, with the listed values; its argument is the sum of multipliers times variables within one turn, and its listed speed is that of its multipliers.",
  ["inputs", "histories"], "over all representable multipliers, texts (whole, cut short, damaged; with or without a final NUL) and histories of reads, writes, copies, changes and lookups",
  "Not built here; upstream samples the known waves and well-formed text.",
  ["include/doodson.hpp", "src/lib/doodson"], [("character codec", "src/lib/doodson"), ("wave lists", "include/doodson.hpp")])
p("C31", "Tide atlases and models built from them are independent",
  "An atlas built wave by wave holds every appended wave once, in order, with its name, speed, degree, order and coefficients, and finds it by its Doodson number; a wave it already holds is refused and changes nothing. Ocean and atmospheric tide models built from an atlas neither change it nor depend on later changes of it or of each other. Models owned by different threads can be built and evaluated at the same time, without data race, and give exactly what they give alone.",
  ["inputs", "histories", "schedules", "fault_sequences"], "over all waves, degrees and orders, histories of appends, copies, model constructions and evaluations, allocation failures, and interleavings of threads using different models",
  "Not built by the stable tests; upstream builds one model in one thread.",
  ["include/tide_atlas.hpp", "src/lib/tide_atlas.cpp", "src/lib/tidal_constituent.cpp", "include/ocean_tide.hpp", "include/atmospheric_tides.hpp", "src/lib/ocean_tide", "src/lib/atmospheric_tides"],
  [("unique wave list", "src/lib/tide_atlas.cpp"), ("deep copy of the atlas into models", "include/ocean_tide.hpp, include/atmospheric_tides.hpp")])
p("C32", "Compensated sums keep what plain addition loses",
  "A compensated accumulator reports the exact sum of its starting value and everything added since, to within a few rounding units of the result plus a term of second order in the rounding unit, whatever the order and magnitudes of the terms, also when large terms cancel. Copies and assigned accumulators carry the whole state on and are then independent; setting one anew forgets what it held, and reading changes nothing.",
  ["histories", "inputs"], "over all finite terms, orders of addition and histories of copies, assignments and reads",
  "The test adds a few sample series to one accumulator.",
  ["include/kahan.hpp", "src/lib/iau/xcip06a.cpp", "src/lib/iau/ycip06a.cpp"],
  [("running compensation", "include/kahan.hpp")], [("merr", "lost low-order bits", "include/kahan.hpp")], ["value after summation"])
p("C33", "Grid lookups name the cell that holds the point",
  "For a two-dimensional grid with positive steps and either leading axis, the index of a point is that of the node at the lower end of the cell that holds it, the node of an index lies where the grid's starts and steps put it, and inside the grid the nodes around a point are the four corners of its cell. Every index given lies within the grid; points outside the grid (or not numbers) are refused, with no node around them. Copied and assigned grids answer like their originals.",
  ["inputs", "histories"], "over all grid shapes, leading axes, points (on, next to and between nodes and borders) and histories of copies and assignments",
  "The header is only compile-checked.",
  ["include/grid.hpp", "src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp"],
  [("cell index of a point", "include/grid.hpp")], (), ["line, xyindex2node, surrounding_nodes"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
