#!/usr/bin/env python3
"""Writes properties.jsonl (one source for the property texts)."""
import json, os
S = "src/ska-sdp-func/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": [S + f if not f.startswith("src/") else f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["public C API: returned status and contents of every array passed"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("P01", "Memory safety and defined behaviour for every accepted call",
  "Whatever array sizes, types, layouts, coordinates and scalar parameters are passed to a public processing function, the call either reports an error or completes while reading and writing only memory inside the arrays it was given (and its own allocations), with no undefined behaviour and no result that depends on memory nobody wrote. This includes points lying exactly on, just inside, or far outside the edges of grids, images and kernels, empty and one-element arrays, and mismatched array sizes.",
  ["inputs", "configurations"], "all argument combinations of every public function: sizes (including 0 and 1), element types, strides, edge and far-off coordinates, degenerate parameters (array storage aligned for its element type, as any allocator gives it)",
  "Tests use a few well-formed sizes with coordinates well inside the grid and run without sanitizers, so an out-of-bounds access that lands in mapped memory passes.",
  ["utility/sdp_mem.cpp", "utility/sdp_mem_view.h", "visibility/sdp_flagger.cpp", "visibility/sdp_weighting.cpp", "visibility/sdp_tiled_functions.cpp", "grid_data/sdp_gridder_utils.cpp", "grid_data/sdp_gridder_wtower_uvw.cpp", "grid_data/sdp_degrid_uvw_custom.cpp", "clean/sdp_hogbom_clean.cpp", "clean/sdp_ms_clean_cornwell.cpp", "fourier_transforms/sdp_swiftly.cpp", "numeric_functions/sdp_fft_convolution.cpp"],
  [("parameter checks at each entry point", "check_params and sdp_data_model_check_* calls"), ("range tests on grid indices", "weighting, degridding and gridding kernels"), ("checked views", "sdp_mem_check_and_view")])

p("P02", "Invalid arguments are rejected with an error and no side effects",
  "A call whose arguments break the documented requirements (wrong element type, precision mix, number of dimensions, size, memory location, read-only output, missing contiguity, or an out-of-domain parameter) sets a non-zero error code. It then leaves every output array exactly as it was, and never crashes, hangs or terminates the calling process.",
  ["inputs", "configurations"], "every public function, every single-argument corruption of a valid call, for each of the valid type combinations (handle-returning constructors of arrays may return a handle to an empty or unusable array along with the error)",
  "Tests check a handful of rejections on a few functions and never look at whether outputs were touched; the single-fault space is (functions x arguments x faults).",
  ["utility/sdp_data_model_checks.c", "utility/sdp_mem.cpp", "utility/sdp_mem_view.h", "utility/sdp_errors.h", "fourier_transforms/sdp_fft.cpp", "grid_data/sdp_grid_wstack_wtower.cpp"],
  [("check-and-report helpers", "sdp_mem_check_*, sdp_data_model_check_*"), ("early return on error", "top of every processing function")])

p("P03", "An error already recorded makes later calls do nothing",
  "When a call is given an error code that is already non-zero it does not change that code and does not modify any array, so a chain of calls reports the first error and nothing after it takes effect. Functions that create plans given a failed status return no object.",
  ["histories", "inputs"], "all public functions taking an error code, all non-zero codes, all positions in a call chain",
  "Tests never pass a failed status into a processing function; the guarantee is about every function after any earlier failure.",
  ["utility/sdp_errors.h", "utility/sdp_mem.cpp", "utility/sdp_data_model_checks.c", "fourier_transforms/sdp_fft.cpp", "grid_data/sdp_gridder_wtower_uvw.cpp"],
  [("early return", "if (*status) return at each entry point")])

p("P04", "Calls change only their documented outputs",
  "A call never changes any array documented as input, never writes to a read-only array, and for outputs that are strided or partial views never changes a byte of the surrounding storage that is not an element of the view. The outcome does not depend on which supported memory layout (contiguous or strided view, slice, wrapper or own allocation) an array happens to have.",
  ["inputs", "configurations"], "every public function with inputs and strided outputs embedded in larger sentinel-filled buffers; layouts: C-order, F-order, padded rows, slices, reversed, members of larger records; a layout a function does not support must be refused rather than misread",
  "Tests compare outputs to references in contiguous arrays and never compare inputs or neighbouring bytes before and after.",
  ["utility/sdp_mem.cpp", "utility/sdp_mem_view.h", "grid_data/sdp_gridder_utils.cpp", "grid_data/sdp_gridder_wtower_uvw.cpp", "fourier_transforms/sdp_swiftly.cpp", "fourier_transforms/sdp_fft.cpp"],
  [("const views", "sdp_MemViewCpu<const T, N>"), ("stride-aware indexing", "sdp_mem_view.h operator()"), ("read-only flag", "sdp_mem_is_read_only / sdp_mem_check_writeable")])

p("P05", "Results do not depend on thread count or scheduling",
  "For every multi-threaded function the result is the same for any number of worker threads, any assignment of work to threads and any interleaving: identical for counts, flags, indices and element-wise operations, and equal to rounding for accumulated sums. Repeating a call with the same inputs gives the same answer.",
  ["schedules", "inputs"], "all thread counts (1..N) and all interleavings/chunk assignments of the parallel loops and task queues",
  "Tests run one process with the default thread count on small inputs and see one benign schedule.",
  ["grid_data/sdp_grid_wstack_wtower.cpp", "grid_data/sdp_gridder_wtower_uvw.cpp", "grid_data/sdp_gridder_utils.cpp", "grid_data/sdp_gridder_grid_correct.cpp", "station_beam/sdp_element_spherical_wave_harp.cpp", "station_beam/sdp_station.cpp", "utility/sdp_mem.cpp", "clean/sdp_hogbom_clean.cpp"],
  [("private per-thread work areas and critical merge", "grid_wstack_wtower task loop"), ("OpenMP reductions and atomics", "gridder utils"), ("disjoint iteration ranges", "omp parallel for loops")],
  [("task queue and progress counters", "work remaining / visibilities processed", "sdp_grid_wstack_wtower.cpp")])

p("P06", "No data races or deadlocks, inside calls and between concurrent calls",
  "No two threads access the same memory without ordering when at least one of them writes, neither between the worker threads of one call nor between calls made concurrently from different threads on separate data, which may share the arrays they only read and the plan objects they use. Every such call finishes.",
  ["schedules"], "all interleavings of the internal parallel regions and of concurrent API calls on disjoint objects (including shared logging, read-only inputs and plans)",
  "No test runs the library under a race detector or calls it from several threads at once.",
  ["grid_data/sdp_grid_wstack_wtower.cpp", "grid_data/sdp_gridder_wtower_uvw.cpp", "grid_data/sdp_gridder_utils.cpp", "utility/sdp_thread_support.cpp", "utility/sdp_logging.c", "utility/sdp_timer.cpp", "utility/sdp_mem.cpp"],
  [("mutex around the task list", "sdp_mutex_lock in grid_wstack_wtower"), ("critical section when merging subgrids", "omp critical(subgrid_add)"), ("atomic counters", "omp atomic")],
  [("log level filter", "process-wide logging configuration", "sdp_logging.c")])

p("P07", "Handles own exactly what they should: no leaks, no double or early frees",
  "Every object obtained from the library (memory handles, plans, timers, masks, locks) can be released exactly once with its free call, releases everything it owns, and never frees storage supplied by the caller. Reference-counted handles stay valid until the last reference is dropped, and failed calls leave nothing allocated beyond the handle they return, if any.",
  ["histories", "fault_sequences"], "all sequences of create / wrap / alias / slice / copy / take reference / drop reference / use / free, and all creation calls that fail part way",
  "Tests create and free objects once in a fixed order and do not run under a leak checker.",
  ["utility/sdp_mem.cpp", "utility/sdp_timer.cpp", "utility/sdp_thread_support.cpp", "fourier_transforms/sdp_fft.cpp", "fourier_transforms/sdp_pswf.cpp", "fourier_transforms/sdp_swiftly.cpp", "grid_data/sdp_gridder_wtower_uvw.cpp", "grid_data/sdp_gridder_direct.cpp", "station_beam/sdp_station.cpp"],
  [("ownership flag and reference count", "sdp_Mem"), ("plan destructors", "sdp_*_free functions")],
  [("reference count, owner flag", "who releases the storage", "sdp_mem.cpp")])

p("P08", "Memory handles report and transform array contents faithfully",
  "A memory handle always reports the shape, strides, element type, element count and contiguity of the array it describes, and element access through any view, alias or sub-array slice reaches the same element as plain index arithmetic. Copy, type conversion, region copy, scaling, clearing and value-setting operations produce exactly the elementwise result and nothing else.",
  ["inputs", "histories"], "all shapes (1-5 dimensions), strides, element types, offsets, and sequences of operations, against a plain array model",
  "Tests sample a few shapes and one or two operations on contiguous arrays.",
  ["utility/sdp_mem.cpp", "utility/sdp_mem.h", "utility/sdp_mem_view.h"],
  [("stride and contiguity calculation", "sdp_mem_create_wrapper, is_c_contiguous"), ("conversion and copy", "sdp_mem_convert_precision, sdp_mem_copy_contents"), ("views", "sdp_mem_view.h")])

p("P09", "Fourier transforms equal the discrete Fourier transform",
  "For every transform length, precision, dimensionality and batch size, the forward transform equals the textbook discrete Fourier transform and the inverse undoes it up to the documented factor of the number of points; normalisation, phase-shift and centred-transform helpers are exact elementwise operations consistent with it. The padded-size helper returns the smallest even size, not less than the requested padding, whose prime factors do not exceed eleven.",
  ["inputs"], "all sizes (including odd, prime and 1), 1-3 dimensions with and without a batch axis, single and double precision, in place and out of place; all (size, padding) pairs",
  "Tests compare a few power-of-two and fixed sizes with numpy.",
  ["fourier_transforms/sdp_fft.cpp", "fourier_transforms/sdp_fft_padded_size.cpp", "fourier_transforms/pocketfft_hdronly.h"],
  [("plan geometry", "sdp_fft_create"), ("execution per batch", "sdp_fft_exec"), ("checkerboard phase and normalisation", "sdp_fft_phase, sdp_fft_norm"), ("size search", "sdp_fft_padded_size")])

p("P10", "FFT convolution equals direct convolution",
  "Convolving two images through the Fourier-domain routine gives, at every pixel and for every combination of image sizes and parities, the same result as the direct same-size convolution sum (centre of the second image at index half its size), in single and double precision. It is linear in each argument and shifting one input shifts the output.",
  ["inputs"], "all image and kernel sizes and parities (the kernel may be the larger one), both precisions, arbitrary contents",
  "The test compares one pair of sizes with a scipy result.",
  ["numeric_functions/sdp_fft_convolution.cpp"],
  [("pad, multiply, crop", "sdp_fft_convolution pad_2D / multiply / remove_padding")])

p("P11", "Point-source visibility prediction equals the measurement equation",
  "Predicted visibilities equal the direct sum over sources of flux times the interferometric phase for every baseline, time, channel and polarisation, in each supported precision and coordinate form. The prediction is linear in the fluxes, additive over source lists, and turns into its complex conjugate when all baselines are negated.",
  ["inputs"], "all numbers of sources, times, baselines, channels (1 upwards) and polarisations (1 or 4), all channel layouts and source positions",
  "Tests use one small configuration per precision.",
  ["visibility/sdp_dft.cpp", "visibility/sdp_dft.h"],
  [("per-visibility source sum", "dft_point_v00, dft_point_v01")])

p("P12", "Phase rotation is a reversible rotation consistent with the sky",
  "Rotating baseline coordinates preserves their lengths, equals the coordinate rotation defined by the two phase centres, and is undone by swapping the phase centres. Rotating visibilities multiplies each by the unit phase of the geometric delay between the phase centres at its frequency, so that a source at the new phase centre, whose visibilities are exp(+2 pi i (u l + v m + w (n-1)) / lambda) before, has constant visibilities after.",
  ["inputs"], "all pairs of phase centres, baselines, channel layouts, polarisations and precisions",
  "Tests check one pair of phase centres against a stored formula.",
  ["visibility/sdp_phase_rotate.cpp", "utility/sdp_sky_coord.c"],
  [("rotation matrix and delay", "sdp_phase_rotate_uvw, sdp_phase_rotate_vis")])

p("P13", "Imaging weights follow the uniform and robust definitions and conserve weight",
  "The gridded weight in every cell is the sum of the input weights of the visibilities falling in it, and each output weight is the inverse of that cell's sum (uniform, zero for a cell that holds no weight) or the input weight down-weighted by the robust formula with that cell's sum (robust). Visibilities outside the grid contribute nothing and their output weights are left as they were; zero-weight visibilities contribute nothing.",
  ["inputs"], "all coordinates (both signs, on and beyond grid edges), channel frequencies, weights, robustness values, grid sizes and precisions",
  "Tests use one random data set that falls entirely inside the grid.",
  ["visibility/sdp_weighting.cpp"],
  [("two-pass gridding of weights", "uniform and briggs weights grid write / read")])

p("P14", "Tiled bucket sort keeps every visibility exactly once per overlapped tile",
  "Counting and bucket-sorting visibilities into grid tiles assigns each in-grid visibility to every tile its support overlaps and to no other, and out-of-grid visibilities to none. The counts, running offsets and sorted lists agree with each other, and each sorted entry carries the coordinates and data of the visibility it came from.",
  ["inputs"], "all coordinates, supports that fit the grid, grid and tile sizes, and channel layouts (non-zero weights are not required)",
  "The existing tests of these functions need a GPU and do not run here; on the CPU path nothing is tested.",
  ["visibility/sdp_tiled_functions.cpp", "visibility/sdp_tiled_functions.h"],
  [("tile range computation", "TILE_RANGES macro"), ("prefix sum and scatter", "sdp_bucket_sort")])

p("P15", "The flagger flags what its thresholds define",
  "With its documented thresholds and window parameters, a sample is flagged exactly when its amplitude statistics cross a threshold, or when it falls within the propagation window of such a sample, as defined by a direct sequential evaluation of the algorithm (medians are the element at half the length of the sorted sample). Flags take only the values zero and one, each baseline and polarisation is judged independently, and rescaling nothing else in the data cannot change them.",
  ["inputs"], "all data shapes, threshold tables, sampling steps, window sizes, amplitudes (constant, zero, spiky) and precisions",
  "Tests inject one or two outliers into one shape.",
  ["visibility/sdp_flagger.cpp"],
  [("dynamic threshold", "flagger_dynamic_threshold"), ("fixed threshold", "flagger_fixed_threshold")])

p("P16", "Hogbom CLEAN conserves flux and stops when it should",
  "At every stage the dirty image equals the residual plus the component model convolved with the point spread function, each component is placed at the current maximum with the loop gain, and cleaning stops at the threshold or the cycle limit, whichever comes first. The restored image equals the model convolved (same size) with the clean beam plus the residual.",
  ["inputs", "histories"], "all images, point spread functions, gains, thresholds, cycle limits, image sizes and precisions",
  "The CLEAN tests do not run (or do not pass) in this environment; nothing else exercises the loop.",
  ["clean/sdp_hogbom_clean.cpp"],
  [("minor cycle", "hogbom_clean peak search and subtraction"), ("restore", "clean beam convolution")])

p("P17", "Multi-scale CLEAN picks the best scale and conserves flux",
  "Each cycle subtracts the scale and position with the largest scale-biased residual, with strength set by the loop gain and the scale coupling, so the dirty image always equals the residual plus the scaled component model convolved with the point spread function. Cleaning stops when the selected scale's unbiased peak is at or below the threshold, or at the cycle limit; the residual returned is that of the first scale.",
  ["inputs", "histories"], "all images, point spread functions, scale lists, gains, thresholds, cycle limits and precisions",
  "The CLEAN tests do not run (or do not pass) in this environment.",
  ["clean/sdp_ms_clean_cornwell.cpp"],
  [("scale kernels, coupling matrix, minor cycle", "sdp_ms_clean_cornwell")])

p("P18", "Station beams are the weighted coherent sum over elements",
  "The beam at each direction equals the sum over elements of complex weight times geometric phase times that element's own response, divided by the number of elements when normalisation is requested, for scalar and full-polarisation data in both precisions. Output offsets address exactly the requested range, and listed element-pattern indices select the matching patterns.",
  ["inputs", "configurations"], "all element layouts, weights, directions, element-pattern tables and index maps, offsets, polarisation flags and precisions",
  "Tests check few elements with no index map or offsets.",
  ["station_beam/sdp_station.cpp", "station_beam/sdp_station.h"],
  [("direction sum", "sdp_station_beam_aperture_array")])

p("P19", "Element patterns follow their closed forms",
  "The dipole pattern and the spherical-wave pattern at each direction equal their defining formulas, including at and near the zenith and the horizon, and are periodic in azimuth. Points are evaluated independently of their order and of one another, and only the requested output range is written.",
  ["inputs"], "all directions, dipole lengths and frequencies, coefficient sets and orders, strides, offsets and precisions",
  "Tests compare a few directions with stored values.",
  ["station_beam/sdp_element_dipole.cpp", "station_beam/sdp_element_spherical_wave_harp.cpp", "math/sdp_legendre_polynomial.h"],
  [("dipole formula", "sdp_element_beam_dipole"), ("spherical wave sum", "sdp_element_beam_spherical_wave_harp")])

p("P20", "Direct gridding and degridding are exact adjoint Fourier sums",
  "Direct degridding of a subgrid image adds, to exactly the channels selected for each baseline, the exact Fourier sum of the tapered pixels at the visibility's coordinates relative to the subgrid offset; direct gridding is its adjoint. Channels outside the selected range are neither read nor changed, and both operations are linear and accumulate onto existing contents.",
  ["inputs"], "all images, subgrid offsets, coordinates, channel ranges (empty, partial, full), shears and precisions",
  "Tests use one image and mostly full channel ranges.",
  ["grid_data/sdp_gridder_direct.cpp", "grid_data/sdp_gridder_utils.cpp"],
  [("Fourier sums", "sdp_gridder_dft, sdp_gridder_idft"), ("taper", "image_to_flmn and pswf")])

p("P21", "W-tower gridding agrees with the direct transform and its adjoint",
  "For coordinates inside the supported region, w-tower degridding of a band-limited image agrees with the direct Fourier sum to the accuracy its kernel sizes promise, and gridding is the adjoint of degridding. Only selected channels inside the subgrid's range are processed, results accumulate onto existing contents, and visibilities that do not fit are left out rather than mis-gridded.",
  ["inputs", "configurations"], "all images inside the field of view, subgrid offsets, coordinates up to the edges of the valid region, channel ranges, even kernel sizes and oversamplings, shears and precisions",
  "Tests use a couple of image/uvw sets per function and one kernel configuration.",
  ["grid_data/sdp_gridder_wtower_uvw.cpp", "grid_data/sdp_gridder_utils.cpp"],
  [("tower of w-planes", "sdp_gridder_wtower_uvw_degrid / _grid"), ("image correction", "degrid_correct / grid_correct")])

p("P22", "Whole-grid gridding handles every visibility exactly once",
  "Gridding or degridding a whole data set through w-stacks and w-towers processes every visibility in the requested range exactly once, whatever the spread of coordinates and the number of threads, so the result agrees with the direct transform of the whole image to the promised accuracy. A data set that cannot be fully processed is reported as an error.",
  ["inputs", "schedules", "configurations"], "all coordinate distributions (one or many w-stacks, both signs, sub-grid and w-plane boundaries), channel counts, image, subgrid and tower sizes, and thread counts",
  "Tests grid one small data set; a visibility lost or doubled at a task boundary changes the sum only slightly.",
  ["grid_data/sdp_grid_wstack_wtower.cpp", "grid_data/sdp_gridder_clamp_channels.cpp", "grid_data/sdp_gridder_utils.cpp"],
  [("partition of (stack, tower, u, v) by channel clamping", "sdp_grid_wstack_wtower.cpp"), ("visibility count check", "vis_count_check")])

p("P23", "Channel selection by coordinate range is exact and partitions the data",
  "For every baseline and time, the channel range selected for a coordinate interval contains exactly the channels whose scaled coordinate lies in that half-open interval, within any range given beforehand. Adjacent intervals therefore select disjoint ranges that together cover every channel once.",
  ["inputs"], "all baselines (both signs and zero), frequencies, channel widths (either sign), interval bounds including values hitting a channel exactly",
  "Tests use one random set of coordinates; boundary hits have measure zero there.",
  ["grid_data/sdp_gridder_clamp_channels.cpp", "grid_data/sdp_gridder_clamp_channels.h"],
  [("closed-form channel bounds", "sdp_gridder_clamp_channels_inline")])

p("P24", "Grid and image helper operations are exact and mutually consistent",
  "Cutting a subgrid out of a wrapping grid and adding one back are adjoint, address each grid cell by its wrapped coordinate, and conserve the sum of values; image-plane corrections, taper and w-phase multiplications, sums, differences, bounds and counts equal their elementwise definitions. A correction applied with one sign is undone by the opposite sign.",
  ["inputs"], "all grid and subgrid sizes and offsets (including wrap-around and negative), w offsets, shears, element types and layouts",
  "Tests check single offsets for one or two helpers.",
  ["grid_data/sdp_gridder_utils.cpp", "grid_data/sdp_gridder_grid_correct.cpp"],
  [("wrapped addressing", "subgrid_add, subgrid_cut_out"), ("image corrections", "grid_correct_pswf, grid_correct_w_stack"), ("reductions", "rms_diff, sum_diff, uvw_bounds_all")])

p("P25", "Custom-kernel degridding is the kernel-weighted grid sum",
  "Each visibility degridded with user-supplied kernels equals the sum over the kernel footprint of grid values times the tabulated kernel values for its fractional position; conjugation of baselines is applied as requested. Visibilities whose footprint does not fit completely inside the grid are left out without touching memory outside it.",
  ["inputs"], "all coordinates (including w planes) on and around cell and grid boundaries of both signs, kernel sizes, oversamplings, grid shapes, polarisations, channels",
  "Tests use one set of coordinates inside a cubic grid.",
  ["grid_data/sdp_degrid_uvw_custom.cpp", "grid_data/sdp_degrid_uvw_custom.h"],
  [("footprint sum and range test", "degrid_uvw_custom")])

p("P26", "SwiFTly facet and subgrid streams reproduce the full Fourier transform",
  "For all valid sizes and all facet and subgrid offsets, streaming facets to subgrids reproduces the Fourier transform of the whole image on each subgrid to window accuracy, and streaming subgrids to facets reproduces the inverse. Each step is linear, accumulating steps add to existing contents, combined two-axis steps equal two one-axis steps, prepare and finish steps undo each other, and offsets act modulo the image size.",
  ["inputs", "configurations"], "all image/facet/subgrid size combinations accepted, all positive and negative offsets that are multiples of the step the sizes define, odd and even data sizes, array layouts",
  "Tests use a single size combination and offsets near zero.",
  ["fourier_transforms/sdp_swiftly.cpp", "fourier_transforms/sdp_swiftly.h"],
  [("modular offsets and window functions", "prepare/extract/add/finish steps")],
  [("window tables", "correction and window functions", "sdp_SwiFTly")])

p("P27", "Spheroidal window functions and gridding kernels are correct",
  "The generated spheroidal window is symmetric, positive and decreasing from the centre, is the leading eigenfunction of the finite Fourier transform for its bandwidth parameter, and gives the same values through every interface and element type. Oversampled kernels, correction tables and exponential-of-semicircle parameters derived from window functions equal their defining transforms.",
  ["inputs"], "all bandwidth parameters (about 0.05 to 50) and sizes (odd and even), support and oversampling values, requested accuracies",
  "Tests compare a single parameter choice with scipy.",
  ["fourier_transforms/sdp_pswf.cpp", "fourier_transforms/private_pswf.h", "grid_data/sdp_gridder_utils.cpp", "grid_data/sdp_gridder_uvw_es_fft_utils.cpp"],
  [("series evaluation", "sdp_pswf_generate / evaluate"), ("kernel transform", "sdp_gridder_make_kernel, make_pswf_kernel, make_w_pattern"), ("kernel parameters", "sdp_calculate_params_from_epsilon")])

p("P28", "The Python interface is faithful to the library",
  "Every Python-level call has exactly the effect of the corresponding library call on the same arrays: non-zero error codes always become exceptions, read-only arrays are refused as outputs and left unchanged, any supported array layout is passed correctly, and objects are created and destroyed exactly once with their Python owners. This holds when calls are made from several Python threads at once, including each function's first use.",
  ["inputs", "histories"], "all wrapped functions, array layouts (C, Fortran, sliced, reversed, read-only), element types, error conditions, object lifetimes, garbage-collection orders and calling threads",
  "Tests call each wrapper with well-formed contiguous arrays once.",
  ["src/ska_sdp_func/utility/mem.py", "src/ska_sdp_func/utility/lib.py", "src/ska_sdp_func/utility/error_checking.py", "src/ska_sdp_func/utility/struct_wrapper.py", "src/ska_sdp_func/fourier_transforms/swiftly.py", "src/ska_sdp_func/utility/sky_coord.py", "src/ska_sdp_func/visibility/dft.py", "src/ska_sdp_func/visibility/weighting.py"],
  [("error decorator", "error_checking.py"), ("array description", "Mem.__init__"), ("finaliser", "StructWrapper")])

p("P29", "Timers, coordinates and logging report what happened",
  "Accumulated timer values are non-negative, grow only while running, and a parent's time covers its children; timer trees keep every named node exactly once. Coordinate objects return the values they were given, copies are independent, and log output contains exactly the messages at or above the selected level.",
  ["histories", "configurations"], "all sequences of timer start/stop/pause/resume/report operations and tree shapes; all coordinate values; all log levels and message sizes",
  "Tests run one fixed sequence each.",
  ["utility/sdp_timer.cpp", "utility/sdp_sky_coord.c", "utility/sdp_logging.c"],
  [("timer tree", "sdp_timer_node_*"), ("log filter", "sdp_log_message")],
  [("timer state", "paused flag, start, elapsed", "sdp_timer.cpp")])

p("P30", "Parameter searches return the best setting that meets the target",
  "Searching for the tower height returns the largest height for which the measured worst-case degridding error stays within the requested accuracy, and the derived plane spacing keeps the field of view inside the kernel's valid region. The error measured for a configuration equals the difference between tower and direct degridding for the worst-case image.",
  ["inputs", "configurations"], "all image and subgrid sizes, fields of view, shears, kernel sizes and accuracy targets (where errors do not only grow with height, a height at which the target is crossed; a target met everywhere or nowhere is an error or the limit)",
  "Tests run the search for one or two configurations and compare to a stored value.",
  ["grid_data/sdp_gridder_wtower_height.cpp", "grid_data/sdp_gridder_utils.cpp"],
  [("binary search over tower height", "sdp_gridder_wtower_height"), ("plane spacing", "sdp_gridder_determine_w_step")])

p("P31", "Example and vector functions compute exactly their definition",
  "Elementwise vector operations give the exact sum of their inputs for every size, type and layout accepted, and the example plan computes its documented function of its parameters for every output size without touching its own work area out of range.",
  ["inputs"], "all sizes, types, strides and plan parameters",
  "Tests use one size.",
  ["examples/sdp_vector_add.cpp", "examples/sdp_function_example_a.cpp"],
  [("loops", "sdp_vector_add, sdp_function_example_a_exec")])

p("P32", "A failed memory request is reported as an error and does no harm",
  "If storage for an array that a call needs cannot be allocated, whichever of its requests it is that fails, the call reports an error (or returns no object, where that is how it reports errors) instead of using the missing storage. It then leaves its input arrays unchanged and nothing allocated beyond the handle it returns, if any, and the same call works again when memory is available.",
  ["inputs", "fault_sequences"], "every public function; every request for the storage of an array (memory handles) made during a valid call, one failing at a time",
  "Tests never run out of memory; the code for it is reached only when an allocation fails part way through a call.",
  ["utility/sdp_mem.cpp", "numeric_functions/sdp_fft_convolution.cpp", "clean/sdp_hogbom_clean.cpp", "clean/sdp_ms_clean_cornwell.cpp", "fourier_transforms/sdp_pswf.cpp", "fourier_transforms/sdp_swiftly.cpp", "grid_data/sdp_gridder_uvw_es_fft.cpp", "grid_data/sdp_gridder_wtower_uvw.cpp", "grid_data/sdp_grid_wstack_wtower.cpp"],
  [("storage request", "sdp_mem_alloc"), ("status checks after creating work arrays", "processing functions")])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
