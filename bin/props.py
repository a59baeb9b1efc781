"""Which drivers decide which property."""
def A(driver, **kw):
    d = dict(name="asan", cfg="asan", driver=driver); d.update(kw); return d
PROPS = {
 "P01": dict(runs=[A("U01_safety", shards=2), A("U08_defined", name="memcheck", cfg="plain", under="memcheck", shards=1, threads=2)], technique="runtime monitoring: ASan+UBSan with exact-size arrays, byte snapshots around every array, under generated hostile values, sizes, types, layouts and scalars", rule="every registered function with extreme and undefined data and scalars, empty and one-element arrays, one to three arrays that do not fit the others, strided storage; distinct = distinct call data"),
 "P02": dict(runs=[A("U02_faults", scale=3, shards=2)], technique="runtime monitoring: fault injection into the arguments of generated valid calls, byte snapshots of every array, under ASan+UBSan", rule="every registered function; for each valid call every fault of every argument in turn; distinct = distinct valid call"),
 "P03": dict(runs=[A("U03_preset", scale=3)], technique="runtime monitoring: injected error codes and failing calls in chains, byte snapshots of every array, under ASan+UBSan", rule="every registered function with every error code, valid and invalid arguments, and chains of calls of random functions with one failure; distinct = distinct call data or chain"),
 "P04": dict(runs=[A("U04_storage", shards=2)], technique="runtime monitoring: byte snapshots of inputs and of the storage around outputs, results compared between layouts, under ASan+UBSan", rule="every registered function with random layouts of every array against contiguous arrays, plus extreme data; distinct = distinct call data and layouts"),
 "P05": dict(runs=[A("U05_threads", cfg="shim", name="shim")], technique="runtime monitoring: results compared between thread counts and perturbed schedules of the OpenMP runtime stand-in", rule="every multi-threaded function with 1 to 16 threads and random perturbed schedules, every other function repeated; distinct = distinct call data"),
 "P06": dict(runs=[A("U06_races", cfg="tsan", name="tsan", shards=1)], technique="runtime monitoring: ThreadSanitizer over all functions with a perturbed OpenMP runtime it can see through, and over concurrent calls, whose results are compared with those of the calls made alone", rule="every registered function with 2 to 8 worker threads; 2 to 4 threads calling random functions, sharing input arrays or not; timers, locks and logging; distinct = distinct call data and schedules"),
 "P07": dict(runs=[A("U07_owns", scale=2, leaks=True, shards=2)], technique="runtime monitoring: ASan and LeakSanitizer, memory in use compared between repeated calls, reference-count model over random object histories", rule="every registered function with valid, failing, extreme, mismatched arguments and with an error already set, each repeated; random histories of all kinds of objects; distinct = distinct call data or history"),
 "P08": dict(runs=[A("P08_mem", scale=30)], rule="distinct = distinct (types, shapes, layouts, operation history) signature"),
 "P09": dict(runs=[A("P09_fft", scale=5)], rule="random transform shapes; distinct = distinct (shape, type, direction, batch, layout) signature"),
 "P11": dict(runs=[A("P11_dft", scale=15), A("P11_vast", name="vast", cfg="plain", shards=1, threads=2, tiers=("thorough",))], rule="random array sizes, sources, baselines, frequencies; distinct = distinct generated data set with at least one visibility"),
 "P12": dict(runs=[A("P12_rotate", scale=15)], rule="random phase centre pairs (equal, opposite, poles, equator) and data; distinct = distinct pair and sizes"),
 "P13": dict(runs=[A("P13_weighting", scale=10)], rule="random and exactly-on-cell-edge coordinates; distinct = distinct data set with at least one visibility on the grid"),
 "P15": dict(runs=[A("P15_flagger", scale=8), A("P15_vast", name="vast", cfg="plain", shards=1, threads=8)], rule="random amplitudes with injected interference; distinct = distinct parameters and data in which at least one sample is flagged"),
 "P14": dict(runs=[A("P14_tiled"), A("P14_vast", name="vast", cfg="plain", shards=3, threads=1)], rule="random coordinates, grid, tile sizes and support; distinct = distinct data set with at least one visibility counted"),
 "P10": dict(runs=[A("P10_convolve", scale=15)], rule="all parities and sizes at and around the padding boundaries; distinct = distinct generated data"),
 "P16": dict(runs=[A("P16_hogbom", scale=20)], rule="random and structured dirty images, psfs, gains and stopping rules; distinct = distinct data with at least one cycle"),
 "P17": dict(runs=[A("P17_msclean", scale=4)], rule="random scale lists, images, gains and stopping rules; distinct = distinct data with at least one cycle"),
 "P18": dict(runs=[A("P18_station", scale=20)], rule="random element layouts, weights, directions, pattern tables, index maps, offsets; distinct = distinct data set with at least one direction"),
 "P19": dict(runs=[A("P19_element", scale=25)], rule="random directions including zenith, horizon and quadrant boundaries, coefficients and orders; distinct = distinct data set with at least one direction"),
 "P20": dict(runs=[A("P20_direct", scale=15)], rule="random images, coordinates, offsets, channel ranges, shears, precisions and layouts; distinct = distinct data set with at least one visibility selected"),
 "P24": dict(runs=[A("P24_helpers", scale=12), A("P24_vast", name="vast", cfg="plain", shards=1, threads=8)], rule="random sizes, offsets, factors, exponents, shears, element types and layouts; distinct = distinct generated data with at least one element"),
 "P21": dict(runs=[A("P21_wtower", scale=2.5)], rule="random sub-grids, kernels, coordinates inside, across and outside the sub-grid and on plane boundaries, channel and row ranges; distinct = distinct data set with at least one visibility processed"),
 "P22": dict(runs=[A("P22_wstack", threads=4)], rule="random images, data sets, coordinates within and beyond the grid, sub-grid fractions, tower heights, threads; distinct = distinct data set with at least one visibility"),
 "P23": dict(runs=[A("P23_clamp", scale=20)], rule="random and exactly representable coordinates, frequencies, channel widths of both signs and zero, bounds on, near and far from channels, row and channel ranges; distinct = distinct data set with at least one channel selected"),
 "P25": dict(runs=[A("P25_custom", scale=20)], rule="random grids (square and not), kernels, oversamplings, coordinates on, between and across cells and edges and far outside, w of both signs; distinct = distinct data set with at least one visibility inside the grid"),
 "P26": dict(runs=[A("P26_swiftly", scale=6)], rule="random valid size combinations (odd and even contributions), offsets of both signs beyond the image, facet and subgrid sizes, rows, layouts; distinct = distinct sizes, offsets and data"),
 "P29": dict(runs=[A("P29_report", scale=10, leaks=True)], rule="random operation histories of timers and timer trees under a virtual clock, coordinates, log levels and messages; distinct = distinct history or data"),
 "P30": dict(runs=[A("P30_height", scale=4)], rule="random image and sub-grid sizes, fields of view, shears, kernels, fractions, samples and targets; distinct = distinct configuration for which an error was measured"),
 "P27": dict(runs=[A("P27_windows", scale=5, threads=2)], rule="random bandwidths, modes, sizes, types, layouts, interfaces, windows, oversamplings, accuracies; distinct = distinct parameters with at least one value compared"),
 "P28": dict(runs=[A("P28_python.py", threads=1, shards=2)], technique="runtime monitoring: every call of the Python interface compared with the same call made through an independent binding, array contents byte for byte, under ASan+UBSan; object histories, memory in use, threads with injected delays", rule="random calls of every Python function with random layouts, types and defects; object histories; first use from several threads; distinct = distinct function, defect, layouts and types"),
 "P32": dict(runs=[A("U09_alloc", scale=2, leaks=True)], technique="runtime monitoring: fault injection into the library's requests for array storage during generated valid calls, under ASan+UBSan and LeakSanitizer, byte snapshots of inputs, memory in use compared between repeated failures", rule="every registered function, each of its requests for array storage failing in turn (six sampled if there are more); distinct = distinct call data in which a request was made"),
 "P31": dict(runs=[A("P31_examples", scale=10, leaks=True)], rule="random sizes, types, shapes, aliasing, special values, parameters; distinct = distinct data or parameters"),
}
