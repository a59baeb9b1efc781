#!/usr/bin/env python3
"""Write known-findings.json: known findings, and the repairs made in /repo."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = [
 ("K1", "P12", r"uvw\|rotate_uvw_two_step",
  "sdp_phase_rotate_uvw applies -dRA about v then dDec about u, which is not the rotation between the two phase centres (and is not undone by swapping them) when both dRA and the original declination are non-zero; the existing C++ test pins this formula"),
 ("K2", "P16", r"hogbom\|restore_even_beam_shift",
  "sdp_hogbom_clean with a clean beam of even size: the beam is centred on pixel size/2 but the same-size convolution is centred on (size-1)/2, so restored components lie one pixel away (+1, +1) from the model components; the existing Python test's reference does the same"),
 ("K3", "P17", r"msclean\|scale_kernel_shift",
  "sdp_ms_clean_cornwell: every convolution with a scale kernel (even size, centred on size/2) moves the image by one pixel, so the residual is moved by one pixel and the scaled PSF by two, and components are subtracted two pixels away from the peak they were found at; the existing Python test's reference does the same"),
 ("K4", "P21", r"(degrid|grid_upper)\|w_kernel_at_upper_plane",
  "sdp_gridder_wtower_uvw_degrid and _grid: a visibility whose w lies within 1 / (2 w_oversampling) of a plane spacing below a w-plane uses the w-kernel row for the plane below it (its index is taken modulo w_oversampling although the plane is already fixed), so its value is that of a point one whole plane spacing away; the existing test test_gridder_wstack compares with a Python reference that does the same"),
 ("K5", "P31", r"(vector_add_invalid|example_plan)\|strided",
  "sdp_vector_add and sdp_function_example_a_exec accept strided arrays and use them as if they were contiguous (sources in an examples folder, which commits may not change)"),
 ("K6", "P31", r"example_plan_larger\|heap-buffer-overflow:sdp_function_example_a_exec",
  "sdp_function_example_a_exec with an output of more than a * b elements writes beyond the work area of the plan (sources in an examples folder, which commits may not change)"),
 ("K7", "P31", r"example_plan_negative\|(UB:store to null pointer of type 'float':sdp_function_example_a_exec|accepted)",
  "sdp_function_example_a_create_plan accepts negative sizes; the plan has no work area and sdp_function_example_a_exec writes to address zero (sources in an examples folder, which commits may not change)"),
]
# subject prefix -> property, what failed
FIXED = [
 ("support 1D arrays in sdp_fft_phase", "P09", "sdp_fft_phase and sdp_fft_norm read a second dimension that a 1D array does not have"),
 ("reject slices that extend", "P08", "slices could reach beyond their source array"),
 ("slices and aliases of read-only", "P08", "a slice or alias of read-only memory was writable"),
 ("clear and copy only the elements", "P08", "clearing or copying a strided view wrote between and beyond its elements"),
 ("check arguments of sdp_mem_random_fill", "P02", "sdp_mem_random_fill and sdp_mem_scale_real wrote to read-only, strided or unsupported memory"),
 ("keep an existing error in sdp_mem_check_same_shape", "P03", "sdp_mem_check_same_shape replaced an existing error"),
 ("bounds and argument checks in visibility weighting", "P13", "weights outside the grid were read and written; shapes and types were not checked"),
 ("no infinite or undefined weights", "P13", "cells without weight gave infinite or undefined weights"),
 ("check number of dimensions of source directions", "P02", "sdp_dft_point_v01 accepted source directions with the wrong number of dimensions"),
 ("phase rotation requires contiguous", "P04", "phase rotation ignored the strides of input (u,v,w) and output visibilities"),
 ("check shapes and parameters of the dynamic flagger", "P02", "the dynamic flagger used unchecked shapes and parameters as array bounds"),
 ("median of a single sample", "P15", "median of a single sample read beyond the array"),
 ("flagging window did not include", "P15", "the flagging window skipped the first channel"),
 ("flagger used the wrong element", "P15", "the median of an odd number of samples used the wrong element"),
 ("tile ranges, bounds and argument checks", "P14", "tile ranges used the wrong variable and unclipped tiles: wrong counts and writes outside the arrays"),
 ("odd-sized and unpadded input", "P10", "odd-sized inputs were written beyond the output, unpadded inputs read before the array"),
 ("padding of odd-sized input", "P10", "odd-sized inputs were padded with the wrong row length"),
 ("check data types, shapes, layouts and locations in CLEAN", "P02", "CLEAN functions used arrays of unchecked type, shape, layout and location"),
 ("check array types, sizes, layouts and offsets in station", "P02", "station beam and element beam functions used arrays of unchecked type, size, layout and offset"),
 ("factorials overflow in single precision", "P19", "spherical wave patterns of order above about 17 were infinite or undefined in single precision"),
 ("values of PSWFs of odd size", "P27", "values of odd-sized PSWFs were taken at the wrong points"),
 ("taper of odd-sized sub-grids", "P24", "the taper of odd-sized sub-grids was wrong, facets reaching beyond the image were read out of bounds"),
 ("channel ranges, bounds, shapes and types in gridder utility", "P24", "gridder helper functions used unchecked ranges, shapes and types"),
 ("direct degridding of an image without sources", "P20", "direct degridding of an image without sources failed or left the output as it was"),
 ("accumulation of scaled complex values into real", "P24", "accumulating a scaled complex array into a real one used the wrong elements"),
 ("footprint of kernels, empty selections", "P21", "kernels reached beyond the sub-grid, empty selections were processed, shapes were not checked"),
 ("usable area of sub-grids, range and type checks, no exit", "P22", "kernels reached beyond sub-grids in w-stacking, and errors ended the process"),
 ("channels exactly on interval bounds", "P23", "channels exactly on or far from the bounds of an interval were wrongly included or left out"),
 ("grid centre, negative w, and argument checks in custom", "P25", "degridding with custom kernels used the wrong centre of odd grids and read outside its kernels and grid for negative w and at the edges"),
 ("facet offsets, odd sizes, signs, strides", "P26", "SwiFTly functions gave wrong results for negative or large facet offsets, odd sizes and strided output, accepted mismatched shapes and leaked their plan"),
 ("timers follow the monotonic clock", "P29", "timers followed changes of the time of day, timer slots were used out of bounds, quartiles were wrong"),
 ("consistent time stamps and no data race", "P29", "time stamps of log messages could be a second off; data race in the log level and time conversion"),
 ("searches for the w-tower height always end", "P30", "the search for the w-tower height could loop forever; worst-case images without or beyond a field of view were wrong"),
 ("choice of kernel for images needing grids above", "P27", "the kernel of large images was read from outside the kernel table"),
 ("plans and shifted transforms with invalid arguments", "P02", "sdp_fft_create accepted invalid dimensions and returned unusable plans, sdp_fft_exec_shift changed data before failing; FFT plans leaked"),
 ("arrays in different memory spaces in accumulations", "P02", "arrays in different memory spaces were read as if in one"),
 ("gridder plans with invalid sizes, no plan together", "P02", "gridder plans were made with invalid sizes or in spite of an error"),
 ("w-stack correction for images without a size", "P02", "the w-stack correction accepted image sizes below one"),
 ("types and sub-grid images of the w-towers gridder", "P02", "the w-towers gridder accepted invalid types and images if no visibility was selected"),
 ("integer overflows when sizes, offsets or orders", "P01", "sizes, offsets, orders and padding factors at the end of their range overflowed integers"),
 ("coordinates too large for the grid or the w-planes", "P01", "coordinates that are not finite or very large became undefined indices, and buffers were overrun"),
 ("sub-grid utilities looped for ever", "P01", "large offsets looped for ever, non-square sub-grids were shifted out of bounds, sums of 32-bit differences overflowed"),
 ("memory wrappers with negative or overflowing sizes", "P01", "wrappers of negative or overflowing sizes were made, and their sizes overflowed"),
 ("data race on the status of w-stacked", "P06", "threads of w-stacked (de)gridding wrote the caller's status without ordering when creating kernels or processing sub-grids failed"),
 ("library functions used for the first time by several", "P28", "functions first used by several Python threads at once were left with wrong argument types"),
 ("copies of a Python SkyCoord", "P28", "copies of a Python SkyCoord lost the epoch"),
 ("Swiftly methods raised TypeError", "P28", "Swiftly methods could not be called with the keyword names they document"),
 ("get_uv_range ignored", "P28", "get_uv_range returned the range of u only"),
 ("windows with a bandwidth of 0", "P01", "prolate spheroidal windows with a bandwidth of 0 (gridders with support 0) were computed from uninitialised memory"),
 ("arrays whose elements are not a whole number", "P04", "views of arrays whose strides are not multiples of the element size (members of arrays of structures) read and wrote the wrong elements and other members"),
 ("flagger looked beyond its channels", "P01", "windows near the largest integer overflowed in the flagger"),
 ("sdp_mem_convert_precision writes to a null pointer", "P07", "sdp_mem_convert_precision wrote to a null pointer if the source could not be copied or the output not be allocated"),
 ("report failed allocations in sdp_fft_convolution", "P32", "sdp_fft_convolution wrote to a null pointer if a work array could not be allocated"),
 ("report failed allocations in sdp_pswf_create", "P32", "sdp_pswf_create wrote to a null pointer if its coefficients could not be allocated"),
 ("release handles after failed allocations in SwiFTly", "P32", "SwiFTly functions did not release the handle of an array that could not be allocated"),
 ("report failed allocations in sdp_gridder_uvw_es_fft_create_plan", "P32", "sdp_gridder_uvw_es_fft_create_plan wrote to a null pointer if a work array could not be allocated"),
 ("report failed allocations in sdp_hogbom_clean", "P32", "sdp_hogbom_clean wrote to a null pointer if a work array could not be allocated"),
 ("report failed allocations in sdp_ms_clean_cornwell", "P32", "sdp_ms_clean_cornwell wrote to a null pointer if a work array could not be allocated"),
 ("index overflow in station beams", "P18", "station beams used 32-bit indices into tables of more than 2^31 elements and with large offsets"),
 ("index overflow in element beams", "P19", "element beams used 32-bit indices with large offsets and strides"),
 ("index overflow in flagger", "P15", "the flagger used 32-bit indices into more than 2^31 samples"),
 ("index overflow in tiled functions", "P14", "tiled functions used 32-bit indices into more than 2^31 coordinates"),
 ("index overflow in point-source prediction", "P11", "point-source prediction used 32-bit indices into more than 2^32 fluxes"),
 ("overflow in sdp_gridder_rms_diff", "P24", "sdp_gridder_rms_diff of images of more than 2^31 pixels divided by an overflowed number of pixels"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
log = [l.split(" ", 1) for l in log]
out = [dict(id=i, property=p, status="known", key=k, what=w) for i, p, k, w in KNOWN]
used = set()
for pre, pid, what in FIXED:
    h = [c for c, s in log if s.startswith("fix: " + pre)]
    assert len(h) == 1, (pre, h)
    used.add(h[0])
    out.append(dict(property=pid, status="fixed", commit=h[0], what="fixed: property=%s %s %s" % (pid, h[0], what)))
for c, s in log:
    if s.startswith("fix:") and c not in used:
        print("unlisted fix:", c, s)
with open(os.path.join(ROOT, "known-findings.json"), "w") as f:
    f.write('{"findings": [\n' + ",\n".join(" " + json.dumps(o) for o in out) + "\n]}\n")
