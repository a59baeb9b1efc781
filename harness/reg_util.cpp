// How to call the functions that work on memory, and those that are only
// available on a GPU.
#include "reg.h"
#include "ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.h"
#include "ska-sdp-func/utility/sdp_mem.h"
#include "ska-sdp-func/visibility/sdp_opt_weighting.h"
using namespace reg;

static const sdp_MemType D = SDP_MEM_DOUBLE, F = SDP_MEM_FLOAT, CD = SDP_MEM_COMPLEX_DOUBLE, CF = SDP_MEM_COMPLEX_FLOAT, I = SDP_MEM_INT, CH = SDP_MEM_CHAR;

static std::vector<int64_t> shape(Call& k, int lo, int hi, int64_t most = 7)
{
    std::vector<int64_t> s(k.r.i(lo, hi));
    for (auto& v : s) v = k.n(1, most);
    return s;
}
static int64_t prod(const std::vector<int64_t>& s) { int64_t p = 1; for (auto v : s) p *= v; return p; }

REG(sdp_mem_clear_contents, E_EXACT)
{
    k.arg("mem", INOUT, k.r.pick({D, F, CD, CF, I, CH}), shape(k, 1, 4)).allow(F_TYPE | F_NDIM | F_SIZE);
    k.ready();
    k.run = [&](sdp_Error* st) { sdp_mem_clear_contents(k.m(0), st); };
}
REG(sdp_mem_clear_portion, E_EXACT)
{
    const auto s = shape(k, 1, 3);
    const int64_t n = prod(s), a = n > 0 ? k.r.i(0, n - 1) : 0, c = n > 0 ? k.r.i(1, n - a) : 0;
    k.arg("mem", INOUT, k.r.pick({D, F, CD, CF, I, CH}), s).allow(F_TYPE | F_NDIM | F_SIZE);
    int64_t &start = k.I("start_index", a, {-1, n, INT64_MAX, INT64_MIN}), &num = k.I("num_elements", c, {-1, n + 1, n - a + 1, INT64_MAX, INT64_MIN});
    k.ready();
    k.run = [&](sdp_Error* st) { sdp_mem_clear_portion(k.m(0), start, num, st); };
}
static void copy(Call& k, bool async)
{
    const auto s = shape(k, 1, 3), d = k.r.b() ? s : shape(k, 1, 3);
    const int64_t ns = prod(s), nd = prod(d);
    const int64_t a = ns > 0 ? k.r.i(0, ns - 1) : 0, b = nd > 0 ? k.r.i(0, nd - 1) : 0, c = ns > 0 && nd > 0 ? k.r.i(1, std::min(ns - a, nd - b)) : 0;
    const sdp_MemType t = k.r.pick({D, F, CD, CF, I, CH});
    k.arg("dst", INOUT, t, d).allow(F_NDIM | F_SIZE);
    k.arg("src", IN, t, s).allow(F_NDIM | F_SIZE);
    int64_t &od = k.I("offset_dst", b, {-1, nd, INT64_MAX, INT64_MIN}), &os = k.I("offset_src", a, {-1, ns, INT64_MAX, INT64_MIN});
    int64_t &num = k.I("num_elements", c, {-1, std::min(ns - a, nd - b) + 1, INT64_MAX, INT64_MIN});
    k.ready();
    if (async) k.run = [&](sdp_Error* st) { sdp_mem_copy_contents_async(k.m(0), k.m(1), od, os, num, 0, st); };
    else k.run = [&](sdp_Error* st) { sdp_mem_copy_contents(k.m(0), k.m(1), od, os, num, st); };
}
REG(sdp_mem_copy_contents, E_EXACT) { copy(k, false); }
REG(sdp_mem_copy_contents_async, E_EXACT) { copy(k, true); }
REG(sdp_mem_convert_precision, E_EXACT | E_CREATE)
{
    const int p = (int) k.r.i(0, 7);
    const sdp_MemType from[] = {D, F, CD, CF, D, F, CD, CF}, to[] = {F, D, CF, CD, D, F, CD, CF};
    k.arg("src", IN, from[p], shape(k, 1, 3)).cont().allow(F_TYPE | F_NDIM | F_SIZE);
    const sdp_MemType t = to[p];
    k.ready();
    k.run = [&k, t](sdp_Error* st)
    {
        sdp_Mem* m = sdp_mem_convert_precision(k.m(0), t, st);
        k.no_object = !m;
        if (m && !*st)
        {
            const int64_t n = sdp_mem_num_elements(m) * ((t & SDP_MEM_COMPLEX) ? 2 : 1);
            for (int64_t i = 0; i < n; ++i) k.out.push_back((t & SDP_MEM_DOUBLE) ? ((double*) sdp_mem_data(m))[i] : ((float*) sdp_mem_data(m))[i]);
        }
        sdp_mem_free(m);
    };
}
REG(sdp_mem_create_copy, E_EXACT)
{
    const sdp_MemType t = k.r.pick({D, F, CD, CF, I, CH});
    k.arg("src", IN, t, shape(k, 1, 4)).allow(F_TYPE | F_NDIM | F_SIZE);
    k.ready();
    k.run = [&k](sdp_Error* st)
    {
        sdp_Mem* m = sdp_mem_create_copy(k.m(0), SDP_MEM_CPU, st);
        if (m && !*st && sdp_mem_type(m) == k.A(0).type)
        {
            const size_t n = (size_t) sdp_mem_num_elements(m) * sdp_mem_type_size(sdp_mem_type(m));
            for (size_t i = 0; i < n; ++i) k.out.push_back(((unsigned char*) sdp_mem_data(m))[i]);
        }
        sdp_mem_free(m);
    };
}
REG(sdp_mem_random_fill, E_RANDOM)
{
    k.arg("mem", INOUT, k.r.pick({D, F, CD, CF}), shape(k, 1, 4)).cont().also({D, F, CD, CF}).allow(F_NDIM | F_SIZE);
    k.ready();
    k.run = [&](sdp_Error* st) { sdp_mem_random_fill(k.m(0), st); };
}
REG(sdp_mem_scale_real, E_THREADED | E_EXACT)
{
    k.arg("mem", INOUT, k.r.pick({D, F, CD, CF}), shape(k, 1, 4)).cont().also({D, F, CD, CF}).allow(F_NDIM | F_SIZE);
    double& v = k.D("value", k.r.d(-3, 3));
    k.ready();
    k.run = [&](sdp_Error* st) { sdp_mem_scale_real(k.m(0), v, st); };
}
REG(sdp_mem_set_value, E_THREADED | E_EXACT)
{
    k.arg("mem", INOUT, k.r.pick({D, F, CD, CF, I}), shape(k, 1, 3)).also({D, F, CD, CF, I}).also_nd({1, 2, 3}).allow(F_SIZE);
    int64_t& v = k.I("value", k.r.i(-9, 9));
    k.ready();
    k.run = [&](sdp_Error* st) { sdp_mem_set_value(k.m(0), (int) v, st); };
}

// Not available without a GPU: an error whatever the arguments, and no trace.
REG(sdp_gridder_uvw_es_fft_create_plan, E_CREATE | E_FAILS)
{
    const bool dbl = k.r.b();
    const int64_t nr = k.n(1, 9), nc = k.n(1, 4), n = 2 * k.n(8, 60);
    k.arg("uvw", IN, dbl ? D : F, {nr, 3}).cont().range(-100, 100);
    k.arg("freq_hz", IN, dbl ? D : F, {nc}).cont().range(1e8, 2e8);
    k.arg("vis", IN, dbl ? CD : CF, {nr, nc}).cont();
    k.arg("weight", IN, dbl ? D : F, {nr, nc}).cont();
    k.arg("dirty_image", OUT, dbl ? D : F, {n, n}).cont();
    double &px = k.D("pixel_size_x_rad", 1e-4, {2e-4}), &eps = k.D("epsilon", std::pow(10., k.r.d(dbl ? -12 : -5, -2))), &lo = k.D("min_abs_w", k.r.d(0, 10)), &hi = k.D("max_abs_w", k.r.d(10, 100));
    int64_t& ws = k.I("do_w_stacking", k.r.i(0, 1));
    const double* p0 = &px; const double py = px;
    k.ready();
    k.run = [&, p0, py](sdp_Error* st)
    {
        sdp_GridderUvwEsFft* p = sdp_gridder_uvw_es_fft_create_plan(k.m(0), k.m(1), k.m(2), k.m(3), k.m(4), *p0, py, eps, lo, hi, (int) ws, st);
        k.no_object = !p;
        sdp_gridder_uvw_es_fft_free_plan(p);
    };
}
static void opt_weighting(Call& k, bool indexed)
{
    const int64_t nt = k.n(1, 3), nb = k.n(1, 5), nc = k.n(1, 3), np = k.r.pick<int64_t>({1, 4}), nv = nt * nb * nc, g = k.n(32, 200), ntile = ((g + 31) / 32) * ((g + 15) / 16);
    k.arg("uvw", IN, D, {nt, nb, 3}).cont().range(-100, 100);
    if (!indexed) k.arg("freqs", IN, D, {nc}).cont().range(1e8, 2e8);
    k.arg("vis", IN, CD, {nt, nb, nc, np}).cont();
    k.arg("weights", IN, D, {nt, nb, nc, np}).cont();
    k.arg("sorted_uu", INOUT, D, {nv}).cont();
    k.arg("sorted_vv", INOUT, D, {nv}).cont();
    if (!indexed) k.arg("sorted_weight", INOUT, D, {nv}).cont();
    k.arg("sorted_tile", INOUT, I, {nv}).cont();
    if (indexed) k.arg("sorted_vis_index", INOUT, I, {nv}).cont();
    k.arg("tile_offsets", INOUT, I, {ntile + 1}).cont();
    k.arg("num_points_in_tiles", INOUT, I, {ntile}).cont();
    k.arg("output_weights", INOUT, D, {nt, nb, nc, np}).cont();
    double& rob = k.D("robust", k.r.d(-2, 2)); int64_t &gs = k.I("grid_size", g), &sup = k.I("support", 1);
    const int num = (int) nv;
    k.ready();
    if (!indexed) k.run = [&](sdp_Error* st) { sdp_optimized_weighting(k.m(0), k.m(1), k.m(2), k.m(3), rob, (int) gs, sup, k.m(4), k.m(5), k.m(6), k.m(7), k.m(8), k.m(9), k.m(10), st); };
    else k.run = [&, num](sdp_Error* st) { sdp_optimised_indexed_weighting(k.m(0), k.m(1), k.m(2), rob, (int) gs, 1e-3, sup, &num, k.m(5), k.m(3), k.m(4), k.m(6), k.m(7), k.m(8), k.m(9), st); };
}
REG(sdp_optimized_weighting, E_FAILS) { opt_weighting(k, false); }
REG(sdp_optimised_indexed_weighting, E_FAILS) { opt_weighting(k, true); }
