// How to call the functions that process visibilities.
#include "reg.h"
#include "ska-sdp-func/utility/sdp_sky_coord.h"
#include "ska-sdp-func/visibility/sdp_dft.h"
#include "ska-sdp-func/visibility/sdp_flagger.h"
#include "ska-sdp-func/visibility/sdp_opt_weighting.h"
#include "ska-sdp-func/visibility/sdp_phase_rotate.h"
#include "ska-sdp-func/visibility/sdp_tiled_functions.h"
#include "ska-sdp-func/visibility/sdp_weighting.h"
using namespace reg;

namespace reg { std::vector<Entry>& entries() { static std::vector<Entry> e; return e; } }

static const sdp_MemType D = SDP_MEM_DOUBLE, F = SDP_MEM_FLOAT, CD = SDP_MEM_COMPLEX_DOUBLE, CF = SDP_MEM_COMPLEX_FLOAT, I = SDP_MEM_INT;
static const double C0 = 299792458.0;

static void dft(Call& k, bool v01)
{
    const int64_t ns = k.n(1, 5), np = k.r.pick<int64_t>({1, 4}), nt = k.n(1, 4), nb = k.n(1, 6), nc = k.n(1, 5);
    const bool dbl = k.r.b();
    k.arg("source_directions", IN, D, {ns, 3}).cont().range(-0.3, 0.3);
    k.arg("source_fluxes", IN, CD, {ns, nc, np}).cont();
    if (v01) k.arg("uvw", IN, D, {nt, nb, 3}).cont().range(-100, 100);
    else k.arg("uvw_lambda", IN, D, {nt, nb, nc, 3}).cont().range(-100, 100);
    k.arg("vis", OUT, dbl ? CD : CF, {nt, nb, nc, np}).cont().also({CD, CF});
    k.tol = dbl ? 1e-10 : 1e-5;
    double& f0 = k.D("channel_start_hz", 1e8); double& df = k.D("channel_step_hz", 1e6);
    k.ready();
    if (v01) k.run = [&](sdp_Error* st) { sdp_dft_point_v01(k.m(0), k.m(1), k.m(2), f0, df, k.m(3), st); };
    else k.run = [&](sdp_Error* st) { sdp_dft_point_v00(k.m(0), k.m(1), k.m(2), k.m(3), st); };
}
REG(sdp_dft_point_v00, E_THREADED | E_EXACT) { dft(k, false); }
REG(sdp_dft_point_v01, E_THREADED | E_EXACT) { dft(k, true); }

static sdp_SkyCoord* coord(Call& k)
{
    double ra = k.r.d(0, 6.28), dec = k.r.d(-1.5, 1.5);
    if (k.hostile && k.r.b(0.2)) ra = k.r.pick({(double) NAN, 1e300, (double) INFINITY, -1e20});
    return k.object([&] { return sdp_sky_coord_create("icrs", ra, dec, 0); }, sdp_sky_coord_free);
}
REG(sdp_phase_rotate_uvw, E_EXACT)
{
    const bool dbl = k.r.b();
    const int64_t nt = k.n(1, 5), nb = k.n(1, 9);
    k.arg("uvw_in", IN, dbl ? D : F, {nt, nb, 3}).cont().range(-500, 500);
    k.arg("uvw_out", OUT, dbl ? D : F, {nt, nb, 3}).cont();
    sdp_SkyCoord *a = coord(k), *b = coord(k);
    k.ready();
    k.run = [&k, a, b](sdp_Error* st) { sdp_phase_rotate_uvw(a, b, k.m(0), k.m(1), st); };
}
REG(sdp_phase_rotate_vis, E_EXACT)
{
    const bool du = k.r.b(), dv = du;
    const int64_t nt = k.n(1, 5), nb = k.n(1, 9), nc = k.n(1, 6), np = k.r.pick<int64_t>({1, 4});
    k.arg("uvw", IN, du ? D : F, {nt, nb, 3}).cont().range(-500, 500);
    k.arg("vis_in", IN, dv ? CD : CF, {nt, nb, nc, np}).cont();
    k.arg("vis_out", OUT, dv ? CD : CF, {nt, nb, nc, np}).cont();
    double& f0 = k.D("channel_start_hz", 1e8); double& df = k.D("channel_step_hz", 1e6);
    sdp_SkyCoord *a = coord(k), *b = coord(k);
    k.ready();
    k.run = [&, a, b](sdp_Error* st) { sdp_phase_rotate_vis(a, b, f0, df, k.m(0), k.m(1), k.m(2), st); };
}

static void weighting(Call& k, bool briggs)
{
    const bool dbl = k.r.b();
    const sdp_MemType T = dbl ? D : F;
    const int64_t nt = k.n(1, 4), nb = k.n(1, 7), nc = k.n(1, 4), np = k.r.pick<int64_t>({1, 2, 4}), g = k.n(2, 12);
    k.arg("uvw", IN, D, {nt, nb, 3}).cont().range(-30, 30);
    k.arg("freq_hz", IN, D, {nc}).cont().range(1e8, 2e8);
    k.arg("weight_grid_uv", INOUT, T, {g, g, np}).cont().range(0, 1e-9);
    k.arg("input_weights", IN, T, {nt, nb, nc, np}).cont().range(0.1, 2);
    k.arg("output_weights", OUT, T, {nt, nb, nc, np}).cont().some();
    double& mx = k.D("max_abs_uv", k.r.d(5, 30), {0, -1, NAN}); double& rob = k.D("robust", k.r.d(-2, 2));
    k.tol = dbl ? 1e-10 : 1e-5;
    k.ready();
    if (briggs) k.run = [&](sdp_Error* st) { sdp_weighting_briggs(k.m(0), k.m(1), mx, rob, k.m(2), k.m(3), k.m(4), st); };
    else k.run = [&](sdp_Error* st) { sdp_weighting_uniform(k.m(0), k.m(1), mx, k.m(2), k.m(3), k.m(4), st); };
}
REG(sdp_weighting_briggs, E_EXACT) { weighting(k, true); }
REG(sdp_weighting_uniform, E_EXACT) { weighting(k, false); }

REG(sdp_flagger_dynamic_threshold, E_THREADED | E_EXACT)
{
    const bool dbl = k.r.b();
    const int64_t nt = k.n(1, 12), nb = k.n(1, 4), nc = k.n(1, 12), np = k.n(1, 4);
    k.arg("vis", IN, dbl ? CD : CF, {nt, nb, nc, np}).cont().also({CD, CF});
    k.arg("flags", INOUT, I, {nt, nb, nc, np}).cont().range(0, 1);
    double &al = k.D("alpha", k.r.d(0, 1)), &tm = k.D("threshold_magnitudes", k.r.d(1, 4)), &tv = k.D("threshold_variations", k.r.d(1, 4)), &tb = k.D("threshold_broadband", k.r.d(1, 4));
    int64_t &ss = k.I("sampling_step", k.r.i(1, std::max<int64_t>(1, nc)), {0, -1, -7}), &w = k.I("window", k.r.i(0, 4)), &h = k.I("window_median_history", k.r.i(1, 6), {0, -1, INT32_MIN});
    k.ready();
    k.run = [&](sdp_Error* st) { sdp_flagger_dynamic_threshold(k.m(0), k.m(1), al, tm, tv, tb, (int) ss, (int) w, (int) h, st); };
}

struct Tiled { bool dbl; int64_t nt, nb, nc, tu, tv, g, sup, ntile; };
static Tiled tiled(Call& k)
{
    Tiled t;
    t.dbl = k.r.b();
    t.nt = k.n(1, 4); t.nb = k.n(1, 8); t.nc = k.n(1, 4);
    t.g = k.r.i(4, 60); t.tu = k.r.i(1, 20); t.tv = k.r.i(1, 20); t.sup = k.r.i(0, 3);
    t.ntile = ((t.g + t.tu - 1) / t.tu) * ((t.g + t.tv - 1) / t.tv);
    k.arg("uvw", IN, t.dbl ? D : F, {t.nt, t.nb, 3}).cont().range(-500, 500);
    k.arg("freqs", IN, t.dbl ? D : F, {t.nc}).cont().range(1e8, 2e8);
    return t;
}
static double cell(Call& k, const Tiled& t) { return k.r.d(0.2, 1.2) / (500 * 0.5); }
REG(sdp_count_and_prefix_sum, E_EXACT)
{
    const Tiled t = tiled(k);
    k.arg("vis", IN, t.dbl ? CD : CF, {t.nt, t.nb, t.nc, 1}).allow(F_TYPE | F_CONT).cont().free_dim(3);
    k.arg("tile_offsets", OUT, I, {t.ntile + 1}).cont().free_dim(0, 1);
    k.arg("num_points_in_tiles", OUT, I, {t.ntile}).cont().free_dim(0, 1);
    k.arg("num_skipped", OUT, I, {1}).cont().free_dim(0, 1);
    int64_t &g = k.I("grid_size", t.g, {0, -1}), &tu = k.I("tile_size_u", t.tu, {0, -1}), &tv = k.I("tile_size_v", t.tv, {0, -1}), &s = k.I("support", t.sup, {-1});
    double& c = k.D("cell_size_rad", cell(k, t));
    k.ready();
    k.run = [&](sdp_Error* st)
    {
        int n = -5;
        sdp_count_and_prefix_sum(k.m(0), k.m(1), k.m(2), (int) g, tu, tv, c, s, &n, k.m(3), k.m(4), k.m(5), st);
        if (n != -5) k.out.push_back(n);
    };
}
// Offsets and number of records for the given coordinates.
static std::vector<int> offsets(Call& k, const Tiled& t, double c)
{
    Arr uvw(t.dbl ? D : F, {t.nt, t.nb, 3}), fr(t.dbl ? D : F, {t.nc}), vis(t.dbl ? CD : CF, {t.nt, t.nb, t.nc, 1});
    for (int j = 0; j < 2; ++j)
    {
        Arg& a = *k.args[j]; Arr& b = j ? fr : uvw;
        Rng f(a.fill_seed); b.fill_random(f, a.lo, a.hi);
    }
    Arr off(I, {t.ntile + 1}), np(I, {t.ntile}), sk(I, {1});
    int n = 0; sdp_Error st = SDP_SUCCESS;
    sdp_count_and_prefix_sum(uvw.mem, fr.mem, vis.mem, (int) t.g, t.tu, t.tv, c, t.sup, &n, off.mem, np.mem, sk.mem, &st);
    std::vector<int> o(t.ntile + 2);
    if (st) return o;
    for (int64_t j = 0; j <= t.ntile; ++j) o[j] = (int) off.get(j).real();
    o[t.ntile + 1] = n;
    return o;
}
static void tile_arg(Call& k, const std::vector<int>& o, const Tiled& t)
{
    k.arg("tile_offsets", INOUT, I, {t.ntile + 1}).cont().free_dim(0, 1).fill([o](Arr& a, Rng&) { for (int64_t j = 0; j < a.n(); ++j) a.set(j, o[j]); });
}
REG(sdp_bucket_sort, 0)
{
    const Tiled t = tiled(k);
    const double cs = cell(k, t);
    const auto o = offsets(k, t, cs);
    const int64_t n = o[t.ntile + 1];
    k.arg("vis", IN, t.dbl ? CD : CF, {t.nt, t.nb, t.nc, 1}).cont();
    k.arg("weights", IN, t.dbl ? D : F, {t.nt, t.nb, t.nc, 1}).cont();
    // Sizes follow from num_visibilities: larger is fine.
    for (const char* s : {"sorted_uu", "sorted_vv", "sorted_weight"}) k.arg(s, OUT, t.dbl ? D : F, {n}).cont().free_dim(0);
    k.arg("sorted_tile", OUT, I, {n}).cont().free_dim(0);
    k.arg("sorted_vis", OUT, t.dbl ? CD : CF, {n}).cont().free_dim(0);
    tile_arg(k, o, t);
    int64_t &g = k.I("grid_size", t.g, {0, -1}), &tu = k.I("tile_size_u", t.tu, {0, -1}), &tv = k.I("tile_size_v", t.tv, {0, -1}), &s = k.I("support", t.sup, {-1});
    double& c = k.D("cell_size_rad", cs);
    k.ready();
    k.run = [&](sdp_Error* st) { sdp_bucket_sort(k.m(0), k.m(1), k.m(2), k.m(3), (int) g, tu, tv, c, s, k.m(4), k.m(5), k.m(6), k.m(7), k.m(8), k.m(9), st); };
}
REG(sdp_tiled_indexing, 0)
{
    const Tiled t = tiled(k);
    const double cs = cell(k, t);
    const auto o = offsets(k, t, cs);
    const int64_t n = o[t.ntile + 1];
    k.arg("sorted_tile", OUT, I, {n}).cont().free_dim(0);
    for (const char* s : {"sorted_uu", "sorted_vv"}) k.arg(s, OUT, t.dbl ? D : F, {n}).cont().free_dim(0);
    k.arg("sorted_vis_index", OUT, I, {n}).cont().free_dim(0);
    tile_arg(k, o, t);
    int64_t &g = k.I("grid_size", t.g, {0, -1}), &tu = k.I("tile_size_u", t.tu, {0, -1}), &tv = k.I("tile_size_v", t.tv, {0, -1}), &s = k.I("support", t.sup, {-1}),
        &nc = k.I("num_channels", t.nc, {t.nc + 1, -1}), &nb = k.I("num_baselines", t.nb, {t.nb + 1, -1}), &nt = k.I("num_times", t.nt, {t.nt + 1, -1});
    double& c = k.D("cell_size_rad", cs);
    k.ready();
    k.run = [&](sdp_Error* st) { sdp_tiled_indexing(k.m(0), k.m(1), (int) g, tu, tv, c, s, nc, nb, nt, k.m(2), k.m(3), k.m(4), k.m(5), k.m(6), st); };
}
