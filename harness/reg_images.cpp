// How to call the functions on images, beams and transforms.
#include "reg.h"
#include "ska-sdp-func/clean/sdp_hogbom_clean.h"
#include "ska-sdp-func/clean/sdp_ms_clean_cornwell.h"
#include "ska-sdp-func/examples/sdp_function_example_a.h"
#include "ska-sdp-func/examples/sdp_vector_add.h"
#include "ska-sdp-func/fourier_transforms/sdp_fft.h"
#include "ska-sdp-func/fourier_transforms/sdp_fft_padded_size.h"
#include "ska-sdp-func/fourier_transforms/sdp_pswf.h"
#include "ska-sdp-func/fourier_transforms/sdp_swiftly.h"
#include "ska-sdp-func/numeric_functions/sdp_fft_convolution.h"
#include "ska-sdp-func/station_beam/sdp_element_dipole.h"
#include "ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.h"
#include "ska-sdp-func/station_beam/sdp_station.h"
using namespace reg;
static const sdp_MemType D = SDP_MEM_DOUBLE, F = SDP_MEM_FLOAT, CD = SDP_MEM_COMPLEX_DOUBLE, CF = SDP_MEM_COMPLEX_FLOAT, I = SDP_MEM_INT;

// ------------------------------------------------------------------ clean

static void clean(Call& k, bool ms)
{
    const bool dbl = k.r.b();
    const sdp_MemType T = dbl ? D : F;
    const int64_t n = k.big ? k.r.i(20, 40) : k.r.i(2, 14), np = 2 * n;
    const double sg = k.r.d(0.5, 2);
    k.arg("dirty_img", IN, T, {n, n}).cont();
    Arg& p = k.arg("psf", IN, T, {np, np}).cont();
    p.fill([np, sg](Arr& a, Rng&) {
        for (int64_t x = 0; x < np; ++x) for (int64_t y = 0; y < np; ++y)
            a.set(x * np + y, std::exp(-((x - np / 2) * (x - np / 2) + (y - np / 2) * (y - np / 2)) / (2 * sg * sg)));
    });
    const double bx = k.r.d(0.5, 2), by = k.r.d(0.5, 2);
    Arg& cb = k.arg("cbeam_details", IN, T, {4}).cont();
    cb.fill([=](Arr& a, Rng& f) { a.set(0, bx); a.set(1, by); a.set(2, f.d(-90, 90)); a.set(3, (double) (ms ? np : f.pick<int64_t>({np, n, 2 * n}))); });
    int ns = 0;
    if (ms)
    {
        ns = (int) k.r.i(1, 3);
        k.arg("scale_list", IN, I, {ns}).cont().free_dim(0).fill([](Arr& a, Rng& f) { for (int64_t j = 0; j < a.n(); ++j) a.set(j, (double) (j * 3 + (j ? f.i(0, 2) : 0))); });
    }
    for (const char* s : {"clean_model", "residual", "skymodel"}) k.arg(s, OUT, T, {n, n}).cont();
    double &g = k.D("loop_gain", k.r.d(0.05, 0.6)), &th = k.D("threshold", k.r.d(0.001, 0.1));
    int64_t& lim = k.I("cycle_limit", k.r.i(ms ? 0 : 1, 12));
    if (!ms)
    {
        for (int64_t x : {0, -1}) k.bad.push_back({"cycle_limit:invalid", [&lim, x] { lim = x; }});
        for (double x : {0., -0.5}) k.bad.push_back({"loop_gain:invalid", [&g, x] { g = x; }});
    }
    if (k.hostile) lim = std::min<int64_t>(lim, 500);
    k.tol = dbl ? 1e-9 : 1e-3;
    k.ready();
    if (ms) k.run = [&](sdp_Error* st) { sdp_ms_clean_cornwell(k.m(0), k.m(1), k.m(2), k.m(3), g, th, (int) lim, k.m(4), k.m(5), k.m(6), st); };
    else k.run = [&](sdp_Error* st) { sdp_hogbom_clean(k.m(0), k.m(1), k.m(2), g, th, (int) lim, k.m(3), k.m(4), k.m(5), st); };
}
REG(sdp_hogbom_clean, E_THREADED) { clean(k, false); }
REG(sdp_ms_clean_cornwell, E_THREADED) { clean(k, true); }

// ----------------------------------------------------------------- fourier

REG(sdp_fft_convolution, E_THREADED)
{
    const bool dbl = k.r.b();
    const int64_t a = k.r.i(1, 20), b = k.r.i(1, 20);
    k.arg("in1", IN, dbl ? CD : CF, {a, a}).cont();
    k.arg("in2", IN, dbl ? CD : CF, {b, b}).cont().free_dim(2);
    k.arg("out", OUT, dbl ? CD : CF, {a, a}).cont();
    k.tol = dbl ? 1e-10 : 1e-4;
    k.ready();
    k.run = [&](sdp_Error* st) { sdp_fft_convolution(k.m(0), k.m(1), k.m(2), st); };
}
static std::vector<int64_t> fft_shape(Call& k, int& nd)
{
    nd = (int) k.r.i(1, 2);
    std::vector<int64_t> s;
    if (k.r.b(0.3)) s.push_back(k.n(1, 4));
    for (int j = 0; j < nd; ++j) s.push_back(k.r.i(1, nd == 1 ? 60 : 16));
    return s;
}
REG(sdp_fft_create, E_CREATE)
{
    int nd; const auto s = fft_shape(k, nd);
    const bool dbl = k.r.b();
    k.arg("input", IN, dbl ? CD : CF, s).cont().allow(F_TYPE);
    k.arg("output", OUT, dbl ? CD : CF, s).cont().allow(F_TYPE);
    int64_t &dims = k.I("num_dims_fft", nd, {0, -1, (int64_t) s.size() + 1, 7}), &fw = k.I("is_forward", k.r.i(0, 1));
    k.ready();
    k.run = [&](sdp_Error* st)
    {
        sdp_Fft* f = sdp_fft_create(k.m(0), k.m(1), (int) dims, (int) fw, st);
        k.no_object = !f; sdp_fft_free(f);
    };
}
static sdp_Fft* plan(Call& k, const std::vector<int64_t>& s, int nd, sdp_MemType t, int fw)
{
    Arr a(t, s), b(t, s); sdp_Error st = SDP_SUCCESS;
    return k.object([&] { return sdp_fft_create(a.mem, b.mem, nd, fw, &st); }, sdp_fft_free);
}
REG(sdp_fft_exec, E_THREADED | 0)
{
    int nd; const auto s = fft_shape(k, nd);
    const bool dbl = k.r.b();
    k.arg("input", IN, dbl ? CD : CF, s).cont();
    k.arg("output", OUT, dbl ? CD : CF, s).cont();
    sdp_Fft* f = plan(k, s, nd, dbl ? CD : CF, k.r.b());
    k.tol = dbl ? 1e-12 : 1e-5;
    k.ready();
    k.run = [&k, f](sdp_Error* st) { sdp_fft_exec(f, k.m(0), k.m(1), st); };
}
REG(sdp_fft_exec_shift, E_THREADED)
{
    const int nd = (int) k.r.i(1, 2);
    std::vector<int64_t> s;
    for (int j = 0; j < nd; ++j) s.push_back(2 * k.r.i(1, 12));
    const bool dbl = k.r.b();
    k.arg("data", INOUT, dbl ? CD : CF, s).cont();
    sdp_Fft* f = plan(k, s, nd, dbl ? CD : CF, k.r.b());
    int64_t& nrm = k.I("norm", k.r.i(0, 1));
    k.tol = dbl ? 1e-12 : 1e-5;
    k.ready();
    k.run = [&, f](sdp_Error* st) { sdp_fft_exec_shift(f, k.m(0), (int) nrm, st); };
}
static void fft_data(Call& k)
{
    const bool dbl = k.r.b();
    std::vector<int64_t> s = {k.n(1, 20)};
    if (k.r.b()) s.push_back(k.n(1, 20));
    k.arg("data", INOUT, dbl ? CD : CF, s).also({CD, CF}).also_nd({1, 2}).free_dim(0).free_dim(1);
    k.ready();
}
REG(sdp_fft_norm, E_THREADED | E_EXACT) { fft_data(k); k.run = [&](sdp_Error* st) { sdp_fft_norm(k.m(0), st); }; }
REG(sdp_fft_phase, E_THREADED | E_EXACT) { fft_data(k); k.run = [&](sdp_Error* st) { sdp_fft_phase(k.m(0), st); }; }
REG(sdp_fft_padded_size, E_EXACT | E_NO_PRESET)
{
    int64_t& n = k.I("n", k.n(1, 5000)); double& f = k.D("padding_factor", k.r.d(1, 3));
    if (k.hostile) f = std::min(f, 1e12);
    k.ready();
    k.run = [&](sdp_Error*) { k.out.push_back(sdp_fft_padded_size((int) n, f)); };
}
REG(sdp_generate_pswf, E_EXACT)
{
    k.arg("pswf_out", OUT, k.r.b() ? D : F, {k.n(1, 40)}).also({D, F, CD, CF}).free_dim(0);
    int64_t& m = k.I("m", k.r.i(0, 3), {-1}); double& c = k.D("c", k.r.d(0.5, 25));
    if (k.hostile) { m = std::min<int64_t>(m, 40); if (std::fabs(c) > 100) c = std::isfinite(c) ? 100 : c; }
    k.ready();
    k.run = [&](sdp_Error* st) { sdp_generate_pswf((int) m, c, k.m(0), st); };
}
static sdp_Pswf* pswf(Call& k)
{
    const int m = (int) k.r.i(0, 2);
    const double width = k.r.d(0.5, 25);
    sdp_Pswf* p = sdp_pswf_create(m, width); // not shared: it holds the values last generated
    k.cleanup.push_back([p] { sdp_pswf_free(p); });
    return p;
}
REG(sdp_pswf_generate, E_EXACT)
{
    k.arg("out", OUT, k.r.b() ? D : F, {k.n(1, 40)}).also({D, F, CD, CF}).free_dim(0);
    sdp_Pswf* p = pswf(k);
    int64_t& e = k.I("end_correction", k.r.i(0, 1));
    k.ready();
    k.run = [&, p](sdp_Error* st) { sdp_pswf_generate(p, k.m(0), 0, (int) e, st); };
}
REG(sdp_pswf_values, E_EXACT)
{
    sdp_Pswf* p = pswf(k);
    int64_t &n = k.I("size", k.n(1, 60), {0, -1}), &e = k.I("end_correction", k.r.i(0, 1));
    if (k.hostile) n = std::min<int64_t>(n, 2000);
    k.ready();
    k.run = [&, p](sdp_Error* st)
    {
        sdp_pswf_generate(p, 0, (int) n, (int) e, st);
        const sdp_Mem* v = sdp_pswf_values(p, SDP_MEM_CPU, st);
        const sdp_Mem* q = sdp_pswf_coeff(p, SDP_MEM_CPU, st);
        if (*st) return;
        for (const sdp_Mem* a : {v, q}) if (a) for (int64_t j = 0; j < sdp_mem_num_elements(a); ++j)
            k.out.push_back(sdp_mem_type(a) == D ? ((const double*) sdp_mem_data_const(a))[j] : ((const float*) sdp_mem_data_const(a))[j]);
        k.out.push_back(sdp_pswf_evaluate(p, 0.3)); k.out.push_back(sdp_pswf_par_c(p)); k.out.push_back(sdp_pswf_par_m(p));
    };
}

// ----------------------------------------------------------------- swiftly

struct Sw { int64_t N, yN, xM, m, Nx, Ny; sdp_SwiFTly* p; };
static Sw swiftly(Call& k)
{
    Sw q;
    for (;;)
    {
        q.Nx = k.r.i(1, 5); q.Ny = k.r.i(1, 5); q.m = k.r.i(1, 10);
        q.N = q.Nx * q.Ny * q.m; q.yN = q.N / q.Nx; q.xM = q.N / q.Ny;
        if (q.yN % 2 == 0 && q.xM % 2 == 0) break;
    }
    sdp_Error st = SDP_SUCCESS;
    const double W = k.r.d(1, 12);
    q.p = k.object([&] { return sdp_swiftly_create(q.N, q.yN, q.xM, W, &st); }, sdp_swiftly_free);
    return q;
}
static int64_t& facet_off(Call& k, const Sw& q, const char* n = "facet_offset") { return k.I(n, k.r.i(-q.N, q.N) * q.Ny); }
static int64_t& sub_off(Call& k, const Sw& q, const char* n = "subgrid_offset") { return k.I(n, k.r.i(-q.N, q.N) * q.Nx); }
REG(sdp_swiftly_create, E_CREATE)
{
    Sw q = swiftly(k);
    int64_t &N = k.I("image_size", q.N, {0, -1, q.N + 1}), &y = k.I("yN_size", q.yN, {0, -1, q.yN + 1}), &x = k.I("xM_size", q.xM, {0, -1, q.xM + 1}); double& w = k.D("W", k.r.d(1, 12));
    if (k.hostile) { N = std::min<int64_t>(N, 20000); y = std::min<int64_t>(y, 5000); x = std::min<int64_t>(x, 5000); if (std::isfinite(w) && std::fabs(w) > 50) w = 50; }
    k.ready();
    k.run = [&](sdp_Error* st) { sdp_SwiFTly* p = sdp_swiftly_create(N, y, x, w, st); k.no_object = !p; sdp_swiftly_free(p); };
}
// One input and one output with the same number of rows.
#define SW2(NAME, IROLE, NI, ORole, NO, OFF) \
REG(NAME, E_NO_READ_ONLY) \
{ \
    Sw q = swiftly(k); \
    const int64_t n = k.n(1, 4), fs = k.r.i(1, q.yN), sa = k.r.i(1, q.xM); (void) fs; (void) sa; \
    Arg& a = k.arg("in", IROLE, CD, {n, NI}); Arg& b = k.arg("out", ORole, CD, {n, NO}); \
    if (std::string(#NI) == "fs" || std::string(#NI) == "sa") a.free_dim(1); \
    if (std::string(#NO) == "fs" || std::string(#NO) == "sa") b.free_dim(1); \
    int64_t& o = OFF; k.tol = 1e-11; k.ready(); \
    k.run = [&, q](sdp_Error* st) { NAME(q.p, k.m(0), k.m(1), o, st); }; \
}
SW2(sdp_swiftly_prepare_facet, IN, fs, OUT, q.yN, facet_off(k, q))
SW2(sdp_swiftly_extract_from_facet, IN, q.yN, OUT, q.m, sub_off(k, q))
SW2(sdp_swiftly_add_to_subgrid, IN, q.m, INOUT, q.xM, facet_off(k, q))
SW2(sdp_swiftly_finish_subgrid, IN, q.xM, OUT, sa, sub_off(k, q))
SW2(sdp_swiftly_extract_from_subgrid, IN, q.xM, OUT, q.m, facet_off(k, q))
SW2(sdp_swiftly_add_to_facet, IN, q.m, INOUT, q.yN, sub_off(k, q))
SW2(sdp_swiftly_finish_facet, INOUT, q.yN, OUT, fs, facet_off(k, q))
#define SW1(NAME) \
REG(NAME, E_NO_READ_ONLY) \
{ \
    Sw q = swiftly(k); \
    k.arg("subgrid", INOUT, CD, {k.n(1, 4), q.xM}).free_dim(0); \
    int64_t& o = sub_off(k, q); k.tol = 1e-11; k.ready(); \
    k.run = [&, q](sdp_Error* st) { NAME(q.p, k.m(0), o, st); }; \
}
SW1(sdp_swiftly_finish_subgrid_inplace)
SW1(sdp_swiftly_prepare_subgrid_inplace)
#define SW1D(NAME) \
REG(NAME, E_NO_READ_ONLY) \
{ \
    Sw q = swiftly(k); \
    k.arg("subgrid", INOUT, CD, {q.xM, q.xM}); \
    int64_t &o = sub_off(k, q, "subgrid_offset0"), &p = sub_off(k, q, "subgrid_offset1"); k.tol = 1e-11; k.ready(); \
    k.run = [&, q](sdp_Error* st) { NAME(q.p, k.m(0), o, p, st); }; \
}
SW1D(sdp_swiftly_finish_subgrid_inplace_2d)
SW1D(sdp_swiftly_prepare_subgrid_inplace_2d)
#define SW2D(NAME, NI, ORole, NO) \
REG(NAME, E_NO_READ_ONLY) \
{ \
    Sw q = swiftly(k); \
    k.arg("in", IN, CD, {NI, NI}); k.arg("out", ORole, CD, {NO, NO}); \
    int64_t &o = facet_off(k, q, "facet_offset0"), &p = facet_off(k, q, "facet_offset1"); k.tol = 1e-11; k.ready(); \
    k.run = [&, q](sdp_Error* st) { NAME(q.p, k.m(0), k.m(1), o, p, st); }; \
}
SW2D(sdp_swiftly_add_to_subgrid_2d, q.m, INOUT, q.xM)
SW2D(sdp_swiftly_extract_from_subgrid_2d, q.xM, OUT, q.m)

// ------------------------------------------------------------------- beams

REG(sdp_element_beam_dipole, E_EXACT)
{
    const bool dbl = k.r.b(), scalar = k.r.b();
    const int64_t n = k.n(1, 20);
    const int64_t st_ = scalar ? k.r.i(1, 4) : k.r.i(2, 5), of = k.r.i(0, 5), need = (n - 1) * st_ + of + (scalar ? 1 : 2);
    k.arg("theta_rad", IN, dbl ? D : F, {n}).cont().range(0, 1.57).allow(F_NDIM).free_dim(0, 1);
    k.arg("phi_rad", IN, dbl ? D : F, {n}).cont().range(-3, 3).allow(F_NDIM).free_dim(0, 1);
    if (scalar) k.arg("element_beam", INOUT, dbl ? CD : CF, {std::max<int64_t>(need, 0)}).cont().allow(F_NDIM).free_dim(0, 1);
    else k.arg("element_beam", INOUT, dbl ? CD : CF, {(std::max<int64_t>(need, 0) + 3) / 4, 4}).cont().allow(F_NDIM).free_dim(0, 1).free_dim(1);
    int64_t &np = k.I("num_points", n, {n + 1, -1}), &stride = k.I("stride", st_, {-1}), &off = k.I("offset", of, {-1});
    double &f = k.D("freq_hz", k.r.d(5e7, 3e8)), &l = k.D("dipole_length_m", k.r.d(0.3, 3));
    k.ready();
    k.run = [&](sdp_Error* s) { sdp_element_beam_dipole((int) np, k.m(0), k.m(1), f, l, (int) stride, (int) off, k.m(2), s); };
}
REG(sdp_element_beam_spherical_wave_harp, E_THREADED | E_EXACT)
{
    const bool dbl = k.r.b();
    const int64_t n = k.n(1, 20), lm = k.r.i(1, 5), nc = (lm + 1) * (lm + 1) - 1, of = k.r.i(0, 3);
    k.arg("theta_rad", IN, dbl ? D : F, {n}).cont().range(0, 1.57).allow(F_NDIM).free_dim(0, 1);
    k.arg("phi_x_rad", IN, dbl ? D : F, {n}).cont().range(-3, 3).allow(F_NDIM).free_dim(0, 1);
    k.arg("phi_y_rad", IN, dbl ? D : F, {n}).cont().range(-3, 3).allow(F_NDIM).free_dim(0, 1);
    k.arg("coeffs", IN, dbl ? CD : CF, {4 * nc}).cont().allow(F_NDIM).free_dim(0, 1);
    k.arg("element_beam", INOUT, dbl ? CD : CF, {n + of, 4}).cont().free_dim(0, 1).also_nd({3});
    int64_t &np = k.I("num_points", n, {n + 1, -1}), &l = k.I("l_max", lm, {lm + 1, -1}), &off = k.I("offset", of, {-1, of + 1});
    if (k.hostile) l = std::min<int64_t>(l, 60);
    k.ready();
    k.run = [&](sdp_Error* s) { sdp_element_beam_spherical_wave_harp((int) np, k.m(0), k.m(1), k.m(2), (int) l, k.m(3), (int) off, k.m(4), s); };
}
REG(sdp_station_beam_aperture_array, E_THREADED)
{
    const bool dbl = k.r.b(), pol = k.r.b();
    const sdp_MemType R = dbl ? D : F, C = dbl ? CD : CF;
    const int64_t ne = k.n(1, 20), n = k.n(1, 15), oi = k.r.i(0, 4), oo = k.r.i(0, 4), ty = k.r.i(1, 4);
    const int kind = (int) k.r.i(0, 2); // no patterns, one per element, indexed
    k.arg("element_weights", IN, C, {ne}).cont().allow(F_NDIM);
    for (const char* s : {"element_x", "element_y", "element_z"}) k.arg(s, IN, R, {ne}).cont().range(-20, 20).allow(F_NDIM);
    for (const char* s : {"point_x", "point_y", "point_z"}) k.arg(s, IN, R, {n + oi}).cont().range(-0.6, 0.6).allow(F_NDIM).free_dim(0, 1);
    k.arg("element_beam_index", IN, I, {kind == 2 ? ne : 0}).cont().allow(F_NDIM | (kind == 2 ? 0 : F_TYPE | F_LOC)).range(0, (double) ty - 1e-3).free_dim(0, 1);
    if (kind != 2) k.args.back()->free_dim(0);
    if (!pol) k.arg("element_beam", IN, C, {kind == 0 ? 0 : kind == 1 ? ne : ty, n, 1}).cont().allow(F_NDIM).free_dim(0, kind ? 1 : 0).free_dim(1, kind == 2 ? 0 : 1).free_dim(2, 1);
    else k.arg("element_beam", IN, C, {kind == 0 ? 0 : kind == 1 ? ne : ty, n, 4}).cont().allow(F_NDIM).free_dim(0, kind ? 1 : 0).free_dim(1, kind == 2 ? 0 : 1).free_dim(2, kind == 2 ? 0 : 1);
    if (kind == 0) k.args.back()->allow(F_TYPE | F_LOC).free_dim(1).free_dim(2);
    if (kind == 2) k.args.back()->free_dim(0); // not every table entry need be used
    for (int j = 6; j < 9; ++j) k.args[j]->optional();
    k.arg("station_beam", INOUT, C, pol ? std::vector<int64_t>{n + oo, 4} : std::vector<int64_t>{n + oo}).cont().allow(F_NDIM).free_dim(0, 1).free_dim(1);
    double& wn = k.D("wavenumber", k.r.d(0.5, 5));
    int64_t &a = k.I("index_offset_points", oi, {-1, oi + 1}), &np = k.I("num_points", n, {-1, n + 1}), &b = k.I("index_offset_station_beam", oo, {-1, oo + 1}), &nr = k.I("normalise", k.r.i(0, 1)), &ex = k.I("eval_x", 1), &ey = k.I("eval_y", 1);
    k.tol = dbl ? 1e-10 : 1e-4;
    k.ready();
    k.run = [&](sdp_Error* s) { sdp_station_beam_aperture_array(wn, k.m(0), k.m(1), k.m(2), k.m(3), (int) a, (int) np, k.m(4), k.m(5), k.m(6), k.m(7), k.m(8), (int) b, k.m(9), (int) nr, (int) ex, (int) ey, s); };
}
// ---------------------------------------------------------------- examples

// (Strided arrays, larger outputs and negative sizes: see P31.)
REG(sdp_function_example_a_exec, E_EXACT | E_AS_IS)
{
    const int64_t a = k.r.pick<int64_t>({1, 2, 3, 5, 7}), b = k.r.i(1, 6);
    k.arg("output", OUT, F, {a * b}).cont().allow(F_NDIM | F_CONT).free_dim(0, 1);
    sdp_Error st = SDP_SUCCESS;
    sdp_FunctionExampleA* p = sdp_function_example_a_create_plan((int) a, (int) b, (float) k.r.d(), &st);
    k.cleanup.push_back([p] { sdp_function_example_a_free_plan(p); });
    k.ready();
    k.run = [&k, p](sdp_Error* s) { sdp_function_example_a_exec(p, k.m(0), s); };
}
REG(sdp_function_example_a_create_plan, E_CREATE | E_AS_IS)
{
    int64_t &a = k.I("a", k.r.i(0, 9), {10}), &b = k.I("b", k.r.i(0, 9));
    if (k.hostile) { a = std::min<int64_t>(std::max<int64_t>(a, 0), 3000); b = std::min<int64_t>(std::max<int64_t>(b, 0), 3000); }
    k.ready();
    k.run = [&](sdp_Error* s) { sdp_FunctionExampleA* p = sdp_function_example_a_create_plan((int) a, (int) b, 1.f, s); k.no_object = !p; sdp_function_example_a_free_plan(p); };
}
REG(sdp_vector_add, E_EXACT)
{
    const bool dbl = k.r.b(); const int64_t n = k.n(1, 40);
    // Only the numbers of elements matter.
    for (const char* s : {"input_a", "input_b"}) k.arg(s, IN, dbl ? D : F, {n}).cont().allow(F_NDIM | F_CONT);
    k.arg("output", OUT, dbl ? D : F, {n}).cont().allow(F_NDIM | F_CONT);
    k.ready();
    k.run = [&](sdp_Error* s) { sdp_vector_add(k.m(0), k.m(1), k.m(2), s); };
}
