// How to call the functions on grids.
#include "reg.h"
#include "ska-sdp-func/grid_data/sdp_degrid_uvw_custom.h"
#include "ska-sdp-func/grid_data/sdp_grid_wstack_wtower.h"
#include "ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h"
#include "ska-sdp-func/grid_data/sdp_gridder_direct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_grid_correct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
#include "ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_height.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.h"
using namespace reg;
static const sdp_MemType D = SDP_MEM_DOUBLE, F = SDP_MEM_FLOAT, CD = SDP_MEM_COMPLEX_DOUBLE, CF = SDP_MEM_COMPLEX_FLOAT, I = SDP_MEM_INT;

// ------------------------------------------------------------ arithmetics

REG(sdp_gridder_accumulate_scaled_arrays, E_THREADED | E_EXACT)
{
    struct P { sdp_MemType o, i; };
    const P p = k.r.pick<P>({{CD, CD}, {CF, CF}, {CD, CF}, {CF, CD}, {CD, D}, {CF, F}, {CD, F}, {CF, D}, {D, CD}, {F, CF}, {D, CF}, {F, CD}});
    const int64_t a = k.n(1, 20), b = k.n(1, 20), ex = k.r.i(-3, 3);
    Arg& o = k.arg("out", INOUT, p.o, {a, b});
    Arg& i = k.arg("in1", IN, p.i, {a, b});
    if (p.i == CD || p.i == CF) { i.also({CD, CF}); o.also({CD, CF, D, F}); if (p.o == CD || p.o == CF) i.also({D, F}); }
    else { i.also({CD, CF, D, F}); o.also({CD, CF}); }
    Arg& w = k.arg("in2", IN, CD, {a, b});
    w.fill([](Arr& q, Rng& f) { for (int64_t j = 0; j < q.n(); ++j) { const double t = f.d(0, 6.3); q.set(j, cd(cos(t), sin(t))); } });
    if (ex == 0) { w.allow(F_TYPE | F_NDIM | F_LOC).free_dim(0).free_dim(1); }
    int64_t& e = k.I("exponent", ex);
    k.tol = 1e-4;
    k.ready();
    k.run = [&](sdp_Error* s) { sdp_gridder_accumulate_scaled_arrays(k.m(0), k.m(1), k.m(2), (int) e, s); };
}
REG(sdp_gridder_scale_inv_array, E_THREADED | E_EXACT)
{
    struct P { sdp_MemType o, i; };
    const P p = k.r.pick<P>({{CD, D}, {CF, F}, {CD, CD}, {CF, CF}});
    const int64_t a = k.n(1, 20), b = k.n(1, 20);
    k.arg("out", OUT, p.o, {a, b});
    k.arg("in1", IN, p.i, {a, b}).also({p.o, p.o == CD ? D : F});
    k.arg("in2", IN, CD, {a, b}).fill([](Arr& q, Rng& f) { for (int64_t j = 0; j < q.n(); ++j) { const double t = f.d(0, 6.3); q.set(j, cd(cos(t), sin(t))); } });
    int64_t& e = k.I("exponent", k.r.i(-3, 3));
    k.tol = 1e-4;
    k.ready();
    k.run = [&](sdp_Error* s) { sdp_gridder_scale_inv_array(k.m(0), k.m(1), k.m(2), (int) e, s); };
}
REG(sdp_gridder_count_nonzero_pixels, E_THREADED | E_EXACT)
{
    k.arg("image", IN, k.r.pick({D, F, CD, CF}), {k.n(1, 20), k.n(1, 20)}).also({D, F, CD, CF}).free_dim(0).free_dim(1).fill([](Arr& q, Rng& f) { for (int64_t j = 0; j < q.n(); ++j) if (f.b()) q.set(j, 0); });
    k.ready();
    k.run = [&](sdp_Error* s) { k.out.push_back((double) sdp_gridder_count_nonzero_pixels(k.m(0), s)); if (*s) k.out.clear(); };
}
struct Rp { sdp_MemType a, b; };
static Rp pair(Call& k) { return k.r.pick<Rp>({{CD, CD}, {CF, CF}, {CD, CF}, {D, D}, {F, F}, {D, F}}); }
REG(sdp_gridder_residual, E_THREADED | E_EXACT)
{
    const Rp p = pair(k);
    const int64_t n = k.n(1, 20), m = k.n(1, 20);
    k.arg("a", IN, p.a, {n, m});
    k.arg("b", IN, p.b, {n, m});
    if (p.a == CD) k.args.back()->also({CD, CF});
    if (p.a == D) k.args.back()->also({D, F});
    k.arg("out", OUT, p.a, {n, m});
    k.ready();
    k.run = [&](sdp_Error* s) { sdp_gridder_residual(k.m(0), k.m(1), k.m(2), s); };
}
REG(sdp_gridder_rms_diff, E_THREADED)
{
    const Rp p = pair(k);
    const int64_t n = k.n(1, 20), m = k.n(1, 20);
    Arg& a = k.arg("a", IN, p.a, {n, m});
    Arg& b = k.arg("b", IN, p.b, {n, m});
    if (p.a == CD) b.also({CD, CF});
    if (p.a == D) b.also({D, F});
    if (p.b == CF) a.also({CD, CF});
    if (p.b == F) a.also({D, F});
    k.tol = 1e-10;
    k.ready();
    k.run = [&](sdp_Error* s) { k.out.push_back(sdp_gridder_rms_diff(k.m(0), k.m(1), s)); if (*s) k.out.clear(); };
}
REG(sdp_gridder_shift_subgrids, E_THREADED | E_EXACT)
{
    const int64_t n = 2 * k.n(1, 10);
    k.arg("subgrids", INOUT, k.r.b() ? CD : CF, {k.n(1, 4), n, n}).also({CD, CF}).free_dim(0).free_dim(1).free_dim(2);
    k.ready();
    k.run = [&](sdp_Error* s) { sdp_gridder_shift_subgrids(k.m(0), s); };
}
static void subgrid(Call& k, bool add)
{
    const sdp_MemType t = k.r.pick({CD, CF, D, F});
    const int64_t g = k.n(3, 24), a = k.r.i(1, std::max<int64_t>(g, 1));
    k.arg("grid", add ? INOUT : IN, t, {g, g}).free_dim(0).free_dim(1);
    k.arg("subgrid", add ? IN : OUT, t, {a, a}).free_dim(0).free_dim(1);
    int64_t &u = k.I("offset_u", k.r.i(-g, g)), &v = k.I("offset_v", k.r.i(-g, g)); double& f = k.D("factor", k.r.d(-2, 2));
    k.tol = 1e-6;
    k.ready();
    if (add) k.run = [&](sdp_Error* s) { sdp_gridder_subgrid_add(k.m(0), (int) u, (int) v, k.m(1), f, s); };
    else k.run = [&](sdp_Error* s) { sdp_gridder_subgrid_cut_out(k.m(0), (int) u, (int) v, k.m(1), s); };
}
REG(sdp_gridder_subgrid_add, E_THREADED | E_EXACT) { subgrid(k, true); }
REG(sdp_gridder_subgrid_cut_out, E_THREADED | E_EXACT) { subgrid(k, false); }
REG(sdp_gridder_sum_diff, E_THREADED | E_EXACT)
{
    const int64_t n = k.n(1, 60);
    k.arg("a", IN, I, {n}).range(0, 100);
    k.arg("b", IN, I, {n}).range(0, 100);
    const int64_t lo = k.r.i(0, n), hi = k.r.i(lo, n);
    int64_t &s0 = k.I("start_row", lo), &s1 = k.I("end_row", hi, {n + 1}); // negative: all rows
    k.ready();
    k.run = [&](sdp_Error* s) { int64_t v = -77; sdp_gridder_sum_diff(k.m(0), k.m(1), &v, s0, s1, s); if (!*s || (v != -77 && v != 0)) k.out.push_back((double) v); };
}

// ------------------------------------------------------------ coordinates

struct Rows { int64_t n, nc; double f0, df; };
static Rows rows(Call& k) { Rows q; q.n = k.n(1, 20); q.nc = k.r.i(1, 6); if (k.big && k.r.b(0.4)) { q.n = k.r.i(550, 1700); q.nc = k.r.i(1, 2); } q.f0 = 1e8; q.df = 1e6; return q; }
// Larger arrays than there are rows are fine where some is set.
static void channels(Call& k, int64_t n, int64_t nc, bool some = false)
{
    k.arg("start_chs", IN, I, {n}).fill([nc](Arr& q, Rng& f) { for (int64_t j = 0; j < q.n(); ++j) q.set(j, (double) f.i(0, nc - 1)); });
    k.arg("end_chs", IN, I, {n}).fill([nc](Arr& q, Rng& f) { for (int64_t j = 0; j < q.n(); ++j) q.set(j, f.b(0.2) ? 0. : (double) nc); });
    if (some) for (int j = 1; j < 3; ++j) k.args[k.args.size() - j]->free_dim(0, 1);
}
REG(sdp_gridder_uvw_bounds_all, E_THREADED | E_EXACT)
{
    const Rows q = rows(k);
    k.arg("uvws", IN, k.r.b() ? D : F, {q.n, 3}).range(-100, 100).also({D, F});
    channels(k, q.n, q.nc);
    double &f0 = k.D("freq0_hz", q.f0), &df = k.D("dfreq_hz", q.df);
    k.ready();
    k.run = [&](sdp_Error* s)
    {
        double lo[3] = {-77, -77, -77}, hi[3] = {-77, -77, -77};
        sdp_gridder_uvw_bounds_all(k.m(0), f0, df, k.m(1), k.m(2), lo, hi, s);
        for (int j = 0; j < 3; ++j) if (!*s || (lo[j] != -77 && lo[j] != INFINITY) || (hi[j] != -77 && hi[j] != -INFINITY)) { k.out.push_back(lo[j]); k.out.push_back(hi[j]); }
    };
}
static void clamp(Call& k, bool uv)
{
    const Rows q = rows(k);
    k.arg("uvws", IN, k.r.b() ? D : F, {q.n, 3}).range(-100, 100).also({D, F}).free_dim(0, -1);
    channels(k, q.n, q.nc, true);
    k.arg("start_ch_out", INOUT, I, {q.n}).range(0, 6).free_dim(0, 1);
    k.arg("end_ch_out", INOUT, I, {q.n}).range(0, 6).free_dim(0, 1);
    double &f0 = k.D("freq0_hz", q.f0), &df = k.D("dfreq_hz", q.df), &a = k.D("min_u", k.r.d(-40, 0)), &b = k.D("max_u", k.r.d(0, 40)), &c = k.D("min_v", k.r.d(-40, 0)), &d = k.D("max_v", k.r.d(0, 40));
    const int64_t lo = k.r.i(0, q.n), hi = k.r.i(lo, q.n); const bool all = k.r.b();
    int64_t &s0 = k.I("start_row", all ? -1 : lo), &s1 = k.I("end_row", all ? -1 : hi), &dim = k.I("dim", k.r.i(0, 2));
    k.bad.push_back({"end_row:invalid", [&s0, &s1, q] { s0 = 0; s1 = q.n + 1; }});
    if (!uv) { k.bad.push_back({"dim=3", [&dim] { dim = 3; }}); k.bad.push_back({"dim=-1", [&dim] { dim = -1; }}); }
    k.ready();
    if (uv) k.run = [&](sdp_Error* s) { sdp_gridder_clamp_channels_uv(k.m(0), f0, df, k.m(1), k.m(2), a, b, c, d, k.m(3), k.m(4), s0, s1, s); };
    else k.run = [&](sdp_Error* s) { sdp_gridder_clamp_channels_single(k.m(0), (int) dim, f0, df, k.m(1), k.m(2), a, b, k.m(3), k.m(4), s0, s1, s); };
}
REG(sdp_gridder_clamp_channels_single, E_THREADED | E_EXACT) { clamp(k, false); }
REG(sdp_gridder_clamp_channels_uv, E_THREADED | E_EXACT) { clamp(k, true); }
REG(sdp_gridder_determine_w_step, E_EXACT | E_NO_PRESET)
{
    const double th = k.r.d(0.01, 0.5);
    double &t = k.D("theta", th), &f = k.D("fov", th * k.r.d(0.2, 1)), &u = k.D("shear_u", k.r.d(-0.1, 0.1)), &v = k.D("shear_v", k.r.d(-0.1, 0.1)), &x = k.D("x0", k.r.d(0, 1));
    k.ready();
    k.run = [&](sdp_Error*) { k.out.push_back(sdp_gridder_determine_w_step(t, f, u, v, x)); };
}

// --------------------------------------------------------- Fourier sums

static void sums(Call& k, bool inverse)
{
    const bool dbl = k.r.b();
    const Rows q = rows(k);
    const int64_t ns = k.n(inverse ? 1 : 0, 12);
    const sdp_MemType V = dbl ? CD : CF;
    k.arg("uvws", IN, dbl ? D : F, {q.n, 3}).range(-100, 100).free_dim(0, -1);
    if (inverse) k.arg("vis", IN, V, {q.n, q.nc}).free_dim(0, 1).free_dim(1);
    channels(k, q.n, q.nc, true);
    const int64_t a = k.r.i(1, 5), b = a, np = inverse ? a * b : ns;
    if (!inverse) k.arg("flux", IN, D, {ns}).free_dim(0);
    k.arg("lmn", IN, dbl ? D : F, {np, 3}).range(-0.1, 0.1).free_dim(0, 1);
    if (inverse) k.arg("image_taper_1d", IN, D, {std::max(a, b)}).range(0.5, 1).free_dim(0, 1);
    if (inverse) k.arg("image", INOUT, V, {a, b}).free_dim(0).free_dim(1);
    else k.arg("vis", INOUT, V, {q.n, q.nc}).free_dim(0, 1).free_dim(1);
    int64_t &u = k.I("subgrid_offset_u", k.r.i(-20, 20)), &v = k.I("subgrid_offset_v", k.r.i(-20, 20)), &w = k.I("subgrid_offset_w", k.r.i(-5, 5));
    double &th = k.D("theta", 0.1), &ws = k.D("w_step", 100), &f0 = k.D("freq0_hz", q.f0), &df = k.D("dfreq_hz", q.df);
    k.tol = dbl ? 1e-9 : 1e-4;
    k.ready();
    if (!inverse) k.run = [&](sdp_Error* s) { sdp_gridder_dft(k.m(0), k.m(1), k.m(2), k.m(3), k.m(4), (int) u, (int) v, (int) w, th, ws, f0, df, k.m(5), s); };
    else k.run = [&](sdp_Error* s) { sdp_gridder_idft(k.m(0), k.m(1), k.m(2), k.m(3), k.m(4), k.m(5), (int) u, (int) v, (int) w, th, ws, f0, df, k.m(6), s); };
}
REG(sdp_gridder_dft, E_THREADED) { sums(k, false); }
REG(sdp_gridder_idft, E_THREADED) { sums(k, true); }
REG(sdp_gridder_image_to_flmn, E_EXACT)
{
    struct P { sdp_MemType i, l; };
    const P p = k.r.pick<P>({{D, D}, {F, F}, {CD, D}, {CF, F}, {CF, D}}); // image and coordinates
    const int64_t a = k.n(1, 10), b = k.n(1, 10);
    auto nz = std::make_shared<int64_t>(a * b);
    k.arg("image", IN, p.i, {a, b}).free_dim(0, -1).free_dim(1, -1);
    if (p.l == D) k.args[0]->also({D, CD, CF}); else k.args[0]->also({F, CF});
    k.arg("image_taper_1d", IN, D, {std::max(a, b)}).range(0.5, 1).free_dim(0, 1);
    if (a != b) k.args[0]->free_dim(a < b ? 0 : 1, 0);
    k.arg("flux", OUT, D, {a * b + a + b}).free_dim(0, 1).some();
    k.arg("lmn", OUT, p.l, {a * b + a + b, 3}).free_dim(0, 1).some();
    if (p.i == CF) k.args.back()->also({D, F});
    for (int j : {2, 3}) k.args[j]->free_dim(0, -1); // some to spare, see below
    double &th = k.D("theta", 0.1), &u = k.D("shear_u", 0.01), &v = k.D("shear_v", -0.02);
    k.ready();
    k.run = [&, nz](sdp_Error* s) { sdp_gridder_image_to_flmn(k.m(0), th, u, v, k.m(1), k.m(2), k.m(3), s); };
}

// ---------------------------------------------------------------- kernels

REG(sdp_gridder_make_kernel, E_THREADED)
{
    const bool dbl = k.r.b();
    const int64_t sup = 2 * k.n(1, 6), ov = k.r.i(1, 20);
    k.arg("window", IN, dbl ? D : F, {sup}).also({D, F});
    k.arg("kernel", OUT, dbl ? D : F, {ov + 1, sup}).also({D, F}).free_dim(0);
    k.tol = dbl ? 1e-12 : 1e-6;
    k.ready();
    k.run = [&](sdp_Error* s) { sdp_gridder_make_kernel(k.m(0), k.m(1), s); };
}
REG(sdp_gridder_make_pswf_kernel, E_THREADED)
{
    const int64_t sup = 2 * k.r.i(1, 6), ov = k.r.i(1, 20);
    k.arg("kernel", OUT, k.r.b() ? D : F, {ov + 1, sup}).also({D, F}).free_dim(0).free_dim(1);
    int64_t& n = k.I("support", sup, {-1});
    if (k.hostile) n = std::min<int64_t>(n, 100);
    k.tol = 1e-6;
    k.ready();
    k.run = [&](sdp_Error* s) { sdp_gridder_make_pswf_kernel((int) n, k.m(0), s); };
}
REG(sdp_gridder_make_w_pattern, E_THREADED | E_EXACT)
{
    const int64_t n = k.n(1, 20);
    k.arg("w_pattern", INOUT, CD, {n, n}).free_dim(0, 1).free_dim(1, 1);
    int64_t& N = k.I("subgrid_size", n, {n + 1});
    double &t = k.D("theta", 0.1), &u = k.D("shear_u", 0.01), &v = k.D("shear_v", -0.02), &w = k.D("w_step", 100);
    k.ready();
    k.run = [&](sdp_Error* s) { sdp_gridder_make_w_pattern((int) N, t, u, v, w, k.m(0), s); };
}
static void correct(Call& k, bool pswf)
{
    const int64_t n = 2 * k.r.i(2, 15), f0 = std::min(n, k.n(1, n)), f1 = std::min(n, k.n(1, n)), s = 2 * k.r.i(2, 5), ws = 2 * k.r.i(2, 5);
    Arg& f = k.arg("facet", INOUT, pswf ? k.r.pick({CD, CF, D, F}) : k.r.pick({CD, CF}), {f0, f1}).also({CD, CF});
    if (pswf) f.also({D, F});
    f.free_dim(0, -1).free_dim(1, -1);
    const int64_t l0 = -n / 2 + f0 / 2, l1 = n / 2 - (f0 + 1) / 2, m0 = -n / 2 + f1 / 2, m1 = n / 2 - (f1 + 1) / 2;
    int64_t &im = k.I("image_size", n, {0, -1}), &sup = k.I("support", s), &wsup = k.I("w_support", ws), &l = k.I("facet_offset_l", k.r.i(l0, std::max(l0, l1))), &m = k.I("facet_offset_m", k.r.i(m0, std::max(m0, m1))), &wo = k.I("w_offset", k.r.i(-3, 3)), &inv = k.I("inverse", k.r.i(0, 1));
    if (k.hostile) { im = std::min<int64_t>(im, 20000); sup = std::min<int64_t>(sup, 200); wsup = std::min<int64_t>(wsup, 200); }
    double &t = k.D("theta", 0.1), &w = k.D("w_step", 100), &u = k.D("shear_u", 0.01), &v = k.D("shear_v", -0.02);
    k.tol = 1e-5;
    if (!pswf)
    {
        // Nothing to do, so nothing to check, without an offset.
        f.free_dim(0).free_dim(1);
        if (wo == 0) { f.allow(F_TYPE | F_NDIM | F_WRITE | F_LOC); k.bad.clear(); }
    }
    if (l1 > l0) f.free_dim(0, 1);
    if (m1 > m0) f.free_dim(1, 1);
    k.ready();
    if (pswf) k.run = [&](sdp_Error* st) { sdp_gridder_grid_correct_pswf((int) im, t, w, u, v, (int) sup, (int) wsup, k.m(0), (int) l, (int) m, st); };
    else k.run = [&](sdp_Error* st) { sdp_gridder_grid_correct_w_stack((int) im, t, w, u, v, k.m(0), (int) l, (int) m, (int) wo, (int) inv, st); };
}
REG(sdp_gridder_grid_correct_pswf, E_THREADED | E_EXACT) { correct(k, true); }
REG(sdp_gridder_grid_correct_w_stack, E_THREADED | E_EXACT) { correct(k, false); }

// ---------------------------------------------------------------- gridders

struct Gr
{
    int64_t image, N, s, ws, os, wos; double theta, w_step, hu, hv;
    Gr(Call& k)
    {
        s = 2 * k.r.i(2, 4); ws = 2 * k.r.i(2, 4); os = k.r.pick<int64_t>({64, 1024}); wos = k.r.pick<int64_t>({64, 1024});
        N = 2 * k.r.i(6, 12); image = 2 * k.r.i(N / 2, 20); theta = 0.1; w_step = 200; hu = k.r.d(-0.01, 0.01); hv = k.r.d(-0.01, 0.01);
    }
};
static Rows grid_rows(Call& k, const Gr& g, sdp_MemType t)
{
    const Rows q = rows(k);
    const double e = g.N / 2 / g.theta / (q.f0 / 299792458.0);
    k.arg("uvws", IN, t, {q.n, 3}).range(-e, e);
    return q;
}
struct St { sdp_MemType img, uvw, vis; };
static void direct(Call& k, bool grid)
{
    const Gr g(k);
    const St p = grid ? k.r.pick<St>({{CD, D, CD}, {CF, F, CF}}) : k.r.pick<St>({{CD, D, CD}, {D, D, CD}, {CF, D, CD}, {F, F, CF}, {CF, F, CF}});
    sdp_Error st = SDP_SUCCESS;
    sdp_GridderDirect* pl = k.object([&] { return sdp_gridder_direct_create((int) g.image, (int) g.N, g.theta, g.w_step, g.hu, g.hv, (int) g.s, &st); }, sdp_gridder_direct_free);
    // Rows are those of the coordinates; other arrays may have more.
    if (!grid) { Arg& a = k.arg("subgrid_image", IN, p.img, {g.N, g.N}); if (p.uvw == D) a.also({D, CD, CF}); else a.also({F, CF}); a.free_dim(0, -1).free_dim(1, -1); }
    Rows q = grid_rows(k, g, p.uvw);
    k.args.back()->free_dim(0, -1);
    if (grid) k.arg("vis", IN, p.vis, {q.n, q.nc}).free_dim(0, 1).free_dim(1);
    channels(k, q.n, q.nc, true);
    if (grid) k.arg("subgrid_image", INOUT, p.img, {g.N, g.N});
    else k.arg("vis", INOUT, p.vis, {q.n, q.nc}).free_dim(0, 1).free_dim(1);
    int64_t &u = k.I("subgrid_offset_u", k.r.i(-5, 5)), &v = k.I("subgrid_offset_v", k.r.i(-5, 5)), &w = k.I("subgrid_offset_w", k.r.i(-3, 3));
    double &f0 = k.D("freq0_hz", q.f0), &df = k.D("dfreq_hz", q.df);
    k.tol = p.vis == CD ? 1e-9 : 1e-3;
    k.ready();
    if (grid) k.run = [&, pl](sdp_Error* s) { sdp_gridder_direct_grid(pl, k.m(1), k.m(0), k.m(2), k.m(3), f0, df, k.m(4), (int) u, (int) v, (int) w, s); };
    else k.run = [&, pl](sdp_Error* s) { sdp_gridder_direct_degrid(pl, k.m(0), (int) u, (int) v, (int) w, f0, df, k.m(1), k.m(2), k.m(3), k.m(4), s); };
}
REG(sdp_gridder_direct_degrid, E_THREADED) { direct(k, false); }
REG(sdp_gridder_direct_grid, E_THREADED) { direct(k, true); }
REG(sdp_gridder_direct_create, E_CREATE)
{
    const Gr g(k);
    int64_t &a = k.I("image_size", g.image, {0, -1}), &b = k.I("subgrid_size", g.N, {0, -1}), &s = k.I("support", g.s);
    if (k.hostile) for (auto p : {&a, &b, &s}) *p = std::min<int64_t>(*p, 3000);
    double &t = k.D("theta", g.theta), &w = k.D("w_step", g.w_step), &u = k.D("shear_u", g.hu), &v = k.D("shear_v", g.hv);
    k.ready();
    k.run = [&](sdp_Error* st) { sdp_GridderDirect* p = sdp_gridder_direct_create((int) a, (int) b, t, w, u, v, (int) s, st); k.no_object = !p; sdp_gridder_direct_free(p); };
}
static sdp_GridderWtowerUVW* tower(Call& k, const Gr& g)
{
    sdp_Error st = SDP_SUCCESS;
    return k.object([&] { return sdp_gridder_wtower_uvw_create((int) g.image, (int) g.N, g.theta, g.w_step, g.hu, g.hv, (int) g.s, (int) g.os, (int) g.ws, (int) g.wos, &st); }, sdp_gridder_wtower_uvw_free);
}
static void wtower(Call& k, bool grid)
{
    k.tame = true;
    const Gr g(k);
    const St p = k.r.pick<St>({{CD, D, CD}, {CF, D, CF}, {CF, F, CF}, {D, D, CD}, {F, F, CF}, {F, D, CF}});
    sdp_GridderWtowerUVW* pl = tower(k, g);
    if (!grid) k.arg("subgrid_image", IN, p.img, {g.N, g.N}).also({p.vis, p.vis == CD ? D : F});
    Rows q = grid_rows(k, g, p.uvw);
    k.args.back()->tame = true;
    if (p.vis == CF) k.args.back()->also({D, F});
    if (grid) k.arg("vis", IN, p.vis, {q.n, q.nc}).free_dim(1);
    channels(k, q.n, q.nc);
    for (int j = 1; j < 3; ++j) k.args[k.args.size() - j]->tame = true;
    if (grid) k.arg("subgrid_image", INOUT, p.img, {g.N, g.N}).also({CD, CF, D, F});
    else k.arg("vis", INOUT, p.vis, {q.n, q.nc}).free_dim(1);
    if (p.uvw == D && grid) for (auto& x : k.args) if (x->name == "vis") x->also({CD, CF});
    int64_t &u = k.I("subgrid_offset_u", k.r.i(-5, 5)), &v = k.I("subgrid_offset_v", k.r.i(-5, 5)), &w = k.I("subgrid_offset_w", k.r.i(-3, 3));
    double &f0 = k.D("freq0_hz", q.f0), &df = k.D("dfreq_hz", q.df);
    const int64_t lo = k.r.i(0, q.n), hi = k.r.i(lo, q.n); const bool all = k.r.b();
    int64_t &s0 = k.I("start_row", all ? -1 : lo), &s1 = k.I("end_row", all ? -1 : hi);
    k.bad.push_back({"end_row:invalid", [&s0, &s1, q] { s0 = 0; s1 = q.n + 1; }});
    k.tol = p.vis == CD && (p.img == CD || p.img == D) ? 1e-9 : 1e-3;
    k.ready();
    if (grid) k.run = [&, pl](sdp_Error* s) { sdp_gridder_wtower_uvw_grid(pl, k.m(1), k.m(0), k.m(2), k.m(3), f0, df, k.m(4), (int) u, (int) v, (int) w, s0, s1, s); };
    else k.run = [&, pl](sdp_Error* s) { sdp_gridder_wtower_uvw_degrid(pl, k.m(0), (int) u, (int) v, (int) w, f0, df, k.m(1), k.m(2), k.m(3), k.m(4), s0, s1, s); };
}
REG(sdp_gridder_wtower_uvw_degrid, E_THREADED) { wtower(k, false); }
REG(sdp_gridder_wtower_uvw_grid, E_THREADED) { wtower(k, true); }
REG(sdp_gridder_wtower_uvw_create, E_CREATE)
{
    const Gr g(k);
    int64_t &a = k.I("image_size", g.image, {0, -1}), &b = k.I("subgrid_size", g.N, {0, -1}), &s = k.I("support", g.s, {0, -1}), &o = k.I("oversampling", g.os, {0, -1}), &ws = k.I("w_support", g.ws, {0, -1}), &wo = k.I("w_oversampling", g.wos, {0, -1});
    if (k.hostile) { for (auto p : {&a, &b, &o, &wo}) *p = std::min<int64_t>(*p, 2000); for (auto p : {&s, &ws}) *p = std::min<int64_t>(*p, 40); }
    double &t = k.D("theta", g.theta), &w = k.D("w_step", g.w_step), &u = k.D("shear_u", g.hu), &v = k.D("shear_v", g.hv);
    k.ready();
    k.run = [&](sdp_Error* st) { sdp_GridderWtowerUVW* p = sdp_gridder_wtower_uvw_create((int) a, (int) b, t, w, u, v, (int) s, (int) o, (int) ws, (int) wo, st); k.no_object = !p; sdp_gridder_wtower_uvw_free(p); };
}
// The corrections of the gridders, all alike.
#define CORRECT(NAME, PLAN) \
REG(NAME, E_THREADED | E_EXACT) \
{ \
    const Gr g(k); auto pl = PLAN; \
    const int64_t a = std::min(g.image, k.n(1, g.image)), b = std::min(g.image, k.n(1, g.image)); \
    k.arg("facet", INOUT, k.r.pick({CD, CF, D, F}), {a, b}).also({CD, CF, D, F}).free_dim(0).free_dim(1); \
    int64_t &l = k.I("facet_offset_l", 0), &m = k.I("facet_offset_m", 0), &w = k.I("w_offset", k.r.i(-2, 2)); \
    k.tol = 1e-5; k.ready(); \
    k.run = [&, pl](sdp_Error* s) { NAME(pl, k.m(0), (int) l, (int) m, (int) w, s); }; \
}
static sdp_GridderDirect* direct_plan(Call& k, const Gr& g)
{
    sdp_Error st = SDP_SUCCESS;
    return k.object([&] { return sdp_gridder_direct_create((int) g.image, (int) g.N, g.theta, g.w_step, g.hu, g.hv, (int) g.s, &st); }, sdp_gridder_direct_free);
}
CORRECT(sdp_gridder_direct_degrid_correct, direct_plan(k, g))
CORRECT(sdp_gridder_direct_grid_correct, direct_plan(k, g))
CORRECT(sdp_gridder_wtower_uvw_degrid_correct, tower(k, g))
CORRECT(sdp_gridder_wtower_uvw_grid_correct, tower(k, g))

static void whole(Call& k, bool grid)
{
    k.tame = true;
    const int64_t img = 2 * k.r.i(16, 24), N = 2 * k.r.i(10, img / 2 - 2);
    const double theta = 0.1, frac = 0.5, hu = k.r.d(-0.01, 0.01), hv = k.r.d(-0.01, 0.01);
    const St p = k.r.pick<St>({{CD, D, CD}, {D, D, CD}, {CF, F, CF}, {F, F, CF}, {F, D, CF}, {CD, F, CF}});
    const int64_t n = k.r.b(0.2) ? k.n(40, 200) : k.n(1, 40), nc = k.n(1, 4);
    const double f0_ = 1e8, df_ = 1e6, e = k.r.d(0.2, 0.9) * img / 2 / theta / (f0_ * 1.05 / 299792458.0);
    if (!grid) k.arg("image", IN, p.img, {img, img}).also({CD, CF, D, F});
    k.arg("uvw", IN, p.uvw, {n, 3}).range(-e, e).tame = true;
    if (p.vis == CF) k.args.back()->also({D, F});
    Arg& v = k.arg("vis", grid ? IN : OUT, p.vis, {n, nc}).free_dim(1);
    if (p.uvw == D) v.also({CD, CF});
    if (grid) k.arg("image", OUT, p.img, {img, img}).also({CD, CF, D, F}).edge = 0.2;
    const double ws = sdp_gridder_determine_w_step(theta, theta * frac, hu, hv, 0);
    int64_t &sg = k.I("subgrid_size", N, {0, -1}), &s = k.I("support", 6, {0, -1}), &o = k.I("oversampling", 256, {0, -1}), &wsup = k.I("w_support", 6, {0, -1}), &wo = k.I("w_oversampling", 256, {0, -1}), &th = k.I("num_threads", k.r.i(0, 4));
    double &f0 = k.D("freq0_hz", f0_), &df = k.D("dfreq_hz", df_), &t = k.D("theta", theta, {NAN}), &w = k.D("w_step", ws, {NAN}), &u = k.D("shear_u", hu), &vv = k.D("shear_v", hv), &sf = k.D("subgrid_frac", k.r.pick({0.3, 0.4})), &h = k.D("w_tower_height", k.r.pick({1., 2., 4.}));
    if (k.hostile) { th = std::min<int64_t>(std::max<int64_t>(th, -2), 16); for (auto x : {&s, &wsup}) *x = std::min<int64_t>(*x, 20); for (auto x : {&o, &wo}) *x = std::min<int64_t>(*x, 2000); sg = std::min<int64_t>(sg, 200); }
    k.tol = p.vis == CD ? 1e-8 : 2e-3;
    k.ready();
    if (grid) k.run = [&](sdp_Error* st) { sdp_grid_wstack_wtower_grid_all(k.m(1), f0, df, k.m(0), (int) sg, t, w, u, vv, (int) s, (int) o, (int) wsup, (int) wo, sf, h, 0, k.m(2), (int) th, st); };
    else k.run = [&](sdp_Error* st) { sdp_grid_wstack_wtower_degrid_all(k.m(0), f0, df, k.m(1), (int) sg, t, w, u, vv, (int) s, (int) o, (int) wsup, (int) wo, sf, h, 0, k.m(2), (int) th, st); };
}
REG(sdp_grid_wstack_wtower_degrid_all, E_THREADED | E_SLOW) { whole(k, false); }
REG(sdp_grid_wstack_wtower_grid_all, E_THREADED | E_SLOW) { whole(k, true); }

REG(sdp_gridder_worst_case_image, E_EXACT)
{
    const int64_t n = 2 * k.n(2, 16);
    k.arg("image", INOUT, CD, {n, n});
    double &t = k.D("theta", 0.1, {0, -1, NAN}), &f = k.D("fov", k.r.d(std::min(1., 2.001 / n), 1) * 0.1);
    k.ready();
    k.run = [&](sdp_Error* s) { sdp_gridder_worst_case_image(t, f, k.m(0), s); };
}
REG(sdp_gridder_determine_max_w_tower_height, E_THREADED | E_SLOW)
{
    k.tame = k.may_fail = true; // any height may meet the target
    Gr g(k); g.s = g.ws = 4; g.os = g.wos = 64; g.N = 2 * k.r.i(6, 8);
    const double fov = 0.05;
    int64_t &a = k.I("image_size", g.image, {0, -1}), &b = k.I("subgrid_size", g.N, {0, -1}), &s = k.I("support", g.s, {0, -1}), &o = k.I("oversampling", g.os, {0, -1}), &ws = k.I("w_support", g.ws, {0, -1}), &wo = k.I("w_oversampling", g.wos, {0, -1}), &ns = k.I("num_samples", 2, {-1});
    if (k.hostile) { a = std::min<int64_t>(a, 60); b = std::min<int64_t>(b, 60); for (auto p : {&s, &ws}) *p = std::min<int64_t>(*p, 12); for (auto p : {&o, &wo}) *p = std::min<int64_t>(*p, 200); ns = std::min<int64_t>(ns, 3); }
    double &t = k.D("theta", g.theta), &w = k.D("w_step", sdp_gridder_determine_w_step(g.theta, fov, g.hu, g.hv, 0)), &u = k.D("shear_u", g.hu), &v = k.D("shear_v", g.hv), &f = k.D("fov", fov), &sf = k.D("subgrid_frac", 0.5), &er = k.D("target_err", 0);
    k.tol = 1e-6;
    k.ready();
    k.run = [&](sdp_Error* st) { const double h = sdp_gridder_determine_max_w_tower_height((int) a, (int) b, t, w, u, v, (int) s, (int) o, (int) ws, (int) wo, f, sf, (int) ns, er, st); if (!*st) k.out.push_back(h); };
}

REG(sdp_degrid_uvw_custom, 0)
{
    const int64_t ks = k.n(1, 6), ov = k.n(1, 16), kw = k.n(1, 4), ow = k.n(1, 8), n = k.r.i(8, 20), nc = k.n(1, 4), np = k.r.pick<int64_t>({1, 4}), nt = k.n(1, 4), nb = k.n(1, 8);
    k.arg("grid", IN, CD, {nc, kw, n, n, np}).cont().free_dim(1, 1).free_dim(2).free_dim(3);
    k.arg("uvw", IN, D, {nt, nb, 3}).cont().range(-0.7 * n / 0.1 * 3, 0.7 * n / 0.1 * 3);
    k.arg("uv_kernel", IN, D, {ov, ks}).cont().free_dim(0).free_dim(1);
    k.arg("w_kernel", IN, D, {ow, kw}).cont().free_dim(0).free_dim(1, -1);
    k.arg("vis", INOUT, CD, {nt, nb, nc, np}).cont();
    double &t = k.D("theta", 0.1), &w = k.D("wstep", 100), &f0 = k.D("channel_start_hz", 1e8), &df = k.D("channel_step_hz", 1e6);
    int64_t& cj = k.I("conjugate", k.r.i(0, 1));
    k.tol = 1e-12;
    k.ready();
    k.run = [&](sdp_Error* s) { sdp_degrid_uvw_custom(k.m(0), k.m(1), k.m(2), k.m(3), t, w, f0, df, (int32_t) cj, k.m(4), s); };
}
