// Gridding and degridding of whole data sets, against exact Fourier sums.
#include "wtower.h"
#include "ska-sdp-func/grid_data/sdp_grid_wstack_wtower.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
using namespace vh;
using namespace orc;

namespace {
struct Set
{
    int image, N, s, os, ws, wos, nuv, nch, threads; double theta, frac, w_step, hu, hv, f0, df, sg_frac, height, tol;
    bool dbl, dbl_uvw;
    Arr uvw, vis, img;
    struct S { int a, b; double f; }; std::vector<S> src;
    int half;
    Set(Case& c, Rng& r, bool grid)
    {
        image = 2 * (int) r.i(28, 48); N = 2 * (int) r.i(22, image / 2); s = (int) r.pick({6, 8}); os = 16384;
        ws = r.b(0.7) ? s : 14 - s; wos = r.b(0.7) ? os : (int) r.pick({8192, 32768});
        theta = r.d(0.02, 0.2); frac = r.d(0.3, 0.6);
        hu = r.b() ? 0 : r.d(-0.02, 0.02); hv = r.b() ? 0 : r.d(-0.02, 0.02);
        const double fov = theta * frac;
        w_step = sdp_gridder_determine_w_step(theta, fov, hu, hv, 0);
        sg_frac = r.pick({0.25, 0.3, 0.35, 0.4, 0.45});
        height = r.pick({1., 2., 3., 4., 2.5});
        nuv = (int) r.li(1, 250); nch = (int) r.li(1, 16); if (r.b(0.02)) nuv = 0; else if (r.b(0.02)) nch = 0;
        threads = (int) r.pick({1, 1, 2, 3, 4, 8, 0});
        // Many visibilities in a few sub-grids, so that several threads share one.
        const bool crowd = r.b(0.06);
        if (crowd) { nch = (int) r.i(1, 8); nuv = (int) r.i(2100, 7000) / nch; }
        f0 = r.d(5e7, 3e8); df = nch > 1 ? r.d(-1e6, 4e6) : r.pick({0., 1e5, -1e5});
        if (f0 + nch * df < 2e7) df = 1e6;
        dbl = r.b(0.6); dbl_uvw = dbl || r.b();
        uvw = Arr(real_t(dbl_uvw), {nuv, 3}, (int) r.i(0, 3), &r);
        // Coordinates, some of them beyond the edges of the grid.
        const double e = image / 2 / theta * (crowd ? 0.05 : r.pick({0.05, 0.3, 0.9, 1.3})), we = w_step * (crowd ? r.pick({0., 1.}) : r.pick({0., 1., 6., 20.}));
        const double fm = std::max(f0, f0 + df * nch) / 299792458.0;
        for (int i = 0; i < nuv; ++i)
        {
            uvw.set({i, 0}, r.d(-e, e) / fm); uvw.set({i, 1}, r.d(-e, e) / fm); uvw.set({i, 2}, r.d(-we, we) / fm);
            if (r.b(0.05)) uvw.set({i, (int) r.i(0, 2)}, 0);
            if (r.b(0.05)) // on the boundary between sub-grids
                uvw.set({i, (int) r.i(0, 1)}, (r.i(-3, 3) + 0.5) * std::floor(N * sg_frac) / theta / (f0 / 299792458.0));
        }
        // On the boundary between w-planes, some of them the furthest of all.
        if (r.b(0.15)) for (int i = 0; i < nuv; ++i)
            if (r.b(0.5)) uvw.set({i, 2}, (r.i(-2, 2) + 0.5) * (w_step * height) / ((f0 + df * r.i(0, std::max(nch - 1, 0))) / 299792458.0));
        vis = Arr(cplx_t(dbl), {nuv, nch}, (int) (grid ? r.i(0, 3) : 0), &r);
        const int it = (int) r.i(0, 3);
        const sdp_MemType types[] = {SDP_MEM_FLOAT, SDP_MEM_DOUBLE, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE};
        img = Arr(types[it], {image, image}, grid ? 0 : (int) r.i(0, 3), &r);
        half = std::max(0, (int) (frac * image / 2) - 1);
        tol = wt::accuracy(std::min(s, ws), frac);
        c.note("%s uvw=%s image=%s %d subgrid=%d support=%d,%d oversampling=%d,%d theta=%.17g fov=%.17g w_step=%.17g shear=%.17g,%.17g fraction=%g height=%g rows=%d channels=%d threads=%d f0=%.17g df=%.17g",
                dbl ? "double" : "float", dbl_uvw ? "double" : "float", type_name(img.type), image, N, s, ws, os, wos, theta, fov, w_step, hu, hv, sg_frac, height, nuv, nch, threads, f0, df);
        c.mix(r.s);
        if (nuv == 0 || nch == 0) c.trivial = true;
    }
    void coord(int i, int ch, ld x[3]) const
    {
        const ld f = ((ld) f0 + (ld) df * ch) / C0;
        for (int k = 0; k < 3; ++k) x[k] = (ld) uvw.get(3 * i + k).real() * f;
    }
    // Within the range of the known finding of the gridding kernel (see P21)?
    bool upper(const ld x[3]) const
    {
        if (x[2] == 0) return false;
        const ld q = x[2] / w_step, z = q - floorl(q);
        return z > 1 - 0.6L / wos || z < 1e-9L;
    }
};
}

FAMILY(degrid_all, 90, 1200)
{
    Rng& r = c.rng;
    Set q(c, r, false);
    q.img.fill(0);
    ld tot = 0;
    const int ns = (int) r.i(1, 8);
    for (int k = 0; k < ns; ++k)
    {
        const Set::S p{q.image / 2 + (int) r.i(-q.half, q.half), q.image / 2 + (int) r.i(-q.half, q.half), r.d(-2, 2)};
        q.img.set({p.a, p.b}, p.f);
    }
    for (int a = 0; a < q.image; ++a) for (int b = 0; b < q.image; ++b) if (q.img({a, b}) != cd(0)) { q.src.push_back({a, b, q.img.r({a, b})}); tot += fabs(q.img.r({a, b})); }
    q.vis.fill_random(r); q.vis.snapshot();
    for (auto a : {&q.uvw, &q.img}) { a->read_only(true); a->snapshot(); }
    sdp_Error st = SDP_SUCCESS;
    sdp_grid_wstack_wtower_degrid_all(q.img.mem, q.f0, q.df, q.uvw.mem, q.N, q.theta, q.w_step, q.hu, q.hv, q.s, q.os, q.ws, q.wos, q.sg_frac, q.height, r.b(0.2) ? 2 : 0, q.vis.mem, q.threads, &st);
    if (st && q.nuv && q.nch) c.fatal("status", "valid call failed with %d", (int) st);
    for (auto a : {&q.uvw, &q.img}) if (!a->unchanged()) c.fail("inputs_changed", "an input was modified");
    if (!q.vis.surround_unchanged()) c.fail("frame", "memory between output elements changed");
    double worst = 0;
    for (int i = 0; i < q.nuv; ++i) for (int ch = 0; ch < q.nch; ++ch)
    {
        ld x[3]; q.coord(i, ch, x);
        if (q.upper(x)) { c.count("position_of_known_finding"); continue; }
        cl sum = 0;
        for (auto& p : q.src)
        {
            const ld l = (p.a - q.image / 2) * (ld) q.theta / q.image, m = (p.b - q.image / 2) * (ld) q.theta / q.image;
            sum += (ld) p.f * cis(-2 * PI_L * (l * x[0] + m * x[1] + n_of(l, m, q.hu, q.hv) * x[2]));
        }
        const cd v = q.vis.get((int64_t) i * q.nch + ch);
        worst = std::max(worst, (double) (std::abs(sum - cl(v.real(), v.imag())) / tot));
        if (getenv("VH_ACC")) continue;
        char wh[60]; snprintf(wh, 60, "vis [%d,%d]", i, ch);
        if (!c.near_("degrid_all", v, cd((double) sum.real(), (double) sum.imag()), (double) tot * q.tol + 1e-6, wh)) return;
        c.count("visibilities_compared");
    }
    if (getenv("VH_ACC")) fprintf(stderr, "ACC %d %d %.3f %.2f %.1f %.3e\n", q.s, q.N, q.frac, q.sg_frac, q.height, worst);
}

FAMILY(grid_all, 90, 1200)
{
    Rng& r = c.rng;
    Set q(c, r, true);
    q.vis.fill_random(r);
    const double p0 = r.pick({0., 0., 0.5, 0.95});
    ld tot = 0;
    for (int i = 0; i < q.nuv; ++i) for (int ch = 0; ch < q.nch; ++ch)
    {
        const int64_t k = (int64_t) i * q.nch + ch;
        ld x[3]; q.coord(i, ch, x);
        if (q.upper(x)) { c.count("position_of_known_finding"); q.vis.set(k, 0); }
        if (r.b(p0)) q.vis.set(k, 0);
        tot += std::abs(q.vis.get(k));
    }
    q.img.fill_random(r); q.img.snapshot();
    for (auto a : {&q.uvw, &q.vis}) { a->read_only(true); a->snapshot(); }
    sdp_Error st = SDP_SUCCESS;
    sdp_grid_wstack_wtower_grid_all(q.vis.mem, q.f0, q.df, q.uvw.mem, q.N, q.theta, q.w_step, q.hu, q.hv, q.s, q.os, q.ws, q.wos, q.sg_frac, q.height, r.b(0.2) ? 2 : 0, q.img.mem, q.threads, &st);
    if (st && q.nuv && q.nch) c.fatal("status", "valid call failed with %d", (int) st);
    if (st) return;
    for (auto a : {&q.uvw, &q.vis}) if (!a->unchanged()) c.fail("inputs_changed", "an input was modified");
    double worst = 0;
    for (int k = 0; k < 25; ++k)
    {
        const int a = q.image / 2 + (int) r.i(-q.half, q.half), b = q.image / 2 + (int) r.i(-q.half, q.half);
        const ld l = (a - q.image / 2) * (ld) q.theta / q.image, m = (b - q.image / 2) * (ld) q.theta / q.image, n = n_of(l, m, q.hu, q.hv);
        cl sum = 0;
        for (int i = 0; i < q.nuv; ++i) for (int ch = 0; ch < q.nch; ++ch)
        {
            const cd v = q.vis.get((int64_t) i * q.nch + ch);
            if (v == cd(0)) continue;
            ld x[3]; q.coord(i, ch, x);
            const double ph = (double) remainderl(l * x[0] + m * x[1] + n * x[2], 1) * 2 * M_PI;
            sum += cl(v.real(), v.imag()) * cl(cos(ph), sin(ph));
        }
        if (!q.img.is_complex()) sum = cl(sum.real(), 0);
        const cd v = q.img({a, b});
        if (tot > 0) worst = std::max(worst, (double) (std::abs(sum - cl(v.real(), v.imag())) / tot));
        if (getenv("VH_ACC")) continue;
        char wh[60]; snprintf(wh, 60, "pixel [%d,%d]", a, b);
        if (!c.near_("grid_all", v, cd((double) sum.real(), (double) sum.imag()), (double) tot * q.tol, wh)) return;
        c.count("pixels_compared");
    }
    if (getenv("VH_ACC")) fprintf(stderr, "ACCG %d %d %.3f %.2f %.1f %.3e\n", q.s, q.N, q.frac, q.sg_frac, q.height, worst);
}
