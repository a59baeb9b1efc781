// W-tower gridding and degridding: against its defining kernel sum, and against
// the exact Fourier sum of the image.
#include "wtower.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.h"
using namespace vh;
using namespace orc;

namespace {
struct Set
{
    wt::Par p;
    bool dbl, dbl_uvw;
    int nuv, nch, ou, ov, ow; int64_t r0, r1;
    double f0, df;
    Arr uvw, s, e, vis;
    std::vector<wt::Place> place; // per visibility
    Set(Case& c, Rng& r, bool force_dbl, bool thorough)
    {
        dbl = force_dbl || r.b(0.6); dbl_uvw = dbl || r.b();
        p.N = 2 * (int) r.i(4, thorough ? 20 : 12); p.image = p.N * (int) r.i(1, 8);
        p.s = 2 * (int) r.i(1, 4); p.ws = 2 * (int) r.i(1, 4);
        const bool large = r.b(0.04);
        if (large) { p.N = 2 * (int) r.i(12, 40); p.image = p.N * (int) r.i(1, 4); p.s = 2 * (int) r.i(3, 7); p.ws = 2 * (int) r.i(2, 6); }
        p.os = (int) r.pick({1, 2, 3, 8, 64, 1024}); p.wos = (int) r.pick({1, 2, 3, 8, 64, 1024});
        p.theta = r.d(0.01, 0.3); p.w_step = r.d(1, 60);
        p.hu = r.b(0.6) ? 0 : r.d(-0.1, 0.1); p.hv = r.b(0.6) ? 0 : r.d(-0.1, 0.1);
        nuv = (int) r.li(1, 40); nch = (int) r.li(1, 8);
        if (large) { nuv = (int) r.i(1, 8); nch = (int) r.i(1, 3); }
        else if (r.b(0.03)) { if (r.b()) { nuv = (int) r.i(100, 400); nch = 1; } else { nuv = 1; nch = (int) r.i(60, 300); } }
        ou = r.b(0.3) ? 0 : (int) r.i(-200, 200); ov = r.b(0.3) ? 0 : (int) r.i(-200, 200); ow = r.b(0.3) ? 0 : (int) r.i(-20, 20);
        f0 = r.d(5e7, 3e8); df = nch > 1 ? r.d(-1e6, 4e6) : r.pick({0., 1e5, -1e5});
        uvw = Arr(real_t(dbl_uvw), {nuv, 3}, (int) r.i(0, 3), &r);
        s = Arr(SDP_MEM_INT, {nuv}, (int) r.i(0, 3), &r); e = Arr(SDP_MEM_INT, {nuv}, (int) r.i(0, 3), &r);
        // Extent of the coordinates, about the centre of the sub-grid.
        const double ext = r.pick({0.3, 0.9, 1.0, 2.0}) * p.N / 2, wext = r.pick({0.0, 0.5, 3.0, 8.0});
        const bool narrow = r.b(0.3);
        for (int i = 0; i < nuv; ++i)
        {
            const double fr = f0 + df * r.i(0, nch - 1), q = 299792458.0 / fr;
            uvw.set({i, 0}, q * (ou + r.d(-ext, ext)) / p.theta);
            uvw.set({i, 1}, q * (ov + r.d(-ext, ext)) / p.theta);
            uvw.set({i, 2}, q * (ow + (narrow ? 0.3 : 1) * r.d(-wext, wext)) * p.w_step);
            if (r.b(0.06)) uvw.set({i, (int) r.i(0, 2)}, 0);
            // Exactly on, or just to one side of, a plane.
            if (r.b(0.05)) uvw.set({i, 2}, q * p.w_step * (double) (ow + r.i(-2, 2)) * (1 + r.pick({0., 1e-13, -1e-13})));
            int a = 0, b = nch;
            if (r.b(0.3)) { a = (int) r.i(0, nch); b = (int) r.i(0, nch); }
            s.set(i, a); e.set(i, b);
        }
        r0 = 0; r1 = nuv;
        if (r.b(0.3)) { r0 = r.i(0, nuv); r1 = r.i(0, nuv); }
        vis = Arr(cplx_t(dbl), {nuv, nch}, (int) r.i(0, 3), &r);
        vis.fill_random(r);
        p.make();
        c.note("%s uvw=%s rows=%d [%lld,%lld) channels=%d offset=%d,%d,%d N=%d image=%d support=%d,%d oversampling=%d,%d theta=%.17g w_step=%.17g f0=%.17g df=%.17g shear=%.17g,%.17g",
                dbl ? "double" : "float", dbl_uvw ? "double" : "float", nuv, (long long) r0, (long long) r1, nch, ou, ov, ow, p.N, p.image, p.s, p.ws, p.os, p.wos, p.theta, p.w_step, f0, df, p.hu, p.hv);
        c.mix(r.s);
    }
    void locate(bool use_rows)
    {
        place.resize((size_t) nuv * nch);
        for (int i = 0; i < nuv; ++i)
        {
            const int a = std::max(0, (int) s.get(i).real()), b = std::min(nch, (int) e.get(i).real());
            for (int ch = 0; ch < nch; ++ch)
            {
                auto& q = place[(size_t) i * nch + ch];
                q = wt::Place();
                q.selected = ch >= a && ch < b && (!use_rows || (i >= r0 && i < r1));
                if (!q.selected) continue;
                const ld f = ((ld) f0 + (ld) df * ch) / C0;
                p.place(q, (ld) uvw.get(3 * i).real() * f * p.theta - ou, (ld) uvw.get(3 * i + 1).real() * f * p.theta - ov, (ld) uvw.get(3 * i + 2).real() * f / p.w_step - ow);
            }
        }
        // Visibilities of one row and plane are processed together: those that
        // would fit, but share it with one that does not, may be left out.
        for (int i = 0; i < nuv; ++i) for (int ch = 0; ch < nch; ++ch)
        {
            auto& q = place[(size_t) i * nch + ch];
            if (!q.selected || q.fit == wt::OUT) continue;
            for (int k = 0; k < nch; ++k)
            {
                auto& o = place[(size_t) i * nch + k];
                if (o.selected && o.fit != wt::IN && o.near_plane(q)) q.fit = wt::MAYBE;
            }
        }
    }
};

sdp_GridderWtowerUVW* create(Case& c, const wt::Par& p)
{
    sdp_Error st = SDP_SUCCESS;
    auto* g = sdp_gridder_wtower_uvw_create(p.image, p.N, p.theta, p.w_step, p.hu, p.hv, p.s, p.os, p.ws, p.wos, &st);
    if (st) c.fatal("create", "creation failed with %d", (int) st);
    if (sdp_gridder_wtower_uvw_image_size(g) != p.image || sdp_gridder_wtower_uvw_subgrid_size(g) != p.N || sdp_gridder_wtower_uvw_support(g) != p.s ||
            sdp_gridder_wtower_uvw_w_support(g) != p.ws || sdp_gridder_wtower_uvw_oversampling(g) != p.os || sdp_gridder_wtower_uvw_w_oversampling(g) != p.wos ||
            sdp_gridder_wtower_uvw_theta(g) != p.theta || sdp_gridder_wtower_uvw_w_step(g) != p.w_step || sdp_gridder_wtower_uvw_shear_u(g) != p.hu || sdp_gridder_wtower_uvw_shear_v(g) != p.hv)
        c.fail("accessors", "a plan parameter differs from the value given");
    return g;
}
void random_image(Rng& r, Arr& img)
{
    img.fill_random(r);
    const double p0 = r.pick({0., 0.5, 0.97});
    for (int64_t k = 0; k < img.n(); ++k) if (r.b(p0)) img.set(k, 0);
}
}

FAMILY(degrid, 900, 12000)
{
    Rng& r = c.rng;
    Set q(c, r, false, c.thorough);
    const wt::Par& p = q.p;
    Arr img(r.b(0.7) ? cplx_t(q.dbl) : real_t(q.dbl), {p.N, p.N}, (int) r.i(0, 3), &r);
    random_image(r, img);
    const bool all_rows = r.b(0.3);
    q.locate(!all_rows);
    std::vector<Arr*> ins = {&q.uvw, &q.s, &q.e, &img};
    for (auto a : ins) { a->read_only(true); a->snapshot(); }
    q.vis.snapshot(); auto before = q.vis.values();
    auto* g = create(c, p);
    sdp_Error st = SDP_SUCCESS;
    sdp_gridder_wtower_uvw_degrid(g, img.mem, q.ou, q.ov, q.ow, q.f0, q.df, q.uvw.mem, q.s.mem, q.e.mem, q.vis.mem, all_rows ? -1 : q.r0, all_rows ? -1 : q.r1, &st);
    const int planes = sdp_gridder_wtower_uvw_num_w_planes(g, 0), planes1 = sdp_gridder_wtower_uvw_num_w_planes(g, 1);
    sdp_gridder_wtower_uvw_free(g);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    if (planes < 0 || planes1 != 0) c.fail("plane_count", "w-plane counters are %d, %d", planes, planes1);
    for (auto a : ins) if (!a->unchanged()) c.fail("inputs_changed", "an input was modified");
    if (!q.vis.surround_unchanged()) c.fail("frame", "memory between output elements changed");
    wt::Planes F(p, img.values());
    ld tot = 0; for (auto& v : img.values()) tot += std::abs(v);
    int used = 0, known = 0;
    for (int i = 0; i < q.nuv; ++i) for (int ch = 0; ch < q.nch; ++ch)
    {
        const int64_t k = (int64_t) i * q.nch + ch;
        const auto& o = q.place[k];
        const cd got = q.vis.get(k);
        char wh[60]; snprintf(wh, 60, "vis [%d,%d]", i, ch);
        if (!o.selected) { if (got != before[k]) c.fatal("not_selected", "%s not selected but changed", wh); c.count("not_selected"); continue; }
        if (o.fit == wt::OUT) { if (got != before[k]) c.fatal("outside", "%s does not fit in the sub-grid but was changed", wh); c.count("outside_left_out"); continue; }
        if (o.fit == wt::MAYBE && got == before[k]) { c.count("may_be_left_out"); continue; }
        const double tol = (double) (tot + std::abs(before[k])) * (q.dbl ? p.eps() : 1e-5);
        // Nearest of the acceptable values.
        cd best = 0; double bd = 1e300; int n = 0;
        for (auto& cell : o.cells())
        {
            const cl v = F.value(cell);
            const cd ref((double) (before[k].real() + v.real()), (double) (before[k].imag() + v.imag()));
            if (std::abs(ref - got) < bd) { bd = std::abs(ref - got); best = ref; }
            ++n;
        }
        if (!(bd < 1e300)) best = cd(NAN, 0);
        if (bd > tol)
        {
            // Position nearest to the upper plane, taken to be on the lower one?
            for (auto cell : o.cells()) if (cell.fw == p.wos)
            {
                cell.fw = 0;
                const cl v = F.value(cell);
                if (std::abs(cd((double) (before[k].real() + v.real()), (double) (before[k].imag() + v.imag())) - got) > tol) continue;
                if (!known++) c.fail("w_kernel_at_upper_plane", "%s nearest to the upper plane is degridded as if on the lower plane: got (%g,%g) expected (%g,%g)", wh, got.real(), got.imag(), best.real(), best.imag());
                bd = 0; break;
            }
            if (bd == 0) { c.count("known_finding"); continue; }
        }
        if (!c.near_("degrid", got, best, tol, wh)) return;
        ++used; c.count(n > 1 ? "compared_on_cell_boundary" : "visibilities_compared");
    }
    if (!used) c.trivial = true;
}

FAMILY(grid, 700, 10000)
{
    Rng& r = c.rng;
    Set q(c, r, false, c.thorough);
    const wt::Par& p = q.p;
    Arr img(cplx_t(r.b(0.8) ? q.dbl : !q.dbl), {p.N, p.N}, (int) r.i(0, 3), &r);
    if (r.b()) img.fill_random(r); else img.fill(0);
    const bool all_rows = r.b(0.3);
    q.locate(!all_rows);
    int used = 0; ld tot = 0;
    wt::Planes F(p);
    for (int64_t k = 0; k < q.vis.n(); ++k)
    {
        auto& o = q.place[k];
        if (!o.selected || o.fit == wt::OUT) { c.count("left_out"); continue; }
        bool upper = false; for (auto& w : o.cw) upper = upper || w.second == p.wos;
        if (o.fit == wt::MAYBE || o.cells().size() > 1 || upper) { q.vis.set(k, 0); c.count("not_decidable"); continue; }
        F.add(o.cells()[0], q.vis.get(k)); tot += std::abs(q.vis.get(k)); ++used; c.count("visibilities_gridded");
    }
    if (!used) c.trivial = true;
    std::vector<Arr*> ins = {&q.uvw, &q.s, &q.e, &q.vis};
    for (auto a : ins) { a->read_only(true); a->snapshot(); }
    img.snapshot(); auto before = img.values();
    auto* g = create(c, p);
    sdp_Error st = SDP_SUCCESS;
    sdp_gridder_wtower_uvw_grid(g, q.vis.mem, q.uvw.mem, q.s.mem, q.e.mem, q.f0, q.df, img.mem, q.ou, q.ov, q.ow, all_rows ? -1 : q.r0, all_rows ? -1 : q.r1, &st);
    if (sdp_gridder_wtower_uvw_num_w_planes(g, 1) < 0 || sdp_gridder_wtower_uvw_num_w_planes(g, 0) != 0) c.fail("plane_count", "w-plane counters are wrong");
    sdp_gridder_wtower_uvw_free(g);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    for (auto a : ins) if (!a->unchanged()) c.fail("inputs_changed", "an input was modified");
    if (!img.surround_unchanged()) c.fail("frame", "memory between output elements changed");
    const auto ref = F.image();
    const bool flt = !q.dbl || !img.is_double();
    for (int64_t k = 0; k < img.n(); ++k)
    {
        const cd v((double) (before[k].real() + ref[k].real()), (double) (before[k].imag() + ref[k].imag()));
        char wh[60]; snprintf(wh, 60, "pixel %lld", (long long) k);
        if (!c.near_("grid", img.get(k), v, (double) (tot + std::abs(before[k])) * (flt ? 1e-5 : p.eps()), wh)) return;
        c.count("pixels_compared");
    }
}

// Gridding of one visibility nearest to the upper of its two planes.
FAMILY(grid_upper, 40, 400)
{
    Rng& r = c.rng;
    Set q(c, r, true, c.thorough);
    const wt::Par& p = q.p;
    Arr uvw(SDP_MEM_DOUBLE, {1, 3}), s(SDP_MEM_INT, {1}), e(SDP_MEM_INT, {1}), vis(SDP_MEM_COMPLEX_DOUBLE, {1, 1}), img(SDP_MEM_COMPLEX_DOUBLE, {p.N, p.N});
    img.fill(0); vis.fill_random(r); s.set(0, 0); e.set(0, 1);
    const double lam = 299792458.0 / q.f0, fr = (p.wos - r.d(0.05, 0.45)) / p.wos;
    uvw.set(0, lam * r.d(-1, 1) / p.theta); uvw.set(1, lam * r.d(-1, 1) / p.theta); uvw.set(2, lam * p.w_step * ((double) r.i(-5, 5) + fr));
    wt::Place o; const ld f = (ld) q.f0 / C0;
    p.place(o, (ld) uvw.get(0).real() * f * p.theta, (ld) uvw.get(1).real() * f * p.theta, (ld) uvw.get(2).real() * f / p.w_step);
    if (o.fit != wt::IN || o.cells().size() != 1) { c.trivial = true; return; }
    auto* g = create(c, p);
    sdp_Error st = SDP_SUCCESS;
    sdp_gridder_wtower_uvw_grid(g, vis.mem, uvw.mem, s.mem, e.mem, q.f0, 1e5, img.mem, 0, 0, 0, -1, -1, &st);
    sdp_gridder_wtower_uvw_free(g);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    double d[2] = {0, 0};
    for (int k = 0; k < 2; ++k)
    {
        wt::Planes F(p); auto cell = o.cells()[0]; if (k) cell.fw = 0;
        F.add(cell, vis.get(0));
        const auto ref = F.image();
        for (int64_t j = 0; j < img.n(); ++j) d[k] = std::max(d[k], (double) std::abs(ref[j] - cl(img.get(j).real(), img.get(j).imag())));
    }
    const double tol = std::abs(vis.get(0)) * p.eps();
    c.count("images_compared");
    if (d[0] <= tol) return;
    if (d[1] <= tol) c.fail("w_kernel_at_upper_plane", "a visibility nearest to the upper plane is gridded as if on the lower plane: |diff|=%g", d[0]);
    else c.fail("grid", "gridded image is wrong: |diff|=%g (%g with the other row) tol=%g", d[0], d[1], tol);
}

FAMILY(adjoint, 500, 6000)
{
    Rng& r = c.rng;
    Set q(c, r, true, c.thorough);
    const wt::Par& p = q.p;
    Arr x(SDP_MEM_COMPLEX_DOUBLE, {p.N, p.N}), gy(SDP_MEM_COMPLEX_DOUBLE, {p.N, p.N}), y(SDP_MEM_COMPLEX_DOUBLE, {q.nuv, q.nch});
    x.fill_random(r); y.fill_random(r); gy.fill(0); q.vis.fill(0);
    auto* g = create(c, p);
    sdp_Error st = SDP_SUCCESS;
    sdp_gridder_wtower_uvw_degrid(g, x.mem, q.ou, q.ov, q.ow, q.f0, q.df, q.uvw.mem, q.s.mem, q.e.mem, q.vis.mem, q.r0, q.r1, &st);
    sdp_gridder_wtower_uvw_grid(g, y.mem, q.uvw.mem, q.s.mem, q.e.mem, q.f0, q.df, gy.mem, q.ou, q.ov, q.ow, q.r0, q.r1, &st);
    sdp_gridder_wtower_uvw_free(g);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    cl a = 0, b = 0; ld sz = 0;
    for (int64_t k = 0; k < y.n(); ++k) { cd t = q.vis.get(k) * std::conj(y.get(k)); a += cl(t.real(), t.imag()); sz += std::abs(t); if (q.vis.get(k) != cd(0)) c.count("visibilities"); }
    for (int64_t k = 0; k < x.n(); ++k) { cd t = x.get(k) * std::conj(gy.get(k)); b += cl(t.real(), t.imag()); sz += std::abs(t); }
    if (sz == 0) c.trivial = true;
    c.near_("adjoint", cd((double) a.real(), (double) a.imag()), cd((double) b.real(), (double) b.imag()), (double) sz * 10 * p.eps() + 1e-12);
    c.count("adjoint_pairs");
}

// Corrected image degridded from one sub-grid spanning the whole grid, against
// the direct Fourier sum over the sources; and the same for gridding.
FAMILY(accuracy, 300, 4000)
{
    Rng& r = c.rng;
    wt::Par p;
    p.N = 2 * (int) r.i(16, 32); p.image = p.N; p.s = 2 * (int) r.i(3, 5); p.ws = 2 * (int) r.i(3, 5);
    p.os = 16384; p.wos = 16384;
    p.hu = r.b() ? 0 : r.d(-0.05, 0.05); p.hv = r.b() ? 0 : r.d(-0.05, 0.05);
    p.theta = r.d(0.02, 0.25);
    const double frac = r.d(0.2, 0.7), fov = p.theta * frac; // part of the image with sources
    p.w_step = sdp_gridder_determine_w_step(p.theta, fov, p.hu, p.hv, 0);
    const int nuv = (int) r.i(1, 12), woff = r.b() ? 0 : (int) r.i(-30, 30);
    const double f0 = 299792458.0;
    c.note("N=%d support=%d,%d theta=%.17g fov=%.17g w_step=%.17g shear=%.17g,%.17g rows=%d w offset=%d", p.N, p.s, p.ws, p.theta, fov, p.w_step, p.hu, p.hv, nuv, woff); c.mix(r.s);
    Arr uvw(SDP_MEM_DOUBLE, {nuv, 3}), s(SDP_MEM_INT, {nuv}), e(SDP_MEM_INT, {nuv}), vis(SDP_MEM_COMPLEX_DOUBLE, {nuv, 1}), img(SDP_MEM_COMPLEX_DOUBLE, {p.N, p.N}), y(SDP_MEM_COMPLEX_DOUBLE, {nuv, 1}), gy(SDP_MEM_COMPLEX_DOUBLE, {p.N, p.N});
    vis.fill(0); img.fill(0); gy.fill(0); y.fill_random(r);
    const double ext = p.N / 2 - p.s / 2 - 1, wspan = r.pick({0.1, 1., 6.});
    for (int i = 0; i < nuv; ++i)
    {
        uvw.set({i, 0}, r.d(-ext, ext) / p.theta); uvw.set({i, 1}, r.d(-ext, ext) / p.theta);
        uvw.set({i, 2}, (woff + r.d(-wspan, wspan)) * p.w_step);
        if (r.b(0.1)) uvw.set({i, 2}, (woff + (double) r.i(-2, 2) + 1e-6) * p.w_step);
        // (Just below a plane: see the families above.)
        const double z = uvw.get(3 * i + 2).real() / p.w_step; if (ceil(z) - z < 1.0 / p.wos) uvw.set({i, 2}, (woff + 0.25) * p.w_step);
        s.set(i, 0); e.set(i, 1);
    }
    struct S { int a, b; double f; }; std::vector<S> src;
    const int half = (int) (fov / p.theta * p.N / 2), ns = (int) r.i(1, 12);
    ld tot = 0, ytot = 0;
    for (int k = 0; k < ns; ++k)
    {
        const S q{p.N / 2 + (int) r.i(-half, half), p.N / 2 + (int) r.i(-half, half), r.d(-1, 1)};
        img.set({q.a, q.b}, img({q.a, q.b}) + cd(q.f)); src.push_back(q); tot += fabs(q.f);
    }
    for (int i = 0; i < nuv; ++i) ytot += std::abs(y.get(i));
    auto* g = create(c, p);
    sdp_Error st = SDP_SUCCESS;
    sdp_gridder_wtower_uvw_degrid_correct(g, img.mem, 0, 0, woff, &st);
    sdp_gridder_wtower_uvw_degrid(g, img.mem, 0, 0, woff, f0, 1e5, uvw.mem, s.mem, e.mem, vis.mem, -1, -1, &st);
    sdp_gridder_wtower_uvw_grid(g, y.mem, uvw.mem, s.mem, e.mem, f0, 1e5, gy.mem, 0, 0, woff, -1, -1, &st);
    sdp_gridder_wtower_uvw_grid_correct(g, gy.mem, 0, 0, woff, &st);
    sdp_gridder_wtower_uvw_free(g);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    const double tol = wt::accuracy(std::min(p.s, p.ws), frac);
    double worst = 0;
    for (int i = 0; i < nuv; ++i)
    {
        cl sum = 0;
        for (auto& q : src)
        {
            const ld l = (q.a - p.N / 2) * (ld) p.theta / p.N, m = (q.b - p.N / 2) * (ld) p.theta / p.N;
            sum += (ld) q.f * cis(-2 * PI_L * (l * uvw.get(3 * i).real() + m * uvw.get(3 * i + 1).real() + n_of(l, m, p.hu, p.hv) * uvw.get(3 * i + 2).real()));
        }
        worst = std::max(worst, (double) (std::abs(cl(vis.get(i).real(), vis.get(i).imag()) - sum) / tot));
        if (getenv("VH_ACC")) continue;
        if (!c.near_("degrid_accuracy", vis.get(i), cd((double) sum.real(), (double) sum.imag()), (double) tot * tol)) return;
        c.count("visibilities_compared");
    }
    double worstg = 0;
    for (int a = p.N / 2 - half; a <= p.N / 2 + half; ++a) for (int b = p.N / 2 - half; b <= p.N / 2 + half; ++b)
    {
        const ld l = (a - p.N / 2) * (ld) p.theta / p.N, m = (b - p.N / 2) * (ld) p.theta / p.N;
        cl sum = 0;
        for (int i = 0; i < nuv; ++i)
            sum += cl(y.get(i).real(), y.get(i).imag()) * cis(2 * PI_L * (l * uvw.get(3 * i).real() + m * uvw.get(3 * i + 1).real() + n_of(l, m, p.hu, p.hv) * uvw.get(3 * i + 2).real()));
        worstg = std::max(worstg, (double) (std::abs(cl(gy({a, b}).real(), gy({a, b}).imag()) - sum) / ytot));
        if (getenv("VH_ACC")) continue;
        if (!c.near_("grid_accuracy", gy({a, b}), cd((double) sum.real(), (double) sum.imag()), (double) ytot * tol)) return;
        c.count("pixels_compared");
    }
    if (getenv("VH_ACC")) fprintf(stderr, "ACC %d %d %.3f %.3e %.3e\n", p.s, p.ws, frac, worst, worstg);
}
