// Direct gridding and degridding against exact Fourier sums.
#include "oracle.h"
#include "ska-sdp-func/grid_data/sdp_gridder_direct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
using namespace vh;
using namespace orc;

namespace {
struct Set
{
    bool dbl, have_range;
    int nuv, nch, ou, ov, ow;
    double theta, w_step, f0, df, hu, hv;
    Arr uvw, s, e, vis;
    sdp_Mem *ps, *pe;
    Set(Case& c, Rng& r, bool dbl_, bool small) : dbl(dbl_)
    {
        nuv = (int) r.li(1, small ? 12 : 60); nch = (int) r.li(1, 10);
        if (r.b(0.03)) nuv = 0;
        if (r.b(0.015)) { if (r.b()) { nuv = (int) r.i(200, 900); nch = (int) r.i(1, 3); } else { nuv = (int) r.i(1, 3); nch = (int) r.i(100, 500); } }
        theta = r.d(0.01, 0.5); w_step = r.b(0.1) ? 0 : r.d(0.5, 200);
        hu = r.b(0.5) ? 0 : r.d(-0.2, 0.2); hv = r.b(0.5) ? 0 : r.d(-0.2, 0.2);
        ou = r.b(0.3) ? 0 : (int) r.i(-300, 300); ov = r.b(0.3) ? 0 : (int) r.i(-300, 300); ow = r.b(0.3) ? 0 : (int) r.i(-20, 20);
        f0 = r.d(5e7, 3e8); df = r.b(0.1) ? 0 : r.d(-1e6, 4e6);
        const sdp_MemType rt = real_t(dbl), ct = cplx_t(dbl);
        uvw = Arr(rt, {nuv, 3}, (int) r.i(0, 3), &r);
        const double q = r.pick({1., 30., 1000.});
        uvw.fill_random(r, -q, q); if (r.b(0.3)) uvw.spice(r);
        s = Arr(SDP_MEM_INT, {nuv}, (int) r.i(0, 3), &r); e = Arr(SDP_MEM_INT, {nuv}, (int) r.i(0, 3), &r);
        const int kind = (int) r.i(0, 3);
        for (int i = 0; i < nuv; ++i)
        {
            int a = 0, b = nch;
            if (kind == 1 || (kind > 1 && r.b(0.7))) { a = (int) r.i(0, nch); b = (int) r.i(0, nch); if (r.b(0.7) && a > b) std::swap(a, b); }
            s.set(i, a); e.set(i, b);
        }
        have_range = r.b(0.85);
        ps = have_range ? s.mem : 0; pe = have_range ? e.mem : 0;
        vis = Arr(ct, {nuv, nch}, (int) r.i(0, 3), &r);
        vis.fill_random(r, -1, 1);
        c.note("%s rows=%d channels=%d ranges=%d(%d) offset=%d,%d,%d theta=%.17g w_step=%.17g f0=%.17g df=%.17g shear=%.17g,%.17g", dbl ? "double" : "float", nuv, nch, have_range, kind, ou, ov, ow, theta, w_step, f0, df, hu, hv);
    }
    bool in(int i, int ch) const { return !have_range || (ch >= (int) s.get(i).real() && ch < (int) e.get(i).real()); }
    // Coordinates in wavelengths, relative to the sub-grid.
    void coord(int i, int ch, ld x[3], bool offs = true) const
    {
        const ld f = ((ld) f0 + (ld) df * ch) / C0;
        const ld o[3] = {offs ? ou / (ld) theta : 0, offs ? ov / (ld) theta : 0, offs ? ow * (ld) w_step : 0};
        for (int k = 0; k < 3; ++k) x[k] = (ld) uvw.get(3 * i + k).real() * f - o[k];
    }
    // Size of the terms whose difference the coordinate is.
    ld big(int i, int ch, const ld lmn[3], bool offs = true) const
    {
        const ld f = ((ld) f0 + (ld) df * ch) / C0;
        const ld o[3] = {offs ? ou / (ld) theta : 0, offs ? ov / (ld) theta : 0, offs ? ow * (ld) w_step : 0};
        ld t = 0;
        for (int k = 0; k < 3; ++k) t += fabsl(lmn[k]) * (fabsl((ld) uvw.get(3 * i + k).real() * f) + fabsl(o[k]));
        // (n is computed from l and m in double precision, as a difference from 1)
        const ld w = fabsl((ld) uvw.get(3 * i + 2).real() * f) + fabsl(o[2]);
        return t + w * (dbl ? 1 : 2.3e-16L / 1.2e-7L);
    }
};
struct Src { ld f, x[3]; ld raw = 0; };

// What degridding must add to the visibilities.
void check_degrid(Case& c, Set& q, const std::vector<Src>& src, const std::vector<cd>& before, bool offs, double tap_tol = 0)
{
    // Directions are held in the precision of the coordinates.
    const double eps = q.dbl ? 2.3e-16 : 1.2e-7;
    int64_t changed = 0;
    for (int i = 0; i < q.nuv; ++i) for (int ch = 0; ch < q.nch; ++ch)
    {
        const int64_t k = (int64_t) i * q.nch + ch;
        if (!q.in(i, ch))
        {
            if (q.vis.get(k) != before[k]) c.fatal("outside_range", "visibility [%d,%d] outside its channel range changed", i, ch);
            c.count("outside_range_unchanged");
            continue;
        }
        ld x[3]; q.coord(i, ch, x, offs);
        cl sum = cl(before[k].real(), before[k].imag()); ld tol = std::abs(sum) * 4;
        for (auto& s : src)
        {
            const ld p = s.x[0] * x[0] + s.x[1] * x[1] + s.x[2] * x[2];
            sum += s.f * cis(-2 * PI_L * p);
            tol += s.raw * tap_tol / eps;
            tol += fabsl(s.f) * (8 + src.size() + 2 * PI_L * 6 * q.big(i, ch, s.x, offs));
        }
        char wh[60]; snprintf(wh, 60, "vis [%d,%d]", i, ch);
        if (!c.near_("degrid", q.vis.get(k), cd((double) sum.real(), (double) sum.imag()), (double) tol * eps + 1e-300, wh)) return;
        ++changed;
        c.count("visibilities_compared");
    }
    if (!changed) c.trivial = true;
}
}

FAMILY(dft, 1200, 30000)
{
    Rng& r = c.rng;
    Set q(c, r, r.b(0.6), false);
    const int ns = (int) (q.nuv * q.nch < 60 && r.b(0.02) ? r.i(200, 2000) : r.li(0, 40));
    const bool offs = r.b(0.8);
    const double theta = offs ? q.theta : (r.b() ? 0 : -q.theta);
    Arr flux(SDP_MEM_DOUBLE, {ns}, (int) r.i(0, 3), &r), lmn(real_t(q.dbl), {ns, 3}, (int) r.i(0, 3), &r);
    flux.fill_random(r, -3, 3); flux.spice(r);
    for (int s = 0; s < ns; ++s)
    {
        const double l = r.d(-0.6, 0.6), m = r.d(-0.6, 0.6);
        lmn.set({s, 0}, l); lmn.set({s, 1}, m); lmn.set({s, 2}, sqrt(1 - l * l - m * m) - 1);
        if (r.b(0.05)) for (int k = 0; k < 3; ++k) lmn.set({s, k}, 0);
    }
    c.note("sources=%d theta=%g", ns, theta); c.mix(r.s);
    if (ns == 0) c.trivial = true;
    std::vector<Arr*> ins = {&q.uvw, &q.s, &q.e, &flux, &lmn};
    for (auto a : ins) { a->read_only(true); a->snapshot(); }
    q.vis.snapshot(); auto before = q.vis.values();
    std::vector<Src> src;
    for (int s = 0; s < ns; ++s) src.push_back(Src{(ld) flux.get(s).real(), {(ld) lmn({s, 0}).real(), (ld) lmn({s, 1}).real(), (ld) lmn({s, 2}).real()}, 0});
    sdp_Error st = SDP_SUCCESS;
    sdp_gridder_dft(q.uvw.mem, q.ps, q.pe, flux.mem, lmn.mem, q.ou, q.ov, q.ow, theta, q.w_step, q.f0, q.df, q.vis.mem, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    for (auto a : ins) if (!a->unchanged()) c.fail("inputs_changed", "an input was modified");
    if (!q.vis.surround_unchanged()) c.fail("frame", "memory between output elements changed");
    check_degrid(c, q, src, before, offs);
}

static std::vector<Src> image_sources(const Set& q, const Arr& img, int size, const std::vector<ld>* tap, bool all)
{
    std::vector<Src> v;
    for (int a = 0; a < size; ++a) for (int b = 0; b < size; ++b)
    {
        const ld l = (a - size / 2) * (ld) q.theta / size, m = (b - size / 2) * (ld) q.theta / size;
        const cd p = img({a, b});
        if (!all && p == cd(0)) continue;
        v.push_back(Src{(ld) p.real() * (tap ? (*tap)[a] * (*tap)[b] : 1), {l, m, n_of(l, m, q.hu, q.hv)}, fabsl((ld) p.real()) * (tap ? fabsl((*tap)[a]) + fabsl((*tap)[b]) : 0)});
    }
    return v;
}

FAMILY(degrid, 900, 20000)
{
    Rng& r = c.rng;
    Set q(c, r, r.b(0.6), true);
    const int size = (int) (r.b(0.1) ? r.i(1, 3) : r.i(2, 20)), support = (int) r.i(2, 16);
    const int kind = (int) r.i(0, q.dbl ? 2 : 1); // real, complex, complex float with double directions
    const sdp_MemType it = kind == 0 ? real_t(q.dbl) : kind == 1 ? cplx_t(q.dbl) : SDP_MEM_COMPLEX_FLOAT;
    Arr img(it, {size, size}, (int) r.i(0, 3), &r);
    // (faint pixels count as much as bright ones)
    const double faint = r.b(0.1) ? std::pow(10.0, r.d(-25, 0)) : 1;
    img.fill_random(r, -faint, faint);
    const double p0 = r.pick({0., 0.3, 0.9, 1.});
    for (int64_t k = 0; k < img.n(); ++k) if (r.b(p0)) img.set(k, 0);
    if (p0 == 1 && img.n()) img.set(r.i(0, img.n() - 1), faint * r.d(-1, 1));
    if (r.b(0.1)) for (int64_t k = 0; k < q.vis.n(); ++k) q.vis.set(k, 0); // nothing there for faint sources to vanish in
    c.note("image=%s %d support=%d", type_name(it), size, support); c.mix(r.s);
    sdp_Error st = SDP_SUCCESS;
    sdp_GridderDirect* g = sdp_gridder_direct_create((int) r.i(32, 2048), size, q.theta, q.w_step, q.hu, q.hv, support, &st);
    if (st) c.fatal("create", "creation failed with %d", (int) st);
    std::vector<Arr*> ins = {&q.uvw, &q.s, &q.e, &img};
    for (auto a : ins) { a->read_only(true); a->snapshot(); }
    q.vis.snapshot(); auto before = q.vis.values();
    auto tap = taper(size, support);
    auto src = image_sources(q, img, size, &tap, false);
    sdp_gridder_direct_degrid(g, img.mem, q.ou, q.ov, q.ow, q.f0, q.df, q.uvw.mem, q.s.mem, q.e.mem, q.vis.mem, &st);
    q.have_range = true;
    sdp_gridder_direct_free(g);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    for (auto a : ins) if (!a->unchanged()) c.fail("inputs_changed", "an input was modified");
    if (!q.vis.surround_unchanged()) c.fail("frame", "memory between output elements changed");
    check_degrid(c, q, src, before, true, pswf_tol(support * M_PI / 2));
}

static void run_grid(Case& c, bool direct)
{
    Rng& r = c.rng;
    Set q(c, r, r.b(0.6), true);
    const int size = (int) (r.b(0.1) ? r.i(1, 3) : r.i(2, 14)), support = (int) r.i(2, 16);
    Arr img(cplx_t(q.dbl), {size, size}, (int) r.i(0, 3), &r), tp(SDP_MEM_DOUBLE, {size}, (int) r.i(0, 3), &r), lmn(real_t(q.dbl), {(int64_t) size * size, 3}, (int) r.i(0, 3), &r);
    if (r.b()) img.fill_random(r, -1, 1); else img.fill(0);
    q.vis.spice(r);
    tp.fill_random(r, 0, 2); tp.spice(r);
    const bool tap_on = direct || r.b();
    c.note("image=%d support=%d taper=%d", size, support, tap_on); c.mix(r.s);
    std::vector<ld> tap(size, 1.0L);
    if (direct) tap = taper(size, support);
    else if (tap_on) for (int k = 0; k < size; ++k) tap[k] = (ld) tp.get(k).real();
    auto src = image_sources(q, img, size, 0, true);
    if (!direct)
    {
        if (r.b()) for (auto& s : src) { for (auto& x : s.x) x = rnd(q.dbl, r.d(-0.5, 0.5)); } // any directions
        for (size_t k = 0; k < src.size(); ++k) for (int j = 0; j < 3; ++j) { lmn.set({(int64_t) k, j}, (double) src[k].x[j]); src[k].x[j] = lmn({(int64_t) k, j}).real(); }
    }
    std::vector<Arr*> ins = {&q.uvw, &q.s, &q.e, &q.vis, &tp, &lmn};
    for (auto a : ins) { a->read_only(true); a->snapshot(); }
    img.snapshot(); auto before = img.values();
    sdp_Error st = SDP_SUCCESS;
    if (direct)
    {
        q.have_range = true;
        sdp_GridderDirect* g = sdp_gridder_direct_create((int) r.i(32, 2048), size, q.theta, q.w_step, q.hu, q.hv, support, &st);
        sdp_gridder_direct_grid(g, q.vis.mem, q.uvw.mem, q.s.mem, q.e.mem, q.f0, q.df, img.mem, q.ou, q.ov, q.ow, &st);
        sdp_gridder_direct_free(g);
    }
    else sdp_gridder_idft(q.uvw.mem, q.vis.mem, q.ps, q.pe, lmn.mem, tap_on ? tp.mem : 0, q.ou, q.ov, q.ow, q.theta, q.w_step, q.f0, q.df, img.mem, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    for (auto a : ins) if (!a->unchanged()) c.fail("inputs_changed", "an input was modified");
    if (!img.surround_unchanged()) c.fail("frame", "memory between output elements changed");
    const double eps = q.dbl ? 2.3e-16 : 1.2e-7;
    int64_t used = 0;
    for (int i = 0; i < q.nuv; ++i) for (int ch = 0; ch < q.nch; ++ch) used += q.in(i, ch);
    if (!used) c.trivial = true;
    for (int64_t k = 0; k < img.n(); ++k)
    {
        const ld t = tap[k / size] * tap[k % size];
        cl sum = 0; ld tol = 0;
        for (int i = 0; i < q.nuv; ++i) for (int ch = 0; ch < q.nch; ++ch) if (q.in(i, ch))
        {
            ld x[3]; q.coord(i, ch, x);
            const cd v = q.vis.get((int64_t) i * q.nch + ch);
            const ld p = src[k].x[0] * x[0] + src[k].x[1] * x[1] + src[k].x[2] * x[2];
            sum += cl(v.real(), v.imag()) * cis(2 * PI_L * p);
            tol += std::abs(v) * (8 + used + 2 * PI_L * 6 * q.big(i, ch, src[k].x));
        }
        const cl ref = cl(before[k].real(), before[k].imag()) + sum * t;
        char wh[60]; snprintf(wh, 60, "pixel %lld", (long long) k);
        if (!c.near_("grid", img.get(k), cd((double) ref.real(), (double) ref.imag()), (double) (tol * fabsl(t) + 4 * std::abs(ref)) * eps + (direct ? pswf_tol(support * M_PI / 2) * (double) (tap[k / size] + tap[k % size]) : 0) * (double) std::abs(sum) + 1e-300, wh)) return;
        c.count("pixels_compared");
    }
}
FAMILY(idft, 900, 20000) { run_grid(c, false); }
FAMILY(grid, 900, 20000) { run_grid(c, true); }

// <degrid(x), y> == <x, grid(y)> for real images, on the outputs themselves.
FAMILY(adjoint, 600, 10000)
{
    Rng& r = c.rng;
    Set q(c, r, true, true);
    const int size = (int) r.i(1, 16), support = (int) r.i(2, 12);
    Arr x(SDP_MEM_COMPLEX_DOUBLE, {size, size}), gy(SDP_MEM_COMPLEX_DOUBLE, {size, size}), y(SDP_MEM_COMPLEX_DOUBLE, {q.nuv, q.nch});
    for (int64_t k = 0; k < x.n(); ++k) x.set(k, r.d(-1, 1));
    y.fill_random(r); gy.fill(0); q.vis.fill(0); q.have_range = true;
    c.note("image=%d support=%d", size, support); c.mix(r.s);
    sdp_Error st = SDP_SUCCESS;
    sdp_GridderDirect* g = sdp_gridder_direct_create(512, size, q.theta, q.w_step, q.hu, q.hv, support, &st);
    sdp_gridder_direct_degrid(g, x.mem, q.ou, q.ov, q.ow, q.f0, q.df, q.uvw.mem, q.s.mem, q.e.mem, q.vis.mem, &st);
    sdp_gridder_direct_grid(g, y.mem, q.uvw.mem, q.s.mem, q.e.mem, q.f0, q.df, gy.mem, q.ou, q.ov, q.ow, &st);
    sdp_gridder_direct_free(g);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    cl a = 0, b = 0; ld sz = 0;
    for (int64_t k = 0; k < y.n(); ++k) { cd p = q.vis.get(k) * std::conj(y.get(k)); a += cl(p.real(), p.imag()); sz += std::abs(p); }
    for (int64_t k = 0; k < x.n(); ++k) { cd p = x.get(k) * std::conj(gy.get(k)); b += cl(p.real(), p.imag()); sz += std::abs(p); }
    c.near_("adjoint", cd((double) a.real(), (double) a.imag()), cd((double) b.real(), (double) b.imag()), (double) sz * 1e-12 * (double) (1 + x.n()) + 1e-13 * (double) y.n() * (double) x.n());
    c.count("adjoint_pairs");
}
