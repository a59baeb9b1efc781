// Gridder helpers against their elementwise definitions.
#include "oracle.h"
#include "ska-sdp-func/grid_data/sdp_gridder_direct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_grid_correct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.h"
using namespace vh;
using namespace orc;
static inline cl L(cd v) { return cl(v.real(), v.imag()); }
static inline cd D(cl v) { return cd((double) v.real(), (double) v.imag()); }
static inline double epsof(const Arr& a) { return a.is_double() ? 2.3e-16 : 1.2e-7; }
static cl ipow(cl b, int e)
{
    cl r = 1; for (int k = 0; k < std::abs(e); ++k) r *= b;
    return e < 0 ? cl(1) / r : r;
}
static int lay(Rng& r) { return (int) r.i(0, 3); }
// A size, seldom a large one.
static int64_t dim(Rng& r, int64_t lo, int64_t hi) { return r.b(0.006) ? r.i(hi, 12 * hi) : r.li(lo, hi); }
static void frame(Case& c, std::vector<Arr*> ins, Arr* out)
{
    for (auto a : ins) if (!a->unchanged()) c.fail("inputs_changed", "an input was modified");
    if (out && !out->surround_unchanged()) c.fail("frame", "memory between output elements changed");
}
static void hold(std::vector<Arr*> ins, Arr* out)
{
    for (auto a : ins) { a->read_only(true); a->snapshot(); }
    if (out) out->snapshot();
}
static const sdp_MemType RD = SDP_MEM_DOUBLE, RF = SDP_MEM_FLOAT, CD = SDP_MEM_COMPLEX_DOUBLE, CF = SDP_MEM_COMPLEX_FLOAT;

FAMILY(accumulate, 1500, 30000)
{
    Rng& r = c.rng;
    static const sdp_MemType tt[][2] = {{CD, CD}, {CF, CF}, {CD, CF}, {CF, CD}, {CD, RD}, {CF, RF}, {CD, RF}, {CF, RD}, {RD, CD}, {RF, CF}, {RD, CF}, {RF, CD}};
    const int t = (int) r.i(0, 11);
    const int64_t n0 = dim(r, 0, 30), n1 = dim(r, 1, 30);
    Arr out(tt[t][0], {n0, n1}, lay(r), &r), in1(tt[t][1], {n0, n1}, lay(r), &r), in2(CD, {n0, n1}, lay(r), &r);
    out.fill_random(r, -2, 2); in1.fill_random(r, -2, 2); in1.spice(r); in2.fill_random(r, -2, 2);
    for (int64_t k = 0; k < in2.n(); ++k) if (std::abs(in2.get(k)) < 0.1) in2.set(k, cd(0.5, -0.5));
    const bool have2 = r.b(0.8);
    const int ex = r.b(0.3) ? 1 : (int) r.i(-3, 4);
    c.note("out=%s in1=%s in2=%d exponent=%d %lldx%lld", type_name(out.type), type_name(in1.type), have2, ex, (long long) n0, (long long) n1); c.mix(r.s);
    if (n0 == 0) c.trivial = true;
    hold({&in1, &in2}, &out);
    auto before = out.values();
    sdp_Error st = SDP_SUCCESS;
    sdp_gridder_accumulate_scaled_arrays(out.mem, in1.mem, have2 ? in2.mem : 0, ex, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    frame(c, {&in1, &in2}, &out);
    for (int64_t k = 0; k < out.n(); ++k)
    {
        cl add = L(in1.get(k)); ld f = 1;
        if (have2 && ex != 0) { const cl s = ipow(L(in2.get(k)), ex); add *= s; f = std::abs(s) * std::abs(L(in1.get(k))); }
        cl ref = L(before[k]) + add;
        if (!out.is_complex()) ref = ref.real();
        if (!c.near_("accumulate", out.get(k), D(ref), (double) (std::abs(L(before[k])) + std::abs(add)) * 4 * epsof(out) + (double) f * 40 * 2.3e-16)) return;
        c.count("elements");
    }
}
FAMILY(scale_inv, 900, 20000)
{
    Rng& r = c.rng;
    static const sdp_MemType tt[][2] = {{CD, RD}, {CF, RF}, {CD, CD}, {CF, CF}};
    const int t = (int) r.i(0, 3);
    const int64_t n0 = dim(r, 0, 30), n1 = dim(r, 1, 30);
    const bool inplace = tt[t][0] == tt[t][1] && r.b(0.3);
    Arr out(tt[t][0], {n0, n1}, lay(r), &r), in1(tt[t][1], {n0, n1}, lay(r), &r), in2(CD, {n0, n1}, lay(r), &r);
    out.fill_random(r, -2, 2); in1.fill_random(r, -2, 2); in1.spice(r); in2.fill_random(r, -2, 2);
    for (int64_t k = 0; k < in2.n(); ++k) if (std::abs(in2.get(k)) < 0.1) in2.set(k, cd(0.5, -0.5));
    const int ex = r.b(0.4) ? 1 : (int) r.i(-4, 6);
    c.note("out=%s in1=%s exponent=%d %lldx%lld inplace=%d", type_name(out.type), type_name(in1.type), ex, (long long) n0, (long long) n1, inplace); c.mix(r.s);
    if (n0 == 0) c.trivial = true;
    Arr& src = inplace ? out : in1;
    auto v1 = src.values();
    hold({&in1, &in2}, &out);
    sdp_Error st = SDP_SUCCESS;
    sdp_gridder_scale_inv_array(out.mem, src.mem, in2.mem, ex, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    frame(c, {&in1, &in2}, &out);
    for (int64_t k = 0; k < out.n(); ++k)
    {
        const cl ref = L(v1[k]) * ipow(L(in2.get(k)), -ex);
        if (!c.near_("scale_inv", out.get(k), D(ref), (double) std::abs(ref) * (4 * epsof(out) + 60 * 2.3e-16) + 1e-300)) return;
        c.count("elements");
    }
}
FAMILY(count_flmn, 1500, 30000)
{
    Rng& r = c.rng;
    static const sdp_MemType tt[][2] = {{RD, RD}, {RF, RF}, {CD, RD}, {CF, RF}, {CF, RD}};
    const int t = (int) r.i(0, 4);
    const int64_t n0 = dim(r, 0, 24), n1 = r.b(0.7) ? std::max<int64_t>(n0, 1) : dim(r, 1, 24);
    Arr img(tt[t][0], {n0, n1}, lay(r), &r), tap(RD, {std::max(n0, n1) + r.i(0, 3)}, lay(r), &r);
    const double faint = r.b(0.1) ? std::pow(10.0, r.d(-30, 0)) : 2; // faint pixels count too
    img.fill_random(r, -faint, faint); tap.fill_random(r, -1, 2);
    const double p0 = r.pick({0., 0.3, 0.9, 1.});
    for (int64_t k = 0; k < img.n(); ++k) if (r.b(p0)) img.set(k, 0);
    if (img.is_complex() && img.n()) img.set(r.i(0, img.n() - 1), cd(0, 1));
    const double theta = r.d(0.001, 0.6), hu = r.b() ? 0 : r.d(-0.3, 0.3), hv = r.b() ? 0 : r.d(-0.3, 0.3);
    const bool taper = r.b();
    int64_t nz = 0; for (int64_t k = 0; k < img.n(); ++k) nz += img.get(k) != cd(0);
    c.note("image=%s %lldx%lld nonzero=%lld theta=%.17g shear=%.17g,%.17g taper=%d", type_name(img.type), (long long) n0, (long long) n1, (long long) nz, theta, hu, hv, taper); c.mix(r.s);
    img.read_only(true); img.snapshot(); tap.read_only(true);
    sdp_Error st = SDP_SUCCESS;
    const int64_t got = sdp_gridder_count_nonzero_pixels(img.mem, &st);
    if (st || got != nz) c.fatal("count", "status %d, counted %lld of %lld non-zero pixels", (int) st, (long long) got, (long long) nz);
    c.count("counts");
    const bool fl = r.b(0.6);
    const int64_t nout = fl ? nz : n0 * n1, extra = r.i(0, 2);
    if (nout == 0) { c.trivial = true; return; }
    Arr flux(RD, {nout + extra}, lay(r), &r), lmn(tt[t][1], {nout + extra, 3}, lay(r), &r);
    flux.fill_random(r); lmn.fill_random(r);
    flux.snapshot(); lmn.snapshot();
    auto f0 = flux.values(), l0 = lmn.values();
    sdp_gridder_image_to_flmn(img.mem, theta, hu, hv, taper ? tap.mem : 0, fl ? flux.mem : 0, lmn.mem, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    frame(c, {&img}, &lmn); if (!flux.surround_unchanged()) c.fail("frame", "memory between output elements changed");
    int64_t k = 0;
    for (int64_t a = 0; a < n0; ++a) for (int64_t b = 0; b < n1; ++b)
    {
        const cd p = img({a, b});
        if (fl && p == cd(0)) continue;
        const ld l = (a - n0 / 2) * (ld) theta / n0, m = (b - n1 / 2) * (ld) theta / n1, n = n_of(l, m, hu, hv);
        const double e = epsof(lmn);
        if (!c.near_("l", lmn({k, 0}), (double) l, 4 * e * (double) fabsl(l)) || !c.near_("m", lmn({k, 1}), (double) m, 4 * e * (double) fabsl(m)) ||
                !c.near_("n", lmn({k, 2}), (double) n, 4 * e * (double) fabsl(n) + 2e-15)) return;
        if (fl)
        {
            const ld f = (ld) p.real() * (taper ? (ld) tap.get(a).real() * tap.get(b).real() : 1);
            if (!c.near_("flux", flux.get(k), (double) f, 4 * 2.3e-16 * (double) fabsl(f))) return;
        }
        ++k; c.count("directions");
    }
    for (; k < nout + extra; ++k)
    {
        if (fl && flux.get(k) != f0[k]) c.fatal("flux_rest", "flux %lld beyond the sources changed", (long long) k);
        for (int j = 0; j < 3; ++j) if (lmn({k, j}) != l0[3 * k + j]) c.fatal("lmn_rest", "direction %lld beyond the sources changed", (long long) k);
    }
}
FAMILY(w_step, 800, 20000)
{
    Rng& r = c.rng;
    const double theta = r.d(0.01, 0.9), fov = theta * r.d(0.2, 1), hu = r.b() ? 0 : r.d(-0.4, 0.4), hv = r.b() ? 0 : r.d(-0.4, 0.4);
    const double x0 = r.b(0.3) ? 0 : r.d(0.05, 1);
    c.note("theta=%.17g fov=%.17g shear=%.17g,%.17g x0=%.17g", theta, fov, hu, hv, x0); c.mix(r.s);
    ld worst = 1e9;
    bool bad = false;
    for (int a = -1; a <= 1; a += 2) for (int b = -1; b <= 1; b += 2)
    {
        const ld n = n_of(a * (ld) fov / 2, b * (ld) fov / 2, hu, hv);
        if (!(n == n)) bad = true;
        worst = std::min(worst, n);
    }
    if (bad || worst > -1e-6L) { c.trivial = true; return; } // corners beyond the horizon
    const ld x = x0 == 0 ? (ld) fov / theta : (ld) x0, ref = x / (2 * -worst);
    const double got = sdp_gridder_determine_w_step(theta, fov, hu, hv, x0);
    c.near_("w_step", got, (double) ref, (double) ref * (1e-14 + 1e-15 / (double) -worst));
    c.count("w_steps");
}
FAMILY(residual_rms, 1200, 20000)
{
    Rng& r = c.rng;
    static const sdp_MemType tt[][2] = {{CD, CD}, {CF, CF}, {CD, CF}, {RD, RD}, {RF, RF}, {RD, RF}};
    const int t = (int) r.i(0, 5);
    const int64_t n0 = dim(r, 1, 40), n1 = dim(r, 1, 40);
    Arr a(tt[t][0], {n0, n1}, lay(r), &r), b(tt[t][1], {n0, n1}, lay(r), &r), o(tt[t][0], {n0, n1}, lay(r), &r);
    a.fill_random(r, -3, 3); b.fill_random(r, -3, 3); a.spice(r); b.spice(r); o.fill_random(r);
    if (r.b(0.2)) for (int64_t k = 0; k < a.n(); ++k) b.set(k, a.get(k));
    c.note("%s-%s %lldx%lld", type_name(a.type), type_name(b.type), (long long) n0, (long long) n1); c.mix(r.s);
    hold({&a, &b}, &o);
    sdp_Error st = SDP_SUCCESS;
    sdp_gridder_residual(a.mem, b.mem, o.mem, &st);
    const double rms = sdp_gridder_rms_diff(a.mem, b.mem, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    frame(c, {&a, &b}, &o);
    ld ss = 0;
    for (int64_t k = 0; k < a.n(); ++k)
    {
        const cl d = L(a.get(k)) - L(b.get(k)); ss += std::norm(d);
        if (!c.near_("residual", o.get(k), D(d), epsof(a) * (double) std::abs(d))) return;
        c.count("elements");
    }
    c.near_("rms", rms, (double) sqrtl(ss / a.n()), (double) sqrtl(ss / a.n()) * (epsof(a) * 8 + 2.3e-16 * a.n()));
}
FAMILY(shift, 600, 10000)
{
    Rng& r = c.rng;
    const int64_t n = dim(r, 1, 12), s = dim(r, 1, 20);
    Arr a(r.b() ? CD : CF, {n, s, s}, lay(r), &r);
    a.fill_random(r);
    c.note("%s %lldx%lld", type_name(a.type), (long long) n, (long long) s); c.mix(r.s);
    auto v = a.values(); a.snapshot();
    sdp_Error st = SDP_SUCCESS;
    sdp_gridder_shift_subgrids(a.mem, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    if (!a.surround_unchanged()) c.fail("frame", "memory between elements changed");
    for (int64_t k = 0; k < n * s * s; ++k)
    {
        const int64_t p = k / (s * s);
        if (p < n - 1) { if (a.get(k) != v[k + s * s]) c.fatal("shift", "plane %lld is not the former plane %lld", (long long) p, (long long) p + 1); }
        else if (a.get(k) != v[k]) c.fatal("shift_last", "last plane changed");
        c.count("elements");
    }
    if (n == 1) c.trivial = true;
}
// Where a sub-grid element lies: coordinates relative to the centres.
static int64_t wrapped(int64_t i, int64_t sub, int64_t grid, int64_t off)
{
    const int64_t x = (i - sub / 2) + off + grid / 2;
    return ((x % grid) + grid) % grid;
}
FAMILY(subgrid, 1800, 40000)
{
    Rng& r = c.rng;
    static const sdp_MemType tt[] = {CD, CF, RD, RF};
    const sdp_MemType t = tt[r.i(0, 3)];
    const int64_t g0 = dim(r, 1, 40), g1 = dim(r, 1, 40), s0 = r.i(1, g0), s1 = r.i(1, g1);
    Arr grid(t, {g0, g1}, lay(r), &r), sub(t, {s0, s1}, lay(r), &r);
    grid.fill_random(r, -2, 2); sub.fill_random(r, -2, 2);
    const int64_t q = r.pick({0, 3, 20, 300});
    const int ou = (int) r.i(-q, q), ov = (int) r.i(-q, q);
    const bool add = r.b();
    const double factor = r.b(0.3) ? 1 : r.b(0.1) ? 0 : r.d(-2, 2);
    c.note("%s %s grid=%lldx%lld sub=%lldx%lld offset=%d,%d factor=%.17g", add ? "add" : "cut", type_name(t), (long long) g0, (long long) g1, (long long) s0, (long long) s1, ou, ov, factor); c.mix(r.s);
    auto gv = grid.values(), sv = sub.values();
    sdp_Error st = SDP_SUCCESS;
    if (!add)
    {
        hold({&grid}, &sub);
        sdp_gridder_subgrid_cut_out(grid.mem, ou, ov, sub.mem, &st);
        if (st) c.fatal("status", "valid call failed with %d", (int) st);
        frame(c, {&grid}, &sub);
        for (int64_t i = 0; i < s0; ++i) for (int64_t j = 0; j < s1; ++j)
        {
            if (sub({i, j}) != gv[wrapped(i, s0, g0, ou) * g1 + wrapped(j, s1, g1, ov)]) c.fatal("cut", "element [%lld,%lld] is not the grid cell it covers", (long long) i, (long long) j);
            c.count("cells");
        }
    }
    else
    {
        hold({&sub}, &grid);
        sdp_gridder_subgrid_add(grid.mem, ou, ov, sub.mem, factor, &st);
        if (st) c.fatal("status", "valid call failed with %d", (int) st);
        frame(c, {&sub}, &grid);
        // (adding puts the centre of the sub-grid at minus the offset)
        std::vector<cl> ref(gv.size()); std::vector<bool> hit(gv.size());
        for (size_t k = 0; k < gv.size(); ++k) ref[k] = L(gv[k]);
        for (int64_t i = 0; i < s0; ++i) for (int64_t j = 0; j < s1; ++j)
        {
            const int64_t k = wrapped(i, s0, g0, -ou) * g1 + wrapped(j, s1, g1, -ov);
            ref[k] += L(sv[i * s1 + j]) * (ld) factor; hit[k] = true;
        }
        cl tot = 0, was = 0, ad = 0;
        for (size_t k = 0; k < ref.size(); ++k)
        {
            tot += L(grid.get(k)); was += L(gv[k]);
            if (!hit[k]) { if (grid.get(k) != gv[k]) c.fatal("add_outside", "grid cell %zu outside the sub-grid changed", k); c.count("cells_outside"); continue; }
            if (!c.near_("add", grid.get(k), D(ref[k]), 8 * epsof(grid) * (2 * std::fabs(factor) * 1.5 + 3))) return;
            c.count("cells");
        }
        for (auto& x : sv) ad += L(x) * (ld) factor;
        c.near_("conserve", D(tot - was), D(ad), 8 * epsof(grid) * 6 * (double) (ref.size() + 1));
    }
}
FAMILY(sums_bounds, 1500, 30000)
{
    Rng& r = c.rng;
    const int64_t n = dim(r, 1, 400);
    Arr a(SDP_MEM_INT, {n}, lay(r), &r), b(SDP_MEM_INT, {n}, lay(r), &r), uvw(r.b(0.7) ? RD : RF, {n, 3}, lay(r), &r);
    uvw.fill_random(r, -5000, 5000); uvw.spice(r);
    if (r.b(0.2)) { const int s = r.b() ? 1 : -1; for (int64_t k = 0; k < uvw.n(); ++k) uvw.set(k, s * std::abs(uvw.get(k).real())); }
    const int q = r.b() ? 30 : 1000000000;
    for (int64_t k = 0; k < n; ++k)
    {
        const int s = (int) r.i(0, q); a.set(k, s); b.set(k, r.b(0.3) ? s : (int) r.i(0, q));
    }
    if (q != 30) for (int64_t k = 0; k < n; ++k) { a.set(k, a.get(k).real() / 1000 > 1e5 ? (double) (int) (a.get(k).real() / 2) : a.get(k).real()); }
    if (r.b(0.1)) for (int64_t k = 0; k < n; ++k) b.set(k, a.get(k)); // every range empty
    // Differences beyond the range of the elements.
    const bool wide = r.b(0.1);
    if (wide) for (int64_t k = 0; k < n; ++k) { a.set(k, (double) r.i(-2147483647, -1000000000)); b.set(k, (double) r.i(1000000000, 2147483647)); }
    const double f0 = r.d(1e7, 1e9), df = r.b(0.1) ? 0 : r.d(-1e5, 4e5);
    int64_t lo = r.i(0, n), hi = r.i(0, n);
    if (r.b(0.3)) { lo = -1; hi = r.b() ? -1 : hi; }
    c.note("n=%lld rows=%lld..%lld %s f0=%.17g df=%.17g", (long long) n, (long long) lo, (long long) hi, type_name(uvw.type), f0, df); c.mix(r.s);
    hold({&a, &b, &uvw}, 0);
    int64_t res = 77;
    sdp_Error st = SDP_SUCCESS;
    sdp_gridder_sum_diff(b.mem, a.mem, &res, lo, hi, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    int64_t ref = 0;
    const bool all = lo < 0 || hi < 0;
    for (int64_t k = all ? 0 : lo; k < (all ? n : hi); ++k) ref += (int64_t) b.get(k).real() - (int64_t) a.get(k).real();
    if (res != ref) c.fatal("sum_diff", "got %lld expected %lld", (long long) res, (long long) ref);
    double mn[3], mx[3];
    sdp_gridder_uvw_bounds_all(uvw.mem, f0, df, a.mem, b.mem, mn, mx, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    frame(c, {&a, &b, &uvw}, 0);
    ld rmn[3], rmx[3]; bool any = false;
    for (int j = 0; j < 3; ++j) { rmn[j] = INFINITY; rmx[j] = -INFINITY; }
    for (int64_t k = 0; k < n; ++k)
    {
        const int s = (int) a.get(k).real(), e = (int) b.get(k).real();
        if (s >= e) continue;
        any = true;
        for (int j = 0; j < 3; ++j) for (int ch : {s, e - 1})
        {
            const ld x = (ld) uvw({k, j}).real() * ((ld) f0 + (ld) df * ch) / C0;
            rmn[j] = std::min(rmn[j], x); rmx[j] = std::max(rmx[j], x);
        }
        c.count("rows_bounded");
    }
    if (!any) { c.count("no_rows"); for (int j = 0; j < 3; ++j) if (mn[j] != INFINITY || mx[j] != -INFINITY) c.fatal("bounds_empty", "bounds of nothing are not empty"); return; }
    const double big = 5000 * 2 * (f0 + std::fabs(df) * (wide ? 2.2e9 : q == 30 ? 30 : 1e9)) / 299792458.0;
    for (int j = 0; j < 3; ++j)
        if (!c.near_("bounds_min", mn[j], (double) rmn[j], big * 1e-15) ||
                !c.near_("bounds_max", mx[j], (double) rmx[j], big * 1e-15)) return;
    c.count("bounds");
}
FAMILY(corrections, 1200, 20000)
{
    Rng& r = c.rng;
    static const sdp_MemType tt[] = {CD, CF, RD, RF};
    const sdp_MemType t = tt[r.i(0, 3)];
    const int size = (int) dim(r, 1, 64), f0 = (int) r.i(0, size), f1 = (int) r.i(1, size);
    const double theta = r.d(0.01, 0.6), w_step = r.b(0.1) ? 0 : r.d(0.05, 60), hu = r.b() ? 0 : r.d(-0.2, 0.2), hv = r.b() ? 0 : r.d(-0.2, 0.2);
    const int support = (int) r.i(1, 16), wsup = r.b(0.3) ? 0 : (int) r.i(1, 14), woff = r.b(0.2) ? 0 : (int) r.i(-40, 40);
    // Facet anywhere inside the image.
    const int a0 = (int) r.i(0, size - f0), a1 = (int) r.i(0, size - f1);
    const int ol = a0 - size / 2 + f0 / 2, om = a1 - size / 2 + f1 / 2;
    Arr x(t, {f0, f1}, lay(r), &r);
    x.fill_random(r, -2, 2); x.spice(r);
    const int how = (int) r.i(0, 5); // pswf, w, inverse w, direct, w-tower (degrid or grid)
    const bool cplx = x.is_complex(), inv = how == 2 || ((how == 3 || how == 4) && r.b());
    c.note("%s image=%d facet=%dx%d offset=%d,%d theta=%.17g w_step=%.17g shear=%.17g,%.17g support=%d,%d w_offset=%d call=%d inverse=%d", type_name(t), size, f0, f1, ol, om, theta, w_step, hu, hv, support, wsup, woff, how, inv); c.mix(r.s);
    if (f0 == 0) c.trivial = true;
    auto v = x.values(); x.snapshot();
    const int ws = how == 3 ? 0 : wsup;
    bool pswf_on = false, w_on = false;
    sdp_Error st = SDP_SUCCESS;
    if (how == 0 || how == 5) { sdp_gridder_grid_correct_pswf(size, theta, w_step, hu, hv, support, wsup, x.mem, ol, om, &st); pswf_on = true; }
    else if (how <= 2)
    {
        if (!cplx) { c.trivial = true; return; }
        sdp_gridder_grid_correct_w_stack(size, theta, w_step, hu, hv, x.mem, ol, om, woff, inv, &st); w_on = true;
    }
    else if (how == 3)
    {
        sdp_GridderDirect* g = sdp_gridder_direct_create(size, 4, theta, w_step, hu, hv, support, &st);
        if (inv) sdp_gridder_direct_grid_correct(g, x.mem, ol, om, woff, &st); else sdp_gridder_direct_degrid_correct(g, x.mem, ol, om, woff, &st);
        sdp_gridder_direct_free(g);
        pswf_on = true; w_on = cplx;
    }
    else
    {
        sdp_GridderWtowerUVW* g = sdp_gridder_wtower_uvw_create(size, 8, theta, w_step, hu, hv, support, 16, std::max(wsup, 1), 16, &st);
        if (inv) sdp_gridder_wtower_uvw_grid_correct(g, x.mem, ol, om, woff, &st); else sdp_gridder_wtower_uvw_degrid_correct(g, x.mem, ol, om, woff, &st);
        sdp_gridder_wtower_uvw_free(g);
        pswf_on = true; w_on = cplx;
    }
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    frame(c, {}, &x);
    const int wse = how == 4 ? std::max(wsup, 1) : ws;
    const double cu = support * (M_PI / 2), cw = wse * (M_PI / 2);
    for (int i = 0; i < f0; ++i) for (int j = 0; j < f1; ++j)
    {
        const int pi = a0 + i, pj = a1 + j;
        const ld l = (pi - size / 2) * (ld) theta / size, m = (pj - size / 2) * (ld) theta / size, n = n_of(l, m, hu, hv);
        cl f = 1; ld rel = 8 * epsof(x);
        bool skip = !(n == n);
        if (pswf_on)
        {
            ld tp[2]; int k = 0;
            for (int p : {pi, pj})
            {
                tp[k] = p == 0 && size % 2 == 0 ? 1e-15L : pswf(0, cu)(2.0L * (p - size / 2) / size);
                if (!(p == 0 && size % 2 == 0)) { const ld e = pswf_tol(cu) / fabsl(tp[k]); rel += e; if (e > 0.1) skip = true; }
                f /= tp[k]; ++k;
            }
            if (wse > 0)
            {
                const ld nx = fabsl(n * 2 * (ld) w_step);
                if (fabsl(nx - 1) < 1e-12L) skip = true;
                if (nx < 1) { const ld p = pswf(0, cw)(nx); const ld e = (pswf_tol(cw) + 1e-15 * cw * w_step * 10) / fabsl(p); rel += e; f /= p; if (e > 0.1) skip = true; }
            }
        }
        if (w_on)
        {
            const ld ph = 2 * PI_L * (ld) w_step * n * woff;
            f *= inv ? cis(ph) : cis(-ph);
            rel += 1e-15L * (2 * PI_L * w_step * std::abs(woff) * (fabsl(n) * 4 + 1) + 4);
        }
        if (skip) { c.count("pixels_not_decidable"); continue; }
        const cl ref = L(v[i * f1 + j]) * f;
        if (x.is_double() || std::abs(ref) < 1e37L) // (float range)
            if (!c.near_("correct", x({i, j}), D(ref), (double) (std::abs(ref) * rel) + 1e-300)) return;
        c.count("pixels");
    }
}
FAMILY(w_roundtrip, 500, 10000)
{
    Rng& r = c.rng;
    const int size = (int) r.i(1, 40), woff = (int) r.i(-50, 50);
    const double theta = r.d(0.01, 0.6), w_step = r.d(0.05, 60), hu = r.b() ? 0 : r.d(-0.2, 0.2), hv = r.b() ? 0 : r.d(-0.2, 0.2);
    Arr x(CD, {size, size}, lay(r), &r); x.fill_random(r);
    const int kind = (int) r.i(0, 1);
    c.note("image=%d w_offset=%d theta=%.17g w_step=%.17g shear=%.17g,%.17g kind=%d", size, woff, theta, w_step, hu, hv, kind); c.mix(r.s);
    auto v = x.values();
    sdp_Error st = SDP_SUCCESS;
    sdp_gridder_grid_correct_w_stack(size, theta, w_step, hu, hv, x.mem, 0, 0, woff, 0, &st);
    sdp_gridder_grid_correct_w_stack(size, theta, w_step, hu, hv, x.mem, 0, 0, kind ? -woff : woff, kind ? 0 : 1, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    for (int64_t k = 0; k < x.n(); ++k) if (!c.near_("undo", x.get(k), v[k], 2e-15)) return;
    c.count("roundtrips");
}
