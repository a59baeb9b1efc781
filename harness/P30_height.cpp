// Search for the tower height, the worst-case image, and the plane spacing.
#include "oracle.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_height.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.h"
using namespace vh;
using namespace orc;

namespace {
// Distance of the sources from the centre, in pixels.  Both integers next to a
// bound that rounding could move are given.
std::vector<int> edges(int N, double theta, double fov)
{
    std::vector<int> o;
    const ld e = (ld) N / theta * fov / 2;
    for (ld q : {e - 1e-9L, e + 1e-9L})
    {
        int k = (int) q;
        while (k > 1 && N % k == 0) --k;
        if (o.empty() || o[0] != k) o.push_back(k);
    }
    return o;
}
struct Src { int a, b; double f; };
std::vector<Src> sources(int N, int e)
{
    const int h = N / 2;
    return {{h + e, h + e, 0.3}, {h - e, h - e, 0.2}, {h + e, h - e - 1, 0.3}, {h - e - 1, h + e, 0.2}};
}

struct Search
{
    int N, s, sup, os, wsup, wos, samples;
    double theta, fov, w_step, hu, hv, frac;
    std::vector<Src> src;
    sdp_GridderWtowerUVW* g = 0;
    Arr sub;
    sdp_Error st = SDP_SUCCESS;
    ~Search() { sdp_gridder_wtower_uvw_free(g); }
    double largest = 0;
    // The sub-grid image of the corrected sources.
    void make(Case& c)
    {
        g = sdp_gridder_wtower_uvw_create(N, s, theta, w_step, hu, hv, sup, os, wsup, wos, &st);
        Arr img(SDP_MEM_COMPLEX_DOUBLE, {N, N});
        img.fill(0);
        for (auto& q : src) img.set({q.a, q.b}, q.f);
        sdp_gridder_wtower_uvw_degrid_correct(g, img.mem, 0, 0, 0, &st);
        if (st) c.fatal("setup", "setting up failed with %d", (int) st);
        // Transform to the sub-grid's part of the grid, and back at its size.
        std::vector<cl> grid((size_t) s * s), t((size_t) s * s);
        for (auto& q : src)
        {
            const cd f = img({q.a, q.b});
            largest = std::max(largest, std::abs(f));
            std::vector<cl> pa(s), pb(s);
            for (int k = 0; k < s; ++k)
            {
                pa[k] = cis(-2 * PI_L * (ld) (((int64_t) (k - s / 2) * (q.a - N / 2)) % N) / N);
                pb[k] = cis(-2 * PI_L * (ld) (((int64_t) (k - s / 2) * (q.b - N / 2)) % N) / N);
            }
            for (int i = 0; i < s; ++i) for (int k = 0; k < s; ++k) grid[(size_t) i * s + k] += cl(f.real(), f.imag()) * pa[i] * pb[k];
        }
        std::vector<cl> tw(s);
        for (int k = 0; k < s; ++k) tw[k] = cis(2 * PI_L * k / s);
        auto w = [&](int a, int b) { int64_t k = ((int64_t) (a - s / 2) * (b - s / 2)) % s; return tw[(size_t) (k < 0 ? k + s : k)]; };
        for (int i = 0; i < s; ++i) for (int k = 0; k < s; ++k) { cl v = 0; for (int j = 0; j < s; ++j) v += grid[(size_t) i * s + j] * w(k, j); t[(size_t) i * s + k] = v; }
        sub = Arr(SDP_MEM_COMPLEX_DOUBLE, {s, s});
        for (int i = 0; i < s; ++i) for (int k = 0; k < s; ++k)
        {
            cl v = 0; for (int j = 0; j < s; ++j) v += t[(size_t) j * s + k] * w(i, j);
            v /= (ld) s * s;
            sub.set({i, k}, cd((double) v.real(), (double) v.imag()));
        }
    }
    // Root mean square of the difference to the Fourier sum, at distance k planes.
    double err(int k)
    {
        const int n = samples ? samples : 3, rows = n * n;
        const double fr = frac == 0 ? 2.0 / 3.0 : frac, ext = s * fr / theta / 2;
        Arr uvw(SDP_MEM_DOUBLE, {rows, 3}), a(SDP_MEM_INT, {rows}), b(SDP_MEM_INT, {rows}), vis(SDP_MEM_COMPLEX_DOUBLE, {rows, 1});
        vis.fill(0);
        for (int i = 0; i < rows; ++i)
        {
            const double step = n > 1 ? 2 * ext / (n - 1) : 0;
            uvw.set({i, 0}, -ext + (i % n) * step); uvw.set({i, 1}, -ext + (i / n) * step); uvw.set({i, 2}, k * w_step);
            a.set(i, 0); b.set(i, 1);
        }
        sdp_gridder_wtower_uvw_degrid(g, sub.mem, 0, 0, 0, 299792458.0, 299792458.0, uvw.mem, a.mem, b.mem, vis.mem, -1, -1, &st);
        ld sum = 0;
        for (int i = 0; i < rows; ++i)
        {
            cl ref = 0;
            for (auto& q : src)
            {
                const ld l = (ld) (q.a - N / 2) * theta / N, m = (ld) (q.b - N / 2) * theta / N;
                ref += (ld) q.f * cis(-2 * PI_L * ((ld) uvw.r({i, 0}) * l + (ld) uvw.r({i, 1}) * m + (ld) uvw.r({i, 2}) * n_of(l, m, hu, hv)));
            }
            const cd v = vis.get(i);
            sum += std::norm(cl(v.real(), v.imag()) - ref);
        }
        return (double) sqrtl(sum / rows);
    }
};
}

FAMILY(height, 160, 3000)
{
    Rng& r = c.rng;
    Search q;
    q.s = 2 * (int) r.i(6, c.thorough ? 28 : 20);
    q.N = q.s + 2 * (int) r.i(0, 2 * q.s);
    q.theta = r.d(0.02, 0.4);
    const double ratio = r.d(0.3, 0.95);
    q.fov = q.theta * ratio;
    q.hu = r.b(0.7) ? 0 : r.d(-0.1, 0.1); q.hv = r.b(0.7) ? 0 : r.d(-0.1, 0.1);
    q.sup = 2 * (int) r.i(2, 5); q.wsup = 2 * (int) r.i(2, 5);
    q.os = (int) r.pick({64, 1024, 16384}); q.wos = (int) r.pick({64, 1024, 16384});
    q.frac = r.b(0.3) ? 0 : r.d(0.1, 0.9);
    q.samples = r.b(0.3) ? 0 : (int) r.i(1, 5);
    // The spacing for this field of view, sometimes a finer or coarser one.
    ld worst = 0;
    for (int k = 0; k < 4; ++k) worst = std::max(worst, -n_of((k & 1 ? 1 : -1) * (ld) q.fov / 2, (k & 2 ? 1 : -1) * (ld) q.fov / 2, q.hu, q.hv));
    worst = std::fabs((double) worst);
    if (worst < 1e-7L) worst = 1e-7L;
    q.w_step = (double) (ratio / (2 * worst)) * r.pick({1., 1., 1., 0.5, 0.25, 1.3});
    const std::vector<int> ed = edges(q.N, q.theta, q.fov);
    const double target = r.b(0.4) ? 0 : std::pow(10, -r.d(0.5, 6));
    c.note("image=%d sub-grid=%d theta=%.17g fov=%.17g w_step=%.17g shear=%.17g,%.17g support=%d,%d oversampling=%d,%d fraction=%g samples=%d target=%g", q.N, q.s, q.theta, q.fov, q.w_step, q.hu, q.hv, q.sup, q.wsup, q.os, q.wos, q.frac, q.samples, target);
    c.mix(r.s);
    if (ed.size() > 1 || ed[0] < 1 || q.N * ratio / 2 < 1) { c.trivial = true; return; }
    if (q.N / 2 + ed[0] >= q.N || q.N / 2 - ed[0] - 1 < 0) { c.trivial = true; return; }
    sdp_Error st = SDP_SUCCESS;
    const double h = sdp_gridder_determine_max_w_tower_height(q.N, q.s, q.theta, q.w_step, q.hu, q.hv, q.sup, q.os, q.wsup, q.wos, q.fov, q.frac, q.samples, target, &st);
    q.src = sources(q.N, ed[0]);
    q.make(c);
    if (q.largest > 1e6) { c.trivial = true; c.count("sources too close to the zeros of the window"); return; }
    const double t = target == 0 ? 2 * q.err(0) : target;
    if (q.st) c.fatal("setup", "measuring failed with %d", (int) q.st);
    if (st)
    {
        // Only if no height at all is too much.
        const double e = q.err((1 << 24) - 1);
        if (!(e < t)) c.fatal("status", "search failed with %d, but the error at the largest distance is %g, the target %g", (int) st, e, t);
        c.count("targets met at any height");
        return;
    }
    const int k = (int) (h / 2);
    if (h != 2 * k || k < 0) c.fatal("value", "height is %g", h);
    const double tol = 1e-6 * t + 1e-13;
    auto below = [&](double e) { return e < t + tol; };
    auto above = [&](double e) { return !(e < t - tol); };
    const double e0 = k > 0 ? q.err(k) : 0, e1 = q.err(k + 1);
    if (k > 0 && !below(e0)) c.fail("too_high", "height %g: the error at %d planes is %.9g, the target %.9g", h, k, e0, t);
    if (!above(e1)) c.fail("too_low", "height %g: the error at %d planes is still %.9g, the target %.9g", h, k + 1, e1, t);
    // If errors only grow, it is the first crossing.
    int bad = 0;
    for (int j = 1; j <= std::min(k, 40); ++j) if (above(q.err(j)) && !below(q.err(j))) ++bad;
    c.count(bad ? "searches with errors that do not only grow" : "searches checked");
    c.count("errors measured", (uint64_t) std::min(k, 40) + 2);
    if (k > 0) c.count("heights above zero");
    if (q.st) c.fatal("setup", "measuring failed with %d", (int) q.st);
}

FAMILY(worst_case, 800, 20000)
{
    Rng& r = c.rng;
    const int N = (int) r.li(1, 90), M = r.b(0.05) ? (int) r.li(1, 90) : N;
    const sdp_MemType t = r.b(0.93) ? SDP_MEM_COMPLEX_DOUBLE : r.pick({SDP_MEM_DOUBLE, SDP_MEM_FLOAT, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_INT});
    double theta = r.d(0.01, 1), fov = theta * r.d(0.01, 1);
    if (r.b(0.3)) { const int e = (int) r.i(1, std::max(1, N / 2)); theta = 0.25; fov = 0.5 * e / N; } // on a pixel
    if (r.b(0.1)) fov = r.pick({0., 1., 2., 1e9, -1., (double) NAN}) * theta;
    Arr img(t, {N, M}, (int) r.i(0, 3), &r);
    img.fill(cd(7, 0));
    img.snapshot();
    c.note("%s %dx%d theta=%.17g fov=%.17g", type_name(t), N, M, theta, fov); c.mix(r.s);
    sdp_Error st = SDP_SUCCESS;
    sdp_gridder_worst_case_image(theta, fov, img.mem, &st);
    const double e = (double) N / theta * fov / 2;
    const std::vector<int> ed = e > -1e8 && e < 1e8 ? edges(N, theta, fov) : std::vector<int>();
    const bool near_bound = fabs(e - 1) < 1e-9 || fabs(e - N / 2) < 1e-9;
    bool good = t == SDP_MEM_COMPLEX_DOUBLE && N == M && e >= 1 && e <= N / 2 && !ed.empty();
    for (int k : ed) if (N / 2 + k >= N || N / 2 - k - 1 < 0) good = false;
    if (st)
    {
        if (good && !near_bound) c.fatal("status", "valid call failed with %d", (int) st);
        if (!img.unchanged()) c.fatal("changed", "the image was changed although the call failed");
        c.count("invalid calls rejected");
        return;
    }
    if (!good && !near_bound) c.fatal("accepted", "invalid call succeeded");
    if (!img.surround_unchanged()) c.fatal("outside", "wrote outside the image");
    std::string why;
    for (int k : ed)
    {
        bool ok = N / 2 + k < N && N / 2 - k - 1 >= 0;
        if (!ok) continue;
        std::vector<cd> want((size_t) N * N);
        for (auto& s : sources(N, k)) want[(size_t) s.a * N + s.b] = s.f;
        if (img.values() == want) { c.count("worst-case images checked"); return; }
    }
    c.fail("image", "image is not that with four sources %d pixels from the centre", ed.empty() ? 0 : ed[0]);
}

FAMILY(edge_args, 60, 600)
{
    Rng& r = c.rng;
    // Targets that any height meets, none meets, and invalid parameters: always an answer.
    const int what = (int) r.i(0, 7);
    int N = 48, s = 24, sup = 6, wsup = 6, os = 256, wos = 256, ns = 0;
    double theta = 0.2, fov = 0.13, frac = 0, target = 0, w_step = 38;
    bool fail = false;
    double want = -1;
    switch (what)
    {
    case 0: target = r.pick({5., 1e300, (double) INFINITY}); fail = true; break;
    case 1: target = r.pick({-1., 1e-300, (double) NAN}); want = 0; break;
    case 2: ns = (int) r.i(-5, -1); fail = true; break;
    case 3: frac = -r.d(0.1, 1); fail = true; break;
    case 4: frac = 0.5; ns = 1; target = 1e-300; want = 0; break;
    case 5: fov = r.pick({0., -0.1, 0.21, 3.}); fail = true; break;
    case 6: frac = r.d(1.2, 30); target = 1e-3; want = 0; break; // samples outside the sub-grid
    case 7: if (r.b()) sup = -(int) r.i(0, 9); else wsup = -(int) r.i(0, 9); fail = true; break;
    }
    c.note("case %d: image=%d sub-grid=%d samples=%d fraction=%g fov=%g target=%g support=%d,%d", what, N, s, ns, frac, fov, target, sup, wsup); c.mix(r.s);
    sdp_Error st = SDP_SUCCESS;
    const double h = sdp_gridder_determine_max_w_tower_height(N, s, theta, w_step, 0, 0, sup, os, wsup, wos, fov, frac, ns, target, &st);
    if (fail && !st) c.fatal("accepted", "returned %g without an error", h);
    if (fail && h != 0) c.fatal("failed_value", "returned %g with an error", h);
    if (!fail && st) c.fatal("status", "failed with %d", (int) st);
    if (want >= 0 && h != want) c.fatal("edge_value", "returned %g, expected %g", h, want);
    c.count("edge cases answered");
    // An error that is already set stays, and nothing is done.
    st = SDP_ERR_MEM_LOCATION;
    if (sdp_gridder_determine_max_w_tower_height(48, 24, 0.2, 38, 0, 0, 6, 256, 6, 256, 0.13, 0, 0, 0, &st) != 0 || st != SDP_ERR_MEM_LOCATION) c.fatal("sticky", "an existing error was not kept");
}

// The spacing of planes: at the corners of the field of view, the kernel in n is used up to x0.
FAMILY(w_step_valid, 800, 20000)
{
    Rng& r = c.rng;
    const double theta = r.d(0.001, 0.6), fov = theta * r.d(0.1, 0.98), hu = r.b() ? 0 : r.d(-0.3, 0.3), hv = r.b() ? 0 : r.d(-0.3, 0.3);
    const double x0 = r.b(0.5) ? 0 : r.d(0.05, 1);
    c.note("theta=%.17g fov=%.17g shear=%.17g,%.17g x0=%.17g", theta, fov, hu, hv, x0); c.mix(r.s);
    const double w = sdp_gridder_determine_w_step(theta, fov, hu, hv, x0);
    ld lo = INFINITY;
    for (int k = 0; k < 4; ++k) lo = std::min(lo, n_of((k & 1 ? 1 : -1) * (ld) fov / 2, (k & 2 ? 1 : -1) * (ld) fov / 2, hu, hv));
    if (!(lo < -1e-9L)) { c.trivial = true; return; }
    const ld used = 2 * fabsl(lo) * w, want = x0 == 0 ? (ld) fov / theta : x0;
    if (!(fabsl(used - want) <= 1e-9L * (1 + 1e-3L / fabsl(lo)))) c.fail("w_step", "the kernel is used up to %.12Lg, not %.12Lg", used, want);
    c.count("spacings checked");
}
