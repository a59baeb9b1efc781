// Degridding with tabulated kernels, against the written-out sum.
#include "vh.h"
#include "ska-sdp-func/grid_data/sdp_degrid_uvw_custom.h"
using namespace vh;
typedef long double ld;


// Every visibility is the sum over its footprint, or is left out.
static void judge(Case& c, const Arr& grid, const Arr& uvw, const Arr& uvk, const Arr& wk, const Arr& vis, const std::vector<cd>& before, double theta, double wstep, double f0, double df, int conj)
{
    const int nt = (int) uvw.shape[0], nb = (int) uvw.shape[1], nch = (int) grid.shape[0], np = (int) grid.shape[4], ny = (int) grid.shape[2], nx = (int) grid.shape[3];
    const int ov = (int) uvk.shape[0], ks = (int) uvk.shape[1], ow = (int) wk.shape[0], kw = (int) wk.shape[1];
    int some = 0;
    for (int i = 0; i < nt * nb; ++i) for (int ch = 0; ch < nch; ++ch)
    {
        const ld inv = ((ld) f0 + (ld) df * ch) / 299792458.0L;
        // Candidate positions, in oversampled cells: two where rounding may go either way.
        std::vector<int64_t> cand[3];
        bool far = false, odd = false;
        for (int k = 0; k < 3; ++k)
        {
            const ld x = k < 2 ? (ld) theta * uvw.r({i / nb, i % nb, k}) * inv * ov : (1 + (ld) uvw.r({i / nb, i % nb, k}) * inv / wstep) * ow;
            if (!(fabsl(x) < 1e8L)) { (k < 2 && !std::isnan((double) x) && fabsl(x) > 1e8L ? far : odd) = true; continue; }
            cand[k].push_back((int64_t) floorl(x + 0.5L));
            const ld f = x - floorl(x), tol = 1e-12L * (fabsl(x) + 1);
            if (fabsl(f - 0.5L) <= tol) { cand[k].push_back(cand[k][0] - 1); cand[k].push_back((int64_t) ceill(x)); c.count("half_way_positions"); }
        }
        auto unchanged = [&]() {
            for (int p = 0; p < np; ++p) if (vis({i / nb, i % nb, ch, p}) != before[((int64_t) i * nch + ch) * np + p]) return false;
            return true;
        };
        if (far) { if (!unchanged()) return c.fail("outside_written", "row %d channel %d far outside the grid was written", i, ch); c.count("outside"); continue; }
        if (odd) continue; // undefined coordinate or w too large for a fraction
        auto cdiv = [](int64_t a, int64_t b) { return a >= 0 ? (a + b - 1) / b : -((-a) / b); };
        bool ok = false, maybe = false;
        double worst = 1e300;
        for (auto px : cand[0]) for (auto py : cand[1]) for (auto pz : cand[2])
        {
            const int64_t hx = cdiv(px, ov), hy = cdiv(py, ov), hz = cdiv(pz, ow);
            const int64_t kx = hx * ov - px, ky = hy * ov - py, kz = hz * ow - pz; // rows of the kernels
            const int64_t x0 = nx / 2 + hx - ks / 2, y0 = ny / 2 + hy - ks / 2;
            const bool fits = x0 >= 0 && y0 >= 0 && x0 + ks <= nx && y0 + ks <= ny;
            // The implementation also leaves out those that touch the first or last row or column.
            const bool inner = x0 >= 1 && y0 >= 1 && x0 + ks + 1 <= nx && y0 + ks + 1 <= ny;
            if (!inner) { maybe = true; if (unchanged()) ok = true; }
            if (!fits) continue;
            double diff = 0;
            for (int p = 0; p < np; ++p)
            {
                cd sum = 0; double mag = 0;
                for (int z = 0; z < kw; ++z) for (int y = 0; y < ks; ++y) for (int x = 0; x < ks; ++x)
                {
                    const double w = wk.r({kz, z}) * uvk.r({ky, y}) * uvk.r({kx, x});
                    const cd g = grid({ch, z, y0 + y, x0 + x, p});
                    sum += w * g; mag += std::fabs(w) * std::abs(g);
                }
                if (conj) sum = std::conj(sum);
                diff = std::max(diff, std::abs(sum - vis({i / nb, i % nb, ch, p})) / (1e-13 * mag + 1e-300));
            }
            worst = std::min(worst, diff);
            if (diff <= 1) { ok = true; if (inner) ++some; }
        }
        if (!ok) return c.fail(maybe ? "edge" : "degrid", "row %d channel %d (%.17g, %.17g, %.17g m): not the kernel-weighted sum (%.3g times the tolerance)%s", i, ch, uvw.r({i / nb, i % nb, 0}), uvw.r({i / nb, i % nb, 1}), uvw.r({i / nb, i % nb, 2}), worst, maybe ? " and not left out" : "");
        c.count(maybe ? "footprint_not_inside" : "visibilities_compared");
    }
    if (!some) c.trivial = true;
}

FAMILY(degrid_custom, 700, 15000)
{
    Rng& r = c.rng;
    const int ks = (int) r.i(1, 9), ov = (int) r.pick({1, 2, 3, 8, 32, 100}), kw = (int) r.i(1, 5), ow = (int) r.pick({1, 2, 5, 16, 64});
    const int nz = kw + (int) r.pick({0, 0, 0, 1, 2});
    const bool square = r.b(0.6);
    const bool large = r.b(0.005), many = r.b(0.01);
    const int nx = (int) r.i(1, large ? 160 : 30), ny = square ? nx : (int) r.i(1, large ? 160 : 30);
    const int nt = (int) r.li(1, 5), nb = (int) (many ? r.i(100, 400) : r.li(1, 12)), nch = (int) r.li(1, 6), np = (int) r.pick({1, 4});
    const double theta = r.pick({0.1, 0.25, 0.013}), wstep = r.pick({1., 250., 0.5, 17.3});
    const double f0 = r.d(5e7, 3e8), df = r.pick({0., 1e5, 2e6, -1e6});
    const int conj = (int) r.i(0, 1);
    Arr grid(SDP_MEM_COMPLEX_DOUBLE, {nch, nz, ny, nx, np}), uvw(SDP_MEM_DOUBLE, {nt, nb, 3}), uvk(SDP_MEM_DOUBLE, {ov, ks}), wk(SDP_MEM_DOUBLE, {ow, kw}), vis(SDP_MEM_COMPLEX_DOUBLE, {nt, nb, nch, np});
    grid.fill_random(r); uvk.fill_random(r); wk.fill_random(r); vis.fill_random(r);
    const double fm = (f0 + df * (nch / 2)) / 299792458.0;
    for (int i = 0; i < nt * nb; ++i)
    {
        const int n[2] = {nx, ny};
        for (int k = 0; k < 2; ++k)
        {
            double cell = r.d(-0.75, 0.75) * n[k];
            if (r.b(0.3)) cell = (double) r.i(-n[k], n[k]) / 2; // on and half way between cells
            if (r.b(0.2)) cell = (r.b() ? 1 : -1) * (n[k] / 2 - ks / 2 + (double) r.i(-2, 2)) + r.pick({0., 1e-9, -1e-9, 0.5}); // where the footprint meets the edge
            if (r.b(0.03)) cell = r.pick({1e5, -1e7, 1e9, -1e12, 1e300});
            uvw.set(3 * i + k, cell / theta / fm);
        }
        double z = r.d(-6, 6);
        if (r.b(0.3)) z = (double) r.i(-12, 12) / 2;
        if (r.b(0.03)) z = r.pick({1e5, -1e9, 1e12});
        uvw.set(3 * i + 2, z * wstep / fm);
    }
    const bool undefined = r.b(0.05);
    if (undefined) uvw.set(r.i(0, 3 * nt * nb - 1), r.pick({(double) NAN, (double) INFINITY, (double) -INFINITY}));
    c.note("grid %dx%dx%d channels=%d pols=%d kernel %dx%d w-kernel %dx%d theta=%g wstep=%g conjugate=%d f0=%.17g df=%g times=%d baselines=%d", nz, ny, nx, nch, np, ov, ks, ow, kw, theta, wstep, conj, f0, df, nt, nb);
    c.mix(r.s);
    for (auto a : {&grid, &uvw, &uvk, &wk}) { a->read_only(true); a->snapshot(); }
    const std::vector<cd> before = vis.values();
    sdp_Error st = SDP_SUCCESS;
    sdp_degrid_uvw_custom(grid.mem, uvw.mem, uvk.mem, wk.mem, theta, wstep, f0, df, conj, vis.mem, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    for (auto a : {&grid, &uvw, &uvk, &wk}) if (!a->unchanged()) c.fail("inputs_changed", "an input was modified");

    judge(c, grid, uvw, uvk, wk, vis, before, theta, wstep, f0, df, conj);
}

// Grids with more elements than 32-bit numbers count, mostly empty.
FAMILY(vast, 4, 40)
{
    Rng& r = c.rng;
    const int ks = (int) r.i(1, 9), ov = (int) r.pick({1, 3, 8}), kw = (int) r.i(1, 5), ow = (int) r.pick({1, 5, 16});
    const int nz = kw + (int) r.i(0, 2), nch = (int) r.i(1, 3), np = (int) r.pick({1, 4});
    const int64_t side = (int64_t) std::sqrt(r.d(1.02, 2.3) * 4294967296.0 / (double) (nz * nch * np));
    const int nx = (int) side, ny = (int) (side + r.i(0, 3)), nb = (int) r.i(4, 12);
    const double theta = r.pick({0.1, 0.25}), wstep = r.pick({1., 250.}), f0 = r.d(5e7, 3e8), df = r.pick({0., 1e3});
    const int conj = (int) r.i(0, 1);
    Arr grid = Arr::vast(SDP_MEM_COMPLEX_DOUBLE, {nch, nz, ny, nx, np});
    if (!grid.mem) { c.trivial = true; return; }
    Arr uvw(SDP_MEM_DOUBLE, {1, nb, 3}), uvk(SDP_MEM_DOUBLE, {ov, ks}), wk(SDP_MEM_DOUBLE, {ow, kw}), vis(SDP_MEM_COMPLEX_DOUBLE, {1, nb, nch, np});
    uvk.fill_random(r); wk.fill_random(r); vis.fill_random(r);
    const double fm = f0 / 299792458.0;
    for (int i = 0; i < nb; ++i)
    {
        const int n[2] = {nx, ny};
        int64_t at[2];
        for (int k = 0; k < 2; ++k)
        {
            at[k] = r.b(0.4) ? (r.b() ? ks + 3 : n[k] - ks - 4) : r.i(ks + 3, n[k] - ks - 4);
            uvw.set(3 * i + k, (double) (at[k] - n[k] / 2 + r.d(-0.4, 0.4)) / theta / fm);
        }
        uvw.set(3 * i + 2, r.d(-6, 6) * wstep / fm);
        for (int ch = 0; ch < nch; ++ch) for (int z = 0; z < kw; ++z) for (int64_t y = -ks - 2; y <= ks + 2; ++y) for (int64_t x = -ks - 2; x <= ks + 2; ++x) for (int p = 0; p < np; ++p)
            grid.set({ch, z, at[1] + y, at[0] + x, p}, cd(r.d(-1, 1), r.d(-1, 1)));
    }
    c.note("grid %dx%dx%d channels=%d pols=%d kernel %dx%d w-kernel %dx%d elements=%lld", nz, ny, nx, nch, np, ov, ks, ow, kw, (long long) grid.n());
    c.mix(r.s);
    grid.read_only(true);
    const std::vector<cd> before = vis.values();
    const size_t pages = grid.written_pages().size();
    sdp_Error st = SDP_SUCCESS;
    sdp_degrid_uvw_custom(grid.mem, uvw.mem, uvk.mem, wk.mem, theta, wstep, f0, df, conj, vis.mem, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    judge(c, grid, uvw, uvk, wk, vis, before, theta, wstep, f0, df, conj);
    c.count("pages_of_vast_grids", pages);
}
