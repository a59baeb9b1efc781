// Imaging weights against a direct evaluation of the definitions.
#include "vh.h"
#include "ska-sdp-func/visibility/sdp_weighting.h"
using namespace vh;
typedef long double ld;

static void run(Case& c, bool robust, bool vast = false)
{
    Rng& r = c.rng;
    const bool dbl = r.b(0.6);
    const bool lattice = r.b(0.35); // exactly representable cell coordinates
    int64_t nt = r.li(1, 6), nb = r.li(1, 30), nc = r.li(1, 10), np = r.i(1, 4), g = r.b() ? r.i(1, 12) : r.i(1, 60);
    if (r.b(0.03)) nc = r.i(50, 200);
    if (r.b(0.03)) nb = 0;
    if (r.b(0.01)) { nb = r.i(500, 5000); nt = r.i(1, 2); nc = r.i(1, 4); np = r.i(1, 2); g = r.i(1, 300); }
    if (lattice) g = (int64_t) 1 << r.i(1, 6);
    if (vast) g = lattice ? 65536 : (int64_t) std::sqrt(r.d(1.02, 2.5) * 4294967296.0 / (double) np);
    Arr uvw(SDP_MEM_DOUBLE, {nt, nb, 3}), freq(SDP_MEM_DOUBLE, {nc});
    Arr win(real_t(dbl), {nt, nb, nc, np}), wout(real_t(dbl), {nt, nb, nc, np}), grid;
    if (vast) grid = Arr::vast(real_t(dbl), {g, g, np}); else grid = Arr(real_t(dbl), {g, g, np});
    if (!grid.mem) { c.trivial = true; return; }
    const int64_t half = g / 2;
    double maxuv;
    if (lattice)
    {
        // inverse wavelength is a power of two times a small integer
        maxuv = (double) ((int64_t) 1 << r.i(3, 12));
        for (int64_t k = 0; k < nc; ++k) freq.set(k, 299792458.0 * (double) ((int64_t) 1 << r.i(0, 2)));
        for (int64_t k = 0; k < nt * nb; ++k) for (int j = 0; j < 3; ++j)
            uvw.set(3 * k + j, (double) r.i(-g - 2, g + 2) * maxuv / (double) (2 * std::max<int64_t>(half, 1)));
    }
    else
    {
        for (int64_t k = 0; k < nc; ++k) freq.set(k, r.d(5e7, 2e9));
        const double s = std::pow(10.0, r.d(0, 4));
        uvw.fill_random(r, -s, s); if (r.b(0.4)) uvw.spice(r);
        maxuv = s * 3.0 * std::pow(10.0, r.d(-0.5, 1.0));
        if (r.b(0.3)) { const double q = std::pow(10.0, r.d(-2, 0)); for (int64_t k = 0; k < nt * nb; ++k) { uvw.set(3 * k, uvw.get(3 * k) * q); uvw.set(3 * k + 1, uvw.get(3 * k + 1) * q); } }
        if (r.b(0.1) && nt * nb) { uvw.set(0, 0); uvw.set(1, 0); }
    }
    if (r.b()) { win.fill_random(r, 0, 10); win.spice(r); }
    else for (int64_t k = 0; k < win.n(); ++k) win.set(k, (double) r.i(0, 3)); // zero weights too
    if (r.b(0.05)) win.fill(0);
    // Sums of weights may be negative, or cancel to nothing; small integers add up exactly.
    const bool neg = !robust && r.b(0.06);
    if (neg) for (int64_t k = 0; k < win.n(); ++k) win.set(k, (double) r.i(-3, 2));
    wout.fill_random(r, 5, 9);
    const bool pre = !vast && r.b(0.15);
    if (!vast) grid.fill(0); if (pre) { if (neg) for (int64_t k = 0; k < grid.n(); ++k) grid.set(k, (double) r.i(0, 2)); else grid.fill_random(r, 0, 2); }
    const double rob = r.b(0.3) ? (double) r.i(-2, 2) : r.d(-2, 2);
    c.note("%s %s nt=%lld nb=%lld nc=%lld np=%lld grid=%lld max_uv=%.17g rob=%.6g lattice=%d pre=%d", robust ? "briggs" : "uniform", type_name(win.type), (long long) nt, (long long) nb, (long long) nc, (long long) np, (long long) g, maxuv, rob, lattice, pre);
    c.mix(r.s);
    // Reference.
    struct Cell { int64_t u, v; bool amb; };
    std::vector<Cell> cell(nt * nb * nc);
    bool amb = false;
    for (int64_t k = 0; k < nt * nb; ++k) for (int64_t ch = 0; ch < nc; ++ch)
    {
        Cell x; int64_t o[2]; bool am = false;
        for (int j = 0; j < 2; ++j)
        {
            ld q = (ld) uvw.get(3 * k + j).real() * (ld) freq.get(ch).real() / 299792458.0L / (ld) maxuv * (ld) half;
            ld f = floorl(q);
            if (q != 0 && !lattice && (q - f < 1e-11L || f + 1 - q < 1e-11L)) am = true;
            ld pos = f + half;
            o[j] = pos < 0 || pos >= g ? -1 : (int64_t) pos;
        }
        x.u = o[0]; x.v = o[1]; x.amb = am; amb |= am;
        cell[k * nc + ch] = x;
    }
    if (amb) { c.trivial = true; c.count("ambiguous_skipped"); return; }
    std::vector<ld> all(vast ? 0 : grid.n());
    std::map<int64_t, ld> few; // of vast grids
    auto gr = [&](int64_t k) -> ld& { return vast ? few[k] : all[(size_t) k]; };
    for (int64_t k = 0; !vast && k < grid.n(); ++k) all[k] = grid.get(k).real();
    ld total_in = 0, total_abs = 0; for (auto v : all) { total_in += v; total_abs += fabsl(v); }
    int64_t inside = 0;
    for (int64_t k = 0; k < (int64_t) cell.size(); ++k)
        if (cell[k].u >= 0 && cell[k].v >= 0)
        {
            ++inside;
            for (int64_t p = 0; p < np; ++p)
            {
                gr((cell[k].u * g + cell[k].v) * np + p) += win.get(k * np + p).real();
                total_in += win.get(k * np + p).real(); total_abs += fabsl((ld) win.get(k * np + p).real());
            }
        }
    ld s1 = 0, s2 = 0;
    for (size_t k = 0; k < cell.size(); ++k)
        if (cell[k].u >= 0 && cell[k].v >= 0)
            for (int64_t p = 0; p < np; ++p) { ld w = gr((cell[k].u * g + cell[k].v) * np + p); s1 += w; s2 += w * w; }
    const ld f2 = s2 > 0 ? powl(5.0L * powl(10.0L, -(ld) rob), 2) / (s2 / s1) : 0;
    uvw.read_only(true); freq.read_only(true); win.read_only(true);
    uvw.snapshot(); freq.snapshot(); win.snapshot();
    std::vector<cd> before = wout.values();
    sdp_Error st = SDP_SUCCESS;
    if (robust) sdp_weighting_briggs(uvw.mem, freq.mem, maxuv, rob, grid.mem, win.mem, wout.mem, &st);
    else sdp_weighting_uniform(uvw.mem, freq.mem, maxuv, grid.mem, win.mem, wout.mem, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    if (!uvw.unchanged() || !freq.unchanged() || !win.unchanged()) c.fail("inputs_changed", "an input was modified");
    const double eps = dbl ? 2.3e-16 : 1.2e-7;
    ld total = 0;
    const double nsum = 4.0 + (double) nt * nb * nc;
    for (int64_t k = 0; !vast && k < grid.n(); ++k)
    {
        if (!c.near_("grid", grid.get(k), cd((double) gr(k), 0), eps * nsum * (double) fabsl(gr(k)) + 1e-300)) return;
        total += grid.get(k).real();
    }
    if (vast) for (auto& x : few)
        if (!c.near_("grid", grid.get(x.first), cd((double) x.second, 0), eps * nsum * (double) fabsl(x.second) + 1e-300)) return;
    if (vast) for (auto b : grid.written_pages())
        for (int64_t k = b / (int64_t) grid.esize(); k < std::min<int64_t>(grid.n(), (b + 4096) / (int64_t) grid.esize()); ++k) total += grid.get(k).real();
    if (!(fabsl(total - total_in) <= eps * nsum * total_abs + 1e-300L)) c.fail("conserve", "gridded weight %.15Lg, weight of visibilities on the grid %.15Lg", total, total_in);
    for (size_t k = 0; k < cell.size(); ++k)
        for (int64_t p = 0; p < np; ++p)
        {
            cd got = wout.get(k * np + p);
            if (cell[k].u < 0 || cell[k].v < 0)
            {
                if (got != before[k * np + p]) { c.fatal("off_grid_weight", "visibility %zu is off the grid but its weight was changed to %g", k, got.real()); }
                c.count("off_grid"); continue;
            }
            ld w = gr((cell[k].u * g + cell[k].v) * np + p), in = win.get(k * np + p).real(), ex;
            if (robust) ex = in / (1 + f2 * w);
            else ex = w != 0 ? 1 / w : 0;
            const double te = eps * nsum * 4 * (double) fabsl(ex) + 1e-300;
            if (!c.near_(robust ? "briggs" : "uniform", got, cd((double) ex, 0), te)) return;
            c.count("weights_compared");
        }
    if (inside == 0) c.trivial = true;
}
FAMILY(uniform, 1500, 30000) { run(c, false); }
FAMILY(briggs, 1500, 30000) { run(c, true); }
// Grids with more cells than 32-bit numbers count.
FAMILY(vast, 3, 40) { run(c, c.idx % 2, true); }
