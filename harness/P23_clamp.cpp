// Channel selection by coordinate interval, against exact membership.
#include "vh.h"
#include "ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h"
using namespace vh;
typedef long double ld;

namespace {
const ld C0 = 299792458.0L;

struct Data
{
    bool exact, dbl; int nr, nch; double f0, df;
    Arr uvw, s0, e0; int r0, r1; bool all;
    Data(Case& c, Rng& r)
    {
        exact = r.b(); dbl = r.b(); nr = (int) r.li(1, 60); nch = (int) r.li(1, 200);
        if (r.b(0.01)) { nr = (int) r.i(300, 2000); nch = (int) r.i(1, 20); }
        if (exact) // All products and quotients below are exact.
        {
            df = 299792458.0 * r.pick({0., 1., 1., 0.5, 0.25, 2., -0.5, -1.});
            f0 = 299792458.0 * (double) r.i(0, 8) * 0.5;
        }
        else { f0 = r.d(1e7, 2e9); df = r.pick({0., 1e3, 1e5, 1e6, -1e5, 1e-3}) * r.d(0.5, 1.5); }
        uvw = Arr(real_t(dbl), {nr, 3}, (int) r.i(0, 3), &r);
        for (int i = 0; i < nr; ++i) for (int k = 0; k < 3; ++k)
        {
            double v = exact ? (double) r.i(-64, 64) * r.pick({1., 0.125, 0.5}) : r.d(-1, 1) * r.pick({1., 1e3, 1e6, 1e-6});
            if (r.b(0.1)) v = 0;
            uvw.set({i, k}, v);
        }
        s0 = Arr(SDP_MEM_INT, {nr + (r.b(0.2) ? 3 : 0)}, (int) r.i(0, 3), &r); e0 = Arr(SDP_MEM_INT, {nr}, (int) r.i(0, 3), &r);
        const bool whole = r.b(0.3);
        for (int i = 0; i < (int) s0.n(); ++i) s0.set(i, 0);
        for (int i = 0; i < nr; ++i)
        {
            const int a = (int) r.i(0, nch), b = (int) r.i(0, nch);
            s0.set(i, whole ? 0 : std::min(a, b)); e0.set(i, whole ? nch : std::max(a, b));
            if (r.b(0.05)) { s0.set(i, std::max(a, b)); e0.set(i, std::min(a, b)); }
        }
        all = r.b(0.5); r0 = all ? -1 : (int) r.i(0, nr); r1 = all ? -1 : (int) r.i(0, nr);
        if (!all && r.b(0.6) && r1 < r0) std::swap(r0, r1);
        if (all && r.b()) { if (r.b()) r0 = 1; else r1 = 1; } // one of them negative: everything
        c.note("%s %s rows=%d [%d,%d) channels=%d f0=%.17g df=%.17g", exact ? "exact" : "random", dbl ? "double" : "float", nr, r0, r1, nch, f0, df);
        c.mix(r.s);
        for (auto a : {&uvw, &s0, &e0}) { a->read_only(true); a->snapshot(); }
    }
    bool row(int i) const { return all || (i >= r0 && i < r1); }
    ld x(int i, int k, int ch) const { return (ld) uvw.r({i, k}) * ((ld) f0 + (ld) df * ch) / C0; }
    // A bound: often exactly the coordinate of some channel.
    double bound(Rng& r, int k) const
    {
        if (r.b(0.05)) return r.pick({1e12, -1e12, 1e300, -1e300, (double) INFINITY, (double) -INFINITY});
        if (r.b(0.05)) return 0;
        const int i = (int) r.i(0, nr - 1);
        double v = (double) x(i, k, (int) r.i(-2, nch + 2));
        if (!exact && r.b(0.7)) v += r.normal() * (std::fabs(v) * 0.1 + (double) fabsl(x(i, k, 1) - x(i, k, 0)));
        return v;
    }
    ld slack(int i, int k, double b) const
    {
        if (exact || !std::isfinite(b)) return 0;
        // Rounding of f0*u, df*u, differences and quotient.
        return 1e-14L * (fabsl(x(i, k, 0)) + fabsl(b) + nch * fabsl((ld) uvw.r({i, k}) * df / C0)) + 1e-300L;
    }
    // 1 inside, 0 outside, -1 on a bound within rounding
    int inside(int i, int k, int ch, double lo, double hi) const
    {
        const ld v = x(i, k, ch);
        if (!exact && std::isfinite(lo) && fabsl(v - lo) <= slack(i, k, lo)) return -1;
        if (!exact && std::isfinite(hi) && fabsl(v - hi) <= slack(i, k, hi)) return -1;
        return v >= lo && v < hi;
    }
};
}

FAMILY(single, 1600, 40000)
{
    Rng& r = c.rng;
    Data q(c, r);
    const int k = (int) r.i(0, 2);
    double lo = q.bound(r, k), hi = q.bound(r, k);
    if (hi < lo && r.b(0.9)) std::swap(lo, hi);
    c.note("dim=%d [%.17g,%.17g)", k, lo, hi);
    Arr s(SDP_MEM_INT, {q.nr}, (int) r.i(0, 3), &r), e(SDP_MEM_INT, {q.nr}, (int) r.i(0, 3), &r);
    s.fill(-77); e.fill(-78); s.snapshot(); e.snapshot();
    sdp_Error st = SDP_SUCCESS;
    sdp_gridder_clamp_channels_single(q.uvw.mem, k, q.f0, q.df, q.s0.mem, q.e0.mem, lo, hi, s.mem, e.mem, q.r0, q.r1, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    for (auto a : {&q.uvw, &q.s0, &q.e0}) if (!a->unchanged()) c.fail("inputs_changed", "an input was modified");
    if (!s.surround_unchanged() || !e.surround_unchanged()) c.fail("frame", "memory between output elements changed");
    int some = 0;
    for (int i = 0; i < q.nr; ++i)
    {
        const int a = (int) s.r({i}), b = (int) e.r({i});
        if (!q.row(i)) { if (a != -77 || b != -78) return c.fail("row_range", "row %d outside the range of rows was written", i); continue; }
        if (b < a) return c.fail("order", "row %d has range [%d,%d)", i, a, b);
        const int a0 = (int) q.s0.r({i}), b0 = (int) q.e0.r({i});
        if (b > a && (a < a0 || b > b0)) return c.fail("outside_given_range", "row %d: [%d,%d) not within [%d,%d)", i, a, b, a0, b0);
        for (int ch = a0; ch < b0; ++ch)
        {
            const int in = q.inside(i, k, ch, lo, hi);
            if (in < 0) { c.count("on_bound_within_rounding"); continue; }
            const bool got = ch >= a && ch < b;
            if (got != (in == 1)) return c.fail("selection", "row %d channel %d at %.17Lg: selected %d, expected %d (selected [%d,%d) of [%d,%d))", i, ch, q.x(i, k, ch), got, in, a, b, a0, b0);
            some += got;
            c.count(got ? "channels_selected" : "channels_excluded");
            if (q.exact && (q.x(i, k, ch) == lo || q.x(i, k, ch) == hi)) c.count("channels_exactly_on_a_bound");
        }
        // The same decision for a single position.
        int64_t sa = a0, sb = b0;
        sdp_gridder_clamp_channels_inline(q.uvw.r({i, k}), q.f0, q.df, &sa, &sb, lo, hi);
        for (int ch = a0; ch < b0; ++ch)
        {
            const int in = q.inside(i, k, ch, lo, hi);
            if (in >= 0 && (ch >= sa && ch < sb) != (in == 1)) return c.fail("inline_selection", "u=%.17g channel %d at %.17Lg: [%d,%d)", q.uvw.r({i, k}), ch, q.x(i, k, ch), (int) sa, (int) sb);
        }
    }
    if (!some) c.trivial = true;
}

FAMILY(both, 1600, 40000)
{
    Rng& r = c.rng;
    Data q(c, r);
    double lo[2], hi[2];
    for (int k = 0; k < 2; ++k) { lo[k] = q.bound(r, k); hi[k] = q.bound(r, k); if (hi[k] < lo[k]) std::swap(lo[k], hi[k]); }
    c.note("u [%.17g,%.17g) v [%.17g,%.17g)", lo[0], hi[0], lo[1], hi[1]);
    Arr s(SDP_MEM_INT, {q.nr}, (int) r.i(0, 3), &r), e(SDP_MEM_INT, {q.nr}, (int) r.i(0, 3), &r);
    s.fill(-77); e.fill(-78); s.snapshot(); e.snapshot();
    sdp_Error st = SDP_SUCCESS;
    sdp_gridder_clamp_channels_uv(q.uvw.mem, q.f0, q.df, q.s0.mem, q.e0.mem, lo[0], hi[0], lo[1], hi[1], s.mem, e.mem, q.r0, q.r1, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    if (!s.surround_unchanged() || !e.surround_unchanged()) c.fail("frame", "memory between output elements changed");
    int some = 0;
    for (int i = 0; i < q.nr; ++i)
    {
        const int a = (int) s.r({i}), b = (int) e.r({i});
        if (!q.row(i)) { if (a != -77 || b != -78) return c.fail("row_range", "row %d outside the range of rows was written", i); continue; }
        if (b < a) return c.fail("order", "row %d has range [%d,%d)", i, a, b);
        const int a0 = (int) q.s0.r({i}), b0 = (int) q.e0.r({i});
        if (b > a && (a < a0 || b > b0)) return c.fail("outside_given_range", "row %d: [%d,%d) not within [%d,%d)", i, a, b, a0, b0);
        for (int ch = a0; ch < b0; ++ch)
        {
            const int iu = q.inside(i, 0, ch, lo[0], hi[0]), iv = q.inside(i, 1, ch, lo[1], hi[1]);
            if (iu != 0 && iv != 0 && (iu < 0 || iv < 0)) { c.count("on_bound_within_rounding"); continue; }
            const bool got = ch >= a && ch < b, want = iu == 1 && iv == 1;
            if (got != want) return c.fail("selection", "row %d channel %d at (%.17Lg, %.17Lg): selected %d (selected [%d,%d) of [%d,%d))", i, ch, q.x(i, 0, ch), q.x(i, 1, ch), got, a, b, a0, b0);
            some += got;
            c.count(got ? "channels_selected" : "channels_excluded");
        }
    }
    if (!some) c.trivial = true;
}

// Adjacent intervals: every channel is in exactly one of them.
FAMILY(partition, 600, 12000)
{
    Rng& r = c.rng;
    Data q(c, r);
    const bool two = r.b(0.4);
    const int nb = (int) r.i(1, two ? 4 : 8), dim = two ? 0 : (int) r.i(0, 2);
    std::vector<double> b[2];
    for (int k = 0; k < (two ? 2 : 1); ++k)
    {
        const int d = two ? k : dim;
        double top = 1;
        for (int i = 0; i < q.nr; ++i) for (int ch : {0, q.nch}) top = std::max(top, 2 * (double) fabsl(q.x(i, d, ch)));
        b[k].push_back(-top); b[k].push_back(top);
        for (int j = 0; j < nb; ++j) { const double v = q.bound(r, d); if (std::fabs(v) < top) b[k].push_back(v); }
        if (r.b(0.2)) { b[k].push_back(top * 1e13); b[k].push_back(-top * 1e13); }
        std::sort(b[k].begin(), b[k].end());
    }
    if (!two) b[1] = {0, 1};
    std::vector<std::vector<int>> seen(q.nr, std::vector<int>(q.nch + 1, 0));
    for (size_t j = 0; j + 1 < b[0].size(); ++j) for (size_t k = 0; k + 1 < b[1].size(); ++k)
    {
        Arr s(SDP_MEM_INT, {q.nr}), e(SDP_MEM_INT, {q.nr}); s.fill(0); e.fill(0);
        sdp_Error st = SDP_SUCCESS;
        if (two) sdp_gridder_clamp_channels_uv(q.uvw.mem, q.f0, q.df, q.s0.mem, q.e0.mem, b[0][j], b[0][j + 1], b[1][k], b[1][k + 1], s.mem, e.mem, q.r0, q.r1, &st);
        else sdp_gridder_clamp_channels_single(q.uvw.mem, dim, q.f0, q.df, q.s0.mem, q.e0.mem, b[0][j], b[0][j + 1], s.mem, e.mem, q.r0, q.r1, &st);
        if (st) c.fatal("status", "valid call failed with %d", (int) st);
        for (int i = 0; i < q.nr; ++i) for (int ch = (int) s.r({i}); ch < (int) e.r({i}); ++ch)
        {
            if (ch < 0 || ch >= q.nch) return c.fail("outside_given_range", "row %d selects channel %d of %d", i, ch, q.nch);
            seen[i][ch]++;
        }
    }
    for (int i = 0; i < q.nr; ++i) for (int ch = 0; ch < q.nch; ++ch)
    {
        const int want = q.row(i) && ch >= (int) q.s0.r({i}) && ch < (int) q.e0.r({i});
        if (seen[i][ch] != want) return c.fail("partition", "row %d channel %d is in %d of the adjacent intervals, expected %d", i, ch, seen[i][ch], want);
        c.count("channels_in_exactly_one_interval", (uint64_t) want);
    }
}

// Undefined coordinates lie in no interval.
FAMILY(undefined, 100, 1000)
{
    Rng& r = c.rng;
    Data q(c, r);
    const int i = (int) r.i(0, q.nr - 1);
    q.uvw.read_only(false);
    q.uvw.set({i, 0}, r.pick({(double) NAN, (double) INFINITY, (double) -INFINITY}));
    const double top = r.pick({1., 1e5, 1e12});
    Arr s(SDP_MEM_INT, {q.nr}), e(SDP_MEM_INT, {q.nr});
    for (int two = 0; two < 2; ++two)
    {
        s.fill(0); e.fill(0);
        sdp_Error st = SDP_SUCCESS;
        if (two) sdp_gridder_clamp_channels_uv(q.uvw.mem, q.f0, q.df, q.s0.mem, q.e0.mem, -top, top, -1e300, 1e300, s.mem, e.mem, q.r0, q.r1, &st);
        else sdp_gridder_clamp_channels_single(q.uvw.mem, 0, q.f0, q.df, q.s0.mem, q.e0.mem, -top, top, s.mem, e.mem, q.r0, q.r1, &st);
        if (st) return;
        if (e.r({i}) > s.r({i})) return c.fail("undefined_selected", "row %d with coordinate %g selects [%d,%d)", i, q.uvw.r({i, 0}), (int) s.r({i}), (int) e.r({i}));
        c.count("undefined_coordinates_excluded");
    }
}
