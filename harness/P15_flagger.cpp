// Dynamic flagger against a sequential evaluation of the algorithm.
#include "vh.h"
#include "ska-sdp-func/visibility/sdp_flagger.h"
using namespace vh;

// Upper median.
static double med(std::vector<double> v)
{
    std::sort(v.begin(), v.end());
    return v[v.size() / 2];
}
static double meddev(const std::vector<double>& v, double m)
{
    std::vector<double> d;
    for (double x : v) d.push_back(std::fabs(x - m));
    return med(d);
}
struct Z { double z, dz; };
static Z zs(double m, double dev, double v, double eps)
{
    if (dev == 0) return Z{v == m ? 0.0 : 1e7, 0};
    double z = 0.6795 * (v - m) / dev;
    return Z{z, 8 * eps * (std::fabs(v) + std::fabs(m)) / dev * (1 + std::fabs(z)) + 1e-12 * (1 + std::fabs(z))};
}

FAMILY(dynamic, 2500, 60000)
{
    Rng& r = c.rng;
    const bool dbl = r.b(0.6), exact = r.b(0.5);
    int64_t nt = r.li(1, 24), nb = r.li(1, 8), nc = r.li(1, 48), np = r.i(1, 4);
    if (r.b(0.05)) { nc = r.i(100, 400); nb = r.i(1, 2); }
    if (r.b(0.02)) { nt = r.i(60, 400); nb = r.i(1, 2); nc = r.i(1, 12); }
    if (r.b(0.01)) { nb = r.i(60, 300); nt = r.i(1, 6); nc = r.i(1, 12); }
    int step = (int) r.li(1, nc), win = r.b() ? 0 : (int) r.li(1, 8), hist = (int) r.li(1, 30);
    if (r.b(0.05)) win = (int) nc + 3;
    double alpha = exact ? r.pick({0.0, 0.25, 0.5, 1.0}) : r.d();
    double tm = r.b(0.1) ? 1e9 : r.d(0.5, 8), tv = r.b(0.1) ? 1e9 : r.d(0.5, 8), tb = r.b(0.2) ? 1e9 : r.d(0.5, 8);
    Arr vis(cplx_t(dbl), {nt, nb, nc, np}), flags(SDP_MEM_INT, {nt, nb, nc, np});
    const int kind = (int) r.i(0, 3);
    auto value = [&](double mag) -> cd {
        switch (r.i(0, 4)) { case 0: return cd(mag, 0); case 1: return cd(0, -mag); case 2: return cd(-mag, 0); case 3: return exact ? cd(mag * 3 / 5, mag * 4 / 5) : std::polar(mag, r.d(0, 6.28)); }
        return exact ? cd(0, mag) : std::polar(mag, r.d(0, 6.28)); };
    for (int64_t k = 0; k < vis.n(); ++k)
    {
        double mag;
        if (exact) mag = 5.0 * (double) (kind == 0 ? 4 : kind == 1 ? r.i(3, 5) : r.i(1, 12));
        else mag = kind == 0 ? 1.0 + 1e-3 * r.normal() : kind == 1 ? 2 + r.d() : std::fabs(r.normal());
        vis.set(k, value(mag));
    }
    // Interference: spikes, whole times, whole channels, steps.
    int64_t ninj = r.i(0, 6);
    for (int64_t q = 0; q < ninj; ++q)
    {
        int64_t t = r.i(0, nt - 1), b = r.i(0, nb - 1), ch = r.i(0, nc - 1), p = r.i(0, np - 1);
        double mag = exact ? 5.0 * r.i(20, 200) : r.d(5, 60);
        switch (r.i(0, 4))
        {
        case 0: case 1: vis.set({t, b, ch, p}, value(mag)); break;
        case 2: for (int64_t x = 0; x < nc; ++x) vis.set({t, b, x, p}, value(mag)); break;
        case 3: for (int64_t x = t; x < nt; ++x) vis.set({x, b, ch, p}, value(mag)); break;
        case 4: vis.set({t, b, 0, p}, value(mag)); if (r.b()) vis.set({t, b, nc - 1, p}, value(mag)); break;
        }
    }
    if (r.b(0.15)) vis.spice(r);
    std::vector<int> init(flags.n());
    const bool pre = r.b(0.2);
    for (int64_t k = 0; k < flags.n(); ++k) { init[k] = pre && r.b(0.1); flags.set(k, init[k]); }
    c.note("%s nt=%lld nb=%lld nc=%lld np=%lld step=%d win=%d hist=%d alpha=%.17g thr=%.6g,%.6g,%.6g exact=%d kind=%d inj=%lld", type_name(vis.type), (long long) nt, (long long) nb, (long long) nc, (long long) np, step, win, hist, alpha, tm, tv, tb, exact, kind, (long long) ninj);
    vis.read_only(true); vis.snapshot();
    sdp_Error st = SDP_SUCCESS;
    sdp_flagger_dynamic_threshold(vis.mem, flags.mem, alpha, tm, tv, tb, step, win, hist, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    if (!vis.unchanged()) c.fail("inputs_changed", "visibilities modified");
    const double eps = dbl ? 2.3e-16 : 1.2e-7;
    std::vector<char> must(init.begin(), init.end()), may(init.begin(), init.end());
    auto idx = [&](int64_t t, int64_t b, int64_t ch, int64_t p) { return ((t * nb + b) * nc + ch) * np + p; };
    uint64_t nmag = 0, nbb = 0, nvar = 0, nwin = 0;
    auto judge = [&](Z z, double thr, bool& m, bool& y) {
        double a = std::fabs(z.z);
        m = a - z.dz > thr; y = a + z.dz > thr; };
    for (int64_t b = 0; b < nb; ++b) for (int64_t p = 0; p < np; ++p)
    {
        std::vector<double> hist_med, score(nc, 0);
        for (int64_t t = 0; t < nt; ++t)
        {
            auto mag = [&](int64_t tt, int64_t ch) {
                cd v = vis.get(idx(tt, b, ch, p));
                return dbl ? std::abs(v) : (double) std::abs(cf((float) v.real(), (float) v.imag())); };
            auto spread = [&](int64_t ch, bool m, bool y, bool previous_too) {
                for (int64_t x = std::max<int64_t>(0, ch - win); x <= std::min(nc - 1, ch + win); ++x)
                    for (int64_t tt = t - (previous_too ? 1 : 0); tt <= t; ++tt)
                    {
                        if (m) { must[idx(tt, b, x, p)] = 1; if (x != ch) ++nwin; }
                        if (y) may[idx(tt, b, x, p)] = 1;
                    } };
            std::vector<double> sm;
            for (int64_t s = 0; s < nc / step; ++s) sm.push_back(mag(t, s * step));
            const double m0 = med(sm), d0 = meddev(sm, m0);
            hist_med.push_back(m0);
            std::vector<double> last(hist_med.end() - std::min<int64_t>(t + 1, hist), hist_med.end());
            const double mm = med(last), dm = meddev(last, mm);
            bool bm = false, by = false;
            if (t > 0) judge(zs(mm, dm, m0, eps), tb, bm, by);
            if (bm) ++nbb;
            for (int64_t ch = 0; ch < nc; ++ch)
            {
                bool m, y;
                judge(zs(m0, d0, mag(t, ch), eps), tm, m, y);
                if (m) ++nmag;
                if (m || bm || y || by) spread(ch, m || bm, y || by, false);
            }
            if (t == 0) continue;
            for (int64_t ch = 0; ch < nc; ++ch)
            {
                double rate = std::fabs(mag(t - 1, ch) - mag(t, ch));
                score[ch] = t == 1 ? rate : alpha * rate + (1 - alpha) * score[ch];
            }
            std::vector<double> ss;
            for (int64_t s = 0; s < nc / step; ++s) ss.push_back(std::fabs(score[s * step]));
            const double mv = med(ss), dv = meddev(ss, m0); // deviations about the amplitude median
            for (int64_t ch = 0; ch < nc; ++ch)
            {
                bool m, y;
                // Differences of amplitudes carry the rounding of the amplitudes.
                Z z = zs(mv, dv, std::fabs(score[ch]), eps);
                if (dv != 0) z.dz += 8 * eps * (m0 + mag(t, ch) + mag(t - 1, ch)) * (double) (t + 1) / dv * (1 + std::fabs(z.z));
                judge(z, tv, m, y);
                if (m) ++nvar;
                if (m || y) spread(ch, m, y, true);
            }
        }
    }
    uint64_t amb = 0, on = 0;
    for (int64_t k = 0; k < flags.n(); ++k)
    {
        double f = flags.get(k).real();
        if (must[k] != may[k]) { ++amb; if (f != 0 && f != 1) c.fatal("flag_value", "flag %lld is %g", (long long) k, f); continue; }
        if (f != (double) may[k])
        {
            int64_t p = k % np, ch = k / np % nc, b = k / np / nc % nb, t = k / np / nc / nb;
            c.fatal("flag", "t=%lld b=%lld ch=%lld p=%lld flag %g expected %d", (long long) t, (long long) b, (long long) ch, (long long) p, f, (int) may[k]);
        }
        on += may[k];
    }
    c.count("samples_judged", (uint64_t) flags.n()); c.count("flagged", on); c.count("ambiguous", amb);
    c.count("by_magnitude", nmag); c.count("broadband_times", nbb); c.count("by_variation", nvar); c.count("by_window", nwin);
    if (on == 0) c.trivial = true;
}
