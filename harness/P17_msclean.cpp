// Multi-scale CLEAN against a direct implementation of the algorithm.
#include "vh.h"
#include "ska-sdp-func/clean/sdp_ms_clean_cornwell.h"
using namespace vh;
typedef std::vector<double> V;

// Same-size convolution: out[i] = sum in[i + off - p] k[p].
static V conv(const V& in, int64_t n, const V& k, int64_t nk, int64_t off)
{
    V out(n * n, 0.0);
    for (int64_t p = 0; p < nk; ++p) for (int64_t q = 0; q < nk; ++q)
    {
        const double w = k[p * nk + q];
        if (w == 0) continue;
        for (int64_t i = std::max<int64_t>(0, p - off); i < n && i + off - p < n; ++i)
            for (int64_t j = std::max<int64_t>(0, q - off); j < n && j + off - q < n; ++j)
                out[i * n + j] += in[(i + off - p) * n + j + off - q] * w;
    }
    return out;
}

struct Out { V model, res, sky; int cycles; bool stopped, cut; double acc; std::set<int> scales; };

static Out reference(const V& dirty, int64_t n, const V& psf, const std::vector<int>& scales,
        double gain, double thr, int limit, const V& beam, int64_t off, double eps)
{
    const int64_t np = 2 * n; const int ns = (int) scales.size();
    std::vector<V> kern, sres, spsf(ns * ns);
    for (int s = 0; s < ns; ++s)
    {
        V k(np * np, 0.0);
        if (scales[s] == 0) k[(np / 2) * np + np / 2] = 1;
        else
        {
            const double sg = 3.0 / 16.0 * scales[s], t = 2 * sg * sg;
            for (int64_t x = 0; x < np; ++x) for (int64_t y = 0; y < np; ++y)
                k[x * np + y] = std::exp(-(double) ((x - n) * (x - n) + (y - n) * (y - n)) / t) / (M_PI * t);
        }
        kern.push_back(k);
        sres.push_back(conv(dirty, n, k, np, off));
    }
    V coup(ns, 0.0); double pm = 0;
    for (int s = 0; s < ns; ++s)
    {
        V a = conv(psf, np, kern[s], np, off);
        for (int p = 0; p < ns; ++p)
        {
            spsf[s * ns + p] = conv(a, np, kern[p], np, off);
            for (double v : spsf[s * ns + p]) pm = std::max(pm, std::fabs(v));
        }
        for (double v : spsf[s * ns + s]) coup[s] = std::max(coup[s], v);
    }
    Out o; o.model.assign(n * n, 0.0); o.cycles = 0; o.stopped = o.cut = false;
    double dm = 0, k1 = 0;
    for (double v : dirty) dm += std::fabs(v);
    for (double v : psf) k1 += std::fabs(v);
    o.acc = dm + 1e-300; // scale of the rounding errors of the convolutions
    const double acc0 = o.acc;
    pm = std::max(pm, k1 / np);
    while (o.cycles < limit)
    {
        const double err = 40 * eps * (o.cycles + 4) * o.acc;
        int best = -1; double bb = 0, sb = -INFINITY; int64_t at = 0;
        for (int s = 0; s < ns; ++s)
        {
            if (!(coup[s] > 0)) { o.cut = true; return o; }
            for (int64_t k = 0; k < n * n; ++k)
            {
                const double v = sres[s][k] / coup[s];
                if (v > bb) { if (best >= 0) sb = std::max(sb, bb); bb = v; best = s; at = k; }
                else if (v > sb) sb = v;
            }
        }
        double mc = coup[0]; for (double v : coup) mc = std::min(mc, v);
        if (best < 0 || bb <= err / mc || !(o.acc < 1e7 * acc0)) { o.cut = true; break; }
        if (std::fabs(sres[best][at] - thr) <= err) { o.cut = true; break; }
        if (sres[best][at] < thr) { o.stopped = true; break; }
        if (bb - sb <= err / mc) { o.cut = true; break; }
        o.scales.insert(best);
        const double add = gain * bb; const int64_t x = at / n, y = at % n;
        for (int64_t i = 0; i < n; ++i) for (int64_t j = 0; j < n; ++j)
        {
            const int64_t w = (n - x + i) * np + n - y + j;
            o.model[i * n + j] += add * kern[best][w];
            for (int s = 0; s < ns; ++s) sres[s][i * n + j] -= add * spsf[s * ns + best][w];
        }
        o.acc += std::fabs(add) * (pm + 1);
        ++o.cycles;
    }
    o.res = sres[0];
    o.sky = conv(o.model, n, beam, np, off);
    for (int64_t k = 0; k < n * n; ++k) o.sky[k] += o.res[k];
    return o;
}

FAMILY(msclean, 500, 8000)
{
    Rng& r = c.rng;
    const bool dbl = r.b(0.7);
    const bool large = r.b(0.015);
    const int64_t n = large ? r.i(17, 34) : r.b(0.1) ? r.i(2, 4) : r.i(5, 16), np = 2 * n;
    const int ns = (int) (r.b(0.06) && !large ? r.i(5, 7) : r.i(1, large ? 2 : 4));
    std::vector<int> scales;
    if (r.b(0.7)) scales.push_back(0);
    while ((int) scales.size() < ns) { const int s = (int) r.i(1, large ? 30 : 12); if (std::find(scales.begin(), scales.end(), s) == scales.end()) scales.push_back(s); }
    if (r.b(0.2)) std::reverse(scales.begin(), scales.end());
    const double gain = r.d(0.02, 0.7);
    int limit = (int) r.li(1, 60);
    Arr dirty(real_t(dbl), {n, n}), psf(real_t(dbl), {np, np}), cb(real_t(dbl), {4}), sl(SDP_MEM_INT, {ns});
    Arr model(real_t(dbl), {n, n}), res(real_t(dbl), {n, n}), sky(real_t(dbl), {n, n});
    for (int s = 0; s < ns; ++s) sl.set(s, scales[s]);
    const double sg = r.d(0.5, 2.5), side = r.d(0, 0.2);
    V vp(np * np), vd(n * n, 0.0);
    for (int64_t x = 0; x < np; ++x) for (int64_t y = 0; y < np; ++y)
    {
        const double dx = (double) (x - n), dy = (double) (y - n);
        psf.set({x, y}, std::exp(-(dx * dx + dy * dy) / (2 * sg * sg)) + side * r.d(-1, 1) * (dx == 0 && dy == 0 ? 0 : 1));
        vp[x * np + y] = psf.r({x, y});
    }
    for (int s = 0, k = (int) r.i(1, 4); s < k; ++s)
    {
        const int64_t x = r.i(0, n - 1), y = r.i(0, n - 1); const double f = r.d(0.1, 5), wd = r.b() ? 0.01 : r.d(0.5, 4);
        for (int64_t i = 0; i < n; ++i) for (int64_t j = 0; j < n; ++j)
            vd[i * n + j] += f * (psf.r({n - x + i, n - y + j}) + (wd > 0.1 ? std::exp(-(double) ((i - x) * (i - x) + (j - y) * (j - y)) / (2 * wd * wd)) : 0)) + 0.05 * r.d(-1, 1);
    }
    for (int64_t k = 0; k < n * n; ++k) dirty.set(k, vd[k]);
    if (r.b(0.2)) dirty.spice(r);
    for (int64_t k = 0; k < n * n; ++k) vd[k] = dirty.get(k).real();
    double dmax = 0; for (double v : vd) dmax = std::max(dmax, v);
    const double thr = rnd(dbl, r.b(0.5) ? -1e30 : dmax * std::pow(10.0, r.d(-2, 0.1)));
    cb.set(0, r.d(0.4, 1.2)); cb.set(1, r.d(0.4, 1.2)); cb.set(2, r.d(-180, 180)); cb.set(3, (double) np);
    V beam(np * np);
    {
        const double sx = cb.get(0).real(), sy = cb.get(1).real(), th = cb.get(2).real() * M_PI / 180;
        const double A = std::pow(std::cos(th), 2) / (2 * sx * sx) + std::pow(std::sin(th), 2) / (2 * sy * sy);
        const double B = std::sin(2 * th) / (4 * sx * sx) - std::sin(2 * th) / (4 * sy * sy);
        const double C = std::pow(std::sin(th), 2) / (2 * sx * sx) + std::pow(std::cos(th), 2) / (2 * sy * sy);
        for (int64_t p = 0; p < np; ++p) for (int64_t q = 0; q < np; ++q)
        {
            const double dx = (double) (p - n), dy = (double) (q - n);
            beam[p * np + q] = std::exp(-(A * dx * dx + 2 * B * dx * dy + C * dy * dy));
        }
    }
    const double g = rnd(dbl, gain), eps = dbl ? 2.3e-16 : 1.2e-7;
    c.note("%s n=%lld scales=%d gain=%.17g threshold=%.17g limit=%d", dbl ? "double" : "float", (long long) n, ns, gain, thr, limit);
    for (int s : scales) c.note(" %d", s);
    c.mix(r.s);
    Out a = reference(vd, n, vp, scales, g, thr, limit, beam, (np - 1) / 2, eps);
    if (a.cut) { limit = a.cycles; c.count("limit_cut_at_ambiguous_peak"); if (limit < 1) { c.trivial = true; return; } }
    dirty.read_only(true); psf.read_only(true); cb.read_only(true); sl.read_only(true);
    model.fill_random(r); res.fill_random(r); sky.fill_random(r);
    dirty.snapshot(); psf.snapshot(); cb.snapshot(); sl.snapshot();
    sdp_Error st = SDP_SUCCESS;
    sdp_ms_clean_cornwell(dirty.mem, psf.mem, cb.mem, sl.mem, gain, thr, limit, model.mem, res.mem, sky.mem, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    if (!dirty.unchanged() || !psf.unchanged() || !cb.unchanged() || !sl.unchanged()) c.fail("inputs_changed", "an input was modified");
    std::string why;
    auto match = [&](const Out& o) {
        const double tol = 200 * eps * (o.cycles + 4) * o.acc * (1 + (dbl ? 0 : 1)) + 1e-300;
        double bs = 0; for (double v : beam) bs += v;
        for (int64_t k = 0; k < n * n; ++k)
        {
            const double m = model.get(k).real() - o.model[k], e = res.get(k).real() - o.res[k], y = sky.get(k).real() - o.sky[k];
            if (!(std::fabs(m) <= tol)) { why = "model"; return false; }
            if (!(std::fabs(e) <= tol)) { why = "residual"; return false; }
            if (!(std::fabs(y) <= tol * (4 + bs))) { why = "restored"; return false; }
        }
        return true;
    };
    if (match(a))
    {
        c.count("matched_cycles", a.cycles);
        if (a.cycles) c.fail("scale_kernel_shift", "images are moved by one pixel by every convolution with a scale kernel, so components are subtracted two pixels from the peak");
    }
    else
    {
        const std::string w0 = why;
        Out b = reference(vd, n, vp, scales, g, thr, limit, beam, np / 2, eps);
        if (b.cut) { c.trivial = true; c.count("ambiguous_skipped"); return; }
        if (!match(b)) c.fatal(("mismatch_" + w0).c_str(), "%s differs from the algorithm after %d cycles", w0.c_str(), a.cycles);
        c.count("matched_cycles", b.cycles);
    }
    c.count(a.stopped ? "stopped_by_threshold" : "stopped_by_limit");
    if (a.scales.size() > 1) c.count("runs_using_several_scales");
    if (!a.cycles) c.trivial = true;
}
