// Hogbom CLEAN: conservation, component placement, stopping, restoring.
#include "vh.h"
#include "ska-sdp-func/clean/sdp_hogbom_clean.h"
using namespace vh;

// Same-size convolution of model with the clean beam; shift = extra offset.
static std::vector<double> restore(const std::vector<double>& model, int64_t n,
        const std::vector<double>& beam, int64_t nb, int64_t centre)
{
    std::vector<double> out(n * n, 0.0);
    for (int64_t x = 0; x < n; ++x) for (int64_t y = 0; y < n; ++y)
    {
        const double m = model[x * n + y];
        if (m == 0) continue;
        for (int64_t p = 0; p < nb; ++p) for (int64_t q = 0; q < nb; ++q)
        {
            const int64_t i = x + p - centre, j = y + q - centre;
            if (i >= 0 && i < n && j >= 0 && j < n) out[i * n + j] += m * beam[p * nb + q];
        }
    }
    return out;
}

FAMILY(hogbom, 800, 16000)
{
    Rng& r = c.rng;
    const bool dbl = r.b(0.6);
    const bool large = r.b(0.01);
    const int64_t n = large ? r.i(40, 140) : r.b(0.1) ? r.i(1, 3) : r.li(2, 28), np = 2 * n;
    double gain = r.b(0.2) ? r.d(0.5, 1.2) : r.d(0.02, 0.5);
    int limit = (int) (r.b(0.1) ? 1 : n <= 12 && r.b(0.1) ? r.i(300, 3000) : r.li(1, large ? 20 : 150));
    const int kind = (int) r.i(0, 3);
    // Exact: every number is a small multiple of a power of two, so that nothing is
    // rounded; peaks may be equal to each other and to the threshold at any cycle.
    const bool exact = r.b(0.15);
    Arr dirty(real_t(dbl), {n, n}), psf(real_t(dbl), {np, np}), cb(real_t(dbl), {4});
    Arr model(real_t(dbl), {n, n}), res(real_t(dbl), {n, n}), sky(real_t(dbl), {n, n});
    // Point spread function: peak of one at (n, n), sidelobes of both signs.
    const double sg = r.d(0.5, 3), side = r.d(0, 0.3);
    for (int64_t x = 0; x < np; ++x) for (int64_t y = 0; y < np; ++y)
    {
        const double dx = (double) (x - n), dy = (double) (y - n);
        double v = std::exp(-(dx * dx + dy * dy) / (2 * sg * sg)) + side * r.d(-1, 1) * (dx == 0 && dy == 0 ? 0 : 1);
        psf.set({x, y}, v);
    }
    if (kind == 3) psf.fill_random(r);
    if (r.b(0.15)) psf.spice(r);
    std::vector<double> d(n * n, 0.0);
    if (kind == 0) for (auto& v : d) v = r.d(-1, 1);
    else
        for (int s = 0, ns = (int) r.i(1, 8); s < ns; ++s)
        {
            const int64_t x = r.i(0, n - 1), y = r.i(0, n - 1); const double f = r.b(0.2) ? -r.d(0.1, 5) : r.d(0.1, 10);
            for (int64_t i = 0; i < n; ++i) for (int64_t j = 0; j < n; ++j)
                d[i * n + j] += f * psf.r({n - x + i, n - y + j}) + 1e-3 * r.d(-1, 1);
        }
    for (int64_t k = 0; k < n * n; ++k) dirty.set(k, d[k]);
    if (r.b(0.2)) dirty.spice(r);
    if (exact)
    {
        gain = r.b() ? 0.5 : 0.25; limit = (int) r.i(1, dbl ? 12 : 4);
        for (int64_t k = 0; k < np * np; ++k) psf.set(k, r.b(0.6) ? 0 : 0.5 * (double) r.i(-1, 1));
        psf.set({n, n}, 1);
        const int64_t top = r.i(1, 20);
        for (int64_t k = 0; k < n * n; ++k) dirty.set(k, (double) r.i(-5, top));
    }
    double dmax = 0; for (int64_t k = 0; k < n * n; ++k) { d[k] = dirty.get(k).real(); dmax = std::max(dmax, std::fabs(d[k])); }
    double thr = rnd(dbl, r.b(0.4) ? -1e30 : dmax * std::pow(10.0, r.d(-3, 0.2)));
    if (exact) thr = r.b(0.3) ? -1e30 : (double) r.i(-2, 20) * (r.b() ? 1 : 0.5);
    else if (r.b(0.05)) { thr = -INFINITY; for (auto v : d) thr = std::max(thr, v); } // the highest value itself
    const int64_t nb = r.b(0.2) && !large ? np : r.i(1, 31);
    cb.set(0, r.d(0.5, 4)); cb.set(1, r.d(0.5, 4)); cb.set(2, r.d(-180, 180)); cb.set(3, (double) nb);
    model.fill_random(r); res.fill_random(r); sky.fill_random(r);
    c.note("%s n=%lld gain=%.17g threshold=%.17g limit=%d beam=%lld kind=%d", dbl ? "double" : "float", (long long) n, gain, thr, limit, (long long) nb, kind);
    c.mix(r.s);
    // Reference run; stop where a different rounding could pick another peak.
    const double eps = dbl ? 2.3e-16 : 1.2e-7;
    const double g = rnd(dbl, gain);
    double psfmax = 0; for (int64_t k = 0; k < np * np; ++k) psfmax = std::max(psfmax, std::fabs(psf.get(k).real()));
    std::vector<double> rr = d, mm(n * n, 0.0), per = d;
    double acc = dmax; // scale of rounding errors
    // How far rounding errors grow: a second run with errors of that size.
    double drift = 0;
    Rng pr(r.u64());
    for (auto& v : per) v *= 1 + eps * pr.d(-1, 1);
    int cyc = 0; bool stopped = false; int ambiguous = 0;
    while (cyc < limit)
    {
        int64_t best = 0; double second = -INFINITY;
        for (int64_t k = 1; k < n * n; ++k) if (rr[k] > rr[best]) best = k;
        for (int64_t k = 0; k < n * n; ++k) if (k != best && rr[k] > second) second = rr[k];
        const double err = exact || cyc == 0 ? 0 : 4 * eps * (cyc + 2) * acc + 10 * drift;
        if (!exact && drift > 1e-3 * acc) { ambiguous = 3; break; }
        if (!(std::fabs(acc) < 1e8 * dmax)) { ambiguous = 2; break; } // diverging clean
        if (err > 0 && std::fabs(rr[best] - thr) <= err) { ambiguous = 1; break; }
        if (rr[best] < thr) { stopped = true; break; }
        if (err > 0 && rr[best] - second <= err) { ambiguous = 1; break; }
        const double add = g * rr[best], addp = g * per[best]; const int64_t x = best / n, y = best % n;
        mm[best] += add;
        for (int64_t i = 0; i < n; ++i) for (int64_t j = 0; j < n; ++j)
        {
            const double p = psf.r({n - x + i, n - y + j});
            rr[i * n + j] -= add * p;
            double& q = per[i * n + j];
            q -= addp * p * (1 + eps * pr.d(-1, 1));
            q *= 1 + eps * pr.d(-1, 1);
            drift = std::max(drift, std::fabs(q - rr[i * n + j]));
        }
        acc += std::fabs(add) * psfmax; 
        ++cyc;
    }
    if (ambiguous) { limit = cyc; c.count("limit_cut_at_ambiguous_peak"); if (limit < 1) { c.trivial = true; return; } }
    dirty.read_only(true); psf.read_only(true); cb.read_only(true);
    dirty.snapshot(); psf.snapshot(); cb.snapshot();
    sdp_Error st = SDP_SUCCESS;
    sdp_hogbom_clean(dirty.mem, psf.mem, cb.mem, gain, thr, limit, model.mem, res.mem, sky.mem, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    if (!dirty.unchanged() || !psf.unchanged() || !cb.unchanged()) c.fail("inputs_changed", "an input was modified");
    const double tol = 8 * eps * (cyc + 4) * acc + 30 * drift + 1e-300;
    for (int64_t k = 0; k < n * n; ++k)
    {
        if (!c.near_("model", model.get(k), mm[k], tol)) return;
        if (!c.near_("residual", res.get(k), rr[k], tol)) return;
    }
    // Conservation, from the outputs alone.
    std::vector<double> con(n * n), gm(n * n);
    for (int64_t k = 0; k < n * n; ++k) { con[k] = res.get(k).real(); gm[k] = model.get(k).real(); }
    double l1 = 0;
    for (int64_t k = 0; k < n * n; ++k) if (gm[k] != 0)
    {
        l1 += std::fabs(gm[k]);
        for (int64_t i = 0; i < n; ++i) for (int64_t j = 0; j < n; ++j)
            con[i * n + j] += gm[k] * psf.r({n - k / n + i, n - k % n + j});
    }
    for (int64_t k = 0; k < n * n; ++k)
        if (!c.near_("conservation", con[k], d[k], tol * (1 + psfmax))) return;
    if (stopped)
    {
        for (int64_t k = 0; k < n * n; ++k) if (res.get(k).real() >= thr + tol) c.fatal("threshold", "stopped early but residual %g is above the threshold", res.get(k).real());
        c.count("stopped_by_threshold");
    }
    else c.count("stopped_by_limit");
    if (exact) c.count("exact_runs");
    // Restored image.
    std::vector<double> beam(nb * nb);
    const double sx = cb.get(0).real(), sy = cb.get(1).real(), th = cb.get(2).real() * M_PI / 180;
    const double A = std::pow(std::cos(th), 2) / (2 * sx * sx) + std::pow(std::sin(th), 2) / (2 * sy * sy);
    const double B = std::sin(2 * th) / (4 * sx * sx) - std::sin(2 * th) / (4 * sy * sy);
    const double C = std::pow(std::sin(th), 2) / (2 * sx * sx) + std::pow(std::cos(th), 2) / (2 * sy * sy);
    for (int64_t p = 0; p < nb; ++p) for (int64_t q = 0; q < nb; ++q)
    {
        const double dx = (double) (p - nb / 2), dy = (double) (q - nb / 2);
        beam[p * nb + q] = std::exp(-(A * dx * dx + 2 * B * dx * dy + C * dy * dy));
    }
    double bn = 0, mn = 0; for (auto v : beam) bn += v * v; for (auto v : gm) mn += v * v;
    // sensitivity of the beam to the precision of its exponent
    const double stol = tol + eps * 100 * (1 + 0.5 * nb * nb * (A + C + 2 * std::fabs(B))) * (std::sqrt(bn * mn) + l1);
    auto differs = [&](const std::vector<double>& ref, int64_t* at) {
        for (int64_t k = 0; k < n * n; ++k)
            if (!(std::fabs(sky.get(k).real() - ref[k] - con[k] * 0 - res.get(k).real()) <= stol)) { *at = k; return true; }
        return false;
    };
    int64_t at = 0;
    if (differs(restore(gm, n, beam, nb, nb / 2), &at))
    {
        int64_t at2 = 0;
        if (nb % 2 == 0 && !differs(restore(gm, n, beam, nb, nb / 2 - 1), &at2))
            c.fail("restore_even_beam_shift", "clean beam of even size: restored components are one pixel away from the model components");
        else c.fatal("restored", "restored image differs from model * beam + residual at pixel %lld (got %g)", (long long) at, sky.get(at).real());
    }
    else c.count("restored_ok");
    c.count("cycles", cyc);
    if (!cyc) c.trivial = true;
}
