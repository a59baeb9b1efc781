// Tiled bucket sort: counts, offsets and sorted arrays against a direct
// enumeration, and against each other (exactly-once per overlapped tile).
#include "vh.h"
#include "ska-sdp-func/visibility/sdp_tiled_functions.h"
using namespace vh;
typedef long double ld;

static int64_t fdiv(int64_t a, int64_t b)
{
    int64_t q = a / b; if (q * b > a) --q; return q;
}

FAMILY(tiles, 2500, 40000)
{
    Rng& r = c.rng;
    const bool dbl = r.b(0.6), lattice = r.b(0.3);
    const bool large = r.b(0.01);
    const int64_t nt = large ? r.i(1, 2) : r.li(1, 6), nb = large ? r.i(300, 3000) : r.b(0.03) ? 0 : r.li(1, 40), nc = large ? r.i(1, 4) : r.li(1, 12);
    const int g = (int) (lattice ? (int64_t) 1 << r.i(2, 9) : r.li(1, 600));
    const int64_t tu = r.b(0.7) ? r.li(1, 40) : r.li(1, 2 * g), tv = r.b(0.7) ? r.li(1, 40) : r.li(1, 2 * g);
    const int64_t sup = r.b(0.2) ? 0 : r.li(0, std::max(1, g / 3));
    double cell; double umax;
    Arr uvw(real_t(dbl), {nt, nb, 3}), freq(real_t(dbl), {nc});
    if (lattice)
    {
        // positions land exactly on integers: freq = c0 * 2^k, cell = 2^-m
        cell = std::ldexp(1.0, -(int) r.i(4, 12));
        for (int64_t k = 0; k < nc; ++k) freq.set(k, 299792458.0);
        const double unit = 1.0 / (cell * g);
        for (int64_t k = 0; k < nt * nb * 3; ++k)
            uvw.set(k, (double) r.i(-g / 2 - 1, g / 2 + 1) * unit);
    }
    else
    {
        cell = std::pow(10.0, r.d(-6, -2));
        for (int64_t k = 0; k < nc; ++k) freq.set(k, r.d(5e7, 2e9));
        umax = r.pick({0.2, 0.45, 0.6, 0.8}) / cell * 299792458.0 / 1e9;
        uvw.fill_random(r, -umax, umax); if (r.b(0.4)) uvw.spice(r);
        if (r.b(0.02) && nt * nb) uvw.set(0, r.pick<double>({(double) INFINITY, -(double) INFINITY, 1e30, (double) NAN}));
        if (r.b(0.1) && nt * nb) { uvw.set(0, 0); uvw.set(1, 0); }
    }
    Arr vis(cplx_t(dbl), {nt, nb, nc, 1}), wt(real_t(dbl), {nt, nb, nc, 1});
    vis.fill_random(r); wt.fill_random(r, 0, 2); vis.spice(r); wt.spice(r);
    c.note("%s nt=%lld nb=%lld nc=%lld grid=%d tile=(%lld,%lld) support=%lld cell=%.17g lattice=%d", dbl ? "double" : "float", (long long) nt, (long long) nb, (long long) nc, g, (long long) tu, (long long) tv, (long long) sup, cell, lattice);
    c.mix(r.s);
    const int64_t ntu = (g + tu - 1) / tu, ntv = (g + tv - 1) / tv, ntile = ntu * ntv;
    const int64_t cen = g / 2, tlu = cen - (cen / tu) * tu - tu / 2, tlv = cen - (cen / tv) * tv - tv / 2;
    // Reference.
    struct Ref { bool in; int64_t gu, gv; ld pu, pv; };
    std::vector<Ref> ref;
    bool amb = false;
    const double eps = dbl ? 4e-16 : 3e-7;
    for (int64_t k = 0; k < nt * nb; ++k) for (int64_t ch = 0; ch < nc; ++ch)
    {
        Ref x; ld p[2];
        for (int j = 0; j < 2; ++j)
        {
            p[j] = (ld) uvw.get(3 * k + j).real() * ((ld) freq.get(ch).real() / 299792458.0L) * ((ld) g * (ld) cell);
            // Where the rounding of the position matters, do not decide.
            ld fr = p[j] - floorl(p[j]) - 0.5L;
            if (std::isfinite(p[j]) && fabsl(fr) <= 4 * eps * fabsl(p[j]) + 1e-300L && fabsl(p[j]) < 4 * g) amb = true;
        }
        x.pu = p[0]; x.pv = p[1]; x.in = false; x.gu = x.gv = 0;
        if (fabsl(p[0]) <= 2 * g && fabsl(p[1]) <= 2 * g)
        {
            x.gu = (int64_t) roundl(p[0]) + cen; x.gv = (int64_t) roundl(p[1]) + cen;
            x.in = x.gu - sup >= 0 && x.gv - sup >= 0 && x.gu + sup < g && x.gv + sup < g;
        }
        ref.push_back(x);
    }
    if (amb) { c.trivial = true; c.count("ambiguous_skipped"); return; }
    std::vector<std::vector<int64_t>> bucket(ntile);
    int64_t skipped = 0, total = 0;
    for (size_t k = 0; k < ref.size(); ++k)
    {
        if (!ref[k].in) { ++skipped; continue; }
        for (int64_t b = fdiv(ref[k].gv - sup - tlv, tv); b <= fdiv(ref[k].gv + sup - tlv, tv); ++b)
            for (int64_t a = fdiv(ref[k].gu - sup - tlu, tu); a <= fdiv(ref[k].gu + sup - tlu, tu); ++a)
                if (a >= 0 && a < ntu && b >= 0 && b < ntv) { bucket[a + b * ntu].push_back((int64_t) k); ++total; }
    }
    const int64_t extra = r.b(0.2) ? r.i(1, 5) : 0;
    Arr off(SDP_MEM_INT, {ntile + 1 + extra}), cnt(SDP_MEM_INT, {ntile + extra}), skip(SDP_MEM_INT, {1});
    off.fill(r.i(0, 9)); cnt.fill(r.i(0, 9)); skip.fill(r.i(0, 9));
    Arr* in[] = {&uvw, &freq, &vis, &wt};
    for (Arr* a : in) { a->read_only(true); a->snapshot(); }
    auto inputs = [&]() { for (Arr* a : in) if (!a->unchanged()) c.fail("inputs_changed", "an input was modified"); };
    sdp_Error st = SDP_SUCCESS;
    int nv = -1;
    sdp_count_and_prefix_sum(uvw.mem, freq.mem, vis.mem, g, tu, tv, cell, sup, &nv, off.mem, cnt.mem, skip.mem, &st);
    if (st) c.fatal("status", "count: valid call failed with %d", (int) st);
    inputs();
    if (nv != total) c.fail("total", "num_visibilities=%d, expected %lld", nv, (long long) total);
    if (skip.get(0).real() != skipped) c.fail("skipped", "skipped=%g expected %lld", skip.get(0).real(), (long long) skipped);
    int64_t run = 0;
    for (int64_t k = 0; k < ntile; ++k)
    {
        if ((int64_t) cnt.get(k).real() != (int64_t) bucket[k].size()) { c.fatal("count", "tile %lld has count %g, expected %zu", (long long) k, cnt.get(k).real(), bucket[k].size()); }
        if ((int64_t) off.get(k).real() != run) c.fatal("offset", "tile %lld has offset %g, expected %lld", (long long) k, off.get(k).real(), (long long) run);
        run += (int64_t) cnt.get(k).real();
    }
    if ((int64_t) off.get(ntile).real() != run) c.fatal("offset", "end offset %g, expected %lld", off.get(ntile).real(), (long long) run);
    c.count("tiles_compared", ntile);
    c.count("skipped", skipped);
    if (!total) c.trivial = true;
    std::vector<int64_t> start(ntile + 1);
    for (int64_t k = 0; k <= ntile; ++k) start[k] = (int64_t) off.get(k).real();
    for (int pass = 0; pass < 2; ++pass)
    {
        Arr o2(SDP_MEM_INT, {ntile + 1});
        for (int64_t k = 0; k <= ntile; ++k) o2.set(k, (double) start[k]);
        Arr su(real_t(dbl), {total}), sv(real_t(dbl), {total}), sw(real_t(dbl), {total}), tile(SDP_MEM_INT, {total}), svis(cplx_t(dbl), {total}), idx(SDP_MEM_INT, {total});
        su.fill(77); sv.fill(77); sw.fill(77); tile.fill(77); svis.fill(77); idx.fill(77);
        if (pass == 0) sdp_bucket_sort(uvw.mem, freq.mem, vis.mem, wt.mem, g, tu, tv, cell, sup, su.mem, sv.mem, sw.mem, tile.mem, svis.mem, o2.mem, &st);
        else sdp_tiled_indexing(uvw.mem, freq.mem, g, tu, tv, cell, sup, nc, nb, nt, tile.mem, su.mem, sv.mem, idx.mem, o2.mem, &st);
        if (st) c.fatal("status", "%s: valid call failed with %d", pass ? "index" : "sort", (int) st);
        inputs();
        for (int64_t k = 0; k < ntile; ++k)
        {
            if ((int64_t) o2.get(k).real() != start[k + 1]) c.fatal("advance", "tile %lld: offset after sort %g, expected %lld", (long long) k, o2.get(k).real(), (long long) start[k + 1]);
            // The multiset of records in this tile must match the visibilities.
            std::vector<bool> used(bucket[k].size(), false);
            for (int64_t s = start[k]; s < start[k + 1]; ++s)
            {
                if ((int64_t) tile.get(s).real() != (k / ntu) * 32768 + k % ntu) c.fatal("tile_id", "record %lld in tile %lld has tile id %g", (long long) s, (long long) k, tile.get(s).real());
                bool ok = false;
                for (size_t m = 0; m < bucket[k].size() && !ok; ++m)
                {
                    // records are normally in order: try the same rank first
                    const size_t q = (m + (size_t) (s - start[k])) % bucket[k].size();
                    if (used[q]) continue;
                    const int64_t v = bucket[k][q];
                    if (pass == 0) ok = svis.get(s) == vis.get(v) && sw.get(s) == wt.get(v);
                    else ok = (int64_t) idx.get(s).real() == v;
                    if (!ok) continue;
                    if (fabsl((ld) su.get(s).real() - ref[v].pu) > 4 * eps * fabsl(ref[v].pu) + 1e-300L ||
                            fabsl((ld) sv.get(s).real() - ref[v].pv) > 4 * eps * fabsl(ref[v].pv) + 1e-300L) { ok = false; continue; }
                    used[q] = true;
                }
                if (!ok) c.fatal(pass ? "index_record" : "sort_record", "record %lld in tile %lld does not match any remaining visibility of that tile", (long long) s, (long long) k);
                c.count("records_matched");
            }
        }
    }
}
