// Tiled functions with more coordinates than a 32-bit number counts (built without sanitizers: they take too long with).
#include "vh.h"
#include "ska-sdp-func/visibility/sdp_tiled_functions.h"
using namespace vh;

FAMILY(vast, 3, 9)
{
    Rng& r = c.rng;
    const int kind = (int) (c.idx % 3);
    const bool dbl = kind == 1; // the visibilities and their weights need not be in memory either
    const size_t es = dbl ? 8 : 4;
    // All but a few of the coordinates are off the grid, the same ones over and over.
    int g = (int) r.i(40, 200);
    while (g * (1.0 / g) != 1.0) ++g;
    const int half = g / 2, sup = (int) r.i(0, 4);
    const int64_t tu = r.i(7, 50), tv = r.i(7, 50), nt = r.i(1, 40);
    const int64_t nb = ((1ll << 31) / 3 + r.i(1, 1ll << 22)) / nt + 1, rows = nt * nb;
    const double cell = 1.0 / g, c0 = 299792458.0; // one cell per wavelength
    std::vector<unsigned char> pat(3 * es * 4096 * 256);
    for (size_t k = 0; k < pat.size() / es; ++k)
    {
        const double x = (double) r.i(2 * g, 4 * g) * (r.b() ? 1 : -1);
        if (dbl) ((double*) pat.data())[k] = x; else ((float*) pat.data())[k] = (float) x;
    }
    Arr uvw = Arr::vast(real_t(dbl), {nt, nb, 3}, pat), vis = Arr::vast(cplx_t(dbl), {nt, nb, 1, 1}), wt = Arr::vast(real_t(dbl), {nt, nb, 1, 1});
    if (!uvw.mem || !vis.mem || !wt.mem) { c.trivial = true; return; }
    Arr freq(real_t(dbl), {1}); freq.set(0, c0);
    c.note("kind=%d nt=%lld nb=%lld grid=%d tile=(%lld,%lld) support=%d", kind, (long long) nt, (long long) nb, g, (long long) tu, (long long) tv, sup); c.mix(r.s);
    const int64_t ntu = (g + tu - 1) / tu, ntv = (g + tv - 1) / tv, ntile = ntu * ntv;
    const int64_t tlu = half - (half / tu) * tu - tu / 2, tlv = half - (half / tv) * tv - tv / 2;
    std::map<int64_t, std::pair<double, double>> on;
    for (int q = 0; q < 60; ++q)
    {
        const int64_t k = q == 0 ? rows - 1 : q < 20 ? rows - 1 - r.i(0, 1 << 20) : r.i(0, rows - 1);
        const double u = r.i(-half, half), v = r.i(-half, half);
        uvw.set(3 * k, u); uvw.set(3 * k + 1, v); uvw.set(3 * k + 2, 0);
        vis.set(k, cd(q + 1, -q)); wt.set(k, q + 0.5);
        on[k] = std::make_pair(u, v);
    }
    std::vector<std::vector<int64_t>> bucket(ntile);
    int64_t skipped = rows, total = 0;
    auto fdiv = [](int64_t a, int64_t b) { int64_t q = a / b; if (q * b > a) --q; return q; };
    for (auto& o : on)
    {
        const int64_t gu = (int64_t) o.second.first + half, gv = (int64_t) o.second.second + half;
        if (gu - sup < 0 || gv - sup < 0 || gu + sup >= g || gv + sup >= g) continue;
        --skipped;
        for (int64_t b = fdiv(gv - sup - tlv, tv); b <= fdiv(gv + sup - tlv, tv); ++b)
            for (int64_t a = fdiv(gu - sup - tlu, tu); a <= fdiv(gu + sup - tlu, tu); ++a)
                if (a >= 0 && a < ntu && b >= 0 && b < ntv) { bucket[a + b * ntu].push_back(o.first); ++total; }
    }
    Arr off(SDP_MEM_INT, {ntile + 1}), cnt(SDP_MEM_INT, {ntile}), skip(SDP_MEM_INT, {1});
    std::vector<int64_t> start(1, 0);
    for (auto& b : bucket) start.push_back(start.back() + (int64_t) b.size());
    uvw.read_only(true); vis.read_only(true); wt.read_only(true);
    sdp_Error st = SDP_SUCCESS;
    if (kind == 0)
    {
        int nv = -1;
        sdp_count_and_prefix_sum(uvw.mem, freq.mem, vis.mem, g, tu, tv, cell, sup, &nv, off.mem, cnt.mem, skip.mem, &st);
        if (st) c.fatal("status", "valid call failed with %d", (int) st);
        if (nv != total || (int64_t) skip.get(0).real() != skipped) c.fatal("vast_total", "total %d and %g skipped, expected %lld and %lld", nv, skip.get(0).real(), (long long) total, (long long) skipped);
        for (int64_t k = 0; k < ntile; ++k)
            if ((int64_t) cnt.get(k).real() != (int64_t) bucket[k].size() || (int64_t) off.get(k).real() != start[k]) c.fatal("vast_count", "tile %lld: count %g expected %zu", (long long) k, cnt.get(k).real(), bucket[k].size());
    }
    else
    {
        for (int64_t k = 0; k <= ntile; ++k) off.set(k, (double) start[k]);
        Arr su(real_t(dbl), {total}), sv(real_t(dbl), {total}), sw(real_t(dbl), {total}), tile(SDP_MEM_INT, {total}), svis(cplx_t(dbl), {total}), idx(SDP_MEM_INT, {total});
        su.fill(77); sv.fill(77); sw.fill(77); tile.fill(77); svis.fill(77); idx.fill(77);
        if (kind == 1) sdp_bucket_sort(uvw.mem, freq.mem, vis.mem, wt.mem, g, tu, tv, cell, sup, su.mem, sv.mem, sw.mem, tile.mem, svis.mem, off.mem, &st);
        else sdp_tiled_indexing(uvw.mem, freq.mem, g, tu, tv, cell, sup, 1, nb, nt, tile.mem, su.mem, sv.mem, idx.mem, off.mem, &st);
        if (st) c.fatal("status", "valid call failed with %d", (int) st);
        for (int64_t k = 0; k < ntile; ++k)
        {
            if ((int64_t) off.get(k).real() != start[k + 1]) c.fatal("vast_advance", "tile %lld: offset after sort %g, expected %lld", (long long) k, off.get(k).real(), (long long) start[k + 1]);
            std::multiset<std::vector<double>> want, got;
            for (int64_t v : bucket[k])
                want.insert(kind == 1 ? std::vector<double>{on[v].first, on[v].second, vis.get(v).real(), vis.get(v).imag(), wt.get(v).real()} : std::vector<double>{on[v].first, on[v].second, (double) v});
            auto near = [&](const Arr& a, int64_t s) { const double x = a.get(s).real(); return fabs(x - std::round(x)) <= 1e-6 * fabs(x) ? std::round(x) : x; };
            for (int64_t s = start[k]; s < start[k + 1]; ++s)
            {
                got.insert(kind == 1 ? std::vector<double>{near(su, s), near(sv, s), svis.get(s).real(), svis.get(s).imag(), sw.get(s).real()} : std::vector<double>{near(su, s), near(sv, s), idx.get(s).real()});
                if ((int64_t) tile.get(s).real() != (k / ntu) * 32768 + k % ntu) c.fatal("vast_tile_id", "record %lld in tile %lld has tile id %g", (long long) s, (long long) k, tile.get(s).real());
            }
            if (want != got) c.fatal("vast_records", "tile %lld does not hold the records of its visibilities", (long long) k);
        }
    }
    c.count("vast_coordinates", (uint64_t) rows); c.count("records_matched", (uint64_t) total);
}
