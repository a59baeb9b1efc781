// Station beams against the direct sum over elements.
#include "vh.h"
#include <climits>
#include "ska-sdp-func/station_beam/sdp_station.h"
using namespace vh;
typedef long double ld;
typedef std::complex<ld> cl;

FAMILY(aperture_array, 3000, 60000)
{
    Rng& r = c.rng;
    const bool dbl = r.b(0.6), pol = r.b();
    int64_t ne = r.li(1, 60), npt = r.li(0, 40);
    if (r.b(0.05)) { ne = r.i(200, 600); npt = r.i(1, 6); }
    if (r.b(0.05)) { npt = r.i(200, 900); ne = r.i(1, 4); }
    if (r.b(0.004)) { npt = r.i(3000, 20000); ne = r.i(1, 3); }
    if (r.b(0.004)) { ne = r.i(3000, 20000); npt = r.i(1, 3); }
    const int off_in = (int) (r.b() ? 0 : r.li(0, 20)), off_out = (int) (r.b() ? 0 : r.li(0, 20));
    const int64_t extra_in = r.b() ? 0 : r.i(0, 5), extra_out = r.b() ? 0 : r.i(0, 5);
    const int64_t nin = npt + off_in + extra_in, nout = npt + off_out + extra_out;
    const sdp_MemType rt = real_t(dbl), ct = cplx_t(dbl);
    Arr w(ct, {ne}), ex(rt, {ne}), ey(rt, {ne}), ez(rt, {ne}), px(rt, {nin}), py(rt, {nin}), pz(rt, {nin});
    const double extent = std::pow(10.0, r.d(-1, 2));
    ex.fill_random(r, -extent, extent); ey.fill_random(r, -extent, extent); ez.fill_random(r, -extent / 10, extent / 10);
    if (r.b(0.2)) { ex.spice(r); ey.spice(r); }
    if (r.b(0.2)) ez.fill(0);
    w.fill_random(r, -2, 2); w.spice(r);
    for (int64_t k = 0; k < nin; ++k)
    {
        double l = r.d(-0.7, 0.7), m = r.d(-0.7, 0.7);
        if (r.b(0.05)) l = m = 0;
        px.set(k, l); py.set(k, m); pz.set(k, (r.b(0.1) ? -1 : 1) * std::sqrt(1 - l * l - m * m));
    }
    const int data_kind = (int) r.i(0, 3); // none (null), none (empty), per element, indexed
    const bool have = data_kind >= 2, idx = data_kind == 3 || (!have && r.b(0.3));
    const int64_t types = data_kind == 3 ? r.li(1, 6) : ne;
    // Shapes of station and element beams
    std::vector<int64_t> so, se;
    if (pol) { if (r.b()) { so = {nout, 4}; se = {types, npt, 4}; } else { so = {nout, 2, 2}; se = {types, npt, 2, 2}; } }
    else if (r.b() && nout != 4) { so = {nout}; se = {types, npt}; }
    else { so = {nout, 1}; se = {types, npt, 1}; }
    if (!have) se = {0};
    Arr beam(ct, se), out(ct, so), ind(SDP_MEM_INT, {idx && data_kind == 3 ? ne : 0});
    if (have) { beam.fill_random(r, -2, 2); beam.spice(r); }
    if (data_kind == 3) for (int64_t k = 0; k < ne; ++k) ind.set(k, (double) r.i(0, types - 1));
    out.fill_random(r, -9, 9);
    // any non-zero value means yes
    auto yes = [&](bool b) { return !b ? 0 : r.b(0.8) ? 1 : (int) r.i(2, 9); };
    const int norm = yes(r.b()), ex_ = pol ? yes(r.b(0.7)) : 1, ey_ = pol ? yes(r.b(0.7)) : 1;
    const bool no_z = r.b(0.15);
    const double k0 = r.b(0.05) ? 0 : r.d(0.1, 1) * 2 * M_PI * std::pow(10.0, r.d(-1, 1)) / (r.b(0.1) ? -1 : 1);
    c.note("%s pol=%d ne=%lld points=%lld off=%d,%d data=%d types=%lld norm=%d x=%d y=%d z=%d k=%.17g", dbl ? "double" : "float", pol, (long long) ne, (long long) npt, off_in, off_out, data_kind, (long long) types, norm, ex_, ey_, !no_z, k0);
    c.mix(r.s);
    if (npt == 0) c.trivial = true;
    std::vector<Arr*> ins = {&w, &ex, &ey, &ez, &px, &py, &pz, &beam, &ind};
    for (auto a : ins) { a->read_only(true); a->snapshot(); }
    auto before = out.values();
    sdp_Error st = SDP_SUCCESS;
    sdp_station_beam_aperture_array(k0, w.mem, ex.mem, ey.mem, ez.mem, off_in, (int) npt, px.mem, py.mem, no_z ? 0 : pz.mem,
            data_kind == 0 ? 0 : data_kind == 3 ? ind.mem : (r.b() ? ind.mem : 0), data_kind == 0 ? 0 : beam.mem, off_out, out.mem, norm, ex_, ey_, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    for (auto a : ins) if (!a->unchanged()) c.fail("inputs_changed", "an input array was modified");
    const int np = pol ? 4 : 1;
    const double eps = dbl ? 2.3e-16 : 1.2e-7;
    for (int64_t o = 0; o < nout; ++o) for (int p = 0; p < np; ++p)
    {
        const cd got = out.get(o * np + p);
        const bool target = o >= off_out && o < off_out + npt && (!pol || (p < 2 ? ex_ : ey_));
        if (!target)
        {
            if (got != before[o * np + p]) { c.fail("outside_range", "output %lld[%d] outside the requested range changed", (long long) o, p); return; }
            c.count("untouched_outputs");
            continue;
        }
        const int64_t i = o - off_out;
        cl sum = 0; ld ab = 0;
        for (int64_t e = 0; e < ne; ++e)
        {
            const ld a = (ld) px.get(i + off_in).real() * ex.get(e).real(), b = (ld) py.get(i + off_in).real() * ey.get(e).real();
            const ld z = no_z ? 0 : (ld) pz.get(i + off_in).real() * ez.get(e).real();
            const ld ph = (a + b + z) * (ld) k0, big = (fabsl(a) + fabsl(b) + fabsl(z)) * fabsl((ld) k0);
            cl d = 1;
            if (have)
            {
                const int64_t ty = data_kind == 3 ? (int64_t) ind.get(e).real() : e;
                const cd v = beam.get((ty * npt + i) * np + p); d = cl(v.real(), v.imag());
            }
            const cd wt = w.get(e);
            const cl term = cl(cosl(ph), sinl(ph)) * cl(wt.real(), wt.imag()) * d;
            sum += term; ab += std::abs(term) * (4 * big + 8 + ne);
        }
        const ld nf = norm ? 1.0L / ne : 1.0L;
        char wh[60]; snprintf(wh, 60, "point %lld pol %d", (long long) i, p);
        if (!c.near_("value", got, cd((double) (sum.real() * nf), (double) (sum.imag() * nf)), (double) (ab * nf) * eps + 1e-300, wh)) return;
        c.count("beam_values_compared");
    }
}

// Offsets and tables beyond 32-bit counts: the same values as with small ones.
FAMILY(vast, 6, 60)
{
    Rng& r = c.rng;
    const bool dbl = r.b(), pol = r.b(0.7);
    const int np = pol ? 4 : 1;
    const sdp_MemType rt = real_t(dbl), ct = cplx_t(dbl);
    const int kind = (int) (c.idx % 3); // table, output, directions
    const int64_t ne = r.i(1, 12), npt = kind == 0 ? r.i(50, 400) * 1000 : r.i(1, 50);
    const int64_t check = std::min<int64_t>(npt, 300);
    Arr w(ct, {ne}), ex(rt, {ne}), ey(rt, {ne}), ez(rt, {ne}), px(rt, {npt}), py(rt, {npt}), ind(SDP_MEM_INT, {ne}), ind_small(SDP_MEM_INT, {ne});
    for (auto a : {&w, &ex, &ey, &ez, &px, &py}) a->fill_random(r, -1, 1);
    // The table: only two of its patterns are used.
    const int64_t last = kind == 0 ? (r.pick<int64_t>({1ll << 31, 1ll << 32}) + r.i(0, 1ll << 30)) / (npt * np) + 1 : 1;
    auto shape = [&](int64_t a, int64_t b) { return pol ? std::vector<int64_t>{a, b, 4} : std::vector<int64_t>{a, b, 1}; };
    Arr beam = Arr::vast(ct, shape(last + 1, npt)), small = Arr::vast(ct, shape(2, npt));
    if (!beam.mem || !small.mem) { c.trivial = true; return; }
    for (int64_t e = 0; e < ne; ++e) { const int t = (int) r.i(0, 1); ind.set(e, t ? (double) last : 0); ind_small.set(e, t); }
    // (a part of the directions have values, at the end too)
    std::vector<int64_t> pts;
    for (int64_t k = 0; k < check; ++k) pts.push_back(k < check / 2 ? k : npt - check + k);
    for (int t = 0; t < 2; ++t) for (auto k : pts) for (int p = 0; p < np; ++p)
    {
        const cd v(r.d(-1, 1), r.d(-1, 1));
        beam.set(((t ? last : 0) * npt + k) * np + p, v); small.set((t * npt + k) * np + p, v);
    }
    const int off_out = kind == 1 ? (int) std::min<int64_t>(INT_MAX, (1ll << r.i(29, 31)) - r.i(1, 60)) : 0;
    const int off_in = kind == 2 ? INT_MAX - (int) r.i(0, 60) : 0;
    Arr out = Arr::vast(ct, pol ? std::vector<int64_t>{off_out + npt, 4} : std::vector<int64_t>{off_out + npt, 1}), want(ct, pol ? std::vector<int64_t>{npt, 4} : std::vector<int64_t>{npt, 1});
    Arr qx, qy;
    if (kind == 2)
    {
        qx = Arr::vast(rt, {off_in + npt}); qy = Arr::vast(rt, {off_in + npt});
        if (!qx.mem || !qy.mem) { c.trivial = true; return; }
        for (int64_t k = 0; k < npt; ++k) { qx.set(off_in + k, px.get(k)); qy.set(off_in + k, py.get(k)); }
    }
    if (!out.mem) { c.trivial = true; return; }
    const int norm = (int) r.i(0, 1);
    const double k0 = r.d(0.1, 10);
    c.note("%s pol=%d ne=%lld points=%lld patterns=%lld off_in=%d off_out=%d", dbl ? "double" : "float", pol, (long long) ne, (long long) npt, (long long) last + 1, off_in, off_out);
    c.mix(r.s);
    sdp_Error st = SDP_SUCCESS;
    sdp_station_beam_aperture_array(k0, w.mem, ex.mem, ey.mem, ez.mem, 0, (int) npt, px.mem, py.mem, 0, ind_small.mem, small.mem, 0, want.mem, norm, 1, 1, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    sdp_station_beam_aperture_array(k0, w.mem, ex.mem, ey.mem, ez.mem, off_in, (int) npt, kind == 2 ? qx.mem : px.mem, kind == 2 ? qy.mem : py.mem, 0, ind.mem, beam.mem, off_out, out.mem, norm, 1, 1, &st);
    if (st) c.fatal("vast_status", "valid call failed with %d", (int) st);
    const size_t es = out.esize() * (size_t) np;
    if (memcmp(out.at((int64_t) off_out * np), want.block + want.offset, (size_t) npt * es)) c.fail("vast_value", "differs from the result with small offsets");
    const int64_t lo = (int64_t) off_out * (int64_t) es, hi = lo + npt * (int64_t) es;
    for (auto b : out.written_pages()) if (b + 4096 <= lo || b >= hi) { c.fail("vast_outside", "memory at byte %lld was written, the values are at %lld to %lld", (long long) b, (long long) lo, (long long) hi); break; }
    c.count("vast_beam_values", (uint64_t) (npt * np));
}
