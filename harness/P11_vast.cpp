// Point-source prediction with more fluxes than a 32-bit number counts (built without sanitizers: they take too long with).
#include "vh.h"
#include "ska-sdp-func/visibility/sdp_dft.h"
using namespace vh;

FAMILY(vast, 0, 2)
{
    Rng& r = c.rng;
    // All fluxes are zero except for a few.
    const int v = (int) (c.idx % 2);
    const int64_t nch = 4, np = 4, ns = (1ll << 28) + r.i(1, 1 << 20), nb = 1;
    Arr dir = Arr::vast(SDP_MEM_DOUBLE, {ns, 3}), flux = Arr::vast(SDP_MEM_COMPLEX_DOUBLE, {ns, nch, np});
    if (!dir.mem || !flux.mem) { c.trivial = true; return; }
    Arr uvw(SDP_MEM_DOUBLE, v == 0 ? std::vector<int64_t>{1, nb, nch, 3} : std::vector<int64_t>{1, nb, 3}), vis(SDP_MEM_COMPLEX_DOUBLE, {1, nb, nch, np});
    uvw.fill_random(r, -50, 50); vis.fill(7);
    const double f0 = 299792458.0, df = 1e6;
    c.note("version=%d components=%lld", v, (long long) ns); c.mix(r.s);
    std::set<int64_t> on;
    for (int q = 0; q < 40; ++q)
    {
        const int64_t k = q == 0 ? ns - 1 : q < 10 ? ns - 1 - r.i(0, 1 << 20) : r.i(0, ns - 1);
        on.insert(k);
        for (int j = 0; j < 3; ++j) dir.set(3 * k + j, (double) r.i(-512, 512) / 1024);
        for (int64_t j = 0; j < nch * np; ++j) flux.set(k * nch * np + j, cd((double) r.i(-9, 9), (double) r.i(-9, 9)));
    }
    dir.read_only(true); flux.read_only(true);
    sdp_Error st = SDP_SUCCESS;
    if (v == 0) sdp_dft_point_v00(dir.mem, flux.mem, uvw.mem, vis.mem, &st);
    else sdp_dft_point_v01(dir.mem, flux.mem, uvw.mem, f0, df, vis.mem, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    for (int64_t b = 0; b < nb; ++b) for (int64_t ch = 0; ch < nch; ++ch) for (int64_t p = 0; p < np; ++p)
    {
        std::complex<long double> want = 0; long double sum = 0;
        const int64_t at = v == 0 ? (b * nch + ch) * 3 : b * 3;
        const long double inv = v == 0 ? 1 : ((long double) f0 + ch * (long double) df) / 299792458.0L;
        for (int64_t k : on)
        {
            long double ph = 0;
            for (int j = 0; j < 3; ++j) ph += (long double) dir.get(3 * k + j).real() * uvw.get(at + j).real();
            ph *= -2 * 3.14159265358979323846L * inv;
            const cd f = flux.get((k * nch + ch) * np + p);
            want += std::complex<long double>(f.real(), f.imag()) * std::complex<long double>(cosl(ph), sinl(ph));
            sum += std::abs(f) * (1 + fabsl(ph));
        }
        const cd got = vis.get((b * nch + ch) * np + p);
        if (!(std::abs(std::complex<long double>(got.real(), got.imag()) - want) <= 1e-12 * sum)) c.fatal("vast_vis", "got %g%+gi expected %g%+gi", got.real(), got.imag(), (double) want.real(), (double) want.imag());
    }
    c.count("vast_fluxes", (uint64_t) (ns * nch * np));
}
