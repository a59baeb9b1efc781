// Visibility prediction against the direct sum in extended precision.
#include "vh.h"
#include "ska-sdp-func/visibility/sdp_dft.h"
using namespace vh;
typedef long double ld;
static const ld C0 = 299792458.0L;

static void random_lmn(Rng& r, Arr& d)
{
    for (int64_t s = 0; s < d.shape[0]; ++s)
    {
        double l = r.d(-0.7, 0.7), m = r.d(-0.7, 0.7), n;
        switch (r.i(0, 5))
        {
        case 0: l = m = 0; n = 0; break;              // phase centre, n-1 form
        case 1: n = std::sqrt(1 - l * l - m * m); break;
        case 2: n = r.d(-1, 1); break;
        default: n = std::sqrt(1 - l * l - m * m) - 1;
        }
        d.set({s, 0}, l); d.set({s, 1}, m); d.set({s, 2}, n);
    }
}

static void run(Case& c, bool v00)
{
    Rng& r = c.rng;
    const bool out_dbl = r.b(0.6);
    int64_t nt = r.i(1, 4), nb = r.li(1, 40), nc = r.li(1, 12), np = r.b() ? 1 : 4, ns = r.li(0, 60);
    if (r.b(0.04)) { ns = r.i(200, 2000); nt = 1; nb = r.i(1, 4); nc = r.i(1, 3); }
    if (r.b(0.04)) { nb = r.i(200, 700); ns = r.i(1, 3); nt = r.i(1, 2); nc = r.i(1, 2); }
    if (r.b(0.04)) { nc = r.i(60, 300); ns = r.i(1, 4); nt = 1; nb = r.i(1, 5); }
    if (r.b(0.04)) { nt = r.i(30, 80); nb = r.i(1, 5); ns = r.i(1, 4); nc = r.i(1, 2); }
    if (r.b(0.01)) { nt = r.i(8, 20); nb = r.i(200, 400); nc = r.i(5, 12); ns = r.i(1, 2); np = r.pick({1, 1, 4}); } // more than 65536 coordinates
    if (r.b(0.02)) nb = 0;
    const double scale = std::pow(10.0, r.d(0, v00 ? 4.5 : 4));
    Arr dir(SDP_MEM_DOUBLE, {ns, 3}), flux(SDP_MEM_COMPLEX_DOUBLE, {ns, nc, np});
    Arr uvw = v00 ? Arr(SDP_MEM_DOUBLE, {nt, nb, nc, 3}) : Arr(SDP_MEM_DOUBLE, {nt, nb, 3});
    Arr vis(cplx_t(out_dbl), {nt, nb, nc, np});
    random_lmn(r, dir); if (r.b(0.2)) dir.spice(r);
    flux.fill_random(r, -2, 2); flux.spice(r);
    uvw.fill_random(r, -scale, scale); if (r.b(0.3)) uvw.spice(r);
    if (r.b(0.2) && uvw.n()) { const int64_t k = 3 * r.i(0, uvw.n() / 3 - 1); for (int j = 0; j < 3; ++j) uvw.set(k + j, 0); }
    vis.fill_random(r, -9, 9); // old contents must not matter
    double f0 = r.d(5e7, 1.5e9), df = r.d(-1, 1) * f0 / (nc + 1);
    if (r.b(0.1)) df = 0;
    if (r.b(0.1)) { f0 = std::round(f0); df = std::round(df); }
    if (r.b(0.1)) { f0 = r.pick<double>({0, 1e3, -1e8, 3e10}); df = r.d(-1, 1) * 1e6; }
    c.note("%s nt=%lld nb=%lld nc=%lld np=%lld ns=%lld out=%s", v00 ? "v00" : "v01", (long long) nt, (long long) nb, (long long) nc, (long long) np, (long long) ns, type_name(vis.type));
    c.mix(r.s);
    if (ns == 0 || nb == 0) c.trivial = nb == 0;
    dir.read_only(true); flux.read_only(true); uvw.read_only(true);
    dir.snapshot(); flux.snapshot(); uvw.snapshot();
    sdp_Error st = SDP_SUCCESS;
    if (v00) sdp_dft_point_v00(dir.mem, flux.mem, uvw.mem, vis.mem, &st);
    else sdp_dft_point_v01(dir.mem, flux.mem, uvw.mem, f0, df, vis.mem, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    if (!dir.unchanged() || !flux.unchanged() || !uvw.unchanged()) c.fail("inputs_changed", "an input array was modified");
    for (int64_t t = 0; t < nt; ++t) for (int64_t b = 0; b < nb; ++b) for (int64_t ch = 0; ch < nc; ++ch)
    {
        ld re[4] = {0}, im[4] = {0}, absum[4] = {0}; double maxph = 0;
        for (int64_t s = 0; s < ns; ++s)
        {
            ld u[3], il = v00 ? 1.0L : ((ld) f0 + (ld) ch * (ld) df) / C0;
            ld ph = 0, pha = 0;
            for (int j = 0; j < 3; ++j)
            {
                u[j] = v00 ? uvw.r({t, b, ch, j}) : uvw.r({t, b, j});
                ph += u[j] * (ld) dir.r({s, j});
                pha += std::fabs((double) (u[j] * dir.r({s, j})));
            }
            ph *= -2.0L * 3.14159265358979323846264338327950288L * il;
            const ld ila = v00 ? 1.0L : (fabsl((ld) f0) + (ld) ch * fabsl((ld) df)) / C0; // the sum may cancel
            maxph = std::max(maxph, (double) (2 * 3.15L * ila * pha));
            ld co = cosl(ph), si = sinl(ph);
            for (int64_t p = 0; p < np; ++p)
            {
                cd f = flux({s, ch, p});
                re[p] += f.real() * co - f.imag() * si;
                im[p] += f.real() * si + f.imag() * co;
                absum[p] += std::abs(f);
            }
        }
        for (int64_t p = 0; p < np; ++p)
        {
            const double eps = out_dbl ? 2.3e-16 : 1.2e-7;
            const double tol = (double) absum[p] * (eps * (4 + ns) + 1e-15 * (4 + maxph)) + 1e-300;
            char w[80]; snprintf(w, 80, "t=%lld b=%lld ch=%lld pol=%lld", (long long) t, (long long) b, (long long) ch, (long long) p);
            if (!c.near_("value", vis({t, b, ch, p}), cd((double) re[p], (double) im[p]), tol, w)) return;
            c.count("visibilities_compared");
        }
    }
}
FAMILY(v00, 700, 12000) { run(c, true); }
FAMILY(v01, 700, 12000) { run(c, false); }
