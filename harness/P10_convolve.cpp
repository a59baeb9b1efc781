// FFT convolution against the direct same-size convolution sum.
#include "vh.h"
#include "ska-sdp-func/numeric_functions/sdp_fft_convolution.h"
using namespace vh;

FAMILY(convolve, 1500, 30000)
{
    Rng& r = c.rng;
    const bool dbl = r.b();
    int64_t n1, n2;
    switch (r.i(0, 3))
    {
    case 0: n1 = r.i(1, 9); n2 = r.i(1, 9); break;
    case 1: n1 = (int64_t) 1 << r.i(0, 5); n2 = r.i(1, 3); break; // padding boundary
    case 2: n1 = r.i(1, 40); n2 = ((int64_t) 1 << r.i(1, 6)) + 1 - n1; if (n2 < 1) n2 = r.i(1, 12); break;
    default: n1 = r.i(1, 48); n2 = r.i(1, 48);
    }
    if (r.b(0.01)) { n1 = r.i(60, 130); n2 = r.i(1, 5); }
    c.note("%s n1=%lld n2=%lld", dbl ? "double" : "float", (long long) n1, (long long) n2);
    const int kind = (int) r.i(0, 3);
    c.mix(r.s);
    Arr a(cplx_t(dbl), {n1, n1}), b(cplx_t(dbl), {n2, n2}), o(cplx_t(dbl), {n1, n1});
    a.fill_random(r); b.fill_random(r); a.spice(r); b.spice(r); o.fill(cd(55, -3));
    if (kind == 0) { a.fill(0); a.set({r.i(0, n1 - 1), r.i(0, n1 - 1)}, cd(1, 0)); }
    if (kind == 1) { b.fill(0); b.set({r.i(0, n2 - 1), r.i(0, n2 - 1)}, cd(0, 1)); }
    a.read_only(true); b.read_only(true); a.snapshot(); b.snapshot();
    sdp_Error st = SDP_SUCCESS;
    sdp_fft_convolution(a.mem, b.mem, o.mem, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    if (!a.unchanged() || !b.unchanged()) c.fail("inputs_changed", "an input was modified");
    const int64_t off = (n2 - 1) / 2;
    double na = 0, nb = 0;
    std::vector<cd> va = a.values(), vb = b.values();
    for (auto& v : va) na += std::norm(v);
    for (auto& v : vb) nb += std::norm(v);
    const double tol = (dbl ? 2.3e-16 : 1.2e-7) * 100 * std::sqrt(na * nb) + 1e-300;
    for (int64_t i = 0; i < n1; ++i) for (int64_t j = 0; j < n1; ++j)
    {
        std::complex<long double> s = 0; // equal terms would all be rounded the same way
        for (int64_t p = std::max<int64_t>(0, i + off - n1 + 1); p < n2 && p <= i + off; ++p)
            for (int64_t q = std::max<int64_t>(0, j + off - n1 + 1); q < n2 && q <= j + off; ++q)
                s += std::complex<long double>(va[(i + off - p) * n1 + (j + off - q)]) * std::complex<long double>(vb[p * n2 + q]);
        if (!c.near_("pixel", o({i, j}), cd((double) s.real(), (double) s.imag()), tol)) return;
    }
    c.count("pixels_compared", n1 * n1);
}
