// Element patterns against their closed forms in extended precision.
#include "vh.h"
#include <climits>
#include "ska-sdp-func/station_beam/sdp_element_dipole.h"
#include "ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.h"
using namespace vh;
typedef long double ld;
typedef std::complex<ld> cl;
static const ld PI = 3.14159265358979323846264338327950288L;

static double rand_theta(Rng& r)
{
    switch (r.i(0, 7))
    {
    case 0: return r.pick<double>({0, M_PI / 2, M_PI, M_PI / 4});
    case 1: return std::pow(10.0, r.d(-9, -1));
    case 2: return M_PI / 2 + (r.b() ? -1 : 1) * std::pow(10.0, r.d(-9, -1));
    case 3: return r.d(0, M_PI);
    default: return r.d(0, M_PI / 2);
    }
}
static double rand_phi(Rng& r)
{
    switch (r.i(0, 5))
    {
    case 0: return (double) r.i(-8, 8) * M_PI / 4;
    case 1: return r.d(-20, 20);
    case 2: return r.i(-2, 2) * M_PI / 2 + (r.b() ? -1 : 1) * std::pow(10.0, r.d(-9, -1));
    default: return r.d(-M_PI, M_PI);
    }
}

struct V { ld t, p, et, ep; }; // theta and phi component, tolerances
static V dipole(ld th, ld ph, ld kL, ld eps)
{
    const ld cp = cosl(ph), sp = sinl(ph), ct = cosl(th), st = sinl(th);
    // 1 - cos^2 phi sin^2 theta, without cancellation
    const ld den = sp * sp + cp * cp * ct * ct;
    V v = {0, 0, 0, 0};
    if (den == 0) return v;
    const ld x = cp * st;
    // cos(kL x) - cos(kL) = 2 sin(kL (1+x)/2) sin(kL (1-x)/2)
    const ld num = cosl(kL * x) - cosl(kL);
    const ld temp = num / den;
    v.t = -cp * ct * temp; v.p = sp * temp;
    const ld ph_err = fabsl(ph) * eps + eps;
    const ld te = (eps * (4 + 4 * fabsl(kL)) + fabsl(kL) * ph_err * fabsl(sp) + fabsl(temp) * (6 * eps + 2 * ph_err * fabsl(sp * cp))) / den;
    v.et = te * fabsl(cp * ct) + fabsl(temp) * (4 * eps + ph_err);
    v.ep = te * fabsl(sp) + fabsl(temp) * (4 * eps + ph_err);
    return v;
}

FAMILY(dipole, 4000, 80000)
{
    Rng& r = c.rng;
    const bool dbl = r.b(0.6), scalar = r.b(0.4);
    const sdp_MemType rt = real_t(dbl), ct = cplx_t(dbl);
    const int64_t n = r.b(0.005) ? r.i(800, 5000) : r.li(0, 60), slack = r.b() ? 0 : r.i(0, 3);
    Arr th(rt, {n + slack}), ph(rt, {n + slack});
    for (int64_t k = 0; k < n + slack; ++k) { th.set(k, rand_theta(r)); ph.set(k, rand_phi(r)); }
    const int stride = (int) (scalar ? r.i(1, 4) : r.i(2, 5)), off = (int) r.i(0, 6);
    // The output must hold (n - 1) * stride + off + width values.
    const int64_t need = n ? (n - 1) * stride + off + (scalar ? 1 : 2) : off;
    int64_t rows = (need + 3) / 4 + r.i(0, 3);
    std::vector<int64_t> sh = scalar ? (r.b() ? std::vector<int64_t>{need + r.i(0, 3)} : std::vector<int64_t>{need + r.i(0, 3), 1})
        : (r.b() ? std::vector<int64_t>{rows, 4} : std::vector<int64_t>{rows, 2, 2});
    Arr out(ct, sh);
    if (out.n() == 0) { c.trivial = true; return; }
    out.fill_random(r, -9, 9);
    auto before = out.values();
    const double freq = r.b(0.03) ? 0 : r.d(20e6, 400e6), len = r.b(0.03) ? 0 : r.d(0.05, 6);
    c.note("%s scalar=%d n=%lld stride=%d off=%d freq=%.17g length=%.17g", dbl ? "double" : "float", scalar, (long long) n, stride, off, freq, len);
    c.mix(r.s); if (!n) c.trivial = true;
    th.read_only(true); ph.read_only(true); th.snapshot(); ph.snapshot();
    sdp_Error st = SDP_SUCCESS;
    sdp_element_beam_dipole((int) n, th.mem, ph.mem, freq, len, stride, off, out.mem, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    if (!th.unchanged() || !ph.unchanged()) c.fail("inputs_changed", "an input array was modified");
    const ld kL = (ld) len * (PI * (ld) freq / 299792458.0L), eps = dbl ? 2.3e-16L : 1.2e-7L;
    std::vector<char> own(out.n(), 0);
    // With overlapping output ranges the last point wins; only compare when distinct.
    for (int64_t i = 0; i < n; ++i)
    {
        const ld t = th.get(i).real(), p = ph.get(i).real();
        char w[80]; snprintf(w, 80, "point %lld theta=%.17g phi=%.17g", (long long) i, (double) t, (double) p);
        const int64_t at = i * stride + off;
        V x = dipole(t, p, kL, eps);
        if (scalar)
        {
            V y = dipole(t, p + PI / 2, kL, eps * (1 + 2 * PI));
            const ld amp = sqrtl((x.t * x.t + x.p * x.p + y.t * y.t + y.p * y.p) / 2);
            const ld tol = x.et + x.ep + y.et + y.ep + 4 * eps * amp;
            own[at] = 1;
            if (!c.near_("scalar_value", out.get(at), cd((double) amp), (double) tol + (dbl ? 1e-150 : 1e-19), w)) return;
        }
        else
        {
            own[at] = own[at + 1] = 1;
            if (!c.near_("theta_value", out.get(at), cd((double) x.t), (double) x.et + 1e-300, w)) return;
            if (!c.near_("phi_value", out.get(at + 1), cd((double) x.p), (double) x.ep + 1e-300, w)) return;
        }
        c.count("dipole_points");
        if (fabsl(t - PI / 2) < 1e-3L) c.count("near_horizon");
        if (fabsl(t) < 1e-3L) c.count("near_zenith");
    }
    for (int64_t k = 0; k < out.n(); ++k) if (!own[k] && out.get(k) != before[k]) { c.fail("outside_range", "element %lld outside the output range changed", (long long) k); return; }
}

// P_l^m with the Condon-Shortley phase, given cos and sin.
static ld legendre(int l, int m, ld x, ld s)
{
    if (m > l) return 0;
    ld a = 1, b = 0;
    for (int k = 1; k <= m; ++k) a *= -(2 * k - 1) * s;
    for (int k = m + 1; k <= l; ++k)
    {
        const ld n = ((2 * k - 1) * x * a - (k + m - 1) * b) / (k - m);
        b = a; a = n;
    }
    return a;
}

FAMILY(spherical_wave, 1200, 30000)
{
    Rng& r = c.rng;
    const bool dbl = r.b(0.6);
    const sdp_MemType rt = real_t(dbl), ct = cplx_t(dbl);
    const int lmax = (int) (r.b(0.1) ? r.i(10, 24) : r.li(0, 9));
    const int64_t n = lmax < 4 && r.b(0.01) ? r.i(300, 1500) : r.li(0, lmax > 9 ? 6 : 30), slack = r.b() ? 0 : r.i(0, 3), nco = (int64_t) (lmax + 1) * (lmax + 1) - 1;
    Arr th(rt, {n + slack}), px(rt, {n + slack}), py(rt, {n + slack});
    for (int64_t k = 0; k < n + slack; ++k)
    {
        th.set(k, r.b(0.03) ? -r.d(0, 1) : rand_theta(r));
        const double p = rand_phi(r); px.set(k, p); py.set(k, r.b(0.7) ? p + M_PI / 2 : rand_phi(r));
        if (r.b(0.01)) px.set(k, NAN);
    }
    Arr co(ct, {nco, 4});
    co.fill_random(r, -2, 2); co.spice(r);
    const int off = (int) (r.b() ? 0 : r.i(0, 9));
    int64_t rows = n + off + r.i(0, 3);
    Arr out(ct, r.b() ? std::vector<int64_t>{rows, 4} : std::vector<int64_t>{rows, 2, 2});
    if (out.n() == 0) { c.trivial = true; return; }
    out.fill_random(r, -9, 9);
    auto before = out.values();
    c.note("%s n=%lld lmax=%d off=%d", dbl ? "double" : "float", (long long) n, lmax, off);
    c.mix(r.s); if (!n || !lmax) c.trivial = true;
    std::vector<Arr*> ins = {&th, &px, &py, &co};
    for (auto a : ins) { a->read_only(true); a->snapshot(); }
    sdp_Error st = SDP_SUCCESS;
    sdp_element_beam_spherical_wave_harp((int) n, th.mem, px.mem, py.mem, lmax, co.mem, off, out.mem, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    for (auto a : ins) if (!a->unchanged()) c.fail("inputs_changed", "an input array was modified");
    const ld eps = dbl ? 2.3e-16L : 1.2e-7L;
    for (int64_t i = 0; i < n; ++i)
    {
        ld t = th.get(i).real(); const ld tmin = dbl ? (ld) 1e-5 : (ld) (float) 1e-5;
        if (t < tmin) { t = tmin; c.count("clamped_theta"); }
        const ld x = cosl(t), s = sinl(t), as = fabsl(s);
        const ld ph[2] = {px.get(i).real(), py.get(i).real()};
        cl v[4] = {0, 0, 0, 0}; ld tol[4] = {0, 0, 0, 0};
        if (std::isnan((double) ph[0]))
        {
            for (int q = 0; q < 4; ++q) if (!std::isnan(out.get(4 * (i + off) + q).real())) { c.fail("nan_direction", "undefined direction gave a finite value"); return; }
            c.count("nan_directions");
            continue;
        }
        for (int l = 1; l <= lmax; ++l)
        {
            const ld f = (2 * l + 1) / (4 * PI * l * (l + 1));
auto P = [&](int ll, int m) { return legendre(ll, m, x, s); };
            for (int m = 0; m <= l; ++m)
            {
                ld ratio = 1; for (int q = l - m + 1; q <= l + m; ++q) ratio /= q;
                const ld nf = sqrtl(f) * sqrtl(ratio);
                const ld pl = P(l, m), pl1 = P(l + 1, m);
                ld pds = pl / s;
                ld dp = m == 0 ? -P(l, 1) : 0.5L * ((ld) (l + m) * (l - m + 1) * P(l, m - 1) - P(l, m + 1));
                const ld err = eps * (8 + 4 * l + l * l) * (fabsl(dp) + m * fabsl(pds) + ((l + 1) * fabsl(pl) + (l - m + 1) * fabsl(pl1) + (m == 0 ? 2 * l : 0) + eps * 1e3L) / as)
                    + eps * (8 + 4 * l + l * l) * (m > 0 ? 1.0L : 0) * fabsl(P(l, m)) / as;
                for (int sign = -1; sign <= (m ? 1 : -1); sign += 2)
                {
                    const int mm = m ? sign * m : 0;
                    const int64_t ind = (int64_t) l * l - 1 + l + mm;
                    for (int a = 0; a < 2; ++a)
                    {
                        const cl e = cl(cosl(mm * ph[a]), sinl(mm * ph[a])) * nf;
                        const cl qq = -e * dp, dd = cl(0, 1) * e * ((ld) mm * pds);
                        const cd te_ = co({ind, 2 * a}), tm_ = co({ind, 2 * a + 1});
                        const cl te(te_.real(), te_.imag()), tm(tm_.real(), tm_.imag());
                        v[2 * a + 0] += qq * tm - dd * te;  // phi component is stored first
                        v[2 * a + 1] += dd * tm + qq * te;
                        const ld mag = std::abs(te) + std::abs(tm);
                        const ld tl = 2 * nf * mag * (err + eps * (4 + 2 * m * fabsl(ph[a])) * (fabsl(dp) + m * fabsl(pds)));
                        tol[2 * a] += tl; tol[2 * a + 1] += tl;
                    }
                }
            }
        }
        for (int q = 0; q < 4; ++q)
        {
            char w[100]; snprintf(w, 100, "point %lld component %d theta=%.17g phi=%.17g", (long long) i, q, (double) t, (double) ph[q / 2]);
            if (!c.near_("wave_value", out.get(4 * (i + off) + q), cd((double) v[q].real(), (double) v[q].imag()), (double) tol[q] + 1e-300, w)) return;
            c.count("wave_values");
        }
    }
    for (int64_t k = 0; k < out.n(); ++k)
        if ((k / 4 < off || k / 4 >= off + n) && out.get(k) != before[k]) { c.fail("outside_range", "element %lld outside the output range changed", (long long) k); return; }
}

// Offsets and strides beyond 32-bit counts: the same values as with small ones.
FAMILY(vast, 6, 60)
{
    Rng& r = c.rng;
    const bool dbl = r.b();
    const int kind = (int) (c.idx % 3); // dipole, scalar dipole, spherical waves
    const sdp_MemType rt = real_t(dbl), ct = cplx_t(dbl);
    const int64_t n = r.i(1, 9);
    Arr th(rt, {n}), ph(rt, {n}), ph2(rt, {n});
    for (int64_t k = 0; k < n; ++k) { th.set(k, rand_theta(r)); ph.set(k, rand_phi(r)); ph2.set(k, ph.get(k).real() + M_PI / 2); }
    const int width = kind == 0 ? 2 : kind == 1 ? 1 : 4;
    const int64_t stride = kind == 2 ? 4 : n > 1 && r.b(0.7) ? std::min<int64_t>(INT_MAX, ((1ll << r.i(31, 33)) - r.i(0, 3)) / (n - 1)) : width;
    const int off = r.b(0.3) ? (int) r.i(0, 9) : (int) std::min<int64_t>(INT_MAX, (1ll << r.i(29, 31)) - r.i(1, 40));
    const int64_t first = kind == 2 ? 4 * (int64_t) off : off, need = first + (n - 1) * stride + width;
    Arr out = Arr::vast(ct, kind == 1 ? std::vector<int64_t>{need, 1} : std::vector<int64_t>{(need + 3) / 4, 4});
    Arr want(ct, kind == 1 ? std::vector<int64_t>{n, 1} : std::vector<int64_t>{n, 4});
    if (!out.mem) { c.trivial = true; return; }
    c.note("%s kind=%d n=%lld stride=%lld off=%d", dbl ? "double" : "float", kind, (long long) n, (long long) stride, off); c.mix(r.s);
    sdp_Error st = SDP_SUCCESS;
    if (kind < 2)
    {
        const double freq = r.d(20e6, 400e6), len = r.d(0.05, 6);
        sdp_element_beam_dipole((int) n, th.mem, ph.mem, freq, len, width == 1 ? 1 : 4, 0, want.mem, &st);
        if (st) c.fatal("status", "valid call failed with %d", (int) st);
        sdp_element_beam_dipole((int) n, th.mem, ph.mem, freq, len, (int) stride, off, out.mem, &st);
    }
    else
    {
        const int lmax = (int) r.i(1, 4), nco = lmax * (lmax + 2);
        Arr co(ct, {nco, 4});
        co.fill_random(r);
        sdp_element_beam_spherical_wave_harp((int) n, th.mem, ph.mem, ph2.mem, lmax, co.mem, 0, want.mem, &st);
        if (st) c.fatal("status", "valid call failed with %d", (int) st);
        sdp_element_beam_spherical_wave_harp((int) n, th.mem, ph.mem, ph2.mem, lmax, co.mem, off, out.mem, &st);
    }
    if (st) c.fatal("vast_status", "valid call failed with %d", (int) st);
    std::vector<int64_t> at;
    for (int64_t i = 0; i < n; ++i)
    {
        at.push_back(first + i * stride);
        if (memcmp(out.at(at[i]), want.at(i * (kind == 1 ? 1 : 4)), (size_t) width * out.esize())) { c.fail("vast_value", "point %lld differs from the result with small offsets", (long long) i); break; }
    }
    for (auto b : out.written_pages())
    {
        bool ok = false;
        for (auto x : at) ok = ok || (b + 4096 > x * (int64_t) out.esize() && b < (x + width) * (int64_t) out.esize());
        if (!ok) { c.fail("vast_outside", "memory at byte %lld was written", (long long) b); break; }
    }
    c.count("vast_directions", (uint64_t) n);
}
