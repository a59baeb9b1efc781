// Phase rotation against the rotation between the two coordinate frames.
#include "vh.h"
#include "ska-sdp-func/visibility/sdp_phase_rotate.h"
#include "ska-sdp-func/utility/sdp_sky_coord.h"
using namespace vh;
typedef long double ld;
static const ld PI = 3.14159265358979323846264338327950288L;
struct V3 { ld x[3]; };
static ld dot(const V3& a, const V3& b) { return a.x[0] * b.x[0] + a.x[1] * b.x[1] + a.x[2] * b.x[2]; }
// u, v, w axes of the frame with the given phase centre, in the celestial frame.
static void axes(double ra, double dec, V3 e[3])
{
    ld sr = sinl(ra), cr = cosl(ra), sd = sinl(dec), cdd = cosl(dec);
    e[0] = V3{{-sr, cr, 0}};
    e[1] = V3{{-sd * cr, -sd * sr, cdd}};
    e[2] = V3{{cdd * cr, cdd * sr, sd}};
}
struct Centres { double ra0, de0, ra1, de1; bool eq_ra, eq_dec0; };
static Centres pick(Rng& r)
{
    Centres p;
    p.ra0 = r.d(0, 6.2831853); p.de0 = r.d(-1.5707963, 1.5707963);
    p.ra1 = r.b() ? r.d(0, 6.2831853) : p.ra0 + r.d(-0.1, 0.1);
    p.de1 = r.b() ? r.d(-1.5707963, 1.5707963) : p.de0 + r.d(-0.1, 0.1);
    switch (r.i(0, 7))
    {
    case 0: p.ra1 = p.ra0; break;
    case 1: p.de0 = 0; break;
    case 2: p.de1 = p.de0; break;
    case 3: p.ra1 = p.ra0; p.de1 = p.de0; break;
    case 4: p.ra1 = p.ra0; p.de1 = -p.de0; break;
    case 5: p.de0 = r.b() ? 1.5707963267948966 : 0; p.ra1 = p.ra0 + (r.b() ? 3.141592653589793 : 0); break;
    }
    if (r.b(0.3)) p.de0 = 0;
    p.eq_ra = p.ra0 == p.ra1; p.eq_dec0 = p.de0 == 0;
    return p;
}

FAMILY(uvw, 2500, 60000)
{
    Rng& r = c.rng;
    const bool dbl = r.b(0.6);
    int64_t nt = r.li(1, 12), nb = r.li(1, 60);
    if (r.b(0.02)) nb = 0;
    if (r.b(0.02)) nb = r.i(500, 3000);
    Centres p = pick(r);
    const double scale = std::pow(10.0, r.d(-2, 6));
    Arr in(real_t(dbl), {nt, nb, 3}), out(real_t(dbl), {nt, nb, 3});
    in.fill_random(r, -scale, scale); if (r.b(0.4)) in.spice(r); out.fill_random(r, -9, 9);
    if (r.b(0.2)) for (int64_t k = 0; k < in.n(); ++k) if (r.b(0.3)) in.set(k, 0);
    c.note("uvw %s nt=%lld nb=%lld ra %.17g->%.17g dec %.17g->%.17g", type_name(in.type), (long long) nt, (long long) nb, p.ra0, p.ra1, p.de0, p.de1);
    sdp_SkyCoord* a = sdp_sky_coord_create("icrs", p.ra0, p.de0, r.b() ? 0 : r.d());
    sdp_SkyCoord* b = sdp_sky_coord_create("icrs", p.ra1, p.de1, r.b() ? 0 : r.d());
    in.read_only(true); in.snapshot();
    sdp_Error st = SDP_SUCCESS;
    sdp_phase_rotate_uvw(a, b, in.mem, out.mem, &st);
    Arr back(real_t(dbl), {nt, nb, 3});
    if (!st) sdp_phase_rotate_uvw(b, a, out.mem, back.mem, &st);
    if (sdp_sky_coord_value(a, 0) != p.ra0 || sdp_sky_coord_value(b, 1) != p.de1) c.fail("coords_changed", "a coordinate object was modified");
    sdp_sky_coord_free(a); sdp_sky_coord_free(b);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    if (!in.unchanged()) c.fail("inputs_changed", "input modified");
    V3 e0[3], e1[3];
    axes(p.ra0, p.de0, e0); axes(p.ra1, p.de1, e1);
    // The two-step rotation (-dRA about v, then dDec about u).
    ld da = -((ld) p.ra1 - (ld) p.ra0), dd = (ld) p.de1 - (ld) p.de0;
    ld sa = sinl(da), ca = cosl(da), sd = sinl(dd), cdd = cosl(dd);
    ld two[3][3] = {{ca, 0, sa}, {sa * sd, cdd, -ca * sd}, {-sa * cdd, sd, ca * cdd}};
    bool exact_ok = true, two_ok = true, back_ok = true; std::string bad;
    const double eps = dbl ? 4e-15 : 5e-7;
    for (int64_t k = 0; k < nt * nb; ++k)
    {
        ld x[3]; ld len = 0, len2 = 0;
        for (int j = 0; j < 3; ++j) { x[j] = in.get(3 * k + j).real(); len += x[j] * x[j]; }
        len = sqrtl(len);
        V3 xyz{{0, 0, 0}};
        for (int j = 0; j < 3; ++j) for (int q = 0; q < 3; ++q) xyz.x[q] += x[j] * e0[j].x[q];
        for (int j = 0; j < 3; ++j)
        {
            ld got = out.get(3 * k + j).real(), ex = dot(xyz, e1[j]);
            ld tw = two[j][0] * x[0] + two[j][1] * x[1] + two[j][2] * x[2];
            len2 += got * got;
            if (!(fabsl(got - ex) <= eps * len))
            {
                if (exact_ok)
                {
                    char m[200]; snprintf(m, 200, "point %lld comp %d got %.15Lg expected %.15Lg (two-step %.15Lg)", (long long) k, j, got, ex, tw);
                    bad = m;
                }
                exact_ok = false;
            }
            if (!(fabsl(got - tw) <= eps * len)) two_ok = false;
            if (!(fabsl((ld) back.get(3 * k + j).real() - x[j]) <= 2 * eps * len)) back_ok = false;
        }
        if (!(fabsl(sqrtl(len2) - len) <= 2 * eps * len)) { c.fatal("length", "length of point %lld changed from %.15Lg to %.15Lg", (long long) k, len, sqrtl(len2)); }
        c.count("baselines_compared");
    }
    // The way back starts from the new declination.
    if (exact_ok && !back_ok && (p.eq_ra || (p.eq_dec0 && p.de1 == 0))) c.fail("inverse", "swapping the phase centres does not restore the coordinates");
    if (!exact_ok)
    {
        // Recorded as a finding: two-step form, wrong unless dRA or the original declination is zero.
        if (two_ok && !p.eq_ra && !p.eq_dec0) c.fail("rotate_uvw_two_step", "%s", bad.c_str());
        else c.fail("rotate_uvw", "%s", bad.c_str());
    }
}

FAMILY(vis, 1500, 30000)
{
    Rng& r = c.rng;
    const bool dbl = r.b(0.6);
    int64_t nt = r.li(1, 8), nb = r.li(1, 30), nc = r.li(1, 20), np = r.b() ? 1 : 4;
    if (r.b(0.03)) { nc = r.i(100, 500); nt = 1; nb = r.i(1, 6); }
    Centres p = pick(r);
    const double scale = std::pow(10.0, r.d(-1, 4));
    Arr uvw(real_t(dbl), {nt, nb, 3}), vi(cplx_t(dbl), {nt, nb, nc, np}), vo(cplx_t(dbl), {nt, nb, nc, np});
    uvw.fill_random(r, -scale, scale); vi.fill_random(r, -3, 3); vi.spice(r); if (r.b(0.3)) uvw.spice(r); vo.fill_random(r, -9, 9);
    double f0 = r.d(5e7, 1.5e9), df = r.d(-1, 1) * f0 / (nc + 1);
    if (r.b(0.1)) df = 0;
    c.note("vis %s nt=%lld nb=%lld nc=%lld np=%lld f0=%.9g df=%.9g ra %.17g->%.17g dec %.17g->%.17g", type_name(vi.type), (long long) nt, (long long) nb, (long long) nc, (long long) np, f0, df, p.ra0, p.ra1, p.de0, p.de1);
    sdp_SkyCoord* a = sdp_sky_coord_create("icrs", p.ra0, p.de0, 0);
    sdp_SkyCoord* b = sdp_sky_coord_create("icrs", p.ra1, p.de1, 0);
    uvw.read_only(true); vi.read_only(true); uvw.snapshot(); vi.snapshot();
    sdp_Error st = SDP_SUCCESS;
    sdp_phase_rotate_vis(a, b, f0, df, uvw.mem, vi.mem, vo.mem, &st);
    sdp_sky_coord_free(a); sdp_sky_coord_free(b);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    if (!uvw.unchanged() || !vi.unchanged()) c.fail("inputs_changed", "input modified");
    V3 e0[3], e1[3];
    axes(p.ra0, p.de0, e0); axes(p.ra1, p.de1, e1);
    // A source at the new phase centre, seen from the old one, must become 1:
    // V_old = exp(+2 pi i (u l + v m + w (n-1)) / lambda).
    ld l = dot(e1[2], e0[0]), m = dot(e1[2], e0[1]), n1 = dot(e1[2], e0[2]) - 1;
    for (int64_t t = 0; t < nt; ++t) for (int64_t bl = 0; bl < nb; ++bl) for (int64_t ch = 0; ch < nc; ++ch)
    {
        ld u = uvw.r({t, bl, 0}), v = uvw.r({t, bl, 1}), w = uvw.r({t, bl, 2});
        ld il = ((ld) f0 + (ld) ch * (ld) df) / 299792458.0L;
        ld src = 2 * PI * il * (u * l + v * m + w * n1);
        ld mag = 2 * PI * il * (fabsl(u * l) + fabsl(v * m) + fabsl(w * n1));
        // delta n is formed as 1 - n, so allow one rounding of a unit vector.
        double tolph = (double) (mag * 3e-15 + 2 * PI * il * (fabsl(u) + fabsl(v) + fabsl(w)) * 3e-15) + (dbl ? 1e-15 : 4e-7);
        cd ph((double) cosl(src), (double) -sinl(src));
        for (int64_t pp = 0; pp < np; ++pp)
        {
            cd in = vi({t, bl, ch, pp}), ex = in * ph;
            if (!c.near_("value", vo({t, bl, ch, pp}), ex, std::abs(in) * (2 * tolph) + 1e-300)) return;
            c.count("visibilities_compared");
        }
    }
}
