// Spheroidal windows, kernels made from windows, and the parameters and tables
// of exponential-of-semicircle gridding.
#include "oracle.h"
#include "ska-sdp-func/fourier_transforms/sdp_pswf.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
#include "ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.h"
using namespace vh;
using orc::ld;

namespace {
struct Plan
{
    sdp_Pswf* p;
    Plan(int m, double c) : p(sdp_pswf_create(m, c)) {}
    ~Plan() { sdp_pswf_free(p); }
};
double some_c(Rng& r)
{
    if (r.b(0.5)) return r.i(1, 24) * (M_PI / 2);
    return r.b(0.8) ? r.d(0.05, 30) : r.pick({0.05, 0.1, 35., 45.});
}
double eps_of(bool dbl) { return dbl ? 2.3e-16 : 6e-8; }
// Values of degree m > 0 are relative to (2m - 1)!!.
double top(int m) { double t = 1; for (int k = 1; k < m; ++k) t *= 2 * k + 1; return t; }
}

// Values against an independent solution, through every way to get them.
FAMILY(pswf, 900, 20000)
{
    Rng& r = c.rng;
    const int m = r.b(0.7) ? 0 : (int) r.i(1, 4);
    const double cc = some_c(r);
    const int n = (int) (r.b(0.1) ? r.i(1, 3) : r.li(1, 400));
    const sdp_MemType t = r.pick({SDP_MEM_FLOAT, SDP_MEM_DOUBLE, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE});
    const int how = (int) r.i(0, 3);
    const int end = (int) r.i(0, 1);
    const bool dbl = t == SDP_MEM_DOUBLE || t == SDP_MEM_COMPLEX_DOUBLE || how == 2;
    c.note("m=%d c=%.17g size=%d interface=%d type=%s end correction=%d", m, cc, n, how, type_name(t), end); c.mixd(cc); c.mix(n * 8 + how); c.mix(m);
    const orc::Pswf& ref = orc::pswf(m, cc);
    const double tol = (orc::pswf_tol(cc) * (m ? 20 : 1) + eps_of(dbl)) * top(m);
    Plan plan(m, cc);
    if (!plan.p) c.fatal("create", "no plan for a valid bandwidth");
    if (sdp_pswf_par_c(plan.p) != cc || sdp_pswf_par_m(plan.p) != m) c.fail("parameters", "the plan reports other parameters than it was made with");
    Arr out(t, {n}, how < 2 ? (int) r.i(0, 3) : 0, &r);
    out.fill_random(r); out.snapshot();
    sdp_Error st = SDP_SUCCESS;
    const sdp_Mem* vals = out.mem;
    std::vector<cd> got(n);
    if (how == 0) sdp_generate_pswf(m, cc, out.mem, &st);
    else if (how == 1) sdp_pswf_generate(plan.p, out.mem, 0, end, &st);
    else if (how == 2)
    {
        if (r.b(0.3)) sdp_pswf_generate(plan.p, 0, (int) r.i(1, 50), (int) r.i(0, 1), &st); // replaced by the next
        sdp_pswf_generate(plan.p, 0, n, end, &st);
        vals = sdp_pswf_values(plan.p, SDP_MEM_CPU, &st);
        if (!vals || sdp_mem_num_elements(vals) != n || sdp_mem_type(vals) != SDP_MEM_DOUBLE) c.fatal("values", "cached values have another size or type");
    }
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    if (how < 2) { got = out.values(); if (!out.surround_unchanged()) c.fail("frame", "storage around the output changed"); }
    else if (how == 2) for (int i = 0; i < n; ++i) got[i] = ((const double*) sdp_mem_data_const(vals))[i];
    else for (int i = 0; i < n; ++i) got[i] = sdp_pswf_evaluate(plan.p, 2.0 * (i - n / 2) / n);
    for (int i = 0; i < n; ++i)
    {
        if (i == 0 && n % 2 == 0)
        {
            // The end of the range.
            if (how == 3) { if (got[0] != 0.) c.fail("end", "value at the edge is %g", got[0].real()); }
            else if (how > 0 && end) { if (std::abs(got[0] - 1e-15) > 1e-21) c.fail("end", "first value is %g with end correction", got[0].real()); }
            else if (m == 0 && how == 0) { if (std::abs(got[0]) > (double) ref(1) + tol) c.fail("end", "first value is %g", got[0].real()); }
            continue;
        }
        if (i == 0 && end && how > 0 && how < 3 && got[0] == cd(1e-15)) continue;
        if (!c.near_("value", got[i], (double) ref(2.0L * (i - n / 2) / n), tol, "window value")) break;
        if (got[i].imag() != 0) { c.fail("imaginary", "element %d has an imaginary part", i); break; }
        if (m == 0 && cc < 24 && got[i].real() <= 0) { c.fail("positive", "element %d is %g", i, got[i].real()); break; }
    }
    c.count("window values compared", n);
    // Symmetric and decreasing from the centre.
    for (int i = 1; m == 0 && i < n; ++i)
    {
        const int j = 2 * (n / 2) - i;
        if (j > 0 && j < n && got[i] != got[j]) { c.fail("symmetric", "elements %d and %d are %.17g and %.17g", i, j, got[i].real(), got[j].real()); break; }
        if (i > n / 2 && got[i].real() > got[i - 1].real() + 2 * tol) { c.fail("decreasing", "element %d is larger than the one before it", i); break; }
    }
}

// A window is an eigenfunction of the finite Fourier transform of its bandwidth.
FAMILY(eigenfunction, 250, 4000)
{
    Rng& r = c.rng;
    const double cc = r.b() ? r.i(1, 14) * (M_PI / 2) : r.d(0.3, 22);
    c.note("c=%.17g", cc); c.mixd(cc);
    Plan plan(0, cc);
    if (!plan.p) c.fatal("create", "no plan for a valid bandwidth");
    // Gauss-Legendre nodes.
    const int N = 60;
    static std::vector<ld> X, W;
    if (X.empty())
        for (int i = 0; i < N; ++i)
        {
            ld x = cosl(orc::PI_L * (i + 0.75L) / (N + 0.5L)), dp = 1;
            for (int it = 0; it < 30; ++it)
            {
                ld p0 = 1, p1 = x;
                for (int k = 2; k <= N; ++k) { const ld p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
                dp = N * (x * p1 - p0) / (x * x - 1);
                x -= p1 / dp;
            }
            X.push_back(x); W.push_back(2 / ((1 - x * x) * dp * dp));
        }
    std::vector<ld> s(N);
    for (int i = 0; i < N; ++i) s[i] = sdp_pswf_evaluate(plan.p, (double) X[i]);
    ld lambda = 0;
    for (int i = 0; i < N; ++i) lambda += W[i] * s[i];
    lambda /= sdp_pswf_evaluate(plan.p, 0);
    if (!(fabsl(lambda * lambda * cc / (2 * orc::PI_L)) <= 1 + 1e-9L)) c.fail("concentration", "more than all the energy in band");
    for (int k = 0; k < 12; ++k)
    {
        const double x = r.d(-1, 1);
        ld f = 0;
        for (int i = 0; i < N; ++i) f += W[i] * s[i] * cosl((ld) cc * x * X[i]);
        c.near_("eigenfunction", (double) (f / lambda), sdp_pswf_evaluate(plan.p, x), orc::pswf_tol(cc) * 20 * (1 + 2 / (double) lambda), "Fourier transform of window over eigenvalue");
    }
    c.count("eigenfunction points compared", 12);
}

// Oversampled kernels: the Fourier transform of the window they are made from.
FAMILY(kernel, 900, 20000)
{
    Rng& r = c.rng;
    const bool dbl = r.b(), pswf = r.b();
    const int s = (int) (r.b(0.7) ? r.i(1, 16) : r.i(17, 60)), ov = (int) r.pick({1, 2, 3, 4, 7, 16, 64, 200});
    const int sup = pswf ? (int) (r.b(0.7) ? std::min(s, 20) : r.i(1, 20)) : s;
    const sdp_MemType t = real_t(dbl);
    Arr win(t, {s}, (int) r.i(0, 3), &r), k(t, {ov + 1, s}, (int) r.i(0, 3), &r);
    win.fill_random(r, r.b() ? 0 : -1, 1);
    k.fill_random(r);
    std::vector<ld> w(s);
    for (int i = 0; i < s; ++i) w[i] = win.get(i).real();
    c.note("%s kernel of %d x %d, %s support=%d layout=%d %d", type_name(t), ov + 1, s, pswf ? "spheroidal" : "random window", sup, win.stride.empty() ? 0 : (int) win.stride[0], (int) k.stride[0]);
    c.mix(s * 1000 + ov); c.mix(sup * 4 + pswf * 2 + dbl); c.mixd(win.get(0).real());
    win.snapshot(); k.snapshot();
    sdp_Error st = SDP_SUCCESS;
    if (pswf) { sdp_gridder_make_pswf_kernel(sup, k.mem, &st); w = orc::taper(s, sup); }
    else { win.read_only(true); sdp_gridder_make_kernel(win.mem, k.mem, &st); }
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    if (!k.surround_unchanged() || !win.unchanged()) c.fail("frame", "storage around the output, or the input, changed");
    const double tol = (pswf ? orc::pswf_tol(sup * (M_PI / 2)) : 1e-15) * 4 + 4 * eps_of(dbl);
    for (int i = 0; i <= ov; ++i) for (int j = 0; j < s; ++j)
    {
        const ld u = j - s / 2 + (ld) (ov - i) / ov;
        ld v = 0;
        for (int q = 0; q < s; ++q) v += w[q] * cosl(2 * orc::PI_L * u * (q - s / 2) / s);
        if (!c.near_("value", k.r({i, j}), (double) (v / s), tol, "kernel element")) return;
    }
    c.count("kernel values compared", k.n());
}

// The pattern multiplied in to move by one w-plane.
FAMILY(w_pattern, 300, 6000)
{
    Rng& r = c.rng;
    const int n = (int) r.li(1, 80), extra = (int) r.pick({0, 0, 0, 1, 5}), ex2 = (int) r.pick({0, 0, 2});
    const double theta = r.d(0.001, 0.8), hu = r.b(0.6) ? 0 : r.d(-0.3, 0.3), hv = r.b(0.6) ? 0 : r.d(-0.3, 0.3), ws = r.b(0.1) ? 0 : r.d(-1, 1) * r.pick({1., 100., 3000.});
    Arr p(SDP_MEM_COMPLEX_DOUBLE, {n + extra, n + ex2}, (int) r.i(0, 3), &r);
    p.fill_random(r); p.snapshot();
    const std::vector<cd> before = p.values();
    c.note("size %d in %dx%d theta=%.17g shear=%.17g,%.17g w_step=%.17g", n, n + extra, n + ex2, theta, hu, hv, ws); c.mixd(theta); c.mixd(ws);
    sdp_Error st = SDP_SUCCESS;
    sdp_gridder_make_w_pattern(n, theta, hu, hv, ws, p.mem, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    if (!p.surround_unchanged()) c.fail("frame", "storage around the output changed");
    for (int i = 0; i < n + extra; ++i) for (int j = 0; j < n + ex2; ++j)
    {
        const int64_t f = p.flat({i, j});
        if (i >= n || j >= n) { if (p.get(f) != before[f]) c.fatal("beyond", "element %d,%d outside the pattern changed", i, j); continue; }
        const ld l = (ld) theta * (i - n / 2) / n, m = (ld) theta * (j - n / 2) / n;
        const ld a = 1 + (ld) hu * hu + (ld) hv * hv, b = hu * l + hv * m - 1;
        if (b * b - a * (l * l + m * m) < 1e-6L) { c.count("points beyond the horizon"); continue; }
        const orc::cl e = orc::cis(2 * orc::PI_L * ws * orc::n_of(l, m, hu, hv));
        if (!c.near_("value", p.get(f), cd((double) e.real(), (double) e.imag()), 1e-14 + 2e-14 * std::fabs(ws), "w-pattern element")) return;
    }
    c.count("w-pattern values compared", (uint64_t) n * n);
}

static const double es_db[][6] = {
#include "es_kernels.inc"
};
static const int es_n = sizeof es_db / sizeof es_db[0];

// Quadrature of the exponential-of-semicircle kernel and its correction.
FAMILY(es_tables, 400, 8000)
{
    Rng& r = c.rng;
    const int row = (int) r.i(0, es_n - 1);
    const int sup = (int) es_db[row][0];
    const double beta = (r.b(0.8) ? es_db[row][3] : r.d(0.5, 3)) * sup;
    const int size = (int) r.li(1, 3000), grid = (int) (size * r.d(1, 2.6)) + 2;
    c.note("support=%d beta=%.17g image=%d grid=%d", sup, beta, size, grid); c.mix(sup * 10007 + size); c.mix(grid); c.mixd(beta);
    const int p = (int) (1.5 * sup + 2.0);
    // Exact sizes, so that writes beyond them are seen.
    std::unique_ptr<double[]> k(new double[p]), x(new double[p]), w(new double[p]), corr(new double[size / 2 + 1]);
    sdp_generate_gauss_legendre_conv_kernel(size, grid, sup, beta, k.get(), x.get(), w.get(), corr.get());
    // Nodes and weights of the 2p-point rule.
    ld norm = 0;
    std::vector<ld> X(p), W(p), K(p);
    for (int i = 0; i < p; ++i)
    {
        const int n = 2 * p;
        ld t = cosl(orc::PI_L * (i + 0.75L) / (n + 0.5L)), dp = 1;
        for (int it = 0; it < 30; ++it)
        {
            ld p0 = 1, p1 = t;
            for (int q = 2; q <= n; ++q) { const ld p2 = ((2 * q - 1) * t * p1 - (q - 1) * p0) / q; p0 = p1; p1 = p2; }
            dp = n * (t * p1 - p0) / (t * t - 1);
            t -= p1 / dp;
        }
        X[i] = t; W[i] = 2 / ((1 - t * t) * dp * dp); K[i] = expl(beta * (sqrtl(1 - t * t) - 1));
        norm += K[i] * W[i];
        if (!c.near_("nodes", x[i], (double) X[i], 1e-12, "quadrature node") ||
                !c.near_("weights", w[i], (double) W[i], 1e-12, "quadrature weight") ||
                !c.near_("kernel", k[i], (double) K[i], 2e-12, "kernel at a node")) return;
    }
    for (int l = 0; l <= size / 2; ++l)
    {
        ld v = 0;
        for (int i = 0; i < p; ++i) v += K[i] * W[i] * cosl(orc::PI_L * l / grid * sup * X[i]);
        if (!c.near_("correction", corr[l], (double) (v / norm), 1e-11, "correction element")) return;
    }
    c.count("correction values compared", size / 2 + 1);
}

static int64_t smooth_from(double v)
{
    // Smallest number from v with no factors above 11.
    for (int64_t n = std::max((int64_t) 1, (int64_t) v);; ++n)
    {
        int64_t q = n;
        for (int f : {2, 3, 5, 7, 11}) while (q % f == 0) q /= f;
        if (q == 1) return n;
    }
}

// Choice of kernel: the smallest grid among the kernels that are accurate enough.
FAMILY(es_params, 500, 8000)
{
    Rng& r = c.rng;
    const bool dbl = r.b();
    const double eps = r.b(0.1) ? r.pick({0., 1., 1e-30, 1e-15, 0.03}) : std::pow(10.0, -r.d(1.5, dbl ? 14.3 : 7));
    const int size = (int) (r.b(0.08) ? r.i(30000, 400000) : r.li(1, 20000));
    c.note("epsilon=%.17g image=%d %s", eps, size, dbl ? "double" : "single"); c.mix(size); c.mixd(eps);
    int grid = -1, sup = -1; double beta = -1;
    sdp_Error st = SDP_SUCCESS;
    sdp_calculate_params_from_epsilon(eps, size, dbl ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT, grid, sup, beta, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    // The most accurate kernel of all stands in where none is accurate enough.
    int64_t best_lo = INT64_MAX, best_hi = INT64_MAX;
    bool found = false, exact = false;
    for (int i = 0; i < es_n; ++i)
    {
        const double* d = es_db[i];
        if (!(i == es_n - 1 || (d[0] <= (dbl ? 16 : 8) && d[2] <= eps && d[5] <= 10))) continue;
        const double h = 0.5 * size * d[1];
        const int64_t lo = 2 * smooth_from((int64_t) (h * (1 - 1e-12)) + 1), hi = 2 * smooth_from((int64_t) (h * (1 + 1e-12)) + 1);
        best_lo = std::min(best_lo, lo); best_hi = std::min(best_hi, hi);
        if (sup == (int) d[0] && beta == d[3]) { found = true; if (grid == lo || grid == hi) exact = true; }
    }
    if (!found) c.fail("accuracy", "kernel of support %d, beta %g is not one that reaches the accuracy", sup, beta);
    else if (!exact) c.fail("grid", "grid size %d does not fit the kernel of support %d, beta %g", grid, sup, beta);
    if (grid < best_lo || grid > best_hi) c.fail("smallest", "grid size %d, smallest possible is %lld", grid, (long long) best_lo);
    c.count("kernels chosen");
}
