// Fourier transforms against the textbook sum.
#include "vh.h"
#include "ska-sdp-func/fourier_transforms/sdp_fft.h"
#include "ska-sdp-func/fourier_transforms/sdp_fft_padded_size.h"
using namespace vh;

static double eps_of(const Arr& a) { return a.is_double() ? 2.3e-16 : 1.2e-7; }

// Naive separable DFT over the last `nd` axes of a row-major array.
static std::vector<cd> ref_dft(std::vector<cd> v, const std::vector<int64_t>& shape, int nd, bool fwd)
{
    int64_t total = 1; for (auto s : shape) total *= s;
    int64_t inner = 1;
    for (int ax = (int) shape.size() - 1; ax >= (int) shape.size() - nd; --ax)
    {
        const int64_t n = shape[ax];
        for (int64_t o = 0; o < total / (n * inner); ++o)
            for (int64_t in = 0; in < inner; ++in)
            {
                std::vector<cd> line(n);
                for (int64_t k = 0; k < n; ++k) line[k] = v[(o * n + k) * inner + in];
                line = naive_dft(line, fwd);
                for (int64_t k = 0; k < n; ++k) v[(o * n + k) * inner + in] = line[k];
            }
        inner *= n;
    }
    return v;
}

static double l2(const std::vector<cd>& v)
{
    double s = 0; for (auto& x : v) s += std::norm(x); return std::sqrt(s);
}

static int64_t pick_size(Rng& r, int64_t lim)
{
    static const int64_t nice[] = {1, 2, 3, 4, 5, 7, 8, 11, 13, 16, 17, 23, 24, 31, 32, 37, 48, 49, 60, 61, 64, 97, 101, 121, 127, 128, 169, 210, 243, 251, 256, 509, 512, 1009};
    if (r.b(0.6))
    {
        int64_t v;
        do v = nice[r.i(0, (int64_t) (sizeof nice / sizeof *nice) - 1)]; while (v > lim);
        return v;
    }
    return r.i(1, lim);
}

static void fill(Case& c, Arr& a)
{
    switch (c.rng.i(0, 5))
    {
    case 0: // impulse
        a.fill(0); a.set(c.rng.i(0, a.n() - 1), cd(c.rng.d(-2, 2), c.rng.d(-2, 2))); c.note("impulse"); break;
    case 1: // large offset plus detail
        a.fill_random(c.rng); for (int64_t k = 0; k < a.n(); ++k) a.set(k, a.get(k) + cd(10, -5)); c.note("offset"); break;
    default: a.fill_random(c.rng, -3, 3); a.spice(c.rng);
    }
}

// Flags are "if true".
static int flag(Rng& r, bool b) { return !b ? 0 : r.b(0.7) ? 1 : r.pick({2, -1, 256, 1 << 16, (int) 0x80000000}); }

static void check_transform(Case& c, std::vector<int64_t> shape, int nd, bool dbl, bool fwd, bool inplace)
{
    c.note("shape=%s nd=%d %s %s %s", Arr(SDP_MEM_CHAR, shape).str().c_str(), nd, dbl ? "double" : "float", fwd ? "fwd" : "inv", inplace ? "inplace" : "out");
    Arr in1(cplx_t(dbl), shape), out1(cplx_t(dbl), shape);
    sdp_Error st = SDP_SUCCESS;
    sdp_Fft* plan = sdp_fft_create(in1.mem, inplace ? in1.mem : out1.mem, nd, flag(c.rng, fwd), &st);
    if (st || !plan) c.fatal("fft_create_error", "status %d for a valid plan", (int) st);
    // A plan serves all arrays like those it was made with.
    Arr in2(in1.type, shape), out2(in1.type, shape);
    const int reps = c.rng.b(0.3) ? 2 : 1;
    for (int rep = 0; rep < reps; ++rep)
    {
        Arr& in = rep ? in2 : in1;
        Arr& out = rep ? out2 : out1;
        Arr* dst = inplace ? &in : &out;
        fill(c, in);
        if (!inplace) out.fill_random(c.rng);
        auto x = in.values();
        in.snapshot();
        sdp_fft_exec(plan, in.mem, dst->mem, &st);
        if (st) { sdp_fft_free(plan); c.fatal("fft_exec_error", "status %d", (int) st); }
        auto ref = ref_dft(x, shape, nd, fwd);
        int64_t n = 1; for (size_t k = shape.size() - nd; k < shape.size(); ++k) n *= shape[k];
        double nrm = l2(x);
        double tol = 200 * eps_of(in) * std::sqrt((double) n + 1) * nrm + 1e-300;
        for (int64_t k = 0; k < in.n(); ++k)
            if (!c.near_("fft_value", dst->get(k), ref[k], tol)) break;
        if (!inplace && !in.unchanged()) c.fail("fft_input_changed", "input modified by out-of-place transform");
        c.count("transforms"); c.count("points", in.n());
    }
    sdp_fft_free(plan);
}

FAMILY(one_dim, 700, 12000)
{
    bool dbl = c.rng.b();
    std::vector<int64_t> sh = {pick_size(c.rng, c.thorough ? 1100 : 520)};
    bool batch = c.rng.b();
    if (batch) sh.insert(sh.begin(), c.rng.i(1, 6));
    check_transform(c, sh, 1, dbl, c.rng.b(), c.rng.b());
}
FAMILY(two_dim, 400, 8000)
{
    bool dbl = c.rng.b();
    std::vector<int64_t> sh = {pick_size(c.rng, 40), pick_size(c.rng, 40)};
    if (c.rng.b()) sh.insert(sh.begin(), c.rng.i(1, 4));
    check_transform(c, sh, 2, dbl, c.rng.b(), c.rng.b());
}
FAMILY(three_dim, 120, 2500)
{
    // Three-dimensional transforms may be refused, but must be right if not.
    std::vector<int64_t> sh = {pick_size(c.rng, 12), pick_size(c.rng, 12), pick_size(c.rng, 12)};
    if (c.rng.b()) sh.insert(sh.begin(), c.rng.i(1, 3));
    Arr in(cplx_t(c.idx & 1), sh);
    sdp_Error st = SDP_SUCCESS;
    sdp_Fft* p = sdp_fft_create(in.mem, in.mem, 3, 1, &st);
    if (st) { if (p) c.fail("fft_plan_with_error", "plan returned with an error status"); c.note("refused"); c.count("refused_3d"); return; }
    sdp_fft_free(p);
    check_transform(c, sh, 3, c.idx & 1, c.rng.b(), c.rng.b());
}
// forward then inverse = number of points times the original; larger sizes.
FAMILY(round_trip, 150, 3000)
{
    bool dbl = c.rng.b();
    int nd = (int) c.rng.i(1, 2);
    std::vector<int64_t> sh;
    if (nd == 1) sh = {c.rng.i(1, c.thorough ? 60000 : 9000)};
    else sh = {c.rng.i(1, c.thorough ? 250 : 90), c.rng.i(1, c.thorough ? 250 : 90)};
    bool batch = c.rng.b();
    if (batch) sh.insert(sh.begin(), c.rng.i(1, 3));
    c.note("shape=%s nd=%d %s", Arr(SDP_MEM_CHAR, sh).str().c_str(), nd, dbl ? "double" : "float");
    Arr a(cplx_t(dbl), sh), b(cplx_t(dbl), sh), d(cplx_t(dbl), sh);
    a.fill_random(c.rng); a.spice(c.rng);
    sdp_Error st = SDP_SUCCESS;
    sdp_Fft* f = sdp_fft_create(a.mem, b.mem, nd, 1, &st);
    sdp_Fft* g = sdp_fft_create(b.mem, d.mem, nd, 0, &st);
    auto x = a.values();
    sdp_fft_exec(f, a.mem, b.mem, &st);
    auto y = b.values();
    sdp_fft_exec(g, b.mem, d.mem, &st);
    sdp_fft_free(f); sdp_fft_free(g);
    if (st) c.fatal("fft_exec_error", "status %d", (int) st);
    double n = 1; for (size_t k = batch ? 1 : 0; k < sh.size(); ++k) n *= (double) sh[k];
    double tol = 200 * eps_of(a) * (1 + std::log2(n + 1)) * l2(x) * std::sqrt(n);
    for (int64_t k = 0; k < a.n(); ++k)
        if (!c.near_("fft_round_trip", d.get(k), x[k] * n, tol)) break;
    double ex = l2(x), ey = l2(y);
    if (std::fabs(ey * ey - n * ex * ex) > 400 * eps_of(a) * (1 + std::log2(n + 1)) * n * ex * ex)
        c.fail("fft_parseval", "energy %.12g vs %.12g", ey * ey, n * ex * ex);
    c.count("round_trips");
}
FAMILY(phase_norm, 500, 8000)
{
    bool dbl = c.rng.b();
    bool one = c.rng.b(0.25);
    std::vector<int64_t> sh = {c.rng.i(1, 33)};
    if (!one) sh.push_back(c.rng.i(1, 33));
    int lay = (int) c.rng.i(0, 3);
    Arr a(cplx_t(dbl), sh, lay, &c.rng);
    a.fill_random(c.rng, -5, 5); a.spice(c.rng);
    bool phase = c.rng.b();
    c.note("%s %s layout=%s", phase ? "phase" : "norm", a.str().c_str(), layout_name(lay));
    auto x = a.values();
    a.snapshot();
    sdp_Error st = SDP_SUCCESS;
    if (phase) sdp_fft_phase(a.mem, &st); else sdp_fft_norm(a.mem, &st);
    if (st)
    {
        if (one && !phase) { if (!a.unchanged()) c.fail("fft_norm_error_effect", "changed"); c.count("refused_1d"); return; }
        c.fatal("fft_phase_norm_error", "status %d", (int) st);
    }
    for (int64_t k = 0; k < a.n(); ++k)
    {
        int64_t ix = one ? k : k / sh[1], iy = one ? 0 : k % sh[1];
        cd ref = phase ? x[k] * (((ix + iy) & 1) ? -1.0 : 1.0) : x[k] / (double) a.n();
        if (!c.near_(phase ? "fft_phase_value" : "fft_norm_value", a.get(k), ref, 4 * eps_of(a) * std::abs(ref))) break;
    }
    if (!a.surround_unchanged()) c.fail("fft_phase_norm_surround", "bytes outside the view changed");
    c.count("phase_norm");
}
FAMILY(exec_shift, 250, 5000)
{
    bool dbl = c.rng.b(), fwd = c.rng.b(), norm = c.rng.b();
    const bool one = c.rng.b(0.25), aligned = c.rng.b();
    std::vector<int64_t> sh = {pick_size(c.rng, one ? 200 : 34), pick_size(c.rng, 34)};
    // The centred transform is what fftshift(FFT(ifftshift)) gives when all
    // sizes are multiples of four; the composition must hold for every size.
    if (aligned) { sh[0] = 4 * c.rng.i(1, 8); sh[1] = 4 * c.rng.i(1, 8); }
    if (c.rng.b(0.03)) sh[c.rng.i(0, 1)] = c.rng.i(35, 300);
    if (one) sh.pop_back();
    const int64_t rows = one ? 1 : sh[0], cols = sh.back();
    c.note("shape=%lldx%lld %dD %s fwd=%d norm=%d", (long long) rows, (long long) cols, one ? 1 : 2, dbl ? "d" : "f", fwd, norm);
    Arr a(cplx_t(dbl), sh), other(a.type, sh), other2(a.type, sh);
    a.fill_random(c.rng); a.spice(c.rng);
    other.fill_random(c.rng); other2.fill_random(c.rng);
    auto x = a.values();
    sdp_Error st = SDP_SUCCESS;
    sdp_Fft* p = c.rng.b(0.7) ? sdp_fft_create(a.mem, a.mem, one ? 1 : 2, flag(c.rng, fwd), &st) : sdp_fft_create(other.mem, c.rng.b() ? other.mem : other2.mem, one ? 1 : 2, flag(c.rng, fwd), &st);
    other.snapshot(); other2.snapshot();
    sdp_fft_exec_shift(p, a.mem, flag(c.rng, norm), &st);
    sdp_fft_free(p);
    if (st) c.fatal("exec_shift_error", "status %d", (int) st);
    if (!other.unchanged() || !other2.unchanged()) c.fail("exec_shift_plan_arrays", "arrays of the plan were modified");
    std::vector<cd> y = x;
    for (int64_t k = 0; k < a.n(); ++k) if ((k / cols + k % cols) & 1) y[k] = -y[k];
    y = ref_dft(y, sh, one ? 1 : 2, fwd);
    for (int64_t k = 0; k < a.n(); ++k)
    {
        if ((k / cols + k % cols) & 1) y[k] = -y[k];
        if (norm) y[k] /= (double) a.n();
    }
    double tol = 200 * eps_of(a) * std::sqrt((double) a.n()) * l2(x) / (norm ? (double) a.n() : 1);
    for (int64_t k = 0; k < a.n(); ++k) if (!c.near_("exec_shift_value", a.get(k), y[k], tol)) break;
    if ((one || rows % 4 == 0) && cols % 4 == 0)
    {
        auto roll = [&](const std::vector<cd>& v) {
            std::vector<cd> o(v.size());
            for (int64_t i = 0; i < rows; ++i) for (int64_t j = 0; j < cols; ++j)
                o[((i + rows / 2) % rows) * cols + (j + cols / 2) % cols] = v[i * cols + j];
            return o; };
        auto z = roll(ref_dft(roll(x), sh, one ? 1 : 2, fwd));
        for (int64_t k = 0; k < a.n(); ++k)
            if (!c.near_("exec_shift_centred", a.get(k), z[k] / (norm ? (double) a.n() : 1.0), tol)) break;
    }
    c.count(one ? "shifted_transforms_1d" : "shifted_transforms");
}
static int ref_padded(int64_t n)
{
    for (int64_t v = n < 2 ? 2 : n + (n & 1);; v += 2)
    {
        int64_t r = v;
        for (int p : {2, 3, 5, 7, 11}) while (r % p == 0) r /= p;
        if (r == 1) return (int) v;
    }
}
FAMILY(padded_size, 600, 6000)
{
    // Each case sweeps a block of sizes with one padding factor.
    const double pads[] = {1.0, 1.0, 1.5, 2.0, 1.2, 1.25, 1.1, 3.0, 0.5, 2.7182818};
    double pad = pads[c.idx % 10];
    if (c.idx % 10 == 9) pad = c.rng.d(0.3, 4);
    int64_t base = (c.idx / 10) * 64 + 1;
    if (c.rng.b(0.2)) base = c.rng.i(1, 500000);
    c.note("n=%lld.. pad=%.6g", (long long) base, pad);
    for (int64_t n = base; n < base + 64; ++n)
    {
        int64_t want_n = (int64_t) std::ceil((double) n * pad);
        int got = sdp_fft_padded_size((int) n, pad);
        int want = ref_padded(want_n);
        if (got != want) { c.fail("padded_size", "n=%lld pad=%.17g got %d want %d", (long long) n, pad, got, want); break; }
        c.count("padded_sizes");
    }
}
