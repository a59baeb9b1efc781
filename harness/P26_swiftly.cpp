// SwiFTly: every step against its definition, and streams against Fourier sums.
#include "oracle.h"
#include "ska-sdp-func/fourier_transforms/sdp_swiftly.h"
using namespace vh;
using namespace orc;

namespace {
int64_t mod(int64_t a, int64_t b) { a %= b; return a < 0 ? a + b : a; }

struct Plan
{
    int64_t N, yN, xM, m, Nx, Ny; double W; sdp_SwiFTly* p = 0;
    std::vector<ld> win; double tol0;
    Plan(Case& c, int64_t N_, int64_t yN_, int64_t xM_, double W_) : N(N_), yN(yN_), xM(xM_), W(W_)
    {
        m = xM * yN / N; Nx = N / yN; Ny = N / xM;
        sdp_Error st = SDP_SUCCESS;
        p = sdp_swiftly_create(N, yN, xM, W, &st);
        if (st || !p) c.fatal("create", "valid sizes N=%ld yN=%ld xM=%ld W=%g rejected with %d", (long) N, (long) yN, (long) xM, W, (int) st);
        if (sdp_swiftly_get_image_size(p) != N || sdp_swiftly_get_facet_size(p) != yN || sdp_swiftly_get_subgrid_size(p) != xM) c.fail("sizes", "sizes reported differ from those given");
        win = taper((int) yN, 0, W * (M_PI / 2));
        tol0 = pswf_tol(W * (M_PI / 2));
        c.note("N=%ld yN=%ld xM=%ld W=%g", (long) N, (long) yN, (long) xM, W);
    }
    ~Plan() { sdp_swiftly_free(p); }
    Plan(const Plan&) = delete;
    // Correction at offset d from the middle of a facet.
    ld Fb(int64_t d) const { const int64_t i = yN / 2 + d; return i == 0 ? win[0] : 1 / win[i]; }
    // Window at offset d from the middle of a contribution.
    ld Fn(int64_t d) const { return win[yN / 2 + d * Ny]; }
    // Relative error to allow for either.
    ld Fb_err(int64_t d) const { const int64_t i = yN / 2 + d; return i == 0 ? 1e-12L : tol0 / (win[i] * win[i]); }
};

// Sizes that are accepted: N = Ny xM = Nx yN, with N dividing xM yN.
void sizes(Rng& r, int64_t& N, int64_t& yN, int64_t& xM)
{
    for (;;)
    {
        const int64_t Nx = r.i(1, 6), Ny = r.i(1, 6), m = r.i(1, 14);
        N = Nx * Ny * m; yN = N / Nx; xM = N / Ny;
        if (yN % 2 || xM % 2) continue;
        return;
    }
}
typedef std::vector<cl> V;
// Row i0 of a 2D array along the given axis.
V row(const std::vector<cd>& v, int64_t n0, int64_t n1, int64_t i)
{
    V o(n1); (void) n0;
    for (int64_t k = 0; k < n1; ++k) { const cd x = v[i * n1 + k]; o[k] = cl(x.real(), x.imag()); }
    return o;
}
struct Ref { const Plan& q; explicit Ref(const Plan& p) : q(p) {}
    V prepare_facet(const V& f, int64_t off) const
    {
        V o(q.yN); const int64_t n = (int64_t) f.size();
        for (int64_t k = 0; k < q.yN; ++k) for (int64_t j = 0; j < n; ++j)
            o[k] += f[j] * q.Fb(j - n / 2) * cis(2 * PI_L * mod((j - n / 2 + off) * k, q.yN) / q.yN) / (ld) q.yN;
        return o;
    }
    V extract_from_facet(const V& f, int64_t off) const
    {
        const int64_t s = off / q.Nx; V x(q.m), o(q.m);
        for (int64_t t = s - q.m / 2; t < s - q.m / 2 + q.m; ++t) x[mod(t, q.m)] = f[mod(t, q.yN)];
        for (int64_t k = 0; k < q.m; ++k) for (int64_t j = 0; j < q.m; ++j) o[k] += x[j] * cis(-2 * PI_L * mod(j * k, q.m) / q.m);
        return o;
    }
    V add_to_subgrid(const V& cb, V sg, int64_t off) const
    {
        const int64_t fo = off / q.Ny;
        for (int64_t k = -(q.m / 2); k < q.m - q.m / 2; ++k) sg[mod(k + fo + q.xM / 2, q.xM)] += q.Fn(k) * cb[mod(k + fo, q.m)];
        return sg;
    }
    V finish_subgrid(const V& s, int64_t n, int64_t off) const
    {
        V o(n);
        for (int64_t j = 0; j < n; ++j) for (int64_t p = 0; p < q.xM; ++p) o[j] += s[p] * cis(2 * PI_L * mod((p - q.xM / 2) * (j - n / 2 + off), q.xM) / q.xM) / (ld) q.xM;
        return o;
    }
    V prepare_subgrid(const V& s, int64_t off) const
    {
        V o(q.xM);
        for (int64_t p = 0; p < q.xM; ++p) for (int64_t j = 0; j < q.xM; ++j) o[p] += s[j] * cis(-2 * PI_L * mod((p - q.xM / 2) * (j - q.xM / 2 + off), q.xM) / q.xM);
        return o;
    }
    V extract_from_subgrid(const V& s, int64_t off) const
    {
        const int64_t fo = off / q.Ny; V x(q.m), o(q.m);
        for (int64_t k = -(q.m / 2); k < q.m - q.m / 2; ++k) x[mod(k + fo, q.m)] = q.Fn(k) * s[mod(k + fo + q.xM / 2, q.xM)];
        for (int64_t k = 0; k < q.m; ++k) for (int64_t j = 0; j < q.m; ++j) o[k] += x[j] * cis(2 * PI_L * mod(j * k, q.m) / q.m) / (ld) q.m;
        return o;
    }
    V add_to_facet(const V& cb, V f, int64_t off) const
    {
        const int64_t s = off / q.Nx;
        for (int64_t t = s - q.m / 2; t < s - q.m / 2 + q.m; ++t) f[mod(t, q.yN)] += cb[mod(t, q.m)];
        return f;
    }
    V finish_facet(const V& f, int64_t n, int64_t off) const
    {
        V o(n);
        for (int64_t j = 0; j < n; ++j)
        {
            for (int64_t k = 0; k < q.yN; ++k) o[j] += f[k] * cis(-2 * PI_L * mod(k * (j - n / 2 + off), q.yN) / q.yN);
            o[j] *= q.Fb(j - n / 2);
        }
        return o;
    }
};
Arr arr(Rng& r, int64_t a, int64_t b) { Arr x(SDP_MEM_COMPLEX_DOUBLE, {a, b}, (int) r.i(0, 3), &r); x.fill_random(r); return x; }
bool same(Case& c, const char* what, const V& want, const Arr& got, int64_t i, ld tol)
{
    for (size_t k = 0; k < want.size(); ++k)
    {
        const cd g = got({i, (int64_t) k});
        char wh[60]; snprintf(wh, 60, "row %d element %d of %d", (int) i, (int) k, (int) want.size());
        if (!c.near_(what, g, cd((double) want[k].real(), (double) want[k].imag()), (double) tol, wh)) return false;
    }
    c.count(what, want.size());
    return true;
}
ld mag(const V& v) { ld s = 0; for (auto& x : v) s += std::abs(x); return s; }
}

FAMILY(steps, 700, 12000)
{
    Rng& r = c.rng;
    int64_t N, yN, xM; sizes(r, N, yN, xM);
    Plan q(c, N, yN, xM, r.b(0.2) ? r.d(1, 16) : r.d(2, 8));
    Ref ref(q);
    const int64_t n0 = r.b(0.1) ? r.i(4, 24) : r.pick({0, 1, 1, 2, 3});
    const int64_t fo = q.Ny * r.i(-3 * q.xM, 3 * q.xM), so = q.Nx * r.i(-3 * q.yN, 3 * q.yN);
    // Away from the very edge of the window, where its inverse is inaccurate.
    const int64_t fs = r.b(0.2) ? q.yN : std::max<int64_t>(1, r.i(1, q.yN * 3 / 4)), sa = r.i(1, q.xM);
    c.note("rows=%d facet=%d at %ld subgrid=%d at %ld", (int) n0, (int) fs, (long) fo, (int) sa, (long) so);
    c.mix(r.s); if (!n0) c.trivial = true;
    const double E = 3e-14 * (q.yN + q.xM);
    sdp_Error st = SDP_SUCCESS;
    auto chk = [&](const char* w, std::initializer_list<Arr*> ins, Arr& out) {
        if (st) c.fatal("status", "%s failed with %d", w, (int) st);
        for (auto a : ins) if (!a->unchanged()) c.fatal("inputs_changed", "%s modified its input", w);
        if (!out.surround_unchanged()) c.fatal("frame", "%s wrote between output elements", w);
    };
    auto in = [&](Arr& a) { a.snapshot(); };
    ld fb = 0, fbe = 0; for (int64_t j = 0; j < fs; ++j) { fb = std::max(fb, fabsl(q.Fb(j - fs / 2))); fbe = std::max(fbe, fabsl(q.Fb(j - fs / 2)) * q.Fb_err(j - fs / 2)); }
    {
        Arr f = arr(r, n0, fs), o = arr(r, n0, yN); in(f); o.snapshot();
        sdp_swiftly_prepare_facet(q.p, f.mem, o.mem, fo, &st); chk("prepare_facet", {&f}, o);
        for (int64_t i = 0; i < n0; ++i) { const V v = row(f.values(), n0, fs, i); if (!same(c, "prepare_facet", ref.prepare_facet(v, fo), o, i, (fb * E + fbe) * mag(v) / yN)) return; }
    }
    {
        Arr f = arr(r, n0, yN), o = arr(r, n0, q.m); in(f); o.snapshot();
        sdp_swiftly_extract_from_facet(q.p, f.mem, o.mem, so, &st); chk("extract_from_facet", {&f}, o);
        for (int64_t i = 0; i < n0; ++i) { const V v = row(f.values(), n0, yN, i); if (!same(c, "extract_from_facet", ref.extract_from_facet(v, so), o, i, E * mag(v))) return; }
    }
    {
        Arr f = arr(r, n0, q.m), o = arr(r, n0, xM); in(f); o.snapshot(); const auto b = o.values();
        sdp_swiftly_add_to_subgrid(q.p, f.mem, o.mem, fo, &st); chk("add_to_subgrid", {&f}, o);
        for (int64_t i = 0; i < n0; ++i) if (!same(c, "add_to_subgrid", ref.add_to_subgrid(row(f.values(), n0, q.m, i), row(b, n0, xM, i), fo), o, i, 10 * q.tol0 + 1e-13)) return;
    }
    {
        Arr f = arr(r, n0, xM), o = arr(r, n0, sa); in(f); o.snapshot();
        sdp_swiftly_finish_subgrid(q.p, f.mem, o.mem, so, &st); chk("finish_subgrid", {&f}, o);
        for (int64_t i = 0; i < n0; ++i) { const V v = row(f.values(), n0, xM, i); if (!same(c, "finish_subgrid", ref.finish_subgrid(v, sa, so), o, i, E * mag(v) / xM)) return; }
    }
    {
        Arr o = arr(r, n0, xM); o.snapshot(); const auto b = o.values();
        sdp_swiftly_finish_subgrid_inplace(q.p, o.mem, so, &st); chk("finish_subgrid_inplace", {}, o);
        for (int64_t i = 0; i < n0; ++i) { const V v = row(b, n0, xM, i); if (!same(c, "finish_subgrid_inplace", ref.finish_subgrid(v, xM, so), o, i, E * mag(v) / xM)) return; }
    }
    {
        Arr o = arr(r, n0, xM); o.snapshot(); const auto b = o.values();
        sdp_swiftly_prepare_subgrid_inplace(q.p, o.mem, so, &st); chk("prepare_subgrid_inplace", {}, o);
        const double e2 = E * (1 + 1e-2 * std::fabs((double) so)); // phases computed from the offset
        for (int64_t i = 0; i < n0; ++i) { const V v = row(b, n0, xM, i); if (!same(c, "prepare_subgrid_inplace", ref.prepare_subgrid(v, so), o, i, e2 * mag(v))) return; }
        // ... and undone by finishing.
        sdp_swiftly_finish_subgrid_inplace(q.p, o.mem, so, &st); chk("finish_subgrid_inplace", {}, o);
        for (int64_t i = 0; i < n0; ++i) { const V v = row(b, n0, xM, i); if (!same(c, "prepare_then_finish", v, o, i, e2 * mag(v))) return; }
    }
    {
        Arr f = arr(r, n0, xM), o = arr(r, n0, q.m); in(f); o.snapshot();
        sdp_swiftly_extract_from_subgrid(q.p, f.mem, o.mem, fo, &st); chk("extract_from_subgrid", {&f}, o);
        for (int64_t i = 0; i < n0; ++i) { const V v = row(f.values(), n0, xM, i); if (!same(c, "extract_from_subgrid", ref.extract_from_subgrid(v, fo), o, i, (E + 10 * q.tol0) * mag(v))) return; }
    }
    {
        Arr f = arr(r, n0, q.m), o = arr(r, n0, yN); in(f); o.snapshot(); const auto b = o.values();
        sdp_swiftly_add_to_facet(q.p, f.mem, o.mem, so, &st); chk("add_to_facet", {&f}, o);
        for (int64_t i = 0; i < n0; ++i) if (!same(c, "add_to_facet", ref.add_to_facet(row(f.values(), n0, q.m, i), row(b, n0, yN, i), so), o, i, 1e-14)) return;
    }
    {
        Arr f = arr(r, n0, yN), o = arr(r, n0, fs); const auto b = f.values(); f.snapshot(); o.snapshot();
        sdp_swiftly_finish_facet(q.p, f.mem, o.mem, fo, &st); chk("finish_facet", {}, o);
        if (!f.surround_unchanged()) c.fail("frame", "finish_facet wrote between elements");
        for (int64_t i = 0; i < n0; ++i) { const V v = row(b, n0, yN, i); if (!same(c, "finish_facet", ref.finish_facet(v, fs, fo), o, i, (fb * E + fbe) * mag(v))) return; }
    }
}

FAMILY(two_axes, 250, 5000)
{
    Rng& r = c.rng;
    int64_t N, yN, xM; do sizes(r, N, yN, xM); while (xM > 60);
    Plan q(c, N, yN, xM, r.d(2, 8));
    Ref ref(q);
    const int64_t f0 = q.Ny * r.i(-3 * q.xM, 3 * q.xM), f1 = q.Ny * r.i(-3 * q.xM, 3 * q.xM), s0 = q.Nx * r.i(-3 * q.yN, 3 * q.yN), s1 = q.Nx * r.i(-3 * q.yN, 3 * q.yN);
    c.note("facet at %ld,%ld subgrid at %ld,%ld", (long) f0, (long) f1, (long) s0, (long) s1);
    c.mix(r.s);
    const double E = 3e-14 * (q.xM + 20);
    sdp_Error st = SDP_SUCCESS;
    // Apply a one-axis operation to both axes of an array.
    typedef std::function<V(const V&, int)> Op;
    auto both = [&](const std::vector<cd>& v, int64_t n, const Op& op) {
        std::vector<V> t;
        for (int64_t i = 0; i < n; ++i) t.push_back(op(row(v, n, n, i), 1));
        const int64_t k = (int64_t) t[0].size(); std::vector<V> o(k, V(k));
        for (int64_t j = 0; j < k; ++j) { V col(n); for (int64_t i = 0; i < n; ++i) col[i] = t[i][j]; const V w = op(col, 0); for (int64_t i = 0; i < k; ++i) o[i][j] = w[i]; }
        return o;
    };
    {
        Arr f = arr(r, q.m, q.m), o = arr(r, xM, xM); f.snapshot(); o.snapshot(); const auto b = o.values();
        sdp_swiftly_add_to_subgrid_2d(q.p, f.mem, o.mem, f0, f1, &st);
        if (st) c.fatal("status", "add_to_subgrid_2d failed with %d", (int) st);
        if (!f.unchanged() || !o.surround_unchanged()) c.fail("frame", "add_to_subgrid_2d wrote elsewhere");
        auto w = both(f.values(), q.m, [&](const V& v, int ax) { return ref.add_to_subgrid(v, V(xM), ax ? f1 : f0); });
        for (int64_t i = 0; i < xM; ++i) { V a = row(b, xM, xM, i); for (int64_t k = 0; k < xM; ++k) a[k] += w[i][k]; if (!same(c, "add_to_subgrid_2d", a, o, i, 30 * q.tol0 + 1e-13)) return; }
    }
    {
        Arr o = arr(r, xM, xM); o.snapshot(); const auto b = o.values();
        sdp_swiftly_finish_subgrid_inplace_2d(q.p, o.mem, s0, s1, &st);
        if (st) c.fatal("status", "finish_subgrid_inplace_2d failed with %d", (int) st);
        if (!o.surround_unchanged()) c.fail("frame", "finish_subgrid_inplace_2d wrote elsewhere");
        auto w = both(b, xM, [&](const V& v, int ax) { return ref.finish_subgrid(v, xM, ax ? s1 : s0); });
        for (int64_t i = 0; i < xM; ++i) if (!same(c, "finish_subgrid_inplace_2d", w[i], o, i, E)) return;
    }
    const double e2 = E * xM * xM * (1 + 1e-2 * (std::fabs((double) s0) + std::fabs((double) s1)));
    {
        Arr o = arr(r, xM, xM); o.snapshot(); const auto b = o.values();
        sdp_swiftly_prepare_subgrid_inplace_2d(q.p, o.mem, s0, s1, &st);
        if (st) c.fatal("status", "prepare_subgrid_inplace_2d failed with %d", (int) st);
        if (!o.surround_unchanged()) c.fail("frame", "prepare_subgrid_inplace_2d wrote elsewhere");
        auto w = both(b, xM, [&](const V& v, int ax) { return ref.prepare_subgrid(v, ax ? s1 : s0); });
        for (int64_t i = 0; i < xM; ++i) if (!same(c, "prepare_subgrid_inplace_2d", w[i], o, i, e2)) return;
    }
    {
        Arr f = arr(r, xM, xM), o = arr(r, q.m, q.m); f.snapshot(); o.snapshot();
        sdp_swiftly_extract_from_subgrid_2d(q.p, f.mem, o.mem, f0, f1, &st);
        if (st) c.fatal("status", "extract_from_subgrid_2d failed with %d", (int) st);
        if (!f.unchanged() || !o.surround_unchanged()) c.fail("frame", "extract_from_subgrid_2d wrote elsewhere");
        auto w = both(f.values(), xM, [&](const V& v, int ax) { return ref.extract_from_subgrid(v, ax ? f1 : f0); });
        for (int64_t i = 0; i < q.m; ++i) if (!same(c, "extract_from_subgrid_2d", w[i], o, i, E + 30 * q.tol0)) return;
    }
}

// Streams: facets covering the image to any subgrid, and back.
FAMILY(streams, 60, 1200)
{
    Rng& r = c.rng;
    // Contributions of at least 24 samples, so that the window fits.
    const int64_t Nx = r.i(2, 4), Ny = r.i(1, 4), m = 2 * r.i(14, 24) + (Ny % 2 == 0 && Nx % 2 == 0 ? r.i(0, 1) : 0);
    const int64_t N = Nx * Ny * m, yN = N / Nx, xM = N / Ny;
    const double W = r.pick({8., 9., 10.});
    Plan q(c, N, yN, xM, W);
    // Usable sizes: the facet up to 60% of its padded size.
    const int64_t fs = std::max<int64_t>(1, (int64_t) (yN * r.d(0.3, 0.6))), sa = std::max<int64_t>(1, xM - (int64_t) std::ceil(W * Nx) - 1);
    if (sa < 2) { c.trivial = true; return; }
    const double tol = 2e-4;
    c.note("facet=%d subgrid=%d", (int) fs, (int) sa); c.mix(r.s);
    sdp_Error st = SDP_SUCCESS;
    // Sparse image, cut into facets at multiples of Ny that together cover it.
    std::vector<cd> img(N);
    ld tot = 0;
    for (int k = (int) r.i(1, 6); k > 0; --k) img[r.i(0, N - 1)] = cd(r.d(-1, 1), r.d(-1, 1));
    for (auto& v : img) tot += std::abs(v);
    const int64_t so = q.Nx * r.i(-q.yN, q.yN);
    Arr sg(SDP_MEM_COMPLEX_DOUBLE, {1, xM}); sg.fill(0);
    std::vector<char> done(N, 0);
    const int64_t start = r.i(-N, N);
    for (int64_t a = 0; a < N;)
    {
        // Facet centred on a multiple of Ny, starting at or before image position start + a.
        const int64_t want = start + a + fs / 2;
        const int64_t fo = (want >= 0 ? want / q.Ny : -((-want + q.Ny - 1) / q.Ny)) * q.Ny;
        Arr f(SDP_MEM_COMPLEX_DOUBLE, {1, fs}); f.fill(0);
        int64_t upto = a;
        for (int64_t j = 0; j < fs; ++j)
        {
            const int64_t pos = fo + j - fs / 2, k = mod(pos + N / 2, N);
            if (!done[k]) { f.set(j, img[k]); done[k] = 1; }
            upto = std::max(upto, pos - start + 1);
        }
        if (upto <= a) { c.trivial = true; return; } // facet smaller than its step
        a = upto;
        Arr pf(SDP_MEM_COMPLEX_DOUBLE, {1, yN}), cb(SDP_MEM_COMPLEX_DOUBLE, {1, m});
        sdp_swiftly_prepare_facet(q.p, f.mem, pf.mem, fo, &st);
        sdp_swiftly_extract_from_facet(q.p, pf.mem, cb.mem, so, &st);
        sdp_swiftly_add_to_subgrid(q.p, cb.mem, sg.mem, fo, &st);
    }
    for (char d : done) if (!d) c.fatal("harness", "facets do not cover the image");
    Arr out(SDP_MEM_COMPLEX_DOUBLE, {1, sa});
    sdp_swiftly_finish_subgrid(q.p, sg.mem, out.mem, so, &st);
    if (st) c.fatal("status", "valid stream failed with %d", (int) st);
    double worst = 0;
    for (int64_t j = 0; j < sa; ++j)
    {
        cl sum = 0;
        for (int64_t k = 0; k < N; ++k) if (img[k] != cd(0)) sum += cl(img[k].real(), img[k].imag()) * cis(2 * PI_L * mod((k - N / 2) * (j - sa / 2 + so), N) / N) / (ld) N;
        const cd g = out({0, j});
        worst = std::max(worst, (double) (std::abs(sum - cl(g.real(), g.imag())) * N / tot));
        if (getenv("VH_ACC")) continue;
        char wh[60]; snprintf(wh, 60, "subgrid element %d of %d at %ld", (int) j, (int) sa, (long) so);
        if (!c.near_("facets_to_subgrid", g, cd((double) sum.real(), (double) sum.imag()), (double) tot / N * tol, wh)) return;
        c.count("subgrid_elements_compared");
    }
    if (getenv("VH_ACC")) fprintf(stderr, "ACC W=%g m=%ld f=%.2f %.3e\n", W, (long) m, (double) fs / yN, worst);
    // And back: one subgrid of samples to any facet.
    {
        Arr s(SDP_MEM_COMPLEX_DOUBLE, {1, xM}); s.fill(0);
        std::vector<cd> val(sa); ld t2 = 0;
        for (int64_t j = 0; j < sa; ++j) { if (r.b(0.4)) { val[j] = cd(r.d(-1, 1), r.d(-1, 1)); s.set(xM / 2 - sa / 2 + j, val[j]); } t2 += std::abs(val[j]); }
        if (t2 == 0) return;
        const int64_t fo = q.Ny * r.i(-q.xM, q.xM);
        Arr cb(SDP_MEM_COMPLEX_DOUBLE, {1, m}), pf(SDP_MEM_COMPLEX_DOUBLE, {1, yN}), f(SDP_MEM_COMPLEX_DOUBLE, {1, fs}); pf.fill(0);
        sdp_swiftly_prepare_subgrid_inplace(q.p, s.mem, so, &st);
        sdp_swiftly_extract_from_subgrid(q.p, s.mem, cb.mem, fo, &st);
        sdp_swiftly_add_to_facet(q.p, cb.mem, pf.mem, so, &st);
        sdp_swiftly_finish_facet(q.p, pf.mem, f.mem, fo, &st);
        if (st) c.fatal("status", "valid stream failed with %d", (int) st);
        worst = 0;
        for (int64_t k = 0; k < fs; ++k)
        {
            cl sum = 0;
            for (int64_t j = 0; j < sa; ++j) if (val[j] != cd(0)) sum += cl(val[j].real(), val[j].imag()) * cis(-2 * PI_L * mod((fo + k - fs / 2) * (j - sa / 2 + so), N) / N);
            const cd g = f({0, k});
            worst = std::max(worst, (double) (std::abs(sum - cl(g.real(), g.imag())) / t2));
            if (getenv("VH_ACC")) continue;
            char wh[60]; snprintf(wh, 60, "facet element %d of %d at %ld", (int) k, (int) fs, (long) fo);
            if (!c.near_("subgrid_to_facet", g, cd((double) sum.real(), (double) sum.imag()), (double) t2 * tol, wh)) return;
            c.count("facet_elements_compared");
        }
        if (getenv("VH_ACC")) fprintf(stderr, "ACCB W=%g m=%ld f=%.2f %.3e\n", W, (long) m, (double) fs / yN, worst);
    }
}

FAMILY(rejected_sizes, 200, 2000)
{
    Rng& r = c.rng;
    int64_t N = r.i(-4, 60), yN = r.i(-4, 60), xM = r.i(-4, 60);
    if (r.b(0.6)) { sizes(r, N, yN, xM); if (r.b(0.7)) (r.b() ? N : r.b() ? yN : xM) += r.i(-2, 2); }
    const bool ok = N > 0 && yN > 0 && xM > 0 && N % yN == 0 && N % xM == 0 && (xM * yN) % N == 0 && yN % 2 == 0 && xM % 2 == 0;
    c.note("N=%ld yN=%ld xM=%ld", (long) N, (long) yN, (long) xM); c.mix((uint64_t) N * 1000003 + yN * 1009 + xM);
    sdp_Error st = SDP_SUCCESS;
    sdp_SwiFTly* p = sdp_swiftly_create(N, yN, xM, 4, &st);
    if (!ok && (!st || p)) c.fail("accepted", "sizes that do not fit together accepted (status %d)", (int) st);
    if (ok && (st || !p)) c.fail("rejected", "valid sizes rejected (%d)", (int) st);
    c.count(ok ? "accepted" : "rejected");
    if (p) sdp_swiftly_free(p);
}
