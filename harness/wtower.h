// The w-tower kernel sum, written from its definition.
#pragma once
#include "oracle.h"
namespace wt {
using namespace orc;
enum Fit { IN, MAYBE, OUT };
struct Cell { int u, v, fu, fv, pw, fw; }; // first cell and fraction, per axis
struct Place
{
    bool selected = false;
    Fit fit = OUT;
    ld w = 0;
    std::vector<std::pair<int, int>> cu, cv, cw; // acceptable (cell, fraction)
    std::vector<Cell> cells() const
    {
        std::vector<Cell> o;
        for (auto& a : cu) for (auto& b : cv) for (auto& d : cw) o.push_back(Cell{a.first, b.first, a.second, b.second, d.first, d.second});
        return o;
    }
    bool near_plane(const Place& q) const
    {
        for (auto& a : cw) for (auto& b : q.cw) if (a.first == b.first) return true;
        return false;
    }
};
struct Par
{
    int N, image, s, ws, os, wos;
    double theta, w_step, hu, hv;
    std::vector<double> ku, kw; // [row][tap]
    static std::vector<double> kernel(int s, int os)
    {
        // Transform of the window sampled at s points.
        auto t = taper(s, s);
        std::vector<double> k((size_t) (os + 1) * s);
        for (int row = 0; row <= os; ++row) for (int j = 0; j < s; ++j)
        {
            const ld x = (j - (s / 2 - 1)) - (ld) row / os;
            ld v = 0;
            for (int i = 0; i < s; ++i) v += t[i] * cosl(2 * PI_L * x * (i - s / 2) / s);
            k[(size_t) row * s + j] = (double) (v / s);
        }
        return k;
    }
    static const std::vector<double>& cached(int s, int os)
    {
        static thread_local std::map<std::pair<int, int>, std::vector<double>> m;
        auto& k = m[std::make_pair(s, os)];
        if (k.empty()) k = kernel(s, os);
        return k;
    }
    double gain = 1; // largest sum of moduli of the weights of one visibility
    // Rounding, relative to the size of the terms: windows of large supports fall to
    // values so small that the transforms of their rounding errors count.
    double eps() const { return gain * 1e-12 * (s > 8 || ws > 8 ? 200 : 1) * (N > 24 ? 4 : 1); }
    void make()
    {
        ku = cached(s, os); kw = cached(ws, wos);
        auto most = [](const std::vector<double>& k, int n) { double m = 0; for (size_t a = 0; a + n <= k.size(); a += n) { double t = 0; for (int j = 0; j < n; ++j) t += std::fabs(k[a + j]); m = std::max(m, t); } return m; };
        const double gu = most(ku, s), gw = most(kw, ws);
        gain = std::max(1.0, gu * gu * gw);
    }
    // Cells on a (u, v) axis: the position is rounded to 1/os of a cell.
    static std::vector<std::pair<int, int>> axis(ld x, int os)
    {
        std::vector<std::pair<int, int>> o;
        const ld t = x * os, eps = 1e-9L * os + 1e-12L * fabsl(t);
        for (ld q : {t - eps, t + eps})
        {
            const int64_t k = (int64_t) floorl(q + 0.5L);
            const int64_t cell = k >= 0 ? k / os : -((-k + os - 1) / os);
            const std::pair<int, int> c((int) cell, (int) (k - cell * os));
            if (o.empty() || o[0] != c) o.push_back(c);
        }
        return o;
    }
    // u, v in cells and w in planes, relative to the centre of the sub-grid.
    void place(Place& p, ld u, ld v, ld w) const
    {
        p.w = w;
        p.cu = axis(u, os); p.cv = axis(v, os);
        // Planes: the one below the position (or, on a plane, either).
        const ld eps = 1e-9L;
        for (ld q : {w - eps, w + eps})
        {
            const int pl = (int) floorl(q);
            for (ld z : {w - eps / 2, w + eps / 2})
            {
                int64_t f = (int64_t) floorl((z - pl) * wos + 0.5L);
                f = std::min<int64_t>(std::max<int64_t>(f, 0), wos);
                const std::pair<int, int> c(pl, (int) f);
                if (std::find(p.cw.begin(), p.cw.end(), c) == p.cw.end()) p.cw.push_back(c);
            }
        }
        // Does the kernel fit?
        auto fits = [&](int cell) { const int a = cell + N / 2 - s / 2 + 1; return a >= 0 && a + s <= N; };
        bool all = true, any = true;
        for (auto* ax : {&p.cu, &p.cv})
        {
            bool al = true, an = false;
            for (auto& c : *ax) { if (fits(c.first)) an = true; else al = false; }
            all = all && al; any = any && an;
        }
        p.fit = all ? IN : any ? MAYBE : OUT;
        // Coordinates too close to the border are tested with rounding outwards.
        const ld lim = N / 2;
        if (p.fit == IN && (ceill(u + 1e-9L) >= lim || ceill(v + 1e-9L) >= lim || floorl(u - 1e-9L) < -lim || floorl(v - 1e-9L) < -lim)) p.fit = MAYBE;
        if (p.fit == MAYBE)
        {
            std::vector<std::pair<int, int>> a, b;
            for (auto& c : p.cu) if (fits(c.first)) a.push_back(c);
            for (auto& c : p.cv) if (fits(c.first)) b.push_back(c);
            p.cu = a; p.cv = b;
        }
    }
};
// Transforms of the sub-grid image multiplied by powers of the w pattern.
struct Planes
{
    const Par& p;
    std::vector<cl> img;
    std::map<int, std::vector<cl>> f;
    std::vector<cl> tw;
    std::vector<ld> nn;
    void init()
    {
        const int N = p.N;
        tw.resize(N); for (int k = 0; k < N; ++k) tw[k] = cis(-2 * PI_L * k / N);
        nn.resize((size_t) N * N);
        for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b)
            nn[(size_t) a * N + b] = n_of((a - N / 2) * (ld) p.theta / N, (b - N / 2) * (ld) p.theta / N, p.hu, p.hv);
    }
    Planes(const Par& p_) : p(p_) { init(); }
    Planes(const Par& p_, const std::vector<cd>& im) : p(p_) { init(); for (auto& v : im) img.push_back(cl(v.real(), v.imag())); }
    // Centred transform (sign -1: forward).
    std::vector<cl> dft2(const std::vector<cl>& in, bool fwd) const
    {
        const int N = p.N;
        std::vector<cl> t((size_t) N * N), o((size_t) N * N);
        auto w = [&](int a, int b) { int64_t k = ((int64_t) (a - N / 2) * (b - N / 2)) % N; if (k < 0) k += N; return fwd ? tw[k] : std::conj(tw[k]); };
        for (int a = 0; a < N; ++a)
        {
            bool any = false; for (int b = 0; b < N; ++b) any = any || in[(size_t) a * N + b] != cl(0);
            if (!any) continue;
            for (int V = 0; V < N; ++V) { cl s = 0; for (int b = 0; b < N; ++b) s += in[(size_t) a * N + b] * w(V, b); t[(size_t) a * N + V] = s; }
        }
        for (int U = 0; U < N; ++U) for (int V = 0; V < N; ++V) { cl s = 0; for (int a = 0; a < N; ++a) s += t[(size_t) a * N + V] * w(U, a); o[(size_t) U * N + V] = s; }
        return o;
    }
    const std::vector<cl>& plane(int k)
    {
        auto it = f.find(k);
        if (it != f.end()) return it->second;
        std::vector<cl> t(img.size());
        for (size_t j = 0; j < t.size(); ++j) t[j] = img[j] == cl(0) ? cl(0) : img[j] * cis(-2 * PI_L * nn[j] * (ld) p.w_step * (ld) k);
        return f[k] = dft2(t, true);
    }
    template<class F> void taps(const Cell& c, F fn)
    {
        const int N = p.N, s = p.s, ws = p.ws;
        for (int iw = 0; iw < ws; ++iw)
            for (int iu = 0; iu < s; ++iu) for (int iv = 0; iv < s; ++iv)
                fn(c.pw + iw - (ws / 2 - 1), c.u + iu + N / 2 - s / 2 + 1, c.v + iv + N / 2 - s / 2 + 1,
                        (ld) p.kw[(size_t) c.fw * ws + iw] * (ld) p.ku[(size_t) c.fu * s + iu] * (ld) p.ku[(size_t) c.fv * s + iv]);
    }
    cl value(const Cell& c)
    {
        cl sum = 0; int last = 1 << 30; const std::vector<cl>* pl = 0;
        taps(c, [&](int k, int U, int V, ld wgt) { if (k != last) { pl = &plane(k); last = k; } sum += wgt * (*pl)[(size_t) U * p.N + V]; });
        return sum;
    }
    void add(const Cell& c, cd v)
    {
        taps(c, [&](int k, int U, int V, ld wgt) { auto& a = f[k]; if (a.empty()) a.assign((size_t) p.N * p.N, cl(0)); a[(size_t) U * p.N + V] += wgt * cl(v.real(), v.imag()); });
    }
    std::vector<cl> image() const
    {
        std::vector<cl> o((size_t) p.N * p.N, cl(0));
        for (auto& k : f)
        {
            auto t = dft2(k.second, false);
            for (size_t j = 0; j < o.size(); ++j) o[j] += t[j] * cis(2 * PI_L * nn[j] * (ld) p.w_step * (ld) k.first);
        }
        return o;
    }
};
// Accuracy expected, relative to the sum of the moduli.
inline double accuracy(int support, double frac)
{
    (void) frac;
    return support >= 10 ? 6e-4 : support >= 8 ? 4e-3 : 3e-2;
}
} // namespace wt
