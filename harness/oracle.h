// Independent reference definitions shared by the gridding monitors.
#pragma once
#include "vh.h"
namespace orc {
typedef long double ld;
typedef std::complex<ld> cl;
static const ld PI_L = 3.14159265358979323846264338327950288L;
static const ld C0 = 299792458.0L;

inline cl cis(ld p) { return cl(cosl(p), sinl(p)); }

// Direction cosine n (less one) of the point (l, m), for sheared coordinates.
inline ld n_of(ld l, ld m, ld hu, ld hv)
{
    // Solve |(l, m, n + 1) sheared|: the smaller root of
    // (1 + hu^2 + hv^2) n^2 - 2 (hu l + hv m - 1) n + l^2 + m^2 = 0.
    const ld a = 1 + hu * hu + hv * hv, b = hu * l + hv * m - 1, r2 = l * l + m * m;
    // n = (b + sqrt(b^2 - a r2)) / a, written to avoid cancellation (b < 0).
    const ld s = sqrtl(b * b - a * r2);
    return b < 0 ? r2 / (b - s) : (b + s) / a;
}

// Prolate spheroidal wave function S_mm(c, x), as the ground state of the
// differential operator in a basis of normalised associated Legendre functions.
struct Pswf
{
    int m; ld c;
    std::vector<ld> v; // coefficients for l = m, m + 2, ...
    ld scale, chi;
    static ld al(int l, int m) { return l <= m ? 0 : sqrtl(((ld) l * l - (ld) m * m) / (4.0L * l * l - 1)); }
    Pswf(int m_, ld c_) : m(m_), c(c_)
    {
        const int N = 40 + (int) (1.2L * c);
        std::vector<ld> d(N), e(N);
        for (int k = 0; k < N; ++k)
        {
            const int l = m + 2 * k;
            const ld a0 = al(l, m), a1 = al(l + 1, m), a2 = al(l + 2, m);
            d[k] = (ld) l * (l + 1) + c * c * (a0 * a0 + a1 * a1);
            e[k] = c * c * a1 * a2; // couples k and k + 1
        }
        // Smallest eigenvalue by bisection on the Sturm count.
        ld lo = (ld) m * (m + 1) - 1, hi = (ld) m * (m + 1) + c * c + 1;
        for (int it = 0; it < 200; ++it)
        {
            const ld x = (lo + hi) / 2;
            int neg = 0; ld q = 1;
            for (int k = 0; k < N; ++k)
            {
                q = d[k] - x - (k ? e[k - 1] * e[k - 1] / q : 0);
                if (q == 0) q = 1e-30L;
                if (q < 0) ++neg;
            }
            if (neg > 0) hi = x; else lo = x;
        }
        chi = (lo + hi) / 2;
        // Eigenvector by inverse iteration.
        v.assign(N, 1.0L);
        const ld sh = chi - 1e-13L * (fabsl(chi) + 1);
        for (int it = 0; it < 12; ++it)
        {
            std::vector<ld> cp(N), dp(N);
            for (int k = 0; k < N; ++k)
            {
                const ld den = d[k] - sh - (k ? e[k - 1] * cp[k - 1] : 0);
                cp[k] = e[k] / den;
                dp[k] = (v[k] - (k ? e[k - 1] * dp[k - 1] : 0)) / den;
            }
            ld nn = 0;
            for (int k = N - 1; k >= 0; --k) { v[k] = dp[k] - (k < N - 1 ? cp[k] * v[k + 1] : 0); nn += v[k] * v[k]; }
            nn = sqrtl(nn);
            for (auto& x : v) x /= nn;
        }
        scale = 1;
        ld s0 = 1; for (int k = 1; k < m; ++k) s0 *= 2 * k + 1; // (2m - 1)!!
        scale = s0 / (*this)(0);
    }
    ld operator()(ld x) const
    {
        // Normalised associated Legendre functions by upward recurrence.
        ld p0 = sqrtl(0.5L);
        for (int k = 1; k <= m; ++k) p0 *= sqrtl((2 * k + 1.0L) / (2.0L * k)) * sqrtl(1 - x * x);
        ld pm = 0, p = p0, sum = v[0] * p;
        for (int l = m + 1; l < m + 2 * (int) v.size() - 1; ++l)
        {
            const ld q = (x * p - al(l - 1, m) * pm) / al(l, m);
            pm = p; p = q;
            if ((l - m) % 2 == 0) sum += v[(l - m) / 2] * p;
        }
        return sum * scale;
    }
};
inline const Pswf& pswf(int m, double c)
{
    static thread_local std::map<std::pair<int, double>, std::unique_ptr<Pswf>> cache;
    auto& p = cache[std::make_pair(m, c)];
    if (!p) p.reset(new Pswf(m, c));
    return *p;
}
// Absolute accuracy expected of computed values of S_0(c, x) (maximum 1): the
// power series used for them loses digits as c increases.
inline double pswf_tol(double c)
{
    static const double t[][2] = {{0, 5e-15}, {8, 2e-14}, {12, 2e-13}, {16, 2e-12}, {21, 2e-10}, {26, 5e-9}, {32, 5e-8}, {42, 1e-6}, {52, 1e-5}, {1e9, 1}};
    int k = 0; while (t[k + 1][0] < c) ++k;
    return t[k + 1][1];
}
// Window of a (sub)grid image: samples at 2 (i - size/2) / size; for even
// sizes the first sample (at -1) is replaced by a small number.
inline std::vector<ld> taper(int size, int support, double c_scale = 0)
{
    const double c = c_scale != 0 ? c_scale : support * (M_PI / 2);
    const Pswf& s = pswf(0, c);
    std::vector<ld> t(size);
    for (int i = 0; i < size; ++i) t[i] = i == 0 && size % 2 == 0 ? 1e-15L : s(2.0L * (i - size / 2) / size);
    return t;
}
} // namespace orc
