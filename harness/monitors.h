// What is common to the monitors that run every registered function.
#pragma once
#include <list>
#include "reg.h"
#include "ska-sdp-func/utility/sdp_errors.h"

namespace reg {
inline void each_entry(const char* prefix, int64_t quick, int64_t thorough, std::function<void(Case&, const Entry&)> fn, int need = 0, int never = 0, int timeout = 120)
{
    for (auto& e : entries())
    {
        if ((e.flags & need) != need || (e.flags & never)) continue;
        const bool slow = e.flags & E_SLOW;
        const Entry* p = &e;
        static std::list<std::string> names;
        names.push_back(std::string(prefix) + e.name);
        add_family(names.back().c_str(), slow ? std::max<int64_t>(1, quick / 4) : quick, slow ? std::max<int64_t>(1, thorough / 4) : thorough, [p, fn](Case& c) { fn(c, *p); }, timeout);
    }
}
inline void snapshot(Call& k) { for (auto& a : k.args) a->a.snapshot(); }
// Rebuild every array as it was made.
inline void rebuild(Call& k) { for (auto& a : k.args) a->build(a->type, a->shape, a->a.mem ? 0 : 0, k.lr); }
inline std::string shape_str(const std::vector<int64_t>& s)
{
    std::string o = "["; for (size_t j = 0; j < s.size(); ++j) o += (j ? "," : "") + std::to_string(s[j]);
    return o + "]";
}
inline void describe(Case& c, Call& k)
{
    for (auto& a : k.args) { c.note("%s:%s%s/%s ", a->name.c_str(), type_name(a->a.type), shape_str(a->a.shape).c_str(), a->null ? "null" : a->a.str().c_str()); for (auto s : a->a.shape) c.mix((uint64_t) s); c.mix(a->a.type); }
    for (double d : k.ds) { c.note("%.9g ", d); c.mixd(d); }
    for (int64_t i : k.is) { c.note("%lld ", (long long) i); c.mix((uint64_t) i); }
    c.mix(k.r.s);
}
// All results of a call, array by array, and the scalars.
typedef std::vector<std::vector<cd>> Results;
inline Results results(Call& k)
{
    Results r;
    for (auto& a : k.args) if (a->role & OUT) r.push_back(a->a.values());
    std::vector<cd> s; for (double d : k.out) s.push_back(d);
    r.push_back(s);
    return r;
}
inline bool same(double x, double y, double tol)
{
    if (std::isnan(x) || std::isnan(y)) return std::isnan(x) && std::isnan(y);
    if (x == y) return true;
    return std::fabs(x - y) <= tol;
}
// Compare; tol 0 means identical.
inline bool compare(Case& c, const char* label, Call& k, const Results& a, const Results& b, double tol)
{
    std::vector<std::string> names;
    std::vector<Arg*> arg;
    for (auto& g : k.args) if (g->role & OUT) { names.push_back(g->name); arg.push_back(g.get()); }
    names.push_back("result");
    for (size_t j = 0; j < a.size(); ++j)
    {
        if (a[j].size() != b[j].size()) { c.fail(label, "%s: %zu values against %zu", names[j].c_str(), b[j].size(), a[j].size()); return false; }
        double mx = 0;
        // Outside an image's edge values have no meaning, nor a scale.
        auto outside = [&](size_t i)
        {
            if (j >= arg.size() || arg[j]->edge == 0) return false;
            const int64_t n0 = arg[j]->a.shape[0], n1 = arg[j]->a.shape[1], y = (int64_t) i / n1, x = (int64_t) i % n1;
            const double e0 = arg[j]->edge * n0, e1 = arg[j]->edge * n1;
            return y < e0 || x < e1 || y > n0 - e0 || x > n1 - e1;
        };
        for (size_t i = 0; i < a[j].size(); ++i) { if (outside(i)) continue; const cd v = a[j][i]; if (std::isfinite(v.real())) mx = std::max(mx, std::fabs(v.real())); if (std::isfinite(v.imag())) mx = std::max(mx, std::fabs(v.imag())); }
        for (size_t i = 0; i < a[j].size(); ++i)
        {
            if (outside(i)) continue;
            if (same(a[j][i].real(), b[j][i].real(), tol * mx) && same(a[j][i].imag(), b[j][i].imag(), tol * mx)) continue;
            c.fail(label, "%s[%zu]: (%.17g,%.17g) against (%.17g,%.17g)", names[j].c_str(), i, b[j][i].real(), b[j][i].imag(), a[j][i].real(), a[j][i].imag());
            return false;
        }
        c.count("values_compared", a[j].size());
    }
    return true;
}
// Replace an array by one that does not fit the others.
inline std::string mutate(Call& k, Arg& a, Rng& rng)
{
    const sdp_MemType types[] = {SDP_MEM_CHAR, SDP_MEM_INT, SDP_MEM_FLOAT, SDP_MEM_DOUBLE, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE};
    std::vector<int64_t> s = a.shape;
    sdp_MemType t = a.type;
    std::string what;
    const int n = (int) rng.i(1, 2);
    for (int j = 0; j < n; ++j) switch (rng.i(0, 6))
    {
    case 0: case 1: case 2:
    {
        const size_t d = (size_t) rng.i(0, (int64_t) s.size() - 1);
        if (s.empty()) break;
        s[d] = rng.pick<int64_t>({0, 1, s[d] + 1, std::max<int64_t>(0, s[d] - 1), s[d] / 2, s[d] * 2, s[d] + 7});
        what += "size "; break;
    }
    case 3: if (s.size() > 1) { s.erase(s.begin() + rng.i(0, (int64_t) s.size() - 1)); what += "fewer "; } break;
    case 4: if (s.size() < MAXDIM) { s.insert(s.begin() + rng.i(0, (int64_t) s.size()), rng.i(1, 2)); what += "more "; } break;
    case 5: t = types[rng.i(0, 5)]; what += "type "; break;
    case 6: if (s.size() > 1) { std::swap(s[0], s[rng.i(1, (int64_t) s.size() - 1)]); what += "swap "; } break;
    }
    int64_t total = 1; for (auto v : s) total *= v;
    if (total > 2000000) return "";
    const int lay = total == 0 || (a.contiguous && (a.free_faults & F_CONT)) ? (int) L_C : k.layouts ? (int) rng.pick({0, 0, 1, 2, 3, 4, 5, 6, 7}) : (int) L_C;
    a.build(t, s, lay, k.lr, k.hostile);
    return what;
}
// Arrays that do not fit the others, and sizes a little wrong.
inline void damage(Case& c, Call& k, const Entry& e, Rng& rng)
{
    if (!(e.flags & E_AS_IS) && !k.args.empty() && rng.b(0.7))
    {
        const int n = (int) rng.pick({1, 1, 1, 2, 3});
        for (int j = 0; j < n; ++j)
        {
            Arg& a = *k.args[rng.i(0, (int64_t) k.args.size() - 1)];
            if (a.null) continue;
            const std::string w = mutate(k, a, rng);
            if (!w.empty()) { c.count("mismatched_arrays"); c.note("%s:%s", a.name.c_str(), w.c_str()); }
        }
    }
    // As a caller would who mistakes a size or an offset by a little.
    if (!(e.flags & E_AS_IS) && !k.is.empty() && rng.b(0.3))
    {
        int64_t& v = k.is[(size_t) rng.i(0, (int64_t) k.is.size() - 1)];
        if (std::abs(v) < 1000000) v += rng.pick<int64_t>({-1, 1, 2, -2, 3});
        c.count("mistaken_sizes");
    }
}
} // namespace reg
