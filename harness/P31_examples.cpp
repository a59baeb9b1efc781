// Vector addition and the example plan.
#include "vh.h"
#include "ska-sdp-func/examples/sdp_vector_add.h"
#include "ska-sdp-func/examples/sdp_function_example_a.h"
using namespace vh;

FAMILY(vector_add, 3000, 60000)
{
    Rng& r = c.rng;
    const bool dbl = r.b();
    const int nd = (int) r.pick({1, 1, 1, 2, 3});
    std::vector<int64_t> shape;
    for (int k = 0; k < nd; ++k) shape.push_back(nd == 1 ? r.li(0, 5000) : r.i(0, 20));
    const sdp_MemType t = real_t(dbl);
    const int how = (int) r.pick({0, 0, 0, 0, 1, 2, 3}); // in place, or with one input twice
    Arr a(t, shape), b(t, shape), o(t, shape);
    for (auto x : {&a, &b, &o}) { x->fill_random(r); if (r.b(0.4)) x->spice(r); }
    if (a.n() && r.b(0.3)) for (int k = 0; k < 6; ++k) (r.b() ? a : b).set(r.i(0, a.n() - 1), r.pick({INFINITY + 0., -INFINITY + 0., NAN + 0., 1e300, 1e-310, -0., 1e38, 3e38, 1e-40}));
    const std::vector<cd> va = a.values(), vb = b.values();
    c.note("%s %s elements=%d aliasing=%d", type_name(t), a.str().c_str(), (int) a.n(), how); c.mix(r.s);
    sdp_Mem *ma = a.mem, *mb = how == 3 ? a.mem : b.mem, *mo = how == 1 ? a.mem : how == 2 ? b.mem : o.mem;
    if (mo != ma && mo != mb) { a.read_only(true); b.read_only(true); a.snapshot(); b.snapshot(); }
    sdp_Error st = SDP_SUCCESS;
    sdp_vector_add(ma, mb, mo, &st);
    if (a.n() == 0 && st) { c.trivial = true; return; } // no elements
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    if (!a.unchanged() || !b.unchanged()) c.fail("inputs_changed", "an input was modified");
    const Arr& res = how == 1 ? a : how == 2 ? b : o;
    for (int64_t k = 0; k < res.n(); ++k)
    {
        const double x = va[k].real(), y = how == 3 ? x : vb[k].real(), g = res.get(k).real();
        const double e = dbl ? x + y : (double) ((float) x + (float) y);
        if (g != e && !(std::isnan(g) && std::isnan(e))) c.fatal("sum", "element %lld of %lld: %.17g + %.17g gave %.17g", (long long) k, (long long) res.n(), x, y, g);
    }
    c.count("sums compared", res.n());
}

FAMILY(vector_add_invalid, 500, 8000)
{
    Rng& r = c.rng;
    const int what = (int) r.i(0, 6);
    const bool dbl = r.b();
    const int64_t n = r.i(2, 60);
    sdp_MemType t[3] = {real_t(dbl), real_t(dbl), real_t(dbl)};
    std::vector<int64_t> s[3] = {{n}, {n}, {n}};
    int lay[3] = {0, 0, 0};
    const int at = (int) r.i(0, 2);
    if (what == 0) t[at] = real_t(!dbl);
    else if (what == 1) t[at] = r.pick({SDP_MEM_INT, SDP_MEM_CHAR, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE});
    else if (what == 2) t[0] = t[1] = t[2] = r.pick({SDP_MEM_INT, SDP_MEM_CHAR, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE});
    else if (what == 3) s[at][0] += r.b() ? 1 : -1;
    else if (what == 4) { s[at] = {n, 2}; lay[at] = 0; }
    Arr x[3] = {Arr(t[0], s[0]), Arr(t[1], s[1]), Arr(t[2], s[2])};
    if (what == 6) { x[at] = Arr(t[at], s[at], L_STEP, &r); if (sdp_mem_is_c_contiguous(x[at].mem)) { c.trivial = true; return; } }
    for (auto& a : x) { a.fill_random(r); a.snapshot(); }
    if (what == 5) x[2].read_only(true);
    c.note("fault %d at argument %d elements=%d", what, at, (int) n); c.mix(what * 100 + at); c.mix(n);
    sdp_Error st = SDP_SUCCESS;
    sdp_vector_add(x[0].mem, x[1].mem, x[2].mem, &st);
    // A recorded finding: strides are ignored.
    if (!st) c.fail(what == 6 ? "strided" : "accepted", "invalid arguments were accepted");
    else for (auto& a : x) if (!a.unchanged()) c.fail("changed", "a failed call changed an array");
    c.count("rejections");
}

FAMILY(example_plan, 600, 12000)
{
    Rng& r = c.rng;
    const int a = (int) (r.b(0.1) ? r.i(0, 1) : r.i(0, 24)), b = (int) (r.b(0.1) ? r.i(0, 1) : r.i(0, 30));
    const float f = (float) r.pick({1., 0., -2.5, 0.1, 1e-3, 1e10, r.d(-5, 5)});
    c.note("a=%d b=%d c=%.9g", a, b, f); c.mix(a * 100 + b); c.mixd(f);
    sdp_Error st = SDP_SUCCESS;
    struct P { sdp_FunctionExampleA* p; ~P() { sdp_function_example_a_free_plan(p); } } p = {sdp_function_example_a_create_plan(a, b, f, &st)};
    if (a == 10)
    {
        if (!st || p.p) c.fail("ten", "the forbidden value of a was accepted");
        return;
    }
    if (st || !p.p) c.fatal("create", "valid parameters failed with %d", (int) st);
    for (int rep = 0; rep < 2; ++rep)
    {
        const int64_t need = (int64_t) a * b, n = need; // larger outputs: see below
        const std::vector<int64_t> shape = n == need && r.b() ? std::vector<int64_t>{a, b} : std::vector<int64_t>{n};
        Arr o(SDP_MEM_FLOAT, shape);
        o.fill_random(r); o.snapshot();
        const std::vector<cd> before = o.values();
        sdp_function_example_a_exec(p.p, o.mem, &st);
        if (n == 0) { st = SDP_SUCCESS; continue; }
        if (st) c.fatal("status", "valid call failed with %d", (int) st);
        double sum = 0, mag = 0;
        for (int64_t k = 0; k < n; ++k)
        {
            const double g = o.get(k).real();
            const bool extra = k >= need && g == before[k].real(); // elements beyond the result may stay
            if (!extra && !c.near_("value", g, sum, (k + 4) * 1.2e-7 * mag, "partial sum")) return;
            sum += (double) f * k; mag += std::fabs((double) f) * k;
        }
        c.count("values compared", n);
    }
    // Refused outputs.
    if (a * b > 1)
    {
        const int what = (int) r.i(0, 3);
        Arr o(what == 0 ? r.pick({SDP_MEM_DOUBLE, SDP_MEM_INT, SDP_MEM_COMPLEX_FLOAT}) : SDP_MEM_FLOAT, {what == 1 ? r.i(0, a * b - 1) : a * b}, what == 2 ? L_STEP : L_C, &r);
        if (what == 2 && sdp_mem_is_c_contiguous(o.mem)) return;
        if (what == 3) o.read_only(true);
        o.fill_random(r); o.snapshot();
        sdp_function_example_a_exec(p.p, o.mem, &st);
        // A recorded finding: strides are ignored.
        if (!st) c.fail(what == 2 ? "strided" : "accepted", "invalid output (fault %d) was accepted", what);
        else if (!o.unchanged()) c.fail("changed", "a failed call changed its output");
        c.count("rejections");
    }
}

// Recorded findings: the work area is overrun if the output is larger than it
// has to be, and does not exist if a size is negative.
FAMILY(example_plan_larger, 2, 6)
{
    Rng& r = c.rng;
    const int a = (int) r.i(1, 9), b = (int) r.i(1, 9);
    const int64_t n = a * b + r.i(64, 300);
    c.note("a=%d b=%d output=%d", a, b, (int) n); c.mix(a * 100 + b); c.mix(n);
    sdp_Error st = SDP_SUCCESS;
    struct P { sdp_FunctionExampleA* p; ~P() { sdp_function_example_a_free_plan(p); } } p = {sdp_function_example_a_create_plan(a, b, 1.f, &st)};
    Arr o(SDP_MEM_FLOAT, {n});
    sdp_function_example_a_exec(p.p, o.mem, &st);
    c.count("larger outputs");
}
FAMILY(example_plan_negative, 2, 6)
{
    Rng& r = c.rng;
    int a = (int) r.i(1, 9), b = (int) r.i(1, 9);
    (r.b() ? a : b) *= -1;
    c.note("a=%d b=%d", a, b); c.mix(a * 100 + b);
    sdp_Error st = SDP_SUCCESS;
    struct P { sdp_FunctionExampleA* p; ~P() { sdp_function_example_a_free_plan(p); } } p = {sdp_function_example_a_create_plan(a, b, 1.f, &st)};
    if (st) { if (p.p) c.fail("object", "an object was returned together with an error"); return; }
    Arr o(SDP_MEM_FLOAT, {r.i(1, 20)});
    sdp_function_example_a_exec(p.p, o.mem, &st);
    if (!st) c.fail("accepted", "negative sizes were accepted");
}
