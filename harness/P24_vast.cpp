// Gridder helpers with very large arrays (built without sanitizers: they take too long with).
#include "oracle.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
using namespace vh;
using namespace orc;
static const sdp_MemType RD = SDP_MEM_DOUBLE, RF = SDP_MEM_FLOAT;

// More elements than a 32-bit number counts, all of a row or of everything the same number in memory.
FAMILY(vast, 3, 12)
{
    Rng& r = c.rng;
    const int kind = (int) (c.idx % 3);
    const int64_t n0 = kind == 2 ? (1ll << 31) + r.i(1, 1000) : r.i(46341, 47000), n1 = kind == 2 ? 1 : r.i(46341, 47000);
    const sdp_MemType t = kind == 2 ? SDP_MEM_INT : r.pick({RF, RD});
    std::vector<unsigned char> row_a((size_t) n1 * 8, 0), row_b((size_t) n1 * 8, 0);
    ld ss = 0; int64_t nz = 0;
    double d = 0;
    for (int64_t k = 0; k < n1; ++k)
    {
        const double x = kind == 2 ? r.i(-5, 5) : r.b() ? 0 : (float) r.d(-1, 1), y = kind == 2 ? x + r.i(1, 9) : (float) r.d(-1, 1);
        if (t == RF) { ((float*) row_a.data())[k] = (float) x; ((float*) row_b.data())[k] = (float) y; }
        else if (t == RD) { ((double*) row_a.data())[k] = x; ((double*) row_b.data())[k] = y; }
        else { ((int*) row_a.data())[k] = (int) x; ((int*) row_b.data())[k] = (int) y; d = x - y; }
        const ld e = t == RF ? (ld) ((float) x - (float) y) : (ld) x - y;
        ss += e * e; nz += x != 0;
    }
    const int64_t sh[] = {n0, n1}, st[] = {0, (int64_t) type_size(t)};
    sdp_Error s = SDP_SUCCESS;
    struct H { sdp_Mem* m; ~H() { sdp_mem_free(m); } } a = {sdp_mem_create_wrapper(row_a.data(), t, SDP_MEM_CPU, kind == 2 ? 1 : 2, sh, st, &s)},
        b = {sdp_mem_create_wrapper(row_b.data(), t, SDP_MEM_CPU, kind == 2 ? 1 : 2, sh, st, &s)};
    if (s) c.fatal("status", "status %d", (int) s);
    sdp_mem_set_read_only(a.m, 1); sdp_mem_set_read_only(b.m, 1);
    c.note("%lldx%lld %s", (long long) n0, (long long) n1, type_name(t)); c.mix(r.s);
    if (kind == 0)
    {
        const double rms = sdp_gridder_rms_diff(a.m, b.m, &s), want = (double) sqrtl(ss / n1);
        if (s) c.fatal("status", "valid call failed with %d", (int) s);
        c.near_("rms", rms, want, want * 1e-5); // sums of so many terms
    }
    else if (kind == 1)
    {
        const int64_t got = sdp_gridder_count_nonzero_pixels(a.m, &s);
        if (s || got != nz * n0) c.fatal("count", "got %lld expected %lld", (long long) got, (long long) (nz * n0));
    }
    else
    {
        int64_t res = 7;
        const int64_t lo = r.b() ? -1 : r.i(0, 1000), hi = lo < 0 ? -1 : n0 - r.i(0, 1000);
        sdp_gridder_sum_diff(a.m, b.m, &res, lo, hi, &s);
        const int64_t want = (int64_t) d * (lo < 0 ? n0 : hi - lo);
        if (s || res != want) c.fatal("sum_diff", "got %lld expected %lld", (long long) res, (long long) want);
    }
    c.count("vast_arrays");
}
