// Any number of threads and any schedule: the same results.
#include "monitors.h"
using namespace reg;

namespace {
void schedules(Case& c, const Entry& e)
{
    const uint64_t seed = c.rng.u64(), lseed = c.rng.u64();
    const bool big = c.rng.b(0.3) && !(e.flags & E_SLOW), lay = c.rng.b(0.3), hostile = c.rng.b(0.1);
    auto setup = [&](Call& k) { k.big = big; k.layouts = lay; k.hostile = hostile; e.make(k); };
    Call ref(seed, lseed);
    setup(ref);
    describe(c, ref);
    sdp_Error st = SDP_SUCCESS;
    vh_shim_config(1, 1, 0);
    ref.run(&st);
    if (st && !hostile && !(e.flags & E_FAILS) && !ref.may_fail) c.fatal("valid_call", "a valid call returned %d", (int) st);
    const Results want = results(ref);
    SchedStats s;
    vh_shim_stats(&s);
    const bool alone = s.max_team <= 1; // functions may set the number of threads themselves
    const int runs = (e.flags & E_SLOW) ? 2 : 4;
    std::set<uint64_t> seen;
    for (int i = 0; i < runs; ++i)
    {
        // The last one repeats the call with one thread.
        const int threads = i == runs - 1 ? 1 : (int) (c.rng.b(0.06) ? c.rng.i(17, 80) : c.rng.pick({2, 3, 4, 5, 7, 8, 16}));
        Call k(seed, lseed);
        setup(k);
        sdp_Error s2 = SDP_SUCCESS;
        vh_shim_config(c.rng.u64(), threads, (int) c.rng.i(1, 3));
        k.run(&s2);
        vh_shim_stats(&s);
        seen.insert(s.hash);
        c.count("calls");
        c.count("parallel_regions", s.regions); c.count("chunks", s.chunks); c.count("criticals", s.criticals); c.count("atomics", s.atomics);
        if (s2 != st) c.fatal("status", "status %d with one thread and %d with %d", (int) st, (int) s2, threads);
        // With undefined and extreme values in the data rounding has no scale.
        if (hostile && !(e.flags & E_EXACT) && threads > 1) continue;
        const double tol = (e.flags & E_EXACT) || (threads == 1 && alone) ? 0 : k.tol;
        if (!compare(c, threads == 1 ? "repeat" : "threads", k, want, results(k), tol)) { c.note(" threads=%d", threads); return; }
    }
    c.count("distinct_schedules", seen.size());
    if (alone) c.count("single_threaded_references");
}
void repeats(Case& c, const Entry& e)
{
    const uint64_t seed = c.rng.u64(), lseed = c.rng.u64();
    const bool lay = c.rng.b(0.5), hostile = c.rng.b(0.3);
    Results want; sdp_Error first = SDP_SUCCESS;
    Rng other(c.rng.u64());
    vh_shim_config(1, 4, 0);
    for (int i = 0; i < 3; ++i)
    {
        Call k(seed, lseed);
        k.layouts = lay; k.hostile = hostile;
        e.make(k);
        if (!i) describe(c, k);
        // Leave other traces in memory each time.
        std::vector<void*> junk;
        for (int j = 0; j < 20; ++j) { const size_t n = (size_t) c.rng.li(16, 20000); void* p = malloc(n); memset(p, (int) c.rng.i(0, 255), n); junk.push_back(p); }
        for (void* p : junk) free(p);
        // What other calls leave behind has no effect either.
        for (int j = i ? (int) other.i(0, 2) : 0; j > 0; --j)
        {
            Call o(other.u64(), other.u64());
            e.make(o);
            sdp_Error st = SDP_SUCCESS;
            o.run(&st);
            c.count("calls_between");
        }
        sdp_Error st = SDP_SUCCESS;
        k.run(&st);
        c.count("calls");
        if (!i) { want = results(k); first = st; continue; }
        if (st != first) c.fatal("status", "status %d, then %d for the same call", (int) first, (int) st);
        if (!compare(c, "repeat", k, want, results(k), 0)) return;
    }
}
}
extern "C" void vh_register()
{
    each_entry("threads_", 500, 8000, schedules, E_THREADED);
    // Nothing here has threads of its own today.
    each_entry("threads_", 60, 1500, schedules, 0, E_THREADED | E_RANDOM | E_CREATE);
    each_entry("repeat_", 300, 8000, repeats, 0, E_THREADED | E_RANDOM);
}
