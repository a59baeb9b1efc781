// No data races, no deadlocks: inside calls and between concurrent calls.
// ThreadSanitizer watches; the results have to be those of calls made alone.
#include "monitors.h"
#include <atomic>
#include <thread>
#include "ska-sdp-func/utility/sdp_logging.h"
#include "ska-sdp-func/utility/sdp_thread_support.h"
#include "ska-sdp-func/utility/sdp_timer.h"
using namespace reg;

namespace {
void shim_counts(Case& c)
{
    SchedStats s;
    vh_shim_stats(&s);
    c.count("parallel_regions", s.regions); c.count("chunks", s.chunks); c.count("criticals", s.criticals); c.count("atomics", s.atomics);
    c.mix(s.hash);
}
void inside(Case& c, const Entry& e)
{
    const uint64_t seed = c.rng.u64(), lseed = c.rng.u64();
    Call k(seed, lseed);
    k.big = c.rng.b(0.3) && !(e.flags & E_SLOW);
    k.layouts = c.rng.b(0.3);
    k.hostile = c.rng.b(0.25);
    k.tame = true;
    e.make(k);
    if (c.rng.b(0.15)) { Rng d(c.rng.u64()); damage(c, k, e, d); }
    describe(c, k);
    sdp_Error st = SDP_SUCCESS;
    vh_shim_config(c.rng.u64(), (int) c.rng.pick({2, 3, 4, 4, 8}), (int) c.rng.i(0, 2));
    k.run(&st);
    shim_counts(c);
    c.count(st ? "failed_calls" : "completed_calls");
}

struct Start // all threads at once
{
    std::atomic<int> n{0};
    void wait(int all) { n.fetch_add(1, std::memory_order_relaxed); while (n.load(std::memory_order_relaxed) < all) std::this_thread::yield(); }
};

// Different calls from different threads at the same time.
void together(Case& c, const Entry* fixed, bool share)
{
    const int num = (int) c.rng.i(2, 4), rounds = (int) c.rng.i(1, 3);
    struct Job { const Entry* e; uint64_t seed, lseed; bool lay, hostile; std::unique_ptr<Call> k; Results want; sdp_Error st = SDP_SUCCESS, got = SDP_SUCCESS; };
    std::vector<std::vector<Job>> jobs((size_t) num);
    auto make = [&](Job& j) { j.k.reset(new Call(j.seed, j.lseed)); j.k->layouts = j.lay; j.k->hostile = j.hostile; j.k->tame = true; j.k->use = share && !jobs[0].empty() && jobs[0][0].k ? &jobs[0][0].k->objects : nullptr; j.e->make(*j.k); };
    const uint64_t one = c.rng.u64(), onel = c.rng.u64();
    const bool lay1 = c.rng.b(0.3);
    vh_shim_config(1, 1, 0);
    for (int t = 0; t < num; ++t) for (int i = 0; i < rounds; ++i)
    {
        Job j;
        do j.e = (fixed && (share || c.rng.b(0.5))) ? fixed : &entries()[(size_t) c.rng.i(0, (int64_t) entries().size() - 1)]; while (j.e != fixed && ((j.e->flags & E_SLOW) || !strncmp(j.e->name, "sdp_mem_random", 14)));
        j.seed = share ? one : c.rng.u64(); j.lseed = share ? onel : c.rng.u64();
        j.lay = share ? lay1 : c.rng.b(0.3); j.hostile = share ? false : c.rng.b(0.2);
        make(j);
        // A call that reports an error: logging.
        j.k->run(&j.st);
        if (!(j.e->flags & E_RANDOM)) j.want = results(*j.k);
        j.k.reset(); // what it was made from
        make(j);
        c.note("%d:%s ", t, j.e->name); c.mix(j.seed);
        jobs[t].push_back(std::move(j));
    }
    if (share)
        // The same inputs for all, and the same plans.
        for (int t = 0; t < num; ++t) for (int i = 0; i < rounds; ++i) if (t || i)
        {
            Call& a = *jobs[t][i].k; Call& b = *jobs[0][0].k;
            c.count("shared_plans", a.objects.size());
            for (size_t x = 0; x < a.args.size() && x < b.args.size(); ++x) if (a.args[x]->role == IN && !a.args[x]->null && !b.args[x]->null) { a.args[x]->shared = b.args[x]->a.mem; c.count("shared_inputs"); }
        }
    vh_shim_config(c.rng.u64(), (int) c.rng.i(1, 3), (int) c.rng.i(0, 2));
    Start go;
    std::vector<std::thread> th;
    for (int t = 0; t < num; ++t) th.emplace_back([&, t] { go.wait(num); for (auto& j : jobs[t]) j.k->run(&j.got); });
    for (auto& t : th) t.join();
    c.count("concurrent_calls", (uint64_t) num * rounds);
    shim_counts(c);
    for (auto& tj : jobs) for (auto& j : tj)
    {
        if (j.got != j.st) { c.fail((std::string("status:") + j.e->name).c_str(), "status %d alone and %d among others", (int) j.st, (int) j.got); continue; }
        if (j.e->flags & E_RANDOM) continue;
        if (j.hostile && !(j.e->flags & E_EXACT)) continue;
        compare(c, (std::string("result:") + j.e->name).c_str(), *j.k, j.want, results(*j.k), j.e->flags & E_EXACT ? 0 : j.k->tol);
    }
}

void timers(Case& c)
{
    const int num = (int) c.rng.i(2, 6), rounds = (int) c.rng.i(1, 30);
    sdp_Timers* t = sdp_timers_create("all", SDP_TIMER_NATIVE, num);
    sdp_TimerNode* outer = sdp_timers_create_set(t, "outer", num, sdp_timers_root(t));
    sdp_timers_create_set(t, "inner", num, outer);
    sdp_timers_create_set(t, "next", num, outer);
    Start go;
    std::vector<std::thread> th;
    std::vector<std::string> bad((size_t) num);
    for (int i = 0; i < num; ++i) th.emplace_back([&, i] {
        go.wait(num);
        for (int r = 0; r < rounds; ++r)
        {
            sdp_TimerNode* n = sdp_timers_push(t, "outer", i, sdp_timers_root(t));
            sdp_TimerNode* a = sdp_timers_push(t, "inner", i, n);
            sdp_TimerNode* b = sdp_timers_pop_push(t, "next", i, a);
            sdp_TimerNode* up = sdp_timers_pop(t, i, b);
            if (n != up) bad[i] = "not back at the outer timer";
            if (sdp_timers_pop(t, i, up) != sdp_timers_root(t)) bad[i] = "not back at the root";
            sdp_Timer* own = sdp_timer_create(SDP_TIMER_NATIVE);
            sdp_timer_start(own); sdp_timer_pause(own);
            if (!(sdp_timer_elapsed(own) >= 0)) bad[i] = "negative time";
            sdp_timer_free(own);
        }
    });
    for (auto& x : th) x.join();
    for (auto& b : bad) if (!b.empty()) c.fail("timers", "%s", b.c_str());
    sdp_timers_report(t, "f", "x", 1);
    sdp_timers_free(t);
    c.count("timer_operations", (uint64_t) num * rounds * 5);
    c.mix((uint64_t) num); c.mix((uint64_t) rounds);
}

// The library's lock excludes: plain counters inside.
void mutexes(Case& c)
{
    const int num = (int) c.rng.i(2, 8), rounds = (int) c.rng.i(1, 200);
    sdp_Mutex* m = sdp_mutex_create();
    long count = 0, inside_now = 0, most = 0;
    Start go;
    std::vector<std::thread> th;
    for (int i = 0; i < num; ++i) th.emplace_back([&, i] {
        go.wait(num);
        for (int r = 0; r < rounds; ++r)
        {
            sdp_mutex_lock(m);
            ++inside_now; if (inside_now > most) most = inside_now;
            ++count;
            if ((r + i) % 7 == 0) std::this_thread::yield();
            --inside_now;
            sdp_mutex_unlock(m);
        }
    });
    for (auto& x : th) x.join();
    sdp_mutex_free(m);
    if (count != (long) num * rounds) c.fail("lost", "%ld of %ld increments", count, (long) num * rounds);
    if (most != 1) c.fail("excluded", "%ld threads inside at once", most);
    c.count("lock_sections", (uint64_t) count);
    c.mix((uint64_t) num); c.mix((uint64_t) rounds);
}

// Messages and changes of the log level from several threads.
void logging(Case& c)
{
    const int num = (int) c.rng.i(2, 6), rounds = (int) c.rng.i(1, 40);
    Start go;
    std::vector<std::thread> th;
    for (int i = 0; i < num; ++i) th.emplace_back([&, i] {
        go.wait(num);
        for (int r = 0; r < rounds; ++r)
        {
            SDP_LOG_ERROR("thread %d message %d", i, r);
            SDP_LOG_INFO("thread %d %s", i, "info");
            if (r % 5 == 4) { sdp_Error st = SDP_ERR_RUNTIME; const int64_t n = 3; sdp_Mem* m = sdp_mem_create((sdp_MemType) 12345, SDP_MEM_CPU, 1, &n, &st); sdp_mem_free(m); }
        }
    });
    for (auto& x : th) x.join();
    c.count("messages", (uint64_t) num * rounds * 2);
    c.mix((uint64_t) num); c.mix((uint64_t) rounds);
}
}
extern "C" void vh_register()
{
    each_entry("race_", 160, 3000, inside, E_THREADED);
    each_entry("race_", 30, 600, inside, 0, E_THREADED);
    each_entry("with_", 15, 400, [](Case& c, const Entry& e) { together(c, &e, false); });
    each_entry("share_", 12, 300, [](Case& c, const Entry& e) { together(c, &e, true); }, 0, E_THREADED);
    each_entry("share_", 24, 500, [](Case& c, const Entry& e) { together(c, &e, true); }, E_THREADED);
    add_family("timers", 150, 4000, timers);
    add_family("mutexes", 100, 4000, mutexes);
    add_family("logging", 150, 4000, logging);
}
