// Memory for arrays that cannot be had: each such request in turn fails.
#include "monitors.h"
#include <map>
#include <mutex>
#include <atomic>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" void __sanitizer_symbolize_pc(void*, const char*, char*, size_t);
extern "C" void* __real_calloc(size_t, size_t);
extern "C" void* __real_malloc(size_t);
using namespace reg;

namespace {
std::atomic<bool> armed{false};
std::atomic<int> seen{0}, fail_at{0}, failed{0};
const size_t LEAST = 1;
// Storage of arrays: what functions of sdp_mem other than those that make
// the handle ask for.
bool of_array(void* from)
{
    static std::mutex m;
    static std::map<void*, bool> known;
    std::lock_guard<std::mutex> g(m);
    auto i = known.find(from);
    if (i != known.end()) return i->second;
    char name[256] = {};
    __sanitizer_symbolize_pc(from, "%f", name, sizeof name);
    return known[from] = strstr(name, "sdp_mem") && !strstr(name, "wrapper");
}
bool refuse(size_t bytes, void* from)
{
    if (!armed || bytes < LEAST) return false;
    armed = false; // what is needed here is not of interest
    const bool of = of_array(from);
    armed = true;
    if (!of) return false;
    if (++seen != fail_at) return false;
    ++failed;
    return true;
}
}
extern "C" void* __wrap_calloc(size_t n, size_t size)
{
    if (refuse(n * size, __builtin_return_address(0))) return 0;
    return __real_calloc(n, size);
}
extern "C" void* __wrap_malloc(size_t size)
{
    if (refuse(size, __builtin_return_address(0))) return 0;
    return __real_malloc(size);
}

namespace {
void exhausted(Case& c, const Entry& e)
{
    const uint64_t seed = c.rng.u64(), lseed = c.rng.u64();
    sdp_Error st = SDP_SUCCESS;
    int requests = 0;
    auto once = [&](int at, bool check)
    {
        Call k(seed, lseed);
        e.make(k);
        for (auto& a : k.args) a->a.snapshot();
        st = SDP_SUCCESS;
        seen = 0; failed = 0; fail_at = at; armed = true;
        struct Off { ~Off() { armed = false; } } off;
        k.run(&st);
        armed = false;
        if (!at) requests = seen;
        if (!check) return;
        for (auto& a : k.args) if (!(a->role & OUT) && !a->a.unchanged()) c.fail((std::string("changed:") + a->name).c_str(), "%s was modified", a->name.c_str());
        if (failed)
        {
            c.count("requests_failed");
            if (!st) c.fail("unreported", "request %d of %d for memory failed and no error is reported", at, requests);
            else if (st != SDP_ERR_MEM_ALLOC_FAILURE) c.count("other_error");
        }
    };
    { Call k(seed, lseed); e.make(k); describe(c, k); }
    once(0, false);
    const sdp_Error first = st;
    c.count("valid_calls");
    if (requests == 0) { c.trivial = true; return; }
    c.count("requests", requests);
    const int tries = std::min(requests, 6);
    for (int t = 0; t < tries; ++t)
    {
        const int at = requests <= 6 ? t + 1 : (int) c.rng.i(1, requests);
        c.count("calls_with_failure");
        once(at, true);
        if (!c.rng.b(0.3)) continue;
        once(at, true);
        size_t grown = 0;
        for (int i = 0; i < 3; ++i)
        {
            const size_t before = __sanitizer_get_current_allocated_bytes();
            once(at, false);
            if (__sanitizer_get_current_allocated_bytes() > before) ++grown;
        }
        if (grown == 3) c.fail("kept", "memory in use grows at every failure (request %d of %d, status %d)", at, requests, (int) st);
    }
    // Nothing lasting.
    once(0, false);
    if (st != first) c.fail("lasting", "a valid call after the failures returned %d instead of %d", (int) st, (int) first);
}
}
extern "C" void vh_register() { each_entry("exhausted_", 30, 1000, exhausted, 0, 0, 20); }
