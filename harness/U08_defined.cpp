// Results depend only on what was passed: memcheck watches every decision the
// library takes and every value it hands back for traces of memory nobody
// wrote.  Run under valgrind; outputs that are only written start undefined.
#include "monitors.h"
#include <valgrind/memcheck.h>
using namespace reg;

namespace {
void defined(Case& c, const Entry& e)
{
    if (!RUNNING_ON_VALGRIND) c.fatal("harness", "not run under valgrind");
    Call k(c.rng.u64(), c.rng.u64());
    k.hostile = c.rng.b(0.5);
    k.layouts = c.rng.b(0.7);
    k.big = c.rng.b(0.2);
    e.make(k);
    if (c.rng.b(0.3)) damage(c, k, e, c.rng);
    describe(c, k);
    for (auto& a : k.args) if (a->role == OUT && !a->partial && !(e.flags & E_CREATE) && !a->null)
        for (int64_t f = 0; f < a->a.n(); ++f) VALGRIND_MAKE_MEM_UNDEFINED(a->a.at(f), a->a.esize());
    sdp_Error st = SDP_SUCCESS;
    const unsigned before = VALGRIND_COUNT_ERRORS;
    k.run(&st);
    const unsigned after = VALGRIND_COUNT_ERRORS;
    c.count("calls");
    c.count(st ? "rejected" : "completed");
    if (after != before) c.fail("undefined-used", "%u decisions, addresses or system calls depended on memory that was never written", after - before);
    VALGRIND_DISABLE_ERROR_REPORTING;
    for (auto& a : k.args)
    {
        if (a->null || !(a->role & OUT)) continue;
        if (!st)
        {
            for (int64_t f = 0; f < a->a.n(); ++f)
                if (VALGRIND_CHECK_MEM_IS_DEFINED(a->a.at(f), a->a.esize()))
                {
                    c.fail((std::string("undefined-result:") + a->name).c_str(), "%s[%lld] depends on memory that was never written", a->name.c_str(), (long long) f);
                    break;
                }
            c.count("values_watched", a->a.n());
        }
        for (int64_t f = 0; f < a->a.n(); ++f) VALGRIND_MAKE_MEM_DEFINED(a->a.at(f), a->a.esize());
    }
    if (!st) for (size_t i = 0; i < k.out.size(); ++i)
    {
        if (VALGRIND_CHECK_MEM_IS_DEFINED(&k.out[i], sizeof(double))) c.fail("undefined-result", "result %zu depends on memory that was never written", i);
        VALGRIND_MAKE_MEM_DEFINED(&k.out[i], sizeof(double));
    }
    VALGRIND_ENABLE_ERROR_REPORTING;
}
}
extern "C" void vh_register() { each_entry("defined_", 120, 4000, defined, 0, 0, 60); }
