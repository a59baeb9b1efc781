// Whatever is passed: an error, or completion without touching other memory
// and without undefined behaviour (watched by the sanitizers).
#include "monitors.h"
using namespace reg;

namespace {
void safe(Case& c, const Entry& e)
{
    Call k(c.rng.u64(), c.rng.u64());
    k.hostile = c.rng.b(0.75);
    k.layouts = c.rng.b(0.7);
    e.make(k);
    damage(c, k, e, c.rng);
    for (auto& a : k.args) if (!(a->role & OUT) && !a->null && !(e.flags & E_NO_READ_ONLY) && c.rng.b(0.3)) a->a.read_only(true);
    if (c.rng.b(0.05)) for (auto& a : k.args) if ((a->role & OUT) && !a->null) a->a.read_only(true);
    describe(c, k);
    snapshot(k);
    sdp_Error st = SDP_SUCCESS;
    k.run(&st);
    c.count("calls");
    c.count(st ? "rejected" : "completed");
    for (auto& a : k.args)
    {
        if (a->null) continue;
        if (!(a->role & OUT) || sdp_mem_is_read_only(a->a.mem))
        {
            if (!a->a.unchanged()) c.fail((std::string("changed:") + a->name).c_str(), "%s was modified", a->name.c_str());
        }
        else if (!a->a.surround_unchanged()) c.fail((std::string("outside:") + a->name).c_str(), "storage outside %s was modified", a->name.c_str());
        c.count("bytes_watched", a->a.block_bytes);
    }
}
}
extern "C" void vh_register() { each_entry("safe_", 2500, 40000, safe, 0, 0, 10); }
