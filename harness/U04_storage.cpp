// Any layout of the arrays: the same results, and no other byte changed.
#include "monitors.h"
using namespace reg;

namespace {
void watch(Case& c, Call& k, sdp_Error st, const char* what)
{
    for (auto& a : k.args)
    {
        if (!(a->role & OUT))
        {
            if (!a->a.unchanged()) c.fail((std::string("input_changed:") + a->name).c_str(), "%s: %s was modified", what, a->name.c_str());
            c.count("input_bytes_watched", a->a.block_bytes);
        }
        else if (!a->a.surround_unchanged()) c.fail((std::string("surround_changed:") + a->name).c_str(), "%s: storage outside %s was modified", what, a->name.c_str());
        else c.count("output_bytes_watched", a->a.block_bytes);
        (void) st;
    }
}
// A member of an array of structures, whose elements are not a whole number
// of elements apart: refused, or treated like any other array.
void members(Case& c, const Entry& e, uint64_t seed, const Results& want, sdp_Error st)
{
    Call m(seed, c.rng.u64());
    e.make(m);
    std::vector<Arg*> may;
    for (auto& g : m.args) if (!g->null && g->a.is_complex() && g->a.n() > 1) may.push_back(g.get());
    if (may.empty() || st) return;
    Arg& g = *may[(size_t) c.rng.i(0, (int64_t) may.size() - 1)];
    const std::vector<cd> v = g.a.values();
    g.a = Arr(g.a.type, g.a.shape, L_FIELD, &c.rng);
    g.a.assign(v);
    snapshot(m);
    sdp_Error s = SDP_SUCCESS;
    m.run(&s);
    watch(c, m, s, "member of structures");
    c.count(s ? "members_refused" : "members_accepted");
    if (!s) compare(c, (std::string("member:") + g.name).c_str(), m, want, results(m), (e.flags & E_EXACT) ? 0 : m.tol);
}
void storage(Case& c, const Entry& e)
{
    const uint64_t seed = c.rng.u64();
    const bool ro = c.rng.b(0.7) && !(e.flags & E_NO_READ_ONLY);
    Call a(seed, c.rng.u64()), b(seed, c.rng.u64());
    b.layouts = true;
    e.make(a); e.make(b);
    describe(c, b);
    sdp_Error s1 = SDP_SUCCESS, s2 = SDP_SUCCESS;
    for (Call* k : {&a, &b}) if (ro) for (auto& g : k->args) if (!(g->role & OUT) && !g->null) g->a.read_only(true);
    snapshot(a); snapshot(b);
    a.run(&s1); watch(c, a, s1, "contiguous");
    b.run(&s2); watch(c, b, s2, "other layout");
    c.count("calls", 2);
    if (s1 != s2) c.fatal("status", "status %d for contiguous arrays and %d for other layouts of the same arrays", (int) s1, (int) s2);
    if (s1 && !(e.flags & E_FAILS) && !b.may_fail) c.fatal("valid_call", "a valid call returned %d", (int) s1);
    if (e.flags & E_RANDOM) return;
    bool differ = false;
    for (auto& g : b.args) if (!g->null && g->a.block_bytes != g->a.n() * g->a.esize()) differ = true;
    if (differ) c.count("strided_arrays");
    for (auto& g : b.args) if (!g->null && g->a.map_bytes) c.count("arrays_with_strides_of_gigabytes");
    // The order of sums may follow the layout.
    compare(c, "layout", b, results(a), results(b), (e.flags & E_EXACT) ? 0 : a.tol);
    members(c, e, seed, results(a), s1);
    // Undefined, extreme and empty data: whatever the outcome, nothing else changes.
    Call h(c.rng.u64(), c.rng.u64());
    h.layouts = h.hostile = true;
    e.make(h);
    for (auto& g : h.args) if (!(g->role & OUT) && !g->null && ro) g->a.read_only(true);
    snapshot(h);
    sdp_Error s3 = SDP_SUCCESS;
    h.run(&s3);
    watch(c, h, s3, "unusual data");
    c.count(s3 ? "unusual_rejected" : "unusual_accepted");
}
}
extern "C" void vh_register() { each_entry("storage_", 600, 12000, storage, 0, 0, 10); }
