// Every kind of invalid argument, one at a time, in an otherwise valid call.
#include "monitors.h"
using namespace reg;

namespace {
struct Trial { Case& c; Call& k; };
// Run with something wrong: an error must be reported and nothing changed.
void expect_error(Case& c, Call& k, const std::string& what)
{
    snapshot(k);
    k.out.clear();
    sdp_Error st = SDP_SUCCESS;
    k.run(&st);
    c.count("faulty_calls");
    if (!st) c.fail(("accepted:" + what).c_str(), "no error reported");
    for (auto& a : k.args) if (!a->a.unchanged()) c.fail(("changed:" + what).c_str(), "%s was modified", a->name.c_str());
    if (st && !k.out.empty()) c.fail(("result:" + what).c_str(), "a result was given together with an error");
}
void faults(Case& c, const Entry& e)
{
    const uint64_t seed = c.rng.u64();
    Call k(seed, c.rng.u64());
    e.make(k);
    describe(c, k);
    auto again = [&]() { for (auto& a : k.args) { a->a.read_only(false); a->build(a->type, a->shape, L_C, k.lr); } k.out.clear(); };
    // The call itself is fine.
    sdp_Error st = SDP_SUCCESS;
    k.run(&st);
    if (st && k.may_fail) return;
    if (!st == !!(e.flags & E_FAILS)) c.fatal("valid_call", "a valid call returned %d", (int) st);
    c.count("valid_calls");
    const sdp_MemType types[] = {SDP_MEM_CHAR, SDP_MEM_INT, SDP_MEM_FLOAT, SDP_MEM_DOUBLE, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE};
    for (size_t i = 0; i < k.args.size(); ++i)
    {
        Arg& a = *k.args[i];
        auto free_ = [&](unsigned f) { return (a.free_faults & f) != 0; };
        if (a.null) continue;
        if (!free_(F_TYPE)) for (auto t : types)
        {
            if (t == a.type || std::find(a.ok_types.begin(), a.ok_types.end(), t) != a.ok_types.end()) continue;
            again(); a.build(t, a.shape, L_C, k.lr);
            expect_error(c, k, a.name + ":type");
        }
        if (!free_(F_NDIM)) for (int d : {-1, 1})
        {
            std::vector<int64_t> s = a.shape;
            if (d > 0) s.insert(s.begin() + c.rng.i(0, (int64_t) s.size()), c.rng.b() ? 1 : 2);
            else { const int64_t n = s[0]; s.erase(s.begin()); if (!s.empty() && c.rng.b()) s[0] *= n; }
            if (s.empty() || std::find(a.ok_ndims.begin(), a.ok_ndims.end(), (int) s.size()) != a.ok_ndims.end()) continue;
            again(); a.build(a.type, s, L_C, k.lr);
            expect_error(c, k, a.name + (d > 0 ? ":more_dims" : ":fewer_dims"));
        }
        if ((a.role & OUT) && !free_(F_WRITE) && a.a.n() > 0)
        {
            again(); a.a.read_only(true);
            expect_error(c, k, a.name + ":read_only");
        }
        if (a.contiguous && !free_(F_CONT) && a.a.n() > 1)
        {
            again();
            for (int lay : {(int) L_F, (int) L_PAD, (int) L_STEP, (int) L_SLICE})
            {
                again(); a.build(a.type, a.shape, lay, k.lr);
                if (sdp_mem_is_c_contiguous(a.a.mem)) continue;
                expect_error(c, k, a.name + ":strided");
            }
        }
        if (!free_(F_LOC) && a.a.n() > 0)
        {
            again();
            sdp_Error s2 = SDP_SUCCESS;
            a.gpu = sdp_mem_create_wrapper(a.a.block, a.type, SDP_MEM_GPU, (int) a.shape.size(), a.shape.data(), a.a.stride.data(), &s2);
            expect_error(c, k, a.name + ":location");
            sdp_mem_free(a.gpu); a.gpu = 0;
        }
        if (!free_(F_SIZE)) for (size_t d = 0; d < a.shape.size(); ++d) for (int dir : {-1, 1})
        {
            bool fr = false;
            for (auto& f : a.free_sizes) if (f.first == (int) d && (f.second == 0 || f.second == dir)) fr = true;
            if (fr) continue;
            std::vector<int64_t> s = a.shape;
            s[d] += dir * (c.rng.b() ? 1 : dir > 0 ? c.rng.i(1, 5) : std::max<int64_t>(1, s[d] / 2));
            if (s[d] < 0 || (a.opt && s[d] == 0)) continue;
            again(); a.build(a.type, s, L_C, k.lr);
            expect_error(c, k, a.name + ":size" + std::to_string(d) + (dir > 0 ? "+" : "-"));
        }
        again();
    }
    for (auto& b : k.bad)
    {
        // The scalar keeps its bad value, so start from a fresh call.
        Call q(seed, 1);
        e.make(q);
        q.bad[&b - &k.bad[0]].set();
        expect_error(c, q, b.what);
        if ((e.flags & E_CREATE) && !q.no_object) c.fail(("object:" + b.what).c_str(), "an object was returned together with an error");
    }
}
}
extern "C" void vh_register() { each_entry("fault_", 60, 3000, faults); }
