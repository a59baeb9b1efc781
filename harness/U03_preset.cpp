// An error that is already recorded: calls do nothing and keep it.
#include "monitors.h"
using namespace reg;

namespace {
const sdp_Error codes[] = {SDP_ERR_RUNTIME, SDP_ERR_INVALID_ARGUMENT, SDP_ERR_DATA_TYPE, SDP_ERR_MEM_ALLOC_FAILURE, SDP_ERR_MEM_COPY_FAILURE, SDP_ERR_MEM_LOCATION, (sdp_Error) 7};

void quiet(Case& c, const Entry& e, Call& k, sdp_Error st, const char* what)
{
    const sdp_Error before = st;
    snapshot(k);
    k.out.clear();
    k.no_object = true;
    k.run(&st);
    c.count("calls_with_an_error");
    if (st != before) c.fail((std::string("code:") + what).c_str(), "the code was %d and is now %d", (int) before, (int) st);
    for (auto& a : k.args) if (!a->a.unchanged()) c.fail((std::string("changed:") + what).c_str(), "%s was modified (code %d)", a->name.c_str(), (int) before);
    if (!k.out.empty()) c.fail((std::string("result:") + what).c_str(), "a result was given with code %d", (int) before);
    if ((e.flags & E_CREATE) && !k.no_object) c.fail((std::string("object:") + what).c_str(), "an object was returned with code %d", (int) before);
}
void preset(Case& c, const Entry& e)
{
    Call k(c.rng.u64(), c.rng.u64());
    k.layouts = c.rng.b();
    k.hostile = c.rng.b(0.3);
    e.make(k);
    describe(c, k);
    // Calls that could have succeeded, with the codes of the library and others.
    quiet(c, e, k, codes[c.rng.i(0, 5)], "valid");
    quiet(c, e, k, codes[c.rng.i(0, sizeof(codes) / sizeof(codes[0]) - 1)], "valid");
    // With something wrong as well: still the first error.
    if (!k.args.empty())
    {
        Arg& a = *k.args[c.rng.i(0, (int64_t) k.args.size() - 1)];
        if (!a.null) switch (c.rng.i(0, 3))
        {
        case 0:
            a.build(c.rng.pick({SDP_MEM_CHAR, SDP_MEM_INT, SDP_MEM_FLOAT, SDP_MEM_DOUBLE, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE}), a.shape, L_C, k.lr);
            break;
        case 1:
        {
            std::vector<int64_t> s = a.shape;
            if (c.rng.b()) s.insert(s.begin(), 2); else s.pop_back();
            a.build(a.type, s, L_C, k.lr);
            break;
        }
        case 2:
        {
            std::vector<int64_t> s = a.shape;
            for (auto& v : s) if (c.rng.b()) v = c.rng.i(0, 9);
            a.build(a.type, s, L_C, k.lr);
            break;
        }
        case 3: a.a.read_only(true); break;
        }
        if (!k.bad.empty() && c.rng.b(0.3)) k.bad[c.rng.i(0, (int64_t) k.bad.size() - 1)].set();
        quiet(c, e, k, codes[c.rng.i(0, sizeof(codes) / sizeof(codes[0]) - 1)], "invalid");
    }

}
// A chain of calls of different functions reports its first error.
void chain(Case& c)
{
    auto& es = entries();
    sdp_Error st = SDP_SUCCESS, first = SDP_SUCCESS;
    const int n = (int) c.rng.i(3, 12), bad = (int) c.rng.i(0, n - 2);
    for (int i = 0; i < n; ++i)
    {
        const Entry* e;
        do e = &es[c.rng.i(0, (int64_t) es.size() - 1)]; while ((e->flags & (E_SLOW | E_FAILS | E_NO_PRESET)));
        Call k(c.rng.u64(), c.rng.u64());
        k.layouts = c.rng.b();
        e->make(k);
        c.note("%s ", e->name);
        c.mix((uint64_t) (e - &es[0])); c.mix(k.r.s);
        if (i == bad)
        {
            // Make this one fail.
            std::vector<int> can;
            for (size_t j = 0; j < k.args.size(); ++j) if (!k.args[j]->null && !(k.args[j]->free_faults & F_LOC) && k.args[j]->a.n() > 0) can.push_back((int) j);
            if (can.empty()) { if (k.bad.empty()) { c.trivial = true; return; } k.bad[0].set(); }
            else
            {
                Arg& a = *k.args[can[c.rng.i(0, (int64_t) can.size() - 1)]];
                a.build(a.type, a.shape, L_C, k.lr);
                sdp_Error s2 = SDP_SUCCESS;
                a.gpu = sdp_mem_create_wrapper(a.a.block, a.type, SDP_MEM_GPU, (int) a.shape.size(), a.shape.data(), a.a.stride.data(), &s2);
            }
        }
        snapshot(k);
        k.out.clear();
        k.no_object = true;
        k.run(&st);
        c.count("calls_in_chains");
        if (i < bad) { if (st) c.fatal("early", "call %d (%s) of the chain is valid but returned %d", i, e->name, (int) st); continue; }
        if (i == bad) { first = st; if (!st) c.fatal("missed", "call %d (%s) of the chain is invalid but returned no error", i, e->name); }
        if (st != first) c.fail("first_error", "the chain's error changed from %d to %d in %s", (int) first, (int) st, e->name);
        for (auto& a : k.args) if (!a->a.unchanged()) c.fail("after_error", "%s of %s was modified", a->name.c_str(), e->name);
        if (!k.out.empty()) c.fail("result_after_error", "%s gave a result", e->name);
        if (i > bad && (e->flags & E_CREATE) && !k.no_object) c.fail("object_after_error", "%s returned an object", e->name);
    }
}
}
extern "C" void vh_register()
{
    each_entry("preset_", 150, 6000, preset, 0, E_NO_PRESET);
    add_family("chain", 3000, 100000, chain);
}
