// Everything allocated is released exactly once, and nothing else is.
// Besides the leak and address sanitizers: the amount of memory in use.
#include "monitors.h"
#include "ska-sdp-func/fourier_transforms/sdp_fft.h"
#include "ska-sdp-func/fourier_transforms/sdp_pswf.h"
#include "ska-sdp-func/fourier_transforms/sdp_swiftly.h"
#include "ska-sdp-func/grid_data/sdp_gridder_direct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.h"
#include "ska-sdp-func/utility/sdp_sky_coord.h"
#include "ska-sdp-func/utility/sdp_thread_support.h"
#include "ska-sdp-func/utility/sdp_timer.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace reg;

namespace {
void owns(Case& c, const Entry& e)
{
    const uint64_t seed = c.rng.u64(), lseed = c.rng.u64(), dseed = c.rng.u64();
    const int mode = (int) c.rng.i(0, 4);
    const bool lay = c.rng.b(), hostile = mode == 2 || mode == 3, preset = mode == 4 && !(e.flags & E_NO_PRESET), damaged = mode == 1 || mode == 3;
    const bool bad = mode == 1 && c.rng.b(0.4);
    const int code = (int) c.rng.i(1, 7);
    const uint64_t pick = c.rng.u64();
    sdp_Error st = SDP_SUCCESS;
    auto once = [&](bool note)
    {
        Call k(seed, lseed);
        k.layouts = lay; k.hostile = hostile;
        Rng r(dseed);
        e.make(k);
        if (damaged) damage(c, k, e, r);
        if (bad && !k.bad.empty()) k.bad[pick % k.bad.size()].set();
        if (note) describe(c, k);
        for (auto& a : k.args) a->a.snapshot();
        st = preset ? (sdp_Error) code : SDP_SUCCESS;
        k.run(&st);
        // The caller's storage is still the caller's.
        for (auto& a : k.args) if (!(a->role & OUT) && !a->a.unchanged()) c.fail((std::string("changed:") + a->name).c_str(), "%s was modified", a->name.c_str());
    };
    // What is set up at the first call stays.
    once(true); once(false);
    size_t grown = 0;
    const int reps = 3;
    for (int i = 0; i < reps; ++i)
    {
        const size_t before = __sanitizer_get_current_allocated_bytes();
        once(false);
        const size_t after = __sanitizer_get_current_allocated_bytes();
        if (after > before) ++grown;
    }
    c.count("calls", reps + 2);
    c.count(preset ? "calls_with_error_set" : st ? "failed_calls" : "completed_calls");
    if (grown == (size_t) reps) c.fail(preset ? "kept_preset" : st ? "kept_failed" : "kept", "memory in use grows at every call (status %d)", (int) st);
}

// Objects of all kinds, made, used and released in any order.
struct Obj
{
    std::string kind;
    std::function<void(Rng&)> use;
    std::function<void()> release;
};
struct Handles // reference counted memory: how many references, who owns
{
    sdp_Mem* m; int refs; unsigned char* data; size_t bytes; unsigned char tag;
};
void objects(Case& c)
{
    const size_t before = __sanitizer_get_current_allocated_bytes();
    (void) before;
    {
        std::vector<Obj> live;
        std::vector<std::unique_ptr<std::vector<unsigned char>>> storage; // the caller's
        std::vector<Handles> mems;
        Rng& r = c.rng;
        const int steps = (int) r.i(10, c.thorough ? 120 : 60);
        auto mem_check = [&](const Handles& h) { for (size_t j = 0; j < h.bytes; ++j) if (h.data[j] != h.tag) { c.fail("storage_lost", "storage of a live handle changed"); return; } };
        auto drop = [&](size_t i)
        {
            // Last reference: for storage of the caller it stays.
            mem_check(mems[i]);
            if (r.b()) sdp_mem_free(mems[i].m); else sdp_mem_ref_dec(mems[i].m);
            c.count("references_dropped");
            if (--mems[i].refs > 0) mem_check(mems[i]);
            else mems.erase(mems.begin() + i);
        };
        for (int s = 0; s < steps; ++s)
        {
            sdp_Error st = SDP_SUCCESS;
            const int what = (int) r.i(0, 17);
            c.mix((uint64_t) what);
            switch (what)
            {
            case 0: case 1: // owned memory
            {
                const int64_t sh[] = {r.i(1, 5), r.i(1, 6)};
                sdp_Mem* m = sdp_mem_create(SDP_MEM_DOUBLE, SDP_MEM_CPU, 2, sh, &st);
                Handles h{m, 1, (unsigned char*) sdp_mem_data(m), (size_t) (sh[0] * sh[1] * 8), (unsigned char) r.i(1, 255)};
                memset(h.data, h.tag, h.bytes);
                mems.push_back(h);
                c.count("memory_created"); break;
            }
            case 2: // wrapper
            {
                const int64_t n = r.i(1, 40);
                storage.emplace_back(new std::vector<unsigned char>((size_t) n * 4));
                sdp_Mem* m = sdp_mem_create_wrapper(storage.back()->data(), SDP_MEM_INT, SDP_MEM_CPU, 1, &n, 0, &st);
                Handles h{m, 1, storage.back()->data(), (size_t) n * 4, (unsigned char) r.i(1, 255)};
                memset(h.data, h.tag, h.bytes);
                mems.push_back(h);
                c.count("wrappers_created"); break;
            }
            case 3: // alias or slice of one: released before, or simply first
                if (!mems.empty())
                {
                    Handles& h = mems[(size_t) r.i(0, (int64_t) mems.size() - 1)];
                    sdp_Mem* a = 0;
                    if (r.b()) a = sdp_mem_create_alias(h.m);
                    else { const int64_t o[] = {0, 0}, one[] = {1, 1}; a = sdp_mem_create_wrapper_for_slice(h.m, o, sdp_mem_num_dims(h.m), one, &st); }
                    if (!a || st) { c.fail("alias", "no alias (%d)", (int) st); break; }
                    const int extra = (int) r.i(0, 2);
                    for (int j = 0; j < extra; ++j) sdp_mem_ref_inc(a);
                    for (int j = 0; j <= extra; ++j) { if (sdp_mem_data(a) != h.data) c.fail("alias_data", "an alias refers to other storage"); sdp_mem_free(a); }
                    mem_check(h);
                    c.count("aliases_released");
                }
                break;
            case 4: // copy: storage of its own
                if (!mems.empty())
                {
                    Handles& h = mems[(size_t) r.i(0, (int64_t) mems.size() - 1)];
                    sdp_Mem* m = sdp_mem_create_copy(h.m, SDP_MEM_CPU, &st);
                    if (!m || st) { c.fail("copy", "no copy (%d)", (int) st); break; }
                    Handles g{m, 1, (unsigned char*) sdp_mem_data(m), h.bytes, h.tag};
                    if (g.data == h.data) c.fail("copy_storage", "a copy shares the storage");
                    mem_check(g);
                    mems.push_back(g);
                    c.count("copies_created");
                }
                break;
            case 5: case 6: // another reference
                if (!mems.empty())
                {
                    Handles& h = mems[(size_t) r.i(0, (int64_t) mems.size() - 1)];
                    if (sdp_mem_ref_inc(h.m) != h.m) c.fail("ref_inc", "another handle was returned");
                    h.refs++;
                    c.count("references_added");
                }
                break;
            case 7: case 8: if (!mems.empty()) drop((size_t) r.i(0, (int64_t) mems.size() - 1)); break;
            case 9:
            {
                const int64_t sh[] = {r.i(2, 9), r.i(2, 9)};
                Arr a(r.b() ? SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_COMPLEX_FLOAT, {sh[0], sh[1]}), b(a.type, {sh[0], sh[1]});
                const int nd = (int) r.i(1, 2);
                sdp_Fft* p = sdp_fft_create(a.mem, b.mem, nd, r.b(), &st);
                const sdp_MemType t = a.type;
                const int64_t s0 = sh[0], s1 = sh[1];
                if (p) live.push_back({"fft", [p, t, s0, s1](Rng&) { sdp_Error e = SDP_SUCCESS; Arr x(t, {s0, s1}), y(t, {s0, s1}); sdp_fft_exec(p, x.mem, y.mem, &e); }, [p] { sdp_fft_free(p); }});
                break;
            }
            case 10:
            {
                sdp_Pswf* p = sdp_pswf_create((int) r.i(0, 2), r.d(0.1, 20));
                if (p) live.push_back({"pswf", [p](Rng& q) { sdp_Error e = SDP_SUCCESS; sdp_pswf_generate(p, 0, (int) q.i(1, 40), (int) q.i(0, 1), &e); sdp_pswf_values(p, SDP_MEM_CPU, &e); sdp_pswf_coeff(p, SDP_MEM_CPU, &e); sdp_pswf_evaluate(p, 0.2); }, [p] { sdp_pswf_free(p); }});
                break;
            }
            case 11:
            {
                sdp_SwiFTly* p = sdp_swiftly_create(64, 32, 16, 3, &st);
                if (p) live.push_back({"swiftly", [p](Rng& q) { sdp_Error e = SDP_SUCCESS; Arr f(SDP_MEM_COMPLEX_DOUBLE, {2, 20}), o(SDP_MEM_COMPLEX_DOUBLE, {2, 32}); sdp_swiftly_prepare_facet(p, f.mem, o.mem, 2 * q.i(-5, 5), &e); Arr g(SDP_MEM_COMPLEX_DOUBLE, {2, 16}); sdp_swiftly_finish_subgrid_inplace(p, g.mem, 4, &e); }, [p] { sdp_swiftly_free(p); }});
                break;
            }
            case 12:
            {
                const bool ok = r.b(0.7);
                sdp_GridderDirect* p = sdp_gridder_direct_create(ok ? 16 : -1, 8, 0.1, 100, 0, 0, 4, &st);
                if (p && ok) live.push_back({"direct", [p](Rng&) { sdp_Error e = SDP_SUCCESS; Arr f(SDP_MEM_COMPLEX_DOUBLE, {8, 8}); sdp_gridder_direct_grid_correct(p, f.mem, 0, 0, 1, &e); }, [p] { sdp_gridder_direct_free(p); }});
                else if (p) c.fail("object", "an object together with an error");
                break;
            }
            case 13:
            {
                const bool ok = r.b(0.7);
                sdp_GridderWtowerUVW* p = sdp_gridder_wtower_uvw_create(16, ok ? 8 : 7, 0.1, 100, 0, 0, 4, 16, 4, 16, &st);
                if (p && ok) live.push_back({"wtower", [p](Rng& q) {
                    sdp_Error e = SDP_SUCCESS; const int64_t n = q.i(0, 3);
                    Arr f(SDP_MEM_COMPLEX_DOUBLE, {8, 8}), u(SDP_MEM_DOUBLE, {n, 3}), v(SDP_MEM_COMPLEX_DOUBLE, {n, 2}), a(SDP_MEM_INT, {n}), b(SDP_MEM_INT, {n});
                    for (int64_t j = 0; j < n; ++j) { u.set({j, 0}, q.d(-30, 30)); u.set({j, 2}, q.d(-300, 300)); b.set(j, 2); }
                    if (q.b()) sdp_gridder_wtower_uvw_grid(p, v.mem, u.mem, a.mem, b.mem, 1e8, 1e6, f.mem, 0, 0, 0, -1, -1, &e);
                    else sdp_gridder_wtower_uvw_degrid(p, f.mem, 0, 0, 0, 1e8, 1e6, u.mem, a.mem, b.mem, v.mem, -1, -1, &e);
                }, [p] { sdp_gridder_wtower_uvw_free(p); }});
                else if (p) c.fail("object", "an object together with an error");
                break;
            }
            case 14:
            {
                sdp_Timer* p = sdp_timer_create(SDP_TIMER_NATIVE);
                live.push_back({"timer", [p](Rng& q) { switch (q.i(0, 5)) { case 0: sdp_timer_start(p); break; case 1: sdp_timer_pause(p); break; case 2: sdp_timer_resume(p); break; case 3: sdp_timer_restart(p); break; case 4: sdp_timer_reset(p); break; default: sdp_timer_elapsed(p); } }, [p] { sdp_timer_free(p); }});
                break;
            }
            case 15:
            {
                const int n = (int) r.i(1, 4);
                sdp_Timers* p = sdp_timers_create("root", SDP_TIMER_NATIVE, n);
                live.push_back({"timers", [p, n](Rng& q) {
                    sdp_timers_create_set(p, "set", n, 0);
                    const int i = (int) q.i(0, n - 1);
                    sdp_TimerNode* node = sdp_timers_push(p, "set", i, sdp_timers_root(p));
                    if (node && q.b()) node = sdp_timers_pop_push(p, q.b() ? "set" : "other", i, node);
                    if (node) sdp_timers_pop(p, i, node);
                    sdp_timers_push(p, q.b() ? "a" : "b", 0, 0);
                    if (q.b()) sdp_timers_pop(p, 0, 0);
                }, [p] { sdp_timers_free(p); }});
                break;
            }
            case 16:
            {
                sdp_Mutex* p = sdp_mutex_create();
                live.push_back({"mutex", [p](Rng&) { sdp_mutex_lock(p); sdp_mutex_unlock(p); }, [p] { sdp_mutex_free(p); }});
                break;
            }
            case 17:
            {
                const std::string type(1 + (size_t) r.i(0, 60), 'x');
                sdp_SkyCoord* p = sdp_sky_coord_create(type.c_str(), 1, 2, 3);
                live.push_back({"sky_coord", [p, type, &c](Rng& q) { sdp_sky_coord_set_epoch(p, q.d()); if (type != sdp_sky_coord_type(p)) c.fail("type", "lost its type"); sdp_sky_coord_value(p, (int) q.i(0, 2)); }, [p] { sdp_sky_coord_free(p); }});
                break;
            }
            }
            if (!live.empty() && r.b(0.7)) { Obj& o = live[(size_t) r.i(0, (int64_t) live.size() - 1)]; o.use(r); c.count(("used_" + o.kind).c_str()); }
            if (!live.empty() && r.b(0.35)) { const size_t i = (size_t) r.i(0, (int64_t) live.size() - 1); live[i].release(); c.count("objects_released"); live.erase(live.begin() + i); }
        }
        while (!live.empty()) { const size_t i = (size_t) r.i(0, (int64_t) live.size() - 1); live[i].release(); c.count("objects_released"); live.erase(live.begin() + i); }
        while (!mems.empty()) drop((size_t) r.i(0, (int64_t) mems.size() - 1));
        // Releasing nothing is fine.
        sdp_mem_free(0); sdp_mem_ref_dec(0); sdp_fft_free(0); sdp_pswf_free(0); sdp_swiftly_free(0); sdp_gridder_direct_free(0); sdp_gridder_wtower_uvw_free(0); sdp_mutex_free(0); sdp_timers_free(0);
        // The caller's storage was not released.
        for (auto& s : storage) for (auto& b : *s) b = 0;
    }
    c.count("histories");
}

// One thing wrong with one argument: what the refused call had allocated by then.
void refused_call(Case& c, const Entry& e)
{
    const uint64_t seed = c.rng.u64(), lseed = c.rng.u64(), dseed = c.rng.u64();
    static const sdp_MemType types[] = {SDP_MEM_CHAR, SDP_MEM_INT, SDP_MEM_FLOAT, SDP_MEM_DOUBLE, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE};
    std::string what;
    sdp_Error st = SDP_SUCCESS;
    auto once = [&](uint64_t pick)
    {
        Call k(seed, lseed);
        Rng r(pick);
        e.make(k);
        const bool scalar = !k.bad.empty() && (k.args.empty() || r.b(0.25));
        Arg* changed = 0;
        if (scalar) { auto& b = k.bad[(size_t) r.i(0, (int64_t) k.bad.size() - 1)]; what = b.what; b.set(); }
        else if (!k.args.empty())
        {
            Arg& a = *k.args[(size_t) r.i(0, (int64_t) k.args.size() - 1)];
            changed = &a;
            what = a.name;
            std::vector<int64_t> s = a.shape;
            if (a.null) what += ":null";
            else switch ((e.flags & E_AS_IS) ? r.pick({0, 3, 5}) : r.i(0, 5))
            {
            case 0: what += ":type"; a.build(types[r.i(0, 5)], s, L_C, k.lr); break;
            case 1: what += ":more_dims"; if (a.free_faults & F_NDIM) break; s.insert(s.begin() + r.i(0, (int64_t) s.size()), r.i(1, 2)); a.build(a.type, s, L_C, k.lr); break;
            case 2: what += ":fewer_dims"; if (s.size() > 1 && !(a.free_faults & F_NDIM)) { s.erase(s.begin()); a.build(a.type, s, L_C, k.lr); } break;
            case 3: what += ":read_only"; a.a.read_only(true); break;
            case 4: {
                // Sizes that say how much to do are not a mistake.
                what += ":size";
                const int64_t d = r.i(0, (int64_t) s.size() - 1), dir = r.b() ? 1 : -1;
                bool fr = (a.free_faults & F_SIZE) || s[(size_t) d] + dir < 0;
                for (auto& f : a.free_sizes) if (f.first == (int) d && (f.second == 0 || f.second == dir)) fr = true;
                if (fr) break;
                s[(size_t) d] += dir;
                a.build(a.type, s, L_C, k.lr); break;
            }
            default:
                if (a.a.n() > 0)
                {
                    what += ":location";
                    sdp_Error s2 = SDP_SUCCESS;
                    a.gpu = sdp_mem_create_wrapper(a.a.block, a.type, SDP_MEM_GPU, (int) s.size(), s.data(), a.a.stride.data(), &s2);
                }
            }
        }
        st = SDP_SUCCESS;
        k.run(&st);
        if (changed && changed->gpu) { sdp_mem_free(changed->gpu); changed->gpu = 0; }
    };
    { Call k(seed, lseed); e.make(k); describe(c, k); }
    for (int t = 0; t < 4; ++t)
    {
        const uint64_t pick = dseed + (uint64_t) t;
        once(pick); once(pick);
        size_t grown = 0;
        for (int i = 0; i < 3; ++i)
        {
            const size_t before = __sanitizer_get_current_allocated_bytes();
            once(pick);
            if (__sanitizer_get_current_allocated_bytes() > before) ++grown;
        }
        c.count(st ? "refused_calls" : "completed_calls", 5);
        if (grown == 3) c.fail(("kept:" + what).c_str(), "memory in use grows at every call (status %d)", (int) st);
    }
}

// Requests about memory that cannot be met: slices outside of the source,
// negative or overflowing sizes, unsupported types and places.
void refused_memory(Case& c)
{
    Rng& r = c.rng;
    static const sdp_MemType types[] = {SDP_MEM_VOID, SDP_MEM_CHAR, SDP_MEM_INT, SDP_MEM_FLOAT, SDP_MEM_DOUBLE, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE, (sdp_MemType) 3};
    const int nd = (int) r.i(1, 4);
    int64_t sh[8];
    for (int i = 0; i < nd; ++i) sh[i] = r.i(1, 6);
    sdp_Error ok = SDP_SUCCESS;
    const sdp_MemType type = types[r.i(1, 6)];
    struct Free { sdp_Mem* m; ~Free() { sdp_mem_free(m); } } src{sdp_mem_create(type, SDP_MEM_CPU, nd, sh, &ok)};
    if (!src.m || ok) { c.fatal("create", "no array (%d)", (int) ok); return; }
    memset(sdp_mem_data(src.m), 0x5c, (size_t) sdp_mem_num_elements(src.m) * sdp_mem_type_size(type));
    for (int t = 0; t < 6; ++t)
    {
        const int kind = (int) r.i(0, 8);
        const uint64_t seed = r.u64();
        std::string what;
        sdp_Error st = SDP_SUCCESS;
        auto once = [&]
        {
            Rng q(seed);
            st = SDP_SUCCESS;
            sdp_Mem* m = 0;
            int64_t o[8] = {}, s[8] = {};
            for (int i = 0; i < nd; ++i) { o[i] = q.i(0, sh[i] - 1); s[i] = q.i(0, sh[i] - o[i]); }
            const int d = (int) q.i(0, nd - 1);
            switch (kind)
            {
            case 0: what = "slice"; m = sdp_mem_create_wrapper_for_slice(src.m, o, nd, s, &st); break;
            case 1: what = "slice_offset"; o[d] = sh[d] + q.i(0, 3); s[d] = 1; m = sdp_mem_create_wrapper_for_slice(src.m, o, nd, s, &st); break;
            case 2: what = "slice_negative"; if (q.b()) o[d] = -q.i(1, 3); else s[d] = -q.i(1, 3); m = sdp_mem_create_wrapper_for_slice(src.m, o, nd, s, &st); break;
            case 3: what = "slice_dims"; for (int i = 0; i < 8; ++i) s[i] = 1; m = sdp_mem_create_wrapper_for_slice(src.m, o, nd + (int) q.i(1, 3), s, &st); break;
            case 4: what = "slice_large"; s[d] = sh[d] + q.i(1, 3); m = sdp_mem_create_wrapper_for_slice(src.m, o, nd, s, &st); break;
            case 5: what = "slice_beyond"; s[d] = sh[d] - o[d] + 1; m = sdp_mem_create_wrapper_for_slice(src.m, o, nd, s, &st); break;
            case 6:
                what = "create";
                for (int i = 0; i < nd; ++i) s[i] = q.pick({(int64_t) -1, (int64_t) 0, (int64_t) 3, (int64_t) 1 << 40, INT64_MAX});
                s[d] = q.b() ? -q.i(1, 5) : INT64_MAX - q.i(0, 9);
                m = sdp_mem_create(types[q.i(0, 7)], q.b(0.2) ? SDP_MEM_GPU : SDP_MEM_CPU, nd, s, &st); break;
            case 7: what = "copy_to_gpu"; m = sdp_mem_create_copy(src.m, SDP_MEM_GPU, &st); break;
            case 8: what = "convert"; m = sdp_mem_convert_precision(src.m, types[q.i(0, 7)], &st); break;
            }
            sdp_mem_free(m);
        };
        once(); once();
        size_t grown = 0;
        for (int i = 0; i < 3; ++i)
        {
            const size_t before = __sanitizer_get_current_allocated_bytes();
            once();
            if (__sanitizer_get_current_allocated_bytes() > before) ++grown;
        }
        c.count((what + (st ? "_refused" : "_met")).c_str(), 5);
        c.mix((uint64_t) kind);
        if (grown == 3) c.fail(("kept:" + what).c_str(), "memory in use grows at every request (status %d)", (int) st);
    }
    const unsigned char* p = (const unsigned char*) sdp_mem_data(src.m);
    for (int64_t i = 0, n = sdp_mem_num_elements(src.m) * sdp_mem_type_size(type); i < n; ++i) if (p[i] != 0x5c) { c.fail("changed", "the source array was modified"); break; }
}
}
extern "C" void vh_register()
{
    each_entry("owns_", 150, 4000, owns, 0, 0, 20);
    each_entry("refused_", 60, 2000, refused_call, 0, 0, 20);
    add_family("memory_refused", 2000, 50000, refused_memory);
    add_family("objects", 1500, 40000, objects);
}
