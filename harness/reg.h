// Registry of public functions: how to make a random valid call of each, with
// the arrays and scalars it takes, so that monitors can run every function
// under any workload and damage its arguments one at a time.
#pragma once
#include <memory>
#include <deque>
#include "vh.h"

namespace reg {
using namespace vh;

enum { IN = 1, OUT = 2, INOUT = 3 };
enum Fault { F_TYPE = 1, F_NDIM = 2, F_WRITE = 4, F_CONT = 8, F_LOC = 16, F_SIZE = 32 };
enum { MAXDIM = 8 };

struct Arg
{
    std::string name;
    int role = IN;
    Arr a;
    sdp_MemType type = SDP_MEM_VOID;
    std::vector<int64_t> shape;
    double lo = -1, hi = 1;
    bool contiguous = false;  // strided storage must be rejected
    unsigned free_faults = 0; // F_*: allowed here, not to be rejected
    std::vector<std::pair<int, int>> free_sizes; // dimension, direction: sizes that are allowed
    std::function<void(Arr&, Rng&)> fill_fn;
    uint64_t fill_seed = 0;
    bool tame = false;        // coordinates: none that is only large, as the work grows with them
    double edge = 0;          // outer part of an image, where values have no meaning
    bool plain = false;       // values are not to be replaced by hostile ones
    sdp_Mem* gpu = 0;         // stand-in handle in another memory space
    sdp_Mem* shared = 0;      // handle of another call's array
    bool null = false;
    ~Arg() { if (gpu) sdp_mem_free(gpu); }
    void build(sdp_MemType t, const std::vector<int64_t>& s, int lay, Rng& lr, bool hostile = false)
    {
        a = Arr(t, s, lay, &lr);
        Rng f(fill_seed);
        a.fill_random(f, lo, hi);
        if (fill_fn && t == type && s == shape) fill_fn(a, f);
        if (hostile && !plain && (role & IN) && a.n() > 0 && f.b(0.5)) spoil(f);
    }
    // Values a caller may hold but nobody plans for.
    void spoil(Rng& f)
    {
        const int n = (int) f.i(1, 4);
        for (int k = 0; k < n; ++k)
        {
            const int64_t at = f.i(0, a.n() - 1);
            if (a.type == SDP_MEM_INT) { int v = tame ? f.pick({-1, 0, 1, 2, 7}) : f.pick({INT32_MIN, INT32_MAX, -1, 0, 1, 1 << 30, -(1 << 30), 65536, 2, 7}); memcpy(a.at(at), &v, 4); }
            else if (a.type == SDP_MEM_CHAR) a.set(at, f.i(-128, 127));
            else
            {
                const double big = a.is_double() ? 1e300 : 3e38;
                const double v = tame ? f.pick({0., -0., (double) INFINITY, (double) -INFINITY, (double) NAN, big, -big, 1e25, -1e25, 1e-40}) : f.pick({0., -0., (double) INFINITY, (double) -INFINITY, (double) NAN, big, -big, 1e20, -1e20, 1e10, -1e10, 1e-40, 2147483648., -2147483649., 1e5, -1e5});
                a.set(at, cd(v, a.is_complex() ? f.pick({0., v, 1.}) : 0));
            }
        }
    }
    Arg& range(double l, double h) { lo = l; hi = h; return *this; }
    Arg& cont() { contiguous = true; return *this; }
    Arg& allow(unsigned f) { free_faults |= f; return *this; }
    // Dimension d may be larger (dir = 1), smaller (-1) or both (0).
    Arg& free_dim(int d, int dir = 0) { free_sizes.push_back(std::make_pair(d, dir)); return *this; }
    Arg& fill(std::function<void(Arr&, Rng&)> f) { fill_fn = f; return *this; }
    // Only some of the elements may be written.
    Arg& some() { partial = true; return *this; }
    bool partial = false;
    // May be left out: an array without elements is as good as none.
    Arg& optional() { opt = true; return *this; }
    bool opt = false;
    Arg& keep() { plain = true; return *this; }
    std::vector<sdp_MemType> ok_types; // other types that are as valid
    Arg& also(std::initializer_list<sdp_MemType> t) { ok_types.insert(ok_types.end(), t); return *this; }
    std::vector<int> ok_ndims;         // other numbers of dimensions that are as valid
    Arg& also_nd(std::initializer_list<int> t) { ok_ndims.insert(ok_ndims.end(), t); return *this; }
};

struct BadScalar { std::string what; std::function<void()> set; };

struct Call
{
    Rng r;              // content and sizes
    Rng lr;             // layouts
    bool layouts = false, hostile = false, big = false;
    bool may_fail = false; // an error may be the answer to valid arguments
    bool tame = false;  // no scalars that are only large or small, as the work grows with them
    std::vector<std::unique_ptr<Arg>> args;
    std::function<void(sdp_Error*)> run;
    std::vector<std::function<void()>> cleanup;
    std::vector<BadScalar> bad;
    std::vector<double> out; // results that are not arrays
    std::string note;
    bool no_object = true;   // creation entries: did a failed call return no object?
    std::deque<double> ds;
    std::deque<int64_t> is;
    double tol = 1e-5;       // relative to the largest output
    std::vector<std::shared_ptr<void>> objects;             // plans the call uses
    const std::vector<std::shared_ptr<void>>* use = nullptr; // those of another call made from the same seed, to be used instead
    explicit Call(uint64_t seed, uint64_t lseed = 0) : r(seed), lr(lseed) {}
    Call(const Call&) = delete;
    ~Call() { for (auto it = cleanup.rbegin(); it != cleanup.rend(); ++it) (*it)(); }
    template<class C, class F> auto object(C create, F release) -> decltype(create())
    {
        typedef decltype(create()) T;
        const size_t at = objects.size();
        if (use && at < use->size()) objects.push_back((*use)[at]);
        else { T p = create(); objects.push_back(std::shared_ptr<void>((void*) p, [release](void* q) { release((T) q); })); }
        return (T) objects.back().get();
    }
    Arg& arg(const char* name, int role, sdp_MemType t, std::vector<int64_t> shape)
    {
        args.emplace_back(new Arg);
        Arg& a = *args.back();
        a.name = name; a.role = role; a.type = t; a.shape = shape;
        a.fill_seed = r.u64();
        if (t == SDP_MEM_CHAR || t == SDP_MEM_INT) { a.lo = 0; a.hi = 1; }
        return a;
    }
    void ready()
    {
        for (auto& a : args)
        {
            int lay = !layouts ? 0 : a->contiguous ? (lr.b() ? L_C : L_OWN) : (int) lr.i(0, 6);
            for (auto s : a->shape) if (s == 0 && lay == L_OWN) lay = L_C; // no storage: nothing to write to
            if (layouts && !a->contiguous && lr.b(0.04)) lay = (int) L_FAR;
            else if (hostile && layouts && !a->contiguous && lr.b(0.05)) lay = a->role == IN && lr.b() ? (int) L_BCAST : (int) L_FIELD;
            a->build(a->type, a->shape, lay, lr, hostile);
        }
    }
    sdp_Mem* m(int i) { return args[i]->null ? 0 : args[i]->gpu ? args[i]->gpu : args[i]->shared ? args[i]->shared : args[i]->a.mem; }
    Arr& A(int i) { return args[i]->a; }
    // A size.
    int64_t n(int64_t lo, int64_t hi)
    {
        if (hostile && r.b(0.15)) return r.pick<int64_t>({0, 1, 1, 2});
        if (big) return std::max(lo, (int64_t) (hi * r.d(0.6, 1.6)));
        return r.i(lo, hi);
    }
    // A scalar: in hostile mode sometimes far from sensible.
    double& D(const char* what, double v, std::initializer_list<double> invalid = {})
    {
        if (hostile && r.b(0.08)) v = tame ? r.pick({0., -v, 1e300, -1e300, (double) NAN, (double) INFINITY, (double) -INFINITY, 1e-300}) : r.pick({0., -v, 1e300, -1e300, (double) NAN, (double) INFINITY, (double) -INFINITY, 1e-300, v * 1e6, v * 1e-6});
        ds.push_back(v);
        double* p = &ds.back();
        for (double x : invalid) bad.push_back({std::string(what) + ":invalid", [p, x] { *p = x; }});
        return *p;
    }
    int64_t& I(const char* what, int64_t v, std::initializer_list<int64_t> invalid = {})
    {
        if (hostile && r.b(0.08)) v = r.pick<int64_t>({0, -1, 1, -v, v + 1, v - 1, 2 * v, INT32_MAX, INT32_MIN, 1000000, -1000000});
        is.push_back(v);
        int64_t* p = &is.back();
        for (int64_t x : invalid) bad.push_back({std::string(what) + ":invalid", [p, x] { *p = x; }});
        return *p;
    }
};

enum { E_THREADED = 1, E_EXACT = 2, E_CREATE = 4, E_SLOW = 8, E_NO_PRESET = 16, E_FAILS = 32, E_RANDOM = 64, E_AS_IS = 128, E_NO_READ_ONLY = 256 };
// E_FAILS: not available on the CPU, always reports an error.  E_RANDOM: results differ from call to call.
// E_AS_IS: arguments are not to be made inconsistent.  E_NO_READ_ONLY: read-only inputs are refused.
struct Entry
{
    const char* name;
    int flags;
    std::function<void(Call&)> make;
};
std::vector<Entry>& entries();
struct Add { Add(const char* n, int f, std::function<void(Call&)> m) { entries().push_back(Entry{n, f, m}); } };
#define REG(NAME, FLAGS) \
    static void regmake_ ## NAME(reg::Call& k); \
    static reg::Add regadd_ ## NAME(#NAME, FLAGS, regmake_ ## NAME); \
    static void regmake_ ## NAME(reg::Call& k)

} // namespace reg
