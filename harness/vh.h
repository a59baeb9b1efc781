// Common harness: seeded cases, exact-size arrays, monitors, event counters.
#pragma once
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "ska-sdp-func/utility/sdp_mem.h"

typedef std::complex<double> cd;
typedef std::complex<float> cf;

namespace vh {

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t u64()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // inclusive range
    int64_t i(int64_t lo, int64_t hi)
    {
        return lo + (int64_t) (u64() % (uint64_t) (hi - lo + 1));
    }
    // log-uniform integer: mostly small, sometimes large
    int64_t li(int64_t lo, int64_t hi)
    {
        const double v = std::exp(d() * std::log((double) (hi - lo + 2)));
        return std::min(hi, lo + (int64_t) (v - 1));
    }
    double d() { return (double) (u64() >> 11) / 9007199254740992.0; }
    double d(double lo, double hi) { return lo + (hi - lo) * d(); }
    bool b(double p = 0.5) { return d() < p; }
    template<class T> T pick(std::initializer_list<T> l)
    {
        return *(l.begin() + i(0, (int64_t) l.size() - 1));
    }
    double normal()
    {
        double u = d() + 1e-300, v = d();
        return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
    }
};

struct Stop {}; // thrown to end a case after a failure or when skipping

struct Case
{
    std::string family;
    int64_t idx = 0;
    uint64_t seed = 0;
    bool thorough = false;
    Rng rng;
    std::string desc;      // written out description of the case
    uint64_t sig = 0;      // signature used to count distinct cases
    bool trivial = false;  // nothing of interest happened
    // Describe (appends) and mix into the distinctness signature.
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void mix(uint64_t v) { sig = (sig ^ v) * 0x100000001B3ull + 0x9E37; }
    void mixd(double v) { uint64_t u; memcpy(&u, &v, 8); mix(u); }
    // Record a violation. label must be stable (it is the finding's key).
    void fail(const char* label, const char* fmt, ...)
    __attribute__((format(printf, 3, 4)));
    [[noreturn]] void fatal(const char* label, const char* fmt, ...)
    __attribute__((format(printf, 3, 4)));
    void count(const char* event, uint64_t n = 1);
    int fails = 0;
    // Deviation monitor: |got-ref| must be <= tol*scale.
    bool near_(const char* label, cd got, cd ref, double abs_tol,
            const char* where = "");
};

typedef std::function<void(Case&)> CaseFn;
struct Family
{
    std::string name;
    int64_t quick, thorough;
    CaseFn fn;
    int timeout;
};
std::vector<Family>& families();
void add_family(const char* name, int64_t quick, int64_t thorough, CaseFn fn,
        int timeout = 300);
struct Reg
{
    Reg(const char* n, int64_t q, int64_t t, CaseFn f, int timeout = 300)
    { add_family(n, q, t, f, timeout); }
};
#define FAMILY(NAME, Q, T) \
    static void fam_ ## NAME(vh::Case& c); \
    static vh::Reg reg_ ## NAME(#NAME, Q, T, fam_ ## NAME); \
    static void fam_ ## NAME(vh::Case& c)

uint64_t& global_count(const char* event);

// ---------------------------------------------------------------- arrays

enum Layout { L_C = 0, L_F = 1, L_PAD = 2, L_STEP = 3, L_OWN = 4, L_SLICE = 5, L_REV = 6, L_FIELD = 7, L_BCAST = 8, L_FAR = 9 };
// L_FAR: one dimension in steps of gigabytes (and nothing in between),
// L_OWN: allocated by the library, L_SLICE: part of a larger array, L_REV: some dimensions backwards,
// L_FIELD: one member of an array of structures (complex only), L_BCAST: some dimensions repeated
const char* layout_name(int l);

// An array: an exact-size heap block holding a (possibly strided) view.
struct Arr
{
    sdp_Mem* mem = 0;
    sdp_MemType type = SDP_MEM_VOID;
    std::vector<int64_t> shape, stride; // stride in bytes
    unsigned char* block = 0;
    bool own = false; // the storage belongs to the handle
    size_t block_bytes = 0;
    size_t offset = 0; // bytes to the first element
    std::vector<unsigned char> snap;
    size_t map_bytes = 0; // of a sparse mapping
    std::vector<std::pair<size_t, size_t>> parts; // the parts of it in use: first byte and size

    Arr() {}
    Arr(sdp_MemType t, std::vector<int64_t> shp, int layout = L_C,
            Rng* rng = 0);
    Arr(const Arr&) = delete;
    Arr& operator=(const Arr&) = delete;
    Arr(Arr&& o) { swap(o); }
    Arr& operator=(Arr&& o) { if (this != &o) { release(); swap(o); } return *this; }
    ~Arr() { release(); }
    void swap(Arr& o);
    bool far_apart(Rng* rng);
    // A contiguous array too large for memory, all zero: only what is written takes any.
    // If there is a pattern (of whole pages), it is what the array holds, over and over.
    static Arr vast(sdp_MemType t, std::vector<int64_t> shp, const std::vector<unsigned char>& pattern = std::vector<unsigned char>());
    // Offsets from the first element (in bytes, multiples of a page) of the pages written so far.
    std::vector<int64_t> written_pages() const;
    void release();
    void read_only(bool on) { sdp_mem_set_read_only(mem, on ? 1 : 0); }

    int64_t n() const
    {
        int64_t p = 1; for (auto s : shape) p *= s; return p;
    }
    size_t esize() const;
    unsigned char* at(int64_t flat) const
    {
        unsigned char* p = block + offset;
        if (n() == 0) return p;
        for (int k = (int) shape.size() - 1; k >= 0; --k)
        {
            p += (flat % shape[k]) * stride[k];
            flat /= shape[k];
        }
        return p;
    }
    int64_t flat(std::initializer_list<int64_t> ix) const
    {
        int64_t f = 0; size_t k = 0;
        for (auto v : ix) { f = f * shape[k] + v; ++k; }
        return f;
    }
    cd get(int64_t flat_) const;
    void set(int64_t flat_, cd v);
    cd operator()(std::initializer_list<int64_t> ix) const { return get(flat(ix)); }
    double r(std::initializer_list<int64_t> ix) const { return get(flat(ix)).real(); }
    void set(std::initializer_list<int64_t> ix, cd v) { set(flat(ix), v); }
    void fill_random(Rng& rng, double lo = -1, double hi = 1);
    // Make the values special in some way (zeros, repeated values, zero slices...).
    void spice(Rng& rng);
    void fill(cd v) { for (int64_t k = 0; k < n(); ++k) set(k, v); }
    std::vector<cd> values() const
    {
        std::vector<cd> v(n()); for (int64_t k = 0; k < n(); ++k) v[k] = get(k); return v;
    }
    void assign(const std::vector<cd>& v) { for (int64_t k = 0; k < n(); ++k) set(k, v[k]); }
    bool is_double() const
    { return type == SDP_MEM_DOUBLE || type == SDP_MEM_COMPLEX_DOUBLE; }
    bool is_complex() const
    { return type == SDP_MEM_COMPLEX_FLOAT || type == SDP_MEM_COMPLEX_DOUBLE; }

    // Monitors.
    void snapshot()
    {
        snap.clear();
        if (parts.empty()) snap.assign(block, block + block_bytes);
        for (auto& q : parts) snap.insert(snap.end(), block + q.first, block + q.first + q.second);
    }
    bool unchanged() const
    {
        if (snap.empty()) return true;
        if (parts.empty()) return memcmp(snap.data(), block, block_bytes) == 0;
        size_t k = 0;
        for (auto& q : parts) { if (memcmp(&snap[k], block + q.first, q.second) != 0) return false; k += q.second; }
        return true;
    }
    // No byte outside the elements of the view changed since snapshot().
    bool surround_unchanged() const;
    std::string str() const;
};

const char* type_name(sdp_MemType t);
size_t type_size(sdp_MemType t);
inline sdp_MemType real_t(bool dbl) { return dbl ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT; }
inline sdp_MemType cplx_t(bool dbl)
{ return dbl ? SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_COMPLEX_FLOAT; }

// Round to the precision of the given type (so references see the same input).
inline double rnd(bool dbl, double v) { return dbl ? v : (double) (float) v; }

// Reference helpers ---------------------------------------------------
// In-order naive DFT along one axis (exact twiddles).
std::vector<cd> naive_dft(const std::vector<cd>& in, bool forward);
double max_abs(const std::vector<cd>& v);
double max_diff(const std::vector<cd>& a, const std::vector<cd>& b);

// Set by the OpenMP shim when it is linked in (else no-ops).
struct SchedStats { uint64_t regions, chunks, criticals, barriers, atomics, locks, max_team; uint64_t hash; };

} // namespace vh

extern "C" {
void vh_shim_config(uint64_t seed, int threads, int perturb) __attribute__((weak));
void vh_shim_stats(vh::SchedStats* out) __attribute__((weak));
}
