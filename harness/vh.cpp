#include "vh.h"
#include <sys/mman.h>
#include <cmath>
#include <csignal>
#include <fcntl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <unordered_set>

namespace vh {

static FILE* g_out = 0;
static int g_progress = -1;
static bool g_in_case = false;
static std::map<std::string, uint64_t> g_events;
static std::string g_family;
static int64_t g_idx = -1;
static int g_total_fails = 0;

std::vector<Family>& families()
{
    static std::vector<Family> f;
    return f;
}

void add_family(const char* name, int64_t quick, int64_t thorough, CaseFn fn,
        int timeout)
{
    families().push_back(Family{name, quick, thorough, fn, timeout});
}

uint64_t& global_count(const char* event) { return g_events[event]; }

static std::string vfmt(const char* fmt, va_list ap)
{
    char buf[2048];
    vsnprintf(buf, sizeof buf, fmt, ap);
    return buf;
}

static std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o;
}

void Case::note(const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    std::string s = vfmt(fmt, ap);
    va_end(ap);
    if (!desc.empty()) desc += " ";
    desc += s;
    for (unsigned char ch : s) mix(ch);
}

static void report(Case& c, const char* label, const std::string& msg)
{
    c.fails++;
    g_total_fails++;
    if (c.fails <= 3 && g_out)
    {
        fprintf(g_out,
                "{\"ev\":\"viol\",\"family\":\"%s\",\"idx\":%lld,\"label\":\"%s\",\"msg\":\"%s\",\"desc\":\"%s\"}\n",
                jesc(c.family).c_str(), (long long) c.idx, jesc(label).c_str(),
                jesc(msg).c_str(), jesc(c.desc).c_str());
        fflush(g_out);
    }
}

void Case::fail(const char* label, const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    std::string s = vfmt(fmt, ap);
    va_end(ap);
    report(*this, label, s);
}

void Case::fatal(const char* label, const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    std::string s = vfmt(fmt, ap);
    va_end(ap);
    report(*this, label, s);
    throw Stop();
}

void Case::count(const char* event, uint64_t n) { g_events[event] += n; }

bool Case::near_(const char* label, cd got, cd ref, double abs_tol,
        const char* where)
{
    const double e = std::abs(got - ref);
    if (e <= abs_tol) return true;
    fail(label, "got (%.17g,%.17g) expected (%.17g,%.17g) |diff|=%.3g tol=%.3g %s",
            got.real(), got.imag(), ref.real(), ref.imag(), e, abs_tol, where);
    return false;
}

const char* layout_name(int l)
{
    static const char* n[] = {"C", "F", "pad", "step", "own", "slice", "rev", "field", "bcast", "far"};
    return n[l];
}

size_t type_size(sdp_MemType t)
{
    switch ((int) t)
    {
    case SDP_MEM_CHAR: return 1;
    case SDP_MEM_INT: return sizeof(int);
    case SDP_MEM_FLOAT: return 4;
    case SDP_MEM_DOUBLE: return 8;
    case SDP_MEM_COMPLEX_FLOAT: return 8;
    case SDP_MEM_COMPLEX_DOUBLE: return 16;
    }
    return 1;
}

const char* type_name(sdp_MemType t)
{
    switch ((int) t)
    {
    case SDP_MEM_CHAR: return "char";
    case SDP_MEM_INT: return "int";
    case SDP_MEM_FLOAT: return "float";
    case SDP_MEM_DOUBLE: return "double";
    case SDP_MEM_COMPLEX_FLOAT: return "cfloat";
    case SDP_MEM_COMPLEX_DOUBLE: return "cdouble";
    }
    return "void";
}

size_t Arr::esize() const { return type_size(type); }

static size_t align_of(sdp_MemType t)
{
    switch ((int) t)
    {
    case SDP_MEM_CHAR: return 1;
    case SDP_MEM_INT: case SDP_MEM_FLOAT: case SDP_MEM_COMPLEX_FLOAT: return 4;
    }
    return 8;
}

Arr Arr::vast(sdp_MemType t, std::vector<int64_t> shp, const std::vector<unsigned char>& pattern)
{
    Arr a;
    a.type = t; a.shape = shp;
    const int nd = (int) shp.size();
    int64_t acc = (int64_t) type_size(t);
    a.stride.assign(nd, acc);
    for (int k = nd - 1; k >= 0; --k) { a.stride[k] = acc; acc *= shp[k]; }
    // Nothing may be used before and after it (32-bit counts that wrap around end up there).
    const size_t guard = 1ull << 36, page = 4096, size = ((size_t) acc + page - 1) / page * page;
    a.map_bytes = size + 2 * guard;
    a.block = (unsigned char*) mmap(0, a.map_bytes, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (a.block == MAP_FAILED) { a.block = 0; a.map_bytes = 0; return a; }
    a.offset = guard;
    if (mprotect(a.block + guard, size, PROT_READ | PROT_WRITE) != 0) { fprintf(stderr, "HARNESS: mapping failed\n"); abort(); }
    if (!pattern.empty())
    {
        const int fd = memfd_create("pattern", 0);
        if (fd < 0 || pattern.size() % page || write(fd, pattern.data(), pattern.size()) != (ssize_t) pattern.size()) { fprintf(stderr, "HARNESS: pattern failed\n"); abort(); }
        for (size_t at = 0; at < size; at += pattern.size())
            if (mmap(a.block + guard + at, std::min(pattern.size(), size - at), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, fd, 0) == MAP_FAILED) { fprintf(stderr, "HARNESS: mapping failed\n"); abort(); }
        close(fd);
    }
    madvise(a.block + guard, size, MADV_NOHUGEPAGE);
    madvise(a.block + guard, size, MADV_DONTDUMP);
    sdp_Error st = SDP_SUCCESS;
    a.mem = sdp_mem_create_wrapper(a.block + a.offset, t, SDP_MEM_CPU, nd, a.shape.data(), 0, &st);
    if (st || !a.mem) { fprintf(stderr, "HARNESS: wrapper creation failed\n"); abort(); }
    return a;
}

std::vector<int64_t> Arr::written_pages() const
{
    const size_t page = 4096, num = (map_bytes - 2 * offset) / page;
    std::vector<unsigned char> in(num);
    std::vector<int64_t> out;
    if (num && mincore(block + offset, num * page, in.data()) != 0) { fprintf(stderr, "HARNESS: mincore failed\n"); abort(); }
    for (size_t k = 0; k < num; ++k) if (in[k] & 1) out.push_back((int64_t) (k * page));
    return out;
}

bool Arr::far_apart(Rng* rng)
{
    const int nd = (int) shape.size();
    const int64_t es = (int64_t) type_size(type);
    std::vector<int> can;
    for (int k = 0; k < nd; ++k) if (shape[k] > 1 && shape[k] <= 40) can.push_back(k);
    if (n() == 0 || can.empty()) return false;
    const int f = can[rng ? (size_t) rng->i(0, (int64_t) can.size() - 1) : 0];
    int64_t acc = es;
    for (int k = nd - 1; k >= 0; --k) if (k != f) { stride[k] = acc; acc *= shape[k]; }
    if (acc > 1 << 20) return false;
    const int64_t steps[] = {1ll << 31, 1ll << 32, es << 31, es << 32};
    stride[f] = steps[rng ? rng->i(0, 3) : 0] + es * (rng ? rng->i(0, 3) : 1);
    const size_t page = 4096, span = (size_t) ((shape[f] - 1) * stride[f] + acc);
    map_bytes = (span + 4 * page) / page * page;
    block = (unsigned char*) mmap(0, map_bytes, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (block == MAP_FAILED) { block = 0; map_bytes = 0; return false; }
    offset = page;
    for (int64_t k = 0; k < shape[f]; ++k)
    {
        const size_t first = offset + (size_t) (k * stride[f]);
        const size_t a = first / page * page, b = (first + (size_t) acc + page - 1) / page * page;
        if (mprotect(block + a, b - a, PROT_READ | PROT_WRITE) != 0) { fprintf(stderr, "HARNESS: mapping failed\n"); abort(); }
        memset(block + a, 0xA5, b - a);
        memset(block + first, 0, (size_t) acc);
        parts.push_back({a, b - a});
        block_bytes += b - a;
    }
    sdp_Error st = SDP_SUCCESS;
    mem = sdp_mem_create_wrapper(block + offset, type, SDP_MEM_CPU, nd, shape.data(), stride.data(), &st);
    if (st || !mem) { fprintf(stderr, "HARNESS: wrapper creation failed\n"); abort(); }
    return true;
}

Arr::Arr(sdp_MemType t, std::vector<int64_t> shp, int layout, Rng* rng)
{
    type = t;
    shape = shp;
    const int nd = (int) shp.size();
    const int64_t es = (int64_t) type_size(t);
    (void) align_of;
    stride.assign(nd, es);
    if (layout == L_OWN || (layout == L_SLICE && nd == 0))
    {
        sdp_Error e = SDP_SUCCESS;
        mem = sdp_mem_create(t, SDP_MEM_CPU, nd, shp.data(), &e);
        own = true;
        int64_t a = es;
        for (int k = nd - 1; k >= 0; --k) { stride[k] = a; a *= shp[k]; }
        block_bytes = (size_t) a;
        block = (unsigned char*) sdp_mem_data(mem);
        if (e || !mem || (block_bytes && !block)) { fprintf(stderr, "HARNESS: creation failed\n"); abort(); }
        if (block_bytes) memset(block, 0, block_bytes);
        return;
    }
    std::vector<int64_t> ext(shp);
    std::vector<int64_t> step(nd, 1);
    if (layout == L_FAR && far_apart(rng)) return;
    for (int k = 0; k < nd; ++k)
    {
        if (layout == L_PAD || layout == L_SLICE) ext[k] = shp[k] + (rng ? rng->i(0, 2) : 1);
        if (layout == L_STEP)
        {
            step[k] = rng ? rng->i(1, 2) : 2;
            ext[k] = shp[k] * step[k];
        }
    }
    int64_t acc = es;
    if (layout == L_F)
    {
        for (int k = 0; k < nd; ++k) { stride[k] = acc; acc *= ext[k]; }
    }
    else
    {
        for (int k = nd - 1; k >= 0; --k)
        {
            stride[k] = acc * step[k];
            acc *= ext[k];
        }
    }
    if (layout == L_FIELD && (t & SDP_MEM_COMPLEX)) for (int k = 0; k < nd; ++k) { stride[k] += stride[k] / 2; }
    if (layout == L_BCAST)
    {
        for (int k = 0; k < nd; ++k) step[k] = rng && rng->b() ? 1 : 0;
        acc = es;
        for (int k = nd - 1; k >= 0; --k) { stride[k] = acc * step[k]; if (step[k]) acc *= ext[k]; }
    }
    block_bytes = (size_t) acc;
    offset = 0;
    std::vector<int64_t> first(nd, 0);
    if (layout == L_PAD || layout == L_SLICE)
    {
        // Start anywhere such that the view fits; otherwise trim the block
        // so that it ends exactly at the last element.
        for (int k = 0; k < nd; ++k)
        {
            int64_t room = ext[k] - shp[k];
            int64_t o = room ? (rng ? rng->i(0, room) : 0) : 0;
            offset += (size_t) (o * stride[k]);
            first[k] = o;
        }
    }
    const bool slice = layout == L_SLICE && n() > 0;
    if (slice) block_bytes = (size_t) acc;
    else if (n() > 0)
    {
        size_t last = offset + es;
        for (int k = 0; k < nd; ++k) last += (size_t) ((shp[k] - 1) * stride[k]);
        block_bytes = last; // red zone right after the last element
        if (layout == L_REV) for (int k = 0; k < nd; ++k) if (!rng || rng->b())
        {
            offset += (size_t) ((shp[k] - 1) * stride[k]);
            stride[k] = -stride[k];
        }
    }
    else block_bytes = 0;
    block = (unsigned char*) malloc(block_bytes ? block_bytes : 1);
    memset(block, 0xA5, block_bytes);
    // elements start as zero; surround stays 0xA5.
    for (int64_t f = 0; f < n(); ++f) memset(at(f), 0, es);
    sdp_Error st = SDP_SUCCESS;
    if (slice)
    {
        std::vector<int64_t> ps(nd);
        int64_t a = es;
        for (int k = nd - 1; k >= 0; --k) { ps[k] = a; a *= ext[k]; }
        sdp_Mem* whole = sdp_mem_create_wrapper(block, t, SDP_MEM_CPU, nd, ext.data(), ps.data(), &st);
        mem = sdp_mem_create_wrapper_for_slice(whole, first.data(), nd, shape.data(), &st);
        sdp_mem_free(whole);
    }
    else mem = sdp_mem_create_wrapper(block + offset, t, SDP_MEM_CPU, nd,
            shape.data(), stride.data(), &st);
    if (st || !mem)
    {
        fprintf(stderr, "HARNESS: wrapper creation failed\n");
        abort();
    }
}

void Arr::swap(Arr& o)
{
    std::swap(mem, o.mem); std::swap(type, o.type);
    std::swap(shape, o.shape); std::swap(stride, o.stride);
    std::swap(block, o.block); std::swap(block_bytes, o.block_bytes);
    std::swap(map_bytes, o.map_bytes); std::swap(parts, o.parts);
    std::swap(own, o.own); std::swap(offset, o.offset); std::swap(snap, o.snap);
}

void Arr::release()
{
    if (mem) sdp_mem_free(mem);
    if (map_bytes) munmap(block, map_bytes);
    else if (block && !own) free(block);
    mem = 0; block = 0; map_bytes = 0; parts.clear();
}

cd Arr::get(int64_t f) const
{
    const unsigned char* p = at(f);
    switch ((int) type)
    {
    case SDP_MEM_CHAR: { signed char v; memcpy(&v, p, 1); return cd(v); }
    case SDP_MEM_INT: { int v; memcpy(&v, p, 4); return cd(v); }
    case SDP_MEM_FLOAT: { float v; memcpy(&v, p, 4); return cd(v); }
    case SDP_MEM_DOUBLE: { double v; memcpy(&v, p, 8); return cd(v); }
    case SDP_MEM_COMPLEX_FLOAT: { float v[2]; memcpy(v, p, 8); return cd(v[0], v[1]); }
    case SDP_MEM_COMPLEX_DOUBLE: { double v[2]; memcpy(v, p, 16); return cd(v[0], v[1]); }
    }
    return cd(0);
}

void Arr::set(int64_t f, cd x)
{
    unsigned char* p = at(f);
    switch ((int) type)
    {
    case SDP_MEM_CHAR: { signed char v = (signed char) x.real(); memcpy(p, &v, 1); break; }
    case SDP_MEM_INT: { int v = (int) x.real(); memcpy(p, &v, 4); break; }
    case SDP_MEM_FLOAT: { float v = (float) x.real(); memcpy(p, &v, 4); break; }
    case SDP_MEM_DOUBLE: { double v = x.real(); memcpy(p, &v, 8); break; }
    case SDP_MEM_COMPLEX_FLOAT:
    { float v[2] = {(float) x.real(), (float) x.imag()}; memcpy(p, v, 8); break; }
    case SDP_MEM_COMPLEX_DOUBLE:
    { double v[2] = {x.real(), x.imag()}; memcpy(p, v, 16); break; }
    }
}

void Arr::fill_random(Rng& rng, double lo, double hi)
{
    for (int64_t f = 0; f < n(); ++f)
    {
        if (type == SDP_MEM_INT || type == SDP_MEM_CHAR)
        {
            const double m = type == SDP_MEM_CHAR ? 127 : 2147483647;
            set(f, cd((double) rng.i((int64_t) std::min(std::max(lo, -m), m), (int64_t) std::max(std::min(hi, m), -m))));
        }
        else
        {
            double a = rng.d(lo, hi), b = is_complex() ? rng.d(lo, hi) : 0;
            set(f, cd(a, b));
        }
    }
}

void Arr::spice(Rng& r)
{
    const int64_t N = n();
    if (N == 0 || r.b(0.35)) return;
    const double p = r.pick<double>({0.05, 0.3, 0.8});
    switch (r.i(0, 8))
    {
    case 0: // some zeros
        for (int64_t k = 0; k < N; ++k) if (r.b(p)) set(k, 0); break;
    case 1: // zero real or imaginary parts
        for (int64_t k = 0; k < N; ++k)
        {
            if (r.b(p)) set(k, cd(get(k).real(), 0));
            else if (r.b(p)) set(k, cd(0, get(k).imag()));
        }
        break;
    case 2: // zero slices along a random dimension
    {
        if (shape.empty()) return;
        const int dim = (int) r.i(0, (int64_t) shape.size() - 1);
        int64_t inner = 1;
        for (size_t k = dim + 1; k < shape.size(); ++k) inner *= shape[k];
        std::vector<char> z(shape[dim]);
        for (auto& v : z) v = r.b(p);
        for (int64_t k = 0; k < N; ++k) if (z[(k / inner) % shape[dim]]) set(k, 0);
        break;
    }
    case 3: // repeated values
        for (int64_t k = 1; k < N; ++k) if (r.b(p)) set(k, get(r.i(0, k - 1))); break;
    case 4: // all the same
        { const cd v = get(r.i(0, N - 1)); fill(v); break; }
    case 5: // whole numbers
        for (int64_t k = 0; k < N; ++k) set(k, cd(std::round(get(k).real()), std::round(get(k).imag()))); break;
    case 6: // very different magnitudes
        for (int64_t k = 0; k < N; ++k) if (r.b(p)) set(k, get(k) * std::pow(10.0, r.d(-6, 0))); break;
    case 7: // a single non-zero element
        { const int64_t k = r.i(0, N - 1); const cd v = get(k); fill(0); set(k, v); break; }
    default: // slices equal to the previous one along the first dimension
        if (shape.empty() || shape[0] < 2) return;
        for (int64_t k = N / shape[0]; k < N; ++k)
            if (r.b(p)) set(k, get(k - N / shape[0]));
    }
}

bool Arr::surround_unchanged() const
{
    if (snap.empty()) return true;
    if (map_bytes)
    {
        std::vector<unsigned char> own(snap.size(), 0);
        std::vector<size_t> base(1, 0);
        for (auto& q : parts) base.push_back(base.back() + q.second);
        for (int64_t f = 0; f < n(); ++f)
        {
            const size_t o = (size_t) (at(f) - block);
            for (size_t k = 0; k < parts.size(); ++k)
                if (o >= parts[k].first && o < parts[k].first + parts[k].second) memset(&own[base[k] + o - parts[k].first], 1, esize());
        }
        for (size_t k = 0; k < parts.size(); ++k)
            for (size_t j = 0; j < parts[k].second; ++j)
                if (!own[base[k] + j] && snap[base[k] + j] != block[parts[k].first + j]) return false;
        return true;
    }
    std::vector<unsigned char> own(block_bytes, 0);
    for (int64_t f = 0; f < n(); ++f) memset(own.data() + (at(f) - block), 1, esize());
    for (size_t k = 0; k < block_bytes; ++k)
        if (!own[k] && snap[k] != block[k]) return false;
    return true;
}

std::string Arr::str() const
{
    std::string s = type_name(type);
    s += "[";
    for (size_t k = 0; k < shape.size(); ++k)
        s += (k ? "," : "") + std::to_string(shape[k]);
    s += "]";
    if (!sdp_mem_is_c_contiguous(mem)) s += "s";
    return s;
}

std::vector<cd> naive_dft(const std::vector<cd>& in, bool forward)
{
    const int64_t n = (int64_t) in.size();
    std::vector<cd> tw(n), out(n);
    for (int64_t k = 0; k < n; ++k)
    {
        double ph = (forward ? -2 : 2) * M_PI * (double) k / (double) n;
        tw[k] = cd(std::cos(ph), std::sin(ph));
    }
    for (int64_t k = 0; k < n; ++k)
    {
        cd s(0);
        for (int64_t j = 0; j < n; ++j) s += in[j] * tw[(j * k) % n];
        out[k] = s;
    }
    return out;
}

double max_abs(const std::vector<cd>& v)
{
    double m = 0; for (auto& x : v) m = std::max(m, std::abs(x)); return m;
}

double max_diff(const std::vector<cd>& a, const std::vector<cd>& b)
{
    double m = 0;
    for (size_t k = 0; k < a.size(); ++k)
    {
        double e = std::abs(a[k] - b[k]);
        if (!(e <= m)) m = e;
    }
    return m;
}

static void on_alarm(int)
{
    const char msg[] = "\nVH-HANG\n";
    (void) !write(2, msg, sizeof msg - 1);
    _exit(77);
}

static void on_exit_in_case()
{
    if (g_in_case)
    {
        const char msg[] = "\nVH-EXIT library terminated the process\n";
        (void) !write(2, msg, sizeof msg - 1);
        _exit(78);
    }
}

} // namespace vh

using namespace vh;

// Smallest and largest value of every "key=number" in the descriptions.
static std::map<std::string, std::pair<double, double>> g_ranges;

static void note_ranges(const std::string& d)
{
    for (size_t e = d.find('='); e != std::string::npos; e = d.find('=', e + 1))
    {
        size_t b = e;
        while (b > 0 && (isalnum((unsigned char) d[b - 1]) || d[b - 1] == '_')) b--;
        if (b == e) continue;
        const char* v = d.c_str() + e + 1;
        if (*v == '(') v++;
        char* end = 0;
        const double x = strtod(v, &end);
        if (end == v || !std::isfinite(x)) continue;
        const std::string key = d.substr(b, e - b);
        auto it = g_ranges.find(key);
        if (it == g_ranges.end())
        {
            if (g_ranges.size() < 24) g_ranges[key] = std::make_pair(x, x);
        }
        else
        {
            it->second.first = std::min(it->second.first, x);
            it->second.second = std::max(it->second.second, x);
        }
    }
}

// Hooks a driver may define.
extern "C" void vh_driver_begin(bool thorough) __attribute__((weak));
extern "C" void vh_driver_end() __attribute__((weak));

extern "C" void vh_register() __attribute__((weak)); // adds families

int main(int argc, char** argv)
{
    if (vh_register) vh_register();
    std::string fam, outp, progp;
    int64_t from = 0, to = -1;
    uint64_t seed = 1;
    bool thorough = false, list = false, verbose = false;
    for (int k = 1; k < argc; ++k)
    {
        std::string a = argv[k];
        auto nxt = [&]() { return std::string(argv[++k]); };
        if (a == "--list") list = true;
        else if (a == "--family") fam = nxt();
        else if (a == "--from") from = atoll(nxt().c_str());
        else if (a == "--to") to = atoll(nxt().c_str());
        else if (a == "--seed") seed = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--out") outp = nxt();
        else if (a == "--progress") progp = nxt();
        else if (a == "--thorough") thorough = true;
        else if (a == "--verbose") verbose = true;
    }
    if (list)
    {
        for (auto& f : families())
            printf("%s %lld %d\n", f.name.c_str(),
                    (long long) (thorough ? f.thorough : f.quick), f.timeout);
        fflush(stdout);
        return 0;
    }
    g_out = outp.empty() ? stdout : fopen(outp.c_str(), "a");
    if (!progp.empty()) g_progress = open(progp.c_str(), O_CREAT | O_WRONLY, 0644);
    if (!verbose && !getenv("VH_KEEP_LOG"))
    {
        // The library logs every error; keep only our own channel readable.
        if (!freopen("/dev/null", "w", stdout)) return 3;
    }
    signal(SIGALRM, on_alarm);
    atexit(on_exit_in_case);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (vh_driver_begin) vh_driver_begin(thorough);
    bool found = false;
    for (auto& f : families())
    {
        if (f.name != fam) continue;
        found = true;
        if (to < 0) to = thorough ? f.thorough : f.quick;
        for (int64_t k = from; k < to; ++k)
        {
            if (g_progress >= 0)
            {
                char b[32];
                int n = snprintf(b, sizeof b, "%-20lld\n", (long long) k);
                (void) !pwrite(g_progress, b, n, 0);
            }
            Case c;
            c.family = fam; c.idx = k; c.seed = seed; c.thorough = thorough;
            uint64_t h = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
            for (unsigned char ch : fam) h = (h ^ ch) * 0x100000001B3ull;
            c.rng = Rng(h ^ ((uint64_t) k * 0xD1342543DE82EF95ull));
            c.rng.u64();
            g_in_case = true;
            alarm(f.timeout);
            try { f.fn(c); }
            catch (const Stop&) {}
            alarm(0);
            g_in_case = false;
            fprintf(g_out, "{\"ev\":\"case\",\"idx\":%lld,\"sig\":\"%016llx\",\"triv\":%d",
                    (long long) k, (unsigned long long) c.sig, c.trivial ? 1 : 0);
            if (k - from < 2 || verbose) fprintf(g_out, ",\"desc\":\"%s\"", jesc(c.desc).c_str());
            fprintf(g_out, "}\n");
            note_ranges(c.desc);
            if ((k & 63) == 0) fflush(g_out);
        }
    }
    if (!found) { fprintf(stderr, "no such family %s\n", fam.c_str()); return 3; }
    g_in_case = true;  // leaks or exits below still belong to this driver
    if (vh_driver_end) vh_driver_end();
    g_in_case = false;
    fprintf(g_out, "{\"ev\":\"events\"");
    for (auto& e : g_events)
        fprintf(g_out, ",\"%s\":%llu", jesc(e.first).c_str(), (unsigned long long) e.second);
    fprintf(g_out, "}\n{\"ev\":\"ranges\"");
    for (auto& e : g_ranges)
        fprintf(g_out, ",\"%s\":[%.6g,%.6g]", e.first.c_str(), e.second.first, e.second.second);
    fprintf(g_out, "}\n{\"ev\":\"done\",\"fails\":%d}\n", g_total_fails);
    fflush(g_out);
    return 0;
}
