// Minimal OpenMP (GOMP ABI) runtime on pthreads, used instead of libgomp so
// that ThreadSanitizer sees all synchronisation, and so that the schedule can
// be varied from a seed.  Loop chunks are handed out with relaxed atomics on
// purpose: handing out work must not create happens-before edges.
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include "vh.h"

namespace {

struct Rng
{
    uint64_t s;
    uint64_t u64()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
};

std::atomic<uint64_t> g_seed(1), g_regions(0), g_chunks(0), g_crit(0),
    g_barriers(0), g_atomics(0), g_locks(0), g_maxteam(0), g_hash(0), g_order(0);
std::atomic<int> g_threads(4), g_perturb(0), g_levels(1);

enum { NWS = 256 };
struct Ws { std::atomic<long> next; std::atomic<int> claimed; };

struct Team
{
    int n;
    void (*fn)(void*);
    void* data;
    uint64_t region;
    int level;
    pthread_mutex_t mu;
    pthread_cond_t cv;
    int waiting;
    uint64_t gen;
    Ws ws[NWS];
};

struct Ctx
{
    Team* team = 0;
    int tid = 0;
    int ws = -1;
    int level = 0;
    Rng rng{1};
    // current loop, per thread
    long start = 0, end = 0, incr = 1, chunk = 1;
    int sections = 0;
};
thread_local Ctx ctx;

void pause_maybe(int kind)
{
    const int p = g_perturb.load(std::memory_order_relaxed);
    if (!p) return;
    uint64_t r = ctx.rng.u64();
    (void) kind;
    switch (r % 8)
    {
    case 0: sched_yield(); break;
    case 1: usleep((r >> 8) % 120); break;
    case 2:
        if (p > 1) usleep((r >> 8) % 1500);
        break;
    case 3:
        for (volatile int k = 0; k < (int) ((r >> 8) % 3000); k = k + 1) {}
        break;
    default: break;
    }
}

void event(uint64_t what)
{
    uint64_t o = g_order.fetch_add(1, std::memory_order_relaxed);
    uint64_t z = (o + 1) * 0x9E3779B97F4A7C15ull ^ (what + 0x51) * 0xD1342543DE82EF95ull
            ^ (uint64_t) (ctx.tid + 1) * 0x2545F4914F6CDD1Dull;
    z = (z ^ (z >> 29)) * 0xBF58476D1CE4E5B9ull;
    g_hash.fetch_add(z, std::memory_order_relaxed);
}

struct Start { Team* t; int tid; };

void run_member(Team* t, int tid)
{
    Ctx saved = ctx;
    ctx = Ctx();
    ctx.team = t; ctx.tid = tid; ctx.level = t->level;
    ctx.rng.s = g_seed.load(std::memory_order_relaxed) * 0x9E37 +
            t->region * 1000003 + (uint64_t) tid * 7919;
    pause_maybe(0);
    event(1);
    t->fn(t->data);
    ctx = saved;
}

void* member(void* p)
{
    Start* s = (Start*) p;
    run_member(s->t, s->tid);
    return 0;
}

// Called with a barrier semantics for the whole team.
void team_barrier()
{
    Team* t = ctx.team;
    if (!t || t->n == 1) return;
    g_barriers.fetch_add(1, std::memory_order_relaxed);
    pause_maybe(1);
    pthread_mutex_lock(&t->mu);
    uint64_t gen = t->gen;
    if (++t->waiting == t->n)
    {
        t->waiting = 0; t->gen++;
        pthread_cond_broadcast(&t->cv);
    }
    else
        while (gen == t->gen) pthread_cond_wait(&t->cv, &t->mu);
    pthread_mutex_unlock(&t->mu);
}

} // namespace

extern "C" {

void vh_shim_config(uint64_t seed, int threads, int perturb)
{
    g_seed = seed; g_threads = threads; g_perturb = perturb;
    g_hash = 0; g_order = 0; g_regions = 0; g_chunks = 0; g_crit = 0; g_barriers = 0; g_atomics = 0; g_locks = 0; g_maxteam = 0;
}

void vh_shim_stats(vh::SchedStats* o)
{
    o->regions = g_regions; o->chunks = g_chunks; o->criticals = g_crit;
    o->barriers = g_barriers; o->atomics = g_atomics; o->locks = g_locks;
    o->max_team = g_maxteam; o->hash = g_hash;
}

void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned flags)
{
    (void) flags;
    int n = nt ? (int) nt : g_threads.load(std::memory_order_relaxed);
    if (ctx.level >= g_levels.load(std::memory_order_relaxed)) n = 1;
    if (n > 64) n = 64;
    if (n < 1) n = 1;
    Team* t = (Team*) calloc(1, sizeof(Team));
    t->n = n; t->fn = fn; t->data = data;
    t->level = ctx.level + (n > 1 ? 1 : 0);
    t->region = g_regions.fetch_add(1, std::memory_order_relaxed);
    pthread_mutex_init(&t->mu, 0);
    pthread_cond_init(&t->cv, 0);
    uint64_t m = g_maxteam.load(std::memory_order_relaxed);
    if ((uint64_t) n > m) g_maxteam.store(n, std::memory_order_relaxed);
    pthread_t th[64];
    Start st[64];
    for (int k = 1; k < n; ++k)
    {
        st[k] = Start{t, k};
        if (pthread_create(&th[k], 0, member, &st[k])) abort();
    }
    run_member(t, 0);
    for (int k = 1; k < n; ++k) pthread_join(th[k], 0);
    pthread_mutex_destroy(&t->mu);
    pthread_cond_destroy(&t->cv);
    free(t);
}

static void loop_begin(long start, long end, long incr, long chunk)
{
    ctx.ws++;
    if (ctx.ws >= NWS) abort();
    ctx.start = start; ctx.end = end; ctx.incr = incr;
    ctx.chunk = chunk < 1 ? 1 : chunk;
}

static bool loop_next(long* is, long* ie)
{
    long total = ctx.incr > 0 ?
            (ctx.end - ctx.start + ctx.incr - 1) / ctx.incr :
            (ctx.start - ctx.end - ctx.incr - 1) / -ctx.incr;
    if (total < 0) total = 0;
    pause_maybe(2);
    long c = 0;
    if (ctx.team)
        c = ctx.team->ws[ctx.ws].next.fetch_add(1, std::memory_order_relaxed);
    else
    {
        static thread_local int seen_ws = -2; static thread_local long k = 0;
        if (seen_ws != ctx.ws) { seen_ws = ctx.ws; k = 0; }
        c = k++;
    }
    long lo = c * ctx.chunk;
    if (lo >= total) return false;
    long hi = lo + ctx.chunk < total ? lo + ctx.chunk : total;
    *is = ctx.start + lo * ctx.incr;
    *ie = ctx.start + hi * ctx.incr;
    g_chunks.fetch_add(1, std::memory_order_relaxed);
    event(0x100 + (uint64_t) c);
    return true;
}

#define LOOPS(NAME) \
    bool GOMP_loop_ ## NAME ## _start(long s, long e, long i, long c, long* is, long* ie) \
    { loop_begin(s, e, i, c); return loop_next(is, ie); } \
    bool GOMP_loop_ ## NAME ## _next(long* is, long* ie) { return loop_next(is, ie); }
LOOPS(static)
LOOPS(dynamic)
LOOPS(guided)
LOOPS(nonmonotonic_dynamic)
LOOPS(nonmonotonic_guided)
#define LOOPSR(NAME) \
    bool GOMP_loop_ ## NAME ## _start(long s, long e, long i, long* is, long* ie) \
    { loop_begin(s, e, i, 1); return loop_next(is, ie); } \
    bool GOMP_loop_ ## NAME ## _next(long* is, long* ie) { return loop_next(is, ie); }
LOOPSR(runtime)
LOOPSR(nonmonotonic_runtime)
LOOPSR(maybe_nonmonotonic_runtime)

#define LOOPSULL(NAME) \
    bool GOMP_loop_ull_ ## NAME ## _start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* is, unsigned long long* ie) \
    { (void) up; loop_begin((long) s, (long) e, (long) i, (long) c); return loop_next((long*) is, (long*) ie); } \
    bool GOMP_loop_ull_ ## NAME ## _next(unsigned long long* is, unsigned long long* ie) { return loop_next((long*) is, (long*) ie); }
LOOPSULL(static)
LOOPSULL(dynamic)
LOOPSULL(guided)
LOOPSULL(nonmonotonic_dynamic)
LOOPSULL(nonmonotonic_guided)

void GOMP_loop_end() { team_barrier(); }
void GOMP_loop_end_nowait() {}

struct PL { void (*fn)(void*); void* data; long s, e, i, c; };
static void pl_fn(void* p)
{
    PL* q = (PL*) p;
    loop_begin(q->s, q->e, q->i, q->c);
    q->fn(q->data);
}
#define PLOOP(NAME) \
    void GOMP_parallel_loop_ ## NAME(void (*fn)(void*), void* data, unsigned nt, long s, long e, long i, long c, unsigned fl) \
    { PL q = {fn, data, s, e, i, c}; GOMP_parallel(pl_fn, &q, nt, fl); }
PLOOP(static)
PLOOP(dynamic)
PLOOP(guided)
PLOOP(nonmonotonic_dynamic)
PLOOP(nonmonotonic_guided)
#define PLOOPR(NAME) \
    void GOMP_parallel_loop_ ## NAME(void (*fn)(void*), void* data, unsigned nt, long s, long e, long i, unsigned fl) \
    { PL q = {fn, data, s, e, i, 1}; GOMP_parallel(pl_fn, &q, nt, fl); }
PLOOPR(runtime)
PLOOPR(nonmonotonic_runtime)
PLOOPR(maybe_nonmonotonic_runtime)

unsigned GOMP_sections_next()
{
    pause_maybe(2);
    long c = ctx.team ? ctx.team->ws[ctx.ws].next.fetch_add(1, std::memory_order_relaxed) : ctx.start++;
    return c < ctx.sections ? (unsigned) c + 1 : 0;
}
unsigned GOMP_sections_start(unsigned count)
{
    ctx.ws++; ctx.sections = (int) count; ctx.start = 0;
    return GOMP_sections_next();
}
void GOMP_sections_end() { team_barrier(); }
void GOMP_sections_end_nowait() {}
struct PS { void (*fn)(void*); void* data; unsigned n; };
static void ps_fn(void* p)
{
    PS* q = (PS*) p;
    ctx.ws++; ctx.sections = (int) q->n; ctx.start = 0;
    q->fn(q->data);
}
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned nt, unsigned count, unsigned fl)
{
    PS q = {fn, data, count};
    GOMP_parallel(ps_fn, &q, nt, fl);
}

bool GOMP_single_start()
{
    if (!ctx.team) return true;
    ctx.ws++;
    pause_maybe(3);
    return ctx.team->ws[ctx.ws].claimed.exchange(1, std::memory_order_relaxed) == 0;
}

void GOMP_barrier() { team_barrier(); }
void GOMP_taskwait() {}

static pthread_mutex_t g_crit_mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t g_atomic_mu = PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_start() { pause_maybe(4); g_crit.fetch_add(1, std::memory_order_relaxed); pthread_mutex_lock(&g_crit_mu); event(2); }
void GOMP_critical_end() { pthread_mutex_unlock(&g_crit_mu); pause_maybe(4); }
void GOMP_atomic_start() { g_atomics.fetch_add(1, std::memory_order_relaxed); pthread_mutex_lock(&g_atomic_mu); }
void GOMP_atomic_end() { pthread_mutex_unlock(&g_atomic_mu); }
void GOMP_critical_name_start(void** pp)
{
    pause_maybe(4);
    g_crit.fetch_add(1, std::memory_order_relaxed);
    pthread_mutex_t* m = (pthread_mutex_t*) __atomic_load_n(pp, __ATOMIC_ACQUIRE);
    if (!m)
    {
        pthread_mutex_t* nm = (pthread_mutex_t*) malloc(sizeof *nm);
        pthread_mutex_init(nm, 0);
        void* expect = 0;
        if (__atomic_compare_exchange_n(pp, &expect, nm, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) m = nm;
        else { free(nm); m = (pthread_mutex_t*) expect; }
    }
    pthread_mutex_lock(m);
    event(3);
}
void GOMP_critical_name_end(void** pp)
{
    pthread_mutex_unlock((pthread_mutex_t*) __atomic_load_n(pp, __ATOMIC_ACQUIRE));
    pause_maybe(4);
}

int omp_get_thread_num() { return ctx.team ? ctx.tid : 0; }
int omp_get_num_threads() { return ctx.team ? ctx.team->n : 1; }
int omp_get_max_threads()
{
    return ctx.level >= g_levels.load(std::memory_order_relaxed) ? 1 : g_threads.load(std::memory_order_relaxed);
}
void omp_set_num_threads(int n) { g_threads.store(n, std::memory_order_relaxed); }
int omp_in_parallel() { return ctx.team && ctx.team->n > 1; }
int omp_get_num_procs() { return 8; }
int omp_get_level() { return ctx.level; }
int omp_get_active_level() { return ctx.level; }
int omp_get_ancestor_thread_num(int) { return ctx.tid; }
int omp_get_team_size(int) { return ctx.team ? ctx.team->n : 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
int omp_get_thread_limit() { return 64; }
void omp_set_max_active_levels(int n) { g_levels.store(n < 1 ? 1 : n, std::memory_order_relaxed); }
int omp_get_max_active_levels() { return g_levels.load(std::memory_order_relaxed); }
double omp_get_wtime()
{
    struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double) ts.tv_sec + 1e-9 * (double) ts.tv_nsec;
}
struct Lk { pthread_mutex_t m; };
typedef struct { Lk* p; } lock_t_;
static_assert(sizeof(void*) >= sizeof(lock_t_), "lock");
// omp_lock_t is 4 bytes on this ABI: keep the locks in a table.
enum { MAXL = 1 << 16 };
static pthread_mutex_t* g_lock[MAXL];
static std::atomic<unsigned> g_nlock(1);
void omp_init_lock(unsigned* l)
{
    unsigned k = g_nlock.fetch_add(1, std::memory_order_relaxed) % MAXL;
    if (!k) k = g_nlock.fetch_add(1, std::memory_order_relaxed) % MAXL;
    pthread_mutex_t* m = (pthread_mutex_t*) malloc(sizeof *m);
    pthread_mutex_init(m, 0);
    __atomic_store_n(&g_lock[k], m, __ATOMIC_RELAXED);
    *l = k;
}
void omp_destroy_lock(unsigned* l)
{
    pthread_mutex_t* m = g_lock[*l];
    pthread_mutex_destroy(m); free(m);
    *l = 0;
}
void omp_set_lock(unsigned* l)
{
    pause_maybe(5);
    g_locks.fetch_add(1, std::memory_order_relaxed);
    pthread_mutex_lock(g_lock[*l]);
    event(4);
}
void omp_unset_lock(unsigned* l) { pthread_mutex_unlock(g_lock[*l]); pause_maybe(5); }
int omp_test_lock(unsigned* l) { return pthread_mutex_trylock(g_lock[*l]) == 0; }

} // extern C
