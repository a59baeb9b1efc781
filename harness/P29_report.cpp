// Timers, sky coordinates and log messages: online models under a virtual clock.
#include "vh.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <spawn.h>
#include <time.h>
#include <unistd.h>
#include <dlfcn.h>
#include "ska-sdp-func/utility/sdp_logging.h"
#include "ska-sdp-func/utility/sdp_sky_coord.h"
#include "ska-sdp-func/utility/sdp_timer.h"
using namespace vh;

// ------------------------------------------------------------ virtual clock
static bool g_virtual = false;
static int64_t g_ns = 0;    // current virtual time
static int64_t g_real = 0;  // what has been added to the time of day by adjusting it
static int64_t g_step = 0;  // every reading moves the clock on by this much
static uint64_t g_reads = 0;
static int64_t tick() { ++g_reads; g_ns += g_step; return g_ns; }
extern "C" int clock_gettime(clockid_t id, struct timespec* ts)
{
    if (!g_virtual || id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) return (int) syscall(SYS_clock_gettime, id, ts);
    const int64_t t = tick() + (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? g_real : 0);
    ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
    return 0;
}
extern "C" int gettimeofday(struct timeval* tv, void*)
{
    struct timespec ts;
    if (g_virtual) { const int64_t t = tick() + g_real; ts.tv_sec = t / 1000000000; ts.tv_nsec = t % 1000000000; }
    else syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
extern "C" time_t time(time_t* out)
{
    time_t t;
    if (g_virtual) t = (tick() + g_real) / 1000000000;
    else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); t = ts.tv_sec; }
    if (out) *out = t;
    return t;
}
struct Virtual
{
    explicit Virtual(int64_t start, int64_t step = 0) { g_ns = start; g_step = step; g_real = 0; g_virtual = true; }
    ~Virtual() { g_virtual = false; }
};

// ---------------------------------------------------------- captured stdout
struct Capture
{
    int fd, old;
    Capture()
    {
        fflush(stdout);
        fd = memfd_create("log", 0); old = dup(1); dup2(fd, 1);
    }
    std::string done()
    {
        fflush(stdout);
        dup2(old, 1); close(old); old = -1;
        std::string s; char buf[4096]; ssize_t n;
        lseek(fd, 0, SEEK_SET);
        while ((n = read(fd, buf, sizeof buf)) > 0) s.append(buf, (size_t) n);
        close(fd); fd = -1;
        return s;
    }
};
static std::vector<std::string> lines_of(const std::string& s)
{
    std::vector<std::string> v; size_t i = 0;
    while (i < s.size())
    {
        size_t j = s.find('\n', i);
        if (j == std::string::npos) j = s.size();
        v.push_back(s.substr(i, j - i)); i = j + 1;
    }
    return v;
}

// -------------------------------------------------------------- one timer
struct TModel { double elapsed = 0, start = 0; bool paused = true; };

FAMILY(timer, 1500, 40000)
{
    Rng& r = c.rng;
    const int n = (int) r.i(1, 4), ops = (int) r.i(3, 80);
    Virtual v(r.i(5000000000ll, 1000000000000ll));
    std::vector<sdp_Timer*> t(n);
    std::vector<TModel> m(n);
    struct Free { std::vector<sdp_Timer*>& t; ~Free() { for (auto x : t) sdp_timer_free(x); } } free_{t};
    for (auto& x : t) x = sdp_timer_create(r.b(0.8) ? SDP_TIMER_NATIVE : SDP_TIMER_CUDA);
    auto now = [&]() { return g_ns * 1e-9; };
    std::string hist;
    for (int k = 0; k < ops; ++k)
    {
        g_ns += r.pick({(int64_t) 0, r.li(1, 1000), r.li(1, 1000000000), r.li(1, 100000000000ll)});
        if (r.b(0.1)) g_real = r.i(-2000000000ll, 4000000000ll); // somebody sets the clock
        const int i = (int) r.i(0, n - 1);
        const int op = (int) r.i(0, 6);
        hist += (char) ('0' + i); hist += "pReRspE"[op];
        auto catchup = [&]() { if (!m[i].paused) { m[i].elapsed += now() - m[i].start; m[i].start = now(); } };
        double lost = 0;
        switch (op)
        {
        case 0: sdp_timer_pause(t[i]); catchup(); m[i].paused = true; break;
        case 1: sdp_timer_resume(t[i]); if (m[i].paused) { m[i].paused = false; m[i].start = now(); } break;
        case 2: sdp_timer_elapsed(t[i]); catchup(); break;
        case 3: // whether a restart keeps the time since the last reading is not said: both accepted
            if (!m[i].paused) lost = now() - m[i].start;
            sdp_timer_restart(t[i]); m[i].paused = false; m[i].start = now(); break;
        case 4: sdp_timer_start(t[i]); m[i].elapsed = 0; m[i].paused = false; m[i].start = now(); break;
        case 5: sdp_timer_pause(t[i]); catchup(); m[i].paused = true; break;
        case 6: sdp_timer_reset(t[i]); m[i] = TModel(); break;
        }
        // Every timer is read from time to time; only the one operated on may have changed otherwise.
        for (int q = 0; q < n; ++q) if (q == i || r.b(0.1))
        {
            const double e = sdp_timer_elapsed(t[q]);
            double want = m[q].elapsed + (m[q].paused ? 0 : now() - m[q].start);
            const double tol = 2e-6; // clocks of one microsecond will do
            if (q == i && lost > 0 && fabs(e - want - lost) < tol) want += lost;
            if (!m[q].paused) { m[q].start = now(); }
            m[q].elapsed = want;
            if (!(fabs(e - want) <= tol)) c.fatal("elapsed", "timer %d reads %.12g after %s, expected %.12g", q, e, hist.c_str(), want);
            c.count("timer readings checked");
        }
    }
    c.note("timers=%d history=%s", n, hist.c_str());
    for (char ch : hist) c.mix((uint64_t) ch);
    sdp_timer_free(0);
    c.count("virtual clock readings", g_reads); g_reads = 0;
}

// -------------------------------------------------------------- timer trees
struct MNode
{
    std::string name; MNode* parent = 0;
    std::vector<TModel> tmr; std::vector<bool> used;
    std::map<std::string, std::unique_ptr<MNode> > kids;
    sdp_TimerNode* real = 0;
    MNode* kid(const std::string& n)
    {
        auto& p = kids[n];
        if (!p) { p.reset(new MNode); p->name = n; p->parent = this; }
        return p.get();
    }
    void slots(size_t n) { if (tmr.size() < n) { tmr.resize(n); used.resize(n); } }
    static double val(const TModel& t) { return t.elapsed + (t.paused ? 0 : g_ns * 1e-9 - t.start); }
    double max_time() const { double v = 0; for (auto& t : tmr) v = std::max(v, val(t)); return v; }
    void resume(int i) { slots((size_t) i + 1); used[i] = true; if (tmr[i].paused) { tmr[i].paused = false; tmr[i].start = g_ns * 1e-9; } }
    void pause(int i) { if (i < (int) tmr.size() && !tmr[i].paused) { tmr[i].elapsed = val(tmr[i]); tmr[i].paused = true; } }
};

struct Line { int depth; char sym; std::string label; double sec, pct; bool has_pct, used = false; };

static bool parse_line(const std::string& s, Line& o)
{
    size_t p = s.find("|| ");
    if (p == std::string::npos) return false;
    p += 3;
    if (s[p] != '|' || s[p + 1] != ' ') return false;
    p += 2;
    size_t q = p; while (q < s.size() && s[q] == ' ') ++q;
    o.depth = (int) (q - p);
    o.sym = s[q];
    const size_t colon = s.rfind(": ");
    if (colon == std::string::npos || colon < q + 2) return false;
    o.label = s.substr(q + 2, colon - q - 2);
    while (!o.label.empty() && o.label.back() == ' ') o.label.pop_back();
    char unit[8] = ""; double pc = 0;
    const std::string rest = s.substr(colon + 2);
    const int k = sscanf(rest.c_str(), "%lf sec (%lf%%)", &o.sec, &pc);
    (void) unit;
    if (k < 1) return false;
    o.has_pct = k == 2; o.pct = pc;
    return true;
}

static void check_level(Case& c, const MNode* n, std::vector<Line>& ln, size_t& pos, int depth)
{
    // Children of n, largest first, each exactly once.
    const double total = n->max_time();
    double sum = 0, prev = INFINITY;
    std::set<std::string> seen;
    const double tol = 0.00052;
    for (size_t k = 0; k < n->kids.size(); ++k)
    {
        if (pos >= ln.size()) c.fatal("report_missing", "a timer of '%s' is not in the report (%zu of %zu)", n->name.c_str(), k, n->kids.size());
        const Line& l = ln[pos];
        auto it = n->kids.find(l.label);
        if (it == n->kids.end()) c.fatal("report_unknown", "unexpected entry '%s' below '%s'", l.label.c_str(), n->name.c_str());
        if (!seen.insert(l.label).second) c.fatal("report_twice", "'%s' is reported twice", l.label.c_str());
        const MNode* kd = it->second.get();
        const double v = kd->max_time();
        if (!(fabs(l.sec - v) <= tol)) c.fatal("report_time", "'%s' is reported with %.3f s, its timers ran %.6f s", l.label.c_str(), l.sec, v);
        if (total > 1e-4 && (!l.has_pct || !(fabs(l.pct - 100 * v / total) <= 0.0501 + 1e-6 * fabs(l.pct) + 4e-4 / total))) c.fatal("report_percent", "'%s' is reported with %.1f%%, it has %.3f%% of %.12f s", l.label.c_str(), l.pct, 100 * v / total, total);
        if (v > prev + 4e-6) c.fatal("report_order", "'%s' (%.12f s) comes after a timer with %.12f s", l.label.c_str(), v, prev);
        if (l.depth != (depth + 1) * 2) c.fatal("report_depth", "'%s' is indented by %d, its depth is %d", l.label.c_str(), l.depth, depth + 1);
        prev = v; sum += v; ++pos;
        c.count("reported timers checked");
        if (kd->tmr.size() > 1)
        {
            std::vector<double> t;
            for (auto& x : kd->tmr) t.push_back(MNode::val(x));
            std::sort(t.begin(), t.end());
            const int m = (int) t.size();
            auto q = [&](int num, int up) { return t[std::min(m - 1, up ? (num * m + 3) / 4 : num * (m - 1) / 4)]; };
            const char* nm[] = {"Minimum", "Maximum", "Median", "Interquartile range"};
            const double lo[] = {t[0], t[m - 1], t[(m - 1) / 2], std::max(0., q(3, 0) - q(1, 1))}, hi[] = {t[0], t[m - 1], t[m / 2], q(3, 1) - q(1, 0)};
            bool have[4] = {0, 0, 0, 0};
            for (int s = 0; s < 4 && pos < ln.size(); ++s, ++pos) for (int w = 0; w < 4; ++w) if (ln[pos].label == nm[w])
            {
                have[w] = true;
                if (!(ln[pos].sec >= lo[w] - tol && ln[pos].sec <= hi[w] + tol)) c.fatal("report_spread", "%s of '%s' with %d timers is %.3f, expected %.6f to %.6f", nm[w], l.label.c_str(), m, ln[pos].sec, lo[w], hi[w]);
                c.count("spread statistics checked");
            }
            for (int w = 0; w < 4; ++w) if (!have[w]) c.fatal("report_spread_missing", "no %s for '%s' with %d timers", nm[w], l.label.c_str(), m);
        }
        if (!kd->kids.empty()) check_level(c, kd, ln, pos, depth + 1);
    }
    const bool rest = pos < ln.size() && ln[pos].label == "(unaccounted time)" && ln[pos].depth == (depth + 1) * 2;
    const double margin = 1e-9 * (total + 1) + 1e-5;
    if (sum < 0.99 * total - margin && !rest) c.fatal("report_rest_missing", "%.6f of %.6f s below '%s' are not accounted for", total - sum, total, n->name.c_str());
    if (sum > 0.99 * total + margin && rest) c.fatal("report_rest_extra", "%.6f of %.6f s below '%s' are accounted for", sum, total, n->name.c_str());
    if (rest)
    {
        if (!(fabs(ln[pos].sec - (total - sum)) <= tol)) c.fatal("report_rest", "unaccounted %.3f s, expected %.6f", ln[pos].sec, total - sum);
        ++pos;
    }
}

FAMILY(timer_tree, 1500, 40000)
{
    Rng& r = c.rng;
    Virtual v(r.i(5000000000ll, 1000000000000ll));
    const int nth = (int) r.i(1, 12), ops = (int) r.i(1, 60);
    const char* names[] = {"a", "gridding", "FFT", "degridding of all sub-grids in the stack", "x y", "b/c", "weights %d %s"};
    std::string hist, rootname = r.pick({"All", "A collection of timers", "x"});
    sdp_Timers* t = sdp_timers_create(rootname.c_str(), SDP_TIMER_NATIVE, nth);
    struct Free { sdp_Timers* t; ~Free() { sdp_timers_free(t); } } free_{t};
    MNode root; root.name = rootname; root.slots(1); root.resume(0); root.real = sdp_timers_root(t);
    MNode* cur = &root;
    std::vector<std::pair<MNode*, int> > open_; // explicit states: node, index
    for (int k = 0; k < ops; ++k)
    {
        g_ns += r.pick({(int64_t) 0, r.li(1, 1000000000), r.li(1000000, 100000000000ll)});
        if (r.b(0.03)) g_real = r.i(-2000000000ll, 4000000000ll); // somebody sets the clock
        const char* nm = names[r.i(0, 6)];
        const int op = (int) r.i(0, 9);
        if (op <= 2)
        {
            hist += std::string("push ") + nm + "; ";
            if (sdp_timers_push(t, nm, 0, 0)) c.fatal("push_result", "a push without a node returned one");
            cur = cur->kid(nm); cur->resume(0);
        }
        else if (op <= 4)
        {
            hist += "pop; ";
            if (sdp_timers_pop(t, 0, 0)) c.fatal("pop_result", "a pop without a node returned one");
            if (cur != &root) { cur->pause(0); cur = cur->parent; }
        }
        else if (op == 5)
        {
            hist += std::string("pop_push ") + nm + "; ";
            sdp_timers_pop_push(t, nm, 0, 0);
            if (cur != &root) { cur->pause(0); cur = cur->parent; }
            cur = cur->kid(nm); cur->resume(0);
        }
        else if (op == 6)
        {
            const int num = (int) r.pick({nth, nth, 1, 0, nth + 3});
            char b[64]; snprintf(b, 64, "set %s %d; ", nm, num); hist += b;
            sdp_TimerNode* nd = sdp_timers_create_set(t, nm, num, 0);
            MNode* m = cur->kid(nm); m->slots((size_t) num);
            if (m->real && m->real != nd) c.fatal("node_moved", "the node of '%s' is a different one now", nm);
            m->real = nd;
        }
        else if (op <= 8)
        {
            // As from a thread: the state is passed in and returned.
            MNode* base = &root; int idx = (int) r.i(0, nth - 1);
            if (!open_.empty() && r.b()) { base = open_.back().first; idx = open_.back().second; }
            if (!base->real) continue;
            sdp_timers_create_set(t, nm, nth, base->real); base->kid(nm)->slots((size_t) nth);
            sdp_TimerNode* nd = sdp_timers_push(t, nm, idx, base->real);
            MNode* m = base->kid(nm);
            if (!nd) c.fatal("push_node", "a push below a node returned none");
            if (m->real && m->real != nd) c.fatal("node_moved", "the node of '%s' is a different one now", nm);
            m->real = nd; m->resume(idx);
            open_.push_back({m, idx});
            char b[64]; snprintf(b, 64, "push %s in thread %d; ", nm, idx); hist += b;
        }
        else if (!open_.empty())
        {
            auto o = open_.back(); open_.pop_back();
            if (r.b(0.7))
            {
                hist += "pop in thread; ";
                sdp_TimerNode* nd = sdp_timers_pop(t, o.second, o.first->real);
                o.first->pause(o.second);
                if (nd != o.first->parent->real) c.fatal("pop_node", "a pop of a node did not return its parent");
            }
            else
            {
                hist += std::string("pop_push in thread ") + nm + "; ";
                sdp_timers_create_set(t, nm, nth, o.first->parent->real);
                MNode* m = o.first->parent->kid(nm); m->slots((size_t) nth);
                sdp_TimerNode* nd = sdp_timers_pop_push(t, nm, o.second, o.first->real);
                o.first->pause(o.second); m->resume(o.second);
                if (!nd) c.fatal("push_node", "a push below a node returned none");
                if (m->real && m->real != nd) c.fatal("node_moved", "the node of '%s' is a different one now", nm);
                m->real = nd;
                open_.push_back({m, o.second});
            }
        }
        c.count("timer tree operations");
    }
    if (sdp_timers_root(t) != root.real) c.fatal("root_moved", "the root is a different node now");
    g_ns += r.li(1, 10000000000ll);
    c.note("threads=%d %s", nth, hist.c_str());
    for (char ch : hist) c.mix((uint64_t) ch);
    for (int pass = 0; pass < 2; ++pass)
    {
        // Writing the report does not change anything: the second one is the same, plus the time between.
        Capture cap;
        sdp_timers_report(t, "some_function", "some_file.cpp", 4711);
        const std::string out = cap.done();
        std::vector<Line> ln;
        for (auto& s : lines_of(out))
        {
            Line l;
            if (!parse_line(s, l)) c.fatal("report_format", "cannot read '%s'", s.c_str());
            if (s.find("|INFO||some_function|some_file.cpp#4711|| ") == std::string::npos) c.fatal("report_origin", "level or origin missing in '%s'", s.c_str());
            ln.push_back(l);
        }
        char th[32]; snprintf(th, 32, ", %d thread%s", nth, nth > 1 ? "s" : "");
        if (ln.empty() || ln[0].label != rootname + th || ln[0].depth != 0) c.fatal("report_root", "the report does not start with its name: '%s'", ln.empty() ? "" : ln[0].label.c_str());
        if (!(fabs(ln[0].sec - root.max_time()) <= 0.00051 + 1e-9 * g_ns * 1e-9)) c.fatal("report_total", "total %.3f s, expected %.6f", ln[0].sec, root.max_time());
        size_t pos = 1;
        check_level(c, &root, ln, pos, 0);
        if (pos != ln.size()) c.fatal("report_extra", "unexpected line '%s'", ln[pos].label.c_str());
        g_ns += r.li(1, 10000000000ll);
    }
    c.count("reports checked", 2);
}

// --------------------------------------------------------- sky coordinates
FAMILY(sky_coord, 600, 10000)
{
    Rng& r = c.rng;
    const int n = (int) r.i(1, 6);
    struct M { sdp_SkyCoord* s; std::string type; double v[3], epoch; };
    std::vector<M> m;
    struct Free { std::vector<M>& m; ~Free() { for (auto& y : m) sdp_sky_coord_free(y.s); } } free_{m};
    auto val = [&]() { return r.b(0.2) ? r.pick({0., -0., (double) NAN, (double) INFINITY, -(double) INFINITY, 1e308, 5e-324}) : r.d(-10, 10); };
    auto same = [](double a, double b) { return memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b)); };
    for (int k = 0; k < n; ++k)
    {
        M x;
        const int len = (int) (r.b(0.1) ? 0 : r.li(1, 300));
        for (int q = 0; q < len; ++q) x.type += (char) r.i(1, 255);
        for (auto& y : x.v) y = val();
        {
            std::unique_ptr<char[]> s(new char[x.type.size() + 1]);
            memcpy(s.get(), x.type.c_str(), x.type.size() + 1);
            x.s = sdp_sky_coord_create(s.get(), x.v[0], x.v[1], x.v[2]);
            memset(s.get(), 'Z', x.type.size()); // the string belongs to the caller
        }
        x.epoch = 2000.0;
        m.push_back(x); c.mix(r.s);
    }
    c.note("coordinates=%d type lengths %zu..", n, m[0].type.size());
    for (int k = 0; k < 40; ++k)
    {
        M& x = m[r.i(0, n - 1)];
        if (r.b(0.3)) { x.epoch = val(); sdp_sky_coord_set_epoch(x.s, x.epoch); }
        for (auto& y : m)
        {
            if (!same(sdp_sky_coord_epoch(y.s), y.epoch)) c.fatal("epoch", "epoch is %g, expected %g", sdp_sky_coord_epoch(y.s), y.epoch);
            if (y.type != sdp_sky_coord_type(y.s)) c.fatal("type", "type changed");
            const int d = (int) r.pick({0, 1, 2, 0, 1, 2, 3, -1, INT32_MAX, INT32_MIN});
            const double w = d >= 0 && d < 3 ? y.v[d] : 0.0;
            if (!same(sdp_sky_coord_value(y.s, d), w)) c.fatal("value", "coordinate %d is %g, expected %g", d, sdp_sky_coord_value(y.s, d), w);
            c.count("coordinate readings checked");
        }
    }
    sdp_sky_coord_free(0); sdp_sky_coord_set_epoch(0, 1);
    if (sdp_sky_coord_type(0) || sdp_sky_coord_epoch(0) != 0 || sdp_sky_coord_value(0, 0) != 0) c.fatal("null", "a missing coordinate has a value");
}

// -------------------------------------------------------------------- log
// Each case is a process of its own, as the level is read once per process.
struct Msg { int level; int stream; std::string func, file, text; int line; int64_t step, sum; int style; };
static std::vector<Msg> messages(uint64_t seed, int64_t& start, bool& by_macro)
{
    Rng r(seed);
    std::vector<Msg> v;
    by_macro = r.b(0.25);
    const int n = (int) r.i(1, 30);
    start = r.i(0, 4000000000ll) * 1000000000 + r.pick({(int64_t) 0, (int64_t) 999999999, (int64_t) 999400000, r.i(0, 999999999)});
    int64_t sum = 0;
    for (int k = 0; k < n; ++k)
    {
        Msg m;
        m.level = (int) r.i(SDP_LOG_LEVEL_DEBUG, SDP_LOG_LEVEL_CRITICAL);
        m.stream = (int) r.i(0, 1);
        m.func = std::string((size_t) r.li(1, 200), 'f'); m.file = std::string((size_t) r.li(1, 300), 'F') + ".cpp";
        m.line = (int) r.pick({(int64_t) 0, (int64_t) -1, (int64_t) INT32_MAX, r.i(1, 5000)});
        const int len = (int) (r.b(0.1) ? 0 : r.b(0.1) ? r.i(1000, 70000) : r.li(1, 300));
        for (int q = 0; q < len; ++q) { int ch = (int) r.i(32, 126); m.text += (char) ch; }
        m.style = (int) r.i(0, 2);
        m.step = r.pick({(int64_t) 0, r.li(1, 1000000), r.li(1, 100000000000ll)});
        sum += m.step; m.sum = sum;
        v.push_back(m);
    }
    return v;
}
static void emit(const Msg& m, FILE* st, bool macro)
{
    if (macro)
    {
#undef FILENAME
#define FILENAME "macro_file.cpp"
        switch (m.level)
        {
        case SDP_LOG_LEVEL_DEBUG: SDP_LOG_DEBUG("%s", m.text.c_str()); break;
        case SDP_LOG_LEVEL_INFO: SDP_LOG_INFO("%s", m.text.c_str()); break;
        case SDP_LOG_LEVEL_WARNING: SDP_LOG_WARNING("%s", m.text.c_str()); break;
        case SDP_LOG_LEVEL_ERROR: SDP_LOG_ERROR("%s", m.text.c_str()); break;
        default: SDP_LOG_CRITICAL("%s", m.text.c_str()); break;
        }
        return;
    }
    const sdp_LogLevel l = (sdp_LogLevel) m.level;
    if (m.style == 0) sdp_log_message(l, st, m.func.c_str(), m.file.c_str(), m.line, "%s", m.text.c_str());
    else if (m.style == 1) sdp_log_message(l, st, m.func.c_str(), m.file.c_str(), m.line, "%s %d %.17g %lld", m.text.c_str(), m.line, m.sum * 1e-3, (long long) m.sum);
    else sdp_log_message(l, st, m.func.c_str(), m.file.c_str(), m.line, "constant 100%%");
}
static std::string text_of(const Msg& m, bool macro)
{
    if (macro || m.style == 0) return m.text;
    if (m.style == 2) return "constant 100%";
    char b[128]; snprintf(b, 128, " %d %.17g %lld", m.line, m.sum * 1e-3, (long long) m.sum);
    return m.text + b;
}
__attribute__((constructor)) static void log_child()
{
    const char* s = getenv("VH_LOG_CHILD");
    if (!s) return;
    int64_t start; bool macro;
    std::vector<Msg> v = messages(strtoull(s, 0, 10), start, macro);
    Virtual vc(start);
    for (auto& m : v)
    {
        g_ns += m.step;
        emit(m, m.stream ? stderr : stdout, macro);
        // The environment is read once: later changes are not followed.
    }
    fflush(stdout);
    _exit(0);
}
extern char** environ;

FAMILY(log, 150, 2000)
{
    Rng& r = c.rng;
    const uint64_t seed = r.u64();
    int64_t start; bool macro;
    const std::vector<Msg> v = messages(seed, start, macro);
    const char* env = r.pick({(const char*) 0, "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL", "debug", "info", "warning", "error", "critical"});
    int floor_ = SDP_LOG_LEVEL_INFO;
    if (env) switch (toupper(env[0])) { case 'D': floor_ = SDP_LOG_LEVEL_DEBUG; break; case 'I': floor_ = SDP_LOG_LEVEL_INFO; break; case 'W': floor_ = SDP_LOG_LEVEL_WARNING; break; case 'E': floor_ = SDP_LOG_LEVEL_ERROR; break; case 'C': floor_ = SDP_LOG_LEVEL_CRITICAL; break; }
    c.note("level %s messages=%zu %s start=%lld ns", env ? env : "(unset)", v.size(), macro ? "from macros" : "from calls", (long long) start);
    c.mix(seed);
    std::vector<std::string> envs; std::vector<char*> ep;
    for (char** e = environ; *e; ++e) if (strncmp(*e, "SKA_SDP_FUNC_LOG_LEVEL=", 23)) envs.push_back(*e);
    if (env) envs.push_back(std::string("SKA_SDP_FUNC_LOG_LEVEL=") + env);
    char b[64]; snprintf(b, 64, "VH_LOG_CHILD=%llu", (unsigned long long) seed); envs.push_back(b);
    for (auto& s : envs) ep.push_back(&s[0]);
    ep.push_back(0);
    int fd[2] = {memfd_create("out", 0), memfd_create("err", 0)};
    posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, fd[0], 1); posix_spawn_file_actions_adddup2(&fa, fd[1], 2);
    char self[] = "/proc/self/exe"; char* av[] = {self, 0};
    pid_t pid; int st = 0;
    if (posix_spawn(&pid, self, &fa, 0, av, ep.data())) c.fatal("spawn", "cannot start a process");
    posix_spawn_file_actions_destroy(&fa);
    waitpid(pid, &st, 0);
    std::string out[2];
    for (int k = 0; k < 2; ++k)
    {
        char buf[65536]; ssize_t n; lseek(fd[k], 0, SEEK_SET);
        while ((n = read(fd[k], buf, sizeof buf)) > 0) out[k].append(buf, (size_t) n);
        close(fd[k]);
    }
    if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fatal("log_crash", "process ended with %x: %s", st, out[1].substr(0, 300).c_str());
    const char* names[] = {"UNDEF", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"};
    for (int k = 0; k < 2; ++k)
    {
        std::vector<std::string> ln = lines_of(out[k]);
        size_t pos = 0;
        for (auto& m : v)
        {
            const int stream = macro ? m.level >= SDP_LOG_LEVEL_WARNING : m.stream;
            if (stream != k) continue;
            if (m.level < floor_) { c.count("messages below the level"); continue; }
            if (pos >= ln.size()) c.fatal("log_missing", "a message of level %s is missing", names[m.level]);
            const std::string& s = ln[pos++];
            const int64_t t = start + m.sum;
            const time_t sec = (time_t) (t / 1000000000); struct tm tmv; gmtime_r(&sec, &tmv);
            char ts[64]; snprintf(ts, 64, "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ", tmv.tm_year + 1900, tmv.tm_mon + 1, tmv.tm_mday, tmv.tm_hour, tmv.tm_min, tmv.tm_sec, (int) (t % 1000000000 / 1000000));
            std::string want = std::string("1|") + ts + "|" + names[m.level] + "||" + (macro ? "emit|macro_file.cpp#" : m.func + "|" + m.file + "#");
            std::string tail = "|| " + text_of(m, macro);
            if (s.compare(0, want.size(), want)) c.fatal("log_head", "'%.120s' should start with '%.120s'", s.c_str(), want.c_str());
            std::string rest = s.substr(want.size());
            size_t p = rest.find('|');
            if (p == std::string::npos || (!macro && rest.substr(0, p) != std::to_string(m.line))) c.fatal("log_line", "wrong line number in '%.200s'", s.c_str());
            if (rest.substr(p) != tail) c.fatal("log_text", "message text differs: '%.100s' for '%.100s'", rest.substr(p).c_str(), tail.c_str());
            c.count("messages checked");
        }
        if (pos != ln.size()) c.fatal("log_extra", "unexpected line '%.200s'", ln[pos].c_str());
    }
}

// Timestamps while the clock moves: never before the call, never after its return.
FAMILY(log_time, 500, 10000)
{
    Rng& r = c.rng;
    Virtual v(r.i(0, 4000000000ll) * 1000000000 + r.pick({(int64_t) 999999999, (int64_t) 999900000, r.i(0, 999999999)}), r.pick({(int64_t) 1, (int64_t) 1000, (int64_t) 400000, r.li(1, 2000000000)}));
    c.note("start=%lld ns step=%lld ns", (long long) g_ns, (long long) g_step); c.mix((uint64_t) g_ns); c.mix((uint64_t) g_step);
    int64_t prev = 0;
    for (int k = 0; k < 5; ++k)
    {
        char* buf = 0; size_t n = 0;
        FILE* f = open_memstream(&buf, &n);
        const int64_t t0 = g_ns;
        sdp_log_message(SDP_LOG_LEVEL_CRITICAL, f, "f", "g", 1, "x");
        fclose(f);
        const int64_t t1 = g_ns;
        struct tm tmv; memset(&tmv, 0, sizeof tmv); int ms = -1;
        const int got = sscanf(buf, "1|%d-%d-%dT%d:%d:%d.%dZ|", &tmv.tm_year, &tmv.tm_mon, &tmv.tm_mday, &tmv.tm_hour, &tmv.tm_min, &tmv.tm_sec, &ms);
        std::string line(buf, n); free(buf);
        if (got != 7) c.fatal("log_stamp", "cannot read the time of '%s'", line.c_str());
        tmv.tm_year -= 1900; tmv.tm_mon -= 1;
        const int64_t stamp = (int64_t) timegm(&tmv) * 1000 + ms;
        if (stamp < t0 / 1000000 || stamp > t1 / 1000000) c.fatal("log_stamp_range", "stamp %lld ms, but the call lasted from %lld to %lld ms", (long long) stamp, (long long) (t0 / 1000000), (long long) (t1 / 1000000));
        if (stamp < prev) c.fatal("log_stamp_back", "stamps go back in time");
        prev = stamp;
        c.count("timestamps checked");
    }
}
