// Flagger with more samples than a 32-bit number counts (built without sanitizers: they take too long with).
#include "vh.h"
#include "ska-sdp-func/visibility/sdp_flagger.h"
using namespace vh;

FAMILY(vast, 1, 6)
{
    Rng& r = c.rng;
    // All zero except for a few samples; the medians are those of the first channel, always zero.
    const int64_t nt = r.i(2, 4), nb = r.i(60, 300), np = r.pick<int64_t>({1, 2, 4}), nc = ((1ll << 31) + r.i(1, 1ll << 24)) / (nt * nb * np) + 1;
    const int win = (int) r.pick({0, 1, 3});
    const double alpha = r.pick({0.25, 0.5, 1.0});
    Arr vis = Arr::vast(SDP_MEM_COMPLEX_FLOAT, {nt, nb, nc, np}), flags = Arr::vast(SDP_MEM_INT, {nt, nb, nc, np});
    if (!vis.mem || !flags.mem) { c.trivial = true; return; }
    c.note("nt=%lld nb=%lld nc=%lld np=%lld win=%d", (long long) nt, (long long) nb, (long long) nc, (long long) np, win); c.mix(r.s);
    std::map<std::vector<int64_t>, double> on; // (baseline, channel, polarisation, time): amplitude
    auto idx = [&](int64_t t, int64_t b, int64_t ch, int64_t p) { return ((t * nb + b) * nc + ch) * np + p; };
    for (int q = 0; q < 24; ++q)
    {
        const int64_t t = q < 6 ? nt - 1 : r.i(0, nt - 1), b = q < 3 ? nb - 1 : r.i(0, nb - 1), ch = q == 0 ? nc - 1 : r.i(1, nc - 1), p = q == 0 ? np - 1 : r.i(0, np - 1);
        const double a = (double) r.i(1, 50);
        on[{b, ch, p, t}] = a;
        vis.set(idx(t, b, ch, p), r.b() ? cd(0, -a) : cd(a, 0));
    }
    std::set<int64_t> want;
    auto spread = [&](int64_t t, int64_t b, int64_t ch, int64_t p) { for (int64_t x = std::max<int64_t>(0, ch - win); x <= std::min(nc - 1, ch + win); ++x) want.insert(idx(t, b, x, p)); };
    std::set<std::vector<int64_t>> lines;
    for (auto& o : on) lines.insert({o.first[0], o.first[1], o.first[2]});
    for (auto& l : lines)
    {
        double score = 0, prev = 0;
        for (int64_t t = 0; t < nt; ++t)
        {
            auto it = on.find({l[0], l[1], l[2], t});
            const double v = it == on.end() ? 0 : it->second;
            if (v != 0) spread(t, l[0], l[1], l[2]);
            if (t > 0)
            {
                const double rate = std::fabs(v - prev);
                score = t == 1 ? rate : alpha * rate + (1 - alpha) * score;
                if (score != 0) { spread(t, l[0], l[1], l[2]); spread(t - 1, l[0], l[1], l[2]); }
            }
            prev = v;
        }
    }
    vis.read_only(true);
    sdp_Error st = SDP_SUCCESS;
    sdp_flagger_dynamic_threshold(vis.mem, flags.mem, alpha, 3, 3, 3, (int) nc, win, 2, &st);
    if (st) c.fatal("status", "valid call failed with %d", (int) st);
    for (auto k : want) if (flags.get(k).real() != 1) { c.fatal("vast_missed", "sample %lld is not flagged", (long long) k); }
    for (auto b : flags.written_pages())
        for (int64_t k = b / 4; k < std::min(flags.n(), b / 4 + 1024); ++k)
            if (flags.get(k).real() != 0 && !want.count(k)) c.fatal("vast_flag", "sample %lld is flagged", (long long) k);
    c.count("vast_samples", (uint64_t) flags.n()); c.count("flagged", want.size());
}
