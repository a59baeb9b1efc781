// Memory handles against plain index arithmetic.
#include "vh.h"
#include <sys/mman.h>
#include "ska-sdp-func/utility/sdp_mem.h"
#include "ska-sdp-func/utility/sdp_mem_view.h"
using namespace vh;

static const sdp_MemType T[] = {SDP_MEM_CHAR, SDP_MEM_INT, SDP_MEM_FLOAT, SDP_MEM_DOUBLE, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE};

static std::vector<int64_t> rshape(Rng& r, int lo, int hi, int64_t maxdim = 6)
{
    int nd = (int) r.i(lo, hi);
    std::vector<int64_t> s(nd);
    for (auto& x : s) x = r.b(0.06) ? 0 : r.i(1, maxdim);
    return s;
}

static int64_t prod(const std::vector<int64_t>& s)
{
    int64_t n = 1; for (auto x : s) n *= x; return n;
}

static bool contiguous(const std::vector<int64_t>& sh, const std::vector<int64_t>& st, int64_t es)
{
    int64_t a = es;
    for (int k = (int) sh.size() - 1; k >= 0; --k) { if (st[k] != a) return false; a *= sh[k]; }
    return true;
}

// Everything a handle says about itself, against what it was made from.
static void check_meta(Case& c, const sdp_Mem* m, sdp_MemType t, const std::vector<int64_t>& sh, const std::vector<int64_t>& st, const void* data, const char* what)
{
    const int64_t es = (int64_t) type_size(t);
    if (sdp_mem_type(m) != t) c.fail("mem_type", "%s", what);
    if (sdp_mem_num_dims(m) != (int) sh.size()) c.fail("mem_num_dims", "%s %d", what, sdp_mem_num_dims(m));
    if (sdp_mem_num_elements(m) != prod(sh)) c.fail("mem_num_elements", "%s %lld", what, (long long) sdp_mem_num_elements(m));
    for (size_t k = 0; k < sh.size(); ++k)
    {
        if (sdp_mem_shape_dim(m, (int) k) != sh[k]) c.fail("mem_shape", "%s dim %zu: %lld vs %lld", what, k, (long long) sdp_mem_shape_dim(m, (int) k), (long long) sh[k]);
        if (sdp_mem_stride_bytes_dim(m, (int) k) != st[k]) c.fail("mem_stride", "%s dim %zu: %lld vs %lld", what, k, (long long) sdp_mem_stride_bytes_dim(m, (int) k), (long long) st[k]);
        if (sdp_mem_stride_elements_dim(m, (int) k) != st[k] / es) c.fail("mem_stride_elements", "%s dim %zu", what, k);
    }
    if (sdp_mem_shape_dim(m, -1) != 0 || sdp_mem_shape_dim(m, (int) sh.size()) != 0) c.fail("mem_shape_out_of_range", "%s", what);
    if (sdp_mem_stride_bytes_dim(m, (int) sh.size()) != 0) c.fail("mem_stride_out_of_range", "%s", what);
    if (data && sdp_mem_data_const(m) != data) c.fail("mem_data", "%s", what);
    if (sdp_mem_location(m) != SDP_MEM_CPU) c.fail("mem_location", "%s", what);
    if (!sh.empty() && sdp_mem_data_const(m))
    {
        bool any1 = false; for (auto x : sh) any1 |= x <= 1;
        bool want = contiguous(sh, st, es);
        bool got = sdp_mem_is_c_contiguous(m) != 0;
        if (want && !got) c.fail("mem_contiguous", "%s contiguous array reported as not", what);
        if (!want && got && !any1) c.fail("mem_contiguous", "%s strided array reported as contiguous", what);
        bool cx = t == SDP_MEM_COMPLEX_FLOAT || t == SDP_MEM_COMPLEX_DOUBLE;
        bool db = t == SDP_MEM_DOUBLE || t == SDP_MEM_COMPLEX_DOUBLE;
        if ((sdp_mem_is_complex(m) != 0) != cx) c.fail("mem_is_complex", "%s", what);
        if ((sdp_mem_is_double(m) != 0) != db) c.fail("mem_is_double", "%s", what);
        if ((sdp_mem_is_floating_point(m) != 0) != (t == SDP_MEM_FLOAT || t == SDP_MEM_DOUBLE)) c.fail("mem_is_floating", "%s", what);
        size_t nd = sh.size();
        bool c4 = cx && ((nd > 1 && sh[nd - 1] == 4) || (nd > 2 && sh[nd - 1] == 2 && sh[nd - 2] == 2));
        if ((sdp_mem_is_complex4(m) != 0) != c4) c.fail("mem_is_complex4", "%s", what);
    }
    c.count("handles_described");
}

FAMILY(describe, 1500, 20000)
{
    auto sh = rshape(c.rng, 0, 6, 5);
    if (c.rng.b(0.2)) sh.push_back(4);
    else if (c.rng.b(0.2)) { sh.push_back(2); sh.push_back(2); }
    sdp_MemType t = T[c.rng.i(0, 5)];
    int lay = c.rng.b(0.03) ? (int) L_FAR : (int) c.rng.i(0, 3);
    Arr a(t, sh, lay, &c.rng);
    c.note("%s layout=%s", a.str().c_str(), layout_name(lay));
    check_meta(c, a.mem, t, sh, a.stride, a.at(0), "wrapper");
    // Same description again through a wrapper without strides / allocation.
    sdp_Error st = SDP_SUCCESS;
    sdp_Mem* m = sdp_mem_create(t, SDP_MEM_CPU, (int) sh.size(), sh.data(), &st);
    if (st) c.fail("mem_create", "status %d", (int) st);
    std::vector<int64_t> cs(sh.size());
    int64_t acc = (int64_t) type_size(t);
    for (int k = (int) sh.size() - 1; k >= 0; --k) { cs[k] = acc; acc *= sh[k]; }
    if (acc) check_meta(c, m, t, sh, cs, 0, "allocated");
    if (acc)
    {
        const unsigned char* p = (const unsigned char*) sdp_mem_data(m);
        for (int64_t k = 0; k < acc; ++k) if (p[k]) { c.fail("mem_create_zero", "byte %lld not cleared", (long long) k); break; }
    }
    sdp_Mem* al = sdp_mem_create_alias(a.mem);
    check_meta(c, al, t, sh, a.stride, a.at(0), "alias");
    if (!sdp_mem_is_matching(al, a.mem, 1)) c.fail("mem_matching", "alias does not match its source");
    bool same = sh.size() > 0 && contiguous(sh, a.stride, (int64_t) type_size(t));
    if (!sh.empty() && (sdp_mem_is_matching(a.mem, m, 0) != 0) != (same || sh.empty())) { if (a.stride != cs) {} c.fail("mem_matching", "wrapper vs allocated: strides %s", same ? "equal" : "differ"); }
    sdp_mem_set_read_only(al, 1);
    if (!sdp_mem_is_read_only(al) || sdp_mem_is_read_only(a.mem)) c.fail("mem_read_only", "flag not independent");
    sdp_Mem* al2 = sdp_mem_create_alias(al);
    if (!sdp_mem_is_read_only(al2)) c.fail("mem_alias_read_only", "alias of read-only memory is writable");
    sdp_mem_free(al2);
    sdp_mem_set_read_only(al, 0);
    if (a.n() && sdp_mem_is_read_only(al)) c.fail("mem_read_only", "flag not cleared");
    sdp_mem_free(al); sdp_mem_free(m);
    // The checks used by every function.
    if (!sh.empty())
    {
        int64_t k = c.rng.i(0, (int64_t) sh.size() - 1);
        auto chk = [&](const char* nm, sdp_Error s, bool ok, sdp_Error expect) {
            if (ok && s) c.fail("mem_check", "%s raised %d", nm, (int) s);
            if (!ok && s != expect) c.fail("mem_check", "%s gave %d instead of %d", nm, (int) s, (int) expect); };
        sdp_Error s = SDP_SUCCESS;
        int64_t off = c.rng.i(-1, 1);
        sdp_mem_check_dim_size_at(a.mem, (int) k, sh[k] + off, &s, "e", "f", "x", 1); chk("dim_size", s, off == 0, SDP_ERR_INVALID_ARGUMENT);
        s = SDP_SUCCESS; sdp_mem_check_num_dims_at(a.mem, (int) sh.size() + off, &s, "e", "f", "x", 1); chk("num_dims", s, off == 0, SDP_ERR_INVALID_ARGUMENT);
        auto sh2 = sh; sh2[k] += off;
        s = SDP_SUCCESS; sdp_mem_check_shape_at(a.mem, (int) sh.size(), sh2.data(), &s, "e", "f", "x", 1); chk("shape", s, off == 0, SDP_ERR_INVALID_ARGUMENT);
        s = SDP_SUCCESS; sdp_mem_check_shape_dim_at(a.mem, (int) k, sh2[k], &s, "e", "f", "x", 1); chk("shape_dim", s, off == 0, SDP_ERR_INVALID_ARGUMENT);
        sdp_MemType t2 = T[c.rng.i(0, 5)];
        s = SDP_SUCCESS; sdp_mem_check_type_at(a.mem, t2, &s, "e", "f", "x", 1); chk("type", s, t2 == t, SDP_ERR_DATA_TYPE);
        s = SDP_SUCCESS; sdp_mem_check_location_at(a.mem, off ? SDP_MEM_GPU : SDP_MEM_CPU, &s, "e", "f", "x", 1); chk("location", s, !off, SDP_ERR_MEM_LOCATION);
        if (a.n())
        {
            s = SDP_SUCCESS; sdp_mem_check_c_contiguity_at(a.mem, &s, "e", "f", "x", 1); chk("contiguity", s, sdp_mem_is_c_contiguous(a.mem), SDP_ERR_INVALID_ARGUMENT);
            s = SDP_SUCCESS; sdp_mem_set_read_only(a.mem, off ? 1 : 0); sdp_mem_check_writeable_at(a.mem, &s, "e", "f", "x", 1); chk("writeable", s, !off, SDP_ERR_INVALID_ARGUMENT);
            sdp_mem_set_read_only(a.mem, 0);
        }
        if (sh2[k] < 0) sh2[k] = sh[k] + 1;
        Arr b(t, sh2);
        s = SDP_SUCCESS; sdp_mem_check_same_shape_at(a.mem, (int) k, b.mem, (int) k, &s, "f", "e", "e2", "x", 1); chk("same_shape", s, sh2[k] == sh[k], SDP_ERR_INVALID_ARGUMENT);
        c.count("argument_checks", 8);
    }
}

// Chains of slices: each must address the parent's elements.
FAMILY(slices, 1500, 20000)
{
    auto sh = rshape(c.rng, 1, 5, 7);
    for (auto& x : sh) if (!x) x = 1;
    sdp_MemType t = T[c.rng.i(0, 5)];
    int lay = c.rng.b(0.03) ? (int) L_FAR : (int) c.rng.i(0, 3);
    Arr a(t, sh, lay, &c.rng);
    for (int64_t f = 0; f < a.n(); ++f) a.set(f, cd((double) (f % 100), (double) (f % 37)));
    c.note("%s layout=%s", a.str().c_str(), layout_name(lay));
    std::vector<sdp_Mem*> chain = {a.mem};
    std::vector<int64_t> cur_sh = sh, cur_st = a.stride;
    unsigned char* base = a.at(0);
    int depth = (int) c.rng.i(1, 3);
    bool ro = false;
    for (int d = 0; d < depth; ++d)
    {
        std::vector<int64_t> off(cur_sh.size());
        for (size_t k = 0; k < off.size(); ++k) off[k] = c.rng.i(0, cur_sh[k] - 1);
        int nd = (int) c.rng.i(1, (int64_t) cur_sh.size());
        std::vector<int64_t> nsh(nd);
        bool fits = true;
        for (int k = 0; k < nd; ++k)
        {
            size_t s = cur_sh.size() - nd + k;
            nsh[k] = c.rng.i(0, cur_sh[s] - off[s]);
            if (nsh[k] == 0 && c.rng.b(0.8)) nsh[k] = 1;
            if (c.rng.b(0.08)) nsh[k] = c.rng.i(0, cur_sh[s] + 1);
            if (off[s] + nsh[k] > cur_sh[s]) fits = false;
        }
        if (c.rng.b(0.04)) { size_t k = c.rng.i(0, (int64_t) off.size() - 1); off[k] = c.rng.b() ? -1 : cur_sh[k]; fits = false; }
        if (c.rng.b(0.2) && !ro) { ro = true; sdp_mem_set_read_only(chain.back(), 1); }
        sdp_Error st = SDP_SUCCESS;
        sdp_Mem* s = sdp_mem_create_wrapper_for_slice(chain.back(), off.data(), nd, nsh.data(), &st);
        c.count("slices");
        if (!fits)
        {
            if (!st) c.fail("slice_out_of_range_accepted", "slice of %d dims beyond its source was accepted", nd);
            if (s) sdp_mem_free(s);
            c.count("slices_refused");
            break;
        }
        if (st || !s) c.fatal("slice_error", "status %d for a valid slice", (int) st);
        for (size_t k = 0; k < off.size(); ++k) base += off[k] * cur_st[k];
        std::vector<int64_t> nst(cur_st.end() - nd, cur_st.end());
        cur_sh = nsh; cur_st = nst;
        chain.push_back(s);
        check_meta(c, s, t, cur_sh, cur_st, base, "slice");
        if (ro && !sdp_mem_is_read_only(s)) c.fail("slice_read_only", "slice of read-only memory is writable");
        if (prod(cur_sh) == 0) break;
    }
    // Clear the last slice; only its elements may change.
    if (chain.size() > 1 && prod(cur_sh) > 0)
    {
        sdp_Error st = SDP_SUCCESS;
        a.snapshot();
        auto before = a.values();
        bool r = sdp_mem_is_read_only(chain.back());
        sdp_mem_clear_contents(chain.back(), &st);
        if (r != (st != SDP_SUCCESS)) c.fail("slice_clear", "status %d read_only %d", (int) st, (int) r);
        std::set<int64_t> in_slice;
        for (int64_t f = 0; f < prod(cur_sh); ++f)
        {
            int64_t g = f, o = base - a.block;
            for (int k = (int) cur_sh.size() - 1; k >= 0; --k) { o += (g % cur_sh[k]) * cur_st[k]; g /= cur_sh[k]; }
            for (size_t b = 0; b < type_size(t); ++b) in_slice.insert(o + (int64_t) b);
        }
        auto parts = a.parts;
        if (parts.empty()) parts.push_back({0, a.block_bytes});
        size_t q = 0;
        for (auto& part : parts) for (size_t k = part.first; k < part.first + part.second && !c.fails; ++k, ++q)
        {
            unsigned char want = in_slice.count((int64_t) k) && !r ? 0 : a.snap[q];
            if (a.block[k] != want) c.fail("slice_clear_value", "byte %zu is %d, should be %d", k, a.block[k], want);
        }
        c.count("slice_clears");
    }
    for (size_t k = chain.size(); k-- > 1;) sdp_mem_free(chain[k]);
    sdp_mem_set_read_only(a.mem, 0);
}

// A random history of operations on a few arrays, against a plain model.
FAMILY(history, 1200, 20000)
{
    sdp_MemType t = T[c.rng.i(0, 5)];
    const int na = 3;
    const bool large = c.rng.b(0.01);
    Arr* a[na];
    std::vector<cd> model[na];
    std::string desc;
    for (int k = 0; k < na; ++k)
    {
        auto sh = rshape(c.rng, 1, 3, 7);
        if (large) sh = c.rng.b() ? std::vector<int64_t>{c.rng.i(3000, 80000)} : std::vector<int64_t>{c.rng.i(30, 300), c.rng.i(30, 300)};
        int lay = c.rng.b(0.02) ? (int) L_FAR : (int) c.rng.i(0, 3);
        a[k] = new Arr(t, sh, lay, &c.rng);
        a[k]->fill_random(c.rng, -9, 9);
        a[k]->snapshot();
        model[k] = a[k]->values();
        desc += a[k]->str() + ":" + layout_name(lay) + " ";
    }
    c.note("%s", desc.c_str());
    const bool fl = t != SDP_MEM_CHAR && t != SDP_MEM_INT;
    int steps = (int) c.rng.i(3, 14);
    for (int s = 0; s < steps && !c.fails; ++s)
    {
        int x = (int) c.rng.i(0, na - 1), y = (int) c.rng.i(0, na - 1);
        sdp_Error st = SDP_SUCCESS;
        bool ro = c.rng.b(0.15);
        sdp_mem_set_read_only(a[x]->mem, ro);
        int op = (int) c.rng.i(0, 6);
        bool expect_err = false, may_err = false;
        auto upd = model[x];
        const int64_t n = a[x]->n();
        switch (op)
        {
        case 0:
            sdp_mem_clear_contents(a[x]->mem, &st);
            expect_err = ro && n; for (auto& v : upd) v = 0; break;
        case 1:
        {
            int64_t i0 = c.rng.i(0, n), num = c.rng.i(0, n - i0);
            if (c.rng.b(0.15)) { num += c.rng.i(1, 5); expect_err = i0 + num > n; }
            else if (c.rng.b(0.1) && num) { i0 = -1; expect_err = true; }
            sdp_mem_clear_portion(a[x]->mem, i0, num, &st);
            if (ro && num && n) expect_err = true;
            if (!expect_err) for (int64_t k = i0; k < i0 + num; ++k) upd[k] = 0;
            break;
        }
        case 2:
        {
            if (x == y) y = (x + 1) % na;
            int64_t m = a[y]->n();
            int64_t num = c.rng.i(0, std::min(n, m));
            int64_t od = c.rng.i(0, n - num), os = c.rng.i(0, m - num);
            if (c.rng.b(0.12) && num) { num += std::max(n - od - num, m - os - num) + 1; }
            expect_err = num && n && m && (ro || od + num > n || os + num > m);
            if (c.rng.b()) sdp_mem_copy_contents(a[x]->mem, a[y]->mem, od, os, num, &st);
            else sdp_mem_copy_contents_async(a[x]->mem, a[y]->mem, od, os, num, 0, &st);
            may_err = m == 0 || n == 0;
            if (!expect_err) for (int64_t k = 0; k < num && n && m; ++k) upd[od + k] = model[y][os + k];
            break;
        }
        case 3:
        {
            double v = c.rng.b(0.3) ? (double) c.rng.i(-3, 3) : c.rng.d(-2, 2);
            sdp_mem_scale_real(a[x]->mem, v, &st);
            may_err = !sdp_mem_is_c_contiguous(a[x]->mem) || n == 0;
            expect_err = !may_err && (ro || !fl);
            for (auto& z : upd)
            {
                if (type_size(t) == 4 || t == SDP_MEM_COMPLEX_FLOAT) z = cd((float) z.real() * (float) v, (float) z.imag() * (float) v);
                else z *= v;
            }
            break;
        }
        case 4:
        {
            int v = (int) c.rng.i(-5, 5);
            sdp_mem_set_value(a[x]->mem, v, &st);
            may_err = n == 0;
            expect_err = n && (ro || t == SDP_MEM_CHAR);
            for (auto& z : upd) z = cd((double) v);
            break;
        }
        case 5:
        {
            sdp_mem_set_read_only(a[x]->mem, ro);
            sdp_Mem* cp = sdp_mem_create_copy(a[x]->mem, SDP_MEM_CPU, &st);
            if (st || !cp) c.fail("mem_copy", "status %d", (int) st);
            else
            {
                if (n && (sdp_mem_data(cp) == sdp_mem_data(a[x]->mem))) c.fail("mem_copy", "shares storage");
                if (sdp_mem_type(cp) != t || sdp_mem_num_dims(cp) != sdp_mem_num_dims(a[x]->mem)) c.fail("mem_copy", "type or dims");
                for (int k = 0; k < sdp_mem_num_dims(cp); ++k) if (sdp_mem_shape_dim(cp, k) != a[x]->shape[k]) c.fail("mem_copy", "shape");
                for (int64_t f = 0; f < n; ++f)
                {
                    int64_t g = f, o = 0;
                    for (int k = (int) a[x]->shape.size() - 1; k >= 0; --k) { o += (g % a[x]->shape[k]) * sdp_mem_stride_bytes_dim(cp, k); g /= a[x]->shape[k]; }
                    if (memcmp((char*) sdp_mem_data(cp) + o, a[x]->at(f), type_size(t))) { c.fail("mem_copy_value", "element %lld differs", (long long) f); break; }
                }
                // Writing to the copy must not reach the source (checked below).
                sdp_Error s2 = SDP_SUCCESS;
                sdp_mem_set_read_only(cp, 0);
                sdp_mem_clear_contents(cp, &s2);
                if (s2) c.fail("mem_copy_clear", "status %d", (int) s2);
            }
            sdp_mem_free(cp);
            c.count("copies");
            break;
        }
        case 6:
        {
            sdp_MemType to = T[c.rng.i(0, 5)];
            sdp_Mem* cv = sdp_mem_convert_precision(a[x]->mem, to, &st);
            bool cx = a[x]->is_complex();
            bool ok = to == t || (fl && to == (cx ? SDP_MEM_COMPLEX_FLOAT : SDP_MEM_FLOAT)) || (fl && to == (cx ? SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_DOUBLE));
            if (n == 0) { if (cv) sdp_mem_free(cv); st = SDP_SUCCESS; break; }
            if (!sdp_mem_is_c_contiguous(a[x]->mem)) { if (cv) sdp_mem_free(cv); st = SDP_SUCCESS; break; }
            if (ok != (st == SDP_SUCCESS)) c.fail("mem_convert", "%s to %s status %d", type_name(t), type_name(to), (int) st);
            if (!st)
            {
                c.count("conversions");
                if (sdp_mem_type(cv) != to || sdp_mem_num_elements(cv) != n || !sdp_mem_is_c_contiguous(cv)) c.fail("mem_convert", "type, size or layout");
                else for (int64_t f = 0; f < n; ++f)
                {
                    cd v = model[x][f], g;
                    if (to == SDP_MEM_FLOAT) g = ((float*) sdp_mem_data(cv))[f];
                    else if (to == SDP_MEM_DOUBLE) g = ((double*) sdp_mem_data(cv))[f];
                    else if (to == SDP_MEM_COMPLEX_FLOAT) g = cd(((std::complex<float>*) sdp_mem_data(cv))[f]);
                    else if (to == SDP_MEM_COMPLEX_DOUBLE) g = ((std::complex<double>*) sdp_mem_data(cv))[f];
                    else break;
                    if (to == SDP_MEM_FLOAT || to == SDP_MEM_COMPLEX_FLOAT) v = cd((float) v.real(), (float) v.imag());
                    if (g != v) { c.fail("mem_convert_value", "element %lld", (long long) f); break; }
                }
            }
            if (cv) sdp_mem_free(cv);
            st = SDP_SUCCESS;
            break;
        }
        }
        c.count("operations");
        if (op <= 4)
        {
            if (expect_err && !st) c.fail("mem_bad_call_accepted", "op %d on %s ro=%d", op, a[x]->str().c_str(), ro);
            if (st && !expect_err && !may_err) c.fail("mem_good_call_refused", "op %d on %s status %d", op, a[x]->str().c_str(), (int) st);
            if (!st) model[x] = upd;
            else c.count("refused");
        }
        sdp_mem_set_read_only(a[x]->mem, 0);
        for (int k = 0; k < na && !c.fails; ++k)
        {
            for (int64_t f = 0; f < a[k]->n(); ++f)
            {
                cd g = a[k]->get(f);
                double tol = op == 3 && k == x ? 1e-15 * std::abs(model[k][f]) : 0;
                if (!(std::abs(g - model[k][f]) <= tol)) { c.fail("mem_history", "after op %d on array %d: array %d element %lld is %g, expected %g", op, x, k, (long long) f, g.real(), model[k][f].real()); break; }
                if (tol) model[k][f] = g;
            }
            if (!a[k]->surround_unchanged()) c.fail("mem_surround", "after op %d on array %d: bytes outside array %d changed", op, x, k);
        }
    }
    for (int k = 0; k < na; ++k) delete a[k];
}

// The C++ views read and write the elements that index arithmetic gives.
template<typename N, int D> static void view_case(Case& c, sdp_MemType t)
{
    std::vector<int64_t> sh(D);
    for (auto& x : sh) x = c.rng.i(1, 5);
    int lay = c.rng.b(0.03) ? (int) L_FAR : (int) c.rng.i(0, 3);
    Arr a(t, sh, lay, &c.rng);
    a.fill_random(c.rng, -50, 50);
    a.snapshot();
    c.note("view %s layout=%s", a.str().c_str(), layout_name(lay));
    sdp_MemViewCpu<N, D> v; sdp_MemViewCpu<const N, D> cv;
    sdp_Error st = SDP_SUCCESS;
    sdp_mem_check_and_view_at(a.mem, &v, &st, "f", "e", "x", 1);
    if (std::is_floating_point<N>::value || a.is_complex()) {}
    if (st) c.fatal("view_error", "status %d", (int) st);
    std::vector<int64_t> ix(D, 0);
    for (int64_t f = 0; f < a.n(); ++f)
    {
        int64_t g = f; for (int k = D - 1; k >= 0; --k) { ix[k] = g % sh[k]; g /= sh[k]; }
        N* p = 0;
        if constexpr (D == 1) p = &v(ix[0]);
        if constexpr (D == 2) p = &v(ix[0], ix[1]);
        if constexpr (D == 3) p = &v(ix[0], ix[1], ix[2]);
        if constexpr (D == 4) p = &v(ix[0], ix[1], ix[2], ix[3]);
        if constexpr (D == 5) p = &v(ix[0], ix[1], ix[2], ix[3], ix[4]);
        if ((unsigned char*) p != a.at(f)) { c.fail("view_address", "element %lld", (long long) f); break; }
        c.count("view_accesses");
    }
    // wrong type, dims and read-only are refused
    sdp_MemViewCpu<N, D + (D < 5 ? 1 : -1)> w;
    st = SDP_SUCCESS;
    sdp_mem_check_and_view_at(a.mem, &w, &st, "f", "e", "x", 1);
    if (!st) c.fail("view_dims", "wrong number of dimensions accepted");
    sdp_mem_set_read_only(a.mem, 1);
    st = SDP_SUCCESS;
    sdp_mem_check_and_view_at(a.mem, &v, &st, "f", "e", "x", 1);
    if (!st) c.fail("view_read_only", "writable view of read-only memory");
}
template<typename N> static void view_t(Case& c, sdp_MemType t)
{
    switch (c.rng.i(1, 5))
    {
    case 1: view_case<N, 1>(c, t); break;
    case 2: view_case<N, 2>(c, t); break;
    case 3: view_case<N, 3>(c, t); break;
    case 4: view_case<N, 4>(c, t); break;
    default: view_case<N, 5>(c, t);
    }
}
FAMILY(views, 400, 4000)
{
    switch (c.rng.i(0, 4))
    {
    case 0: view_t<int>(c, SDP_MEM_INT); break;
    case 1: view_t<float>(c, SDP_MEM_FLOAT); break;
    case 2: view_t<double>(c, SDP_MEM_DOUBLE); break;
    case 3: view_t<std::complex<float> >(c, SDP_MEM_COMPLEX_FLOAT); break;
    default: view_t<std::complex<double> >(c, SDP_MEM_COMPLEX_DOUBLE);
    }
}
FAMILY(random_fill, 150, 1500)
{
    auto sh = rshape(c.rng, 1, 3, 30);
    sdp_MemType t = T[c.rng.i(0, 5)];
    int lay = c.rng.b(0.03) ? (int) L_FAR : (int) c.rng.i(0, 3);
    Arr a(t, sh, lay, &c.rng);
    a.snapshot();
    c.note("%s layout=%s", a.str().c_str(), layout_name(lay));
    sdp_Error st = SDP_SUCCESS;
    sdp_mem_random_fill(a.mem, &st);
    if (!a.surround_unchanged()) c.fail("random_fill_surround", "bytes outside the view changed");
    if (st) { if (!a.unchanged()) c.fail("random_fill_error_effect", "changed"); c.count("refused"); return; }
    std::set<double> vals;
    for (int64_t k = 0; k < a.n(); ++k)
    {
        cd v = a.get(k);
        if (!(v.real() >= 0 && v.real() <= 1 && v.imag() >= 0 && v.imag() <= 1)) { c.fail("random_fill_range", "value %g %g", v.real(), v.imag()); break; }
        vals.insert(v.real());
    }
    if (a.n() > 20 && (int64_t) vals.size() < a.n() / 2) c.fail("random_fill_variety", "%zu distinct of %lld", vals.size(), (long long) a.n());
    c.count("filled", a.n());
}
// More elements and bytes than a 32-bit number counts (in sparse memory: untouched pages cost nothing).
FAMILY(vast, 3, 20)
{
    Rng& r = c.rng;
    const sdp_MemType t = T[r.i(0, 5)];
    const int64_t es = (int64_t) type_size(t);
    const int nd = (int) r.i(1, 3);
    std::vector<int64_t> sh;
    if (nd == 1) sh = {r.pick<int64_t>({1ll << 31, 1ll << 32}) + r.i(-3, 1000)};
    else if (nd == 2) sh = {r.i(2, 70000), 0};
    else sh = {r.i(2, 300), r.i(2, 300), 0};
    if (nd > 1) { int64_t q = 1; for (int k = 0; k + 1 < nd; ++k) q *= sh[k]; sh.back() = (r.pick<int64_t>({1ll << 31, 1ll << 32}) + r.i(0, 100)) / q + 1; }
    const int64_t n = prod(sh);
    struct Map { unsigned char* p = 0; size_t n; ~Map() { if (p) munmap(p, n); } } m;
    m.n = (size_t) (n * es);
    void* v = mmap(0, m.n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (v == MAP_FAILED) { c.trivial = true; return; }
    m.p = (unsigned char*) v;
    std::vector<int64_t> st(sh.size());
    int64_t acc = es;
    for (size_t k = sh.size(); k-- > 0;) { st[k] = acc; acc *= sh[k]; }
    sdp_Error s = SDP_SUCCESS;
    struct H { sdp_Mem* m = 0; ~H() { sdp_mem_free(m); } } w, small;
    w.m = sdp_mem_create_wrapper(m.p, t, SDP_MEM_CPU, nd, sh.data(), r.b() ? st.data() : 0, &s);
    c.note("%s %lld elements, %d dims", type_name(t), (long long) n, nd);
    if (s) c.fatal("vast_create", "status %d", (int) s);
    check_meta(c, w.m, t, sh, st, m.p, "vast");
    // A second, small array to copy from and to.
    const int64_t ns = r.i(1, 60);
    std::vector<unsigned char> buf((size_t) (ns * es));
    for (auto& b : buf) b = (unsigned char) r.i(1, 250);
    small.m = sdp_mem_create_wrapper(buf.data(), t, SDP_MEM_CPU, 1, &ns, 0, &s);
    const auto src = buf;
    auto place = [&](int64_t room) { return r.b(0.2) ? n - room : std::min(n - room, std::max<int64_t>(0, r.pick<int64_t>({1ll << 31, 1ll << 32, n / 2, n - 1}) + r.i(-70, 70))); };
    for (int rep = 0; rep < 6 && !c.fails; ++rep)
    {
        const int64_t num = r.i(1, ns), os = r.i(0, ns - num), od = place(num);
        const int64_t a = std::max<int64_t>(0, od - 80), b = std::min(n, od + num + 80); // what is looked at
        std::vector<unsigned char> want(m.p + a * es, m.p + b * es);
        s = SDP_SUCCESS;
        sdp_mem_copy_contents(w.m, small.m, od, os, num, &s);
        if (s) c.fail("vast_copy", "status %d", (int) s);
        memcpy(&want[(size_t) ((od - a) * es)], &src[(size_t) (os * es)], (size_t) (num * es));
        if (memcmp(want.data(), m.p + a * es, want.size())) c.fail("vast_copy_value", "copy to element %lld", (long long) od);
        // and back, elsewhere in the small one
        const int64_t ob = r.i(0, ns - num);
        std::vector<unsigned char> keep = buf;
        sdp_mem_copy_contents(small.m, w.m, ob, od, num, &s);
        memcpy(&keep[(size_t) (ob * es)], &src[(size_t) (os * es)], (size_t) (num * es));
        if (s || keep != buf) c.fail("vast_copy_back", "copy from element %lld: status %d", (long long) od, (int) s);
        buf = src;
        // outside
        sdp_Error s2 = SDP_SUCCESS;
        sdp_mem_copy_contents(w.m, small.m, n - num + 1, os, num, &s2);
        if (!s2) c.fail("vast_copy_outside", "accepted");
        // Part of it cleared
        const int64_t cn = r.i(0, num), cs = od + r.i(0, num - cn);
        sdp_mem_clear_portion(w.m, cs, cn, &s);
        if (cn) memset(&want[(size_t) ((cs - a) * es)], 0, (size_t) (cn * es));
        if (s || memcmp(want.data(), m.p + a * es, want.size())) c.fail("vast_clear", "%lld elements from %lld: status %d", (long long) cn, (long long) cs, (int) s);
        // A slice around it, and the address views give
        std::vector<int64_t> o(sh.size()), z(sh.size());
        int64_t f = od;
        for (size_t k = sh.size(); k-- > 0;) { o[k] = f % sh[k]; f /= sh[k]; z[k] = std::min(sh[k] - o[k], r.i(1, 5)); }
        H part;
        s = SDP_SUCCESS;
        part.m = sdp_mem_create_wrapper_for_slice(w.m, o.data(), nd, z.data(), &s);
        if (s || !part.m || sdp_mem_data(part.m) != m.p + od * es) c.fail("vast_slice", "status %d", (int) s);
        if (t == SDP_MEM_DOUBLE || t == SDP_MEM_INT)
        {
            sdp_MemViewCpu<double, 1> d1; sdp_MemViewCpu<int, 1> i1; sdp_MemViewCpu<double, 2> d2; sdp_MemViewCpu<int, 2> i2; sdp_MemViewCpu<double, 3> d3; sdp_MemViewCpu<int, 3> i3;
            void* p = 0;
            if (t == SDP_MEM_DOUBLE && nd == 1) { sdp_mem_check_and_view_at(w.m, &d1, &s, "f", "e", "x", 1); if (!s) p = &d1(o[0]); }
            if (t == SDP_MEM_DOUBLE && nd == 2) { sdp_mem_check_and_view_at(w.m, &d2, &s, "f", "e", "x", 1); if (!s) p = &d2(o[0], o[1]); }
            if (t == SDP_MEM_DOUBLE && nd == 3) { sdp_mem_check_and_view_at(w.m, &d3, &s, "f", "e", "x", 1); if (!s) p = &d3(o[0], o[1], o[2]); }
            if (t == SDP_MEM_INT && nd == 1) { sdp_mem_check_and_view_at(w.m, &i1, &s, "f", "e", "x", 1); if (!s) p = &i1(o[0]); }
            if (t == SDP_MEM_INT && nd == 2) { sdp_mem_check_and_view_at(w.m, &i2, &s, "f", "e", "x", 1); if (!s) p = &i2(o[0], o[1]); }
            if (t == SDP_MEM_INT && nd == 3) { sdp_mem_check_and_view_at(w.m, &i3, &s, "f", "e", "x", 1); if (!s) p = &i3(o[0], o[1], o[2]); }
            if (p != m.p + od * es) c.fail("vast_view", "element %lld: status %d", (long long) od, (int) s);
        }
        c.count("vast_copies");
    }
    // Memory of that size owned by the library.
    if (!r.b(0.25) || es > 4) return;
    H own;
    int64_t size = ((1ll << 31) + r.i(1, 100)) / es + 1;
    s = SDP_SUCCESS;
    own.m = sdp_mem_create(t, SDP_MEM_CPU, 1, &size, &s);
    if (s == SDP_ERR_MEM_ALLOC_FAILURE) { c.count("no memory of that size"); return; }
    if (s) c.fatal("vast_create", "status %d", (int) s);
    unsigned char* d = (unsigned char*) sdp_mem_data(own.m);
    const int64_t bytes = size * es;
    for (int64_t k : {(int64_t) 0, (int64_t) 1 << 30, bytes - 1}) { if (d[k]) c.fail("vast_zero", "not cleared"); d[k] = 7; }
    if (r.b(0.4))
    {
        sdp_mem_clear_contents(own.m, &s);
        for (int64_t k : {(int64_t) 0, (int64_t) 1 << 30, bytes - 1}) if (s || d[k]) c.fail("vast_clear_all", "byte %lld is not cleared: status %d", (long long) k, (int) s);
    }
    c.count("vast_created");
}
// Names, sizes and null handles.
FAMILY(tables, 4, 4)
{
    c.note("case %lld", (long long) c.idx);
    for (auto t : T) if (sdp_mem_type_size(t) != (int64_t) type_size(t)) c.fail("mem_type_size", "%s", type_name(t));
    if (sdp_mem_type_size(SDP_MEM_VOID)) c.fail("mem_type_size", "void");
    std::set<std::string> names;
    for (auto t : T) names.insert(sdp_mem_type_name(t));
    if (names.size() != 6 || names.count("???")) c.fail("mem_type_name", "not distinct");
    if (std::string(sdp_mem_location_name(SDP_MEM_CPU)) != "CPU" || std::string(sdp_mem_location_name(SDP_MEM_GPU)) != "GPU") c.fail("mem_location_name", "names");
    if (sdp_mem_data(0) || sdp_mem_num_dims(0) || sdp_mem_num_elements(0) || sdp_mem_shape_dim(0, 0) || sdp_mem_stride_bytes_dim(0, 0) || sdp_mem_is_complex(0) || sdp_mem_is_c_contiguous(0) || sdp_mem_stride_elements_dim(0, 0)) c.fail("mem_null", "null handle");
    if (!sdp_mem_is_read_only(0)) c.fail("mem_null", "null handle is writable");
    sdp_mem_free(0); sdp_mem_ref_dec(0); if (sdp_mem_ref_inc(0)) c.fail("mem_null", "ref_inc");
    sdp_Error st = SDP_SUCCESS;
    int64_t sh = 3;
    sdp_Mem* g = sdp_mem_create(SDP_MEM_FLOAT, SDP_MEM_GPU, 1, &sh, &st);
    if (!st) c.fail("mem_gpu", "GPU memory without GPU support");
    sdp_mem_free(g);
    c.count("tables");
}
