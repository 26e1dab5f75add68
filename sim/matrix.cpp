// C16: histories over a pool of matrices of every storage policy, layout and kind which may share storage,
// with allocation failures and dimension mismatches.
#include "matrix.h"
#include <functional>

using namespace sim;
using namespace mx;

static const int SLOT_TYPES[] = { DR, DR, DR, DC, DC, SH, SH, SH, S3, S3, S3C, SS, SS, H30, H30, D0, D0, D3, D23,
                                  P0, P0, P3, P3, WR, WR, WC, W3, W3C };
static const int SLOTS = sizeof(SLOT_TYPES) / sizeof(int);
static const index_t ARENA = 40;
static const char* const TYPE_NAMES[] = { "dyn", "dynC", "shared", "3x3", "3x3C", "shared3x3C", "3xN", "diag", "diag3", "diag2x3", "perm", "perm3", "wrap", "wrapC", "wrap3x3", "wrap3x3C" };

typedef std::shared_ptr<std::vector<double>> Cells;
enum Out { OKAY, FAULT, MISMATCH, WRONG };

static u64 modp(double x) { const i64 P = 2305843009213693951ll; i64 v = (i64)x % P; return (u64)(v < 0 ? v + P : v); }
static u64 mulmod(u64 a, u64 b) { return (u64)((unsigned __int128)a * b % 2305843009213693951ull); }
static u64 powmod(u64 a, u64 e) { u64 r = 1; for (; e; e >>= 1, a = mulmod(a, a)) if (e & 1) r = mulmod(r, a); return r; }
// is an integer matrix singular?
static bool singular(const Mat& m) {
    const u64 P = 2305843009213693951ull;
    index_t n = m.r; std::vector<u64> a;
    for (double x : m.v) a.push_back(modp(x));
    for (index_t i = 0; i < n; ++i) {
        index_t p = i; while (p < n && a[(size_t)(p * n + i)] == 0) ++p;
        if (p == n) return true;
        for (index_t c = 0; c < n; ++c) std::swap(a[(size_t)(p * n + c)], a[(size_t)(i * n + c)]);
        u64 iv = powmod(a[(size_t)(i * n + i)], P - 2);
        for (index_t r = i + 1; r < n; ++r) {
            u64 f = mulmod(a[(size_t)(r * n + i)], iv); if (!f) continue;
            for (index_t c = i; c < n; ++c) { u64 s = mulmod(f, a[(size_t)(i * n + c)]); u64& d = a[(size_t)(r * n + c)]; d = d >= s ? d - s : d + P - s; }
        }
    }
    return false;
}
// inverse and determinant in extended precision (full pivoting); returns the condition estimate
static double invert(const Mat& m, Mat& out, long double& det) {
    index_t n = m.r; std::vector<long double> a((size_t)(n * 2 * n), 0.0L);
    std::vector<index_t> col;
    for (index_t i = 0; i < n; ++i) { col.push_back(i); for (index_t j = 0; j < n; ++j) a[(size_t)(i * 2 * n + j)] = m(i, j); a[(size_t)(i * 2 * n + n + i)] = 1; }
    det = 1;
    auto at = [&](index_t i, index_t j) -> long double& { return a[(size_t)(i * 2 * n + j)]; };
    for (index_t i = 0; i < n; ++i) {
        index_t pr = i, pc = i;
        for (index_t r = i; r < n; ++r) for (index_t c = i; c < n; ++c) if (fabsl(at(r, c)) > fabsl(at(pr, pc))) { pr = r; pc = c; }
        if (pr != i) { det = -det; for (index_t c = 0; c < 2 * n; ++c) std::swap(at(pr, c), at(i, c)); }
        if (pc != i) { det = -det; std::swap(col[(size_t)pc], col[(size_t)i]); for (index_t r = 0; r < n; ++r) std::swap(at(r, pc), at(r, i)); }
        long double p = at(i, i); det *= p;
        if (p == 0) return INFINITY;
        for (index_t c = 0; c < 2 * n; ++c) at(i, c) /= p;
        for (index_t r = 0; r < n; ++r) if (r != i) { long double f = at(r, i); if (f != 0) for (index_t c = 0; c < 2 * n; ++c) at(r, c) -= f * at(i, c); }
    }
    out = Mat(n, n);
    long double na = 0, ni = 0;
    for (index_t i = 0; i < n; ++i) for (index_t j = 0; j < n; ++j) { out(col[(size_t)i], j) = (double)at(i, n + j); na = std::max(na, fabsl((long double)m(i, j))); ni = std::max(ni, fabsl(at(i, n + j))); }
    return (double)(na * ni * n);
}
static int perm_sign(std::vector<index_t> p) { int s = 1; for (size_t i = 0; i < p.size(); ++i) while (p[i] != (index_t)i) { std::swap(p[i], p[(size_t)p[i]]); s = -s; } return s; }

struct Slot {
    int type = 0; void* obj = nullptr; index_t rows = 0, cols = 0; Cells st; index_t off = 0; int arena = -1;
    std::vector<index_t> perm;       // row sources
};

struct View {
    Ref ref; int slot = -1; index_t r = 0, c = 0; bool rm = true; Kind kind = DENSE; Cells st; index_t off = 0;
    std::vector<index_t> perm; double* base = nullptr; int mode = 0;
    alignas(16) unsigned char buf[64];
    View() {}
    View(const View&) = delete;
    size_t at(index_t i, index_t j) const { return (size_t)(off + (rm ? i * c + j : j * r + i)); }
    Mat read() const {
        Mat m(r, c);
        for (index_t i = 0; i < r; ++i) for (index_t j = 0; j < c; ++j)
            m(i, j) = kind == DENSE ? (*st)[at(i, j)] : kind == DIAG ? (i == j ? (*st)[(size_t)i] : 0) : (double)(perm[(size_t)i] == j);
        return m;
    }
    index_t cells() const { return kind == DENSE ? r * c : kind == DIAG ? std::min(r, c) : 0; }
    bool covers(const View& o) const { return kind == PERM || o.kind == PERM ? slot == o.slot : st == o.st && off < o.off + o.cells() && o.off < off + cells(); }
};

struct World {
    const Trace& t;
    Slot s[SLOTS];
    std::vector<int> act;
    double* arena[2]; Cells marena[2];
    int step_no = 0; const char* op_name = "";
    explicit World(const Trace& t) : t(t) {}

    // ------------------------------------------------------------ running library code

    template <typename F> Out call(const Step& st, bool mismatch, F f) {
        faults.arm(st);
        Out o = OKAY; std::string what;
        try { Lib l; f(); }
        catch (const std::bad_alloc&) { o = FAULT; }
        catch (const DimensionMismatchException&) { o = MISMATCH; }
        catch (const NonsquareMatrixException&) { o = MISMATCH; }
        catch (const Abort&) { throw; }
        catch (GeomException& e) { o = WRONG; what = e.what(); }
        catch (const std::exception& e) { o = WRONG; what = e.what(); }
        catch (...) { o = WRONG; what = "unknown"; }
        lib_depth = 0;
        bool fired = faults.fired_any;
        faults.disarm();
        if (o == WRONG) rec.violation("C16", "foreign-exception", "%s: unexpected exception: %s", op_name, what.c_str());
        if (fired && o == OKAY) rec.violation("C16", "swallowed-exception", "%s: a refused allocation did not reach the caller", op_name);
        if (!fired && o == FAULT) rec.violation("C16", "spurious-exception", "%s: bad_alloc although no allocation was refused", op_name);
        if (!fired && mismatch && o == OKAY) rec.violation("C16", "mismatch-accepted", "%s: operands of disagreeing dimensions were accepted", op_name);
        if (!mismatch && o == MISMATCH) rec.violation("C16", "false-mismatch", "%s: operands of agreeing dimensions were rejected", op_name);
        rec.check();
        if (o == FAULT) rec.count("ops_failed_by_fault");
        if (o == MISMATCH) rec.count("ops_rejected_by_dimension");
        rec.log((u64)o + 11);
        return o;
    }

    // ------------------------------------------------------------ slots

    template <typename F> void with(const Slot& x, F f) { visit(Ref{x.type, x.obj}, f); }
    static void* mem(int type) { size_t n = 0; visit(Ref{type, nullptr}, [&](auto& m, auto) { n = sizeof(m); }); void* p = ::operator new(n); memset(p, 0xA5, n); return p; }
    void destroy(int type, void* obj) { visit(Ref{type, obj}, [&](auto& m, auto) { typedef std::decay_t<decltype(m)> M; Lib l; m.~M(); }); ::operator delete(obj); }
    double* base(const Slot& x) { double* p = nullptr; with(x, [&](auto& m, auto T) { constexpr int K = decltype(T)::value; if constexpr (kind_of(K) == DENSE) p = m.data_begin(); else if constexpr (kind_of(K) == DIAG) p = m.diagonal_begin(); }); return p; }
    static index_t pick_dim(i64 a) { static const index_t d[] = {3, 2, 3, 1, 4, 2, 5, 3, 6, 9}; return d[(size_t)(a < 0 ? -a : a) % 10]; }
    static double small_int(u64 h) { return (double)((i64)(mix64(h) % 9) - 4); }

    // put small integers in every cell of a view (by the harness)
    void refill(View& v, u64 h) {
        if (v.kind == PERM) return;
        double* p = v.kind == DENSE ? v.base : base(s[v.slot]);
        for (index_t k = 0; k < v.cells(); ++k) { double x = small_int(h + (u64)k); p[k] = x; (*v.st)[(size_t)(v.off + k)] = x; }
    }
    void tame(View& v) {
        if (v.kind == PERM) return;
        for (index_t k = 0; k < v.cells(); ++k) { double x = (*v.st)[(size_t)(v.off + k)]; if (!(fabs(x) <= 400) || x != std::floor(x)) { refill(v, (u64)step_no * 977 + 5); return; } }
    }

    // ------------------------------------------------------------ views

    bool make(View& v, int slot, int mode, i64 arg, index_t wr, index_t wc) {
        Slot& x = s[slot];
        v.slot = slot; v.st = x.st; v.off = x.off; v.r = x.rows; v.c = x.cols; v.kind = kind_of(x.type); v.rm = row_major(x.type); v.perm = x.perm;
        v.ref = Ref{x.type, x.obj}; v.base = base(x); v.mode = 0;
        if (v.kind != DENSE || mode == 0) return true;
        if (mode == 1) {
            if (x.type == H30) return false;
            with(x, [&](auto& m, auto T) {
                constexpr int K = decltype(T)::value;
                if constexpr (kind_of(K) == DENSE && K != H30) {
                    constexpr int W = rdim(K) ? (row_major(K) ? W3C : W3) : (row_major(K) ? WC : WR);
                    Lib l; const auto& cm = m;
                    new (v.buf) typename TypeOf<W>::t(cm.as_transpose()); v.ref = Ref{W, v.buf};
                }
            });
            std::swap(v.r, v.c); v.rm = !v.rm; v.mode = 1;
            return true;
        }
        index_t total = x.rows * x.cols; u64 a = (u64)(arg < 0 ? -arg : arg);
        index_t r = wr > 0 ? wr : 1 + (index_t)(a % (u64)std::min<index_t>(total, 4)); 
        if (r > total) return false;
        index_t c = wc > 0 ? wc : wc < 0 ? r : 1 + (index_t)((a / 4) % (u64)std::min<index_t>(total / r, 4));
        if (wr < 0) r = c;
        if (r * c > total) return false;
        index_t o = (index_t)((a / 16) % (u64)(total - r * c + 1));
        double* p = v.base + o;
        bool rm = mode == 2; v.rm = rm; v.r = r; v.c = c; v.off = x.off + o; v.base = p; v.mode = mode;
        Lib l;
        if (r == 3 && c == 3 && (a & 1)) { if (rm) { new (v.buf) typename TypeOf<W3>::t(p); v.ref.type = W3; } else { new (v.buf) typename TypeOf<W3C>::t(p); v.ref.type = W3C; } }
        else if (rm) { new (v.buf) typename TypeOf<WR>::t(p, r, c); v.ref.type = WR; } else { new (v.buf) typename TypeOf<WC>::t(p, r, c); v.ref.type = WC; }
        v.ref.p = v.buf;
        return true;
    }
    // a view near the requested one which has the wanted dimensions (0 = any, -1 = square) and satisfies `ok`
    template <typename P> bool choose(View& v, i64 slot, i64 mode, i64 arg, index_t wr, index_t wc, bool fit, P ok) {
        size_t n = act.size(); size_t first = (size_t)(slot < 0 ? -slot : slot) % n; int md = (int)((mode < 0 ? -mode : mode) % 4);
        auto good = [&] { return ok(v) && (!fit || (wr < 0 || wc < 0 ? v.r == v.c : (wr == 0 || v.r == wr) && (wc == 0 || v.c == wc))); };
        for (size_t k = 0; k < n; ++k) {
            for (int q = 0; q < 4; ++q) if (make(v, act[(first + k) % n], (md + q) & 3, arg, fit ? wr : 0, fit ? wc : 0) && good()) return true;
        }
        // nothing fits
        for (size_t k = 0; k < n; ++k) if (make(v, act[(first + k) % n], md, arg, 0, 0) && ok(v)) return true;
        return false;
    }

    // ------------------------------------------------------------ checks

    void verify_perm(const Slot& x) {
        with(x, [&](auto& m, auto T) { if constexpr (kind_of(decltype(T)::value) == PERM) {
            const auto& cm = m; index_t n = cm.rows();
            const index_t* src = cm.getRowSources(); const index_t* dst = cm.getColSources();
            bool ok = n == x.rows && cm.cols() == n && cm.getColDestinations() == src && cm.getRowDestinations() == dst;
            for (index_t i = 0; ok && i < n; ++i) ok = src[i] == x.perm[(size_t)i] && dst[x.perm[(size_t)i]] == i;
            SIM_REQUIRE("C16", "wrong-permutation", ok, "%s: a permutation matrix has wrong row or column sources", op_name);
        } });
    }
    void verify(int k) {
        const Slot& x = s[k];
        View v; make(v, k, 0, 0, 0, 0); Mat want = v.read();
        with(x, [&](auto& m, auto T) {
            const auto& cm = m;
            SIM_REQUIRE("C16", "wrong-dimensions", cm.rows() == x.rows && cm.cols() == x.cols, "%s: matrix %d (%s) is %lld x %lld, expected %lld x %lld", op_name, k, TYPE_NAMES[x.type], (long long)cm.rows(), (long long)cm.cols(), (long long)x.rows, (long long)x.cols);
            constexpr int K = decltype(T)::value;
            if constexpr (kind_of(K) == DENSE) SIM_REQUIRE("C16", "wrong-dimensions", cm.data_end() - cm.data_begin() == v.cells(), "%s: matrix %d (%s) has %lld elements, expected %lld", op_name, k, TYPE_NAMES[x.type], (long long)(cm.data_end() - cm.data_begin()), (long long)v.cells());
            if constexpr (kind_of(K) == DIAG) SIM_REQUIRE("C16", "wrong-dimensions", cm.diagonal_end() - cm.diagonal_begin() == v.cells(), "%s: matrix %d (%s) has a diagonal of %lld elements, expected %lld", op_name, k, TYPE_NAMES[x.type], (long long)(cm.diagonal_end() - cm.diagonal_begin()), (long long)v.cells());
            rec.check();
            for (index_t i = 0; i < x.rows; ++i) for (index_t j = 0; j < x.cols; ++j) {
                double got = (double)cm(i, j);
                if (!(got == want(i, j))) { SIM_REQUIRE("C16", "wrong-element", false, "%s: matrix %d (%s) has %g at (%lld,%lld), expected %g", op_name, k, TYPE_NAMES[x.type], got, (long long)i, (long long)j, want(i, j)); return; }
            }
        });
        if (kind_of(x.type) == PERM) verify_perm(x);
        if (x.arena >= 0) SIM_REQUIRE("C16", "wrapper-target", base(s[k]) == arena[x.arena] + x.off, "%s: wrapper %d refers to other memory", op_name, k);
        rec.check();
    }
    void verify_all() {
        for (int k : act) verify(k);
        for (int a = 0; a < 2; ++a) for (index_t i = 0; i < ARENA; ++i) SIM_REQUIRE("C16", "wrong-element", arena[a][i] == (*marena[a])[(size_t)i], "%s: wrapped memory %d changed at %lld: %g, expected %g", op_name, a, (long long)i, arena[a][i], (*marena[a])[(size_t)i]);
        rec.check();
    }
    void compare(const Result& r, const Mat& want, const char* what) {
        SIM_REQUIRE("C16", "wrong-dimensions", r.made && r.m.r == want.r && r.m.c == want.c, "%s: %s is %lld x %lld, expected %lld x %lld", op_name, what, (long long)r.m.r, (long long)r.m.c, (long long)want.r, (long long)want.c);
        rec.check();
        for (index_t i = 0; i < want.r; ++i) for (index_t j = 0; j < want.c; ++j)
            SIM_REQUIRE("C16", "wrong-result", r.m(i, j) == want(i, j), "%s: %s has %g at (%lld,%lld), expected %g", op_name, what, r.m(i, j), (long long)i, (long long)j, want(i, j));
        rec.check();
    }

    // model of a completed operation
    void write(View& d, const Mat& m) {
        Slot& x = s[d.slot];
        if (d.kind == DENSE) { for (index_t i = 0; i < d.r; ++i) for (index_t j = 0; j < d.c; ++j) (*d.st)[d.at(i, j)] = m(i, j); }
        else if (d.kind == DIAG) { for (index_t i = 0; i < d.cells(); ++i) (*d.st)[(size_t)i] = m(i, i); }
        else { for (index_t i = 0; i < d.r; ++i) for (index_t j = 0; j < d.c; ++j) if (m(i, j) != 0) x.perm[(size_t)i] = j; d.perm = x.perm; }
    }
    // after a failure the destination may hold anything, except where it is an operand
    void resync(View& d, const View* a, const View* b) {
        Slot& x = s[d.slot];
        if (d.kind == PERM) {
            if ((a && d.covers(*a)) || (b && d.covers(*b))) return;
            with(x, [&](auto& m, auto T) { if constexpr (kind_of(decltype(T)::value) == PERM) {
                const auto& cm = m; index_t n = cm.rows(); x.rows = x.cols = n; x.perm.assign((size_t)n, 0);
                std::vector<char> seen((size_t)n, 0); bool ok = true;
                for (index_t i = 0; i < n; ++i) { index_t q = cm.getRowSources()[i]; if (q < 0 || q >= n || seen[(size_t)q]) { ok = false; break; } seen[(size_t)q] = 1; x.perm[(size_t)i] = q; }
                SIM_REQUIRE("C16", "broken-permutation", ok, "%s: after a failure the destination is no permutation", op_name);
            } });
            d.perm = x.perm; rec.check();
            return;
        }
        double* p = d.kind == DENSE ? d.base : base(x);
        for (index_t k = 0; k < d.cells(); ++k) {
            index_t at = d.off + k; bool operand = false;
            for (const View* o : {a, b}) if (o && o->st == d.st && at >= o->off && at < o->off + o->cells()) operand = true;
            if (!operand) (*d.st)[(size_t)at] = p[k];
        }
    }
    void fix_nan(View& v) { for (index_t k = 0; k < v.cells(); ++k) { double x = (*v.st)[(size_t)(v.off + k)]; if (x != x) { refill(v, (u64)step_no); return; } } }

    // ------------------------------------------------------------ one step

    static Mat product(const Mat& a, const Mat& b) { Mat m(a.r, b.c); for (index_t i = 0; i < a.r; ++i) for (index_t j = 0; j < b.c; ++j) { double z = 0; for (index_t k = 0; k < a.c; ++k) z += a(i, k) * b(k, j); m(i, j) = z; } return m; }
    static Mat transposed(const Mat& a) { Mat m(a.c, a.r); for (index_t i = 0; i < a.r; ++i) for (index_t j = 0; j < a.c; ++j) m(j, i) = a(i, j); return m; }

    void check_inverse(const Mat& a, bool flag, const Mat& got, bool exact_flag) {
        bool sing = singular(a); Mat inv; long double det = 0; double cond = sing ? INFINITY : invert(a, inv, det);
        bool zero_line = false;
        for (index_t i = 0; i < a.r; ++i) { bool zr = true, zc = true; for (index_t j = 0; j < a.c; ++j) { if (a(i, j) != 0) zr = false; if (a(j, i) != 0) zc = false; } if (zr || zc) zero_line = true; }
        if (exact_flag || cond < 1e7) SIM_REQUIRE("C16", "inverse-flag", flag == !sing, "%s: inverting a %s matrix of size %lld reported %s", op_name, sing ? "singular" : "regular", (long long)a.r, flag ? "success" : "failure");
        if (zero_line) SIM_REQUIRE("C16", "inverse-flag", !flag, "%s: inverting a matrix with a zero row or column reported success", op_name);
        rec.check();
        if (!flag || cond >= 1e7) return;
        double tol = 1e-13 * cond; double big = 0; for (double z : inv.v) big = std::max(big, fabs(z));
        for (index_t i = 0; i < a.r; ++i) for (index_t j = 0; j < a.c; ++j)
            SIM_REQUIRE("C16", "wrong-inverse", fabs(got(i, j) - inv(i, j)) <= tol * big + 1e-12, "%s: inverse of a %lld x %lld matrix has %.17g at (%lld,%lld), expected %.17g", op_name, (long long)a.r, (long long)a.r, got(i, j), (long long)i, (long long)j, inv(i, j));
        rec.check();
    }

    static u64 relation(const View& d, const View& a) { if (d.kind != a.kind) return 0; if (!d.covers(a)) return 0; if (d.kind != DENSE) return 1; return d.off == a.off && d.r == a.r && d.c == a.c ? (d.rm == a.rm ? 1 : 2) : d.off == a.off ? 3 : 4; }

    void with_destination(const Step& st) {
        int op = st.op; bool fit = !(st.arg(10) & 1); double k = (double)((st.arg(9) % 7) - 3);
        View a, b, d;
        auto any = [](const View&) { return true; };
        if (op == INV) choose(a, st.arg(0), st.arg(1), st.arg(2), -1, -1, fit, any); else choose(a, st.arg(0), st.arg(1), st.arg(2), 0, 0, fit, any);
        Mat ma = a.read(), mb; index_t wr = a.r, wc = a.c; bool mismatch = false;
        bool two = needs_b(op);
        if (two) {
            bool prod = op == MUL || op == MUL_ACC;
            // an operand for which some destination exists
            auto pred = [&](const View& v) { for (int z : {(int)DR, (int)D0, (int)P0}) if (sup(op, z, a.ref.type, v.ref.type)) return true; return false; };
            if (!choose(b, st.arg(3), st.arg(4), st.arg(5), prod ? a.c : a.r, prod ? 0 : a.c, fit, pred)) return;
            mb = b.read();
            if (prod) { mismatch = a.c != b.r; wc = b.c; } else mismatch = a.r != b.r || a.c != b.c;
        } else if (op == TRANSPOSE) std::swap(wr, wc);
        else if (op == INV) mismatch = a.r != a.c;
        int tb = two ? b.ref.type : 0;
        if (!choose(d, st.arg(6), st.arg(7), st.arg(8), wr, wc, fit, [&](const View& v) { return sup(op, v.ref.type, a.ref.type, tb); })) return;
        if (d.r != wr || d.c != wc) mismatch = true;
        u64 state = (u64)op * 64 + (u64)mismatch;
        state = mix64(state ^ ((u64)d.ref.type << 8 | (u64)a.ref.type << 16 | (u64)tb << 24 | relation(d, a) << 40 | (two ? relation(d, b) : 0) << 44 | (two ? relation(a, b) : 0) << 48));
        Mat want;
        if (!mismatch) switch (op) {
            case MUL: want = product(ma, mb); break;
            case MUL_ACC: { want = product(ma, mb); Mat md = d.read(); for (size_t q = 0; q < want.v.size(); ++q) want.v[q] += md.v[q];
                if (d.kind == DIAG) for (index_t i = 0; i < want.r; ++i) for (index_t j = 0; j < want.c; ++j) if (i != j) want(i, j) = 0; break; }
            case ADD: want = ma; for (size_t q = 0; q < want.v.size(); ++q) want.v[q] += mb.v[q]; break;
            case SUB: want = ma; for (size_t q = 0; q < want.v.size(); ++q) want.v[q] -= mb.v[q]; break;
            case SCALE: want = ma; for (double& z : want.v) z *= k; break;
            case TRANSPOSE: want = transposed(ma); break;
            default: want = ma; break;
        }
        if (rec.verbose) rec.log_text("step %d %s: dest %d %s mode %d off %lld %lldx%lld, a %d %s mode %d off %lld %lldx%lld, b %d %s mode %d off %lld %lldx%lld%s", step_no, op_name, d.slot, TYPE_NAMES[d.ref.type], d.mode, (long long)d.off, (long long)d.r, (long long)d.c, a.slot, TYPE_NAMES[a.ref.type], a.mode, (long long)a.off, (long long)a.r, (long long)a.c, two ? b.slot : -1, two ? TYPE_NAMES[b.ref.type] : "", b.mode, (long long)b.off, (long long)b.r, (long long)b.c, mismatch ? " (mismatch)" : "");
        for (int pass = 0; pass < 2; ++pass) {
            Result res; Out o = call(pass ? Step() : st, mismatch, [&] { dispatch(op, d.ref, a.ref, two ? b.ref : a.ref, k, res); });
            rec.state(mix64(state ^ (u64)o << 1 ^ (u64)pass));
            if (o == MISMATCH) break;
            if (o == FAULT) { resync(d, &a, op == MUL_ACC ? &d : two ? &b : nullptr); verify_all(); fix_nan(d); if (mismatch) break; continue; }
            if (op == INV) {
                Mat got(d.r, d.c); visit(d.ref, [&](auto& m, auto) { const auto& cm = m; for (index_t i = 0; i < d.r; ++i) for (index_t j = 0; j < d.c; ++j) got(i, j) = (double)cm(i, j); });
                check_inverse(ma, res.flag, got, ma.r <= 4 || a.kind != DENSE);
                if (d.kind == PERM) write(d, transposed(ma)); else refill(d, (u64)step_no * 131 + 7);
            } else write(d, want);
            break;
        }
        verify_all();
        tame(d);
    }

    void by_value(const Step& st) {
        int op = st.op; bool fit = !(st.arg(10) & 1); double k = (double)((st.arg(9) % 7) - 3);
        View a, b; bool two = op == MUL_V || op == ADD_V || op == SUB_V || op == EQUAL || op == ALIAS || op == DIAG_IN;
        auto okay = [&](const View& v) { int z = v.ref.type; return op == SCALE_V ? v.kind != PERM : op == SCALE_IN ? v.kind == DENSE : op == INV_V || op == DET ? stat(rdim(z), cdim(z)) : op == DIAG_IN ? v.kind != PERM : true; };
        bool square = op == INV_V || op == DET;
        if (!choose(a, st.arg(0), st.arg(1), st.arg(2), square ? -1 : 0, square ? -1 : 0, fit, okay)) return;
        if (!okay(a)) return;
        Mat ma = a.read(), mb, want = ma; bool mismatch = false;
        if (two) {
            auto pred = [&](const View& v) { return sup(op, 0, a.ref.type, v.ref.type) && (op != DIAG_IN || !fit || v.r == v.c); };
            if (!choose(b, st.arg(3), st.arg(4), st.arg(5), op == MUL_V || op == DIAG_IN ? a.c : a.r, op == MUL_V ? 0 : a.c, fit, pred)) {
                if (op != DIAG_IN || !choose(b, st.arg(3), st.arg(4), st.arg(5), 0, 0, false, [&](const View& v) { return sup(op, 0, a.ref.type, v.ref.type); })) return;
            }
            mb = b.read();
        }
        u64 state = mix64((u64)op * 64 ^ ((u64)a.ref.type << 16 | (u64)(two ? b.ref.type : 0) << 24 | (two ? relation(a, b) : 0) << 48));
        switch (op) {
        case MUL_V: mismatch = a.c != b.r; if (!mismatch) want = product(ma, mb); break;
        case ADD_V: case SUB_V: mismatch = a.r != b.r || a.c != b.c; if (!mismatch) for (size_t q = 0; q < want.v.size(); ++q) want.v[q] += op == ADD_V ? mb.v[q] : -mb.v[q]; break;
        case SCALE_V: case SCALE_IN: for (double& z : want.v) z *= k; break;
        case TRANSPOSE_V: want = transposed(ma); break;
        case INV_V: mismatch = a.r != a.c; break;
        case DIAG_IN: mismatch = a.c != b.r || b.r != b.c; if (!mismatch) want = product(ma, mb); break;
        }
        if (rec.verbose) rec.log_text("step %d %s: a %d %s mode %d %lldx%lld, b %d %s mode %d %lldx%lld%s", step_no, op_name, a.slot, TYPE_NAMES[a.ref.type], a.mode, (long long)a.r, (long long)a.c, two ? b.slot : -1, two ? TYPE_NAMES[b.ref.type] : "", b.mode, (long long)b.r, (long long)b.c, mismatch ? " (mismatch)" : "");
        for (int pass = 0; pass < 2; ++pass) {
            Result res; res.flag = st.arg(10) & 2;
            Out o = call(pass ? Step() : st, mismatch, [&] { dispatch(op, a.ref, a.ref, two ? b.ref : a.ref, k, res); });
            rec.state(mix64(state ^ (u64)o << 1 ^ (u64)pass));
            if (o == MISMATCH) break;
            if (o == FAULT) { if (op == SCALE_IN || op == DIAG_IN) resync(a, &a, &b); verify_all(); if (mismatch) break; continue; }
            switch (op) {
            case MUL_V: case ADD_V: case SUB_V: case SCALE_V: case TRANSPOSE_V: compare(res, want, "the result"); break;
            case INV_V: check_inverse(ma, res.flag, res.m, ma.r <= 4 || a.kind != DENSE); break;
            case DET: {
                long double det = 0; Mat inv; if (ma.r == ma.c && !singular(ma)) invert(ma, inv, det);
                double scale = 1; for (index_t i = 0; i < ma.r; ++i) { double n = 0; for (index_t j = 0; j < ma.c; ++j) n += fabs(ma(i, j)); scale *= std::max(n, 1.0); }
                SIM_REQUIRE("C16", "wrong-determinant", fabs(res.x - (double)det) <= 1e-12 * scale + 1e-9 * fabs((double)det), "%s: determinant of a %lld x %lld matrix (%s) is %.17g, expected %.17g", op_name, (long long)ma.r, (long long)ma.c, TYPE_NAMES[a.ref.type], res.x, (double)det);
                break;
            }
            case SCALE_IN: case DIAG_IN: write(a, want); break;
            case EQUAL: {
                bool e = ma.r == mb.r && ma.c == mb.c && ma.v == mb.v;
                SIM_REQUIRE("C16", "wrong-equality", res.made && res.flag == e && res.x == 1, "%s: comparing %s and %s matrices gave %s", op_name, TYPE_NAMES[a.ref.type], TYPE_NAMES[b.ref.type], e ? "different" : "equal");
                break;
            }
            case ALIAS: {
                bool e = a.covers(b);
                SIM_REQUIRE("C16", "wrong-aliasing", res.made && res.flag == e, "%s: mtx_aliases_storage of %s and %s gave %s", op_name, TYPE_NAMES[a.ref.type], TYPE_NAMES[b.ref.type], e ? "false" : "true");
                break;
            }
            }
            rec.check();
            break;
        }
        verify_all();
        if (op == SCALE_IN || op == DIAG_IN) tame(a);
    }

    // ------------------------------------------------------------ objects

    int slot_of(i64 a) { size_t n = act.size(); return act[(size_t)(a < 0 ? -a : a) % n]; }
    int same_type(int i, i64 a) { size_t n = act.size(), f = (size_t)(a < 0 ? -a : a) % n; for (size_t k = 0; k < n; ++k) { int j = act[(f + k) % n]; if (s[j].type == s[i].type && j != i) return j; } return i; }

    void replace(int i, void* obj, const Slot& model) {
        int type = s[i].type; if (s[i].obj) destroy(type, s[i].obj);
        s[i] = model; s[i].type = type; s[i].obj = obj;
    }

    // a new matrix for slot i
    void fresh(const Step& st, int i, index_t r, index_t c, int form, u64 h) {
        int T = s[i].type; if (rdim(T)) r = rdim(T); if (cdim(T)) c = cdim(T);
        if (kind_of(T) == PERM && !rdim(T)) c = r;
        if (is_wrap(T) && r * c > ARENA) { r = 3; c = 3; }
        Slot m; m.type = T; m.rows = r; m.cols = c;
        double vals[128]; for (int q = 0; q < 128; ++q) vals[q] = small_int(h + (u64)q);
        int ar = (int)(h & 1); index_t off = is_wrap(T) ? (index_t)((h >> 4) % (u64)(ARENA - r * c + 1)) : 0;
        bool from_data = form & 1;
        for (int pass = 0; pass < 2; ++pass) {
            void* p = mem(T);
            Out o = call(pass ? Step() : st, false, [&] {
                visit(Ref{T, p}, [&](auto& ref, auto tag) {
                    constexpr int K = decltype(tag)::value; typedef typename TypeOf<K>::t M; (void)ref;
                    if constexpr (K == WR || K == WC) new (p) M(arena[ar] + off, r, c);
                    else if constexpr (K == W3 || K == W3C) new (p) M(arena[ar] + off);
                    else if constexpr (K == DR || K == DC || K == SH) {
                        if (!from_data) new (p) M(r, c);
                        else if (K == SH || !((form & 2) && r == 2 && c == 3)) new (p) M((const double*)vals, r, c);
                        else if constexpr (K != SH) { std::initializer_list<double> l = {vals[0], vals[1], vals[2], vals[3], vals[4], vals[5]}; new (p) M(l, r, c); }
                    }
                    else if constexpr (K == S3 || K == S3C || K == SS) {
                        if (!from_data) new (p) M();
                        else if (K == SS || !(form & 2)) new (p) M((const double*)vals);
                        else if constexpr (K != SS) { std::initializer_list<double> l = {vals[0], vals[1], vals[2], vals[3], vals[4], vals[5], vals[6], vals[7], vals[8]}; new (p) M(l); }
                    }
                    else if constexpr (K == H30) { if (from_data) new (p) M((const double*)vals, 3, c); else new (p) M(3, c); }
                    else if constexpr (K == D0) { if (from_data) new (p) M((const double*)vals, r); else new (p) M(r, c); }
                    else if constexpr (K == D3 || K == D23) { if (from_data) new (p) M((const double*)vals); else new (p) M(); }
                    else if constexpr (K == P0) new (p) M(r);
                    else new (p) M();
                });
            });
            if (o == FAULT) { ::operator delete(p); if (st.op == NEW) verify_all(); continue; }
            if (T == D0 && from_data) m.cols = c = r;
            if (is_wrap(T)) { m.arena = ar; m.off = off; m.st = marena[ar]; }
            else if (kind_of(T) == DIAG) { m.st = std::make_shared<std::vector<double>>((size_t)std::min(r, c)); for (index_t q = 0; q < std::min(r, c); ++q) (*m.st)[(size_t)q] = from_data ? vals[q] : 1; }
            else if (kind_of(T) == PERM) { for (index_t q = 0; q < r; ++q) m.perm.push_back(q); }
            else {
                m.st = std::make_shared<std::vector<double>>((size_t)(r * c));
                for (index_t q = 0; q < r; ++q) for (index_t z = 0; z < c; ++z) { size_t at = (size_t)(row_major(T) ? q * c + z : z * r + q); (*m.st)[at] = from_data ? vals[at] : q == z; }
            }
            replace(i, p, m);
            return;
        }
    }

    // copies of the model behave like copies of the storage policy
    Slot copied(const Slot& x) { Slot m = x; m.obj = nullptr; if (!is_wrap(x.type) && !is_shared(x.type) && x.st) m.st = std::make_shared<std::vector<double>>(*x.st); return m; }

    void objects(const Step& st) {
        int op = st.op; int i = slot_of(st.arg(0));
        switch (op) {
        case NEW: fresh(st, i, pick_dim(st.arg(1)), pick_dim(st.arg(2)), (int)(st.arg(9) & 3), (u64)st.arg(5)); break;
        case CONVERT: {
            View a; if (!choose(a, st.arg(3), st.arg(4), st.arg(5), rdim(s[i].type), cdim(s[i].type), !(st.arg(10) & 1), [&](const View& v) { return stat(rdim(s[i].type), rdim(v.ref.type)) && stat(cdim(s[i].type), cdim(v.ref.type)); })) return;
            int T = s[i].type; if (kind_of(T) != DENSE || is_wrap(T)) return;
            if (a.ref.type == T) return;
            bool mismatch = (rdim(T) && rdim(T) != a.r) || (cdim(T) && cdim(T) != a.c);
            Mat want = a.read();
            for (int pass = 0; pass < 2; ++pass) {
                void* p = mem(T);
                Out o = call(pass ? Step() : st, mismatch, [&] {
                    visit(Ref{T, p}, [&](auto&, auto tag) { constexpr int K = decltype(tag)::value; typedef typename TypeOf<K>::t M;
                        if constexpr (kind_of(K) == DENSE && !is_wrap(K)) visit(a.ref, [&](auto& src, auto t2) { constexpr int A = decltype(t2)::value;
                            if constexpr (stat(rdim(K), rdim(A)) && stat(cdim(K), cdim(A))) { const auto& cs = src; new (p) M(cs); } });
                    });
                });
                if (o != OKAY) { ::operator delete(p); verify_all(); if (o == FAULT && !mismatch) continue; return; }
                Slot m; m.type = T; m.rows = a.r; m.cols = a.c; m.st = std::make_shared<std::vector<double>>((size_t)(a.r * a.c));
                for (index_t q = 0; q < a.r; ++q) for (index_t z = 0; z < a.c; ++z) (*m.st)[(size_t)(row_major(T) ? q * a.c + z : z * a.r + q)] = want(q, z);
                replace(i, p, m);
                break;
            }
            break;
        }
        case COPY: case ASSIGN: {
            int j = same_type(i, st.arg(3)); if (op == ASSIGN && (st.arg(10) & 1)) j = i;
            Slot m = copied(s[j]);
            for (int pass = 0; pass < 2; ++pass) {
                void* p = op == COPY ? mem(s[i].type) : s[i].obj;
                Out o = call(pass ? Step() : st, false, [&] { visit(Ref{s[j].type, s[j].obj}, [&](auto& src, auto) {
                    typedef std::decay_t<decltype(src)> M; const M& cs = src;
                    if (op == COPY) new (p) M(cs); else *(M*)p = cs; }); });
                if (o == FAULT) {
                    if (op == COPY) ::operator delete(p);
                    else if (i != j) reread(i);
                    verify_all(); continue;
                }
                if (op == COPY) replace(i, p, m); else if (i != j) { m.obj = s[i].obj; s[i] = m; }
                break;
            }
            break;
        }
        case SWAP: {
            int j = same_type(i, st.arg(3)); if (j == i) return;
            Out o = call(st, false, [&] { visit(Ref{s[j].type, s[j].obj}, [&](auto& x, auto) { typedef std::decay_t<decltype(x)> M; std::swap(x, *(M*)s[i].obj); }); });
            if (o == FAULT) { reread(i); reread(j); break; }
            std::swap(s[i], s[j]); std::swap(s[i].obj, s[j].obj);
            break;
        }
        case MOVE: {   // the contents of i move to j by way of a temporary; i is then assigned from j
            int j = same_type(i, st.arg(3)); if (is_wrap(s[i].type)) return;
            Out o = call(Step(), false, [&] { visit(Ref{s[i].type, s[i].obj}, [&](auto& x, auto) { typedef std::decay_t<decltype(x)> M; M tmp(std::move(x)); *(M*)s[j].obj = std::move(tmp); }); });
            (void)o;
            if (i != j) {
                Slot m = s[i]; m.obj = s[j].obj; s[j] = m;
                for (int pass = 0; pass < 2; ++pass) {
                    if (call(pass ? Step() : st, false, [&] { visit(Ref{s[i].type, s[i].obj}, [&](auto& x, auto) { typedef std::decay_t<decltype(x)> M; const M& c = *(M*)s[j].obj; x = c; }); }) == OKAY) break;
                }
                Slot c = copied(s[j]); c.obj = s[i].obj; s[i] = c;
            }
            break;
        }
        case RESULT: {   // assignment of a temporary
            int T = s[i].type; int j = same_type(i, st.arg(3)), k = same_type(i, st.arg(6)); if (st.arg(10) & 2) k = i;
            if (T != DR && T != D0 && T != P0 && T != S3) return;
            if (T == D0 && s[j].rows != s[j].cols) return;
            View a, b; make(a, j, 0, 0, 0, 0); make(b, k, 0, 0, 0, 0); Mat ma = a.read(), mb = b.read();
            bool prod = st.arg(9) & 1; bool mismatch = prod && a.c != b.r;
            Mat want = mismatch ? Mat() : prod ? product(ma, mb) : transposed(ma);
            for (int pass = 0; pass < 2; ++pass) {
                Out o = call(pass ? Step() : st, mismatch, [&] { visit(Ref{T, s[i].obj}, [&](auto& x, auto tag) { constexpr int K = decltype(tag)::value; typedef typename TypeOf<K>::t M;
                    if constexpr (K == DR || K == D0 || K == P0 || K == S3) { const M& p = *(M*)s[j].obj; const M& q = *(M*)s[k].obj; if (prod) x = p * q; else x = transpose(p); } }); });
                if (o == MISMATCH) break;
                if (o == FAULT) { reread(i); verify_all(); if (mismatch) break; make(a, j, 0, 0, 0, 0); make(b, k, 0, 0, 0, 0); ma = a.read(); mb = b.read(); mismatch = prod && a.c != b.r; want = mismatch ? Mat() : prod ? product(ma, mb) : transposed(ma); continue; }
                Slot& x = s[i]; x.rows = want.r; x.cols = want.c;
                if (T == P0) { x.perm.assign((size_t)want.r, 0); }
                else x.st = std::make_shared<std::vector<double>>(T == D0 ? (size_t)std::min(want.r, want.c) : (size_t)(want.r * want.c));
                View d; make(d, i, 0, 0, 0, 0); write(d, want);
                verify_all(); tame(d);
                break;
            }
            break;
        }
        }
        rec.check();
        verify_all();
    }
    // after a failed assignment: whatever the matrix now is must be a usable matrix
    void reread(int i) {
        Slot& x = s[i];
        with(x, [&](auto& m, auto T) {
            constexpr int K = decltype(T)::value; const auto& cm = m;
            bool same = cm.rows() == x.rows && cm.cols() == x.cols;
            SIM_REQUIRE("C16", "unusable", cm.rows() >= 0 && cm.cols() >= 0 && cm.rows() < 200 && cm.cols() < 200, "%s: a matrix has impossible dimensions after a failure", op_name); rec.check();
            if (same) return;                  // then it must hold what it held
            x.rows = cm.rows(); x.cols = cm.cols();
            if constexpr (kind_of(K) == DENSE) { x.st = std::make_shared<std::vector<double>>(cm.data_begin(), cm.data_end()); x.off = 0; }
            else if constexpr (kind_of(K) == DIAG) x.st = std::make_shared<std::vector<double>>(cm.diagonal_begin(), cm.diagonal_end());
            else x.perm.assign(cm.getRowSources(), cm.getRowSources() + cm.rows());
        });
    }

    // ------------------------------------------------------------ elements

    void elements(const Step& st) {
        int op = st.op; View v; make(v, slot_of(st.arg(0)), op == FILL ? (int)(st.arg(1) & 3) : (int)(st.arg(1) & 1), st.arg(2), 0, 0);
        if (v.mode == 0 && st.arg(1) & 1) make(v, slot_of(st.arg(0)), 0, 0, 0, 0);
        index_t r = (index_t)((u64)st.arg(5) % (u64)v.r), c = (index_t)((u64)(st.arg(5) / 16) % (u64)v.c); double val = (double)(st.arg(9) % 5 - 2); int form = (int)((u64)st.arg(10) % 8);
        Mat ma = v.read();
        switch (op) {
        case SET: {
            if (v.kind == PERM) return;
            if (v.kind == DIAG) c = r = std::min(r, v.cells() - 1);
            double got = val;
            call(Step(), false, [&] { visit(v.ref, [&](auto& m, auto T) { constexpr int K = decltype(T)::value;
                if constexpr (kind_of(K) == DIAG) { if (form & 1) m.diagonal(r) = val; else *(m.diagonal_begin() + r) = val; const auto& cm = m; got = cm.diagonal(r); }
                else if constexpr (kind_of(K) == DENSE) switch (form) {
                    case 0: m(r, c) = val; break;
                    case 1: *(m.row(r) + c) = val; break;
                    case 2: *(m.col(c) + r) = val; break;
                    case 3: *(m.begin() + (r * v.c + c)) = val; break;
                    case 4: m[r][c] = val; break;
                    case 5: { auto p = m.begin(); p += r * v.c + c; *p = val; break; }
                    default: got = m.set(r, c, val); break;
                } }); });
            SIM_REQUIRE("C16", "wrong-element", got == val, "%s: returned %g instead of %g", op_name, got, val);
            ma(r, c) = val; write(v, ma); break;
        }
        case FILL: refill(v, (u64)st.arg(5) * 64); break;
        case CONST: {
            bool one = v.kind == PERM || (form & 1);
            call(Step(), false, [&] { visit(v.ref, [&](auto& m, auto T) { constexpr int K = decltype(T)::value; if constexpr (kind_of(K) == PERM) m.set_identity(); else { if (one) m.set_identity(); else m.set_zero(); } }); });
            for (index_t i = 0; i < v.r; ++i) for (index_t j = 0; j < v.c; ++j) ma(i, j) = one && i == j;
            write(v, ma); break;
        }
        case ITERATE: {
            bool ok = true; const char* what = "";
            call(Step(), false, [&] { visit(v.ref, [&](auto& m, auto T) { constexpr int K = decltype(T)::value; const auto& cm = m;
                auto fail = [&](const char* w) { ok = false; what = w; };
                index_t n = 0; const index_t size = v.r * v.c;
                for (auto p = cm.begin(); p != cm.end(); ++p, ++n) { if (n >= size) { fail("begin() .. end() is too long"); return; } if ((double)*p != ma.v[(size_t)n]) { fail("begin() .. end()"); return; } }
                if (n != size) fail("begin() .. end() is too short");
                if (cm.end() - cm.begin() != size) fail("end() - begin()");
                if constexpr (kind_of(K) == DENSE) { auto row = cm.row(r); for (index_t j = 0; j < v.c; ++j, ++row) if ((double)*row != ma(r, j)) fail("row iteration"); }
                auto col = cm.col(c); for (index_t i = 0; i < v.r; ++i, ++col) if ((double)*col != ma(i, c)) fail("column iteration");
                if ((double)*(cm.col(c) + r) != ma(r, c)) fail("random access");
                if constexpr (kind_of(K) == DENSE) {
                    if ((double)*(cm.row(r) + c) != ma(r, c)) fail("random access");
                    if (cm.row(r) + v.c - cm.row(r) != v.c) fail("row distance");
                    auto q = m.end(); for (index_t k = size; k > 0; ) { --q; --k; if (*q != ma.v[(size_t)k]) { fail("backward iteration"); break; } }
                    if (cm.data_end() - cm.data_begin() != size) fail("data_end() - data_begin()");
                    for (index_t k = 0; k < size; ++k) if (cm.data_begin()[k] != (*v.st)[(size_t)(v.off + k)]) fail("data");
                }
                if constexpr (kind_of(K) == DIAG) if (cm.diagonal_end() - cm.diagonal_begin() != v.cells()) fail("diagonal length");
            }); });
            SIM_REQUIRE("C16", "wrong-iteration", ok, "%s: %s of a %s matrix (%lld x %lld) is wrong", op_name, what, TYPE_NAMES[v.ref.type], (long long)v.r, (long long)v.c);
            break;
        }
        }
        rec.check(); verify_all();
    }

    // ------------------------------------------------------------ permutations

    void permutations(const Step& st) {
        int i = -1; size_t n = act.size(), f = (size_t)((u64)st.arg(0) % n);
        for (size_t k = 0; k < n; ++k) if (kind_of(s[act[(f + k) % n]].type) == PERM) { i = act[(f + k) % n]; break; }
        if (st.op == PAPPLY) {   // the free functions
            index_t sz = 1 + (index_t)((u64)st.arg(1) % 7); std::vector<index_t> p; std::vector<int> v;
            for (index_t q = 0; q < sz; ++q) { p.push_back(q); v.push_back((int)q * 10); }
            for (index_t q = sz - 1; q > 0; --q) std::swap(p[(size_t)q], p[(size_t)(mix64((u64)st.arg(5) + (u64)q) % (u64)(q + 1))]);
            std::vector<index_t> p0 = p, p1 = p; index_t sign = 0;
            call(st, false, [&] { permutation_apply(p.data(), sz, v.begin()); sign = permutation_sign(p1.data(), sz); });
            bool ok = true; for (index_t q = 0; q < sz; ++q) if (v[(size_t)q] != (int)p0[(size_t)q] * 10) ok = false;
            SIM_REQUIRE("C16", "wrong-permutation", ok, "permutation_apply moved the elements to wrong places");
            for (index_t q = 0; q < sz; ++q) SIM_REQUIRE("C16", "wrong-permutation", p[(size_t)q] == q && p1[(size_t)q] == q, "permutation_apply or permutation_sign did not reset the permutation to the identity");
            SIM_REQUIRE("C16", "wrong-sign", sign == perm_sign(p0), "permutation_sign is %d, expected %d", (int)sign, perm_sign(p0));
            rec.check();
            return;
        }
        if (i < 0) return;
        Slot& x = s[i]; index_t N = x.rows; index_t a = (index_t)((u64)st.arg(1) % (u64)N), b = (index_t)((u64)st.arg(2) % (u64)N); int form = (int)((u64)st.arg(10) % 6);
        std::vector<index_t> inv((size_t)N); for (index_t q = 0; q < N; ++q) inv[(size_t)x.perm[(size_t)q]] = q;
        std::vector<index_t> p; for (index_t q = 0; q < N; ++q) p.push_back(q);
        for (index_t q = N - 1; q > 0; --q) std::swap(p[(size_t)q], p[(size_t)(mix64((u64)st.arg(5) + (u64)q) % (u64)(q + 1))]);
        index_t sign = 0;
        for (int pass = 0; pass < 2; ++pass) {
            Out o = call(pass ? Step() : st, false, [&] { with(x, [&](auto& m, auto T) { if constexpr (kind_of(decltype(T)::value) == PERM) switch (st.op) {
                case PSWAP: if (form & 1) m.swap_rows(a, b); else m.swap_cols(a, b); break;
                case PSOURCES: switch (form) {
                    case 0: m.setRowSources(p.data()); break;
                    case 1: m.setColSources(p.data()); break;
                    case 2: m.setRowDestinations(p.data()); break;
                    case 3: m.setColDestinations(p.data()); break;
                    case 4: m.setRowSources(m.getColSources()); break;
                    default: m.setColSources(m.getColSources()); break;
                    } break;
                case PSIGN: sign = m.sign(); break;
                case PTRANSPOSE: m.transpose(); break;
            } }); });
            if (o == OKAY) break;
            verify_all();
        }
        switch (st.op) {
        case PSWAP: if (form & 1) std::swap(x.perm[(size_t)a], x.perm[(size_t)b]); else { std::swap(inv[(size_t)a], inv[(size_t)b]); for (index_t q = 0; q < N; ++q) x.perm[(size_t)inv[(size_t)q]] = q; } break;
        case PSOURCES:
            if (form == 0 || form == 3) x.perm = p;
            else if (form == 1 || form == 2) { for (index_t q = 0; q < N; ++q) x.perm[(size_t)p[(size_t)q]] = q; }
            else if (form == 4) x.perm = inv;
            break;
        case PSIGN: SIM_REQUIRE("C16", "wrong-sign", sign == perm_sign(x.perm), "the sign of a permutation matrix is %d, expected %d", (int)sign, perm_sign(x.perm)); break;
        case PTRANSPOSE: x.perm = inv; break;
        }
        rec.check(); verify_all();
    }

    // ------------------------------------------------------------ vectors

    template <typename V> static void take_any(Result& out, const V& v, bool column) {
        if constexpr (detail::IsMatrix<V>::val) take(out, v);
        else { NoLib nl; index_t n = v.end() - v.begin(); out.m = column ? Mat(n, 1) : Mat(1, n); for (index_t i = 0; i < n; ++i) out.m.v[(size_t)i] = v[i]; out.made = true; }
    }
    void vectors(const Step& st) {
        int op = st.op; bool fit = !(st.arg(10) & 1); bool left = st.arg(10) & 2;      // left: vector * matrix
        typedef Vec<double,3> V3;
        View a; 
        auto okay = [&](const View& v) { int z = v.ref.type; return op == VCOPY ? (z == DR || z == DC || z == SH || z == WR || z == WC || z == H30) : left ? stat(3, rdim(z)) : stat(3, cdim(z)); };
        index_t wr = left ? 3 : 0, wc = left ? 0 : 3;
        if (op == VCOPY) { if (st.arg(9) & 1) { wr = 3; wc = 1; } else { wr = 1; wc = 3; } }
        if (op == VMUL_IN && (st.arg(9) & 3) != 3) { wr = wc = 3; }
        if (!choose(a, st.arg(0), st.arg(1), st.arg(2), wr, wc, fit, okay)) return;
        Mat ma = a.read(); V3 v, w; u64 h = (u64)st.arg(5); for (int q = 0; q < 3; ++q) { v[q] = small_int(h + (u64)q); w[q] = small_int(h + 10 + (u64)q); }
        Mat mv = left ? Mat(1, 3) : Mat(3, 1); for (int q = 0; q < 3; ++q) mv.v[(size_t)q] = v[q];
        bool mismatch = op == VCOPY ? !((a.r == 3 && a.c == 1) || (a.r == 1 && a.c == 3 && a.ref.type != H30)) : (left ? a.r : a.c) != 3;
        Mat want; if (op != VCOPY && !mismatch) want = left ? product(mv, ma) : product(ma, mv);
        if (rec.verbose) rec.log_text("step %d %s: a %d %s mode %d %lldx%lld form %d left %d%s", step_no, op_name, a.slot, TYPE_NAMES[a.ref.type], a.mode, (long long)a.r, (long long)a.c, (int)(st.arg(9) & 3), left, mismatch ? " (mismatch)" : "");
        u64 state = mix64((u64)op * 64 ^ (u64)a.ref.type << 16 ^ (u64)left << 40 ^ (u64)(st.arg(9) & 3) << 44);
        if (op == VMUL) {
            for (int pass = 0; pass < 2; ++pass) {
                Result res;
                Out o = call(pass ? Step() : st, mismatch, [&] { visit(a.ref, [&](auto& m, auto T) { constexpr int K = decltype(T)::value; const auto& cm = m;
                    if (left) { if constexpr (stat(3, rdim(K))) { auto x = v * cm; take_any(res, x, false); } } else { if constexpr (stat(3, cdim(K))) { auto x = cm * v; take_any(res, x, true); } } }); });
                rec.state(mix64(state ^ (u64)o));
                if (o == OKAY) { compare(res, want, "the product with a vector"); break; }
                verify_all(); if (o == MISMATCH || mismatch) break;
            }
        } else if (op == VMUL_IN) {
            int form = (int)(st.arg(9) & 3);
            if (form == 3) {     // into a matrix
                View d; if (!choose(d, st.arg(6), st.arg(7), st.arg(8), left ? 1 : a.r, left ? a.c : 1, fit, [&](const View& z) { return z.ref.type == DR || z.ref.type == DC || z.ref.type == WR || z.ref.type == SH; })) return;
                if (!mismatch && (d.r != want.r || d.c != want.c)) mismatch = true;
                bool acc = (st.arg(9) & 4) && a.kind == DENSE;
                if (acc && !mismatch) { Mat old = d.read(); for (size_t q = 0; q < want.v.size(); ++q) want.v[q] += old.v[q]; }
                for (int pass = 0; pass < 2; ++pass) {
                    Out o = call(pass ? Step() : st, mismatch, [&] { visit(a.ref, [&](auto& m, auto T) { constexpr int K = decltype(T)::value; const auto& cm = m;
                        visit(d.ref, [&](auto& md, auto T2) { constexpr int D = decltype(T2)::value; if constexpr (D == DR || D == DC || D == WR || D == SH) {
                            if (left) { if constexpr (stat(3, rdim(K))) { if constexpr (kind_of(K) == DENSE) { if (acc) { mul_acc(&md, v, cm); return; } } mul(&md, v, cm); } }
                            else      { if constexpr (stat(3, cdim(K))) { if constexpr (kind_of(K) == DENSE) { if (acc) { mul_acc(&md, cm, v); return; } } mul(&md, cm, v); } } } }); }); });
                    rec.state(mix64(state ^ (u64)o ^ relation(d, a) << 20));
                    if (o == OKAY) { write(d, want); break; }
                    if (o == FAULT) { resync(d, &a, nullptr); verify_all(); fix_nan(d); if (mismatch) break; } else break;
                }
                verify_all(); tame(d);
                return;
            }
            if (!stat(3, rdim(a.ref.type)) || !stat(3, cdim(a.ref.type))) return;      // does not compile
            bool alias = form == 1, acc = form == 2 && a.kind == DENSE;
            V3 keep = w; V3& dest = alias ? v : w;
            if (!mismatch && (left ? a.c : a.r) != 3) mismatch = true;
            for (int pass = 0; pass < 2; ++pass) {
                Out o = call(pass ? Step() : st, mismatch, [&] { visit(a.ref, [&](auto& m, auto T) { constexpr int K = decltype(T)::value; const auto& cm = m;
                    if constexpr (stat(3, rdim(K)) && stat(3, cdim(K))) {
                        if (left) { if constexpr (kind_of(K) == DENSE) { if (acc) { mul_acc(&dest, v, cm); return; } } mul(&dest, v, cm); }
                        else      { if constexpr (kind_of(K) == DENSE) { if (acc) { mul_acc(&dest, cm, v); return; } } mul(&dest, cm, v); }
                    } }); });
                rec.state(mix64(state ^ (u64)o));
                if (o == OKAY) {
                    for (int q = 0; q < 3; ++q) { double e = want.v[(size_t)q] + (acc ? keep[q] : 0); SIM_REQUIRE("C16", "wrong-result", dest[q] == e, "%s: product with a vector has %g at %d, expected %g", op_name, dest[q], q, e); }
                    if (!alias) for (int q = 0; q < 3; ++q) SIM_REQUIRE("C16", "operand-changed", v[q] == mv.v[(size_t)q], "%s: the vector operand was changed", op_name);
                    rec.check(); break;
                }
                for (int q = 0; q < 3; ++q) SIM_REQUIRE("C16", "operand-changed", v[q] == mv.v[(size_t)q], "%s: the vector operand was changed by a failed product", op_name);
                if (o == MISMATCH || mismatch) break;
                w = keep;
            }
        } else {   // VCOPY
            bool to_vec = left;
            for (int pass = 0; pass < 2; ++pass) {
                Out o = call(pass ? Step() : st, mismatch, [&] { visit(a.ref, [&](auto& m, auto T) { constexpr int K = decltype(T)::value; const auto& cm = m;
                    if constexpr (K == DR || K == DC || K == SH || K == WR || K == WC || K == H30) { if (to_vec) mtxcopy(&w, cm); else mtxcopy(&m, v); } }); });
                if (o == OKAY) {
                    if (to_vec) { for (int q = 0; q < 3; ++q) SIM_REQUIRE("C16", "wrong-result", w[q] == ma.v[(size_t)q], "%s: copying to a vector gave %g, expected %g", op_name, w[q], ma.v[(size_t)q]); }
                    else { Mat c(a.r, a.c); for (int q = 0; q < 3; ++q) c.v[(size_t)q] = v[q]; write(a, c); }
                    break;
                }
                if (o == MISMATCH || mismatch) break;
            }
        }
        rec.check(); verify_all();
    }

    // ------------------------------------------------------------ solvers

    void solvers(const Step& st) {
        u64 h = (u64)st.arg(5);
        switch (st.op) {
        case SOLVE: case PLU: {
            View a; if (!choose(a, st.arg(0), st.arg(1), st.arg(2), st.op == SOLVE ? -1 : 0, st.op == SOLVE ? -1 : 0, true, [](const View&) { return true; })) return;
            Mat m = a.read(); bool rm = st.arg(10) & 1;
            auto lay = [&](const Mat& z) { std::vector<double> v; if (rm) v = z.v; else { Mat q = transposed(z); v = q.v; } return v; };
            if (st.op == SOLVE) {
                if (m.r != m.c) return;
                index_t n = m.r, k = 1 + (index_t)((u64)st.arg(9) % 3);
                Mat x(n, k); for (size_t q = 0; q < x.v.size(); ++q) x.v[q] = small_int(h + q);
                std::vector<double> A = lay(m), B = lay(product(m, x)), W = lay(x); bool ok = false;
                call(Step(), false, [&] { ok = rm ? linear_solve<double,true>(A.data(), n, k, B.data()) : linear_solve<double,false>(A.data(), n, k, B.data()); });
                Mat inv; long double det; bool sing = singular(m); double cond = sing ? INFINITY : invert(m, inv, det);
                if (cond < 1e7) {
                    SIM_REQUIRE("C16", "solve-flag", ok, "linear_solve reported a regular system as singular"); rec.check();
                    for (size_t q = 0; q < W.size(); ++q) SIM_REQUIRE("C16", "wrong-solution", fabs(B[q] - W[q]) <= 1e-12 * cond + 1e-9, "linear_solve: solution has %g, expected %g", B[q], W[q]);
                }
            } else {
                index_t r = m.r, c = m.c; std::vector<double> A = lay(m); std::vector<index_t> p((size_t)r, -1); bool odd = false; index_t deg = 0;
                call(Step(), false, [&] { deg = rm ? decomp_plu<double,true>(A.data(), r, c, p.data(), &odd) : decomp_plu<double,false>(A.data(), r, c, p.data(), &odd); });
                bool perm = true; std::vector<char> seen((size_t)r, 0); for (index_t q : p) { if (q < 0 || q >= r || seen[(size_t)q]) { perm = false; break; } seen[(size_t)q] = 1; }
                SIM_REQUIRE("C16", "wrong-decomposition", perm, "decomp_plu: the row order is no permutation"); rec.check();
                SIM_REQUIRE("C16", "wrong-decomposition", (perm_sign(p) < 0) == odd, "decomp_plu: wrong parity"); rec.check();
                auto at = [&](index_t i, index_t j) { return A[(size_t)(rm ? i * c + j : j * r + i)]; };
                index_t n = std::min(r, c);
                if (deg == 0) for (index_t i = 0; i < r; ++i) for (index_t j = 0; j < c; ++j) {
                    double z = 0, mag = 1; for (index_t q = 0; q < n; ++q) { double l = i == q ? 1 : i > q ? at(i, q) : 0, u = q <= j ? at(q, j) : 0; z += l * u; mag += fabs(l * u); }
                    SIM_REQUIRE("C16", "wrong-decomposition", fabs(z - m(p[(size_t)i], j)) <= 1e-12 * mag, "decomp_plu: the factors give %g at (%lld,%lld), expected %g", z, (long long)i, (long long)j, m(p[(size_t)i], j));
                }
            }
            break;
        }
        case SOLVE_VEC: {
            Vec<double,3> bs[3], X[4]; index_t k = 1 + (index_t)((u64)st.arg(9) % 4); Mat m(3, 3), x(3, k);
            for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) bs[j][i] = m(i, j) = small_int(h + (u64)(i * 3 + j));
            for (size_t q = 0; q < x.v.size(); ++q) x.v[q] = small_int(h + 20 + q);
            Mat b = product(m, x); for (index_t j = 0; j < k; ++j) for (int i = 0; i < 3; ++i) X[j][i] = b(i, j);
            Mat inv; long double det; bool sing = singular(m); double cond = sing ? INFINITY : invert(m, inv, det);
            for (int pass = 0; pass < 2; ++pass) {
                bool ok = false;
                Out o = call(pass ? Step() : st, false, [&] { ok = linear_solve(bs, k, X); });
                if (o == FAULT) { for (index_t j = 0; j < k; ++j) for (int i = 0; i < 3; ++i) SIM_REQUIRE("C16", "operand-changed", X[j][i] == b(i, j), "linear_solve: a failed call changed the right-hand side"); rec.check(); continue; }
                SIM_REQUIRE("C16", "solve-flag", ok == !sing, "linear_solve reported a %s system as %s", sing ? "singular" : "regular", ok ? "solved" : "singular"); rec.check();
                for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) SIM_REQUIRE("C16", "operand-changed", bs[j][i] == m(i, j), "linear_solve: the bases were changed");
                if (ok) for (index_t j = 0; j < k; ++j) for (int i = 0; i < 3; ++i) SIM_REQUIRE("C16", "wrong-solution", fabs(X[j][i] - x(i, j)) <= 1e-12 * cond + 1e-12, "linear_solve: solution has %g, expected %g", X[j][i], x(i, j));
                break;
            }
            // five dimensions: solved in place
            Vec<double,5> b5[5], X5[3]; Mat m5(5, 5), x5(5, k > 3 ? 3 : k);
            for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) b5[j][i] = m5(i, j) = small_int(h + 100 + (u64)(i * 5 + j));
            for (size_t q = 0; q < x5.v.size(); ++q) x5.v[q] = small_int(h + 200 + q);
            Mat c5 = product(m5, x5); for (index_t j = 0; j < x5.c; ++j) for (int i = 0; i < 5; ++i) X5[j][i] = c5(i, j);
            bool s5 = singular(m5); double cd = s5 ? INFINITY : invert(m5, inv, det); bool ok = false;
            call(Step(), false, [&] { ok = linear_solve(b5, x5.c, X5); });
            if (cd < 1e7) {
                SIM_REQUIRE("C16", "solve-flag", ok, "linear_solve reported a regular system of 5 vectors as singular"); rec.check();
                for (index_t j = 0; j < x5.c; ++j) for (int i = 0; i < 5; ++i) SIM_REQUIRE("C16", "wrong-solution", fabs(X5[j][i] - x5(i, j)) <= 1e-12 * cd + 1e-9, "linear_solve: solution has %g, expected %g", X5[j][i], x5(i, j));
            }
            break;
        }
        case CHOL: {
            index_t n = 1 + (index_t)((u64)st.arg(1) % 6); Mat l(n, n);
            for (index_t i = 0; i < n; ++i) for (index_t j = 0; j <= i; ++j) l(i, j) = i == j ? 1 + (double)(mix64(h + (u64)i) % 4) : small_int(h + (u64)(i * 10 + j));
            Mat a = product(l, transposed(l)); bool rm = st.arg(10) & 1, bad = st.arg(10) & 2;
            if (bad) a(n - 1, n - 1) -= l(n - 1, n - 1) * l(n - 1, n - 1) + 1;
            std::vector<double> v = a.v; bool ok = false;
            call(Step(), false, [&] { ok = rm ? cholesky<double,true>(v.data(), n) : cholesky<double,false>(v.data(), n); });
            SIM_REQUIRE("C16", "cholesky-flag", ok == !bad, "cholesky reported a %s matrix as %s", bad ? "indefinite" : "positive definite", ok ? "positive definite" : "indefinite"); rec.check();
            if (!bad) for (index_t i = 0; i < n; ++i) for (index_t j = 0; j < n; ++j) { double got = v[(size_t)(rm ? i * n + j : j * n + i)]; SIM_REQUIRE("C16", "wrong-decomposition", got == l(i, j), "cholesky: factor has %g at (%lld,%lld), expected %g", got, (long long)i, (long long)j, l(i, j)); }
            break;
        }
        case FLAT: {   // the functions on plain arrays
            int form = (int)((u64)st.arg(9) % 4); index_t n = 2 + (index_t)((u64)st.arg(1) % (form < 2 ? 3 : 5)); bool rm = st.arg(10) & 1;
            Mat m(n, n), inv; long double det = 0; for (size_t q = 0; q < m.v.size(); ++q) m.v[q] = small_int(h + q);
            if (st.arg(10) & 4) for (index_t j = 0; j < n; ++j) m(n - 1, j) = m(0, j);
            bool sing = singular(m), ok = false; double cond = sing ? INFINITY : invert(m, inv, det);
            double big = 1; if (!sing) for (double z : inv.v) big = std::max(big, fabs(z));
            rec.state(mix64((u64)st.op * 64 ^ (u64)form << 10 ^ (u64)n << 20 ^ (u64)sing << 30));
            if (form < 2) {     // input and output may overlap
                std::vector<double> v((size_t)(2 * n * n + 4), 5.0); double* src = v.data(), *dst = form == 0 ? src : src + 1 + (u64)st.arg(2) % 4;
                std::copy(m.v.begin(), m.v.end(), src); std::vector<double> before = v;
                call(Step(), false, [&] { ok = n == 2 ? inv2x2(dst, src) : n == 3 ? inv3x3(dst, src) : inv4x4(dst, src); });
                SIM_REQUIRE("C16", "inverse-flag", ok == !sing, "inversion of a %s array of %lld x %lld elements reported %s", sing ? "singular" : "regular", (long long)n, (long long)n, ok ? "success" : "failure"); rec.check();
                if (sing) { SIM_REQUIRE("C16", "operand-changed", v == before, "a failed inversion changed the output array"); break; }
                for (index_t q = 0; q < n * n; ++q) SIM_REQUIRE("C16", "wrong-inverse", fabs(dst[q] - inv.v[(size_t)q]) <= 1e-13 * cond * big, "the inverse of an array has %g at %lld, expected %g", dst[q], (long long)q, inv.v[(size_t)q]);
                break;
            }
            auto lay = [&](const Mat& z) { return rm ? z.v : transposed(z).v; };
            if (form == 2) {
                index_t k = 1 + (index_t)((u64)st.arg(2) % 3), skip = (index_t)((u64)st.arg(3) % (u64)(n + 1)); if (st.arg(10) & 2) skip = 0;
                Mat x(n, k); for (size_t q = 0; q < x.v.size(); ++q) x.v[q] = small_int(h + 50 + q);
                std::vector<double> A = lay(m), B = lay(product(m, x)), W = lay(x), O((size_t)(n * n), 7.0); bool ok2 = false;
                call(Step(), false, [&] { ok = rm ? linear_solve<double,true>(A.data(), n, k, B.data(), skip) : linear_solve<double,false>(A.data(), n, k, B.data(), skip); });
                A = lay(m);
                call(Step(), false, [&] { ok2 = n == 5 ? invNxN<double,5>(O.data(), A.data()) : invNxN(O.data(), A.data(), n); });
                if (!ok2) for (double z : O) SIM_REQUIRE("C16", "operand-changed", z == 7.0, "a failed inversion changed the output array");
                if (cond >= 1e7) break;
                SIM_REQUIRE("C16", "solve-flag", ok && ok2, "a regular system was reported as singular"); rec.check();
                for (index_t i = skip; i < n; ++i) for (index_t j = 0; j < k; ++j) { size_t q = (size_t)(rm ? i * k + j : j * n + i); SIM_REQUIRE("C16", "wrong-solution", fabs(B[q] - W[q]) <= 1e-12 * cond + 1e-9, "linear_solve with skip %lld: solution has %g, expected %g", (long long)skip, B[q], W[q]); }
                std::vector<double> I = lay(inv);
                for (size_t q = 0; q < I.size(); ++q) SIM_REQUIRE("C16", "wrong-inverse", fabs(O[q] - I[q]) <= 1e-12 * cond * big, "invNxN: inverse has %g, expected %g", O[q], I[q]);
                break;
            }
            index_t r = n, c = 1 + (index_t)((u64)st.arg(2) % 6); Mat a(r, c); for (size_t q = 0; q < a.v.size(); ++q) a.v[q] = small_int(h + 70 + q);
            std::vector<double> A = lay(a); std::vector<index_t> p((size_t)c, -1); bool odd = false; index_t deg = 0;
            call(Step(), false, [&] { deg = rm ? decomp_lup<double,true>(A.data(), r, c, p.data(), &odd) : decomp_lup<double,false>(A.data(), r, c, p.data(), &odd); });
            bool perm = true; std::vector<char> seen((size_t)c, 0); for (index_t q : p) { if (q < 0 || q >= c || seen[(size_t)q]) { perm = false; break; } seen[(size_t)q] = 1; }
            SIM_REQUIRE("C16", "wrong-decomposition", perm, "decomp_lup: the column order is no permutation"); rec.check();
            SIM_REQUIRE("C16", "wrong-decomposition", (perm_sign(p) < 0) == odd, "decomp_lup: wrong parity"); rec.check();
            auto at = [&](index_t i, index_t j) { return A[(size_t)(rm ? i * c + j : j * r + i)]; };
            if (deg == 0) for (index_t i = 0; i < r; ++i) for (index_t j = 0; j < c; ++j) {
                double z = 0, mag = 1; for (index_t q = 0; q < std::min(r, c); ++q) { double l = i == q ? 1 : i > q ? at(i, q) : 0, u = q <= j ? at(q, j) : 0; z += l * u; mag += fabs(l * u); }
                SIM_REQUIRE("C16", "wrong-decomposition", fabs(z - a(i, p[(size_t)j])) <= 1e-12 * mag, "decomp_lup: the factors give %g at (%lld,%lld), expected %g", z, (long long)i, (long long)j, a(i, p[(size_t)j]));
            }
            break;
        }
        case BIG: {   // sizes whose work space is allocated
            index_t n = 5 + (index_t)((u64)st.arg(1) % 24); bool col = st.arg(10) & 1; int form = (int)((u64)st.arg(9) % 5);
            Mat m(n, n), inv(n, n); for (index_t i = 0; i < n; ++i) m(i, i) = inv(i, i) = 1;
            double det = 1;
            for (int q = 0; q < 6; ++q) {     // elementary operations: m := E m, inv := inv E^-1
                u64 z = mix64(h * 16 + (u64)q); index_t i = (index_t)(z % (u64)n), j = (index_t)((z >> 8) % (u64)n); if (i == j) continue;
                if ((z >> 20) & 1) { for (index_t c = 0; c < n; ++c) { std::swap(m(i, c), m(j, c)); std::swap(inv(c, i), inv(c, j)); } det = -det; }
                else { double k = (z >> 21) & 1 ? 1 : -2; for (index_t c = 0; c < n; ++c) { m(i, c) += k * m(j, c); inv(c, j) -= k * inv(c, i); } }
            }
            typedef TypeOf<DR>::t RM; typedef TypeOf<DC>::t CM;
            RM* a = nullptr; CM* ac = nullptr; RM* d = nullptr;
            call(Step(), false, [&] { a = new RM(m.v.data(), n, n); ac = new CM(transposed(m).v.data(), n, n); d = new RM(n, n); });
            double x = 0; bool ok = false; Mat got(n, n);
            std::vector<double> A = m.v, B((size_t)n), X((size_t)n); for (index_t q = 0; q < n; ++q) X[(size_t)q] = small_int(h + (u64)q);
            for (index_t i = 0; i < n; ++i) { double z = 0; for (index_t j = 0; j < n; ++j) z += m(i, j) * X[(size_t)j]; B[(size_t)i] = z; }
            std::vector<double> A0 = A, B0 = B;
            for (int pass = 0; pass < 2; ++pass) {
                Result res; A = A0; B = B0;
                Out o = call(pass ? Step() : st, false, [&] { switch (form) {
                    case 0: ok = col ? geom::inv(d, *ac) : geom::inv(d, *a); break;
                    case 1: ok = col ? geom::inv(ac, *ac) : geom::inv(a, *a); break;
                    case 2: if (col) { auto r = geom::inv(*ac, &ok); take(res, r); } else { auto r = geom::inv(*a, &ok); take(res, r); } break;
                    case 3: x = col ? det_of(*ac) : det_of(*a); break;
                    default: ok = linear_solve<double,true>(A.data(), n, 1, B.data()); break;
                } });
                for (index_t i = 0; o == FAULT && i < n; ++i) for (index_t j = 0; j < n; ++j) SIM_REQUIRE("C16", "operand-changed", (*a)(i, j) == m(i, j) && (*ac)(i, j) == m(i, j), "%s: a failed operation changed its operand", op_name);
                rec.check();
                if (o == FAULT) continue;
                rec.state(mix64((u64)st.op * 64 ^ (u64)form << 10 ^ (u64)col << 14 ^ (u64)n << 20));
                if (form == 3) { SIM_REQUIRE("C16", "wrong-determinant", fabs(x - det) < 1e-6, "det of a %lld x %lld matrix is %g, expected %g", (long long)n, (long long)n, x, det); break; }
                SIM_REQUIRE("C16", "inverse-flag", ok, "%s: a regular matrix of size %lld was reported as singular", op_name, (long long)n); rec.check();
                if (form == 4) { for (index_t q = 0; q < n; ++q) SIM_REQUIRE("C16", "wrong-solution", fabs(B[(size_t)q] - X[(size_t)q]) < 1e-6, "linear_solve of %lld unknowns gave %g, expected %g", (long long)n, B[(size_t)q], X[(size_t)q]); break; }
                for (index_t i = 0; i < n; ++i) for (index_t j = 0; j < n; ++j) {
                    double g = form == 0 ? (*d)(i, j) : form == 1 ? (col ? (*ac)(i, j) : (*a)(i, j)) : res.m(i, j);
                    SIM_REQUIRE("C16", "wrong-inverse", fabs(g - inv(i, j)) < 1e-6, "inverse of a %lld x %lld matrix has %g at (%lld,%lld), expected %g", (long long)n, (long long)n, g, (long long)i, (long long)j, inv(i, j));
                }
                break;
            }
            { Lib l; delete a; delete ac; delete d; }
            // static sizes above 4
            if (n == 5) {
                SimpleMatrix<double,5,5> f(m.v.data()), g; SimpleMatrix<double,5,5,COL_MAJOR> e; bool k1 = false, k2 = false; double dt = 0;
                call(Step(), false, [&] { k1 = geom::inv(&g, f); k2 = geom::inv(&e, f); dt = geom::det(f); geom::inv(&f, f); });
                for (index_t i = 0; i < 5; ++i) for (index_t j = 0; j < 5; ++j) SIM_REQUIRE("C16", "wrong-inverse", k1 && k2 && fabs(g(i, j) - inv(i, j)) < 1e-8 && fabs(e(i, j) - inv(i, j)) < 1e-8 && fabs(f(i, j) - inv(i, j)) < 1e-8, "inverse of a static 5 x 5 matrix is wrong");
                SIM_REQUIRE("C16", "wrong-determinant", fabs(dt - det) < 1e-8, "det of a static 5 x 5 matrix is %g, expected %g", dt, det);
            }
            break;
        }
        }
        rec.check(); verify_all();
    }
    template <typename M> static double det_of(const M& m) { return geom::det(m); }

    void step(const Step& st, int n) {
        step_no = n; rec.cur_step = n; op_name = OPS[st.op]; rec.count(op_name);
        rec.log((u64)st.op);
        int op = st.op;
        if (op <= INV) with_destination(st);
        else if (op <= ALIAS) by_value(st);
        else if (op == ITERATE || (op >= SET && op <= CONST)) elements(st);
        else if (op <= RESULT) objects(st);
        else if (op <= PAPPLY) permutations(st);
        else if (op <= VCOPY) vectors(st);
        else solvers(st);
        u64 h = 1; for (int k : act) { View v; make(v, k, 0, 0, 0, 0); for (double z : v.read().v) h = mix64(h ^ (u64)(i64)z); }
        rec.log(h);
    }

    void run() {
        u64 h = (u64)t.get("fill");
        for (int a = 0; a < 2; ++a) { arena[a] = new double[ARENA]; marena[a] = std::make_shared<std::vector<double>>((size_t)ARENA); for (index_t i = 0; i < ARENA; ++i) (*marena[a])[(size_t)i] = arena[a][i] = small_int(h * 3 + (u64)(a * 100 + i)); }
        i64 mask = t.get("mask");
        for (int k = 0; k < SLOTS; ++k) { s[k].type = SLOT_TYPES[k]; if (mask >> k & 1) act.push_back(k); }
        if (act.empty()) act.push_back(0);
        op_name = "new";
        for (size_t q = 0; q < act.size(); ++q) { u64 z = mix64(h + q * 7); fresh(Step(), act[q], pick_dim((i64)(z % (u64)t.get("dims", 4))), pick_dim((i64)((z >> 20) % (u64)t.get("dims", 4))), 1, z >> 8); }
        int n = 0;
        for (auto& st : t.steps) step(st, n++);
        rec.cur_step = n;
        for (int k : act) destroy(s[k].type, s[k].obj);
        for (int a = 0; a < 2; ++a) delete[] arena[a];
        rec.check();
        alloc_check_leaks();
        rec.check();
    }
};

struct MatrixScenario : Scenario {
    const char* name() const override { return "matrix"; }
    std::vector<const char*> ops() const override { return std::vector<const char*>(OPS, OPS + OP_COUNT); }
    void generate(Rng& r, Trace& t, int tier) override {
        i64 mask = 0; int want = (int)r.range(2, 9);
        for (int q = 0; q < want; ++q) mask |= (i64)1 << r.below((u64)SLOTS);
        if (r.chance(1, 2)) mask |= (i64)1 << r.below(5);
        if (r.chance(1, 2)) { int ty = SLOT_TYPES[r.below((u64)SLOTS)]; for (int k = 0; k < SLOTS; ++k) if (SLOT_TYPES[k] == ty) mask |= (i64)1 << k; }
        t.cfg["mask"] = mask; t.cfg["fill"] = (i64)r.below(1000000); t.cfg["dims"] = r.chance(1, 2) ? 3 : r.chance(1, 2) ? 6 : 10;
        std::vector<int> kinds; unsigned pct = 0;
        if (!r.chance(1, 3)) { kinds.push_back(F_ALLOC); pct = (unsigned)r.range(5, 50); }
        int n = r.chance(1, 3) ? (int)r.range(1, 6) : (int)r.range(4, tier ? 60 : 24);
        std::vector<int> w(OP_COUNT); int tot = 0;
        for (int k = 0; k < OP_COUNT; ++k) { w[k] = r.chance(1, 3) ? 0 : (int)r.range(1, 5); if (k <= INV) w[k] *= 3; }
        for (int k : {SOLVE, SOLVE_VEC, PLU, CHOL, BIG, FLAT}) if (w[k] > 1) w[k] = 1;
        w[FILL] += 1;
        for (int k : w) tot += k;
        unsigned mism = (unsigned)r.below(3);      // how often dimensions are left to chance
        for (int q = 0; q < n; ++q) {
            int z = (int)r.below((u64)tot), op = 0; while (z >= w[op]) z -= w[op++];
            i64 a = (i64)r.below(32), b = r.chance(1, 4) ? a : (i64)r.below(32), d = r.chance(2, 5) ? a : r.chance(1, 4) ? b : (i64)r.below(32);
            auto mode = [&] { return r.chance(1, 2) ? (i64)0 : (i64)r.below(4); };
            i64 flags = (i64)r.below(4) * 2 + (r.below(6) < mism ? 1 : 0);
            add_step(t, op, {a, mode(), (i64)r.below(997), b, mode(), (i64)r.below(4096), d, mode(), (i64)r.below(997), (i64)r.below(28), flags});
            maybe_fault(r, t, kinds, pct, 4);
        }
    }
    void execute(const Trace& t) override { alloc_prop = "C16"; elem_prop = "C16"; World w(t); w.run(); }
};
sim::Scenario* sim::make_scenario() { return new MatrixScenario; }
