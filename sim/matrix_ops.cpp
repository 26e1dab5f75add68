// C16: every supported combination of destination and operands, one destination (or left operand) per unit.
#include "matrix.h"
namespace mx {

template <int TD>
struct Ops {
    typedef typename TypeOf<TD>::t D;
    static void into(int op, D& d, const Ref& a, const Ref& b, double k, Result& out) {
        visit(a, [&](auto& ma, auto ta) {
            constexpr int TA = decltype(ta)::value;
            const auto& ca = ma;
            switch (op) {
            case SCALE:     if constexpr (sup(SCALE, TD, TA, 0))     scale(&d, k, ca); return;
            case TRANSPOSE: if constexpr (sup(TRANSPOSE, TD, TA, 0)) transpose(&d, ca); return;
            case COPYTO:    if constexpr (sup(COPYTO, TD, TA, 0))    mtxcopy(&d, ca); return;
            case INV:       if constexpr (sup(INV, TD, TA, 0))       out.flag = inv(&d, ca); return;
            }
            visit(b, [&](auto& mb, auto tb) {
                constexpr int TB = decltype(tb)::value;
                const auto& cb = mb;
                switch (op) {
                case MUL:     if constexpr (sup(MUL, TD, TA, TB))     mul(&d, ca, cb); break;
                case MUL_ACC: if constexpr (sup(MUL_ACC, TD, TA, TB)) mul_acc(&d, ca, cb); break;
                case ADD:     if constexpr (sup(ADD, TD, TA, TB))     add(&d, ca, cb); break;
                case SUB:     if constexpr (sup(SUB, TD, TA, TB))     sub(&d, ca, cb); break;
                }
            });
        });
    }
    // left operand of type TD
    static void value(int op, D& m, const Ref& b, double k, Result& out) {
        const D& a = m;
        switch (op) {
        case SCALE_V: if constexpr (kind_of(TD) != PERM) { if (out.flag) { auto x = k * a; take(out, x); } else { auto x = a * k; take(out, x); } } return;
        case TRANSPOSE_V: { auto x = transpose(a); take(out, x); return; }
        case INV_V: if constexpr (stat(rdim(TD), cdim(TD))) { auto x = inv(a, &out.flag); take(out, x); } return;
        case DET:   if constexpr (stat(rdim(TD), cdim(TD))) { out.x = (double)det(a); out.made = true; } return;
        case SCALE_IN: if constexpr (kind_of(TD) == DENSE) m *= k; return;
        }
        visit(b, [&](auto& mb, auto tb) {
            constexpr int TB = decltype(tb)::value;
            const auto& cb = mb;
            switch (op) {
            case MUL_V: if constexpr (sup(MUL_V, 0, TD, TB)) { if (out.flag) { auto x = mul(a, cb); take(out, x); } else { auto x = a * cb; take(out, x); } } break;
            case ADD_V: if constexpr (sup(ADD_V, 0, TD, TB)) { auto x = a + cb; take(out, x); } break;
            case SUB_V: if constexpr (sup(SUB_V, 0, TD, TB)) { auto x = a - cb; take(out, x); } break;
            case DIAG_IN: if constexpr (sup(DIAG_IN, 0, TD, TB)) m *= cb; break;
            case EQUAL: { bool e = a == cb, n = a != cb; out.flag = e; out.x = e != n; out.made = true; break; }
            case ALIAS: out.flag = mtx_aliases_storage(a, cb); out.made = true; break;
            }
        });
    }
    static void run(int op, const Ref& d, const Ref& a, const Ref& b, double k, Result& out) {
        if (has_dest(op)) into(op, *(D*)d.p, a, b, k, out);
        else value(op, *(D*)a.p, b, k, out);
    }
};

#define CAT_(A, B) A##B
#define CAT(A, B) CAT_(A, B)
#ifdef SIM_K
void CAT(run_mx_, SIM_K)(int op, const Ref& d, const Ref& a, const Ref& b, double k, Result& out) { Ops<SIM_K>::run(op, d, a, b, k, out); }
#else
#define ALL(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15)
#define DECL(N) void run_mx_##N(int, const Ref&, const Ref&, const Ref&, double, Result&);
#define NAME(N) run_mx_##N,
ALL(DECL)
static const Dispatch table[] = { ALL(NAME) };
void dispatch(int op, const Ref& d, const Ref& a, const Ref& b, double k, Result& out) { table[has_dest(op) ? d.type : a.type](op, d, a, b, k, out); }
#endif
}
