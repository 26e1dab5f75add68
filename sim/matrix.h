// C16: the matrix types which are simulated, which operations they support, and references to them.
#pragma once
#include "core/sim.h"
#include "core/ops.h"
#include <cmath>
#include <memory>
#include <geomc/linalg/Matrix.h>
#include <geomc/linalg/Cholesky.h>
#include <geomc/linalg/LUDecomp.h>

namespace mx {
using namespace geom;
using sim::i64; using sim::u64;

enum TypeId { DR, DC, SH, S3, S3C, SS, H30, D0, D3, D23, P0, P3, WR, WC, W3, W3C, T_COUNT };
template <int> struct TypeOf;
template <> struct TypeOf<DR>  { typedef SimpleMatrix<double,0,0> t; };
template <> struct TypeOf<DC>  { typedef SimpleMatrix<double,0,0,COL_MAJOR> t; };
template <> struct TypeOf<SH>  { typedef SimpleMatrix<double,0,0,ROW_MAJOR,STORAGE_SHARED> t; };
template <> struct TypeOf<S3>  { typedef SimpleMatrix<double,3,3> t; };
template <> struct TypeOf<S3C> { typedef SimpleMatrix<double,3,3,COL_MAJOR> t; };
template <> struct TypeOf<SS>  { typedef SimpleMatrix<double,3,3,COL_MAJOR,STORAGE_SHARED> t; };
template <> struct TypeOf<H30> { typedef SimpleMatrix<double,3,0> t; };
template <> struct TypeOf<D0>  { typedef DiagMatrix<double,0,0> t; };
template <> struct TypeOf<D3>  { typedef DiagMatrix<double,3,3> t; };
template <> struct TypeOf<D23> { typedef DiagMatrix<double,2,3> t; };
template <> struct TypeOf<P0>  { typedef PermutationMatrix<0> t; };
template <> struct TypeOf<P3>  { typedef PermutationMatrix<3> t; };
template <> struct TypeOf<WR>  { typedef WrapperMatrix<double,0,0> t; };
template <> struct TypeOf<WC>  { typedef WrapperMatrix<double,0,0,COL_MAJOR> t; };
template <> struct TypeOf<W3>  { typedef WrapperMatrix<double,3,3> t; };
template <> struct TypeOf<W3C> { typedef WrapperMatrix<double,3,3,COL_MAJOR> t; };

enum Kind { DENSE, DIAG, PERM };
constexpr Kind kind_of(int t) { return t == D0 || t == D3 || t == D23 ? DIAG : t == P0 || t == P3 ? PERM : DENSE; }
constexpr int  rdim(int t) { return t == S3 || t == S3C || t == SS || t == H30 || t == D3 || t == P3 || t == W3 || t == W3C ? 3 : t == D23 ? 2 : 0; }
constexpr int  cdim(int t) { return t == S3 || t == S3C || t == SS || t == D3 || t == D23 || t == P3 || t == W3 || t == W3C ? 3 : 0; }
constexpr bool row_major(int t) { return !(t == DC || t == S3C || t == SS || t == WC || t == W3C); }
constexpr bool is_wrap(int t) { return t == WR || t == WC || t == W3 || t == W3C; }
constexpr bool is_shared(int t) { return t == SH; }   // a shared matrix of fixed size owns its elements
constexpr bool stat(int x, int y) { return x == y || x == 0 || y == 0; }

enum { // with a destination
       MUL, MUL_ACC, ADD, SUB, SCALE, TRANSPOSE, COPYTO, INV,
       // by value
       MUL_V, ADD_V, SUB_V, SCALE_V, TRANSPOSE_V, INV_V, DET,
       // in place
       SCALE_IN, DIAG_IN,
       // observers
       EQUAL, ALIAS, ITERATE,
       // objects
       NEW, CONVERT, COPY, ASSIGN, SWAP, MOVE, RESULT,
       // elements
       SET, FILL, CONST,
       // permutations
       PSWAP, PSOURCES, PSIGN, PTRANSPOSE, PAPPLY,
       // vectors
       VMUL, VMUL_IN, VCOPY,
       // solvers
       SOLVE, SOLVE_VEC, PLU, CHOL, BIG, FLAT,
       OP_COUNT };
static const char* const OPS[] = { "mul", "mul_acc", "add", "sub", "scale", "transpose", "mtxcopy", "inv",
       "mul_value", "add_value", "sub_value", "scale_value", "transpose_value", "inv_value", "det",
       "scale_in_place", "diag_in_place", "equal", "aliases", "iterate",
       "new", "convert", "copy", "assign", "swap", "move", "assign_result",
       "set", "fill", "constant", "perm_swap", "perm_sources", "perm_sign", "perm_transpose", "perm_apply",
       "vec_mul", "vec_mul_into", "vec_copy", "solve", "solve_vec", "plu", "cholesky", "big", "flat" };

constexpr bool needs_b(int op) { return op == MUL || op == MUL_ACC || op == ADD || op == SUB; }
constexpr bool has_dest(int op) { return op <= INV; }

// which combinations the library offers
constexpr bool sup(int op, int d, int a, int b) {
    switch (op) {
    case MUL:
        return stat(cdim(a), rdim(b)) && stat(rdim(d), rdim(a)) && stat(cdim(d), cdim(b)) &&
               (kind_of(d) == DENSE || (kind_of(d) == kind_of(a) && kind_of(d) == kind_of(b) && (kind_of(d) == DIAG || d == (a == P3 && b == P3 ? P3 : P0))));
    case MUL_ACC:
        return stat(cdim(a), rdim(b)) && stat(rdim(d), rdim(a)) && stat(cdim(d), cdim(b)) &&
               ((kind_of(a) == DENSE && kind_of(b) == DENSE && kind_of(d) == DENSE) || (kind_of(a) == DIAG && kind_of(b) == DIAG && kind_of(d) == DIAG));
    case ADD: case SUB:
        return stat(rdim(a), rdim(b)) && stat(cdim(a), cdim(b)) && stat(rdim(d), rdim(a)) && stat(cdim(d), cdim(a)) && 
               (kind_of(d) == DENSE || (kind_of(d) == DIAG && kind_of(a) == DIAG && kind_of(b) == DIAG));
    case SCALE:     return stat(rdim(d), rdim(a)) && stat(cdim(d), cdim(a)) && (kind_of(d) == DENSE || (kind_of(d) == DIAG && kind_of(a) == DIAG));
    case TRANSPOSE: return stat(rdim(d), cdim(a)) && stat(cdim(d), rdim(a)) && (kind_of(d) == DENSE || (kind_of(d) == DIAG && d == a && d != D23) || (kind_of(d) == PERM && d == a));
    case COPYTO:    return stat(rdim(d), rdim(a)) && stat(cdim(d), cdim(a)) && (kind_of(d) == DENSE || (kind_of(d) == kind_of(a) && (kind_of(d) == DIAG || d == a)));
    case INV:       return stat(rdim(d), rdim(a)) && stat(cdim(d), cdim(a)) && stat(rdim(a), cdim(a)) && stat(rdim(d), cdim(d)) && (kind_of(d) == DENSE || (kind_of(d) == kind_of(a) && (kind_of(d) == DIAG || d == a)));
    case MUL_V:     return stat(cdim(a), rdim(b));
    case ADD_V: case SUB_V: return stat(rdim(a), rdim(b)) && stat(cdim(a), cdim(b));
    case DIAG_IN:   return stat(cdim(a), rdim(b)) && kind_of(b) == DIAG && kind_of(a) != PERM;
    default: return true;
    }
}

struct Ref { int type; void* p; };
template <typename F> void visit(const Ref& r, F f) {
    switch (r.type) {
#define V(T) case T: f(*(typename TypeOf<T>::t*)r.p, std::integral_constant<int, T>()); break;
    V(DR) V(DC) V(SH) V(S3) V(S3C) V(SS) V(H30) V(D0) V(D3) V(D23) V(P0) V(P3) V(WR) V(WC) V(W3) V(W3C)
#undef V
    }
}

struct Mat {
    index_t r = 0, c = 0; std::vector<double> v;
    Mat() {}
    Mat(index_t r, index_t c) : r(r), c(c), v((size_t)(r * c), 0.0) {}
    double& operator()(index_t i, index_t j) { return v[(size_t)(i * c + j)]; }
    double  operator()(index_t i, index_t j) const { return v[(size_t)(i * c + j)]; }
};

// what a by-value operation gave
struct Result { bool made = false, flag = false; Mat m; double x = 0; };
template <typename M> void take(Result& out, const M& m) {
    sim::NoLib nl;
    out.m = Mat(m.rows(), m.cols()); out.made = true;
    for (index_t i = 0; i < m.rows(); ++i) for (index_t j = 0; j < m.cols(); ++j) out.m(i, j) = (double)m(i, j);
}

// one library call; operands are dispatched to their types. Defined per destination (or left operand) in matrix_ops.cpp.
typedef void (*Dispatch)(int op, const Ref& d, const Ref& a, const Ref& b, double k, Result& out);
void dispatch(int op, const Ref& d, const Ref& a, const Ref& b, double k, Result& out);
}
