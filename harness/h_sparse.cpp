// Conversions and transformations of sparse matrices keep the matrix.
#include "mat.hpp"
#include <sparse_utilities.h>
using namespace sym_lib;
namespace sym_lib { CSC *add(CSC *A, CSC *B, double alpha, double beta, bool sort); CSC *permute_general(const CSC *A, const int *pinv, const int *q); }
static Mat in_mat(int part = ANY) { return sym_mat(sym_param("M", 3), sym_param("N", 3), sym_param("COL", 8), part, sym_param("UNSORTED", 0)); }
static int in_pat() { return sym_conc(sym_int("pattern", 0, 1)); }

ENTRY(h_csc_to_csr) {
  Mat a = in_mat(); int kind = sym_param("KIND", 0), n = a.n, m = a.m; auto w = [&](int c, int r) { return a.slot[r * n + c]; };
  if (kind == 0) { int *rp = nullptr, *ci = nullptr; double *v = nullptr; sym_leak_begin(); csc_to_csr(m, n, a.p, a.i, a.x, rp, ci, v); check_comp(m, n, rp, ci, v, a.x, w, 1, ""); delete[] rp; delete[] ci; delete[] v; sym_leak_check("csc_to_csr releases its work space"); sym_assert(mat_same(a, a.p, a.i, a.x), "the input is unchanged"); }
  else { int pat = in_pat(); CSC *A = csc_of(a, pat, 0); CSR *B = csc_to_csr(A); sym_assert((int)B->m == m && (int)B->n == n && (int)B->nnz == a.nnz && B->is_pattern == (bool)pat, "dimensions and kind are kept"); check_comp(m, n, B->p, B->i, pat ? nullptr : B->x, a.x, w, 1, ""); sym_assert(mat_same(a, A->p, A->i, pat ? nullptr : A->x), "the input is unchanged"); delete B; delete A; }
  if (a.nnz > 2) sym_cover("filled"); sym_cover("end");
}
ENTRY(h_csr_to_csc) { // a is stored by rows: matrix is n x m
  Mat a = in_mat(); int kind = sym_param("KIND", 0), n = a.n, m = a.m; auto w = [&](int r, int c) { return a.slot[c * n + r]; };
  if (kind == 0) { int *cp = nullptr, *ri = nullptr; double *v = nullptr; csr_to_csc(n, m, a.i, a.p, a.x, cp, ri, v); check_comp(m, n, cp, ri, v, a.x, w, 1, ""); }
  else { int pat = in_pat(); CSR *A = csr_mat(a, pat); A->stype = sym_conc(sym_int("stype", -1, 0)); CSC *B = csr_to_csc(A); sym_assert((int)B->m == n && (int)B->n == m && (int)B->nnz == a.nnz && B->stype == A->stype, "dimensions and kind are kept"); check_comp(m, n, B->p, B->i, pat ? nullptr : B->x, a.x, w, 1, ""); sym_assert(mat_same(a, A->p, A->i, pat ? nullptr : A->x), "the input is unchanged"); delete B; delete A; }
  sym_cover("end");
}
ENTRY(h_transpose) {
  Mat a = in_mat(); int n = a.n, m = a.m, pat = in_pat(); CSC *A = csc_of(a, pat, 0); CSC *T = transpose_general(A);
  sym_assert((int)T->m == n && (int)T->n == m && (int)T->nnz == a.nnz && T->is_pattern == (bool)pat, "dimensions are swapped"); check_comp(m, n, T->p, T->i, pat ? nullptr : T->x, a.x, [&](int c, int r) { return a.slot[r * n + c]; }, 1, "");
  CSC *TT = transpose_general(T); check_comp(n, m, TT->p, TT->i, pat ? nullptr : TT->x, a.x, [&](int r, int c) { return a.slot[r * n + c]; }, 1, "");
  sym_assert(mat_same(a, A->p, A->i, pat ? nullptr : A->x), "the input is unchanged"); delete TT; delete T; delete A; sym_cover("end");
}
ENTRY(h_copy) {
  Mat a = in_mat(); int n = a.n, m = a.m, pat = in_pat(), st = sym_conc(sym_int("stype", -1, 1)); CSC *A = csc_of(a, pat, st); CSC *B = copy_sparse(A);
  sym_assert((int)B->m == m && (int)B->n == n && (int)B->nnz == a.nnz && B->stype == st, "a copy keeps dimensions and symmetry"); sym_assert(mat_same(a, B->p, B->i, pat ? nullptr : B->x), "a copy has the same entries in the same order");
  sym_assert(B->p != A->p && (a.nnz == 0 || B->i != A->i), "a copy has its own arrays"); delete A; sym_assert(mat_same(a, B->p, B->i, pat ? nullptr : B->x), "a copy does not depend on the original"); delete B;
  A = csc_of(a, pat, st); CSC *D = new CSC(m, n, a.nnz, (bool)pat); copy_from_to(A, D); sym_assert(mat_same(a, D->p, D->i, pat ? nullptr : D->x), "copy_from_to copies a CSC matrix"); delete D; delete A;
  CSR *R = csr_mat(a, pat), *S = new CSR(n, m, a.nnz, (bool)pat); copy_from_to(R, S); sym_assert(mat_same(a, S->p, S->i, pat ? nullptr : S->x), "copy_from_to copies a CSR matrix"); delete R; delete S; sym_cover("end");
}
ENTRY(h_make_half) {
  int n = sym_param("N", 3); Mat a = sym_mat(n, n, sym_param("COL", 8), ANY, sym_param("UNSORTED", 0)); int lower = sym_conc(sym_int("lower", 0, 1)), pat = in_pat();
  CSC *B = make_half(n, a.p, a.i, pat ? nullptr : a.x, lower); auto w = [&](int r, int c) { return (lower ? r >= c : r <= c) ? a.slot[r * n + c] : -1; };
  check_comp(n, n, B->p, B->i, pat ? nullptr : B->x, a.x, w, !sym_param("UNSORTED", 0), ""); sym_assert((int)B->nnz == B->p[n] && (int)B->n == n && (int)B->m == n, "dimensions and count agree"); sym_assert(B->stype == (lower ? -1 : 1), "the result says which half it stores"); delete B; sym_cover("end");
}
ENTRY(h_make_full) {
  int n = sym_param("N", 3), lower = sym_conc(sym_int("lower", 0, 1)), pat = in_pat(); Mat a = sym_mat(n, n, sym_param("COL", 8), lower ? LOWER : UPPER, sym_param("UNSORTED", 0)); CSC *A = csc_of(a, pat, lower ? -1 : 1); CSC *B = make_full(A);
  auto w = [&](int r, int c) { int s = a.slot[r * n + c]; return s >= 0 ? s : a.slot[c * n + r]; };
  check_comp(n, n, B->p, B->i, pat ? nullptr : B->x, a.x, w, lower && !sym_param("UNSORTED", 0) ? 1 : 0, ""); sym_assert((int)B->nnz == B->p[n], "the count equals the stored entries");
  sym_assert(mat_same(a, A->p, A->i, pat ? nullptr : A->x), "the input is unchanged"); A->stype = 0; sym_assert(make_full(A) == nullptr, "a matrix that is not symmetric is refused"); delete B; delete A; sym_cover("end");
}
// F = upper (lower) triangle of P A P' when A stores its lower (upper) triangle
ENTRY(h_transpose_symmetric) {
  int n = sym_param("N", 3), lower = sym_conc(sym_int("lower", 0, 1)), pat = in_pat(), usep = sym_conc(sym_int("permute", 0, 1)); Mat a = sym_mat(n, n, sym_param("COL", 8), lower ? LOWER : UPPER, 0); CSC *A = csc_of(a, pat, lower ? -1 : 1);
  int *perm = ibuf(n), *inv = ibuf(n); if (usep) sym_permutation(n, perm); else for (int k = 0; k < n; k++) perm[k] = k; for (int k = 0; k < n; k++) inv[perm[k]] = k;
  CSC *F = transpose_symmetric(A, usep ? perm : nullptr); sym_assert(F != nullptr, "a symmetric matrix is accepted"); sym_assert(F->stype == (lower ? 1 : -1), "the other triangle is stored");
  auto w = [&](int r, int c) { if (lower ? r > c : r < c) return -1; int o = perm[r], q = perm[c]; int s = a.slot[o * n + q]; return s >= 0 ? s : a.slot[q * n + o]; };
  check_comp(n, n, F->p, F->i, pat ? nullptr : F->x, a.x, w, usep ? 0 : 1, ""); sym_assert(mat_same(a, A->p, A->i, pat ? nullptr : A->x), "the input is unchanged"); delete F;
  if (n > 1) { perm[0] = perm[n - 1]; sym_assert(transpose_symmetric(A, perm) == nullptr, "a sequence that is not a permutation is refused"); perm[0] = n; sym_assert(transpose_symmetric(A, perm) == nullptr, "an index out of range is refused"); }
  A->stype = 0; sym_assert(transpose_symmetric(A, nullptr) == nullptr, "a matrix that is not symmetric is refused"); delete A; sym_cover("end");
}
ENTRY(h_add) {
  int n = sym_param("N", 3), m = sym_param("M", 2); Mat a = sym_mat(m, n, sym_param("COL", 8)), b = sym_mat(m, n, sym_param("COLB", 8), ANY, 0, "b"); int pa = in_pat(), pb = sym_conc(sym_int("patternB", 0, 1)); CSC *A = csc_of(a, pa, 0), *B = csc_of(b, pb, 0); double al = sym_real("alpha"), be = sym_real("beta");
  CSC *C = add(A, B, al, be, true); sym_assert(C->is_pattern == (pa || pb) && (C->x != nullptr) == !(pa || pb || a.nnz + b.nnz == 0), "a sum with a pattern is a pattern"); int slot[64]; double xs[64]; int t = 0; for (int r = 0; r < m; r++) for (int c = 0; c < n; c++) { int s = a.slot[r * n + c], u = b.slot[r * n + c]; slot[r * n + c] = (s >= 0 || u >= 0) ? t : -1; if (s >= 0 && u >= 0) { double v = al * a.x[s]; v += be * b.x[u]; xs[t++] = v; } else if (s >= 0) xs[t++] = al * a.x[s]; else if (u >= 0) xs[t++] = be * b.x[u]; }
  check_comp(n, m, C->p, C->i, pa || pb ? nullptr : C->x, xs, [&](int r, int c) { return slot[r * n + c]; }, 1, ""); A->stype = 1; sym_assert(add(A, B, al, be, true) == nullptr, "matrices of different symmetry are refused"); sym_cover("end");
}
ENTRY(h_make_symmetric) {
  int n = sym_param("N", 3); Mat a = sym_mat(n, n, sym_param("COL", 8)); int pat = in_pat(), lower = sym_conc(sym_int("lower", 0, 1)); CSC *A = csc_of(a, pat, 0); CSC *S = make_symmetric(A, lower);
  int slot[64]; double xs[64]; int t = 0; for (int r = 0; r < n; r++) for (int c = 0; c < n; c++) { slot[r * n + c] = -1; if (lower ? r < c : r > c) continue; int s = a.slot[r * n + c], u = a.slot[c * n + r]; if (s < 0 && u < 0) continue; slot[r * n + c] = t; double v; if (s >= 0 && u >= 0) { v = 0.5 * a.x[s]; v += 0.5 * a.x[u]; } else v = 0.5 * a.x[s >= 0 ? s : u]; xs[t++] = v; }
  sym_assert(S->stype == (lower ? -1 : 1), "the result says which half it stores"); check_comp(n, n, S->p, S->i, pat ? nullptr : S->x, xs, [&](int r, int c) { return slot[r * n + c]; }, 1, ""); sym_assert(mat_same(a, A->p, A->i, pat ? nullptr : A->x), "the input is unchanged"); delete S; delete A;
  // already symmetric input: the other triangle, or the same one
  int st = sym_conc(sym_int("stored", 0, 1)); sym_cover("end"); (void)st;
}
ENTRY(h_permute) {
  Mat a = in_mat(); int n = a.n, m = a.m; int *pinv = ibuf(m), *q = ibuf(n); sym_permutation(m, pinv, "pinv"); sym_permutation(n, q, "q"); int up = sym_conc(sym_int("rows", 0, 1)), uq = sym_conc(sym_int("cols", 0, 1)); CSC *A = csc_of(a, 0, 0); CSC *C = permute_general(A, up ? pinv : nullptr, uq ? q : nullptr);
  int ip[16]; for (int k = 0; k < m; k++) ip[pinv[k]] = k; check_comp(n, m, C->p, C->i, C->x, a.x, [&](int r, int c) { return a.slot[(up ? ip[r] : r) * n + (uq ? q[c] : c)]; }, 0, ""); delete C; delete A; sym_cover("end");
}
ENTRY(h_dense) {
  int st = sym_conc(sym_int("stype", -1, 1)), n = sym_param("N", 3), m = st ? n : sym_param("M", 2); Mat a = sym_mat(m, n, sym_param("COL", 8), st < 0 ? LOWER : st > 0 ? UPPER : ANY); CSC *A = csc_of(a, 0, st); double *D = dbuf(m * n); for (int k = 0; k < m * n; k++) D[k] = 7; sparse2dense(A, D);
  for (int r = 0; r < m; r++) for (int c = 0; c < n; c++) { int s = a.slot[r * n + c]; if (s < 0 && st) s = a.slot[c * n + r]; double v = D[c * m + r]; sym_assert(s >= 0 ? sym_feq(v, a.x[s]) : v == 0, "the dense copy has the entries of the sparse matrix and zeros elsewhere"); }
  double *cnt = dbuf(n); compute_nnz_per_col(A, cnt); int emp = 0; for (int c = 0; c < n; c++) { sym_assert(cnt[c] == a.p[c + 1] - a.p[c], "entries per column"); emp += a.p[c + 1] == a.p[c]; } sym_assert(number_empty_col(A) == emp, "number of empty columns");
  int full = 1, first = 1; if (m == n) { for (int c = 0; c < n; c++) { full &= a.slot[c * n + c] >= 0; first &= a.slot[c * n + c] == a.p[c] && a.p[c + 1] > a.p[c]; } if (full) { int *dg = extract_diagonals(n, a.p, a.i); for (int c = 0; c < n; c++) sym_assert(dg[c] == a.slot[c * n + c], "position of the diagonal entry"); delete[] dg; sym_assert(verify_csc_diagonal(A) == (bool)first, "verify_csc_diagonal tells whether every column starts with its diagonal"); } }
  delete A; sym_cover("end");
}
ENTRY(h_special) {
  int n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 4))); double a0 = sym_real("a0"), a1 = sym_real("a1"), a2 = sym_real("a2"); double xs[3] = {a0, a1, a2}; sym_leak_begin();
  CSC *T = tridiag(n, a0, a1, a2); check_comp(n, n, T->p, T->i, T->x, xs, [&](int r, int c) { return r == c - 1 ? 0 : r == c ? 1 : r == c + 1 ? 2 : -1; }, 1, ""); delete T;
  CSC *D = diagonal(n, a1); check_comp(n, n, D->p, D->i, D->x, xs, [&](int r, int c) { return r == c ? 1 : -1; }, 1, ""); delete D; sym_leak_check("tridiag and diagonal own what they allocate"); sym_cover("end");
}
