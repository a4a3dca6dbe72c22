// Symbolic sparse matrices and their dense meaning.
#pragma once
#include "dag.hpp"
#include <def.h>
// m x n, compressed by columns; every column holds any set of rows in increasing order (or, unsorted, in any order)
struct Mat { int m, n, nnz; int *p, *i; double *x; int slot[256]; };   // slot[r*n+c]: index of entry (r,c) or -1
enum { ANY, LOWER, UPPER };
// larger matrices: a skeleton (lower half, upper half or both) with its diagonal, in which any EXTRA entries are toggled
static Mat tpl_mat(int m, int n, int tpl, int part, int unsorted, const char *pre) {
  Mat a; a.m = m; a.n = n; char b1[8], b2[8]; int q = 0; while (pre[q]) { b1[q] = pre[q]; b2[q] = pre[q]; q++; } b1[q] = 't'; b1[q + 1] = 0; b2[q] = 'x'; b2[q + 1] = 0; int w = tpl_wid, ex = sym_param("EXTRA", 1), half = sym_param("HALF", 0), slots[256], ns = 0, prev = 0, big = m > n ? m : n; static char on[256];
  for (int j = 0; j < n; j++) for (int r = 0; r < m; r++) { int lo = r < j ? r : j, hi = r + j - lo; on[r * n + j] = 0; if (part == LOWER ? r < j : part == UPPER ? r > j : 0) continue; slots[ns++] = r * n + j; on[r * n + j] = r == j || (tpl_edge(tpl, w, big, lo, hi) && (part != ANY || !half || (half < 0 ? r > j : r < j))); }
  for (int k = 0; k < ex; k++) { int e = sym_conc(sym_int(nm(b1, k), prev, ns)); prev = e; if (e < ns) on[slots[e]] ^= 1; }
  int t = 0; a.p = ibuf(n + 1); for (int j = 0; j < n; j++) { a.p[j] = t; for (int r = 0; r < m; r++) t += on[r * n + j]; } a.p[n] = a.nnz = t; a.i = ibuf(t); a.x = dbuf(t); t = 0; for (int k = 0; k < m * n; k++) a.slot[k] = -1;
  for (int j = 0; j < n; j++) for (int z = 0; z < m; z++) { int r = unsorted ? m - 1 - z : z; if (on[r * n + j]) { a.i[t] = r; a.slot[r * n + j] = t++; } }
  for (int k = 0; k < t; k++) a.x[k] = sym_real(nm(b2, k)); return a;
}
static Mat sym_mat(int m, int n, int maxCol, int part = ANY, int unsorted = 0, const char *pre = "") {
  if (int tpl = tpl_of()) return tpl_mat(m, n, tpl, part, unsorted, pre);
  Mat a; a.m = m; a.n = n; int cnt[16], tot = 0; a.p = ibuf(n + 1); char b1[8], b2[8]; int q = 0; while (pre[q]) { b1[q] = pre[q]; b2[q] = pre[q]; q++; } b1[q] = 'c'; b1[q + 1] = 0; b2[q] = 'r'; b2[q + 1] = 0;
  for (int j = 0; j < n; j++) { int av = part == LOWER ? m - j : part == UPPER ? j + 1 : m; if (av < 0) av = 0; if (av > maxCol) av = maxCol; cnt[j] = sym_conc(sym_int(nm(b1, j), 0, av)); a.p[j] = tot; tot += cnt[j]; }
  a.p[n] = tot; a.nnz = tot; a.i = ibuf(tot); a.x = dbuf(tot); for (int k = 0; k < m * n; k++) a.slot[k] = -1;
  for (int j = 0; j < n; j++) for (int k = 0; k < cnt[j]; k++) {
    int t = a.p[j] + k, lo = part == LOWER ? j : 0, hi = part == UPPER ? j : m - 1; int r = sym_int(nm(b2, j, k), lo, hi);
    if (!unsorted) { if (k) sym_assume(r > a.i[t - 1]); } else for (int l = 0; l < k; l++) sym_assume(r != a.i[a.p[j] + l]);
    r = sym_conc(r); a.i[t] = r; a.slot[r * n + j] = t; 
  }
  b1[q] = 'x'; for (int k = 0; k < tot; k++) a.x[k] = sym_real(nm(b1, k));
  return a;
}
// every column non-empty on the diagonal
static void want_diag(const Mat &a) { int ok = 1; for (int j = 0; j < a.n; j++) ok &= a.slot[j * a.n + j] >= 0; sym_assume(ok); }
static sym_lib::CSC *csc_of(const Mat &a, int pattern, int stype) {
  sym_lib::CSC *A = new sym_lib::CSC(a.m, a.n, a.nnz, (bool)pattern, stype); for (int j = 0; j <= a.n; j++) A->p[j] = a.p[j]; for (int k = 0; k < a.nnz; k++) { A->i[k] = a.i[k]; if (!pattern) A->x[k] = a.x[k]; } return A;
}
static sym_lib::CSR *csr_mat(const Mat &a, int pattern) { // rows of the CSR matrix are the columns of a: an n x m matrix
  sym_lib::CSR *A = new sym_lib::CSR(a.n, a.m, a.nnz, (bool)pattern); for (int j = 0; j <= a.n; j++) A->p[j] = a.p[j]; for (int k = 0; k < a.nnz; k++) { A->i[k] = a.i[k]; if (!pattern) A->x[k] = a.x[k]; } return A;
}
// compressed storage (major/minor) holds exactly: entry(minor, major) -> index into xs, or -1.  Reports duplicates, order, pointers, values.
template <class F> static void check_comp(int major, int minor, const int *p, const int *i, const double *x, const double *xs, F want, int sorted, const char *what) {
  (void)what; sym_assert(p[0] == 0, "compressed pointers start at 0"); int seen[256]; for (int k = 0; k < major * minor; k++) seen[k] = 0;
  for (int j = 0; j < major; j++) { sym_assert(p[j + 1] >= p[j], "compressed pointers are monotone");
    for (int k = p[j]; k < p[j + 1]; k++) { int r = i[k]; sym_assert((r >= 0) & (r < minor), "index is in range"); r = sym_conc(r); sym_assert(!seen[r * major + j], "no entry is stored twice"); seen[r * major + j] = 1;
      if (sorted && k > p[j]) sym_assert(i[k - 1] < r, "indices are sorted"); int s = want(r, j); sym_assert(s >= 0, "no entry appears that the source does not have"); if (x && xs) sym_assert(sym_feq(x[k], xs[s]), "every value is carried over"); } }
  int ok = 1; for (int j = 0; j < major; j++) for (int r = 0; r < minor; r++) ok &= (want(r, j) >= 0) == seen[r * major + j];
  sym_assert(ok, "no entry of the source is lost");
}
static int mat_same(const Mat &a, const int *p, const int *i, const double *x) { int ok = same_ints(p, a.p, a.n + 1) && same_ints(i, a.i, a.nnz); if (x) for (int k = 0; k < a.nnz; k++) ok &= sym_feq(x[k], a.x[k]); return ok; }
static void sym_permutation(int n, int *perm, const char *nmv = "perm") { int used[32]; for (int v = 0; v < n; v++) used[v] = 0; for (int k = 0; k < n; k++) { int r = sym_conc(sym_int(nm(nmv, k), 0, n - 1 - k)), v = 0; for (;; v++) if (!used[v] && r-- == 0) break; used[v] = 1; perm[k] = v; } }
