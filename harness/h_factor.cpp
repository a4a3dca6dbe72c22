// Elimination trees, symbolic factorization and the graphs handed to METIS.
#include "mat.hpp"
#include <sparse_utilities.h>
#include <sparse_inspector.h>
#include <lfactor_creation.h>
#include <metis_interface.h>
#include <utils.h>
using namespace sym_lib;

// the third-party orderings: any permutation / any partition; the graph they receive is recorded
static struct { int calls, n, k; char adj[256]; int dup, self, range; int w[16], hasw, ret[16]; } met;
static void record(const int *n, const int *xadj, const int *adjncy) {
  met.calls++; met.n = *n; met.dup = met.self = met.range = 0; for (int k = 0; k < 256; k++) met.adj[k] = 0; sym_assert(xadj[0] == 0, "the graph starts at 0");
  for (int v = 0; v < *n; v++) { sym_assert(xadj[v + 1] >= xadj[v], "the pointers of the graph are monotone"); for (int k = xadj[v]; k < xadj[v + 1]; k++) { int u = adjncy[k]; sym_assert(u >= 0 && u < *n, "neighbours are vertices of the graph"); u = sym_conc(u); if (u == v) met.self = 1; if (met.adj[v * 16 + u]) met.dup = 1; met.adj[v * 16 + u] = 1; } }
}
extern "C" {
int METIS_SetDefaultOptions(int *o) { for (int k = 0; k < 40; k++) o[k] = -1; return 1; }
int METIS_NodeND(int *n, int *xadj, int *adjncy, int *, int *, int *perm, int *iperm) { record(n, xadj, adjncy); sym_permutation(*n, perm, "ord"); for (int k = 0; k < *n; k++) { iperm[perm[k]] = k; met.ret[k] = perm[k]; } return 1; }
int METIS_PartGraphKway(int *n, int *ncon, int *xadj, int *adjncy, int *vwgt, int *vsize, int *adjwgt, int *nparts, float *, float *, int *, int *obj, int *part) {
  record(n, xadj, adjncy); sym_assert(*ncon == 1 && !vsize && !adjwgt, "one balance constraint"); met.k = *nparts; met.hasw = vwgt != nullptr; for (int v = 0; v < *n; v++) { if (vwgt) met.w[v] = vwgt[v]; int q = sym_int(nm("part", v), 0, *nparts - 1); met.ret[v] = part[v] = q; } *obj = 0; return 1; }
}
static void check_graph(int n, const char *adj) { // adj[i*n+j]: wanted off-diagonal pattern
  sym_assert(met.calls == 1 && met.n == n, "one graph with a vertex per column"); sym_assert(!met.self, "the graph has no self loops"); sym_assert(!met.dup, "no edge is stored twice"); int ok = 1; for (int v = 0; v < n; v++) for (int u = 0; u < n; u++) ok &= met.adj[v * 16 + u] == (u != v && (adj[v * n + u] || adj[u * n + v])); sym_assert(ok, "the graph is the pattern of the symmetric matrix");
}
static void full_of(const Mat &a, char *s) { int n = a.n; for (int k = 0; k < n * n; k++) s[k] = 0; for (int r = 0; r < n; r++) for (int c = 0; c < n; c++) if (a.slot[r * n + c] >= 0) s[r * n + c] = s[c * n + r] = 1; for (int r = 0; r < n; r++) s[r * n + r] = 1; }
// dense symbolic Cholesky of a symmetric pattern (filled in place), elimination tree
static void eliminate(int n, char *s, int *par) { for (int k = 0; k < n; k++) { par[k] = -1; for (int i = k + 1; i < n; i++) if (s[i * n + k]) { if (par[k] < 0) par[k] = i; for (int j = k + 1; j < n; j++) if (s[j * n + k]) s[i * n + j] = s[j * n + i] = 1; } } }

ENTRY(h_etree) {
  int kind = sym_param("KIND", 0); // 0: upper half of a symmetric matrix, 1: A'A of a rectangular one, 2: refused
  int n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 4))), m = kind == 1 ? sym_conc(sym_int("m", 1, sym_param("M", 3))) : n; Mat a = sym_mat(m, n, sym_param("COL", 8), kind == 0 ? UPPER : kind == 2 ? LOWER : ANY, sym_param("UNSORTED", 0)); CSC *A = csc_of(a, 1, kind == 0 ? 1 : kind == 2 ? -1 : 0); int *par = ibuf(n), want[16]; char s[256];
  sym_leak_begin(); int r = compute_etree(A, par); sym_leak_check("compute_etree releases its work space"); if (kind == 2) { sym_assert(!r, "a lower half is refused"); sym_cover("end"); return; }
  sym_assert(r, "the tree is computed"); if (kind == 0) full_of(a, s); else for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { s[i * n + j] = i == j; for (int q = 0; q < m; q++) if (a.slot[q * n + i] >= 0 && a.slot[q * n + j] >= 0) s[i * n + j] = 1; }
  eliminate(n, s, want); sym_assert(same_ints(par, want, n), "the parent is the first row below the diagonal in the factor"); sym_assert(mat_same(a, A->p, A->i, nullptr), "the matrix is unchanged"); sym_cover("end");
}
static void sym_forest(int n, int *par) { if (sym_param("TPL", 0)) { int *t = sym_forest(n); for (int v = 0; v < n; v++) par[v] = t[v]; delete[] t; return; } for (int v = 0; v < n; v++) { int r = sym_conc(sym_int(nm("parent", v), v + 1, n)); par[v] = r == n ? -1 : r; } }
static void check_post(int n, const int *par, const int *post, int *pos) { sym_assert(is_perm(post, n), "the post-order is a permutation"); int size[16]; for (int v = 0; v < n; v++) size[v] = 1; for (int k = 0; k < n; k++) pos[post[k]] = k; for (int v = 0; v < n; v++) if (par[v] >= 0) size[par[v]] += size[v]; for (int v = 0; v < n; v++) if (par[v] >= 0) sym_assert(pos[v] < pos[par[v]] && pos[v] - size[v] >= pos[par[v]] - size[par[v]], "a subtree is contiguous and ends with its root"); }
ENTRY(h_post_order) {
  int n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 5))); int *par = ibuf(n), *post = ibuf(n), *w = ibuf(n), pos[16]; sym_forest(n, par); for (int v = 0; v < n; v++) w[v] = sym_int(nm("w", v), -1, n + 1); int *par0 = copy_ints(par, n), *w0 = copy_ints(w, n); int useW = sym_conc(sym_int("weighted", 0, 1));
  sym_leak_begin(); int r = tree_post_order(par, n, useW ? w : nullptr, post); sym_leak_check("tree_post_order releases its work space"); sym_assert(r == n, "every node is visited"); check_post(n, par, post, pos);
  for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) if (par[a] == par[b] && par[a] >= 0) { if (!useW) sym_assert(pos[a] < pos[b], "siblings stay in order"); else { int wa = w[a] < 0 ? 0 : w[a] > n - 1 ? n - 1 : w[a], wb = w[b] < 0 ? 0 : w[b] > n - 1 ? n - 1 : w[b]; if (wa != wb) sym_assert((wa < wb) == (pos[a] < pos[b]), "lighter siblings come first"); sym_cover("siblings"); } }
  sym_assert(same_ints(par, par0, n) && same_ints(w, w0, n), "the tree is unchanged"); sym_cover("end");
}
ENTRY(h_col_counts) {
  int n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 4))); Mat a = sym_mat(n, n, sym_param("COL", 8), LOWER); CSC *A = csc_of(a, 1, -1); char s[256]; int want[16]; full_of(a, s); eliminate(n, s, want);
  int *par = ibuf(n), *post = ibuf(n), *rc = ibuf(n), *cc = ibuf(n), *first = ibuf(n), *lev = ibuf(n), pos[16]; for (int v = 0; v < n; v++) par[v] = want[v]; tree_post_order(par, n, nullptr, post); check_post(n, par, post, pos); size_t fl = 77; int useR = sym_conc(sym_int("rows", 0, 1));
  sym_leak_begin(); bool ok = row_col_counts_symmetric(A, par, post, useR ? rc : nullptr, cc, first, lev, fl); sym_leak_check("the counts release their work space"); sym_assert(ok, "counts are computed"); size_t f = 0;
  for (int v = 0; v < n; v++) { int c = 0, r = 0, d = 0, fi = pos[v]; for (int u = v; u < n; u++) c += s[u * n + v]; for (int u = 0; u <= v; u++) r += s[v * n + u]; for (int q = v; want[q] >= 0; q = want[q]) d++; for (int u = 0; u < n; u++) for (int q = u; q >= 0; q = want[q]) if (q == v && pos[u] < fi) fi = pos[u]; f += (size_t)c * c; sym_assert(cc[v] == c, "column counts of the factor"); if (useR) sym_assert(rc[v] == r, "row counts of the factor"); sym_assert(lev[v] == d, "level is the distance to the root"); sym_assert(first[v] == fi, "first descendant in post-order"); }
  sym_assert(fl == f, "flop count"); CSC *U = csc_of(a, 1, 1); size_t g = 5; sym_assert(!row_col_counts_symmetric(U, par, post, rc, cc, first, lev, g), "an upper half is refused"); sym_assert(mat_same(a, A->p, A->i, nullptr) && same_ints(par, want, n), "the inputs are unchanged"); sym_cover("end");
}
ENTRY(h_ereach) {
  int n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 4))); Mat a = sym_mat(n, n, sym_param("COL", 8), sym_param("FULL", 0) ? ANY : UPPER, sym_param("UNSORTED", 0)); char s[256]; int par[16]; Mat u = a; if (sym_param("FULL", 0)) for (int r = 0; r < n; r++) for (int c = 0; c < r; c++) u.slot[r * n + c] = -1; full_of(u, s); eliminate(n, s, par); int *pb = ibuf(n), *st = ibuf(n), *w = ibuf(n); for (int v = 0; v < n; v++) { pb[v] = par[v]; w[v] = v; } int *w0 = copy_ints(w, n);
  for (int k = 0; k < n; k++) { int top = ereach(n, a.p, a.i, k, pb, st, w); sym_assert(top >= 0 && top <= n, "the pattern fits"); int in[16]; for (int v = 0; v < n; v++) in[v] = -1; for (int q = top; q < n; q++) { sym_assert(st[q] >= 0 && st[q] < k && in[st[q]] < 0, "every column is listed once"); in[st[q]] = q; } int ok = 1; for (int v = 0; v < k; v++) ok &= (in[v] >= 0) == s[k * n + v]; sym_assert(ok, "the row pattern of the factor"); for (int v = 0; v < k; v++) if (in[v] >= 0 && par[v] >= 0 && par[v] < k && in[par[v]] >= 0) sym_assert(in[v] < in[par[v]], "descendants come first"); sym_assert(same_ints(w, w0, n), "the marks are restored"); }
  sym_assert(ereach(n, nullptr, a.i, 0, pb, st, w) == -1, "missing inputs are refused"); sym_cover("end");
}
static void check_factor(int n, const CSC *L, const char *s) { sym_assert((int)L->n == n && (int)L->m == n && (int)L->nnz == L->p[n], "dimensions of the factor"); check_comp(n, n, L->p, L->i, nullptr, nullptr, [&](int r, int c) { return r >= c && s[r * n + c] ? 0 : -1; }, 1, ""); for (int c = 0; c < n; c++) sym_assert(L->i[L->p[c]] == c, "the diagonal comes first"); }
ENTRY(h_L_pattern) {
  int n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 4))); Mat a = sym_mat(n, n, sym_param("COL", 8), UPPER); CSC *A = csc_of(a, 1, 1); char s[256]; int par[16]; full_of(a, s);  sym_assume(a.nnz > 0); eliminate(n, s, par); int *pb = ibuf(n), *cc = ibuf(n); double *ac = dbuf(n); for (int v = 0; v < n; v++) { pb[v] = par[v]; cc[v] = 0; for (int u = v; u < n; u++) cc[v] += s[u * n + v]; }
  sym_leak_begin(); CSC *L = build_L_pattern_from_col_counts(n, A, cc, pb, ac); check_factor(n, L, s); delete L; sym_leak_check("the factor owns its storage"); for (int v = 0; v < n; v++) { double w = 0; for (int u = 0; u <= v; u++) if (s[v * n + u]) w += a.p[u + 1] - a.p[u]; sym_assert(ac[v] == w, "accessed nonzeros of a column"); } sym_cover("end");
}
ENTRY(h_symbolic) {
  int n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 3))); Mat a = sym_mat(n, n, sym_param("COL", 8), LOWER); sym_assume(a.nnz > 0); if (sym_param("DIAG", 1)) want_diag(a); CSC *A = csc_of(a, sym_param("PATTERN", 0), -1); met.calls = 0; sym_leak_begin(); LFactorSymbolicInfo *f = build_symbolic_simplicial_lfactor(A); char s[256], t[256]; int par[16]; full_of(a, s); check_graph(n, s);
  sym_assert(is_perm(f->perm, n), "the ordering is a permutation"); for (int k = 0; k < n; k++) sym_assert(f->iperm[f->perm[k]] == k, "iperm is its inverse"); sym_assert(is_perm(f->post, n), "the post-order is a permutation"); for (int k = 0; k < n; k++) sym_assert(f->ipost[f->post[k]] == k && f->perm[k] == met.ret[f->post[k]], "the ordering is the fill-reducing one followed by the post-order");
  for (int r = 0; r < n; r++) for (int c = 0; c < n; c++) t[r * n + c] = s[f->perm[r] * n + f->perm[c]]; int cn[16]; for (int c = 0; c < n; c++) { cn[c] = 0; for (int r = 0; r < n; r++) { int lo = f->perm[r] > f->perm[c] ? f->perm[r] : f->perm[c], hi = f->perm[r] + f->perm[c] - lo; if (r <= c && a.slot[lo * n + hi] >= 0) cn[c]++; } }
  eliminate(n, t, par); sym_assert(same_ints(f->parent, par, n), "the tree is the elimination tree of the ordered matrix"); size_t fl = 0; for (int v = 0; v < n; v++) { int c = 0; double w = 0; for (int u = v; u < n; u++) c += t[u * n + v]; for (int u = 0; u <= v; u++) if (t[v * n + u]) w += cn[u]; fl += (size_t)c * c; sym_assert(f->col_counts[v] == c, "column counts of the ordered factor"); sym_assert(f->accessed_nnz_per_col[v] == w, "accessed nonzeros of a column"); if (par[v] >= 0) sym_assert(par[v] > v, "parents come later"); }
  sym_assert(f->flops == fl, "flop count"); check_factor(n, f->L, t); sym_assert(mat_same(a, A->p, A->i, A->x), "the matrix is unchanged"); delete f; sym_leak_check("the symbolic factorization releases its work space"); sym_assert(build_symbolic_simplicial_lfactor(nullptr) == nullptr, "no matrix, no factor"); sym_cover("end");
}
ENTRY(h_metis_symmetric) { // KIND 0: ordering, 1: partition
  int kind = sym_param("KIND", 0), n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 3))), up = sym_conc(sym_int("upper", 0, 1)); Mat a = sym_mat(n, n, sym_param("COL", 8), up ? UPPER : LOWER); CSC *A = csc_of(a, 1, up ? 1 : -1); char s[256]; full_of(a, s); met.calls = 0; int *out = nullptr, k = sym_conc(sym_int("k", 1, 3)); sym_leak_begin();
  if (kind == 0) metis_perm_symmetric(A, out); else metis_partition_symmetric(A, out, k); check_graph(n, s); int ok = 1; for (int v = 0; v < n; v++) ok &= out[v] == met.ret[v]; sym_assert(ok, "the result is handed back unchanged"); if (kind) sym_assert(met.k == k && !met.hasw, "the number of parts is handed over"); delete[] out; sym_leak_check("work space is released");
  if (kind == 0) { A->stype = 0; int *q = nullptr; sym_assert(metis_perm_symmetric(A, q) == -1 && !q, "an unsymmetric matrix is refused"); } sym_assert(mat_same(a, A->p, A->i, nullptr), "the matrix is unchanged"); sym_cover("end");
}
static Mat sym_full(int n, int diag) { Mat h = sym_mat(n, n, 8, LOWER), a = h; int t = 0; if (diag) want_diag(h); a.p = ibuf(n + 1); for (int k = 0; k < n * n; k++) a.slot[k] = -1; int tot = 0; for (int r = 0; r < n; r++) for (int c = 0; c < n; c++) tot += h.slot[r > c ? r * n + c : c * n + r] >= 0; a.i = ibuf(tot); a.x = dbuf(tot); a.nnz = tot; for (int c = 0; c < n; c++) { a.p[c] = t; for (int r = 0; r < n; r++) { int q = h.slot[r > c ? r * n + c : c * n + r]; if (q >= 0) { a.slot[r * n + c] = t; a.i[t] = r; a.x[t++] = h.x[q]; } } } a.p[n] = t; return a; }
ENTRY(h_metis_general) { // KIND 0: ordering, 1: partition
  int kind = sym_param("KIND", 0), n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 3))); Mat a = sym_full(n, 0); CSC *A = csc_of(a, sym_conc(sym_int("pattern", 0, 1)), 0); char s[256]; full_of(a, s); met.calls = 0; int *out = nullptr, k = sym_conc(sym_int("k", 1, 3)); sym_leak_begin();
  if (kind == 0) metis_perm_general(A, out); else metis_partition_general(A, out, k); check_graph(n, s); int ok = 1, mn = n; for (int v = 0; v < n; v++) mn = met.ret[v] < mn ? met.ret[v] : mn; if (!kind) mn = 0; for (int v = 0; v < n; v++) ok &= out[v] == met.ret[v] - mn; sym_assert(ok, "the result is handed back, parts numbered from 0"); if (kind) { sym_assert(met.k == k && met.hasw, "the number of parts is handed over"); for (int v = 0; v < n; v++) sym_assert(met.w[v] == 1 + a.p[v + 1] - a.p[v], "vertices weigh their column"); } delete[] out; sym_leak_check("work space is released"); sym_assert(mat_same(a, A->p, A->i, A->x), "the matrix is unchanged"); sym_cover("end");
}
ENTRY(h_metis_coarsened) {
  int n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 3))), half = sym_conc(sym_int("half", 0, 1)), c = sym_conc(sym_int("coarsen", 1, n)), k = sym_conc(sym_int("k", 1, 2)), N = (n + c - 1) / c; Mat a = half ? sym_mat(n, n, 8, LOWER) : sym_full(n, 0); CSC *A = csc_of(a, 1, half ? -1 : 0); char s[256]; for (int q = 0; q < N * N; q++) s[q] = 0; for (int r = 0; r < n; r++) for (int j = 0; j < n; j++) if (a.slot[r * n + j] >= 0) s[r / c * N + j / c] = 1;
  met.calls = 0; int *out = nullptr; sym_leak_begin(); metis_partition_coarsened(A, out, k, c); check_graph(N, s); int mn = N; for (int v = 0; v < N; v++) mn = met.ret[v] < mn ? met.ret[v] : mn; if (half) mn = 0; int ok = 1; for (int v = 0; v < n; v++) ok &= out[v] == met.ret[v / c] - mn; sym_assert(ok, "every column is in the part of its block"); delete[] out; sym_leak_check("work space is released"); if (N < n && N > 1) sym_cover("coarse"); sym_cover("end");
}
ENTRY(h_metis_partitioning) {
  int n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 3))), pat = sym_conc(sym_int("pattern", 0, 1)), k = sym_conc(sym_int("k", 1, 2)); Mat a = pat ? sym_mat(n, n, 8, LOWER) : sym_full(n, 1); if (pat && sym_param("DIAG", 1)) want_diag(a); CSC *A = csc_of(a, pat, pat ? -1 : 0); char s[256]; int ord[16]; full_of(a, s); met.calls = 0; int *part = nullptr; sym_leak_begin(); CSC *R = metis_partitioning(A, k, part); sym_assert(met.calls == 2, "one ordering and one partition"); met.calls = 1; (void)ord;
  // the graph that was partitioned is the pattern of the matrix that is returned, and that matrix is the input up to a symmetric permutation
  char e[256]; for (int q = 0; q < n * n; q++) e[q] = 0; for (int c = 0; c < n; c++) for (int q = R->p[c]; q < R->p[c + 1]; q++) { sym_assert(R->i[q] >= 0 && R->i[q] < n, "index is in range"); sym_assert(!e[R->i[q] * n + c], "no entry is stored twice"); e[R->i[q] * n + c] = 1; } check_graph(n, e); sym_assert(R->p[n] == (int)R->nnz && (int)R->n == n, "dimensions"); int nz = 0, ne = 0; for (int q = 0; q < n * n; q++) { nz += s[q]; ne += e[q]; } sym_assert(nz == ne, "the full matrix is returned"); int mn = n; for (int v = 0; v < n; v++) mn = met.ret[v] < mn ? met.ret[v] : mn; if (pat) mn = 0; int ok = 1; for (int v = 0; v < n; v++) ok &= part[v] == met.ret[v] - mn; sym_assert(ok, "the partition is handed back"); delete R; delete[] part; sym_leak_check("work space is released"); sym_cover("end");
}
