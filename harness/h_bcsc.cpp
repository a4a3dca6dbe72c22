// Supernodal (blocked) storage and the graphs fused from it.
#include "mat.hpp"
#include <BCSCMatrix.h>
#include <sparse_inspector.h>
using namespace sym_lib;

// consecutive columns share the pattern below: col a nests b when pattern(a) = {a, a+1, .. b-1} shifted, i.e. pattern(a) without its first (b-a) entries equals pattern(b)
static int nests(const Mat &a, int x, int y) { int d = y - x, lx = a.p[x + 1] - a.p[x], ly = a.p[y + 1] - a.p[y]; if (lx - d != ly) return 0; for (int k = 0; k < ly; k++) if (a.i[a.p[x] + d + k] != a.i[a.p[y] + k]) return 0; return 1; }
static int nests_up(const Mat &a, int x, int y) { int d = x - y, lx = a.p[x + 1] - a.p[x], ly = a.p[y + 1] - a.p[y]; if (lx - d != ly) return 0; for (int k = 0; k < ly; k++) if (a.i[a.p[y] + k] != a.i[a.p[x] + k]) return 0; return 1; }
// the blocked storage of a: every block holds its columns densely over the union of their rows
static void check_blocked(const Mat &a, BCSC *M, int nb, const int *sup) {
  sym_assert((int)M->nodes == nb && (int)M->n == a.n && (int)M->m == a.m, "dimensions of the blocked matrix"); sym_assert(M->p[0] == 0, "blocks start at 0"); int t = 0;
  for (int b = 0; b < nb; b++) { int w = sup[b + 1] - sup[b], rows = 0; int has[16]; for (int r = 0; r < a.m; r++) { has[r] = 0; for (int c = sup[b]; c < sup[b + 1]; c++) has[r] |= a.slot[r * a.n + c] >= 0; rows += has[r]; }
    sym_assert(M->nrows[b] == rows, "a block has the union of the rows of its columns"); sym_assert(M->p[b] == t && M->p[b + 1] == t + rows * w, "blocks are stored back to back");
    for (int c = sup[b]; c < sup[b + 1]; c++) for (int r = 0; r < a.m; r++) if (has[r]) { sym_assert(M->i[t] == r, "rows of a block are sorted and complete"); int s = a.slot[r * a.n + c]; if (s < 0) sym_assert(M->x[t] == 0, "padding is zero"); else sym_assert(sym_feq(M->x[t], a.x[s]), "values are carried over"); t++; } }
  sym_assert((int)M->nnz == t, "the size counts the padding");
}
static void block_graph(const Mat &a, int nb, const int *sup, char *e, int N, int r0, int c0) { for (int b = 0; b < nb; b++) for (int q = 0; q < nb; q++) for (int c = sup[b]; c < sup[b + 1]; c++) for (int r = sup[q]; r < sup[q + 1]; r++) if (a.slot[r * a.n + c] >= 0) e[(r0 + q) * N + c0 + b] = 1; }
static void check_graph(const CSC *C, int n, const char *e) { sym_assert((int)C->n == n && (int)C->m == n, "dimensions of the block graph"); sym_assert((int)C->nnz == C->p[n], "the count equals the stored entries"); check_comp(n, n, C->p, C->i, nullptr, nullptr, [&](int r, int c) { return e[r * n + c] ? 0 : -1; }, 0, ""); }
static int sym_super(int n, int *sup) { int nb = 0; sup[0] = 0; for (int c = 1; c < n; c++) if (sym_conc(sym_int(nm("cut", c), 0, 1))) sup[++nb] = c; sup[++nb] = n; return nb; }

ENTRY(h_supernodes) {
  int n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 4))); Mat a = sym_mat(n, n, sym_param("COL", 8), LOWER); if (sym_param("DIAG", 1)) want_diag(a); CSC *A = csc_of(a, 0, -1); sym_leak_begin();
  BCSCMatrix *B = new BCSCMatrix(A); BCSC *M = B->getBCSC(); int nb = (int)M->nodes, *s = M->supernodes; sym_assert(nb >= 1 && nb <= n && s[0] == 0 && s[nb] == n, "supernodes cover all columns");
  for (int b = 0; b < nb; b++) { sym_assert(s[b] < s[b + 1], "no supernode is empty"); for (int c = s[b] + 1; c < s[b + 1]; c++) sym_assert(nests(a, s[b], c), "the columns of a supernode have nested patterns"); if (b + 1 < nb) sym_assert(!nests(a, s[b], s[b + 1]), "a supernode is as wide as its pattern allows"); if (s[b + 1] - s[b] > 1) sym_cover("wide"); }
  check_blocked(a, M, nb, s);
  char *e = new char[nb * nb](); block_graph(a, nb, s, e, nb, 0, 0); CSC *G = B->compressed_BCSC_to_CSC(); check_graph(G, nb, e); delete G; delete B; delete[] e; sym_leak_check("the blocked matrix releases its storage");
  sym_assert(mat_same(a, A->p, A->i, A->x), "the matrix is unchanged"); sym_cover("end");
}
ENTRY(h_blocked) { // user-chosen blocks, any pattern
  int n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 3))); Mat a = sym_mat(n, n, sym_param("COL", 8), ANY); int *s = ibuf(n + 1), nb = sym_super(n, s), *s2 = ibuf(nb + 1); for (int k = 0; k <= nb; k++) s2[k] = s[k]; CSC *A = csc_of(a, 0, 0); sym_leak_begin();
  BCSCMatrix *B = new BCSCMatrix(A, nb, s2); check_blocked(a, B->getBCSC(), nb, s); char *e = new char[nb * nb](); block_graph(a, nb, s, e, nb, 0, 0); CSC *G = B->compressed_BCSC_to_CSC(); check_graph(G, nb, e); delete G; delete B; delete[] e; sym_leak_check("the blocked matrix releases its storage");
  sym_assert(mat_same(a, A->p, A->i, A->x) && same_ints(s2, s, nb + 1), "the inputs are unchanged"); sym_cover("end");
}
ENTRY(h_supernode_limit) { // width limit, lower and upper
  int n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 4))), up = sym_conc(sym_int("upper", 0, 1)), limit = sym_conc(sym_int("limit", 0, n)); Mat a = sym_mat(n, n, sym_param("COL", 8), up ? UPPER : LOWER); want_diag(a); CSC *A = csc_of(a, 0, up ? 1 : -1);
  BCSCMatrix *B = new BCSCMatrix(A); BCSC *M = B->getBCSC(); delete[] M->supernodes; int nb = B->supernodes(A, limit, !up), *s = M->supernodes, most = (limit ? limit : n) + 1;
  if (!up) { sym_assert(s[0] == 0 && s[nb] == n, "supernodes cover all columns"); for (int b = 0; b < nb; b++) { sym_assert(s[b] < s[b + 1] && s[b + 1] - s[b] <= most, "the width stays within the limit"); for (int c = s[b] + 1; c < s[b + 1]; c++) sym_assert(nests(a, s[b], c), "the columns of a supernode have nested patterns"); if (b + 1 < nb && s[b + 1] - s[b] < most) sym_assert(!nests(a, s[b], s[b + 1]), "a supernode is as wide as its pattern and the limit allow"); } }
  else { sym_assert(s[0] == n - 1 && s[nb] == -1, "supernodes cover all columns"); for (int b = 0; b < nb; b++) { sym_assert(s[b] > s[b + 1] && s[b] - s[b + 1] <= most, "the width stays within the limit"); for (int c = s[b] - 1; c > s[b + 1]; c--) sym_assert(nests_up(a, s[b], c), "the columns of a supernode have nested patterns"); if (b + 1 < nb && s[b] - s[b + 1] < most) sym_assert(!nests_up(a, s[b], s[b + 1]), "a supernode is as wide as its pattern and the limit allow"); } sym_cover("upper"); }
  delete B; sym_cover("end");
}
// L x = b, y = B x, C z = y fused: three copies of the block graph
ENTRY(h_merge_graphs) {
  int n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 3))); Mat a = sym_mat(n, n, sym_param("COL", 8), LOWER, 0, "a"); want_diag(a); Mat b = sym_mat(n, n, sym_param("COLB", 8), ANY, 0, "b"), c = sym_mat(n, n, sym_param("COL", 8), LOWER, 0, "d"); want_diag(c);
  int *s = ibuf(n + 1), nb = sym_super(n, s), N = 3 * nb; CSC *A = csc_of(a, 0, -1), *B = csc_of(b, 0, 0), *C = csc_of(c, 0, -1); char *e = new char[N * N]();
  block_graph(a, nb, s, e, N, 0, 0); block_graph(b, nb, s, e, N, 2 * nb, nb); block_graph(c, nb, s, e, N, 2 * nb, 2 * nb); for (int k = 0; k < nb; k++) e[(nb + k) * N + k] = e[(nb + k) * N + nb + k] = 1;
  BCSCMatrix *MA = new BCSCMatrix(A, nb, s), *MC = new BCSCMatrix(C, nb, s); sym_leak_begin(); CSC *G = merge_graphs(MA->getBCSC(), B, MC->getBCSC()); check_graph(G, N, e); delete G; sym_leak_check("merge_graphs releases its work space"); check_blocked(a, MA->getBCSC(), nb, s); check_blocked(c, MC->getBCSC(), nb, s); sym_cover("end");
}
// level sets of the fused kernels: node b of A at its longest path, node b of C after every A block whose SpMV reaches it
ENTRY(h_fused_levels) {
  int nb = sym_conc(sym_int("nb", 1, sym_param("NB", 3))), W = sym_param("W", 2), n = 0; int *s = ibuf(nb + 1); for (int b = 0; b < nb; b++) { s[b] = n; n += sym_conc(sym_int(nm("width", b), 1, W)); } s[nb] = n;
  // A and C: every block row is full or empty below each block
  Mat m[2]; for (int t = 0; t < 2; t++) { m[t].n = m[t].m = n; m[t].p = ibuf(n + 1); int on[64], nz = 0; for (int b = 0; b < nb; b++) for (int r = s[b + 1]; r < n; r++) { on[b * 8 + r] = sym_conc(sym_int(nm(t ? "c" : "a", b, r), 0, 1)); nz += on[b * 8 + r] * (s[b + 1] - s[b]); } for (int b = 0; b < nb; b++) { int w = s[b + 1] - s[b]; nz += w * (w + 1) / 2; }
    m[t].nnz = nz; m[t].i = ibuf(nz); int q = 0; for (int b = 0; b < nb; b++) for (int c = s[b]; c < s[b + 1]; c++) { m[t].p[c] = q; for (int r = c; r < n; r++) if (r < s[b + 1] || on[b * 8 + r]) m[t].i[q++] = r; } m[t].p[n] = q; }
  Mat bm = sym_mat(n, n, sym_param("COLB", 8), ANY, 0, "b"); CSC *A = new CSC(n, n, m[0].nnz, m[0].p, m[0].i, -1), *C = new CSC(n, n, m[1].nnz, m[1].p, m[1].i, -1), *B = csc_of(bm, 1, 0);
  int blk[16]; for (int b = 0; b < nb; b++) for (int c = s[b]; c < s[b + 1]; c++) blk[c] = b;
  int lev[32], have = 0; for (int k = 0; k < 2 * nb; k++) lev[k] = 0;
  for (int b = 0; b < nb; b++) for (int c = s[b]; c < s[b + 1]; c++) for (int k = A->p[c]; k < A->p[c + 1]; k++) { int r = blk[A->i[k]]; if (r != b && lev[r] < lev[b] + 1) lev[r] = lev[b] + 1; }
  for (int c = 0; c < n; c++) for (int k = B->p[c]; k < B->p[c + 1]; k++) { int r = nb + blk[B->i[k]]; if (lev[r] < lev[blk[c]] + 1) lev[r] = lev[blk[c]] + 1; }
  for (int b = 0; b < nb; b++) for (int c = s[b]; c < s[b + 1]; c++) for (int k = C->p[c]; k < C->p[c + 1]; k++) { int r = blk[C->i[k]]; if (r != b && lev[nb + r] < lev[nb + b] + 1) lev[nb + r] = lev[nb + b] + 1; }
  for (int k = 0; k < 2 * nb; k++) have = lev[k] + 1 > have ? lev[k] + 1 : have;
  sym_leak_begin(); int *lp, *ls, L = bcsc_csc_bcsc_levelset(A, B, C, lp, ls, nb, s); sym_assert(L == have, "the number of levels is the longest chain of dependences"); sym_assert(lp[0] == 0 && lp[L] == 2 * nb, "the levels hold every block of both kernels"); int seen[32]; for (int k = 0; k < 2 * nb; k++) seen[k] = 0;
  for (int l = 0; l < L; l++) { sym_assert(lp[l] < lp[l + 1], "no level is empty"); for (int k = lp[l]; k < lp[l + 1]; k++) { int v = ls[k]; sym_assert(v >= 0 && v < 2 * n, "blocks are named by their first column"); int g = v / n, b = blk[v % n]; sym_assert(s[b] == v % n, "blocks are named by their first column"); int id = g * nb + b; sym_assert(!seen[id], "every block is placed once"); seen[id] = 1; sym_assert(lev[id] == l, "a block runs right after its last dependence"); } }
  int *s2n; sup2node_gen(n, 2 * nb, ls, nb, s, s2n); for (int k = 0; k < 2 * nb; k++) sym_assert(s[s2n[k]] == ls[k] % n && s2n[k] < nb, "column names map back to blocks"); for (int b = 0; b < nb; b++) sym_assert(find(s, 0, nb, s[b]) == b, "find locates every block");
  delete[] lp; delete[] ls; delete[] s2n; sym_leak_check("the level set releases its work space"); sym_cover("end"); if (L > 2) sym_cover("several-levels");
}
