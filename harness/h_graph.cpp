// Graph, tree and permutation helpers.
#include "mat.hpp"
#include <sparse_utilities.h>
#include <sparse_inspector.h>
#include <utils.h>
using namespace sym_lib;

static void check_pattern(const CSC *C, int n, const char *e) { // e[r*n+c] wanted entries, each stored once
  sym_assert((int)C->n == n && (int)C->m == n, "dimensions of the result"); sym_assert((int)C->nnz == C->p[n], "the count equals the stored entries"); check_comp(n, n, C->p, C->i, nullptr, nullptr, [&](int r, int c) { return e[r * n + c] ? 0 : -1; }, 0, "");
}
// fusing graphs: copies on the diagonal blocks, node j of copy g feeds node j of copy g+1 (or the given dependence graph)
ENTRY(h_merge_graph) {
  int kind = sym_param("KIND", 0), n = sym_param("N", 2), g = sym_conc(sym_int("graphs", 1, sym_param("G", 3))), N = n * g; char *e = new char[N * N]();
  int **Gp = new int *[g], **Gi = new int *[g], **Dp = new int *[g > 1 ? g - 1 : 0], **Di = new int *[g > 1 ? g - 1 : 0];
  for (int k = 0; k < g; k++) { Mat a = sym_mat(n, n, sym_param("COL", 8), ANY, 0, k == 0 ? "a" : k == 1 ? "b" : "c"); Gp[k] = a.p; Gi[k] = a.i; for (int r = 0; r < n; r++) for (int c = 0; c < n; c++) if (a.slot[r * n + c] >= 0) e[(k * n + r) * N + k * n + c] = 1; }
  for (int k = 0; k + 1 < g; k++) { if (kind == 2) { Mat a = sym_mat(n, n, sym_param("COL", 8), ANY, 0, k == 0 ? "d" : "f"); Dp[k] = a.p; Di[k] = a.i; for (int r = 0; r < n; r++) for (int c = 0; c < n; c++) if (a.slot[r * n + c] >= 0) e[((k + 1) * n + r) * N + k * n + c] = 1; } else for (int c = 0; c < n; c++) e[((k + 1) * n + c) * N + k * n + c] = 1; }
  if (kind == 0) { int *np = nullptr, *ni = nullptr; merge_graph(g, n, Gp, Gi, np, ni); check_comp(N, N, np, ni, nullptr, nullptr, [&](int r, int c) { return e[r * N + c] ? 0 : -1; }, 0, ""); }
  else { CSC *C = kind == 1 ? merge_graph(g, n, Gp, Gi) : merge_DAGs_with_partial_order(g, n, Gp, Gi, g - 1, Dp, Di); check_pattern(C, N, e); sym_assert(C->is_pattern, "a fused graph is a pattern"); delete C; }
  sym_cover("end");
}
ENTRY(h_coarsen_k) {
  int n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 4))), k = sym_conc(sym_int("k", 1, n + 1)), st = sym_conc(sym_int("stype", -1, 1)); Mat a = sym_mat(n, n, sym_param("COL", 2), st < 0 ? LOWER : st > 0 ? UPPER : ANY); int N = (n + k - 1) / k; char *e = new char[N * N]();
  for (int r = 0; r < n; r++) for (int c = 0; c < n; c++) if (a.slot[r * n + c] >= 0) e[r / k * N + c / k] = 1;
  sym_leak_begin(); CSC *C = coarsen_k_times(n, a.nnz, a.p, a.i, st, k); check_pattern(C, N, e); sym_assert(C->stype == st, "symmetry is kept"); delete C; sym_leak_check("coarsen_k_times releases its work space"); sym_cover("end");
}
static void sym_forest(int n, int *par, int tree = 0) { if (sym_param("TPL", 0)) { int *t = sym_forest(n); for (int v = 0; v < n; v++) par[v] = tree && v < n - 1 && t[v] < 0 ? n - 1 : t[v]; delete[] t; return; } for (int v = 0; v < n; v++) { int r = sym_int(nm("parent", v), v + 1, tree && v < n - 1 ? n - 1 : n); r = sym_conc(r); par[v] = r == n ? -1 : r; } }
ENTRY(h_tree_utils) {
  int n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 5))); int *par = ibuf(n); sym_forest(n, par); int *par0 = copy_ints(par, n);
  int *cp = ibuf(n + 1), *ci = ibuf(n), *nc = ibuf(n), edges = 0; populate_children(n, par, cp, ci, nc); for (int v = 0; v < n; v++) edges += par[v] >= 0;
  sym_assert(cp[0] == 0 && cp[n] == edges, "every child is listed once"); for (int v = 0; v < n; v++) { sym_assert(nc[v] == cp[v + 1] - cp[v] && nc[v] >= 0, "number of children"); int want = 0; for (int c = 0; c < n; c++) want += par[c] == v; sym_assert(nc[v] == want, "number of children"); for (int k = cp[v]; k < cp[v + 1]; k++) { sym_assert(ci[k] >= 0 && ci[k] < n && par[ci[k]] == v, "listed children have this parent"); if (k > cp[v]) sym_assert(ci[k] > ci[k - 1], "children are in increasing order"); } }
  int w[16], dep[16], wdep[16], h = 0, wh = 0; for (int v = 0; v < n; v++) w[v] = sym_int(nm("w", v), 0, 9); for (int v = n - 1; v >= 0; v--) { dep[v] = par[v] < 0 ? 0 : dep[par[v]] + 1; wdep[v] = w[v] + (par[v] < 0 ? 0 : wdep[par[v]]); }
  int *wb = ibuf(n); for (int v = 0; v < n; v++) wb[v] = w[v];
  for (int v = 0; v < n; v++) { sym_assert(get_node_depth(v, n, par) == dep[v], "depth is the distance to the root"); sym_assert(get_node_depth(v, n, par, wb) == wdep[v], "weighted depth"); if (dep[v] > h) h = dep[v]; wh = wdep[v] > wh ? wdep[v] : wh; }
  sym_assert(get_tree_height_bruteforce(n, par) == h && get_tree_height(n, par, nc) == h && get_tree_height_efficient(n, par, nc, nullptr) == h, "the three height routines agree with the height of the tree");
  sym_assert(get_tree_height_bruteforce(n, par, wb) == wh, "weighted height"); sym_assert(get_tree_height(n, par, nc, wb) == wh, "weighted height over the leaves");
  double *cost = dbuf(n), want[16]; for (int v = 0; v < n; v++) cost[v] = sym_num(nm("cost", v), 0, 9), want[v] = 0; double *sc = compute_subtree_cost(n, par, cost); for (int v = 0; v < n; v++) for (int a = v;; a = par[a]) { want[a] += cost[v]; if (par[a] < 0) break; } int ok = 1; for (int v = 0; v < n; v++) ok &= sc[v] == want[v]; sym_assert(ok, "subtree cost is the cost of all descendants"); delete[] sc;
  int roots = n - edges; if (roots == 1 || sym_param("FOREST", 1)) { sym_leak_begin(); CSC *T = tree_to_csc(n, par); check_comp(n, n, T->p, T->i, nullptr, nullptr, [&](int r, int c) { return par[r] == c ? 0 : -1; }, 1, ""); sym_assert((int)T->nnz == edges && (int)T->n == n && (int)T->m == n, "dimensions and count of the tree matrix"); delete T; sym_leak_check("the tree matrix owns its arrays"); }
  sym_assert(same_ints(par, par0, n), "the tree is unchanged"); sym_cover("end");
}
// a forest of selected nodes (-2: not selected) is split into its trees, children before parents
ENTRY(h_post_order_split) {
  int n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 5))); int *par = ibuf(n); for (int v = 0; v < n; v++) { int r = sym_conc(sym_int(nm("parent", v), v, n)); par[v] = r == n ? -1 : r == v ? -2 : r; } for (int v = 0; v < n; v++) if (par[v] >= 0) sym_assume(par[par[v]] != -2);
  int *cp = ibuf(n + 1), *ci = ibuf(n), *nc = ibuf(n), *n2p = ibuf(n), os = 0; populate_children(n, par, cp, ci, nc); double *cost = dbuf(n), *oc = dbuf(n); for (int v = 0; v < n; v++) cost[v] = sym_num(nm("cost", v), 0, 9); std::vector<std::vector<int>> parts; int *par0 = copy_ints(par, n);
  post_order_spliting(n, par, cost, cp, ci, nc, sym_int("total", 0, 99), sym_conc(sym_int("parts", 1, 3)), os, oc, n2p, parts); sym_assert((int)parts.size() == os, "the number of parts is reported"); int root[16], pos[16], pa[16], seen[16]; for (int v = 0; v < n; v++) seen[v] = 0, root[v] = -1; for (int v = n - 1; v >= 0; v--) if (par[v] != -2) root[v] = par[v] < 0 ? v : root[par[v]];
  int trees = 0; for (int v = 0; v < n; v++) trees += par[v] == -1; sym_assert(os == trees, "one part per tree");
  for (int k = 0; k < os; k++) { double c = 0; for (int q = 0; q < (int)parts[k].size(); q++) { int v = parts[k][q]; sym_assert(v >= 0 && v < n && !seen[v] && par[v] != -2, "every selected node is placed once"); seen[v] = 1; pos[v] = q; pa[v] = k; c += cost[v]; sym_assert(n2p[v] == k, "the node knows its part"); } sym_assert(!parts[k].empty(), "no part is empty"); sym_assert(oc[k] == c, "the cost of a part is the cost of its nodes"); }
  for (int v = 0; v < n; v++) { sym_assert(seen[v] == (par[v] != -2), "every selected node is placed"); if (par[v] >= 0) sym_assert(pa[v] == pa[par[v]] && pos[v] < pos[par[v]], "children come before their parent in the same part"); }
  sym_assert(same_ints(par, par0, n), "the tree is unchanged"); if (trees > 1) sym_cover("forest"); sym_cover("end");
}
ENTRY(h_perm_utils) {
  int n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 4))); int *perm = ibuf(n), *inv = ibuf(n), *inv2 = ibuf(n), *arr = ibuf(n), *a0 = ibuf(n), *ws = ibuf(n); sym_permutation(n, perm); for (int k = 0; k < n; k++) a0[k] = arr[k] = sym_int(nm("a", k), -100, 100);
  sym_assert(compute_inv_perm(n, perm, inv) == inv, "the inverse is returned"); inv_perm(n, perm, inv2); int ok = 1; for (int k = 0; k < n; k++) ok &= inv[perm[k]] == k & perm[inv[k]] == k & inv2[k] == inv[k]; sym_assert(ok, "the inverse permutation undoes the permutation"); sym_assert(compute_inv_perm(0, perm, inv) == nullptr, "an empty permutation has no inverse");
  reorder_array(n, arr, perm, ws); ok = 1; for (int k = 0; k < n; k++) ok &= arr[k] == a0[perm[k]]; sym_assert(ok, "reordering applies the permutation"); reorder_array(n, arr, inv, ws); sym_assert(same_ints(arr, a0, n), "reordering by the inverse undoes it");
  sym_cover("end");
}
ENTRY(h_norms) {
  int n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 3)));
  double *x = dbuf(n), *y = dbuf(n); for (int k = 0; k < n; k++) { x[k] = sym_num(nm("x", k), -9, 9); y[k] = sym_num(nm("y", k), -9, 9); } int b = sym_conc(sym_int("beg", 0, n)), e = sym_conc(sym_int("len", 0, n)); e = b + e > n ? n : b + e; double r = residual(b, e, x, y), m = 0; for (int k = b; k < e; k++) { double d = x[k] - y[k]; d = d < 0 ? 0.0 - d : d; m = d > m ? d : m; } sym_assert(r == m, "the residual is the largest difference in the range"); double q = norm(n, x); m = 0; for (int k = 0; k < n; k++) { double d = x[k] < 0 ? 0.0 - x[k] : x[k]; m = d > m ? d : m; } sym_assert(q == m, "the norm is the largest magnitude");
  double *z = dbuf(n); for (int k = 0; k < n; k++) z[k] = 77; copy_vector_dense(b, e, x, z); int ok = 1; for (int k = 0; k < n; k++) ok &= z[k] == (k >= b && k < e ? x[k] : 77); sym_assert(ok, "copy_vector_dense copies the range and nothing else"); sym_cover("end");
}
ENTRY(h_safe_size) {
  unsigned long a = (unsigned long)sym_long("a", 0, 0x7fffffffffffffffL) * 2 + (unsigned)sym_int("a0", 0, 1), b = (unsigned long)sym_long("b", 0, 0x7fffffffffffffffL) * 2 + (unsigned)sym_int("b0", 0, 1); int ok0 = sym_conc(sym_int("ok", 0, 1)), ok = ok0; size_t r = add_size_t(a, b, &ok); int over = a + b < a; sym_assert(ok == (ok0 && !over), "overflow of a sum is reported"); sym_assert(r == (ok ? a + b : 0), "a sum is exact, or 0 on overflow");
  int k = sym_conc(sym_int("k", 0, sym_param("K", 9))); ok = ok0; r = mult_size_t(a, k, &ok); unsigned long lim = k ? ~0UL / (unsigned long)k : ~0UL; sym_assert(ok == (ok0 && a <= lim), "a product is accepted exactly when it fits"); if (!ok0) sym_assert(!ok && r == 0, "a failed flag stays failed"); if (ok) sym_assert(a <= lim && r == a * (unsigned long)k, "an accepted product is exact"); else sym_assert(r == 0, "a refused product is 0"); sym_cover("end");
}
