#include "dag.hpp"
#include <sparse_inspector.h>
#include <sparse_utilities.h>
#include <hdagg.h>
#include <def.h>
using namespace sym_lib;
static void lv_out(int n, int nl, const int *lp, const int *ls) { for (int l = 0; l <= nl; l++) sym_out(lp[l]); for (int k = 0; k < n; k++) sym_out(ls[k]); if (nl > 1 && lp[1] > 1) sym_cover("wide-and-deep"); if (nl == n && n > 1) sym_cover("chain"); sym_cover("end"); }
// any digraph: cycle => -1, otherwise exact levels
ENTRY(h_level_csc) {
  Dag d = sym_digraph(sym_param("N", 3), sym_param("DEG", 1 << 20)); int n = d.n, ref[64]; int cyc = ref_levels_any(d, ref);
  int *p0 = copy_ints(d.p, n + 1), *i0 = copy_ints(d.i, d.nnz);
  int *lp = nullptr, *ls = nullptr; int nl = build_levelSet_CSC((size_t)n, d.p, d.i, lp, ls);
  sym_assert((nl == -1) == cyc, "build_levelSet_CSC returns -1 exactly for graphs with a cycle");
  sym_assert(same_ints(p0, d.p, n + 1) && same_ints(i0, d.i, d.nnz), "the input graph is unchanged");
  if (nl == -1) { sym_cover("cycle"); return; }
  check_levels(n, ref, nl, lp, ls); lv_out(n, nl, lp, ls);
}
ENTRY(h_level_computing) {
  Dag d = sym_digraph(sym_param("N", 3), sym_param("DEG", 1 << 20)); int n = d.n, ref[64]; int cyc = ref_levels_any(d, ref);
  std::vector<int> lp, ls; int nl = 0; computingLevelSet_CSC(n, d.p, d.i, lp, ls, nl);
  sym_assert((nl == -1) == cyc, "computingLevelSet_CSC reports -1 exactly for graphs with a cycle");
  if (nl == -1) { sym_cover("cycle"); return; }
  check_levels(n, ref, nl, lp.data(), ls.data()); lv_out(n, nl, lp.data(), ls.data());
}
ENTRY(h_level_hdagg) {
  Dag d = sym_digraph(sym_param("N", 3), sym_param("DEG", 1 << 20)); int n = d.n, ref[64]; int cyc = ref_levels_any(d, ref);
  std::vector<int> lp(n + 1), ls(n), n2l(n, -7); int nl = HDAGG::build_levelSet_CSC((size_t)n, d.p, d.i, lp.data(), ls.data(), n2l.data());
  sym_assert((nl == -1) == cyc, "HDAGG build_levelSet_CSC returns -1 exactly for graphs with a cycle");
  if (nl == -1) { sym_cover("cycle"); return; }
  check_levels(n, ref, nl, lp.data(), ls.data());
  sym_assert(same_ints(n2l.data(), ref, n), "node_to_level agrees with the level of every node");
  std::vector<int> m(2, 5); HDAGG::computingNode2Level(lp, ls, nl, n, m); sym_assert((int)m.size() == n && same_ints(m.data(), ref, n), "computingNode2Level names the level of every node"); lv_out(n, nl, lp.data(), ls.data());
}
// queue version (diagonal first), acyclic input in any node numbering
ENTRY(h_level_queue) {
  Dag d = sym_digraph(sym_param("N", 3), sym_param("DEG", 1 << 20)); int n = d.n, ref[64]; int cyc = ref_levels_any(d, ref); sym_assume(!cyc);
  int *lp = ibuf(n + 1), *ls = ibuf(n); int nl = buildLevelSet_CSC_Queue(n, d.nnz, d.p, d.i, lp, ls);
  check_levels(n, ref, nl, lp, ls); lv_out(n, nl, lp, ls);
}
// n_kern chained copies of one lower triangular DAG
ENTRY(h_level_multi) {
  Dag d = sym_dag(sym_param("N", 4), sym_param("DEG", 1 << 20)); int n = d.n, kern = sym_param("KERN", 1), ref[64]; ref_levels(d, ref);
  int *lp = nullptr, *ls = nullptr; sym_leak_begin(); int nl = level_set_multi_graphs(n, d.p, d.i, lp, ls, kern);
  for (int q = 1; q < kern; q++) for (int v = 0; v < n; v++) ref[q * n + v] = ref[v] + q;
  check_levels(kern * n, ref, nl, lp, ls);
  lv_out(kern * n, nl, lp, ls); delete[] lp; delete[] ls; sym_leak_check("level_set_multi_graphs releases its work space");
}
// supernodal level set on the first column of every supernode
ENTRY(h_level_bn) {
  int lower = sym_param("LOWER", 1), kern = sym_param("KERN", 1); int n = sym_param("N", 4);
  int maxW = sym_param("W", 2), sup[64], ns = 0; // concrete supernode boundaries per path
  sup[0] = 0; while (sup[ns] < n) { int mx = n - sup[ns] < maxW ? n - sup[ns] : maxW; int w = sym_conc(sym_int(nm("width", ns), 1, mx)); sup[ns + 1] = sup[ns] + w; ns++; }
  Dag d = sym_dag(n, sym_param("DEG", 1 << 20));
  int c2s[64]; for (int b = 0; b < ns; b++) for (int c = sup[b]; c < sup[b + 1]; c++) c2s[c] = b;
  int ref[64], e[64 * 64]; for (int k = 0; k < ns * ns; k++) e[k] = 0;
  // the first column of a supernode carries the pattern of the whole supernode
  int *Lp = d.p, *Li = d.i;
  for (int b = 0; b < ns; b++) for (int k = d.p[sup[b]] + 1; k < d.p[sup[b] + 1]; k++) { int t = c2s[d.i[k]]; e[b * ns + t] |= (t != b); }
  int *sn = ibuf(ns + 1); 
  if (lower) { for (int b = 0; b <= ns; b++) sn[b] = sup[b]; }
  else { // mirror the problem: node v becomes n-1-v, an upper triangular matrix with its diagonal last
    Lp = ibuf(n + 1); Li = ibuf(d.nnz); int t = 0;
    for (int c = 0; c < n; c++) { int o = n - 1 - c; Lp[c] = t; for (int k = d.p[o + 1] - 1; k >= d.p[o]; k--) Li[t++] = n - 1 - d.i[k]; }
    Lp[n] = t; for (int b = 0; b <= ns; b++) sn[b] = n - 1 - sup[b];
  }
  for (int b = 0; b < ns; b++) ref[b] = 0;
  for (int b = 0; b < ns; b++) for (int t = b + 1; t < ns; t++) { int l = ref[b] + 1; ref[t] = (e[b * ns + t] & (ref[t] < l)) ? l : ref[t]; }
  int *lp = nullptr, *ls = nullptr; int nl = level_set_bn(n, Lp, Li, lp, ls, sn, ns, kern, lower);
  for (int q = 1; q < kern; q++) for (int b = 0; b < ns; b++) ref[q * ns + b] = ref[b] + q;
  sym_assert(nl >= 1 && lp[nl] == kern * ns, "level_set_bn lists every supernode of every kernel once");
  int *bs = ibuf(kern * ns);
  for (int k = 0; k < kern * ns; k++) {
    int v = ls[k]; sym_assert((v >= 0) & (v < kern * n), "level_set_bn: node in range"); int q = v / n; int c = v - q * n; if (!lower) c = n - 1 - c;
    sym_assert(c >= 0 && c < n, "level_set_bn: column in range"); int b = c2s[c]; sym_assert(sup[b] == c, "level_set_bn lists supernode representatives"); bs[k] = q * ns + b;
  }
  check_levels(kern * ns, ref, nl, lp, bs); if (ns < n) sym_cover("wide-supernode"); lv_out(kern * ns, nl, lp, bs);
}
static void forest_levels(int n, const int *par, int *ref) {
  for (int v = 0; v < n; v++) ref[v] = 0;
  for (int v = 0; v < n; v++) { int pv = par[v]; int has = pv >= 0; int t = has ? pv : v; int l = ref[v] + 1, o = ref[t]; ref[t] = (has & (o < l)) ? l : o; }
}
ENTRY(h_level_tree) {
  int n = sym_param("N", 5); int *par = sym_forest(n), ref[64]; forest_levels(n, par, ref);
  int *lp = ibuf(n + 1), *ls = ibuf(n); sym_leak_begin(); int nl = build_level_set_tree((size_t)n, par, lp, ls);
  check_levels(n, ref, nl, lp, ls); lv_out(n, nl, lp, ls); sym_leak_check("build_level_set_tree releases its work space");
}
ENTRY(h_level_tree_eff) {
  int n = sym_param("N", 5); int *par = sym_forest(n), ref[64]; forest_levels(n, par, ref);
  int *nc = ibuf(n); for (int v = 0; v < n; v++) for (int u = 0; u < n; u++) nc[v] += par[u] == v;
  int *lp = ibuf(n + 1), *ls = ibuf(n), *n2l = ibuf(n); int nl = build_level_set_tree_efficient((size_t)n, par, nc, lp, ls, n2l);
  check_levels(n, ref, nl, lp, ls); sym_assert(same_ints(n2l, ref, n), "node2level agrees with the level of every node"); lv_out(n, nl, lp, ls);
}
// supernodal (BCSC) level set
ENTRY(h_level_bcsc) {
  Sup s = sym_sup(sym_param("NB", 3), sym_param("W", 2), sym_param("OFF", 3)); int ref[64]; ref_levels(s.d, ref);
  int *lp = nullptr; size_t *ls = nullptr; int nl = build_levelSet_BCSC(s.n, 0, s.lC, s.Li_ptr, s.lR, s.nb, s.blk2col, s.col2blk, lp, ls);
  sym_assert(nl >= 1 && nl <= s.nb, "levels: the number of levels is between 1 and the number of blocks");
  int *l2 = ibuf(s.nb); for (int k = 0; k < s.nb; k++) l2[k] = (int)ls[k];
  check_levels(s.nb, ref, nl, lp, l2); lv_out(s.nb, nl, lp, l2);
}
// depth of every node in the reversed DAG
ENTRY(h_compute_depth) {
  Dag d = sym_dag(sym_param("N", 4)); int n = d.n; CSC A(n, n, d.nnz); for (int k = 0; k <= n; k++) A.p[k] = d.p[k]; for (int k = 0; k < d.nnz; k++) { A.i[k] = d.i[k]; A.x[k] = 1; }
  int *deg = ibuf(n), ref[64]; for (int v = 0; v < n; v++) ref[v] = 0;
  for (int v = n - 1; v >= 0; v--) for (int k = d.p[v] + 1; k < d.p[v + 1]; k++) { int l = ref[d.i[k]] + 1; ref[v] = ref[v] < l ? l : ref[v]; }
  compute_depth(&A, deg); sym_assert(same_ints(deg, ref, n), "compute_depth gives the longest path to a sink"); for (int v = 0; v < n; v++) sym_out(deg[v]); sym_cover("end");
}
