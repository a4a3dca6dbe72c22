#include "dag.hpp"
#include <lbc.h>
#include <lbc_utils.h>
#include <sparse_inspector.h>
#include <sparse_utilities.h>
#include <def.h>
using namespace sym_lib;

struct LbcIn { Dag d; double *cost; int ic, cp, bp, dr; int *p0, *i0; };
static LbcIn lbc_in() {
  LbcIn in; int n = sym_param("N", 4);
  in.d = sym_dag(n, sym_param("DEG", 1 << 20));
  in.cost = dbuf(n);
  for (int v = 0; v < n; v++) in.cost[v] = sym_cost(v, sym_param("CMIN", 1), sym_param("CMAX", 3));
  in.ic = sym_conc(sym_int("innerParts", sym_param("ICMIN", 1), sym_param("IC", 3)));
  in.cp = sym_conc(sym_int("minLevelDist", sym_param("CPMIN", 1), sym_param("CP", 3)));
  in.dr = sym_conc(sym_int("divRate", 1, sym_param("DR", 2)));
  in.p0 = copy_ints(in.d.p, n + 1); in.i0 = copy_ints(in.d.i, in.d.nnz);
  return in;
}
// In a level where several components share a w-partition, none of them can move to another partition and lower the larger of the two.
static void check_balance(const Dag &d, const double *cost, int nl, const int *lp, const int *pp, const int *nd, int cap) {
  int n = d.n, comp[64], lev[64], par[64]; for (int l = 0; l < nl; l++) for (int j = lp[l]; j < lp[l + 1]; j++) for (int k = pp[j]; k < pp[j + 1]; k++) { int v = sym_conc(nd[k]); lev[v] = l; par[v] = j; }
  for (int v = 0; v < n; v++) comp[v] = v;
  for (int t = 0; t < n; t++) for (int u = 0; u < n; u++) for (int k = d.p[u]; k < d.p[u + 1]; k++) { int v = sym_conc(d.i[k]); if (lev[u] == lev[v]) { int m = comp[u] < comp[v] ? comp[u] : comp[v]; comp[u] = comp[v] = m; } }
  double cc[64]; for (int v = 0; v < n; v++) cc[v] = 0; for (int v = 0; v < n; v++) cc[comp[v]] += cost[v];
  for (int l = 0; l < nl; l++) {
    int np_ = lp[l + 1] - lp[l], nc = 0, packed = 0, cnt[64]; double pc[64];
    for (int j = 0; j < np_; j++) { pc[j] = 0; cnt[j] = 0; }
    for (int v = 0; v < n; v++) if (lev[v] == l) { int j = par[v] - lp[l]; pc[j] += cost[v]; if (comp[v] == v) { nc++; if (++cnt[j] > 1) packed = 1; } }
    if (!packed) continue;
    sym_cover("packed"); if (cap) sym_assert(np_ <= cap, "a packed level has no more w-partitions than requested");
    for (int v = 0; v < n; v++) if (lev[v] == l && comp[v] == v) { int b = par[v] - lp[l]; int ok = 1; for (int a = 0; a < np_; a++) if (a != b) ok &= pc[a] + cc[v] >= pc[b]; sym_assert(ok, "w-partitions are balanced: no component of a partition could move to a lighter one"); }
    if (nl > 1 && l > 0) sym_cover("packed-late");
  }
}
static void lbc_out(LbcIn &in, int nl, int *lp, int np_, int *pp, int *nd) {
  check_schedule(in.d, nl, lp, pp, nd);
  sym_assert(same_ints(in.p0, in.d.p, in.d.n + 1) && same_ints(in.i0, in.d.i, in.d.nnz), "the input matrix is unchanged");
  if (sym_param("BINPACKED", 0)) for (int l = 0; l < nl; l++) sym_assert(lp[l + 1] - lp[l] <= (in.ic > 1 ? in.ic : 1) , "a level has no more w-partitions than requested");
  if (sym_param("PARTNO", 0)) sym_assert(np_ == lp[nl], "the reported number of partitions equals the level pointer's end");
  for (int l = 0; l <= nl; l++) sym_out(lp[l]);
  for (int j = 0; j <= lp[nl]; j++) sym_out(pp[j]);
  for (int k = 0; k < in.d.n; k++) sym_out(nd[k]);
  if (sym_param("BALANCE", 0)) check_balance(in.d, in.cost, nl, lp, pp, nd, in.ic > 1 ? in.ic : 6);
  if (nl > 1) sym_cover("several-levels");
  if (lp[nl] > nl) sym_cover("parallel-level");
  for (int j = 0; j < lp[nl]; j++) if (pp[j + 1] - pp[j] > 1) { sym_cover("coarsened-partition"); break; }
  sym_cover("end");
}

ENTRY(h_lbc_csc) {
  LbcIn in = lbc_in(); int bp = sym_conc(sym_int("binpack", 0, 1));
  int nl = 0, np_ = 0, *lp = nullptr, *pp = nullptr, *nd = nullptr;
  get_coarse_levelSet_DAG_CSC(in.d.n, in.d.p, in.d.i, nl, lp, np_, pp, nd, in.ic, in.cp, in.dr, in.cost, bp);
  lbc_out(in, nl, lp, np_, pp, nd);
}
ENTRY(h_lbc_csc03) {
  LbcIn in = lbc_in();
  int nl = 0, np_ = 0, *lp = nullptr, *pp = nullptr, *nd = nullptr;
  get_coarse_Level_set_DAG_CSC03(in.d.n, in.d.p, in.d.i, nl, lp, np_, pp, nd, in.ic, in.cp, in.dr, in.cost);
  lbc_out(in, nl, lp, np_, pp, nd);
}
ENTRY(h_lbc_csc03_parallel) {
  LbcIn in = lbc_in(); int bp = sym_conc(sym_int("binpack", 0, 1));
  int nt = sym_conc(sym_int("numThreads", 1, sym_param("NT", 2)));
  int nl = 0, np_ = 0, *lp = nullptr, *pp = nullptr, *nd = nullptr;
  get_coarse_Level_set_DAG_CSC03_parallel(in.d.n, in.d.p, in.d.i, nl, lp, np_, pp, nd, in.ic, in.cp, in.dr, in.cost, nt, bp);
  lbc_out(in, nl, lp, np_, pp, nd);
}
// etree based LBC on a symbolic forest: parent(v) > v or -1
ENTRY(h_lbc_tree) {
  int n = sym_param("N", 4); int *par = sym_forest(n);
  Dag d; d.n = n; d.p = ibuf(n + 1); d.i = ibuf(2 * n); int t = 0;
  for (int v = 0; v < n; v++) { d.p[v] = t; d.i[t++] = v; if (par[v] >= 0) d.i[t++] = par[v]; }
  d.p[n] = t; d.nnz = t;
  LbcIn in; in.d = d; in.cost = dbuf(n);
  for (int v = 0; v < n; v++) in.cost[v] = sym_cost(v, sym_param("CMIN", 1), sym_param("CMAX", 3));
  in.ic = sym_conc(sym_int("innerParts", 1, sym_param("IC", 3))); in.cp = sym_conc(sym_int("minLevelDist", 1, sym_param("CP", 3))); in.dr = sym_conc(sym_int("divRate", 1, sym_param("DR", 2)));
  in.p0 = copy_ints(d.p, n + 1); in.i0 = copy_ints(d.i, d.nnz);
  int *par0 = copy_ints(par, n);
  int nl = 0, np_ = 0, *lp = nullptr, *pp = nullptr, *nd = nullptr;
  get_coarse_levelSet_tree(n, par, nl, lp, np_, pp, nd, in.ic, in.cp, in.dr, in.cost);
  sym_assert(same_ints(par, par0, n), "the elimination tree is unchanged");
  lbc_out(in, nl, lp, np_, pp, nd);
}
// CSC entry point that goes through make_symmetric + elimination tree
ENTRY(h_lbc_csc_tree) {
  LbcIn in = lbc_in();
  int nl = 0, np_ = 0, *lp = nullptr, *pp = nullptr, *nd = nullptr;
  get_coarse_levelSet_DAG_CSC_tree(in.d.n, in.d.p, in.d.i, -1, nl, lp, np_, pp, nd, in.ic, in.cp, in.dr, in.cost);
  lbc_out(in, nl, lp, np_, pp, nd);
}
// supernodal LBC
ENTRY(h_lbc_bcsc) {
  Sup s = sym_sup(sym_param("NB", 3), sym_param("W", 2), sym_param("OFF", 3)); int n = s.nb;
  LbcIn in; in.d = s.d; in.cost = dbuf(n);
  for (int v = 0; v < n; v++) in.cost[v] = sym_cost(v, sym_param("CMIN", 1), sym_param("CMAX", 2));
  in.ic = sym_conc(sym_int("innerParts", 1, sym_param("IC", 2))); in.cp = sym_conc(sym_int("minLevelDist", 1, sym_param("CP", 2))); in.dr = sym_conc(sym_int("divRate", 1, sym_param("DR", 2)));
  in.p0 = copy_ints(s.d.p, n + 1); in.i0 = copy_ints(s.d.i, s.d.nnz);
  int nl = 0, np_ = 0, *lp = nullptr, *pp = nullptr, *nd = nullptr, *pl = nullptr;
  getCoarseLevelSet_DAG_BCSC02(n, s.lC, s.Li_ptr, s.lR, s.blk2col, s.col2blk, nl, lp, pl, np_, pp, nd, in.ic, in.cp, in.dr, in.cost);
  lbc_out(in, nl, lp, np_, pp, nd);
}

// the packing routine itself: components of any cost into any number of bins
ENTRY(h_bins) {
  int kmax = sym_param("K", 4), K = sym_conc(sym_int("components", 0, kmax)), B = sym_conc(sym_int("bins", 1, sym_param("BINS", 3))); std::vector<std::vector<int>> comps(K), out(B); double *c = dbuf(K), *bc = dbuf(B); int nodes = 0;
  for (int k = 0; k < K; k++) { c[k] = sym_num(nm("cost", k), 0, sym_param("CMAX", 9)); int s = k ? 1 : sym_conc(sym_int("size", 0, 2)); for (int t = 0; t < s; t++) comps[k].push_back(nodes++); }
  double *c0 = dbuf(K); for (int k = 0; k < K; k++) c0[k] = c[k]; int r = worst_fit_bin_pack(comps, c, out, bc, sym_int("threshold", 0, 100), B);
  sym_assert(r == B && (int)out.size() == B, "the number of bins is the number requested"); int bin[32]; for (int v = 0; v < nodes; v++) bin[v] = -1; double want[8]; for (int b = 0; b < B; b++) want[b] = 0; int ok = 1;
  for (int b = 0; b < B; b++) for (int v : out[b]) { sym_assert(v >= 0 && v < nodes, "bins hold nodes of the components"); ok &= bin[v] == -1; bin[v] = b; } for (int v = 0; v < nodes; v++) ok &= bin[v] >= 0; sym_assert(ok, "every node is in exactly one bin");
  int pos[32]; for (int b = 0; b < B; b++) for (int q = 0; q < (int)out[b].size(); q++) pos[out[b][q]] = q; ok = 1; int empty = 0;
  for (int k = 0; k < K; k++) { ok &= c[k] == c0[k]; if (comps[k].empty()) { empty = 1; continue; } int b = bin[comps[k][0]]; want[b] += c[k]; for (size_t t = 1; t < comps[k].size(); t++) ok &= (bin[comps[k][t]] == b) & (pos[comps[k][t]] == pos[comps[k][t - 1]] + 1); }
  sym_assert(ok, "components stay whole and in order, and costs are not changed"); double tot = 0, tc = 0; for (int b = 0; b < B; b++) tot += bc[b]; for (int k = 0; k < K; k++) tc += c[k]; sym_assert(tot == tc, "bin costs add up to the component costs");
  if (!empty) { ok = 1; for (int b = 0; b < B; b++) ok &= bc[b] == want[b]; sym_assert(ok, "the cost reported for a bin is the cost of its components"); for (int k = 0; k < K; k++) { ok = 1; int b = bin[comps[k][0]]; for (int a = 0; a < B; a++) if (a != b) ok &= bc[a] + c[k] >= bc[b]; sym_assert(ok, "bins are balanced: no component could move to a lighter bin"); } }
  sym_cover("end");
}
// component labels and costs of a slice of wavefronts, computed by parallel threads
namespace sym_lib { int parallel_cc(int *, int *, int, int, int *, int *, int *, int *, double *, double *, int &, int, int *, int); }
ENTRY(h_lbc_cc) {
  Dag d = sym_dag(sym_param("N", 4), sym_param("DEG", 1 << 20)); int n = d.n, *lp = nullptr, *ls = nullptr, nl = build_levelSet_CSC(n, d.p, d.i, lp, ls), *n2l = ibuf(n), *part = ibuf(n), *nodes = ibuf(n); double *cost = dbuf(n), *out = dbuf(n);
  for (int v = 0; v < n; v++) { cost[v] = sym_cost(v, 1, 3); out[v] = 0; part[v] = -1; } for (int l = 0; l < nl; l++) for (int k = lp[l]; k < lp[l + 1]; k++) n2l[ls[k]] = l;
  int lb = sym_conc(sym_int("lb", 0, nl - 1)), ub = sym_conc(sym_int("ub", lb + 1, nl)), cnt = 0, cur = 0; for (int k = lp[lb]; k < lp[ub]; k++) nodes[cnt++] = ls[k];
  sym_shared(part); int cc = parallel_cc(d.p, d.i, lb, ub, n2l, lp, ls, part, out, cost, cur, cnt, nodes, sym_param("NT", 2));
  int e[64 * 64]; for (int k = 0; k < n * n; k++) e[k] = 0; int in[64]; for (int v = 0; v < n; v++) in[v] = n2l[v] >= lb && n2l[v] < ub;
  for (int u = 0; u < n; u++) { e[u * n + u] = 1; for (int k = d.p[u]; k < d.p[u + 1]; k++) { int v = sym_conc(d.i[k]); if (in[u] && in[v]) e[u * n + v] = e[v * n + u] = 1; } } for (int w = 0; w < n; w++) for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) e[u * n + v] |= e[u * n + w] & e[w * n + v];
  int ok = 1; for (int u = 0; u < n; u++) for (int v = 0; v < u; v++) ok &= !(in[u] & in[v]) | ((part[u] == part[v]) == e[u * n + v]); sym_assert(ok, "two nodes of the slice get the same label exactly when they are connected inside it");
  for (int v = 0; v < n; v++) { if (in[v]) sym_assert(part[v] >= 0 && part[v] < cc && cc <= cnt, "labels are in range"); else sym_assert(part[v] == -1, "nodes outside the slice are untouched"); }
  for (int u = 0; u < n; u++) if (in[u]) { double s = 0; for (int v = 0; v < n; v++) if (in[v] && e[u * n + v]) s += cost[v]; sym_assert(out[part[u]] == s, "the cost of a component is the sum of the costs of its nodes"); }
  if (ub - lb > 1) sym_cover("multi-level"); sym_cover("end");
}
