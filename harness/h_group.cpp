#include "dag.hpp"
#include <hdagg.h>
#include <sparse_utilities.h>
#include <def.h>
typedef std::vector<int> VI;
namespace HDAGG { bool treeBasedGrouping_Aggressive(int n, VI &DAG_ptr, VI &DAG_set, int &ngroups, VI &group_ptr, VI &group_set, bool apply_size_restriction); }
static Dag in_dag(int n) { return sym_dag(n, sym_param("DEG", 1 << 20)); }
// row-wise copy of the pattern (diagonal last), cell counts split into cases
static void csr_of(const Dag &d, VI &rp, VI &ri) {
  int n = d.n; int e[64 * 64]; adj_of(d, e); rp.assign(1, 0); ri.clear();
  for (int r = 0; r < n; r++) { for (int c = 0; c < r; c++) if (e[c * n + r]) ri.push_back(c); ri.push_back(r); rp.push_back((int)ri.size()); }
}
static void do_group(int kind, int n, VI &P, VI &S, int &ng, VI &gp, VI &gs) {
  int lf = sym_param("LFACTOR", 0);
  if (kind == 0) HDAGG::treeBasedGrouping(n, P, S, ng, gp, gs, lf);
  else if (kind == 1) HDAGG::treeBasedGroupingBFS(n, P, S, ng, gp, gs, lf);
  else if (kind == 2) HDAGG::chainGrouping(n, P, S, ng, gp, gs);
  else HDAGG::treeBasedGrouping_Aggressive(n, P, S, ng, gp, gs, lf);
}
static void check_groups(int n, int ng, const VI &gp, const VI &gs, int *g_of) {
  sym_assert(ng >= 1 && ng <= n, "the number of groups is between 1 and n");
  sym_assert((int)gp.size() == ng + 1 && gp[0] == 0 && gp[ng] == n, "group pointers cover all nodes");
  sym_assert((int)gs.size() == n && is_perm(gs.data(), n), "every node is in exactly one group");
  for (int g = 0; g < ng; g++) { sym_assert(gp[g] < gp[g + 1], "groups are not empty"); for (int k = gp[g]; k < gp[g + 1]; k++) g_of[gs[k]] = g; }
}
// grouping alone: partition, edges leave a group only through its tree root, and the quotient graph is acyclic
ENTRY(h_grouping) {
  Dag d = in_dag(sym_param("N", 4)); int n = d.n, kind = sym_param("KIND", 0), ng = 0, g_of[64]; VI P(d.p, d.p + n + 1), S(d.i, d.i + d.nnz), gp, gs;
  if (sym_param("DIRTY", 0)) { gp.assign(3, 5); gs.assign(2, 9); ng = 17; }
  do_group(kind, n, P, S, ng, gp, gs); check_groups(n, ng, gp, gs, g_of);
  sym_assert(same_ints(P.data(), d.p, n + 1) && same_ints(S.data(), d.i, d.nnz), "the input DAG is unchanged");
  VI qp, qs; HDAGG::buildGroupDAG(n, ng, gp.data(), gs.data(), P.data(), S.data(), qp, qs);
  sym_assert((int)qp.size() == ng + 1 && qp[0] == 0 && qp[ng] == (int)qs.size(), "group DAG pointers are consistent");
  int q[64 * 64], w[64 * 64]; for (int k = 0; k < ng * ng; k++) q[k] = w[k] = 0; int ok = 1;
  for (int g = 0; g < ng; g++) for (int k = qp[g]; k < qp[g + 1]; k++) { int c = qs[k]; sym_assert(c >= 0 && c < ng, "group DAG children are in range"); if (k > qp[g]) ok &= qs[k - 1] < c; q[g * ng + c] = 1; }
  sym_assert(ok, "group DAG children are sorted and distinct");
  for (int u = 0; u < n; u++) for (int k = d.p[u]; k < d.p[u + 1]; k++) w[g_of[u] * ng + g_of[d.i[k]]] = 1;
  sym_assert(same_ints(q, w, ng * ng), "the group DAG has exactly the edges between groups");
  for (int g = 0; g < ng; g++) q[g * ng + g] = 0; closure_of(ng, q); ok = 1; for (int g = 0; g < ng; g++) ok &= !q[g * ng + g];
  sym_assert(ok, "the group DAG has no cycle");
  for (int k = 0; k <= ng; k++) sym_out(gp[k]); for (int k = 0; k < n; k++) sym_out(gs[k]);
  if (ng < n) sym_cover("grouped"); sym_cover("end");
}
// quotient graph of an arbitrary partition
ENTRY(h_group_dag) {
  Dag d = in_dag(sym_param("N", 4)); int n = d.n, ng = sym_param("NG", 2), g_of[64]; VI gp, gs; int cnt[64];
  for (int g = 0; g < ng; g++) cnt[g] = 0; for (int v = 0; v < n; v++) { g_of[v] = sym_conc(sym_int(nm("group", v), 0, ng - 1)); cnt[g_of[v]]++; }
  for (int g = 0; g < ng; g++) { sym_assume(cnt[g] > 0); gp.push_back((int)gs.size()); for (int v = 0; v < n; v++) if (g_of[v] == g) gs.push_back(v); } gp.push_back(n);
  VI qp, qs; HDAGG::buildGroupDAG(n, ng, gp.data(), gs.data(), d.p, d.i, qp, qs);
  sym_assert((int)qp.size() == ng + 1 && qp[0] == 0 && qp[ng] == (int)qs.size(), "group DAG pointers are consistent");
  int q[64 * 64], w[64 * 64], ok = 1; for (int k = 0; k < ng * ng; k++) q[k] = w[k] = 0;
  for (int g = 0; g < ng; g++) for (int k = qp[g]; k < qp[g + 1]; k++) { int c = qs[k]; sym_assert(c >= 0 && c < ng, "group DAG children are in range"); if (k > qp[g]) ok &= qs[k - 1] < c; q[g * ng + c] = 1; }
  for (int u = 0; u < n; u++) for (int k = d.p[u]; k < d.p[u + 1]; k++) w[g_of[u] * ng + g_of[d.i[k]]] = 1;
  sym_assert(ok, "group DAG children are sorted and distinct"); sym_assert(same_ints(q, w, ng * ng), "the group DAG has exactly the edges between groups"); sym_cover("end");
}
// partial sparsification keeps exactly the reachability of the DAG
ENTRY(h_sparsify) {
  Dag d = in_dag(sym_param("N", 4)); int n = d.n; VI P, S; int clique = sym_conc(sym_int("clique", 0, 1));
  HDAGG::partialSparsification(n, d.nnz, d.p, d.i, P, S, clique);
  sym_assert((int)P.size() == n + 1 && P[0] == 0 && P[n] == (int)S.size(), "pruned DAG pointers are consistent");
  int e[64 * 64], f[64 * 64], o[64 * 64]; adj_of(d, e); for (int k = 0; k < n * n; k++) f[k] = 0; int ok = 1, sub = 1;
  for (int u = 0; u < n; u++) {
    sym_assert(P[u] < P[u + 1], "every pruned column keeps its diagonal"); ok &= S[P[u]] == u;
    for (int k = P[u] + 1; k < P[u + 1]; k++) { int v = S[k]; sym_assert((v > u) & (v < n), "pruned children are later nodes"); ok &= S[k - 1] < v; f[u * n + v] = 1; sub &= e[u * n + v]; }
  }
  sym_assert(ok, "pruned columns are sorted with the diagonal first"); sym_assert(sub, "pruning adds no dependence");
  int kept = (int)S.size() < d.nnz; closure_of(n, e); closure_of(n, f); (void)o;
  sym_assert(same_ints(e, f, n * n), "pruning keeps every transitive dependence");
  for (int k = 0; k < (int)S.size(); k++) sym_out(S[k]); if (kept) sym_cover("pruned"); sym_cover("end");
}
// whole grouped pipeline of the examples: prune, group, quotient, cost, HDAGG, ungroup
ENTRY(h_pipeline) {
  Dag d = in_dag(sym_param("N", 4)); int n = d.n, kind = sym_param("KIND", 0), ng = 0; VI P(d.p, d.p + n + 1), S(d.i, d.i + d.nnz), gp, gs, rp, ri; csr_of(d, rp, ri);
  if (sym_param("PRUNE", 1)) { P.clear(); S.clear(); HDAGG::partialSparsification(n, d.nnz, d.p, d.i, P, S, true); }
  VI P1 = P, S1 = S; do_group(kind, n, P, S, ng, gp, gs); VI qp, qs; HDAGG::buildGroupDAG(n, ng, gp.data(), gs.data(), P.data(), S.data(), qp, qs);
  std::vector<double> cost(ng, 0); HDAGG::costComputation(ng, d.p, d.i, rp.data(), ri.data(), HDAGG::SpTrSv_LL, gp.data(), gs.data(), true, cost);
  int cores = sym_conc(sym_int("cores", 1, sym_param("CORES", 2))), bp = sym_conc(sym_int("binPack", 0, 1)), post = sym_conc(sym_int("postOrder", 0, 1)), nl = 0; VI lp, pp, np;
  HDAGG::HDAGG(ng, qp[ng], qp, qs, cost, cores, nl, lp, pp, np, false, false, bp);
  HDAGG::ungroupingScheduleAndApplyOrdering(n, nl, lp, pp, np, gp, gs, P1.data(), S1.data(), !post, post);
  sym_assert((int)lp.size() >= nl + 1 && (int)pp.size() >= lp[nl] + 1 && (int)np.size() == n, "schedule arrays are large enough");
  check_schedule(d, nl, lp.data(), pp.data(), np.data());
  for (int k = 0; k < n; k++) sym_out(np[k]); if (ng < n) sym_cover("grouped"); if (nl > 1) sym_cover("several-levels"); sym_cover("end");
}
// any valid schedule on n nodes: non-decreasing level, partition inside a level
struct Sched { int nl; VI lp, pp, np; };
static Sched sym_schedule(const Dag &d, int maxL, int maxP) {
  int n = d.n; Sched s; s.nl = sym_conc(sym_int("nl", 1, maxL)); int lv[64], pt[64];
  for (int v = 0; v < n; v++) { lv[v] = sym_conc(sym_int(nm("lv", v), 0, s.nl - 1)); pt[v] = sym_conc(sym_int(nm("pt", v), 0, maxP - 1));
    if (sym_param("TPL", 0)) for (int u = 0; u < v; u++) for (int k = d.p[u] + 1; k < d.p[u + 1]; k++) if (d.i[k] == v) sym_assume((lv[u] < lv[v]) | ((lv[u] == lv[v]) & (pt[u] == pt[v]))); }   // cut early where the structure is concrete
  int ok = 1; for (int u = 0; u < n; u++) for (int k = d.p[u] + 1; k < d.p[u + 1]; k++) for (int v = u + 1; v < n; v++) ok &= (d.i[k] != v) | (lv[u] < lv[v]) | ((lv[u] == lv[v]) & (pt[u] == pt[v])); sym_assume(ok);
  s.lp.push_back(0); s.pp.push_back(0);
  for (int l = 0; l < s.nl; l++) { for (int p = 0; p < maxP; p++) { for (int v = 0; v < n; v++) if (lv[v] == l && pt[v] == p) s.np.push_back(v); s.pp.push_back((int)s.np.size()); } s.lp.push_back((int)s.pp.size() - 1); }
  return s;
}
ENTRY(h_final_dag) {
  Dag d = in_dag(sym_param("N", 3)); int n = d.n; Sched s = sym_schedule(d, sym_param("L", 2), sym_param("PARTS", 2)); int ng = 0, g_of[64]; VI gp, gs, qp, qs;
  if (sym_param("DIRTY", 0)) { gp.assign(2, 3); gs.assign(9, 1); qp.assign(1, 4); qs.assign(2, 2); }
  HDAGG::getFinalScheduleDAG(n, s.nl, s.lp.data(), s.pp.data(), s.np.data(), d.p, d.i, ng, gp, gs, qp, qs); check_groups(n, ng, gp, gs, g_of);
  // groups are exactly the non-empty w-partitions in order
  int g = 0, ok = 1; for (int j = 0; j < s.lp[s.nl]; j++) if (s.pp[j + 1] > s.pp[j]) { ok &= g < ng && gp[g] == s.pp[j]; g++; } sym_assert(ok && g == ng, "groups are the non-empty partitions in schedule order"); sym_assert(same_ints(gs.data(), s.np.data(), n), "group members keep the schedule order");
  int q[64 * 64], w[64 * 64]; for (int k = 0; k < ng * ng; k++) q[k] = w[k] = 0; for (int a = 0; a < ng; a++) for (int k = qp[a]; k < qp[a + 1]; k++) { int c = qs[k]; sym_assert(c >= 0 && c < ng, "children in range"); q[a * ng + c] = 1; }
  for (int u = 0; u < n; u++) for (int k = d.p[u]; k < d.p[u + 1]; k++) w[g_of[u] * ng + g_of[d.i[k]]] = 1; sym_assert(same_ints(q, w, ng * ng), "the final DAG has exactly the edges between partitions");
  ok = 1; for (int a = 0; a < ng; a++) for (int b = 0; b < a; b++) ok &= !q[a * ng + b]; sym_assert(ok, "the final DAG is topologically ordered"); sym_cover("end");
}
// 2D tiling: iterations are a permutation of the nonzeros, partition by partition, and respect the solve's dependences
ENTRY(h_twod) {
  Dag d = in_dag(sym_param("N", 3)); int n = d.n; Sched s = sym_schedule(d, sym_param("L", 2), sym_param("PARTS", 2)); VI rp, ri; csr_of(d, rp, ri); VI tp; std::vector<HDAGG::twoDIteration> it;
  HDAGG::twoDReordering(n, d.nnz, rp.data(), ri.data(), s.nl, s.lp, s.pp, s.np, 4, tp, it); int np_ = s.lp[s.nl];
  sym_assert((int)tp.size() == np_ + 1 && tp[0] == 0 && tp[np_] == d.nnz && (int)it.size() == d.nnz, "tuple pointers cover every nonzero"); int pos[64 * 64], part[64]; for (int k = 0; k < n * n; k++) pos[k] = -1;
  for (int j = 0; j < np_; j++) for (int k = s.pp[j]; k < s.pp[j + 1]; k++) part[s.np[k]] = j;
  for (int j = 0; j < np_; j++) for (int k = tp[j]; k < tp[j + 1]; k++) {
    HDAGG::twoDIteration x = it[k]; sym_assert(x.i >= 0 && x.i < n && x.k >= rp[x.i] && x.k < rp[x.i + 1] && ri[x.k] == x.j, "an iteration names a stored nonzero"); sym_assert(part[x.i] == j, "an iteration stays in the partition of its row"); sym_assert(pos[x.i * n + x.j] == -1, "no nonzero is visited twice"); pos[x.i * n + x.j] = k; }
  for (int r = 0; r < n; r++) for (int k = rp[r]; k < rp[r + 1]; k++) { int c = ri[k]; sym_assert(pos[r * n + c] >= 0, "every nonzero is visited"); if (c != r) { sym_assert(pos[r * n + c] < pos[r * n + r], "a row is divided after all its updates"); if (part[c] == part[r]) sym_assert(pos[c * n + c] < pos[r * n + c], "an unknown is used only after it is final"); } }
  sym_cover("end");
}
// cost model: group cost = sum of node costs; node cost = nonzeros touched
ENTRY(h_cost) {
  Dag d = in_dag(sym_param("N", 3)); int n = d.n; VI rp, ri; csr_of(d, rp, ri); int kern = sym_param("KERNEL", 0), dirty = sym_conc(sym_int("dirty", 0, 1));
  std::vector<double> c1(n, dirty ? 5 : 0), c2; HDAGG::costComputation(n, d.p, d.i, rp.data(), ri.data(), (HDAGG::Kernel)kern, nullptr, nullptr, false, c1); sym_assert((int)c1.size() == n, "one cost per node");
  double ref[64]; for (int v = 0; v < n; v++) { ref[v] = 0;
    if (kern == HDAGG::SpTrSv_LL) ref[v] = rp[v + 1] - rp[v]; else if (kern == HDAGG::SpTrSv_RL) ref[v] = d.p[v + 1] - d.p[v];
    else if (kern == HDAGG::SpICh0_LL) for (int k = rp[v]; k < rp[v + 1]; k++) ref[v] += d.p[ri[k] + 1] - d.p[ri[k]];
    else if (kern == HDAGG::SpICh0_RL) for (int k = d.p[v]; k < d.p[v + 1]; k++) ref[v] += d.p[d.i[k] + 1] - d.p[d.i[k]];
    else for (int k = rp[v]; k < rp[v + 1]; k++) ref[v] += rp[ri[k] + 1] - rp[ri[k]]; }
  for (int v = 0; v < n; v++) sym_assert(c1[v] == ref[v], "node cost is the number of nonzeros touched");
  int ng = sym_conc(sym_int("ng", 1, n)); VI gp, gs; int go[64], cnt[64]; for (int g = 0; g < ng; g++) cnt[g] = 0; for (int v = 0; v < n; v++) { go[v] = sym_conc(sym_int(nm("group", v), 0, ng - 1)); cnt[go[v]]++; }
  for (int g = 0; g < ng; g++) { sym_assume(cnt[g] > 0); gp.push_back((int)gs.size()); for (int v = 0; v < n; v++) if (go[v] == g) gs.push_back(v); } gp.push_back(n);
  if (dirty) c2.assign(ng, 3); HDAGG::costComputation(ng, d.p, d.i, rp.data(), ri.data(), (HDAGG::Kernel)kern, gp.data(), gs.data(), true, c2); sym_assert((int)c2.size() == ng, "one cost per group");
  for (int g = 0; g < ng; g++) { double t = 0; for (int v = 0; v < n; v++) if (go[v] == g) t += ref[v]; sym_assert(c2[g] == t, "group cost is the sum of its nodes' costs"); } sym_cover("end");
}
// schedule of groups -> schedule of supernodes, when every group is a union of whole supernodes
ENTRY(h_cn_to_super) {
  int n = sym_param("N", 4), ns = 0, sp[64], sg[64]; sp[0] = 0; while (sp[ns] < n) { int w = sym_conc(sym_int(nm("width", ns), 1, n - sp[ns])); sp[ns + 1] = sp[ns] + w; ns++; }
  int ng = 0; VI gp, gs, gfirst; gp.push_back(0); // consecutive supernodes form groups
  for (int b = 0; b < ns; b++) { int nw = b == 0 ? 1 : sym_conc(sym_int(nm("newgroup", b), 0, 1)); if (nw) { if (b) gp.push_back((int)gs.size()); ng++; } sg[b] = ng - 1; for (int v = sp[b]; v < sp[b + 1]; v++) gs.push_back(v); } gp.push_back(n);
  int nl = sym_conc(sym_int("nl", 1, 2)); VI lp, pp, np; lp.push_back(0); pp.push_back(0); int lv[64]; for (int g = 0; g < ng; g++) { lv[g] = sym_conc(sym_int(nm("lv", g), 0, nl - 1)); }
  for (int l = 0; l < nl; l++) { for (int g = 0; g < ng; g++) if (lv[g] == l) { np.push_back(g); if (sym_conc(sym_int(nm("cut", g), 0, 1))) pp.push_back((int)np.size()); } if (pp.back() != (int)np.size()) pp.push_back((int)np.size()); lp.push_back((int)pp.size() - 1); }
  VI lp0 = lp, pp0 = pp, np0 = np; int *spb = copy_ints(sp, ns + 1); int nl1 = nl; HDAGG::convertCNScheduleToSuperNode(n, ns, gp.data(), gs.data(), spb, nl1, lp, pp, np);
  sym_assert(nl1 == nl && lp == lp0, "levels are unchanged"); sym_assert((int)pp.size() == (int)pp0.size() && (int)np.size() == ns && pp[lp[nl]] == ns, "every supernode is scheduled"); sym_assert(is_perm(np.data(), ns), "every supernode is scheduled exactly once");
  int ok = 1; for (int j = 0; j < lp[nl]; j++) { int q = pp[j]; for (int k = pp0[j]; k < pp0[j + 1]; k++) for (int b = 0; b < ns; b++) if (sg[b] == np0[k]) { ok &= q < pp[j + 1] && np[q] == b; q++; } ok &= q == pp[j + 1]; } sym_assert(ok, "a partition holds the supernodes of its groups in order"); sym_cover("end");
}
ENTRY(h_aggr_super) {
  Dag d = in_dag(sym_param("N", 3)); int n = d.n; Sched s = sym_schedule(d, sym_param("L", 2), sym_param("PARTS", 2)); VI gp, gs; for (int v = 0; v < n; v++) { gp.push_back(v); gs.push_back(v); } gp.push_back(n);
  double a = HDAGG::aggressiveSupernodeGrouping(n, gp.data(), gs.data(), d.p, d.i, s.nl, s.lp, s.pp, s.np); sym_assert(a >= 1 && a <= n, "the average supernode size is between 1 and n"); sym_cover("end");
}
// elimination tree (row-wise lower triangular pattern) and row patterns of the factor
static void ref_fill(int n, const int *e, int *L) { // e[c*n+r]: entry (r,c), c<r;  L = pattern of the Cholesky factor, same layout
  for (int k = 0; k < n * n; k++) L[k] = e[k];
  for (int c = 0; c < n; c++) for (int a = c + 1; a < n; a++) for (int b = a + 1; b < n; b++) L[a * n + b] |= L[c * n + a] & L[c * n + b];
}
ENTRY(h_hdagg_etree) {
  Dag d = in_dag(sym_param("N", 4)); int n = d.n; VI rp, ri, par; csr_of(d, rp, ri); int m = n; HDAGG::computeParents(m, rp.data(), ri.data(), par);
  int e[64 * 64], L[64 * 64], ref[64]; adj_of(d, e); ref_fill(n, e, L); for (int c = 0; c < n; c++) { ref[c] = -1; for (int r = n - 1; r > c; r--) ref[c] = L[c * n + r] ? r : ref[c]; }
  sym_assert((int)par.size() == n && same_ints(par.data(), ref, n), "parent = first off-diagonal row of the factor's column");
  sym_lib::CSR A(n, n, d.nnz); for (int k = 0; k <= n; k++) A.p[k] = rp[k]; for (int k = 0; k < d.nnz; k++) A.i[k] = ri[k];
  int ne = 0; VI tp(3, 1), ts(2, 1); HDAGG::buildETree(&A, ne, tp, ts); sym_assert((int)tp.size() == n + 1 && tp[0] == 0 && tp[n] == ne && (int)ts.size() == ne, "tree pointers are consistent");
  for (int v = 0; v < n; v++) { sym_assert(tp[v + 1] - tp[v] == (ref[v] >= 0 ? 2 : 1) && ts[tp[v]] == v, "a tree column holds its diagonal and its parent"); if (ref[v] >= 0) sym_assert(ts[tp[v] + 1] == ref[v], "a tree column points to the parent"); }
  for (int k = 0; k < n; k++) { int *s = new int[n]; std::vector<bool> w(n, false); if (n < 2) break; int top = HDAGG::computeNoneZeroPatternOfRowK(n, rp.data(), ri.data(), k, ref, s, w);
    sym_assert(top >= 0 && top < n && s[n - 1] == k, "the row pattern ends with the diagonal"); int in[64]; for (int v = 0; v < n; v++) in[v] = 0; for (int q = top; q < n; q++) { sym_assert(s[q] >= 0 && s[q] <= k, "row pattern entries are columns up to k"); sym_assert(!in[s[q]], "row pattern entries are distinct"); in[s[q]] = 1; }
    int ok = 1; for (int c = 0; c < k; c++) ok &= in[c] == L[c * n + k]; sym_assert(ok, "the row pattern is the factor's row"); for (int v = 0; v < n; v++) sym_assert(!w[v], "marks are cleared"); }
  sym_cover("end");
}
