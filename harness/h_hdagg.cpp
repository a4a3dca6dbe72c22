#include "dag.hpp"
#include <hdagg.h>
#include <lbc.h>
#include <def.h>
typedef std::vector<int> VI;
// the definition in hdagg.cpp takes vectors (the header declares a pointer overload that has no definition)
namespace HDAGG { void computePostOrderAndGroup(int n, const VI &DAG_ptr, const VI &DAG_set, int &ngroups, VI &groupPtr, VI &post_order, VI &group_DAG_ptr, VI &group_DAG_set); }
static Dag in_dag(int n) { return sym_dag(n, sym_param("DEG", 1 << 20)); }
static std::vector<double> in_cost(int n) { std::vector<double> c(n); for (int v = 0; v < n; v++) c[v] = !sym_param("CMAX", 2) ? v + 1 : sym_conc(sym_int(nm("cost", v), sym_param("CMIN", 1), sym_param("CMAX", 2))); return c; }
static void sched_out(const Dag &d, int nl, const VI &lp, const VI &pp, const VI &np) {
  sym_assert((int)lp.size() >= nl + 1 && nl >= 0, "level pointer has nl+1 entries");
  sym_assert((int)pp.size() >= lp[nl] + 1, "partition pointer covers every w-partition");
  sym_assert((int)np.size() >= d.n, "node list covers every node");
  check_schedule(d, nl, lp.data(), pp.data(), np.data());
  for (int l = 0; l <= nl; l++) sym_out(lp[l]);
  for (int j = 0; j <= lp[nl]; j++) sym_out(pp[j]);
  for (int k = 0; k < d.n; k++) sym_out(np[k]);
  int nonempty = 0; for (int j = 0; j < lp[nl]; j++) if (pp[j + 1] > pp[j]) nonempty++;
  if (nl > 1) sym_cover("several-levels");
  if (nonempty > nl) sym_cover("parallel-level");
  for (int j = 0; j < lp[nl]; j++) if (pp[j + 1] - pp[j] > 1) { sym_cover("coarsened-partition"); break; }
  sym_cover("end");
}
static void run_hdagg(int which) {
  Dag d = in_dag(sym_param("N", 4)); int n = d.n;
  VI p(d.p, d.p + n + 1), s(d.i, d.i + d.nnz); std::vector<double> cost = in_cost(n); VI p0 = p, s0 = s;
  int cores = sym_conc(sym_int("cores", 1, sym_param("CORES", 2)));
  int pls = sym_conc(sym_int("parallelLevelset", 0, sym_param("PLS", 0))), post = sym_conc(sym_int("postOrder", 0, 1)), bp = sym_conc(sym_int("binPack", 0, 1));
  int nl = 0; VI lp, pp, np;
  if (sym_param("DIRTY", 0)) { lp.assign(2, 7); pp.assign(3, 7); np.assign(1, 7); } // outputs that were used before
  VI wm = which ? HDAGG::GLC_V2(n, d.nnz, p, s, cost, cores, nl, lp, pp, np, pls, post, bp) : HDAGG::HDAGG(n, d.nnz, p, s, cost, cores, nl, lp, pp, np, pls, post, bp);
  sym_assert(same_ints(p.data(), p0.data(), n + 1) && same_ints(s.data(), s0.data(), d.nnz), "the input DAG is unchanged");
  sym_assert((int)wm.size() == nl + 1, "the merge vector has one entry per coarsened level plus one");
  int lev[64]; ref_levels(d, lev); int mx = 0; for (int v = 0; v < n; v++) mx = lev[v] > mx ? lev[v] : mx;
  int ok = wm[0] == 0 && wm[nl] == mx + 1; for (int l = 0; l < nl; l++) ok &= wm[l] < wm[l + 1];
  sym_assert(ok, "the merge vector cuts the wavefronts into consecutive non-empty ranges");
  if (bp) for (int l = 0; l < nl; l++) sym_assert(lp[l + 1] - lp[l] <= cores, "with bin packing no coarsened level has more partitions than cores");
  sched_out(d, nl, lp, pp, np);
}
ENTRY(h_hdagg) { run_hdagg(0); }
ENTRY(h_glc) { run_hdagg(1); }
// computeSchedule for any merge vector (no bin packing)
ENTRY(h_compute_schedule) {
  Dag d = in_dag(sym_param("N", 4)); int n = d.n; VI lp0(n + 1), ls0(n), n2l(n);
  int nl0 = HDAGG::build_levelSet_CSC(n, d.p, d.i, lp0.data(), ls0.data(), n2l.data());
  VI wm; wm.push_back(0); for (int l = 1; l < nl0; l++) if (sym_conc(sym_int(nm("cut", l), 0, 1))) wm.push_back(l); wm.push_back(nl0);
  int post = sym_conc(sym_int("postOrder", 0, 1)), nl = 0, cores = sym_conc(sym_int("cores", 1, sym_param("CORES", 2))); VI lp, pp, np; std::vector<VI> chunks(wm.size(), VI(1, 0));
  int serial = sym_conc(sym_int("serial", 0, 1));
  if (serial) { // arbitrary chunking: any non-decreasing distribution of the components over the cores that ends with all of them
    for (size_t w = 0; w + 1 < wm.size(); w++) {
      VI comp(n, -1); int cnt = 0; // number of connected components of this slice
      int par[64]; for (int v = 0; v < n; v++) par[v] = v;
      for (int it = 0; it < n; it++) for (int u = 0; u < n; u++) for (int k = d.p[u] + 1; k < d.p[u + 1]; k++) { int v = d.i[k]; int in = (n2l[u] >= wm[w]) & (n2l[u] < wm[w + 1]) & (n2l[v] >= wm[w]) & (n2l[v] < wm[w + 1]); int m = par[u] < par[v] ? par[u] : par[v]; if (in) { par[u] = m; par[v] = m; } }
      for (int v = 0; v < n; v++) cnt += (n2l[v] >= wm[w]) & (n2l[v] < wm[w + 1]) & (par[v] == v);
      cnt = sym_conc(cnt); VI ch(cores + 1, 0); for (int c = 1; c < cores; c++) ch[c] = sym_conc(sym_int(nm("chunk", (int)w, c), ch[c - 1], cnt)); ch[cores] = cnt; chunks[w] = ch;
    }
  }
  HDAGG::computeSchedule(cores, n, d.p, d.i, lp0.data(), ls0.data(), n2l.data(), wm, chunks, nl, lp, pp, np, serial, post);
  sym_assert(nl == (int)wm.size() - 1, "one coarsened level per range of the merge vector"); sched_out(d, nl, lp, pp, np);
}
// the coarsening wrapper: sparse graphs fall back to wavefronts, dense ones merge wavefronts
ENTRY(h_coarsen) {
  int dense = sym_param("DENSE", 0), n = sym_param("N", 4), cores = sym_conc(sym_int("cores", 1, 2)); Dag d;
  if (!dense) d = in_dag(n);
  else { // dense columns 0..dense-1 (nnz/n >= 10) with a symbolic part behind them
    int m = dense + n; Dag t = in_dag(n); d.n = m; d.p = ibuf(m + 1); d.i = ibuf(dense * (dense + 1) / 2 + dense * n + t.nnz); int q = 0;
    for (int j = 0; j < dense; j++) { d.p[j] = q; for (int r = j; r < dense; r++) d.i[q++] = r; int lk = sym_conc(sym_int(nm("link", j), 0, j < sym_param("LINKS", 1) ? 1 : 0)); if (lk) d.i[q++] = dense + (j % n); }
    for (int j = 0; j < n; j++) { d.p[dense + j] = q; for (int k = t.p[j]; k < t.p[j + 1]; k++) d.i[q++] = dense + t.i[k]; }
    d.p[m] = q; d.nnz = q; sym_assume(q / m >= 10); sym_cover("dense");
  }
  int nl = 0; VI lp, pp, np; HDAGG::build_coarsened_level_parallel(d.n, d.p, d.i, cores, nl, lp, pp, np); sched_out(d, nl, lp, pp, np);
}
// connected components of a slice of wavefronts
ENTRY(h_hdagg_cc) {
  Dag d = in_dag(sym_param("N", 4)); int n = d.n; VI lp0(n + 1), ls0(n), n2l(n);
  int nl0 = HDAGG::build_levelSet_CSC(n, d.p, d.i, lp0.data(), ls0.data(), n2l.data());
  int lb = sym_conc(sym_int("lb", 0, nl0 - 1)), ub = sym_conc(sym_int("ub", lb + 1, nl0)); VI nodes; for (int k = lp0[lb]; k < lp0[ub]; k++) nodes.push_back(ls0[k]);
  VI part(n, -1); sym_shared(part.data()); HDAGG::parallel_cc(n, d.p, d.i, lb, ub, n2l.data(), (int)nodes.size(), nodes.data(), part.data());
  int e[64 * 64]; adj_of(d, e); for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) { int in = (n2l[u] >= lb) & (n2l[u] < ub) & (n2l[v] >= lb) & (n2l[v] < ub); if (u < v) { e[u * n + v] &= in; e[v * n + u] = e[u * n + v]; } }
  for (int v = 0; v < n; v++) e[v * n + v] = 1; closure_of(n, e);
  int ok = 1; for (int u = 0; u < n; u++) for (int v = 0; v < u; v++) { int in = (n2l[u] >= lb) & (n2l[u] < ub) & (n2l[v] >= lb) & (n2l[v] < ub); ok &= !in | ((part[u] == part[v]) == e[u * n + v]); }
  sym_assert(ok, "two nodes of the slice get the same label exactly when they are connected inside it");
  ok = 1; for (int v = 0; v < n; v++) { int in = (n2l[v] >= lb) & (n2l[v] < ub); ok &= in ? (part[v] >= 0) & (part[v] < (int)nodes.size()) : part[v] == -1; }
  sym_assert(ok, "labels are in range and nodes outside the slice are untouched"); for (int v = 0; v < n; v++) sym_out(part[v]); if (ub - lb > 1) sym_cover("multi-level"); sym_cover("end");
}
// incremental component computation used by the greedy merge
ENTRY(h_compute_cc) {
  Dag d = in_dag(sym_param("N", 4)); int n = d.n; VI lp0(n + 1), ls0(n), n2l(n); std::vector<double> cost = in_cost(n);
  int nl0 = HDAGG::build_levelSet_CSC(n, d.p, d.i, lp0.data(), ls0.data(), n2l.data());
  int lb = sym_conc(sym_int("lb", 0, nl0 - 1)); VI part(n, -1); sym_shared(part.data()); int done = lb;
  for (int ub = lb + 1; ub <= nl0; ub++) {
    int cnt = 0; std::vector<double> pc(n, 0); double tot = 0;
    HDAGG::computeCC(lb, done, ub, n, d.p, d.i, lp0.data(), ls0.data(), n2l.data(), part, cnt, pc, cost, tot); done = ub;
    int e[64 * 64]; adj_of(d, e); int in[64]; for (int v = 0; v < n; v++) in[v] = (n2l[v] >= lb) & (n2l[v] < ub);
    for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++) { e[u * n + v] &= in[u] & in[v]; e[v * n + u] = e[u * n + v]; }
    for (int v = 0; v < n; v++) e[v * n + v] = 1; closure_of(n, e);
    int ok = 1; for (int u = 0; u < n; u++) for (int v = 0; v < u; v++) ok &= !(in[u] & in[v]) | ((part[u] == part[v]) == e[u * n + v]);
    sym_assert(ok, "incrementally computed labels equal the connected components of the slice");
    int roots = 0; double rt = 0, ps = 0; for (int v = 0; v < n; v++) { int first = in[v]; for (int u = 0; u < v; u++) first &= !(in[u] & e[u * n + v]); roots += first; rt += in[v] ? cost[v] : 0; ps += pc[v]; }
    sym_assert(roots == cnt, "part_cnt is the number of components"); sym_assert(rt == tot && ps == tot, "total and partition costs add up to the cost of the slice");
    // component costs appear in the order of their labels
    for (int c = 0; c < cnt; c++) sym_assert(pc[c] > 0, "every component has its own positive cost");
    if (ub - lb > 1) sym_cover("multi-level");
  }
  sym_cover("end");
}
ENTRY(h_postorder) {
  Dag d = in_dag(sym_param("N", 4)); int n = d.n; VI po; HDAGG::computePostOrder(n, d.p, d.i, po);
  sym_assert((int)po.size() == n && is_perm(po.data(), n), "the post order is a permutation"); VI inv(n); for (int k = 0; k < n; k++) inv[po[k]] = k;
  int ok = 1; for (int u = 0; u < n; u++) for (int k = d.p[u] + 1; k < d.p[u + 1]; k++) ok &= inv[u] < inv[d.i[k]];
  sym_assert(ok, "the post order is a topological order"); for (int k = 0; k < n; k++) sym_out(po[k]); sym_cover("end");
}
ENTRY(h_postorder_group) {
  Dag d = in_dag(sym_param("N", 4)); int n = d.n; VI P(d.p, d.p + n + 1), S(d.i, d.i + d.nnz), po, gp, gdp, gds; int ng = 0;
  HDAGG::computePostOrderAndGroup(n, P, S, ng, gp, po, gdp, gds);
  sym_assert((int)po.size() == n && is_perm(po.data(), n), "the post order is a permutation");
  sym_assert(ng >= 1 && ng <= n && (int)gp.size() >= ng + 1 && gp[0] == 0 && gp[ng] == n, "the groups cover the post order"); int g_of[64], pos[64];
  for (int g = 0; g < ng; g++) { sym_assert(gp[g] < gp[g + 1], "groups are not empty"); for (int k = gp[g]; k < gp[g + 1]; k++) { g_of[po[k]] = g; pos[po[k]] = k; } }
  sym_assert((int)gdp.size() == ng + 1 && gdp[0] == 0 && gdp[ng] == (int)gds.size(), "group DAG pointers are consistent");
  int e[64 * 64]; for (int k = 0; k < ng * ng; k++) e[k] = 0;
  for (int g = 0; g < ng; g++) for (int k = gdp[g]; k < gdp[g + 1]; k++) { int c = gds[k]; sym_assert(c >= 0 && c < ng, "group DAG children are in range"); sym_assert(c >= g, "the group DAG is lower triangular"); e[g * ng + c] = 1; }
  int ok = 1; for (int u = 0; u < n; u++) for (int k = d.p[u] + 1; k < d.p[u + 1]; k++) { int v = d.i[k]; ok &= (g_of[u] == g_of[v]) ? pos[u] < pos[v] : e[g_of[u] * ng + g_of[v]]; }
  sym_assert(ok, "every dependence lies inside a group in order or is an edge of the group DAG"); if (ng < n) sym_cover("grouped"); sym_cover("end");
}
