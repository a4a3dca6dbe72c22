// Row grouping for the triangular solve and the incomplete Cholesky, and the DAGs of groups.
#include "dag.hpp"
#include <aggregation/group.h>
#include <aggregation/group_utils.h>
typedef std::vector<int> VI; typedef std::vector<VI> VVI;
struct Rows { int n, nnz; int *p, *i; };
static Rows rows_of(const Dag &d, const int *e) {   // rows with the diagonal last
  int n = d.n; Rows r; r.n = n; r.nnz = d.nnz; r.p = ibuf(n + 1); r.i = ibuf(d.nnz); int t = 0;
  for (int v = 0; v < n; v++) { r.p[v] = t; for (int c = 0; c < v; c++) if (e[c * n + v]) r.i[t++] = c; r.i[t++] = v; } r.p[n] = t; return r;
}
static void check_partition(int n, int ng, const int *gp, const int *gs, const int *gi) {
  sym_assert(ng >= 1 && ng <= n, "the number of groups is between 1 and n"); sym_assert(gp[0] == 0 && gp[ng] == n, "group pointers cover all rows"); sym_assert(is_perm(gs, n), "every row is in exactly one group");
  int ok = 1; for (int g = 0; g < ng; g++) { sym_assert(gp[g] < gp[g + 1], "groups are not empty"); for (int k = gp[g]; k < gp[g + 1]; k++) ok &= gi[gs[k]] == g; } sym_assert(ok, "the inverse map names the group of every row");
}
// no cycle between groups, and inside a group every row comes after the rows it depends on
static void check_order(int n, const int *e, int ng, const int *gp, const int *gs, const int *gi) {
  int q[64 * 64], pos[64], ok = 1; for (int k = 0; k < ng * ng; k++) q[k] = 0; for (int k = 0; k < n; k++) pos[gs[k]] = k;
  for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++) if (e[u * n + v]) { if (gi[u] == gi[v]) ok &= pos[u] < pos[v]; else q[gi[u] * ng + gi[v]] = 1; }
  sym_assert(ok, "inside a group every row comes after the rows it depends on");
  closure_of(ng, q); ok = 1; for (int g = 0; g < ng; g++) ok &= !q[g * ng + g]; sym_assert(ok, "the groups have no cyclic dependence");
}
ENTRY(h_row_groups) {
  Dag d = sym_dag(sym_param("N", 4), sym_param("DEG", 1 << 20)); int n = d.n, kind = sym_param("KIND", 0), e[64 * 64]; adj_of(d, e); Rows r = rows_of(d, e);
  int *gp = ibuf(n + 1), *gs = ibuf(n), *gi = ibuf(n), ng = -1; int *P0 = copy_ints(kind < 2 ? r.p : d.p, n + 1), *I0 = copy_ints(kind < 2 ? r.i : d.i, d.nnz);
  int *P = kind < 2 ? r.p : d.p, *I = kind < 2 ? r.i : d.i;
  { sym_lib::group g(n, P, I);
    if (kind == 0) g.inspection_sptrsvcsr_v1(gp, gs, ng, gi); else if (kind == 1) g.inspection_sptrsvcsr_v2(gp, gs, ng, gi);
    else if (kind == 2) g.inspection_spicocsc_v1(gp, gs, ng, gi); else g.inspection_spicocsc_v2(gp, gs, ng, gi); }
  check_partition(n, ng, gp, gs, gi); check_order(n, e, ng, gp, gs, gi);
  sym_assert(same_ints(P, P0, n + 1) && same_ints(I, I0, d.nnz), "the matrix is unchanged");
  if (kind < 3) {   // maximal runs of consecutive rows, each depending on the previous one the way the variant looks at it
    int ok = 1; for (int v = 0; v < n; v++) ok &= gs[v] == v; sym_assert(ok, "groups are runs of consecutive rows");
    ok = 1; for (int v = 1; v < n; v++) { int dep = e[(v - 1) * n + v]; ok &= (gi[v] == gi[v - 1]) == dep; }
    sym_assert(ok, "a row joins the group of the previous row exactly when it depends on it");
  }
  for (int k = 0; k < n; k++) sym_out(gs[k]); for (int k = 0; k <= ng; k++) sym_out(gp[k]);
  if (ng < n) sym_cover("grouped"); sym_cover("end"); delete[] gp; delete[] gs; delete[] gi; delete[] P0; delete[] I0; delete[] r.p; delete[] r.i; free_dag(d);
}
ENTRY(h_naive_groups) {
  int n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 6))), b = sym_conc(sym_int("block", 1, n + 1)), *gp = ibuf(n + 1), *gs = ibuf(n), *gi = ibuf(n), ng = -1; int P[2] = {0, 1}, I[1] = {0};
  { sym_lib::group g(1, P, I); g.NaiveGrouping(n, gp, gs, ng, gi, b); }
  check_partition(n, ng, gp, gs, gi); int ok = ng == (n + b - 1) / b; for (int v = 0; v < n; v++) ok &= gs[v] == v && gi[v] == v / b; sym_assert(ok, "groups are consecutive blocks of the requested size"); sym_cover("end"); delete[] gp; delete[] gs; delete[] gi;
}
// DAGs of groups, for any partition of the rows into groups
ENTRY(h_group_dags) {
  Dag d = sym_dag(sym_param("N", 4)); int n = d.n, ng = sym_param("NG", 2), e[64 * 64], gi[64], w[64 * 64], ok; adj_of(d, e); Rows r = rows_of(d, e); int *gp = ibuf(ng + 1), *gs = ibuf(n), t = 0;
  for (int v = 0; v < n; v++) gi[v] = sym_conc(sym_int(nm("group", v), 0, ng - 1));
  for (int g = 0; g < ng; g++) { gp[g] = t; for (int v = 0; v < n; v++) if (gi[v] == g) gs[t++] = v; sym_assume(t > gp[g]); } gp[ng] = n;
  int *G = copy_ints(gi, n); for (int k = 0; k < ng * ng; k++) w[k] = 0; for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++) if (e[u * n + v] && gi[u] != gi[v]) w[gi[u] * ng + gi[v]]++;
  VVI A(n), B(ng), C(ng); sym_lib::fs_csr_inspector_dep(n, r.p, r.i, A); sym_assert((int)A.size() == n, "one list per row");
  ok = 1; for (int u = 0; u < n; u++) { int cnt = 0; for (int v = u + 1; v < n; v++) cnt += e[u * n + v]; ok &= (int)A[u].size() == cnt; for (int k = 0; k < (int)A[u].size(); k++) { int v = A[u][k]; sym_assert(v >= 0 && v < n, "children are in range"); ok &= e[u * n + v] && v > u && (k == 0 || A[u][k - 1] < v); } }
  sym_assert(ok, "the row DAG has exactly the dependences of the rows, each once, in order");
  sym_lib::fs_csr_inspector_dep(ng, gp, gs, G, r.p, r.i, B); sym_lib::fs_ic0csc_inspector_group(ng, gp, gs, G, d.p, d.i, C); VVI D = sym_lib::Group_DAG(A, gp, gs, G, ng);
  sym_assert((int)B.size() == ng && (int)C.size() == ng && (int)D.size() == ng, "one list per group");
  for (int which = 0; which < 3; which++) { VVI &X = which == 0 ? B : which == 1 ? C : D; ok = 1;
    for (int a = 0; a < ng; a++) { int c[64]; for (int b = 0; b < ng; b++) c[b] = 0;
      for (int k = 0; k < (int)X[a].size(); k++) { int b = X[a][k]; sym_assert(b >= 0 && b < ng, "children are in range"); c[b]++; if (which == 2) ok &= k == 0 || X[a][k - 1] < b; }
      for (int b = 0; b < ng; b++) ok &= which == 2 ? c[b] == (w[a * ng + b] > 0) : (c[b] > 0) == (w[a * ng + b] > 0); }
    sym_assert(ok, which == 0 ? "the group DAG of the solve has exactly the dependences between groups" : which == 1 ? "the group DAG of the factorization has exactly the dependences between groups" : "the quotient DAG has each dependence between groups once, in order"); }
  sym_cover("end"); delete[] gp; delete[] gs; delete[] G; delete[] r.p; delete[] r.i; free_dag(d);
}
