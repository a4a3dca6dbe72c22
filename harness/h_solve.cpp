// The whole path: matrix in compressed columns -> rows -> inspector -> executor, for arbitrary values and right-hand sides.
#include "dag.hpp"
#include <algorithm>
#include <def.h>
#include <hdagg.h>
#include <lbc.h>
#include <aggregation/group.h>
#include <aggregation/group_utils.h>
#include <sparse_inspector.h>
#include <sparse_utilities.h>
#include <metis_interface.h>
#include "sptrsv.h"
#include "executor.h"
using namespace sym_lib;
typedef std::vector<int> VI;
static CSC *in_lower(int n) {
  Dag d = sym_dag(n, sym_param("DEG", 1 << 20)); CSC *A = new CSC(n, n, d.nnz); for (int k = 0; k <= n; k++) A->p[k] = d.p[k];
  for (int k = 0; k < d.nnz; k++) { A->i[k] = d.i[k]; A->x[k] = sym_real(nm("L", k)); } A->stype = -1; free_dag(d); return A;
}
// the demos' fill-reducing reordering; M[r*n+c] describes the lower half of P A P'
struct Den { char on[64]; double x[64]; };
static CSC *reordered(CSC *L, Den &M) {
  int n = L->n; double full[64]; char on[64]; for (int k = 0; k < n * n; k++) on[k] = M.on[k] = 0;
  for (int c = 0; c < n; c++) for (int k = L->p[c]; k < L->p[c + 1]; k++) { int r = sym_conc(L->i[k]); on[r * n + c] = on[c * n + r] = 1; full[r * n + c] = full[c * n + r] = L->x[k]; }
  int *perm = nullptr; CSC *F = make_full(L); metis_perm_general(F, perm); CSC *H = make_half(F->n, F->p, F->i, F->x), *T = transpose_symmetric(H, perm), *O = transpose_symmetric(T, NULLPNTR);
  int q[8]; for (int v = 0; v < n; v++) q[v] = sym_conc(perm[v]); sym_assert(is_perm(q, n), "the ordering is a permutation");
  for (int r = 0; r < n; r++) for (int c = 0; c <= r; c++) if (on[q[r] * n + q[c]]) { M.on[r * n + c] = 1; M.x[r * n + c] = full[q[r] * n + q[c]]; }
  delete L; delete F; delete H; delete T; delete[] perm; return O;
}
static double *dense_solve(int n, const Den &M, const double *b) { double *x = dbuf(n); for (int v = 0; v < n; v++) { double a = b[v]; for (int c = 0; c < v; c++) if (M.on[v * n + c]) a -= M.x[v * n + c] * x[c]; x[v] = a / M.x[v * n + v]; } return x; }
// forward substitution on the columns
static double *column_solve(CSC *A, const double *b) {
  int n = A->n; double *x = dbuf(n);
  for (int v = 0; v < n; v++) { double a = b[v]; for (int c = 0; c < v; c++) for (int k = A->p[c] + 1; k < A->p[c + 1]; k++) if (sym_conc(A->i[k]) == v) a -= A->x[k] * x[c]; x[v] = a / A->x[A->p[v]]; } return x;
}
struct Groups { int ng, *gp, *gs, *gi, *p, *i; };
static Groups grouped(CSR *R, int n, int kind) {
  Groups g; g.gp = ibuf(n + 1); g.gs = ibuf(n); g.gi = ibuf(n); g.ng = 0; { group h(n, R->p, R->i); if (kind) h.inspection_sptrsvcsr_v2(g.gp, g.gs, g.ng, g.gi); else h.inspection_sptrsvcsr_v1(g.gp, g.gs, g.ng, g.gi); }
  std::vector<VI> D(g.ng); fs_csr_inspector_dep(g.ng, g.gp, g.gs, g.gi, R->p, R->i, D); int e = g.ng; for (auto &v : D) { v.erase(std::unique(v.begin(), v.end()), v.end()); e += (int)v.size(); } g.p = ibuf(g.ng + 1); g.i = ibuf(e); e = 0;
  for (int k = 0; k < g.ng; k++) { g.p[k] = e; g.i[e++] = k; for (int c : D[k]) g.i[e++] = c; } g.p[g.ng] = e; return g;
}
ENTRY(h_solve) {
  int n = sym_param("N", 4), kind = sym_param("KIND", 0), sorted = sym_param("SORTED", 0); CSC *A = in_lower(n); Den M; int re = sym_param("REORDER", 0); if (re) A = reordered(A, M);
  CSR *R = csc_to_csr(A); double *b = dbuf(n), *want; for (int v = 0; v < n; v++) b[v] = sym_real(nm("b", v)); want = re ? dense_solve(n, M, b) : column_solve(A, b);
  int ic = sym_conc(sym_int("innerParts", 1, sym_param("IC", 2))), cp = sym_conc(sym_int("minLevelDist", 1, sym_param("CP", 2))), dr = sym_conc(sym_int("divRate", 1, sym_param("DR", 1))), nl = 0, np = 0, *lp = nullptr, *pp = nullptr, *nd = nullptr;
  double *cost = dbuf(n); for (int v = 0; v < n; v++) cost[v] = R->p[v + 1] - R->p[v];
  if (kind < 5) {
    int bp = kind == 0 || kind == 2 ? sym_conc(sym_int("binpack", 0, 1)) : 0;
    if (kind == 0) get_coarse_levelSet_DAG_CSC(n, A->p, A->i, nl, lp, np, pp, nd, ic, cp, dr, cost, bp); else if (kind == 1) get_coarse_Level_set_DAG_CSC03(n, A->p, A->i, nl, lp, np, pp, nd, ic, cp, dr, cost);
    else if (kind == 2) get_coarse_Level_set_DAG_CSC03_parallel(n, A->p, A->i, nl, lp, np, pp, nd, ic, cp, dr, cost, 1, bp); else get_coarse_levelSet_DAG_CSC_tree(n, A->p, A->i, -1, nl, lp, np, pp, nd, ic, cp, dr, cost);
    if (sorted) for (int j = 0; j < lp[nl]; j++) std::sort(nd + pp[j], nd + pp[j + 1]);   // as the w-sorting demo does
    if (kind == 4) sptrsv_csr_lbc_seq(n, R->p, R->i, R->x, b, nl, lp, pp, nd); else sptrsv_csr_lbc(n, R->p, R->i, R->x, b, nl, lp, pp, nd);
    if (lp[nl] > nl) sym_cover("parallel-level");
  } else if (kind < 8) {
    if (kind != 5) { lp = ibuf(n + 1); nd = ibuf(n); } nl = kind == 5 ? build_levelSet_CSC(n, A->p, A->i, lp, nd) : buildLevelSet_CSC_Queue(n, A->nnz, A->p, A->i, lp, nd);
    if (kind == 7) sptrsv_csr_levelset_seq(n, R->p, R->i, R->x, b, nl, lp, nd); else if (sorted) sptrsv_csr_levelset(n, R->p, R->i, R->x, nl, lp, nd, b); else sptrsv_csr_levelset(n, R->p, R->i, R->x, b, nl, lp, nd);
    if (nl < n) sym_cover("parallel-level");
  } else if (kind < 10) {
    VI P(A->p, A->p + n + 1), S(A->i, A->i + A->nnz), l, q, k; std::vector<double> c(cost, cost + n); int cores = ic, post = sym_conc(sym_int("postOrder", 0, 1)), bp = sym_conc(sym_int("binPack", 0, 1));
    if (kind == 8) HDAGG::HDAGG(n, A->nnz, P, S, c, cores, nl, l, q, k, false, post, bp); else HDAGG::GLC_V2(n, A->nnz, P, S, c, cores, nl, l, q, k, false, post, bp);
    sptrsv_csr_lbc(n, R->p, R->i, R->x, b, nl, l.data(), q.data(), k.data()); if (l[nl] > nl) sym_cover("parallel-level");
  } else {
    Groups g = grouped(R, n, kind & 1); if (kind < 14) { lp = ibuf(n + 1); nd = ibuf(n); }
    if (kind < 12) { nl = buildLevelSet_CSC_Queue(g.ng, 0, g.p, g.i, lp, nd); sptrsv_csr_group_levelset(R->p, R->i, R->x, b, nl, lp, nd, g.gp, g.gs); }
    else if (kind < 14) { nl = buildLevelSet_CSC_Queue(g.ng, 0, g.p, g.i, lp, nd); sym_assert(fs_csr_executor_sgroup(n, R->p, R->i, R->x, b, b, g.gp, g.gs, g.ng, nl, lp, nd) == 1, "grouped executor reports success"); }
    else { double *gc = dbuf(g.ng); for (int k = 0; k < g.ng; k++) for (int j = g.gp[k]; j < g.gp[k + 1]; j++) gc[k] += cost[g.gs[j]];
      get_coarse_Level_set_DAG_CSC03(g.ng, g.p, g.i, nl, lp, np, pp, nd, ic, cp, dr, gc); sptrsv_csr_group_lbc(n, R->p, R->i, R->x, b, nl, lp, pp, nd, g.gp, g.gs); }
    if (g.ng < n) sym_cover("parallel-level");
  }
  for (int v = 0; v < n; v++) sym_assert(sym_feq(b[v], want[v]), "the scheduled solve gives the solution of forward substitution");
  sym_cover("end");
}
