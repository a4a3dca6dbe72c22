// Executors: running any valid schedule gives exactly the result of the serial solve, without data races.
#include "dag.hpp"
#include "aggregation/def.h"
#include "sptrsv.h"
#include "executor.h"
using namespace sym_lib;
struct Sched { int n, nl, np, *lp, *pp, *nd; int lev[16], par[16], pos[16]; };
// any order of the nodes cut anywhere into w-partitions and levels (optionally with an empty w-partition)
static Sched any_schedule(int n, int empties, int oneNodeParts) {
  Sched s; s.n = n; s.nd = ibuf(n); int lp[40], pp[40], nl = 1, np = 1; lp[0] = 0; pp[0] = 0; int used[16]; for (int v = 0; v < n; v++) used[v] = 0;
  for (int k = 0; k < n; k++) {
    int r = sym_conc(sym_int(nm("pick", k), 0, n - 1 - k)), v = 0; for (;; v++) if (!used[v] && r-- == 0) break; used[v] = 1; s.nd[k] = v;
    if (k) { int c = oneNodeParts ? 1 + sym_conc(sym_int(nm("cut", k), 0, 1)) : sym_conc(sym_int(nm("cut", k), 0, empties ? 3 : 2));
      if (c == 3) { pp[np++] = k; pp[np++] = k; } if (c == 1 || c == 2) { if (c == 2) lp[nl++] = np; pp[np++] = k; } }
    s.lev[v] = nl - 1; s.par[v] = np - 1; s.pos[v] = k;
  }
  lp[nl] = np; pp[np] = n; s.nl = nl; s.np = np; s.lp = copy_ints(lp, nl + 1); s.pp = copy_ints(pp, np + 1); return s;
}
static int runs_before(const Sched &s, int u, int v) { return s.lev[u] < s.lev[v] || (s.par[u] == s.par[v] && s.pos[u] < s.pos[v]); }
// CSR rows of a lower triangular matrix whose dependences the schedule respects; values are arbitrary doubles
struct Tri { int n, nnz, *p, *i; double *x; };
template <class F> static Tri tri_for(int n, F before) {
  Tri t; t.n = n; int p[20], ix[200], k = 0;
  for (int v = 0; v < n; v++) { p[v] = k; for (int u = 0; u < v; u++) if (before(u, v) && sym_conc(sym_int(nm("a", v, u), 0, 1))) ix[k++] = u; ix[k++] = v; }
  p[n] = k; t.nnz = k; t.p = copy_ints(p, n + 1); t.i = copy_ints(ix, k); t.x = dbuf(k); for (int q = 0; q < k; q++) t.x[q] = sym_real(nm("L", q)); return t;
}
static double *rhs(int n) { double *x = dbuf(n); for (int v = 0; v < n; v++) x[v] = sym_real(nm("b", v)); return x; }
static double *ref_solve(const Tri &t, const double *b) { double *x = dbuf(t.n); for (int v = 0; v < t.n; v++) { double a = b[v]; for (int k = t.p[v]; k < t.p[v + 1] - 1; k++) a -= t.x[k] * x[t.i[k]]; x[v] = a / t.x[t.p[v + 1] - 1]; } return x; }
static void same_x(const double *a, const double *b, int n, const char *m) { for (int v = 0; v < n; v++) sym_assert(sym_feq(a[v], b[v]), m); }

ENTRY(h_sptrsv_lbc) {
  int n = sym_param("N", 3), kind = sym_param("KIND", 0); Sched s = any_schedule(n, sym_param("EMPTY", 0), 0);
  Tri t = tri_for(n, [&](int u, int v) { return runs_before(s, u, v); }); double *b = rhs(n), *r = ref_solve(t, b);
  if (kind == 0) sptrsv_csr(n, t.p, t.i, t.x, b); else if (kind == 1) sptrsv_csr_lbc_seq(n, t.p, t.i, t.x, b, s.nl, s.lp, s.pp, s.nd); else sptrsv_csr_lbc(n, t.p, t.i, t.x, b, s.nl, s.lp, s.pp, s.nd);
  same_x(b, r, n, "schedule-driven solve equals the serial solve"); if (s.nl > 1 && s.np > s.nl) sym_cover("parallel-level"); sym_cover("end");
}
ENTRY(h_sptrsv_levelset) {
  int n = sym_param("N", 3), kind = sym_param("KIND", 0); Sched s = any_schedule(n, 0, 1);
  Tri t = tri_for(n, [&](int u, int v) { return s.lev[u] < s.lev[v]; }); double *b = rhs(n), *r = ref_solve(t, b);
  if (kind == 0) sptrsv_csr_levelset_seq(n, t.p, t.i, t.x, b, s.nl, s.lp, s.nd); else if (kind == 1) sptrsv_csr_levelset(n, t.p, t.i, t.x, b, s.nl, s.lp, s.nd); else sptrsv_csr_levelset(n, t.p, t.i, t.x, s.nl, s.lp, s.nd, b);
  same_x(b, r, n, "level-set solve equals the serial solve"); if (s.nl > 1 && s.nl < n) sym_cover("parallel-level"); sym_cover("end");
}
// grouped executors: nodes -> groups -> (w-partitions ->) levels
ENTRY(h_sptrsv_group) {
  int n = sym_param("N", 3), kind = sym_param("KIND", 0); int used[16]; for (int v = 0; v < n; v++) used[v] = 0;
  int *gs = ibuf(n), gpt[20], ng = 1, gof[16], gpos[16]; gpt[0] = 0;
  for (int k = 0; k < n; k++) { int r = sym_conc(sym_int(nm("gpick", k), 0, n - 1 - k)), v = 0; for (;; v++) if (!used[v] && r-- == 0) break; used[v] = 1; gs[k] = v; if (k && sym_conc(sym_int(nm("gcut", k), 0, 1))) gpt[ng++] = k; gof[v] = ng - 1; gpos[v] = k; }
  gpt[ng] = n; int *gp = copy_ints(gpt, ng + 1); Sched s = any_schedule(ng, 0, kind != 0);
  Tri t = tri_for(n, [&](int u, int v) { int a = gof[u], b = gof[v]; return a == b ? gpos[u] < gpos[v] : (kind == 0 ? runs_before(s, a, b) : s.lev[a] < s.lev[b]); }); double *b = rhs(n), *r = ref_solve(t, b);
  if (kind == 0) sptrsv_csr_group_lbc(n, t.p, t.i, t.x, b, s.nl, s.lp, s.pp, s.nd, gp, gs); else if (kind == 1) sptrsv_csr_group_levelset(t.p, t.i, t.x, b, s.nl, s.lp, s.nd, gp, gs);
  else sym_assert(fs_csr_executor_sgroup(n, t.p, t.i, t.x, b, b, gp, gs, ng, s.nl, s.lp, s.nd) == 1, "grouped executor reports success");
  same_x(b, r, n, "grouped solve equals the serial solve"); if (ng < n && s.nl > 1) sym_cover("grouped"); sym_cover("end");
}
ENTRY(h_sptrsv_stat) {
  int n = sym_param("N", 3), kind = sym_param("KIND", 0); Sched s = any_schedule(n, 0, kind == 2); int *lc = ibuf(s.nl), *gp = ibuf(n + 1), *gs = ibuf(n); for (int v = 0; v <= n; v++) gp[v] = v; for (int v = 0; v < n; v++) gs[v] = v, lc[0] = -1;
  Tri t = tri_for(n, [&](int u, int v) { return runs_before(s, u, v); });
  if (kind == 0) sptrsv_csr_lbc_stat(n, t.p, t.i, s.nl, s.lp, s.pp, s.nd, lc); else if (kind == 1) sptrsv_csr_group_lbc_stat(n, t.p, t.i, s.nl, s.lp, s.pp, s.nd, gp, gs, lc); else fs_csr_levelset_stat(t.p, t.i, gp, gs, s.nl, s.lp, s.nd, lc);
  for (int l = 0; l < s.nl; l++) sym_assert(lc[l] == 0, "one thread: no imbalance"); sym_cover("end");
}
ENTRY(h_fs_stat) {
  int n = sym_param("N", 3); Tri t = tri_for(n, [](int u, int v) { return true; }); int fl, ac, re, e = t.nnz - n, ru = 0; fs_csr_stat(n, t.p, t.i, fl, ac, re);
  for (int v = 1; v < n; v++) for (int k = t.p[v]; k < t.p[v + 1] - 1; k++) ru += t.i[k] == v - 1;
  sym_assert(fl == 2 * e + n && ac == 3 * e + 2 * n && re == ru, "operation counts of the triangular solve"); sym_cover("end");
}
