// Symbolic lower-triangular matrices / DAGs and the schedule oracle.
#pragma once
#include "sym.h"
#include <cstdio>
#include <vector>

// exact-size heap buffers, so that any out-of-bounds access is visible
static inline int *ibuf(int n) { return new int[n > 0 ? n : 0](); }
static inline double *dbuf(int n) { return new double[n > 0 ? n : 0](); }

struct Dag { int n; int *p; int *i; int nnz; };

// Larger inputs: a fixed skeleton (TPL) plus any EXTRA further edges (or fewer), chosen by the solver.
static int tpl_wid = 3;
static int tpl_of() { // TPL >= 100: the solver picks the skeleton and its width
  int t = sym_param("TPL", 0); tpl_wid = sym_param("WID", 3); if (t < 100) return t;
  t = sym_conc(sym_int("tpl", t == 101 ? 2 : 1, 14)); if (t == 4 || t == 5 || t == 6 || (t >= 9 && t <= 12)) tpl_wid = sym_conc(sym_int("wid", 2, sym_param("WID", 3))); if (sym_param("TPL", 0) == 101) sym_assume(t != 9); return t;
}
static int tpl_edge(int tpl, int w, int n, int u, int v) { // u < v
  switch (tpl) {
  case 1: return v == u + 1;                                      // chain
  case 2: return v == n - 1;                                      // arrow: all to the last
  case 3: return u == 0;                                          // star: the first to all
  case 4: return v == u + w;                                      // w parallel chains
  case 5: return u / w + 1 == v / w && (u % w == v % w || (u + 1) % w == v % w);   // layers of width w, two successors each
  case 6: return u / w + 1 == v / w;                              // layers of width w, complete between layers
  case 7: return n - 1 - u > 0 && v == n - 1 - (n - 2 - u) / 2;   // binary in-tree
  case 8: return v > 0 && u == (v - 1) / 2;                       // binary out-tree
  case 9: return v <= u + w;                                      // band of width w
  case 10: return u / w == v / w;                                 // dense diagonal blocks (cliques of w)
  case 11: return (u / w == v / w) || v == u + w;                 // chained cliques
  case 12: return (v == u + 1 && v % w) || v == u + w;            // grid with w columns
  case 13: return u < n / 2 ? v == u + 1 : u == n / 2;            // chain that ends in a fan
  case 14: return u % 2 == v % 2 && (u % 2 ? v == u + 2 : u == 0); // a chain next to a star
  default: return 0;
  }
}
static Dag tpl_dag(int n, int tpl) {
  int w = tpl_wid, ex = sym_param("EXTRA", 1), tot = n * (n - 1) / 2, prev = 0; char *on = new char[n * n](); 
  for (int v = 0; v < n; v++) for (int u = 0; u < v; u++) on[u * n + v] = tpl_edge(tpl, w, n, u, v);
  for (int k = 0; k < ex; k++) { int e = sym_conc(sym_int(nm("extra", k), prev, tot)); prev = e; if (e == tot) continue; int u = 0, r = e; while (r >= n - 1 - u) { r -= n - 1 - u; u++; } on[u * n + (u + 1 + r)] ^= 1; }   // toggles an edge
  Dag d; d.n = n; d.p = ibuf(n + 1); int t = 0; for (int u = 0; u < n; u++) { d.p[u] = t; t++; for (int v = u + 1; v < n; v++) t += on[u * n + v]; } d.p[n] = t; d.nnz = t; d.i = ibuf(t); t = 0;
  for (int u = 0; u < n; u++) { d.i[t++] = u; for (int v = u + 1; v < n; v++) if (on[u * n + v]) d.i[t++] = v; }
  delete[] on; return d;
}
// The same skeletons for any digraph (toggled edges may point backwards, so cycles appear); REV turns every skeleton edge round.
static Dag tpl_digraph(int n, int tpl) {
  int w = tpl_wid, ex = sym_param("EXTRA", 1), rev = sym_param("REV", 0), tot = n * (n - 1), prev = 0; char *on = new char[n * n]();
  for (int v = 0; v < n; v++) for (int u = 0; u < v; u++) { if (rev) on[v * n + u] = tpl_edge(tpl, w, n, u, v); else on[u * n + v] = tpl_edge(tpl, w, n, u, v); }
  for (int k = 0; k < ex; k++) { int e = sym_conc(sym_int(nm("extra", k), prev, tot)); prev = e; if (e == tot) continue; int u = e / (n - 1), v = e % (n - 1); if (v >= u) v++; on[u * n + v] ^= 1; }
  Dag d; d.n = n; d.p = ibuf(n + 1); int t = 0; for (int u = 0; u < n; u++) { d.p[u] = t; t++; for (int v = 0; v < n; v++) t += on[u * n + v]; } d.p[n] = t; d.nnz = t; d.i = ibuf(t); t = 0;
  for (int u = 0; u < n; u++) { d.i[t++] = u; for (int v = 0; v < n; v++) if (on[u * n + v]) d.i[t++] = v; }
  delete[] on; return d;
}
// A forest with parent(v) > v or -1; with TPL the parent is the first skeleton successor, except for EXTRA nodes that get any parent.
static int *sym_forest(int n) {
  int *par = ibuf(n); int tpl = tpl_of();
  if (!tpl) { for (int v = 0; v < n; v++) { int r = sym_int(nm("parent", v), v + 1, n); par[v] = r == n ? -1 : r; } return par; }
  int w = tpl_wid, ex = sym_param("EXTRA", 1), prev = 0;
  for (int u = 0; u < n; u++) { par[u] = -1; for (int v = n - 1; v > u; v--) if (tpl_edge(tpl, w, n, u, v)) par[u] = v; }
  for (int k = 0; k < ex; k++) { int u = sym_conc(sym_int(nm("moved", k), prev, n)); prev = u; if (u == n) continue; int r = sym_conc(sym_int(nm("parent", k), u + 1, n)); par[u] = r == n ? -1 : r; }
  return par;
}
// a cost per node; beyond the first COSTV nodes costs follow a fixed pattern
static double sym_cost(int v, int lo, int hi) { int k = sym_param("COSTV", 64); if (v < k) return sym_num(nm("cost", v), lo, hi); return lo + (v * 5 + 2) % (hi - lo + 1); }

// CSC pattern of a lower triangular matrix with a full diagonal, diagonal first in every column and
// rows sorted.  Column lengths are split into cases, row indices stay symbolic.
static Dag sym_dag(int n, int maxDeg = 1 << 20) {
  if (int tpl = tpl_of()) return tpl_dag(n, tpl);
  Dag d; d.n = n; d.p = ibuf(n + 1); 
  int tot = 0; int cnt[64];
  for (int j = 0; j < n; j++) {
    int mx = n - 1 - j; if (mx > maxDeg) mx = maxDeg;
    cnt[j] = sym_conc(sym_int(nm("deg", j), 0, mx)); d.p[j] = tot; tot += cnt[j] + 1;
  }
  d.p[n] = tot; d.nnz = tot; d.i = ibuf(tot);
  for (int j = 0; j < n; j++) {
    d.i[d.p[j]] = j;
    for (int k = 0; k < cnt[j]; k++) {
      // k-th strictly-lower entry: leaves room for the cnt-k-1 later ones
      int r = sym_int(nm("row", j, k), j + 1 + k, n - cnt[j] + k);
      if (k) sym_assume(r > d.i[d.p[j] + k]);
      d.i[d.p[j] + k + 1] = r;
    }
  }
  return d;
}
static inline void free_dag(Dag &d) { delete[] d.p; delete[] d.i; }
static inline int *copy_ints(const int *a, int n) { int *r = ibuf(n); for (int k = 0; k < n; k++) r[k] = a[k]; return r; }
static inline int same_ints(const int *a, const int *b, int n) { int ok = 1; for (int k = 0; k < n; k++) ok &= (a[k] == b[k]); return ok; }

// longest path (in edges) from a source to every node; lower triangular, so increasing index is topological.
static inline void ref_levels(const Dag &d, int *lev) {
  for (int j = 0; j < d.n; j++) lev[j] = 0;
  for (int j = 0; j < d.n; j++)
    for (int k = d.p[j] + 1; k < d.p[j + 1]; k++) { int r = d.i[k]; int l = lev[j] + 1; int o = lev[r]; lev[r] = o < l ? l : o; }
}

static inline int is_perm(const int *a, int n) {
  int ok = 1;
  for (int k = 0; k < n; k++) ok &= (a[k] >= 0) & (a[k] < n);
  for (int k = 0; k < n; k++) for (int j = 0; j < k; j++) ok &= (a[k] != a[j]);
  return ok;
}

// The schedule contract every aggregation routine promises:
//  level_ptr -> part_ptr -> node_ptr nest, every node is scheduled exactly once, and an edge u->v either
//  crosses from an earlier level to a later one or stays in one w-partition with u before v.
static void check_schedule(const Dag &d, int nl, const int *lp, const int *pp, const int *np) {
  int n = d.n;
  sym_assert(nl >= 1 && nl <= n, "schedule: number of levels is between 1 and n");
  sym_assert(lp[0] == 0 && pp[0] == 0, "schedule: level and partition pointers start at 0");
  int lev[64], par[64], pos[64];
  for (int v = 0; v < n; v++) lev[v] = -1, par[v] = -1, pos[v] = -1;
  int ok = 1;
  for (int l = 0; l < nl; l++) {
    sym_assert(lp[l + 1] >= lp[l], "schedule: level pointer is monotone");
    for (int j = lp[l]; j < lp[l + 1]; j++) {
      sym_assert(pp[j + 1] >= pp[j] && pp[j + 1] <= n, "schedule: partition pointer is monotone and bounded by n");
      for (int k = pp[j]; k < pp[j + 1]; k++) {
        int v = np[k];
        sym_assert((v >= 0) & (v < n), "schedule: scheduled node index is in range");
        sym_assert(lev[v] == -1, "schedule: no node is scheduled twice");
        lev[v] = l; par[v] = j; pos[v] = k;
      }
    }
  }
  sym_assert(pp[lp[nl]] == n, "schedule: exactly n nodes are scheduled");
  for (int v = 0; v < n; v++) ok &= (lev[v] >= 0);
  sym_assert(ok, "schedule: every node is scheduled");
  ok = 1;
  for (int u = 0; u < n; u++)
    for (int k = d.p[u] + 1; k < d.p[u + 1]; k++) {
      int v = d.i[k];
      ok &= (lev[u] < lev[v]) | ((par[u] == par[v]) & (pos[u] < pos[v]));
    }
  sym_assert(ok, "schedule: every dependence is respected (earlier level, or same partition and earlier position)");
}

// A level-set must list every node once, by exact longest-path level.
static void check_levels(int n, const int *ref, int nl, const int *lp, const int *ls) {
  sym_assert(nl >= 1 && nl <= n, "levels: the number of levels is between 1 and n");
  sym_assert(lp[0] == 0, "levels: pointer starts at 0");
  int cnt[64], ok = 1, mx = 0;
  for (int v = 0; v < n; v++) cnt[v] = 0;
  for (int l = 0; l < nl; l++) {
    sym_assert(lp[l + 1] > lp[l] && lp[l + 1] <= n, "levels: every level is non-empty and inside the node list");
    for (int k = lp[l]; k < lp[l + 1]; k++) {
      int v = ls[k];
      sym_assert((v >= 0) & (v < n), "levels: node index is in range");
      cnt[v] += 1; ok &= ref[v] == l;
    }
  }
  sym_assert(lp[nl] == n, "levels: all n nodes are listed");
  sym_assert(ok, "levels: every node sits in the level given by its longest incoming path");
  ok = 1; for (int v = 0; v < n; v++) ok &= cnt[v] == 1;
  sym_assert(ok, "levels: every node is listed exactly once");
}

// Any directed graph (cycles allowed): every column holds its diagonal first, then any set of other rows in
// increasing order.
static Dag sym_digraph(int n, int maxDeg = 1 << 20) {
  if (int tpl = tpl_of()) return tpl_digraph(n, tpl);
  Dag d; d.n = n; d.p = ibuf(n + 1); int tot = 0, cnt[64];
  for (int j = 0; j < n; j++) { int mx = n - 1 < maxDeg ? n - 1 : maxDeg; cnt[j] = sym_conc(sym_int(nm("deg", j), 0, mx)); d.p[j] = tot; tot += cnt[j] + 1; }
  d.p[n] = tot; d.nnz = tot; d.i = ibuf(tot);
  for (int j = 0; j < n; j++) {
    d.i[d.p[j]] = j;
    for (int k = 0; k < cnt[j]; k++) { int r = sym_int(nm("row", j, k), 0, n - 1); sym_assume(r != j); if (k) sym_assume(r > d.i[d.p[j] + k]); d.i[d.p[j] + k + 1] = r; }
  }
  return d;
}
// longest paths in a general graph; returns 1 if the graph has a cycle
static int ref_levels_any(const Dag &d, int *lev) {
  int n = d.n, cyc = 0;
  for (int v = 0; v < n; v++) lev[v] = 0;
  for (int t = 0; t <= n; t++) for (int u = 0; u < n; u++) for (int k = d.p[u]; k < d.p[u + 1]; k++) {
    int v = d.i[k]; int nw = lev[u] + 1; int up = (v != u) & (lev[v] < nw); if (t == n) cyc |= up; else lev[v] = up ? nw : lev[v];
  }
  return cyc;
}
// edge bit-matrix of the strictly lower part:  e[u*n+v] for u<v
static void adj_of(const Dag &d, int *e) {
  int n = d.n; for (int k = 0; k < n * n; k++) e[k] = 0;
  for (int u = 0; u < n; u++) for (int k = d.p[u] + 1; k < d.p[u + 1]; k++) e[u * n + d.i[k]] = 1;
}
// transitive closure of an edge matrix (paths of at least one edge)
static void closure_of(int n, int *e) {
  for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) e[i * n + j] |= e[i * n + k] & e[k * n + j];
}

// Supernodal (BCSC) lower-triangular pattern: nb blocks, block b owns columns [blk2col[b],blk2col[b+1]),
// its row list is its own columns followed by sorted rows below it.
struct Sup { int nb, n, nnzr; int *blk2col, *col2blk; size_t *lC, *Li_ptr; int *lR; Dag d; };
// skeleton blocks: widths vary with the block, a block edge covers the last row of the target or all its rows
static Sup tpl_sup(int nb, int maxW, int tpl) {
  Dag q = tpl_dag(nb, tpl); int all = sym_conc(sym_int("allrows", 0, maxW > 1)), c = 0;
  Sup s; s.nb = nb; s.blk2col = ibuf(nb + 1); for (int b = 0; b < nb; b++) { s.blk2col[b] = c; c += 1 + b % maxW; } s.blk2col[nb] = c; s.n = c; s.col2blk = ibuf(c);
  for (int b = 0; b < nb; b++) for (int k = s.blk2col[b]; k < s.blk2col[b + 1]; k++) s.col2blk[k] = b;
  s.Li_ptr = new size_t[c + 1](); s.lC = new size_t[c + 1](); std::vector<int> R, I; size_t vals = 0; s.d.n = nb; s.d.p = ibuf(nb + 1);
  for (int b = 0; b < nb; b++) { size_t at = R.size(), w = s.blk2col[b + 1] - s.blk2col[b]; s.d.p[b] = (int)I.size(); I.push_back(b); for (int k = s.blk2col[b]; k < s.blk2col[b + 1]; k++) R.push_back(k);
    for (int k = q.p[b] + 1; k < q.p[b + 1]; k++) { int t = q.i[k]; for (int r = all ? s.blk2col[t] : s.blk2col[t + 1] - 1; r < s.blk2col[t + 1]; r++) { R.push_back(r); I.push_back(t); } }
    for (int k = s.blk2col[b]; k < s.blk2col[b + 1]; k++) { s.Li_ptr[k] = at; s.lC[k] = vals; vals += R.size() - at; } (void)w; }
  s.Li_ptr[c] = R.size(); s.lC[c] = vals; s.nnzr = (int)R.size(); s.lR = ibuf(s.nnzr); for (int k = 0; k < s.nnzr; k++) s.lR[k] = R[k];
  s.d.p[nb] = s.d.nnz = (int)I.size(); s.d.i = ibuf(s.d.nnz); for (int k = 0; k < s.d.nnz; k++) s.d.i[k] = I[k]; return s;
}
static Sup sym_sup(int nb, int maxW, int maxOff) {
  if (int tpl = tpl_of()) return tpl_sup(nb, maxW, tpl);
  Sup s; s.nb = nb; s.blk2col = ibuf(nb + 1); int w[64], c = 0;
  for (int b = 0; b < nb; b++) { w[b] = sym_conc(sym_int(nm("width", b), 1, maxW)); s.blk2col[b] = c; c += w[b]; }
  s.blk2col[nb] = c; s.n = c; s.col2blk = ibuf(c);
  for (int b = 0; b < nb; b++) for (int k = s.blk2col[b]; k < s.blk2col[b + 1]; k++) s.col2blk[k] = b;
  s.Li_ptr = new size_t[c + 1](); s.lC = new size_t[c + 1](); int off[64], tot = 0; size_t vals = 0;
  for (int b = 0; b < nb; b++) {
    int below = c - s.blk2col[b + 1]; int mx = below < maxOff ? below : maxOff;
    off[b] = sym_conc(sym_int(nm("off", b), 0, mx));
    for (int k = s.blk2col[b]; k < s.blk2col[b + 1]; k++) { s.Li_ptr[k] = tot; s.lC[k] = vals; vals += w[b] + off[b]; }
    tot += w[b] + off[b];
  }
  s.Li_ptr[c] = tot; s.lC[c] = vals; s.nnzr = tot; s.lR = ibuf(tot);
  s.d.n = nb; s.d.p = ibuf(nb + 1); int t = 0;
  for (int b = 0; b < nb; b++) { s.d.p[b] = t; t += 1 + off[b]; }
  s.d.p[nb] = t; s.d.nnz = t; s.d.i = ibuf(t);
  for (int b = 0; b < nb; b++) {
    int q = (int)s.Li_ptr[s.blk2col[b]];
    for (int k = 0; k < w[b]; k++) s.lR[q + k] = s.blk2col[b] + k;
    s.d.i[s.d.p[b]] = b;
    for (int k = 0; k < off[b]; k++) {
      int r = sym_int(nm("row", b, k), s.blk2col[b + 1] + k, c - off[b] + k);
      if (k) sym_assume(r > s.lR[q + w[b] + k - 1]);
      s.lR[q + w[b] + k] = r; s.d.i[s.d.p[b] + 1 + k] = s.col2blk[r];
    }
  }
  return s;
}
