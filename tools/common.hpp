// shared by the demonstrations: all lower triangular DAGs of a small size, and the schedule contract
#pragma once
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <functional>
typedef std::vector<int> VI;
struct D { int n; VI p, i; };
static D dag_of(int n, unsigned long bits) { D d; d.n = n; int b = 0; for (int j = 0; j < n; j++) { d.p.push_back((int)d.i.size()); d.i.push_back(j); for (int r = j + 1; r < n; r++, b++) if (bits >> b & 1) d.i.push_back(r); } d.p.push_back((int)d.i.size()); return d; }
static unsigned long dags(int n) { return 1ul << (n * (n - 1) / 2); }
static D mod_copy(const D &d) { return d; }
static bool valid(const D &d, int nl, const int *lp, const int *pp, const int *np) {
  int n = d.n; VI lev(n, -1), par(n, -1), pos(n, -1); if (nl < 1 || nl > n || lp[0] || pp[0]) return false;
  for (int l = 0; l < nl; l++) { if (lp[l + 1] < lp[l]) return false; for (int j = lp[l]; j < lp[l + 1]; j++) { if (pp[j + 1] < pp[j] || pp[j + 1] > n) return false; for (int k = pp[j]; k < pp[j + 1]; k++) { int v = np[k]; if (v < 0 || v >= n || lev[v] >= 0) return false; lev[v] = l; par[v] = j; pos[v] = k; } } }
  if (pp[lp[nl]] != n) return false;
  for (int u = 0; u < n; u++) for (int k = d.p[u] + 1; k < d.p[u + 1]; k++) { int v = d.i[k]; if (!(lev[u] < lev[v] || (par[u] == par[v] && pos[u] < pos[v]))) return false; }
  return true;
}
static void closure(int n, std::vector<char> &e) { for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (e[i * n + k] && e[k * n + j]) e[i * n + j] = 1; }
static VI levels(const D &d) { VI l(d.n, 0); for (int u = 0; u < d.n; u++) for (int k = d.p[u] + 1; k < d.p[u + 1]; k++) if (l[d.i[k]] < l[u] + 1) l[d.i[k]] = l[u] + 1; return l; }
#define FAIL(...) do { printf("property broken: " __VA_ARGS__); printf("\n"); exit(1); } while (0)
