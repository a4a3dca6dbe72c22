// Flat partitions, comparison and statistics helpers.
#include "mat.hpp"
#include <utils.h>
#include <test_utils.h>
#include <lbc_utils.h>
#include <limits>
using namespace sym_lib;
typedef std::vector<int> VI;

// consecutive slices of a set: all elements covered, every slice but the last reaches its target and none is longer than needed
ENTRY(h_partition_by_weight) {
  int n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 4))), parts = sym_conc(sym_int("parts", 1, sym_param("PARTS", 3))), given = sym_conc(sym_int("given", 0, 1)), mx = sym_param("WMAX", 3);
  int *set = ibuf(n), *set0; sym_permutation(n, set, "set"); set0 = copy_ints(set, n); double *w = dbuf(n), *t = dbuf(parts); double tot = 0, goal[16];
  for (int k = 0; k < n; k++) { w[k] = sym_num(nm("w", k), 1, mx); } for (int k = 0; k < n; k++) tot += w[k];
  for (int k = 0; k < parts; k++) goal[k] = t[k] = sym_num(nm("t", k), 0, mx * n);
  int *ix = partition_by_weight(n, set, w, parts, given ? t : nullptr);
  sym_assert(ix[0] == 0 && ix[parts] == n, "the parts cover the whole set");
  for (int k = 0; k < parts; k++) { sym_assert(ix[k] <= ix[k + 1] && ix[k + 1] <= n, "the parts are consecutive slices"); double s = 0; for (int j = ix[k]; j < ix[k + 1]; j++) s += w[set[j]];
    if (given) { if (k + 1 < parts) { sym_assert((s >= goal[k]) | (ix[k + 1] == n), "a part reaches its target weight"); if (ix[k + 1] > ix[k]) sym_assert(s - w[set[ix[k + 1] - 1]] < goal[k], "a part stops as soon as it reaches its target weight"); } }
    else { if (k + 1 < parts) sym_assert((s * parts >= tot) | (ix[k + 1] == n), "a part reaches an even share of the weight"); if (ix[k + 1] > ix[k]) sym_assert((s - w[set[ix[k + 1] - 1]] - 1) * parts < tot, "a part stops as soon as it reaches an even share"); } }
  sym_assert(same_ints(set, set0, n), "the set is unchanged"); for (int k = 0; k <= parts; k++) sym_out(ix[k]); if (ix[1] < n) sym_cover("split"); sym_cover("end"); delete[] ix; delete[] set; delete[] set0; delete[] w; delete[] t;
}
ENTRY(h_partition_by_bfs) {
  int n = sym_param("N", 3), parts = sym_conc(sym_int("parts", 1, sym_param("PARTS", 2))), given = sym_conc(sym_int("given", 0, 1)), mx = sym_param("WMAX", 3); Dag d = sym_dag(n, sym_param("DEG", 1 << 20));
  CSC A(n, n, d.nnz, d.p, d.i, 0); double *w = dbuf(n), *t = dbuf(parts), tot = 0; for (int k = 0; k < n; k++) { w[k] = sym_num(nm("w", k), 1, mx); tot += w[k]; } for (int k = 0; k < parts; k++) t[k] = sym_num(nm("t", k), 0, mx * n);
  int nl = -1, *lp = nullptr, *pp = nullptr, *np = nullptr, e[64 * 64]; adj_of(d, e); partition_by_bfs(n, &A, w, nl, lp, parts, pp, np, given ? t : nullptr);
  sym_assert(nl == 1 && lp[0] == 0 && lp[1] == parts, "one level with the requested parts"); sym_assert(pp[0] == 0 && pp[parts] == n, "the parts cover all nodes"); sym_assert(is_perm(np, n), "every node is in exactly one part");
  for (int k = 0; k < parts; k++) { sym_assert(pp[k] <= pp[k + 1], "part pointers are monotone"); double s = 0; for (int j = pp[k]; j < pp[k + 1]; j++) s += w[np[j]];
    if (k + 1 < parts) { if (given) sym_assert((s >= t[k]) | (pp[k + 1] == n), "a part reaches its target weight"); else sym_assert((s * parts >= tot) | (pp[k + 1] == n), "a part reaches an even share of the weight");
      if (pp[k + 1] > pp[k]) { double s1 = s - w[np[pp[k + 1] - 1]]; if (given) sym_assert(s1 < t[k], "a part stops as soon as it reaches its target weight"); else sym_assert((s1 - 1) * parts < tot, "a part stops as soon as it reaches an even share"); } } }
  // breadth first order: a node is either reached from the earliest possible earlier node, or is the first node nobody reached
  int pos[64], ok = 1; for (int k = 0; k < n; k++) pos[sym_conc(np[k])] = k;
  int seen[64], qu[64], head = 0, tail = 0, at = 0; for (int v = 0; v < n; v++) seen[v] = 0;
  while (at < n) { if (head == tail) { int v = 0; while (seen[v]) v++; seen[v] = 1; qu[tail++] = v; } int c = qu[head++]; ok &= np[at++] == c; for (int v = 0; v < n; v++) if (e[c * n + v] && !seen[v]) { seen[v] = 1; qu[tail++] = v; } }
  if (given) { double s = 0; for (int k = 0; k < parts; k++) s += t[k]; if (s >= tot) sym_assert(ok, "nodes are taken in breadth first order"); } else sym_assert(ok, "nodes are taken in breadth first order");
  sym_cover("end"); if (pp[1] < n && parts > 1) sym_cover("split"); delete[] lp; delete[] pp; delete[] np; delete[] w; delete[] t; free_dag(d);
}
// consecutive parts merged until they reach the threshold
ENTRY(h_merge_inner) {
  int n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 4))), thr = sym_int("threshold", 1, 8); std::vector<VI> in(n); std::vector<VI> out(n); int *c = ibuf(n), *o = ibuf(n), tot = 0;
  for (int k = 0; k < n; k++) { c[k] = sym_int(nm("cost", k), 0, 4); tot += c[k]; int sz = sym_conc(sym_int(nm("size", k), 1, 2)); for (int j = 0; j < sz; j++) in[k].push_back(10 * k + j); }
  int m = merge_inner_part(in, c, out, o, thr); sym_assert(m >= 1 && m <= n, "number of merged parts"); VI a, b; for (auto &v : in) a.insert(a.end(), v.begin(), v.end()); int at = 0, ok = 1, sum = 0, fit = 1;
  for (int k = 0; k < m; k++) { int s = 0; sym_assert(!out[k].empty(), "merged parts are not empty"); b.insert(b.end(), out[k].begin(), out[k].end()); int last = 0; while (at < n && (int)b.size() > 0 && in[at].back() <= out[k].back()) { last = c[at]; s += c[at++]; } ok &= o[k] == s; sum += o[k]; if (k + 1 < m) fit &= s >= thr; fit &= s - last < thr; }
  sym_assert(a == b, "every part is merged whole, once, in order"); sym_assert(ok && sum == tot, "the cost of a merged part is the sum of its members"); sym_assert(fit, "a merged part grows until it reaches the threshold and no further"); sym_cover("end"); delete[] c; delete[] o;
}
ENTRY(h_compare) {
  int n = sym_conc(sym_int("n", 0, sym_param("N", 3))); double *a = dbuf(n), *b = dbuf(n), val = sym_num("val", -3, 3), big = 0; int e = sym_conc(sym_int("eps", 0, 2)), ce = 1, cv = 1; double eps = e == 0 ? 1e-8 : (double)e; (void)big;
  int na = sym_param("NAN", 0) ? sym_conc(sym_int("nan_at", n ? 0 : -1, n ? 2 * n - 1 : -1)) : -1, lo = sym_conc(sym_int("lo", 0, n)), hi = sym_conc(sym_int("hi", 0, n));
  for (int k = 0; k < n; k++) { a[k] = sym_num(nm("a", k), -3, 3); b[k] = sym_num(nm("b", k), -3, 3); double d = a[k] - b[k], f = a[k] - val; int far = (d > e) | (0.0 - d > e), fv = (f > e) | (0.0 - f > e); if (na == k || na == n + k) far = 1; if (na == k) fv = 1; if (k >= lo && k < hi) ce &= !far; cv &= !fv; }
  if (na >= 0) (na < n ? a : b)[na % n] = std::numeric_limits<double>::quiet_NaN();
  if (na >= 0) { int e1 = is_equal(lo, hi, a, b, eps), e2 = is_equal(n, a, val, eps); sym_assert((e1 <= ce) & (e2 <= cv), "a vector holding a NaN does not compare equal"); sym_assert((e1 >= ce) & (e2 >= cv), "equal vectors compare equal"); sym_cover("end"); return; }
  sym_assert((int)is_equal(lo, hi, a, b, eps) == ce, "two vectors are equal exactly when every pair of the range is within the tolerance");
  sym_assert((int)is_equal(n, a, val, eps) == cv, "a vector equals a value exactly when every element is within the tolerance"); sym_cover("end"); delete[] a; delete[] b;
}
ENTRY(h_compare_csc) {
  int n = sym_param("N", 2), m = sym_param("M", 2), same = 1, pat = sym_param("PATTERN", 0), md = sym_param("ROWS", 0); Mat a = sym_mat(m, n, 8, ANY, 0, "a"), b = sym_mat(m, n, 8, ANY, 0, "b");
  for (int k = 0; k < a.nnz; k++) a.x[k] = sym_num(nm("va", k), 0, 2); for (int k = 0; k < b.nnz; k++) b.x[k] = sym_num(nm("vb", k), 0, 2);
  for (int k = 0; k < m * n; k++) same &= (a.slot[k] >= 0) == (b.slot[k] >= 0); if (same && !pat) for (int k = 0; k < a.nnz; k++) same &= a.x[k] == b.x[k];
  CSC *A = csc_of(a, pat, 0), *B = csc_of(b, pat, 0); if (md) { B->m++; if (same) sym_assert(!is_equal(A, B), "matrices with different numbers of rows do not compare equal"); same = 0; } sym_assert((int)is_equal(A, B) == same, "two matrices are equal exactly when dimensions, patterns and values agree"); if (same) sym_cover("equal"); sym_cover("end"); delete A; delete B;
}
ENTRY(h_rhs) {
  int m = sym_param("N", 3); Mat a = sym_mat(m, m, 8); double *b = dbuf(m); for (int k = 0; k < a.nnz; k++) a.x[k] = sym_num(nm("v", k), -4, 4); for (int k = 0; k < m; k++) b[k] = 7;
  rhs_init(m, a.p, a.i, a.x, b); int ok = 1; for (int r = 0; r < m; r++) { double s = 0; for (int c = 0; c < m; c++) if (a.slot[r * m + c] >= 0) s += a.x[a.slot[r * m + c]]; ok &= b[r] == s; } sym_assert(ok, "the right hand side is the product with the vector of ones");
  // the same matrix stored by columns with shared row lists (blocked storage): column c has the rows of its first stored list
  size_t *P = new size_t[m + 1], *IP = new size_t[m + 1]; for (int c = 0; c <= m; c++) P[c] = IP[c] = a.p[c]; for (int k = 0; k < m; k++) b[k] = 9; rhs_init_blocked(m, m, P, a.i, IP, a.x, b); int o2 = 1; for (int r = 0; r < m; r++) { double s = 0; for (int c = 0; c < m; c++) if (a.slot[r * m + c] >= 0) s += a.x[a.slot[r * m + c]]; o2 &= b[r] == s; }
  sym_assert(o2, "the blocked right hand side is the product with the vector of ones");
  // two columns sharing one row list
  if (m >= 2 && a.p[1] > 0) { int l = a.p[1]; double x2[32]; for (int k = 0; k < 2 * l; k++) x2[k] = sym_num(nm("z", k), -4, 4); size_t P2[3] = {0, (size_t)l, (size_t)(2 * l)}, I2[2] = {0, 0}; double *b2 = dbuf(m); rhs_init_blocked(2, 1, P2, a.i, I2, x2, b2 ); (void)b2; int o3 = 1; for (int k = 0; k < l; k++) { if (a.i[k] < 2) o3 &= b2[a.i[k]] == x2[k] + x2[l + k]; } sym_assert(o3, "columns of a block share its rows"); delete[] b2; }
  sym_cover("end"); delete[] b; delete[] P; delete[] IP;
}
ENTRY(h_unique) {
  int n = sym_conc(sym_int("n", 0, sym_param("N", 4))), *v = ibuf(n); for (int k = 0; k < n; k++) v[k] = sym_int(nm("v", k), 0, n - 1); int ok = is_perm(v, n); sym_leak_begin(); int r = test_unique(n, v); sym_leak_check("test_unique releases its work space"); sym_assert(r == ok, "test_unique accepts exactly the permutations of 0..n-1"); if (ok) sym_cover("permutation"); sym_cover("end"); delete[] v;
}
ENTRY(h_median) {
  int n = sym_conc(sym_int("n", 0, sym_param("N", 4))); std::vector<timing_measurement> t(n); double v[16]; for (int k = 0; k < n; k++) { v[k] = sym_num(nm("t", k), 0, 5); t[k].elapsed_time = v[k]; }
  timing_measurement r = time_median(t); if (n == 0) sym_assert(r.elapsed_time == -1, "no measurement gives -1"); else { int in = 0, le = 0, ge = 0; for (int k = 0; k < n; k++) { in |= v[k] == r.elapsed_time; le += v[k] <= r.elapsed_time; ge += v[k] >= r.elapsed_time; } sym_assert(in, "the median is one of the measurements"); sym_assert((2 * le >= n) & (2 * ge >= n), "at least half of the measurements are on either side of the median"); }
  double s = 0; for (int k = 0; k < n; k++) s += v[k]; sym_assert(sum_vector(n, v) == s, "sum of a vector"); sym_cover("end");
}
