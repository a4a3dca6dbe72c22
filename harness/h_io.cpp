// Matrix Market files, printing, and matrices assembled from triplets or dense arrays.
#include "mat.hpp"
#include <fstream>
#include <sparse_io.h>
#include <utils.h>
#include <mmio.h>
#include <BCSCMatrix.h>
#ifndef VP_SHIM
#include <unistd.h>
#include <fcntl.h>
#endif
using namespace sym_lib;
static char tx[4096]; static int tn = 0; static const char *FN = "vp_io.mtx";
#ifdef VP_SHIM
extern "C" { char vp_text[VP_CAP]; long vp_len = 0; int vp_exists = 0; }
static void file_put() { for (int k = 0; k < tn; k++) vp_text[k] = tx[k]; vp_len = tn; vp_exists = 1; }
static void file_get() { tn = (int)vp_len; for (int k = 0; k < tn; k++) tx[k] = vp_text[k]; }
static int file_fd() { vp_len = 0; vp_exists = 1; return 3; }
#else
static void file_put() { FILE *f = fopen(FN, "w"); fwrite(tx, 1, tn, f); fclose(f); }
static void file_get() { FILE *f = fopen(FN, "r"); tn = (int)fread(tx, 1, sizeof tx, f); fclose(f); }
static int file_fd() { return open(FN, O_RDWR | O_CREAT | O_TRUNC, 0600); }
#endif
static void ch(int c) { tx[tn++] = (char)c; }
static void put(const char *s) { while (*s) ch(*s++); }
static void num(int v) { char r[12]; int q = 0; if (v < 0) { ch('-'); v = -v; } do { r[q++] = (char)('0' + v % 10); v /= 10; } while (v); while (q) ch(r[--q]); }
static void word(const char *s, const char *name, int all) { // letters in either case
  for (int k = 0; s[k]; k++) { char c = s[k]; int up = 0; if (c >= 'a' && c <= 'z' && (all || k == 0)) up = sym_int(nm(name, k), 0, 1); ch(c - 32 * up); }
}
static const char *AR[] = {"real", "integer", "pattern", "complex", "quaternion"}, *SY[] = {"general", "symmetric", "skew-symmetric"};
struct Ent { int r, c; double v; };
// a coordinate file: any entries at distinct places, in any order or by columns
static int coord_file(int m, int n, int ar, int sy, int maxE, int ordered, Ent *e, int *slot) {
  put("%%MatrixMarket matrix coordinate "); word(AR[ar], "case", 1); ch(' '); word(SY[sy], "scase", 0); ch('\n');
  int com = sym_conc(sym_int("comments", 0, 2)); for (int k = 0; k < com; k++) { ch('%'); if (k) put(" 7 7 7"); ch('\n'); }
  int ne = sym_conc(sym_int("entries", 0, maxE)), wide = sym_conc(sym_int("wide", 0, 1)), lastnl = sym_conc(sym_int("lastnl", 0, 1)); const char *sep = wide ? "  \t" : " "; if (wide) ch(' '); num(m); put(sep); num(n); put(sep); num(ne); ch('\n');
  for (int k = 0; k < m * n; k++) slot[k] = -1;
  for (int k = 0; k < ne; k++) {
    int at = sym_int(nm("at", k), 0, m * n - 1); if (ordered && k) sym_assume(at > sym_conc(e[k - 1].c * m + e[k - 1].r)); at = sym_conc(at); int r = at % m, c = at / m; sym_assume(slot[r * n + c] < 0); if (sy) sym_assume(r >= c); slot[r * n + c] = k; e[k].r = r; e[k].c = c; e[k].v = 1;
    if (wide) ch(' '); num(r + 1); put(sep); num(c + 1);
    if (ar != 2) { put(sep); int sh = ar == 1 ? 0 : sym_conc(sym_int(nm("shape", k), 0, sym_param("SHAPES", 3))), neg = sym_conc(sym_int(nm("neg", k), 0, 1)), d = 7 * sym_conc(sym_int(nm("digit", k), 0, 1)); if (neg) ch('-'); ch('0' + d); double v = (double)d; if (sh == 1) { put(".5"); v = (double)(d * 10 + 5) / 10; } if (sh == 2) { put("e1"); v = (double)d * 10; } if (sh == 3) { put(".25E-1"); v = (double)(d * 100 + 25) / 1000; } e[k].v = neg ? 0.0 - v : v; }
    if (k + 1 < ne || lastnl) ch('\n');
  }
  file_put(); return ne;
}
static void check_read(CSC *A, int m, int n, int ne, Ent *e, int *slot, int diag) {
  sym_assert(A != nullptr, "a valid file gives a matrix"); sym_assert((int)A->m == m && (int)A->n == n, "dimensions are those of the file"); double xs[32]; for (int k = 0; k < ne; k++) xs[k] = e[k].v; int extra = 0; xs[ne] = 0;
  if (diag) for (int c = 0; c < n; c++) { int any = 0; for (int r = 0; r < m; r++) any |= slot[r * n + c] >= 0; if (!any) { slot[c * n + c] = ne; extra++; } }
  sym_assert((int)A->nnz == ne + extra, "number of entries is that of the file"); sym_assert(A->p[n] == (int)A->nnz, "the last pointer is the number of entries"); check_comp(n, m, A->p, A->i, A->x, xs, [&](int r, int c) { return slot[r * n + c]; }, 1, "");
}
ENTRY(h_read_mtx) {
  int m = sym_param("M", 2), n = sym_param("N", 2), ar = sym_param("ARITH", 0), sy = sym_param("SYM", 0), slot[64]; Ent e[32]; int ne = coord_file(m, n, ar, sy, sym_param("E", 2), sym_param("ORDERED", 0), e, slot);
  CSC *A = read_mtx(FN); check_read(A, m, n, ne, e, slot, 0); sym_assert(A->stype == (sy == 1 ? -1 : 0), "a symmetric file gives a symmetric matrix"); sym_assert(!A->is_pattern, "the matrix has values"); delete A; sym_cover("end");
}

ENTRY(h_read_stream) {
  int m = sym_param("M", 2), n = sym_param("N", 2), ar = sym_param("ARITH", 0), sy = sym_param("SYM", 0), slot[64], diag = sym_param("DIAG", 0); Ent e[32]; int ne = coord_file(m, n, ar, sy, sym_param("E", 2), 0, e, slot);
  int bad = ar > 2 || sy > 1; std::ifstream in(FN); CSC *A = nullptr; if (bad) { sym_cover("end"); sym_allow_throw(1); } read_mtx_csc_real(in, A, diag); sym_assert(!bad, "an unsupported file is refused");
  check_read(A, m, n, ne, e, slot, diag); sym_assert(A->stype == (sy == 1 ? -1 : 0), "a symmetric file gives a symmetric matrix"); delete A; sym_cover("end");
}
// ---- writers ----
static const double VT[] = {1, -2.5, 0.125, 120, -7e-05, 3e6, 0};   // all exact in three significant digits
static double tval(const char *name, int k, int last = 5) { return VT[sym_conc(sym_int(nm(name, k), 0, last))]; }
struct Tok { int at = 0; void skip() { while (at < tn && (tx[at] == ' ' || tx[at] == '\n' || tx[at] == '\t')) at++; } int more() { skip(); return at < tn; }
  int line(const char *want) { int k = 0; while (at < tn && tx[at] != '\n') { if (want[k] && want[k] == tx[at]) k++; else if (!want[k] && tx[at] == ' ') ; else return 0; at++; } at++; return !want[k]; }
  int is(const char *want) { skip(); int k = 0; while (want[k]) { if (at >= tn || tx[at] != want[k]) return 0; at++; k++; } return at >= tn || tx[at] == ' ' || tx[at] == '\n'; }
  long integer() { skip(); int neg = 0; long v = 0, any = 0; if (at < tn && tx[at] == '-') { neg = 1; at++; } while (at < tn && tx[at] >= '0' && tx[at] <= '9') { v = v * 10 + tx[at++] - '0'; any = 1; } sym_assert(any && (at >= tn || tx[at] == ' ' || tx[at] == '\n'), "an integer is written"); return neg ? -v : v; }
  double real() { skip(); int neg = 0, any = 0, e = 0; long v = 0; if (at < tn && tx[at] == '-') { neg = 1; at++; } while (at < tn && tx[at] >= '0' && tx[at] <= '9') { v = v * 10 + tx[at++] - '0'; any = 1; } if (at < tn && tx[at] == '.') { at++; while (at < tn && tx[at] >= '0' && tx[at] <= '9') { v = v * 10 + tx[at++] - '0'; e--; any = 1; } }
    if (at < tn && tx[at] == 'e') { at++; int en = 0, x = 0; if (tx[at] == '-' || tx[at] == '+') en = tx[at++] == '-'; while (at < tn && tx[at] >= '0' && tx[at] <= '9') x = x * 10 + tx[at++] - '0'; e += en ? -x : x; } sym_assert(any && (at >= tn || tx[at] == ' ' || tx[at] == '\n'), "a value is written"); while (v && e < 0 && v % 10 == 0) { v /= 10; e++; } double d = (double)v, p = 1; for (int k = 0; k < (e < 0 ? -e : e); k++) p *= 10; d = e < 0 ? d / p : d * p; return neg ? 0.0 - d : d; }
};
static int near(double a, double b) { double d = a - b; if (d < 0) d = 0.0 - d; double s = b < 0 ? 0.0 - b : b; return d <= s * 1e-12; }
static void table_values(Mat &a, int last) { for (int k = 0; k < a.nnz; k++) a.x[k] = tval("val", k, last); }
// the coordinate lines of the text, one per entry of want (value v); off = index base
template <class F> static void check_lines(Tok &t, int m, int n, int nnz, F want) {
  sym_assert(t.integer() == m && t.integer() == n && t.integer() == nnz, "the size line gives the dimensions"); int seen[256]; for (int k = 0; k < m * n; k++) seen[k] = 0;
  for (int k = 0; k < nnz; k++) { long r = t.integer() - 1, c = t.integer() - 1; double v = t.real(), w; sym_assert(r >= 0 && r < m && c >= 0 && c < n, "a written index is within the matrix"); sym_assert(!seen[r * n + c], "no entry is written twice"); seen[r * n + c] = 1; sym_assert(want((int)r, (int)c, w), "only entries of the matrix are written"); sym_assert(near(v, w), "the value of an entry is written"); }
  sym_assert(!t.more(), "nothing follows the last entry");
}
ENTRY(h_write_mtx) {
  int m = sym_conc(sym_int("m", 1, sym_param("M", 2))), n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 2))); Mat a = sym_mat(m, n, 8); table_values(a, sym_param("VALS", 5)); CSC *A = csc_of(a, 0, 0); CSC_to_mtx(FN, A); file_get(); Tok t;
  sym_assert(t.line("%%MatrixMarket matrix coordinate real general"), "the file starts with its banner"); check_lines(t, m, n, a.nnz, [&](int r, int c, double &w) { int s = a.slot[r * n + c]; w = s < 0 ? 0 : a.x[s]; return s >= 0; });
  CSC *B = read_mtx(FN); sym_assert(B && (int)B->m == m && (int)B->n == n && (int)B->nnz == a.nnz && same_ints(B->p, a.p, n + 1) && same_ints(B->i, a.i, a.nnz), "the written file reads back as the same pattern"); for (int k = 0; k < a.nnz; k++) sym_assert(near(B->x[k], a.x[k]), "the written file reads back as the same values"); sym_assert(mat_same(a, A->p, A->i, A->x), "the matrix is unchanged"); sym_cover("end");
}
ENTRY(h_write_blocked) {
  int n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 3))); Mat a = sym_mat(n, n, sym_param("COL", 8), ::LOWER); want_diag(a); table_values(a, sym_param("VALS", 1)); int *s = ibuf(n + 1), nb = 0; s[0] = 0; for (int c = 1; c < n; c++) if (sym_conc(sym_int(nm("cut", c), 0, 1))) s[++nb] = c; s[++nb] = n; CSC *A = csc_of(a, 0, -1); BCSCMatrix *B = new BCSCMatrix(A, nb, s); BCSC_to_mtx(FN, B->getBCSC()); file_get(); Tok t;
  sym_assert(t.line("%%MatrixMarket matrix coordinate real general"), "the file starts with its banner"); int blk[16]; for (int b = 0; b < nb; b++) for (int c = s[b]; c < s[b + 1]; c++) blk[c] = b; int tot = (int)B->getBCSC()->nnz;
  check_lines(t, n, n, tot, [&](int r, int c, double &w) { int q = a.slot[r * n + c], in = 0; for (int d = s[blk[c]]; d < s[blk[c] + 1]; d++) in |= a.slot[r * n + d] >= 0; w = q < 0 ? 0 : a.x[q]; return in; }); sym_cover("end");
}
ENTRY(h_print_matrix) { // print_csc / print_csr on a descriptor
  int n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 2))), rows = sym_conc(sym_int("csr", 0, 1)), none = sym_conc(sym_int("novalues", 0, 1)), obj = rows || none ? 0 : sym_conc(sym_int("whole", 0, 1)); Mat a = sym_mat(n, n, 8); table_values(a, sym_param("VALS", 3)); std::string beg = sym_conc(sym_int("title", 0, 1)) ? "%%MatrixMarket matrix coordinate real general" : "";
  CSC *A = csc_of(a, 0, 0); int fd = file_fd(); if (rows) print_csr(fd, beg, n, a.p, a.i, none ? nullptr : a.x); else if (obj) print_csc(fd, beg, A); else print_csc(fd, beg, n, a.p, a.i, none ? nullptr : a.x); file_get(); Tok t; sym_assert(t.line(beg.c_str()), "the text starts with the given line");
  check_lines(t, n, n, a.nnz, [&](int r, int c, double &w) { int s = rows ? a.slot[c * n + r] : a.slot[r * n + c]; w = s < 0 || none ? 0 : a.x[s]; return s >= 0; }); sym_cover("end");
}
ENTRY(h_print_dense) { // a dense matrix, column-major, one line per row
  int m = sym_conc(sym_int("m", 1, sym_param("M", 3))), n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 3))); Dense D(m, n, 1); static const double PV[] = {1, -2.5, 0.125, 120, 0}; int k0 = sym_conc(sym_int("first", 0, 4)); for (int k = 0; k < m * n; k++) D.a[k] = k < 2 ? PV[sym_conc(sym_int(nm("val", k), 0, 4))] : PV[(k * 3 + k0) % 5] + k;
  int fd = file_fd(); print_dense(fd, &D); file_get(); int at = 0; Tok t; for (int i = 0; i < m; i++) { for (int j = 0; j < n; j++) { t.skip(); double v = t.real(); sym_assert(near(v, D.a[i + j * m]), "row by row, the entries of the matrix are written"); } int lines = 0; for (at = 0; at < t.at; at++) lines += tx[at] == '\n'; sym_assert(lines == i, "one line per row"); }
  sym_assert(!t.more() && tx[tn - 1] == '\n', "nothing follows the last entry"); sym_cover("end");
}
// ---- the NIST layer ----
namespace sym_lib { int mm_read_mtx_crd(char *fname, int *M, int *N, int *nz, int **I, int **J, double **val, MM_typecode *matcode); char *mm_typecode_to_str(MM_typecode); }
static void typecode(MM_typecode &t, int dense, int ar, int sy) { mm_initialize_typecode(&t); mm_set_matrix(&t); if (dense) mm_set_array(&t); else mm_set_coordinate(&t); if (ar == 0) mm_set_real(&t); else if (ar == 1) mm_set_pattern(&t); else if (ar == 2) mm_set_complex(&t); else mm_set_integer(&t); if (sy == 0) mm_set_general(&t); else if (sy == 1) mm_set_symmetric(&t); else if (sy == 2) mm_set_hermitian(&t); else mm_set_skew(&t); }
ENTRY(h_mm_triplets) { // write triplets, read them back
  int ar = sym_conc(sym_int("arith", 0, 3)), sy = sym_conc(sym_int("sym", 0, 3)), nz = sym_conc(sym_int("nz", 1, sym_param("E", 2))), M = sym_int("M", 1, 9), N = sym_int("N", 1, 9), I[8], J[8]; double v[16]; M = sym_conc(M); N = sym_conc(N);
  for (int k = 0; k < nz; k++) { I[k] = sym_conc(sym_int(nm("i", k), 1, sym_param("IDX", 3))); J[k] = sym_conc(sym_int(nm("j", k), 1, 1)); } for (int k = 0; k < 2 * nz; k++) v[k] = VT[(k + sy) % 7];
  MM_typecode tc, rc; typecode(tc, 0, ar, sy); char f[32]; for (int k = 0; k < 10; k++) f[k] = FN[k]; int w = mm_write_mtx_crd(f, M, N, nz, I, J, v, tc); if (ar == 3) { sym_assert(w == MM_UNSUPPORTED_TYPE, "integers are not supported by the triplet writer"); sym_cover("end"); return; } sym_assert(w == 0, "the triplets are written");
  int m2, n2, z2, *I2, *J2; double *v2; int r = mm_read_mtx_crd(f, &m2, &n2, &z2, &I2, &J2, &v2, &rc), valid = !(ar == 0 && sy == 2) && !(ar == 1 && sy >= 2); sym_assert(mm_is_valid(tc) == valid, "the valid combinations are recognised"); if (!valid) { sym_assert(r == MM_UNSUPPORTED_TYPE, "an invalid combination is refused"); sym_cover("end"); return; }
  sym_assert(r == 0 && m2 == M && n2 == N && z2 == nz, "sizes survive the round trip"); for (int k = 0; k < 4; k++) sym_assert(rc[k] == tc[k], "the type survives the round trip"); sym_assert(same_ints(I2, I, nz) && same_ints(J2, J, nz), "indices survive the round trip"); if (ar != 1) for (int k = 0; k < (ar == 2 ? 2 : 1) * nz; k++) sym_assert(near(v2[k], v[k]), "values survive the round trip");
  if (ar == 0 && sy == 0) { int *I3, *J3, m3, n3, z3; double *v3; int q = mm_read_unsymmetric_sparse(FN, &m3, &n3, &z3, &v3, &I3, &J3); sym_assert(q == 0 && m3 == M && n3 == N && z3 == nz, "the unsymmetric reader gives the sizes"); for (int k = 0; k < nz; k++) sym_assert(I3[k] == I[k] - 1 && J3[k] == J[k] - 1 && near(v3[k], v[k]), "the unsymmetric reader gives 0-based triplets"); sym_cover("plain"); }
  sym_cover("end");
}
ENTRY(h_mm_parts) { // banner, sizes and entries one at a time
  int ar = sym_conc(sym_int("arith", 0, 3)), sy = sym_conc(sym_int("sym", 0, 3)), dense = sym_conc(sym_int("dense", 0, 1)), M = sym_conc(sym_int("M", 0, 12)), N = sym_conc(sym_int("N", 0, 2)), blank = sym_conc(sym_int("blank", 0, 2)); MM_typecode tc, rc; typecode(tc, dense, ar, sy);
  FILE *f = fopen(FN, "w"); sym_assert(mm_write_banner(f, tc) == 0, "writing the banner reports success"); int w = dense ? mm_write_mtx_array_size(f, M, N) : mm_write_mtx_crd_size(f, M, N, 1); sym_assert(w == 0, "writing the sizes reports success"); fclose(f); file_get();
  char *s = mm_typecode_to_str(tc); Tok t; sym_assert(t.is("%%MatrixMarket"), "the banner names the format"); sym_assert(t.is("matrix") && t.is(dense ? "array" : "coordinate") && t.is(ar == 0 ? "real" : ar == 1 ? "pattern" : ar == 2 ? "complex" : "integer") && t.is(sy == 0 ? "general" : sy == 1 ? "symmetric" : sy == 2 ? "hermitian" : "skew-symmetric"), "the banner names the type"); free(s);
  // comments or an empty line between banner and sizes
  int e = 0; while (tx[e] != '\n') e++; e++; static char rest[64]; int rn = 0; for (int k = e; k < tn; k++) rest[rn++] = tx[k]; tn = e; if (blank == 1) { put("%\n"); } if (blank == 2) put("\n\n"); for (int k = 0; k < rn; k++) ch(rest[k]); put("3 4 0.5 7\n"); file_put();
  f = fopen(FN, "r"); sym_assert(mm_read_banner(f, &rc) == 0, "the banner is accepted"); for (int k = 0; k < 4; k++) sym_assert(rc[k] == tc[k], "the banner gives the type"); int m2, n2, z2 = 1, r = dense ? mm_read_mtx_array_size(f, &m2, &n2) : mm_read_mtx_crd_size(f, &m2, &n2, &z2); sym_assert(r == 0 && m2 == M && n2 == N && z2 == 1, "sizes are read past comments and empty lines");
  if (!dense) { int I, J; double re = 9, im = 9; r = mm_read_mtx_crd_entry(f, &I, &J, &re, &im, rc); if (ar == 3) sym_assert(r == MM_UNSUPPORTED_TYPE, "integer entries are not supported"); else { sym_assert(r == 0 && I == 3 && J == 4, "an entry gives its place"); if (ar != 1) sym_assert(re == 0.5, "an entry gives its value"); if (ar == 2) sym_assert(im == 7, "a complex entry gives both parts"); } } fclose(f); sym_cover("end");
}
// any byte of the banner replaced, or the header cut short: refused, or unchanged in meaning; never out of bounds
ENTRY(h_mm_bad_header) {
  int how = sym_conc(sym_int("how", 0, 3)); const char *B = "%%MatrixMarket matrix coordinate real general"; int len = 0; while (B[len]) len++; int at = how < 2 ? sym_conc(sym_int("where", 0, len - 1)) : 0; MM_typecode rc; char old = B[at];
  if (how == 0) { put(B); int c = sym_int("byte", 1, 127); sym_assume(c != '\n'); tx[at] = (char)c; put("\n2 2 1\n"); } else if (how == 1) { for (int k = 0; k < at; k++) ch(B[k]); ch('\n'); } else if (how == 2) { int word = sym_conc(sym_int("word", 0, 4)), q = 0; for (int k = 0; k <= len; k++) { char c = k < len ? B[k] : '\n'; if (c == ' ' || c == '\n') { if (q == word) for (int z = 0; z < 80; z++) ch('e'); q++; } ch(c); } } else { int z = sym_conc(sym_int("tail", 0, 3)); put(B); ch('\n'); if (z > 0) put("%c\n"); if (z > 1) put(z == 2 ? "2 x 1\n" : "2 2\n"); }
  file_put(); FILE *f = fopen(FN, "r"); int r = mm_read_banner(f, &rc); 
  if (how == 0) { char c = tx[at]; int same = c == old || (at > 14 && old != ' ' && (c | 32) == old) || (old == ' ' && (c == '\t' || c == '\v' || c == '\f' || c == '\r')); if (!r) sym_assert(same, "a damaged banner is refused"); if (same) { sym_assert(!r, "an intact banner is accepted"); sym_cover("intact"); } } else if (how == 1) sym_assert(r != 0, "a truncated banner is refused"); else if (how == 2) { int word = 0; (void)word; sym_cover("long"); } else { sym_assert(r == 0, "the banner is intact"); int m, n, z; r = mm_read_mtx_crd_size(f, &m, &n, &z); sym_assert(r != 0, "missing sizes are reported"); sym_cover("sizes"); }
  fclose(f); sym_cover("end");
}
// valid header, then any bytes: either refused or a matrix of the promised size with indices in range
ENTRY(h_bad_entries) {
  int stream = sym_param("STREAM", 0), K = sym_param("K", 4); put("%%MatrixMarket matrix coordinate real general\n2 2 "); num(sym_param("E", 1)); ch('\n'); int k = sym_conc(sym_int("bytes", 0, K)); for (int q = 0; q < k; q++) ch(sym_int(nm("byte", q), 1, 127)); file_put(); sym_allow_throw(1); CSC *A = nullptr; int E = sym_param("E", 1);
  if (stream) { std::ifstream in(FN); read_mtx_csc_real(in, A, false); } else A = read_mtx(FN); if (!A) { sym_cover("refused"); sym_cover("end"); return; } sym_assert((int)A->m == 2 && (int)A->n == 2 && (int)A->nnz == E, "dimensions are those of the file"); sym_assert(A->p[0] == 0 && A->p[1] >= 0 && A->p[2] == E && A->p[1] <= E, "pointers are consistent"); for (int q = 0; q < E; q++) sym_assert(A->i[q] >= 0 && A->i[q] < 2, "row indices are within the matrix"); sym_cover("accepted"); sym_cover("end");
}
// ---- dense arrays ----
ENTRY(h_read_array) {
  int m = sym_conc(sym_int("m", 1, sym_param("M", 3))), n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 2))), ar = sym_conc(sym_int("arith", 0, 1)), co = sym_conc(sym_int("coordinate", 0, 1)), gone = sym_conc(sym_int("missing", 0, 1)), com = sym_conc(sym_int("comments", 0, 1)); double w[16]; Dense *D = nullptr;
  put("%%MatrixMarket matrix "); put(co ? "coordinate " : "array "); put(ar ? "complex" : "real"); put(" general\n"); if (com) put("%x 1 1\n"); num(m); ch(' '); num(n); if (co) put(" 1"); ch('\n'); static const char *T[] = {"1", "-2.5", "1.25e2"}; static const double TV[] = {1, -2.5, 125}; for (int k = 0; k < m * n; k++) { int q = sym_conc(sym_int(nm("val", k), 0, sym_param("VALS", 1))); put(T[q]); w[k] = TV[q]; ch(sym_conc(sym_int(nm("sep", k), 0, sym_param("SEP", 0))) ? ' ' : '\n'); }
  std::string name = FN; if (gone) name = "no_such_file.mtx"; else file_put(); int bad = gone || ar || co; if (bad) { sym_cover("refused"); sym_cover("end"); sym_allow_throw(1); } load_mtx_array_real(name, D); sym_assert(!bad, "a missing or unsuitable file is refused"); sym_assert(D && (int)D->row == m && (int)D->col == n, "dimensions are those of the file"); for (int k = 0; k < m * n; k++) sym_assert(D->a[k] == w[k], "values in the order of the file (by columns)");
  int fd = file_fd(); print_dense(fd, D); file_get(); Tok t; for (int r = 0; r < m; r++) for (int c = 0; c < n; c++) sym_assert(near(t.real(), w[r + c * m]), "a dense matrix is printed by rows"); sym_assert(!t.more(), "nothing else is printed"); delete D; sym_cover("end");
}
ENTRY(h_dense_csc) {
  int m = sym_conc(sym_int("m", 1, sym_param("M", 3))), n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 3))); double **v = new double *[m], xs[64]; int slot[64], cnt = 0; for (int r = 0; r < m; r++) { v[r] = dbuf(n); for (int c = 0; c < n; c++) { int on = sym_conc(sym_int(nm("on", r, c), 0, 1)); double d = 0; slot[r * n + c] = -1; if (on) { d = sym_num(nm("v", r, c), 1, 9); if (sym_conc(sym_int(nm("neg", r, c), 0, sym_param("NEG", 0)))) d = 0.0 - d; slot[r * n + c] = cnt; xs[cnt++] = d; } v[r][c] = d; } }
  sym_leak_begin(); CSC *A = dense_to_csc(m, n, v); sym_assert((int)A->m == m && (int)A->n == n && (int)A->nnz == cnt, "one entry per value that is not zero"); check_comp(n, m, A->p, A->i, A->x, xs, [&](int r, int c) { return slot[r * n + c]; }, 1, ""); delete A; sym_leak_check("dense_to_csc releases its work space"); sym_cover("end");
}
ENTRY(h_one_based) {
  int m = sym_conc(sym_int("m", 1, sym_param("M", 3))), n = sym_conc(sym_int("n", sym_param("NMIN", 1), sym_param("N", 3))), pat = sym_conc(sym_int("pattern", 0, 1)); Mat a = sym_mat(m, n, 8); CSC *A = csc_of(a, pat, 0); sym_leak_begin(); CSC *B = convert_to_one_based(A); sym_assert((int)B->m == m && (int)B->n == n && (int)B->nnz == a.nnz && B->is_pattern == A->is_pattern, "dimensions are kept"); for (int c = 0; c <= n; c++) sym_assert(B->p[c + 1] == a.p[c], "columns are numbered from 1"); for (int k = 0; k < a.nnz; k++) { sym_assert(B->i[k] == a.i[k] + 1, "rows are numbered from 1"); if (!pat) sym_assert(sym_feq(B->x[k], a.x[k]), "every value is carried over"); } delete B; sym_leak_check("the copy owns its storage"); sym_assert(mat_same(a, A->p, A->i, pat ? nullptr : A->x), "the matrix is unchanged"); sym_cover("end");
}
ENTRY(h_triplets) { // triplets in any order
  int m = sym_param("M", 3), n = sym_param("N", 3), ne = sym_conc(sym_int("entries", 0, sym_param("E", 3))), diag = m == n && sym_conc(sym_int("diag", 0, 1)), slot[64]; Ent e[16]; std::vector<triplet> t; for (int k = 0; k < m * n; k++) slot[k] = -1; for (int k = 0; k < ne; k++) { int at = sym_conc(sym_int(nm("at", k), 0, m * n - 1)); sym_assume(slot[at] < 0); slot[at] = k; e[k].r = at / n; e[k].c = at % n; e[k].v = sym_real(nm("v", k)); triplet q; q.row = e[k].r; q.col = e[k].c; q.val = e[k].v; t.push_back(q); }
  CSC *A = new CSC(m, n, ne, false, 0); compress_triplets_to_csc(t, A, diag); check_read(A, m, n, ne, e, slot, diag); delete A; sym_cover("end");
}
ENTRY(h_strings) { // file names and trimming, any characters
  int K = sym_param("K", 4), k = sym_conc(sym_int("len", 0, K)), what = sym_conc(sym_int("what", 0, 1)); static const char A0[] = "a./b", A1[] = "a \t\n"; char c[16]; std::string s; for (int q = 0; q < k; q++) { c[q] = (what ? A1 : A0)[sym_conc(sym_int(nm("c", q), 0, 3))]; s.push_back(c[q]); }
  if (!what) { std::string r = strip_name(s); int b = 0, e = k; for (int q = 0; q < k; q++) if (c[q] == '/') b = q + 1; for (int q = b; q < k; q++) if (c[q] == '.') e = q; sym_assert((int)r.size() == e - b, "the name of a file is what lies between its last / and its last dot"); for (int q = b; q < e; q++) sym_assert(r[q - b] == c[q], "the name is copied"); sym_cover("name"); }
  else { std::string l = s, r = s; ltrim(l); rtrim(r); trim(s); int b = 0, e = k; while (b < k && c[b] != 'a') b++; while (e > 0 && c[e - 1] != 'a') e--; if (b > e) b = e; sym_assert((int)s.size() == e - b && (int)r.size() == e, "spaces at the ends are removed"); int lb = 0; while (lb < k && c[lb] != 'a') lb++; sym_assert((int)l.size() == k - lb, "spaces at the start are removed"); for (int q = b; q < e; q++) sym_assert(s[q - b] == c[q], "the rest is kept"); sym_cover("trim"); }
  sym_cover("end");
}
