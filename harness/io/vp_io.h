// Stand-ins for the C and C++ file interfaces, so that the readers and writers are encoded down to the bytes of one
// file whose content is symbolic.  Same observable behaviour as the originals on the formats the library uses.
#pragma once
#define VP_SHIM 1
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cctype>
#include <string>
#include <iostream>
enum { VP_CAP = 4096 };
extern "C" { extern char vp_text[VP_CAP]; extern long vp_len; extern int vp_exists; }
struct VpSrc { const char *b; long pos, len; };
static inline bool vp_ws(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
static inline void vp_skip(VpSrc &s) { while (s.pos < s.len && vp_ws(s.b[s.pos])) s.pos++; }
static inline bool vp_digit(char c) { return c >= '0' && c <= '9'; }
static inline bool vp_long(VpSrc &s, long &v) {
  long q = s.pos; bool neg = false; if (q < s.len && (s.b[q] == '-' || s.b[q] == '+')) { neg = s.b[q] == '-'; q++; } if (q >= s.len || !vp_digit(s.b[q])) return false;
  long x = 0; while (q < s.len && vp_digit(s.b[q])) { x = x * 10 + (s.b[q] - '0'); q++; } v = neg ? -x : x; s.pos = q; return true;
}
static inline bool vp_double(VpSrc &s, double &v) {
  long q = s.pos; bool neg = false, any = false; if (q < s.len && (s.b[q] == '-' || s.b[q] == '+')) { neg = s.b[q] == '-'; q++; }
  long m = 0; int ex = 0; while (q < s.len && vp_digit(s.b[q])) { m = m * 10 + (s.b[q] - '0'); q++; any = true; }
  if (q < s.len && s.b[q] == '.') { q++; while (q < s.len && vp_digit(s.b[q])) { m = m * 10 + (s.b[q] - '0'); ex--; q++; any = true; } } if (!any) return false;
  if (q < s.len && (s.b[q] == 'e' || s.b[q] == 'E')) { long r = q + 1; bool en = false; if (r < s.len && (s.b[r] == '-' || s.b[r] == '+')) { en = s.b[r] == '-'; r++; } if (r < s.len && vp_digit(s.b[r])) { int e = 0; while (r < s.len && vp_digit(s.b[r])) { e = e * 10 + (s.b[r] - '0'); r++; } ex += en ? -e : e; q = r; } }
  double x = (double)m; if (neg) x = 0.0 - x; double p = 1; for (int k = 0; k < (ex < 0 ? -ex : ex); k++) p *= 10; if (ex < 0) x = x / p; else if (ex > 0) x = x * p; v = x; s.pos = q; return true;
}
static inline int vp_scan_impl(VpSrc &s, const char *f, void **a) {
  int got = 0, at = 0;
  for (; *f; f++) {
    if (vp_ws(*f)) { vp_skip(s); continue; }
    if (*f != '%') { if (s.pos >= s.len) return got ? got : -1; if (s.b[s.pos] != *f) return got; s.pos++; continue; }
    f++; int lng = 0, wid = 0; while (vp_digit(*f)) wid = wid * 10 + (*f++ - '0'); while (*f == 'l' || *f == 'z') { lng++; f++; } vp_skip(s); if (s.pos >= s.len) return got ? got : -1;
    if (*f == 'd' || *f == 'u') { long v; if (!vp_long(s, v)) return got; if (lng) *(long *)a[at++] = v; else *(int *)a[at++] = (int)v; }
    else if (*f == 'g' || *f == 'f' || *f == 'e') { double v; if (!vp_double(s, v)) return got; if (lng) *(double *)a[at++] = v; else *(float *)a[at++] = (float)v; }
    else if (*f == 's') { char *d = (char *)a[at++]; int k = 0; while (s.pos < s.len && !vp_ws(s.b[s.pos]) && (!wid || k < wid)) { *d++ = s.b[s.pos++]; k++; } *d = 0; }
    else abort();
    got++;
  }
  return got;
}
struct VpArg { long i; double d; const char *s; VpArg(int v) : i(v), d(0), s(0) {} VpArg(long v) : i(v), d(0), s(0) {} VpArg(unsigned long v) : i((long)v), d(0), s(0) {} VpArg(unsigned v) : i(v), d(0), s(0) {} VpArg(double v) : i(0), d(v), s(0) {} VpArg(const char *v) : i(0), d(0), s(v) {} VpArg(char *v) : i(0), d(0), s(v) {} };
static inline int vp_dec(char *o, long v) { char r[24]; int q = 0, k = 0; unsigned long u = v < 0 ? (unsigned long)(-v) : (unsigned long)v; do { r[q++] = (char)('0' + u % 10); u /= 10; } while (u); if (v < 0) o[k++] = '-'; while (q) o[k++] = r[--q]; return k; }
static inline int vp_fix(char *o, double d, int prec) { // %.<prec>f of a value that is exact at that precision, or rounded half away from zero
  int k = 0; if (d < 0) { o[k++] = '-'; d = 0.0 - d; } long w = (long)d; double fr = d - (double)w; long sc = 1; for (int t = 0; t < prec; t++) sc *= 10; long fv = (long)(fr * (double)sc + 0.5); if (fv >= sc) { fv -= sc; w++; }
  k += vp_dec(o + k, w); if (prec) { o[k++] = '.'; for (int t = 0; t < prec; t++) { sc /= 10; o[k++] = (char)('0' + (fv / sc) % 10); } } return k;
}
static inline int vp_gen(char *o, double d, int prec) { // %.<prec>g
  if (prec == 0) prec = 1; if (d == 0) { o[0] = '0'; return 1; } double a = d < 0 ? 0.0 - d : d; int e = 0; while (a >= 10) { a = a / 10; e++; } while (a < 1) { a = a * 10; e--; }
  char t[64]; int k; if (e < -4 || e >= prec) { double m = d < 0 ? 0.0 - a : a; k = vp_fix(t, m, prec - 1); } else k = vp_fix(t, d, prec - 1 - e > 12 ? 12 : prec - 1 - e);
  bool dot = false; for (int q = 0; q < k; q++) dot |= t[q] == '.'; if (dot) { while (t[k - 1] == '0') k--; if (t[k - 1] == '.') k--; } for (int q = 0; q < k; q++) o[q] = t[q];
  if (e < -4 || e >= prec) { o[k++] = 'e'; o[k++] = e < 0 ? '-' : '+'; int x = e < 0 ? -e : e; o[k++] = (char)('0' + x / 10); o[k++] = (char)('0' + x % 10); } return k;
}
static inline int vp_print_impl(char *o, const char *f, const VpArg *a) {
  int n = 0, at = 0;
  for (; *f; f++) {
    if (*f != '%') { o[n++] = *f; continue; } f++; if (*f == '%') { o[n++] = '%'; continue; }
    int w = 0, p = -1; while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0'); if (*f == '.') { f++; p = 0; while (*f >= '0' && *f <= '9') p = p * 10 + (*f++ - '0'); } while (*f == 'l' || *f == 'z') f++;
    char t[96]; int k = 0; const VpArg &x = a[at++]; if (*f == 'd' || *f == 'u') k = vp_dec(t, x.i); else if (*f == 'f') k = vp_fix(t, x.d, p < 0 ? 6 : p); else if (*f == 'g') k = vp_gen(t, x.d, p < 0 ? 6 : p); else if (*f == 's') { for (const char *c = x.s; *c; c++) o[n++] = *c; continue; } else abort();
    for (int q = k; q < w; q++) o[n++] = ' '; for (int q = 0; q < k; q++) o[n++] = t[q];
  }
  return n;
}
struct VpFile { VpSrc s; int writing; };
static inline FILE *vp_fopen(const char *, const char *mode) { int wr = mode[0] == 'w'; if (!wr && !vp_exists) return nullptr; if (wr) { vp_len = 0; vp_exists = 1; } VpFile *f = (VpFile *)malloc(sizeof(VpFile)); f->s.b = vp_text; f->s.pos = 0; f->s.len = vp_len; f->writing = wr; return (FILE *)f; }
static inline int vp_fclose(FILE *f) { free(f); return 0; }
static inline char *vp_fgets(char *b, int n, FILE *ff) { VpSrc &s = ((VpFile *)ff)->s; if (s.pos >= s.len) return nullptr; int k = 0; while (k < n - 1 && s.pos < s.len) { char c = s.b[s.pos++]; b[k++] = c; if (c == '\n') break; } b[k] = 0; return b; }
template <class... A> static inline int vp_fscanf(FILE *f, const char *fmt, A... a) { void *p[] = {(void *)a...}; return vp_scan_impl(((VpFile *)f)->s, fmt, p); }
template <class... A> static inline int vp_sscanf(const char *b, const char *fmt, A... a) { void *p[] = {(void *)a...}; VpSrc s; s.b = b; s.pos = 0; s.len = 0; while (b[s.len]) s.len++; return vp_scan_impl(s, fmt, p); }
template <class... A> static inline int vp_append(const char *fmt, A... a) { VpArg p[] = {VpArg(a)..., VpArg(0)}; int k = vp_print_impl(vp_text + vp_len, fmt, p); vp_len += k; return k; }
template <class... A> static inline int vp_fprintf(FILE *f, const char *fmt, A... a) { if (f == stderr || f == stdout) return 0; return vp_append(fmt, a...); }
template <class... A> static inline int vp_dprintf(int, const char *fmt, A... a) { return vp_append(fmt, a...); }
template <class... A> static inline int vp_sprintf(char *b, const char *fmt, A... a) { VpArg p[] = {VpArg(a)..., VpArg(0)}; int k = vp_print_impl(b, fmt, p); b[k] = 0; return k; }
#define fopen vp_fopen
#define fclose vp_fclose
#define fgets vp_fgets
#define fscanf vp_fscanf
#define sscanf vp_sscanf
#define fprintf vp_fprintf
#define dprintf vp_dprintf
#define sprintf vp_sprintf
// input streams over the same file or over a string
class vp_in {
public:
  VpSrc s; bool failed, ended, opened; std::string own;
  vp_in() : failed(false), ended(false), opened(true) { s.b = nullptr; s.pos = s.len = 0; }
  explicit operator bool() const { return !failed; }
  bool operator!() const { return failed; }
  bool eof() const { return ended; }
  bool fail() const { return failed; }
  bool good() const { return !failed && !ended; }
  bool is_open() const { return opened; }
  void close() { opened = false; }
  bool ready() { if (failed || ended) { failed = true; return false; } vp_skip(s); if (s.pos >= s.len) { ended = failed = true; return false; } return true; }
  void done(bool ok) { if (!ok) failed = true; if (s.pos >= s.len) ended = true; }
  vp_in &operator>>(int &v) { if (ready()) { long x = 0; bool ok = vp_long(s, x); v = ok ? (int)x : 0; done(ok); } return *this; }
  vp_in &operator>>(unsigned long &v) { if (ready()) { long x = 0; bool ok = vp_long(s, x); v = ok ? (unsigned long)x : 0; done(ok); } return *this; }
  vp_in &operator>>(double &v) { if (ready()) { double x = 0; bool ok = vp_double(s, x); v = ok ? x : 0; done(ok); } return *this; }
  vp_in &operator>>(std::string &v) { if (ready()) { v.clear(); while (s.pos < s.len && !vp_ws(s.b[s.pos])) v.push_back(s.b[s.pos++]); done(true); } return *this; }
  vp_in &line(std::string &v) { v.clear(); if (failed || ended) { failed = true; return *this; } bool any = false; for (;;) { if (s.pos >= s.len) { ended = true; if (!any) failed = true; break; } any = true; char c = s.b[s.pos++]; if (c == '\n') break; v.push_back(c); } return *this; }
  std::streampos tellg() { return failed ? std::streampos(-1) : std::streampos(s.pos); }
  vp_in &seekg(std::streampos p) { if (!failed) { s.pos = (long)std::streamoff(p); ended = false; } return *this; }
};
namespace std {
inline vp_in &getline(vp_in &i, string &s) { return i.line(s); }
template <> class basic_ifstream<char, char_traits<char>> : public vp_in { public: basic_ifstream() { opened = false; } explicit basic_ifstream(const string &) { open(); } explicit basic_ifstream(const char *) { open(); } void open() { opened = vp_exists; failed = !opened; s.b = vp_text; s.pos = 0; s.len = vp_len; } };
template <> class basic_istringstream<char, char_traits<char>, allocator<char>> : public vp_in { public: explicit basic_istringstream(const string &t) { own = t; s.b = own.data(); s.len = (long)own.size(); } };
template <> class basic_stringstream<char, char_traits<char>, allocator<char>> : public vp_in { public: explicit basic_stringstream(const string &t) { own = t; s.b = own.data(); s.len = (long)own.size(); } };
template <> class basic_ofstream<char, char_traits<char>> { public: basic_ofstream() = default; explicit basic_ofstream(const string &) { vp_len = 0; vp_exists = 1; } bool is_open() { return true; } void close() {} };
}
