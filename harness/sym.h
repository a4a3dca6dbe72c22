// Interface between the harnesses and the symbolic executor (or the native replay runtime).
#pragma once
#include <cstddef>
#include <cstdlib>
#include <cstring>
extern "C" {
int sym_int(const char *name, int lo, int hi);
long sym_long(const char *name, long lo, long hi);
double sym_num(const char *name, int lo, int hi);   // a double that is some integer in [lo,hi]
double sym_real(const char *name);                  // any double (operations on it are uninterpreted)
int sym_param(const char *name, int dflt);          // concrete bound chosen by the driver
void sym_assume(int c);
void sym_assert(int c, const char *msg);
void sym_cover(const char *name);                   // vacuity witness: some path must reach it
int sym_conc(int v);                                // fork until v has one value
void sym_shared(const void *p);                        // accesses of parallel threads to this object are scheduling points
int sym_feq(double a, double b);                    // same double term (EUF) / equal up to rounding in replay
void sym_allow_throw(int on);
int sym_is_symbolic();
void sym_leak_begin();
void sym_leak_check(const char *msg);
}

// builds "base" + a + "_" + b without libc formatting
static inline const char *nm(const char *base, int a = -1, int b = -1) {
  static char buf[96]; int k = 0; while (base[k]) { buf[k] = base[k]; k++; }
  for (int t = 0; t < 2; t++) {
    int v = t ? b : a; if (v < 0) break;
    if (t) buf[k++] = '_';
    char r[12]; int q = 0; do { r[q++] = (char)('0' + v % 10); v /= 10; } while (v);
    while (q) buf[k++] = r[--q];
  }
  buf[k] = 0; return buf;
}
extern "C" void sym_out(long v);                    // output trace, compared between executor and native run
#define ENTRY(x) extern "C" void x()
