// Native counterpart of the executor intrinsics: reads one concrete input vector and runs the real code.
#include "sym.h"
#include <cstdio>
#include <cmath>
#include <map>
#include <string>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <exception>
static std::map<std::string, std::string> vals; static std::map<std::string, int> seen; static std::map<std::string, long> params; static bool throwOk = false; static unsigned long long lcg = 88172645463325252ull;
static std::string uniq(const char *n) { int k = seen[n]++; return k ? std::string(n) + "#" + std::to_string(k) : n; }
static void die(int rc, const char *tag, const char *msg) { fflush(stdout); fprintf(stderr, "VP-%s %s\n", tag, msg); _exit(rc); }
static long get(const char *n, long lo, long hi) { std::string k = uniq(n); if (lo > hi) die(78, "ASSUME", "empty range"); auto it = vals.find(k); if (it == vals.end()) { return lo; } return strtol(it->second.c_str(), 0, 10); }
extern "C" {
int sym_int(const char *n, int lo, int hi) { return (int)get(n, lo, hi); }
long sym_long(const char *n, long lo, long hi) { return get(n, lo, hi); }
double sym_num(const char *n, int lo, int hi) { return (double)get(n, lo, hi); }
double sym_real(const char *n) { uniq(n); lcg ^= lcg << 13; lcg ^= lcg >> 7; lcg ^= lcg << 17; return 1.0 + (double)(lcg % 1000003) / 1000003.0; }
int sym_param(const char *n, int d) { auto it = params.find(n); return it == params.end() ? d : (int)it->second; }
void sym_assume(int c) { if (!c) die(78, "ASSUME", "assumption not met"); }
void sym_assert(int c, const char *m) { if (!c) die(77, "ASSERT", m); }
void sym_cover(const char *n) { fprintf(stderr, "VP-COVER %s\n", n); }
int sym_conc(int v) { return v; }
void sym_shared(const void *) {}
int sym_feq(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b)) || (a != a && b != b); }
void sym_allow_throw(int on) { throwOk = on; }
int sym_is_symbolic() { return 0; }
void sym_leak_begin() {}
void sym_leak_check(const char *) {}
void sym_out(long v) { fprintf(stderr, "VP-OUT %ld\n", v); }
typedef void (*EntryFn)();
}
struct Ent { const char *name; EntryFn fn; };
#define H(x) extern "C" void x();
#include "entries.inc"
#undef H
static Ent ents[] = {
#define H(x) {#x, x},
#include "entries.inc"
#undef H
  {nullptr, nullptr}};
int main(int argc, char **argv) {
  if (argc < 3) return 2;
  std::ifstream f(argv[2]); std::string l;
  while (std::getline(f, l)) { std::istringstream is(l); std::string k, v; is >> k >> v; if (k.compare(0, 6, "param:") == 0) params[k.substr(6)] = atol(v.c_str()); else if (v != "real") vals[k] = v; }
  for (Ent *e = ents; e->name; e++) if (std::string(e->name) == argv[1]) {
    try { e->fn(); } catch (std::exception &ex) { if (throwOk) { fprintf(stderr, "VP-THROW\n"); _exit(0); } die(79, "EXCEPTION", ex.what()); } catch (...) { if (throwOk) { fprintf(stderr, "VP-THROW\n"); _exit(0); } die(79, "EXCEPTION", "?"); }
    fprintf(stderr, "VP-END\n"); fflush(stdout); _exit(0);
  }
  return 2;
}
