// Hash-consed bit-vector expressions with interval tracking.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <functional>
#include <z3.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int32_t i32; typedef int64_t i64;

enum Kind : u8 {
  K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_NOT, K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_SLT,
  K_ITE, K_ZEXT, K_SEXT, K_EXTRACT, K_CONCAT,
  K_FINT,  // double whose value is exactly the (signed) integer a[0] (64 bit)
  K_FUF    // double term of an uninterpreted operation c over a[]
};

struct Expr {
  Kind k; u8 w; u8 nargs; bool undef; bool ctree; u16 csize;
  u32 id;
  u64 c;            // constant / var index / extract offset / uf op
  Expr *a[3];
  i64 lo, hi;       // signed interval (w==1: 0..1)
  Z3_ast z;
  u32 stamp; u64 ev;
};

static inline u64 maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sextw(u64 v, int w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w))) >> (64 - w); }
static inline i64 minw(int w) { return w == 1 ? 0 : (w >= 64 ? INT64_MIN : -(1ll << (w - 1))); }
static inline i64 maxw(int w) { return w == 1 ? 1 : (w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1); }

enum UFOp { UF_ADD = 1, UF_MUL, UF_DIV, UF_NEG, UF_SQRT, UF_ABS, UF_OTHER = 16 };

struct VarInfo { std::string name; int w; i64 lo, hi; bool undef; bool real; };

struct ExprPool {
  std::vector<Expr*> all;
  std::vector<VarInfo> vars;
  std::vector<Expr*> table; u64 tmask; u64 tcount;
  char *chunk; size_t chunkLeft;
  size_t bytes = 0;
  ExprPool() : tmask((1 << 16) - 1), tcount(0), chunk(nullptr), chunkLeft(0) { table.assign(tmask + 1, nullptr); }
  static u64 hashOf(Kind k, int w, u64 c, Expr *a, Expr *b, Expr *d) {
    u64 h = (u64)k * 0x9E3779B97F4A7C15ull + w * 0xC2B2AE3D27D4EB4Full + c * 0x165667B19E3779F9ull;
    h ^= h >> 29;
    h = (h + (u64)(a ? a->id + 1 : 0)) * 0xBF58476D1CE4E5B9ull; h ^= h >> 31;
    h = (h + (u64)(b ? b->id + 1 : 0)) * 0x94D049BB133111EBull; h ^= h >> 30;
    h = (h + (u64)(d ? d->id + 1 : 0)) * 0xBF58476D1CE4E5B9ull; h ^= h >> 29;
    return h;
  }
  Expr *intern(Kind k, int w, u64 c, Expr *a, Expr *b, Expr *d) {
    u64 h = hashOf(k, w, c, a, b, d);
    u64 i = h & tmask;
    while (Expr *e = table[i]) {
      if (e->k == k && e->w == w && e->c == c && e->a[0] == a && e->a[1] == b && e->a[2] == d) return e;
      i = (i + 1) & tmask;
    }
    if (chunkLeft < sizeof(Expr)) { chunkLeft = sizeof(Expr) * 4096; chunk = (char*)malloc(chunkLeft); bytes += chunkLeft; }
    Expr *e = (Expr*)chunk; chunk += sizeof(Expr); chunkLeft -= sizeof(Expr);
    e->k = k; e->w = w; e->c = c; e->a[0] = a; e->a[1] = b; e->a[2] = d;
    e->nargs = d ? 3 : b ? 2 : a ? 1 : 0;
    e->id = (u32)all.size(); e->z = nullptr; e->stamp = 0; e->ev = 0;
    e->undef = (a && a->undef) || (b && b->undef) || (d && d->undef);
    e->ctree = false; e->csize = 1;
    e->lo = minw(w); e->hi = maxw(w);
    all.push_back(e);
    table[i] = e; tcount++;
    if (tcount * 2 > tmask) grow();
    finish(e);
    return e;
  }
  void grow() {
    u64 nm = tmask * 2 + 1; std::vector<Expr*> nt(nm + 1, nullptr);
    for (Expr *e : all) { u64 i = hashOf(e->k, e->w, e->c, e->a[0], e->a[1], e->a[2]) & nm; while (nt[i]) i = (i + 1) & nm; nt[i] = e; }
    table.swap(nt); tmask = nm;
  }
  void finish(Expr *e);
  // ---- constructors ----
  Expr *cst(u64 v, int w) { return intern(K_CONST, w, v & maskw(w), 0, 0, 0); }
  Expr *var(const std::string &name, int w, i64 lo, i64 hi, bool undef, bool real = false) {
    u64 id = vars.size(); vars.push_back({name, w, lo, hi, undef, real});
    Expr *e = intern(K_VAR, w, id, 0, 0, 0);
    e->lo = lo; e->hi = hi; e->undef = undef; return e;
  }
  bool isC(Expr *e) { return e->k == K_CONST; }
  bool isC(Expr *e, u64 v) { return e->k == K_CONST && e->c == (v & maskw(e->w)); }
  Expr *add(Expr *a, Expr *b); Expr *sub(Expr *a, Expr *b); Expr *mul(Expr *a, Expr *b);
  Expr *bin(Kind k, Expr *a, Expr *b);
  Expr *band(Expr *a, Expr *b); Expr *bor(Expr *a, Expr *b); Expr *bxor(Expr *a, Expr *b); Expr *bnot(Expr *a);
  Expr *eq(Expr *a, Expr *b); Expr *ult(Expr *a, Expr *b); Expr *slt(Expr *a, Expr *b);
  Expr *ule(Expr *a, Expr *b) { return bnot(ult(b, a)); }
  Expr *sle(Expr *a, Expr *b) { return bnot(slt(b, a)); }
  Expr *ite(Expr *c, Expr *a, Expr *b);
  Expr *zext(Expr *a, int w); Expr *sext(Expr *a, int w); Expr *extract(Expr *a, int off, int w); Expr *concat(Expr *hi, Expr *lo);
  Expr *fint(Expr *a) ; Expr *fuf(int op, Expr *a, Expr *b);
  Expr *mapTree(Expr *t, const std::function<Expr*(Expr*)> &f, std::unordered_map<Expr*, Expr*> &memo) {
    if (t->k != K_ITE) return f(t);
    auto it = memo.find(t); if (it != memo.end()) return it->second;
    Expr *r = ite(t->a[0], mapTree(t->a[1], f, memo), mapTree(t->a[2], f, memo));
    memo[t] = r; return r;
  }
  Expr *mapTree(Expr *t, const std::function<Expr*(Expr*)> &f) { std::unordered_map<Expr*, Expr*> m; return mapTree(t, f, m); }
  bool tree(Expr *e) { return e->k == K_ITE && e->ctree && e->csize <= 96; }
};

extern ExprPool P;

// Evaluate a concrete operation (shared by folding, model evaluation).
u64 evalOp(Kind k, int w, u64 c, u64 a, u64 b, u64 d, int wa, int wb);
