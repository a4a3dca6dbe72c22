#include "expr.hpp"
ExprPool P;

static double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 asU(double d) { u64 v; memcpy(&v, &d, 8); return v; }

u64 evalOp(Kind k, int w, u64 c, u64 a, u64 b, u64 d, int wa, int wb) {
  u64 m = maskw(w);
  switch (k) {
  case K_ADD: return (a + b) & m;
  case K_SUB: return (a - b) & m;
  case K_MUL: return (a * b) & m;
  case K_UDIV: return b ? (a / b) & m : m;
  case K_SDIV: { i64 x = sextw(a, w), y = sextw(b, w); if (!y) return (x < 0 ? 1 : m); if (y == -1) return (0 - (u64)x) & m; return (u64)(x / y) & m; }
  case K_UREM: return b ? (a % b) & m : a;
  case K_SREM: { i64 x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
  case K_AND: return a & b;
  case K_OR: return a | b;
  case K_XOR: return a ^ b;
  case K_NOT: return (~a) & m;
  case K_SHL: return b >= (u64)w ? 0 : (a << b) & m;
  case K_LSHR: return b >= (u64)w ? 0 : (a >> b) & m;
  case K_ASHR: { i64 x = sextw(a, w); return (u64)(x >> (b >= (u64)w ? w - 1 : b)) & m; }
  case K_EQ: return a == b;
  case K_ULT: return a < b;
  case K_SLT: return sextw(a, wa) < sextw(b, wb);
  case K_ITE: return a ? b : d;
  case K_ZEXT: return a;
  case K_SEXT: return (u64)sextw(a, wa) & m;
  case K_EXTRACT: return (a >> c) & m;
  case K_CONCAT: return ((a << wb) | b) & m;
  case K_FINT: return asU((double)(i64)a);
  case K_FUF: {
    double x = asD(a), y = asD(b);
    switch (c) { case UF_ADD: return asU(x + y); case UF_MUL: return asU(x * y); case UF_DIV: return asU(x / y);
      case UF_NEG: return asU(-x); case UF_SQRT: return asU(std::sqrt(x)); case UF_ABS: return asU(std::fabs(x)); }
    return 0;
  }
  default: abort();
  }
}

static inline bool addOv(i64 a, i64 b, i64 &r) { return __builtin_add_overflow(a, b, &r); }

void ExprPool::finish(Expr *e) {
  Expr *a = e->a[0], *b = e->a[1], *d = e->a[2];
  int w = e->w;
  switch (e->k) {
  case K_CONST: e->lo = e->hi = (w == 1 ? (i64)e->c : sextw(e->c, w)); break;
  case K_ADD: { i64 l, h; if (w > 1 && !addOv(a->lo, b->lo, l) && !addOv(a->hi, b->hi, h) && l >= minw(w) && h <= maxw(w)) { e->lo = l; e->hi = h; } break; }
  case K_SUB: { i64 l, h; if (w > 1 && !__builtin_sub_overflow(a->lo, b->hi, &l) && !__builtin_sub_overflow(a->hi, b->lo, &h) && l >= minw(w) && h <= maxw(w)) { e->lo = l; e->hi = h; } break; }
  case K_MUL: {
    if (w == 1) break;
    i64 c[4]; bool ov = __builtin_mul_overflow(a->lo, b->lo, &c[0]) | __builtin_mul_overflow(a->lo, b->hi, &c[1]) | __builtin_mul_overflow(a->hi, b->lo, &c[2]) | __builtin_mul_overflow(a->hi, b->hi, &c[3]);
    if (ov) break; i64 l = c[0], h = c[0]; for (int i = 1; i < 4; i++) { if (c[i] < l) l = c[i]; if (c[i] > h) h = c[i]; }
    if (l >= minw(w) && h <= maxw(w)) { e->lo = l; e->hi = h; } break; }
  case K_SHL: if (w > 1 && b->k == K_CONST && b->c < 62) { i64 l, h; i64 f = 1ll << b->c; if (!__builtin_mul_overflow(a->lo, f, &l) && !__builtin_mul_overflow(a->hi, f, &h) && l >= minw(w) && h <= maxw(w)) { e->lo = l; e->hi = h; } } break;
  case K_LSHR: if (w > 1 && a->lo >= 0) { if (b->k == K_CONST && b->c < 64) { e->lo = a->lo >> b->c; e->hi = a->hi >> b->c; } else { e->lo = 0; e->hi = a->hi; } } break;
  case K_ASHR: if (w > 1 && b->k == K_CONST && b->c < (u64)w) { e->lo = a->lo >> b->c; e->hi = a->hi >> b->c; } break;
  case K_UDIV: case K_SDIV: if (w > 1 && a->lo >= 0 && b->lo > 0) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
  case K_UREM: case K_SREM: if (w > 1 && a->lo >= 0 && b->lo > 0) { e->lo = 0; e->hi = std::min(a->hi, b->hi - 1); } break;
  case K_AND: if (w > 1) { if (a->lo >= 0 && b->lo >= 0) { e->lo = 0; e->hi = std::min(a->hi, b->hi); } else if (a->lo >= 0) { e->lo = 0; e->hi = a->hi; } else if (b->lo >= 0) { e->lo = 0; e->hi = b->hi; } } break;
  case K_OR: case K_XOR: if (w > 1 && a->lo >= 0 && b->lo >= 0) { u64 m = (u64)a->hi | (u64)b->hi; m |= m >> 1; m |= m >> 2; m |= m >> 4; m |= m >> 8; m |= m >> 16; m |= m >> 32; e->lo = 0; e->hi = (i64)m; } break;
  case K_ITE: e->lo = std::min(b->lo, d->lo); e->hi = std::max(b->hi, d->hi);
    e->ctree = (b->k == K_CONST || b->ctree) && (d->k == K_CONST || d->ctree);
    { u32 s = (u32)b->csize + d->csize + 1; e->csize = s > 60000 ? 60000 : s; } break;
  case K_ZEXT: if (a->w == 1) { e->lo = 0; e->hi = 1; } else if (a->lo >= 0) { e->lo = a->lo; e->hi = a->hi; } else { e->lo = 0; e->hi = (i64)maskw(a->w); } break;
  case K_SEXT: if (a->w == 1) { e->lo = -1; e->hi = 0; } else { e->lo = a->lo; e->hi = a->hi; } break;
  case K_EXTRACT: if (e->c == 0 && w > 1 && a->lo >= minw(w) && a->hi <= maxw(w)) { e->lo = a->lo; e->hi = a->hi; } break;
  default: break;
  }
}

Expr *ExprPool::add(Expr *a, Expr *b) {
  int w = a->w;
  if (isC(a)) std::swap(a, b);
  if (isC(a)) return cst(a->c + b->c, w);
  if (isC(b)) {
    if (b->c == 0) return a;
    if (a->k == K_ADD && isC(a->a[1])) return add(a->a[0], cst(a->a[1]->c + b->c, w));
    if (tree(a)) return mapTree(a, [&](Expr *l) { return cst(l->c + b->c, w); });
    return intern(K_ADD, w, 0, a, b, 0);
  }
  if (w == 1) return bxor(a, b);
  if (a->k == K_ADD && isC(a->a[1])) return add(add(a->a[0], b), a->a[1]);
  if (b->k == K_ADD && isC(b->a[1])) return add(add(a, b->a[0]), b->a[1]);
  if (a->id > b->id) std::swap(a, b);
  return intern(K_ADD, w, 0, a, b, 0);
}
Expr *ExprPool::sub(Expr *a, Expr *b) {
  int w = a->w;
  if (a == b) return cst(0, w);
  if (isC(b)) return add(a, cst(0 - b->c, w));
  if (tree(b) && isC(a)) return mapTree(b, [&](Expr *l) { return cst(a->c - l->c, w); });
  if (w == 1) return bxor(a, b);
  // (x + c) - x, (x+c)-(x+d)
  { Expr *xa = a, *xb = b; u64 ca = 0, cb = 0;
    if (a->k == K_ADD && isC(a->a[1])) { xa = a->a[0]; ca = a->a[1]->c; }
    if (b->k == K_ADD && isC(b->a[1])) { xb = b->a[0]; cb = b->a[1]->c; }
    if (xa == xb) return cst(ca - cb, w);
    if (ca != cb && (xa != a || xb != b)) return add(sub(xa, xb), cst(ca - cb, w)); }
  return intern(K_SUB, w, 0, a, b, 0);
}
Expr *ExprPool::mul(Expr *a, Expr *b) {
  int w = a->w;
  if (isC(a)) std::swap(a, b);
  if (isC(a)) return cst(a->c * b->c, w);
  if (isC(b)) {
    if (b->c == 0) return b;
    if (b->c == 1) return a;
    if (tree(a)) return mapTree(a, [&](Expr *l) { return cst(l->c * b->c, w); });
    if (a->k == K_ADD && isC(a->a[1])) return add(mul(a->a[0], b), cst(a->a[1]->c * b->c, w));
    if ((b->c & (b->c - 1)) == 0) return bin(K_SHL, a, cst(__builtin_ctzll(b->c), w));
    return intern(K_MUL, w, 0, a, b, 0);
  }
  if (a->id > b->id) std::swap(a, b);
  return intern(K_MUL, w, 0, a, b, 0);
}
Expr *ExprPool::bin(Kind k, Expr *a, Expr *b) {
  int w = a->w;
  switch (k) {
  case K_ADD: return add(a, b); case K_SUB: return sub(a, b); case K_MUL: return mul(a, b);
  case K_AND: return band(a, b); case K_OR: return bor(a, b); case K_XOR: return bxor(a, b);
  default: break;
  }
  if (isC(a) && isC(b)) return cst(evalOp(k, w, 0, a->c, b->c, 0, w, w), w);
  if (tree(a) && isC(b)) return mapTree(a, [&](Expr *l) { return cst(evalOp(k, w, 0, l->c, b->c, 0, w, w), w); });
  if (isC(a) && tree(b)) return mapTree(b, [&](Expr *l) { return cst(evalOp(k, w, 0, a->c, l->c, 0, w, w), w); });
  if (isC(b)) {
    if (b->c == 0 && (k == K_SHL || k == K_LSHR || k == K_ASHR)) return a;
    if (b->c == 1 && (k == K_UDIV || k == K_SDIV)) return a;
    if (k == K_SHL && a->k == K_ADD && isC(a->a[1])) return add(bin(K_SHL, a->a[0], b), cst(evalOp(K_SHL, w, 0, a->a[1]->c, b->c, 0, w, w), w));
    if (k == K_SHL && a->k == K_SHL && isC(a->a[1])) return bin(K_SHL, a->a[0], cst(a->a[1]->c + b->c, w));
    if (k == K_ASHR && a->k == K_SHL && isC(a->a[1]) && a->a[1]->c == b->c) {
      i64 f = 1ll << (b->c < 62 ? b->c : 62), l, h; Expr *x = a->a[0];
      if (b->c < 62 && !__builtin_mul_overflow(x->lo, f, &l) && !__builtin_mul_overflow(x->hi, f, &h) && l >= minw(w) && h <= maxw(w)) return x;
    }
    if (k == K_ASHR && a->lo >= 0) return bin(K_LSHR, a, b);
    if (k == K_LSHR && a->lo >= 0 && b->c < 63 && (a->hi >> b->c) == 0) return cst(0, w);
    if (k == K_LSHR && a->k == K_SHL && isC(a->a[1]) && a->a[1]->c == b->c && a->a[0]->lo >= 0 && a->hi == (i64)((u64)a->a[0]->hi << b->c)) return a->a[0];
    if (k == K_SDIV && a->lo >= 0 && (i64)sextw(b->c, w) > 0) return bin(K_UDIV, a, b);
    if (k == K_SREM && a->lo >= 0 && (i64)sextw(b->c, w) > 0) return bin(K_UREM, a, b);
    if (k == K_UREM && a->lo >= 0 && a->hi < (i64)b->c) return a;
    if (k == K_UDIV && (b->c & (b->c - 1)) == 0 && b->c) return bin(K_LSHR, a, cst(__builtin_ctzll(b->c), w));
    if (k == K_UREM && (b->c & (b->c - 1)) == 0 && b->c) return band(a, cst(b->c - 1, w));
  }
  if (isC(a) && a->c == 0 && (k == K_SHL || k == K_LSHR || k == K_ASHR)) return a;
  return intern(k, w, 0, a, b, 0);
}
Expr *ExprPool::band(Expr *a, Expr *b) {
  int w = a->w;
  if (a == b) return a;
  if (isC(a)) std::swap(a, b);
  if (isC(a)) return cst(a->c & b->c, w);
  if (isC(b)) {
    if (b->c == 0) return b;
    if (b->c == maskw(w)) return a;
    if (tree(a)) return mapTree(a, [&](Expr *l) { return cst(l->c & b->c, w); });
    // low mask covering the whole range
    if (a->lo >= 0 && ((b->c + 1) & b->c) == 0 && (u64)a->hi <= b->c) return a;
    if (a->k == K_AND && isC(a->a[1])) return band(a->a[0], cst(a->a[1]->c & b->c, w));
  }
  if (w == 1) {
    if (a->k == K_NOT && a->a[0] == b) return cst(0, 1);
    if (b->k == K_NOT && b->a[0] == a) return cst(0, 1);
    // absorption one level
    if (a->k == K_AND && (a->a[0] == b || a->a[1] == b)) return a;
    if (b->k == K_AND && (b->a[0] == a || b->a[1] == a)) return b;
  }
  if (a->id > b->id && !isC(b)) std::swap(a, b);
  return intern(K_AND, w, 0, a, b, 0);
}
Expr *ExprPool::bor(Expr *a, Expr *b) {
  int w = a->w;
  if (a == b) return a;
  if (isC(a)) std::swap(a, b);
  if (isC(a)) return cst(a->c | b->c, w);
  if (isC(b)) {
    if (b->c == 0) return a;
    if (b->c == maskw(w)) return b;
    if (tree(a)) return mapTree(a, [&](Expr *l) { return cst(l->c | b->c, w); });
  }
  if (w == 1) {
    if (a->k == K_NOT && a->a[0] == b) return cst(1, 1);
    if (b->k == K_NOT && b->a[0] == a) return cst(1, 1);
    if (a->k == K_NOT && b->k == K_NOT) return bnot(band(a->a[0], b->a[0]));
  }
  if (a->id > b->id && !isC(b)) std::swap(a, b);
  return intern(K_OR, w, 0, a, b, 0);
}
Expr *ExprPool::bxor(Expr *a, Expr *b) {
  int w = a->w;
  if (a == b) return cst(0, w);
  if (isC(a)) std::swap(a, b);
  if (isC(a)) return cst(a->c ^ b->c, w);
  if (isC(b)) {
    if (b->c == 0) return a;
    if (b->c == maskw(w)) return bnot(a);
    if (tree(a)) return mapTree(a, [&](Expr *l) { return cst(l->c ^ b->c, w); });
  }
  if (w == 1) { if (a->k == K_NOT) return bnot(bxor(a->a[0], b)); if (b->k == K_NOT) return bnot(bxor(a, b->a[0])); return bnot(eq(a, b)); }
  if (a->id > b->id && !isC(b)) std::swap(a, b);
  return intern(K_XOR, w, 0, a, b, 0);
}
Expr *ExprPool::bnot(Expr *a) {
  if (isC(a)) return cst(~a->c, a->w);
  if (a->k == K_NOT) return a->a[0];
  if (tree(a)) return mapTree(a, [&](Expr *l) { return cst(~l->c, l->w); });
  return intern(K_NOT, a->w, 0, a, 0, 0);
}
Expr *ExprPool::eq(Expr *a, Expr *b) {
  if (a == b) return cst(1, 1);
  if (isC(a)) std::swap(a, b);
  if (isC(a)) return cst(a->c == b->c, 1);
  int w = a->w;
  if (w == 1) { if (isC(b)) return b->c ? a : bnot(a); if (a->k == K_NOT && b->k == K_NOT) return eq(a->a[0], b->a[0]); }
  else {
    if (a->k == K_FINT && b->k == K_FINT) return eq(a->a[0], b->a[0]);
    if (a->k != K_FUF && b->k != K_FUF && a->k != K_FINT && b->k != K_FINT && (a->hi < b->lo || b->hi < a->lo)) return cst(0, 1);
    if (isC(b)) {
      if (tree(a)) return mapTree(a, [&](Expr *l) { return cst(l->c == b->c, 1); });
      if (a->k == K_ADD && isC(a->a[1])) return eq(a->a[0], cst(b->c - a->a[1]->c, w));
      if (a->k == K_SEXT) { u64 t = b->c & maskw(a->a[0]->w); if (((u64)sextw(t, a->a[0]->w) & maskw(w)) != b->c) return cst(0, 1); return eq(a->a[0], cst(t, a->a[0]->w)); }
      if (a->k == K_ZEXT) { u64 t = b->c & maskw(a->a[0]->w); if (t != b->c) return cst(0, 1); return eq(a->a[0], cst(t, a->a[0]->w)); }
      if (a->k == K_SHL && isC(a->a[1]) && a->a[1]->c < 62) {
        u64 s = a->a[1]->c; Expr *x = a->a[0]; i64 f = 1ll << s, l, h;
        if (!__builtin_mul_overflow(x->lo, f, &l) && !__builtin_mul_overflow(x->hi, f, &h) && l >= minw(w) && h <= maxw(w)) {
          if (b->c & ((1ull << s) - 1)) return cst(0, 1);
          return eq(x, cst((u64)(sextw(b->c, w) >> s), w));
        }
      }
      if (a->k == K_MUL && isC(a->a[1])) {
        i64 f = sextw(a->a[1]->c, w), l, h; Expr *x = a->a[0];
        if (f > 0 && !__builtin_mul_overflow(x->lo, f, &l) && !__builtin_mul_overflow(x->hi, f, &h) && l >= minw(w) && h <= maxw(w)) {
          i64 t = sextw(b->c, w); if (t % f) return cst(0, 1); return eq(x, cst((u64)(t / f), w));
        }
      }
      if (a->k == K_ITE) {
        if (isC(a->a[1])) { if (a->a[1]->c == b->c) return bor(a->a[0], eq(a->a[2], b)); return band(bnot(a->a[0]), eq(a->a[2], b)); }
        if (isC(a->a[2])) { if (a->a[2]->c == b->c) return bor(bnot(a->a[0]), eq(a->a[1], b)); return band(a->a[0], eq(a->a[1], b)); }
      }
    } else {
      if (a->k == K_SEXT && b->k == K_SEXT && a->a[0]->w == b->a[0]->w) return eq(a->a[0], b->a[0]);
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a[0]->w == b->a[0]->w) return eq(a->a[0], b->a[0]);
      if (a->k == K_ADD && isC(a->a[1]) && b->k == K_ADD && isC(b->a[1]) && a->a[1] == b->a[1]) return eq(a->a[0], b->a[0]);
    }
  }
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return intern(K_EQ, 1, 0, a, b, 0);
}
Expr *ExprPool::slt(Expr *a, Expr *b) {
  int w = a->w;
  if (a == b) return cst(0, 1);
  if (isC(a) && isC(b)) return cst(sextw(a->c, w) < sextw(b->c, w), 1);
  if (w > 1) {
    if (a->hi < b->lo) return cst(1, 1);
    if (a->lo >= b->hi) return cst(0, 1);
    if (isC(b)) {
      if (tree(a)) return mapTree(a, [&](Expr *l) { return cst(sextw(l->c, w) < sextw(b->c, w), 1); });
      i64 t = sextw(b->c, w);
      if (a->lo == t - 1 && t != INT64_MIN) return eq(a, cst((u64)(t - 1), w));
      if (a->hi == t && t != INT64_MIN) return bnot(eq(a, b));
      if (a->k == K_ADD && isC(a->a[1])) { i64 k = sextw(a->a[1]->c, w), l, h, nt; Expr *x = a->a[0];
        if (!__builtin_add_overflow(x->lo, k, &l) && !__builtin_add_overflow(x->hi, k, &h) && l >= minw(w) && h <= maxw(w) && !__builtin_sub_overflow(t, k, &nt) && nt >= minw(w) && nt <= maxw(w)) return slt(x, cst((u64)nt, w)); }
      if (a->k == K_SEXT && t >= minw(a->a[0]->w) && t <= maxw(a->a[0]->w) && a->a[0]->w > 1) return slt(a->a[0], cst((u64)t, a->a[0]->w));
    } else if (isC(a)) {
      if (tree(b)) return mapTree(b, [&](Expr *l) { return cst(sextw(a->c, w) < sextw(l->c, w), 1); });
      i64 t = sextw(a->c, w);
      if (b->hi == t + 1 && t != INT64_MAX) return eq(b, cst((u64)(t + 1), w));
      if (b->lo == t && t != INT64_MAX) return bnot(eq(b, a));
      if (b->k == K_ADD && isC(b->a[1])) { i64 k = sextw(b->a[1]->c, w), l, h, nt; Expr *x = b->a[0];
        if (!__builtin_add_overflow(x->lo, k, &l) && !__builtin_add_overflow(x->hi, k, &h) && l >= minw(w) && h <= maxw(w) && !__builtin_sub_overflow(t, k, &nt) && nt >= minw(w) && nt <= maxw(w)) return slt(cst((u64)nt, w), x); }
      if (b->k == K_SEXT && t >= minw(b->a[0]->w) && t <= maxw(b->a[0]->w) && b->a[0]->w > 1) return slt(cst((u64)t, b->a[0]->w), b->a[0]);
    } else if (a->k == K_SEXT && b->k == K_SEXT && a->a[0]->w == b->a[0]->w && a->a[0]->w > 1) return slt(a->a[0], b->a[0]);
    else if (a->k == K_ADD && isC(a->a[1]) && b->k == K_ADD && b->a[1] == a->a[1]) {
      i64 k = sextw(a->a[1]->c, w), l, h; Expr *x = a->a[0], *y = b->a[0]; i64 mn = std::min(x->lo, y->lo), mx = std::max(x->hi, y->hi);
      if (!__builtin_add_overflow(mn, k, &l) && !__builtin_add_overflow(mx, k, &h) && l >= minw(w) && h <= maxw(w)) return slt(x, y);
    }
  }
  return intern(K_SLT, 1, 0, a, b, 0);
}
Expr *ExprPool::ult(Expr *a, Expr *b) {
  int w = a->w;
  if (a == b) return cst(0, 1);
  if (isC(a) && isC(b)) return cst(a->c < b->c, 1);
  if (w == 1) return band(bnot(a), b);
  if (isC(b, 0)) return cst(0, 1);
  if (isC(a) && a->c == maskw(w)) return cst(0, 1);
  if (a->lo >= 0 && b->lo >= 0) return slt(a, b);
  if (a->hi < 0 && b->hi < 0) return slt(a, b);
  if (a->lo >= 0 && b->hi < 0) return cst(1, 1);
  if (a->hi < 0 && b->lo >= 0) return cst(0, 1);
  if (isC(b) && tree(a)) return mapTree(a, [&](Expr *l) { return cst(l->c < b->c, 1); });
  if (isC(a) && tree(b)) return mapTree(b, [&](Expr *l) { return cst(a->c < l->c, 1); });
  return intern(K_ULT, 1, 0, a, b, 0);
}
Expr *ExprPool::ite(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->k == K_NOT) { c = c->a[0]; std::swap(a, b); }
  if (a->w == 1) {
    if (isC(a)) return a->c ? bor(c, b) : band(bnot(c), b);
    if (isC(b)) return b->c ? bor(bnot(c), a) : band(c, a);
    if (a == c) return bor(c, b);
    if (b == c) return band(c, a);
  }
  if (a->k == K_FINT && b->k == K_FINT) return fint(ite(c, a->a[0], b->a[0]));
  if (a->w == 64 && (a->k == K_FINT) != (b->k == K_FINT)) {
    // mixed double: constant integer-valued doubles become FINT
    Expr *o = a->k == K_FINT ? b : a;
    if (isC(o)) { double d = asD(o->c); if (d == std::floor(d) && std::fabs(d) < 9e15 && !(d == 0 && std::signbit(d))) {
      Expr *oi = cst((u64)(i64)d, 64); return a->k == K_FINT ? fint(ite(c, a->a[0], oi)) : fint(ite(c, oi, b->a[0])); } }
  }
  if (a->k == K_ITE && a->a[0] == c) return ite(c, a->a[1], b);
  if (b->k == K_ITE && b->a[0] == c) return ite(c, a, b->a[2]);
  return intern(K_ITE, a->w, 0, c, a, b);
}
Expr *ExprPool::zext(Expr *a, int w) {
  if (a->w == w) return a;
  if (isC(a)) return cst(a->c, w);
  if (tree(a) ) return mapTree(a, [&](Expr *l) { return cst(l->c, w); });
  if (a->k == K_ZEXT) return zext(a->a[0], w);
  if (a->w > 1 && a->lo >= 0) return sext(a, w);  // canonical form for non-negative values
  return intern(K_ZEXT, w, 0, a, 0, 0);
}
Expr *ExprPool::sext(Expr *a, int w) {
  if (a->w == w) return a;
  if (isC(a)) return cst((u64)sextw(a->c, a->w), w);
  if (tree(a)) return mapTree(a, [&](Expr *l) { return cst((u64)sextw(l->c, l->w), w); });
  if (a->k == K_SEXT) return sext(a->a[0], w);
  if (a->k == K_ZEXT) return zext(a->a[0], w);
  if (a->k == K_ADD && isC(a->a[1]) && a->w > 1) { i64 k = sextw(a->a[1]->c, a->w), l, h; Expr *x = a->a[0];
    if (!__builtin_add_overflow(x->lo, k, &l) && !__builtin_add_overflow(x->hi, k, &h) && l >= minw(a->w) && h <= maxw(a->w)) return add(sext(x, w), cst((u64)k, w)); }
  return intern(K_SEXT, w, 0, a, 0, 0);
}
Expr *ExprPool::extract(Expr *a, int off, int w) {
  if (off == 0 && a->w == w) return a;
  if (isC(a)) return cst(a->c >> off, w);
  if (tree(a)) return mapTree(a, [&](Expr *l) { return cst(l->c >> off, w); });
  if ((a->k == K_ZEXT || a->k == K_SEXT) && off == 0) {
    Expr *x = a->a[0];
    if (x->w == w) return x;
    if (x->w > w) return extract(x, 0, w);
    return a->k == K_ZEXT ? zext(x, w) : sext(x, w);
  }
  if (a->k == K_ZEXT && off >= a->a[0]->w) return cst(0, w);
  if (a->k == K_EXTRACT) return extract(a->a[0], off + (int)a->c, w);
  if (a->k == K_CONCAT) { int lw = a->a[1]->w; if (off + w <= lw) return extract(a->a[1], off, w); if (off >= lw) return extract(a->a[0], off - lw, w); }
  if (off == 0 && (a->k == K_ADD || a->k == K_SUB || a->k == K_MUL) && w > 1) return bin(a->k, extract(a->a[0], 0, w), extract(a->a[1], 0, w));
  if (off == 0 && a->k == K_SHL && isC(a->a[1]) && w > 1) { if (a->a[1]->c >= (u64)w) return cst(0, w); return bin(K_SHL, extract(a->a[0], 0, w), cst(a->a[1]->c, w)); }
  if ((a->k == K_AND || a->k == K_OR || a->k == K_XOR)) return bin(a->k, extract(a->a[0], off, w), extract(a->a[1], off, w));
  if (a->k == K_ITE && a->csize < 40) return ite(a->a[0], extract(a->a[1], off, w), extract(a->a[2], off, w));
  return intern(K_EXTRACT, w, off, a, 0, 0);
}
Expr *ExprPool::concat(Expr *hi, Expr *lo) {
  int w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return cst((hi->c << lo->w) | lo->c, w);
  if (isC(hi, 0)) return zext(lo, w);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a[0] == lo->a[0] && hi->c == lo->c + lo->w) return extract(hi->a[0], (int)lo->c, w);
  if (hi->k == K_EXTRACT && hi->a[0] == lo && (int)hi->c == lo->w && lo->w + hi->w == w && hi->a[0]->w == w) return hi->a[0];
  return intern(K_CONCAT, w, 0, hi, lo, 0);
}
Expr *ExprPool::fint(Expr *a) {
  if (isC(a)) return cst(asU((double)(i64)a->c), 64);
  return intern(K_FINT, 64, 0, a, 0, 0);
}
Expr *ExprPool::fuf(int op, Expr *a, Expr *b) {
  if (op == UF_NEG) {
    if (isC(a)) return cst(asU(-asD(a->c)), 64);
    if (a->k == K_FUF && a->c == UF_NEG) return a->a[0];
    return intern(K_FUF, 64, op, a, 0, 0);
  }
  if (isC(a) && (!b || isC(b))) return cst(evalOp(K_FUF, 64, op, a->c, b ? b->c : 0, 0, 64, 64), 64);
  if (op == UF_MUL || op == UF_DIV) {
    bool neg = false;
    if (a->k == K_FUF && a->c == UF_NEG) { neg = !neg; a = a->a[0]; }
    if (b->k == K_FUF && b->c == UF_NEG) { neg = !neg; b = b->a[0]; }
    if (op == UF_MUL && a->id > b->id) std::swap(a, b);
    Expr *r = intern(K_FUF, 64, op, a, b, 0);
    return neg ? fuf(UF_NEG, r, 0) : r;
  }
  if (op == UF_ADD) { if (a->id > b->id) std::swap(a, b); }
  return intern(K_FUF, 64, op, a, b, 0);
}
