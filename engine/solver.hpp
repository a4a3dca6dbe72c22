#pragma once
#include "expr.hpp"
#include <memory>
#include <unistd.h>
#include <chrono>
#include <algorithm>

struct Model { std::vector<u64> val; };
typedef std::shared_ptr<Model> ModelP;

struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0; double secs = 0; double maxq = 0; u64 maxTerm = 0; };

static inline double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Solver {
  Z3_context ctx = nullptr; Z3_solver s = nullptr;
  std::vector<Expr*> stack;            // asserted constraints, one push level each
  SolverStats st;
  bool useUF = false;
  u32 curStamp = 1;
  unsigned timeoutMs = 20000; const char *logic = getenv("SYMEX_LOGIC") ? getenv("SYMEX_LOGIC") : "QF_FD";
  FILE *dump = nullptr; int dumpEvery = 0; u64 dumpCount = 0;
  std::unordered_map<int, Z3_func_decl> ufs;
  std::vector<Z3_ast> varAst;

  void init(bool uf) {
    useUF = uf;
    Z3_config c = Z3_mk_config(); Z3_set_param_value(c, "model", "true"); ctx = Z3_mk_context(c); Z3_del_config(c);
    Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(3); });
    mkSolver();
  }
  void mkSolver() {
    if (s) Z3_solver_dec_ref(ctx, s);
    s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, useUF ? "QF_UFBV" : logic));
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
    Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
    stack.clear();
  }
  Z3_ast keep(Expr *e, Z3_ast a) { Z3_inc_ref(ctx, a); e->z = a; return a; }
  Z3_ast bv2bool(Z3_ast a) { return a; }
  Z3_ast tr(Expr *e) {
    if (e->z) return e->z;
    // iterative post-order to avoid deep recursion
    std::vector<Expr*> wl; wl.push_back(e);
    while (!wl.empty()) {
      Expr *x = wl.back();
      if (x->z) { wl.pop_back(); continue; }
      bool ready = true;
      for (int i = 0; i < x->nargs; i++) if (!x->a[i]->z) { wl.push_back(x->a[i]); ready = false; }
      if (!ready) continue;
      wl.pop_back(); keep(x, tr1(x));
    }
    return e->z;
  }
  // Every expression has a sound signed interval, so it is encoded with just enough bits to hold it:
  // tr(e) is a bit-vector of nb(e) <= e->w bits whose signed value equals the signed value of e.
  static int nb(Expr *e) { i64 l = e->lo, h = e->hi; int n = 1; while (n < e->w && (l < -(1ll << (n - 1)) || h > (1ll << (n - 1)) - 1)) n++; return n; }
  Z3_ast num(u64 v, int w) { return Z3_mk_unsigned_int64(ctx, v & maskw(w), Z3_mk_bv_sort(ctx, w)); }
  Z3_ast fit(Z3_ast a, int from, int to) { return from == to ? a : from < to ? Z3_mk_sign_ext(ctx, to - from, a) : Z3_mk_extract(ctx, to - 1, 0, a); }
  Z3_ast X(Expr *e, int to) { return fit(e->z, nb(e), to); }
  Z3_ast tr1(Expr *e) {
    Expr *A = e->nargs > 0 ? e->a[0] : 0, *B = e->nargs > 1 ? e->a[1] : 0, *D = e->nargs > 2 ? e->a[2] : 0;
    Z3_ast a = A ? A->z : 0, b = B ? B->z : 0, d = D ? D->z : 0;
    bool bl = e->w == 1; int w = e->w, n = bl ? 1 : nb(e);
    auto mx = [&](int x, int y) { return x > y ? x : y; };
    switch (e->k) {
    case K_CONST: if (bl) return e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); return num(e->c, n);
    case K_VAR: {
      const VarInfo &v = P.vars[e->c];
      Z3_sort so = bl ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, n);
      std::string nm = v.name + "!" + std::to_string(e->c);
      return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm.c_str()), so);
    }
    case K_ADD: case K_SUB: case K_MUL: { int W = mx(n, mx(nb(A), nb(B))); Z3_ast x = X(A, W), y = X(B, W); return fit(e->k == K_ADD ? Z3_mk_bvadd(ctx, x, y) : e->k == K_SUB ? Z3_mk_bvsub(ctx, x, y) : Z3_mk_bvmul(ctx, x, y), W, n); }
    case K_UDIV: case K_UREM: case K_SDIV: case K_SREM: {
      bool pos = A->lo >= 0 && B->lo > 0; int W = pos ? mx(nb(A), nb(B)) : w; Z3_ast x = X(A, W), y = X(B, W), r;
      if (e->k == K_UDIV || (pos && e->k == K_SDIV)) r = Z3_mk_bvudiv(ctx, x, y); else if (e->k == K_UREM || (pos && e->k == K_SREM)) r = Z3_mk_bvurem(ctx, x, y);
      else r = e->k == K_SDIV ? Z3_mk_bvsdiv(ctx, x, y) : Z3_mk_bvsrem(ctx, x, y); return fit(r, W, n); }
    case K_AND: case K_OR: case K_XOR: {
      if (bl) { Z3_ast v[2] = {a, b}; return e->k == K_AND ? Z3_mk_and(ctx, 2, v) : e->k == K_OR ? Z3_mk_or(ctx, 2, v) : Z3_mk_xor(ctx, a, b); }
      int W = mx(nb(A), nb(B)); Z3_ast x = X(A, W), y = X(B, W); return fit(e->k == K_AND ? Z3_mk_bvand(ctx, x, y) : e->k == K_OR ? Z3_mk_bvor(ctx, x, y) : Z3_mk_bvxor(ctx, x, y), W, n); }
    case K_NOT: return bl ? Z3_mk_not(ctx, a) : fit(Z3_mk_bvnot(ctx, a), nb(A), n);
    case K_SHL: { int W = w; if (B->k == K_CONST && (i64)B->c + nb(A) < w) W = nb(A) + (int)B->c; return fit(Z3_mk_bvshl(ctx, X(A, W), B->k == K_CONST ? num(B->c, W) : X(B, W)), W, n); }
    case K_LSHR: { if (B->k == K_CONST && A->lo >= 0) { int W = nb(A); if (B->c >= (u64)W) return num(0, n); return fit(Z3_mk_bvlshr(ctx, a, num(B->c, W)), W, n); } return fit(Z3_mk_bvlshr(ctx, X(A, w), X(B, w)), w, n); }
    case K_ASHR: { if (B->k == K_CONST) { int W = nb(A); u64 c = B->c >= (u64)W ? W - 1 : B->c; return fit(Z3_mk_bvashr(ctx, a, num(c, W)), W, n); } return fit(Z3_mk_bvashr(ctx, X(A, w), X(B, w)), w, n); }
    case K_EQ: { if (A->w == 1) return Z3_mk_eq(ctx, a, b); int W = mx(nb(A), nb(B)); return Z3_mk_eq(ctx, X(A, W), X(B, W)); }
    case K_ULT: case K_SLT: { if (A->w == 1) { Z3_ast na = Z3_mk_not(ctx, a), nbv = Z3_mk_not(ctx, b); Z3_ast v1[2] = {na, b}, v2[2] = {a, nbv}; return Z3_mk_and(ctx, 2, e->k == K_ULT ? v1 : v2); }
      int W = mx(nb(A), nb(B)); if (e->k == K_SLT || (A->lo >= 0 && B->lo >= 0)) return Z3_mk_bvslt(ctx, X(A, W), X(B, W)); return Z3_mk_bvult(ctx, X(A, W), X(B, W)); }
    case K_ITE: if (bl) return Z3_mk_ite(ctx, a, b, d); return Z3_mk_ite(ctx, a, X(B, n), X(D, n));
    case K_ZEXT: if (A->w == 1) return Z3_mk_ite(ctx, a, num(1, n), num(0, n));
      if (A->lo >= 0) return fit(a, nb(A), n);
      { Z3_ast z = Z3_mk_zero_ext(ctx, 1, X(A, A->w)); return fit(z, A->w + 1, n); }
    case K_SEXT: if (A->w == 1) return Z3_mk_ite(ctx, a, num(~0ull, n), num(0, n)); return fit(a, nb(A), n);
    case K_EXTRACT: {
      if (!bl && e->c == 0 && A->lo >= minw(w) && A->hi <= maxw(w)) return fit(a, nb(A), n);
      if (A->w == 1) return a;
      int W = mx(nb(A), (int)e->c + w); Z3_ast r = Z3_mk_extract(ctx, (unsigned)(e->c + w - 1), (unsigned)e->c, X(A, W));
      if (bl) return Z3_mk_eq(ctx, r, num(1, 1)); return fit(r, w, n); }
    case K_CONCAT: { Z3_ast x = A->w == 1 ? b2bv(a) : X(A, A->w), y = B->w == 1 ? b2bv(b) : X(B, B->w); return fit(Z3_mk_concat(ctx, x, y), w, n); }
    case K_FINT: case K_FUF: {
      int op = e->k == K_FINT ? 1000 : (int)e->c; int na = e->nargs;
      Z3_func_decl &f = ufs[op * 4 + na];
      Z3_sort bv = Z3_mk_bv_sort(ctx, 64);
      if (!f) { Z3_sort dom[3] = {bv, bv, bv}; f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, ("uf" + std::to_string(op) + "_" + std::to_string(na)).c_str()), na, dom, bv); Z3_inc_ref(ctx, Z3_func_decl_to_ast(ctx, f)); }
      Z3_ast args[3]; for (int q = 0; q < na; q++) args[q] = X(e->a[q], 64); return fit(Z3_mk_app(ctx, f, na, args), 64, n);
    }
    }
    abort();
  }
  Z3_ast b2bv(Z3_ast a) { Z3_sort s1 = Z3_mk_bv_sort(ctx, 1); return Z3_mk_ite(ctx, a, Z3_mk_unsigned_int64(ctx, 1, s1), Z3_mk_unsigned_int64(ctx, 0, s1)); }

  // ---- independence slicing and result cache ----
  struct VSet { u64 b[4]; bool any(const VSet &o) const { return (b[0] & o.b[0]) | (b[1] & o.b[1]) | (b[2] & o.b[2]) | (b[3] & o.b[3]); } void add(const VSet &o) { for (int i = 0; i < 4; i++) b[i] |= o.b[i]; } };
  std::vector<VSet> vs; std::vector<u8> vsDone;
  struct KeyH { size_t operator()(const std::vector<u32> &k) const { u64 h = k.size(); for (u32 x : k) { h = (h ^ x) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h; } };
  struct Res { int r; std::vector<std::pair<u32, u64>> m; };
  std::unordered_map<std::vector<u32>, Res, KeyH> cache; u64 cacheHits = 0;
  const VSet &vset(Expr *e) {
    if (vs.size() <= e->id) { vs.resize(P.all.size() + 1024); vsDone.resize(vs.size(), 0); }
    if (vsDone[e->id]) return vs[e->id];
    std::vector<Expr*> wl{e};
    while (!wl.empty()) { Expr *x = wl.back(); if (vsDone[x->id]) { wl.pop_back(); continue; } bool rdy = true; for (int i = 0; i < x->nargs; i++) if (!vsDone[x->a[i]->id]) { wl.push_back(x->a[i]); rdy = false; } if (!rdy) continue; wl.pop_back();
      VSet v{{0, 0, 0, 0}}; if (x->k == K_VAR) { u32 q = (u32)(x->c < 255 ? x->c : 255); v.b[q >> 6] |= 1ull << (q & 63); } for (int i = 0; i < x->nargs; i++) v.add(vs[x->a[i]->id]); vs[x->id] = v; vsDone[x->id] = 1; }
    return vs[e->id];
  }
  void sliceKey(const std::vector<Expr*> &pc, Expr *extra, std::vector<u32> &key, VSet &v) {
    v = vset(extra); std::vector<u8> in(pc.size(), 0); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!in[i]) { const VSet &c = vset(pc[i]); if (c.any(v)) { in[i] = 1; v.add(c); ch = true; } } }
    for (size_t i = 0; i < pc.size(); i++) if (in[i]) key.push_back(pc[i]->id);
    std::sort(key.begin(), key.end()); key.push_back(extra->id);
  }
  bool inSet(const VSet &v, u32 q) { if (q > 255) q = 255; return v.b[q >> 6] >> (q & 63) & 1; }

  // 1 sat, 0 unsat, -1 unknown; base is some model of pc (may be null)
  int check(const std::vector<Expr*> &pc, Expr *extra, ModelP *out, const ModelP &base = nullptr) {
    if (!extra || useUF) return solve(pc, extra, out);
    std::vector<u32> key; VSet v; sliceKey(pc, extra, key, v);
    auto it = cache.find(key);
    if (it != cache.end()) {
      if (it->second.r == 0) { cacheHits++; return 0; }
      if (base) { cacheHits++; auto mm = std::make_shared<Model>(*base); mm->val.resize(P.vars.size()); for (size_t i = base->val.size(); i < P.vars.size(); i++) mm->val[i] = (u64)P.vars[i].lo & maskw(P.vars[i].w);
        for (auto &p : it->second.m) mm->val[p.first] = p.second; if (out) *out = mm; return 1; }
    }
    ModelP mm; int r = solve(pc, extra, &mm);
    if (r == 0) cache[key] = Res{0, {}};
    else if (r == 1 && mm) { Res q; q.r = 1; for (u32 i = 0; i < mm->val.size(); i++) if (inSet(v, i)) q.m.push_back({i, mm->val[i]}); cache[key] = q; if (out) *out = mm; }
    if (cache.size() > 2000000) cache.clear();
    return r;
  }
  int solve(const std::vector<Expr*> &pc, Expr *extra, ModelP *out) {
    double t0 = nowS();
    size_t common = 0;
    while (common < stack.size() && common < pc.size() && stack[common] == pc[common]) common++;
    if (stack.size() > common) { Z3_solver_pop(ctx, s, (unsigned)(stack.size() - common)); stack.resize(common); }
    for (size_t i = common; i < pc.size(); i++) { Z3_solver_push(ctx, s); Z3_solver_assert(ctx, s, tr(pc[i])); stack.push_back(pc[i]); }
    if (extra) { Z3_solver_push(ctx, s); Z3_solver_assert(ctx, s, tr(extra)); }
    if (dump && dumpEvery && (dumpCount++ % dumpEvery) == 0) {
      fprintf(dump, "; QUERY\n(push 1)\n%s(check-sat)\n(pop 1)\n", Z3_solver_to_string(ctx, s));
    }
    Z3_lbool r = Z3_solver_check(ctx, s);
    if (r == Z3_L_TRUE && out) {
      Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
      auto mm = std::make_shared<Model>();
      mm->val.resize(P.vars.size());
      for (size_t i = 0; i < P.vars.size(); i++) mm->val[i] = (u64)P.vars[i].lo & maskw(P.vars[i].w);
      unsigned n = Z3_model_get_num_consts(ctx, m);
      for (unsigned i = 0; i < n; i++) {
        Z3_func_decl d = Z3_model_get_const_decl(ctx, m, i);
        const char *nm = Z3_get_symbol_string(ctx, Z3_get_decl_name(ctx, d));
        const char *bang = strrchr(nm, '!'); if (!bang) continue;
        size_t id = strtoull(bang + 1, 0, 10); if (id >= mm->val.size()) continue;
        Z3_ast v = Z3_model_get_const_interp(ctx, m, d); if (!v) continue;
        if (P.vars[id].w == 1) mm->val[id] = Z3_get_bool_value(ctx, v) == Z3_L_TRUE;
        else { uint64_t x = 0; Z3_get_numeral_uint64(ctx, v, &x); int bw = (int)Z3_get_bv_sort_size(ctx, Z3_get_sort(ctx, v)); mm->val[id] = (u64)sextw(x, bw) & maskw(P.vars[id].w); }
      }
      Z3_model_dec_ref(ctx, m); *out = mm;
    }
    if (extra) Z3_solver_pop(ctx, s, 1);
    double dt = nowS() - t0; st.secs += dt; if (dt > st.maxq) st.maxq = dt;
    st.queries++;
    if (r == Z3_L_TRUE) { st.sat++; return 1; }
    if (r == Z3_L_FALSE) { st.unsat++; return 0; }
    st.unknown++; return -1;
  }
  // evaluation of an expression under a model
  u64 eval(Expr *e, const Model &m) { curStamp++; if (!curStamp) curStamp = 1; return ev(e, m); }
  u64 ev(Expr *e, const Model &m) {
    if (e->k == K_CONST) return e->c;
    if (e->k == K_VAR) return e->c < m.val.size() ? m.val[e->c] : ((u64)P.vars[e->c].lo & maskw(e->w));
    if (e->stamp == curStamp) return e->ev;
    u64 r;
    if (e->k == K_ITE) r = ev(e->a[0], m) ? ev(e->a[1], m) : ev(e->a[2], m);
    else if (e->w == 1 && e->k == K_AND) r = ev(e->a[0], m) && ev(e->a[1], m);
    else if (e->w == 1 && e->k == K_OR) r = ev(e->a[0], m) || ev(e->a[1], m);
    else {
      u64 a = e->nargs > 0 ? ev(e->a[0], m) : 0, b = e->nargs > 1 ? ev(e->a[1], m) : 0, d = e->nargs > 2 ? ev(e->a[2], m) : 0;
      r = evalOp(e->k, e->w, e->c, a, b, d, e->nargs > 0 ? e->a[0]->w : 0, e->nargs > 1 ? e->a[1]->w : 0);
    }
    e->stamp = curStamp; e->ev = r; return r;
  }
};
