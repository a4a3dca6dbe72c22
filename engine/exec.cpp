#include "exec.hpp"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <signal.h>
#include <fcntl.h>
#include <poll.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <llvm/IR/DebugLoc.h>

static double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 asU(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static float asF(u64 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; }
static u64 asUF(float d) { u32 v; memcpy(&v, &d, 4); return v; }

struct Exec;
typedef void (*ExtFn)(Exec &, State &, const CallInfo &, std::vector<Val> &, Val &);

struct Exec {
  Mod m; Solver S; Stats st; std::map<std::string, std::string> params; std::vector<State*> work;
  std::vector<Viol> viols; std::map<std::string, int> violCount; int maxViolPerSig = 2; int maxViols = 12; std::set<std::string> knownSigs;
  u64 maxSteps = 20000000; double deadline = 1e18; u32 itemLimit = 160; State *cur = nullptr; std::vector<ExtFn> ext;
  std::map<std::string, Expr*> varByName; bool ompIter = false; int ompT = 0, ilv = -1; bool noRace = false, ompFork = false; bool concIdx = false; bool uninitCheck = true; bool stop = false; bool trace = false;
  u64 allocLimit = 1ull << 30; int nSamples = 4; std::vector<std::string> samples; u64 samplePaths = 0; void sample(State &s);
  std::map<std::string, std::pair<Val, u8>> replayVals; bool replay = false;

  // ---------- helpers ----------
  Expr *E(Val v, int w) { return v.e ? v.e : P.cst(v.v, w); }
  static Val V(Expr *e) { return e->k == K_CONST ? Val{e->c, nullptr} : Val{0, e}; }
  Val rd(Frame &f, i32 o) { return o >= 0 ? f.regs[o] : f.f->consts[~o]; }
  const Inst &ci(State &s) { Frame &f = s.frames.back(); return f.f->code[f.pc]; }

  // ---------- violations ----------
  static std::string locOf(const llvm::Instruction *I) {
    if (!I) return ""; auto &dl = I->getDebugLoc(); if (!dl) return "";
    auto *sc = llvm::cast<llvm::DIScope>(dl.getScope()); return sc->getFilename().str() + ":" + std::to_string(dl.getLine());
  }
  static std::string funcOf(const llvm::Instruction *I, const std::string &dflt) {
    if (I && I->getDebugLoc()) { llvm::DILocation *L = I->getDebugLoc().get();
      // innermost inlined subprogram
      if (auto *sp = L->getScope()->getSubprogram()) return sp->getName().str(); }
    return dflt;
  }
  // first frame (innermost first, following inlining) that lies outside the standard library
  static void userLoc(State &s, std::string &func, std::string &loc, std::vector<std::string> *stack) {
    bool got = false;
    for (int i = (int)s.frames.size() - 1; i >= 0; i--) {
      Frame &f = s.frames[i]; const llvm::Instruction *I = f.pc < (int)f.f->code.size() ? f.f->code[f.pc].I : nullptr;
      llvm::DILocation *L = I && I->getDebugLoc() ? I->getDebugLoc().get() : nullptr;
      if (!L) { if (stack) stack->push_back(f.f->pretty); if (!got) { func = f.f->pretty; loc = ""; got = true; } continue; }
      for (; L; L = L->getInlinedAt()) {
        auto *sp = L->getScope()->getSubprogram(); std::string fn = sp ? sp->getName().str() : f.f->pretty; std::string file = L->getFilename().str();
        std::string lc = file + ":" + std::to_string(L->getLine());
        if (stack) stack->push_back(fn + " @ " + lc);
        bool sys = file.find("/usr/") == 0 || file.find("/include/c++/") != std::string::npos || file.find("shim/") != std::string::npos;
        if (!got && !sys) { func = fn; loc = lc; got = true; }
      }
    }
  }
  std::string fmtVal(const LogEnt &l, const Model *md) {
    u64 v = l.v.e ? (md ? S.eval(l.v.e, *md) : 0) : l.v.v;
    if (l.kind == 0) return std::to_string((i64)(i32)v);
    if (l.kind == 3) return std::to_string((i64)v);
    if (l.kind == 1) return std::to_string((i64)asD(v));
    return "real";
  }
  void report(State &s, const std::string &kind, const std::string &msg, ModelP md) {
    Viol v; v.kind = kind; v.msg = msg; userLoc(s, v.func, v.loc, &v.stack);
    int &c = violCount[v.sig()]; c++;
    if (c > maxViolPerSig) return;
    for (auto &l : s.log) v.inputs.push_back({l.name, fmtVal(l, md.get())});
    viols.push_back(v);
    if (replay || trace) { fprintf(stderr, "VIOL %s: %s in %s (%s)\n", kind.c_str(), msg.c_str(), v.func.c_str(), v.loc.c_str()); for (auto &f : v.stack) fprintf(stderr, "   %s\n", f.c_str()); for (auto &i : v.inputs) fprintf(stderr, "   %s = %s\n", i.first.c_str(), i.second.c_str()); }
    if ((int)viols.size() >= maxViols) stop = true;
  }
  ModelP anyModel(State &s) {
    if (!s.models.empty()) return s.models[0];
    ModelP md; int r = S.check(s.pc, nullptr, &md); if (r == 1) { s.models.push_back(md); return md; }
    return nullptr;
  }
  [[noreturn]] void fail(State &s, const std::string &kind, const std::string &msg) { ModelP md = anyModel(s); report(s, kind, msg, md); throw PathEnd{1}; }

  // ---------- constraints ----------
  bool lookup(State &s, Expr *e, u64 &v) {
    for (size_t i = s.known.size(); i-- > 0;) if (s.known[i].first == e) { v = s.known[i].second; return true; }
    return false;
  }
  void learn(State &s, Expr *e, bool val) {
    s.known.push_back({e, val});
    if (e->k == K_NOT) { learn(s, e->a[0], !val); return; }
    if (val && e->k == K_EQ && e->a[1]->k == K_CONST) s.known.push_back({e->a[0], e->a[1]->c});
    if (val && e->k == K_AND) { learn(s, e->a[0], true); learn(s, e->a[1], true); }
    if (!val && e->k == K_OR) { learn(s, e->a[0], false); learn(s, e->a[1], false); }
  }
  // ---- finite-domain pre-filter: sound over-approximation of the values a small variable can take ----
  std::vector<u32> qv; std::vector<u64> qval; u32 qStamp = 1; std::vector<u32> qSt; std::vector<u64> qEv; u64 quickHits = 0;
  u64 qev(Expr *e) {
    if (e->k == K_CONST) return e->c; if (e->k == K_VAR) return qval[e->c];
    if (qSt.size() <= e->id) { qSt.resize(P.all.size() + 4096, 0); qEv.resize(qSt.size()); }
    if (qSt[e->id] == qStamp) return qEv[e->id];
    u64 r; if (e->k == K_ITE) r = qev(e->a[0]) ? qev(e->a[1]) : qev(e->a[2]);
    else { u64 a = e->nargs > 0 ? qev(e->a[0]) : 0, b = e->nargs > 1 ? qev(e->a[1]) : 0; r = evalOp(e->k, e->w, e->c, a, b, 0, e->nargs > 0 ? e->a[0]->w : 0, e->nargs > 1 ? e->a[1]->w : 0); }
    qSt[e->id] = qStamp; qEv[e->id] = r; return r;
  }
  u64 fullDom(u32 v) { const VarInfo &i = P.vars[v]; if (i.real || i.undef) return 0; i64 n = i.hi - i.lo + 1; if (i.hi - i.lo < 0 || n > 64) return 0; return n == 64 ? ~0ull : ((1ull << n) - 1); }
  u64 &domOf(State &s, u32 v) { if (s.dom.size() < P.vars.size()) { size_t o = s.dom.size(); s.dom.resize(P.vars.size()); for (size_t i = o; i < s.dom.size(); i++) s.dom[i] = fullDom((u32)i); } return s.dom[v]; }
  // collects the variables of e that are not fixed; false if any is untracked or the product exceeds lim
  bool openVars(State &s, Expr *e, u64 lim, std::vector<u32> &out) {
    const Solver::VSet &v = S.vset(e); if (v.b[3] >> 63) return false; u64 prod = 1; out.clear();
    if (qval.size() < P.vars.size()) qval.resize(P.vars.size());
    for (int k = 0; k < 4; k++) for (u64 b = v.b[k]; b; b &= b - 1) { u32 id = k * 64 + __builtin_ctzll(b); u64 d = domOf(s, id); if (!d) return false; int n = __builtin_popcountll(d);
      if (n == 1) qval[id] = (u64)(P.vars[id].lo + __builtin_ctzll(d)) & maskw(P.vars[id].w); else { prod *= n; if (prod > lim) return false; out.push_back(id); } }
    return true;
  }
  template <class F> void enumVars(State &s, const std::vector<u32> &v, size_t i, F f) {
    if (i == v.size()) { qStamp++; if (!qStamp) { std::fill(qSt.begin(), qSt.end(), 0); qStamp = 1; } f(); return; }
    for (u64 d = s.dom[v[i]]; d; d &= d - 1) { qval[v[i]] = (u64)(P.vars[v[i]].lo + __builtin_ctzll(d)) & maskw(P.vars[v[i]].w); enumVars(s, v, i + 1, f); }
  }
  // is the value of e forced by the domains alone?
  bool quick(State &s, Expr *e, u64 &val, u64 lim = 24) {
    if (useUFQ) return false; std::vector<u32> v; if (!openVars(s, e, lim, v)) return false; bool first = true, same = true; u64 r = 0;
    enumVars(s, v, 0, [&] { if (!same) return; u64 x = qev(e); if (first) { r = x; first = false; } else if (x != r) same = false; });
    if (first || !same) return false; quickHits++; val = r; return true;
  }
  bool useUFQ = false;
  void narrow(State &s, Expr *c) {
    if (useUFQ) return;
    std::vector<Expr*> wl{c}; int guard = 0;
    while (!wl.empty() && guard++ < 200) {
      Expr *q = wl.back(); wl.pop_back(); std::vector<u32> v; if (!openVars(s, q, 64, v) || v.empty() || v.size() > 3) continue;
      std::vector<u64> keep(v.size(), 0); enumVars(s, v, 0, [&] { if (qev(q)) for (size_t i = 0; i < v.size(); i++) keep[i] |= 1ull << ((sextw(qval[v[i]], P.vars[v[i]].w) - P.vars[v[i]].lo) & 63); });
      for (size_t i = 0; i < v.size(); i++) { u64 &d = s.dom[v[i]]; u64 n = d & keep[i]; if (!n || n == d) continue; d = n; Solver::VSet vv{{0, 0, 0, 0}}; vv.b[v[i] >> 6] |= 1ull << (v[i] & 63); for (Expr *p : s.pc) if (p != q && S.vset(p).any(vv)) wl.push_back(p); }
    }
  }
  void addPC(State &s, Expr *c) {
    s.pc.push_back(c); learn(s, c, true); narrow(s, c);
    size_t j = 0; for (size_t i = 0; i < s.models.size(); i++) if (S.eval(c, *s.models[i])) s.models[j++] = s.models[i];
    s.models.resize(j);
  }
  // can cond be `val` on this path?  1 yes 0 no -1 unknown; model returned through models
  int feasible(State &s, Expr *c, ModelP *out = nullptr, bool noQuick = false) {
    u64 qr; if (!noQuick && quick(s, c, qr)) { if (!qr) return 0; ModelP md = anyModel(s); if (md) { if (out) *out = md; return 1; } }
    for (auto &md : s.models) if (S.eval(c, *md)) { if (out) *out = md; return 1; }
    ModelP md; int r = S.check(s.pc, c, &md, s.models.empty() ? nullptr : s.models.back());
    if (r == 1) { s.models.push_back(md); if (s.models.size() > 6) s.models.erase(s.models.begin()); if (out) *out = md; }
    return r;
  }
  // ---- uninitialised memory: does the value of e really depend on an undefined cell on this path? ----
  std::unordered_map<Expr*, Expr*> primed;
  Expr *prime(Expr *e) {
    if (!e->undef) return e; auto it = primed.find(e); if (it != primed.end()) return it->second;
    Expr *r;
    if (e->k == K_VAR) { auto vi = P.vars[e->c]; r = P.var(vi.name + "'", vi.w, vi.lo, vi.hi, true, vi.real); }
    else {
      Expr *a = e->nargs > 0 ? prime(e->a[0]) : 0, *b = e->nargs > 1 ? prime(e->a[1]) : 0, *d = e->nargs > 2 ? prime(e->a[2]) : 0;
      switch (e->k) { case K_NOT: r = P.bnot(a); break; case K_EQ: r = P.eq(a, b); break; case K_ULT: r = P.ult(a, b); break; case K_SLT: r = P.slt(a, b); break; case K_ITE: r = P.ite(a, b, d); break;
        case K_ZEXT: r = P.zext(a, e->w); break; case K_SEXT: r = P.sext(a, e->w); break; case K_EXTRACT: r = P.extract(a, (int)e->c, e->w); break; case K_CONCAT: r = P.concat(a, b); break; case K_FINT: r = P.fint(a); break; case K_FUF: r = P.fuf((int)e->c, a, b); break; default: r = P.bin(e->k, a, b); }
    }
    primed[e] = r; return r;
  }
  static std::string showE(Expr *e, int d = 12) {
    static const char *N[] = {"c","v","+","-","*","udiv","sdiv","urem","srem","&","|","^","!","<<","lshr","ashr","=","u<","s<","ite","zext","sext","extract","concat","fint","fuf"};
    if (e->k == K_CONST) return std::to_string(sextw(e->c, e->w)); if (e->k == K_VAR) return P.vars[e->c].name; if (!d) return "...";
    std::string r = "(" + std::string(N[e->k]); for (int i = 0; i < e->nargs; i++) r += " " + showE(e->a[i], d - 1); return r + ")";
  }
  void needDefined(State &s, Expr *e, const std::string &msg) {
    Expr *q = prime(e); if (q == e) return; Expr *df = e->w == 1 ? P.bxor(e, q) : P.bnot(P.eq(e, q)); ModelP md;
    if (df->k == K_CONST && !df->c) return;
    if (feasible(s, df, &md) == 1) { if (getenv("SHOWE")) { fprintf(stderr, "undefined: %s\n", showE(e).c_str()); { std::vector<Expr*> q{e}; int g = 0; while (!q.empty() && g++ < 60) { Expr *x = q.back(); q.pop_back(); fprintf(stderr, "   val %lld  w%d lo %lld hi %lld : %s\n", (long long)sextw(S.eval(x, *md), x->w), x->w, (long long)x->lo, (long long)x->hi, showE(x, 4).c_str()); for (int i = 0; i < x->nargs; i++) if (x->a[i]->k != K_CONST) q.push_back(x->a[i]); } } for (auto *p : s.pc) fprintf(stderr, "  pc %s  [%d]\n", showE(p).c_str(), (int)S.eval(p, *md)); } report(s, "uninit", msg, md); throw PathEnd{1}; }
  }
  void limit() { if (nowS() > deadline) stop = true; }
  bool decide(State &s, Expr *c) {
    if (c->k == K_CONST) return c->c;
    u64 v; if (lookup(s, c, v)) return v;
    if (c->k == K_NOT && lookup(s, c->a[0], v)) return !v;
    if (quick(s, c, v)) { learn(s, v ? c : P.bnot(c), true); return v; }
    if (c->undef && uninitCheck) needDefined(s, c, "branch depends on uninitialised memory");
    Expr *n = P.bnot(c);
    int ft = feasible(s, c);
    int ff = ft == 0 ? 1 : feasible(s, n);
    if (ft < 0 || ff < 0) { st.incomplete++; st.notes["solver unknown"]++; if (ft == 1) { addPC(s, c); return true; } if (ff == 1) { addPC(s, n); return false; } throw PathEnd{3}; }
    if (!ft) { learn(s, n, true); return false; }
    if (!ff) { learn(s, c, true); return true; }
    State *o = new State(s); o->depth++; s.depth++;
    addPC(*o, n); addPC(s, c); work.push_back(o); st.forks++;
    limit();
    return true;
  }
  u64 concretize(State &s, Val v) {
    if (!v.e) return v.v;
    Expr *e = v.e;
    for (;;) {
      u64 k; if (lookup(s, e, k)) return k;
      ModelP md = anyModel(s); if (!md) throw PathEnd{3};
      u64 c = S.eval(e, *md); Expr *q = e->w == 1 ? (c ? e : P.bnot(e)) : P.eq(e, P.cst(c, e->w));
      if (decide(s, q)) return c;
      // decide() may report the negation as implied only if solver disagrees with the model
    }
  }
  // concretise a double: FINT by its integer
  u64 concF(State &s, Val v) {
    if (!v.e) return v.v;
    if (v.e->k == K_FINT) { u64 i = concretize(s, Val{0, v.e->a[0]}); return asU((double)(i64)i); }
    if (v.e->k == K_ITE) { return concF(s, V(decide(s, v.e->a[0]) ? v.e->a[1] : v.e->a[2])); }
    st.notes["real value concretised"]++; throw PathEnd{3};
  }
  // assertion; returns if it may hold (path constrained)
  void require(State &s, Expr *c, const std::string &kind, const std::string &msg) {
    if (c->k == K_CONST) { if (c->c) return; fail(s, kind, msg); }
    u64 v; if (lookup(s, c, v)) { if (v) return; fail(s, kind, msg); }
    Expr *n = P.bnot(c); ModelP md; st.checks++;
    int r = feasible(s, n, &md, kind == "assert");   // property assertions are always put to the SMT solver
    if (r == 0) { learn(s, c, true); return; }
    if (r < 0) { st.incomplete++; st.notes["solver unknown"]++; return; }
    report(s, kind, msg, md);
    if (feasible(s, c) != 1) throw PathEnd{1};
    addPC(s, c);
  }

  // ---------- memory ----------
  Expr *freshUndef(State &s, int w) { std::string nm = "undef" + std::to_string(w) + "#" + std::to_string(s.undefN++); Expr *&e = varByName[nm]; if (!e) e = P.var(nm, w, minw(w), maxw(w), true); return e; }
  void splitCell(Obj *o, u32 off) {
    // make the byte at off an independent cell (or concrete)
    if (o->sh[off] < 2) return;
    u32 b = off; while (o->sh[b] == 3) b--;
    Expr *e = o->cells[b]; int n = e->w / 8; if (n <= 1) return;
    for (int i = 0; i < n; i++) { Expr *x = P.extract(e, 8 * i, 8); if (x->k == K_CONST) { o->sh[b + i] = 1; o->data[b + i] = (u8)x->c; } else { o->sh[b + i] = 2; o->cells[b + i] = x; } }
  }
  Val readAt(State &s, u64 id, u32 off, u32 sz, int w) {
    Obj *o = s.mem.get(id); const u8 *sh = o->sh + off;
    bool allc = true; for (u32 i = 0; i < sz; i++) if (sh[i] != 1) { allc = false; break; }
    if (allc) { u64 v = 0; memcpy(&v, o->data + off, sz); return VC(v & maskw(w)); }
    if (sh[0] == 2 && o->cells[off]->w == sz * 8) { Expr *e = o->cells[off]; if (w < (int)sz * 8) e = P.extract(e, 0, w); return V(e); }
    bool anyUn = false, allUn = true; for (u32 i = 0; i < sz; i++) { if (sh[i] == 0) anyUn = true; else allUn = false; }
    if (anyUn) {
      Obj *q = s.mem.wr(id); if (!q->cells) q->cells = (Expr**)calloc(q->size, sizeof(Expr*));
      if (allUn) { Expr *e = freshUndef(s, sz * 8); q->cells[off] = e; q->sh[off] = 2; for (u32 i = 1; i < sz; i++) q->sh[off + i] = 3; if (w < (int)sz * 8) e = P.extract(e, 0, w); return V(e); }
      for (u32 i = 0; i < sz; i++) if (q->sh[off + i] == 0) { q->cells[off + i] = freshUndef(s, 8); q->sh[off + i] = 2; }
      o = q; sh = o->sh + off;
    }
    Expr *r = nullptr;
    for (u32 i = 0; i < sz; i++) {
      Expr *b; u8 t = o->sh[off + i];
      if (t == 1) b = P.cst(o->data[off + i], 8);
      else { u32 p = off + i; while (o->sh[p] == 3) p--; b = P.extract(o->cells[p], 8 * (off + i - p), 8); }
      r = r ? P.concat(b, r) : b;
    }
    if (w < (int)sz * 8) r = P.extract(r, 0, w);
    return V(r);
  }
  void writeAt(State &s, u64 id, u32 off, u32 sz, int w, Val v) {
    Obj *o = s.mem.wr(id);
    if (o->cells) { if (o->sh[off] == 3) splitCell(o, off); if (off + sz < o->size && o->sh[off + sz] == 3) splitCell(o, off + sz - 1), splitCell(o, off + sz); }
    if (!v.e) { u64 x = v.v & maskw(w); memcpy(o->data + off, &x, sz); memset(o->sh + off, 1, sz); return; }
    if (!o->cells) o->cells = (Expr**)calloc(o->size ? o->size : 1, sizeof(Expr*));
    Expr *e = v.e; if (e->w != (int)sz * 8) e = P.zext(e, sz * 8);
    if (e->k == K_CONST) { writeAt(s, id, off, sz, sz * 8, VC(e->c)); return; }
    o->cells[off] = e; o->sh[off] = 2; for (u32 i = 1; i < sz; i++) o->sh[off + i] = 3;
  }
  // split address into (object id, offset expr)
  void describeBad(State &s, u64 id, std::string &k) {
    u8 t = s.mem.status(id);
    k = id == 0 ? "null or invalid pointer dereference" : t == 2 ? "use of freed memory" : t == 3 ? "use of dead stack object" : "access through invalid pointer";
  }
  // resolve the address to one object; may fork
  u64 resolve(State &s, Val &addr, Expr *&off, i64 &coff) {
    off = nullptr;
    if (!addr.e) { u64 a = addr.v; coff = (i64)(a & ((1ull << REG_SHIFT) - 1)) - (i64)HALF; return a >> REG_SHIFT; }
    Expr *e = addr.e;
    if (e->undef && uninitCheck) needDefined(s, e, "address computed from uninitialised memory");
    for (int guard = 0; guard < 64; guard++) {
      if (e->k == K_CONST) { addr = VC(e->c); return resolve(s, addr, off, coff); }
      u64 lo = (u64)e->lo >> REG_SHIFT, hi = (u64)e->hi >> REG_SHIFT;
      if (e->lo >= 0 && lo == hi && lo != 0) { off = P.sub(e, P.cst(objAddr(lo), 64)); if (off->k == K_CONST) { coff = (i64)off->c; off = nullptr; } return lo; }
      if (e->k == K_ITE) { e = decide(s, e->a[0]) ? e->a[1] : e->a[2]; continue; }
      if (e->k == K_ADD && e->a[0]->k == K_ITE) { Expr *t = e->a[0]; e = P.add(decide(s, t->a[0]) ? t->a[1] : t->a[2], e->a[1]); continue; }
      if (e->k == K_ADD && e->a[1]->k == K_ITE) { Expr *t = e->a[1]; e = P.add(e->a[0], decide(s, t->a[0]) ? t->a[1] : t->a[2]); continue; }
      break;
    }
    // generic: fork on the object number
    Expr *rg = P.bin(K_LSHR, e, P.cst(REG_SHIFT, 64));
    u64 id = concretize(s, V(rg));
    off = P.sub(e, P.cst(objAddr(id), 64)); if (off->k == K_CONST) { coff = (i64)off->c; off = nullptr; }
    return id;
  }
  void leaves(Expr *e, std::set<i64> &out) { std::set<Expr*> seen; std::vector<Expr*> wl{e}; while (!wl.empty()) { Expr *x = wl.back(); wl.pop_back(); if (!seen.insert(x).second) continue; if (x->k == K_CONST) out.insert(sextw(x->c, x->w)); else { wl.push_back(x->a[1]); wl.push_back(x->a[2]); } } }
  // step/residue of an offset expression
  std::unordered_map<Expr*, std::pair<u64, i64>> stepMemo;
  static u64 gcd64(u64 a, u64 b) { while (b) { u64 t = a % b; a = b; b = t; } return a; }
  // e is congruent to res modulo step (step 0: constant)
  void stepOf(Expr *e, u64 &step, i64 &res) {
    if (e->k == K_CONST) { step = 0; res = (i64)e->c; return; }
    auto it = stepMemo.find(e); if (it != stepMemo.end()) { step = it->second.first; res = it->second.second; return; }
    u64 s1, s2; i64 r1, r2; step = 1; res = 0;
    if (e->k == K_SHL && e->a[1]->k == K_CONST) { stepOf(e->a[0], s1, r1); step = s1 << e->a[1]->c; res = r1 << e->a[1]->c; }
    else if (e->k == K_MUL && e->a[1]->k == K_CONST) { stepOf(e->a[0], s1, r1); step = s1 * e->a[1]->c; res = r1 * (i64)e->a[1]->c; }
    else if (e->k == K_ADD || e->k == K_SUB) { stepOf(e->a[0], s1, r1); stepOf(e->a[1], s2, r2); step = gcd64(s1, s2); res = e->k == K_ADD ? r1 + r2 : r1 - r2; }
    else if (e->k == K_ITE) { stepOf(e->a[1], s1, r1); stepOf(e->a[2], s2, r2); step = gcd64(gcd64(s1, s2), (u64)(r1 > r2 ? r1 - r2 : r2 - r1)); res = r1; }
    if (step) res %= (i64)step;
    stepMemo[e] = {step, res};
  }
  bool candidates(State &s, Expr *off, u32 size, u32 sz, std::vector<u32> &c) {
    u64 kv; if (lookup(s, off, kv)) { c.push_back((u32)kv); return true; }
    { std::vector<u32> v; if (!useUFQ && openVars(s, off, 24, v)) { std::set<i64> vals; enumVars(s, v, 0, [&] { vals.insert((i64)qev(off)); }); for (i64 x : vals) if (x >= 0 && x <= (i64)size - (i64)sz) c.push_back((u32)x); return c.size() <= itemLimit; } }
    i64 lo = std::max<i64>(off->lo, 0), hi = std::min<i64>(off->hi, (i64)size - sz);
    if (off->k == K_ITE && off->ctree) { std::set<i64> l; leaves(off, l); for (i64 x : l) if (x >= 0 && x <= (i64)size - (i64)sz) c.push_back((u32)x); return c.size() <= itemLimit; }
    u64 step; i64 res; stepOf(off, step, res); if (step == 0) step = 1;
    i64 first = lo; i64 r = ((res % (i64)step) + (i64)step) % (i64)step; while (((first % (i64)step) + (i64)step) % (i64)step != r) first++;
    if (hi >= first && (u64)(hi - first) / step > itemLimit) return false;
    for (i64 x = first; x <= hi; x += step) c.push_back((u32)x);
    return true;
  }
  void logAcc(State &s, u64 id, Expr *off, i64 coff, u32 sz, bool w, bool at) {
    OmpRegion &r = s.omp.back(); OmpThread &t = r.th[r.cur]; Obj *o = s.mem.get(id);
    if (o && o->kind == 1 && id >= r.startObj) return;   // thread stack created inside the region
    Access a; a.thr = r.cur; a.loop = t.loop; a.iter = t.iter; a.obj = id; a.lo = off ? off->lo : coff; a.hi = off ? off->hi + sz : coff + sz; a.off = off; a.size = sz; a.w = w; a.at = at; a.lock = t.lock; a.I = ci(s).I;
    r.log.insert(a);
  }
  // bounds/liveness; returns object id
  u64 access(State &s, Val addr, u32 sz, bool write, Expr *&off, i64 &coff, bool atomic = false) {
    u64 id = resolve(s, addr, off, coff); u8 stt = s.mem.status(id);
    if (stt != 1) { std::string k; describeBad(s, id, k); fail(s, "memory", k); }
    Obj *o = s.mem.get(id);
    if (write && o->ro) fail(s, "memory", "write to constant");
    const char *what = o->kind == 2 ? (write ? "heap out-of-bounds write" : "heap out-of-bounds read") : o->kind == 1 ? (write ? "stack out-of-bounds write" : "stack out-of-bounds read") : (write ? "global out-of-bounds write" : "global out-of-bounds read");
    if (!off) { if (coff < 0 || coff + (i64)sz > (i64)o->size) fail(s, "memory", what); }
    else {
      u64 kv; if (lookup(s, off, kv)) { off = nullptr; coff = (i64)kv; if (coff < 0 || coff + (i64)sz > (i64)o->size) fail(s, "memory", what); }
      else if (off->lo < 0 || off->hi + (i64)sz > (i64)o->size) {
        if ((i64)o->size < (i64)sz) fail(s, "memory", what);
        require(s, P.ule(off, P.cst(o->size - sz, 64)), "memory", what);
      }
    }
    if (!s.omp.empty() && s.omp.back().T > 1) logAcc(s, id, off, coff, sz, write, atomic);
    return id;
  }
  Val load(State &s, Val addr, u32 sz, int w, bool atomic = false) {
    Expr *off; i64 coff = 0; u64 id = access(s, addr, sz, false, off, coff, atomic);
    if (!off) return readAt(s, id, (u32)coff, sz, w);
    std::vector<u32> c; Obj *o = s.mem.get(id); { u64 kv; if (quick(s, off, kv)) return readAt(s, id, (u32)kv, sz, w); }
    if (concIdx || !candidates(s, off, o->size, sz, c)) { u64 k = concretize(s, V(off)); return readAt(s, id, (u32)k, sz, w); }
    if (c.empty()) throw PathEnd{3};
    // pointer-valued cells: fork instead of building pointer trees
    if (w == 64) { bool ptr = false; for (u32 x : c) { bool con = true; for (u32 i = 0; i < sz; i++) if (o->sh[x + i] != 1) con = false; if (con) { u64 v = 0; memcpy(&v, o->data + x, sz); u64 rid = v >> REG_SHIFT; if (rid && rid < s.mem.next && (v & ((1ull << REG_SHIFT) - 1)) >= HALF - 4096 && (v & ((1ull << REG_SHIFT) - 1)) < HALF + (1ull << 30) && s.mem.status(rid)) ptr = true; } }
      if (ptr) { u64 k = concretize(s, V(off)); return readAt(s, id, (u32)k, sz, w); } }
    // uninitialised candidates: drop the ones the index cannot select on this path
    if (uninitCheck) { std::vector<u32> c2; for (u32 x : c) { bool un = false; for (u32 i = 0; i < sz; i++) if (o->sh[x + i] == 0 || (o->sh[x + i] == 2 && o->cells[x + i]->k == K_VAR && o->cells[x + i]->undef)) un = true; if (un) { if (feasible(s, P.eq(off, P.cst(x, 64))) == 0) continue; } c2.push_back(x); } c.swap(c2); if (c.empty()) throw PathEnd{3}; }
    Expr *r = nullptr;
    for (size_t q = c.size(); q-- > 0;) { Expr *v = E(readAt(s, id, c[q], sz, w), w); r = r ? P.ite(P.eq(off, P.cst(c[q], 64)), v, r) : v; }
    return V(r);
  }
  void store(State &s, Val addr, u32 sz, int w, Val v, bool atomic = false) {
    Expr *off; i64 coff = 0; u64 id = access(s, addr, sz, true, off, coff, atomic);
    if (!off) { writeAt(s, id, (u32)coff, sz, w, v); return; }
    std::vector<u32> c; Obj *o = s.mem.get(id); { u64 kv; if (quick(s, off, kv)) { writeAt(s, id, (u32)kv, sz, w, v); return; } }
    if (concIdx || !candidates(s, off, o->size, sz, c)) { u64 k = concretize(s, V(off)); writeAt(s, id, (u32)k, sz, w, v); return; }
    if (c.empty()) throw PathEnd{3};
    Expr *ve = E(v, w);
    for (size_t q = 0; q < c.size(); q++) { Expr *n = P.ite(P.eq(off, P.cst(c[q], 64)), ve, E(readAt(s, id, c[q], sz, w), w)); writeAt(s, id, c[q], sz, w, V(n)); }
  }
  void copyMem(State &s, Val d, Val sr, u64 n) {
    if (!n) return;
    Expr *o1, *o2; i64 c1 = 0, c2 = 0;
    u64 is = access(s, sr, (u32)n, false, o2, c2); if (o2) { c2 = (i64)concretize(s, V(o2)); }
    u64 id = access(s, d, (u32)n, true, o1, c1); if (o1) { c1 = (i64)concretize(s, V(o1)); }
    Obj *so = s.mem.get(is);
    std::vector<u8> data(so->data + c2, so->data + c2 + n), sh(so->sh + c2, so->sh + c2 + n); std::vector<Expr*> cells;
    bool sym = false; for (u8 x : sh) if (x >= 2) sym = true;
    if (sym) {
      if (sh[0] == 3 || (c2 + (i64)n < (i64)so->size && so->sh[c2 + n] == 3)) { so = s.mem.wr(is); splitCell(so, (u32)c2); if (c2 + (i64)n < (i64)so->size) splitCell(so, (u32)(c2 + n)); data.assign(so->data + c2, so->data + c2 + n); sh.assign(so->sh + c2, so->sh + c2 + n); }
      cells.assign(so->cells + c2, so->cells + c2 + n);
    }
    Obj *dobj = s.mem.wr(id);
    if (dobj->cells) { if (dobj->sh[c1] == 3) splitCell(dobj, (u32)c1); if (c1 + (i64)n < (i64)dobj->size && dobj->sh[c1 + n] == 3) splitCell(dobj, (u32)(c1 + n)); }
    memcpy(dobj->data + c1, data.data(), n); memcpy(dobj->sh + c1, sh.data(), n);
    if (sym) { if (!dobj->cells) dobj->cells = (Expr**)calloc(dobj->size, sizeof(Expr*)); memcpy(dobj->cells + c1, cells.data(), n * sizeof(Expr*)); }
  }
  void setMem(State &s, Val d, Val b, u64 n) {
    if (!n) return; Expr *o1; i64 c1 = 0; u64 id = access(s, d, (u32)n, true, o1, c1); if (o1) c1 = (i64)concretize(s, V(o1));
    u64 bv = concretize(s, b);
    Obj *dobj = s.mem.wr(id);
    if (dobj->cells) { if (dobj->sh[c1] == 3) splitCell(dobj, (u32)c1); if (c1 + (i64)n < (i64)dobj->size && dobj->sh[c1 + n] == 3) splitCell(dobj, (u32)(c1 + n)); }
    memset(dobj->data + c1, (int)bv, n); memset(dobj->sh + c1, 1, n);
  }
  std::string cstr(State &s, Val a) {
    std::string r; if (a.e) return "?"; u64 id = a.v >> REG_SHIFT; i64 off = (i64)(a.v & ((1ull << REG_SHIFT) - 1)) - (i64)HALF; Obj *o = s.mem.get(id); if (!o) return "?";
    while (off >= 0 && off < (i64)o->size && o->data[off]) r += (char)o->data[off++];
    return r;
  }
  Val heapAlloc(State &s, Val size, u8 how, bool zero) {
    u64 n = concretize(s, size);
    if (n > allocLimit) { if (how == 0) return VC(0); if (s.allowThrow) throw PathEnd{4}; fail(s, "exception", "allocation of an absurd size (std::bad_alloc / bad_array_new_length)"); }
    u64 id = s.mem.alloc(n, 2, how, zero); if (!s.omp.empty()) s.mem.get(id)->thr = s.omp.back().cur;
    return VC(objAddr(id));
  }
  void heapFree(State &s, Val p, u8 how) {
    u64 a = concretize(s, p); if (!a) return; u64 id = a >> REG_SHIFT; u8 t = s.mem.status(id);
    if (t == 2) fail(s, "memory", "double free");
    if (t != 1 || s.mem.get(id)->kind != 2) fail(s, "memory", "free of a non-heap pointer");
    if (a != objAddr(id)) fail(s, "memory", "free of an interior pointer");
    if (s.mem.get(id)->how != how) { fail(s, "mismatch", "allocation/deallocation mismatch (malloc/new/new[])"); }
    s.mem.release(id, 2);
  }

  // ---------- floating point ----------
  bool isReal(Expr *e) { if (e->k == K_FUF) return true; if (e->k == K_VAR) return P.vars[e->c].real || P.vars[e->c].undef; if (e->k == K_ITE) return isReal(e->a[1]) || isReal(e->a[2]); return false; }
  bool asFInt(Val v, Expr *&i) {
    if (v.e) { if (v.e->k == K_FINT) { i = v.e->a[0]; return true; } return false; }
    double d = asD(v.v); if (d == std::floor(d) && std::fabs(d) < 4e15 && !(d == 0 && std::signbit(d))) { i = P.cst((u64)(i64)d, 64); return true; } return false;
  }
  bool small(Expr *i) { return i->lo > -(1ll << 52) && i->hi < (1ll << 52); }
  Val fbin(State &s, u8 op, int w, Val a, Val b) {
    if (!a.e && !b.e) {
      if (w == 32) { float x = asF(a.v), y = asF(b.v), r; switch (op) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break; case O_FDIV: r = x / y; break; default: r = fmodf(x, y); } return VC(asUF(r)); }
      double x = asD(a.v), y = asD(b.v), r; switch (op) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break; case O_FDIV: r = x / y; break; default: r = fmod(x, y); } return VC(asU(r));
    }
    if ((a.e && isReal(a.e)) || (b.e && isReal(b.e))) {
      Expr *x = E(a, 64), *y = E(b, 64);
      switch (op) { case O_FADD: return V(P.fuf(UF_ADD, x, y)); case O_FSUB: return V(P.fuf(UF_ADD, x, P.fuf(UF_NEG, y, 0))); case O_FMUL: return V(P.fuf(UF_MUL, x, y)); case O_FDIV: return V(P.fuf(UF_DIV, x, y)); default: return V(P.fuf(UF_OTHER + op, x, y)); }
    }
    Expr *x, *y;
    if (w == 64 && asFInt(a, x) && asFInt(b, y)) {
      if (op == O_FADD || op == O_FSUB) { Expr *r = op == O_FADD ? P.add(x, y) : P.sub(x, y); if (small(x) && small(y) && small(r)) return V(P.fint(r)); }
      if (op == O_FMUL && x->lo >= 0 && y->lo >= 0) { Expr *r = P.mul(x, y); if (small(r) && r->lo >= 0) return V(P.fint(r)); }
    }
    Val ca = VC(concF(s, a)), cb = VC(concF(s, b)); return fbin(s, op, w, ca, cb);
  }
  Expr *fcmp(State &s, int pred, int w, Val a, Val b) {
    using namespace llvm;
    if (!a.e && !b.e) {
      double x = w == 32 ? asF(a.v) : asD(a.v), y = w == 32 ? asF(b.v) : asD(b.v); bool un = std::isnan(x) || std::isnan(y), r;
      switch (pred) {
      case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break;
      case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break;
      case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break;
      case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break;
      case CmpInst::FCMP_TRUE: r = true; break; default: r = false; }
      return P.cst(r, 1);
    }
    if ((a.e && isReal(a.e)) || (b.e && isReal(b.e))) {
      Expr *x = E(a, 64), *y = E(b, 64);
      if (pred == CmpInst::FCMP_OEQ || pred == CmpInst::FCMP_UEQ) return P.eq(x, y);
      if (pred == CmpInst::FCMP_ONE || pred == CmpInst::FCMP_UNE) return P.bnot(P.eq(x, y));
      // ordering of uninterpreted terms: an arbitrary (but functional) predicate
      bool neg = false, sw = false; switch (pred) { case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: sw = true; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: neg = true; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: sw = true; neg = true; break; case CmpInst::FCMP_ORD: return P.cst(1, 1); case CmpInst::FCMP_UNO: return P.cst(0, 1); default: break; }
      if (sw) std::swap(x, y);
      st.notes["ordering of uninterpreted numbers left arbitrary"]++;
      std::string nm = "flt_" + std::to_string(x->id) + "_" + std::to_string(y->id); Expr *&e = varByName[nm]; if (!e) e = P.var(nm, 1, 0, 1, false); return neg ? P.bnot(e) : e;
    }
    if (a.e && a.e->k == K_FINT && !b.e) {
      Expr *x = a.e->a[0]; double c = asD(b.v);
      if (std::isnan(c)) return P.cst(pred == CmpInst::FCMP_UNO || pred >= CmpInst::FCMP_UEQ, 1);
      if (pred == CmpInst::FCMP_ORD) return P.cst(1, 1); if (pred == CmpInst::FCMP_UNO) return P.cst(0, 1);
      int p = pred & 7; // drop unordered bit (FCMP_Oxx = 1..6)
      if (p == CmpInst::FCMP_OEQ || p == CmpInst::FCMP_ONE) { Expr *r = (c == std::floor(c) && std::fabs(c) < 9e15) ? P.eq(x, P.cst((u64)(i64)c, 64)) : P.cst(0, 1); return p == CmpInst::FCMP_OEQ ? r : P.bnot(r); }
      double cl = c; if (cl > 9e15) cl = 9e15; if (cl < -9e15) cl = -9e15;
      i64 fl = (i64)std::floor(cl), ce = (i64)std::ceil(cl);
      if (p == CmpInst::FCMP_OGT) return P.slt(P.cst((u64)fl, 64), x);
      if (p == CmpInst::FCMP_OGE) return P.sle(P.cst((u64)ce, 64), x);
      if (p == CmpInst::FCMP_OLT) return P.slt(x, P.cst((u64)ce, 64));
      if (p == CmpInst::FCMP_OLE) return P.sle(x, P.cst((u64)fl, 64));
    }
    if (!a.e && b.e && b.e->k == K_FINT) { return fcmp(s, (int)CmpInst::getSwappedPredicate((CmpInst::Predicate)pred), w, b, a); }
    if (a.e && b.e && a.e->k == K_FINT && b.e->k == K_FINT) {
      Expr *x = a.e->a[0], *y = b.e->a[0]; if (pred == CmpInst::FCMP_ORD) return P.cst(1, 1); if (pred == CmpInst::FCMP_UNO) return P.cst(0, 1);
      switch (pred & 7) { case 1: return P.eq(x, y); case 2: return P.slt(y, x); case 3: return P.sle(y, x); case 4: return P.slt(x, y); case 5: return P.sle(x, y); case 6: return P.bnot(P.eq(x, y)); }
    }
    // ITE mixing inf/non-integer values: split
    if (a.e && a.e->k == K_ITE) return fcmp(s, pred, w, V(decide(s, a.e->a[0]) ? a.e->a[1] : a.e->a[2]), b);
    if (b.e && b.e->k == K_ITE) return fcmp(s, pred, w, a, V(decide(s, b.e->a[0]) ? b.e->a[1] : b.e->a[2]));
    return fcmp(s, pred, w, VC(concF(s, a)), VC(concF(s, b)));
  }

  // ---------- calls ----------
  void enter(State &s, int fi, const std::vector<Val> &args) {
    m.translate(fi); Func *f = m.funcs[fi]; f->executed++;
    if (s.frames.size() > 4000) fail(s, "memory", "call stack overflow (unbounded recursion)");
    s.frames.emplace_back(); Frame &fr = s.frames.back(); fr.f = f; fr.pc = 0; fr.regs.assign(f->nslots, VC(0));
    for (size_t i = 0; i < args.size() && (int)i < f->nargsSlots; i++) fr.regs[i] = args[i];
  }
  void takeEdge(Frame &f, int e) {
    Edge &E1 = f.f->edges[e];
    if (E1.copies.size() == 1) f.regs[E1.copies[0].second] = rd(f, E1.copies[0].first);
    else if (!E1.copies.empty()) { Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (E1.copies.size() > 64) { big.resize(E1.copies.size()); t = big.data(); } for (size_t i = 0; i < E1.copies.size(); i++) t[i] = rd(f, E1.copies[i].first); for (size_t i = 0; i < E1.copies.size(); i++) f.regs[E1.copies[i].second] = t[i]; }
    f.pc = E1.target;
  }
  void finishCall(State &s, const Val *ret, size_t n) {
    Frame &f = s.frames.back(); const Inst &I = f.f->code[f.pc]; const CallInfo &c = f.f->calls[I.x];
    if (I.dst >= 0) for (size_t i = 0; i < n && (int)i < c.retN; i++) f.regs[I.dst + i] = ret[i];
    if (c.edge >= 0) takeEdge(f, c.edge); else f.pc++;
  }
  void popFrame(State &s) { Frame &f = s.frames.back(); for (u64 id : f.allocas) s.mem.release(id, 3); s.frames.pop_back(); }

  // ---------- OpenMP ----------
  void ompFork_(State &s, const CallInfo &c, std::vector<Val> &a);
  void ompSwitch(State &s, int to);
  void ompNext(State &s);
  void ompRaceCheck(State &s);
  void ompBarrier(State &s) { if (s.omp.empty() || s.omp.back().T <= 1) return; OmpRegion &r = s.omp.back(); r.th[r.cur].barrier = true; ompNext(s); }

  void callExt(State &s, const CallInfo &c, std::vector<Val> &args, Val &ret);
  void run(State *s);
  void step(State &s);
  void schedule(State &s);
  void initState(State &s);
  void registerExt();
  bool ompReturned(State &s);
};

static std::string uniqName(State &s, const std::string &n) { for (auto &p : s.cnt) if (p.first == n) { int k = p.second++; return n + "#" + std::to_string(k); } s.cnt.push_back({n, 1}); return n; }
// ------------------------------------------------------------------ OpenMP
void Exec::ompSwitch(State &s, int to) {
  OmpRegion &r = s.omp.back();
  OmpThread &old = r.th[r.cur];
  old.frames.clear();
  for (size_t i = r.base; i < s.frames.size(); i++) old.frames.push_back(std::move(s.frames[i]));
  s.frames.resize(r.base);
  r.cur = to; OmpThread &n = r.th[to];
  if (!n.started) {
    n.started = true; std::vector<Val> args; args.push_back(VC(objAddr(r.gt[to]))); args.push_back(VC(objAddr(r.gt[to])));
    for (auto &a : r.args) args.push_back(a);
    enter(s, r.fn, args);
  } else { for (auto &f : n.frames) s.frames.push_back(std::move(f)); n.frames.clear(); }
}
void Exec::ompNext(State &s) {
  // called when the current thread is done or waits at a barrier
  for (;;) {
    OmpRegion &r = s.omp.back(); int nx = -1;
    for (int i = 0; i < r.T; i++) if (!r.th[i].done && !r.th[i].barrier) { nx = i; break; }
    if (nx >= 0) { ompSwitch(s, nx); return; }
    ompRaceCheck(s); r.log.clear();
    bool any = false; for (auto &t : r.th) if (t.barrier) { any = true; t.barrier = false; }
    if (any) continue;
    // region over
    s.frames.resize(r.base); for (u64 g : r.gt) s.mem.release(g, 3);
    s.omp.pop_back(); Val v = VC(0); finishCall(s, &v, 0); return;
  }
}
void Exec::ompRaceCheck(State &s) {
  if (noRace) return;
  OmpRegion &r = s.omp.back(); st.raceChecks++;
  std::vector<Access> v(r.log.begin(), r.log.end());
  for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size() && v[j].obj == v[i].obj; j++) {
    const Access &a = v[i], &b = v[j];
    if (!a.w && !b.w) continue; if (a.at && b.at) continue; if (a.lock && a.lock == b.lock) continue;
    bool conc = a.thr != b.thr || (ompIter && a.loop == b.loop && a.loop >= 0 && a.iter != b.iter && a.obj < r.startObj);
    if (!conc) continue;
    if (std::find(s.shared.begin(), s.shared.end(), a.obj) != s.shared.end()) continue;   // declared shared: its interleavings are explored instead
    if (ilv >= 0 && a.w && b.w) { auto *x = llvm::dyn_cast<llvm::StoreInst>(a.I), *y = llvm::dyn_cast<llvm::StoreInst>(b.I); if (x && y && llvm::isa<llvm::Constant>(x->getValueOperand()) && x->getValueOperand() == y->getValueOperand()) continue; }
    if (a.hi <= b.lo || b.hi <= a.lo) continue;
    Expr *ov = P.cst(1, 1);
    if (a.off || b.off) { Expr *x = a.off ? a.off : P.cst((u64)a.lo, 64), *y = b.off ? b.off : P.cst((u64)b.lo, 64);
      ov = P.band(P.slt(x, P.add(y, P.cst(b.size, 64))), P.slt(y, P.add(x, P.cst(a.size, 64)))); }
    st.raceQueries++;
    ModelP md; int q = ov->k == K_CONST ? (int)ov->c : feasible(s, ov, &md);
    if (q == 1) {
      std::string la = locOf(a.I), lb = locOf(b.I);
      if (!md) md = anyModel(s);
      report(s, "race", "conflicting unsynchronised accesses in a parallel region (" + funcOf(a.I, "?") + " / " + funcOf(b.I, "?") + ")", md);
      throw PathEnd{1};
    }
  }
}
void Exec::ompFork_(State &s, const CallInfo &c, std::vector<Val> &a) {
  (void)c;
  u64 fa = concretize(s, a[2]); int fn = (int)((fa - objAddr(m.funcObjId)) / 16);
  OmpRegion r; r.fn = fn; r.args.assign(a.begin() + 3, a.end());
  r.T = s.omp.empty() ? (s.nthreads > 0 ? std::min(s.nthreads, ompT > 0 ? ompT : 1) : (ompT > 0 ? ompT : 1)) : 1; s.nthreads = 0;
  r.base = s.frames.size(); r.th.resize(r.T);
  for (int i = 0; i < r.T; i++) { u64 g = s.mem.alloc(4, 1, 0, true); writeAt(s, g, 0, 4, 32, VC(i)); r.gt.push_back(g); }
  r.startObj = s.mem.next; r.cur = 0;
  s.omp.push_back(r); OmpRegion &q = s.omp.back(); q.th[0].started = true;
  std::vector<Val> args; args.push_back(VC(objAddr(q.gt[0]))); args.push_back(VC(objAddr(q.gt[0]))); for (auto &x : q.args) args.push_back(x);
  enter(s, fn, args);
}

// ------------------------------------------------------------------ externals
#define EXT(name) static void name(Exec &x, State &s, const CallInfo &c, std::vector<Val> &a, Val &ret)
static std::string uniq(State &s, const std::string &n) { for (auto &p : s.cnt) if (p.first == n) { int k = p.second++; return n + "#" + std::to_string(k); } s.cnt.push_back({n, 1}); return n; }
static Expr *mkVar(Exec &x, const std::string &nm, int w, i64 lo, i64 hi, bool real = false) {
  std::string key = nm + ":" + std::to_string(w) + ":" + std::to_string(lo) + ":" + std::to_string(hi); Expr *&e = x.varByName[key];
  if (!e) e = P.var(nm, w, lo, hi, false, real); return e;
}
static void domain(Exec &x, State &s, Expr *e, int w, i64 lo, i64 hi) {
  // constraint built without interval shortcuts
  if (lo > minw(w)) { Expr *c = P.bnot(P.intern(K_SLT, 1, 0, e, P.cst((u64)lo, w), 0)); s.pc.push_back(c); }
  if (hi < maxw(w)) { Expr *c = P.bnot(P.intern(K_SLT, 1, 0, P.cst((u64)hi, w), e, 0)); s.pc.push_back(c); }
  (void)x;
}
EXT(x_sym_int) { std::string n = uniq(s, x.cstr(s, a[0])); i64 lo = sextw(x.concretize(s, a[1]), 32), hi = sextw(x.concretize(s, a[2]), 32);
  if (lo > hi) throw PathEnd{2};
  if (lo == hi) { ret = VC((u64)lo & 0xffffffffu); s.log.push_back({n, ret, 0}); return; }
  if (x.replay) { auto it = x.replayVals.find(n); if (it != x.replayVals.end()) { ret = VC((u64)it->second.first.v & 0xffffffffu); s.log.push_back({n, ret, 0}); return; } }
  Expr *e = mkVar(x, n, 32, lo, hi); domain(x, s, e, 32, lo, hi); s.log.push_back({n, Val{0, e}, 0}); ret = Val{0, e}; (void)c; }
EXT(x_sym_long) { std::string n = uniq(s, x.cstr(s, a[0])); i64 lo = (i64)x.concretize(s, a[1]), hi = (i64)x.concretize(s, a[2]);
  if (lo == hi) { ret = VC((u64)lo); s.log.push_back({n, ret, 3}); return; }
  if (x.replay) { auto it = x.replayVals.find(n); if (it != x.replayVals.end()) { ret = VC((u64)it->second.first.v); s.log.push_back({n, ret, 3}); return; } }
  Expr *e = mkVar(x, n, 64, lo, hi); domain(x, s, e, 64, lo, hi); s.log.push_back({n, Val{0, e}, 3}); ret = Val{0, e}; (void)c; }
EXT(x_sym_num) { std::string n = uniq(s, x.cstr(s, a[0])); i64 lo = sextw(x.concretize(s, a[1]), 32), hi = sextw(x.concretize(s, a[2]), 32);
  if (lo == hi) { ret = VC(asU((double)lo)); s.log.push_back({n, ret, 1}); return; }
  if (x.replay) { auto it = x.replayVals.find(n); if (it != x.replayVals.end()) { ret = VC(asU((double)(i64)it->second.first.v)); s.log.push_back({n, ret, 1}); return; } }
  Expr *e = mkVar(x, n, 64, lo, hi); domain(x, s, e, 64, lo, hi); Expr *f = P.fint(e); s.log.push_back({n, Val{0, f}, 1}); ret = Val{0, f}; (void)c; }
EXT(x_sym_real) { std::string n = uniq(s, x.cstr(s, a[0])); Expr *e = mkVar(x, n, 64, INT64_MIN, INT64_MAX, true); s.log.push_back({n, Val{0, e}, 2}); ret = Val{0, e}; (void)c; }
EXT(x_sym_param) { std::string n = x.cstr(s, a[0]); auto it = x.params.find(n); if (it == x.params.end()) { ret = a[1]; return; } ret = VC((u64)strtoll(it->second.c_str(), 0, 10) & 0xffffffffu); (void)c; }
EXT(x_sym_assume) { Expr *e = x.E(a[0], 32); Expr *q = P.bnot(P.eq(e, P.cst(0, 32))); if (q->k == K_CONST) { if (!q->c) throw PathEnd{2}; return; }
  u64 v; if (x.lookup(s, q, v)) { if (!v) throw PathEnd{2}; return; }
  int f = x.feasible(s, q); if (f == 0) throw PathEnd{2}; if (f < 0) { x.st.incomplete++; throw PathEnd{3}; } x.addPC(s, q); (void)c; (void)ret; }
EXT(x_sym_assert) { Expr *e = x.E(a[0], 32); Expr *q = P.bnot(P.eq(e, P.cst(0, 32))); x.st.asserts++; if (q->k != K_CONST) x.st.assertsSym++;
  std::string msg = x.cstr(s, a[1]);
  if (q->undef && x.uninitCheck) x.needDefined(s, q, "result depends on uninitialised memory: " + msg);
  x.require(s, q, "assert", msg); (void)c; (void)ret; }
EXT(x_sym_cover) { s.covered.insert(x.cstr(s, a[0])); (void)x; (void)c; (void)ret; }
EXT(x_sym_shared) { Expr *off; i64 co; u64 id = x.resolve(s, a[0], off, co); s.shared.push_back(id); (void)c; (void)ret; }
EXT(x_sym_conc) { ret = VC(x.concretize(s, a[0])); (void)c; }
// equality of real terms: rearranged sums and products (same value in exact arithmetic) count as equal
struct Ring {
  typedef std::map<std::vector<int>, double> Poly; std::map<Expr *, Poly> memo; std::map<std::string, int> atoms; bool fail = false;
  int atom(const std::string &k) { auto it = atoms.find(k); if (it != atoms.end()) return it->second; int n = (int)atoms.size() + 1; atoms[k] = n; return n; }
  static std::string str(const Poly &p) { std::string r; char b[40]; for (auto &t : p) { for (int v : t.first) r += std::to_string(v) + "."; snprintf(b, sizeof b, "*%a;", t.second); r += b; } return r; }
  static std::vector<int> mulm(const std::vector<int> &u, const std::vector<int> &v) { std::vector<int> r = u; for (int k : v) { auto it = std::find(r.begin(), r.end(), -k); if (it != r.end()) r.erase(it); else r.push_back(k); } std::sort(r.begin(), r.end()); return r; }
  static void acc(Poly &p, const std::vector<int> &m, double c) { double &d = p[m]; d += c; if (d == 0) p.erase(m); }
  Poly mul(const Poly &u, const Poly &v) { Poly r; if (u.size() * v.size() > 20000) { fail = true; return r; } for (auto &i : u) for (auto &j : v) acc(r, mulm(i.first, j.first), i.second * j.second); return r; }
  Poly one(int at) { Poly p; p[{at}] = 1; return p; }
  const Poly &of(Expr *e) {
    auto it = memo.find(e); if (it != memo.end()) return it->second; Poly r; static const Poly none; if (fail || memo.size() > 4000) { fail = true; return memo[e] = none; }
    if (e->k == K_CONST) { double d = asD(e->c); if (!(std::fabs(d) < 1e300)) fail = true; if (d != 0) r[{}] = d; }
    else if (e->k == K_FINT && e->a[0]->k == K_CONST) { double d = (double)(i64)e->a[0]->c; if (d != 0) r[{}] = d; }
    else if (e->k == K_FUF && e->c == UF_ADD) { r = of(e->a[0]); for (auto &t : Poly(of(e->a[1]))) acc(r, t.first, t.second); }
    else if (e->k == K_FUF && e->c == UF_NEG) { r = of(e->a[0]); for (auto &t : r) t.second = -t.second; }
    else if (e->k == K_FUF && e->c == UF_MUL) { Poly u = of(e->a[0]), v = of(e->a[1]); r = mul(u, v); }
    else if (e->k == K_FUF && e->c == UF_DIV) { Poly u = of(e->a[0]), v = of(e->a[1]), w; if (v.size() == 1) { std::vector<int> m = v.begin()->first; for (int &k : m) k = -k; std::sort(m.begin(), m.end()); w[m] = 1 / v.begin()->second; } else if (v.empty()) fail = true; else w = one(-atom("p" + str(v))); r = mul(u, w); }
    else if (e->k == K_FUF) { std::string k = "f" + std::to_string(e->c) + "(" + str(of(e->a[0])) + ")"; if (e->a[1]) k += str(of(e->a[1])); r = one(atom(k)); }
    else r = one(atom("e" + std::to_string(e->id)));
    return memo[e] = r;
  }
  static bool same(Expr *p, Expr *q) { Ring r; auto u = r.of(p), v = r.of(q); return !r.fail && u == v; }
};
EXT(x_sym_feq) { Expr *p = x.E(a[0], 64), *q = x.E(a[1], 64); if (p != q && (p->k == K_FUF || q->k == K_FUF) && Ring::same(p, q)) { ret = VC(1); return; } ret = x.V(P.zext(P.eq(p, q), 32)); (void)s; (void)c; }
EXT(x_sym_allow_throw) { s.allowThrow = a[0].v; (void)x; (void)c; (void)ret; }
EXT(x_sym_symbolic) { ret = VC(1); (void)x; (void)s; (void)c; (void)a; }
EXT(x_sym_out) { s.outs.push_back(a[0]); (void)x; (void)c; (void)ret; }
EXT(x_sym_leak_begin) { s.leakBase = (i64)s.mem.next; (void)x; (void)c; (void)ret; (void)a; }
EXT(x_sym_leak_check) { std::string msg = x.cstr(s, a[0]); x.st.asserts++; if (s.leakBase >= 0) for (u64 i = (u64)s.leakBase; i < s.mem.next; i++) if (s.mem.status(i) == 1 && s.mem.get(i)->kind == 2) x.fail(s, "leak", msg); s.leakBase = -1; (void)c; (void)ret; }
EXT(x_malloc) { ret = x.heapAlloc(s, a[0], 0, false); (void)c; }
EXT(x_calloc) { u64 n = x.concretize(s, a[0]), z = x.concretize(s, a[1]); ret = x.heapAlloc(s, VC(n * z), 0, true); (void)c; }
EXT(x_realloc) { u64 p = x.concretize(s, a[0]), n = x.concretize(s, a[1]); Val r = x.heapAlloc(s, VC(n), 0, false); if (p) { u64 id = p >> REG_SHIFT; if (s.mem.status(id) != 1) x.fail(s, "memory", "realloc of freed memory"); u64 os = s.mem.get(id)->size; x.copyMem(s, r, VC(p), std::min<u64>(os, n)); x.heapFree(s, VC(p), 0); } ret = r; (void)c; }
EXT(x_free) { x.heapFree(s, a[0], 0); (void)c; (void)ret; }
EXT(x_new) { ret = x.heapAlloc(s, a[0], 1, false); (void)c; }
EXT(x_newa) { ret = x.heapAlloc(s, a[0], 2, false); (void)c; }
EXT(x_del) { x.heapFree(s, a[0], 1); (void)c; (void)ret; }
EXT(x_dela) { x.heapFree(s, a[0], 2); (void)c; (void)ret; }
EXT(x_memcpy) { u64 n = x.concretize(s, a[2]); x.copyMem(s, a[0], a[1], n); ret = a[0]; (void)c; }
EXT(x_memset) { u64 n = x.concretize(s, a[2]); x.setMem(s, a[0], Val{a[1].v & 255, a[1].e}, n); ret = a[0]; (void)c; }
EXT(x_noop) { ret = a.empty() ? VC(0) : a[0]; (void)x; (void)s; (void)c; }
EXT(x_nan) { ret = VC(asU(__builtin_nan(""))); (void)x; (void)s; (void)c; (void)a; }
EXT(x_zero) { ret = VC(0); (void)x; (void)s; (void)c; (void)a; }
EXT(x_one) { ret = VC(1); (void)x; (void)s; (void)c; (void)a; }
EXT(x_strlen) { u64 p = x.concretize(s, a[0]); u64 n = 0; for (;; n++) { Val b = x.load(s, VC(p + n), 1, 8); u64 v = x.concretize(s, b); if (!v) break; } ret = VC(n); (void)c; }
EXT(x_memcmp) { u64 n = x.concretize(s, a[2]); u64 p = x.concretize(s, a[0]), q = x.concretize(s, a[1]); int r = 0; for (u64 i = 0; i < n && !r; i++) { u8 u = (u8)x.concretize(s, x.load(s, VC(p + i), 1, 8)), v = (u8)x.concretize(s, x.load(s, VC(q + i), 1, 8)); if (u != v) r = u < v ? -1 : 1; } ret = VC((u32)r); (void)c; }
EXT(x_strcmp) { u64 p = x.concretize(s, a[0]), q = x.concretize(s, a[1]); int r = 0; for (u64 i = 0; !r; i++) { u8 u = (u8)x.concretize(s, x.load(s, VC(p + i), 1, 8)), v = (u8)x.concretize(s, x.load(s, VC(q + i), 1, 8)); if (u != v) r = u < v ? -1 : 1; else if (!u) break; } ret = VC((u32)r); (void)c; }
EXT(x_abort) { x.fail(s, "abort", "the program aborts"); (void)c; (void)a; (void)ret; }
EXT(x_exit) { if (s.allowThrow) throw PathEnd{4}; x.fail(s, "abort", "the library calls exit()"); (void)c; (void)a; (void)ret; }
EXT(x_throw) { if (s.allowThrow) throw PathEnd{4}; x.fail(s, "exception", "uncaught C++ exception"); (void)c; (void)a; (void)ret; }
EXT(x_now) { ret = VC(++s.clock * 1000); (void)x; (void)c; (void)a; }
EXT(x_rand) { std::string n = uniq(s, "rand"); Expr *e = mkVar(x, n, 32, 0, INT32_MAX); if (x.replay) { auto it = x.replayVals.find(n); if (it != x.replayVals.end()) { ret = VC(it->second.first.v); s.log.push_back({n, ret, 0}); return; } } domain(x, s, e, 32, 0, INT32_MAX); s.log.push_back({n, Val{0, e}, 0}); ret = Val{0, e}; (void)c; (void)a; }
EXT(x_excalloc) { ret = VC(objAddr(s.mem.alloc(x.concretize(s, a[0]) + 64, 0, 0, true))); (void)c; }
template <double (*F)(double)> static void x_math1(Exec &x, State &s, const CallInfo &, std::vector<Val> &a, Val &ret) {
  ret = VC(asU(F(asD(x.concF(s, a[0])))));
}
template <double (*F)(double, double)> static void x_math2(Exec &x, State &s, const CallInfo &, std::vector<Val> &a, Val &ret) { double p = asD(x.concF(s, a[0])), q = asD(x.concF(s, a[1])); ret = VC(asU(F(p, q))); }
template <double (*F)(double)> static void x_mathl(Exec &x, State &s, const CallInfo &, std::vector<Val> &a, Val &ret) { ret = VC((u64)(i64)F(asD(x.concF(s, a[0])))); }
static double m_fmod(double a, double b) { return fmod(a, b); } static double m_hypot(double a, double b) { return hypot(a, b); } static double m_atan2(double a, double b) { return atan2(a, b); } static double m_log10(double d) { return log10(d); } static double m_exp2(double d) { return exp2(d); } static double m_cbrt(double d) { return cbrt(d); } static double m_rint(double d) { return rint(d); } static double m_sin(double d) { return sin(d); } static double m_cos(double d) { return cos(d); } static double m_copysign(double a, double b) { return copysign(a, b); }
static double m_log2(double d) { return log2(d); } static double m_log(double d) { return log(d); } static double m_exp(double d) { return exp(d); }
static double m_floor(double d) { return floor(d); } static double m_ceil(double d) { return ceil(d); } static double m_round(double d) { return round(d); } static double m_trunc(double d) { return trunc(d); }
EXT(x_floorceil) { if (a[0].e && a[0].e->k == K_FINT) { ret = a[0]; return; } ret = VC(asU(floor(asD(x.concF(s, a[0]))))); (void)c; }
EXT(x_ceil) { if (a[0].e && a[0].e->k == K_FINT) { ret = a[0]; return; } ret = VC(asU(ceil(asD(x.concF(s, a[0]))))); (void)c; }
EXT(x_pow) { ret = VC(asU(pow(asD(x.concF(s, a[0])), asD(x.concF(s, a[1]))))); (void)c; }
EXT(x_sqrt) { if (a[0].e && x.isReal(a[0].e)) { ret = x.V(P.fuf(UF_SQRT, a[0].e, 0)); return; } ret = VC(asU(sqrt(asD(x.concF(s, a[0]))))); (void)c; }
EXT(x_fabs) { if (a[0].e && x.isReal(a[0].e)) { ret = x.V(P.fuf(UF_ABS, a[0].e, 0)); return; } if (a[0].e && a[0].e->k == K_FINT) { Expr *i = a[0].e->a[0]; if (i->lo >= 0) { ret = a[0]; return; } ret = x.V(P.fint(P.ite(P.slt(i, P.cst(0, 64)), P.sub(P.cst(0, 64), i), i))); return; } ret = VC(asU(fabs(asD(x.concF(s, a[0]))))); (void)c; }
EXT(x_fmuladd) { Val t = x.fbin(s, O_FMUL, 64, a[0], a[1]); ret = x.fbin(s, O_FADD, 64, t, a[2]); (void)c; }
EXT(x_fmax) { Expr *q = x.fcmp(s, llvm::CmpInst::FCMP_OLT, 64, a[0], a[1]); ret = x.V(P.ite(q, x.E(a[1], 64), x.E(a[0], 64))); (void)c; }
EXT(x_fmin) { Expr *q = x.fcmp(s, llvm::CmpInst::FCMP_OLT, 64, a[1], a[0]); ret = x.V(P.ite(q, x.E(a[1], 64), x.E(a[0], 64))); (void)c; }
// OpenMP runtime
EXT(x_kmpc_static_init) { // loc,gtid,sched,plast,plower,pupper,pstride,incr,chunk
  int w = c.argW[7] == 64 ? 64 : 32; u32 sz = w / 8;
  i64 lo = sextw(x.concretize(s, x.load(s, a[4], sz, w)), w), hi = sextw(x.concretize(s, x.load(s, a[5], sz, w)), w); i64 inc = sextw(x.concretize(s, a[7]), w); i64 chunk = sextw(x.concretize(s, a[8]), w); int sched = (int)x.concretize(s, a[2]);
  int T = 1, t = 0; if (!s.omp.empty()) { T = s.omp.back().T; t = s.omp.back().cur; }
  if (inc <= 0) { x.st.notes["negative omp increment"]++; throw PathEnd{3}; }
  i64 n = hi < lo ? 0 : (hi - lo) / inc + 1; i64 mylo, myhi; bool last; 
  sched &= 0xff;
  if (sched == 33) { // static chunked
    if (chunk < 1) chunk = 1; mylo = lo + t * chunk * inc; myhi = mylo + (chunk - 1) * inc; last = false; x.store(s, a[6], sz, w, VC((u64)(T * chunk * inc)));
    if (n > 0) last = ((n - 1) / chunk) % T == t;
  } else { i64 q = n / T, r = n % T; i64 b = t * q + std::min<i64>(t, r), cnt = q + (t < r); mylo = lo + b * inc; myhi = cnt ? mylo + (cnt - 1) * inc : mylo - inc; last = n > 0 && b + cnt == n && cnt > 0; x.store(s, a[6], sz, w, VC((u64)(n > 0 ? n * inc : 1))); }
  x.store(s, a[3], 4, 32, VC(last)); x.store(s, a[4], sz, w, VC((u64)mylo & maskw(w))); x.store(s, a[5], sz, w, VC((u64)myhi & maskw(w)));
  (void)ret; }
EXT(x_kmpc_dispatch_init) { // loc,gtid,sched,lb,ub,st,chunk
  int w = c.argW[3]; i64 lb = sextw(x.concretize(s, a[3]), w), ub = sextw(x.concretize(s, a[4]), w), stp = sextw(x.concretize(s, a[5]), w);
  if (s.omp.empty()) { s.serLoop = OmpLoop{lb, ub, stp}; (void)ret; return; }   // an orphaned loop: the only thread takes every iteration
  OmpRegion &r = s.omp.back(); OmpThread &t = r.th[r.cur]; t.loop = t.loopCount++; t.iter = -1;
  if (!r.loops.count(t.loop)) r.loops[t.loop] = OmpLoop{lb, ub, stp};
  (void)ret; }
EXT(x_kmpc_dispatch_next) { // loc,gtid,plast,plb,pub,pst
  int w = std::string(x.m.extNames[c.ext]).find("_8") != std::string::npos ? 64 : 32; u32 sz = w / 8;
  if (s.omp.empty()) {
    OmpLoop &l = s.serLoop; if (l.next > l.hi) { ret = VC(0); return; }
    i64 it = l.next; l.next += l.st; x.store(s, a[2], 4, 32, VC(l.next > l.hi)); x.store(s, a[3], sz, w, VC((u64)it & maskw(w))); x.store(s, a[4], sz, w, VC((u64)it & maskw(w))); x.store(s, a[5], sz, w, VC(1)); ret = VC(1); return;
  }
  OmpRegion &r = s.omp.back(); OmpThread &t = r.th[r.cur]; OmpLoop &l = r.loops[t.loop];
  if (l.next > l.hi) { t.loop = -1; t.iter = -1; ret = VC(0); return; }
  if (x.ompFork && r.cur + 1 < r.T && r.T > 1) { // does this thread take the iteration, or leave it (and the rest) to later threads?
    std::string nm = "omp_take#" + std::to_string(s.freshN); Expr *e = mkVar(x, nm, 1, 0, 1); bool d = x.decide(s, e); s.freshN++; if (!d) { t.loop = -1; t.iter = -1; ret = VC(0); return; } }
  i64 it = l.next; l.next += l.st; t.iter = it; bool last = l.next > l.hi;
  x.store(s, a[2], 4, 32, VC(last)); x.store(s, a[3], sz, w, VC((u64)it & maskw(w))); x.store(s, a[4], sz, w, VC((u64)it & maskw(w))); x.store(s, a[5], sz, w, VC(1)); ret = VC(1); }
EXT(x_kmpc_single) { if (s.omp.empty()) { ret = VC(1); return; } OmpRegion &r = s.omp.back(); OmpThread &t = r.th[r.cur]; int k = t.singleCount++; if (k >= r.singles) { r.singles = k + 1; ret = VC(1); } else ret = VC(0); (void)x; (void)c; (void)a; }
EXT(x_kmpc_critical) { if (!s.omp.empty()) { auto &t = s.omp.back().th[s.omp.back().cur]; t.lock = (i32)(a[2].v >> REG_SHIFT) + 1; } (void)x; (void)c; (void)ret; }
EXT(x_kmpc_end_critical) { if (!s.omp.empty()) s.omp.back().th[s.omp.back().cur].lock = 0; (void)x; (void)c; (void)ret; (void)a; }
EXT(x_kmpc_reduce) { if (!s.omp.empty()) s.omp.back().th[s.omp.back().cur].lock = 1 << 28; ret = VC(1); (void)x; (void)c; (void)a; }
EXT(x_kmpc_master) { ret = VC(s.omp.empty() || s.omp.back().cur == 0); (void)x; (void)c; (void)a; }
EXT(x_kmpc_gtid) { ret = VC(s.omp.empty() ? 0 : s.omp.back().cur); (void)x; (void)c; (void)a; }
EXT(x_kmpc_push) { s.nthreads = (int)sextw(x.concretize(s, a[2]), 32); (void)c; (void)ret; }
EXT(x_omp_num) { ret = VC(s.omp.empty() ? 1 : s.omp.back().T); (void)x; (void)c; (void)a; }
EXT(x_omp_max) { ret = VC(x.ompT > 0 ? x.ompT : 1); (void)s; (void)c; (void)a; }
EXT(x_wtime) { ret = VC(asU((double)++s.clock)); (void)x; (void)c; (void)a; }

static ExtFn findExt(const std::string &n) {
  static std::map<std::string, ExtFn> t = {
    {"sym_int", x_sym_int}, {"sym_long", x_sym_long}, {"sym_num", x_sym_num}, {"sym_real", x_sym_real}, {"sym_param", x_sym_param}, {"sym_assume", x_sym_assume}, {"sym_assert", x_sym_assert}, {"sym_cover", x_sym_cover}, {"sym_conc", x_sym_conc}, {"sym_shared", x_sym_shared}, {"sym_feq", x_sym_feq}, {"sym_allow_throw", x_sym_allow_throw}, {"sym_is_symbolic", x_sym_symbolic},
    {"sym_leak_begin", x_sym_leak_begin}, {"sym_out", x_sym_out}, {"sym_leak_check", x_sym_leak_check},
    {"malloc", x_malloc}, {"calloc", x_calloc}, {"realloc", x_realloc}, {"free", x_free}, {"_Znwm", x_new}, {"_Znam", x_newa}, {"_ZnwmRKSt9nothrow_t", x_new}, {"_ZnamRKSt9nothrow_t", x_newa}, {"_ZdlPv", x_del}, {"_ZdaPv", x_dela}, {"_ZdlPvm", x_del}, {"_ZdaPvm", x_dela}, {"_ZdlPvRKSt9nothrow_t", x_del},
    {"memcpy", x_memcpy}, {"memmove", x_memcpy}, {"memset", x_memset}, {"strlen", x_strlen}, {"memcmp", x_memcmp}, {"bcmp", x_memcmp}, {"strcmp", x_strcmp},
    {"printf", x_zero}, {"puts", x_zero}, {"putchar", x_zero}, {"fprintf", x_zero}, {"fputs", x_zero}, {"fputc", x_zero}, {"fwrite", x_zero}, {"fflush", x_zero}, {"perror", x_zero}, {"snprintf", x_zero}, {"sprintf", x_zero}, {"vprintf", x_zero},
    {"abort", x_abort}, {"_ZSt9terminatev", x_abort}, {"__assert_fail", x_abort}, {"exit", x_exit}, {"_exit", x_exit}, {"llvm.trap", x_abort}, {"__cxa_pure_virtual", x_abort},
    {"__cxa_throw", x_throw}, {"__cxa_rethrow", x_throw}, {"__cxa_allocate_exception", x_excalloc}, {"__cxa_free_exception", x_zero}, {"__cxa_atexit", x_zero}, {"__cxa_guard_acquire", x_one}, {"__cxa_guard_release", x_zero},
    {"_ZNSt6chrono3_V212system_clock3nowEv", x_now}, {"_ZNSt6chrono3_V212steady_clock3nowEv", x_now}, {"rand", x_rand}, {"srand", x_zero}, {"time", x_now}, {"clock", x_now},
    {"log2", x_math1<m_log2>}, {"log", x_math1<m_log>}, {"exp", x_math1<m_exp>}, {"floor", x_floorceil}, {"ceil", x_ceil}, {"round", x_math1<m_round>}, {"trunc", x_math1<m_trunc>}, {"llvm.floor.f64", x_floorceil}, {"llvm.ceil.f64", x_ceil}, {"llvm.round.f64", x_math1<m_round>}, {"llvm.trunc.f64", x_math1<m_trunc>}, {"llvm.log2.f64", x_math1<m_log2>},
    {"nan", x_nan}, {"fmod", x_math2<m_fmod>}, {"hypot", x_math2<m_hypot>}, {"atan2", x_math2<m_atan2>}, {"copysign", x_math2<m_copysign>}, {"llvm.copysign.f64", x_math2<m_copysign>}, {"log10", x_math1<m_log10>}, {"llvm.log10.f64", x_math1<m_log10>}, {"exp2", x_math1<m_exp2>}, {"llvm.exp2.f64", x_math1<m_exp2>}, {"cbrt", x_math1<m_cbrt>}, {"rint", x_math1<m_rint>}, {"nearbyint", x_math1<m_rint>}, {"llvm.rint.f64", x_math1<m_rint>}, {"llvm.nearbyint.f64", x_math1<m_rint>}, {"sin", x_math1<m_sin>}, {"cos", x_math1<m_cos>},
    {"lround", x_mathl<m_round>}, {"llround", x_mathl<m_round>}, {"lrint", x_mathl<m_rint>}, {"llvm.lround.i64.f64", x_mathl<m_round>}, {"llvm.lrint.i64.f64", x_mathl<m_rint>},
    {"pow", x_pow}, {"llvm.pow.f64", x_pow}, {"sqrt", x_sqrt}, {"llvm.sqrt.f64", x_sqrt}, {"fabs", x_fabs}, {"llvm.fabs.f64", x_fabs}, {"llvm.fmuladd.f64", x_fmuladd}, {"fmax", x_fmax}, {"fmin", x_fmin}, {"llvm.maxnum.f64", x_fmax}, {"llvm.minnum.f64", x_fmin},
    {"__kmpc_for_static_init_4", x_kmpc_static_init}, {"__kmpc_for_static_init_4u", x_kmpc_static_init}, {"__kmpc_for_static_init_8", x_kmpc_static_init}, {"__kmpc_for_static_init_8u", x_kmpc_static_init}, {"__kmpc_for_static_fini", x_zero},
    {"__kmpc_dispatch_init_4", x_kmpc_dispatch_init}, {"__kmpc_dispatch_init_4u", x_kmpc_dispatch_init}, {"__kmpc_dispatch_init_8", x_kmpc_dispatch_init}, {"__kmpc_dispatch_init_8u", x_kmpc_dispatch_init},
    {"__kmpc_dispatch_next_4", x_kmpc_dispatch_next}, {"__kmpc_dispatch_next_4u", x_kmpc_dispatch_next}, {"__kmpc_dispatch_next_8", x_kmpc_dispatch_next}, {"__kmpc_dispatch_next_8u", x_kmpc_dispatch_next}, {"__kmpc_dispatch_deinit", x_zero},
    {"__kmpc_single", x_kmpc_single}, {"__kmpc_end_single", x_zero}, {"__kmpc_critical", x_kmpc_critical}, {"__kmpc_end_critical", x_kmpc_end_critical}, {"__kmpc_reduce_nowait", x_kmpc_reduce}, {"__kmpc_reduce", x_kmpc_reduce}, {"__kmpc_end_reduce_nowait", x_kmpc_end_critical},
    {"__kmpc_master", x_kmpc_master}, {"__kmpc_end_master", x_zero}, {"__kmpc_global_thread_num", x_kmpc_gtid}, {"omp_get_thread_num", x_kmpc_gtid}, {"__kmpc_push_num_threads", x_kmpc_push}, {"omp_get_num_threads", x_omp_num}, {"omp_get_max_threads", x_omp_max}, {"omp_get_num_procs", x_omp_max}, {"omp_set_num_threads", x_zero}, {"omp_get_wtime", x_wtime}, {"omp_set_dynamic", x_zero}, {"omp_set_nested", x_zero},
  };
  auto it = t.find(n); if (it != t.end()) return it->second;
  auto st = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
  if (st("_ZNSo") || st("_ZStls") || st("_ZSt4endl") || st("_ZSt5flush") || st("_ZSt16__ostream_insert") || st("_ZNSt9basic_ios") || st("_ZNKSt9basic_ios") || st("_ZNKSt5ctype") || st("_ZSt21ios_base_library_initv") || st("_ZNSt8ios_base") || st("_ZSt4setw") || st("_ZNSt13basic_ostream")) return x_noop;
  if (st("_ZSt") && n.find("__throw_") != std::string::npos) return x_throw;
  if (st("_ZNSt11logic_error") || st("_ZNSt13runtime_error") || st("_ZNSt9exception")) return x_noop;
  return nullptr;
}

void Exec::callExt(State &s, const CallInfo &c, std::vector<Val> &a, Val &ret) {
  if ((int)ext.size() < (int)m.extNames.size()) ext.resize(m.extNames.size(), nullptr);
  const std::string &n = m.extNames[c.ext];
  if (!ext[c.ext]) {
    ExtFn f = findExt(n);
    if (f) ext[c.ext] = f;
  }
  if (ext[c.ext]) { ext[c.ext](*this, s, c, a, ret); return; }
  int w = (int)(ci(s).w); if (!w) w = 32;
  auto st2 = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
  if (st2("llvm.memcpy") || st2("llvm.memmove")) { u64 k = concretize(s, a[2]); copyMem(s, a[0], a[1], k); return; }
  if (st2("llvm.memset")) { u64 k = concretize(s, a[2]); setMem(s, a[0], a[1], k); return; }
  if (st2("llvm.umax") || st2("llvm.umin") || st2("llvm.smax") || st2("llvm.smin")) {
    Expr *x = E(a[0], w), *y = E(a[1], w); bool u = n[5] == 'u', mx = n[7] == 'a'; 
    if (!a[0].e && !a[1].e) { bool lt = u ? a[0].v < a[1].v : sextw(a[0].v, w) < sextw(a[1].v, w); ret = (lt != mx) ? a[0] : a[1]; return; }
    Expr *lt = u ? P.ult(x, y) : P.slt(x, y); ret = V(mx ? P.ite(lt, y, x) : P.ite(lt, x, y)); return; }
  if (st2("llvm.abs")) { Expr *x = E(a[0], w); ret = V(P.ite(P.slt(x, P.cst(0, w)), P.sub(P.cst(0, w), x), x)); return; }
  if (st2("llvm.usub.sat")) { Expr *x = E(a[0], w), *y = E(a[1], w); ret = V(P.ite(P.ult(x, y), P.cst(0, w), P.sub(x, y))); return; }
  if (st2("llvm.ctlz")) { u64 v = concretize(s, a[0]); ret = VC(v ? (u64)(__builtin_clzll(v) - (64 - w)) : w); return; }
  if (st2("llvm.cttz")) { u64 v = concretize(s, a[0]); ret = VC(v ? (u64)__builtin_ctzll(v) : w); return; }
  if (st2("llvm.ctpop")) { ret = VC(__builtin_popcountll(concretize(s, a[0]))); return; }
  if (st2("llvm.fshl")) { Expr *x = E(a[0], w), *y = E(a[1], w); u64 k = concretize(s, a[2]) % w; if (!k) { ret = a[0]; return; } ret = V(P.bor(P.bin(K_SHL, x, P.cst(k, w)), P.bin(K_LSHR, y, P.cst(w - k, w)))); return; }
  if (st2("llvm.expect")) { ret = a[0]; return; }
  if (st2("llvm.is.constant")) { ret = VC(0); return; }
  if (st2("llvm.objectsize")) { ret = VC(maskw(w)); return; }
  if (st2("llvm.stacksave")) { ret = VC(0); return; }
  if (st2("llvm.stackrestore") || st2("llvm.dbg") || st2("llvm.lifetime")) return;
  if (st2("llvm.eh.typeid")) { ret = VC(0); return; }
  st.notes["unmodelled external " + n]++; st.incomplete++;
  throw PathEnd{3};
}

// ------------------------------------------------------------------ interpreter
void Exec::step(State &s) {
  Frame &f = s.frames.back(); const Inst &I = f.f->code[f.pc];
  switch (I.op) {
#define BINOP(O, K, CONC) case O: { Val a = rd(f, I.a), b = rd(f, I.b); if (!a.e && !b.e) { u64 x = a.v, y = b.v; (void)x; (void)y; f.regs[I.dst] = VC((CONC) & maskw(I.w)); } else f.regs[I.dst] = V(P.bin(K, E(a, I.w), E(b, I.w))); f.pc++; return; }
  BINOP(O_ADD, K_ADD, x + y) BINOP(O_SUB, K_SUB, x - y) BINOP(O_MUL, K_MUL, x * y)
  BINOP(O_AND, K_AND, x & y) BINOP(O_OR, K_OR, x | y) BINOP(O_XOR, K_XOR, x ^ y)
  BINOP(O_SHL, K_SHL, y >= I.w ? 0 : x << y) BINOP(O_LSHR, K_LSHR, y >= I.w ? 0 : x >> y) BINOP(O_ASHR, K_ASHR, (u64)(sextw(x, I.w) >> (y >= I.w ? I.w - 1 : y)))
  case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: {
    Val a = rd(f, I.a), b = rd(f, I.b); Kind k = I.op == O_UDIV ? K_UDIV : I.op == O_SDIV ? K_SDIV : I.op == O_UREM ? K_UREM : K_SREM;
    if (!b.e) { if (!b.v) fail(s, "arith", "integer division by zero"); }
    else if (!(b.e->lo > 0)) require(s, P.bnot(P.eq(b.e, P.cst(0, I.w))), "arith", "integer division by zero");
    if (!a.e && !b.e) f.regs[I.dst] = VC(evalOp(k, I.w, 0, a.v, b.v, 0, I.w, I.w)); else f.regs[I.dst] = V(P.bin(k, E(a, I.w), E(b, I.w)));
    f.pc++; return; }
  case O_ICMP: {
    Val a = rd(f, I.a), b = rd(f, I.b); using namespace llvm; int w = I.w;
    if (!a.e && !b.e) { u64 x = a.v & maskw(w), y = b.v & maskw(w); i64 p = sextw(x, w), q = sextw(y, w); bool r;
      switch (I.pred) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = p > q; break; case CmpInst::ICMP_SGE: r = p >= q; break; case CmpInst::ICMP_SLT: r = p < q; break; default: r = p <= q; }
      f.regs[I.dst] = VC(r); f.pc++; return; }
    Expr *x = E(a, w), *y = E(b, w), *r;
    switch (I.pred) { case CmpInst::ICMP_EQ: r = P.eq(x, y); break; case CmpInst::ICMP_NE: r = P.bnot(P.eq(x, y)); break; case CmpInst::ICMP_UGT: r = P.ult(y, x); break; case CmpInst::ICMP_UGE: r = P.ule(y, x); break; case CmpInst::ICMP_ULT: r = P.ult(x, y); break; case CmpInst::ICMP_ULE: r = P.ule(x, y); break; case CmpInst::ICMP_SGT: r = P.slt(y, x); break; case CmpInst::ICMP_SGE: r = P.sle(y, x); break; case CmpInst::ICMP_SLT: r = P.slt(x, y); break; default: r = P.sle(x, y); }
    f.regs[I.dst] = V(r); f.pc++; return; }
  case O_SELECT: { Val c = rd(f, I.c), a = rd(f, I.a), b = rd(f, I.b); if (!c.e) f.regs[I.dst] = (c.v & 1) ? a : b; else f.regs[I.dst] = V(P.ite(c.e, E(a, I.w), E(b, I.w))); f.pc++; return; }
  case O_ITRUNC: { Val a = rd(f, I.a); f.regs[I.dst] = a.e ? V(P.extract(a.e, 0, I.w)) : VC(a.v & maskw(I.w)); f.pc++; return; }
  case O_ZEXT: { Val a = rd(f, I.a); f.regs[I.dst] = a.e ? V(P.zext(a.e, I.w)) : VC(a.v & maskw(I.w2)); f.pc++; return; }
  case O_SEXT: { Val a = rd(f, I.a); f.regs[I.dst] = a.e ? V(P.sext(a.e, I.w)) : VC((u64)sextw(a.v, I.w2) & maskw(I.w)); f.pc++; return; }
  case O_MOV: f.regs[I.dst] = rd(f, I.a); f.pc++; return;
  case O_GEP: {
    Val b = rd(f, I.a); u64 off = (u64)I.imm; Expr *so = nullptr;
    if (I.x >= 0) for (auto &t : f.f->geps[I.x]) { Val v = rd(f, t.opnd); if (!v.e) off += (u64)(sextw(v.v, t.w) * t.scale); else { Expr *q = P.mul(P.sext(v.e, 64), P.cst((u64)t.scale, 64)); so = so ? P.add(so, q) : q; } }
    if (!b.e && !so) { f.regs[I.dst] = VC(b.v + off); f.pc++; return; }
    Expr *r = so ? so : P.cst(0, 64); if (b.e) { // distribute over pointer selects only when cheap
      r = P.add(P.add(b.e, r), P.cst(off, 64)); } else r = P.add(r, P.cst(b.v + off, 64));
    f.regs[I.dst] = V(r); f.pc++; return; }
  case O_LOAD: { Val p = rd(f, I.a); if (I.imm) p = p.e ? V(P.add(p.e, P.cst((u64)I.imm, 64))) : VC(p.v + I.imm); Val v = load(s, p, (u32)I.x, I.w, I.pred); Frame &g = s.frames.back(); g.regs[I.dst] = v; g.pc++; return; }
  case O_STORE: { Val p = rd(f, I.a); if (I.imm) p = p.e ? V(P.add(p.e, P.cst((u64)I.imm, 64))) : VC(p.v + I.imm); store(s, p, (u32)I.x, I.w, rd(f, I.b), I.pred); s.frames.back().pc++; return; }
  case O_ALLOCA: { u64 n = concretize(s, rd(f, I.a)); u64 id = s.mem.alloc((u64)I.imm * n, 1, 0, false); if (!s.omp.empty()) s.mem.get(id)->thr = s.omp.back().cur; f.allocas.push_back(id); f.regs[I.dst] = VC(objAddr(id)); f.pc++; return; }
  case O_BR: takeEdge(f, I.x); return;
  case O_CONDBR: { Val c = rd(f, I.a); bool t = c.e ? decide(s, c.e) : (c.v & 1); takeEdge(f, t ? I.x : I.b); return; }
  case O_SWITCH: { Val c = rd(f, I.a); if (!c.e) { i32 e = I.b; for (auto &p : f.f->switches[I.x]) if (p.first == (c.v & maskw(I.w))) { e = p.second; break; } takeEdge(f, e); return; }
    for (auto &p : f.f->switches[I.x]) if (decide(s, P.eq(c.e, P.cst(p.first, I.w)))) { takeEdge(f, p.second); return; }
    takeEdge(f, I.b); return; }
  case O_RET: {
    const CallInfo &c = f.f->calls[I.x]; Val r[8]; size_t n = std::min<size_t>(c.args.size(), 8); for (size_t i = 0; i < n; i++) r[i] = rd(f, c.args[i]);
    popFrame(s); if (s.frames.empty()) throw PathEnd{0};
    if (!s.omp.empty() && s.frames.size() == s.omp.back().base) { OmpRegion &q = s.omp.back(); q.th[q.cur].done = true; ompNext(s); return; }
    finishCall(s, r, n); return; }
  case O_UNREACHABLE: fail(s, "abort", "unreachable code reached"); return;
  case O_CALL: {
    const CallInfo &c = f.f->calls[I.x]; std::vector<Val> a(c.args.size()); for (size_t i = 0; i < a.size(); i++) a[i] = rd(f, c.args[i]);
    int fn = c.fn; 
    if (fn < 0 && c.ext < 0) { u64 p = concretize(s, rd(f, c.callee)); if ((p >> REG_SHIFT) != m.funcObjId) fail(s, "memory", "call through an invalid function pointer"); fn = (int)((p - objAddr(m.funcObjId)) / 16); if (fn < 0 || fn >= (int)m.funcs.size()) fail(s, "memory", "call through an invalid function pointer");
      if (!m.funcs[fn]->defined) { CallInfo &cc = const_cast<CallInfo&>(c); cc.ext = m.extId(m.funcs[fn]->name); Val ret = VC(0); try { callExt(s, cc, a, ret); } catch (...) { cc.ext = -1; throw; } cc.ext = -1; finishCall(s, &ret, 1); return; } }
    if (fn >= 0) {
      for (size_t i = 0; i < a.size(); i++) if (c.byval[i]) { u64 id = s.mem.alloc(c.byval[i], 1, 0, false); copyMem(s, VC(objAddr(id)), a[i], c.byval[i]); a[i] = VC(objAddr(id)); }
      enter(s, fn, a); return; }
    const std::string &nm = m.extNames[c.ext];
    if (nm == "__kmpc_fork_call") { ompFork_(s, c, a); return; }
    if (nm == "__kmpc_barrier") { Val z = VC(0); finishCall(s, &z, 0); ompBarrier(s); return; }
    if (nm == "__kmpc_end_reduce") { if (!s.omp.empty()) s.omp.back().th[s.omp.back().cur].lock = 0; Val z = VC(0); finishCall(s, &z, 0); ompBarrier(s); return; }
    if (nm.compare(0, 5, "llvm.") == 0 && nm.find(".with.overflow") != std::string::npos) {
      int w = c.argW[0]; char k = nm[5], o = nm[6]; Expr *x = E(a[0], w), *y = E(a[1], w); Expr *r = o == 'a' ? P.add(x, y) : o == 's' ? P.sub(x, y) : P.mul(x, y); Expr *ov;
      if (x->k == K_CONST && y->k == K_CONST) { bool b; if (k == 'u') { u64 t; if (w == 64) b = o == 'a' ? __builtin_add_overflow(x->c, y->c, &t) : o == 's' ? __builtin_sub_overflow(x->c, y->c, &t) : __builtin_mul_overflow(x->c, y->c, &t); else { unsigned __int128 z = o == 'a' ? (unsigned __int128)x->c + y->c : o == 's' ? (unsigned __int128)x->c - y->c : (unsigned __int128)x->c * y->c; b = (z >> w) != 0; } } else { __int128 p = sextw(x->c, w), q = sextw(y->c, w), z = o == 'a' ? p + q : o == 's' ? p - q : p * q; b = z < (__int128)minw(w) || z > (__int128)maxw(w); } ov = P.cst(b, 1); }
      else if (k == 'u' && o == 'a') ov = P.ult(r, x); else if (k == 'u' && o == 's') ov = P.ult(x, y);
      else if (k == 'u') { // mul: overflow iff x != 0 && (x*y)/x != y
        if (x->lo >= 0 && y->lo >= 0 && w < 64 && r->lo >= 0 && r->hi <= maxw(w) && !(r->lo == minw(w))) ov = P.cst(0, 1);
        else ov = P.band(P.bnot(P.eq(x, P.cst(0, w))), P.bnot(P.eq(P.bin(K_UDIV, r, x), y))); }
      else if (o == 'a') ov = P.bnot(P.eq(P.slt(y, P.cst(0, w)), P.slt(r, x))); else if (o == 's') ov = P.bnot(P.eq(P.slt(P.cst(0, w), y), P.slt(r, x)));
      else { u64 cx = concretize(s, a[0]), cy = concretize(s, a[1]); __int128 z = (__int128)sextw(cx, w) * sextw(cy, w); ov = P.cst(z < (__int128)minw(w) || z > (__int128)maxw(w), 1); r = P.cst((u64)z, w); }
      Val rr[2] = {V(r), V(ov)}; finishCall(s, rr, 2); return; }
    Val ret = VC(0); callExt(s, c, a, ret);
    if (I.w && !ret.e) ret.v &= maskw(I.w);
    finishCall(s, &ret, 1); return; }
  case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: { Val r = fbin(s, I.op, I.w, rd(f, I.a), rd(f, I.b)); f.regs[I.dst] = r; f.pc++; return; }
  case O_FNEG: { Val a = rd(f, I.a); Val r; if (!a.e) r = I.w == 32 ? VC(asUF(-asF(a.v))) : VC(asU(-asD(a.v))); else if (isReal(a.e)) r = V(P.fuf(UF_NEG, a.e, 0)); else if (a.e->k == K_FINT && (a.e->a[0]->lo > 0 || a.e->a[0]->hi < 0)) r = V(P.fint(P.sub(P.cst(0, 64), a.e->a[0]))); else r = VC(asU(-asD(concF(s, a)))); f.regs[I.dst] = r; f.pc++; return; }
  case O_FCMP: { Expr *r = fcmp(s, I.pred, I.w, rd(f, I.a), rd(f, I.b)); f.regs[I.dst] = V(r); f.pc++; return; }
  case O_SITOFP: case O_UITOFP: { Val a = rd(f, I.a); if (!a.e) { double d = I.op == O_SITOFP ? (double)sextw(a.v, I.w2) : (double)(a.v & maskw(I.w2)); f.regs[I.dst] = VC(I.w == 32 ? asUF((float)d) : asU(d)); }
    else { Expr *x = I.op == O_SITOFP ? P.sext(a.e, 64) : P.zext(a.e, 64); if (I.w == 64 && small(x) && (I.op == O_SITOFP || x->lo >= 0)) f.regs[I.dst] = V(P.fint(x)); else { u64 c = concretize(s, a); double d = I.op == O_SITOFP ? (double)sextw(c, I.w2) : (double)(c & maskw(I.w2)); f.regs[I.dst] = VC(I.w == 32 ? asUF((float)d) : asU(d)); } }
    f.pc++; return; }
  case O_FPTOSI: case O_FPTOUI: { Val a = rd(f, I.a); 
    if (a.e && a.e->k == K_FINT && (I.op == O_FPTOSI || a.e->a[0]->lo >= 0) && a.e->a[0]->lo >= minw(I.w) && a.e->a[0]->hi <= maxw(I.w)) f.regs[I.dst] = V(P.extract(a.e->a[0], 0, I.w));
    else { u64 c = I.w2 == 32 && !a.e ? asU((double)asF(a.v)) : concF(s, a); double d = asD(c); u64 r; if (std::isnan(d) || std::fabs(d) > 9.2e18) { r = 1ull << 63; if (I.w == 32) r = 0x80000000u; } else { r = (u64)(i64)d; if (I.w < 64 && (d >= std::ldexp(1.0, I.w) || d <= -std::ldexp(1.0, I.w - 1) - 1)) r = 1ull << (I.w - 1); } f.regs[I.dst] = VC(r & maskw(I.w)); }
    f.pc++; return; }
  case O_FPEXT: { Val a = rd(f, I.a); if (I.w2 == 32 && I.w == 64) { if (a.e) { u64 c = concretize(s, a); a = VC(c); } f.regs[I.dst] = VC(asU((double)asF(a.v))); } else f.regs[I.dst] = a; f.pc++; return; }
  case O_FPTRUNC: { Val a = rd(f, I.a); if (I.w == 32) { f.regs[I.dst] = VC(asUF((float)asD(concF(s, a)))); } else f.regs[I.dst] = a; f.pc++; return; }
  case O_ATOMICRMW: { Val p = rd(f, I.a), v = rd(f, I.b); Val o = load(s, p, (u32)I.x, I.w, true); Expr *x = E(o, I.w), *y = E(v, I.w), *r; using namespace llvm;
    switch (I.pred) { case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::Add: r = P.add(x, y); break; case AtomicRMWInst::Sub: r = P.sub(x, y); break; case AtomicRMWInst::And: r = P.band(x, y); break; case AtomicRMWInst::Or: r = P.bor(x, y); break; case AtomicRMWInst::Max: r = P.ite(P.slt(x, y), y, x); break; case AtomicRMWInst::Min: r = P.ite(P.slt(x, y), x, y); break;
      case AtomicRMWInst::FAdd: r = E(fbin(s, O_FADD, I.w, o, v), I.w); break; case AtomicRMWInst::FSub: r = E(fbin(s, O_FSUB, I.w, o, v), I.w); break; default: st.notes["atomicrmw op"]++; throw PathEnd{3}; }
    store(s, p, (u32)I.x, I.w, V(r), true); if (I.dst >= 0) s.frames.back().regs[I.dst] = o; s.frames.back().pc++; return; }
  case O_CMPXCHG: { Val p = rd(f, I.a), cv = rd(f, I.b), nv = rd(f, I.c); Val o = load(s, p, (u32)I.x, I.w, true); Expr *eqv = P.eq(E(o, I.w), E(cv, I.w)); Expr *n = P.ite(eqv, E(nv, I.w), E(o, I.w)); store(s, p, (u32)I.x, I.w, V(n), true); Frame &g = s.frames.back(); g.regs[I.dst] = o; g.regs[I.dst + 1] = V(eqv); g.pc++; return; }
  default: f.pc++; return;
  }
}

// before a thread touches a declared shared object any other runnable thread may take over (up to ilv preemptions)
void Exec::schedule(State &s) {
  OmpRegion &r = s.omp.back(); if ((int)s.preempts >= ilv) return;
  Frame &f = s.frames.back(); const Inst &I = f.f->code[f.pc]; if (I.op != O_LOAD && I.op != O_STORE && I.op != O_CMPXCHG && I.op != O_ATOMICRMW) return;
  Val p = rd(f, I.a); if (p.e) return; if (I.imm && (I.op == O_LOAD || I.op == O_STORE)) p = VC(p.v + I.imm);
  Expr *off; i64 co; u64 id = resolve(s, p, off, co); if (std::find(s.shared.begin(), s.shared.end(), id) == s.shared.end()) return;
  std::vector<int> ch; ch.push_back(r.cur); for (int i = 0; i < r.T; i++) if (i != r.cur && !r.th[i].done && !r.th[i].barrier) ch.push_back(i);
  if (ch.size() < 2) return;
  u64 k = 0;
  if (!s.schedVar) { std::string n = uniqName(s, "sched"); i64 hi = (i64)ch.size() - 1;
    if (replay) { auto it = replayVals.find(n); k = it == replayVals.end() ? 0 : it->second.first.v & 0xffffffffu; s.log.push_back({n, VC(k), 0}); }
    else { std::string key = n + ":32:0:" + std::to_string(hi); Expr *&e = varByName[key]; if (!e) e = P.var(n, 32, 0, hi, false, false); Expr *c = P.bnot(P.intern(K_SLT, 1, 0, P.cst((u64)hi, 32), e, 0)); s.pc.push_back(c); Expr *c2 = P.bnot(P.intern(K_SLT, 1, 0, e, P.cst(0, 32), 0)); s.pc.push_back(c2); s.log.push_back({n, Val{0, e}, 0}); s.schedVar = e; } }
  if (s.schedVar) k = concretize(s, Val{0, s.schedVar}); s.schedVar = nullptr;
  if (k && k < ch.size()) { s.preempts++; ompSwitch(s, ch[k]); }
}

void Exec::run(State *sp) {
  State &s = *sp; cur = sp; int why = 0; u64 n0 = s.steps; int ltick = 0;
  try {
    for (;;) {
      if (ilv >= 0 && !s.omp.empty() && s.omp.back().T > 1) schedule(s);
      step(s); s.steps++;
      if (++ltick >= 65536) { ltick = 0; limit(); if (stop) throw PathEnd{3}; if (s.steps > maxSteps) { ModelP md = anyModel(s); report(s, "nontermination", "no termination within the step bound", md); throw PathEnd{1}; } }
      if (stop) throw PathEnd{3};
    }
  } catch (PathEnd &e) { why = e.why; }
  st.instrs += s.steps - n0; if (s.steps > st.maxSteps) st.maxSteps = s.steps;
  if (why == 0) sample(s);
  if (why == 0) { st.paths++; for (auto &c : s.covered) st.cover[c]++; }
  else if (why == 1) st.killed++; else if (why == 2) st.assumeKilled++; else if (why == 3) st.incomplete++; else { st.paths++; st.notes["paths ended by an expected exception"]++; for (auto &c : s.covered) st.cover[c]++; }
  delete sp;
}

static std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((u8)c < 32) r += ' '; else r += c; } return r; }
// keep a few complete paths (a solver model of the path and what the code computed) for the native comparison
void Exec::sample(State &s) {
  samplePaths++; if ((samplePaths & (samplePaths - 1)) || (int)samples.size() >= 24 || !nSamples) return;
  ModelP md = anyModel(s); if (!md) return; std::string r = "{\"inputs\":[";
  for (size_t i = 0; i < s.log.size(); i++) r += (i ? ",[\"" : "[\"") + jesc(s.log[i].name) + "\",\"" + fmtVal(s.log[i], md.get()) + "\"]";
  r += "],\"outs\":[";
  for (size_t i = 0; i < s.outs.size(); i++) r += (i ? "," : "") + std::to_string((i64)(s.outs[i].e ? S.eval(s.outs[i].e, *md) : s.outs[i].v));
  r += "],\"cover\":["; bool f = true; for (auto &c : s.covered) { r += (f ? "\"" : ",\"") + jesc(c) + "\""; f = false; } r += "]}";
  samples.push_back(r); if ((int)samples.size() > nSamples) samples.erase(samples.begin() + 1);
}
void Exec::initState(State &s) {
  s.mem.next = m.nextObj;
  s.mem.place(m.funcObjId, 16 * m.funcs.size() + 16, 0, 0, true); s.mem.get(m.funcObjId)->ro = true;
  for (auto *G : m.globals) {
    u64 id = m.gid[G]; u64 sz = G->getValueType()->isSized() ? (u64)m.DL->getTypeAllocSize(G->getValueType()) : 1024; if (G->isDeclaration() && sz < 1024) sz = 1024;
    s.mem.place(id, sz, 0, 0, true);
    if (G->hasInitializer()) {
      std::function<void(const llvm::Constant*, u64)> put = [&](const llvm::Constant *C, u64 off) {
        auto *T = C->getType(); if (llvm::isa<llvm::ConstantAggregateZero>(C) || llvm::isa<llvm::UndefValue>(C)) return;
        if (auto *CD = llvm::dyn_cast<llvm::ConstantDataSequential>(C)) { auto r = CD->getRawDataValues(); memcpy(s.mem.wr(id)->data + off, r.data(), r.size()); return; }
        if (auto *ST = llvm::dyn_cast<llvm::StructType>(T)) { auto *L = m.DL->getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); i++) put(C->getAggregateElement(i), off + L->getElementOffset(i)); return; }
        if (auto *AT = llvm::dyn_cast<llvm::ArrayType>(T)) { u64 es = m.DL->getTypeAllocSize(AT->getElementType()); for (u64 i = 0; i < AT->getNumElements(); i++) put(C->getAggregateElement((unsigned)i), off + i * es); return; }
        u64 v = m.constScalar(C); memcpy(s.mem.wr(id)->data + off, &v, m.DL->getTypeStoreSize(T));
      };
      put(G->getInitializer(), 0);
    }
    s.mem.get(id)->ro = G->isConstant() && G->hasInitializer();
  }
}

// ------------------------------------------------------------------ driver

static void dumpResult(Exec &x, FILE *o, bool child) {
  (void)child;
  fprintf(o, "STAT %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %.6f %.6f\n", (unsigned long long)x.st.paths, (unsigned long long)x.st.forks, (unsigned long long)x.st.instrs, (unsigned long long)x.st.asserts, (unsigned long long)x.st.assertsSym, (unsigned long long)x.st.checks, (unsigned long long)x.st.killed, (unsigned long long)x.st.incomplete, (unsigned long long)x.st.assumeKilled,
    (unsigned long long)x.S.st.queries, (unsigned long long)x.S.st.sat, (unsigned long long)x.S.st.unsat, (unsigned long long)x.S.st.unknown, (unsigned long long)x.st.raceChecks, (unsigned long long)x.st.raceQueries, (unsigned long long)x.st.maxSteps, x.S.st.secs, x.S.st.maxq);
  for (auto &c : x.st.cover) fprintf(o, "COVER %llu %s\n", (unsigned long long)c.second, c.first.c_str());
  for (auto &c : x.st.notes) fprintf(o, "NOTE %llu %s\n", (unsigned long long)c.second, c.first.c_str());
  for (auto *f : x.m.funcs) if (f->executed) fprintf(o, "FUNC %llu %s\n", (unsigned long long)f->executed, f->pretty.c_str());
  for (auto &v : x.samples) fprintf(o, "SAMPLE %s\n", v.c_str());
  for (auto &v : x.viols) {
    fprintf(o, "VIOL {\"kind\":\"%s\",\"msg\":\"%s\",\"func\":\"%s\",\"loc\":\"%s\",\"stack\":[", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.func).c_str(), jesc(v.loc).c_str());
    for (size_t i = 0; i < v.stack.size(); i++) fprintf(o, "%s\"%s\"", i ? "," : "", jesc(v.stack[i]).c_str());
    fprintf(o, "],\"inputs\":["); for (size_t i = 0; i < v.inputs.size(); i++) fprintf(o, "%s[\"%s\",\"%s\"]", i ? "," : "", jesc(v.inputs[i].first).c_str(), jesc(v.inputs[i].second).c_str());
    fprintf(o, "]}\n");
  }
  fflush(o);
}

int main(int argc, char **argv) {
  // deep recursion over expression DAGs: make sure the stack is large
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30) && !getenv("SYMEX_STACK")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ull << 30) : std::min<rlim_t>(rl.rlim_max, 1ull << 30); if (setrlimit(RLIMIT_STACK, &rl) == 0) { setenv("SYMEX_STACK", "1", 1); execv("/proc/self/exe", argv); } }
  Exec x; std::string bc, entry, out = "/dev/stdout"; int workers = 1, chunks = 64; double timeout = 600; bool uf = false; u64 memMB = 3000; std::string dumpFile;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--param") { std::string p = nx(); size_t e = p.find('='); x.params[p.substr(0, e)] = p.substr(e + 1); }
    else if (a == "--workers") workers = atoi(nx().c_str()); else if (a == "--chunks") chunks = atoi(nx().c_str()); else if (a == "--timeout") timeout = atof(nx().c_str()); else if (a == "--out") out = nx(); else if (a == "--uf") uf = true;
    else if (a == "--steps") x.maxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--omp") x.ompT = atoi(nx().c_str()); else if (a == "--omp-iter") x.ompIter = true; else if (a == "--interleave") x.ilv = atoi(nx().c_str()); else if (a == "--omp-fork") x.ompFork = true; else if (a == "--no-race") x.noRace = true; else if (a == "--conc-index") x.concIdx = true; else if (a == "--no-uninit") x.uninitCheck = false;
    else if (a == "--max-viol") x.maxViols = atoi(nx().c_str()); else if (a == "--samples") x.nSamples = atoi(nx().c_str()); else if (a == "--trace") x.trace = true; else if (a == "--mem") memMB = strtoull(nx().c_str(), 0, 10); else if (a == "--items") x.itemLimit = atoi(nx().c_str());
    else if (a == "--dump") { dumpFile = nx(); x.S.dumpEvery = atoi(nx().c_str()); }
    else if (a == "--replay") { x.replay = true; std::ifstream f(nx()); std::string l; while (std::getline(f, l)) { std::istringstream is(l); std::string k, v; is >> k >> v; if (v == "real") continue; if (k.compare(0, 6, "param:") == 0) x.params[k.substr(6)] = v; else x.replayVals[k] = {VC((u64)strtoll(v.c_str(), 0, 10)), 0}; } }
    else bc = a; }
  double t0 = nowS(); x.deadline = t0 + timeout;
  x.m.load(bc.c_str()); x.S.init(uf); if (getenv("NOQUICK")) x.useUFQ = true; x.ext.assign(4096, nullptr);
  if (!dumpFile.empty()) { x.S.dump = fopen(dumpFile.c_str(), "w"); if (x.S.dump) setvbuf(x.S.dump, 0, _IOLBF, 0); }
  auto it = x.m.fbyname.find(entry); if (it == x.m.fbyname.end() || !x.m.funcs[it->second]->defined) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  State *s = new State(); x.initState(*s);
  // static constructors of the code under test
  std::vector<int> ctors; if (auto *G = x.m.M->getGlobalVariable("llvm.global_ctors")) if (G->hasInitializer()) if (auto *A = llvm::dyn_cast<llvm::ConstantArray>(G->getInitializer())) for (auto &o : A->operands()) { auto *cs = llvm::cast<llvm::ConstantStruct>(o); if (auto *F = llvm::dyn_cast<llvm::Function>(cs->getOperand(1))) if (!F->isDeclaration()) ctors.push_back(x.m.funcIndex(F)); }
  for (int c : ctors) { x.enter(*s, c, {}); try { for (;;) x.step(*s); } catch (PathEnd &e) { if (e.why) { fprintf(stderr, "static constructor failed\n"); return 2; } } s->frames.clear(); }
  x.enter(*s, it->second, {});
  x.work.push_back(s);
  // phase 1: breadth first until enough independent subtrees exist
  size_t head = 0; int want = workers > 1 ? workers * chunks : 0; double bfsStart = nowS();
  if (workers > 1) {
    while (head < x.work.size() && (int)(x.work.size() - head) < want && !x.stop && nowS() - bfsStart < 20) {
      // run one state until it forks or ends: run() explores one whole path, pushing siblings
      State *q = x.work[head++]; x.run(q);
      if (head > 4096) { x.work.erase(x.work.begin(), x.work.begin() + head); head = 0; }
    }
    x.work.erase(x.work.begin(), x.work.begin() + head);
  }
  FILE *o = fopen(out.c_str(), "w");
  if (workers <= 1 || x.work.empty() || x.stop) {
    while (!x.work.empty() && !x.stop) { State *q = x.work.back(); x.work.pop_back(); x.run(q); }
    if (!x.work.empty()) { x.st.incomplete += x.work.size(); x.st.notes["subtrees not explored"] += x.work.size(); }
    dumpResult(x, o, false); fprintf(o, "DONE %.3f\n", nowS() - t0); fclose(o);
    return 0;
  }
  // phase 2: each pending state is a chunk handled by a forked child, dynamically assigned
  std::vector<State*> pend = x.work; x.work.clear();
  dumpResult(x, o, false);
  // children inherit but must not repeat the counters
  struct Shared { volatile int next; volatile int stop; }; Shared *sh = (Shared*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sh->next = 0; sh->stop = 0;
  x.st = Stats(); x.S.st = SolverStats(); x.viols.clear(); x.samples.clear(); for (auto *f : x.m.funcs) f->executed = 0;
  std::vector<std::string> tmp; std::vector<pid_t> pids; int active = 0; int fileNo = 0; u64 lost = 0; std::map<pid_t, std::string> fileOf;
  auto spawn = [&] {
    std::string fn = out == "/dev/stdout" ? "/tmp/symex." + std::to_string(getpid()) + "." + std::to_string(fileNo) : out + "." + std::to_string(fileNo); fileNo++;
    fflush(o);
    pid_t p = fork();
    if (p == 0) {
      for (;;) {
        int k = __sync_fetch_and_add(&sh->next, 1); if (k >= (int)pend.size()) break;
        if (sh->stop) { x.st.incomplete++; x.st.notes["subtrees not explored"]++; continue; }
        x.work.push_back(pend[k]);
        while (!x.work.empty() && !x.stop && !sh->stop) { State *q = x.work.back(); x.work.pop_back(); x.run(q); }
        if (!x.work.empty()) { x.st.incomplete += x.work.size(); x.st.notes["subtrees not explored"] += x.work.size(); for (auto *q : x.work) delete q; x.work.clear(); }
        if (x.stop && (int)x.viols.size() >= x.maxViols) sh->stop = 1;
        struct rusage ru; getrusage(RUSAGE_SELF, &ru);
        if ((u64)ru.ru_maxrss / 1024 > memMB / 2) break;   // let a fresh child continue
      }
      FILE *c = fopen(fn.c_str(), "w"); dumpResult(x, c, true); fprintf(c, "CHILDDONE\n"); fclose(c); _exit(0);
    }
    fileOf[p] = fn; active++;
  };
  for (int i = 0; i < workers; i++) spawn();
  while (active > 0) {
    int stt; pid_t p = wait(&stt); if (p <= 0) break; active--; std::string fn = fileOf[p];
    std::ifstream f(fn); std::string l; bool ok = false; while (std::getline(f, l)) { if (l == "CHILDDONE") ok = true; else fprintf(o, "%s\n", l.c_str()); }
    if (!ok) { lost++; fprintf(o, "LOST %d\n", stt); }
    unlink(fn.c_str());
    if (sh->next < (int)pend.size() && !(sh->stop)) spawn();
  }
  fprintf(o, "DONE %.3f\n", nowS() - t0); fclose(o); return 0;
}
