#pragma once
#include "module.hpp"
#include "solver.hpp"
#include <set>
#include <map>
#include <string>
#include <algorithm>

struct Obj {
  int rc = 1; u32 size; u8 kind; /*0 global 1 stack 2 heap*/ u8 how; /*0 malloc 1 new 2 new[]*/ bool ro = false; i32 thr = -1;
  u8 *data; u8 *sh; Expr **cells;
  std::string site;
};
static const u32 CH = 64;
struct Chunk { int rc = 1; Obj *o[CH]; u8 st[CH]; /*0 none 1 live 2 freed 3 dead stack*/ Chunk() { memset(o, 0, sizeof o); memset(st, 0, sizeof st); } };

struct Mem {
  std::vector<Chunk*> ch; u64 next = 0;
  Mem() {}
  Mem(const Mem &m) : ch(m.ch), next(m.next) { for (auto c : ch) if (c) c->rc++; }
  Mem &operator=(const Mem &) = delete;
  ~Mem() { for (auto c : ch) relC(c); }
  static void relO(Obj *o) { if (o && --o->rc == 0) { free(o->data); free(o->sh); free(o->cells); delete o; } }
  static void relC(Chunk *c) { if (c && --c->rc == 0) { for (auto o : c->o) relO(o); delete c; } }
  Chunk *wc(u64 id) {
    u64 k = id / CH; if (k >= ch.size()) ch.resize(k + 1, nullptr);
    if (!ch[k]) ch[k] = new Chunk();
    else if (ch[k]->rc > 1) { Chunk *n = new Chunk(); for (u32 i = 0; i < CH; i++) { n->o[i] = ch[k]->o[i]; n->st[i] = ch[k]->st[i]; if (n->o[i]) n->o[i]->rc++; } ch[k]->rc--; ch[k] = n; }
    return ch[k];
  }
  u8 status(u64 id) const { u64 k = id / CH; return k < ch.size() && ch[k] ? ch[k]->st[id % CH] : 0; }
  Obj *get(u64 id) const { u64 k = id / CH; return k < ch.size() && ch[k] ? ch[k]->o[id % CH] : nullptr; }
  Obj *wr(u64 id) {
    Chunk *c = wc(id); Obj *&o = c->o[id % CH];
    if (o->rc > 1) {
      Obj *n = new Obj(*o); n->rc = 1; u32 s = o->size ? o->size : 1;
      n->data = (u8*)malloc(s); memcpy(n->data, o->data, s); n->sh = (u8*)malloc(s); memcpy(n->sh, o->sh, s);
      if (o->cells) { n->cells = (Expr**)malloc(s * sizeof(Expr*)); memcpy(n->cells, o->cells, s * sizeof(Expr*)); }
      o->rc--; o = n;
    }
    return o;
  }
  u64 alloc(u64 size, u8 kind, u8 how, bool init) { u64 id = next++; place(id, size, kind, how, init); return id; }
  void place(u64 id, u64 size, u8 kind, u8 how, bool init) {
    Chunk *c = wc(id); Obj *o = new Obj(); o->size = (u32)size; o->kind = kind; o->how = how; u64 s = size ? size : 1;
    o->data = (u8*)calloc(s, 1); o->sh = (u8*)malloc(s); memset(o->sh, init ? 1 : 0, s); o->cells = nullptr; c->o[id % CH] = o; c->st[id % CH] = 1;
  }
  void release(u64 id, u8 st) { Chunk *c = wc(id); relO(c->o[id % CH]); c->o[id % CH] = nullptr; c->st[id % CH] = st; }
};

struct Frame { Func *f; int pc; std::vector<Val> regs; std::vector<u64> allocas; };
struct LogEnt { std::string name; Val v; u8 kind; };   // 0 int 1 num(double int) 2 real

struct Access { i32 thr; i32 loop; i64 iter; u64 obj; i64 lo, hi; Expr *off; u32 size; bool w, at; i32 lock; const llvm::Instruction *I;
  bool operator<(const Access &o) const { return std::tie(obj, lo, hi, off, thr, loop, iter, w, at, lock) < std::tie(o.obj, o.lo, o.hi, o.off, o.thr, o.loop, o.iter, o.w, o.at, o.lock); } };
struct OmpThread { std::vector<Frame> frames; bool done = false, barrier = false, started = false; i32 loop = -1; i64 iter = -1; i32 loopCount = 0, singleCount = 0; i64 dlo = 0, dhi = 0, dst = 1; bool dact = false; i32 lock = 0; };
struct OmpLoop { i64 next, hi, st; };
struct OmpRegion { int fn; std::vector<Val> args; int T = 1; int cur = 0; size_t base = 0; std::vector<OmpThread> th; u64 startObj = 0; std::set<Access> log; std::map<int, OmpLoop> loops; int singles = 0; std::vector<u64> gt; };

struct State {
  std::vector<Frame> frames; Mem mem; std::vector<Expr*> pc; std::vector<ModelP> models; std::vector<std::pair<Expr*, u64>> known;
  std::vector<LogEnt> log; std::vector<std::pair<std::string, int>> cnt; u64 steps = 0; u32 undefN = 0, freshN = 0; bool allowThrow = false; u64 clock = 0;
  std::vector<OmpRegion> omp; OmpLoop serLoop{0, -1, 1}; int nthreads = 0; i64 leakBase = -1; std::vector<u64> ignoredLeak; u32 depth = 0;
  std::set<std::string> covered; std::vector<Val> outs;
  std::vector<u64> shared; u32 preempts = 0; Expr *schedVar = nullptr;   // scheduling points (--interleave)
  std::vector<u64> dom;   // per variable: bitmask of values (offset from lo) not yet excluded on this path; 0 = untracked
};

struct Viol { std::string kind, msg, func, loc; std::vector<std::string> stack; std::vector<std::pair<std::string, std::string>> inputs; std::string sig() const { return kind + "|" + func + "|" + msg; } };

struct Stats { u64 paths = 0, forks = 0, instrs = 0, asserts = 0, assertsSym = 0, checks = 0, killed = 0, incomplete = 0, assumeKilled = 0, raceChecks = 0, raceQueries = 0, maxSteps = 0; std::map<std::string, u64> cover; std::map<std::string, u64> notes; };

struct PathEnd { int why; };
// why: 0 normal, 1 violation, 2 assume false, 3 limit/incomplete, 4 allowed throw
