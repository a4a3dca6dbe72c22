// LLVM IR -> compact internal code.
#pragma once
#include "expr.hpp"
#include <map>
#include <set>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>

struct Val { u64 v; Expr *e; };
static inline Val VC(u64 v) { return Val{v, nullptr}; }

enum Op : u8 {
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_ICMP, O_SELECT, O_ITRUNC, O_ZEXT, O_SEXT, O_MOV, O_GEP, O_LOAD, O_STORE, O_ALLOCA,
  O_BR, O_CONDBR, O_SWITCH, O_RET, O_CALL, O_UNREACHABLE,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG, O_FCMP, O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_FPEXT, O_FPTRUNC,
  O_ATOMICRMW, O_CMPXCHG, O_NOP
};

struct GepTerm { i32 opnd; i64 scale; int w; };
struct Edge { std::vector<std::pair<i32, i32>> copies; i32 target; };  // (src opnd, dst slot), pc
struct CallInfo { i32 callee; /* opnd if indirect */ int fn; /* func index or -1 */ int ext; /* external id or -1 */
  std::vector<i32> args; std::vector<int> argW; std::vector<u64> byval; std::vector<u8> argIsFP; int edge; bool retVoid; int retN; };
struct Inst { u8 op; u8 w; u8 w2; u8 pred; i32 dst; i32 a, b, c; i32 x; i64 imm; const llvm::Instruction *I; };

struct Func {
  llvm::Function *F; std::string name, pretty; bool translated = false; bool defined = false;
  std::vector<Inst> code; std::vector<Val> consts; std::vector<Edge> edges; std::vector<CallInfo> calls;
  std::vector<std::vector<GepTerm>> geps; std::vector<std::vector<std::pair<u64, i32>>> switches;
  int nslots = 0; int nargsSlots = 0; u64 executed = 0;
  std::vector<int> retW;
};

static const int REG_SHIFT = 36;
static const u64 HALF = 1ull << 35;
static inline u64 objAddr(u64 id) { return (id << REG_SHIFT) + HALF; }

struct Mod {
  llvm::LLVMContext ctx; std::unique_ptr<llvm::Module> M; const llvm::DataLayout *DL;
  std::vector<Func*> funcs; std::unordered_map<const llvm::Function*, int> fidx; std::unordered_map<std::string, int> fbyname;
  std::unordered_map<const llvm::GlobalVariable*, u64> gid; std::vector<const llvm::GlobalVariable*> globals;
  std::vector<std::string> extNames; std::unordered_map<std::string, int> extIdx;
  u64 funcObjId = 1, firstGlobal = 2, nextObj;

  void load(const char *path);
  int funcIndex(llvm::Function *F);
  void translate(int fi);
  void flatten(llvm::Type *T, std::vector<llvm::Type*> &out);
  int nscal(llvm::Type *T) { std::vector<llvm::Type*> v; flatten(T, v); return (int)v.size(); }
  int widthOf(llvm::Type *T) {
    if (T->isIntegerTy()) return (int)T->getIntegerBitWidth();
    if (T->isPointerTy()) return 64; if (T->isDoubleTy()) return 64; if (T->isFloatTy()) return 32;
    if (T->isX86_FP80Ty()) return 64; // treated as double, flagged when executed
    if (T->isVoidTy()) return 0;
    std::string s; llvm::raw_string_ostream os(s); T->print(os);
    fprintf(stderr, "unsupported type %s\n", os.str().c_str()); return 64;
  }
  u64 constScalar(const llvm::Constant *C);
  void constFlat(const llvm::Constant *C, std::vector<Val> &out);
  int extId(const std::string &n) { auto it = extIdx.find(n); if (it != extIdx.end()) return it->second; int id = (int)extNames.size(); extNames.push_back(n); extIdx[n] = id; return id; }
};
