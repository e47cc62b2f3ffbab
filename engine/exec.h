// symx: symbolic executor for LLVM IR
#pragma once
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <map>
#include <set>
#include <list>

struct Sh { uint8_t wt = 255, at = 255; uint32_t wc = 0, ac = 0; uint32_t rc[8] = {0}; };   // race shadow for one byte

enum Kind : uint8_t { K_GLOBAL, K_STACK, K_HEAP, K_FUNC };
struct Obj
{
  uint64_t base = 0, size = 0; Kind kind = K_GLOBAL; bool freed = false, ro = false;
  std::vector<uint8_t> b; std::vector<const Expr*> s; std::vector<Sh> sh;
  const llvm::Instruction * site = nullptr; const llvm::Instruction * fsite = nullptr;
};
typedef std::shared_ptr<Obj> ObjP;

struct KInst { llvm::Instruction * I; int dest; unsigned w; std::vector<int> ops; };
struct KFunc
{
  llvm::Function * F; unsigned nslots = 0; bool repo = false; uint64_t executed = 0;
  std::vector<std::vector<KInst>> blocks; llvm::DenseMap<llvm::BasicBlock*, unsigned> bidx;
  std::vector<unsigned> argslots; std::vector<llvm::BasicBlock*> bbs; std::string file; std::vector<uint8_t> hit;
};
struct Frame { KFunc * f; unsigned bb = 0, pc = 0, prev = 0; std::vector<Val> regs; std::vector<uint64_t> allocas; std::vector<std::pair<Val,unsigned>> va; const KInst * call = nullptr; };
struct Thread { std::vector<Frame> st; int status = 0; uint64_t wait = 0; bool timed = false; int timedreg = -1; std::map<const llvm::GlobalVariable*, uint64_t> tls; std::vector<uint32_t> vc; };
struct Input { std::string name; unsigned w; Val v; };

struct State
{
  uint64_t id = 0;
  std::vector<Thread> th; unsigned cur = 0;
  std::map<uint64_t, ObjP> mem;
  uint64_t next = 0x10000000ULL;
  std::vector<const Expr*> pc; ModelP model;
  std::vector<Input> inputs; std::vector<std::pair<Val,unsigned>> log;
  uint64_t steps = 0; int preempt = 0; unsigned forks = 0;
  std::map<uint64_t, std::vector<uint32_t>> relvc;   // release clocks by address
  std::map<uint64_t, unsigned> limits;
  bool atomic_mode = false;
};

struct PathEnd { };

struct Engine
{
  llvm::LLVMContext lc; std::unique_ptr<llvm::Module> M; const llvm::DataLayout * DL = nullptr;
  Solver S;
  std::map<uint64_t, ObjP> romem;       // constant globals, shared by every state
  llvm::DenseMap<const llvm::GlobalValue*, uint64_t> gaddr;
  std::unordered_map<uint64_t, llvm::Function*> faddr;
  std::unordered_map<const llvm::Function*, KFunc*> kf;
  std::vector<Val> consts; llvm::DenseMap<const llvm::Constant*, int> cidx;
  std::vector<State*> work;
  // options
  bool forksites = getenv ("SYMX_FORKS") != nullptr; std::map<std::string, uint64_t> forksite;
  double timeout = 600; uint64_t maxsteps = 4000000; unsigned maxerr = 3; unsigned nsamples = 6; std::string out; unsigned enumlimit = 1100;
  bool races = false; std::string repo = "/repo/"; uint64_t maxpaths = 0; bool deadlock_ok = false;
  // statistics
  uint64_t paths = 0, pruned = 0, states = 1, instrs = 0, forks = 0, errpaths = 0, asserts = 0, ids = 0, schedpts = 0, maxpc = 0;
  std::set<std::string> incomplete; std::map<std::string, uint64_t> covers;
  struct Err { std::string kind, msg, loc; std::vector<std::string> stack; std::vector<std::pair<std::string, uint64_t>> inputs; std::vector<std::string> lines; };
  std::vector<Err> errs; std::set<std::string> errkeys;
  struct Sample { std::vector<std::pair<std::string, uint64_t>> inputs; std::vector<uint64_t> log; };
  std::vector<Sample> samples; uint64_t samplectr = 0;

  bool load (const std::string & path);
  void run (const std::string & entry);
  void report (double wall);

  // helpers
  KFunc * prep (llvm::Function * F);
  Val constant (const llvm::Constant * C);
  void initConst (Obj & o, uint64_t off, const llvm::Constant * C);
  void runState (State & s);
  void step (State & s);
  State * clone (State & s);
  void addc (State & s, const Expr * c);
  bool mustdecide (State & s, const Expr * c, bool & val, bool fork);   // decide a branch, pushing the other side
  void assume (State & s, const Expr * c);
  uint64_t concretize (State & s, const Val & v, unsigned w, const char * why);
  [[noreturn]] void fail (State & s, const std::string & kind, const std::string & msg, const ModelP & m = nullptr);
  void record (State & s, const std::string & kind, const std::string & msg, const ModelP & m);
  void endPath (State & s, bool counted);
  ObjP find (State & s, uint64_t addr);
  Obj & wr (State & s, const ObjP & o);
  ObjP alloc (State & s, uint64_t size, Kind k, bool zero, uint64_t align = 16);
  void release (State & s, uint64_t addr, bool isrealloc = false);
  Val load (State & s, const Val & p, unsigned bytes, int atomic);
  void store (State & s, const Val & p, const Val & v, unsigned bytes, int atomic);
  ObjP resolve (State & s, const Val & p, uint64_t bytes, bool write, Val & off, const char * what);
  const Expr * byteAt (State & s, const ObjP & o, uint64_t i);
  void setByte (Obj & o, uint64_t i, const Expr * e);
  Val readAt (State & s, const ObjP & o, uint64_t off, unsigned bytes);
  void writeAt (State & s, Obj & o, uint64_t off, const Val & v, unsigned bytes);
  void access (State & s, const ObjP & o, uint64_t off, unsigned bytes, bool write, int atomic);
  void hbAcquire (State & s, uint64_t a); void hbRelease (State & s, uint64_t a);
  void memcopy (State & s, const Val & d, const Val & src, uint64_t n, const char * what);
  void call (State & s, const KInst & ki, llvm::Function * F, std::vector<Val> & args, std::vector<unsigned> & ws);
  bool intrinsic (State & s, const KInst & ki, llvm::Function * F, std::vector<Val> & args);
  bool builtin (State & s, const KInst & ki, llvm::Function * F, std::vector<Val> & args);
  void ret (State & s, const Val & v, bool has);
  void jump (State & s, unsigned target);
  void schedule (State & s, bool preemptible);
  std::string cstr (State & s, const Val & p);
  std::string where (const llvm::Instruction * I);
  void setreg (State & s, const KInst & ki, const Val & v) { if (ki.dest >= 0) s.th[s.cur].st.back ().regs[ki.dest] = v; }
  Val reg (State & s, const KInst & ki, unsigned i) { int o = ki.ops[i]; return o >= 0 ? s.th[s.cur].st.back ().regs[o] : consts[-o - 1]; }
  unsigned width (llvm::Type * t);
  Val input (State & s, const std::string & n, unsigned w);
};
