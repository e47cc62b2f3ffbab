// symx: SMT back end (Z3 C API), model evaluation, constraint slicing and query caching.
#pragma once
#include "expr.h"
#include <z3.h>
#include <memory>
#include <chrono>

struct Model { std::unordered_map<uint32_t, uint64_t> v; uint64_t get (uint32_t s) const { auto i = v.find (s); return i == v.end () ? 0 : i->second; } };
typedef std::shared_ptr<const Model> ModelP;

struct Evaluator
{
  const Model & m; std::unordered_map<const Expr*, uint64_t> memo;
  explicit Evaluator (const Model & mm) : m (mm) {}
  uint64_t eval (const Expr * e);
};

enum Res { R_SAT, R_UNSAT, R_UNKNOWN };

struct Solver
{
  Z3_context ctx; Z3_solver bv, fp;
  unsigned timeout_ms = 60000; bool psets = false; std::vector<const Expr*> stk;
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0, modelhits = 0, domain = 0; double secs = 0, maxsecs = 0;
  std::unordered_map<const Expr*, Z3_ast> memo;
  std::vector<Z3_ast> symast;
  struct VH { size_t operator() (const std::vector<uint32_t> &v) const { size_t h = 1469598103934665603ULL; for (uint32_t x : v) { h ^= x; h *= 1099511628211ULL; } return h; } };
  std::unordered_map<std::vector<uint32_t>, std::pair<Res, ModelP>, VH> cache;
  std::deque<ModelP> recent;
  std::unordered_map<const Expr*, std::vector<uint32_t>> symsets;
  struct Dom { uint64_t b[4]; };
  std::unordered_map<const Expr*, Dom> doms;   // values of the only symbol of an expression (at most 8 bits wide) that make it true
  const Dom & dom (const Expr * e, uint32_t sym, unsigned w);
  Solver ();
  Z3_ast tr (const Expr * e);
  const std::vector<uint32_t> & symset (const Expr * e);
  // Is (conjunction of relevant pc) && q satisfiable? On SAT gives a full model of pc && q, built on base (a model of pc)
  Res check (const std::vector<const Expr*> & pc, const Expr * q, const ModelP & base, ModelP & out, bool verdict = false);
};
