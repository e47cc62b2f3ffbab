#include "solver.h"
#include <cstdio>
#include <cstdlib>

uint64_t Evaluator::eval (const Expr * e)
{
  if (e->op == O_CONST) return e->c;
  if (e->op == O_SYM) return m.get ((uint32_t) e->c) & maskw (e->w);
  auto it = memo.find (e);
  if (it != memo.end ()) return it->second;
  uint64_t r;
  if (e->op == O_ITE) r = eval (e->a) ? eval (e->b) : eval (e->d);
  else if (e->op == O_CONCAT) r = (eval (e->a) << e->b->w) | eval (e->b);
  else
  {
    uint64_t x = eval (e->a), y = e->b ? eval (e->b) : 0;
    r = fold (e->op, e->w, e->a->w, e->c, x, y, 0);
  }
  r &= maskw (e->w);
  memo[e] = r;
  return r;
}

static void onerr (Z3_context c, Z3_error_code e) { fprintf (stderr, "z3 error: %s\n", Z3_get_error_msg (c, e)); exit (3); }

Solver::Solver ()
{
  Z3_global_param_set ("rewriter.hi_fp_unspecified", "true"); // the encoding guards every unspecified case itself
  Z3_config cfg = Z3_mk_config ();
  Z3_set_param_value (cfg, "model", "true");
  ctx = Z3_mk_context (cfg);
  Z3_del_config (cfg);
  Z3_set_error_handler (ctx, onerr);
  bv = Z3_mk_simple_solver (ctx);
  Z3_solver_inc_ref (ctx, bv);
  Z3_tactic t = Z3_mk_tactic (ctx, "simplify"); Z3_tactic_inc_ref (ctx, t);
  for (const char * n : { "fpa2bv", "simplify", "propagate-values", "solve-eqs", "bit-blast", "sat" })
  {
    Z3_tactic u = Z3_mk_tactic (ctx, n); Z3_tactic_inc_ref (ctx, u);
    Z3_tactic v = Z3_tactic_and_then (ctx, t, u); Z3_tactic_inc_ref (ctx, v);
    t = v;
  }
  fp = Z3_mk_solver_from_tactic (ctx, t);
  Z3_solver_inc_ref (ctx, fp);
}

Z3_ast Solver::tr (const Expr * e)
{
  auto it = memo.find (e);
  if (it != memo.end ()) return it->second;
  Z3_ast r = nullptr;
  Z3_ast a = e->a ? tr (e->a) : nullptr, b = e->b ? tr (e->b) : nullptr, d = e->d ? tr (e->d) : nullptr;
  Z3_sort s = Z3_mk_bv_sort (ctx, e->w);
  auto B = [&] (Z3_ast x) { return Z3_mk_ite (ctx, x, Z3_mk_unsigned_int64 (ctx, 1, Z3_mk_bv_sort (ctx, 1)), Z3_mk_unsigned_int64 (ctx, 0, Z3_mk_bv_sort (ctx, 1))); };
  auto T = [&] (Z3_ast x) { return Z3_mk_eq (ctx, x, Z3_mk_unsigned_int64 (ctx, 1, Z3_mk_bv_sort (ctx, 1))); };
  auto fs = [&] (unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64 (ctx) : Z3_mk_fpa_sort_32 (ctx); };
  auto F = [&] (Z3_ast x, unsigned w) { return Z3_mk_fpa_to_fp_bv (ctx, x, fs (w)); };
  auto rne = [&] () { return Z3_mk_fpa_rne (ctx); };
  auto I = [&] (Z3_ast x) { // NaN results are canonical, as in fold ()
    return Z3_mk_ite (ctx, Z3_mk_fpa_is_nan (ctx, x), Z3_mk_unsigned_int64 (ctx, e->w == 64 ? 0x7ff8000000000000ULL : 0x7fc00000ULL, s), Z3_mk_fpa_to_ieee_bv (ctx, x)); };
  switch (e->op)
  {
    case O_CONST: r = Z3_mk_unsigned_int64 (ctx, e->c, s); break;
    case O_SYM: { char n[32]; snprintf (n, sizeof n, "s%u", (unsigned) e->c); r = Z3_mk_const (ctx, Z3_mk_string_symbol (ctx, n), s); if (symast.size () <= e->c) symast.resize (e->c + 1, nullptr); symast[e->c] = r; break; }
    case O_ADD: r = Z3_mk_bvadd (ctx, a, b); break;
    case O_SUB: r = Z3_mk_bvsub (ctx, a, b); break;
    case O_MUL: r = Z3_mk_bvmul (ctx, a, b); break;
    case O_UDIV: r = Z3_mk_bvudiv (ctx, a, b); break;
    case O_SDIV: r = Z3_mk_bvsdiv (ctx, a, b); break;
    case O_UREM: r = Z3_mk_bvurem (ctx, a, b); break;
    case O_SREM: r = Z3_mk_bvsrem (ctx, a, b); break;
    case O_AND: r = Z3_mk_bvand (ctx, a, b); break;
    case O_OR: r = Z3_mk_bvor (ctx, a, b); break;
    case O_XOR: r = Z3_mk_bvxor (ctx, a, b); break;
    case O_SHL: r = Z3_mk_bvshl (ctx, a, b); break;
    case O_LSHR: r = Z3_mk_bvlshr (ctx, a, b); break;
    case O_ASHR: r = Z3_mk_bvashr (ctx, a, b); break;
    case O_EQ: r = B (Z3_mk_eq (ctx, a, b)); break;
    case O_ULT: r = B (Z3_mk_bvult (ctx, a, b)); break;
    case O_ULE: r = B (Z3_mk_bvule (ctx, a, b)); break;
    case O_SLT: r = B (Z3_mk_bvslt (ctx, a, b)); break;
    case O_SLE: r = B (Z3_mk_bvsle (ctx, a, b)); break;
    case O_ITE: r = Z3_mk_ite (ctx, T (a), b, d); break;
    case O_CONCAT: r = Z3_mk_concat (ctx, a, b); break;
    case O_EXTRACT: r = Z3_mk_extract (ctx, e->c + e->w - 1, e->c, a); break;
    case O_ZEXT: r = Z3_mk_zero_ext (ctx, e->w - e->a->w, a); break;
    case O_SEXT: r = Z3_mk_sign_ext (ctx, e->w - e->a->w, a); break;
    case O_FADD: r = I (Z3_mk_fpa_add (ctx, rne (), F (a, e->w), F (b, e->w))); break;
    case O_FSUB: r = I (Z3_mk_fpa_sub (ctx, rne (), F (a, e->w), F (b, e->w))); break;
    case O_FMUL: r = I (Z3_mk_fpa_mul (ctx, rne (), F (a, e->w), F (b, e->w))); break;
    case O_FDIV: r = I (Z3_mk_fpa_div (ctx, rne (), F (a, e->w), F (b, e->w))); break;
    case O_FREM: r = I (Z3_mk_fpa_rem (ctx, F (a, e->w), F (b, e->w))); break;
    case O_FSQRT: r = I (Z3_mk_fpa_sqrt (ctx, rne (), F (a, e->w))); break;
    case O_FROUND: { Z3_ast rm = e->c == 0 ? Z3_mk_fpa_rtn (ctx) : e->c == 1 ? Z3_mk_fpa_rtp (ctx) : e->c == 2 ? Z3_mk_fpa_rtz (ctx) : e->c == 3 ? rne () : Z3_mk_fpa_rna (ctx); r = I (Z3_mk_fpa_round_to_integral (ctx, rm, F (a, e->w))); break; }
    case O_FEQ: r = B (Z3_mk_fpa_eq (ctx, F (a, e->a->w), F (b, e->a->w))); break;
    case O_FLT: r = B (Z3_mk_fpa_lt (ctx, F (a, e->a->w), F (b, e->a->w))); break;
    case O_FLE: r = B (Z3_mk_fpa_leq (ctx, F (a, e->a->w), F (b, e->a->w))); break;
    case O_FISNAN: r = B (Z3_mk_fpa_is_nan (ctx, F (a, e->a->w))); break;
    case O_FPTOSI: case O_FPTOUI: // out of range: as x86-64 does (cvttsd2si then truncation), see fold ()
    {
      unsigned fw = e->a->w; Z3_ast f = F (a, fw), rtz = Z3_mk_fpa_rtz (ctx);
      auto K = [&] (double v) { return Z3_mk_fpa_numeral_double (ctx, v, fs (fw)); };
      Z3_ast lo = Z3_mk_fpa_geq (ctx, f, K (-9223372036854775808.0)), hi = Z3_mk_fpa_lt (ctx, f, K (9223372036854775808.0));
      Z3_ast ab[2] = { lo, hi }; Z3_ast in = Z3_mk_and (ctx, 2, ab);
      Z3_ast s64 = Z3_mk_ite (ctx, in, Z3_mk_fpa_to_sbv (ctx, rtz, f, 64), Z3_mk_unsigned_int64 (ctx, 1ULL << 63, Z3_mk_bv_sort (ctx, 64)));
      if (e->op == O_FPTOUI && e->w == 64)
      {
        Z3_ast bb[2] = { Z3_mk_fpa_geq (ctx, f, K (9223372036854775808.0)), Z3_mk_fpa_lt (ctx, f, K (18446744073709551616.0)) }; Z3_ast big = Z3_mk_and (ctx, 2, bb);
        Z3_ast over = Z3_mk_fpa_geq (ctx, f, K (18446744073709551616.0));
        s64 = Z3_mk_ite (ctx, big, Z3_mk_fpa_to_ubv (ctx, rtz, f, 64), Z3_mk_ite (ctx, over, Z3_mk_unsigned_int64 (ctx, 0, Z3_mk_bv_sort (ctx, 64)), s64));
      }
      r = e->w == 64 ? s64 : Z3_mk_extract (ctx, e->w - 1, 0, s64);
      break;
    }
    case O_SITOFP: r = I (Z3_mk_fpa_to_fp_signed (ctx, rne (), a, fs (e->w))); break;
    case O_UITOFP: r = I (Z3_mk_fpa_to_fp_unsigned (ctx, rne (), a, fs (e->w))); break;
    case O_FPEXT: r = I (Z3_mk_fpa_to_fp_float (ctx, rne (), F (a, 32), fs (64))); break;
    case O_FPTRUNC: r = I (Z3_mk_fpa_to_fp_float (ctx, rne (), F (a, 64), fs (32))); break;
  }
  Z3_inc_ref (ctx, r);
  memo[e] = r;
  return r;
}

const std::vector<uint32_t> & Solver::symset (const Expr * e)
{
  auto it = symsets.find (e);
  if (it != symsets.end ()) return it->second;
  std::unordered_set<const Expr*> seen; std::vector<const Expr*> st { e }; std::vector<uint32_t> out;
  while (!st.empty ())
  {
    const Expr * x = st.back (); st.pop_back ();
    if (!x || !seen.insert (x).second) continue;
    if (x->op == O_SYM) { out.push_back ((uint32_t) x->c); continue; }
    if (x->op == O_CONST) continue;
    st.push_back (x->a); st.push_back (x->b); st.push_back (x->d);
  }
  std::sort (out.begin (), out.end ());
  return symsets.emplace (e, std::move (out)).first->second;
}

const Solver::Dom & Solver::dom (const Expr * e, uint32_t sym, unsigned w)
{
  auto it = doms.find (e);
  if (it != doms.end ()) return it->second;
  Dom d {}; Model m;
  for (unsigned v = 0; v < (1u << w); v++) { m.v[sym] = v; Evaluator ev (m); if (ev.eval (e)) d.b[v >> 6] |= 1ULL << (v & 63); }
  return doms.emplace (e, d).first->second;
}

// verdict: the query decides a property (always put to the SMT solver); otherwise it decides whether a branch is feasible
Res Solver::check (const std::vector<const Expr*> & pc, const Expr * q, const ModelP & base, ModelP & out, bool verdict)
{
  if (isC (q)) { if (q->c) { out = base; return R_SAT; } return R_UNSAT; }
  // slice: constraints sharing symbols (transitively) with q
  std::unordered_set<uint32_t> rel (symset (q).begin (), symset (q).end ());
  std::vector<char> in (pc.size (), 0);
  bool ch = true;
  while (ch)
  {
    ch = false;
    for (size_t i = 0; i < pc.size (); i++) if (!in[i])
    {
      const auto & ss = symset (pc[i]);
      for (uint32_t s : ss) if (rel.count (s)) { in[i] = 1; ch = true; rel.insert (ss.begin (), ss.end ()); break; }
    }
  }
  std::vector<const Expr*> cs; std::vector<uint32_t> key;
  for (size_t i = 0; i < pc.size (); i++) if (in[i]) { cs.push_back (pc[i]); key.push_back (pc[i]->id); }
  cs.push_back (q); key.push_back (q->id);
  std::sort (key.begin (), key.end ()); key.erase (std::unique (key.begin (), key.end ()), key.end ());
  auto merge = [&] (const Model & m) {
    auto n = std::make_shared<Model> (base ? *base : Model ());
    for (uint32_t s : rel) n->v[s] = m.get (s);
    return n;
  };
  if (!verdict && rel.size () == 1 && P.syms[*rel.begin ()].w <= 8) // constraints on one byte: intersect the sets of values that satisfy each
  {
    uint32_t sym = *rel.begin (); unsigned w = P.syms[sym].w; Dom d { { ~0ULL, ~0ULL, ~0ULL, ~0ULL } };
    for (auto e : cs) { const Dom & x = dom (e, sym, w); for (int i = 0; i < 4; i++) d.b[i] &= x.b[i]; }
    domain++;
    for (int i = 0; i < 4; i++) if (d.b[i])
    {
      auto n = std::make_shared<Model> (base ? *base : Model ()); n->v[sym] = (uint64_t) i * 64 + (uint64_t) __builtin_ctzll (d.b[i]); out = n;
      return R_SAT;
    }
    return R_UNSAT;
  }
  auto it = cache.find (key);
  if (it != cache.end ())
  {
    cached++;
    if (it->second.first == R_SAT) out = merge (*it->second.second);
    return it->second.first;
  }
  // counterexample cache: recent models
  for (auto & m : recent)
  {
    Evaluator ev (*m); bool ok = true;
    for (auto i = cs.rbegin (); i != cs.rend (); ++i) if (!ev.eval (*i)) { ok = false; break; }
    if (ok) { modelhits++; out = merge (*m); return R_SAT; }
  }
  bool isfp = false; for (auto e : cs) isfp |= e->fp;
  auto t0 = std::chrono::steady_clock::now ();
  Z3_solver s = isfp ? fp : bv;
  if (!psets)
  {
    psets = true;
    Z3_params p = Z3_mk_params (ctx); Z3_params_inc_ref (ctx, p);
    Z3_params_set_uint (ctx, p, Z3_mk_string_symbol (ctx, "timeout"), timeout_ms);
    Z3_solver_set_params (ctx, fp, p); Z3_params_dec_ref (ctx, p);
    p = Z3_mk_params (ctx); Z3_params_inc_ref (ctx, p);
    Z3_params_set_uint (ctx, p, Z3_mk_string_symbol (ctx, "timeout"), 1500);
    Z3_solver_set_params (ctx, bv, p); Z3_params_dec_ref (ctx, p);
  }
  Z3_ast one = Z3_mk_unsigned_int64 (ctx, 1, Z3_mk_bv_sort (ctx, 1));
  if (isfp)
  {
    Z3_solver_reset (ctx, s);
    for (auto e : cs) Z3_solver_assert (ctx, s, Z3_mk_eq (ctx, tr (e), one));
  }
  else
  {
    size_t k = 0; while (k < stk.size () && k + 1 < cs.size () && stk[k] == cs[k]) k++;
    if (k < stk.size ()) { Z3_solver_pop (ctx, s, stk.size () - k); stk.resize (k); }
    for (; k < cs.size (); k++) { Z3_solver_push (ctx, s); Z3_solver_assert (ctx, s, Z3_mk_eq (ctx, tr (cs[k]), one)); stk.push_back (cs[k]); }
  }
  Z3_lbool r = Z3_solver_check (ctx, s);
  if (r == Z3_L_UNDEF && !isfp)
  {
    // hard for the incremental core: retry through the bit-blasting tactic pipeline
    s = fp; Z3_solver_reset (ctx, s);
    for (auto e : cs) Z3_solver_assert (ctx, s, Z3_mk_eq (ctx, tr (e), one));
    r = Z3_solver_check (ctx, s);
  }
  queries++;
  Res res = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
  ModelP mm;
  if (res == R_SAT)
  {
    Z3_model zm = Z3_solver_get_model (ctx, s); Z3_model_inc_ref (ctx, zm);
    auto m = std::make_shared<Model> ();
    for (uint32_t x : rel)
    {
      uint64_t val = 0; Z3_ast v;
      if (x < symast.size () && symast[x] && Z3_model_eval (ctx, zm, symast[x], true, &v)) { Z3_inc_ref (ctx, v); Z3_get_numeral_uint64 (ctx, v, &val); Z3_dec_ref (ctx, v); }
      m->v[x] = val;
    }
    Z3_model_dec_ref (ctx, zm);
    Evaluator ev (*m); bool ok = true;
    for (auto e : cs) if (!ev.eval (e)) { ok = false; break; }
    if (!ok) { res = R_UNKNOWN; fprintf (stderr, "symx: model validation failed (fp corner?)\n"); }
    else { mm = m; recent.push_front (m); if (recent.size () > 24) recent.pop_back (); }
  }
  if (r == Z3_L_UNDEF && getenv ("SYMX_DEBUG")) fprintf (stderr, "symx: unknown: %s\n%s\n", Z3_solver_get_reason_unknown (ctx, s), Z3_solver_to_string (ctx, s));
  double dt = std::chrono::duration<double> (std::chrono::steady_clock::now () - t0).count ();
  if (getenv ("SYMX_SLOW") && dt > atof (getenv ("SYMX_SLOW")))
  {
    std::unordered_set<const Expr*> seen; std::vector<const Expr*> st (cs.begin (), cs.end ()); while (!st.empty ()) { auto x = st.back (); st.pop_back (); if (!x || !seen.insert (x).second) continue; st.push_back (x->a); st.push_back (x->b); st.push_back (x->d); }
    fprintf (stderr, "slow %.3f res %d fp %d cs %zu syms %zu nodes %zu\n", dt, (int) r, isfp, cs.size (), rel.size (), seen.size ());
  }
  secs += dt; maxsecs = std::max (maxsecs, dt);
  if (res == R_SAT) sat++; else if (res == R_UNSAT) unsat++; else unknown++;
  if (res != R_UNKNOWN) cache[key] = { res, mm };
  if (res == R_SAT) out = merge (*mm);
  return res;
}
