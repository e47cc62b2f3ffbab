#include <functional>
#include "exec.h"
#include <cstdio>
#include <cstdlib>
#include <ctime>
using namespace llvm;

static std::chrono::steady_clock::time_point T0;
static double now () { return std::chrono::duration<double> (std::chrono::steady_clock::now () - T0).count (); }

unsigned Engine::width (Type * t)
{
  if (t->isIntegerTy ()) return t->getIntegerBitWidth ();
  if (t->isPointerTy ()) return 64;
  if (t->isFloatTy ()) return 32;
  if (t->isDoubleTy ()) return 64;
  return 0;
}

std::string Engine::where (const Instruction * I)
{
  if (!I) return "?";
  std::string r;
  if (const DebugLoc & d = I->getDebugLoc ())
  {
    r = d->getFilename ().str ();
    size_t p = r.rfind ('/'); if (p != std::string::npos) r = r.substr (p + 1);
    r += ":" + std::to_string (d.getLine ());
  }
  else r = I->getFunction ()->getName ().str ();
  return r;
}

// ---------------------------------------------------------------- state
State * Engine::clone (State & s) { State * n = new State (s); n->id = ++ids; states++; forks++; n->forks++; return n; }

static void conj (const Expr * c, std::vector<const Expr*> & out)
{
  if (c->op == O_AND && c->w == 1) { conj (c->a, out); conj (c->b, out); return; }
  // not (a or b)
  if (c->op == O_XOR && c->w == 1 && isC (c->b) && c->a->op == O_OR) { conj (mknot (c->a->a), out); conj (mknot (c->a->b), out); return; }
  if (!isC (c)) out.push_back (c);
}
void Engine::addc (State & s, const Expr * c)
{
  std::vector<const Expr*> v; conj (c, v);
  for (auto e : v) if (std::find (s.pc.begin (), s.pc.end (), e) == s.pc.end ()) s.pc.push_back (e);
  maxpc = std::max<uint64_t> (maxpc, s.pc.size ());
}

bool Engine::mustdecide (State & s, const Expr * c, bool & val, bool fork)
{
  if (isC (c)) { val = c->c; return true; }
  const Expr * nc = mknot (c);
  for (auto e : s.pc) { if (e == c) { val = true; return true; } if (e == nc) { val = false; return true; } }
  Evaluator ev (*s.model);
  bool v = ev.eval (c);
  ModelP om;
  Res r = S.check (s.pc, v ? nc : c, s.model, om);
  if (r == R_UNKNOWN) incomplete.insert ("solver returned unknown");
  if (r == R_SAT)
  {
    if (!fork) { val = v; return false; }
    if (forksites) { auto & fr = s.th[s.cur].st.back (); forksite[where (fr.f->blocks[fr.bb][fr.pc].I)]++; }
    State * n = clone (s);
    addc (*n, v ? nc : c); n->model = om;
    work.push_back (n);
  }
  addc (s, v ? c : nc);
  val = v;
  return true;
}

void Engine::assume (State & s, const Expr * c)
{
  if (isC (c)) { if (!c->c) { pruned++; throw PathEnd (); } return; }
  Evaluator ev (*s.model);
  if (ev.eval (c)) { addc (s, c); return; }
  ModelP om;
  Res r = S.check (s.pc, c, s.model, om);
  if (r == R_UNKNOWN) incomplete.insert ("solver returned unknown");
  if (r != R_SAT) { pruned++; throw PathEnd (); }
  addc (s, c); s.model = om;
}

uint64_t Engine::concretize (State & s, const Val & v, unsigned w, const char * why)
{
  if (v.conc ()) return v.c;
  Evaluator ev (*s.model);
  uint64_t x = ev.eval (v.e);
  const Expr * eq = mkcmp (O_EQ, v.e, KE (x, w));
  bool b;
  uint64_t key = (uint64_t) v.e->id;
  unsigned & n = s.limits[key];
  if (n > enumlimit) { incomplete.insert (std::string ("enumeration limit: ") + why + " at " + where (s.th[s.cur].st.back ().f->blocks[s.th[s.cur].st.back ().bb][s.th[s.cur].st.back ().pc].I)); addc (s, eq); return x; }
  n++;
  mustdecide (s, eq, b, true);
  return x;   // the current model satisfies eq
}

void Engine::record (State & s, const std::string & kind, const std::string & msg, const ModelP & m)
{
  Thread & t = s.th[s.cur];
  const Instruction * I = nullptr;
  std::vector<std::string> stack;
  std::string repoloc;
  for (size_t i = t.st.size (); i-- > 0; )
  {
    Frame & f = t.st[i];
    unsigned pc = f.pc < f.f->blocks[f.bb].size () ? f.pc : f.f->blocks[f.bb].size () - 1;
    const Instruction * x = f.f->blocks[f.bb][pc].I;
    if (i + 1 == t.st.size ()) I = x;
    std::string l = f.f->F->getName ().str () + " (" + where (x) + ")";
    if (f.f->repo && repoloc.empty ()) repoloc = where (x);
    stack.push_back (l);
  }
  std::string loc = repoloc.empty () ? where (I) : repoloc;
  errpaths++;
  std::string key = kind + "|" + msg + "|" + where (I);
  if (!errkeys.insert (key).second) return;
  Err e; e.kind = kind; e.msg = msg; e.loc = loc; e.stack = stack;
  Evaluator ev (m ? *m : *s.model);
  for (auto & in : s.inputs) e.inputs.push_back ({ in.name, in.v.conc () ? in.v.c : ev.eval (in.v.e) });
  errs.push_back (e);
  fprintf (stderr, "symx: %s: %s at %s\n", kind.c_str (), msg.c_str (), loc.c_str ());
}

void Engine::fail (State & s, const std::string & kind, const std::string & msg, const ModelP & m)
{
  record (s, kind, msg, m);
  throw PathEnd ();
}

void Engine::endPath (State & s, bool counted)
{
  paths++;
  // reservoir of sample paths for native cross-validation
  samplectr++;
  auto mk = [&] () {
    Sample sm; Evaluator ev (*s.model);
    for (auto & in : s.inputs) sm.inputs.push_back ({ in.name, in.v.conc () ? in.v.c : ev.eval (in.v.e) });
    for (auto & l : s.log) sm.log.push_back (l.first.conc () ? l.first.c & maskw (l.second) : ev.eval (l.first.e));
    return sm;
  };
  if (samples.size () < nsamples) samples.push_back (mk ());
  else { uint64_t r = (samplectr * 6364136223846793005ULL + 1442695040888963407ULL) >> 33; if (r % samplectr < nsamples) samples[r % nsamples] = mk (); }
}

// ---------------------------------------------------------------- memory
ObjP Engine::find (State & s, uint64_t a)
{
  auto it = s.mem.upper_bound (a);
  if (it != s.mem.begin ()) { --it; if (a < it->second->base + std::max<uint64_t> (it->second->size, 1)) return it->second; }
  auto jt = romem.upper_bound (a);
  if (jt != romem.begin ()) { --jt; if (a < jt->second->base + std::max<uint64_t> (jt->second->size, 1)) return jt->second; }
  return nullptr;
}
Obj & Engine::wr (State & s, const ObjP & o)
{
  ObjP & p = s.mem[o->base];
  // o itself may hold one extra reference
  if (p.use_count () > ((p == o) ? 2 : 1)) p = std::make_shared<Obj> (*p);
  return *p;
}
static const Expr * const UNINIT = (const Expr*) 1;

ObjP Engine::alloc (State & s, uint64_t size, Kind k, bool zero, uint64_t align)
{
  if (align < 16) align = 16;
  ObjP o = std::make_shared<Obj> ();
  s.next = (s.next + align - 1) & ~(align - 1);
  o->base = s.next; o->size = size; o->kind = k;
  s.next += size + 64;
  o->b.assign (size, 0);
  if (!zero) o->s.assign (size, UNINIT);
  Frame * f = s.th.empty () || s.th[s.cur].st.empty () ? nullptr : &s.th[s.cur].st.back ();
  if (f) o->site = f->f->blocks[f->bb][f->pc].I;
  s.mem[o->base] = o;
  return o;
}

const Expr * Engine::byteAt (State & s, const ObjP & o, uint64_t i)
{
  if (o->s.empty () || o->s[i] == nullptr) return KE (o->b[i], 8);
  if (o->s[i] == UNINIT)
  {
    const Expr * e = P.sym ("undef", 8, true);
    Obj & w = wr (s, o);
    w.s[i] = e;
    return e;
  }
  return o->s[i];
}
void Engine::setByte (Obj & o, uint64_t i, const Expr * e)
{
  if (isC (e)) { o.b[i] = (uint8_t) e->c; if (!o.s.empty ()) o.s[i] = nullptr; return; }
  if (o.s.empty ()) o.s.assign (o.size, nullptr);
  o.s[i] = e;
}
Val Engine::readAt (State & s, const ObjP & o0, uint64_t off, unsigned n)
{
  ObjP o = o0;
  bool conc = true;
  if (!o->s.empty ()) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { conc = false; break; }
  if (conc)
  {
    uint64_t v = 0; memcpy (&v, o->b.data () + off, n); return VC (v);
  }
  uint64_t base = o->base; o = nullptr;
  const Expr * acc = nullptr;
  for (unsigned i = n; i-- > 0; )
  {
    ObjP x = find (s, base);
    const Expr * b = byteAt (s, x, off + i);
    acc = acc ? mkcat (acc, b) : b;
  }
  return VE (acc);
}
void Engine::writeAt (State & s, Obj & o, uint64_t off, const Val & v, unsigned n)
{
  if (v.conc ())
  {
    memcpy (o.b.data () + off, &v.c, n);
    if (!o.s.empty ()) for (unsigned i = 0; i < n; i++) o.s[off + i] = nullptr;
    return;
  }
  const Expr * e = v.e;
  if (e->w < n * 8) e = mkzext (e, n * 8);
  for (unsigned i = 0; i < n; i++) setByte (o, off + i, mkext (e, i * 8, 8));
}

void Engine::hbAcquire (State & s, uint64_t a)
{
  auto it = s.relvc.find (a); if (it == s.relvc.end ()) return;
  auto & vc = s.th[s.cur].vc;
  if (vc.size () < it->second.size ()) vc.resize (it->second.size (), 0);
  for (size_t i = 0; i < it->second.size (); i++) vc[i] = std::max (vc[i], it->second[i]);
}
void Engine::hbRelease (State & s, uint64_t a)
{
  auto & vc = s.th[s.cur].vc; auto & r = s.relvc[a];
  if (r.size () < vc.size ()) r.resize (vc.size (), 0);
  for (size_t i = 0; i < vc.size (); i++) r[i] = std::max (r[i], vc[i]);
  vc[s.cur]++;
}
void Engine::access (State & s, const ObjP & o0, uint64_t off, unsigned n, bool write, int atomic)
{
  if (!races || s.th.size () < 2 || o0->ro || o0->kind == K_FUNC) return;
  if (atomic == 2) return;     // volatile: declared by its author to be read and written without synchronisation
  // only accesses made by the code under test count, directly or through a libc function; not those of the harness or the environment model
  bool mine = false;
  for (auto f = s.th[s.cur].st.rbegin (); f != s.th[s.cur].st.rend (); ++f)
  {
    if (f->f->repo) { mine = true; break; }
    const std::string & n = f->f->file;
    if (n.size () < 6 || n.compare (n.size () - 6, 6, "libc.c")) break;
  }
  if (!mine) return;
  ObjP o = o0;
  uint64_t base = o->base; o = nullptr;
  Obj & w = wr (s, o0);
  if (w.sh.empty ()) w.sh.resize (w.size);
  auto & vc = s.th[s.cur].vc; unsigned me = s.cur;
  auto ck = [&] (unsigned t) -> uint32_t { return t < vc.size () ? vc[t] : 0; };
  for (unsigned i = 0; i < n; i++)
  {
    Sh & h = w.sh[off + i];
    if (h.wt != 255 && h.wt != me && h.wc > ck (h.wt)) { record (s, "race", std::string (write ? "write" : "read") + " races with an earlier write by another thread", nullptr); return; }
    if (!atomic && h.at != 255 && h.at != me && h.ac > ck (h.at)) { record (s, "race", std::string (write ? "write" : "read") + " races with an earlier atomic write by another thread", nullptr); return; }
    if (write)
    {
      for (unsigned t = 0; t < 8 && t < s.th.size (); t++) if (t != me && h.rc[t] > ck (t)) { record (s, "race", "write races with an earlier read by another thread", nullptr); return; }
      if (atomic) { h.at = me; h.ac = vc[me]; } else { h.wt = me; h.wc = vc[me]; }
    }
    else if (me < 8 && !atomic) h.rc[me] = vc[me];
  }
  (void) base;
}

ObjP Engine::resolve (State & s, const Val & p, uint64_t n, bool write, Val & off, const char * what)
{
  const char * rw = write ? "write" : "read";
  auto bad = [&] (uint64_t a, const ModelP & m) {
    if (a < 4096) fail (s, "memory", std::string ("null pointer ") + rw + " in " + what, m);
    ObjP o = find (s, a);
    if (!o && a > 0) { // describe nearest object below
      auto it = s.mem.upper_bound (a); if (it != s.mem.begin ()) { --it; if (a < it->second->base + it->second->size + 64) o = it->second; }
    }
    if (o && o->freed) fail (s, "memory", std::string ("use after free: ") + rw + " in " + what, m);
    fail (s, "memory", std::string ("out of bounds ") + rw + " in " + what, m);
  };
  uint64_t a = p.c;
  if (!p.conc ()) { Evaluator ev (*s.model); a = ev.eval (p.e); }
  ObjP o = find (s, a);
  if (p.conc ())
  {
    if (!o || o->freed || a - o->base + n > o->size || o->kind == K_FUNC) { if (n == 0 && o) { off = VC (a - o->base); return o; } bad (a, nullptr); }
    if (write && o->ro) fail (s, "memory", std::string ("write to constant object in ") + what);
    off = VC (a - o->base);
    return o;
  }
  if (!o || o->freed || a - o->base + n > o->size || o->kind == K_FUNC) bad (a, nullptr);
  // all in bounds of this object?
  const Expr * rel = mkbin (O_SUB, p.e, KE (o->base, 64));
  const Expr * inb = mkcmp (O_ULE, rel, KE (o->size - n, 64));
  bool v;
  mustdecide (s, inb, v, true);   // forks a state for addresses elsewhere, which re-executes this access
  if (write && o->ro) fail (s, "memory", std::string ("write to constant object in ") + what);
  off = VE (rel);
  return o;
}

unsigned expr_tz (const Expr * e);
Val Engine::load (State & s, const Val & p, unsigned n, int atomic)
{
  Val off;
  ObjP o = resolve (s, p, n, false, off, "load");
  if (off.conc ()) { access (s, o, off.c, n, false, atomic); o = find (s, o->base); return readAt (s, o, off.c, n); }
  unsigned stride = 1u << std::min (expr_tz (off.e), 6u);
  uint64_t cnt = (o->size - n) / stride + 1;
  if (cnt > (o->ro || o->kind == K_GLOBAL ? 2100 : 64)) { uint64_t c = concretize (s, off, 64, "load offset"); return readAt (s, o, c, n); }
  uint64_t base = o->base;
  // a balanced tree over runs of equal values
  std::vector<std::pair<uint64_t, const Expr*>> run;   // first offset of the run, value
  for (uint64_t i = 0; i < cnt; i++)
  {
    Val v = readAt (s, find (s, base), i * stride, n);
    const Expr * e = EX (v, n * 8);
    if (run.empty () || run.back ().second != e) run.push_back ({ i * stride, e });
  }
  std::function<const Expr * (size_t, size_t)> tree = [&] (size_t lo, size_t hi) -> const Expr *
  {
    if (hi - lo == 1) return run[lo].second;
    size_t mid = (lo + hi) / 2;
    return mkite (mkcmp (O_ULT, off.e, KE (run[mid].first, 64)), tree (lo, mid), tree (mid, hi));
  };
  const Expr * r = tree (0, run.size ());
  std::set<const Expr*> dist; for (auto & x : run) if (dist.size () <= 4) dist.insert (isC (x.second) ? x.second : nullptr);
  if (dist.size () <= 4 && !dist.count (nullptr) && n <= 8) return VC (concretize (s, VE (r), n * 8, "table value"));   // few classes: one path for each
  return VE (r);
}

void Engine::store (State & s, const Val & p, const Val & v, unsigned n, int atomic)
{
  Val off;
  ObjP o = resolve (s, p, n, true, off, "store");
  if (!off.conc () && o->size > 64) off = VC (concretize (s, off, 64, "store offset"));
  if (off.conc ()) { access (s, o, off.c, n, true, atomic); o = find (s, o->base); Obj & w = wr (s, o); writeAt (s, w, off.c, v, n); return; }
  unsigned stride = 1u << std::min (expr_tz (off.e), 6u);
  uint64_t cnt = (o->size - n) / stride + 1, base = o->base;
  const Expr * e = EX (v, n * 8);
  for (uint64_t i = 0; i < cnt; i++)
  {
    const Expr * hit = mkcmp (O_EQ, off.e, KE (i * stride, 64));
    for (unsigned k = 0; k < n; k++)
    {
      ObjP x = find (s, base);
      const Expr * old = byteAt (s, x, i * stride + k);
      x = find (s, base);
      setByte (wr (s, x), i * stride + k, mkite (hit, mkext (e, k * 8, 8), old));
    }
  }
}

void Engine::release (State & s, uint64_t a, bool isrealloc)
{
  if (!a) return;
  ObjP o = find (s, a);
  if (!o || o->kind != K_HEAP || o->base != a) fail (s, "memory", "free of a pointer that was not returned by the allocator");
  if (o->freed) fail (s, "memory", "double free");
  if (races) access (s, o, 0, o->size, true, false);
  Obj & w = wr (s, o);
  w.freed = true; w.b.clear (); w.s.clear (); w.sh.clear ();
  Frame & f = s.th[s.cur].st.back ();
  w.fsite = f.f->blocks[f.bb][f.pc].I;
}

void Engine::memcopy (State & s, const Val & d, const Val & src, uint64_t n, const char * what)
{
  if (!n) return;
  Val so, dd;
  Val sp = src, dp = d;
  if (!sp.conc ()) sp = VC (concretize (s, sp, 64, "memcpy source"));
  if (!dp.conc ()) dp = VC (concretize (s, dp, 64, "memcpy destination"));
  ObjP x = resolve (s, sp, n, false, so, what);
  ObjP y = resolve (s, dp, n, true, dd, what);
  access (s, x, so.c, n, false, false); access (s, y, dd.c, n, true, false);
  x = find (s, x->base); 
  std::vector<uint8_t> b (x->b.begin () + so.c, x->b.begin () + so.c + n);
  std::vector<const Expr*> e;
  if (!x->s.empty ())
  {
    // pin uninitialised bytes so that the copy and the original agree
    uint64_t base = x->base; 
    for (uint64_t i = 0; i < n; i++) { x = find (s, base); if (x->s[so.c + i] == UNINIT && n <= 16) byteAt (s, x, so.c + i); }
    x = find (s, base);
    e.assign (x->s.begin () + so.c, x->s.begin () + so.c + n);
  }
  y = find (s, y->base);
  Obj & w = wr (s, y);
  std::copy (b.begin (), b.end (), w.b.begin () + dd.c);
  if (!e.empty ()) { if (w.s.empty ()) w.s.assign (w.size, nullptr); std::copy (e.begin (), e.end (), w.s.begin () + dd.c); }
  else if (!w.s.empty ()) std::fill (w.s.begin () + dd.c, w.s.begin () + dd.c + n, nullptr);
}

std::string Engine::cstr (State & s, const Val & p)
{
  std::string r; uint64_t a = p.c;
  for (int i = 0; i < 200; i++)
  {
    ObjP o = find (s, a + i);
    if (!o || o->freed || a + i - o->base >= o->size) break;
    uint64_t off = a + i - o->base;
    if (!o->s.empty () && o->s[off]) { r += '?'; continue; }
    if (!o->b[off]) break;
    r += (char) o->b[off];
  }
  return r;
}

// ---------------------------------------------------------------- constants
Val Engine::constant (const Constant * C)
{
  if (auto * ci = dyn_cast<ConstantInt> (C)) { return VC (ci->getBitWidth () <= 64 ? ci->getZExtValue () : ci->getValue ().extractBitsAsZExtValue (64, 0)); }
  if (isa<ConstantPointerNull> (C)) return VC (0);
  if (auto * cf = dyn_cast<ConstantFP> (C)) return VC (cf->getValueAPF ().bitcastToAPInt ().extractBitsAsZExtValue (std::min (64u, cf->getValueAPF ().bitcastToAPInt ().getBitWidth ()), 0));
  if (auto * gv = dyn_cast<GlobalValue> (C))
  {
    if (auto * ga = dyn_cast<GlobalAlias> (gv)) return constant (ga->getAliasee ());
    auto it = gaddr.find (gv); if (it == gaddr.end ()) { fprintf (stderr, "symx: no address for %s\n", gv->getName ().str ().c_str ()); exit (3); }
    return VC (it->second);
  }
  if (auto * ce = dyn_cast<ConstantExpr> (C))
  {
    switch (ce->getOpcode ())
    {
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return constant (ce->getOperand (0));
      case Instruction::PtrToInt: case Instruction::Trunc: return VC (constant (ce->getOperand (0)).c & maskw (width (ce->getType ())));
      case Instruction::IntToPtr: return constant (ce->getOperand (0));
      case Instruction::GetElementPtr:
      {
        APInt off (64, 0); if (!cast<GEPOperator> (ce)->accumulateConstantOffset (*DL, off)) { fprintf (stderr, "symx: constant gep\n"); exit (3); }
        return VC (constant (ce->getOperand (0)).c + off.getSExtValue ());
      }
      case Instruction::Add: return VC ((constant (ce->getOperand (0)).c + constant (ce->getOperand (1)).c) & maskw (width (ce->getType ())));
      case Instruction::Sub: return VC ((constant (ce->getOperand (0)).c - constant (ce->getOperand (1)).c) & maskw (width (ce->getType ())));
      default: fprintf (stderr, "symx: unsupported constant expression\n"); ce->dump (); exit (3);
    }
  }
  if (isa<UndefValue> (C) || isa<ConstantAggregateZero> (C) || isa<ConstantAggregate> (C))
  {
    Type * t = C->getType ();
    if (width (t)) return VC (0);
    auto * v = new std::vector<Val> ();
    unsigned n = t->isStructTy () ? t->getStructNumElements () : t->isArrayTy () ? t->getArrayNumElements () : 0;
    for (unsigned i = 0; i < n; i++) v->push_back (constant (C->getAggregateElement (i)));
    Val r; r.agg = v; return r;
  }
  fprintf (stderr, "symx: unsupported constant\n"); C->dump (); exit (3);
}

void Engine::initConst (Obj & o, uint64_t off, const Constant * C)
{
  Type * t = C->getType ();
  if (isa<ConstantAggregateZero> (C) || isa<UndefValue> (C)) return;
  if (auto * cd = dyn_cast<ConstantDataSequential> (C))
  {
    StringRef r = cd->getRawDataValues (); memcpy (o.b.data () + off, r.data (), r.size ()); return;
  }
  if (auto * cs = dyn_cast<ConstantStruct> (C))
  {
    const StructLayout * sl = DL->getStructLayout (cs->getType ());
    for (unsigned i = 0; i < cs->getNumOperands (); i++) initConst (o, off + sl->getElementOffset (i), cs->getOperand (i));
    return;
  }
  if (auto * ca = dyn_cast<ConstantArray> (C))
  {
    uint64_t es = DL->getTypeAllocSize (ca->getType ()->getElementType ());
    for (unsigned i = 0; i < ca->getNumOperands (); i++) initConst (o, off + i * es, ca->getOperand (i));
    return;
  }
  Val v = constant (C);
  memcpy (o.b.data () + off, &v.c, std::min<uint64_t> (8, DL->getTypeStoreSize (t)));
}

// ---------------------------------------------------------------- preparation
KFunc * Engine::prep (Function * F)
{
  auto it = kf.find (F); if (it != kf.end ()) return it->second;
  KFunc * k = new KFunc (); k->F = F; kf[F] = k;
  if (auto * sp = F->getSubprogram ()) { std::string d = sp->getFilename ().str (); if (d.empty () || d[0] != '/') d = sp->getDirectory ().str () + "/" + d; k->file = d; k->repo = d.compare (0, repo.size (), repo) == 0; }
  DenseMap<const Value*, int> slot;
  for (auto & a : F->args ()) { slot[&a] = k->nslots; k->argslots.push_back (k->nslots++); }
  unsigned bi = 0;
  for (auto & B : *F) { k->bidx[&B] = bi++; k->bbs.push_back (&B); for (auto & I : B) if (!I.getType ()->isVoidTy ()) slot[&I] = k->nslots++; }
  for (auto & B : *F)
  {
    std::vector<KInst> v;
    for (auto & I : B)
    {
      KInst ki; ki.I = &I; ki.dest = I.getType ()->isVoidTy () ? -1 : slot[&I]; ki.w = width (I.getType ());
      for (auto & U : I.operands ())
      {
        Value * x = U.get ();
        auto f = slot.find (x);
        if (f != slot.end ()) ki.ops.push_back (f->second);
        else if (auto * C = dyn_cast<Constant> (x))
        {
          auto ci = cidx.find (C); int id;
          if (ci == cidx.end ())
          {
            id = consts.size ();
            if (auto * GV = dyn_cast<GlobalVariable> (C); GV && GV->isThreadLocal ()) consts.push_back (VC (0));
            else consts.push_back (constant (C));
            cidx[C] = id;
          } else id = ci->second;
          ki.ops.push_back (-id - 1);
        }
        else ki.ops.push_back (INT32_MIN);   // basic blocks, metadata, inline asm
      }
      v.push_back (std::move (ki));
    }
    k->blocks.push_back (std::move (v));
  }
  return k;
}

bool Engine::load (const std::string & path)
{
  SMDiagnostic err; M = parseIRFile (path, err, lc);
  if (!M) { err.print ("symx", llvm::errs ()); return false; }
  DL = &M->getDataLayout ();
  for (auto & F : *M)     // stand-ins take the place of functions, also of those modelled in libc.c
    if (Function * R = M->getFunction (("sx_" + F.getName ()).str ()); R && !R->isDeclaration () && R->getFunctionType () == F.getFunctionType ())
      F.replaceUsesWithIf (R, [R] (Use & u) { auto * I = dyn_cast<Instruction> (u.getUser ()); return !I || I->getFunction () != R; });
  uint64_t fa = 0x100000;
  for (auto & F : *M) { gaddr[&F] = fa; faddr[fa] = &F; ObjP o = std::make_shared<Obj> (); o->base = fa; o->size = 1; o->kind = K_FUNC; o->ro = true; o->b.assign (1, 0); romem[fa] = o; fa += 64; }
  return true;
}

// ---------------------------------------------------------------- main loop
void Engine::run (const std::string & entry)
{
  T0 = std::chrono::steady_clock::now ();
  State * s = new State ();
  s->model = std::make_shared<Model> ();
  std::vector<std::pair<GlobalVariable*, ObjP>> gs;
  uint64_t ga = 0x1000000;
  for (auto & G : M->globals ())
  {
    if (G.isThreadLocal ()) { gaddr[&G] = 0; continue; }
    ObjP o = std::make_shared<Obj> ();
    o->size = DL->getTypeAllocSize (G.getValueType ()); o->kind = K_GLOBAL;
    uint64_t al = std::max<uint64_t> (16, G.getAlign () ? G.getAlign ()->value () : 16);
    ga = (ga + al - 1) & ~(al - 1);
    o->base = ga; ga += o->size + 64;
    o->b.assign (o->size, 0);
    o->ro = G.isConstant ();
    gaddr[&G] = o->base;
    gs.push_back ({ &G, o });
  }
  for (auto & g : gs)
  {
    if (g.first->hasInitializer ()) initConst (*g.second, 0, g.first->getInitializer ());
    if (g.second->ro) romem[g.second->base] = g.second; else s->mem[g.second->base] = g.second;
  }
  Function * E = M->getFunction (entry);
  if (!E) { fprintf (stderr, "symx: no entry %s\n", entry.c_str ()); exit (3); }
  s->th.emplace_back (); s->th[0].vc.assign (1, 1);
  Frame f; f.f = prep (E); f.regs.resize (f.f->nslots); s->th[0].st.push_back (f);
  // constructors run first: push their frames above main in reverse order
  if (auto * C = M->getGlobalVariable ("llvm.global_ctors")) if (auto * A = dyn_cast<ConstantArray> (C->getInitializer ()))
    for (unsigned i = A->getNumOperands (); i-- > 0; )
      if (auto * F = dyn_cast<Function> (cast<ConstantStruct> (A->getOperand (i))->getOperand (1)->stripPointerCasts ()))
      { Frame g; g.f = prep (F); g.regs.resize (g.f->nslots); s->th[0].st.push_back (g); }
  work.push_back (s);
  while (!work.empty ())
  {
    State * x = work.back (); work.pop_back ();
    runState (*x);
    delete x;
    if (errs.size () >= maxerr) { if (!work.empty ()) incomplete.insert ("stopped after the first violations"); break; }
    if (now () > timeout) { if (!work.empty ()) incomplete.insert ("time limit"); break; }
    if (maxpaths && paths >= maxpaths) { if (!work.empty ()) incomplete.insert ("path limit"); break; }
  }
}

void Engine::runState (State & s)
{
  try
  {
    for (;;)
    {
      step (s);
      if (++s.steps > maxsteps) { record (s, "nontermination", "step limit exceeded on one path", nullptr); throw PathEnd (); }
      if ((s.steps & 0xfff) == 0 && now () > timeout) { incomplete.insert ("time limit"); throw PathEnd (); }
    }
  }
  catch (PathEnd &) { }
}

void Engine::jump (State & s, unsigned target)
{
  Frame & f = s.th[s.cur].st.back ();
  f.prev = f.bb; f.bb = target; f.pc = 0;
  if (f.f->repo) { if (f.f->hit.empty ()) f.f->hit.resize (f.f->bbs.size ()); f.f->hit[target] = 1; }
  // evaluate phis in parallel
  auto & blk = f.f->blocks[target];
  BasicBlock * pb = f.f->bbs[f.prev];
  std::vector<Val> vals; unsigned n = 0;
  while (n < blk.size () && isa<PHINode> (blk[n].I))
  {
    auto * phi = cast<PHINode> (blk[n].I);
    int i = phi->getBasicBlockIndex (pb);
    vals.push_back (reg (s, blk[n], i)); n++;
  }
  for (unsigned i = 0; i < n; i++) f.regs[blk[i].dest] = vals[i];
  f.pc = n;
}

void Engine::ret (State & s, const Val & v, bool has)
{
  Thread & t = s.th[s.cur];
  Frame & f = t.st.back ();
  for (uint64_t a : f.allocas) s.mem.erase (a);
  const KInst * call = f.call;
  t.st.pop_back ();
  if (t.st.empty ())
  {
    if (s.cur == 0) { endPath (s, true); throw PathEnd (); }
    t.status = 2;
    hbRelease (s, 0x10 + s.cur);
    // wake joiners
    for (auto & o : s.th) if (o.status == 1 && o.wait == 0x10 + s.cur) o.status = 0;
    schedule (s, false);
    return;
  }
  Frame & c = t.st.back ();
  if (call)
  {
    if (has && call->dest >= 0) c.regs[call->dest] = v;
    c.pc++;
  }
}

void Engine::schedule (State & s, bool preemptible)
{
  // choose the next thread to run; current thread's pc has already been advanced
  std::vector<unsigned> opt;
  bool curok = s.th[s.cur].status == 0;
  if (preemptible && curok && s.preempt <= 0) return;
  for (unsigned i = 0; i < s.th.size (); i++) if (s.th[i].status == 0) opt.push_back (i);
  if (opt.empty ())
  {
    // a timed waiter times out when nothing else can run
    std::vector<unsigned> tw; for (unsigned i = 0; i < s.th.size (); i++) if (s.th[i].status == 1 && s.th[i].timed) tw.push_back (i);
    if (!tw.empty ())
    {
      auto fire = [&] (State & x, unsigned t) {
        if (tw.size () > 1) x.inputs.push_back ({ "timeout", 8, VC (t) });
        Thread & h = x.th[t]; h.status = 0; h.timed = false; if (h.timedreg >= 0) h.st.back ().regs[h.timedreg] = VC (1); x.cur = t;
      };
      for (unsigned i = tw.size (); i-- > 1; ) { State * n = clone (s); fire (*n, tw[i]); work.push_back (n); }
      fire (s, tw[0]);
      return;
    }
    if (deadlock_ok) { endPath (s, true); throw PathEnd (); }
    fail (s, "deadlock", "every thread is blocked");
  }
  schedpts++;
  // order: current thread first so that the default continuation is tried first
  auto pick = [&] (State & x, unsigned t) {
    if (opt.size () > 1) x.inputs.push_back ({ "sched", 8, VC (t) });
    if (curok && preemptible && t != x.cur) x.preempt--;
    x.cur = t;
  };
  unsigned first = opt[0];
  if (curok) first = s.cur;
  for (unsigned i = opt.size (); i-- > 0; ) if (opt[i] != first) { State * n = clone (s); pick (*n, opt[i]); work.push_back (n); }
  pick (s, first);
}

Val Engine::input (State & s, const std::string & n, unsigned w)
{
  const Expr * e = P.sym (n, w);
  s.inputs.push_back ({ n, w, VE (e) });
  return VE (e);
}
