#include "exec.h"
#include <cstdio>
#include <llvm/IR/InlineAsm.h>
using namespace llvm;

static const Expr * fcmp (CmpInst::Predicate p, const Expr * a, const Expr * b)
{
  const Expr * un = mkbin (O_OR, mkun (O_FISNAN, a, 1), mkun (O_FISNAN, b, 1));
  switch (p)
  {
    case CmpInst::FCMP_OEQ: return mkcmp (O_FEQ, a, b);
    case CmpInst::FCMP_UNE: return mknot (mkcmp (O_FEQ, a, b));
    case CmpInst::FCMP_ONE: return mkbin (O_AND, mknot (un), mknot (mkcmp (O_FEQ, a, b)));
    case CmpInst::FCMP_UEQ: return mkbin (O_OR, un, mkcmp (O_FEQ, a, b));
    case CmpInst::FCMP_OLT: return mkcmp (O_FLT, a, b);
    case CmpInst::FCMP_OLE: return mkcmp (O_FLE, a, b);
    case CmpInst::FCMP_OGT: return mkcmp (O_FLT, b, a);
    case CmpInst::FCMP_OGE: return mkcmp (O_FLE, b, a);
    case CmpInst::FCMP_ULT: return mknot (mkcmp (O_FLE, b, a));
    case CmpInst::FCMP_ULE: return mknot (mkcmp (O_FLT, b, a));
    case CmpInst::FCMP_UGT: return mknot (mkcmp (O_FLE, a, b));
    case CmpInst::FCMP_UGE: return mknot (mkcmp (O_FLT, a, b));
    case CmpInst::FCMP_ORD: return mknot (un);
    case CmpInst::FCMP_UNO: return un;
    case CmpInst::FCMP_TRUE: return KE (1, 1);
    default: return KE (0, 1);
  }
}

static const Expr * icmp (CmpInst::Predicate p, const Expr * a, const Expr * b)
{
  switch (p)
  {
    case CmpInst::ICMP_EQ: return mkcmp (O_EQ, a, b);
    case CmpInst::ICMP_NE: return mknot (mkcmp (O_EQ, a, b));
    case CmpInst::ICMP_ULT: return mkcmp (O_ULT, a, b);
    case CmpInst::ICMP_ULE: return mkcmp (O_ULE, a, b);
    case CmpInst::ICMP_UGT: return mkcmp (O_ULT, b, a);
    case CmpInst::ICMP_UGE: return mkcmp (O_ULE, b, a);
    case CmpInst::ICMP_SLT: return mkcmp (O_SLT, a, b);
    case CmpInst::ICMP_SLE: return mkcmp (O_SLE, a, b);
    case CmpInst::ICMP_SGT: return mkcmp (O_SLT, b, a);
    case CmpInst::ICMP_SGE: return mkcmp (O_SLE, b, a);
    default: return nullptr;
  }
}

static Val loadT (Engine & E, State & s, Type * t, const Val & p, int atomic)
{
  unsigned w = E.width (t);
  if (w)
  {
    unsigned n = (w + 7) / 8;
    Val v = E.load (s, p, n, atomic);
    if (w < n * 8) { if (v.conc ()) v.c &= maskw (w); else v = VE (mkext (v.e, 0, w)); }
    return v;
  }
  auto * out = new std::vector<Val> ();
  if (auto * st = dyn_cast<StructType> (t))
  {
    const StructLayout * sl = E.DL->getStructLayout (st);
    for (unsigned i = 0; i < st->getNumElements (); i++)
    {
      Val q = p; q.c += sl->getElementOffset (i);
      if (!p.conc ()) q = VE (mkbin (O_ADD, p.e, KE (sl->getElementOffset (i), 64)));
      out->push_back (loadT (E, s, st->getElementType (i), q, atomic));
    }
    Val r; r.agg = out; return r;
  }
  fprintf (stderr, "symx: unsupported load type\n"); exit (3);
}
static void storeT (Engine & E, State & s, Type * t, const Val & p, const Val & v, int atomic)
{
  unsigned w = E.width (t);
  if (w) { E.store (s, p, v, (w + 7) / 8, atomic); return; }
  if (auto * st = dyn_cast<StructType> (t))
  {
    const StructLayout * sl = E.DL->getStructLayout (st);
    for (unsigned i = 0; i < st->getNumElements (); i++)
    {
      Val q = p; q.c += sl->getElementOffset (i);
      if (!p.conc ()) q = VE (mkbin (O_ADD, p.e, KE (sl->getElementOffset (i), 64)));
      storeT (E, s, st->getElementType (i), q, v.agg ? (*v.agg)[i] : VC (0), atomic);
    }
    return;
  }
  fprintf (stderr, "symx: unsupported store type\n"); exit (3);
}

static Val bin (Op op, const Val & a, const Val & b, unsigned w)
{
  if (a.conc () && b.conc ()) return VC (fold (op, w, w, 0, a.c & maskw (w), b.c & maskw (w), 0));
  return VE (mkbin (op, EX (a, w), EX (b, w)));
}

void Engine::step (State & s)
{
  Thread & t = s.th[s.cur];
  Frame & f = t.st.back ();
  const KInst & ki = f.f->blocks[f.bb][f.pc];
  Instruction * I = ki.I;
  instrs++; f.f->executed++;
  unsigned w = ki.w;
  switch (I->getOpcode ())
  {
    case Instruction::Ret:
      if (I->getNumOperands ()) { Val v = reg (s, ki, 0); ret (s, v, true); } else ret (s, Val (), false);
      return;
    case Instruction::Br:
    {
      auto * br = cast<BranchInst> (I);
      if (br->isUnconditional ()) { jump (s, f.f->bidx[br->getSuccessor (0)]); return; }
      Val c = reg (s, ki, 0); bool v = c.c & 1;
      if (!c.conc ()) mustdecide (s, c.e, v, true);
      jump (s, f.f->bidx[br->getSuccessor (v ? 0 : 1)]);
      return;
    }
    case Instruction::Switch:
    {
      auto * sw = cast<SwitchInst> (I);
      Val c = reg (s, ki, 0); unsigned cw = width (sw->getCondition ()->getType ());
      if (c.conc ())
      {
        BasicBlock * d = sw->getDefaultDest ();
        for (auto & cs : sw->cases ()) if (cs.getCaseValue ()->getZExtValue () == (c.c & maskw (cw))) { d = cs.getCaseSuccessor (); break; }
        jump (s, f.f->bidx[d]); return;
      }
      // group case values by successor
      std::vector<std::pair<BasicBlock*, const Expr*>> g;
      for (auto & cs : sw->cases ())
      {
        const Expr * eq = mkcmp (O_EQ, c.e, KE (cs.getCaseValue ()->getZExtValue (), cw));
        if (cs.getCaseSuccessor () == sw->getDefaultDest ()) continue;
        bool hit = false;
        for (auto & x : g) if (x.first == cs.getCaseSuccessor ()) { x.second = mkbin (O_OR, x.second, eq); hit = true; }
        if (!hit) g.push_back ({ cs.getCaseSuccessor (), eq });
      }
      for (auto & x : g)
      {
        bool v; mustdecide (s, x.second, v, true);
        if (v) { jump (s, f.f->bidx[x.first]); return; }
      }
      jump (s, f.f->bidx[sw->getDefaultDest ()]);
      return;
    }
    case Instruction::Unreachable:
      fail (s, "abort", "unreachable code reached");
    case Instruction::Alloca:
    {
      auto * a = cast<AllocaInst> (I);
      Val n = reg (s, ki, 0);
      uint64_t cnt = concretize (s, n, 64, "alloca size");
      ObjP o = alloc (s, DL->getTypeAllocSize (a->getAllocatedType ()) * cnt, K_STACK, false, a->getAlign ().value ());
      f.allocas.push_back (o->base);
      setreg (s, ki, VC (o->base));
      break;
    }
    case Instruction::Load:
    {
      auto * l = cast<LoadInst> (I);
      Val p = reg (s, ki, 0);
      if (l->isAtomic () && p.conc ()) hbAcquire (s, p.c);
      Val v = loadT (*this, s, l->getType (), p, l->isAtomic () ? 1 : l->isVolatile () ? 2 : 0);
      setreg (s, ki, v);
      break;
    }
    case Instruction::Store:
    {
      auto * l = cast<StoreInst> (I);
      Val p = reg (s, ki, 1);
      storeT (*this, s, l->getValueOperand ()->getType (), p, reg (s, ki, 0), l->isAtomic () ? 1 : l->isVolatile () ? 2 : 0);
      if (l->isAtomic () && p.conc ()) hbRelease (s, p.c);
      break;
    }
    case Instruction::AtomicRMW:
    {
      auto * r = cast<AtomicRMWInst> (I);
      Val p = reg (s, ki, 0), x = reg (s, ki, 1);
      if (p.conc ()) hbAcquire (s, p.c);
      Val old = load (s, p, (w + 7) / 8, 1); Val nv;
      switch (r->getOperation ())
      {
        case AtomicRMWInst::Xchg: nv = x; break;
        case AtomicRMWInst::Add: nv = bin (O_ADD, old, x, w); break;
        case AtomicRMWInst::Sub: nv = bin (O_SUB, old, x, w); break;
        case AtomicRMWInst::And: nv = bin (O_AND, old, x, w); break;
        case AtomicRMWInst::Or: nv = bin (O_OR, old, x, w); break;
        case AtomicRMWInst::Xor: nv = bin (O_XOR, old, x, w); break;
        default: fprintf (stderr, "symx: atomicrmw\n"); exit (3);
      }
      store (s, p, nv, (w + 7) / 8, 1);
      if (p.conc ()) hbRelease (s, p.c);
      setreg (s, ki, old);
      break;
    }
    case Instruction::AtomicCmpXchg:
    {
      auto * c = cast<AtomicCmpXchgInst> (I);
      unsigned cw = width (c->getNewValOperand ()->getType ());
      Val p = reg (s, ki, 0), e = reg (s, ki, 1), n = reg (s, ki, 2);
      Val old = load (s, p, cw / 8, 1);
      bool eq;
      if (old.conc () && e.conc ()) eq = old.c == e.c; else mustdecide (s, mkcmp (O_EQ, EX (old, cw), EX (e, cw)), eq, true);
      if (p.conc ()) hbAcquire (s, p.c);
      if (eq) { store (s, p, n, cw / 8, 1); if (p.conc ()) hbRelease (s, p.c); }
      auto * v = new std::vector<Val> { old, VC (eq) }; Val r; r.agg = v;
      setreg (s, ki, r);
      break;
    }
    case Instruction::Fence: break;
    case Instruction::GetElementPtr:
    {
      auto * g = cast<GetElementPtrInst> (I);
      Val p = reg (s, ki, 0); unsigned k = 1;
      for (auto gi = gep_type_begin (g); gi != gep_type_end (g); ++gi, ++k)
      {
        Val ix = reg (s, ki, k);
        if (StructType * st = gi.getStructTypeOrNull ())
        {
          uint64_t o = DL->getStructLayout (st)->getElementOffset (ix.c);
          p = bin (O_ADD, p, VC (o), 64);
        }
        else
        {
          uint64_t es = DL->getTypeAllocSize (gi.getIndexedType ());
          unsigned iw = width (gi.getOperand ()->getType ());
          Val off;
          if (ix.conc ()) off = VC ((uint64_t) sext64 (ix.c, iw) * es);
          else off = VE (mkbin (O_MUL, mksext (ix.e, 64), KE (es, 64)));
          p = bin (O_ADD, p, off, 64);
        }
      }
      setreg (s, ki, p);
      break;
    }
    case Instruction::ICmp:
    {
      auto * c = cast<ICmpInst> (I); unsigned cw = width (c->getOperand (0)->getType ());
      Val a = reg (s, ki, 0), b = reg (s, ki, 1);
      setreg (s, ki, VE (icmp (c->getPredicate (), EX (a, cw), EX (b, cw))));
      break;
    }
    case Instruction::FCmp:
    {
      auto * c = cast<FCmpInst> (I); unsigned cw = width (c->getOperand (0)->getType ());
      setreg (s, ki, VE (fcmp (c->getPredicate (), EX (reg (s, ki, 0), cw), EX (reg (s, ki, 1), cw))));
      break;
    }
    case Instruction::Select:
    {
      Val c = reg (s, ki, 0), a = reg (s, ki, 1), b = reg (s, ki, 2);
      if (c.conc ()) setreg (s, ki, (c.c & 1) ? a : b);
      else if (!w) { bool v; mustdecide (s, c.e, v, true); setreg (s, ki, v ? a : b); }
      else setreg (s, ki, VE (mkite (c.e, EX (a, w), EX (b, w))));
      break;
    }
#define BIN(I_, O_) case Instruction::I_: setreg (s, ki, bin (O_, reg (s, ki, 0), reg (s, ki, 1), w)); break;
    BIN (Add, O_ADD) BIN (Sub, O_SUB) BIN (Mul, O_MUL) BIN (And, O_AND) BIN (Or, O_OR) BIN (Xor, O_XOR)
    BIN (Shl, O_SHL) BIN (LShr, O_LSHR) BIN (AShr, O_ASHR)
    BIN (FAdd, O_FADD) BIN (FSub, O_FSUB) BIN (FMul, O_FMUL) BIN (FDiv, O_FDIV) BIN (FRem, O_FREM)
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    {
      Val b = reg (s, ki, 1); bool z = b.c == 0;
      if (!b.conc ()) mustdecide (s, mkcmp (O_EQ, b.e, KE (0, w)), z, true);
      if (z) fail (s, "arith", "division by zero");
      Op op = I->getOpcode () == Instruction::UDiv ? O_UDIV : I->getOpcode () == Instruction::SDiv ? O_SDIV : I->getOpcode () == Instruction::URem ? O_UREM : O_SREM;
      setreg (s, ki, bin (op, reg (s, ki, 0), b, w));
      break;
    }
    case Instruction::FNeg: setreg (s, ki, bin (O_XOR, reg (s, ki, 0), VC (1ULL << (w - 1)), w)); break;
    case Instruction::Trunc: { Val a = reg (s, ki, 0); setreg (s, ki, a.conc () ? VC (a.c & maskw (w)) : VE (mkext (a.e, 0, w))); break; }
    case Instruction::ZExt: { Val a = reg (s, ki, 0); unsigned aw = width (I->getOperand (0)->getType ()); setreg (s, ki, a.conc () ? VC (a.c & maskw (aw)) : VE (mkzext (a.e, w))); break; }
    case Instruction::SExt: { Val a = reg (s, ki, 0); unsigned aw = width (I->getOperand (0)->getType ()); setreg (s, ki, a.conc () ? VC ((uint64_t) sext64 (a.c, aw) & maskw (w)) : VE (mksext (a.e, w))); break; }
    case Instruction::PtrToInt: case Instruction::IntToPtr:
    {
      Val a = reg (s, ki, 0); unsigned aw = width (I->getOperand (0)->getType ());
      if (a.conc ()) setreg (s, ki, VC (a.c & maskw (w) & maskw (aw))); else setreg (s, ki, w < aw ? VE (mkext (a.e, 0, w)) : VE (mkzext (a.e, w)));
      break;
    }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: setreg (s, ki, reg (s, ki, 0)); break;
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc:
    {
      Op op; switch (I->getOpcode ()) { case Instruction::FPToSI: op = O_FPTOSI; break; case Instruction::FPToUI: op = O_FPTOUI; break; case Instruction::SIToFP: op = O_SITOFP; break; case Instruction::UIToFP: op = O_UITOFP; break; case Instruction::FPExt: op = O_FPEXT; break; default: op = O_FPTRUNC; }
      unsigned aw = width (I->getOperand (0)->getType ());
      setreg (s, ki, VE (mkun (op, EX (reg (s, ki, 0), aw), w)));
      break;
    }
    case Instruction::ExtractValue:
    {
      auto * ev = cast<ExtractValueInst> (I); Val a = reg (s, ki, 0);
      for (unsigned i : ev->indices ()) a = a.agg ? (*a.agg)[i] : VC (0);
      setreg (s, ki, a);
      break;
    }
    case Instruction::InsertValue:
    {
      auto * iv = cast<InsertValueInst> (I); Val a = reg (s, ki, 0), x = reg (s, ki, 1);
      if (iv->getNumIndices () != 1) { fprintf (stderr, "symx: nested insertvalue\n"); exit (3); }
      auto * n = a.agg ? new std::vector<Val> (*a.agg) : new std::vector<Val> (I->getType ()->getStructNumElements ());
      (*n)[iv->getIndices ()[0]] = x; Val r; r.agg = n; setreg (s, ki, r);
      break;
    }
    case Instruction::Call:
    {
      auto * cb = cast<CallBase> (I);
      if (cb->isInlineAsm ()) { if (!cast<InlineAsm> (cb->getCalledOperand ())->getAsmString ().empty ()) { fprintf (stderr, "symx: inline asm\n"); exit (3); } break; }
      if (isa<DbgInfoIntrinsic> (I)) break;
      Function * F = dyn_cast<Function> (cb->getCalledOperand ()->stripPointerCasts ());
      if (!F)
      {
        Val fp = reg (s, ki, ki.ops.size () - 1);
        uint64_t a = concretize (s, fp, 64, "function pointer");
        auto it = faddr.find (a);
        if (it == faddr.end ()) fail (s, "memory", a < 4096 ? "call through null function pointer" : "call through invalid function pointer");
        F = it->second;
      }
      std::vector<Val> args; std::vector<unsigned> ws;
      for (unsigned i = 0; i < cb->arg_size (); i++)
      {
        if (cb->getArgOperand (i)->getType ()->isMetadataTy ()) { args.push_back (Val ()); ws.push_back (0); continue; }
        args.push_back (reg (s, ki, i)); ws.push_back (width (cb->getArgOperand (i)->getType ()));
        if (cb->isByValArgument (i))
        {
          uint64_t n = DL->getTypeAllocSize (cb->getParamByValType (i));
          ObjP o = alloc (s, n, K_STACK, false);
          memcopy (s, VC (o->base), args.back (), n, "byval argument");
          args.back () = VC (o->base);
        }
      }
      call (s, ki, F, args, ws);
      return;
    }
    default:
      fprintf (stderr, "symx: unsupported instruction "); I->print (llvm::errs ()); fprintf (stderr, "\n"); exit (3);
  }
  s.th[s.cur].st.back ().pc++;
}

void Engine::call (State & s, const KInst & ki, Function * F, std::vector<Val> & args, std::vector<unsigned> & ws)
{
  if (F->isIntrinsic ()) { if (intrinsic (s, ki, F, args)) return; fprintf (stderr, "symx: unsupported intrinsic %s\n", F->getName ().str ().c_str ()); exit (3); }
  if (F->isDeclaration ())
  {
    if (Function * R = M->getFunction (("sx_" + F->getName ()).str ()); R && !R->isDeclaration ()) F = R;
    else if (builtin (s, ki, F, args)) return;
    else fail (s, "unsupported", "call of an unmodelled function " + F->getName ().str ());
  }
  if (s.th[s.cur].st.size () > 400) fail (s, "nontermination", "call depth limit exceeded");
  KFunc * k = prep (F);
  Frame g; g.f = k; g.regs.resize (k->nslots); g.call = &ki;
  for (unsigned i = 0; i < args.size (); i++)
  {
    if (i < k->argslots.size ()) g.regs[k->argslots[i]] = args[i];
    else g.va.push_back ({ args[i], ws[i] });
  }
  for (unsigned i = 0; i < args.size (); i++) if (auto * cb = cast<CallBase> (ki.I); cb->isByValArgument (i)) g.allocas.push_back (args[i].c);
  s.th[s.cur].st.push_back (std::move (g));
}

bool Engine::intrinsic (State & s, const KInst & ki, Function * F, std::vector<Val> & a)
{
  auto next = [&] { s.th[s.cur].st.back ().pc++; return true; };
  unsigned w = ki.w;
  switch (F->getIntrinsicID ())
  {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::prefetch:
      return next ();
    case Intrinsic::stacksave: setreg (s, ki, VC (0)); return next ();
    case Intrinsic::stackrestore: return next ();
    case Intrinsic::expect: setreg (s, ki, a[0]); return next ();
    case Intrinsic::memcpy: case Intrinsic::memmove:
    {
      uint64_t n = concretize (s, a[2], 64, "memcpy length");
      memcopy (s, a[0], a[1], n, "memcpy");
      return next ();
    }
    case Intrinsic::memset:
    {
      uint64_t n = concretize (s, a[2], 64, "memset length");
      if (n)
      {
        Val off; Val p = VC (concretize (s, a[0], 64, "memset pointer"));
        ObjP o = resolve (s, p, n, true, off, "memset"); access (s, o, off.c, n, true, false);
        o = find (s, o->base); Obj & x = wr (s, o);
        if (a[1].conc ()) { memset (x.b.data () + off.c, (int) a[1].c, n); if (!x.s.empty ()) std::fill (x.s.begin () + off.c, x.s.begin () + off.c + n, nullptr); }
        else for (uint64_t i = 0; i < n; i++) setByte (x, off.c + i, a[1].e->w == 8 ? a[1].e : mkext (a[1].e, 0, 8));
      }
      return next ();
    }
    case Intrinsic::threadlocal_address:
    {
      auto * G = cast<GlobalVariable> (cast<CallBase> (ki.I)->getArgOperand (0));
      auto & tls = s.th[s.cur].tls; auto it = tls.find (G);
      if (it == tls.end ())
      {
        ObjP o = alloc (s, DL->getTypeAllocSize (G->getValueType ()), K_GLOBAL, true);
        if (G->hasInitializer ()) initConst (*o, 0, G->getInitializer ());
        it = tls.emplace (G, o->base).first;
      }
      setreg (s, ki, VC (it->second)); return next ();
    }
    case Intrinsic::trap: case Intrinsic::debugtrap: fail (s, "abort", "trap executed");
    case Intrinsic::ubsantrap:
    {
      static const char * names[] = { "signed overflow in addition", "builtin unreachable", "cfi", "signed overflow in division", "ubsan 4", "float cast out of range", "function type mismatch", "implicit conversion", "invalid builtin argument", "invalid objc cast", "invalid value load", "missing return", "signed overflow in multiplication", "signed overflow in negation", "nullability", "nullability return", "null argument", "null return", "array index out of bounds", "pointer overflow", "shift out of range", "signed overflow in subtraction", "type mismatch", "alignment", "vla bound" };
      unsigned k = a[0].c; fail (s, "undefined behaviour", k < 25 ? names[k] : "ubsan");
    }
    case Intrinsic::bswap:
    {
      const Expr * e = EX (a[0], w); const Expr * r = nullptr;
      for (unsigned i = 0; i < w; i += 8) { const Expr * b = mkext (e, i, 8); r = r ? mkcat (r, b) : b; }
      setreg (s, ki, VE (r)); return next ();
    }
    case Intrinsic::abs: { const Expr * e = EX (a[0], w); setreg (s, ki, VE (mkite (mkcmp (O_SLT, e, KE (0, w)), mkbin (O_SUB, KE (0, w), e), e))); return next (); }
    case Intrinsic::umin: { const Expr * x = EX (a[0], w), * y = EX (a[1], w); setreg (s, ki, VE (mkite (mkcmp (O_ULT, x, y), x, y))); return next (); }
    case Intrinsic::umax: { const Expr * x = EX (a[0], w), * y = EX (a[1], w); setreg (s, ki, VE (mkite (mkcmp (O_ULT, x, y), y, x))); return next (); }
    case Intrinsic::smin: { const Expr * x = EX (a[0], w), * y = EX (a[1], w); setreg (s, ki, VE (mkite (mkcmp (O_SLT, x, y), x, y))); return next (); }
    case Intrinsic::smax: { const Expr * x = EX (a[0], w), * y = EX (a[1], w); setreg (s, ki, VE (mkite (mkcmp (O_SLT, x, y), y, x))); return next (); }
    case Intrinsic::fabs: setreg (s, ki, VE (mkbin (O_AND, EX (a[0], w), KE (maskw (w - 1), w)))); return next ();
    case Intrinsic::sqrt: setreg (s, ki, VE (mkun (O_FSQRT, EX (a[0], w), w))); return next ();
    case Intrinsic::floor: setreg (s, ki, VE (mkun (O_FROUND, EX (a[0], w), w, 0))); return next ();
    case Intrinsic::ceil: setreg (s, ki, VE (mkun (O_FROUND, EX (a[0], w), w, 1))); return next ();
    case Intrinsic::trunc: setreg (s, ki, VE (mkun (O_FROUND, EX (a[0], w), w, 2))); return next ();
    case Intrinsic::rint: case Intrinsic::nearbyint: setreg (s, ki, VE (mkun (O_FROUND, EX (a[0], w), w, 3))); return next ();
    case Intrinsic::round: setreg (s, ki, VE (mkun (O_FROUND, EX (a[0], w), w, 4))); return next ();
    case Intrinsic::fmuladd: setreg (s, ki, VE (mkbin (O_FADD, mkbin (O_FMUL, EX (a[0], w), EX (a[1], w)), EX (a[2], w)))); return next ();
    case Intrinsic::is_fpclass:
    {
      unsigned aw = width (cast<CallBase> (ki.I)->getArgOperand (0)->getType ()); unsigned m = a[1].c; const Expr * e = EX (a[0], aw);
      unsigned mb = aw == 64 ? 52 : 23, eb = aw == 64 ? 11 : 8;
      const Expr * man = mkext (e, 0, mb), * ex = mkext (e, mb, eb), * sg = mkext (e, aw - 1, 1);
      const Expr * e1 = mkcmp (O_EQ, ex, KE (maskw (eb), eb)), * e0 = mkcmp (O_EQ, ex, KE (0, eb)), * m0 = mkcmp (O_EQ, man, KE (0, mb));
      const Expr * r = KE (0, 1); auto add = [&] (const Expr * c) { r = mkbin (O_OR, r, c); };
      const Expr * nan = mkbin (O_AND, e1, mknot (m0)), * inf = mkbin (O_AND, e1, m0), * zero = mkbin (O_AND, e0, m0), * sub = mkbin (O_AND, e0, mknot (m0)), * nor = mkbin (O_AND, mknot (e0), mknot (e1));
      if (m & 3) add (nan);
      if (m & 4) add (mkbin (O_AND, inf, sg)); if (m & 512) add (mkbin (O_AND, inf, mknot (sg)));
      if (m & 8) add (mkbin (O_AND, nor, sg)); if (m & 256) add (mkbin (O_AND, nor, mknot (sg)));
      if (m & 16) add (mkbin (O_AND, sub, sg)); if (m & 128) add (mkbin (O_AND, sub, mknot (sg)));
      if (m & 32) add (mkbin (O_AND, zero, sg)); if (m & 64) add (mkbin (O_AND, zero, mknot (sg)));
      setreg (s, ki, VE (r)); return next ();
    }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow:
    {
      unsigned k = width (cast<CallBase> (ki.I)->getArgOperand (0)->getType ());
      const Expr * x = EX (a[0], k), * y = EX (a[1], k), * r, * o;
      const Expr * z = KE (0, k);
      switch (F->getIntrinsicID ())
      {
        case Intrinsic::uadd_with_overflow: r = mkbin (O_ADD, x, y); o = mkcmp (O_ULT, r, x); break;
        case Intrinsic::usub_with_overflow: r = mkbin (O_SUB, x, y); o = mkcmp (O_ULT, x, y); break;
        case Intrinsic::sadd_with_overflow: { r = mkbin (O_ADD, x, y); const Expr * sx = mkcmp (O_SLT, x, z), * sy = mkcmp (O_SLT, y, z), * sr = mkcmp (O_SLT, r, z); o = mkbin (O_AND, mknot (mkbin (O_XOR, sx, sy)), mkbin (O_XOR, sx, sr)); break; }
        case Intrinsic::ssub_with_overflow: { r = mkbin (O_SUB, x, y); const Expr * sx = mkcmp (O_SLT, x, z), * sy = mkcmp (O_SLT, y, z), * sr = mkcmp (O_SLT, r, z); o = mkbin (O_AND, mkbin (O_XOR, sx, sy), mkbin (O_XOR, sx, sr)); break; }
        case Intrinsic::umul_with_overflow:
          r = mkbin (O_MUL, x, y);
          if (k <= 32) { const Expr * wd = mkbin (O_MUL, mkzext (x, 64), mkzext (y, 64)); o = mkcmp (O_ULT, KE (maskw (k), 64), wd); }
          else o = mkbin (O_AND, mknot (mkcmp (O_EQ, y, z)), mknot (mkcmp (O_EQ, mkbin (O_UDIV, r, mkite (mkcmp (O_EQ, y, z), KE (1, k), y)), x)));
          break;
        default:
          r = mkbin (O_MUL, x, y);
          if (k <= 32) { const Expr * wd = mkbin (O_MUL, mksext (x, 64), mksext (y, 64)); o = mknot (mkcmp (O_EQ, wd, mksext (r, 64))); }
          else { const Expr * q = mkbin (O_SDIV, r, mkite (mkcmp (O_EQ, y, z), KE (1, k), y)); o = mkbin (O_AND, mknot (mkcmp (O_EQ, y, z)), mkbin (O_OR, mknot (mkcmp (O_EQ, q, x)), mkbin (O_AND, mkcmp (O_EQ, y, KE (~0ULL, k)), mkcmp (O_EQ, x, KE (1ULL << (k - 1), k))))); }
          break;
      }
      auto * v = new std::vector<Val> { VE (r), VE (o) }; Val rv; rv.agg = v; setreg (s, ki, rv); return next ();
    }
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz:
    {
      const Expr * e = EX (a[0], w); const Expr * r;
      if (F->getIntrinsicID () == Intrinsic::ctpop) { r = KE (0, w); for (unsigned i = 0; i < w; i++) r = mkbin (O_ADD, r, mkzext (mkext (e, i, 1), w)); }
      else if (F->getIntrinsicID () == Intrinsic::ctlz) { r = KE (w, w); for (unsigned i = 0; i < w; i++) r = mkite (mkext (e, i, 1), KE (w - 1 - i, w), r); }
      else { r = KE (w, w); for (unsigned i = w; i-- > 0; ) r = mkite (mkext (e, i, 1), KE (i, w), r); }
      setreg (s, ki, VE (r)); return next ();
    }
    case Intrinsic::fshl: case Intrinsic::fshr:
    {
      uint64_t k = concretize (s, a[2], w, "funnel shift") % w; const Expr * x = EX (a[0], w), * y = EX (a[1], w);
      if (F->getIntrinsicID () == Intrinsic::fshl) setreg (s, ki, VE (k ? mkbin (O_OR, mkbin (O_SHL, x, KE (k, w)), mkbin (O_LSHR, y, KE (w - k, w))) : x));
      else setreg (s, ki, VE (k ? mkbin (O_OR, mkbin (O_SHL, x, KE (w - k, w)), mkbin (O_LSHR, y, KE (k, w))) : y));
      return next ();
    }
    case Intrinsic::objectsize: setreg (s, ki, VC (a[1].c ? 0 : maskw (w))); return next ();
    case Intrinsic::is_constant: setreg (s, ki, VC (0)); return next ();
    case Intrinsic::vastart:
    {
      Frame & f = s.th[s.cur].st.back ();
      ObjP o = alloc (s, std::max<uint64_t> (8, f.va.size () * 8), K_STACK, false);
      f.allocas.push_back (o->base);
      for (size_t i = 0; i < f.va.size (); i++) { Val v = f.va[i].first; if (!v.conc () && f.va[i].second < 64) v = VE (mkzext (v.e, 64)); writeAt (s, wr (s, find (s, o->base)), i * 8, v, 8); }
      store (s, a[0], VC (48), 4, false);
      store (s, bin (O_ADD, a[0], VC (4), 64), VC (176), 4, false);
      store (s, bin (O_ADD, a[0], VC (8), 64), VC (o->base), 8, false);
      store (s, bin (O_ADD, a[0], VC (16), 64), VC (0), 8, false);
      return next ();
    }
    case Intrinsic::vaend: return next ();
    case Intrinsic::vacopy: memcopy (s, a[0], a[1], 24, "va_copy"); return next ();
    default: return false;
  }
}

bool Engine::builtin (State & s, const KInst & ki, Function * F, std::vector<Val> & a)
{
  StringRef n = F->getName ();
  auto next = [&] { s.th[s.cur].st.back ().pc++; return true; };
  auto rv = [&] (const Val & v) { setreg (s, ki, v); };
  if (n == "malloc" || n == "calloc")
  {
    uint64_t sz = concretize (s, a[0], 64, "allocation size");
    if (n == "calloc") sz *= concretize (s, a[1], 64, "allocation size");
    if (sz > (1u << 26)) { rv (VC (0)); incomplete.insert ("allocation above 64 MiB returns NULL"); return next (); }
    rv (VC (alloc (s, sz, K_HEAP, n == "calloc")->base)); return next ();
  }
  if (n == "realloc")
  {
    uint64_t sz = concretize (s, a[1], 64, "allocation size");
    uint64_t p = concretize (s, a[0], 64, "realloc pointer");
    if (sz > (1u << 26)) { rv (VC (0)); incomplete.insert ("allocation above 64 MiB returns NULL"); return next (); }
    ObjP o = p ? find (s, p) : nullptr;
    if (p && (!o || o->kind != K_HEAP || o->base != p)) fail (s, "memory", "realloc of a pointer that was not returned by the allocator");
    if (p && o->freed) fail (s, "memory", "realloc of freed memory");
    ObjP x = alloc (s, sz, K_HEAP, false);
    if (p) { memcopy (s, VC (x->base), VC (p), std::min (sz, o->size), "realloc"); release (s, p); }
    rv (VC (x->base)); return next ();
  }
  if (n == "free") { uint64_t p = concretize (s, a[0], 64, "free pointer"); release (s, p); return next (); }
  if (n == "__assert_fail" || n == "symx_fail")
  {
    std::string m = cstr (s, a[0]);
    bool inrepo = prep (ki.I->getFunction ())->repo;
    fail (s, n == "symx_fail" ? "property" : inrepo ? "assertion" : "property", m);
  }
  if (n == "abort") fail (s, "abort", "abort called");
  if (n == "exit" || n == "_exit") { endPath (s, true); throw PathEnd (); }
  if (n == "atexit") { rv (VC (0)); return next (); }
  if (n == "memcpy" || n == "memmove") { uint64_t k = concretize (s, a[2], 64, "memcpy length"); memcopy (s, a[0], a[1], k, n == "memcpy" ? "memcpy" : "memmove"); rv (a[0]); return next (); }
  if (!n.starts_with ("symx_")) return false;
  if (n == "symx_input") { std::string nm = cstr (s, a[0]); rv (VE (mkzext (EX (input (s, nm, (unsigned) a[1].c), a[1].c), 64))); return next (); }
  if (n == "symx_bytes")
  {
    std::string nm = cstr (s, a[0]); uint64_t k = a[2].c; Val off; ObjP o = resolve (s, a[1], k, true, off, "symx_bytes");
    for (uint64_t i = 0; i < k; i++) { Val v = input (s, nm, 8); setByte (wr (s, find (s, o->base)), off.c + i, v.e); }
    return next ();
  }
  if (n == "symx_choice")
  {
    uint64_t k = a[1].c; std::string nm = cstr (s, a[0]);
    if (k == 0) { pruned++; throw PathEnd (); }
    s.th[s.cur].st.back ().pc++;
    for (uint64_t i = k; i-- > 1; )
    {
      State * c = clone (s); c->inputs.push_back ({ nm, 32, VC (i) });
      c->th[c->cur].st.back ().regs[ki.dest] = VC (i); work.push_back (c);
    }
    s.inputs.push_back ({ nm, 32, VC (0) }); rv (VC (0));
    return true;
  }
  if (n == "symx_assume") { assume (s, mknot (mkcmp (O_EQ, EX (a[0], 32), KE (0, 32)))); return next (); }
  if (n == "symx_check")
  {
    asserts++;
    const Expr * c = mknot (mkcmp (O_EQ, EX (a[0], 32), KE (0, 32)));
    std::string m = cstr (s, a[1]);
    bool v;
    if (isC (c)) { if (!c->c) fail (s, "property", m); return next (); }
    Evaluator ev (*s.model);
    if (!ev.eval (c)) { record (s, "property", m, nullptr); assume (s, c); return next (); }
    ModelP om; Res r = S.check (s.pc, mknot (c), s.model, om, true);
    if (r == R_UNKNOWN) incomplete.insert ("solver returned unknown");
    if (r == R_SAT) record (s, "property", m, om);
    addc (s, c); (void) v;
    return next ();
  }
  if (n == "symx_cover") { covers[cstr (s, a[0])]++; return next (); }
  if (n == "symx_log") { s.log.push_back ({ a[0], 64 }); return next (); }
  if (n == "symx_live")
  {
    uint64_t c = 0; for (auto & m : s.mem) if (m.second->kind == K_HEAP && !m.second->freed) c++;
    rv (VC (c)); return next ();
  }
  if (n == "symx_dump_live")
  {
    for (auto & m : s.mem) if (m.second->kind == K_HEAP && !m.second->freed) fprintf (stderr, "  live %zu bytes from %s\n", (size_t) m.second->size, where (m.second->site).c_str ());
    return next ();
  }
  if (n == "symx_concretize") { rv (VC (concretize (s, a[0], 64, "symx_concretize"))); return next (); }
  if (n == "symx_is_sym") { rv (VC (!a[0].conc ())); return next (); }
  if (n == "symx_obj_size") { ObjP o = find (s, a[0].c); rv (VC (o && !o->freed ? o->base + o->size - a[0].c : 0)); return next (); }
  if (n == "symx_prune") { pruned++; throw PathEnd (); }
  if (n == "symx_end") { endPath (s, true); throw PathEnd (); }
  if (n == "symx_print") { fprintf (stderr, "%s %s%llx\n", cstr (s, a[0]).c_str (), a[1].conc () ? "" : "sym ", (unsigned long long) a[1].c); return next (); }
  // threads
  if (n == "symx_thread_create")
  {
    unsigned tid = s.th.size ();
    if (tid >= 8) { incomplete.insert ("more than 8 threads"); throw PathEnd (); }
    uint64_t fa = concretize (s, a[0], 64, "thread function");
    Function * E = faddr[fa];
    Thread t; Frame f; f.f = prep (E); f.regs.resize (f.f->nslots); if (!f.f->argslots.empty ()) f.regs[f.f->argslots[0]] = a[1];
    t.st.push_back (f);
    auto & me = s.th[s.cur].vc;
    t.vc = me; t.vc.resize (tid + 1, 0); t.vc[tid] = 1; me[s.cur]++;
    rv (VC (tid)); s.th[s.cur].st.back ().pc++;
    s.th.push_back (t);
    return true;
  }
  if (n == "symx_thread_self") { rv (VC (s.cur)); return next (); }
  if (n == "symx_thread_done") { rv (VC (a[0].c < s.th.size () && s.th[a[0].c].status == 2)); return next (); }
  if (n == "symx_thread_exit")
  {
    Thread & t = s.th[s.cur]; t.status = 2; t.st.resize (1);
    hbRelease (s, 0x10 + s.cur);
    for (auto & o : s.th) if (o.status == 1 && o.wait == 0x10 + s.cur) o.status = 0;
    schedule (s, false); return true;
  }
  if (n == "symx_thread_join")   // blocks until thread done
  {
    unsigned t = a[0].c; 
    if (t < s.th.size () && s.th[t].status != 2) { s.th[s.cur].status = 1; s.th[s.cur].wait = 0x10 + t; schedule (s, false); return true; }  // re-executes when woken
    hbAcquire (s, 0x10 + t); return next ();
  }
  if (n == "symx_yield") { s.th[s.cur].st.back ().pc++; schedule (s, true); return true; }
  if (n == "symx_preempt") { s.preempt = (int) a[0].c; return next (); }
  if (n == "symx_block") { s.th[s.cur].st.back ().pc++; s.th[s.cur].status = 1; s.th[s.cur].wait = a[0].c; schedule (s, false); return true; }
  if (n == "symx_block_timed")
  {
    Thread & t = s.th[s.cur]; rv (VC (0)); t.st.back ().pc++; t.status = 1; t.wait = a[0].c; t.timed = true; t.timedreg = ki.dest; schedule (s, false); return true;
  }
  if (n == "symx_wake")
  {
    std::vector<unsigned> ws; for (unsigned i = 0; i < s.th.size (); i++) if (s.th[i].status == 1 && s.th[i].wait == a[0].c) ws.push_back (i);
    if (ki.dest >= 0) rv (VC (ws.size ()));
    s.th[s.cur].st.back ().pc++;
    if (a[1].c == 0) { for (unsigned i : ws) { s.th[i].status = 0; s.th[i].timed = false; } return true; }
    if (ws.size () <= 1) { for (unsigned i : ws) { s.th[i].status = 0; s.th[i].timed = false; } return true; }
    for (unsigned i = ws.size (); i-- > 1; ) { State * c = clone (s); c->inputs.push_back ({ "wake", 8, VC (ws[i]) }); c->th[ws[i]].status = 0; c->th[ws[i]].timed = false; work.push_back (c); }
    s.inputs.push_back ({ "wake", 8, VC (ws[0]) }); s.th[ws[0]].status = 0; s.th[ws[0]].timed = false;
    return true;
  }
  if (n == "symx_hb_acquire") { hbAcquire (s, a[0].c); return next (); }
  if (n == "symx_hb_release") { hbRelease (s, a[0].c); return next (); }
  return false;
}
