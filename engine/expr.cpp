#include "expr.h"
ExprPool P;

const Expr * mknot (const Expr * a)
{
  if (isC (a)) return KE (!a->c, 1);
  if (a->op == O_XOR && isC (a->b) && a->b->c == 1) return a->a;
  return P.mk (O_XOR, 1, 0, a, KE (1, 1));
}

static bool commut (Op o) { return o == O_ADD || o == O_MUL || o == O_AND || o == O_OR || o == O_XOR; }

// number of low bits known to be zero
static unsigned tz (const Expr * e, int depth = 0)
{
  if (isC (e)) return e->c ? std::min<unsigned> (__builtin_ctzll (e->c), e->w) : e->w;
  if (depth > 6) return 0;
  switch (e->op)
  {
    case O_ADD: case O_SUB: case O_OR: case O_XOR: return std::min (tz (e->a, depth+1), tz (e->b, depth+1));
    case O_MUL: return std::min<unsigned> (e->w, tz (e->a, depth+1) + tz (e->b, depth+1));
    case O_AND: return std::max (tz (e->a, depth+1), tz (e->b, depth+1));
    case O_SHL: return isC (e->b) ? std::min<unsigned> (e->w, tz (e->a, depth+1) + e->b->c) : tz (e->a, depth+1);
    case O_ZEXT: case O_SEXT: { unsigned t = tz (e->a, depth+1); return t; }
    case O_ITE: return std::min (tz (e->b, depth+1), tz (e->d, depth+1));
    default: return 0;
  }
}
unsigned expr_tz (const Expr * e) { return tz (e); }

const Expr * mkbin (Op op, const Expr * a, const Expr * b)
{
  unsigned w = a->w;
  if (isC (a) && isC (b)) return KE (fold (op, w, w, 0, a->c, b->c, 0), w);
  if (commut (op) && (isC (a) || (!isC (b) && a->id > b->id))) std::swap (a, b);
  uint64_t m = maskw (w);
  if (isC (b))
  {
    uint64_t c = b->c;
    switch (op)
    {
      case O_ADD: if (!c) return a; if (a->op == O_ADD && isC (a->b)) return mkbin (O_ADD, a->a, KE (a->b->c + c, w)); break;
      case O_SUB: if (!c) return a; return mkbin (O_ADD, a, KE (0 - c, w));
      case O_MUL: if (!c) return b; if (c == 1) return a; if ((c & (c - 1)) == 0) return mkbin (O_SHL, a, KE (__builtin_ctzll (c), w)); break;
      case O_AND: if (!c) return b; if (c == m) return a; if (a->op == O_AND && isC (a->b)) return mkbin (O_AND, a->a, KE (a->b->c & c, w));
        if (a->op == O_ZEXT && (c & maskw (a->a->w)) == maskw (a->a->w)) return a;
        if ((c & (c + 1)) == 0) { unsigned k = 64 - __builtin_clzll (c); return mkzext (mkext (a, 0, k), w); } break;
      case O_OR: if (!c) return a; if (c == m) return b; break;
      case O_XOR: if (!c) return a; if (a->op == O_XOR && isC (a->b)) return mkbin (O_XOR, a->a, KE (a->b->c ^ c, w)); break;
      case O_SHL: if (!c) return a; if (c >= w) return KE (0, w); if (a->op == O_SHL && isC (a->b)) { uint64_t t = a->b->c + c; return t >= w ? KE (0, w) : mkbin (O_SHL, a->a, KE (t, w)); } break;
      case O_LSHR: if (!c) return a; if (c >= w) return KE (0, w); return mkzext (mkext (a, c, w - c), w);
      case O_ASHR: if (!c) return a; if (c < w) return mksext (mkext (a, c, w - c), w); break;
      case O_UDIV: if (c == 1) return a; if (c && (c & (c - 1)) == 0) return mkbin (O_LSHR, a, KE (__builtin_ctzll (c), w)); break;
      case O_SDIV: if (c == 1) return a; break;
      case O_UREM: if (c == 1) return KE (0, w); if (c && (c & (c - 1)) == 0) return mkbin (O_AND, a, KE (c - 1, w)); break;
      default: break;
    }
  }
  if (isC (a))
  {
    if (a->c == 0 && (op == O_SHL || op == O_LSHR || op == O_ASHR || op == O_UREM || op == O_SREM)) return a;
    if (op == O_SUB && b->op == O_ADD && isC (b->b)) return mkbin (O_SUB, KE (a->c - b->b->c, w), b->a);
  }
  if (a == b) switch (op) { case O_SUB: case O_XOR: return KE (0, w); case O_AND: case O_OR: return a; default: break; }
  if (op == O_SUB && a->op == O_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
  if (op == O_SUB && a->op == O_ADD && isC (a->b)) { return mkbin (O_ADD, mkbin (O_SUB, a->a, b), a->b); }
  if (op == O_SUB && b->op == O_ADD && isC (b->b)) { return mkbin (O_ADD, mkbin (O_SUB, a, b->a), KE (0 - b->b->c, w)); }
  if (op == O_ADD && a->op == O_ADD && isC (a->b)) return mkbin (O_ADD, mkbin (O_ADD, a->a, b), a->b);
  if (op == O_ADD && b->op == O_ADD && isC (b->b)) return mkbin (O_ADD, mkbin (O_ADD, a, b->a), b->b);
  if (w == 1)
  {
    // boolean absorption: x & !x, x | !x
    if ((op == O_AND || op == O_OR) && (a == mknot (b))) return KE (op == O_OR, 1);
  }
  if ((op == O_XOR || op == O_AND || op == O_OR) && a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkzext (mkbin (op, a->a, b->a), w);
  if (op == O_OR)
  {
    // (x zext) | (y << k) with disjoint bits -> concat
    auto cat = [&] (const Expr * lo, const Expr * hi) -> const Expr * {
      if (lo->op == O_ZEXT && hi->op == O_SHL && isC (hi->b) && hi->b->c == lo->a->w)
        return mkcat (mkext (hi->a, 0, w - lo->a->w), lo->a);
      return nullptr;
    };
    if (const Expr * r = cat (a, b)) return r;
    if (const Expr * r = cat (b, a)) return r;
  }
  return P.mk (op, w, 0, a, b);
}

const Expr * mkcmp (Op op, const Expr * a, const Expr * b)
{
  if (isC (a) && isC (b)) return KE (fold (op, 1, a->w, 0, a->c, b->c, 0), 1);
  if (op < O_FADD)
  {
    if (a == b) return KE (op == O_EQ || op == O_ULE || op == O_SLE, 1);
    if (op == O_EQ)
    {
      if (isC (a) || (!isC (b) && a->id > b->id)) std::swap (a, b);
      if (isC (b))
      {
        if (a->w == 1) return b->c ? a : mknot (a);
        if (a->op == O_ZEXT) { if (b->c > maskw (a->a->w)) return KE (0, 1); return mkcmp (O_EQ, a->a, KE (b->c, a->a->w)); }
        if (a->op == O_SEXT) { uint64_t t = b->c & maskw (a->a->w); if ((((uint64_t) sext64 (t, a->a->w)) & maskw (a->w)) != b->c) return KE (0, 1); return mkcmp (O_EQ, a->a, KE (t, a->a->w)); }
        if (a->op == O_ADD && isC (a->b)) return mkcmp (O_EQ, a->a, KE (b->c - a->b->c, a->w));
        if (a->op == O_SUB && isC (a->a)) return mkcmp (O_EQ, a->b, KE (a->a->c - b->c, a->w));
        if (a->op == O_XOR && isC (a->b)) return mkcmp (O_EQ, a->a, KE (b->c ^ a->b->c, a->w));
        if (a->op == O_ITE && (isC (a->b) || isC (a->d)))
        {
          if (isC (a->b) && isC (a->d)) { bool x = a->b->c == b->c, y = a->d->c == b->c; if (x && y) return KE (1, 1); if (x) return a->a; if (y) return mknot (a->a); return KE (0, 1); }
          if (isC (a->b) && a->b->c != b->c) return mkbin (O_AND, mknot (a->a), mkcmp (O_EQ, a->d, b));
          if (isC (a->d) && a->d->c != b->c) return mkbin (O_AND, a->a, mkcmp (O_EQ, a->b, b));
        }
        if (a->op == O_CONCAT) return mkbin (O_AND, mkcmp (O_EQ, a->a, KE (b->c >> a->b->w, a->a->w)), mkcmp (O_EQ, a->b, KE (b->c, a->b->w)));
      }
      else
      {
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkcmp (O_EQ, a->a, b->a);
        if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkcmp (O_EQ, a->a, b->a);
      }
    }
    else
    {
      if (op == O_ULT && isC (b)) { if (!b->c) return KE (0, 1); if (b->c == 1) return mkcmp (O_EQ, a, KE (0, a->w)); }
      if (op == O_ULE && isC (b) && b->c == maskw (a->w)) return KE (1, 1);
      if (op == O_ULE && isC (a) && !a->c) return KE (1, 1);
      if (op == O_ULT && isC (a) && !a->c) return mknot (mkcmp (O_EQ, b, KE (0, b->w)));
      auto z = [] (const Expr * e) { return e->op == O_ZEXT; };
      if (z (a) && isC (b))
      {
        unsigned k = a->a->w; uint64_t mx = maskw (k);
        if (op == O_ULT || op == O_ULE) { if (b->c > mx) return KE (1, 1); return mkcmp (op, a->a, KE (b->c, k)); }
        int64_t s = sext64 (b->c, b->w);
        if (s < 0) return KE (0, 1);
        if ((uint64_t) s > mx) return KE (1, 1);
        return mkcmp (op == O_SLT ? O_ULT : O_ULE, a->a, KE (b->c, k));
      }
      if (isC (a) && z (b))
      {
        unsigned k = b->a->w; uint64_t mx = maskw (k);
        if (op == O_ULT || op == O_ULE) { if (a->c > mx) return KE (0, 1); return mkcmp (op, KE (a->c, k), b->a); }
        int64_t s = sext64 (a->c, a->w);
        if (s < 0) return KE (1, 1);
        if ((uint64_t) s > mx) return KE (0, 1);
        return mkcmp (op == O_SLT ? O_ULT : O_ULE, KE (a->c, k), b->a);
      }
      if (z (a) && z (b) && a->a->w == b->a->w) return mkcmp (op == O_SLT ? O_ULT : op == O_SLE ? O_ULE : op, a->a, b->a);
      if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkcmp (op, a->a, b->a);
    }
  }
  return P.mk (op, 1, 0, a, b);
}

const Expr * mkite (const Expr * c, const Expr * a, const Expr * b)
{
  if (isC (c)) return c->c ? a : b;
  if (a == b) return a;
  if (a->w == 1)
  {
    if (isC (a) && isC (b)) return a->c ? c : mknot (c);
    if (isC (a)) return a->c ? mkbin (O_OR, c, b) : mkbin (O_AND, mknot (c), b);
    if (isC (b)) return b->c ? mkbin (O_OR, mknot (c), a) : mkbin (O_AND, c, a);
  }
  return P.mk (O_ITE, a->w, 0, c, a, b);
}

const Expr * mkext (const Expr * a, unsigned lo, unsigned w)
{
  if (lo == 0 && w == a->w) return a;
  if (isC (a)) return KE (a->c >> lo, w);
  switch (a->op)
  {
    case O_EXTRACT: return mkext (a->a, a->c + lo, w);
    case O_CONCAT:
      if (lo >= a->b->w) return mkext (a->a, lo - a->b->w, w);
      if (lo + w <= a->b->w) return mkext (a->b, lo, w);
      return mkcat (mkext (a->a, 0, lo + w - a->b->w), mkext (a->b, lo, a->b->w - lo));
    case O_ZEXT:
      if (lo >= a->a->w) return KE (0, w);
      if (lo + w <= a->a->w) return mkext (a->a, lo, w);
      return mkzext (mkext (a->a, lo, a->a->w - lo), w);
    case O_SEXT:
      if (lo + w <= a->a->w) return mkext (a->a, lo, w);
      if (lo == 0) return mksext (a->a, w);
      break;
    case O_AND: case O_OR: case O_XOR:
      if (isC (a->b)) return mkbin (a->op, mkext (a->a, lo, w), mkext (a->b, lo, w));
      break;
    case O_ADD: case O_SUB: case O_MUL:
      if (lo == 0) return mkbin (a->op, mkext (a->a, 0, w), mkext (a->b, 0, w));
      break;
    case O_SHL:
      if (isC (a->b))
      {
        uint64_t k = a->b->c;
        if (lo >= k) return mkext (a->a, lo - k, w);
        if (lo + w <= k) return KE (0, w);
        return mkcat (mkext (a->a, 0, lo + w - k), KE (0, k - lo));
      }
      break;
    case O_ITE:
      if (isC (a->b) || isC (a->d)) return mkite (a->a, mkext (a->b, lo, w), mkext (a->d, lo, w));
      break;
    default: break;
  }
  return P.mk (O_EXTRACT, w, lo, a);
}

const Expr * mkzext (const Expr * a, unsigned w)
{
  if (w == a->w) return a;
  if (isC (a)) return KE (a->c, w);
  if (a->op == O_ZEXT) return mkzext (a->a, w);
  return P.mk (O_ZEXT, w, 0, a);
}
const Expr * mksext (const Expr * a, unsigned w)
{
  if (w == a->w) return a;
  if (isC (a)) return KE ((uint64_t) sext64 (a->c, a->w), w);
  if (a->op == O_SEXT) return mksext (a->a, w);
  if (a->op == O_ZEXT) return mkzext (a->a, w);
  return P.mk (O_SEXT, w, 0, a);
}
const Expr * mkcat (const Expr * hi, const Expr * lo)
{
  unsigned w = hi->w + lo->w;
  if (isC (hi) && isC (lo)) return KE ((hi->c << lo->w) | lo->c, w);
  if (isC (hi) && hi->c == 0) return mkzext (lo, w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return mkext (hi->a, lo->c, w);
  // reassociate: concat (concat (x, y), z) with y,z adjacent extracts
  if (hi->op == O_CONCAT && hi->b->op == O_EXTRACT && lo->op == O_EXTRACT && hi->b->a == lo->a && hi->b->c == lo->c + lo->w) return mkcat (hi->a, mkext (lo->a, lo->c, hi->b->w + lo->w));
  if (hi->op == O_ZEXT && lo->op == O_EXTRACT && hi->a->op == O_EXTRACT && hi->a->a == lo->a && hi->a->c == lo->c + lo->w) return mkzext (mkcat (hi->a, lo), w);
  if (hi->op == O_EXTRACT && lo->w && lo == mkext (hi->a, 0, lo->w) && hi->c == lo->w && lo->op != O_EXTRACT) return mkext (hi->a, 0, w);
  if (hi->op == O_ITE && lo->op == O_ITE && hi->a == lo->a) return mkite (hi->a, mkcat (hi->b, lo->b), mkcat (hi->d, lo->d));
  if (hi->op == O_ZEXT) return mkzext (mkcat (hi->a, lo), w);
  return P.mk (O_CONCAT, w, 0, hi, lo);
}
const Expr * mkun (Op op, const Expr * a, unsigned w, uint64_t c)
{
  if (isC (a)) return KE (fold (op, w, a->w, c, a->c, 0, 0), w);
  return P.mk (op, w, c, a);
}
