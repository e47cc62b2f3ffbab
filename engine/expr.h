// symx: hash-consed bit-vector / IEEE-754 expression DAG with constant folding.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <deque>
#include <string>
#include <algorithm>

enum Op : uint8_t {
  O_CONST, O_SYM,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  // floating point: operands and results are IEEE bit patterns of width 32 or 64
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FSQRT, O_FROUND /* c = mode */,
  O_FEQ, O_FLT, O_FLE, O_FISNAN,
  O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP, O_FPEXT, O_FPTRUNC
};

struct Expr {
  Op op; uint8_t w; bool fp; uint32_t id; uint64_t c;   // c: const value, symbol id, extract low bit
  const Expr *a, *b, *d;
};

static inline uint64_t maskw (unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sext64 (uint64_t v, unsigned w) { if (w >= 64) return (int64_t) v; uint64_t m = 1ULL << (w - 1); v &= maskw (w); return (int64_t) ((v ^ m) - m); }

struct SymInfo { std::string name; unsigned w; bool undef; };

struct ExprPool {
  std::deque<Expr> arena;
  std::vector<SymInfo> syms;
  struct Key { Op op; uint8_t w; uint64_t c; const Expr *a,*b,*d; bool operator== (const Key &o) const { return op==o.op&&w==o.w&&c==o.c&&a==o.a&&b==o.b&&d==o.d; } };
  struct KH { size_t operator() (const Key &k) const { uint64_t h = k.op * 0x9E3779B97F4A7C15ULL + k.w; auto mix=[&](uint64_t x){ h ^= x + 0x9E3779B97F4A7C15ULL + (h<<6) + (h>>2); h *= 0xff51afd7ed558ccdULL; }; mix (k.c); mix ((uint64_t) k.a); mix ((uint64_t) k.b); mix ((uint64_t) k.d); return h ^ (h >> 32); } };
  std::unordered_map<Key, const Expr*, KH> tab;
  const Expr * mk (Op op, unsigned w, uint64_t c, const Expr *a=nullptr, const Expr *b=nullptr, const Expr *d=nullptr)
  {
    Key k { op, (uint8_t) w, c, a, b, d };
    auto it = tab.find (k);
    if (it != tab.end ()) return it->second;
    bool fp = (op >= O_FADD) || (a && a->fp) || (b && b->fp) || (d && d->fp);
    arena.push_back (Expr { op, (uint8_t) w, fp, (uint32_t) arena.size (), c, a, b, d });
    const Expr * e = &arena.back ();
    tab.emplace (k, e);
    return e;
  }
  const Expr * sym (const std::string &n, unsigned w, bool undef=false) { syms.push_back ({n, w, undef}); return mk (O_SYM, w, syms.size () - 1); }
};
extern ExprPool P;

// A value: concrete (e == null) or symbolic; or an aggregate
struct Val { const Expr * e = nullptr; uint64_t c = 0; const std::vector<Val> * agg = nullptr; bool conc () const { return e == nullptr; } };
static inline Val VC (uint64_t c) { Val v; v.c = c; return v; }
static inline Val VE (const Expr *e) { Val v; if (e->op == O_CONST) v.c = e->c; else v.e = e; return v; }
static inline const Expr * EX (const Val &v, unsigned w) { return v.e ? v.e : P.mk (O_CONST, w, v.c & maskw (w)); }

static inline bool isC (const Expr *e) { return e->op == O_CONST; }
static inline const Expr * KE (uint64_t v, unsigned w) { return P.mk (O_CONST, w, v & maskw (w)); }

static inline double asd (uint64_t v) { double d; memcpy (&d, &v, 8); return d; }
static inline float asf (uint64_t v) { uint32_t x = (uint32_t) v; float f; memcpy (&f, &x, 4); return f; }
static inline uint64_t ofd (double d) { if (d != d) return 0x7ff8000000000000ULL; uint64_t v; memcpy (&v, &d, 8); return v; }
static inline uint64_t off (float f) { if (f != f) return 0x7fc00000ULL; uint32_t v; memcpy (&v, &f, 4); return v; }

// Concrete semantics of every operator
static inline uint64_t fold (Op op, unsigned w, unsigned wa, uint64_t c, uint64_t x, uint64_t y, uint64_t z)
{
  uint64_t m = maskw (w);
  switch (op)
  {
    case O_ADD: return (x + y) & m;
    case O_SUB: return (x - y) & m;
    case O_MUL: return (x * y) & m;
    case O_UDIV: return y ? (x / y) & m : m;
    case O_UREM: return y ? (x % y) & m : x;
    case O_SDIV: { int64_t a = sext64 (x, w), b = sext64 (y, w); if (!b) return a < 0 ? 1 : m; if (b == -1) return (0 - x) & m; return ((uint64_t) (a / b)) & m; }
    case O_SREM: { int64_t a = sext64 (x, w), b = sext64 (y, w); if (!b) return x; if (b == -1) return 0; return ((uint64_t) (a % b)) & m; }
    case O_AND: return x & y;
    case O_OR: return x | y;
    case O_XOR: return (x ^ y) & m;
    case O_SHL: return y >= w ? 0 : (x << y) & m;
    case O_LSHR: return y >= w ? 0 : (x >> y) & m;
    case O_ASHR: return ((uint64_t) (sext64 (x, w) >> (y >= w ? 63 : y))) & m;
    case O_EQ: return x == y;
    case O_ULT: return x < y;
    case O_ULE: return x <= y;
    case O_SLT: return sext64 (x, wa) < sext64 (y, wa);
    case O_SLE: return sext64 (x, wa) <= sext64 (y, wa);
    case O_ITE: return x ? y : z;
    case O_EXTRACT: return (x >> c) & m;
    case O_ZEXT: return x;
    case O_SEXT: return ((uint64_t) sext64 (x, wa)) & m;
    case O_FADD: return w == 64 ? ofd (asd (x) + asd (y)) : off (asf (x) + asf (y));
    case O_FSUB: return w == 64 ? ofd (asd (x) - asd (y)) : off (asf (x) - asf (y));
    case O_FMUL: return w == 64 ? ofd (asd (x) * asd (y)) : off (asf (x) * asf (y));
    case O_FDIV: return w == 64 ? ofd (asd (x) / asd (y)) : off (asf (x) / asf (y));
    case O_FREM: return w == 64 ? ofd (fmod (asd (x), asd (y))) : off (fmodf (asf (x), asf (y)));
    case O_FSQRT: return w == 64 ? ofd (sqrt (asd (x))) : off (sqrtf (asf (x)));
    case O_FROUND: { double v = w == 64 ? asd (x) : asf (x); double r = c == 0 ? floor (v) : c == 1 ? ceil (v) : c == 2 ? trunc (v) : c == 3 ? rint (v) : round (v); return w == 64 ? ofd (r) : off ((float) r); }
    case O_FEQ: return wa == 64 ? asd (x) == asd (y) : asf (x) == asf (y);
    case O_FLT: return wa == 64 ? asd (x) < asd (y) : asf (x) < asf (y);
    case O_FLE: return wa == 64 ? asd (x) <= asd (y) : asf (x) <= asf (y);
    case O_FISNAN: return wa == 64 ? std::isnan (asd (x)) : std::isnan (asf (x));
    case O_FPTOSI: case O_FPTOUI:
    {
      double v = wa == 64 ? asd (x) : asf (x);
      uint64_t s = (v >= -9223372036854775808.0 && v < 9223372036854775808.0) ? (uint64_t) (int64_t) v : (1ULL << 63);
      if (op == O_FPTOUI && w == 64) { if (v >= 9223372036854775808.0) s = v < 18446744073709551616.0 ? (uint64_t) v : 0; }
      return s & m;
    }
    case O_SITOFP: { int64_t v = sext64 (x, wa); return w == 64 ? ofd ((double) v) : off ((float) v); }
    case O_UITOFP: return w == 64 ? ofd ((double) x) : off ((float) x);
    case O_FPEXT: return ofd ((double) asf (x));
    case O_FPTRUNC: return off ((float) asd (x));
    default: return 0;
  }
}

const Expr * mkbin (Op op, const Expr * a, const Expr * b);
const Expr * mkcmp (Op op, const Expr * a, const Expr * b);
const Expr * mkite (const Expr * c, const Expr * a, const Expr * b);
const Expr * mkext (const Expr * a, unsigned lo, unsigned w);
const Expr * mkzext (const Expr * a, unsigned w);
const Expr * mksext (const Expr * a, unsigned w);
const Expr * mkcat (const Expr * hi, const Expr * lo);
const Expr * mknot (const Expr * a);   // boolean (width 1) negation
const Expr * mkun (Op op, const Expr * a, unsigned w, uint64_t c = 0);
