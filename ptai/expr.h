// Hash-consed value expressions: the abstract values of ptai.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;

struct Expr;
typedef const Expr *E;

enum Kind : uint8_t { KConst, KSym, KLin, KBits, KPtr, KOp, KCmp };
enum OpC : uint8_t { OMul, OUDiv, OSDiv, OURem, OSRem, OShl, OLShr, OAShr, OAnd, OOr, OXor };
enum Pred : uint8_t { PEq, PNe, PUlt, PUle, PSlt, PSle };

struct Bit {
  E a;          // nullptr: constant bit i
  uint8_t i;    // bit index in a, or constant value
  uint8_t neg;  // negated
  bool operator==(const Bit &o) const { return a == o.a && i == o.i && neg == o.neg; }
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}

struct Expr {
  Kind k;
  uint8_t op = 0;        // OpC / Pred
  uint16_t w = 0;        // width in bits (1..64)
  uint32_t id = 0;
  uint64_t c = 0;        // Const value; Lin constant; Sym unique id; Ptr object id
  E a = nullptr, b = nullptr;
  std::vector<std::pair<E, uint64_t>> t; // Lin terms (sorted by id), coefficients mod 2^w
  std::vector<Bit> bits;                 // Bits
  uint64_t labels = 0;   // provenance labels
  // structural range / known bits
  uint64_t ulo = 0, uhi = 0, kz = 0, ko = 0;
  std::string name;      // Sym only
};

namespace ex {

inline size_t hmix(size_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  return h * 0xff51afd7ed558ccdull;
}
inline size_t hashE(const Expr &e) {
  size_t h = e.k;
  h = hmix(h, e.op); h = hmix(h, e.w); h = hmix(h, e.c);
  h = hmix(h, (uint64_t)e.a); h = hmix(h, (uint64_t)e.b);
  for (auto &p : e.t) { h = hmix(h, (uint64_t)p.first); h = hmix(h, p.second); }
  for (auto &b : e.bits) { h = hmix(h, (uint64_t)b.a); h = hmix(h, b.i * 2 + b.neg); }
  return h;
}
inline bool eqE(const Expr &x, const Expr &y) {
  return x.k == y.k && x.op == y.op && x.w == y.w && x.c == y.c && x.a == y.a && x.b == y.b &&
         x.t == y.t && x.bits == y.bits;
}
extern std::unordered_multimap<size_t, Expr *> table;
extern uint32_t nextId;
extern uint64_t nextSym;

E intern(Expr &&e);
E Const(uint64_t v, unsigned w);
E Sym(const std::string &name, unsigned w, uint64_t labels = 0);          // always fresh
E SymKeyed(const std::string &key, unsigned w, uint64_t labels = 0);      // stable by key
E Ptr(uint64_t obj, E off);
E Add(E a, E b);
E Sub(E a, E b);
E MulC(E a, uint64_t c);
E Op(OpC op, E a, E b);
E ZExt(E a, unsigned w);
E SExt(E a, unsigned w);
E Trunc(E a, unsigned w);
E Slice(E a, unsigned lo, unsigned w);
E Concat(const std::vector<E> &lowFirst);
E FromBits(std::vector<Bit> &&v);
std::vector<Bit> BitsOf(E a);
E Cmp(Pred p, E a, E b);
E Not1(E a);
E Lin(unsigned w, std::map<E, uint64_t> &&terms, uint64_t c);
// decompose into non-constant part (or null) and constant
void SplitConst(E e, E &base, int64_t &c);
// zext view: e == zext(x); returns x or null
E AsZExt(E e);
E AsSExt(E e);
// e == zext(x) << k
E AsShlZExt(E e, unsigned &k);
std::string Str(E e, int depth = 6);
E Subst(E e, const std::unordered_map<E, E> &m, std::unordered_map<E, E> &memo);
void Atoms(E e, std::set<E> &out); // Syms
bool IsPtrLike(E e);
} // namespace ex
