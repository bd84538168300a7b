#include "expr.h"
#include <algorithm>
#include <cassert>
namespace ex {
std::unordered_multimap<size_t, Expr *> table;
uint32_t nextId = 1;
uint64_t nextSym = 1;
static std::unordered_map<std::string, E> keyed;

static void structural(Expr &e) {
  uint64_t m = maskw(e.w);
  e.ulo = 0; e.uhi = m; e.kz = ~m; e.ko = 0;
  switch (e.k) {
  case KConst: e.ulo = e.uhi = e.c; e.kz = ~e.c; e.ko = e.c; break;
  case KPtr: e.ulo = 1; break;
  case KLin: {
    u128 lo = e.c, hi = e.c; bool ok = true;
    for (auto &p : e.t) {
      int64_t sc = sextw(p.second, e.w);
      if (sc < 0) { ok = false; break; }
      lo += (u128)p.second * p.first->ulo; hi += (u128)p.second * p.first->uhi;
      if (hi > m) { ok = false; break; }
    }
    if (ok) { e.ulo = (uint64_t)lo; e.uhi = (uint64_t)hi; }
    break;
  }
  case KBits: {
    uint64_t kz = ~m, ko = 0;
    for (unsigned i = 0; i < e.w; i++) {
      const Bit &b = e.bits[i];
      if (!b.a) { if (b.i) ko |= 1ull << i; else kz |= 1ull << i; }
      else {
        bool z = (b.a->kz >> b.i) & 1, o = (b.a->ko >> b.i) & 1;
        if (b.neg) std::swap(z, o);
        if (z) kz |= 1ull << i;
        if (o) ko |= 1ull << i;
      }
    }
    e.kz = kz; e.ko = ko; e.ulo = ko; e.uhi = ~kz & m;
    break;
  }
  case KOp: {
    E a = e.a, b = e.b;
    switch (e.op) {
    case OMul: { u128 hi = (u128)a->uhi * b->uhi; if (hi <= m) { e.uhi = (uint64_t)hi; e.ulo = a->ulo * b->ulo; } break; }
    case OUDiv: e.uhi = b->ulo ? a->uhi / b->ulo : a->uhi; e.ulo = b->uhi ? a->ulo / b->uhi : 0; break;
    case OURem: e.uhi = b->uhi ? std::min(a->uhi, b->uhi - 1) : a->uhi; break;
    case OAnd: e.uhi = std::min(a->uhi, b->uhi); e.kz = a->kz | b->kz; break;
    case OOr: e.ulo = std::max(a->ulo, b->ulo); e.ko = a->ko | b->ko; e.kz |= a->kz & b->kz; break;
    case OLShr: e.uhi = a->uhi >> std::min<uint64_t>(63, b->ulo); break;
    default: break;
    }
    break;
  }
  default: break;
  }
  // known bits <-> range
  if (e.k != KConst) {
    e.uhi = std::min(e.uhi, ~e.kz & m);
    e.ulo = std::max(e.ulo, e.ko);
    for (int i = 63; i >= 0; i--) { if (e.uhi >> i & 1) break; e.kz |= 1ull << i; }
  }
}

E intern(Expr &&e) {
  size_t h = hashE(e);
  auto r = table.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) if (eqE(*it->second, e)) return it->second;
  Expr *n = new Expr(std::move(e));
  n->id = nextId++;
  uint64_t l = n->labels;
  if (n->a) l |= n->a->labels;
  if (n->b) l |= n->b->labels;
  for (auto &p : n->t) l |= p.first->labels;
  for (auto &b : n->bits) if (b.a) l |= b.a->labels;
  n->labels = l;
  structural(*n);
  table.emplace(h, n);
  return n;
}
E Const(uint64_t v, unsigned w) { Expr e; e.k = KConst; e.w = w; e.c = v & maskw(w); return intern(std::move(e)); }
E Sym(const std::string &name, unsigned w, uint64_t labels) {
  Expr e; e.k = KSym; e.w = w; e.c = nextSym++; e.name = name; e.labels = labels; return intern(std::move(e));
}
E SymKeyed(const std::string &key, unsigned w, uint64_t labels) {
  std::string k = key + "#" + std::to_string(w);
  auto it = keyed.find(k);
  if (it != keyed.end()) return it->second;
  return keyed[k] = Sym(key, w, labels);
}
E Ptr(uint64_t obj, E off) { Expr e; e.k = KPtr; e.w = 64; e.c = obj; e.a = off; return intern(std::move(e)); }

E Lin(unsigned w, std::map<E, uint64_t> &&terms, uint64_t c) {
  uint64_t m = maskw(w);
  std::vector<std::pair<E, uint64_t>> v;
  for (auto &p : terms) if (p.second & m) v.push_back({p.first, p.second & m});
  if (v.empty()) return Const(c, w);
  std::sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.first->id < y.first->id; });
  if (v.size() == 1 && v[0].second == 1 && (c & m) == 0) return v[0].first;
  // pointer plus integer terms
  for (size_t i = 0; i < v.size(); i++)
    if (v[i].first->k == KPtr && v[i].second == 1) {
      bool other = false;
      for (size_t j = 0; j < v.size(); j++) if (j != i && v[j].first->k == KPtr) other = true;
      if (other) break;
      std::map<E, uint64_t> rest;
      for (size_t j = 0; j < v.size(); j++) if (j != i) rest[v[j].first] = v[j].second;
      E off = Add(v[i].first->a, Lin(w, std::move(rest), c));
      return Ptr(v[i].first->c, off);
    }
  Expr e; e.k = KLin; e.w = w; e.c = c & m; e.t = std::move(v);
  return intern(std::move(e));
}
static void addTerms(std::map<E, uint64_t> &t, uint64_t &c, E e, uint64_t f) {
  if (e->k == KConst) c += e->c * f;
  else if (e->k == KLin) { c += e->c * f; for (auto &p : e->t) t[p.first] += p.second * f; }
  else t[e] += f;
}
static bool disjointBits(E a, E b) {
  if (a->k == KConst || b->k == KConst) return false;
  if (a->k != KBits && b->k != KBits) return false;
  uint64_t m = maskw(a->w);
  return ((a->kz | b->kz) & m) == m;
}
E Add(E a, E b) {
  assert(a->w == b->w);
  if (a->k == KConst && a->c == 0) return b;
  if (b->k == KConst && b->c == 0) return a;
  if (a->k == KConst && b->k == KConst) return Const(a->c + b->c, a->w);
  if (a->k == KPtr && b->k != KPtr) return Ptr(a->c, Add(a->a, b));
  if (b->k == KPtr && a->k != KPtr) return Ptr(b->c, Add(b->a, a));
  if (disjointBits(a, b)) return Op(OOr, a, b);
  std::map<E, uint64_t> t; uint64_t c = 0;
  addTerms(t, c, a, 1); addTerms(t, c, b, 1);
  return Lin(a->w, std::move(t), c);
}
E Sub(E a, E b) {
  if (a == b) return Const(0, a->w);
  if (a->k == KPtr && b->k == KPtr && a->c == b->c) return Sub(a->a, b->a);
  if (a->k == KPtr && b->k != KPtr) return Ptr(a->c, Sub(a->a, b));
  std::map<E, uint64_t> t; uint64_t c = 0;
  addTerms(t, c, a, 1); addTerms(t, c, b, ~0ull);
  return Lin(a->w, std::move(t), c);
}
E MulC(E a, uint64_t f) {
  if (a->k == KConst) return Const(a->c * f, a->w);
  if ((f & maskw(a->w)) == 0) return Const(0, a->w);
  std::map<E, uint64_t> t; uint64_t c = 0;
  addTerms(t, c, a, f);
  return Lin(a->w, std::move(t), c);
}
std::vector<Bit> BitsOf(E a) {
  if (a->k == KBits) return a->bits;
  std::vector<Bit> v(a->w);
  for (unsigned i = 0; i < a->w; i++) {
    if (a->k == KConst) v[i] = Bit{nullptr, (uint8_t)((a->c >> i) & 1), 0};
    else if ((a->kz >> i) & 1) v[i] = Bit{nullptr, 0, 0};
    else if ((a->ko >> i) & 1) v[i] = Bit{nullptr, 1, 0};
    else v[i] = Bit{a, (uint8_t)i, 0};
  }
  return v;
}
E FromBits(std::vector<Bit> &&v) {
  unsigned w = v.size();
  bool allc = true; uint64_t c = 0;
  for (unsigned i = 0; i < w; i++) { if (v[i].a) { allc = false; break; } if (v[i].i) c |= 1ull << i; }
  if (allc) return Const(c, w);
  // identity?
  E a = nullptr;
  for (auto &b : v) if (b.a) { a = b.a; break; }
  if (a->w == w) {
    bool id = true;
    for (unsigned i = 0; i < w && id; i++) {
      if (v[i].a) id = v[i].a == a && v[i].i == i && !v[i].neg;
      else id = v[i].i ? ((a->ko >> i) & 1) : ((a->kz >> i) & 1);
    }
    if (id) return a;
  }
  Expr e; e.k = KBits; e.w = w; e.bits = std::move(v);
  return intern(std::move(e));
}
// 2^k * x as bits of x
static std::vector<Bit> scaledBits(E a) {
  if (a->k == KLin && a->t.size() == 1 && !a->c) {
    uint64_t c = a->t.begin()->second & maskw(a->w);
    if (c > 1 && !(c & (c - 1))) {
      auto v = BitsOf(a->t.begin()->first);
      v.insert(v.begin(), __builtin_ctzll(c), Bit{nullptr, 0, 0});
      v.resize(a->w);
      return v;
    }
  }
  return BitsOf(a);
}
E ZExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->k == KConst) return Const(a->c, w);
  auto v = BitsOf(a);
  v.resize(w, Bit{nullptr, 0, 0});
  return FromBits(std::move(v));
}
E SExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->k == KConst) return Const((uint64_t)sextw(a->c, a->w), w);
  auto v = BitsOf(a);
  Bit s = v.back();
  v.resize(w, s);
  return FromBits(std::move(v));
}
E Slice(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (a->k == KConst) return Const(a->c >> lo, w);
  if (lo == 0 && a->k == KLin) { // truncation distributes over +
    std::map<E, uint64_t> t; uint64_t c = a->c;
    for (auto &p : a->t) addTerms(t, c, Slice(p.first, 0, w), p.second);
    return Lin(w, std::move(t), c);
  }
  auto v = lo ? scaledBits(a) : BitsOf(a);
  std::vector<Bit> r(v.begin() + lo, v.begin() + lo + w);
  return FromBits(std::move(r));
}
E Trunc(E a, unsigned w) { return Slice(a, 0, w); }
E Concat(const std::vector<E> &parts) {
  std::vector<Bit> v;
  for (E p : parts) { auto b = BitsOf(p); v.insert(v.end(), b.begin(), b.end()); }
  return FromBits(std::move(v));
}
static E shiftC(OpC op, E a, uint64_t n) {
  unsigned w = a->w;
  auto v = op == OShl ? BitsOf(a) : scaledBits(a);
  std::vector<Bit> r(w);
  for (unsigned i = 0; i < w; i++) {
    if (op == OShl) r[i] = i >= n ? v[i - n] : Bit{nullptr, 0, 0};
    else if (i + n < w) r[i] = v[i + n];
    else r[i] = op == OAShr ? v[w - 1] : Bit{nullptr, 0, 0};
  }
  return FromBits(std::move(r));
}
static bool bitwise(OpC op, E a, E b, E &out) {
  auto x = BitsOf(a), y = BitsOf(b);
  std::vector<Bit> r(a->w);
  for (unsigned i = 0; i < a->w; i++) {
    Bit p = x[i], q = y[i];
    if (!p.a) std::swap(p, q);
    // q constant or both symbolic
    if (!q.a) {
      if (op == OAnd) r[i] = q.i ? p : Bit{nullptr, 0, 0};
      else if (op == OOr) r[i] = q.i ? Bit{nullptr, 1, 0} : p;
      else {
        r[i] = p;
        if (q.i) { if (p.a) r[i].neg ^= 1; else r[i].i ^= 1; }
      }
    } else if (p == q) {
      r[i] = op == OXor ? Bit{nullptr, 0, 0} : p;
    } else if (p.a == q.a && p.i == q.i) { // p and !p
      r[i] = Bit{nullptr, (uint8_t)(op == OAnd ? 0 : 1), 0};
    } else return false;
  }
  out = FromBits(std::move(r));
  return true;
}
E Op(OpC op, E a, E b) {
  unsigned w = a->w; uint64_t m = maskw(w);
  if (a->k == KConst && b->k == KConst) {
    uint64_t x = a->c, y = b->c; int64_t sx = sextw(x, w), sy = sextw(y, w);
    switch (op) {
    case OMul: return Const(x * y, w);
    case OUDiv: if (y) return Const(x / y, w); break;
    case OURem: if (y) return Const(x % y, w); break;
    case OSDiv: if (sy && !(sy == -1)) return Const((uint64_t)(sx / sy), w); if (sy == -1) return Const(0 - x, w); break;
    case OSRem: if (sy && sy != -1) return Const((uint64_t)(sx % sy), w); if (sy == -1) return Const(0, w); break;
    case OShl: return Const(y < w ? x << y : 0, w);
    case OLShr: return Const(y < w ? x >> y : 0, w);
    case OAShr: return Const((uint64_t)(sx >> std::min<uint64_t>(y, 63)), w);
    case OAnd: return Const(x & y, w);
    case OOr: return Const(x | y, w);
    case OXor: return Const(x ^ y, w);
    }
  }
  switch (op) {
  case OMul:
    if (a->k == KConst) std::swap(a, b);
    if (b->k == KConst) return MulC(a, b->c);
    if (a->id > b->id) std::swap(a, b);
    break;
  case OShl: case OLShr: case OAShr:
    if (b->k == KConst && b->c < w) return b->c ? shiftC(op, a, b->c) : a;
    break;
  case OUDiv:
    if (b->k == KConst && b->c && !(b->c & (b->c - 1))) { unsigned n = __builtin_ctzll(b->c); return n ? shiftC(OLShr, a, n) : a; }
    break;
  case OURem:
    if (b->k == KConst && b->c && !(b->c & (b->c - 1))) return Op(OAnd, a, Const(b->c - 1, w));
    break;
  case OAnd: case OOr: case OXor: {
    if (a == b) return op == OXor ? Const(0, w) : a;
    E r; if (bitwise(op, a, b, r)) return r;
    if (a->id > b->id) std::swap(a, b);
    break;
  }
  default: break;
  }
  (void)m;
  Expr e; e.k = KOp; e.op = op; e.w = w; e.a = a; e.b = b;
  return intern(std::move(e));
}
static Pred inv(Pred p) {
  switch (p) { case PEq: return PNe; case PNe: return PEq; default: return p; }
}
E Not1(E a) {
  if (a->k == KConst) return Const(!a->c, 1);
  if (a->k == KCmp) {
    switch ((Pred)a->op) {
    case PEq: case PNe: { Expr e = *a; e.op = inv((Pred)a->op); e.labels = 0; return intern(std::move(e)); }
    case PUlt: return Cmp(PUle, a->b, a->a);
    case PUle: return Cmp(PUlt, a->b, a->a);
    case PSlt: return Cmp(PSle, a->b, a->a);
    case PSle: return Cmp(PSlt, a->b, a->a);
    }
  }
  if (a->k == KBits && a->w == 1 && a->bits[0].neg && a->bits[0].a->w == 1) return a->bits[0].a;
  auto v = BitsOf(a);
  v[0].neg ^= 1;
  return FromBits(std::move(v));
}
E Cmp(Pred p, E a, E b) {
  if (a == b) return Const(p == PEq || p == PUle || p == PSle, 1);
  unsigned w = a->w;
  if (a->k == KConst && b->k == KConst) {
    int64_t x = sextw(a->c, w), y = sextw(b->c, w);
    switch (p) {
    case PEq: return Const(a->c == b->c, 1);
    case PNe: return Const(a->c != b->c, 1);
    case PUlt: return Const(a->c < b->c, 1);
    case PUle: return Const(a->c <= b->c, 1);
    case PSlt: return Const(x < y, 1);
    case PSle: return Const(x <= y, 1);
    }
  }
  if (a->k == KPtr && b->k == KPtr) {
    if (a->c == b->c) {
      // compare offsets; pointer order is signed offset order
      Pred q = p == PUlt ? PSlt : p == PUle ? PSle : p;
      return Cmp(q, a->a, b->a);
    }
    if (p == PEq) return Const(0, 1);
    if (p == PNe) return Const(1, 1);
  }
  if (p == PEq || p == PNe) {
    if (a->k == KConst || (b->k != KConst && a->id > b->id)) std::swap(a, b);
    if (a->k == KPtr && b->k == KConst && b->c == 0) return Const(p == PNe, 1);
    // boolean tests of zero-extended conditions
    if (b->k == KConst && a->k == KBits) {
      int idx = -1; bool multi = false, mismatch = false;
      for (unsigned i = 0; i < w; i++) {
        if (a->bits[i].a) { if (idx >= 0) multi = true; idx = i; }
        else if (a->bits[i].i != ((b->c >> i) & 1)) mismatch = true;
      }
      if (mismatch) return Const(p == PNe, 1);
      if (!multi && idx >= 0 && a->bits[idx].a->w == 1) {
        E x = a->bits[idx].a;
        bool want = (b->c >> idx) & 1;
        if (a->bits[idx].neg) want = !want;
        if (p == PNe) want = !want;
        return want ? x : Not1(x);
      }
      if (!multi && idx >= 0) {
        std::vector<Bit> v(1, a->bits[idx]);
        if ((bool)((b->c >> idx) & 1) == (p == PNe)) v[0].neg ^= 1;
        return FromBits(std::move(v));
      }
      E z = AsZExt(a);
      if (z) return Cmp(p, z, Const(b->c, z->w));
      E s = AsSExt(a);
      if (s && (uint64_t)sextw(b->c, s->w) == (uint64_t)sextw(b->c, w)) return Cmp(p, s, Const(b->c, s->w));
    }
    if (w == 1 && b->k == KConst) {
      bool want = b->c; if (p == PNe) want = !want;
      return want ? a : Not1(a);
    }
    // cancel a common constant: x + c == d
    if (a->k == KLin && b->k == KConst && a->c) {
      std::map<E, uint64_t> t; for (auto &q : a->t) t[q.first] = q.second;
      return Cmp(p, Lin(w, std::move(t), 0), Const(b->c - a->c, w));
    }
    if (a->k == KLin && b->k == KConst && a->t.size() == 1 && a->c == 0 && a->t[0].second == maskw(w))
      return Cmp(p, a->t[0].first, Const(0 - b->c, w));
    if ((a->kz & b->ko) || (a->ko & b->kz & maskw(w))) return Const(p == PNe, 1);
    if (a->uhi < b->ulo || b->uhi < a->ulo) return Const(p == PNe, 1);
  }
  if (p == PUlt) { if (a->uhi < b->ulo) return Const(1, 1); if (a->ulo >= b->uhi) return Const(0, 1); }
  if (p == PUle) { if (a->uhi <= b->ulo) return Const(1, 1); if (a->ulo > b->uhi) return Const(0, 1); }
  if (p == PSlt || p == PSle) {
    uint64_t half = 1ull << (w - 1);
    if (a->uhi < half && b->uhi < half) return Cmp(p == PSlt ? PUlt : PUle, a, b);
  }
  Expr e; e.k = KCmp; e.op = p; e.w = 1; e.a = a; e.b = b;
  return intern(std::move(e));
}
void SplitConst(E e, E &base, int64_t &c) {
  if (e->k == KConst) { base = nullptr; c = sextw(e->c, e->w); return; }
  if (e->k == KLin) {
    c = sextw(e->c, e->w);
    if (!e->c) { base = e; return; }
    std::map<E, uint64_t> t; for (auto &q : e->t) t[q.first] = q.second;
    base = Lin(e->w, std::move(t), 0);
    return;
  }
  base = e; c = 0;
}
E AsShlZExt(E e, unsigned &k) {
  if (e->k != KBits) return nullptr;
  unsigned i = 0;
  while (i < e->w && !e->bits[i].a && !e->bits[i].i) i++;
  k = i;
  if (i == e->w || !e->bits[i].a || e->bits[i].neg) return nullptr;
  E a = e->bits[i].a;
  // low bits of a may be known zero
  if (e->bits[i].i > 0) {
    unsigned d = e->bits[i].i;
    if (d > k) return nullptr;
    for (unsigned j = 0; j < d; j++) if (!((a->kz >> j) & 1)) return nullptr;
    k -= d; i -= d;
  }
  for (unsigned j = 0; j < a->w && i + j < e->w; j++) {
    const Bit &b = e->bits[i + j];
    if (b.a) { if (b.a != a || b.i != j || b.neg) return nullptr; }
    else if (b.i ? !((a->ko >> j) & 1) : !((a->kz >> j) & 1)) return nullptr;
  }
  if (i + a->w > e->w) { // dropped high bits must be zero
    for (unsigned j = e->w - i; j < a->w; j++) if (!((a->kz >> j) & 1)) return nullptr;
  }
  for (unsigned j = i + a->w; j < e->w; j++) if (e->bits[j].a || e->bits[j].i) return nullptr;
  return a;
}
E AsZExt(E e) { unsigned k; E a = AsShlZExt(e, k); return a && k == 0 && a->w < e->w ? a : nullptr; }
E AsSExt(E e) {
  if (e->k != KBits || !e->bits[0].a || e->bits[0].neg) return nullptr;
  E a = e->bits[0].a;
  if (a->w >= e->w) return nullptr;
  for (unsigned j = 0; j < e->w; j++) {
    unsigned s = j < a->w ? j : a->w - 1;
    const Bit &b = e->bits[j];
    if (b.a != a || b.i != s || b.neg) return nullptr;
  }
  return a;
}
bool IsPtrLike(E e) { return e->k == KPtr; }
static const char *opn[] = {"*", "/u", "/s", "%u", "%s", "<<", ">>u", ">>s", "&", "|", "^"};
static const char *pn[] = {"==", "!=", "<u", "<=u", "<s", "<=s"};
std::string Str(E e, int d) {
  if (!e) return "(null)";
  if (d <= 0) return "..";
  char buf[64];
  switch (e->k) {
  case KConst: if (e->c > 0xffff && (int64_t)sextw(e->c, e->w) > -65536 && (int64_t)sextw(e->c, e->w) < 0) snprintf(buf, 64, "%lld", (long long)sextw(e->c, e->w)); else snprintf(buf, 64, e->c < 4096 ? "%llu" : "0x%llx", (unsigned long long)e->c); return buf;
  case KSym: return e->name + "." + std::to_string(e->c);
  case KLin: {
    std::string s = "(";
    for (auto &p : e->t) { int64_t c = sextw(p.second, e->w); if (s.size() > 1) s += "+"; if (c != 1) s += std::to_string(c) + "*"; s += Str(p.first, d - 1); }
    if (e->c) s += (sextw(e->c, e->w) < 0 ? "" : "+") + std::to_string(sextw(e->c, e->w));
    return s + ")";
  }
  case KBits: {
    if (E z = AsZExt(e)) return "zx" + std::to_string(e->w) + "(" + Str(z, d - 1) + ")";
    if (E z = AsSExt(e)) return "sx" + std::to_string(e->w) + "(" + Str(z, d - 1) + ")";
    std::string s = "{";
    unsigned i = 0;
    while (i < e->w) {
      const Bit &b = e->bits[i]; unsigned j = i + 1;
      if (!b.a) { while (j < e->w && !e->bits[j].a && e->bits[j].i == b.i) j++; s += std::to_string(b.i) + "x" + std::to_string(j - i); }
      else { while (j < e->w && e->bits[j].a == b.a && e->bits[j].i == b.i + (j - i) && e->bits[j].neg == b.neg) j++;
        s += std::string(b.neg ? "~" : "") + Str(b.a, d - 1) + "[" + std::to_string(b.i) + ":" + std::to_string(b.i + j - i - 1) + "]"; }
      s += " "; i = j;
    }
    return s + "}";
  }
  case KPtr: return "&o" + std::to_string(e->c) + "+" + Str(e->a, d - 1);
  case KOp: return "(" + Str(e->a, d - 1) + opn[e->op] + Str(e->b, d - 1) + ")";
  case KCmp: return "(" + Str(e->a, d - 1) + pn[e->op] + Str(e->b, d - 1) + ")";
  }
  return "?";
}
E Subst(E e, const std::unordered_map<E, E> &m, std::unordered_map<E, E> &memo) {
  auto it = m.find(e);
  if (it != m.end()) return it->second;
  if (e->k == KConst || e->k == KSym) return e;
  auto mi = memo.find(e);
  if (mi != memo.end()) return mi->second;
  E r = e;
  switch (e->k) {
  case KLin: {
    std::map<E, uint64_t> t; uint64_t c = e->c; bool ch = false;
    std::vector<E> ptrs;
    for (auto &p : e->t) { E s = Subst(p.first, m, memo); if (s != p.first) ch = true; if (s->k == KPtr && p.second == 1) ptrs.push_back(s); else addTerms(t, c, s, p.second); }
    if (ch) { r = Lin(e->w, std::move(t), c); for (E p : ptrs) r = Add(r, p); }
    break;
  }
  case KBits: {
    bool ch = false; std::vector<Bit> v;
    std::map<E, std::vector<Bit>> cache;
    for (auto &b : e->bits) {
      if (!b.a) { v.push_back(b); continue; }
      E s = Subst(b.a, m, memo);
      if (s == b.a) { v.push_back(b); continue; }
      ch = true;
      if (!cache.count(s)) cache[s] = BitsOf(s);
      Bit x = cache[s][b.i];
      if (b.neg) { if (x.a) x.neg ^= 1; else x.i ^= 1; }
      v.push_back(x);
    }
    if (ch) r = FromBits(std::move(v));
    break;
  }
  case KPtr: { E o = Subst(e->a, m, memo); if (o != e->a) r = Ptr(e->c, o); break; }
  case KOp: { E a = Subst(e->a, m, memo), b = Subst(e->b, m, memo); if (a != e->a || b != e->b) r = Op((OpC)e->op, a, b); break; }
  case KCmp: { E a = Subst(e->a, m, memo), b = Subst(e->b, m, memo); if (a != e->a || b != e->b) r = Cmp((Pred)e->op, a, b); break; }
  default: break;
  }
  memo[e] = r;
  return r;
}
void Atoms(E e, std::set<E> &out) {
  if (e->k == KSym) { out.insert(e); return; }
  if (e->a) Atoms(e->a, out);
  if (e->b) Atoms(e->b, out);
  for (auto &p : e->t) Atoms(p.first, out);
  E last = nullptr;
  for (auto &b : e->bits) if (b.a && b.a != last) { last = b.a; Atoms(b.a, out); }
}
} // namespace ex
