#include "state.h"
#include <algorithm>
using namespace ex;

std::vector<Tag> tags(1);
std::vector<Obj> objs(1);

uint32_t newTag(const std::string &name, uint64_t labels) {
  tags.push_back({name, labels});
  return tags.size() - 1;
}
E tagSym(uint32_t tag, int64_t off, unsigned bytes) {
  return SymKeyed(tags[tag].name + "~" + std::to_string(tag) + "@" + std::to_string(off), bytes * 8, tags[tag].labels);
}

void LinX::add(E a, i128 f) {
  if (!f) return;
  auto it = std::lower_bound(t.begin(), t.end(), a, [](auto &p, E x) { return p.first->id < x->id; });
  if (it != t.end() && it->first == a) { it->second += f; if (!it->second) t.erase(it); }
  else t.insert(it, {a, f});
}
void LinX::addX(const LinX &o, i128 f) { for (auto &p : o.t) add(p.first, p.second * f); c += o.c * f; }
bool operator==(const LinX &a, const LinX &b) { return a.c == b.c && a.t == b.t; }
bool operator<(const LinX &a, const LinX &b) {
  if (a.c != b.c) return a.c < b.c;
  if (a.t.size() != b.t.size()) return a.t.size() < b.t.size();
  for (size_t i = 0; i < a.t.size(); i++) {
    if (a.t[i].first != b.t[i].first) return a.t[i].first->id < b.t[i].first->id;
    if (a.t[i].second != b.t[i].second) return a.t[i].second < b.t[i].second;
  }
  return false;
}

State::State() : f(new Facts), mem(new std::map<uint64_t, std::shared_ptr<ObjMem>>), ghost(new std::map<std::pair<E, int>, E>), cnt(new std::map<uint64_t, int>) {}
Facts &State::F() { if (f.use_count() > 1) f = std::make_shared<Facts>(*f); return *f; }
std::map<uint64_t, std::shared_ptr<ObjMem>> &State::M() {
  if (mem.use_count() > 1) mem = std::make_shared<std::map<uint64_t, std::shared_ptr<ObjMem>>>(*mem);
  return *mem;
}
ObjMem &State::O(uint64_t id) {
  auto &m = M();
  auto &p = m[id];
  if (!p) { p = std::make_shared<ObjMem>(); p->def = objs[id].def; }
  else if (p.use_count() > 1) p = std::make_shared<ObjMem>(*p);
  return *p;
}
const ObjMem *State::cO(uint64_t id) const {
  auto it = mem->find(id);
  return it == mem->end() ? nullptr : it->second.get();
}
std::map<std::pair<E, int>, E> &State::G() {
  if (ghost.use_count() > 1) ghost = std::make_shared<std::map<std::pair<E, int>, E>>(*ghost);
  return *ghost;
}

static void norm(RK &r, unsigned w) {
  uint64_t m = maskw(w), half = 1ull << (w - 1);
  for (int it = 0; it < 2; it++) {
    // known bits <-> unsigned range
    r.kz |= ~m;
    if (r.ulo < r.ko) r.ulo = r.ko;
    if (r.uhi > (~r.kz & m)) r.uhi = ~r.kz & m;
    if (r.ulo > r.uhi) return;
    uint64_t d = r.ulo ^ r.uhi; // common high bits
    unsigned nb = d ? 64 - __builtin_clzll(d) : 0;
    uint64_t hi = nb >= 64 ? 0 : ~((1ull << nb) - 1);
    r.ko |= r.ulo & hi; r.kz |= ~r.ulo & hi;
    // low-bit alignment
    // unsigned <-> signed
    if (r.uhi < half) { r.slo = std::max<int64_t>(r.slo, (int64_t)r.ulo); r.shi = std::min<int64_t>(r.shi, (int64_t)r.uhi); }
    else if (r.ulo >= half) { r.slo = std::max(r.slo, sextw(r.ulo, w)); r.shi = std::min(r.shi, sextw(r.uhi, w)); }
    if (r.slo > r.shi) return;
    if (r.slo >= 0) { r.ulo = std::max(r.ulo, (uint64_t)r.slo); r.uhi = std::min(r.uhi, (uint64_t)r.shi); }
    else if (r.shi < 0) { r.ulo = std::max(r.ulo, (uint64_t)r.slo & m); r.uhi = std::min(r.uhi, (uint64_t)r.shi & m); }
  }
}
static RK fullRK(unsigned w) {
  RK r; r.ulo = 0; r.uhi = maskw(w); r.slo = sextw(1ull << (w - 1), w); r.shi = (int64_t)(maskw(w) >> 1); r.kz = ~maskw(w); r.ko = 0;
  return r;
}
static RK meet(const RK &a, const RK &b, unsigned w) {
  RK r; r.ulo = std::max(a.ulo, b.ulo); r.uhi = std::min(a.uhi, b.uhi); r.slo = std::max(a.slo, b.slo); r.shi = std::min(a.shi, b.shi);
  r.kz = a.kz | b.kz; r.ko = a.ko | b.ko;
  norm(r, w);
  return r;
}

RK State::range(E e, int depth) const {
  unsigned w = e->w; uint64_t m = maskw(w);
  RK r = fullRK(w);
  r.ulo = e->ulo; r.uhi = e->uhi; r.kz = e->kz | ~m; r.ko = e->ko;
  if (e->k == KConst) { norm(r, w); return r; }
  auto it = f->r.find(e);
  if (it != f->r.end()) r = meet(r, it->second, w);
  else norm(r, w);
  if (depth <= 0 || r.empty() || e->k == KSym) return r;
  switch (e->k) {
  case KLin: {
    i128 lo = sextw(e->c, w), hi = lo, sl = lo, sh = lo;
    for (auto &p : e->t) {
      RK a = range(p.first, depth - 1);
      i128 c = sextw(p.second, w);
      if (c > 0) { lo += c * a.ulo; hi += c * a.uhi; sl += c * a.slo; sh += c * a.shi; }
      else { lo += c * a.uhi; hi += c * a.ulo; sl += c * a.shi; sh += c * a.slo; }
    }
    RK x = fullRK(w);
    i128 M = (i128)m + 1;
    i128 q = lo >= 0 ? lo / M : -((-lo + M - 1) / M);
    if (hi - q * M < M) { x.ulo = (uint64_t)(lo - q * M); x.uhi = (uint64_t)(hi - q * M); }
    if (sl >= x.slo && sh <= x.shi) { x.slo = (int64_t)sl; x.shi = (int64_t)sh; }
    else if (lo >= x.slo && hi <= x.shi) { x.slo = (int64_t)lo; x.shi = (int64_t)hi; }
    norm(x, w);
    r = meet(r, x, w);
    break;
  }
  case KBits: {
    RK x = fullRK(w);
    E last = nullptr; RK la = x;
    for (unsigned i = 0; i < w; i++) {
      const Bit &b = e->bits[i];
      bool z, o;
      if (!b.a) { z = !b.i; o = b.i; }
      else {
        if (b.a != last) { last = b.a; la = range(b.a, depth - 1); }
        z = (la.kz >> b.i) & 1; o = (la.ko >> b.i) & 1;
        if (b.neg) std::swap(z, o);
      }
      if (z) x.kz |= 1ull << i;
      if (o) x.ko |= 1ull << i;
    }
    unsigned k;
    if (E a = AsShlZExt(e, k)) {
      RK y = range(a, depth - 1);
      if (k < 64 && (y.uhi >> (64 - k ? 64 - k : 63)) == 0 || k == 0) { x.ulo = std::max(x.ulo, y.ulo << k); x.uhi = std::min(x.uhi, y.uhi << k); }
    } else if (E s = AsSExt(e)) {
      RK y = range(s, depth - 1);
      x.slo = std::max(x.slo, y.slo); x.shi = std::min(x.shi, y.shi);
    } else if (e->bits[0].a && !e->bits[0].neg) {
      // low slice or right shift of an atom
      E a = e->bits[0].a; unsigned s = e->bits[0].i; bool ok = true;
      for (unsigned i = 0; i < w && ok; i++) {
        const Bit &b = e->bits[i];
        if (s + i < a->w) { if (b.a) ok = b.a == a && b.i == s + i && !b.neg; else ok = !b.i && ((a->kz >> (s + i)) & 1); }
        else ok = !b.a && !b.i;
      }
      if (ok) {
        RK y = range(a, depth - 1);
        uint64_t hi = y.uhi >> s;
        if (hi <= m) { x.ulo = std::max(x.ulo, y.ulo >> s); x.uhi = std::min(x.uhi, hi); }
        else if (s == 0 && y.slo >= sextw(1ull << (w - 1), w) && y.shi <= (int64_t)(m >> 1)) { x.slo = std::max(x.slo, y.slo); x.shi = std::min(x.shi, y.shi); }
      }
    }
    norm(x, w);
    r = meet(r, x, w);
    break;
  }
  case KOp: {
    RK a = range(e->a, depth - 1), b = range(e->b, depth - 1), x = fullRK(w);
    if (a.empty() || b.empty()) return r;
    switch (e->op) {
    case OMul: { u128 hi = (u128)a.uhi * b.uhi; if (hi <= m) { x.uhi = (uint64_t)hi; x.ulo = a.ulo * b.ulo; } break; }
    case OUDiv: x.uhi = b.ulo ? a.uhi / b.ulo : a.uhi; x.ulo = b.uhi ? a.ulo / b.uhi : 0; break;
    case OURem: x.uhi = b.uhi ? std::min(a.uhi, b.uhi - 1) : a.uhi; break;
    case OSDiv: if (a.slo >= 0 && b.slo > 0) { x.ulo = a.ulo / b.uhi; x.uhi = a.uhi / b.ulo; } break;
    case OSRem: if (a.slo >= 0 && b.slo > 0) x.uhi = std::min(a.uhi, b.uhi - 1); break;
    case OAnd: x.uhi = std::min(a.uhi, b.uhi); x.kz |= a.kz | b.kz; x.ko = a.ko & b.ko; break;
    case OOr: x.ulo = std::max(a.ulo, b.ulo); x.ko = a.ko | b.ko; x.kz |= a.kz & b.kz; break;
    case OXor: x.kz |= (a.kz & b.kz) | (a.ko & b.ko); x.ko = (a.kz & b.ko) | (a.ko & b.kz); break;
    case OShl:
      if (b.uhi < w) {
        if (b.uhi == 0 || (a.uhi >> (64 - b.uhi)) == 0) { u128 hi = (u128)a.uhi << b.uhi; if (hi <= m) { x.uhi = (uint64_t)hi; x.ulo = a.ulo << b.ulo; } }
        if (b.ulo) x.kz |= (1ull << b.ulo) - 1;
      }
      break;
    case OLShr: if (b.uhi < w) { x.uhi = a.uhi >> b.ulo; x.ulo = a.ulo >> b.uhi; } break;
    case OAShr: if (b.uhi < w && a.slo >= 0) { x.uhi = a.uhi >> b.ulo; x.ulo = a.ulo >> b.uhi; } break;
    }
    norm(x, w);
    r = meet(r, x, w);
    break;
  }
  case KCmp: {
    if (depth > 3 && r.ulo != r.uhi) {
      RK a = range(e->a, depth - 2), b = range(e->b, depth - 2);
      int t = -1;
      switch (e->op) {
      case PEq: case PNe:
        if (a.uhi < b.ulo || b.uhi < a.ulo || a.shi < b.slo || b.shi < a.slo || (a.kz & b.ko) || (a.ko & b.kz)) t = 0;
        else if (a.single() && b.single() && a.ulo == b.ulo) t = 1;
        if (t >= 0 && e->op == PNe) t = !t;
        break;
      case PUlt: if (a.uhi < b.ulo) t = 1; else if (a.ulo >= b.uhi) t = 0; break;
      case PUle: if (a.uhi <= b.ulo) t = 1; else if (a.ulo > b.uhi) t = 0; break;
      case PSlt: if (a.shi < b.slo) t = 1; else if (a.slo >= b.shi) t = 0; break;
      case PSle: if (a.shi <= b.slo) t = 1; else if (a.slo > b.shi) t = 0; break;
      }
      if (t >= 0) { r.ulo = std::max<uint64_t>(r.ulo, t); r.uhi = std::min<uint64_t>(r.uhi, t); }
    }
    break;
  }
  default: break;
  }
  return r;
}

E State::simp(E e) const {
  if (e->k == KConst || e->k == KPtr) return e;
  RK r = range(e);
  if (r.single()) return Const(r.ulo, e->w);
  return e;
}
E State::resolvePtr(E p) const {
  for (int i = 0; i < 8; i++) {
    auto it = f->alias.find(p);
    if (it != f->alias.end()) { p = it->second; continue; }
    if (p->k == KLin) {
      bool ch = false; std::map<E, uint64_t> t; E ptr = nullptr;
      for (auto &q : p->t) {
        auto jt = q.second == 1 ? f->alias.find(q.first) : f->alias.end();
        if (jt != f->alias.end() && !ptr) { ptr = jt->second; ch = true; } else t[q.first] = q.second;
      }
      if (ch) { p = Add(ptr, Lin(64, std::move(t), p->c)); continue; }
    }
    break;
  }
  return p;
}

bool State::refine(E e, RK n, int depth) {
  if (bottom) return false;
  unsigned w = e->w;
  RK cur = range(e);
  RK r = meet(cur, n, w);
  if (r.empty()) { bottom = true; return false; }
  if (e->k == KConst || e->k == KPtr) return true;
  bool same = r.ulo == cur.ulo && r.uhi == cur.uhi && r.slo == cur.slo && r.shi == cur.shi && r.kz == cur.kz && r.ko == cur.ko;
  if (same) return true;
  // ne facts at the boundary
  F().r[e] = r;
  if (depth <= 0) return true;
  if (e->k == KBits) {
    // push known bits
    std::map<E, std::pair<uint64_t, uint64_t>, EIdLess> kb;
    for (unsigned i = 0; i < w; i++) {
      const Bit &b = e->bits[i];
      if (!b.a) continue;
      bool z = (r.kz >> i) & 1, o = (r.ko >> i) & 1;
      if (b.neg) std::swap(z, o);
      if (z) kb[b.a].first |= 1ull << b.i;
      if (o) kb[b.a].second |= 1ull << b.i;
    }
    for (auto &p : kb) {
      RK x = fullRK(p.first->w);
      x.kz |= p.second.first; x.ko |= p.second.second;
      norm(x, p.first->w);
      if (!refine(p.first, x, depth - 1)) return false;
    }
    unsigned k;
    if (E a = AsShlZExt(e, k)) {
      RK x = fullRK(a->w);
      uint64_t am = maskw(a->w);
      if (k == 0 || a->w + k <= 64) {
        x.ulo = (r.ulo + (k ? (1ull << k) - 1 : 0)) >> k; x.uhi = std::min(am, r.uhi >> k);
        if (x.ulo <= am) { norm(x, a->w); if (!refine(a, x, depth - 1)) return false; }
      }
    } else if (E s = AsSExt(e)) {
      RK x = fullRK(s->w);
      x.slo = std::max(x.slo, r.slo); x.shi = std::min(x.shi, r.shi);
      norm(x, s->w);
      if (!refine(s, x, depth - 1)) return false;
    } else if (e->bits[0].a && e->bits[0].i == 0 && !e->bits[0].neg) {
      // truncation of an atom known to fit
      E a = e->bits[0].a; bool ok = a->w > w;
      for (unsigned i = 0; i < w && ok; i++) { const Bit &b = e->bits[i]; ok = b.a ? (b.a == a && b.i == i && !b.neg) : (!b.i && ((a->kz >> i) & 1)); }
      if (ok && range(a).uhi <= maskw(w)) { RK x = fullRK(a->w); x.ulo = r.ulo; x.uhi = r.uhi; norm(x, a->w); if (!refine(a, x, depth - 1)) return false; }
    }
  } else if (e->k == KLin && e->t.size() == 1) {
    uint64_t co = e->t[0].second; E a = e->t[0].first; uint64_t m = maskw(w);
    if (co == 1) {
      uint64_t lo = (r.ulo - e->c) & m, hi = (r.uhi - e->c) & m;
      if (lo <= hi) { RK x = fullRK(w); x.ulo = lo; x.uhi = hi; norm(x, w); if (!refine(a, x, depth - 1)) return false; }
      i128 sl = (i128)r.slo - sextw(e->c, w), sh = (i128)r.shi - sextw(e->c, w);
      RK fr = fullRK(w);
      if (sl >= fr.slo && sh <= fr.shi) {
        // valid only if a + c does not overflow signed
        RK ar = range(a);
        i128 al = (i128)ar.slo + sextw(e->c, w), ah = (i128)ar.shi + sextw(e->c, w);
        if (al >= fr.slo && ah <= fr.shi) { fr.slo = (int64_t)sl; fr.shi = (int64_t)sh; norm(fr, w); if (!refine(a, fr, depth - 1)) return false; }
      }
    } else if (co == m) { // c - a
      uint64_t lo = (e->c - r.uhi) & m, hi = (e->c - r.ulo) & m;
      if (lo <= hi) { RK x = fullRK(w); x.ulo = lo; x.uhi = hi; norm(x, w); if (!refine(a, x, depth - 1)) return false; }
    }
  } else if (e->k == KCmp) {
    if (r.ulo == r.uhi) { E c = e; assume(c, r.ulo != 0); if (bottom) return false; }
  }
  return true;
}

LinX State::linU(E e, int depth) const {
  LinX x;
  if (e->k == KConst) { x.c = (i128)(u128)e->c; return x; }
  auto nw = f->nowrap.find(e);
  if (nw != f->nowrap.end() && depth > 0) {
    x = linU(nw->second.first, depth - 1);
    x.addX(linU(nw->second.second, depth - 1), 1);
    if (nw->second.wrap) x.c -= (i128)1 << e->w;
    return x;
  }
  {
    RK r = range(e, 2);
    if (r.single()) { x.c = (i128)(u128)r.ulo; return x; }
  }
  if (depth > 0) {
    if (e->k == KLin) {
      LinX c; c.c = sextw(e->c, e->w);
      for (auto &p : e->t) c.addX(linU(p.first, depth - 1), sextw(p.second, e->w));
      i128 lo = c.c, hi = c.c;
      for (auto &p : c.t) {
        RK a = range(p.first);
        lo += p.second > 0 ? p.second * (i128)(u128)a.ulo : p.second * (i128)(u128)a.uhi;
        hi += p.second > 0 ? p.second * (i128)(u128)a.uhi : p.second * (i128)(u128)a.ulo;
      }
      i128 M = (i128)(u128)maskw(e->w);
      bool okl = lo >= 0, okh = hi <= M;
      if (!okl) okl = prove(c, 3);
      if (okl && !okh) { LinX d; d.addX(c, -1); d.c += M; okh = prove(d, 3); }
      if (okl && okh) return c;
      if (c.c < 0 && hi < 0) { // wrapped exactly once: e.g. ~x
        LinX d = c; d.c += M + 1;
        bool l2 = lo + M + 1 >= 0 || prove(d, 3);
        if (l2) return d;
      }
    } else if (e->k == KBits) {
      unsigned k;
      if (E a = AsShlZExt(e, k)) { if (a != e) { x.addX(linU(a, depth - 1), (i128)1 << k); return x; } }
      else if (E s = AsSExt(e)) { if (range(s).slo >= 0) return linU(s, depth - 1); }
      else if (e->bits[0].a && e->bits[0].i == 0 && !e->bits[0].neg) {
        E a = e->bits[0].a; bool ok = true;
        uint64_t drop = 0;
        for (unsigned i = 0; i < a->w && ok; i++) {
          if (i < e->w) { const Bit &b = e->bits[i]; if (b.a) ok = b.a == a && b.i == i && !b.neg; else if (!b.i) drop |= 1ull << i; else ok = false; }
          else drop |= 1ull << i;
        }
        for (unsigned i = a->w; i < e->w && ok; i++) ok = !e->bits[i].a && !e->bits[i].i;
        if (ok) {
          RK ra = range(a);
          if (!(drop & ~ra.kz & maskw(a->w))) return linU(a, depth - 1);
        }
      }
    }
  }
  x.add(e, 1);
  return x;
}
bool State::linP(E off, LinX &out) const {
  out = LinX();
  if (off->k == KConst) { out.c = sextw(off->c, off->w); return true; }
  if (off->k == KLin) {
    LinX c; c.c = sextw(off->c, off->w);
    for (auto &p : off->t) c.addX(linU(p.first), sextw(p.second, off->w));
    i128 lo = c.c, hi = c.c;
    for (auto &p : c.t) {
      RK a = range(p.first);
      lo += p.second > 0 ? p.second * (i128)(u128)a.ulo : p.second * (i128)(u128)a.uhi;
      hi += p.second > 0 ? p.second * (i128)(u128)a.uhi : p.second * (i128)(u128)a.ulo;
    }
    const i128 L = (i128)1 << 63;
    bool okl = lo >= -L, okh = hi < L;
    if (!okl) { LinX d = c; d.c += L; okl = prove(d, 3); }
    if (okl && !okh) { LinX d; d.addX(c, -1); d.c += L - 1; okh = prove(d, 3); }
    if (okl && okh) { out = c; return true; }
  }
  RK r = range(off);
  if (r.slo >= 0) { out = linU(off); return true; }
  return false;
}

// facts implied by the shape of an atom
static void implied(const State &s, E a, std::vector<LinX> &out) {
  if (a->k == KBits) {
    // bits taken from one atom at one shift, others zero: mask / slice
    E b = nullptr; int sh = 0; bool ok = true, first = true; uint64_t kept = 0;
    for (unsigned i = 0; i < a->w && ok; i++) {
      const Bit &x = a->bits[i];
      if (!x.a) { if (x.i) ok = false; continue; }
      if (x.neg) { ok = false; break; }
      if (first) { b = x.a; sh = (int)x.i - (int)i; first = false; }
      else if (x.a != b || (int)x.i - (int)i != sh) ok = false;
      kept |= 1ull << x.i;
    }
    if (ok && b && sh >= 0) {
      uint64_t drop = ~kept & maskw(b->w);
      RK rb = s.range(b);
      drop &= ~rb.kz;
      // a * 2^sh <= b ; b - a*2^sh <= drop
      LinX lb = s.linU(b, 3);
      LinX f1 = lb; f1.add(a, -((i128)1 << sh)); out.push_back(f1);
      LinX f2; f2.add(a, (i128)1 << sh); f2.addX(lb, -1); f2.c += (i128)(u128)drop; out.push_back(f2);
    }
  } else if (a->k == KOp) {
    if (a->op == OAnd || a->op == OURem || a->op == OUDiv || a->op == OLShr) {
      LinX f1 = s.linU(a->a, 3); f1.add(a, -1); out.push_back(f1);
    }
    if (a->op == OAnd) { LinX f1 = s.linU(a->b, 3); f1.add(a, -1); out.push_back(f1); }
    if (a->op == OURem && s.range(a->b).ulo > 0) { LinX f1 = s.linU(a->b, 3); f1.add(a, -1); f1.c -= 1; out.push_back(f1); }
  }
}

static int proveBudget = 0;
bool State::prove(const LinX &x, int depth) const {
  bool top = proveBudget == 0;
  struct Reset { bool t; ~Reset() { if (t) proveBudget = 0; } } rs{top};
  if (top) proveBudget = 400;
  if (--proveBudget <= 0) { proveBudget = proveBudget < 1 ? 1 : proveBudget; return false; }
  i128 lo = x.c;
  E worst = nullptr; i128 wc = 0; i128 wv = 0;
  for (auto &p : x.t) {
    RK a = range(p.first, 4);
    if (a.empty()) return true;
    i128 v = p.second > 0 ? p.second * (i128)(u128)a.ulo : p.second * (i128)(u128)a.uhi;
    i128 best = p.second > 0 ? p.second * (i128)(u128)a.uhi : p.second * (i128)(u128)a.ulo;
    lo += v;
    i128 slack = best - v; // how much could be gained by relating this atom
    if (!worst || slack > wv) { worst = p.first; wc = p.second; wv = slack; }
  }
  if (lo >= 0) return true;
  if (depth <= 0 || x.t.size() > 8) return false;
  std::vector<LinX> imp;
  // candidate atoms: try in order of slack
  std::vector<std::pair<i128, std::pair<E, i128>>> cand;
  for (auto &p : x.t) {
    RK a = range(p.first, 4);
    i128 slack = (p.second > 0 ? p.second : -p.second) * ((i128)(u128)a.uhi - (i128)(u128)a.ulo);
    cand.push_back({slack, p});
  }
  std::stable_sort(cand.begin(), cand.end(), [](auto &a, auto &b) { return a.first > b.first; });
  (void)wc;
  size_t lim = std::min<size_t>(cand.size(), 2);
  for (size_t ci = 0; ci < lim; ci++) {
    E a = cand[ci].second.first; i128 ca = cand[ci].second.second;
    auto tryFact = [&](const LinX &g) -> bool {
      i128 cg = 0;
      for (auto &p : g.t) if (p.first == a) { cg = p.second; break; }
      if (!cg || (cg > 0) != (ca > 0)) return false;
      // x - (ca/cg) g >= 0  suffices; need ca divisible by cg
      if (ca % cg) {
        // scale x by |cg|
        i128 s = cg > 0 ? cg : -cg;
        if (s > 4096) return false;
        LinX y; y.addX(x, s); y.addX(g, -(ca > 0 ? ca : -ca));
        return prove(y, depth - 1);
      }
      LinX y = x; y.addX(g, -(ca / cg));
      return prove(y, depth - 1);
    };
    for (size_t i = f->lin.size(); i-- > 0;) {
      if (proveBudget <= 1) return false;
      if (tryFact(f->lin[i])) return true;
    }
    imp.clear();
    for (auto &p : x.t) implied(*this, p.first, imp);
    for (auto &g : imp) if (tryFact(g)) return true;
  }
  return false;
}
void State::addLin(const LinX &x) {
  if (x.t.empty()) { if (x.c < 0) bottom = true; return; }
  int weaker = -1;
  for (size_t i = 0; i < f->lin.size(); i++) if (f->lin[i].t == x.t) { if (f->lin[i].c <= x.c) return; weaker = i; }
  // contradiction: -x-1 >= 0 provable
  LinX n; n.addX(x, -1); n.c -= 1;
  if (prove(n, 3)) { bottom = true; return; }
  // interval-implied facts are not worth storing
  i128 lo = x.c;
  for (auto &p : x.t) { RK a = range(p.first, 4); lo += p.second > 0 ? p.second * (i128)(u128)a.ulo : p.second * (i128)(u128)a.uhi; }
  if (lo >= 0) return;
  if (weaker >= 0) F().lin[weaker] = x; else F().lin.push_back(x);
  // propagate to single-atom bounds
  for (auto &p : x.t) {
    if (p.first->k == KConst) continue;
    i128 rest = x.c; // p.second*p + rest_hi >= 0
    for (auto &q : x.t) if (q.first != p.first) { RK a = range(q.first, 4); rest += q.second > 0 ? q.second * (i128)(u128)a.uhi : q.second * (i128)(u128)a.ulo; }
    RK a = range(p.first, 4);
    RK n2 = a;
    if (p.second > 0) { // p >= ceil(-rest/c)
      if (rest < 0) { i128 b = (-rest + p.second - 1) / p.second; if (b > (i128)(u128)a.ulo) { if (b > (i128)(u128)a.uhi) { bottom = true; return; } n2.ulo = (uint64_t)b; refine(p.first, n2, 3); } }
    } else {
      i128 c = -p.second; // p <= floor(rest/c)
      if (rest < 0) { bottom = true; return; }
      i128 b = rest / c;
      if (b < (i128)(u128)a.uhi) { if (b < (i128)(u128)a.ulo) { bottom = true; return; } n2.uhi = (uint64_t)b; refine(p.first, n2, 3); }
    }
    if (bottom) return;
  }
}
bool State::proveLe(E a, E b) const {
  LinX x = linU(b); x.addX(linU(a), -1);
  return prove(x);
}

// sum of atoms modulo 2^w
static void modSum(const State &s, E e, uint64_t co, std::map<E, uint64_t, EIdLess> &m, uint64_t &c, int depth = 6) {
  if (e->k == KConst) { c += co * e->c; return; }
  if (e->k == KLin && depth) { c += co * e->c; for (auto &p : e->t) modSum(s, p.first, co * (uint64_t)p.second, m, c, depth - 1); return; }
  unsigned k = 0;
  if (depth) if (E a = AsShlZExt(e, k)) if (a != e) { modSum(s, a, co << k, m, c, depth - 1); return; }
  if (e->k == KBits && depth) { // bits dropped that are zero anyway
    E a = nullptr; for (auto &b : e->bits) if (b.a) { a = b.a; break; }
    if (a && a->w == e->w && a != e) {
      uint64_t dropped = 0; bool ok = true;
      for (unsigned i = 0; i < e->w && ok; i++) {
        const Bit &b = e->bits[i];
        if (b.a) ok = b.a == a && b.i == i && !b.neg;
        else if (b.i) ok = false;
        else dropped |= 1ull << i;
      }
      if (ok && !(dropped & ~s.range(a, 3).kz)) { modSum(s, a, co, m, c, depth - 1); return; }
    }
  }
  m[e] += co;
}
int State::truth(E c) const {
  if (c->k == KConst) return c->c ? 1 : 0;
  RK r = range(c);
  if (r.single()) return r.ulo ? 1 : 0;
  if (c->k == KBits && c->w == 1 && c->bits[0].a && c->bits[0].a->w == 1) {
    int t = truth(c->bits[0].a);
    return t < 0 ? t : (c->bits[0].neg ? !t : t);
  }
  if (c->k == KOp && c->w == 1) {
    int a = truth(c->a), b = truth(c->b);
    if (c->op == OAnd) { if (a == 0 || b == 0) return 0; if (a == 1 && b == 1) return 1; }
    if (c->op == OOr) { if (a == 1 || b == 1) return 1; if (a == 0 && b == 0) return 0; }
    return -1;
  }
  if (c->k != KCmp) return -1;
  E a = c->a, b = c->b;
  Pred p = (Pred)c->op;
  if (a->w == 64) {
    E ra = resolvePtr(a), rb = resolvePtr(b);
    if (ra != a || rb != b) { E c2 = Cmp(p, ra, rb); if (c2 != c) return truth(c2); }
  }
  if (p == PEq || p == PNe) {
    auto key = a->id < b->id ? std::make_pair(a, b) : std::make_pair(b, a);
    if (f->ne.count(key)) return p == PNe;
    if (a->k == KPtr || b->k == KPtr) {
      // no object lies in the kernel's half of the address space
      E q = a->k == KPtr ? a : b, o = a->k == KPtr ? b : a;
      if (o->k == KConst && (o->c >> 63) && q->a->k == KConst && sextw(q->a->c, 64) >= 0) return p == PNe;
      // symbolic pointer against object: unknown unless offsets decide
      return -1;
    }
    if (a->k == KBits || b->k == KBits) { // bit by bit, with the bits known in this state
      std::map<E, RK, EIdLess> seen;
      auto known = [&](Bit &x) {
        if (!x.a) return;
        auto it = seen.find(x.a);
        if (it == seen.end()) it = seen.emplace(x.a, range(x.a, 3)).first;
        bool z = it->second.kz >> x.i & 1, o = it->second.ko >> x.i & 1;
        if (z || o) x = Bit{nullptr, (uint8_t)(o ^ (bool)x.neg), 0};
      };
      auto va = BitsOf(a), vb = BitsOf(b);
      bool same = true;
      for (unsigned i = 0; i < a->w; i++) {
        if (va[i] == vb[i]) continue;
        known(va[i]); known(vb[i]);
        if (va[i] == vb[i]) continue;
        same = false;
        if ((!va[i].a && !vb[i].a) || (va[i].a == vb[i].a && va[i].i == vb[i].i)) return p == PNe;
      }
      if (same) return p == PEq;
    }
    if (a->k == KLin || b->k == KLin) {
      std::map<E, uint64_t, EIdLess> m; uint64_t k = 0;
      modSum(*this, a, 1, m, k); modSum(*this, b, -1ull, m, k);
      bool zero = true; for (auto &q : m) zero = zero && !(q.second & maskw(a->w));
      if (zero) return ((k & maskw(a->w)) == 0) == (p == PEq);
    }
    LinX x = linU(b); x.addX(linU(a), -1); // b - a
    if (x.t.empty()) return (x.c == 0) == (p == PEq);
    LinX n; n.addX(x, -1);
    LinX x1 = x; x1.c -= 1; LinX n1 = n; n1.c -= 1;
    if (prove(x1) || prove(n1)) return p == PNe;
    if (prove(x) && prove(n)) return p == PEq;
    return -1;
  }
  bool sgn = p == PSlt || p == PSle;
  LinX la, lb;
  if (sgn) {
    RK ra = range(a), rb = range(b);
    if (!(ra.slo >= 0 && rb.slo >= 0)) {
      // pointer offsets or possibly negative sums
      if (a->w != 64 || !linP(a, la) || !linP(b, lb)) {
        if (ra.slo >= 0 || rb.slo >= 0 || true) return -1;
      }
    } else { la = linU(a); lb = linU(b); }
  } else {
    if (a->k == KPtr || b->k == KPtr) return -1;
    la = linU(a); lb = linU(b);
  }
  LinX x = lb; x.addX(la, -1); // b - a
  bool strict = p == PUlt || p == PSlt;
  LinX y = x; if (strict) y.c -= 1;
  if (prove(y)) return 1;
  LinX n; n.addX(x, -1); if (!strict) n.c -= 1; // a - b (- 1)
  if (prove(n)) return 0;
  return -1;
}

// a sum that is not below one of its addends has not wrapped
void State::sums(const LinX &x) {
  std::vector<E> cand;
  auto opaque = [&](E e) { return e->k == KLin && e->w == 64 && e->t.size() <= 3 && !f->nowrap.count(e); };
  for (auto &p : x.t) if (opaque(p.first)) cand.push_back(p.first);
  for (auto &l : f->lin) for (auto &p : l.t) if (opaque(p.first)) {
    bool rel = false;
    for (auto &q : p.first->t) for (auto &r : x.t) rel |= q.first == r.first;
    if (rel && std::find(cand.begin(), cand.end(), p.first) == cand.end() && cand.size() < 6) cand.push_back(p.first);
  }
  for (E e : cand) for (auto &q : e->t) {
    if (q.second != 1) continue;
    LinX g; g.add(e, 1); g.addX(linU(q.first), -1);
    if (!prove(g, 3)) continue;
    E y = Sub(e, q.first);
    LinX eq = linU(q.first); eq.addX(linU(y), 1); eq.add(e, -1);
    F().nowrap[e] = NW{q.first, y, 0};
    LinX n; n.addX(eq, -1);
    addLin(eq); if (bottom) return;
    addLin(n); if (bottom) return;
    break;
  }
}

void State::assume(E c, bool t) {
  if (bottom) return;
  if (!t) c = Not1(c);
  if (c->k == KConst) { if (!c->c) bottom = true; return; }
  int tr = truth(c);
  if (tr == 1) return;
  if (tr == 0) { bottom = true; return; }
  RK one = fullRK(c->w); one.ulo = 1; 
  if (c->w == 1) { one.ulo = one.uhi = 1; one.slo = one.shi = -1; }
  norm(one, c->w);
  if (c->k != KCmp) {
    if (c->k == KOp && c->op == OAnd && c->w == 1) { assume(c->a, true); assume(c->b, true); return; }
    if (c->k == KOp && c->op == OOr && c->w == 1) {
      if (truth(c->a) == 0) assume(c->b, true); else if (truth(c->b) == 0) assume(c->a, true);
      return;
    }
    if (c->k == KBits && c->w == 1 && c->bits[0].a && c->bits[0].a->w == 1) { assume(c->bits[0].a, !c->bits[0].neg); return; }
    if (c->k == KBits) { // push known bit without recursion through refine(KCmp)
      refine(c, one); return;
    }
    refine(c, one);
    return;
  }
  F().r[c] = one;
  { E n = Not1(c); RK z = fullRK(1); z.ulo = z.uhi = 0; z.slo = z.shi = 0; norm(z, 1); if (n->k == KCmp) F().r[n] = z; }
  E a = c->a, b = c->b;
  Pred p = (Pred)c->op;
  if (a->w == 64) {
    E ra = resolvePtr(a), rb = resolvePtr(b);
    if (ra != a || rb != b) { E c2 = Cmp(p, ra, rb); if (c2 != c) { assume(c2, true); return; } }
  }
  switch (p) {
  case PEq: {
    if (a->w == 64 && a->k == KSym && (b->k == KPtr)) { F().alias[a] = b; return; }
    if (a->w == 64 && b->k == KSym && (a->k == KPtr)) { F().alias[b] = a; return; }
    RK rb = range(b); if (!refine(a, rb)) return;
    RK ra = range(a); if (!refine(b, ra)) return;
    if (b->k == KConst) {
      if (a->k == KLin || a->k == KOp || a->k == KBits) { LinX x = linU(a); x.c -= (i128)(u128)b->c; addLin(x); LinX n; n.addX(x, -1); addLin(n); }
      break;
    }
    if (a->k == KPtr || b->k == KPtr) break;
    if (a->w == 64 && a->k == KSym && b->k == KSym) F().alias[a->id < b->id ? b : a] = a->id < b->id ? a : b;
    LinX x = linU(b); x.addX(linU(a), -1);
    addLin(x); LinX n; n.addX(x, -1); addLin(n);
    break;
  }
  case PNe: {
    auto key = a->id < b->id ? std::make_pair(a, b) : std::make_pair(b, a);
    F().ne.insert(key);
    if (a->k == KConst) std::swap(a, b);
    if (b->k == KConst && a->k != KPtr) {
      RK ra = range(a); RK n = fullRK(a->w);
      uint64_t v = b->c; int64_t sv = sextw(v, a->w);
      n = ra;
      // shrink, skipping further excluded constants
      bool ch = true;
      while (ch && n.ulo <= n.uhi) {
        ch = false;
        if (n.ulo == v) { n.ulo++; ch = true; }
        else if (n.uhi == v) { n.uhi--; ch = true; }
        if (n.slo == sv) { n.slo++; ch = true; }
        else if (n.shi == sv) { n.shi--; ch = true; }
        if (ch) {
          for (auto &q : f->ne) {
            E o = q.first == a ? q.second : q.second == a ? q.first : nullptr;
            if (o && o->k == KConst && (o->c == n.ulo || o->c == n.uhi || sextw(o->c, a->w) == n.slo || sextw(o->c, a->w) == n.shi)) { v = o->c; sv = sextw(v, a->w); break; }
          }
        }
      }
      if (n.ulo > n.uhi || n.slo > n.shi) { bottom = true; return; }
      norm(n, a->w);
      refine(a, n);
    } else if (b->k != KConst && a->k != KPtr && b->k != KPtr) {
      // a != b with a <= b known: a < b
      LinX x = linU(b); x.addX(linU(a), -1);
      LinX n; n.addX(x, -1);
      if (prove(x)) { x.c -= 1; addLin(x); } else if (prove(n)) { n.c -= 1; addLin(n); }
    }
    break;
  }
  case PUlt: case PUle: {
    bool st = p == PUlt;
    // no-wrap discovery: X <= X+Y
    if (b->k == KLin && a->k != KConst && !f->nowrap.count(b)) {
      E y = Sub(b, a);
      bool shorter = y->k != KLin || y->t.size() < b->t.size();
      if (shorter) {
        LinX l = linU(b);
        if (l.t.size() == 1 && l.t[0].first == b && l.c == 0) F().nowrap[b] = NW{a, y, 0};
      }
    }
    // wrap discovery: X+Y < X
    if (st && a->k == KLin && b->k != KConst && a->k != KPtr && b->k != KPtr && !f->nowrap.count(a)) {
      E y = Sub(a, b);
      bool shorter = y->k != KLin || y->t.size() < a->t.size();
      if (shorter) {
        LinX l = linU(a);
        if (l.t.size() == 1 && l.t[0].first == a && l.c == 0) { F().nowrap[a] = NW{b, y, 1}; LinX g = linU(a); addLin(g); if (bottom) return; }
      }
    }
    RK ra = range(a), rb = range(b);
    RK n = ra; n.uhi = std::min(n.uhi, st ? (rb.uhi ? rb.uhi - 1 : 0) : rb.uhi);
    if (st && rb.uhi == 0) { bottom = true; return; }
    if (!refine(a, n)) return;
    ra = range(a); n = range(b);
    n.ulo = std::max(n.ulo, st ? ra.ulo + 1 : ra.ulo);
    if (!refine(b, n)) return;
    if (a->k == KPtr || b->k == KPtr) break;
    LinX x = linU(b); x.addX(linU(a), -1); if (st) x.c -= 1;
    addLin(x);
    if (!bottom) sums(x);
    break;
  }
  case PSlt: case PSle: {
    bool st = p == PSlt;
    if (a->w == 64) {
      LinX pa, pb;
      if (linP(a, pa) && linP(b, pb)) { LinX x = pb; x.addX(pa, -1); if (st) x.c -= 1; addLin(x); }
    }
    RK ra = range(a), rb = range(b);
    bool na = ra.slo < 0, nb = rb.slo < 0;
    RK n = ra; n.shi = std::min<int64_t>(n.shi, st ? (rb.shi == INT64_MIN ? rb.shi : rb.shi - 1) : rb.shi);
    norm(n, a->w);
    if (!refine(a, n)) return;
    ra = range(a); n = range(b);
    n.slo = std::max<int64_t>(n.slo, st ? (ra.slo == INT64_MAX ? ra.slo : ra.slo + 1) : ra.slo);
    norm(n, b->w);
    if (!refine(b, n)) return;
    ra = range(a); rb = range(b);
    if ((na && ra.slo >= 0) || (nb && rb.slo >= 0)) { // earlier signed comparisons become linear
      std::vector<std::pair<E, int>> again;
      for (auto &q : cF().r) if (q.first->k == KCmp && q.first != c && ((Pred)q.first->op == PSlt || (Pred)q.first->op == PSle) && q.second.single()) {
        E x = q.first->a, y = q.first->b;
        if (x != a && x != b && y != a && y != b) continue;
        again.push_back({q.first, (int)q.second.ulo});
      }
      for (auto &q : again) {
        E x = q.first->a, y = q.first->b; bool sl = (Pred)q.first->op == PSlt;
        if (!q.second) { std::swap(x, y); sl = !sl; }
        if (range(x).slo < 0 || range(y).slo < 0) continue;
        LinX l = linU(y); l.addX(linU(x), -1); if (sl) l.c -= 1;
        addLin(l); if (bottom) return;
      }
    }
    LinX la, lb;
    if (ra.slo >= 0 && rb.slo >= 0) { la = linU(a); lb = linU(b); }
    else if (a->w != 64 || !linP(a, la) || !linP(b, lb)) break;
    LinX x = lb; x.addX(la, -1); if (st) x.c -= 1;
    addLin(x);
    break;
  }
  }
}
