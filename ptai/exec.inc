// Instruction semantics, fixpoints and calls (included by engine.cpp).

struct Slot { PState st; ESet H; int iter = 0; std::vector<uint64_t> hobjs; std::string key; bool dirty = false; };
struct Act {
  Frame fr; FnInfo *fi; uint32_t entryId;
  std::map<int, std::vector<Slot>> slots; // by header rpo
};
struct RecInfo { Frame *fr; std::vector<Slot> slots; };
static std::vector<std::pair<Frame *, RecInfo *>> recStack;

static std::vector<Out> callFn(Function *F, const std::vector<E> &args, State s, Frame *parent, const Instruction *site);
static std::vector<Out> execBody(Function *F, const std::vector<E> &args, const State &s0, Frame &fr);

// ---------------------------------------------------------------- helpers
static std::string partKey(const State &s) {
  std::string k;
  for (auto &g : *s.ghost) if (!(g.second->k == KConst && g.second->c == 0)) { k += std::to_string(g.first.first->id) + "," + std::to_string(g.first.second) + "=" + std::to_string(g.second->id) + ";"; }
  k += "|";
  for (auto &m : *s.mem) {
    if (objs[m.first].kind == Obj::Heap && m.second->alive) k += "h" + std::to_string(m.first);
    else if (!m.second->alive) k += "d" + std::to_string(m.first);
  }
  return k;
}
static void collectSyms(E e, ESet &out, std::unordered_map<E, char> &seen) {
  if (!seen.emplace(e, 1).second) return;
  if (e->k == KSym) { out.insert(e); return; }
  if (e->a) collectSyms(e->a, out, seen);
  if (e->b) collectSyms(e->b, out, seen);
  for (auto &p : e->t) collectSyms(p.first, out, seen);
  E last = nullptr;
  for (auto &b : e->bits) if (b.a && b.a != last) { last = b.a; collectSyms(b.a, out, seen); }
}
static std::unordered_map<E, std::vector<E>> atomCache;
static const std::vector<E> &atomsOf(E e) {
  auto it = atomCache.find(e);
  if (it != atomCache.end()) return it->second;
  ESet o; std::unordered_map<E, char> seen; collectSyms(e, o, seen);
  return atomCache[e] = std::vector<E>(o.begin(), o.end());
}
static bool mentions(E e, const ESet &H) {
  if (H.empty()) return false;
  for (E a : atomsOf(e)) if (H.count(a)) return true;
  return false;
}

// drop facts on symbols created since entryId that nothing refers to any more
static void gcFacts(State &s, uint32_t entryId, E ret, const std::vector<E> *env) {
  if (s.f->lin.size() < 24 && s.f->r.size() < 200) return;
  ESet live; std::unordered_map<E, char> seen;
  if (ret) collectSyms(ret, live, seen);
  if (env) for (E e : *env) if (e) collectSyms(e, live, seen);
  for (auto &m : *s.mem) {
    for (auto &c : m.second->cells) if (c.second.k == Cell::V) collectSyms(c.second.v, live, seen);
    for (auto &g : m.second->groups) { collectSyms(g.base, live, seen); for (auto &c : g.cells) if (c.second.k == Cell::V) collectSyms(c.second.v, live, seen); }
  }
  for (auto &g : *s.ghost) collectSyms(g.second, live, seen);
  for (auto &o : s.f->alias) collectSyms(o.second, live, seen);
  auto dead = [&](E e) { if (e->id <= entryId) return false; for (E a : atomsOf(e)) if (a->id > entryId && !live.count(a)) return true; return false; };
  Facts &F = s.F();
  for (auto it = F.r.begin(); it != F.r.end();) if (dead(it->first)) it = F.r.erase(it); else ++it;
  for (auto it = F.ne.begin(); it != F.ne.end();) if (dead(it->first) || dead(it->second)) it = F.ne.erase(it); else ++it;
  // eliminate dead atoms pairwise before dropping
  std::vector<LinX> keep, drop;
  for (auto &l : F.lin) { bool d = false; for (auto &p : l.t) if (dead(p.first)) d = true; (d ? drop : keep).push_back(l); }
  if (drop.size() <= 40)
    for (size_t i = 0; i < drop.size(); i++) for (size_t k = 0; k < drop.size(); k++) if (i != k) {
      for (auto &p : drop[i].t) if (p.second > 0 && dead(p.first)) {
        i128 ck = 0; for (auto &q : drop[k].t) if (q.first == p.first) ck = q.second;
        if (ck >= 0) continue;
        LinX x; x.addX(drop[i], -ck); x.addX(drop[k], p.second);
        bool d = x.t.empty() || x.t.size() > 4; for (auto &q : x.t) if (dead(q.first)) d = true;
        if (!d) { i128 g = 0; for (auto &q : x.t) { i128 a = q.second < 0 ? -q.second : q.second; while (a) { i128 t2 = g % a; g = a; a = t2; } }
          if (g > 1) { for (auto &q : x.t) q.second /= g; x.c = x.c >= 0 ? x.c / g : -((-x.c + g - 1) / g); }
          bool have = false; for (auto &y : keep) if (y == x) have = true; if (!have && keep.size() < 80) keep.push_back(x); }
      }
    }
  F.lin = keep;
  for (auto it = F.nowrap.begin(); it != F.nowrap.end();) if (dead(it->first) || dead(it->second.first) || dead(it->second.second)) it = F.nowrap.erase(it); else ++it;
}

// content known only relative to symbolic positions nothing points to any more is forgotten
static void pruneGroups(State &s, const std::vector<E> &env, Frame *fr) {
  bool any = false;
  for (auto &m : *s.mem) if (!m.second->groups.empty()) { any = true; break; }
  if (!any) return;
  std::set<std::pair<uint64_t, E>> bases;
  auto add = [&](E e) {
    if (!e || e->w != 64 || e->k == KConst) return;
    e = s.resolvePtr(e);
    if (e->k != KPtr) return;
    E b; int64_t c; E off = s.simp(e->a); if (off->k == KConst) return;
    SplitConst(off, b, c); bases.insert({e->c, b});
  };
  for (E e : env) add(e);
  for (Frame *f = fr; f; f = f->parent) if (f->env) for (E e : *f->env) add(e);
  for (auto &m : *s.mem) { for (auto &c : m.second->cells) if (c.second.k == Cell::V) add(c.second.v); for (auto &g : m.second->groups) for (auto &c : g.cells) if (c.second.k == Cell::V) add(c.second.v); }
  std::vector<uint64_t> ids;
  for (auto &m : *s.mem) for (auto &g : m.second->groups) if (!bases.count({m.first, g.base})) { ids.push_back(m.first); break; }
  for (uint64_t id : ids) if (objs[id].kind != Obj::Shadow) { auto &g = memOfW(s, id).groups; g.erase(std::remove_if(g.begin(), g.end(), [&](SymGroup &x) { return !bases.count({id, x.base}); }), g.end()); }
}

// ---------------------------------------------------------------- subsumption
struct Match {
  State &A, &B; const ESet &H; std::unordered_map<E, E> m; std::vector<std::pair<E, E>> deferred;
  Match(State &a, State &b, const ESet &h) : A(a), B(b), H(h) {}
  bool bind(E w, E v) {
    auto it = m.find(w);
    if (it == m.end()) { m[w] = v; return true; }
    return it->second == v || B.truth(Cmp(PEq, it->second, v)) == 1;
  }
  bool val(E a, E b) {
    if (a->w != b->w) return false;
    if (a->k == KSym && H.count(a)) return bind(a, b);
    if (!mentions(a, H)) {
      if (a == b) return true;
      if (B.truth(Cmp(PEq, a, b)) == 1) return true;
      if (a->w == 64) { E ra = A.resolvePtr(a), rb = B.resolvePtr(b); if (ra->k == KPtr && rb->k == KPtr && ra->c == rb->c) return val2(ra->a, rb->a); }
      return false;
    }
    return val2(a, b);
  }
  bool val2(E a, E b) {
    if (a->k == KSym && H.count(a)) return bind(a, b);
    if (!mentions(a, H)) return a == b || B.truth(Cmp(PEq, a, b)) == 1;
    if (a->k == KPtr) {
      E rb = B.resolvePtr(b);
      if (rb->k == KPtr && rb->c == a->c) return val2(a->a, rb->a);
      return false;
    }
    if (a->k == KLin) {
      for (auto &p : a->t) if (p.first->k == KSym && H.count(p.first) && !m.count(p.first) && (p.second == 1 || p.second == maskw(a->w))) {
        std::map<E, uint64_t> t; for (auto &q : a->t) if (q.first != p.first) t[q.first] = q.second;
        E rest = Lin(a->w, std::move(t), a->c);
        if (mentions(rest, H)) break;
        E d = Sub(b, rest);
        return bind(p.first, p.second == 1 ? d : MulC(d, ~0ull));
      }
    }
    if (E z = AsZExt(a)) {
      if (z->k == KSym && H.count(z) && !m.count(z)) {
        E zb = AsZExt(b);
        if (zb && zb->w == z->w) return bind(z, zb);
        if (B.range(b).uhi <= maskw(z->w)) { return bind(z, Trunc(b, z->w)); }
        return false;
      }
    }
    if (E z = AsSExt(a)) {
      if (z->k == KSym && H.count(z) && !m.count(z)) { E zb = AsSExt(b); if (zb && zb->w == z->w) return bind(z, zb); if (b->k == KConst) { E t = Trunc(b, z->w); if (SExt(t, b->w) == b) return bind(z, t); } }
    }
    deferred.push_back({a, b});
    return true;
  }
};
static bool matchCells(Match &M, const std::map<int64_t, Cell> &a, const Cell *da, const std::map<int64_t, Cell> &b, const Cell *db) {
  std::vector<std::pair<int64_t, int64_t>> iv, mer;
  for (auto &c : a) iv.push_back({c.first, c.first + c.second.size});
  if (da) for (auto &c : b) iv.push_back({c.first, c.first + c.second.size});
  std::sort(iv.begin(), iv.end());
  for (auto &i : iv) { if (!mer.empty() && i.first < mer.back().second) mer.back().second = std::max(mer.back().second, i.second); else mer.push_back(i); }
  for (auto &i : mer) {
    std::vector<std::pair<int64_t, Cell>> pa, pb;
    if (!pieces(a, da, i.first, i.second - i.first, pa)) return false;
    if (!pieces(b, db, i.first, i.second - i.first, pb)) return false;
    std::set<int64_t> cut; for (auto &p : pa) cut.insert(p.first); for (auto &p : pb) cut.insert(p.first); cut.insert(i.second);
    for (auto it = cut.begin(); std::next(it) != cut.end(); ++it) {
      int64_t x = *it, len = *std::next(it) - x;
      auto part = [&](std::vector<std::pair<int64_t, Cell>> &ps) { for (auto &p : ps) if (p.first <= x && x < p.first + p.second.size) return cellPart(p.second, x - p.first, len); return Cell(); };
      Cell ca = part(pa), cb = part(pb);
      if (ca.k != Cell::V && cellEq(ca, cb)) continue;
      if (ca.k == Cell::I && tags[ca.tag].name.compare(0, 2, "j ") == 0) {
        // unknown content: covers anything with fewer labels
        uint64_t lb = cb.k == Cell::V ? cb.v->labels : defLabels(cb);
        if (!(lb & ~defLabels(ca))) continue;
      }
      if (len > 8) return false;
      if (!M.val(cellSlice(ca, 0, len), cellSlice(cb, 0, len))) return false;
    }
  }
  return true;
}
static E substE(Match &M, E e, std::unordered_map<E, E> &memo) { return M.m.empty() ? e : Subst(e, M.m, memo); }
// is every concrete state of B described by slot A?
static int subsDbg = 0;
static bool subsumed(PState &PB, Slot &SA, const std::vector<int> &live) {
  State &A = SA.st.s, &B = PB.s;
  auto fail = [&](const char *why, E e = nullptr, E f = nullptr) { if (subsDbg) fprintf(stderr, "  not subsumed: %s %s %s\n", why, e ? Str(e).c_str() : "", f ? Str(f).c_str() : ""); return false; };
  if (!sameAlive(A, B)) return fail("alive");
  Match M(A, B, SA.H);
  for (int i : live) {
    E a = SA.st.env[i], b = PB.env[i];
    if (!a && !b) continue;
    if (!a) continue;
    if (!b || !M.val(a, b)) return fail("env", a, b);
  }
  if (A.ghost != B.ghost || !SA.H.empty()) {
    for (auto &p : *A.ghost) { auto it = B.ghost->find(p.first); E vb = it == B.ghost->end() ? Const(0, 64) : it->second; if (!M.val(p.second, vb)) return fail("ghost"); }
    for (auto &p : *B.ghost) if (!A.ghost->count(p.first) && !(p.second->k == KConst && p.second->c == 0)) return fail("ghost");
  }
  std::set<uint64_t> ids;
  if (A.mem != B.mem) { for (auto &p : *A.mem) ids.insert(p.first); for (auto &p : *B.mem) ids.insert(p.first); }
  for (uint64_t id : SA.hobjs) ids.insert(id);
  std::set<uint64_t> ho(SA.hobjs.begin(), SA.hobjs.end());
  for (uint64_t id : ids) {
    auto ia = A.mem->find(id), ib = B.mem->find(id);
    if (ia != A.mem->end() && ib != B.mem->end() && ia->second == ib->second && !ho.count(id)) continue;
    bool local = objs[id].kind == Obj::Alloca || objs[id].kind == Obj::Heap || objs[id].kind == Obj::Region;
    if (local && ia == A.mem->end()) continue; // created in the body, not referred to by A
    const ObjMem &a = memOf(A, id), &b = memOf(B, id);
    Cell da = a.def, db = b.def; da.size = db.size = 0;
    bool defOk = cellEq(da, db) || (da.k == Cell::I && tags[da.tag].name.compare(0, 2, "j ") == 0 && !((db.k == Cell::I ? defLabels(db) : 0) & ~defLabels(da)));
    if (!defOk) return fail("default content");
    bool anyDef = !cellEq(da, db);
    if (!matchCells(M, a.cells, anyDef ? nullptr : &a.def, b.cells, &b.def)) return fail(objs[id].name.c_str());
    for (auto &ga : a.groups) {
      const SymGroup *gb = nullptr;
      for (auto &g : b.groups) if (g.base == ga.base) gb = &g;
      if (!gb) return fail("group");
      if (!matchCells(M, ga.cells, nullptr, gb->cells, nullptr)) return fail("group cells");
    }
  }
  std::unordered_map<E, E> memo;
  for (auto &d : M.deferred) {
    E x = substE(M, d.first, memo);
    if (x != d.second && B.truth(Cmp(PEq, x, d.second)) != 1) return fail("deferred", d.first, d.second);
  }
  if (A.f == B.f && M.m.empty()) return true;
  const Facts &F = A.cF();
  for (auto &p : F.r) {
    E e = substE(M, p.first, memo);
    RK b = B.range(e); const RK &a = p.second;
    if (e->k == KCmp) { int t = B.truth(e); if (a.single() && t == (int)a.ulo) continue; if (a.single()) return fail("cond", p.first); continue; }
    if (b.ulo >= a.ulo && b.uhi <= a.uhi && b.slo >= a.slo && b.shi <= a.shi && !(a.kz & ~b.kz & maskw(e->w)) && !(a.ko & ~b.ko)) continue;
    // interval ends may be linear facts
    LinX lo = B.linU(e); lo.c -= (i128)(u128)a.ulo; LinX hi; hi.addX(B.linU(e), -1); hi.c += (i128)(u128)a.uhi;
    bool signedTrivial = (a.uhi <= (maskw(e->w) >> 1)) ? a.slo <= (int64_t)a.ulo && a.shi >= (int64_t)a.uhi : (a.slo == sextw(1ull << (e->w - 1), e->w) && a.shi == (int64_t)(maskw(e->w) >> 1));
    if (signedTrivial && B.prove(lo) && B.prove(hi)) { 
      uint64_t n = a.kz; uint64_t implied = a.uhi ? (a.uhi == ~0ull ? 0 : ~((64 - __builtin_clzll(a.uhi)) >= 64 ? ~0ull : (1ull << (64 - __builtin_clzll(a.uhi))) - 1)) : ~0ull;
      if (!(n & ~implied & ~b.kz) && !(a.ko & ~b.ko)) continue;
    }
    return fail("range", p.first, e);
  }
  for (auto &p : F.ne) {
    E x = substE(M, p.first, memo), y = substE(M, p.second, memo);
    if (B.truth(Cmp(PNe, x, y)) != 1) return fail("ne", p.first, p.second);
  }
  for (auto &l : F.lin) {
    LinX x; x.c = l.c;
    for (auto &t : l.t) x.addX(B.linU(substE(M, t.first, memo)), t.second);
    if (!B.prove(x)) { if (subsDbg) { for (auto &t : l.t) fprintf(stderr, "   %lld*%s", (long long)t.second, Str(t.first).c_str()); fprintf(stderr, " + %lld\n", (long long)l.c); } return fail("linear"); }
  }
  for (auto &p : F.nowrap) {
    E k = substE(M, p.first, memo), x = substE(M, p.second.first, memo), y = substE(M, p.second.second, memo);
    auto it = B.cF().nowrap.find(k);
    if (it != B.cF().nowrap.end() && it->second == NW{x, y, p.second.wrap}) continue;
    if (p.second.wrap) return fail("wrap", p.first);
    LinX s = B.linU(x); s.addX(B.linU(y), 1); LinX n; n.addX(s, -1); n.c += (i128)(u128)maskw(k->w);
    if (!B.prove(n)) return fail("nowrap", p.first);
  }
  for (auto &p : F.alias) { E x = substE(M, p.first, memo), y = substE(M, p.second, memo); if (B.resolvePtr(x) != B.resolvePtr(y)) return fail("alias", p.first); }
  return true;
}
static void noteH(Slot &S) {
  S.hobjs.clear();
  for (auto &m : *S.st.s.mem) {
    bool h = false;
    for (auto &c : m.second->cells) if (c.second.k == Cell::V && mentions(c.second.v, S.H)) { h = true; break; }
    for (auto &g : m.second->groups) for (auto &c : g.cells) if (c.second.k == Cell::V && mentions(c.second.v, S.H)) h = true;
    if (h) S.hobjs.push_back(m.first);
  }
}
// symbols bound by the slot that are no longer referred to are projected out
static void projectH(Slot &S, const std::vector<int> &live) {
  ESet ref; std::unordered_map<E, char> seen;
  State &s = S.st.s;
  for (int i : live) if (S.st.env[i]) collectSyms(S.st.env[i], ref, seen);
  for (auto &m : *s.mem) { for (auto &c : m.second->cells) if (c.second.k == Cell::V) collectSyms(c.second.v, ref, seen); for (auto &g : m.second->groups) for (auto &c : g.cells) if (c.second.k == Cell::V) collectSyms(c.second.v, ref, seen); }
  for (auto &g : *s.ghost) collectSyms(g.second, ref, seen);
  ESet dead;
  for (E h : S.H) if (!ref.count(h)) dead.insert(h);
  for (E d : dead) S.H.erase(d);
  if (dead.empty()) return;
  Facts &F = s.F();
  for (auto it = F.r.begin(); it != F.r.end();) if (mentions(it->first, dead)) it = F.r.erase(it); else ++it;
  for (auto it = F.ne.begin(); it != F.ne.end();) if (mentions(it->first, dead) || mentions(it->second, dead)) it = F.ne.erase(it); else ++it;
  std::vector<LinX> keep; for (auto &l : F.lin) { bool d = false; for (auto &p : l.t) if (mentions(p.first, dead)) d = true; if (!d) keep.push_back(l); }
  F.lin = keep;
  for (auto it = F.nowrap.begin(); it != F.nowrap.end();) if (mentions(it->first, dead) || mentions(it->second.first, dead) || mentions(it->second.second, dead)) it = F.nowrap.erase(it); else ++it;
  for (auto it = F.alias.begin(); it != F.alias.end();) if (mentions(it->first, dead) || mentions(it->second, dead)) it = F.alias.erase(it); else ++it;
}
// widen slot by B. false: refused
static bool widenSlot(Slot &S, PState &B, const std::vector<int> &live, bool force) {
  PState R; std::vector<std::pair<E, std::pair<E, E>>> syms;
  bool widen = S.iter >= 3;
  if (!joinStates(S.st, B, live, R, force, widen, &syms)) return false;
  widenings++;
  for (auto &x : syms) S.H.insert(x.first);
  S.st = R; S.iter++;
  if (S.iter > 12) { // give up on relations
    Facts &F = S.st.s.F();
    std::vector<LinX> keep; for (auto &l : F.lin) { bool d = false; for (auto &p : l.t) if (mentions(p.first, S.H)) d = true; if (!d) keep.push_back(l); }
    F.lin = keep;
    if (S.iter > 16) for (auto it = F.r.begin(); it != F.r.end();) if (mentions(it->first, S.H)) it = F.r.erase(it); else ++it;
    if (S.iter > 18) for (auto it = F.ne.begin(); it != F.ne.end();) if (mentions(it->first, S.H) || mentions(it->second, S.H)) it = F.ne.erase(it); else ++it;
  }
  projectH(S, live);
  noteH(S);
  if (getenv("PTAI_WIDEN")) { fprintf(stderr, "== slot iter %d syms:", S.iter); for (auto &x : syms) fprintf(stderr, " %s <- %s | %s;", Str(x.first).c_str(), Str(x.second.first).c_str(), Str(x.second.second).c_str()); fprintf(stderr, "\n"); for (auto &l : S.st.s.f->lin) { std::string t; for (auto &p : l.t) t += std::to_string((long long)p.second) + "*" + Str(p.first) + " "; fprintf(stderr, "   fact %s + %lld >= 0\n", t.c_str(), (long long)l.c); } for (E h : S.H) { RK r = S.st.s.range(h); fprintf(stderr, "   H %s [%llx,%llx] s[%lld,%lld]\n", Str(h).c_str(), (unsigned long long)r.ulo, (unsigned long long)r.uhi, (long long)r.slo, (long long)r.shi); } }
  return true;
}

// ---------------------------------------------------------------- reduction of path sets
static uint64_t envHash(const PState &p, const std::vector<int> &live) {
  uint64_t h = 17;
  for (int i : live) h = hmix64(h, p.env[i] ? p.env[i]->id : 0);
  return h;
}
static bool sameFacts(State &a, State &b) {
  if (a.f == b.f) return true;
  const Facts &x = a.cF(), &y = b.cF();
  return x.lin == y.lin && x.ne == y.ne && x.nowrap == y.nowrap && x.alias == y.alias && x.r.size() == y.r.size() &&
    std::all_of(x.r.begin(), x.r.end(), [&](auto &p) { auto it = y.r.find(p.first); return it != y.r.end() && it->second.ulo == p.second.ulo && it->second.uhi == p.second.uhi && it->second.slo == p.second.slo && it->second.shi == p.second.shi && it->second.kz == p.second.kz && it->second.ko == p.second.ko; });
}
static int optKeep = 1; // states with equal data kept apart
// errors and successes are merged last
static void signKey(PState &p, const std::vector<int> &live, std::string &k) {
  for (int n : live) {
    E e = p.env[n]; if (!e || e->w != 32 || e->k == KPtr) continue;
    if (e->k == KConst) { k += (int32_t)e->c < 0 ? "-" : "+"; continue; }
    RK r = p.s.range(e);
    k += r.shi < 0 ? "-" : r.slo >= 0 ? "+" : "?";
  }
}
static void reduce(std::vector<PState> &v, const std::vector<int> &live, int cap, const std::vector<int> &signs = {}) {
  if (v.size() < 2) return;
  // identical data: join facts
  std::unordered_map<uint64_t, std::vector<size_t>> idx;
  std::vector<PState> out;
  for (auto &p : v) {
    uint64_t h = envHash(p, live);
    bool done = false;
    int same = 0; if (optKeep > 1) for (size_t k : idx[h]) same += sameData(out[k], p, live);
    if (same && same < optKeep && (int)v.size() <= cap / 2) {
      bool cov = false; for (size_t k : idx[h]) if (sameData(out[k], p, live) && sameFacts(out[k].s, p.s)) cov = true;
      if (!cov) { idx[h].push_back(out.size()); out.push_back(std::move(p)); continue; }
    }
    for (size_t k : idx[h]) if (sameData(out[k], p, live)) {
      std::vector<Visit> vis = out[k].visits;
      joinFactsOnly(out[k].s, p.s); joins++;
      for (auto &x : p.visits) { bool f = false; for (auto &u : vis) if (u.hdr == x.hdr) { f = true; u.count = std::max(u.count, x.count); u.undec = std::max(u.undec, x.undec); u.slot = std::max(u.slot, x.slot); u.bounded = std::min(u.bounded, x.bounded); } if (!f) vis.push_back(x); }
      out[k].visits = vis;
      done = true; break;
    }
    if (!done) { idx[h].push_back(out.size()); out.push_back(std::move(p)); }
  }
  v.swap(out);
  if ((int)v.size() <= cap) return;
  for (int level = 0; level < 3 && (int)v.size() > (level == 0 ? cap : level == 1 ? cap : cap * 3); level++) {
    std::map<std::string, std::vector<size_t>> groups; std::vector<std::string> order;
    // small local counters with many different values are merged last
    std::vector<std::pair<uint64_t, int64_t>> counters;
    if (level == 0) {
      std::map<std::pair<uint64_t, int64_t>, std::set<uint64_t>> vals;
      for (auto &p : v) for (auto &m : *p.s.mem) if (m.second && (objs[m.first].kind == Obj::Alloca || objs[m.first].kind == Obj::Region))
        for (auto &c : m.second->cells) if (c.second.k == Cell::V && c.second.size == 1) { E x = c.second.v; auto &w = vals[{m.first, c.first}]; if (x->k == KConst) w.insert(x->c); }
      for (auto &p : vals) if (p.second.size() > 2) counters.push_back(p.first);
    }
    for (size_t i = 0; i < v.size(); i++) {
      std::string k;
      if (level < 2) k = partKey(v[i].s);
      if (level == 0) signKey(v[i], live, k); else if (!signs.empty()) signKey(v[i], signs, k);
      if (level == 0) for (int n : live) { E e = v[i].env[n]; if (!e) { k += "-"; continue; } E x = v[i].s.simp(e); if (x->k == KConst) k += ":" + std::to_string(x->c); else if (x->k == KPtr) k += "p" + std::to_string(x->c); else k += "?"; }
      for (auto &q : counters) { auto *m = v[i].s.cO(q.first); if (!m) { k += "-"; continue; } auto it = m->cells.find(q.second); k += it != m->cells.end() && it->second.k == Cell::V && it->second.size == 1 && it->second.v->k == KConst ? ":" + std::to_string(it->second.v->c) : "?"; }
      if (!groups.count(k)) order.push_back(k);
      groups[k].push_back(i);
    }
    std::vector<PState> res; int excess = v.size() - cap;
    // merge within the biggest groups first
    std::sort(order.begin(), order.end(), [&](auto &a, auto &b) { return groups[a].size() > groups[b].size(); });
    for (auto &k : order) {
      auto &g = groups[k];
      std::vector<PState> acc;
      for (size_t n = 0; n < g.size(); n++) {
        bool merged = false;
        if (excess > 0) for (auto &a : acc) {
          PState R;
          if (joinStates(a, v[g[n]], live, R, level == 2)) { a = R; merged = true; excess--; joins++; break; }
        }
        if (!merged) acc.push_back(std::move(v[g[n]]));
      }
      for (auto &a : acc) res.push_back(std::move(a));
    }
    v.swap(res);
    if (level == 2) notes.insert("paths with different typestate were merged");
  }
}
static void reduceOuts(std::vector<Out> &v, int cap) {
  if (v.size() < 2) return;
  std::vector<PState> ps; 
  for (auto &o : v) { PState p; p.s = o.s; p.env = {o.ret}; ps.push_back(std::move(p)); }
  std::vector<int> live; if (v[0].ret) live.push_back(0);
  reduce(ps, live, cap, live);
  v.clear();
  for (auto &p : ps) v.push_back({p.s, p.env[0]});
}

// ---------------------------------------------------------------- values
static E evalV(Act &A, PState &p, const Value *V) {
  auto it = A.fi->num.find(V);
  if (it != A.fi->num.end()) { E e = p.env[it->second]; if (e) return e; unsigned w = widthOf(V->getType()); return w ? Sym("agg", w) : nullptr; }
  if (auto *C = dyn_cast<Constant>(V)) { E e = constToE(C, &p.s); if (e) return e; unsigned w = widthOf(V->getType()); return w ? Sym("c?", w) : nullptr; }
  unsigned w = widthOf(V->getType());
  return w ? Sym("?", w) : nullptr;
}
static void setV(Act &A, PState &p, const Instruction *I, E e) { p.env[A.fi->num[I]] = e; }

// extension distributed over sums that provably do not overflow
static E extend(State &s, E e, unsigned w, bool sgn) {
  if (e->w == w) return e;
  if (e->k == KLin) {
    i128 lo = sextw(e->c, e->w), hi = lo, lo2 = lo, hi2 = lo;
    bool ok = true;
    for (auto &p : e->t) {
      RK a = s.range(p.first); i128 c = sextw(p.second, e->w);
      if (c > 0) { lo += c * a.slo; hi += c * a.shi; lo2 += c * (i128)(u128)a.ulo; hi2 += c * (i128)(u128)a.uhi; }
      else { lo += c * a.shi; hi += c * a.slo; lo2 += c * (i128)(u128)a.uhi; hi2 += c * (i128)(u128)a.ulo; }
    }
    i128 smin = sextw(1ull << (e->w - 1), e->w), smax = (i128)(maskw(e->w) >> 1), umax = (i128)(u128)maskw(e->w);
    auto dist = [&](bool termSigned) { E r = Const((uint64_t)sextw(e->c, e->w), w); for (auto &p : e->t) r = Add(r, MulC(extend(s, p.first, w, termSigned), (uint64_t)sextw(p.second, e->w))); return r; };
    if (sgn) {
      if (lo >= smin && hi <= smax) return dist(true);
      if (lo2 >= 0 && hi2 <= smax) return dist(false);
      LinX l = s.linU(e); bool self = l.t.size() == 1 && l.t[0].first == e;
      if (!self && s.range(e).slo >= 0) { bool un = true; for (auto &p : e->t) if (s.range(p.first).slo < 0) un = false; if (un) { LinX c; c.c = sextw(e->c, e->w); for (auto &p : e->t) c.addX(s.linU(p.first), sextw(p.second, e->w)); if (c == l) return dist(false); } }
    } else {
      if (lo2 >= 0 && hi2 <= umax) return dist(false);
      LinX c; c.c = sextw(e->c, e->w); for (auto &p : e->t) c.addX(s.linU(p.first), sextw(p.second, e->w));
      LinX d; d.addX(c, -1); d.c += umax;
      if (s.prove(c, 3) && s.prove(d, 3)) return dist(false);
    }
    (void)ok;
  }
  if (sgn) { if (s.range(e).slo >= 0) { return extend(s, e, w, false); } return SExt(e, w); }
  return ZExt(e, w);
}

static Pred predOf(CmpInst::Predicate p, bool &swap) {
  swap = false;
  switch (p) {
  case CmpInst::ICMP_EQ: return PEq; case CmpInst::ICMP_NE: return PNe;
  case CmpInst::ICMP_ULT: return PUlt; case CmpInst::ICMP_ULE: return PUle;
  case CmpInst::ICMP_UGT: swap = true; return PUlt; case CmpInst::ICMP_UGE: swap = true; return PUle;
  case CmpInst::ICMP_SLT: return PSlt; case CmpInst::ICMP_SLE: return PSle;
  case CmpInst::ICMP_SGT: swap = true; return PSlt; default: swap = true; return PSle;
  }
}
static void useCheck(Act &A, PState &p, const Instruction *I, E e, const char *what) {
  if ((checkMask & CK_UNINIT) && e && (e->labels & L_UNINIT)) {
    E x = p.s.simp(e);
    if (x->labels & L_UNINIT) { oblig("uninit-use", I); report("uninit-use", "use of uninitialized value", p.s, &A.fr, I, std::string(what) + " depends on uninitialized memory: " + Str(e, 4)); }
  } else if (checkMask & CK_UNINIT) oblig("uninit-use", I);
}
// a pointer with its low bits cleared stays a pointer into the same object
static E alignedPtr(E r) {
  unsigned k = 0, sh = 0; E v = r; uint64_t add = 0;
  if (r->k == KLin && r->t.size() == 1 && r->t[0].second && !(r->t[0].second & (r->t[0].second - 1))) {
    sh = __builtin_ctzll(r->t[0].second); v = r->t[0].first; add = r->c;
  }
  if (v->k != KBits) return r;
  k = sh; while (k < 64 && !v->bits[k - sh].a && !v->bits[k - sh].i && !v->bits[k - sh].neg) k++;
  if (k == 0 || k > 12) return r;
  E q = v->bits[k - sh].a;
  if (!q || q->k != KPtr) return r;
  for (unsigned i = k; i < 64; i++) if (v->bits[i - sh].a != q || v->bits[i - sh].i != i || v->bits[i - sh].neg) return r;
  return Ptr(q->c, Add(Sub(q->a, ZExt(SymKeyed("misalignment " + std::to_string(q->id) + "/" + std::to_string(1u << k), k, q->labels), 64)), Const(add, 64)));
}
// refine pointer-typed comparisons against known objects: pointer symbols bound to lazy objects
static E geP(State &s, E base, E off) { (void)s; return Add(base, off); }

static E gepOffset(Act &A, PState &p, const GEPOperator *G) {
  E off = Const(0, 64);
  for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
    const Value *idx = it.getOperand();
    if (StructType *ST = it.getStructTypeOrNull()) {
      unsigned f = cast<ConstantInt>(idx)->getZExtValue();
      off = Add(off, Const(DL->getStructLayout(ST)->getElementOffset(f), 64));
    } else {
      uint64_t es = DL->getTypeAllocSize(it.getIndexedType());
      E i = evalV(A, p, idx);
      if (i->w < 64) i = extend(p.s, i, 64, true);
      off = Add(off, MulC(i, es));
    }
  }
  return off;
}

// ---------------------------------------------------------------- weak range updates
static void havocSymbolic(State &s, const Addr &a, E n, uint64_t labels) {
  if (n->k == KConst) { if (n->c) havocRange(s, a, n->c, newTag("j " + objs[a.obj].name, labels)); return; }
  RK r = s.range(n);
  const Obj &o = objs[a.obj];
  uint64_t lim = r.uhi;
  if (o.size && !a.base) { RK so = s.range(o.size); if (so.uhi >= (uint64_t)std::max<int64_t>(0, a.off)) lim = std::min<uint64_t>(lim, so.uhi - a.off); }
  if (!(!a.base && lim <= 65536)) noteWrite(s, a, -1);
  ObjMem &m = memOfW(s, a.obj);
  uint64_t lab = labels | (!a.base && lim <= 65536 ? rangeLabels(m, a.off, a.off + lim) : memLabels(m));
  if (!a.base && lim <= 65536) { havocRange(s, a, lim, newTag("j " + o.name, lab)); return; }
  // everything from the lowest possible offset on becomes unknown
  int64_t lo = 0, hi = 0;
  if (!offRange(s, a, lo, hi)) lo = INT64_MIN / 4;
  for (auto it = m.cells.begin(); it != m.cells.end();) if (it->first + it->second.size > lo) { 
      if (it->first < lo) { Cell c = cellPart(it->second, 0, lo - it->first); it->second = c; ++it; } else it = m.cells.erase(it); } else ++it;
  Cell old = m.def;
  std::map<int64_t, Cell> keep = m.cells;
  if (lo > 0 && old.k == Cell::I && lo < (1 << 20)) { // bytes before stay as they were
    std::vector<std::pair<int64_t, Cell>> ps; pieces(m.cells, &m.def, 0, lo, ps);
    keep.clear(); for (auto &p : ps) keep[p.first] = p.second;
  }
  m.cells = keep; m.groups.clear();
  m.def = initCell(newTag("j " + o.name, lab));
}
static bool copySym(Act &A, PState &p, const Instruction *I, E d, E sp, E n, bool) {
  State &s = p.s;
  n = s.simp(n);
  if (n->k == KConst && n->c == 0) return true;
  // a zero length transfer accesses nothing
  if (n->k != KConst && s.truth(Cmp(PNe, n, Const(0, n->w))) != 1) {
    E dr = s.simp(s.resolvePtr(d)), sr = s.simp(s.resolvePtr(sp));
    if (dr->k == KConst || sr->k == KConst) { s.assume(Cmp(PEq, n, Const(0, n->w)), true); if (s.bottom) { s.bottom = false; } else return true; }
  }
  Addr da, sa;
  if (!resolveAddr(s, d, &A.fr, I, da, "write")) return false;
  if (!resolveAddr(s, sp, &A.fr, I, sa, "read")) return false;
  if (!checkAccess(s, sa, n, false, &A.fr, I)) return false;
  if (!checkAccess(s, da, n, true, &A.fr, I)) return false;
  if (n->k == KConst && n->c <= (1 << 20)) { copyBytes(s, da, sa, n->c); return true; }
  uint64_t lab; RK nr = s.range(n);
  if (!sa.base && nr.uhi <= 65536) lab = rangeLabels(memOf(s, sa.obj), sa.off, sa.off + nr.uhi);
  else lab = memLabels(memOf(s, sa.obj));
  havocSymbolic(s, da, n, lab);
  return true;
}

// ---------------------------------------------------------------- externals and intrinsics
static std::string argStr(Act &A, PState &p, const Value *V) {
  E e = p.s.resolvePtr(evalV(A, p, V));
  if (e->k == KPtr && objs[e->c].gv) {
    auto *G = (const GlobalVariable *)objs[e->c].gv;
    if (G->hasInitializer()) if (auto *C = dyn_cast<ConstantDataSequential>(G->getInitializer())) if (C->isString()) { std::string t = C->getAsString().str(); while (!t.empty() && t.back() == 0) t.pop_back(); return t; }
  }
  return "?";
}
static E ptrKey(State &s, E p) { p = s.resolvePtr(p); E q = s.simp(p); return q->k == KConst ? q : p; }
static std::map<std::pair<uint64_t, uint64_t>, uint64_t> siteObj;
static uint64_t countedObj(Act &A, PState &p, const Instruction *I, Obj::K kind, const std::string &name, E size, uint64_t labels) {
  uint64_t key = hmix64(A.fr.ctx, vid(I));
  if (p.s.cnt.use_count() > 1) p.s.cnt = std::make_shared<std::map<uint64_t, int>>(*p.s.cnt);
  int n = (*p.s.cnt)[key]++;
  auto k = std::make_pair(key, (uint64_t)n);
  // objects of unknown size are told apart by their size expression
  k.second = hmix64(k.second, size ? size->id : 0);
  auto it = siteObj.find(k);
  uint64_t id;
  if (it != siteObj.end()) id = it->second;
  else {
    id = newObj(name, kind, size); siteObj[k] = id;
    objs[id].def = initCell(newTag(name, labels));
  }
  auto m = std::make_shared<ObjMem>(); m->def = objs[id].def;
  p.s.M()[id] = m;
  return id;
}
static const Instruction *modelSite(Act &A, const Instruction *I) { // caller of a model function
  Frame *f = &A.fr; const Instruction *s = I;
  while (f->parent && f->F->getName().starts_with("ai_model_")) { s = f->site; f = f->parent; }
  return s;
}
static bool isReadonly(const State &s, uint64_t obj) {
  auto it = s.ghost->find({Ptr(obj, Const(0, 64)), -100});
  return it != s.ghost->end() && it->second->k == KConst && it->second->c;
}
static void leakCheck(Act &A, PState &p, const Instruction *I, const std::string &rule) {
  State &s = p.s;
  asserts["noleak: " + rule]++; oblig("noleak", I);
  std::set<uint64_t> reach; std::vector<uint64_t> work;
  bool wild = false; (void)wild;
  std::function<void(E)> addE = [&](E e) {
    e = s.resolvePtr(e);
    if (e->k == KPtr) { if (reach.insert(e->c).second) work.push_back(e->c); }
    else if (e->w == 64 && e->k != KConst) {
      E root = e;
      if (e->k == KLin) for (auto &q : e->t) if (lazyObj.count(q.first)) root = q.first;
      auto it = lazyObj.find(root);
      if (it != lazyObj.end() && reach.insert(it->second).second) work.push_back(it->second);
    }
  };
  for (auto &g : *s.ghost) if (g.first.second == -200 && g.second->k == KConst && g.second->c) addE(g.first.first);
  for (auto &m : *s.mem) if (objs[m.first].kind == Obj::Global && reach.insert(m.first).second) work.push_back(m.first);
  while (!work.empty()) {
    uint64_t id = work.back(); work.pop_back();
    auto it = s.mem->find(id); if (it == s.mem->end()) continue;
    if (!it->second->alive) continue;
    for (auto &c : it->second->cells) if (c.second.k == Cell::V) addE(c.second.v);
    for (auto &g : it->second->groups) for (auto &c : g.cells) if (c.second.k == Cell::V) addE(c.second.v);
  }
  for (auto &m : *s.mem) if (objs[m.first].kind == Obj::Heap && m.second->alive && !reach.count(m.first))
    report("leak", rule, s, &A.fr, I, "object '" + objs[m.first].name + "' is still allocated but unreachable");
}

static bool intrinsic(Act &A, PState &p, const CallBase *C, const std::string &n, std::vector<PState> &next) {
  auto arg = [&](unsigned i) { return evalV(A, p, C->getArgOperand(i)); };
  auto ret = [&](E e) { if (!C->getType()->isVoidTy()) setV(A, p, C, e); next.push_back(std::move(p)); };
  State &s = p.s;
  auto str = [&](unsigned i) { return argStr(A, p, C->getArgOperand(i)); };
  unsigned rw = C->getType()->isVoidTy() ? 0 : widthOf(C->getType());
  if (n == "ai_u64" || n == "ai_u32" || n == "ai_u16" || n == "ai_u8" || n == "ai_int") {
    // one symbol per call site and number of earlier calls: paths that agree otherwise keep equal data
    uint64_t key = hmix64(hmix64(A.fr.ctx, vid(C)), 0x5eed);
    if (s.cnt.use_count() > 1) s.cnt = std::make_shared<std::map<uint64_t, int>>(*s.cnt);
    int k = (*s.cnt)[key]++;
    static std::map<std::pair<uint64_t, int>, E> siteSym;
    E &e = siteSym[{key, k}];
    if (!e) e = Sym("u" + std::to_string(rw), rw);
    ret(e); return true;
  }
  if (n == "ai_choice") { PState q = p; q.s.trace = std::make_shared<TraceNode>(TraceNode{p.s.trace, C, 1}); s.trace = std::make_shared<TraceNode>(TraceNode{s.trace, C, 0}); setV(A, q, C, Const(1, rw)); next.push_back(std::move(q)); ret(Const(0, rw)); forks++; return true; }
  if (n == "ai_havoc") {
    Addr a; if (!resolveAddr(s, arg(0), &A.fr, C, a, "havoc")) return true;
    E len = s.simp(arg(1)); E labE = arg(3); uint64_t lab = labE->k == KConst ? labE->c : 0;
    if (len->k == KConst) havocRange(s, a, len->c, newTag(str(2), lab));
    else havocSymbolic(s, a, len, lab);
    ret(nullptr); return true;
  }
  if (n == "ai_region") {
    E size = s.simp(arg(0)); E labE = arg(2);
    uint64_t id = countedObj(A, p, C, Obj::Region, str(1), size, labE->k == KConst ? labE->c : 0);
    ret(Ptr(id, Const(0, 64))); return true;
  }
  if (n == "ai_malloc") {
    E size = s.simp(arg(0));
    const Instruction *site = modelSite(A, C);
    uint64_t id = countedObj(A, p, C, Obj::Heap, "heap@" + locStr(site), size, L_UNINIT);
    ret(Ptr(id, Const(0, 64))); return true;
  }
  if (n == "ai_free") {
    E q = s.resolvePtr(arg(0)); E z = s.simp(q);
    if (z->k == KConst && z->c == 0) { ret(nullptr); return true; }
    const Instruction *site = modelSite(A, C);
    oblig("free", site);
    if (q->k == KPtr) {
      ObjMem &m = memOfW(s, q->c);
      E off = s.simp(q->a);
      if (!m.alive) { if (checkMask & CK_FREE) report("double-free", "released twice", s, &A.fr, site, "object '" + objs[q->c].name + "' released again"); s.bottom = true; return true; }
      if (objs[q->c].kind != Obj::Heap || !(off->k == KConst && off->c == 0)) { if (checkMask & CK_FREE) report("bad-free", "release of something not allocated", s, &A.fr, site, "object '" + objs[q->c].name + "'"); s.bottom = true; return true; }
      m.alive = 0; m.cells.clear(); m.groups.clear();
    } else {
      // unknown pointer: release its lazy object
      Addr a; if (s.truth(Cmp(PEq, q, Const(0, 64))) == 1) { ret(nullptr); return true; }
      auto it = lazyObj.find(q);
      if (it != lazyObj.end()) { ObjMem &m = memOfW(s, it->second); if (!m.alive) { if (checkMask & CK_FREE) report("double-free", "released twice", s, &A.fr, site, Str(q)); s.bottom = true; return true; } m.alive = 0; }
      else { uint64_t id = newObj("*" + Str(q, 3), Obj::Lazy, nullptr); objs[id].def = initCell(newTag("*" + Str(q, 3), q->labels)); lazyObj[q] = id; memOfW(s, id).alive = 0; }
    }
    ret(nullptr); return true;
  }
  if (n == "ai_is_heap") { E q = s.resolvePtr(arg(0)); ret(Const(q->k == KPtr && objs[q->c].kind == Obj::Heap, rw)); return true; }
  if (n == "ai_objsize") {
    E q = s.resolvePtr(arg(0));
    ret(q->k == KPtr && objs[q->c].size ? objs[q->c].size : Sym("objsize", rw)); return true;
  }
  if (n == "ai_is_freed") {
    E q = s.resolvePtr(arg(0)); bool f = false;
    uint64_t id = 0;
    if (q->k == KPtr) id = q->c; else { auto it = lazyObj.find(q); if (it != lazyObj.end()) id = it->second; }
    if (id) { const ObjMem *m = s.cO(id); f = m && !m->alive; }
    ret(Const(f, rw)); return true;
  }
  if (n == "ai_assume") { E c = arg(0); s.assume(Cmp(PNe, c, Const(0, c->w)), true); if (!s.bottom) ret(nullptr); return true; }
  if (n == "ai_assert") {
    E c = arg(0); E b = Cmp(PNe, c, Const(0, c->w)); std::string rule = str(1);
    asserts[rule]++; oblig("assert", C);
    if (s.truth(b) != 1) { report("assert", rule, s, &A.fr, C, "cannot establish: " + Str(b, 5)); if (verbose) { for (auto &l : s.f->lin) { std::string t; for (auto &q : l.t) t += std::to_string((long long)q.second) + "*" + Str(q.first) + " "; fprintf(stderr, "   fact %s + %lld >= 0\n", t.c_str(), (long long)l.c); } } s.assume(b, true); }
    if (!s.bottom) ret(nullptr);
    return true;
  }
  if (n == "ai_reach") { reached.insert(str(0)); ret(nullptr); return true; }
  if (n == "ai_never") { std::string rule = str(0); asserts[rule]++; oblig("never", C); report("never", rule, s, &A.fr, C, "reachable"); ret(nullptr); return true; }
  if (n == "ai_lock_edge") {
    auto cls = [&](E k) { return k->k == KPtr ? objs[k->c].name + (k->a->k == KConst ? "+" + std::to_string((long long)sextw(k->a->c, 64)) : "+?") : Str(k, 3); };
    E me = ptrKey(s, arg(0)); oblig("lock-acquisition", modelSite(A, C));
    for (auto &g : *s.ghost) if (g.first.second == 1 && g.first.first != me && !(g.second->k == KConst && g.second->c == 0))
      report("lock-order-edge", cls(g.first.first) + " -> " + cls(me), s, &A.fr, C, "");
    ret(nullptr); return true;
  }
  if (n == "ai_ghost_set") { E k = ptrKey(s, arg(0)); int key = (int)arg(1)->c; s.G()[{k, key}] = s.simp(arg(2)); ret(nullptr); return true; }
  if (n == "ai_ghost_get") { E k = ptrKey(s, arg(0)); int key = (int)arg(1)->c; auto it = s.ghost->find({k, key}); ret(it == s.ghost->end() ? Const(0, 64) : it->second); return true; }
  if (n == "ai_readonly") { E k = s.resolvePtr(arg(0)); E on = arg(1); if (k->k == KPtr) s.G()[{Ptr(k->c, Const(0, 64)), -100}] = Const(on->c ? 1 : 0, 64); ret(nullptr); return true; }
  if (n == "ai_root") { E k = ptrKey(s, arg(0)); s.G()[{k, -200}] = Const(1, 64); ret(nullptr); return true; }
  if (n == "ai_assert_noleak") { leakCheck(A, p, C, str(0)); ret(nullptr); return true; }
  if (n == "ai_assert_labels") {
    Addr a; std::string rule = str(3);
    if (!resolveAddr(s, arg(0), &A.fr, C, a, "read")) return true;
    E len = s.simp(arg(1)); uint64_t lab = arg(2)->c;
    asserts[rule]++; oblig("labels", C);
    if (len->k == KConst && !a.base) {
      std::vector<std::pair<int64_t, Cell>> ps; const ObjMem &m = memOf(s, a.obj);
      pieces(m.cells, &m.def, a.off, len->c, ps);
      for (auto &q : ps) {
        uint64_t l = q.second.k == Cell::V ? s.simp(q.second.v)->labels : defLabels(q.second);
        if (l & lab) { report("labels", rule, s, &A.fr, C, "bytes [" + std::to_string(q.first) + "; " + std::to_string(q.first + q.second.size) + ") of '" + objs[a.obj].name + "' hold " + (q.second.k == Cell::V ? Str(q.second.v, 4) : tags[q.second.tag].name)); break; }
      }
    } else inconclusive = "ai_assert_labels on a symbolic range";
    ret(nullptr); return true;
  }
  if (n == "ai_assert_vlabels") { std::string rule = str(2); asserts[rule]++; oblig("labels", C); E v = s.simp(arg(0)); if (v->labels & arg(1)->c) report("labels", rule, s, &A.fr, C, "value " + Str(v, 5)); ret(nullptr); return true; }
  if (n == "ai_assert_eq") {
    Addr a, b; std::string rule = str(3);
    if (!resolveAddr(s, arg(0), &A.fr, C, a, "read") || !resolveAddr(s, arg(1), &A.fr, C, b, "read")) return true;
    E len = s.simp(arg(2));
    asserts[rule]++; oblig("equal", C);
    if (len->k != KConst) { inconclusive = "ai_assert_eq on a symbolic length"; ret(nullptr); return true; }
    const ObjMem ma = memOf(s, a.obj), mb = memOf(s, b.obj);
    auto get = [&](const ObjMem &m, const Addr &x, std::vector<std::pair<int64_t, Cell>> &ps) {
      if (!x.base) return pieces(m.cells, &m.def, x.off, len->c, ps);
      for (auto &g : m.groups) if (g.base == x.base) return pieces(g.cells, nullptr, x.off, len->c, ps);
      return false;
    };
    std::vector<std::pair<int64_t, Cell>> pa, pb;
    bool ok = get(ma, a, pa) && get(mb, b, pb);
    std::string why = "content unknown";
    if (ok) {
      std::set<int64_t> cut; for (auto &q : pa) cut.insert(q.first - a.off); for (auto &q : pb) cut.insert(q.first - b.off); cut.insert(len->c);
      for (auto it = cut.begin(); ok && std::next(it) != cut.end(); ++it) {
        int64_t x = *it, l = *std::next(it) - x;
        auto part = [&](std::vector<std::pair<int64_t, Cell>> &ps, int64_t o) { for (auto &q : ps) if (q.first - o <= x && x < q.first - o + q.second.size) return cellPart(q.second, x - (q.first - o), l); return Cell(); };
        Cell ca = part(pa, a.off), cb = part(pb, b.off);
        if (cellEq(ca, cb)) continue;
        if (l > 8) { ok = false; why = "bytes [" + std::to_string(x) + "; " + std::to_string(x + l) + ")"; break; }
        E va = cellSlice(ca, 0, l), vb = cellSlice(cb, 0, l);
        if (va != vb && s.truth(Cmp(PEq, va, vb)) != 1) { ok = false; why = "bytes [" + std::to_string(x) + "; " + std::to_string(x + l) + "): " + Str(va, 5) + " vs " + Str(vb, 5); }
      }
    }
    if (!ok) report("equal", rule, s, &A.fr, C, why);
    ret(nullptr); return true;
  }
  if (n == "ai_touch" || n == "ai_touchw") {
    bool w = n == "ai_touchw"; E len = s.simp(arg(1));
    if (len->k == KConst && len->c == 0) { ret(nullptr); return true; }
    Addr a; const Instruction *site = modelSite(A, C);
    if (!resolveAddr(s, arg(0), &A.fr, site, a, w ? "write" : "read")) return true;
    if (w && objs[a.obj].kind != Obj::Alloca && isReadonly(s, a.obj) && (checkMask & CK_RO)) report("readonly", "write to read-only object", s, &A.fr, site, describe(s, a, len));
    if (!checkAccess(s, a, len, w, &A.fr, site)) return true;
    ret(nullptr); return true;
  }
  if (n == "ai_track") {
    E q = s.resolvePtr(arg(0));
    if (q->k != KPtr) { inconclusive = "ai_track of an unknown object"; return true; }
    anyTracked = true;
    uint64_t id = countedObj(A, p, C, Obj::Shadow, "shadow of " + objs[q->c].name, nullptr, 0);
    objs[id].def = fillCell(0); memOfW(s, id).def = fillCell(0);
    s.G()[{Ptr(q->c, Const(0, 64)), -300}] = Const(id, 64);
    ret(nullptr); return true;
  }
  if (n == "ai_assert_pristine" || n == "ai_assert_written") {
    bool wr = n == "ai_assert_written"; std::string rule = str(wr ? 2 : 1); asserts[rule]++; oblig(wr ? "written" : "pristine", C);
    E q = s.resolvePtr(arg(0));
    if (q->k != KPtr) { report("written", rule, s, &A.fr, C, "not an object: " + Str(q, 4)); ret(nullptr); return true; }
    int64_t sh = tracked(s, q->c);
    if (sh < 0) { inconclusive = "object is not tracked"; return true; }
    const ObjMem m = memOf(s, sh);
    std::string why;
    E b = nullptr; int64_t off = 0, size = 0;
    if (wr) { E f = s.simp(q->a); if (f->k == KConst) off = sextw(f->c, 64); else SplitConst(f, b, off); E sz = s.simp(arg(1)); if (sz->k != KConst) why = "the size is not a constant: " + Str(sz, 4); else size = sz->c; }
    if (m.def.k != Cell::F) why = "bytes at unknown offsets were written";
    bool mine = false;
    auto chk = [&](const std::map<int64_t, Cell> &cells, E base) {
      bool me = wr && base == b; int64_t cov = off; mine |= me;
      for (auto &c : cells) {
        int64_t lo = c.first, hi = c.first + c.second.size;
        if ((!me || lo < off || hi > off + size) && why.empty()) why = "bytes [" + (base ? Str(base, 4) + " + " : "") + std::to_string(lo) + "; +" + std::to_string(hi - lo) + ") were written";
        if (me && lo <= cov) cov = std::max(cov, hi);
      }
      if (me && cov < off + size && why.empty()) why = "only " + std::to_string(cov - off) + " of " + std::to_string(size) + " bytes were written";
    };
    if (why.empty()) {
      if (!m.cells.empty() || (wr && !b)) chk(m.cells, nullptr);
      for (auto &g : m.groups) chk(g.cells, g.base);
      if (wr && !mine && size && why.empty()) why = "nothing was written there";
    }
    if (!why.empty()) report("written", rule, s, &A.fr, C, why);
    ret(nullptr); return true;
  }
  if (n == "ai_guard") {
    E q = s.resolvePtr(arg(0)); E sz = arg(1); Guard g; 
    if (q->k == KPtr && q->a->k == KConst) { g.obj = q->c; g.off = sextw(q->a->c, 64); g.size = sz->c; g.lock = ptrKey(s, arg(2)); g.key = (int)arg(3)->c; g.rule = str(4);
      bool have = false; for (auto &x : guards) if (x.obj == g.obj && x.off == g.off && x.size == g.size) have = true; if (!have) guards.push_back(g); }
    ret(nullptr); return true;
  }
  if (n == "ai_guard_off") { guards.clear(); ret(nullptr); return true; }
  if (n == "ai_checks") { checkMask = (int)arg(0)->c; ret(nullptr); return true; }
  if (n == "ai_relations") { optRel = arg(0)->c != 0; ret(nullptr); return true; }
  if (n == "ai_limits") { optPaths = arg(0)->c * optMul; optOuts = arg(1)->c * optMul; optUnroll = arg(2)->c * optUMul; ret(nullptr); return true; }
  if (n == "ai_keep") { optKeep = arg(0)->c; ret(nullptr); return true; }
  if (n == "ai_print") { fprintf(stderr, "print %s: %s  [%llx..%llx]\n", locStr(C).c_str(), Str(s.simp(arg(0)), 8).c_str(), (unsigned long long)s.range(arg(0)).ulo, (unsigned long long)s.range(arg(0)).uhi); ret(nullptr); return true; }
  if (n == "ai_dump") {
    for (auto &m : *s.mem) { fprintf(stderr, "obj %llu %s alive %d\n", (unsigned long long)m.first, objs[m.first].name.c_str(), m.second->alive); for (auto &c : m.second->cells) fprintf(stderr, "   [%lld,%lld) %s\n", (long long)c.first, (long long)c.second.size, c.second.k == Cell::V ? Str(c.second.v, 4).c_str() : c.second.k == Cell::F ? "fill" : tags[c.second.tag].name.c_str()); }
    for (auto &l : s.f->lin) { std::string t; for (auto &q : l.t) t += std::to_string((long long)q.second) + "*" + Str(q.first) + " "; fprintf(stderr, "   fact %s + %lld >= 0\n", t.c_str(), (long long)l.c); }
    ret(nullptr); return true;
  }
  if (n == "ai_split") { // enumerate the values lo..hi, the values below and above as one partition each
    E v = arg(0); uint64_t lo = arg(1)->c, hi = arg(2)->c;
    for (uint64_t x = lo; x <= hi; x++) { PState q = p; q.s.assume(Cmp(PEq, v, Const(x, v->w)), true); if (q.s.bottom) continue; setV(A, q, C, Const(x, rw)); next.push_back(std::move(q)); }
    { PState q = p; q.s.assume(Cmp(PUlt, v, Const(lo, v->w)), true); if (!q.s.bottom) { setV(A, q, C, v); next.push_back(std::move(q)); } }
    s.assume(Cmp(PUlt, Const(hi, v->w), v), true);
    if (!s.bottom) ret(v);
    return true;
  }
  return false;
}

// call results become path states
static void finishCall(Act &A, PState &p, const CallBase *C, std::vector<Out> &outs, std::vector<PState> &next) {
  for (auto &o : outs) {
    PState q; q.s = o.s; q.env = p.env; q.visits = p.visits;
    if (!C->getType()->isVoidTy()) setV(A, q, C, o.ret);
    next.push_back(std::move(q));
  }
}
static uint64_t allocaObj(Act &A, const Value *V, const std::string &name, E size) {
  static std::map<std::pair<uint64_t, const Value *>, uint64_t> ids;
  auto k = std::make_pair(A.fr.ctx, V);
  auto it = ids.find(k);
  if (it != ids.end()) return it->second;
  uint64_t id = newObj(name, Obj::Alloca, size);
  return ids[k] = id;
}

static void step(Act &A, PState p, const Instruction *I, std::vector<PState> &next) {
  State &s = p.s;
  if (++steps > optSteps) { if (inconclusive.empty()) inconclusive = "step limit at " + A.fr.F->getName().str(); return; }
  auto val = [&](unsigned i) { return evalV(A, p, I->getOperand(i)); };
  auto done = [&](E e) { setV(A, p, I, e); next.push_back(std::move(p)); };
  unsigned w = I->getType()->isVoidTy() ? 0 : widthOf(I->getType());
  switch (I->getOpcode()) {
  case Instruction::Alloca: {
    auto *AI = cast<AllocaInst>(I);
    E n = val(0); n = n->w < 64 ? ZExt(n, 64) : n;
    E size = MulC(n, DL->getTypeAllocSize(AI->getAllocatedType()));
    uint64_t id = allocaObj(A, I, (A.fr.F->getName() + "." + (I->hasName() ? I->getName() : "tmp")).str(), size);
    auto m = std::make_shared<ObjMem>(); m->def = initCell(newTag("uninit " + objs[id].name, L_UNINIT));
    s.M()[id] = m;
    done(Ptr(id, Const(0, 64)));
    return;
  }
  case Instruction::Load: {
    E q = val(0); Addr a;
    uint64_t sz = DL->getTypeStoreSize(I->getType());
    useCheck(A, p, I, q, "address");
    if (!resolveAddr(s, q, &A.fr, I, a, "read")) return;
    if (!checkAccess(s, a, Const(sz, 64), false, &A.fr, I)) return;
    if (!w || sz > 8) { done(w ? Sym("big", w) : nullptr); return; }
    std::vector<E> vals; auto outs = loadSplit(s, a, sz, w, vals);
    for (size_t i = 0; i < outs.size(); i++) { PState r; r.s = outs[i]; r.env = p.env; r.visits = p.visits; setV(A, r, I, vals[i]); next.push_back(std::move(r)); }
    if (outs.size() > 1) forks++;
    return;
  }
  case Instruction::Store: {
    E v = val(0), q = val(1); Addr a;
    uint64_t sz = DL->getTypeStoreSize(I->getOperand(0)->getType());
    useCheck(A, p, I, q, "address");
    if (!resolveAddr(s, q, &A.fr, I, a, "write")) return;
    if (objs[a.obj].kind != Obj::Alloca && isReadonly(s, a.obj) && (checkMask & CK_RO)) report("readonly", "write to read-only object", s, &A.fr, I, describe(s, a, Const(sz, 64)));
    if (!checkAccess(s, a, Const(sz, 64), true, &A.fr, I)) return;
    if (v && sz <= 8) storeVal(s, a, v); else havocRange(s, a, sz, newTag("big", 0));
    next.push_back(std::move(p));
    return;
  }
  case Instruction::Fence: next.push_back(std::move(p)); return;
  case Instruction::AtomicRMW: {
    auto *R = cast<AtomicRMWInst>(I);
    E q = val(0), v = val(1); Addr a;
    uint64_t sz = DL->getTypeStoreSize(I->getType());
    useCheck(A, p, I, q, "address");
    if (!resolveAddr(s, q, &A.fr, I, a, "write")) return;
    if (objs[a.obj].kind != Obj::Alloca && isReadonly(s, a.obj) && (checkMask & CK_RO)) report("readonly", "write to read-only object", s, &A.fr, I, describe(s, a, Const(sz, 64)));
    if (!checkAccess(s, a, Const(sz, 64), true, &A.fr, I)) return;
    std::vector<E> vals; auto outs = loadSplit(s, a, sz, w, vals);
    for (size_t i = 0; i < outs.size(); i++) {
      PState r; r.s = outs[i]; r.env = p.env; r.visits = p.visits;
      E nv;
      switch (R->getOperation()) {
      case AtomicRMWInst::Xchg: nv = v; break;
      case AtomicRMWInst::Add: nv = Add(vals[i], v); break;
      case AtomicRMWInst::Sub: nv = Sub(vals[i], v); break;
      default: nv = Sym("rmw", w, vals[i]->labels | v->labels);
      }
      storeVal(r.s, a, nv); setV(A, r, I, vals[i]); next.push_back(std::move(r));
    }
    if (outs.size() > 1) forks++;
    return;
  }
  case Instruction::GetElementPtr: {
    E base = val(0);
    E off = gepOffset(A, p, cast<GEPOperator>(I));
    done(geP(s, base, off));
    return;
  }
  case Instruction::ICmp: {
    auto *C = cast<ICmpInst>(I); bool sw; Pred pr = predOf(C->getPredicate(), sw);
    E a = val(0), b = val(1); if (sw) std::swap(a, b);
    if (a->w == 64) { a = s.resolvePtr(a); b = s.resolvePtr(b); }
    done(Cmp(pr, a, b));
    return;
  }
  case Instruction::Select: {
    E c = val(0); int t = s.truth(c);
    useCheck(A, p, I, c, "condition");
    if (t != 0) { PState q = p; if (t < 0) q.s.assume(c, true); if (!q.s.bottom) { E v = evalV(A, q, I->getOperand(1)); setV(A, q, I, v); next.push_back(std::move(q)); } }
    if (t != 1) { if (t < 0) s.assume(c, false); if (!s.bottom) done(val(2)); }
    return;
  }
  case Instruction::ZExt: { E e = val(0); done(extend(s, e, w, false)); return; }
  case Instruction::SExt: { E e = val(0); done(extend(s, e, w, true)); return; }
  case Instruction::Trunc: {
    E e = val(0); E t = Trunc(e, w);
    if (t->k == KLin && e->k == KLin) { // a sum that fits is not changed
      RK re = s.range(e);
      if (re.uhi <= maskw(w)) { RK rt = s.range(t); if (re.ulo > rt.ulo || re.uhi < rt.uhi) { rt.ulo = std::max(rt.ulo, re.ulo); rt.uhi = std::min(rt.uhi, re.uhi); if (!rt.empty()) s.F().r[t] = rt; } }
      LinX le = s.linU(e), lt = s.linU(t);
      if (!(le == lt)) {
        bool fits = s.range(e).uhi <= maskw(w);
        if (!fits) { LinX d; d.addX(le, -1); d.c += (i128)(u128)maskw(w); fits = s.prove(d); }
        if (fits) { LinX d = lt; d.addX(le, -1); LinX n; n.addX(d, -1); s.addLin(d); s.addLin(n); }
      }
    }
    done(t); return;
  }
  case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: {
    E e = val(0); if (!e || !w) { done(w ? Sym("cast", w) : nullptr); return; }
    done(e->w > w ? Trunc(e, w) : ZExt(e, w)); return;
  }
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    if (!w) { done(nullptr); return; }
    E a = val(0), b = val(1);
    unsigned op = I->getOpcode();
    if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
      oblig("division", I);
      E nz = Cmp(PNe, b, Const(0, b->w));
      if (s.truth(nz) != 1) { if (checkMask & CK_DIV) report("division", "division by zero", s, &A.fr, I, "divisor " + Str(b, 5) + " may be zero"); s.assume(nz, true); if (s.bottom) return; }
      E x = s.simp(b); if (x->k == KConst) b = x;
    }
    if (op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr) {
      if (b->k != KConst) {
        E x = s.simp(b); if (x->k == KConst) b = x;
      }
      if (I->getOperand(1)->getType()->isIntegerTy() && !isa<ConstantInt>(I->getOperand(1))) oblig("shift", I);
      E ok = Cmp(PUlt, b, Const(w, w));
      if (s.truth(ok) != 1) { if (checkMask & CK_SHIFT) report("shift", "shift count not below the operand width", s, &A.fr, I, "count " + Str(b, 5)); s.assume(ok, true); if (s.bottom) return; }
      if (b->k != KConst && a->k != KConst) {
        // few possible counts: keep the result exact by partitioning
        RK r = s.range(b); uint64_t st = ~r.kz & maskw(w);
        if (__builtin_popcountll(st) <= 4 && r.uhi < 64) {
          std::vector<uint64_t> vs; for (uint64_t x = r.ulo; x <= r.uhi; x++) if (!(x & r.kz) && (x & r.ko) == r.ko) vs.push_back(x);
          if (vs.size() <= 8) {
            for (uint64_t x : vs) { PState q = p; q.s.assume(Cmp(PEq, b, Const(x, w)), true); if (q.s.bottom) continue; OpC oc = op == Instruction::Shl ? OShl : op == Instruction::LShr ? OLShr : OAShr; setV(A, q, I, Op(oc, a, Const(x, w))); next.push_back(std::move(q)); }
            return;
          }
        }
      }
    }
    E r;
    switch (op) {
    case Instruction::Add: r = Add(a, b); break;
    case Instruction::Sub: r = Sub(a, b); break;
    case Instruction::Mul: { E x = s.simp(a), y = s.simp(b); if (x->k == KConst) a = x; if (y->k == KConst) b = y; r = Op(OMul, a, b); break; }
    case Instruction::And: { E x = s.simp(a), y = s.simp(b); if (x->k == KConst) a = x; if (y->k == KConst) b = y; if (a->w == 64 && (a->k == KPtr || b->k == KPtr)) { E m = a->k == KConst ? a : b, q = a->k == KPtr ? a : b; if (m->k != KConst) { r = Sym("ptr&", 64); break; } r = Op(OAnd, q, m); break; } r = Op(OAnd, a, b); break; }
    case Instruction::Or: { E x = s.simp(a), y = s.simp(b); if (x->k == KConst) a = x; if (y->k == KConst) b = y; r = Op(OOr, a, b); break; }
    case Instruction::Xor: r = Op(OXor, a, b); break;
    case Instruction::Shl: r = Op(OShl, a, b); break;
    case Instruction::LShr: { E x = s.simp(a); if (x->k == KConst) a = x; r = Op(OLShr, a, b); break; }
    case Instruction::AShr: if (s.range(a).slo >= 0) r = Op(OLShr, a, b); else r = Op(OAShr, a, b); break;
    case Instruction::UDiv: r = Op(OUDiv, a, b); break;
    case Instruction::SDiv: if (s.range(a).slo >= 0 && s.range(b).slo >= 0) r = Op(OUDiv, a, b); else r = Op(OSDiv, a, b); break;
    case Instruction::URem: r = Op(OURem, a, b); break;
    default: if (s.range(a).slo >= 0 && s.range(b).slo >= 0) r = Op(OURem, a, b); else r = Op(OSRem, a, b); break;
    }
    if (w == 64) r = alignedPtr(r);
    done(r);
    return;
  }
  case Instruction::ExtractValue: case Instruction::InsertValue: case Instruction::FNeg: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul:
  case Instruction::FDiv: case Instruction::FRem: case Instruction::FCmp: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FPToUI: case Instruction::FPToSI:
  case Instruction::UIToFP: case Instruction::SIToFP: {
    uint64_t lab = 0; for (auto &o : I->operands()) { E e = A.fi->num.count(o) ? p.env[A.fi->num[o]] : nullptr; if (e) lab |= e->labels; }
    done(w ? Sym("fp", w, lab) : nullptr);
    return;
  }
  case Instruction::VAArg: done(w ? Sym("va", w) : nullptr); return;
  case Instruction::Call: {
    auto *C = cast<CallBase>(I);
    if (isa<DbgInfoIntrinsic>(I)) { next.push_back(std::move(p)); return; }
    if (auto *II = dyn_cast<IntrinsicInst>(I)) {
      switch (II->getIntrinsicID()) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: case Intrinsic::assume: case Intrinsic::donothing:
        next.push_back(std::move(p)); return;
      case Intrinsic::stacksave: done(Sym("sp", 64)); return;
      case Intrinsic::stackrestore: next.push_back(std::move(p)); return;
      case Intrinsic::trap: return;
      case Intrinsic::memcpy: case Intrinsic::memmove: {
        E n = val(2); if (n->w < 64) n = ZExt(n, 64);
        E d = s.resolvePtr(val(0));
        if (d->k == KPtr && isReadonly(s, d->c) && (checkMask & CK_RO)) report("readonly", "write to read-only object", s, &A.fr, I, "copy into '" + objs[d->c].name + "'");
        if (n->k != KConst || n->c) { // a copied text is the same text
          auto it = s.ghost->find({s.resolvePtr(val(1)), 77});
          if (it != s.ghost->end()) { E t = it->second; s.G()[{d, 77}] = t; } else if (s.ghost->count({d, 77})) s.G().erase({d, 77});
        }
        if (copySym(A, p, I, val(0), val(1), n, true)) next.push_back(std::move(p));
        return;
      }
      case Intrinsic::memset: {
        E n = val(2); if (n->w < 64) n = ZExt(n, 64);
        E v = val(1); n = s.simp(n);
        if (n->k == KConst && n->c == 0) { next.push_back(std::move(p)); return; }
        E d = s.resolvePtr(val(0));
        if (d->k == KPtr && isReadonly(s, d->c) && (checkMask & CK_RO)) report("readonly", "write to read-only object", s, &A.fr, I, "fill of '" + objs[d->c].name + "'");
        Addr a; if (!resolveAddr(s, d, &A.fr, I, a, "write")) return;
        if (!checkAccess(s, a, n, true, &A.fr, I)) return;
        if (n->k == KConst) {
          Cell c; if (v->k == KConst) { c = fillCell(v->c); } else c = initCell(newTag("j memset", v->labels));
          c.size = n->c; storeCell(s, a, c);
        } else {
          // a whole object of symbolic size
          const Obj &o = objs[a.obj];
          if (!a.base && a.off == 0 && o.size == n && v->k == KConst) { noteWrite(s, a, -1); ObjMem &m = memOfW(s, a.obj); m.cells.clear(); m.groups.clear(); m.def = fillCell(v->c); }
          else havocSymbolic(s, a, n, v->labels);
        }
        next.push_back(std::move(p)); return;
      }
      case Intrinsic::bswap: {
        E a = val(0); std::vector<E> parts; for (int i = w / 8 - 1; i >= 0; i--) parts.push_back(Slice(a, i * 8, 8));
        done(Concat(parts)); return;
      }
      case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
        auto id = II->getIntrinsicID();
        E a = val(0), b = val(1); bool sg = id == Intrinsic::smax || id == Intrinsic::smin, mx = id == Intrinsic::umax || id == Intrinsic::smax;
        E c = Cmp(sg ? PSle : PUle, a, b); int t = s.truth(c);
        if (t != 0) { PState q = p; if (t < 0) q.s.assume(c, true); if (!q.s.bottom) { setV(A, q, I, mx ? b : a); next.push_back(std::move(q)); } }
        if (t != 1) { if (t < 0) s.assume(c, false); if (!s.bottom) done(mx ? a : b); }
        return;
      }
      case Intrinsic::abs:
      default: {
        uint64_t lab = 0; for (auto &o : C->args()) { E e = A.fi->num.count(o) ? p.env[A.fi->num[o]] : nullptr; if (e) lab |= e->labels; }
        if (I->getType()->isVoidTy()) next.push_back(std::move(p)); else done(w ? Sym("intr", w, lab) : nullptr);
        notes.insert("opaque intrinsic " + C->getCalledFunction()->getName().str());
        return;
      }
      }
    }
    if (C->isInlineAsm()) { if (I->getType()->isVoidTy()) next.push_back(std::move(p)); else done(w ? Sym("asm", w) : nullptr); return; }
    Function *F = C->getCalledFunction();
    if (!F) {
      E f = s.resolvePtr(evalV(A, p, C->getCalledOperand()));
      { E x = s.simp(f); if (x->k == KConst) f = x; }
      oblig("indirect-call", I);
      if (f->k == KPtr && objs[f->c].kind == Obj::Func) F = const_cast<Function *>((const Function *)objs[f->c].fn);
      else if (f->k == KConst) { if (checkMask & CK_NULL) report("null-deref", "call through NULL function pointer", s, &A.fr, I, Str(f)); return; }
      else {
        if ((checkMask & CK_NULL) && s.truth(Cmp(PNe, f, Const(0, 64))) != 1) report("null-deref", "call through function pointer that may be NULL", s, &A.fr, I, Str(f));
        unmodelled.insert("indirect call at " + locStr(I) + " through " + Str(f, 4));
        if (I->getType()->isVoidTy()) next.push_back(std::move(p)); else done(w ? Sym("icall", w) : nullptr);
        return;
      }
    }
    std::string n = F->getName().str();
    if (n.compare(0, 3, "ai_") == 0 && n.compare(0, 9, "ai_model_") != 0 && F->isDeclaration()) {
      if (intrinsic(A, p, C, n, next)) return;
    }
    Function *T = F;
    if (Function *Mo = MOD->getFunction("ai_model_" + n)) if (!Mo->isDeclaration() && A.fr.F != Mo) T = Mo;
    if (T->isDeclaration()) {
      if (F->doesNotReturn()) return;
      unmodelled.insert(n + " (called at " + locStr(I) + ")");
      if (I->getType()->isVoidTy()) next.push_back(std::move(p)); else done(w ? Sym(n, w) : nullptr);
      return;
    }
    std::vector<E> args;
    for (unsigned i = 0; i < T->arg_size() && i < C->arg_size(); i++) {
      E a = evalV(A, p, C->getArgOperand(i));
      if (C->isByValArgument(i) && a) {
        uint64_t sz = DL->getTypeAllocSize(C->getParamByValType(i));
        uint64_t id = allocaObj(A, (const Value *)((const char *)C + 1 + i), "byval", Const(sz, 64));
        auto m = std::make_shared<ObjMem>(); m->def = initCell(newTag("byval", 0)); s.M()[id] = m;
        Addr d, sa; d.obj = id; d.full = Const(0, 64);
        if (resolveAddr(s, a, &A.fr, I, sa, "read")) copyBytes(s, d, sa, sz);
        a = Ptr(id, Const(0, 64));
      }
      args.push_back(a);
    }
    if (C->arg_size() < T->arg_size()) { unmodelled.insert(n + ": argument mismatch"); return; }
    A.fr.env = &p.env;
    auto outs = callFn(T, args, s, &A.fr, I);
    A.fr.env = nullptr;
    finishCall(A, p, C, outs, next);
    return;
  }
  default:
    unmodelled.insert(std::string("instruction ") + I->getOpcodeName() + " at " + locStr(I));
    if (I->getType()->isVoidTy()) next.push_back(std::move(p)); else done(w ? Sym("insn", w) : nullptr);
  }
}

// ---------------------------------------------------------------- control flow
static const std::vector<int> &liveAfter(FnInfo *fi, const Instruction *I) {
  auto it = fi->liveAfter.find(I);
  if (it != fi->liveAfter.end()) return it->second;
  const BasicBlock *B = I->getParent();
  std::vector<bool> l(fi->n);
  for (auto *S : successors(B)) {
    size_t si = fi->rpo[S];
    for (int i : fi->liveIn[si]) l[i] = true;
  }
  for (auto *S : successors(B)) for (auto &J : *S) { auto *P = dyn_cast<PHINode>(&J); if (!P) break; auto f = fi->num.find(P->getIncomingValueForBlock(B)); if (f != fi->num.end()) l[f->second] = true; }
  // a phi of a successor that is live there is (re)defined on the edge; keeping it is harmless
  for (auto jt = B->rbegin(); &*jt != I; ++jt) for (auto &op : jt->operands()) { auto f = fi->num.find(op.get()); if (f != fi->num.end()) l[f->second] = true; }
  std::vector<int> v; for (int i = 0; i < fi->n; i++) if (l[i]) v.push_back(i);
  return fi->liveAfter[I] = v;
}

struct Pending { std::vector<PState> v; };

static void edge(Act &A, PState p, const BasicBlock *from, const BasicBlock *to, std::map<int, Pending> &work) {
  FnInfo *fi = A.fi;
  // phis in parallel
  std::vector<std::pair<const Instruction *, E>> ph;
  for (auto &I : *to) { auto *P = dyn_cast<PHINode>(&I); if (!P) break; ph.push_back({P, widthOf(P->getType()) ? evalV(A, p, P->getIncomingValueForBlock(from)) : nullptr}); }
  for (auto &x : ph) setV(A, p, x.first, x.second);
  int t = fi->rpo[to], f = fi->rpo[from];
  // loop bookkeeping
  const auto &in = fi->inLoops[t];
  std::vector<Visit> nv;
  for (auto &v : p.visits) { bool keep = false; for (int h : in) if (h == v.hdr) keep = true; if (keep) nv.push_back(v); }
  if (fi->header[to]) {
    bool back = false; for (int h : fi->inLoops[f]) if (h == t) back = true;
    if (!back) { nv.erase(std::remove_if(nv.begin(), nv.end(), [&](Visit &v) { return v.hdr == t; }), nv.end()); nv.push_back({t, 0, 0, -1}); }
    else { bool fnd = false; for (auto &v : nv) if (v.hdr == t) { v.count++; fnd = true; } if (!fnd) nv.push_back({t, 1, 0, -1}); }
  }
  p.visits = nv;
  work[t].v.push_back(std::move(p));
}
static std::string slotKey(const PState &p, int hdr) {
  std::string k = partKey(p.s);
  for (auto &v : p.visits) if (v.hdr != hdr) k += "#" + std::to_string(v.hdr) + "," + std::to_string(v.count) + "," + std::to_string(v.slot);
  return k;
}

// does an exit condition depend on a value the loop carries?
static bool counted(const Value *V, const BasicBlock *H, int depth) {
  auto *I = dyn_cast<Instruction>(V);
  if (!I || depth < 0 || isa<CallBase>(I)) return false;
  if (isa<PHINode>(I)) return I->getParent() == H;
  if (isa<LoadInst>(I)) { // a local the loop updates
    return isa<AllocaInst>(I->getOperand(0));
  }
  for (auto &op : I->operands()) if (counted(op, H, depth - 1)) return true;
  return false;
}
static bool outOfTime();
static std::vector<Out> execBody(Function *F, const std::vector<E> &args, const State &s0, Frame &fr0) {
  Act A; A.fr = fr0; A.fi = getInfo(F); A.entryId = ex::nextId;
  FnInfo *fi = A.fi;
  fnSeen.insert(F->getName().str());
  std::vector<Out> outs;
  std::map<int, Pending> work;
  { PState p; p.s = s0; p.env.assign(fi->n, nullptr); size_t i = 0; for (auto &a : F->args()) { if (i < args.size()) p.env[fi->num[&a]] = args[i]; i++; } work[0].v.push_back(std::move(p)); }
  std::vector<uint64_t> frameObjs;
  while (!work.empty()) {
    if (!inconclusive.empty() || outOfTime()) return outs;
    auto it = work.begin(); int b = it->first; std::vector<PState> in = std::move(it->second.v); work.erase(it);
    const BasicBlock *B = fi->order[b];
    const auto &live = fi->liveIn[b];
    for (auto &p : in) { // forget dead values
      for (int i = 0; i < fi->n; i++) if (p.env[i] && !fi->liveSet[b][i]) p.env[i] = nullptr;
    }
    if (fi->header[B]) {
      std::vector<PState> ready; std::set<int> dirty;
      auto &slots = A.slots[b];
      for (auto &p : in) {
        Visit *v = nullptr; for (auto &x : p.visits) if (x.hdr == b) v = &x;
        if (!v || v->count == 0) { ready.push_back(std::move(p)); continue; }
        if (v->bounded < v->count) { // content seen in earlier rounds of an unbounded loop is forgotten
          std::vector<uint64_t> ids; for (auto &m : *p.s.mem) if (!m.second->groups.empty() && isReadonly(p.s, m.first)) ids.push_back(m.first);
          for (uint64_t id : ids) memOfW(p.s, id).groups.clear();
        }
        if (v->slot < 0 && (v->undec < optUnroll ? v->count < 400 : v->bounded >= v->count && v->count < 48)) { ready.push_back(std::move(p)); continue; }
        // widen
        std::string key = slotKey(p, b);
        bool done = false;
        for (size_t k = 0; k < slots.size() && !done; k++) if (slots[k].key == key && subsumed(p, slots[k], live)) done = true;
        if (done) continue;
        int tries = 0;
        for (size_t k = 0; k < slots.size() && !done; k++) if (slots[k].key == key) {
          tries++;
          if (verbose && slots[k].iter > 5) { subsDbg = 1; fprintf(stderr, "widen %s hdr %s iter %d\n", F->getName().str().c_str(), locStr(B->getTerminator()).c_str(), slots[k].iter); subsumed(p, slots[k], live); subsDbg = 0; }
          if (slots[k].iter > 40) { inconclusive = "no fixpoint for the loop at " + locStr(B->getTerminator()); return outs; }
          if (widenSlot(slots[k], p, live, tries > 6)) { for (auto &x : slots[k].st.visits) if (x.hdr == b) x.slot = k; dirty.insert(k); done = true; }
        }
        if (!done) {
          Slot S; S.key = key; S.st = std::move(p); for (auto &x : S.st.visits) if (x.hdr == b) x.slot = slots.size();
          slots.push_back(std::move(S)); dirty.insert(slots.size() - 1);
        }
      }
      for (int k : dirty) ready.push_back(slots[k].st);
      in.swap(ready);
    }
    if (in.size() > 3) for (auto &p : in) pruneGroups(p.s, p.env, A.fr.parent);
    reduce(in, live, optPaths, isa<ReturnInst>(B->getTerminator()) ? live : std::vector<int>());
    if (getenv("PTAI_BLOCKS")) fprintf(stderr, "%*s%s %s states %zu lin %zu r %zu ne %zu\n", A.fr.depth, "", F->getName().str().c_str(), locStr(B->getTerminator()).c_str(), in.size(), in.empty() ? 0 : in[0].s.f->lin.size(), in.empty() ? 0 : in[0].s.f->r.size(), in.empty() ? 0 : in[0].s.f->ne.size());
    std::vector<PState> cur = std::move(in);
    statesSeen += cur.size();
    for (auto &I : *B) {
      if (isa<PHINode>(I)) continue;
      if (I.isTerminator()) break;
      if (isa<DbgInfoIntrinsic>(I)) continue;
      std::vector<PState> next;
      for (auto &p : cur) {
        step(A, std::move(p), &I, next);
        if (isa<AllocaInst>(I)) for (auto &q : next) { E e = q.env[fi->num[&I]]; if (e && e->k == KPtr) frameObjs.push_back(e->c); break; }
        if (!inconclusive.empty() || outOfTime()) return outs;
        if ((int)next.size() > 4 * optPaths) { next.erase(std::remove_if(next.begin(), next.end(), [](PState &p) { return p.s.bottom; }), next.end()); if ((int)next.size() > 4 * optPaths) reduce(next, liveAfter(fi, &I), optPaths); }
      }
      next.erase(std::remove_if(next.begin(), next.end(), [](PState &p) { return p.s.bottom; }), next.end());
      if (next.size() > 1 && isa<CallBase>(I) ) reduce(next, liveAfter(fi, &I), optPaths, I.getType()->isIntegerTy(32) ? std::vector<int>{fi->num[&I]} : std::vector<int>());
      else if ((int)next.size() > 2 * optPaths) reduce(next, liveAfter(fi, &I), optPaths);
      cur.swap(next);
      if (cur.empty()) break;
    }
    const Instruction *T = B->getTerminator();
    for (auto &p : cur) {
      if (p.s.bottom) continue;
      State &s = p.s;
      if (auto *R = dyn_cast<ReturnInst>(T)) {
        Out o; o.ret = R->getReturnValue() ? evalV(A, p, R->getReturnValue()) : nullptr; o.s = std::move(p.s);
        if (o.ret) { E x = o.s.simp(o.s.resolvePtr(o.ret)); if (x->k == KConst || x->k == KPtr) o.ret = x; }
        outs.push_back(std::move(o));
        continue;
      }
      if (auto *Br = dyn_cast<BranchInst>(T)) {
        if (Br->isUnconditional()) { edge(A, std::move(p), B, Br->getSuccessor(0), work); continue; }
        E c = evalV(A, p, Br->getCondition());
        useCheck(A, p, T, c, "branch");
        int t = s.truth(c);
        if (t >= 0) { if (c->k == KConst && !isa<Constant>(Br->getCondition())) for (auto &v : p.visits) for (int h : fi->exits[b]) if (v.hdr == h && counted(Br->getCondition(), fi->order[h], 6)) v.bounded = v.count + 1; edge(A, std::move(p), B, Br->getSuccessor(t ? 0 : 1), work); continue; }
        forks++;
        for (auto &v : p.visits) for (int h : fi->exits[b]) if (v.hdr == h) v.undec++;
        PState q = p;
        p.s.assume(c, true); q.s.assume(c, false);
        p.s.trace = std::make_shared<TraceNode>(TraceNode{p.s.trace, T, 1});
        q.s.trace = std::make_shared<TraceNode>(TraceNode{q.s.trace, T, 0});
        if (!p.s.bottom) edge(A, std::move(p), B, Br->getSuccessor(0), work);
        if (!q.s.bottom) edge(A, std::move(q), B, Br->getSuccessor(1), work);
        continue;
      }
      if (auto *S = dyn_cast<SwitchInst>(T)) {
        E c = s.simp(evalV(A, p, S->getCondition()));
        useCheck(A, p, T, c, "switch");
        if (c->k == KConst) {
          auto *CI = ConstantInt::get(cast<IntegerType>(S->getCondition()->getType()), c->c);
          edge(A, std::move(p), B, S->findCaseValue(CI)->getCaseSuccessor(), work);
          continue;
        }
        forks++;
        for (auto &v : p.visits) for (int h : fi->exits[b]) if (v.hdr == h) v.undec++;
        PState d = p;
        RK rc = s.range(c);
        for (auto &cs : S->cases()) {
          uint64_t v = cs.getCaseValue()->getZExtValue();
          if (v < rc.ulo || v > rc.uhi || (v & rc.kz) || (rc.ko & ~v)) continue;
          PState q = p; q.s.assume(Cmp(PEq, c, Const(v, c->w)), true);
          if (!q.s.bottom) { q.s.trace = std::make_shared<TraceNode>(TraceNode{q.s.trace, T, (int)v}); edge(A, std::move(q), B, cs.getCaseSuccessor(), work); }
          d.s.assume(Cmp(PNe, c, Const(v, c->w)), true);
          if (d.s.bottom) break;
        }
        if (!d.s.bottom) { d.s.trace = std::make_shared<TraceNode>(TraceNode{d.s.trace, T, -1}); edge(A, std::move(d), B, S->getDefaultDest(), work); }
        continue;
      }
      if (isa<UnreachableInst>(T)) continue;
      unmodelled.insert(std::string("terminator ") + T->getOpcodeName());
    }
  }
  // leave the frame
  std::sort(frameObjs.begin(), frameObjs.end());
  frameObjs.erase(std::unique(frameObjs.begin(), frameObjs.end()), frameObjs.end());
  for (auto &o : outs) {
    if (outs.size() > 3) pruneGroups(o.s, {o.ret}, A.fr.parent);
    if (!frameObjs.empty()) { auto &M = o.s.M(); for (uint64_t id : frameObjs) M.erase(id); }
    gcFacts(o.s, A.entryId, o.ret, nullptr);
  }
  reduceOuts(outs, optOuts);
  return outs;
}

static bool isTailCall(const Instruction *I) {
  const BasicBlock *B = I->getParent(); const Value *v = I;
  const Instruction *n = I->getNextNode();
  for (int hop = 0; hop < 20; hop++) {
    while (n && isa<DbgInfoIntrinsic>(n)) n = n->getNextNode();
    if (!n) return false;
    if (auto *R = dyn_cast<ReturnInst>(n)) return !R->getReturnValue() || R->getReturnValue() == v;
    auto *Br = dyn_cast<BranchInst>(n);
    if (!Br || !Br->isUnconditional()) return false;
    const BasicBlock *S = Br->getSuccessor(0);
    n = &*S->begin();
    while (n && isa<PHINode>(n)) { auto *P = cast<PHINode>(n); if (P->getIncomingValueForBlock(B) == v) v = P; n = n->getNextNode(); }
    B = S;
  }
  return false;
}

static std::vector<Out> callFn(Function *F, const std::vector<E> &args, State s, Frame *parent, const Instruction *site) {
  Frame fr{F, parent, site, hmix64(parent ? parent->ctx : 7, site ? vid(site) : 1), parent ? parent->depth + 1 : 0};
  std::vector<int> live; for (size_t i = 0; i < args.size(); i++) live.push_back(i);
  // recursion
  Frame *outer = nullptr; bool tail = true; int depth = 0;
  {
    bool chain = site && isTailCall(site);
    const Instruction *st = site; (void)st;
    for (Frame *f = parent; f; f = f->parent) {
      if (f->F == F) { outer = f; depth++; tail = chain; }
      chain = chain && f->site && isTailCall(f->site);
    }
  }
  if (outer && tail) {
    RecInfo *ri = nullptr; for (auto &r : recStack) if (r.first->F == F) { ri = r.second; break; }
    if (ri) {
      PState p; p.s = s; p.env = args;
      std::string key = partKey(s);
      // recursion counted by a constant argument: one slot per value
      std::string ckey = key;
      for (size_t i = 0; i < args.size(); i++) if (args[i] && F->getArg(i)->getType()->isIntegerTy()) { E x = s.simp(args[i]); if (x->k == KConst) ckey += ";" + std::to_string(i) + "=" + std::to_string(x->c); }
      if (ri->slots.size() < 64) key = ckey;
      for (auto &sl : ri->slots) if (sl.key == key && subsumed(p, sl, live)) return {};
      int tries = 0;
      for (auto &sl : ri->slots) if (sl.key == key) { tries++; if (sl.iter > 40) { inconclusive = "no fixpoint for recursion of " + F->getName().str(); return {}; } if (widenSlot(sl, p, live, tries > 6)) { sl.dirty = true; return {}; } }
      Slot S; S.key = key; S.st = p; S.dirty = true; ri->slots.push_back(std::move(S));
      return {};
    }
  } else if (outer && depth > 8) { inconclusive = "recursion of " + F->getName().str(); return {}; }
  RecInfo ri; 
  recStack.push_back({&fr, &ri});
  auto outs = execBody(F, args, s, fr);
  bool again = false;
  for (size_t k = 0; k < ri.slots.size() && inconclusive.empty();) {
    if (!ri.slots[k].dirty) { k++; continue; }
    ri.slots[k].dirty = false;
    PState st = ri.slots[k].st;
    auto o2 = execBody(F, st.env, st.s, fr);
    for (auto &o : o2) outs.push_back(std::move(o));
    again = true; k = 0;
  }
  recStack.pop_back();
  if (again) reduceOuts(outs, optOuts);
  return outs;
}

// ---------------------------------------------------------------- main
static double tLimit = 600; static std::chrono::steady_clock::time_point t0;
static bool outOfTime() {
  double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (t > tLimit) { if (inconclusive.empty()) inconclusive = "time limit"; return true; }
  return false;
}
static std::string js(const std::string &s) {
  std::string r = "\""; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}
template <class T> static std::string jl(const T &v) { std::string r = "["; bool f = true; for (auto &x : v) { if (!f) r += ","; f = false; r += js(x); } return r + "]"; }

int main(int argc, char **argv) {
  std::string mod, entry, out;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-o") out = argv[++i];
    else if (a == "-m") optMul = atoi(argv[++i]);
    else if (a == "-u") optUMul = atoi(argv[++i]);
    else if (a == "-v") verbose = true;
    else if (a == "-t") tLimit = atof(argv[++i]);
    else if (a == "-steps") optSteps = strtoull(argv[++i], 0, 0);
    else if (mod.empty()) mod = a;
    else entry = a;
  }
  t0 = std::chrono::steady_clock::now();
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(mod, err, ctx);
  if (!M) { fprintf(stderr, "cannot read %s\n", mod.c_str()); return 2; }
  MOD = M.get(); DL = &M->getDataLayout();
  Function *F = M->getFunction(entry);
  if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  checkMask = 0;
  State s;
  std::vector<E> args; for (auto &a : F->args()) args.push_back(Sym("arg", widthOf(a.getType())));
  auto outs = callFn(F, args, s, nullptr, nullptr);
  // markers wanted: those in the functions that were analysed
  std::set<std::string> unreached;
  for (auto &G : *M) if (fnSeen.count(G.getName().str())) for (auto &B : G) for (auto &I : B) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *K = C->getCalledFunction()) if (K->getName() == "ai_reach") {
    if (auto *GV = dyn_cast<GlobalVariable>(C->getArgOperand(0)->stripPointerCasts())) if (auto *CD = dyn_cast<ConstantDataSequential>(GV->getInitializer())) { std::string t = CD->getAsString().str(); while (!t.empty() && t.back() == 0) t.pop_back(); if (!reached.count(t)) unreached.insert(t); }
  }
  double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
  if (!f) return 2;
  fprintf(f, "{\"entry\":%s,\"inconclusive\":%s,\"outcomes\":%zu,\"seconds\":%.2f,\n", js(entry).c_str(), inconclusive.empty() ? "null" : js(inconclusive).c_str(), outs.size(), el);
  fprintf(f, "\"findings\":[");
  bool first = true;
  for (auto &x : findings) { auto &g = x.second; fprintf(f, "%s\n {\"kind\":%s,\"rule\":%s,\"loc\":%s,\"fn\":%s,\"msg\":%s,\"stack\":%s,\"path\":%s}", first ? "" : ",", js(g.kind).c_str(), js(g.rule).c_str(), js(g.loc).c_str(), js(g.fn).c_str(), js(g.msg).c_str(), jl(g.stack).c_str(), jl(g.path).c_str()); first = false; }
  fprintf(f, "],\n\"obligations\":{");
  first = true; for (auto &o : obligations) { fprintf(f, "%s%s:[%llu,%zu]", first ? "" : ",", js(o.first).c_str(), (unsigned long long)o.second, oblSites[o.first].size()); first = false; }
  fprintf(f, "},\n\"asserts\":{"); first = true;
  for (auto &o : asserts) { fprintf(f, "%s%s:%llu", first ? "" : ",", js(o.first).c_str(), (unsigned long long)o.second); first = false; }
  fprintf(f, "},\n\"reached\":%s,\"unreached\":%s,\"unmodelled\":%s,\"notes\":%s,\n\"functions\":%s,\n", jl(reached).c_str(), jl(unreached).c_str(), jl(unmodelled).c_str(), jl(notes).c_str(), jl(fnSeen).c_str());
  fprintf(f, "\"steps\":%llu,\"states\":%llu,\"joins\":%llu,\"widenings\":%llu,\"forks\":%llu}\n", (unsigned long long)steps, (unsigned long long)statesSeen, (unsigned long long)joins, (unsigned long long)widenings, (unsigned long long)forks);
  if (f != stdout) fclose(f);
  fflush(nullptr);
  _exit(0);
}
