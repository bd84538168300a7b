// Abstract states: facts over expressions, memory of abstract objects, ghost typestate.
#pragma once
#include "expr.h"
#include <memory>

struct EIdLess { bool operator()(E a, E b) const { return a->id < b->id; } };
typedef std::set<E, EIdLess> ESet;

struct RK {
  uint64_t ulo, uhi; int64_t slo, shi; uint64_t kz, ko;
  bool empty() const { return ulo > uhi || slo > shi || (kz & ko); }
  bool single() const { return ulo == uhi; }
};

// linear form: sum coef*atom + c   (mathematical integers; atoms read unsigned)
struct LinX {
  std::vector<std::pair<E, i128>> t; // sorted by id
  i128 c = 0;
  void add(E a, i128 f);
  void addX(const LinX &o, i128 f);
};
bool operator<(const LinX &a, const LinX &b);
bool operator==(const LinX &a, const LinX &b);

struct NW { E first, second; int wrap; bool operator==(const NW &o) const { return first == o.first && second == o.second && wrap == o.wrap; } };
struct Facts {
  std::map<E, RK, EIdLess> r;
  std::set<std::pair<E, E>> ne;                 // (lower id, higher id)
  std::vector<LinX> lin;                        // each >= 0
  std::map<E, NW, EIdLess> nowrap;              // U(k) = U(first)+U(second) - wrap*2^w
  std::map<E, E, EIdLess> alias;                // pointer symbol -> equal pointer
};

struct Cell {
  enum K : uint8_t { V, F, I } k = V;
  int64_t size = 0;
  E v = nullptr;       // V
  uint8_t fill = 0;    // F
  uint32_t tag = 0;    // I
  int64_t off = 0;     // I: offset within tag of the cell's first byte
};
struct SymGroup { E base; std::map<int64_t, Cell> cells; };
struct ObjMem {
  std::map<int64_t, Cell> cells;
  Cell def;                       // F or I; I: off is added to byte offset
  std::vector<SymGroup> groups;
  uint8_t alive = 1;              // 0 freed, 1 alive
};
struct TraceNode { std::shared_ptr<TraceNode> prev; const void *inst; int taken; };

struct Tag { std::string name; uint64_t labels; };
extern std::vector<Tag> tags;

struct Obj {
  uint64_t id = 0;
  std::string name;
  E size = nullptr;           // may be unknown
  bool ro = false;            // read-only for the analysed code
  enum K { Global, Alloca, Heap, Region, Lazy, Func, Shadow } kind = Global;
  const void *fn = nullptr;   // Func
  const void *gv = nullptr;   // Global
  Cell def;
  uint64_t watch = 0;         // harness flags
  uint64_t guard = 0;         // 1-based guard entry
};
extern std::vector<Obj> objs;

struct State {
  std::shared_ptr<Facts> f;
  std::shared_ptr<std::map<uint64_t, std::shared_ptr<ObjMem>>> mem;
  std::shared_ptr<std::map<std::pair<E, int>, E>> ghost;
  std::shared_ptr<std::map<uint64_t, int>> cnt; // allocation counters by site
  std::shared_ptr<TraceNode> trace;
  bool bottom = false;

  State();
  Facts &F();
  const Facts &cF() const { return *f; }
  std::map<uint64_t, std::shared_ptr<ObjMem>> &M();
  ObjMem &O(uint64_t id);            // writable
  const ObjMem *cO(uint64_t id) const;
  std::map<std::pair<E, int>, E> &G();

  RK range(E e, int depth = 8) const;
  bool refine(E e, RK r, int depth = 6);         // intersect; sets bottom
  void assume(E c, bool truth);
  int truth(E c) const;                           // 1,0,-1
  LinX linU(E e, int depth = 5) const;
  bool linP(E off, LinX &out) const;              // signed pointer offset
  bool prove(const LinX &x, int depth = 4) const; // x >= 0
  void addLin(const LinX &x);
  void sums(const LinX &x);
  bool proveLe(E a, E b) const;                   // U(a) <= U(b)
  E simp(E e) const;                              // constant if known
  E resolvePtr(E p) const;                        // follow aliases
};
uint32_t newTag(const std::string &name, uint64_t labels);
E tagSym(uint32_t tag, int64_t off, unsigned bytes);
