// Hash-consed bit-vector expressions (width 1..64) with local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <deque>

enum Kind : uint8_t {
  K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT
};

typedef std::vector<uint64_t> VarSet;   // interned bitset

struct Expr {
  Kind k; uint8_t w; uint8_t lo; bool cl;  // cl: ITE tree with constant leaves
  uint16_t nleaf;
  uint32_t id;
  uint64_t val;
  const Expr *a, *b, *c;
  const VarSet* vs;
};
typedef const Expr* E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  return (int64_t)(v << (64 - w)) >> (64 - w);
}

struct ExprPool {
  struct H { size_t operator()(E e) const {
    uint64_t h = e->k * 0x9E3779B97F4A7C15ull + e->w * 0x100000001B3ull + e->lo;
    h ^= e->val * 0xff51afd7ed558ccdull; h = (h << 13) | (h >> 51);
    h ^= (uint64_t)(e->a ? e->a->id + 1 : 0) * 0xC2B2AE3D27D4EB4Full; h = (h << 17) | (h >> 47);
    h ^= (uint64_t)(e->b ? e->b->id + 1 : 0) * 0x165667B19E3779F9ull; h = (h << 19) | (h >> 45);
    h ^= (uint64_t)(e->c ? e->c->id + 1 : 0) * 0x27D4EB2F165667C5ull;
    return h ^ (h >> 29); } };
  struct Q { bool operator()(E x, E y) const {
    return x->k == y->k && x->w == y->w && x->lo == y->lo && x->val == y->val && x->a == y->a && x->b == y->b && x->c == y->c; } };
  std::unordered_set<E, H, Q> tab;
  std::deque<Expr> arena;
  std::vector<E> byId;
  struct VH { size_t operator()(const VarSet& v) const { size_t h = 7; for (auto x : v) h = h * 1000003u ^ x ^ (x >> 31); return h; } };
  std::unordered_map<VarSet, const VarSet*, VH> vsTab;
  struct PH { size_t operator()(const std::pair<const VarSet*, const VarSet*>& p) const { return (size_t)p.first * 31 + (size_t)p.second; } };
  std::unordered_map<std::pair<const VarSet*, const VarSet*>, const VarSet*, PH> uTab;
  const VarSet* emptyVS;
  std::vector<E> vars; std::vector<std::string> varNames;
  E tru, fls;
  ExprPool() { tab.max_load_factor(0.7); emptyVS = internVS(VarSet()); tru = cst(1, 1); fls = cst(0, 1); }
  const VarSet* internVS(const VarSet& v) {
    auto it = vsTab.find(v); if (it != vsTab.end()) return it->second;
    auto* p = new VarSet(v); vsTab.emplace(v, p); return p;
  }
  const VarSet* uni(const VarSet* x, const VarSet* y) {
    if (x == y || y == emptyVS) return x; if (x == emptyVS) return y;
    if (x > y) std::swap(x, y);
    auto it = uTab.find({x, y}); if (it != uTab.end()) return it->second;
    VarSet r(std::max(x->size(), y->size()), 0);
    for (size_t i = 0; i < x->size(); i++) r[i] |= (*x)[i];
    for (size_t i = 0; i < y->size(); i++) r[i] |= (*y)[i];
    auto* p = internVS(r); uTab[{x, y}] = p; return p;
  }
  static bool inter(const VarSet* x, const VarSet* y) {
    size_t n = std::min(x->size(), y->size());
    for (size_t i = 0; i < n; i++) if ((*x)[i] & (*y)[i]) return true;
    return false;
  }
  E mk(Kind k, unsigned w, E a, E b, E c, uint64_t val, unsigned lo) {
    Expr t; t.k = k; t.w = w; t.lo = lo; t.val = val; t.a = a; t.b = b; t.c = c; t.cl = false; t.nleaf = 0; t.id = 0; t.vs = nullptr;
    auto it = tab.find(&t); if (it != tab.end()) return *it;
    const VarSet* vs = emptyVS;
    if (a) vs = uni(vs, a->vs); if (b) vs = uni(vs, b->vs); if (c) vs = uni(vs, c->vs);
    t.vs = vs;
    if (k == K_CONST) { t.cl = true; t.nleaf = 1; }
    if (k == K_ITE && b->cl && c->cl) { unsigned n = b->nleaf + c->nleaf; if (n <= 1024) { t.cl = true; t.nleaf = n; } }
    t.id = byId.size();
    arena.push_back(t); E r = &arena.back(); byId.push_back(r); tab.insert(r);
    return r;
  }
  E cst(uint64_t v, unsigned w) { return mk(K_CONST, w, 0, 0, 0, v & maskw(w), 0); }
  E newVar(const std::string& name, unsigned w) {
    unsigned idx = vars.size();
    Expr t; t.k = K_VAR; t.w = w; t.lo = 0; t.val = idx; t.a = t.b = t.c = 0; t.cl = false; t.nleaf = 0; t.id = byId.size();
    VarSet v(idx / 64 + 1, 0); v[idx / 64] |= 1ull << (idx % 64); t.vs = internVS(v);
    arena.push_back(t); E r = &arena.back(); byId.push_back(r); tab.insert(r);
    vars.push_back(r); varNames.push_back(name); return r;
  }
  E boolc(bool b) { return b ? tru : fls; }
  static bool isC(E e) { return e->k == K_CONST; }

  static uint64_t foldBin(Kind k, unsigned w, uint64_t a, uint64_t b) {
    uint64_t m = maskw(w);
    switch (k) {
      case K_ADD: return (a + b) & m; case K_SUB: return (a - b) & m; case K_MUL: return (a * b) & m;
      case K_UDIV: return b ? (a / b) & m : m;
      case K_UREM: return b ? (a % b) & m : a;
      case K_SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x >= 0 ? m : 1; if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
      case K_SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
      case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
      case K_SHL: return b >= w ? 0 : (a << b) & m;
      case K_LSHR: return b >= w ? 0 : a >> b;
      case K_ASHR: return (uint64_t)(sx(a, w) >> (b >= w ? 63 : b)) & m;
      case K_EQ: return a == b; case K_ULT: return a < b; case K_ULE: return a <= b;
      case K_SLT: return sx(a, w) < sx(b, w); case K_SLE: return sx(a, w) <= sx(b, w);
      default: abort();
    }
  }
  // apply f to constant leaves
  template <class F> E mapLeaves(E e, F f) {
    std::unordered_map<E, E> memo;
    std::function<E(E)> rec = [&](E x) -> E {
      if (isC(x)) return f(x->val);
      auto it = memo.find(x); if (it != memo.end()) return it->second;
      E r = ite(x->a, rec(x->b), rec(x->c));
      memo[x] = r; return r; };
    return rec(e);
  }
  void leaves(E e, std::vector<uint64_t>& out) {
    std::unordered_set<E> seen; std::vector<E> st{e};
    while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue;
      if (isC(x)) out.push_back(x->val); else { st.push_back(x->b); st.push_back(x->c); } }
  }
  E notE(E a) {
    if (isC(a)) return boolc(!a->val);
    if (a->k == K_EQ && a->w == 1 && a->a->w == 1 && isC(a->b) && a->b->val == 0) return a->a;   // not(not x)
    if (a->k >= K_ULT && a->k <= K_SLE && !isC(a->a) && !isC(a->b))
      return mk(a->k == K_ULT ? K_ULE : a->k == K_ULE ? K_ULT : a->k == K_SLT ? K_SLE : K_SLT, 1, a->b, a->a, 0, 0, 0);
    return mk(K_EQ, 1, a, fls, 0, 0, 0);
  }
  bool isNot(E a) { return a->k == K_EQ && a->a->w == 1 && a->b == fls; }
  E andE(E a, E b) {
    if (a == b) return a; if (isC(a)) return a->val ? b : fls; if (isC(b)) return b->val ? a : fls;
    if (notE(a) == b || notE(b) == a) return fls;
    if (a->id > b->id) std::swap(a, b);
    // x==c1 && x==c2
    if (a->k == K_EQ && b->k == K_EQ && a->a == b->a && isC(a->b) && isC(b->b) && a->b != b->b) return fls;
    return mk(K_AND, 1, a, b, 0, 0, 0);
  }
  E orE(E a, E b) {
    if (a == b) return a; if (isC(a)) return a->val ? tru : b; if (isC(b)) return b->val ? tru : a;
    if (notE(a) == b || notE(b) == a) return tru;
    if (a->id > b->id) std::swap(a, b);
    return mk(K_OR, 1, a, b, 0, 0, 0);
  }
  E ite(E c, E t, E f) {
    if (isC(c)) return c->val ? t : f;
    if (t == f) return t;
    if (isNot(c)) { return ite(c->a, f, t); }
    if (t->w == 1) {
      if (t == tru && f == fls) return c;
      if (t == fls && f == tru) return notE(c);
      if (t == tru) return orE(c, f);
      if (t == fls) return andE(notE(c), f);
      if (f == tru) return orE(notE(c), t);
      if (f == fls) return andE(c, t);
    }
    if (t->k == K_ITE && t->a == c) t = t->b;
    if (f->k == K_ITE && f->a == c) f = f->c;
    if (t == f) return t;
    // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
    if (f->k == K_ITE && f->b == t) return ite(orE(c, f->a), t, f->c);
    if (f->k == K_ITE && f->c == t) return ite(orE(c, notE(f->a)), t, f->b);
    return mk(K_ITE, t->w, c, t, f, 0, 0);
  }
  static unsigned tz(E e) {  // known trailing zero bits
    switch (e->k) {
      case K_CONST: return e->val ? __builtin_ctzll(e->val) : 64;
      case K_ADD: case K_SUB: case K_OR: case K_XOR: return std::min(tz(e->a), tz(e->b));
      case K_AND: return std::max(tz(e->a), tz(e->b));
      case K_MUL: return std::min(64u, tz(e->a) + tz(e->b));
      case K_SHL: if (isC(e->b)) return std::min<uint64_t>(64, tz(e->a) + e->b->val); return tz(e->a);
      case K_ZEXT: case K_SEXT: { unsigned t = tz(e->a); return t >= e->a->w ? 64 : t; }
      case K_ITE: return std::min(tz(e->b), tz(e->c));
      case K_CONCAT: { unsigned t = tz(e->b); return t >= e->b->w ? e->b->w : t; }
      default: return 0;
    }
  }
  // upper bound on value (unsigned) if cheaply known
  static uint64_t ub(E e, int d = 0) {
    uint64_t m = maskw(e->w); if (d > 6) return m;
    switch (e->k) {
      case K_CONST: return e->val;
      case K_ZEXT: return ub(e->a, d + 1);
      case K_AND: return std::min(ub(e->a, d + 1), ub(e->b, d + 1));
      case K_ITE: return std::max(ub(e->b, d + 1), ub(e->c, d + 1));
      case K_LSHR: if (isC(e->b)) return e->b->val >= e->w ? 0 : ub(e->a, d + 1) >> e->b->val; return m;
      case K_UREM: if (isC(e->b) && e->b->val) return e->b->val - 1; return m;
      case K_ADD: { uint64_t x = ub(e->a, d + 1), y = ub(e->b, d + 1); if (x + y >= x && x + y <= m) return x + y; return m; }
      case K_SHL: if (isC(e->b) && e->b->val < e->w) { uint64_t x = ub(e->a, d + 1); if (x <= (m >> e->b->val)) return x << e->b->val; } return m;
      case K_MUL: if (isC(e->b)) { uint64_t x = ub(e->a, d + 1); unsigned __int128 p = (unsigned __int128)x * e->b->val; if (p <= m) return (uint64_t)p; } return m;
      case K_CONCAT: return (ub(e->a, d + 1) << e->b->w) | maskw(e->b->w);
      default: return m;
    }
  }
  E bin(Kind k, E a, E b) {
    unsigned w = a->w; unsigned rw = (k >= K_EQ && k <= K_SLE) ? 1 : w;
    if (isC(a) && isC(b)) return cst(foldBin(k, w, a->val, b->val), rw);
    bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ;
    if (comm && isC(a)) std::swap(a, b);
    else if (comm && !isC(b) && a->id > b->id) std::swap(a, b);
    uint64_t m = maskw(w);
    if (w == 1) {
      switch (k) {
        case K_AND: return andE(a, b); case K_OR: return orE(a, b);
        case K_XOR: case K_ADD: case K_SUB: if (isC(b)) return b->val ? notE(a) : a; if (a == b) return fls; return notE(bin(K_EQ, a, b));
        case K_EQ: if (isC(b)) return b->val ? a : notE(a); if (a == b) return tru; break;
        case K_MUL: return andE(a, b);
        case K_ULT: return andE(notE(a), b); case K_ULE: return orE(notE(a), b);
        case K_SLT: return andE(a, notE(b)); case K_SLE: return orE(a, notE(b));
        default: break;
      }
    }
    if (isC(b)) {
      uint64_t c = b->val;
      switch (k) {
        case K_ADD: if (!c) return a;
          if (a->k == K_ADD && isC(a->b)) return bin(K_ADD, a->a, cst(a->b->val + c, w)); break;
        case K_SUB: return bin(K_ADD, a, cst(0 - c, w));
        case K_MUL: if (c == 0) return b; if (c == 1) return a; if ((c & (c - 1)) == 0) return bin(K_SHL, a, cst(__builtin_ctzll(c), w)); break;
        case K_AND: if (c == 0) return b; if (c == m) return a;
          if (a->k == K_AND && isC(a->b)) return bin(K_AND, a->a, cst(a->b->val & c, w));
          if ((c & (c + 1)) == 0) { // low mask
            unsigned n = __builtin_popcountll(c); if (ub(a) <= c) return a; return zext(extract(a, 0, n), w); }
          break;
        case K_OR: if (c == 0) return a; if (c == m) return b; break;
        case K_XOR: if (c == 0) return a; break;
        case K_SHL: case K_LSHR: if (c == 0) return a; if (c >= w) return cst(0, w);
          if (k == K_LSHR) return zext(extract(a, c, w - c), w);
          if (a->k == K_ZEXT && a->a->w + c <= w) return zext(concat(a->a, cst(0, c)), w);
          break;
        case K_ASHR: if (c == 0) return a; break;
        case K_UDIV: if (c == 1) return a; if (c && (c & (c - 1)) == 0) return bin(K_LSHR, a, cst(__builtin_ctzll(c), w)); break;
        case K_UREM: if (c == 1) return cst(0, w); if (c && (c & (c - 1)) == 0) return bin(K_AND, a, cst(c - 1, w)); if (c && ub(a) < c) return a; break;
        default: break;
      }
    } else if (isC(a)) {
      if ((k == K_SHL || k == K_LSHR || k == K_UDIV || k == K_UREM) && a->val == 0) return a;
    }
    if (a == b) switch (k) {
      case K_SUB: case K_XOR: return cst(0, w); case K_AND: case K_OR: return a;
      case K_EQ: case K_ULE: case K_SLE: return tru; case K_ULT: case K_SLT: return fls; default: break; }
    if (k == K_SUB && a->k == K_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
    if (k == K_SUB && a->k == K_ADD && isC(a->b)) return bin(K_ADD, bin(K_SUB, a->a, b), a->b);
    if (k == K_SUB && b->k == K_ADD && isC(b->b)) return bin(K_ADD, bin(K_SUB, a, b->a), cst(0 - b->b->val, w));
    if (k == K_ADD && a->k == K_ADD && isC(a->b)) return bin(K_ADD, bin(K_ADD, a->a, b), a->b);
    if (k == K_ADD && b->k == K_ADD && isC(b->b) && !isC(a)) return bin(K_ADD, bin(K_ADD, a, b->a), b->b);
    // push operation into constant-leaf ITE trees
    if (a->cl && isC(b) && a->nleaf <= 512) { uint64_t c = b->val; return mapLeaves(a, [&](uint64_t v) { return cst(foldBin(k, w, v, c), rw); }); }
    if (b->cl && isC(a) && b->nleaf <= 512) { uint64_t c = a->val; return mapLeaves(b, [&](uint64_t v) { return cst(foldBin(k, w, c, v), rw); }); }
    // comparisons
    if (k == K_EQ && isC(b)) {
      if (a->k == K_ZEXT) { if (b->val > maskw(a->a->w)) return fls; return bin(K_EQ, a->a, cst(b->val, a->a->w)); }
      if (a->k == K_SEXT) { uint64_t t = b->val & maskw(a->a->w); if (((uint64_t)sx(t, a->a->w) & m) != b->val) return fls; return bin(K_EQ, a->a, cst(t, a->a->w)); }
      if (a->k == K_ADD && isC(a->b)) return bin(K_EQ, a->a, cst(b->val - a->b->val, w));
      if (a->k == K_SUB && b->val == 0) return bin(K_EQ, a->a, a->b);
      if (a->k == K_XOR && b->val == 0) return bin(K_EQ, a->a, a->b);
      if (a->k == K_OR && b->val == 0) return andE(bin(K_EQ, a->a, b), bin(K_EQ, a->b, b));
      if (a->k == K_CONCAT) return andE(bin(K_EQ, a->a, cst(b->val >> a->b->w, a->a->w)), bin(K_EQ, a->b, cst(b->val, a->b->w)));
      if (a->k == K_SHL && isC(a->b)) { uint64_t s = a->b->val; if (b->val & maskw(s)) return fls; return bin(K_EQ, extract(a->a, 0, w - s), cst(b->val >> s, w - s)); }
      if (a->k == K_ITE && (isC(a->b) || isC(a->c))) return ite(a->a, bin(K_EQ, a->b, b), bin(K_EQ, a->c, b));
      if (b->val > ub(a)) return fls;
    }
    if (k == K_EQ && a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return bin(K_EQ, a->a, b->a);
    if (k == K_EQ && a->k == K_ADD && b->k == K_ADD && isC(a->b) && a->b == b->b) return bin(K_EQ, a->a, b->a);
    if (k == K_ULT || k == K_ULE) {
      if (isC(b)) {
        if (k == K_ULT && b->val == 0) return fls;
        if (k == K_ULT && b->val == 1) return bin(K_EQ, a, cst(0, w));
        if (k == K_ULE && b->val == 0) return bin(K_EQ, a, b);
        if (k == K_ULE && b->val == m) return tru;
        uint64_t u = ub(a); if (k == K_ULT ? u < b->val : u <= b->val) return tru;
        if (a->k == K_ZEXT) { if (b->val > maskw(a->a->w)) return tru; return bin(k, a->a, cst(b->val, a->a->w)); }
        if (k == K_ULE) return bin(K_ULT, a, cst(b->val + 1, w));
      }
      if (isC(a)) {
        if (k == K_ULE && a->val == 0) return tru;
        if (k == K_ULT && a->val == m) return fls;
        uint64_t u = ub(b); if (k == K_ULT ? a->val >= u : a->val > u) return fls;
        if (b->k == K_ZEXT) { if (a->val > maskw(b->a->w)) return fls; return bin(k, cst(a->val, b->a->w), b->a); }
        if (k == K_ULT) return notE(bin(K_ULT, b, cst(a->val + 1, w)));
        return notE(bin(K_ULT, b, a));
      }
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return bin(k, a->a, b->a);
    }
    if (k == K_SLT || k == K_SLE) {
      uint64_t half = m >> 1;
      if (ub(a) <= half && ub(b) <= half) return bin(k == K_SLT ? K_ULT : K_ULE, a, b);
      if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return bin(k, a->a, b->a);
      if (a->k == K_SEXT && isC(b)) { unsigned aw = a->a->w; int64_t v = sx(b->val, w), lo = -(1ll << (aw - 1)), hi = (1ll << (aw - 1)) - 1;
        if (v > hi) return tru; if (v < lo) return fls; if (k == K_SLT || true) return bin(k, a->a, cst(b->val, aw)); }
      if (b->k == K_SEXT && isC(a)) { unsigned bw = b->a->w; int64_t v = sx(a->val, w), lo = -(1ll << (bw - 1)), hi = (1ll << (bw - 1)) - 1;
        if (v < lo) return tru; if (v > hi) return fls; return bin(k, cst(a->val, bw), b->a); }
    }
    if (w > 1 && k == K_AND && ub(a) == 0) return a;
    if (k == K_OR && !isC(b) && w > 1) { // disjoint concat pattern: zext(x) | (zext(y) << n)
      E lo = a, hi = b;
      for (int t = 0; t < 2; t++, std::swap(lo, hi)) {
        if (lo->k == K_ZEXT) { unsigned z = tz(hi); unsigned lw = lo->a->w; if (z >= lw && lw < w) return concat(extract(hi, lw, w - lw), lo->a); }
      }
    }
    if (k == K_ADD && !isC(b)) { // disjoint add == or
      E lo = a, hi = b;
      for (int t = 0; t < 2; t++, std::swap(lo, hi))
        if (lo->k == K_ZEXT) { unsigned z = tz(hi), lw = lo->a->w; if (z >= lw && lw < w && hi->k == K_CONCAT) return concat(extract(hi, lw, w - lw), lo->a); }
    }
    return mk(k, rw, a, b, 0, 0, 0);
  }
  E extract(E a, unsigned lo, unsigned n) {
    if (lo == 0 && n == a->w) return a;
    if (isC(a)) return cst(a->val >> lo, n);
    if (a->cl && a->nleaf <= 512) return mapLeaves(a, [&](uint64_t v) { return cst(v >> lo, n); });
    switch (a->k) {
      case K_EXTRACT: return extract(a->a, a->lo + lo, n);
      case K_CONCAT: { unsigned bw = a->b->w;
        if (lo + n <= bw) return extract(a->b, lo, n);
        if (lo >= bw) return extract(a->a, lo - bw, n);
        return concat(extract(a->a, 0, lo + n - bw), extract(a->b, lo, bw - lo)); }
      case K_ZEXT: { unsigned iw = a->a->w; if (lo >= iw) return cst(0, n); if (lo + n <= iw) return extract(a->a, lo, n); return zext(extract(a->a, lo, iw - lo), n); }
      case K_SEXT: { unsigned iw = a->a->w; if (lo + n <= iw) return extract(a->a, lo, n); if (lo == 0 && n > iw) return sext(a->a, n); break; }
      case K_ITE: if (isC(a->b) || isC(a->c) || a->b->k == K_ZEXT || a->c->k == K_ZEXT || a->b->k == K_CONCAT || a->c->k == K_CONCAT || a->b->k == K_SEXT) return ite(a->a, extract(a->b, lo, n), extract(a->c, lo, n)); break;
      case K_AND: case K_OR: case K_XOR: return bin(a->k, extract(a->a, lo, n), extract(a->b, lo, n));
      case K_ADD: case K_SUB: case K_MUL: if (lo == 0) return bin(a->k, extract(a->a, 0, n), extract(a->b, 0, n)); break;
      case K_SHL: if (isC(a->b)) { unsigned s = a->b->val; if (lo >= s) return extract(a->a, lo - s, n); if (lo + n <= s) return cst(0, n); return concat(extract(a->a, 0, lo + n - s), cst(0, s - lo)); } break;
      default: break;
    }
    if (n < a->w && lo > 0 && lo < 64 && ub(a) < (1ull << lo)) return cst(0, n);
    return mk(K_EXTRACT, n, a, 0, 0, 0, lo);
  }
  E concat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return cst((hi->val << lo->w) | lo->val, w);
    if (isC(hi) && hi->val == 0) return zext(lo, w);
    if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->lo == lo->lo + lo->w) return extract(hi->a, lo->lo, w);
    if (lo->k == K_CONCAT && hi->k == K_EXTRACT && lo->a->k == K_EXTRACT && hi->a == lo->a->a && hi->lo == lo->a->lo + lo->a->w)
      return concat(extract(hi->a, lo->a->lo, hi->w + lo->a->w), lo->b);
    if (hi->k == K_ZEXT) return zext(concat(hi->a, lo), w);
    if (hi->cl && lo->cl) {
      if (isC(lo)) { uint64_t c = lo->val; unsigned n = lo->w; return mapLeaves(hi, [&](uint64_t v) { return cst((v << n) | c, w); }); }
      if (isC(hi)) { uint64_t c = hi->val; unsigned n = lo->w; return mapLeaves(lo, [&](uint64_t v) { return cst((c << n) | v, w); }); }
      if (hi->k == K_ITE && lo->k == K_ITE && hi->a == lo->a) return ite(hi->a, concat(hi->b, lo->b), concat(hi->c, lo->c));
    }
    return mk(K_CONCAT, w, hi, lo, 0, 0, 0);
  }
  E zext(E a, unsigned w) {
    if (w == a->w) return a; if (isC(a)) return cst(a->val, w);
    if (a->k == K_ZEXT) return zext(a->a, w);
    if (a->cl && a->nleaf <= 512) return mapLeaves(a, [&](uint64_t v) { return cst(v, w); });
    if (a->w == 1) return ite(a, cst(1, w), cst(0, w));
    return mk(K_ZEXT, w, a, 0, 0, 0, 0);
  }
  E sext(E a, unsigned w) {
    if (w == a->w) return a; if (isC(a)) return cst((uint64_t)sx(a->val, a->w), w);
    if (a->k == K_ZEXT) return zext(a->a, w);
    if (a->k == K_SEXT) return sext(a->a, w);
    if (a->w == 1) return ite(a, cst(~0ull, w), cst(0, w));
    unsigned aw = a->w;
    if (a->cl && a->nleaf <= 512) return mapLeaves(a, [&](uint64_t v) { return cst((uint64_t)sx(v, aw), w); });
    return mk(K_SEXT, w, a, 0, 0, 0, 0);
  }
  // evaluation under a model
  std::vector<uint32_t> ep; std::vector<uint64_t> evv; uint32_t epoch = 0;
  uint64_t eval(E e, const std::vector<uint64_t>& model) {
    if (isC(e)) return e->val;
    epoch++; if (ep.size() < byId.size()) { ep.resize(byId.size() * 2, 0); evv.resize(byId.size() * 2); }
    return ev(e, model);
  }
  uint64_t ev(E e, const std::vector<uint64_t>& m) {
    if (e->k == K_CONST) return e->val;
    if (e->k == K_VAR) return e->val < m.size() ? m[e->val] & maskw(e->w) : 0;
    if (ep[e->id] == epoch) return evv[e->id];
    uint64_t r;
    switch (e->k) {
      case K_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
      case K_CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
      case K_EXTRACT: r = (ev(e->a, m) >> e->lo) & maskw(e->w); break;
      case K_ZEXT: r = ev(e->a, m); break;
      case K_SEXT: r = (uint64_t)sx(ev(e->a, m), e->a->w) & maskw(e->w); break;
      case K_AND: if (e->w == 1) { r = ev(e->a, m) && ev(e->b, m); break; } r = ev(e->a, m) & ev(e->b, m); break;
      case K_OR: if (e->w == 1) { r = ev(e->a, m) || ev(e->b, m); break; } r = ev(e->a, m) | ev(e->b, m); break;
      default: r = foldBin(e->k, e->a->w, ev(e->a, m), ev(e->b, m)); break;
    }
    ep[e->id] = epoch; evv[e->id] = r; return r;
  }
};
