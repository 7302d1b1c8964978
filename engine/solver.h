// z3 back end: slicing, caching, counting.
#pragma once
#include "expr.h"
#include <z3++.h>
#include <chrono>
#include <array>
#include <memory>
#include <unistd.h>

static inline double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Stats {
  uint64_t queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0, ttSat = 0, ttUnsat = 0;
  double solverTime = 0, maxQuery = 0;
};

struct Solver {
  ExprPool& P; z3::context* ctx; z3::solver* sol;
  std::vector<Z3_ast> tr; std::vector<std::pair<char, Z3_ast>> keep;
  Stats st; unsigned timeoutMs = 60000; FILE* dump = nullptr; uint64_t dumpN = 0, dumpMax = 0; std::string dumpDir;
  Solver(ExprPool& p) : P(p) {
    ctx = new z3::context(); sol = new z3::solver(z3::tactic(*ctx, "qfbv").mk_solver());
    z3::params pr(*ctx); pr.set("timeout", timeoutMs); sol->set(pr);
  }
  Z3_ast keepA(Z3_ast a) { Z3_inc_ref(*ctx, a); return a; }
  Z3_ast hold(Z3_ast a) { hs.push_back(z3::ast(*ctx, a)); return a; }   // intermediates of one translation step
  std::vector<z3::ast> hs;
  Z3_ast b2v(Z3_ast a) { Z3_ast x = hold(bv(1, 1)), y = hold(bv(0, 1)); return hold(Z3_mk_ite(*ctx, a, x, y)); }
  Z3_ast bv(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(*ctx, v, (Z3_sort)hold((Z3_ast)Z3_mk_bv_sort(*ctx, w))); }
  Z3_ast T(E root) {
    if (tr.size() < P.byId.size()) tr.resize(P.byId.size() * 2, nullptr);
    if (tr[root->id]) return tr[root->id];
    std::vector<E> stk{root};
    while (!stk.empty()) {
      E e = stk.back();
      if (tr[e->id]) { stk.pop_back(); continue; }
      bool ready = true;
      for (E s : {e->a, e->b, e->c}) if (s && !tr[s->id]) { stk.push_back(s); ready = false; }
      if (!ready) continue;
      stk.pop_back();
      Z3_ast r = tr1(e); tr[e->id] = keepA(r); hs.clear();
    }
    return tr[root->id];
  }
  Z3_ast tr1(E e) {
    z3::context& c = *ctx;
    Z3_ast a = e->a ? tr[e->a->id] : nullptr, b = e->b ? tr[e->b->id] : nullptr, d = e->c ? tr[e->c->id] : nullptr;
    bool bl = e->w == 1;
    if (e->a && e->a->w == 1 && (e->k == K_ULT || e->k == K_ULE || e->k == K_SLT || e->k == K_SLE || e->k == K_ZEXT || e->k == K_SEXT || e->k == K_CONCAT)) a = b2v(a);
    if (e->b && e->b->w == 1 && (e->k == K_ULT || e->k == K_ULE || e->k == K_SLT || e->k == K_SLE || e->k == K_CONCAT)) b = b2v(b);
    if (bl && ((e->k >= K_ADD && e->k <= K_SREM) || (e->k >= K_SHL && e->k <= K_ASHR))) {
      a = b2v(a); b = b2v(b); Z3_ast r = nullptr;
      switch (e->k) { case K_ADD: r = Z3_mk_bvadd(c, a, b); break; case K_SUB: r = Z3_mk_bvsub(c, a, b); break; case K_MUL: r = Z3_mk_bvmul(c, a, b); break; case K_UDIV: r = Z3_mk_bvudiv(c, a, b); break; case K_SDIV: r = Z3_mk_bvsdiv(c, a, b); break;
        case K_UREM: r = Z3_mk_bvurem(c, a, b); break; case K_SREM: r = Z3_mk_bvsrem(c, a, b); break; case K_SHL: r = Z3_mk_bvshl(c, a, b); break; case K_LSHR: r = Z3_mk_bvlshr(c, a, b); break; default: r = Z3_mk_bvashr(c, a, b); }
      r = hold(r); return Z3_mk_eq(c, r, hold(bv(1, 1))); }
    switch (e->k) {
      case K_CONST: return bl ? (e->val ? Z3_mk_true(c) : Z3_mk_false(c)) : bv(e->val, e->w);
      case K_VAR: { std::string n = "v" + std::to_string(e->val); Z3_ast v = Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), (Z3_sort)hold((Z3_ast)Z3_mk_bv_sort(c, e->w))); if (bl) { hold(v); return Z3_mk_eq(c, v, hold(bv(1, 1))); } return v; }
      case K_AND: if (bl) { Z3_ast x[2] = {a, b}; return Z3_mk_and(c, 2, x); } return Z3_mk_bvand(c, a, b);
      case K_OR: if (bl) { Z3_ast x[2] = {a, b}; return Z3_mk_or(c, 2, x); } return Z3_mk_bvor(c, a, b);
      case K_XOR: if (bl) return Z3_mk_xor(c, a, b); return Z3_mk_bvxor(c, a, b);
      case K_EQ: return Z3_mk_eq(c, a, b);
      case K_ITE: return Z3_mk_ite(c, a, b, d);
      case K_ADD: return Z3_mk_bvadd(c, a, b); case K_SUB: return Z3_mk_bvsub(c, a, b); case K_MUL: return Z3_mk_bvmul(c, a, b);
      case K_UDIV: return Z3_mk_bvudiv(c, a, b); case K_SDIV: return Z3_mk_bvsdiv(c, a, b);
      case K_UREM: return Z3_mk_bvurem(c, a, b); case K_SREM: return Z3_mk_bvsrem(c, a, b);
      case K_SHL: return Z3_mk_bvshl(c, a, b); case K_LSHR: return Z3_mk_bvlshr(c, a, b); case K_ASHR: return Z3_mk_bvashr(c, a, b);
      case K_ULT: return Z3_mk_bvult(c, a, b); case K_ULE: return Z3_mk_bvule(c, a, b);
      case K_SLT: return Z3_mk_bvslt(c, a, b); case K_SLE: return Z3_mk_bvsle(c, a, b);
      case K_CONCAT: return Z3_mk_concat(c, a, b);
      case K_EXTRACT: { Z3_ast r = Z3_mk_extract(c, e->lo + e->w - 1, e->lo, a); if (bl) { hold(r); return Z3_mk_eq(c, r, hold(bv(1, 1))); } return r; }
      case K_ZEXT: return Z3_mk_zero_ext(c, e->w - e->a->w, a);
      case K_SEXT: return Z3_mk_sign_ext(c, e->w - e->a->w, a);
    }
    abort();
  }
  struct KH { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = v.size(); for (auto x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull, h ^= h >> 29; return h; } };
  struct CR { int r; std::vector<std::pair<uint32_t, uint64_t>> m; };  // r: 1 sat 0 unsat -1 unknown
  std::unordered_map<std::vector<uint32_t>, CR, KH> cache;

  // A condition as a straight-line program.
  struct N { Kind k; uint8_t w, aw, bw, lo; uint32_t a, b, c; uint64_t val; };
  struct Prog {
    std::vector<N> n;
    Prog(E e) {
      std::vector<E> order; std::unordered_map<uint32_t, uint32_t> pos; std::vector<std::pair<E, bool>> st{{e, false}};
      while (!st.empty()) { auto [x, done] = st.back(); st.pop_back(); if (pos.count(x->id)) continue; if (done) { pos[x->id] = order.size(); order.push_back(x); continue; }
        st.push_back({x, true}); for (E s : {x->a, x->b, x->c}) if (s && !pos.count(s->id)) st.push_back({s, false}); }
      for (E x : order) n.push_back(N{x->k, x->w, (uint8_t)(x->a ? x->a->w : 0), (uint8_t)(x->b ? x->b->w : 0), x->lo, x->a ? pos[x->a->id] : 0, x->b ? pos[x->b->id] : 0, x->c ? pos[x->c->id] : 0, x->val});
    }
    void step(size_t i, std::vector<uint64_t>& v) const {
      const N& q = n[i];
      switch (q.k) {
        case K_CONST: v[i] = q.val; break; case K_VAR: break;
        case K_ITE: v[i] = v[q.a] ? v[q.b] : v[q.c]; break;
        case K_CONCAT: v[i] = (v[q.a] << q.bw) | v[q.b]; break;
        case K_EXTRACT: v[i] = (v[q.a] >> q.lo) & maskw(q.w); break;
        case K_ZEXT: v[i] = v[q.a]; break;
        case K_SEXT: v[i] = (uint64_t)sx(v[q.a], q.aw) & maskw(q.w); break;
        default: v[i] = ExprPool::foldBin(q.k, q.aw, v[q.a], v[q.b]); }
    }
  };
  // Decision procedure for conditions over pairs of variables whose remaining values lie in one
  // page of 256 each: the relation of each condition as a bit matrix, filled in as needed.
  struct Rel {
    Prog p; std::vector<uint64_t> known, val, v; std::vector<uint32_t> ia, ib, dep;   // places of the variables; steps that depend on the second
    uint64_t row = ~0ull;
    Rel(E e, uint32_t va, uint32_t vb) : p(e), known(1024, 0), val(1024, 0), v(p.n.size()) {
      std::vector<char> d(p.n.size(), 0);
      for (size_t i = 0; i < p.n.size(); i++) { const N& q = p.n[i];
        if (q.k == K_VAR) { if (q.val == va) ia.push_back(i); else if (q.val == vb) { ib.push_back(i); d[i] = 1; } continue; }
        if (q.k == K_CONST) continue;
        bool un = q.k == K_EXTRACT || q.k == K_ZEXT || q.k == K_SEXT;
        d[i] = d[q.a] || (!un && d[q.b]) || (q.k == K_ITE && d[q.c]); if (d[i]) dep.push_back(i); }
      isDep = d;
    }
    std::vector<char> isDep;
    void need(unsigned x, uint64_t pa, uint64_t pb, const uint64_t* want) {   // makes row x known at the wanted places
      for (int w = 0; w < 4; w++) { uint64_t m = want[w] & ~known[x * 4 + w]; if (!m) continue;
        if (row != x) { row = x; for (auto i : ia) v[i] = pa | x; for (size_t i = 0; i < p.n.size(); i++) if (!isDep[i]) p.step(i, v); }
        for (; m; m &= m - 1) { unsigned y = w * 64 + __builtin_ctzll(m);
          for (auto i : ib) v[i] = pb | y; for (auto i : dep) p.step(i, v);
          known[x * 4 + w] |= m & -m; if (v.back()) val[x * 4 + w] |= m & -m; } }
    }
  };
  std::unordered_map<uint64_t, std::unique_ptr<Rel>> rels; uint64_t relDecided = 0;
  // values left to a variable by the conditions on it alone; false: not within one page
  bool page(int var, const std::vector<uint32_t>& key, E cond, uint64_t& base, uint64_t* bits) {
    if (P.vars[var]->w > 16) return false;
    size_t n = ((1ull << P.vars[var]->w) + 63) / 64; const VarSet* vs = P.vars[var]->vs; std::vector<const uint64_t*> ts;
    if (cond->vs == vs) ts.push_back(tt(cond, var)->data());
    for (uint32_t id : key) if (P.byId[id]->vs == vs) ts.push_back(tt(P.byId[id], var)->data());
    if (ts.empty() && n > 4) return false;
    long pg = -1; for (int i = 0; i < 4; i++) bits[i] = 0;
    for (size_t i = 0; i < n; i++) { uint64_t m = P.vars[var]->w < 6 ? maskw(1u << P.vars[var]->w) : ~0ull; for (auto* t : ts) { m &= t[i]; if (!m) break; }
      if (m) { if (pg >= 0 && pg != (long)(i / 4)) return false; pg = i / 4; bits[i & 3] = m; } }
    base = pg < 0 ? 0 : (uint64_t)pg << 8; return true;
  }
  // Conditions over one and two such variables each: arc consistency and case splitting.
  struct Arc { Rel* r; int a, b; };
  typedef std::array<uint64_t, 4> Bits;
  static bool none(const Bits& b) { return !(b[0] | b[1] | b[2] | b[3]); }
  static int count(const Bits& b) { int n = 0; for (auto x : b) n += __builtin_popcountll(x); return n; }
  bool propagate(std::vector<Bits>& D, const std::vector<Arc>& arcs, const std::vector<uint64_t>& pg) {
    for (bool ch = true; ch;) { ch = false;
      for (auto& r : arcs) {
        Bits na{}, nb{};
        for (int w = 0; w < 4; w++) for (uint64_t m = D[r.a][w]; m; m &= m - 1) { unsigned x = w * 64 + __builtin_ctzll(m);
          r.r->need(x, pg[r.a], pg[r.b], D[r.b].data()); uint64_t any = 0;
          for (int k = 0; k < 4; k++) { uint64_t h = r.r->val[x * 4 + k] & D[r.b][k]; any |= h; nb[k] |= h; }
          if (any) na[w] |= m & -m; }
        if (none(na)) return false;
        if (na != D[r.a]) { D[r.a] = na; ch = true; }
        if (nb != D[r.b]) { D[r.b] = nb; ch = true; } } }
    return true;
  }
  struct Hyper { Prog p; std::vector<int> at; std::vector<int> need; };   // a condition over more variables, evaluated when all are fixed
  bool holds(const Hyper& h, const std::vector<Bits>& D, const std::vector<uint64_t>& pg) {
    std::vector<uint64_t> val(D.size()), v(h.p.n.size());
    for (int i : h.need) { if (count(D[i]) != 1) return true; for (int w = 0; w < 4; w++) if (D[i][w]) val[i] = pg[i] | (w * 64 + __builtin_ctzll(D[i][w])); }
    for (size_t i = 0; i < v.size(); i++) { if (h.at[i] >= 0) v[i] = val[h.at[i]]; else h.p.step(i, v); }
    return v.back();
  }
  int splitCases(std::vector<Bits>& D, const std::vector<Arc>& arcs, const std::vector<uint64_t>& pg, const std::vector<Hyper>& hy, int& budget) {
    if (!propagate(D, arcs, pg)) return 0;
    if (--budget < 0) return -2;
    for (auto& h : hy) if (!holds(h, D, pg)) return 0;
    int best = -1, bn = 0; for (size_t i = 0; i < D.size(); i++) { int n = count(D[i]); if (n > 1 && !hy.empty() && std::find(hy[0].need.begin(), hy[0].need.end(), (int)i) == hy[0].need.end()) n += 1000; if (n > 1 && (best < 0 || n < bn)) { best = i; bn = n; } }
    if (best < 0) return 1;
    for (int w = 0; w < 4; w++) for (uint64_t m = D[best][w]; m; m &= m - 1) {
      std::vector<Bits> d = D; d[best] = Bits{}; d[best][w] = m & -m;
      int r = splitCases(d, arcs, pg, hy, budget); if (r == 1) D = d; if (r != 0) return r; }
    return 0;
  }
  int checkPairs(const VarSet* vs, const std::vector<uint32_t>& key, E cond, std::vector<uint64_t>& model) {   // -2: not applicable
    std::vector<int> v; std::unordered_map<int, int> at;
    for (size_t i = 0; i < vs->size(); i++) for (uint64_t b = (*vs)[i]; b; b &= b - 1) { at[i * 64 + __builtin_ctzll(b)] = v.size(); v.push_back(i * 64 + __builtin_ctzll(b)); }
    if (v.size() > 12) return -2;
    auto pair = [&](E e, int& a, int& b) { a = b = -1; for (size_t i = 0; i < e->vs->size(); i++) for (uint64_t m = (*e->vs)[i]; m; m &= m - 1) { int x = i * 64 + __builtin_ctzll(m); if (a < 0) a = x; else if (b < 0) b = x; else return false; } return true; };
    int x, y; std::vector<Hyper> hy;
    for (uint32_t id : key) if (!pair(P.byId[id], x, y)) return -2;
    std::vector<Bits> D(v.size()); std::vector<uint64_t> pg(v.size()); std::vector<Arc> arcs;
    for (size_t i = 0; i < v.size(); i++) { if (!page(v[i], key, cond, pg[i], D[i].data())) return -2; if (none(D[i])) { st.ttUnsat++; return 0; } }
    auto add = [&](E e) { if (!pair(e, x, y)) { Hyper h{Prog(e), {}, {}}; for (auto& n : h.p.n) { h.at.push_back(n.k == K_VAR ? at[(int)n.val] : -1); if (n.k == K_VAR) h.need.push_back(h.at.back()); } hy.push_back(h); return; } if (y < 0) return; int a = at[x], b = at[y];
      uint64_t k = ((uint64_t)e->id << 16) | (pg[a] & 0xff00) | pg[b] >> 8; auto& r = rels[k]; if (!r) r = std::make_unique<Rel>(e, P.vars[x]->val, P.vars[y]->val); arcs.push_back({r.get(), a, b}); };
    add(cond); for (uint32_t id : key) add(P.byId[id]);
    int budget = hy.empty() ? 3000 : 600, r = splitCases(D, arcs, pg, hy, budget); if (r == -2) return r;
    relDecided++; if (r == 0) { st.ttUnsat++; return 0; }
    if (model.size() <= (size_t)v.back()) model.resize(v.back() + 1, 0);
    for (size_t i = 0; i < v.size(); i++) for (int w = 0; w < 4; w++) if (D[i][w]) model[v[i]] = pg[i] | (w * 64 + __builtin_ctzll(D[i][w]));
    st.ttSat++; return 1;
  }
  // Decision procedure for conditions over one variable of at most 16 bits:
  // the set of values satisfying the condition, as a bit set.
  std::unordered_map<uint32_t, std::vector<uint64_t>*> tts; uint64_t ttBuilt = 0, ttDecided = 0;
  static int singleVar(const VarSet* vs) { int r = -1; for (size_t i = 0; i < vs->size(); i++) if ((*vs)[i]) { if (r >= 0 || ((*vs)[i] & ((*vs)[i] - 1))) return -1; r = i * 64 + __builtin_ctzll((*vs)[i]); } return r; }
  const std::vector<uint64_t>* tt(E e, int var) {
    auto it = tts.find(e->id); if (it != tts.end()) return it->second;
    unsigned w = P.vars[var]->w; size_t n = 1ull << w;
    auto* r = new std::vector<uint64_t>((n + 63) / 64, 0);
    if (e->w == 1 && (e->k == K_AND || e->k == K_OR) && n > 256) {
      auto* x = tt(e->a, var); auto* y = tt(e->b, var);
      for (size_t i = 0; i < r->size(); i++) (*r)[i] = e->k == K_AND ? (*x)[i] & (*y)[i] : (*x)[i] | (*y)[i];
    } else if (P.isNot(e) && n > 256) { auto* x = tt(e->a, var); for (size_t i = 0; i < r->size(); i++) (*r)[i] = ~(*x)[i]; }
    else if (ExprPool::isC(e)) { for (size_t i = 0; i < r->size(); i++) (*r)[i] = e->val ? ~0ull : 0; }
    else { // evaluate the DAG for all values, node by node
      Prog prog(e); std::vector<uint64_t> v(prog.n.size());
      for (size_t val = 0; val < n; val++) {
        for (size_t i = 0; i < prog.n.size(); i++) { if (prog.n[i].k == K_VAR) v[i] = val; else prog.step(i, v); }
        if (v.back()) (*r)[val >> 6] |= 1ull << (val & 63); }
    }
    if (n < 64) (*r)[0] &= maskw(n);
    ttBuilt++; tts[e->id] = r; return r;
  }
  // Simplification under the value sets the path condition leaves to small variables:
  // subterms over one variable that agree on all of its remaining values become one term.
  struct Dom { int var; std::vector<uint64_t> vals; };
  std::vector<Dom> doms; std::unordered_map<std::vector<uint64_t>, uint32_t, ExprPool::VH> domIds;
  std::unordered_map<uint64_t, E> canonMemo; std::unordered_map<std::vector<uint64_t>, E, ExprPool::VH> canonTab;
  uint64_t simplified = 0;
  uint32_t domOf(int var, const std::vector<E>& cs) {
    size_t n = 1ull << P.vars[var]->w; std::vector<uint64_t> b((n + 63) / 64, ~0ull); if (n < 64) b[0] = maskw(n);
    const VarSet* vs = P.vars[var]->vs;
    for (E c : cs) if (c->vs == vs) { auto* t = tt(c, var); for (size_t i = 0; i < b.size(); i++) b[i] &= (*t)[i]; }
    b.push_back(var);
    auto it = domIds.find(b); if (it != domIds.end()) return it->second;
    Dom d; d.var = var; for (size_t i = 0; i < n; i++) if (b[i >> 6] >> (i & 63) & 1) d.vals.push_back(i);
    uint32_t id = doms.size(); doms.push_back(d); domIds[b] = id; return id;
  }
  E canon(E e, uint32_t dom) {
    uint64_t mk = (uint64_t)e->id << 32 | dom; auto it = canonMemo.find(mk); if (it != canonMemo.end()) return it->second;
    std::vector<uint64_t> key{dom, e->w}, m(doms[dom].var + 1, 0); bool same = true;
    for (uint64_t v : doms[dom].vals) { m[doms[dom].var] = v; key.push_back(P.eval(e, m)); same &= key.back() == key[2]; }
    E r; if (same && key.size() > 2) r = P.cst(key[2], e->w); else r = canonTab.emplace(key, e).first->second;
    return canonMemo[mk] = r;
  }
  E simp(E e, const std::vector<E>& cs, std::unordered_map<int, uint32_t>& dm, std::unordered_map<E, E>& memo) {
    if (ExprPool::isC(e)) return e;
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    E r = e; int sv = singleVar(e->vs);
    if (sv >= 0) { if (P.vars[sv]->w <= 8) { auto d = dm.find(sv); if (d == dm.end()) d = dm.emplace(sv, domOf(sv, cs)).first; if (!doms[d->second].vals.empty()) r = canon(e, d->second); } }
    else {
      E a = e->a ? simp(e->a, cs, dm, memo) : nullptr;
      if (e->k == K_ITE && ExprPool::isC(a)) r = simp(a->val ? e->b : e->c, cs, dm, memo);
      else if (e->w == 1 && e->k == K_AND && a == P.fls) r = a;
      else if (e->w == 1 && e->k == K_OR && a == P.tru) r = a;
      else {
        E b = e->b ? simp(e->b, cs, dm, memo) : nullptr, c = e->c ? simp(e->c, cs, dm, memo) : nullptr;
        if (a != e->a || b != e->b || c != e->c) switch (e->k) {
          case K_ITE: r = P.ite(a, b, c); break; case K_CONCAT: r = P.concat(a, b); break; case K_EXTRACT: r = P.extract(a, e->lo, e->w); break;
          case K_ZEXT: r = P.zext(a, e->w); break; case K_SEXT: r = P.sext(a, e->w); break; default: r = P.bin(e->k, a, b); }
      }
    }
    return memo[e] = r;
  }
  // Is (all cs) && cond satisfiable?  model updated for the variables involved.
  // 1 sat, 0 unsat, -1 unknown
  // A sample of the decisions made without z3 is put to z3 as well.
  volatile int* wrongFlag = nullptr; void wrong(const char* m) { fputs(m, stderr); if (wrongFlag) *wrongFlag = 1; abort(); }
  uint64_t crossChecked = 0, sinceTt = 0, sincePair = 0; unsigned everyTt = 20000, everyPair = 400;
  int check(const std::vector<E>& cs, E cond, std::vector<uint64_t>& model) {
    uint64_t q0 = st.queries, h0 = st.cacheHits, p0 = relDecided;
    int r = check1(cs, cond, model);
    if (st.queries != q0 || st.cacheHits != h0 || ExprPool::isC(cond)) return r;
    if (relDecided != p0 ? ++sincePair % everyPair : ++sinceTt % everyTt) return r;
    double t0 = nowS(); sol->reset(); for (E c : cs) sol->add(z3::expr(*ctx, T(c))); sol->add(z3::expr(*ctx, T(cond)));
    z3::check_result z = z3::unknown; try { z = sol->check(); } catch (z3::exception&) {}
    double dt = nowS() - t0; st.solverTime += dt; st.queries++; crossChecked++;
    if (z == z3::sat) st.sat++; else if (z == z3::unsat) st.unsat++;
    if (z != z3::unknown && (z == z3::sat) != (r == 1)) wrong("symx: the front end and z3 disagree\n");
    if (r == 1) for (E c : cs) if (!P.eval(c, model)) wrong("symx: wrong model\n");
    return r;
  }
  int check1(const std::vector<E>& cs, E cond, std::vector<uint64_t>& model) {
    if (ExprPool::isC(cond) && !cond->val) return 0;
    if (singleVar(cond->vs) < 0) {
      std::unordered_map<int, uint32_t> dm; std::unordered_map<E, E> memo;
      E c2 = simp(cond, cs, dm, memo);
      if (c2 != cond) { simplified++; if (c2 == P.fls) { st.ttUnsat++; return 0; } if (c2 != P.tru) cond = c2; }
    }
    // slice
    const VarSet* vs = cond->vs;
    std::vector<uint32_t> key; std::vector<char> in(cs.size(), 0);
    bool ch = true;
    while (ch) { ch = false;
      for (size_t i = 0; i < cs.size(); i++) if (!in[i] && ExprPool::inter(cs[i]->vs, vs)) { in[i] = 1; key.push_back(cs[i]->id); auto* n = P.uni(vs, cs[i]->vs); if (n != vs) { vs = n; ch = true; } } }
    int sv = singleVar(vs);
    if (sv >= 0 && P.vars[sv]->w <= 16) {
      ttDecided++;
      std::vector<const std::vector<uint64_t>*> ts{tt(cond, sv)};
      for (uint32_t id : key) ts.push_back(tt(P.byId[id], sv));
      for (size_t i = 0; i < ts[0]->size(); i++) { uint64_t m = ~0ull; for (auto* t : ts) { m &= (*t)[i]; if (!m) break; }
        if (m) { if (model.size() <= (size_t)sv) model.resize(sv + 1, 0); model[sv] = i * 64 + __builtin_ctzll(m); st.ttSat++; return 1; } }
      st.ttUnsat++; return 0;
    }
    int cv = singleVar(cond->vs);            // already impossible with the conditions on this variable alone?
    if (cv >= 0 && P.vars[cv]->w <= 16) {
      std::vector<uint64_t> m = *tt(cond, cv); uint64_t any = 0;
      for (uint32_t id : key) if (P.byId[id]->vs == cond->vs) { auto* t = tt(P.byId[id], cv); for (size_t i = 0; i < m.size(); i++) m[i] &= (*t)[i]; }
      for (uint64_t x : m) any |= x;
      if (!any) { st.ttUnsat++; return 0; }
      // or possible by changing this variable only?
      std::vector<uint64_t> md = model; if (md.size() <= (size_t)cv) md.resize(cv + 1, 0); int tries = 0;
      for (size_t i = 0; i < m.size() && tries < 48; i++) for (uint64_t x = m[i]; x && tries < 48; x &= x - 1, tries++) {
        md[cv] = i * 64 + __builtin_ctzll(x); bool ok = true;
        for (uint32_t id : key) if (P.byId[id]->vs != cond->vs && !P.eval(P.byId[id], md)) { ok = false; break; }
        if (ok) { model = md; st.ttSat++; return 1; }
      }
    }
    { int r2 = checkPairs(vs, key, cond, model); if (r2 != -2) return r2; }
    E nc = P.notE(cond);
    for (uint32_t id : key) { if (P.byId[id] == nc) { st.cacheHits++; return 0; } }
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    size_t nk = key.size();
    key.push_back(0xffffffffu); key.push_back(cond->id);
    auto it = cache.find(key);
    if (it == cache.end()) {
      CR r; double t0 = nowS();
      sol->reset();
      for (size_t i = 0; i < nk; i++) sol->add(z3::expr(*ctx, T(P.byId[key[i]])));
      sol->add(z3::expr(*ctx, T(cond)));
      if (dumpMax && dumpN < dumpMax) { dumpN++; FILE* f = fopen((dumpDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(dumpN) + ".smt2").c_str(), "w"); if (f) { fputs("(set-logic QF_BV)\n", f); fputs(sol->to_smt2().c_str(), f); fclose(f); } }
      z3::check_result z = z3::unknown;
      try { z = sol->check(); } catch (z3::exception&) { z = z3::unknown; }
      if (z == z3::sat) {
        z3::model m = sol->get_model(); r.r = 1;
        for (size_t wi = 0; wi < vs->size(); wi++) for (uint64_t bits = (*vs)[wi]; bits; bits &= bits - 1) {
          uint32_t v = wi * 64 + __builtin_ctzll(bits);
          z3::expr x = m.eval(z3::expr(*ctx, T(P.vars[v])), true); uint64_t val = 0;
          Z3_get_numeral_uint64(*ctx, x, (uint64_t*)&val); r.m.push_back({v, val}); }
        st.sat++;
      } else if (z == z3::unsat) { r.r = 0; st.unsat++; } else { r.r = -1; st.unknown++; }
      double dt = nowS() - t0; st.solverTime += dt; if (dt > st.maxQuery) st.maxQuery = dt; st.queries++;
      it = cache.emplace(std::move(key), std::move(r)).first;
    } else st.cacheHits++;
    if (it->second.r == 1) for (auto& p : it->second.m) { if (model.size() <= p.first) model.resize(p.first + 1, 0); model[p.first] = p.second; }
    return it->second.r;
  }
};
