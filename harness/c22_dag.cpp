// C22: the graph is a set of distinct labelled edges under any sequence of operations.
#include "common.h"
#include "lattice/pron-dag.h"
#ifndef OPS
#define OPS 3
#endif
// reference: edges ever added, each with a presence bit
struct E { int f, t; uint64_t i, v; int lit; bool on; };
static Syl lab(const E& e) {
  if (e.lit) return Syl(e.t, std::u16string(1, (char16_t)(0x60 + e.i)));
  C5 c{e.i, 0, e.v, 0, 1}; return sylOf(c, e.t);
}
static E symE(int k) {
  static const int F[] = {-1, -1, 0}, T[] = {0, 1, 1};     // shared source, shared target, a chain
  int p = sx_choose(nm("pair", k).c_str(), 3);
  E e; e.f = F[p]; e.t = T[p]; e.i = sx_range(nm("i", k).c_str(), 8, 1, 21); e.v = 5;
#ifdef LITS
  e.lit = sx_choose(nm("lit", k).c_str(), 2);
#else
  e.lit = 0;
#endif
  e.on = true; return e;
}
static bool sameEnds(const E& a, const E& b) { return (a.f == b.f) & (a.t == b.t); }
static bool sameE(const E& a, const E& b) { return sameEnds(a, b) & (a.lit == b.lit) & (a.i == b.i) & ((a.lit != 0) | (a.v == b.v)); }
struct M {
  std::vector<E> v;
  bool add(E e) { bool x = false; for (auto& o : v) x |= o.on & sameE(o, e); e.on = !x; v.push_back(e); return !x; }
  bool del(const E& e) { bool x = false; for (auto& o : v) { bool h = o.on & sameE(o, e); x |= h; o.on &= !h; } return x; }
  bool delDirect(const E& e) { bool x = false; for (auto& o : v) { bool h = o.on & sameEnds(o, e); x |= h; o.on &= !h; } return x; }
};
static int cnt(bool b) { return (int)b; }
static void verify(const PronunDAG& g, const M& m, const E& any) {
  int n = 0; for (auto& o : m.v) n += cnt(o.on);
  bool x = false; for (auto& o : m.v) x |= o.on & sameE(o, any);
  SX_CHECK(g.isEdgeExist(any.f, any.t, lab(any)) == x, "existence query disagrees with the set of edges");
  // every edge shown is in the set; as many as the set has, all distinct
  auto hit = [&](int f, int t, const Syl& s) {
    bool h = false;
    for (auto& o : m.v) if (o.f == f && o.t == t) h |= o.on & sameSyl(lab(o), s);
    return h;
  };
  struct S { int f, t; Syl s; };
  std::vector<S> out, in;
  for (auto it = g.outBegin(); it != g.outEnd(); ++it) out.push_back(S{it->first, it->second.target, it->second.edgeVal});
  for (auto it = g.inBegin(); it != g.inEnd(); ++it) in.push_back(S{it->second.target, it->first, it->second.edgeVal});
  bool ok = true, dis = true;
  for (auto& q : out) ok &= hit(q.f, q.t, q.s);
  SX_CHECK(ok, "iteration from the source side shows an edge not in the set");
  ok = true; for (auto& q : in) ok &= hit(q.f, q.t, q.s);
  SX_CHECK(ok, "iteration from the target side shows an edge not in the set");
  for (auto* l : {&out, &in}) for (size_t i = 0; i < l->size(); i++) for (size_t j = 0; j < i; j++)
    dis &= !((*l)[i].f == (*l)[j].f && (*l)[i].t == (*l)[j].t && sameSyl((*l)[i].s, (*l)[j].s));
  SX_CHECK(dis, "an edge is shown twice");
  SX_CHECK(((int)out.size() == n) & ((int)in.size() == n), "number of edges in the iterations");
  for (int p = -1; p <= 1; p++) {
    int od = 0, id = 0, c = 0, d = 0; bool ck = true;
    for (auto& o : m.v) { od += cnt(o.on & (o.f == p)); id += cnt(o.on & (o.t == p)); }
    SX_CHECK(g.outDegree(p) == od, "out-degree"); SX_CHECK(g.inDegree(p) == id, "in-degree");
    auto r = g.outEdges(p); for (auto it = r.first; it != r.second; ++it) { c++; ck &= (it->first == p) & hit(p, it->second.target, it->second.edgeVal); }
    auto q = g.inEdges(p); for (auto it = q.first; it != q.second; ++it) { d++; ck &= (it->first == p) & hit(it->second.target, p, it->second.edgeVal); }
    SX_CHECK(ck & (c == od) & (d == id), "out- or in-edges of a node");
  }
  sx_dump("edges", (uint64_t)n);
}
extern "C" void sx_main() {
  PronunDAG g, h; M m, mh;
  for (int k = 0; k < OPS; k++) {
    int op = sx_choose(nm("op", k).c_str(), 6);
    E e = symE(k);
    if (op == 0) { bool w = m.add(e); SX_CHECK(g.addEdge(e.f, e.t, lab(e)) == w, "adding an edge reports the wrong change"); sx_reach("add"); }
    else if (op == 1) { if (!k) sx_prune(); bool w = m.del(e); SX_CHECK(g.removeEdge(e.f, e.t, lab(e)) == w, "removing an edge reports the wrong change"); sx_reach(w ? "removed" : "absent"); }
    else if (op == 2) { if (!k) sx_prune(); bool w = m.delDirect(e); SX_CHECK(g.removeDirectEdges(e.f, e.t) == w, "removing direct edges reports the wrong change"); sx_reach("direct"); }
    else if (op == 3) { bool w = mh.add(e); SX_CHECK(h.addEdge(e.f, e.t, lab(e)) == w, "adding an edge reports the wrong change"); }
    else if (op == 4) { if (!k) sx_prune(); g.unionDAG(h); for (auto o : mh.v) { E z = o; bool x = false; for (auto& y : m.v) x |= y.on & sameE(y, z); z.on = o.on & !x; m.v.push_back(z); } sx_reach("union"); }
    else { if (!k) sx_prune(); PronunDAG c(g); g = h; h = c; M t = m; m = mh; mh = t; sx_reach("copy"); }
  }
  E any = symE(90);
  PronunDAG c(g); c.addEdge(any.f, any.t, lab(any));   // a copy is independent
  verify(g, m, any);
  PronunDAG d((PronunDAG&&)c); m.add(any);
  verify(d, m, any);
}
