// Comparing pronunciation graphs.
#pragma once
#include "common.h"
#include "lattice/pron-dag.h"
struct PEdge { int f, t; Syl s; };
static inline std::vector<PEdge> edgesOf(const PronunDAG& d) {
  std::vector<PEdge> r; for (auto it = d.outBegin(); it != d.outEnd(); ++it) r.push_back(PEdge{it->first, it->second.target, it->second.edgeVal}); return r;
}
static inline bool sameEdge(const PEdge& a, const PEdge& b) { return (a.f == b.f) & (a.t == b.t) & (a.s.endPos() == b.s.endPos()) & sameSyl(a.s, b.s); }
static inline bool hasEdge(const std::vector<PEdge>& v, const PEdge& e) { bool h = false; for (auto& x : v) if (x.f == e.f && x.t == e.t) h |= sameEdge(x, e); return h; }
static inline bool subEdges(const std::vector<PEdge>& a, const std::vector<PEdge>& b) { bool r = true; for (auto& e : a) r &= hasEdge(b, e); return r; }
static inline bool sameDAG(const PronunDAG& a, const PronunDAG& b) { auto x = edgesOf(a), y = edgesOf(b); return subEdges(x, y) & subEdges(y, x); }
static inline void dumpDAG(const char* n, const PronunDAG& d) {
  auto v = edgesOf(d); sx_dump(n, v.size());
  for (auto& e : v) { sx_dump("f", (unsigned)e.f); sx_dump("t", (unsigned)e.t); if (e.s.isLiteral()) { sx_dump_u16("lit", e.s.literal()); continue; }
    sx_dump("i", (uint64_t)e.s.iCons1()); sx_dump("v", (uint64_t)e.s.vowel()); sx_dump("e", (uint64_t)e.s.eCons()); sx_dump("o", (uint64_t)e.s.tone()); }
}
