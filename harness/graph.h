// Small symbolic graphs shared by the listing, JSON and grouping harnesses.
#pragma once
#include "common.h"
#include "lattice/pron-dag.h"
struct GEdge { int f, t; Syl s; };
typedef std::vector<Syl> Path;
// K edges over nodes 0..N-1 (from < to), as a non-decreasing list of node pairs.
// Returns false when an edge starts at a node nothing leads to (such edges are never listed).
static inline void paths(const std::vector<GEdge>& g, int from, Path& cur, std::vector<Path>& out, int depth = 0) {
  bool any = false;
  for (auto& e : g) if (e.f == from) { any = true; cur.push_back(e.s); paths(g, e.t, cur, out, depth + 1); cur.pop_back(); }
  if (!any && depth) out.push_back(cur);
}
static inline bool samePath(const Path& a, const Path& b) {
  if (a.size() != b.size()) return false;
  bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & sameSyl(a[i], b[i]);
  return r;
}
static inline Path pathOf(const SylString& s) { Path p; for (auto& x : s) p.push_back(x); return p; }
// node pairs: choose a non-decreasing sequence
static inline std::vector<std::pair<int, int>> shape(int n, int k) {
  std::vector<std::pair<int, int>> all, r;
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) all.push_back({i, j});
  int lo = 0;
  for (int e = 0; e < k; e++) { lo += sx_choose(nm("edge", e).c_str(), (int)all.size() - lo); r.push_back(all[lo]); }
  return r;
}
// node numbers of the graph: position 0 and increasing positions, or with a pre-syllable node
static inline int nodeNo(int i, bool neg) { static const int P[] = {0, 2, 3, 5, 8, 9, 11}; return neg && i == 1 ? -302 : P[i]; }
