// C20: the grouped lattice expands to exactly the paths of the graph.
#include "graph.h"
#ifndef N
#define N 4
#endif
#ifndef K
#define K 5
#endif
static void compare(const PronunDAG& d, const std::vector<Path>& want);
#ifdef LISTS
// the graph is made from a list of readings given by their syllables and end positions
extern "C" void sx_main() {
  std::list<SylString> ls; std::vector<GEdge> g; int n = 1 + sx_choose("n", LISTS);
  for (int k = 0; k < n; k++) {
    SylString s; int pos = 0;
    for (int j = 0; j < 3 && pos < 3; j++) {
      std::string x = nm("r", k) + char('a' + j); int step = sx_choose(x.c_str(), 4 - pos); if (!step) break;
      int f = nodeNo(pos, true); pos += step; int t = nodeNo(pos, true);
      C5 c{sx_range((x + "i").c_str(), 8, 1, 21), 0, 5, 0, 1}; s += sylOf(c, t);
      bool dup = false; for (auto& o : g) if (o.f == f && o.t == t) dup |= sameSyl(o.s, sylOf(c, t));
      if (!dup) g.push_back(GEdge{f, t, sylOf(c, t)});
    }
    ls.push_back(s);
  }
  std::vector<Path> want; Path cur; paths(g, 0, cur, want);
  PronunDAG d(ls);
  compare(d, want);
  if (sx_choose("again", 2)) { for (auto& s : ls) d.addSylString(0, s); compare(d, want); sx_reach("again"); }
}
#else
extern "C" void sx_main() {
  bool neg = sx_choose("neg", 2);
#ifdef SUBSETS
  // any subset of the edges of the complete graph, each with a label of its own or a shared one, some doubled
  std::vector<std::pair<int, int>> sh; int k = 0; bool shared = sx_choose("shared", 2); int twice = sx_choose("twice", N);
  for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) {
    bool in = i == 0; for (auto& o : sh) in |= o.second == i;
    if (!in || !sx_choose((nm("e", i) + char('a' + j)).c_str(), 2)) continue;
    sh.push_back({i, j}); if (twice && j == i + twice) sh.push_back({i, j});
  }
  k = (int)sh.size();
#else
  int k = sx_choose("k", K + 1);
  auto sh = shape(N, k);
#endif
  std::vector<GEdge> g; PronunDAG d;
  for (int e = 0; e < k; e++) {
#ifdef SUBSETS
    C5 c{(uint64_t)(1 + (shared ? sh[e].second : e % 20)), (uint64_t)(e / 20), 5, 0, 1}; if (shared && e && sh[e] == sh[e - 1]) c.v = 4;
#else
    C5 c{sx_range(nm("i", e).c_str(), 8, 1, 21), 0, 5, 0, 1};
#endif
    int f = nodeNo(sh[e].first, neg), t = nodeNo(sh[e].second, neg);
    // e.on: the label differs from the earlier parallel ones
    bool dup = false; for (auto& o : g) if (o.f == f && o.t == t) dup |= sameSyl(o.s, sylOf(c, t));
    if (dup) sx_prune();              // a graph holds an edge once (C22)
    g.push_back(GEdge{f, t, sylOf(c, t)}); 
  }
  // edges are added in the order chosen or the reverse one
  if (sx_choose("rev", 2)) for (int e = k; e-- > 0;) d.addEdge(g[e].f, g[e].t, g[e].s);
  else for (int e = 0; e < k; e++) d.addEdge(g[e].f, g[e].t, g[e].s);
  std::vector<Path> want; Path cur;
  paths(g, 0, cur, want);
  compare(d, want);
  if (!k) sx_reach("empty");
}
#endif
static void compare(const PronunDAG& d, const std::vector<Path>& want) {
  std::vector<Path> got;
  PronunLatt l = d.fracDAG().lattice();
  for (auto& chain : l) {
    std::vector<Path> acc(1);
    for (auto& frac : chain) {
      std::vector<Path> nx;
      for (auto& a : acc) for (auto& str : frac) { Path p = a; for (auto& s : str) p.push_back(s); nx.push_back(p); }
      acc = nx;
    }
    for (auto& a : acc) got.push_back(a);
  }
  for (auto& w : want) { bool h = false; for (auto& p : got) h |= samePath(w, p); SX_CHECK(h, "grouping loses a reading"); }
  for (auto& p : got) { bool h = false; for (auto& w : want) h |= samePath(w, p); SX_CHECK(h, "grouping invents a reading"); }
  // positions stay with the syllables
  for (auto& p : got) { bool h = false; for (auto& w : want) if (w.size() == p.size()) { bool q = samePath(w, p); for (size_t i = 0; i < w.size(); i++) q &= w[i].endPos() == p[i].endPos(); h |= q; } SX_CHECK(h, "grouping changes the end positions of a reading"); }
  sx_dump("paths", got.size());
  if (got.size() > 3) sx_reach("several");
  if (l.altCount() > 1) sx_reach("chains");
}
