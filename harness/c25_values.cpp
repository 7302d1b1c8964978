// C25: syllable strings, groups of alternatives, chains and lattices are values that hold what was put in.
#include "common.h"
#include "lattice/lattice.h"
#ifndef OPS
#define OPS 4
#endif
struct S { uint64_t i; int end; };                            // a syllable by initial and end position
static Syl syl(const S& s) { C5 c{s.i, 0, 5, 0, 1}; return sylOf(c, s.end); }
static S symS(int k) { S s; s.i = sx_range(nm("i", k).c_str(), 8, 1, 21); s.end = (int)(int8_t)sx_sym(nm("end", k).c_str(), 8); return s; }
typedef std::vector<S> V;
static bool sameS(const Syl& a, const S& b) { Syl x = syl(b); return sameComp(a, x) & !a.isLiteral() & (a.endPos() == b.end); }
static bool is(const SylString& s, const V& v) {
  size_t n = 0; bool r = true;
  for (auto& x : s) { if (n == v.size()) return false; r &= sameS(x, v[n]); n++; }
  return r & (n == v.size());
}
#ifdef GROUPS
// groups, chains and lattices
static SylString str(int k, V& v) {
  SylString s; int n = 1 + sx_choose(nm("len", k).c_str(), 2);
  for (int j = 0; j < n; j++) { S x = symS(2 * k + j); x.end = 3 + j; v.push_back(x); s += syl(x); }
  return s;
}
static bool eq(const V& a, const V& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r &= a[i].i == b[i].i; return r; }
static void holds(const PronunFrac& f, const std::vector<V>& in) {
  const SylString* prev = nullptr; int n = 0; bool only = true, sorted = true; std::vector<bool> seen(in.size(), false);
  for (auto& s : f) {
    bool h = false; for (size_t k = 0; k < in.size(); k++) { bool e = is(s, in[k]); h |= e; seen[k] = seen[k] | e; }
    only &= h; if (prev) sorted &= *prev < s; prev = &s; n++;
  }
  SX_CHECK(only, "a group has an alternative that was not added"); SX_CHECK(sorted, "the alternatives of a group are not sorted and distinct");
  bool all = true; for (bool b : seen) all &= b;
  SX_CHECK(all, "an alternative added to a group is missing"); SX_CHECK(f.altCount() == n, "number of alternatives of a group");
}
extern "C" void sx_main() {
  std::vector<V> va, vb; PronunFrac a, b;
  int na = sx_choose("na", OPS), nb = sx_choose("nb", 3), k = 0;
  if (na) { va.emplace_back(); SylString s = str(k++, va[0]); if (sx_choose("how", 2)) { int ep = (int)(int8_t)sx_sym("end", 8); a = PronunFrac(ep, s); SX_CHECK(a.endPos() == ep, "end position of a group"); } else { PronunFrac t; t += syl(S{1, 1}); t = s; a = t; SX_CHECK(a.endPos() == s.endPos(), "end position of a group set to one string"); } }
  for (int j = 1; j < na; j++) { va.emplace_back(); a += str(k++, va.back()); }
  for (int j = 0; j < nb; j++) { vb.emplace_back(); b += str(k++, vb.back()); }
  holds(a, va); holds(b, vb);
  bool sub = true, sup = true;
  for (auto& x : va) { bool h = false; for (auto& y : vb) h |= eq(x, y); sub &= h; }
  for (auto& y : vb) { bool h = false; for (auto& x : va) h |= eq(x, y); sup &= h; }
  SX_CHECK((a == b) == (sub & sup), "groups are equal although they hold different alternatives, or the reverse");
  PronunFrac c(a), keep(a), m(PronunFrac((const PronunFrac&)b));
  std::vector<V> vc = va; for (auto& y : vb) vc.push_back(y);
  c += b; holds(c, vc); holds(a, va); holds(b, vb); holds(m, vb); holds(keep, va);
  c += c; holds(c, vc);
  if (na) { PronunFrac o(a); o = *o.begin(); bool h = false; for (auto& x : va) h |= is(*o.begin(), x); SX_CHECK(h & (o.altCount() == 1), "a group set to one of its alternatives"); holds(a, va); }
  c.setEndPos(5); SX_CHECK(c.endPos() == 5, "end position of a group");
  sx_dump("alts", c.altCount());
  // chains and lattices keep their parts in order
  PronunChain ch(a), ce; ce += b; ch += ce; ch += c; PronunChain cc(ch); cc += a;
  int n = 0; bool ok = true;
  for (auto& f : ch) { ok &= f == (n == 0 ? a : n == 1 ? b : c); n++; }
  SX_CHECK(ok & (n == 3), "a chain is not the sequence of the groups appended"); n = 0; for (auto& f : cc) { (void)f; n++; }
  SX_CHECK(n == 4, "copies of chains are not independent");
  { PronunChain t(ch); PronunChain& r = t; t += r; t = r; t += *t.begin(); int q = 0; ok = true; for (auto& f : t) { ok &= f == (q % 3 == 0 ? a : q % 3 == 1 ? b : c); q++; } SX_CHECK(ok & (q == 7), "a chain joined to itself");
    PronunFrac g(c); PronunFrac& gr = g; g = gr; holds(g, vc); if (vc.size()) { g += *g.begin(); holds(g, vc); } }
  PronunLatt l(ch), l0; { PronunLatt t(ch); PronunLatt& r = t; t = r; t += *t.begin(); SX_CHECK(t.altCount() == 2, "a lattice with its own chain added"); } SX_CHECK(l0.altCount() == 0, "an empty lattice has chains"); l += cc; l += PronunChain(b); PronunLatt l2(l); l2 += ch; l0 = l2;
  SX_CHECK((l.altCount() == 3) & (l2.altCount() == 4) & (l0.altCount() == 4), "number of chains of a lattice");
  n = 0; ok = true; for (auto& x : l) { int q = 0; for (auto& f : x) { ok &= f == (n == 2 || q == 1 ? b : q == 2 ? c : a); q++; } ok &= q == (n == 2 ? 1 : n == 1 ? 4 : 3); n++; }
  SX_CHECK(ok, "a lattice is not the sequence of the chains added");
  sx_reach(na + nb > 2 ? "many" : "few");
  if (nb == 0) sx_reach("empty");
}
#else
// two strings under any sequence of operations
extern "C" void sx_main() {
  SylString a, b; V va, vb;
  for (int k = 0; k < OPS; k++) {
    int op = sx_choose(nm("op", k).c_str(), 10);
    if (op == 0) { S s = symS(k); a += syl(s); va.push_back(s); sx_reach("append"); }
    else if (op == 1) { a += b; va.insert(va.end(), vb.begin(), vb.end()); sx_reach("join"); }
    else if (op == 2) { a += a; V t = va; va.insert(va.end(), t.begin(), t.end()); }
    else if (op == 3) { S s = symS(k); a = syl(s); va.assign(1, s); sx_reach("set"); }
    else if (op == 4) { a = b; va = vb; }
    else if (op == 5) { b = a; vb = va; sx_reach("copy"); }
    else if (op == 6) { SylString t(a); SylString u(std::move(t)); b += u; vb.insert(vb.end(), va.begin(), va.end()); }
    else if (op == 7) { if (va.empty()) sx_prune(); a = *a.begin(); V t(1, va[0]); va = t; sx_reach("self"); }
    else if (op == 8) { S s = symS(k); SylString t(syl(s)); b = t; t += syl(s); vb.assign(1, s); }
    else {
      int off = sx_choose(nm("off", k).c_str(), 4); if (!off) off = 77;
      a.shiftEndPos(off); for (auto& s : va) s.end += (int)sx_select(s.end < 0, (uint64_t)(int64_t)(-101 * off), (uint64_t)off); sx_reach("shift");
    }
  }
  SX_CHECK(is(a, va), "a syllable string is not what was put in"); SX_CHECK(is(b, vb), "a syllable string changed with another one");
  SX_CHECK(a.endPos() == (va.empty() ? 0 : va.back().end), "end position of a syllable string");
  sx_dump("end", (uint64_t)(unsigned)b.endPos());
}
#endif
