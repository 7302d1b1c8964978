// C24: analyses do not depend on each other.
#include "text.h"
extern "C" void sx_main() {
  Txt a, b;
#ifdef TPLS
  const char16_t *p1 = pickTpl("first"), *p2 = pickTpl("second");
  for (int k = 0; p1[k]; k++) a.add(symTpl(nm("a", k).c_str(), p1[k]));
  for (int k = 0; p2[k]; k++) b.add(symTpl(nm("b", k).c_str(), p2[k]));
  int n1 = (int)a.u.size(); bool dict = false;
#else
  int n1 = 1 + sx_choose("n1", LEN), n2 = 1 + sx_choose("n2", LEN);
  for (int k = 0; k < n1; k++) a.add(symLetter(nm("a", k).c_str()));
  for (int k = 0; k < n2; k++) b.add(symLetter(nm("b", k).c_str()));
  bool dict = sx_choose("dict", 2);
#endif
  Parser p(false), q(false);
  if (dict) { sx_file_put(sx_path("d.dic"), dictFile({{u"กา", "g_A_0@2"}, {u"ก", "n_i_3@1"}})); p.loadExceptDict(sx_path("d.dic").c_str()); q.loadExceptDict(sx_path("d.dic").c_str()); }
  PronunDAG a1 = p.parseWord(a.s), keep = a1, b1 = p.parseWord(b.s);
  SX_CHECK(sameResult(a1, keep), "a result changes when another word is analysed");
  PronunDAG a2 = p.parseWord(a.s), b2 = q.parseWord(b.s), a3 = q.parseWord(a.s);
  SX_CHECK(sameResult(a1, a2), "a word is read differently the second time");
  SX_CHECK(sameResult(a1, a3) & sameResult(b1, b2), "two analysers read a word differently");
  { PronunDAG c = a1; c.addSylString(0, SylString(std::string("k_A_0@1"))); c.removeDirectEdges(0, n1); a1 = b1; }
  PronunDAG a4 = p.parseWord(a.s);
  SX_CHECK(sameResult(keep, a4), "changing a result changes later analyses");
  sx_reach(dict ? "dict" : "plain");
}
