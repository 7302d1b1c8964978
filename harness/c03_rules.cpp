// C03: the readings of a word are exactly the licensed ones.
#include "text.h"
#ifndef L
#define L 3
#endif
extern "C" void sx_main() {
  Txt t;
#ifdef TPLS
  const char16_t* tpl = pickTpl("pattern");
  for (int k = 0; tpl[k]; k++) t.add(symTpl(nm("c", k).c_str(), tpl[k]));
#else
  int n = 1 + sx_choose("n", L);
  for (int k = 0; k < n; k++) t.add(symWord(nm("c", k).c_str()));
#endif
  Parser p(false);
  PronunDAG d = p.parseWord(t.s);
  ref::Analysis a(t.u);
  ref::compare(d, a);
  dumpDAG("dag", d);
  sx_reach(a.segs.empty() ? "none" : "some");
}
