// C09: word boundaries.
#include "text.h"
extern "C" void sx_main() {
  Txt t;
#ifdef TPLS
  unsigned long m = 0; const char16_t* tpl = pickTpl("pattern");
  for (; *tpl; tpl++) if (*tpl == u'/') m |= 1ul << t.u.size(); else t.add(symTpl(nm("c", (int)t.u.size()).c_str(), *tpl));
#else
  int n = 1 + sx_choose("n", LEN);
  for (int k = 0; k < n; k++) {
#ifdef MIX
    t.add(symAny(nm("c", k).c_str())); SX_ASSUME(t.u.back() != 0);
#else
    t.add(symLetter(nm("c", k).c_str()));
#endif
  }
  unsigned long m = sx_conc(sx_range("breaks", 8, 0, (1u << n) - 1)) & ~1ul;
#endif
  sx_brk_on = 1; sx_brk_mask = m;
  Parser on(true); PronunDAG d = on.parseWord(t.s);
  auto segs = ref::segsOf(d); bool cross = false;
  for (auto& g : segs) if (!g.s[0]->isLiteral()) for (int b = g.from + 1; b < g.to; b++) if (m >> b & 1) { bool ok = b == g.to - 1; if (ok) ok = t.u[b] == u'.'; cross = cross | !ok; }
  SX_CHECK(!cross, "a syllable straddles a word boundary");
  ref::Analysis r(t.u, m); ref::compare(d, r);
  Parser off(false); PronunDAG e = off.parseWord(t.s); sx_brk_mask = 0; sx_brk_on = 0; PronunDAG f = off.parseWord(t.s);
  SX_CHECK(sameResult(e, f), "boundaries have an influence although segmentation is off");
  if (m == 0) SX_CHECK(sameResult(d, e), "segmentation without boundaries changes the readings");
  dumpDAG("dag", d);
  sx_reach(r.segs.empty() ? "none" : m ? "some" : "whole");
}
