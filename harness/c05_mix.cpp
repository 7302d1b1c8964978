// C05: arbitrary texts mixing word characters, periods and other characters.
#include "text.h"
extern "C" void sx_main() {
  Txt t; int n = 1 + sx_choose("n", LEN);
  for (int k = 0; k < n; k++) t.add(symAny(nm("c", k).c_str()));
  Parser p(false); PronunDAG d = p.parseWord(t.s);
  ref::Analysis r(t.u); ref::compare(d, r); dumpDAG("dag", d);
  sx_reach(r.segs.empty() ? "none" : "some");
}
