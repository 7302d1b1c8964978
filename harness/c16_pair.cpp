// C16: any two syllables in sequence.
#include "common.h"
#include "output/output-roman.h"
static const char* RI[] = {"", "k", "kh", "ng", "ch", "ch", "y", "d", "t", "th", "n", "b", "p", "ph", "f", "m", "r", "l", "w", "s", "h", ""};
static const char* RS[] = {"", "r", "l", "w"};
static const char* RV[] = {"a", "i", "ue", "u", "e", "ae", "ia", "uea", "ua", "o", "o", "oe"};
static const char* RE[] = {"", "k", "t", "p", "ng", "n", "m", "i", "o"};
extern "C" void sx_main() {
  C5 a = symC5(1), b = symC5(2);
#ifdef NOCLUSTER
  SX_ASSUME(a.s == 0); SX_ASSUME(b.s == 0);
  bool cap = false;
#else
  bool cap = sx_choose("cap", 2);
#endif
  RomanOutput o(cap);
  SylString s; s += sylOf(a, 1); s += sylOf(b, 2);
  std::string p = o.output(s);
  std::string w = std::string(RI[a.i]) + RS[a.s] + RV[a.v >> 1] + RE[a.e];
  if (cap) w[0] = w[0] - 32;
  bool hyph = (b.i == 21) | ((b.i == 3) & (a.e == 0));
  if (hyph) { w += '-'; sx_reach("hyphen"); } else sx_reach("plain");
  w += std::string(RI[b.i]) + RS[b.s] + RV[b.v >> 1] + RE[b.e];
  SX_CHECK(sameStr(p, w), "romanization of two syllables");
}
