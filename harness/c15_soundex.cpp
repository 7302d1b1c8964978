// C15: soundex merges exactly the intended distinctions.
#include "common.h"
#include "output/sylout-soundex.h"
extern "C" void sx_main() {
  SoundexSylOutput o;
#ifdef PAIR
  C5 a = symC5(1), b = symC5(2);
  std::string p = o.output(sylOf(a)), q = o.output(sylOf(b));
  uint64_t ai = sx_select(a.i == 16, 17, a.i), bi = sx_select(b.i == 16, 17, b.i);   // r and l are one
  bool want = (ai == bi) & ((a.v >> 1) == (b.v >> 1)) & (a.e == b.e);
  if (p == q) { sx_reach("same"); SX_CHECK(want, "soundex merges syllables that differ in initial, vowel quality or final"); }
  else { sx_reach("differ"); SX_CHECK(!want, "soundex separates syllables that differ only in length, tone, cluster letter or r/l"); }
#else
  C5 a = symC5(1);
  std::string p = o.output(sylOf(a, (int)sx_sym("pos", 32)));
  sx_dump_str("out", p);
  static const char SI[] = "*kcgjJydtTnbpPfmllwsh?";
  SX_CHECK(p.size() == 3, "soundex code is not three letters");
  SX_CHECK((p[0] == SI[a.i]) & (p[1] == VW[a.v & ~1ul]) & (p[2] == EC[a.e]), "soundex code letters");
  sx_reach("end");
#endif
}
