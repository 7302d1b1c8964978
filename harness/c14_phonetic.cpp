// C14: phonetic notation is unambiguous, one code per component.
#include "common.h"
#include "output/sylout-phonetic.h"
static const char* PI[] = {"", "k", "kh", "ng", "j", "ch", "y", "d", "t", "th", "n", "b", "p", "ph", "f", "m", "r", "l", "w", "s", "h", ""};
static const char* PS[] = {"", "r", "l", "w"};
static const char* PV[] = {"ah", "aa", "ih", "iy", "ueh", "uee", "uh", "uw", "eh", "ey", "aeh", "aee", "iah", "iaa", "ueah", "ueaa", "uah", "uaa", "oh", "ow", "aoh", "aow", "oeh", "oee"};
static const char* PE[] = {"", "k", "t", "p", "ng", "n", "m", "y", "w"};
static const char* PT[] = {"", "0", "1", "2", "3", "4"};
extern "C" void sx_main() {
  PhoneticSylOutput o;
#ifdef PAIR
  C5 a = symC5(1), b = symC5(2);
  // a glottal initial forms no cluster in Thai; such tuples are not syllables
  SX_ASSUME((a.i != 21) | (a.s == 0)); SX_ASSUME((b.i != 21) | (b.s == 0));
  std::string p = o.output(sylOf(a)), q = o.output(sylOf(b));
  if (p == q) { sx_reach("same"); SX_CHECK(sameC5(a, b), "different syllables have the same phonetic notation"); }
  else { sx_reach("differ"); SX_CHECK(!sameC5(a, b), "equal syllables have different notations"); }
#else
  C5 a = symC5(1); int pos = (int)sx_sym("pos", 32);
  std::string p = o.output(sylOf(a, pos));
  std::string w = std::string(PI[a.i]) + PS[a.s] + PV[a.v] + PE[a.e] + PT[a.t];
  sx_dump_str("out", p);
  SX_CHECK(sameStr(p, w), "notation is not initial+cluster+vowel+final+tone");
  sx_reach("end");
#endif
}
