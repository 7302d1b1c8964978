// C05: text that is not Thai; MIX: between Thai words, OUT: printed.
#include "text.h"
#ifdef OUTP
#include "output/sylout-thai.h"
#include "output/sylout-roman.h"
#include "output/sylout-phonetic.h"
#include "output/sylout-raw.h"
#include "output/sylout-soundex.h"
#endif
static uint32_t other(const char* n) {
  uint32_t c = (uint32_t)sx_sym(n, 21);
  SX_ASSUME((c > 0) & (c < 0x110000) & ((c < 0xD800) | (c > 0xDFFF)));
  return c;
}
static void put(Txt& t, uint32_t c) { if (c > 0xFFFF) { utf8(t.s, c); t.u += (char16_t)(0xD7C0 + (c >> 10)); t.u += (char16_t)(0xDC00 + (c & 0x3FF)); } else t.add((char16_t)c); }
extern "C" void sx_main() {
  Txt t; std::vector<int> mark;
#ifdef OUTP
  int n = 1 + sx_choose("n", OUTP); for (int k = 0; k < n; k++) put(t, other(nm("c", k).c_str()));
  Syl s((int)t.u.size(), t.u); std::string want = "(" + t.s + ")";
  SX_CHECK(s.isLiteral(), "a literal is not a literal");
  std::string o[5] = {ThaiSylOutput().output(s), RomanSylOutput().output(s), PhoneticSylOutput().output(s), RawSylOutput().output(s), SoundexSylOutput().output(s)};
  static const char* const NM[5] = {"Thai", "romanization", "phonetic", "raw", "soundex"};
  for (int k = 0; k < 5; k++) { sx_dump_str(NM[k], o[k]); SX_CHECK(sameStr(o[k], k == 3 ? want + "@" + char(48 + t.u.size()) : want), "a literal is not printed unchanged between parentheses"); }
  sx_reach("end");
#else
  static const char16_t* const W[] = {u"", u"กา", u"ขัน", u"เขมร", u"ก"};
  int a = sx_choose("before", 5), b = sx_choose("after", 4), n = 1 + sx_choose("n", LEN);
  for (const char16_t* p = W[a]; *p; p++) t.add(*p);
  int from = (int)t.u.size();
  for (int k = 0; k < n; k++) { uint32_t c = other(nm("c", k).c_str()); SX_ASSUME(!ref::token((char16_t)c) | (c > 0xFFFF)); put(t, c); }
  int to = (int)t.u.size();
  for (const char16_t* p = W[b]; *p; p++) t.add(*p);
  Parser p(false); PronunDAG d = p.parseWord(t.s);
  bool found = false, clash = false;
  for (auto& e : edgesOf(d)) {
    bool lit = e.s.isLiteral();
    if (e.f == from && e.t == to && lit) { std::u16string l = e.s.literal(); bool eq = (int)l.size() == to - from; if (eq) for (int k = from; k < to; k++) eq = eq & (l[k - from] == t.u[k]); found = found | eq; if (!eq) clash = true; }
    else { int lo = e.f < 0 ? e.t : e.f, hi = e.t < 0 ? e.f : e.t; if (lit || (lo >= 0 && hi >= 0 && lo < to && hi > from)) clash = true; }
  }
  SX_CHECK(found, "text that is not Thai does not appear as one unchanged literal");
  SX_CHECK(!clash, "text that is not Thai is also read some other way, or Thai text is taken as literal");
  ref::Analysis r(t.u); ref::compare(d, r);
  sx_reach("end");
#endif
}
